"""Usage: python checks/run.py Cxx   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import importlib, os, sys, traceback, signal, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

LIMIT = dict(quick=840, thorough=6 * 3600)

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    r = vf.Run(prop)
    done = threading.Event()

    class Hang(BaseException): pass
    def on_alarm(*a): raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT[r.tier])
    try:
        try:
            vf.use_repo()
            importlib.import_module(prop.lower()).check(r)
        except vf.Machinery:
            raise
        except Hang:
            r.violation('hang', f'the code under test did not finish within {LIMIT[r.tier]} s', traceback.format_exc())
        except Exception as e:
            tb = sys.exc_info()[2]
            if not vf.in_repo(tb) and not isinstance(e, vf.CodeFailed): raise
            r.violation('exception', f'unexpected {type(e).__name__} in the code under test: {e}', traceback.format_exc())
        signal.alarm(0)
        rc = r.finish()
    except BaseException:
        traceback.print_exc()
        import shutil; shutil.rmtree(r.tmp, ignore_errors=True)
        print(f'ERROR: the machinery of the check {prop} failed')
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__': main()
