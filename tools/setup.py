"""Setup: everything is run from source; parse the specifications once so that a broken installation shows early."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla'
with tempfile.TemporaryDirectory() as d:
    r = subprocess.run(['javac', '-nowarn', '-cp', f'{TLA}/tla2tools.jar', '-d', d, f'{V}/java/RealArith.java'])
    if r.returncode: sys.exit(1)
os.makedirs(f'{V}/evidence', exist_ok=True)
for f in sorted(os.listdir(f'{V}/spec')):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar', 'tla2sany.SANY', f],
                           cwd=f'{V}/spec', capture_output=True, text=True)
        if r.returncode: print(r.stdout, r.stderr); sys.exit(1)
print('setup done')
