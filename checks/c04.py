"""C04: predictions reflect the latest data and hyperparameters."""
import life
import gpgen as G


def check(r):
    life.check(r, ['eval-fresh', 'eval-key', 'eval-ref', 'life-scaling-.*', 'evaluation-error'], ['kept_with_new_data', 'kept_when_scaling_changes'], label='histories')
    # the settings change as well
    rng = r.rng('settings')
    def rec(s, i):
        o, _, t = s.setup()
        if o != 'ok': return [dict(ev='Bad', what='setup', text=t)]
        return [s.eval(s.points(2), grad=True)] + ([s.eval(s.points(2), var=True)] if not s.gp.b_use_data_scl else [])
    r.validate('GPTrace', [G.reused(r, rng, G.KERNS[j % 3], 8, rec) for j in range(12 if not r.thorough else 90)], ['data-accepted', 'case-xs', 'eval-.*', 'evaluation-error'], 'changing settings')
    r.notes.append('predictions equal to 1e-6 (relative to the largest entry) those of a fresh object; at most 4 points and 2 dimensions')
