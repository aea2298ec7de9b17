"""C06: history of hyperparameters."""
import numpy as np
from vf import S, call
import gpgen as G
import life


def check(r):
    life.check(r, ['row-.*', 'hist-others', 'life-hp-.*', 'life-scaling-Stored', 'life-outcome-(Store|Stored|Optz)', 'evaluation-error'],
               ['store_touches_others', 'scaling_not_restored'], label='histories')
    # iterations that are stored (again) after the settings have changed
    rng = r.rng('rows')
    def rec(s, k):
        gp = s.gp
        if not hasattr(gp, 'hp_beta_all'): gp.init_optz_surr(3)
        i = int(rng.integers(3)); cond = float(rng.choice([1.0, .985, .995, 2.0]) * gp.cond_max)
        b = life.rows_digest(gp, 3)
        o, _, t = call(lambda: gp.store_new_para_surr(i, s.h, None, cond))
        a = life.rows_digest(gp, 3)
        e = dict(ev='Row', out=o, h=life.hprec(s.h), cond=S(cond), condmax=S(float(gp.cond_max)), kept=all(a[j] == b[j] for j in range(3) if j != i), row=life.row_now(gp, i), back='none', _txt=t)
        call(lambda: gp.set_hpara('stored', i))
        if getattr(gp, 'hp_vals', None) is not None: e['back'] = life.hprec(gp.hp_vals)
        return [e]
    r.validate('GPTrace', [G.reused(r, rng, G.KERNS[j % 3], 10, rec) for j in range(12 if not r.thorough else 90)], ['data-accepted', 'row-.*', 'evaluation-error'], 'changing settings')
