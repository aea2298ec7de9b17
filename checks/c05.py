"""C05: a stale or missing model is refused."""
import life


def check(r):
    life.check(r, ['life-outcome-Eval', 'life-generated', 'life-outcome-(SetHp|Current|Stored|Optz)', 'evaluation-error'],
               ['hp_not_compared', 'kept_when_setup_fails', 'kept_with_new_data'], label='histories')
    r.notes.append('an evaluation may be refused when a failed optimization came before or when hyperparameters were replaced by equal ones')
