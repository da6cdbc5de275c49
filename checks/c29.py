"""C29 no side effects, no hidden state: every call made by the other properties' workloads is watched."""
import importlib
import numpy as np
from frmmon import Section, CaseAbort
import purity

PROPERTY = 'C29'
ANCHORS = ['frm/utils/daycount.py', 'frm/utils/schedule.py', 'frm/utils/tenor.py', 'frm/utils/business_day_calendar.py', 'frm/term_structures/zero_curve.py', 'frm/term_structures/swap_curve.py',
           'frm/term_structures/historical_swap_index_fixings.py', 'frm/term_structures/bootstrap_helpers.py', 'frm/term_structures/fx_helpers.py', 'frm/term_structures/fx_volatility_surface.py',
           'frm/term_structures/interest_rate_option_helpers.py', 'frm/pricing_engine/black76_bachelier.py', 'frm/pricing_engine/garman_kohlhagen.py', 'frm/pricing_engine/heston.py',
           'frm/pricing_engine/cosine_method_generic.py', 'frm/pricing_engine/sabr.py', 'frm/pricing_engine/clewlow_strickland_1_factor.py', 'frm/pricing_engine/geometric_brownian_motion.py',
           'frm/pricing_engine/monte_carlo_generic.py', 'frm/pricing_engine/volatility_generic.py', 'frm/pricing_engine/hw1f.py']
TECHNIQUE = ('runtime monitoring: a shadow monitor wraps every call of the other workloads, pictures arguments and process-wide state before and after, repeats the call on deep copies, '
             'overwrites the handed-out result and asks again, and replays calls of earlier cases later in the process')
RULE = 'the workloads of properties C01 to C28 in random interleaving, every call watched; non-trivial = new input of the underlying workload'
ASSUMPTIONS = ['Repeated answers are compared to 1e-12 relative (memory layout of copies may change the last bit of a sum).',
               'Functions that draw random numbers may use numpy\'s global stream; all others must leave it where it was.',
               'Methods documented to change their object (schedule columns, model set-up and fit) are compared from equal starting objects.']
# quick and thorough cases per workload
PLAN = {'c01': (50, 800), 'c02': (260, 4000), 'c03': (160, 2500), 'c04': (24, 200), 'c05': (160, 2500), 'c06': (120, 1500), 'c07': (80, 1200), 'c08': (120, 1500), 'c09': (90, 1200),
        'c10': (40, 500), 'c11': (90, 1200), 'c12': (70, 900), 'c13': (60, 800), 'c14': (300, 4000), 'c15': (150, 2500), 'c16': (200, 3000), 'c17': (200, 3000), 'c18': (80, 1200),
        'c19': (10, 120), 'c20': (70, 900), 'c21': (200, 3000), 'c22': (120, 1600), 'c23': (140, 2000), 'c24': (200, 3000), 'c25': (80, 900), 'c26': (160, 2500), 'c27': (24, 240), 'c28': (120, 1600)}
_mods = {}


def mod(name):
    if name not in _mods: _mods[name] = importlib.import_module('checks.' + name)
    return _mods[name]


def warmup():
    for n in PLAN:
        w = getattr(mod(n), 'warmup', None)
        if w: w()


def run(name):
    def fn(m, rng):
        purity.fresh_start()
        M = mod(name)
        secs = [s for s in M.SECTIONS if not s.name.endswith('ensemble')] or M.SECTIONS
        s = secs[int(rng.integers(len(secs)))]
        sh = purity.Shadow(m, M.PROPERTY, s.name, np.random.default_rng(int(rng.integers(2 ** 62))))
        sh.index = int(rng.integers(max(1, s.quick)))
        m.case(False, workload=M.PROPERTY, section=s.name)
        try: s.fn(sh, rng)
        except CaseAbort: m.event('aborted ' + name)
        except Exception: m.event('unreadable ' + name)        # judged by the property the workload belongs to
    return fn


SECTIONS = [Section(n, run(n), q, t, ['repeated', 'replayed_later', 'overwritten', 'refused', 'fresh_same_returned', 'fresh_varied_returned', 'fresh_varied_raised'] if n == 'c01' else []) for n, (q, t) in PLAN.items()]
