"""C04 joint business-day calendars against a set model of the holiday data shipped with the package."""
import os, dill
import numpy as np
from frmmon import Section, REPO
import gen
from frm.utils.business_day_calendar import get_busdaycal

PROPERTY = 'C04'
ANCHORS = ['frm/utils/business_day_calendar.py']
RULE = ('random subsets (size 1-6) of all supported currency and centre keys, shuffled, re-cased, repeated; '
        'every day of 1990-2099 is judged for each; non-trivial when the key list is new')
U = os.path.join(REPO, 'frm/utils')
DATA = {}
for f in ('LOCALE_HOLIDAY.pkl', 'CCY_HOLIDAY.pkl'):
    with open(os.path.join(U, f), 'rb') as fh:
        DATA.update(dill.load(fh))
KEYS = sorted(DATA)
DAYS = np.arange('1990-01-01', '2100-01-01', dtype='datetime64[D]')
WD = (DAYS.astype('int64') + 3) % 7
_bus = {}


def bus(key):
    if key not in _bus:
        h = DATA[key]
        hol = np.array(sorted(h.keys()), dtype='datetime64[D]')
        _bus[key] = ~(np.isin(WD, sorted(h.weekend)) | np.isin(DAYS, hol))
    return _bus[key]


def judge(m, keys, arg, key):
    cal = m.call(key, get_busdaycal, arg)
    got = np.is_busday(DAYS, busdaycal=cal)
    want = np.logical_and.reduce([bus(k) for k in keys])
    bad = DAYS[got != want]
    m.ok(bad.size == 0, key, lambda: {'first differing dates': [str(d) for d in bad[:5]], 'n': int(bad.size),
                                      'got business day': bool(got[got != want][0])})
    m.event('days judged', DAYS.size)
    return cal


def recase(rng, k):
    return [k, k.lower(), k.upper(), k.title()][rng.integers(4)]


def single(m, rng):
    k = KEYS[m.index % len(KEYS)]
    m.case(key=k)
    judge(m, [k], k, 'single:exact'); judge(m, [k], k.lower(), 'single:lower'); judge(m, [k], [k.upper()], 'single:upper')


def joint(m, rng):
    ks = [str(x) for x in rng.choice(KEYS, size=int(rng.integers(2, 7)), replace=False)]
    if rng.integers(3) == 0: ks[0] = gen.pick(rng, ['AED', 'SAR', 'ILS', 'AE-DUBAI', 'SA-RIYADH', 'IL-TEL_AVIV'])
    arg = [recase(rng, k) for k in ks]
    if rng.integers(2): arg += [recase(rng, gen.pick(rng, ks))]
    rng.shuffle(arg)
    before = list(arg)
    m.case(keys=arg)
    judge(m, ks, arg, 'joint')
    m.ok(arg == before, 'joint:mutated')
    if any(DATA[k].weekend != DATA[ks[0]].weekend for k in ks): m.event('mixed weekends')
    a2 = list(arg); rng.shuffle(a2)
    judge(m, ks, a2, 'joint:reordered')


def sequence(m, rng):
    """Calendars asked for one after another in one process: every key, then sets that differ by one key."""
    m.case(sequence=m.index, seed=int(rng.integers(2 ** 31)))
    for k in rng.permutation(KEYS): judge(m, [str(k)], str(k) if rng.integers(2) else [str(k)], 'sequence:single')
    ks = [str(x) for x in rng.choice(KEYS, size=3, replace=False)]
    for _ in range(12):
        judge(m, ks, list(ks), 'sequence:joint')
        j = int(rng.integers(3)); near = [c for c in KEYS if c[:2] == ks[j][:2] and c not in ks]
        ks = list(ks); ks[j] = gen.pick(rng, near) if near and rng.integers(2) else str(rng.choice([c for c in KEYS if c not in ks]))
        if rng.integers(3) == 0: judge(m, ks[:2], ks[:2], 'sequence:subset')
    m.event('sequence')


def edge(m, rng):
    m.case(i=m.index)
    cal = m.call('none', get_busdaycal, None)
    m.ok(np.array_equal(np.is_busday(DAYS, busdaycal=cal), WD < 5), 'none:monday-friday')
    bad = ''.join(chr(int(c)) for c in rng.integers(65, 91, 5))
    if bad not in {k.upper() for k in KEYS}:
        m.refuses('unknown', get_busdaycal, bad)
        m.refuses('unknown', get_busdaycal, [gen.pick(rng, KEYS), bad])


SECTIONS = [Section('single', single, len(KEYS), len(KEYS)), Section('joint', joint, 800, 8000, ['mixed weekends']),
            Section('sequence', sequence, 48, 240, ['sequence']),
            Section('edge', edge, 40, 200)]
