#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written notes below, plus what the check modules and catches.json say.

Run as  PYTHONPATH=/repo:/verif/lib:/verif PROJECT_DIR_FRM=/repo /opt/venv/bin/python -B tools/mkdesign.py
"""
import importlib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = '''# Runtime monitoring of shasafoster/frm

frm is a quantitative-finance library in pure Python (numpy, pandas, scipy, some numba): enums and conventions, day
counts, calendars, tenors and schedules at the bottom; zero curves, swap curves, fixings, bootstrapping, FX curves and
surfaces, rate-option quotes above them; Black, Bachelier, Garman-Kohlhagen, Heston, SABR, Hull-White pricing and Monte
Carlo simulation on top. It has no threads, no native code of its own, no persistent state, no network or file protocol.
Compiler sanitizers, race detectors and linearizability or crash-point checkers therefore have nothing to watch; the part
of the family that applies, and that decides every property here, is **monitors over executions of the real code under
generated hostile workloads**: each observed call (inputs, output, exception, warnings, changes to its arguments and to
process-wide state, place in a history of calls) is judged by an oracle that shares no code with frm.

## Common machinery

* `run.py` starts one monitor in the environment's own Python with fresh byte-code and numba caches, its own working
  directory, one thread, and a watchdog; it imports the code from /repo's working tree (or `FRM_REPO`).
* `lib/frmmon.py` splits the sections of a check over worker processes, gives every case its own random stream (seed,
  section, index), counts cases, distinct inputs, calls, judgements and named *events*, records the first witnesses of each
  kind of violation with the input and the place in /repo where it arose, writes the evidence file, and replays a
  witness (`--replay FILE`). A section names the events it must have seen; if one of them was never observed, the run says
  so and fails as inconclusive instead of passing on an empty workload. It also traces which lines of the anchored files
  were executed (`reach` in the evidence), on a sample of the cases.
* Every case is guarded: an exception from code that must answer is a violation; inputs that must be refused must raise.
* `lib/gen.py` draws dates with a bias to month ends, leap days, year ends and holidays, numbers over many magnitudes,
  calendars, and containers. `lib/ref*.py` are the independent models: `refsched` (integer-date schedules),
  `refcurve` (zero curves incl. not-a-knot splines), `refopt` (closed forms with erfc, quadrature of the payoff,
  high-order differences), `refheston` (Lewis integral, characteristic function checked against a Runge-Kutta solution of the
  Riccati equations). `lib/purity.py` is the shadow monitor of C29.
* Only public names and documented behaviour are used: no check looks at source text, at private helpers, at the number or order
  of internal calls, or at bit-exact floating point values (tolerances are stated per judgement, several orders above rounding
  and below any change of meaning), so refactorings stay silent.
* No hooks were needed in /repo: everything is observed through public calls (`hooks` in MANIFEST.json is empty).

Cost: a quick check takes 5-75 s (the whole set about 12 minutes one after another); thorough runs multiply the cases by 10 to
20 and take 2 to 14 minutes each on 8 cores.

Levels: every property is decided by observation of executions, so the evidence is "held on everything explored"; what was
explored is in `/verif/evidence/<id>.json` (cases, distinct inputs, events, lines reached).
'''

# property: (oracle in a sentence or two, what is beyond the tests, limits and corrected false alarms)
NOTES = {
'C01': ('Integer-arithmetic models of ACT/360, ACT/365, ACT/366, ACT/ACT ISDA, 30/360, 30E/360 and 30E/360 ISDA written from the definitions; vectors are compared with scalars row by row; ACT day counts must add up over split periods; reversed dates must be refused.',
        'All month-end, February, leap-year and termination-flag combinations, every date container and broadcast shape.', ''),
'C02': ('A second schedule generator on integer dates (no pandas offsets) for every frequency, roll convention, roll day, stub rule and specified stub dates; independent invariants (dates partition the life, no empty period, only stubs are irregular) are judged as well, so an error shared by both generators would still show.',
        'Stub dates which do not align with the grid, month-end rolls after February, calendars that move two dates onto each other: seven of the defects repaired were found here.', 'Where user-given stub dates and the generated grid conflict, the property only demands the invariants, not one layout.'),
'C03': ('Payment dates, day counts and year fractions recomputed per row with C01 and C05 models; notional flows must conserve (exchange at start, amortisation and end add to zero).', 'Per-row notional vectors, payment delays over holidays, columns requested in any order.', ''),
'C04': ('The holiday data shipped with the package read once as sets; the joint calendar must be their union on every day from 1990 to 2099, weekends intersected as documented; the same question asked again later in a run of other calendars gets the same answer (a request must not leave anything behind in the shared calendars).', 'Every subset of keys, re-cased, repeated and shuffled, and sequences of requests; tests touch one calendar.', ''),
'C05': ('A grammar generates tenor spellings with their meaning; the reading and the shift are compared with an integer date model.', 'Spelling, case, blanks and compound tenors over all dates; adjusted offsets across holidays both ways.', ''),
'C06': ('An explicit table spelling -> meaning per enumeration, decorated with case and blanks; strings within one edit which are not in the table must be refused.', 'The cross product of enumerations, spellings and decorations, and the refusals.', ''),
'C07': ('Decimal-precision formulas for each compounding convention; rate -> factor -> rate and conversions between all ordered pairs must be inverse.', 'All pairs over terms from a day to 60 years, negative rates.', ''),
'C08': ('`refcurve`: own not-a-knot splines and log-linear interpolation; pillars must be reproduced, both query routes (dates, days, years) agree, extrapolation as declared.', 'Input forms (tenor/date/days/years x rate/factor x row at zero x any order) and query forms multiply far beyond the samples; 9 defects repaired.', 'Value at t=0 is 0/0 and not judged.'),
'C09': ('Each forward is recomputed from the reference discount factors; chains of periods must compound to the long one; instantaneous forwards must integrate to the zero rate.', 'Unsorted overlapping period sets, holidays inside averaged periods, all bases.', ''),
'C10': ('Every zero rate of the shifted curve equals the old one plus the shift; shifts add, cancel and leave the original (and its table) untouched; conventions carried over.', 'Histories of shifts.', ''),
'C11': ('Day-by-day accrual of the fixing that applies (carried over non-publication days), compounded or averaged.', 'Periods starting or ending on any non-publication day, shuffled rows, gaps.', ''),
'C12': ('History model of C11 before the curve date, reference curve after it, product (or time-weighted mean) across it.', 'Period sets mixing all four positions in any order; every ordered pair of different bases must be refused.', 'Weak spot found by a planted bug and closed: only actual-day bases were paired before.'),
'C13': ('Every deposit and future must be repriced from the discount factors returned; settlement dates from the calendar model; ASX contract dates from a model of the second Friday rule.', 'Row order, settlement lags, overlapping strips, codes of 1, 2 and 4 digit years.', ''),
'C14': ('Independent closed forms, quadrature of the payoff, parity, monotonicity and convexity, round trips through the solvers and converters.', 'Eight orders of magnitude of forwards, negative rates, minutes to decades, options many deviations in or out of the money.', ''),
'C15': ('High-order differences of the reference prices; numerical greeks must lie within the range of the true derivative over twice the bump.', 'All shifts, sides, shapes.', ''),
'C16': ('Closed form with and without market forward; derivatives of it.', 'Forwards off parity, expiry zero, shapes.', ''),
'C17': ('The delta of the solved strike, recomputed from the closed form, must be the one quoted; implied volatilities must lie within the documented tolerance.', 'Four conventions, premium-adjusted branches, mixed batches; unattainable deltas must be refused.', ''),
'C18': ('Lewis integral by composite Gauss-Legendre.  Five pricers judged against it, against each other, by shape in strike, in the Black limit, and by parity.', 'Parameter space including violated Feller condition, long expiries.', 'SciPy\'s adaptive quadrature converges falsely at isolated inputs (about 1 in 5000): a miss is confirmed at three neighbouring strikes before it counts (a corrected false alarm).'),
'C19': ('Reference prices at the fitted parameters: volatilities reported must be the repriced ones, model smiles must be recovered, parameters admissible.', 'Whole smile space and four delta conventions.', ''),
'C20': ('The discretisation written out in numpy path by path on the same draws; moments and discounted-spot martingale on ensembles.', 'Both branches of the quadratic-exponential scheme, zero variance, extreme draws.', ''),
'C21': ('Hagan formula in independent form with series for small z; cubic root for the level; fit judged by repricing.', 'The neighbourhood of the money, where the formula is 0/0; parameter vectors.', ''),
'C22': ('Sizes, pairing, means, variances, correlations of draws, reproducibility across seeds and interleaved draws.', 'Odd counts, all shapes, and bulk draws of up to three million numbers (distinctness, moments per path, step and factor), where generators that repeat or refill a block first differ.', ''),
'C23': ('Closed-form path from the same draws; several-loop path recomputed; ensemble forward recovery.', 'As many underlyings as paths (broadcast ambiguity), partial loops.', ''),
'C24': ('Total-variance conservation and a scalar reference.', 'Ties, integers, tables.', ''),
'C25': ('The curve\'s own discount factors and numerically differentiated forwards, bond-option closed form, Jamshidian decomposition by bisection, path recursions.', 'Curves out to fifty years, tenors, shapes and schemes.', ''),
'C26': ('Day-by-day business-day models, arithmetic on quotes, a grammar of header spellings.', 'Mixed input rows in any order.', ''),
'C27': ('Every query recomputed from the raw quotes: forward, zero rates, variance interpolation, delta inversion by bisection, spline, closed form; histories compared with fresh surfaces.', 'Query histories (the surface caches smiles), mixed conventions.', ''),
'C28': ('Decimal arithmetic on the generated spelling; cap/floor tables recomputed.', 'All spellings and row orders, quotes a fraction of a basis point from the money.', ''),
'C29': ('A shadow of the monitor runs the workloads of C01 to C28 and, around every call, pictures arguments (deep, by value) and process state, repeats the call on copies, overwrites the returned result and asks again, and replays earlier calls later. A history probe asks the same question in a fresh process, and after a long run of other questions, and compares.', 'No test repeats or interleaves calls.', 'Last-bit differences between memory layouts are allowed (1e-12).'),
'C30': ('Each vector call is answered again one element at a time.', 'Mixed shapes, sides and limit elements in one vector; strikes solved together for very different volatilities; every Heston smile method.', ''),
}

UNCLAIMED = '''## What is not claimed, and why

The family applies to every property listed, so `not_applicable` is empty. Parts of the repository without a property:

* `frm.instruments` (leg, swap) cannot be imported and `frm.term_structures.optionlet.Optionlet` raises for every input at the pinned commit (names imported that do not exist,
  half-finished rewrites); `hw1f2.py`, `hw1f3.py`, `schedule_old.py` and the `notebooks`/`examples` are scratch. There is no behaviour
  a user could rely on yet.
* `FXVolatilitySurface.simulate_gbm_fx_rate_path` and `simulate_heston_fx_rate_path` raise on every input (work in progress).
* `ZeroCurve` without a spline has no `cubic_spline_definition`, so `repr(curve)` raises; `plot` methods are not judged.
* `HullWhite1Factor.simulate` and `heston_simulate` return zeros for a method they do not know; the enumerated methods are judged.
* `garman_kohlhagen_solve_strike_from_delta` has an `except ValueError(...)` clause which would raise TypeError instead of printing a
  hint; inputs that reach it are refused either way.
* SciPy's quadrature can converge falsely (see C18): behaviour of the library, not of frm.

## Defects found and repaired

`KNOWN_FINDINGS.txt` lists every repair ("fixed: property=... commit ..."); each is one `fix:` commit in /repo. There are no open known
findings: a violation on this tree would be new.

## How the machinery itself was tested

* **Planted bugs**: sixteen batches, each written from the property texts and the code; the ones that passed the conditions are in `seeded/`
  (table below), and each miss led to a stronger workload or oracle, not to a judgement about that bug. `tools/plant.py` builds and confirms
  them, `tools/recheck.py` runs all of them again.
* **Mechanical mutants**: `tools/mutate.py` changes one operator, constant or comparison at a time in the anchored files (or removes one
  condition, list element or keyword argument), drops mutants
  which the stable tests kill and runs the checks on the rest; survivors were read one by one (equivalent, outside documented behaviour,
  or a gap which was then closed).
* **Generator audit**: for every parameter of every public function under a property, the range and the containers it is drawn from
  were compared with what the function documents; e.g. whole numbers, repeated elements, empty inputs, time zones, unsorted rows.
* **Quietness**: about 55 behaviour-preserving edits (extracted helpers, rewritten loops, other algorithms with the same value,
  reordered statements, added caches of pure values) applied together to a copy left all thirty checks quiet; many seeds of
  both tiers were swept on the unchanged tree.

## False alarms corrected while building

Judgements that turned out too strong were corrected in the property or the monitor, never excused by input: stub layouts
when given stub dates conflict (C02), simple-average coupons of straddling periods (C12), numerical greeks at volatilities
below the bump (C15, C16), Newton tolerance of the implied volatility (C17), damping and kurtosis ranges of the Fourier pricers
and isolated quadrature failures (C18), cosine-series tolerance of deep calls without parity (C30), simple rates below -1/t that no discount factor can have (C08 to C10 generator), optimiser stopping tolerance on flat smiles (C19), time-step bias of ensembles (C20),
admissible SABR levels (C21), spline extrapolation beyond the quoted strikes (C27), last-bit layout effects (C29, C30).
'''


def main():
    out = [INTRO, '\n## Per property\n']
    props = {}
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l); props[p['id']] = p
    for i, p in sorted(props.items()):
        m = importlib.import_module('checks.' + i.lower())
        o, r, lim = NOTES[i]
        out.append('### %s %s\n' % (i, p['title']))
        out.append('*Anchored in* ' + ', '.join('`%s`' % a for a in p['anchors']['files']) + '.\n')
        out.append('*Oracle.* ' + o + '\n')
        out.append('*Workload.* ' + m.RULE[0].upper() + m.RULE[1:] + '.\n')
        secs = m.SECTIONS
        out.append('*Cases* (quick / thorough): ' + ', '.join('%s %d/%d' % (s.name, s.quick, s.thorough) for s in secs) + '.\n')
        ev = sorted({e for s in secs for e in s.require})
        if ev: out.append('*Must be observed:* ' + ', '.join(ev) + '.\n')
        out.append('*Beyond the tests.* ' + r + '\n')
        for a in getattr(m, 'ASSUMPTIONS', []): out.append('*Bound.* ' + a + '\n')
        if lim: out.append('*Note.* ' + lim + '\n')
    out.append(UNCLAIMED)
    f = V + '/tools/catches.json'
    if os.path.exists(f):
        c = json.load(open(f))
        out.append('\n## Planted bugs and what catches them\n\nEach is under `seeded/`; the check named is the quick one of its property; the judgement is the first that fired.\n\n| bug | needs | caught by |\n|---|---|---|\n')
        for k in sorted(c):
            mf = V + '/seeded/%s/meta.json' % k
            if not os.path.exists(mf): continue
            meta = json.load(open(mf))
            out.append('| %s | %s | %s |\n' % (k, meta['needs'].replace('|', '/').replace('\n', ' '), c[k].replace('|', '/')))
    txt = ''
    for o in out: txt += o if o.startswith('|') else o + '\n'
    open(V + '/DESIGN.md', 'w').write(txt)


main()
