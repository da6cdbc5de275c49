"""Shadow monitor: runs another property's workload and watches every call it makes for side effects, hidden state and aliasing."""
import contextlib, copy, copyreg, io, os, signal, sys, time, types, warnings
import dill
from frm.utils import business_day_calendar as _bdc
import enum
import numpy as np, pandas as pd
from frmmon import Mon, CaseAbort

MUTATOR = ('add_', 'set', 'setup', 'fit', 'make', 'remove', 'rebuild', '__init__')
MAXDEPTH = 14
copy._deepcopy_dispatch[np.busdaycalendar] = lambda x, memo: x      # immutable


class Unfreezable(Exception): pass


def freeze(x, memo=None, depth=0):
    """A self-contained picture of x: nested tuples of scalars and arrays."""
    memo = {} if memo is None else memo
    if x is None or isinstance(x, (bool, int, str, bytes, complex)): return x
    if isinstance(x, float): return x
    if isinstance(x, enum.Enum): return ('enum', type(x).__name__, x.name)
    if depth > MAXDEPTH: return ('deep', type(x).__name__)
    if id(x) in memo: return ('again', type(x).__name__)
    memo[id(x)] = x
    f = lambda y: freeze(y, memo, depth + 1)
    if isinstance(x, np.random.Generator): return ('rng',)
    if isinstance(x, np.ndarray):
        if x.dtype == object: return ('objarray', x.shape, tuple(f(y) for y in x.ravel().tolist()))
        return ('array', x.dtype.str, x.shape, x.copy())
    if isinstance(x, np.generic): return ('np', x.dtype.str, x.item() if x.dtype.kind not in 'mM' else str(x))
    if isinstance(x, (pd.Timestamp, pd.Timedelta)): return ('ts', str(x))
    if x is pd.NaT: return ('nat',)
    if isinstance(x, pd.DataFrame):
        return ('frame', tuple(map(str, x.columns)), f(x.index), tuple(f(x.iloc[:, i]) for i in range(x.shape[1])))
    if isinstance(x, pd.Series): return ('series', str(x.name), str(x.dtype), f(x.index), f(x.to_numpy()))
    if isinstance(x, pd.Index): return ('index', str(x.name), str(x.dtype), f(x.to_numpy()))
    if isinstance(x, np.busdaycalendar): return ('busdaycal', x.weekmask.copy(), x.holidays.copy())
    if isinstance(x, dict): return ('dict', tuple((f(k), f(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)): return (type(x).__name__, tuple(f(y) for y in x))
    if isinstance(x, (set, frozenset)): return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, types.MethodType): return ('method', x.__func__.__qualname__, f(x.__self__))
    if isinstance(x, types.FunctionType):
        cells = [c.cell_contents for c in (x.__closure__ or ()) if _filled(c)]
        return ('function', x.__qualname__, tuple(f(c) for c in cells))
    if isinstance(x, type): return ('type', x.__qualname__)
    if hasattr(x, '__dict__') and not isinstance(x, types.ModuleType) and not type(x).__module__.startswith('pandas'):
        d = vars(x)
        return ('object', type(x).__name__, tuple((k, f(d[k])) for k in sorted(d, key=str)))
    return ('other', type(x).__name__, repr(x)[:200] if type(x).__module__.startswith(('pandas', 'datetime', 'decimal')) else '')


def _filled(c):
    try: c.cell_contents
    except ValueError: return False
    return True


def diff(a, b, rtol=0.0, path=''):
    """None when equal, else the path of the first difference."""
    if type(a) is not type(b): return '%s: %s against %s' % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, float):
        return None if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)) else '%s: %r against %r' % (path, a, b)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype: return '%s: shape or type' % path
        if a.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                size = np.abs(a[np.isfinite(a)]) if rtol and a.size > 1 else a.ravel()[:0]
                same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + (.1 * rtol * size.max() if size.size else 0))       # sums of a matrix product may be taken in another order
        elif a.dtype.kind in 'mM': same = (a == b) | (np.isnat(a) & np.isnat(b))
        else: same = a == b
        if np.all(same): return None
        i = np.flatnonzero(~np.atleast_1d(same).ravel())[0]
        return '%s[%d]: %r against %r' % (path, i, np.atleast_1d(a).ravel()[i], np.atleast_1d(b).ravel()[i])
    if isinstance(a, tuple):
        if len(a) != len(b): return '%s: length %d against %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, '%s/%s' % (path, a[1] if i and isinstance(a[1], str) and len(a[1]) < 30 and a[0] in ('object',) else i))
            if d: return d
        return None
    return None if a == b else '%s: %s against %s' % (path, str(a)[:80], str(b)[:80])


def has_rng(x, depth=0):
    if isinstance(x, (np.random.Generator, Mon)): return True
    if depth > 4: return False
    if isinstance(x, (list, tuple)): return any(has_rng(y, depth + 1) for y in x)
    if isinstance(x, dict): return any(has_rng(y, depth + 1) for y in x.values())
    if isinstance(x, types.FunctionType): return any(has_rng(c.cell_contents, depth + 1) for c in (x.__closure__ or ()) if _filled(c))
    return False


def clone(x):
    """Deep copy, closures included."""
    if isinstance(x, types.MethodType): return types.MethodType(x.__func__, copy.deepcopy(x.__self__))
    if isinstance(x, types.FunctionType):
        if not x.__closure__: return x
        cells = tuple(types.CellType(clone(c.cell_contents)) if _filled(c) else c for c in x.__closure__)
        g = types.FunctionType(x.__code__, x.__globals__, x.__name__, x.__defaults__, cells)
        g.__kwdefaults__ = x.__kwdefaults__; g.__qualname__ = x.__qualname__
        return g
    if isinstance(x, tuple): return tuple(clone(y) for y in x)
    if isinstance(x, dict): return {k: clone(v) for k, v in x.items()}
    return copy.deepcopy(x)


def scramble(x, depth=0):
    """Overwrite what the caller was given, in place."""
    if depth > 3: return
    try:
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind in 'fi': x[...] = 7
        elif isinstance(x, pd.DataFrame):
            for i in range(x.shape[1]):
                if x.dtypes.iloc[i].kind == 'f': x.isetitem(i, 7.0)
                scramble(x.iloc[:, i], depth + 1)
        elif isinstance(x, pd.Series):
            if x.dtype.kind == 'f': x.iloc[:] = 7.0
        elif isinstance(x, dict):
            for k in list(x): scramble(x[k], depth + 1)
            x['__note__'] = 1
        elif isinstance(x, list):
            for y in x: scramble(y, depth + 1)
            x.append('__note__')
        elif isinstance(x, tuple):
            for y in x: scramble(y, depth + 1)
    except Exception:
        pass


def world():
    s = np.random.get_state()
    return (('random', s[1].copy(), int(s[2])), ('cwd', os.getcwd()), ('environ', tuple(sorted(os.environ.items()))), ('errstate', tuple(sorted(np.geterr().items()))),
            ('filters', tuple((a, getattr(b, 'pattern', b), c.__name__, getattr(d, 'pattern', d), e) for a, b, c, d, e in warnings.filters)),
            ('pandas', pd.get_option('mode.chained_assignment'), pd.get_option('display.width')))


def name_of(fn):
    f = fn.__func__ if isinstance(fn, types.MethodType) else fn
    return getattr(f, '__qualname__', getattr(f, '__name__', type(f).__name__))


def observes_frm(fn):
    f = fn.__func__ if isinstance(fn, types.MethodType) else fn
    return getattr(f, '__module__', '').startswith('frm')


RING = []
PATCHING = ('loops', 'limits')      # workloads that lower module limits while they run
RING_MAX = 80


# --- the same question asked in a process that has answered nothing before
GROUPS = [('regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward'),
          ('heston_1993', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons', 'heston_cosine', 'heston_lipton'),
          ('forward', 'per_delta_convention'), ('fixing_date', 'delivery_date'), ('simple', 'continuous', 'annual', 'daily'),
          ('eurusd', 'usdjpy', 'gbpusd', 'usdcad', 'audusd')]


CENTRES = sorted({k for d in ('CCY_HOLIDAY', 'LOCALE_HOLIDAY') for k in getattr(_bdc, d, ())})


def perturb(x, rng, depth=0):
    """x with one thing changed, or None."""
    if x is None or depth > 3: return None
    if isinstance(x, (bool, np.bool_)): return not x
    if isinstance(x, enum.Enum):
        o = [e for e in type(x) if e is not x]
        return o[int(rng.integers(len(o)))] if o else None
    if isinstance(x, (int, np.integer)): return -x if abs(x) == 1 and rng.integers(2) else (x + 1 if abs(x) < 10 ** 9 else None)
    if isinstance(x, (float, np.floating)):
        if x != x: return None
        return type(x)(x * (1 + rng.uniform(.004, .06)) if x else .01)
    if isinstance(x, str):
        if x.upper() in CENTRES or x in CENTRES:
            near = [c for c in CENTRES if c[:2].upper() == x[:2].upper() and c.upper() != x.upper()] or CENTRES
            return near[int(rng.integers(len(near)))]
        for g in GROUPS:
            if x in g: return g[(g.index(x) + 1 + int(rng.integers(len(g) - 1))) % len(g)]
        return None
    if isinstance(x, pd.Timestamp): return x + pd.Timedelta(days=int(rng.integers(1, 4)))
    if isinstance(x, pd.DatetimeIndex): return x + pd.Timedelta(days=1) if len(x) else None
    if isinstance(x, np.ndarray):
        if x.size == 0 or x.dtype.kind not in 'fiM': return None
        y = x.copy(); i = tuple(int(rng.integers(n)) for n in y.shape)
        if x.dtype.kind == 'M': y[i] = y[i] + np.timedelta64(1, 'D')
        elif x.dtype.kind == 'i': y[i] = -y[i] if abs(y[i]) == 1 else y[i] + 1
        elif rng.integers(2): y[i] = y[i] * (1 + rng.uniform(.004, .06)) if y[i] else .01
        else: y = y * (1 + rng.uniform(.004, .06))
        return y
    if isinstance(x, pd.Series):
        v = perturb(x.to_numpy().copy(), rng, depth + 1)
        return None if v is None else pd.Series(v, index=x.index, name=x.name)
    if isinstance(x, pd.DataFrame):
        c = [i for i in range(x.shape[1]) if x.dtypes.iloc[i].kind in 'fM']
        if not c or not len(x): return None
        i = c[int(rng.integers(len(c)))]; v = perturb(x.iloc[:, i].to_numpy().copy(), rng, depth + 1)
        if v is None: return None
        y = x.copy(); y.isetitem(i, v)
        return y
    if isinstance(x, (list, tuple)) and len(x):
        i = int(rng.integers(len(x))); v = perturb(x[i], rng, depth + 1)
        if v is None or hasattr(x, '_fields'): return None
        return type(x)(list(x[:i]) + [v] + list(x[i + 1:]))
    if isinstance(x, dict) and x:
        ks = list(x); i = ks[int(rng.integers(len(ks)))]; v = perturb(x[i], rng, depth + 1)
        if v is None: return None
        y = dict(x); y[i] = v
        return y
    return None


def vary(a, k, rng):
    """The call with one argument changed."""
    for _ in range(4):
        n = len(a) + len(k)
        if n == 0: return None
        j = int(rng.integers(n))
        if j < len(a):
            v = perturb(a[j], rng)
            if v is not None: return a[:j] + (v,) + a[j + 1:], k, j
        else:
            key = list(k)[j - len(a)]; v = perturb(k[key], rng)
            if v is not None: return a, {**k, key: v}, key
    return None


def _outcome(r, exc): return ('raised', type(exc).__name__) if exc is not None else ('returned', freeze(r))


class Fresh:
    """A process set aside before the first case; each question is answered by a new child of it."""

    def __init__(self):
        q_r, q_w = os.pipe(); a_r, a_w = os.pipe()
        self.pid = os.getpid()
        if os.fork() == 0:
            try:
                os.close(q_w); os.close(a_r)
                self._serve(q_r, a_w)
            finally:
                os._exit(0)
        os.close(q_r); os.close(a_w)
        self.w, self.r = q_w, a_r

    @staticmethod
    def _read(fd, n):
        b = b''
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c: raise EOFError
            b += c
        return b

    @classmethod
    def _get(cls, fd): return cls._read(fd, int.from_bytes(cls._read(fd, 8), 'big'))

    @staticmethod
    def _put(fd, b):
        b = len(b).to_bytes(8, 'big') + b
        while b: b = b[os.write(fd, b):]

    def _serve(self, q, a):
        while True:
            try: req = self._get(q)
            except EOFError: return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(20)
                    fn, args, kw, seed = dill.loads(req)
                    np.random.seed(seed)
                    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
                        warnings.simplefilter('ignore')
                        try: res, exc = fn(*args, **kw), None
                        except BaseException as e: res, exc = None, e
                    self._put(w, dill.dumps(_outcome(res, exc)))
                finally:
                    os._exit(0)
            os.close(w)
            try: out = self._get(r)
            except EOFError: out = b''
            os.close(r); os.waitpid(pid, 0)
            self._put(a, out)

    def ask(self, fn, a, k, seed):
        """None when the question cannot be put or is not answered in time."""
        try: req = dill.dumps((fn, a, k, seed))
        except Exception: return None
        self._put(self.w, req)
        b = self._get(self.r)
        return dill.loads(b) if b else None


FRESH = None


def fresh_start():
    global FRESH
    if FRESH is None or FRESH.pid != os.getpid(): FRESH = Fresh()


class Probe:
    """Puts a sample of a worker's calls again, one argument changed, here and in a process that has answered nothing before."""

    def __init__(self, m, per_name, total):
        self.m, self.per_name, self.total = m, per_name, total
        self.n, self.spent, self.all = {}, {}, 0.0
        self.rng = np.random.default_rng([m.seed, 0x9e37])

    def wants(self, fn):
        if not observes_frm(fn) or self.m.section in PATCHING or self.all > self.total: return None
        name = name_of(fn)
        if name.split('.')[-1].startswith('<') or name.split('.')[-1].startswith(MUTATOR): return None
        n = self.n[name] = self.n.get(name, 0) + 1
        if self.spent.get(name, 0.0) > self.per_name or self.rng.random() > min(.5, 40 / n): return None
        return name

    def twin(self, a, k):
        if has_rng((a, k)): return None
        try: return clone((a, k))
        except Exception: return None

    def check(self, fn, twin, name):
        m, t0 = self.m, time.time()
        same = self.rng.integers(5) == 0
        v = (*twin, 'none') if same else vary(*twin, self.rng)
        if v is None: return
        a, k, which = v
        state = np.random.get_state()
        try:
            f2, a2, k2 = clone((fn, a, k))
            seed = int(self.rng.integers(2 ** 31))
            there = FRESH.ask(f2, a2, k2, seed)
            if there is None: return
            np.random.seed(seed)
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                signal.signal(signal.SIGALRM, _too_long); signal.alarm(20)
                try: r, exc = f2(*a2, **k2), None
                except _TooLong: return
                except (MemoryError, KeyboardInterrupt): raise
                except BaseException as e: r, exc = None, e
                finally: signal.alarm(0)
            here = _outcome(r, exc)
            d = diff(here, there, 1e-12)
            m.ok(d is None, 'depends-on-history', lambda: dict(function=name, changed_argument=which, args=a, kwargs=k, difference=d))
            m.event('asked_in_fresh_process_' + here[0])
        except (MemoryError, KeyboardInterrupt): raise
        except Exception as e: m.event('not_asked ' + type(e).__name__)        # the question could not be put
        finally:
            np.random.set_state(state)
            t = time.time() - t0
            self.spent[name] = self.spent.get(name, 0.0) + t; self.all += t


class _TooLong(BaseException): pass


def _too_long(*_): raise _TooLong


def _calendar(mask, hols): return np.busdaycalendar(weekmask=mask, holidays=hols)


copyreg.pickle(np.busdaycalendar, lambda c: (_calendar, (c.weekmask, c.holidays)))


class Shadow(Mon):
    """Monitor handed to another property's workload. Its own judgements are dropped; side effects are reported to the real monitor."""

    def __init__(self, real, prop, section, rng):
        super().__init__(prop, real.tier, real.seed)
        self.real, self.section, self.wrng = real, section, rng
        self.ncalls = 0

    def fail(self, key, witness=None): pass

    def case(self, nontrivial=True, **desc):
        self.real.case(nontrivial, workload=self.prop, section=self.section, **desc)

    def event(self, name, n=1): pass

    def _run(self, fn, a, k):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                before = world()
                try:
                    r, exc = fn(*a, **k), None
                except (MemoryError, KeyboardInterrupt): raise
                except BaseException as e:
                    r, exc = None, e
                after = world()
        return r, exc, before, after

    def _watched(self, fn, a, k):
        R, name = self.real, name_of(fn)
        R.calls += 1
        quiet_rng = has_rng((fn, a, k))
        bound = isinstance(fn, types.MethodType)
        mutator = bound and name.split('.')[-1].startswith(MUTATOR)
        before = freeze((a, k)) if not quiet_rng else None
        closure = freeze(fn) if not bound and not quiet_rng else None
        twin = None
        if not quiet_rng:
            try: twin = clone((fn, a, k))
            except Exception: R.event('not_copied ' + name)
        r, exc, w0, w1 = self._run(fn, a, k)
        for x, y in zip(w0, w1):
            if x[0] == 'random' and any(s in name.lower() for s in ('rand', 'simul', 'path', '<lambda>', 'monte')) and diff(x, y): R.event('random_stream_used'); continue
            d = diff(x, y)
            R.ok(d is None, 'global-' + x[0], lambda: dict(function=name, difference=d))
        if before is not None:
            d = diff(before, freeze((a, k)))
            R.ok(d is None, 'argument-altered', lambda: dict(function=name, difference=d, raised=repr(exc)[:200] if exc else None))
            if closure is not None:
                d = diff(closure, freeze(fn))
                R.ok(d is None, 'argument-altered', lambda: dict(function=name, difference=d, raised=repr(exc)[:200] if exc else None))
        if observes_frm(fn): R.event('fn ' + name)
        return r, exc, twin, name, mutator

    def call(self, key, fn, *a, **k):
        r, exc, twin, name, mutator = self._watched(fn, a, k)
        if exc is not None: raise CaseAbort(key)
        self.ncalls += 1
        R = self.real
        if twin is None: return r
        fr = freeze(r)
        if self.wrng.integers(4) == 0 or name == '<lambda>': np.random.seed(int(self.wrng.integers(2 ** 31)))      # equal inputs, whatever was drawn in between
        f2, a2, k2 = clone(twin)
        if RING and self.section not in PATCHING and self.wrng.integers(3) == 0: self.replay()
        r2, exc2, _, _ = self._run(f2, a2, k2)
        if not R.ok(exc2 is None, 'repeat-raised', lambda: dict(function=name, raised=repr(exc2)[:300])): return r
        d = diff(fr, freeze(r2), 1e-12)
        R.ok(d is None, 'repeat-differs', lambda: dict(function=name, difference=d))
        R.event('repeated')
        if isinstance(fn, types.MethodType) and not mutator and self.wrng.integers(2):
            # the same object, now with one more query behind it
            f4, a4, k4 = clone(twin)
            r4, exc4, _, _ = self._run(fn, a4, k4)
            if R.ok(exc4 is None, 'second-query-raised', lambda: dict(function=name, raised=repr(exc4)[:300])):
                d = diff(fr, freeze(r4), 1e-12)
                R.ok(d is None, 'second-query-differs', lambda: dict(function=name, difference=d))
            R.event('second_query')
        if FRESH is not None and not mutator and observes_frm(fn) and name != '<lambda>' and self.section not in PATCHING and self.wrng.integers(3) == 0:
            self.elsewhere(fn, twin, fr, name)
        if self.wrng.integers(2) and not mutator:
            # what was handed out belongs to the caller: overwriting it changes no later answer
            scramble(r2)
            f3, a3, k3 = (f2,) + clone(twin[1:]) if isinstance(f2, types.MethodType) else clone(twin)
            r3, exc3, _, _ = self._run(f3, a3, k3)
            if R.ok(exc3 is None, 'overwritten-result-raised', lambda: dict(function=name, raised=repr(exc3)[:300])):
                d = diff(fr, freeze(r3), 1e-12)
                R.ok(d is None, 'overwritten-result', lambda: dict(function=name, difference=d))
            R.event('overwritten')
        if not mutator and name != '<lambda>' and self.section not in PATCHING and self.wrng.integers(3) == 0:
            e = (twin, fr, name)
            if len(RING) < RING_MAX: RING.append(e)
            else: RING[int(self.wrng.integers(RING_MAX))] = e
        return r

    def refuses(self, key, fn, *a, **k):
        r, exc, twin, name, mutator = self._watched(fn, a, k)
        self.real.event('refused' if exc is not None else 'returned')
        return exc is not None

    def elsewhere(self, fn, twin, fr, name):
        """The call, or the call with one argument changed, now and in a process that has answered nothing: the same answer."""
        R = self.real; f, a, k = clone(twin); changed = None
        if self.wrng.integers(4):
            v = vary(a, k, self.wrng)
            if v is None: return
            a, k, changed = v
        seed = int(self.wrng.integers(2 ** 31))
        f0, a0, k0 = clone((f, a, k))
        want = FRESH.ask(f0, a0, k0, seed)
        if want is None: R.event('fresh_unanswered ' + name); return
        # the object asked here is the one that has answered before
        g = fn if isinstance(fn, types.MethodType) else f
        np.random.seed(seed)
        r, exc, _, _ = self._run(g, a, k)
        d = diff(want, _outcome(r, exc), 1e-12)
        R.ok(d is None, 'fresh-process-differs', lambda: dict(function=name, changed=changed, difference=d))
        R.event('fresh_process'); R.event('fresh_' + ('same' if changed is None else 'varied') + '_' + want[0])

    def replay(self):
        """An earlier call, from any case, repeated now."""
        twin, fr, name = RING[int(self.wrng.integers(len(RING)))]
        f, a, k = clone(twin)
        r, exc, _, _ = self._run(f, a, k)
        R = self.real
        if R.ok(exc is None, 'later-raised', lambda: dict(function=name, raised=repr(exc)[:300])):
            d = diff(fr, freeze(r), 1e-12)
            R.ok(d is None, 'later-differs', lambda: dict(function=name, difference=d))
        R.event('replayed_later')
