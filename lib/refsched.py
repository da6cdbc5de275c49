"""Integer-date reference model of schedule generation (no pandas/numpy date arithmetic)."""
import calendar, datetime as dt
import gen

NEVER_BUS = None


class Cal:
    """Business-day model: weekend weekdays + holiday set."""
    def __init__(self, weekend=(5, 6), holidays=()):
        self.weekend, self.hol = set(weekend), set(holidays)

    def bus(self, d): return d.weekday() not in self.weekend and d not in self.hol

    def roll(self, d, conv):
        if conv == 'unadjusted' or self.bus(d): return d
        f, b = d, d
        while not self.bus(f): f += dt.timedelta(1)
        while not self.bus(b): b -= dt.timedelta(1)
        same = lambda x: (x.year, x.month) == (d.year, d.month)
        return {'following': f, 'preceding': b, 'modifiedfollowing': f if same(f) else b,
                'modifiedpreceding': b if same(b) else f}[conv]

    def add(self, d, n, conv):
        d = self.roll(d, conv)
        for _ in range(abs(n)):
            d += dt.timedelta(1 if n > 0 else -1)
            while not self.bus(d): d += dt.timedelta(1 if n > 0 else -1)
        return d


STEP = {'daily': ('d', 1), 'weekly': ('d', 7), '28days': ('d', 28), 'monthly': ('m', 1), 'quarterly': ('m', 3), 'semiannual': ('m', 6), 'annual': ('m', 12)}


def shift(d, freq, n):
    u, k = STEP[freq]
    return d + dt.timedelta(k * n) if u == 'd' else gen.add_months(d, k * n)


def day_roll(d, dr):
    if dr == 'unadjusted': return d
    last = calendar.monthrange(d.year, d.month)[1]
    return d.replace(day=last if dr == 'eom' else min(dr, last))


def dates(start, end, freq, direction, conv, dr, cal):
    """Strictly increasing boundary dates start .. end."""
    out, i = [], 1
    anchor, sgn = (start, 1) if direction == 'forward' else (end, -1)
    while True:
        d = cal.roll(day_roll(shift(anchor, freq, sgn * i), dr), conv)
        if (d >= end) if sgn > 0 else (d <= start): break
        prev = out[-1] if out else anchor
        if (d > prev) if sgn > 0 else (d < prev): out.append(d)
        i += 1
    if sgn < 0: out.reverse()
    return [start] + out + [end]


class Refused(Exception): pass
class Unspecified(Exception): pass


def schedule(start, end, freq, conv='modifiedfollowing', dr='unadjusted', fpe=None, lps=None, fs='default', ls='default', roll=False, cal=Cal()):
    if start >= end: raise Refused
    if fpe is not None and not start < fpe <= end: raise Refused
    if lps is not None and not start <= lps < end: raise Refused
    R = (lambda d: cal.roll(d, conv)) if roll else (lambda d: d)
    kind = None
    if freq == 'zerocoupon' or fpe == end or lps == start: b, kind = [start, end], 'one period'
    elif fpe is not None and fpe == lps: b, kind = [start, fpe, end], 'two periods'
    elif fpe is None and lps is None:
        if fs == ls == 'default': fs, ls = 'short', 'none'
        elif fs == 'default': fs = 'none'
        elif ls == 'default': ls = 'none'
        if fs in ('short', 'long') and ls in ('short', 'long'): raise Refused
        if ls == 'none':
            b, kind = dates(start, end, freq, 'backward', conv, dr, cal), 'backward'
            if fs == 'long' and len(b) > 2: b, kind = [b[0]] + b[2:], 'long first'
        else:
            b, kind = dates(start, end, freq, 'forward', conv, dr, cal), 'forward'
            if ls == 'long' and len(b) > 2: b, kind = b[:-2] + [b[-1]], 'long last'
    else:
        fw = dates(start, end, freq, 'forward', conv, dr, cal)
        bw = dates(start, end, freq, 'backward', conv, dr, cal)
        rolled = lambda x: [R(x[0])] + x[1:-1] + [R(x[-1])]
        rf, rb = rolled(fw), rolled(bw)
        fk = lk = None
        if fpe is not None:
            fk = 'F' if fpe == rf[1] else 'B' if fpe == rb[1] else 'BL' if len(rb) > 2 and fpe == rb[2] else 'X'
        if lps is not None:
            lk = 'B' if lps == rb[-2] else 'F' if lps == rf[-2] else 'FL' if len(rf) > 2 and lps == rf[-3] else 'X'
        merge_first = lambda x: [x[0]] + x[2:]
        merge_last = lambda x: x[:-2] + [x[-1]]
        if fk and lk:
            if 'X' not in (fk, lk) and fk[0] == lk[0]:
                b, kind = (fw, 'both aligned forward') if fk[0] == 'F' else (bw, 'both aligned backward')
                if fk == 'BL': b = merge_first(b)
                if lk == 'FL': b = merge_last(b)
            else:
                if fpe > lps: raise Refused
                b, kind = [start] + dates(fpe, lps, freq, 'backward', conv, dr, cal) + [end], 'both defined'
        elif fk:
            if fk == 'X':
                b, kind = [start] + dates(fpe, end, freq, 'forward', conv, dr, cal), 'first defined'
                if ls == 'long' and len(b) > 3: b = merge_last(b)
            elif fk == 'F':
                b, kind = fw, 'first aligned forward'
                if ls == 'long': 
                    if len(b) <= 3: raise Unspecified
                    b = merge_last(b)
            else:
                if ls not in ('default', 'none'): raise Unspecified
                b, kind = bw, 'first aligned backward'
                if fk == 'BL': b = merge_first(b)
        else:
            if lk == 'X':
                b, kind = dates(start, lps, freq, 'backward', conv, dr, cal) + [end], 'last defined'
                if fs == 'long' and len(b) > 3: b = merge_first(b)
            elif lk == 'B':
                b, kind = bw, 'last aligned backward'
                if fs == 'long':
                    if len(b) <= 3: raise Unspecified
                    b = merge_first(b)
            else:
                if fs not in ('default', 'none'): raise Unspecified
                b, kind = fw, 'last aligned forward'
                if lk == 'FL': b = merge_last(b)
    b = [R(x) for x in b]
    out = [b[0]]
    for x in b[1:]:
        if x > out[-1]: out.append(x)
    return out, kind
