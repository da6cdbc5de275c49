"""Shared workload generators."""
import calendar, datetime as dt
import numpy as np
import pandas as pd

ORD_LO, ORD_HI = dt.date(1950, 1, 1).toordinal(), dt.date(2120, 12, 31).toordinal()


def date(rng, lo=dt.date(1992, 1, 1), hi=dt.date(2090, 12, 31)):
    """A date, biased to month ends, Februaries, leap days and year ends."""
    k = rng.integers(8)
    y = int(rng.integers(lo.year, hi.year + 1))
    if k <= 2:
        d = dt.date.fromordinal(int(rng.integers(lo.toordinal(), hi.toordinal() + 1)))
    elif k == 3:
        m = int(rng.integers(1, 13))
        d = dt.date(y, m, calendar.monthrange(y, m)[1])
    elif k == 4:
        d = dt.date(y, 2, int(rng.integers(26, calendar.monthrange(y, 2)[1] + 1)))
    elif k == 5:
        m = int(rng.integers(1, 13))
        d = dt.date(y, m, min(int(rng.integers(28, 32)), calendar.monthrange(y, m)[1]))
    elif k == 6:
        d = dt.date(y, *[(1, 1), (12, 31), (12, 30), (3, 1), (1, 31)][rng.integers(5)])
    else:
        y = y - y % 4
        d = dt.date(y, 2, 29 if calendar.isleap(y) else 28)
    return min(max(d, lo), hi)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def ts(d):
    return pd.Timestamp(d.year, d.month, d.day)


def add_months(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    return dt.date(y, m + 1, min(d.day, calendar.monthrange(y, m + 1)[1]))


CCYS = ['AUD', 'USD', 'EUR', 'GBP', 'JPY', 'AED', 'SAR', 'ILS', 'NZD', 'CAD', 'CHF', 'SGD', 'TRY', 'PHP', 'INR', 'MXN']


def loguniform(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))
