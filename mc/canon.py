"""Canonical, type-strict descriptions of values and outcomes, for comparing observations across fresh declarations."""
import datetime
from collections import ChainMap, deque
from collections.abc import Mapping, Set

from records import RecordBase
from mc.engine import attempt

HIDDEN = tuple(RecordBase.__slots__)


def canon(v, depth=0):
    if depth > 12:
        return '...'
    n = type(v).__name__
    d = depth + 1
    if isinstance(v, RecordBase):
        names = list(type(v)._fields)
        extra = sorted(k for k in vars(v) if k not in names and k not in HIDDEN)
        return (n, tuple((k, canon(getattr(v, k, '<missing>'), d)) for k in names), tuple((k, canon(vars(v)[k], d)) for k in extra))
    if isinstance(v, (list, tuple, deque)):
        return (n, tuple(canon(x, d) for x in v), getattr(v, 'maxlen', None))
    if isinstance(v, Mapping):
        return (n, tuple((canon(k, d), canon(v[k], d)) for k in v))
    if isinstance(v, Set):
        return (n, tuple(sorted(repr(canon(x, d)) for x in v)))
    if v is None or isinstance(v, (int, float, str, bytes, complex, bool, datetime.date, datetime.timedelta)):
        return (n, repr(v))
    if isinstance(v, type):
        return ('class', v.__name__)
    if isinstance(v, BaseException):
        return ('exception', n)
    r = repr(v)
    return (n, '<object>' if ' at 0x' in r else r)


def err(e):
    c = e.__cause__
    return ('err', type(e).__name__, type(c).__name__ if c is not None else None)


def observe(f, *a):
    r = attempt(f, *a)
    return ('ok', canon(r[1])) if r[0] == 'ok' else err(r[1])
