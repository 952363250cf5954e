"""Reference calendars, independent of pygeode: dates are enumerated one day after another."""
import numpy as np

ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

def monthlen(cal, y, m):
    if cal == 'm360': return 30
    if cal == 'std' and m == 2 and leap(y): return 29
    return ML[m-1]

def yearlen(cal, y): return {'m365': 365, 'm360': 360}.get(cal) or (366 if leap(y) else 365)

_walk = {}
def walk(cal, y0, y1):
    """arrays (year, month, day) of every date of years y0..y1-1, in order"""
    k = (cal, y0, y1)
    if k not in _walk:
        Y = []; M = []; D = []
        tm = {}
        for lp in (False, True):
            m = []; d = []
            for i in range(1, 13):
                n = monthlen(cal, 2000 if lp else 2001, i)
                m += [i]*n; d += list(range(1, n+1))
            tm[lp] = np.array(m, 'i4'), np.array(d, 'i4')
        for y in range(y0, y1):
            m, d = tm[leap(y)]
            Y.append(np.full(len(m), y, 'i4')); M.append(m); D.append(d)
        _walk[k] = np.concatenate(Y), np.concatenate(M), np.concatenate(D)
    return _walk[k]

def daynum(cal, y, m, d, base):
    """days from 1 January of year `base` (counted year by year and month by month); y may precede base"""
    n = 0
    for yy in range(base, y): n += yearlen(cal, yy)
    for yy in range(y, base): n -= yearlen(cal, yy)
    for mm in range(1, m): n += monthlen(cal, y, mm)
    return n + d - 1

def seconds(cal, date, base=2000):
    """seconds of a date (tuple of up to 6 fields, any of which except the year may be out of range)"""
    if cal == 'yearless':
        d, h, mi, s = (tuple(date) + (0,)*4)[:4]
        return ((d*24 + h)*60 + mi)*60 + s
    y, m, d, h, mi, s = tuple(date) + (1, 1, 0, 0, 0)[len(date)-1:]
    y += (m-1)//12; m = (m-1) % 12 + 1
    return (((daynum(cal, y, m, 1, base) + d - 1)*24 + h)*60 + mi)*60 + s

_tab = {}
def date(cal, sec, base=2000):
    """(y, m, d, h, mi, s) of a number of seconds since 1 January of `base`"""
    d, r = divmod(sec, 86400)
    h, r = divmod(r, 3600); mi, s = divmod(r, 60)
    if cal == 'yearless': return d, h, mi, s
    y = base
    while d < 0: y -= 1; d += yearlen(cal, y)
    while d >= yearlen(cal, y): d -= yearlen(cal, y); y += 1
    m = 1
    while d >= monthlen(cal, y, m): d -= monthlen(cal, y, m); m += 1
    return y, m, d+1, h, mi, s

FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
UNIT = dict(seconds=1, minutes=60, hours=3600, days=86400)

def cls(cal):
    import pygeode as pyg
    from pygeode.timeaxis import ModelTime360
    return dict(std=pyg.StandardTime, m365=pyg.ModelTime365, m360=ModelTime360, yearless=pyg.Yearless)[cal]

def fields(cal): return FIELDS[2:] if cal == 'yearless' else FIELDS
