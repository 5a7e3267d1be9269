"""The proleptic Gregorian calendar as ghost state.  A timestamp t (seconds since 1970-01-01) is
   t = 86400 * day + s,  day = 11017 + 146097 e + doe   (11017 = 2000-03-01, e: 400-year era, doe: day of the era)
   doe = 365 y + y/4 - y/100 + doy,  doy = CUM[m] + d   (y: March-based year of the era, m: month with March = 0, d: day of the month from 0)
Every timestamp has exactly one such decomposition (lemmas() proves existence; uniqueness follows from the ranges)."""
from common import *

CUM = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337]
LEN = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31]
I = z3.IntVal


def sel(m, l):
    r = l[-1] if z3.is_expr(l[-1]) else I(l[-1])
    for i in range(len(l) - 2, -1, -1):
        r = z3.If(m == i, I(l[i]), r)
    return r


def leap(q):
    return z3.And(q % 4 == 0, z3.Or(q % 100 != 0, q % 400 == 0))


def mlen(m, y):
    """days in month m of March-based year y (February belongs to calendar year y + 1)"""
    return sel(m, LEN + [z3.If(leap(y + 1), I(29), I(28))])


def mar1(P):
    """days from 2000-03-01 to March 1 of year 2000 + P"""
    return 365 * P + P / 4 - P / 100 + P / 400


def jan1(Q):
    """days from 2000-03-01 to January 1 of year 2000 + Q"""
    return mar1(Q - 1) + 306


def parts(t):
    """concrete decomposition by counting year and month lengths (independent of the formulas above)"""
    day, s = divmod(t, 86400)
    day -= 11017
    e, doe = divmod(day, 146097)
    isleap = lambda q: q % 4 == 0 and (q % 100 != 0 or q % 400 == 0)
    y, r = 0, doe
    while True:
        n = 366 if isleap(y + 1) else 365
        if r < n:
            break
        r -= n
        y += 1
    doy = r
    m = 0
    while True:
        n = LEN[m] if m < 11 else (29 if isleap(y + 1) else 28)
        if r < n:
            break
        r -= n
        m += 1
    return dict(e=e, doe=doe, y=y, doy=doy, m=m, d=r, s=s, day=day + 11017)


class Civil:
    NAMES = ('e', 'doe', 'y', 'doy', 'm', 'd', 's', 'day')

    def __init__(self, c, t, sfx='', scale=1):
        """t: term of the timestamp in seconds"""
        self.c, self.t, self.sfx = c, t, sfx
        if c.mode == 'conc':
            g = parts(z3.simplify(t).as_long())
            for n in self.NAMES:
                setattr(self, n, I(g[n]))
            return
        for n in self.NAMES:
            setattr(self, n, z3.Int(n + '$' + sfx))

    def facts(self, erange=2**28):
        if self.c.mode == 'conc':
            return []
        y, m, d = self.y, self.m, self.d
        return [self.t == 86400 * self.day + self.s, self.s >= 0, self.s < 86400, self.day == 11017 + 146097 * self.e + self.doe, self.e >= -erange, self.e < erange,
                self.doe == 365 * y + y / 4 - y / 100 + self.doy, self.doy == sel(m, CUM) + d, y >= 0, y < 400, m >= 0, m < 12, d >= 0, d < mlen(m, y),
                self.doe >= 0, self.doe < 146097, self.doy >= 0, self.doy < 366]

    # calendar fields
    @property
    def jan(self):
        """1 in January and February: the calendar year is the March-based year plus this"""
        return z3.If(self.m >= 10, I(1), I(0))

    @property
    def month(self):
        return z3.If(self.m >= 10, self.m - 9, self.m + 3)

    @property
    def rely(self):
        """calendar year minus 2000 + 400 e"""
        return self.y + self.jan

    @property
    def dayofyear(self):
        """from 0"""
        return z3.If(self.m >= 10, sel(self.m - 10, [0, 31]) + self.d, 59 + z3.If(leap(self.y), I(1), I(0)) + sel(self.m, CUM) + self.d)

    def cands(self, big=2**40):
        c = self
        E = 2**47
        out = [('s', c.s, 0, 86399), ('day', c.day, -E, E), ('era', c.e, -E, E), ('doe', c.doe, 0, 146096), ('y', c.y, 0, 399), ('doy', c.doy, 0, 365), ('m', c.m, 0, 11), ('d', c.d, 0, 30),
               ('day from 2000-03-01', c.day - 11017, -E, E), ('month', c.month, 1, 12), ('day of year', c.dayofyear, 0, 365), ('day of year + 1', c.dayofyear + 1, 1, 366)]
        # 4-year cycles from 1900-03-01 (no century correction needed between 1900-03-01 and 2100-02-28)
        yc = c.y + 400 * c.e + 100
        pos = 365 * (yc % 4) + c.doy
        out += [('seconds of the March year', 86400 * c.doy + c.s, 0, 2**27), ('seconds of the 4-year cycle', 86400 * pos + c.s, 0, 2**28),
                ('4-year cycle', yc / 4, -E, E), ('seconds before the 4-year cycle', 126230400 * (yc / 4), -2**60, 2**60), ('seconds of earlier years of the cycle', 31536000 * (yc % 4), 0, 2**28),
                ('year of the cycle', yc % 4, 0, 3), ('seconds of the calendar year', 86400 * c.dayofyear + c.s, 0, 2**26), ('calendar years since 1900', yc + c.jan, -E, E)]
        return out

    def sample(self, t):
        g = parts(t)
        return [(z3.Int(n + '$' + self.sfx), I(g[n])) for n in self.NAMES]


def nice_times(rng, n, lo=-2**40, hi=2**40):
    """timestamps around month, year, leap and era boundaries"""
    out = []
    while len(out) < n:
        y = rng.choice([rng.randint(1890, 2110), rng.randint(1600, 2500), 1900, 1904, 1970, 2000, 2001, 2035, 2036, 2100, 2400, 1600, rng.randint(-5000, 9000)])
        m = rng.randint(0, 11)
        P = y - 2000
        day = 11017 + 365 * P + P // 4 - P // 100 + P // 400 + CUM[m]
        t = 86400 * day + rng.choice([0, -1, 1, rng.randint(0, 86399), 86400 * 27, 86400 * 28, 86400 * 30 - 1, rng.randint(0, 86400 * 40), -86400, -86401])
        if rng.random() < .1:
            t = rng.choice([0, -1, 2085978495, 2085978496, 951868799, 951868800, rng.randint(lo, hi)])
        if lo <= t < hi:
            out.append(t)
    return out


def lemmas():
    doe = z3.Int('doe')
    y = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    Y, doy, m = z3.Ints('y doy m')
    hyp = [doe >= 0, doe < 146097]
    ydef = hyp + [Y == y]
    d2 = ydef + [doy == doe - (365 * Y + Y / 4 - Y / 100)]
    vy = [Y >= 0, Y < 400, doy >= 0, doy < 365 + z3.If(leap(Y + 1), I(1), I(0))]
    return [('every day of an era lies in a year of the era', d2, z3.And(*vy)),
            ('every day of a year lies in a month', vy + [m == (5 * doy + 2) / 153], z3.And(m >= 0, m < 12, doy - sel(m, CUM) >= 0, doy - sel(m, CUM) < mlen(m, Y)))]


def enum(name):
    """enumerator values, read from the current source"""
    import re
    import units
    s = open(units.OMNI + '/IR/DateTimeEnums.h').read()
    body = re.search(r'enum class %s[^{]*\{(.*?)\}' % name, s, re.S).group(1)
    body = re.sub(r'//[^\n]*|/\*.*?\*/', '', body, flags=re.S)
    out, k = {}, 0
    for x in body.split(','):
        x = x.strip()
        if not x:
            continue
        if '=' in x:
            x, v = [y.strip() for y in x.split('=')]
            k = int(v, 0)
        out[x] = k
        k += 1
    return out
