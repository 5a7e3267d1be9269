"""C12: DATEADD and DATEDIFF."""
from common import *
from civil import *
import os
import random

ASSUMPTIONS = ['timestamps within 2^28 400-year eras of the year 2000, amounts small enough that no intermediate value leaves 64 bits', 'dimensions (digits of the sub-second part) are 0, 3, 6 and 9',
               'fields without a meaning for DATEADD (quarter day, invalid) abort and are not covered']
D = 86400
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'     # every calendar field with every pair of dimensions
TR = enum('DateTruncField')
AD = enum('DateAddField')
MUL = {'kMonth': 1, 'kQuarter': 3, 'kYear': 12, 'kDecade': 120, 'kCentury': 1200, 'kMillennium': 12000}
SEC = {'kSecond': 1, 'kMinute': 60, 'kHour': 3600, 'kWeekDay': D, 'kDayOfYear': D, 'kDay': D, 'kWeek': 7 * D}
DSEC = {'kSecond': 1, 'kMinute': 60, 'kHour': 3600, 'kQuarterDay': 21600, 'kDay': D, 'kWeek': 7 * D, 'kWeekSunday': 7 * D, 'kWeekSaturday': 7 * D}
SUB = {'kMilli': 3, 'kMicro': 6, 'kNano': 9}
DIMS = (0, 3, 6, 9)


class Add:
    """the calendar month n months after the month of v, and the timestamp there on the same day of the month, or the last one"""
    NAMES = ('e2', 'y2', 'm2', 'd2')

    def __init__(self, c, v, n):
        self.M = 12 * (400 * v.e + v.y) + v.m + n
        self.v, self.c = v, c
        if c.mode == 'conc':
            M = z3.simplify(self.M).as_long()
            g = self.conc(M, z3.simplify(v.d).as_long())
        else:
            g = {k: z3.Int(k + '$') for k in self.NAMES}
        for k in self.NAMES:
            setattr(self, k, I(g[k]) if isinstance(g[k], int) else g[k])

    @staticmethod
    def conc(M, d):
        e, r = divmod(M, 4800)
        y, m = divmod(r, 12)
        q = y + 1
        n = LEN[m] if m < 11 else (29 if q % 4 == 0 and (q % 100 or q % 400 == 0) else 28)
        return dict(e2=e, y2=y, m2=m, d2=min(d, n - 1))

    def facts(self):
        if self.c.mode == 'conc':
            return []
        n = mlen(self.m2, self.y2)
        return [self.M == 4800 * self.e2 + 12 * self.y2 + self.m2, self.y2 >= 0, self.y2 < 400, self.m2 >= 0, self.m2 < 12, self.e2 >= -2**36, self.e2 < 2**36,
                self.d2 == z3.If(self.v.d < n, self.v.d, n - 1), self.d2 >= 0, self.d2 <= 30]

    def time(self):
        y = self.y2
        return D * (11017 + 146097 * self.e2 + 365 * y + y / 4 - y / 100 + sel(self.m2, CUM) + self.d2) + self.v.s

    def cands(self):
        E = 2**47
        return [('month of the result', self.m2, 0, 11), ('year of the result', self.y2, 0, 399), ('era of the result', self.e2, -E, E), ('day of the result', self.d2, 0, 30),
                ('month of the era of the result', 12 * self.y2 + self.m2, 0, 4799), ('months of the result', self.M, -2**60, 2**60), ('months', 12 * (400 * self.v.e + self.v.y) + self.v.m, -2**60, 2**60)]


def diff_months(a, b, ns=None):
    """whole months from a to b, truncated towards zero: (months, lexicographic order of the rest)"""
    Ma, Mb = [12 * (400 * v.e + v.y) + v.m for v in (a, b)]

    def lt(p, q, np, nq):
        r = (p.s < q.s) if np is None else z3.Or(p.s < q.s, z3.And(p.s == q.s, np < nq))
        return z3.Or(p.d < q.d, z3.And(p.d == q.d, r))
    na, nb = ns or (None, None)
    k = Mb - Ma
    neg = z3.Or(k < 0, z3.And(k == 0, lt(b, a, nb, na)))
    return neg, z3.If(neg, -(-k - z3.If(lt(a, b, na, nb), I(1), I(0))), k - z3.If(lt(b, a, nb, na), I(1), I(0)))


def tdiv(x, k):
    return z3.If(x >= 0, x / k, -(-x / k))


def contracts():
    cs = []
    dateadd(cs)
    datediff(cs)
    return cs


def nullable(fn, ps, post, pre, **kw):
    """the NULL variant: NULL in, NULL out; the contract of the plain function otherwise"""
    return Contract(fn, ps + [('null', 'i64')], post, pre=pre, **kw)


def dateadd(cs):
    R = {'t': (-2**61, 2**61)}

    def gen(k, lim):
        def g(rng, i):
            i['t'] = (nice_times(rng, 1)[0] * k + (rng.choice([0, 1, k - 1]) if k > 1 else 0)) & (2**64 - 1)
            i['n'] = rng.choice([0, 1, -1, 2, 11, 12, 13, -12, rng.randint(-500, 500), rng.randint(-lim, lim)]) & (2**64 - 1)
            if 'null' in i and rng.random() < .3:
                i['null'] = i['t']
            return i
        return g
    hp = lambda fn, nul, dim: fn + ('HighPrecision' if dim is not None else '') + ('Nullable' if nul else '')
    for f, u in SEC.items():
        for dim in (None,) + DIMS:
            k = 10 ** (dim or 0)
            for nul in (False, True):
                val = lambda c, u=u, k=k: c.t + c.n * (u * k)
                post = (lambda c, val=val: [('NULL stays NULL', z3.Implies(c.t == c.null, c.ret == c.null)), ('timestamp plus the interval', z3.Implies(c.t != c.null, c.ret == val(c)))]) if nul else \
                    (lambda c, val=val: [('timestamp plus the interval', c.ret == val(c))])
                ps = [('f', Lit('i32', AD[f])), ('n', 'i64'), ('t', 'i64')] + ([('dim', Lit('i32', dim))] if dim is not None else []) + ([('null', 'i64')] if nul else [])
                fn = hp('DateAdd', nul, dim)
                lim = 2**61 // (u * k)
                cs.append(Contract(fn, ps, post, dom='int', ranges={**R, 'n': (-lim, lim)}, gen=gen(k, lim), label='%s[%s%s]' % (fn, f, '' if dim is None else ',%d' % dim)))
    for f, fd in SUB.items():
        for dim in DIMS:
            for nul in (False, True):
                up = dim >= fd
                k = 10 ** abs(dim - fd)
                val = lambda c, up=up, k=k: c.t + (c.n * k if up else c.n / k)
                post = (lambda c, val=val: [('NULL stays NULL', z3.Implies(c.t == c.null, c.ret == c.null)), ('timestamp plus the interval, rounded towards the past', z3.Implies(c.t != c.null, c.ret == val(c)))]) if nul else \
                    (lambda c, val=val: [('timestamp plus the interval, rounded towards the past', c.ret == val(c))])
                fn = hp('DateAdd', nul, dim)
                ps = [('f', Lit('i32', AD[f])), ('n', 'i64'), ('t', 'i64'), ('dim', Lit('i32', dim))] + ([('null', 'i64')] if nul else [])
                lim = 2**61 // (k if up else 1)
                cs.append(Contract(fn, ps, post, dom='int', ranges={**R, 'n': (-lim, lim)}, gen=gen(10**dim, lim), label='%s[%s,%d]' % (fn, f, dim)))
    # calendar fields
    for f, mul in MUL.items():
        for dim in (None,) + DIMS:
            for nul in (False, True):
                if not THOROUGH and dim is not None and f != 'kMonth' and (nul or dim == 6):
                    continue
                k = 10 ** (dim or 0)
                fn = hp('DateAdd', nul, dim)
                ps = [('f', Lit('i32', AD[f])), ('n', 'i64'), ('t', 'i64')] + ([('dim', Lit('i32', dim))] if dim is not None else []) + ([('null', 'i64')] if nul else [])

                def ghost(c, k=k, mul=mul):
                    if c.mode == 'conc':
                        ts, sub = I(z3.simplify(c.t).as_long() // k), I(z3.simplify(c.t).as_long() % k)
                    elif k > 1:
                        ts, sub = z3.Int('ts$'), z3.Int('sub$')
                    else:
                        ts, sub = c.t, I(0)
                    v = Civil(c, ts)
                    a = Add(c, v, c.n * mul)
                    fs = [] if c.mode == 'conc' else v.facts() + a.facts() + ([c.t == k * ts + sub, sub >= 0, sub < k] if k > 1 else [])
                    return v, a, ts, sub, fs

                def post(c, k=k, nul=nul, ghost=ghost):
                    v, a, ts, sub, _ = ghost(c)
                    val = a.time() * k + sub
                    what = 'same day and time in the target month, clamped to its last day'
                    if nul:
                        return [('NULL stays NULL', z3.Implies(c.t == c.null, c.ret == c.null)), (what, z3.Implies(c.t != c.null, c.ret == val))]
                    return [(what, c.ret == val)]

                def cuts(c, k=k, mul=mul, ghost=ghost):
                    v, a, ts, sub, _ = ghost(c)
                    rng = random.Random(5)
                    sm = []
                    for t in nice_times(rng, 24):
                        n = rng.choice([0, 1, -1, 11, 12, rng.randint(-600, 600), rng.randint(-9999, 9999)])
                        g = parts(t)
                        q = Add.conc(12 * (400 * g['e'] + g['y']) + g['m'] + n * mul, g['d'])
                        sb = rng.randint(0, k - 1)
                        sm.append([(z3.Int('t'), I(t * k + sb)), (z3.Int('n'), I(n)), (z3.Int('ts$'), I(t)), (z3.Int('sub$'), I(sb)), (z3.Int('null'), I(-2**63))] + v.sample(t) + [(z3.Int(x + '$'), I(q[x])) for x in Add.NAMES])
                    more = [('seconds', ts, -2**62, 2**62), ('sub-second part', sub, 0, k - 1)] if k > 1 else []
                    return more + a.cands() + v.cands(), sm
                lim = min(2**40, (2**61 // k) // (mul * 31 * D))
                cs.append(Contract(fn, ps, post, pre=lambda c, ghost=ghost: ghost(c)[4], dom='int', ranges={'t': (-2**61, 2**61), 'n': (-lim, lim)}, gen=gen(k, lim), cuts=cuts,
                                   label='%s[%s%s]' % (fn, f, '' if dim is None else ',%d' % dim)))


def datediff(cs):
    def gen(ka, kb):
        def g(rng, i):
            t = nice_times(rng, 2)
            if rng.random() < .5:
                t[1] = t[0] + rng.choice([0, 1, -1, D * 31, D * 30, -D * 31, D * 365, D * 1461, rng.randint(-10**7, 10**7)]) + rng.choice([0, 1, -1])
            if rng.random() < .3:
                t = [x // D * D for x in t]
            for n, x, k in (('a', t[0], ka), ('b', t[1], kb)):
                i[n] = (x * k + (rng.choice([0, 1, k - 1, rng.randint(0, k - 1)]) if k > 1 else 0)) & (2**64 - 1)
            if 'null' in i and rng.random() < .5:
                i['null'] = rng.choice([i['a'], i['b']])
            return i
        return g

    def nulls(nul, what, val):
        if not nul:
            return lambda c: [(what, c.ret == val(c))]
        return lambda c: [('NULL in, NULL out', z3.Implies(z3.Or(c.a == c.null, c.b == c.null), c.ret == c.null)), (what, z3.Implies(z3.And(c.a != c.null, c.b != c.null), c.ret == val(c)))]

    def P(f, dims, nul):
        return [('f', Lit('i32', TR[f])), ('a', 'i64'), ('b', 'i64')] + ([('da', Lit('i32', dims[0])), ('db', Lit('i32', dims[1]))] if dims else []) + ([('null', 'i64')] if nul else [])
    name = lambda nul, dims: 'DateDiff' + ('HighPrecision' if dims else '') + ('Nullable' if nul else '')
    lab = lambda f, nul, dims: '%s[%s%s]' % (name(nul, dims), f, ',%d,%d' % dims if dims else '')
    R = lambda dims, extra=0: {'a': (-(2**60 // 10**extra), 2**60 // 10**extra), 'b': (-(2**60 // 10**extra), 2**60 // 10**extra)}
    ALL = [None] + [(a, b) for a in DIMS for b in DIMS]
    for dims in ALL:
        da, db = dims or (0, 0)
        top = max(da, db)
        ka, kb = 10 ** (top - da), 10 ** (top - db)
        for nul in (False, True):
            num = lambda c, ka=ka, kb=kb: c.b * kb - c.a * ka     # difference in the finer unit
            for f, fd in SUB.items():
                if fd >= top:
                    val = lambda c, num=num, k=10 ** (fd - top): num(c) * k
                else:
                    val = lambda c, num=num, k=10 ** (top - fd): tdiv(num(c), k)
                ex = {'a': (-2**60 // (ka * 10 ** max(0, fd - top)), 2**60 // (ka * 10 ** max(0, fd - top))), 'b': (-2**60 // (kb * 10 ** max(0, fd - top)), 2**60 // (kb * 10 ** max(0, fd - top)))}
                cs.append(Contract(name(nul, dims), P(f, dims, nul), nulls(nul, 'difference in the unit, truncated', val), dom='int', ranges=ex, gen=gen(10**da, 10**db), label=lab(f, nul, dims)))
            for f, u in DSEC.items():
                if not THOROUGH and dims and nul and dims not in ((0, 3), (9, 6)):
                    continue
                val = lambda c, num=num, k=u * 10**top: tdiv(num(c), k)
                cs.append(Contract(name(nul, dims), P(f, dims, nul), nulls(nul, 'whole units, truncated', val), dom='int', ranges={'a': (-2**60 // ka, 2**60 // ka), 'b': (-2**60 // kb, 2**60 // kb)},
                                   gen=gen(10**da, 10**db), label=lab(f, nul, dims)))
            for f, mul in MUL.items():
                if not THOROUGH and dims and ((f != 'kMonth' and (nul or dims not in ((0, 0), (3, 3), (6, 3), (3, 9)))) or (nul and dims not in ((0, 3), (9, 6)))):
                    continue

                def ghost(c, da=da, db=db):
                    out = []
                    fs = []
                    for n, k in (('a', 10**da), ('b', 10**db)):
                        t = getattr(c, n)
                        if k == 1:
                            ts, sub = t, I(0)
                        elif c.mode == 'conc':
                            ts, sub = [I(x) for x in divmod(z3.simplify(t).as_long(), k)]
                        else:
                            ts, sub = z3.Int('ts$' + n), z3.Int('sub$' + n)
                            fs += [t == k * ts + sub, sub >= 0, sub < k]
                        v = Civil(c, ts, sfx=n)
                        fs += v.facts()
                        out.append((v, ts, sub * (10**9 // k)))
                    return out, fs

                def post(c, ghost=ghost, mul=mul, nul=nul):
                    (a, _, na), (b, _, nb) = ghost(c)[0]
                    neg, k = diff_months(a, b, (na, nb))
                    return nulls(nul, 'whole calendar units, truncated', lambda c: tdiv(k, mul))(c)

                def cuts(c, ghost=ghost, ka=10**da, kb=10**db):
                    (a, ta, na), (b, tb, nb) = ghost(c)[0]
                    rng = random.Random(5)
                    sm = []
                    for t in nice_times(rng, 24):
                        u = rng.choice([nice_times(rng, 1)[0], t + rng.randint(-10**8, 10**8), t + 86400 * rng.randint(0, 1000)])
                        sa, sb = rng.randint(0, ka - 1), rng.randint(0, kb - 1)
                        sm.append([(z3.Int('a'), I(t * ka + sa)), (z3.Int('b'), I(u * kb + sb)), (z3.Int('ts$a'), I(t)), (z3.Int('sub$a'), I(sa)), (z3.Int('ts$b'), I(u)), (z3.Int('sub$b'), I(sb)), (z3.Int('null'), I(-2**63))] + a.sample(t) + b.sample(u))
                    out = []
                    for n, v, ts, sub, k in (('start ', a, ta, na, ka), ('end ', b, tb, nb, kb)):
                        if k > 1:
                            out += [(n + 'seconds', ts, -2**62, 2**62), (n + 'sub-second part', z3.Int('sub$' + n[0].replace('s', 'a').replace('e', 'b')), 0, k - 1)]
                        out += [(n + x[0],) + tuple(x[1:]) for x in v.cands() if x[0] in ('s', 'day', 'era', 'doe', 'y', 'doy', 'm', 'd', 'day from 2000-03-01')]
                    return out, sm
                cs.append(Contract(name(nul, dims), P(f, dims, nul), post, pre=lambda c, ghost=ghost: ghost(c)[1], dom='int', ranges={'a': (-2**61, 2**61), 'b': (-2**61, 2**61)}, gen=gen(10**da, 10**db), cuts=cuts,
                                   label=lab(f, nul, dims)))


def lemmas():
    import civil
    return civil.lemmas()
