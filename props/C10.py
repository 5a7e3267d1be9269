"""C10: DATE_TRUNC and timestamp/time conversions."""
from common import *
from civil import *
import random

ASSUMPTIONS = ['timestamps within 2^28 400-year eras of the year 2000 (about 107 billion years)', 'high-precision scales are 10^3, 10^6 and 10^9; conversions do not overflow 64 bits']
R = {'t': (-2**62, 2**62)}


def contracts():
    cs = []

    def gen(rng, i):
        i['t'] = nice_times(rng, 1)[0] & (2**64 - 1)
        return i

    TR = enum('DateTruncField')

    def X(fn, f, fields=(), **kw):
        X1(fn, [], f, **kw)
        for k in fields:
            X1('_Z12DateTruncateN3hdk2ir14DateTruncFieldEl', [('f', Lit('i32', TR[k]))], f, label='DateTruncate[%s]' % k)

    def X1(fn, ps, f, **kw):
        def cuts(c):
            v = Civil(c, c.t)
            ts = nice_times(random.Random(7), 24)
            return v.cands(), [[(z3.Int('t'), I(t))] + v.sample(t) for t in ts]
        cs.append(Contract(fn, ps + [('t', 'i64')], lambda c: [('start of the period', c.ret == f(Civil(c, c.t)))], pre=lambda c: Civil(c, c.t).facts(), dom='int', ranges=R, gen=gen, cuts=cuts, **kw))
    D = 86400
    X('datetrunc_minute', lambda v: D * v.day + v.s - v.s % 60, fields=['kMinute'])
    X('datetrunc_hour', lambda v: D * v.day + v.s - v.s % 3600, fields=['kHour'])
    X('datetrunc_quarterday', lambda v: D * v.day + v.s - v.s % 21600, fields=['kQuarterDay'])
    X('datetrunc_day', lambda v: D * v.day, fields=['kDay'])
    X('datetrunc_week_monday', lambda v: D * (v.day - (v.day + 3) % 7), fields=['kWeek'])
    X('datetrunc_week_sunday', lambda v: D * (v.day - (v.day + 4) % 7), fields=['kWeekSunday'])
    X('datetrunc_week_saturday', lambda v: D * (v.day - (v.day + 5) % 7), fields=['kWeekSaturday'])
    X('datetrunc_month', lambda v: D * (v.day - v.d), fields=['kMonth'])

    def quarter(v):
        """days since January, April, July or October 1 (m: March = 0)"""
        lp = z3.If(leap(v.y), I(1), I(0))
        return sel(v.m, [59, 0, 30, 61, 0, 31, 62, 0, 31, 61, 0, 31]) + z3.If(v.m == 0, lp, I(0)) + v.d
    X('datetrunc_quarter', lambda v: D * (v.day - quarter(v)), fields=['kQuarter'])
    X('datetrunc_year', lambda v: D * (v.day - v.dayofyear), fields=['kYear'])
    base = lambda v: 11017 + 146097 * v.e
    X('datetrunc_decade', lambda v: D * (base(v) + jan1(v.rely - v.rely % 10)), fields=['kDecade'])
    X('datetrunc_century', lambda v: D * (base(v) + jan1((v.rely - 1) / 100 * 100 + 1)), fields=['kCentury'])

    def mill(v):
        Q = 400 * v.e + v.rely - 1
        return D * (11017 + jan1(Q / 1000 * 1000 + 1))
    X('datetrunc_millennium', mill, fields=['kMillennium'])
    for k in ('kSecond', 'kMilli', 'kMicro', 'kNano'):
        X1('_Z12DateTruncateN3hdk2ir14DateTruncFieldEl', [('f', Lit('i32', TR[k]))], lambda v: v.c.t, label='DateTruncate[%s]' % k)
    highprec(cs)
    return cs


def highprec(cs):
    N = [('sn', 'i64'), ('tn', 'i64')]
    for k in (10**3, 10**6, 10**9):
        L = ('scale', Lit('i64', k))
        day = lambda c, k=k: c.t / (86400 * k) * 86400
        fn = 'DateTruncateHighPrecisionToDate'
        cs.append(Contract(fn, [('t', 'i64'), L], lambda c, day=day: [('midnight in seconds', c.ret == day(c))], dom='int', ranges=R, label='%s[%d]' % (fn, k)))
        cs.append(Contract(fn + 'Nullable', [('t', 'i64'), L, ('null', 'i64')],
                           lambda c, day=day: [('NULL stays NULL', z3.Implies(c.t == c.null, c.ret == c.null)), ('midnight in seconds', z3.Implies(c.t != c.null, c.ret == day(c)))],
                           dom='int', ranges=R, label='%sNullable[%d]' % (fn, k), gen=lambda rng, i: {**i, 'null': i['t'] if rng.random() < .5 else i['null']}))
        for tk in (1, 10**3, 10**6, 10**9):
            # a time of target precision tk from a timestamp of precision sk
            for up in (True, False):
                cv = ('cs', Lit('i64', k))
                tg = ('ts', Lit('i64', tk if up else tk * k))
                if (up and tk < k) or (not up and tk * k > 10**9):
                    continue
                rng = {'t': (-(2**62 // k), 2**62 // k)} if up else R
                f = (lambda c, k=k, tk=tk: (c.t * k) % (86400 * tk)) if up else (lambda c, k=k, tk=tk: c.t % (86400 * tk * k) / k)
                fn = 'TimestampToTime' + ('Upscale' if up else 'Downscale')
                what = 'time of day in the target unit'
                lab = '[x%d to %d]' % (k, tk) if up else '[/%d to %d]' % (k, tk)
                cs.append(Contract(fn, [('t', 'i64'), cv, tg], lambda c, f=f: [(what, c.ret == f(c))], dom='int', ranges=rng, label=fn + lab))
                cs.append(Contract(fn + 'Nullable', [('t', 'i64'), cv, tg] + N,
                                   lambda c, f=f: [('NULL becomes the target NULL', z3.Implies(c.t == c.sn, c.ret == c.tn)), (what, z3.Implies(c.t != c.sn, c.ret == f(c)))],
                                   dom='int', ranges=rng, label=fn + 'Nullable' + lab, gen=lambda rng, i: {**i, 'sn': i['t'] if rng.random() < .5 else i['sn']}))


def lemmas():
    import civil
    return civil.lemmas()
