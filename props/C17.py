"""C17: the range derived for an expression encloses every value the expression can take."""
from common import *
from contract import Trial
from civil import *
import itertools
import random

ASSUMPTIONS = [
    'Executor and Arrow headers are stand-ins (Arrow is not installed): the verified paths read one switch of it, null_div_by_zero, which is taken as arbitrary',
    "a sub-expression's range is any range that encloses its values (the contract of getExpressionRange, applied to the callee)",
    'ExtractFromTime and DateTruncate by their contracts (verified under C10 and C11); the table get_datetrunc_high_precision_scale as written',
    'timestamps lie within +-2^62 units and decimals within +-10^18 (what the types can store)',
    'destructors run while unwinding have no effect on the result; dynamic_cast to the dynamic type succeeds; feclearexcept / fetestexcept are unconstrained',
    'casts and extracts of sub-second timestamps by the generated code may round the quotient either way: the range must enclose both',
    'CASE and qualifier lists (std::list, std::shared_ptr) are decided by bounded executions, not proved',
]
S = lambda x, w=192: z3.SignExt(w - x.size(), x)
I = z3.IntVal
OUT = [('mn', Cell('i64')), ('mx', Cell('i64')), ('bk', Cell('i64')), ('nl', Cell('i8'))]
OUTF = [('mn', Cell('double')), ('mx', Cell('double')), ('bk', Cell('i64')), ('nl', Cell('i8'))]
TIMES = {k: (-2**62, 2**62) for k in 'abx'}
MOD = ('mn', 'mx', 'bk', 'nl')
INVALID, INT, FLT, DBL, NUL = range(5)


def heap(c, ex, i, a, mem, g):
    """operator new: an object of its own"""
    ob = Obj(ex.fresh('heap'), 'cells', size=ex.d.uval(z3.simplify(a[0]) if z3.is_expr(a[0]) else a[0]), local=True)
    mem[ob] = {}
    return P(ob), mem, g


def nothing(c, ex, i, a, mem, g):
    return (NULL if i['ty'] == 'ptr' else ex.freshval(ex.fresh('lib'), i['ty']) if i['ty'] != 'void' else None), mem, g


LIBS = {'_Znwm': heap}
for n in ('_ZdlPv', '_ZdlPvm', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', '_ZNSt11range_errorC1EPKc', '_ZNSt14overflow_errorC1EPKc', '_ZNSt11range_errorD1Ev',
          '_ZNSt14overflow_errorD1Ev', '_ZNSt11range_errorC2ERKS_', '_ZNSt14overflow_errorC2ERKS_', '_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt12domain_errorC1EPKc',
          '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2IS3_EEPKcRKS3_', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED2Ev', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1IS3_EEPKcRKS3_',
          '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev',
          'feclearexcept', 'fetestexcept', 'v_reset'):
    LIBS[n] = nothing


def throws(c, ex, i, a, mem, g):
    """Boost's error reporters: throw"""
    ex.thrown.append((g, dict(mem), ex.line))
    return None, mem, z3.BoolVal(False)


for n in ('_ZN5boost14multiprecision8backends6detail14raise_overflowENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',):
    LIBS[n] = throws
LIBS['__cxa_allocate_exception'] = lambda c, ex, i, a, mem, g: heap(c, ex, i, a, mem, g)


def rng64(r):
    return r.choice([0, 1, -1, 2, -3, 10, 1000, 2**31, 2**32, -2**33, 2**62, -2**62, 2**63 - 1, -2**63, r.randint(-100, 100), r.randint(-2**62, 2**62), r.randint(-2**33, 2**33)])


def gen_int(pairs):
    def gen(r, i):
        for a, b, x in pairs:
            u = sorted(rng64(r) for _ in range(3)) if r.random() < .8 else [rng64(r)] * 3
            for k, v in zip((a, x, b), u):
                if k:
                    i[k] = v & (2**64 - 1)
        return i
    return gen


def gen_or(r, i):
    i = gen_int([('a', 'b', 'x'), ('c_', 'd', None)])(r, i)
    i['p'], i['q'] = r.choice([0, 7, 60]), r.choice([0, 7, 60])
    return i


def tdiv(p, q):
    """the quotient rounded towards zero"""
    A = lambda t: z3.If(t < 0, -t, t)
    u = A(p) / A(q)
    return z3.If((p < 0) == (q < 0), u, -u)


def trem(p, q):
    """the remainder of tdiv, q > 0"""
    return z3.If(p < 0, -((-p) % q), p % q)


def ops(cs):
    ps = [('a', 'i64'), ('b', 'i64'), ('n', 'i1'), ('c_', 'i64'), ('d', 'i64'), ('m', 'i1'), ('z', 'i1'), ('x', 'i64'), ('y', 'i64')] + OUT
    inside = lambda c: [c.a <= c.x, c.x <= c.b, c.c_ <= c.y, c.y <= c.d]
    for op, f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y), ('div', tdiv)):
        def post(c, f=f, op=op):
            ok = c.ret == INT
            mn, mx = c.new('mn'), c.new('mx')
            out = [('encloses corner %d' % k, z3.Implies(ok, z3.And(mn <= f(p, q), f(p, q) <= mx))) for k, (p, q) in enumerate(itertools.product((c.a, c.b), (c.c_, c.d)))]
            if op == 'div':
                out.append(('no range if the divisor may be zero', z3.Implies(ok, z3.Or(c.c_ > 0, c.d < 0))))
            return out + [('NULL if an operand may be', z3.Implies(ok, (c.new('nl') == 1) == (c.n + c.m + (c.z if op == 'div' else 0) > 0))),
                    ('no bucket', z3.Implies(ok, c.new('bk') == 0)), ('a range or none', z3.Or(ok, c.ret == INVALID))]
        cs.append(Contract('v_int_' + op, ps, post, pre=inside, modifies=MOD, unit='er', dom='int', models=LIBS, gen=gen_int([('a', 'b', 'x'), ('c_', 'd', 'y')]), label='integer ranges[%s]' % op))

    def post(c):
        ok = c.ret == INT
        mn, mx, bk = c.new('mn'), c.new('mx'), c.new('bk')
        return [('a range', ok), ('encloses both', z3.And(mn <= c.a, mn <= c.c_, mx >= c.b, mx >= c.d)), ('NULL if either may be', (c.new('nl') == 1) == z3.Or(c.n, c.m)),
                ('a bucket only if both have it', z3.Or(bk == 0, z3.And(c.p == bk, c.q == bk))),
                ('a bucket only if the values are aligned', z3.Or(bk == 0, c.a % bk == c.c_ % bk, trem(c.a, bk) == trem(c.c_, bk)))]
    cs.append(Contract('v_int_or', [('a', 'i64'), ('b', 'i64'), ('p', 'i64'), ('n', 'i1'), ('c_', 'i64'), ('d', 'i64'), ('q', 'i64'), ('m', 'i1'), ('x', 'i64')] + OUT, post, pre=lambda c: [c.p >= 0, c.q >= 0, c.a <= c.b, c.c_ <= c.d],
                       modifies=MOD, unit='er', dom='int', ranges={'p': (0, 2**62), 'q': (0, 2**62)}, models=LIBS, gen=gen_or, label='integer ranges[union]'))
    cs.append(Contract('v_int_eq', [('a', 'i64'), ('b', 'i64'), ('n', 'i1'), ('c_', 'i64'), ('d', 'i64'), ('m', 'i1')],
                       lambda c: [('equal limits and NULLs', c.ret == z3.And(c.a == c.c_, c.b == c.d, c.n == c.m))], unit='er', models=LIBS, gen=gen_int([('a', 'b', None), ('c_', 'd', None)]), label='integer ranges[equality]'))


# sub-expressions and calendar functions, by their contracts
GE = '_Z18getExpressionRangePKN3hdk2ir4ExprERKSt6vectorI14InputTableInfoSaIS5_EEPK8ExecutorN5boost8optionalINSt7__cxx114listISt10shared_ptrIS2_ESaISI_EEEEE'
EXTRACT = z3.Function('extract', z3.IntSort(), z3.IntSort(), z3.IntSort())
TRUNC = z3.Function('trunc', z3.IntSort(), z3.IntSort(), z3.IntSort())
UNIT = {'s': (2, 1), 'ms': (3, 10**3), 'us': (4, 10**6), 'ns': (5, 10**9)}
KIND = dict(int=0, fp=1, dec=2, date=3, time=4, stamp=5)


def uf(F):
    def m(c, ex, i, a, mem, g):
        t = F(ex.d.term(a[0]), ex.d.term(a[1]))
        ex.facts.append(z3.And(t >= -2**63, t < 2**63))
        return IV(t, -2**63, 2**63 - 1), mem, g
    return m


def opaque(size):
    def m(c, ex, i, a, mem, g):
        return P(Obj(ex.fresh('opaque'), 'cells', size=size)), mem, g
    return m


def dyncast(c, ex, i, a, mem, g):
    """dynamic_cast to the dynamic type of the object"""
    return a[0], mem, g


SUB = dict(LIBS, **{
    '__dynamic_cast': dyncast,
    '_Z5v_subPvPKN3hdk2ir4TypeERK3Sub': lambda c, ex, i, a, mem, g: ex.call_fn('_Z11v_sub_modelPvPKN3hdk2ir4TypeERK3Sub', a, mem, g),
    GE: lambda c, ex, i, a, mem, g: ex.call_fn('_Z11v_sub_rangePKN3hdk2ir4ExprE', a[:2], mem, g),
    '_Z10v_executorv': opaque(8), '_Z7v_infosv': opaque(24),
    '_Z15ExtractFromTimeN3hdk2ir16DateExtractFieldEl': uf(EXTRACT), '_Z12DateTruncateN3hdk2ir14DateTruncFieldEl': uf(TRUNC)})


def year(c, t):
    if c.mode != 'conc':
        return EXTRACT(I(0), t)
    p = parts(z3.simplify(t).as_long())
    return I(2000 + 400 * p['e'] + p['y'] + (p['m'] >= 10))


def extract(cs):
    EX = enum('DateExtractField')
    fixed = dict(kQuarterDay=(1, 4), kQuarter=(1, 4), kMonth=(1, 12), kDay=(1, 31), kHour=(0, 23), kMinute=(0, 59), kSecond=(0, 59), kMilli=(0, 59999), kMicro=(0, 59999999), kNano=(0, 59999999999),
                 kDayOfWeek=(0, 6), kIsoDayOfWeek=(1, 7), kDayOfYear=(1, 366), kWeek=(1, 53), kWeekSunday=(1, 53), kWeekSaturday=(1, 53))
    for ty, u in [('date', 's')] + [('stamp', u) for u in UNIT]:
        uv, s = UNIT[u]
        for sk in (INT, INVALID):
            ps = [('field', 'i32'), ('kind', Lit('i32', KIND[ty])), ('u', Lit('i32', uv)), ('n', 'i1'), ('rk', Lit('i32', sk)), ('a', 'i64'), ('b', 'i64'), ('p', Lit('i64', 0)), ('an', 'i1'), ('x', 'i64')] + OUT

            def post(c, s=s, sk=sk):
                ok = c.ret == INT
                mn, mx = c.new('mn'), c.new('mx')
                F = lambda k: z3.And(ok, c.field == EX[k])
                out = [('encloses %s' % k, z3.Implies(F(k), z3.And(mn <= lo, mx >= hi))) for k, (lo, hi) in fixed.items()]
                if sk == INT:
                    sa, sb = c.a / s, z3.If(c.n, c.b / s, tdiv(c.b, I(s)))    # without NULLs the generated code divides towards zero
                    out += [('encloses the years', z3.Implies(F('kYear'), z3.And(mn <= year(c, sa), mx >= year(c, c.b / s), z3.Implies(z3.Not(c.n), mx >= year(c, tdiv(c.b, I(s))))))),
                            ('encloses the epochs', z3.Implies(F('kEpoch'), z3.And(mn <= sa, mx >= sb))),
                            ('encloses the epochs of days', z3.Implies(F('kDateEpoch'), z3.And(mn <= sa - sa % 86400, mx >= sb - sb % 86400)))]
                return out + [('NULL if the operand may be', z3.Implies(z3.And(ok, c.an if sk == INT else z3.BoolVal(True)), c.new('nl') == 1)), ('a range or none', z3.Or(ok, c.ret == INVALID))] + \
                    ([('none without the range of the operand', z3.Implies(ok, z3.Not(z3.Or(*[c.field == EX[k] for k in ('kYear', 'kEpoch', 'kDateEpoch')]))))] if sk == INVALID else [])

            def pre(c, s=s):
                # years do not decrease (lemma)
                return [c.a <= c.x, c.x <= c.b, c.field >= 0, c.field <= max(EX.values()), year(c, c.b / s) <= year(c, tdiv(c.b, I(s)))]

            def gen(r, i, s=s):
                t = sorted(t * s + r.choice([0, 1, -1, s // 2, r.randint(0, s - 1)]) for t in nice_times(r, 3, -2**33, 2**33))
                i['a'], i['x'], i['b'] = [v & (2**64 - 1) for v in t]
                i['field'] = r.choice(list(EX.values()))
                return i
            cs.append(Contract('v_extract', ps, post, pre=pre, modifies=MOD, unit='er', dom='int', models=dict(SUB, **{'_Z12DateTruncateN3hdk2ir14DateTruncFieldEl': utrunc(enum('DateTruncField'))}), gen=gen, ranges=TIMES,
                               label='range of EXTRACT[%s %s%s]' % (ty, u, '' if sk == INT else ', no range')))


SUBSEC = {'kSecond': 1, 'kMilli': 10**3, 'kMicro': 10**6, 'kNano': 10**9}
DAY = 86400
LEAST = dict(kYear=365 * DAY, kQuarter=90 * DAY, kMonth=28 * DAY, kDay=DAY, kHour=3600, kMinute=60, kMillennium=365242 * DAY, kCentury=36524 * DAY, kDecade=3652 * DAY, kWeek=7 * DAY, kWeekSunday=7 * DAY,
             kWeekSaturday=7 * DAY, kQuarterDay=21600)


def trunc_py(f, t):
    p = parts(t)
    day, o = p['day'], {'kWeek': 3, 'kWeekSunday': 4, 'kWeekSaturday': 5}
    if f in SUBSEC:
        return t
    if f in ('kMinute', 'kHour', 'kQuarterDay', 'kDay'):
        m = {'kMinute': 60, 'kHour': 3600, 'kQuarterDay': 21600, 'kDay': DAY}[f]
        return t - t % m
    if f in o:
        return DAY * (day - (day + o[f]) % 7)
    mon = (p['m'] + 2) % 12
    Y = 2000 + 400 * p['e'] + p['y'] + (p['m'] >= 10)
    n = {'kYear': 1, 'kDecade': 10, 'kCentury': 100, 'kMillennium': 1000}.get(f)
    if n:
        Y, mon = Y - (Y - (1 if n >= 100 else 0)) % n, 0
    else:
        mon -= mon % 3 if f == 'kQuarter' else 0
    P = Y - 2000 - (mon < 2)
    return DAY * (11017 + 365 * P + P // 4 - P // 100 + P // 400 + CUM[(mon - 2) % 12])


def truncated(c, TR, t, s, f=None):
    """the start of the period of t, both in units of 1/s seconds"""
    f = c.field if f is None else I(f)
    if c.mode == 'conc':
        k = [k for k, v in TR.items() if v == z3.simplify(f).as_long()][0]
        tv = z3.simplify(t).as_long()
        if k in SUBSEC:
            m = max(1, s // SUBSEC[k])
            return I(tv - tv % m)
        return I(trunc_py(k, tv // s) * s)
    r = TRUNC(f, t / s) * s
    for k, n in SUBSEC.items():
        m = max(1, s // n)
        r = z3.If(f == TR[k], t - t % m, r)
    return r


def utrunc(TR):
    base = uf(TRUNC)

    def m(c, ex, i, a, mem, g):
        r, mem, g = base(c, ex, i, a, mem, g)
        ex.facts.append(z3.Implies(z3.Or(*[ex.d.term(a[0]) == TR[k] for k in SUBSEC]), r.t == ex.d.term(a[1])))
        for k, n in (('kDay', DAY), ('kHour', 3600), ('kMinute', 60)):
            ex.facts.append(z3.Implies(ex.d.term(a[0]) == TR[k], r.t == ex.d.term(a[1]) - ex.d.term(a[1]) % n))
        return r, mem, g
    return m


def scale_model(TR):
    """get_datetrunc_high_precision_scale: units per period of a sub-second field, -1 if not more than one (the table is enumerated by the trial below)"""
    def m(c, ex, i, a, mem, g):
        f, u = ex.load(mem, g, a[0], 'i32'), a[1]
        if not ex.d.isconst(f) or not ex.d.isconst(u):
            ex.oblige('asked only for sub-second fields', 'safety', g, z3.BoolVal(False))
            return ex.d.const(64, -1), mem, g
        n = dict((TR[k], n) for k, n in SUBSEC.items() if k != 'kSecond').get(ex.d.sval(f))
        s = dict(UNIT.values()).get(ex.d.sval(u), 1)
        return ex.d.const(64, s // n if n and s // n > 1 else -1), mem, g
    return m


def trunc(cs):
    # of the millennia only that of 2001 is representable in nanoseconds: there any bucket separates the values
    TR = enum('DateTruncField')
    M = dict(SUB, **{'_Z12DateTruncateN3hdk2ir14DateTruncFieldEl': utrunc(TR), '_ZN13DateTimeUtils34get_datetrunc_high_precision_scaleERKN3hdk2ir14DateTruncFieldENS1_8TimeUnitE': scale_model(TR)})
    for ty, u in [('date', 's')] + [('stamp', u) for u in UNIT]:
      for fk in [None] + [k for k in SUBSEC if k != 'kSecond']:
        uv, s = UNIT[u]
        ps = [('field', 'i32' if fk is None else Lit('i32', TR[fk])), ('kind', Lit('i32', KIND[ty])), ('u', Lit('i32', uv)), ('n', 'i1'), ('rk', 'i32'), ('a', 'i64'), ('b', 'i64'), ('p', Lit('i64', 0)), ('an', 'i1'), ('x', 'i64'), ('y', 'i64')] + OUT

        def post(c, s=s):
            ok = c.ret == INT
            mn, mx, bk = c.new('mn'), c.new('mx'), c.new('bk')
            F = lambda k: z3.And(ok, c.field == TR[k])
            return [('encloses the first period', z3.Implies(ok, mn <= truncated(c, TR, c.a, s))), ('encloses the last period', z3.Implies(ok, mx >= truncated(c, TR, c.b, s)))] + \
                [('the bucket is no longer than a period[%s]' % k, z3.Implies(F(k), z3.And(bk >= 0, bk <= (LEAST[k] * s if k in LEAST else max(1, s // SUBSEC[k]))))) for k in [*LEAST, *SUBSEC]
                 if (k, s) != ('kMillennium', 10**9)] + \
                [('NULL if the operand may be', z3.Implies(z3.And(ok, c.an), c.new('nl') == 1)), ('a range or none', z3.Or(ok, c.ret == INVALID)), ('none without the range of the operand', z3.Implies(c.rk == INVALID, c.ret == INVALID))]

        def pre(c, s=s, fk=fk):
            return [c.a <= c.x, c.x <= c.b, c.field >= 0, c.field < TR['kInvalid'], *([c.field != TR[k] for k in SUBSEC if k != 'kSecond'] if fk is None else []), z3.Or(c.rk == INT, c.rk == INVALID)] + [z3.And(truncated(c, TR, t, s) >= -2**63, truncated(c, TR, t, s) < 2**63) for t in (c.a, c.b)]

        def gen(r, i, s=s, fk=fk):
            t = sorted(t * s + r.choice([0, 1, -1, s // 2, r.randint(0, s - 1)]) for t in nice_times(r, 3, -2**33, 2**33))
            i['a'], i['x'], i['b'] = [v & (2**64 - 1) for v in t]
            if fk is None:
                i['field'] = r.choice([v for k, v in TR.items() if k != 'kInvalid' and k not in ('kMilli', 'kMicro', 'kNano')])
            i['rk'] = r.choice([INT, INT, INVALID])
            return i
        cs.append(Contract('v_trunc', ps, post, pre=pre, modifies=MOD, unit='er', dom='int', models=M, gen=gen, ranges=TIMES, label='range of DATE_TRUNC[%s %s%s]' % (ty, u, '' if fk is None else ', ' + fk)))


def halfup(x, k):
    """x / k rounded half away from zero"""
    A = z3.If(x < 0, -x, x)
    q = (A + k // 2) / k
    return z3.If(x < 0, -q, q)


def cast(cs):
    TR = enum('DateTruncField')
    M = dict(SUB, **{'_Z12DateTruncateN3hdk2ir14DateTruncFieldEl': utrunc(TR)})
    units_ = {k: v[1] for k, v in UNIT.items()}
    T = []    # label, from, to, least value, greatest value, precondition, bucket
    for f, t in (('s', 'ms'), ('s', 'ns'), ('ms', 's'), ('ns', 's'), ('us', 'ms'), ('ms', 'us'), ('ns', 'us'), ('us', 's'), ('s', 's')):
        kf, kt = units_[f], units_[t]
        g = (lambda x, k=kt // kf: x * k) if kt >= kf else (lambda x, k=kf // kt: x / k)
        h = g if kt >= kf else (lambda x, k=kf // kt: (x / k, tdiv(x, I(k))))    # without NULLs the generated code divides towards zero
        for src in (('stamp', 'date') if f == 's' else ('stamp',)):
            T.append(('%s %s to stamp %s' % (src, f, t), (KIND[src], UNIT[f][0]), (KIND['stamp'], UNIT[t][0]), g, h, lambda c, g=g: [g(y) >= -2**63 for y in (c.a, c.b)] + [g(y) < 2**63 for y in (c.a, c.b)], 0))
    for f in UNIT:
        k = units_[f]
        g = lambda x, k=k: x / k - x / k % DAY
        T.append(('stamp %s to date' % f, (KIND['stamp'], UNIT[f][0]), (KIND['date'], 0), g, g, lambda c, g=g: [g(c.a) >= -2**63], DAY))
        for t in ('s', 'ms', 'ns'):
            T.append(('stamp %s to time %s' % (f, t), (KIND['stamp'], UNIT[f][0]), (KIND['time'], UNIT[t][0]), lambda x: I(0), lambda x, t=t: I(DAY * units_[t] - 1), lambda c: [], 0))
    T.append(('int to int', (KIND['int'], 8), (KIND['int'], 8), lambda x: x, lambda x: x, lambda c: [], 0))
    T.append(('int to smaller int', (KIND['int'], 8), (KIND['int'], 4), lambda x: x, lambda x: x, lambda c: [], 0))
    for f, t in ((None, 2), (None, 0), (None, 9), (2, 4), (3, 3), (4, 2), (9, 0)):
        src = (KIND['int'], 8) if f is None else (KIND['dec'], f)
        e = t - (f or 0)
        g = (lambda x, e=e: x * 10**e) if e >= 0 else (lambda x, e=e: halfup(x, 10**-e))
        T.append(('%s to decimal %d' % ('int' if f is None else 'decimal %d' % f, t), src, (KIND['dec'], t), g, g, lambda c, f=f: [] if f is None else [c.a >= -10**18, c.b <= 10**18], 0))
    for f in (0, 2, 9):
        g = lambda x, f=f: halfup(x, 10**f)
        T.append(('decimal %d to int' % f, (KIND['dec'], f), (KIND['int'], 8), g, g, lambda c: [c.a >= -10**18, c.b <= 10**18], 0))
    for lab, (k0, u0), (k1, u1), lo, hi, lim, bkt in T:
        ps = [('kind', Lit('i32', k0)), ('u', Lit('i32', u0)), ('n', 'i1'), ('to', Lit('i32', k1)), ('w', Lit('i32', u1)), ('rk', 'i32'), ('a', 'i64'), ('b', 'i64'), ('p', Lit('i64', 0)), ('an', 'i1'), ('x', 'i64')] + OUT

        def post(c, lo=lo, hi=hi, bkt=bkt, k1=k1):
            ok = c.ret == INT
            h = hi(c.b)
            h = z3.If(c.n, *h) if isinstance(h, tuple) else h
            return [('encloses the least value', z3.Implies(ok, c.new('mn') <= lo(c.a))), ('encloses the greatest value', z3.Implies(ok, c.new('mx') >= h)),
                    ('NULL if the operand may be', z3.Implies(z3.And(ok, c.an), c.new('nl') == 1)), ('a bucket no longer than a day, of dates', z3.Implies(ok, z3.And(c.new('bk') >= 0, c.new('bk') <= bkt))),
                    ('a range or none', z3.Or(ok, c.ret == INVALID))] + ([('none without the range of the operand', z3.Implies(c.rk == INVALID, c.ret == INVALID))] if k1 != KIND['time'] else [])

        def gen(r, i, s=units_.get(lab.split()[1], 1) if 'stamp' in lab else 0):
            if s:
                t = sorted(t * s + r.choice([0, 1, -1, s // 2, r.randint(0, s - 1)]) for t in nice_times(r, 3, -2**33, 2**33))
            else:
                t = sorted(rng64(r) if r.random() < .5 else r.randint(-10**6, 10**6) for _ in range(3))
            i['a'], i['x'], i['b'] = [v & (2**64 - 1) for v in t]
            i['rk'] = r.choice([INT, INT, INVALID])
            return i
        cs.append(Contract('v_cast_ii', ps, post, pre=lambda c, lim=lim: [c.a <= c.x, c.x <= c.b, z3.Or(c.rk == INT, c.rk == INVALID)] + lim(c), modifies=MOD, unit='er', dom='int', models=M, gen=gen, ranges=TIMES if k0 == KIND['stamp'] else None, label='range of CAST[%s]' % lab))


def optypes():
    import re
    import units
    t = open(units.OMNI + '/IR/OpTypeEnums.h').read() if os.path.exists(units.OMNI + '/IR/OpTypeEnums.h') else open(units.OMNI + '/IR/OpType.h').read()
    body = re.sub(r'//[^\n]*|/\*.*?\*/', '', re.search(r'enum class OpType[^{]*\{(.*?)\}', t, re.S).group(1), flags=re.S)
    out, k = {}, 0
    for x in body.split(','):
        x = x.strip()
        if x:
            if '=' in x:
                x, w = [y.strip() for y in x.split('=')]
                k = int(w, 0)
            out[x] = k
            k += 1
    return out


def binary(cs):
    OP = optypes()
    M = dict(SUB, **{'_ZNK8Executor9getConfigEv': opaque(1 << 16)})
    for ty, u, k in (('int', 8, 1), ('dec', 2, 100)):
        for op, f in (('kPlus', lambda x, y: x + y), ('kMinus', lambda x, y: x - y), ('kMul', lambda x, y: x * y), ('kDiv', lambda x, y, k=k: tdiv(x * k, y)), ('kMod', None)):
            ps = [('op', Lit('i32', OP[op])), ('kind', Lit('i32', KIND[ty])), ('u', Lit('i32', u)), ('n', 'i1'), ('z', 'i1'), ('rk', 'i32'), ('a', 'i64'), ('b', 'i64'), ('an', 'i1'), ('rl', 'i32'), ('c_', 'i64'), ('d', 'i64'), ('am', 'i1'),
                  ('x', 'i64'), ('y', 'i64')] + OUT

            def post(c, f=f, op=op):
                ok = c.ret == INT
                mn, mx = c.new('mn'), c.new('mx')
                out = [('encloses corner %d' % j, z3.Implies(ok, z3.And(mn <= f(p, q), f(p, q) <= mx))) for j, (p, q) in enumerate(itertools.product((c.a, c.b), (c.c_, c.d)))] if f else []
                if op == 'kDiv':
                    out.append(('no range if the divisor may be zero', z3.Implies(ok, z3.Or(c.c_ > 0, c.d < 0))))
                return out + [('NULL if an operand may be', z3.Implies(z3.And(ok, z3.Or(c.an, c.am)), c.new('nl') == 1)), ('no bucket', z3.Implies(ok, c.new('bk') == 0)), ('a range or none', z3.Or(ok, c.ret == INVALID)),
                              ('none without the ranges of the operands', z3.Implies(z3.Or(c.rk == INVALID, c.rl == INVALID) if f else z3.BoolVal(True), c.ret == INVALID))]

            def gen(r, i):
                i = gen_int([('a', 'b', 'x'), ('c_', 'd', 'y')])(r, i)
                i['rk'], i['rl'] = r.choice([INT, INT, INT, INVALID]), r.choice([INT, INT, INT, INVALID])
                return i
            cases = (('', lambda c: []),) if op != 'kDiv' else ((', divisor > 0', lambda c: [c.c_ > 0]), (', divisor < 0', lambda c: [c.d < 0]), (', divisor around 0', lambda c: [c.c_ <= 0, c.d >= 0]))
            for what, extra in cases:
                cs.append(Contract('v_binary', ps, post, pre=lambda c, extra=extra: [c.a <= c.x, c.x <= c.b, c.c_ <= c.y, c.y <= c.d] + [z3.Or(t == INT, t == INVALID) for t in (c.rk, c.rl)] + extra(c), modifies=MOD, unit='er', dom='int',
                                   models=M, gen=gen, label='range of an operation[%s, %s%s]' % (op, ty, what)))


def fpops(cs):
    RM = z3.RNE()
    fin = lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))
    for ty, so, tag in (('double', z3.Float64(), DBL), ('float', z3.Float32(), FLT)):
        pfx = 'v_dbl_' if ty == 'double' else 'v_flt_'
        up = lambda t: z3.fpFPToFP(RM, t, z3.Float64()) if t.sort() != z3.Float64() else t
        pre = lambda c: [fin(t) for t in (c.a, c.b, c.c_, c.d)] + [z3.fpLEQ(c.a, c.b), z3.fpLEQ(c.c_, c.d)]
        ps = [('a', ty), ('b', ty), ('n', 'i1'), ('c_', ty), ('d', ty), ('m', 'i1'), ('z', 'i1')] + OUTF
        for op, f in (('add', lambda x, y: fp_uf('fadd', x.sort(), x, y)), ('sub', lambda x, y: fp_uf('fsub', x.sort(), x, y)), ('mul', lambda x, y: fp_uf('fmul', x.sort(), x, y))):
            def post(c, f=f, tag=tag):
                ok = c.ret == tag
                cor = [up(f(p, q)) for p, q in itertools.product((c.a, c.b), (c.c_, c.d))]
                num = z3.Not(z3.Or(*[z3.fpIsNaN(t) for t in cor]))
                return [('encloses corner %d' % k, z3.Implies(z3.And(ok, num), z3.And(z3.fpLEQ(c.new('mn'), t), z3.fpLEQ(t, c.new('mx'))))) for k, t in enumerate(cor)] + \
                    [('NULL if an operand may be', z3.Implies(ok, (c.new('nl') == 1) == z3.Or(c.n, c.m))), ('no bucket', z3.Implies(ok, c.new('bk') == 0)), ('a range or none', z3.Or(ok, c.ret == INVALID))]
            cs.append(Contract(pfx + op, ps, post, pre=pre, modifies=MOD, unit='er', models=LIBS, gen=gen_fp, label='%s ranges[%s]' % (ty, op)))
        cs.append(Contract(pfx + 'div', ps, lambda c: [('no range', c.ret == INVALID)], pre=pre, modifies=MOD, unit='er', models=LIBS, gen=gen_fp, label='%s ranges[div]' % ty))

        def post(c, tag=tag):
            mn, mx = c.new('mn'), c.new('mx')
            return [('a range', c.ret == tag), ('encloses both', z3.And(*[z3.fpLEQ(mn, up(t)) for t in (c.a, c.c_)], *[z3.fpLEQ(up(t), mx) for t in (c.b, c.d)])), ('NULL if either may be', (c.new('nl') == 1) == z3.Or(c.n, c.m)), ('no bucket', c.new('bk') == 0)]
        cs.append(Contract(pfx + 'or', ps[:-5] + [('x', ty)] + OUTF, post, pre=pre, modifies=MOD, unit='er', models=LIBS, gen=gen_fp, label='%s ranges[union]' % ty))
    cs.append(Contract('v_dbl_eq', [('a', 'double'), ('b', 'double'), ('n', 'i1'), ('c_', 'double'), ('d', 'double'), ('m', 'i1')], lambda c: [('equal limits and NULLs', c.ret == z3.And(z3.fpEQ(c.a, c.c_), z3.fpEQ(c.b, c.d), c.n == c.m))],
                       unit='er', models=LIBS, gen=gen_fp, label='double ranges[equality]'))


def fpcast(cs):
    RM = z3.RNE()
    fin = lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))
    F32, F64 = z3.Float32(), z3.Float64()
    D = lambda t: t if t.sort() == F64 else z3.fpFPToFP(RM, t, F64)
    nl = lambda c, ok: [('NULL if the operand may be', z3.Implies(z3.And(ok, c.an), c.new('nl') == 1)), ('no bucket', z3.Implies(ok, c.new('bk') == 0)), ('none without the range of the operand', z3.Implies(c.rk == INVALID, c.ret == INVALID))]
    arg = lambda k0, u0, k1, u1: [('kind', Lit('i32', k0)), ('u', Lit('i32', u0)), ('n', 'i1'), ('to', Lit('i32', k1)), ('w', Lit('i32', u1)), ('rk', 'i32')]

    def gen(r, i):
        i['a'], i['x'], i['b'] = [v & (2**64 - 1) for v in sorted(rng64(r) for _ in range(3))]
        i['rk'] = r.choice([INT, INT, INVALID])
        return i
    for lab, u1, so in (('int to double', 8, F64), ('int to float', 4, F32)):
        def post(c, so=so, tag=DBL if u1 == 8 else FLT):
            ok = c.ret == tag
            cv = lambda t: D(z3.fpSignedToFP(RM, t, so))
            return [('encloses the least value', z3.Implies(ok, z3.fpLEQ(c.new('mn'), cv(c.a)))), ('encloses the greatest value', z3.Implies(ok, z3.fpLEQ(cv(c.b), c.new('mx')))), ('a range or none', z3.Or(ok, c.ret == INVALID))] + nl(c, ok)
        cs.append(Contract('v_cast_if', arg(0, 8, 1, u1) + [('a', 'i64'), ('b', 'i64'), ('p', Lit('i64', 0)), ('an', 'i1'), ('x', 'i64')] + OUTF, post, pre=lambda c: [c.a <= c.x, c.x <= c.b, z3.Or(c.rk == INT, c.rk == INVALID)], modifies=MOD,
                           unit='er', models=SUB, gen=gen, label='range of CAST[%s]' % lab))

    def genf(r, i):
        import struct
        i['a'], i['x'], i['b'] = [struct.unpack('<Q', struct.pack('<d', v))[0] for v in sorted(r.choice([0.0, r.uniform(-9, 9), r.randint(-9, 9) / 2, r.uniform(-1e15, 1e15), 1e18, -1e18]) for _ in range(3))]
        i['rk'] = r.choice([DBL, DBL, INVALID])
        return i
    pre = lambda c: [fin(t) for t in (c.a, c.b, c.x)] + [z3.fpLEQ(c.a, c.x), z3.fpLEQ(c.x, c.b), z3.Or(c.rk == DBL, c.rk == INVALID)]
    dps = [('a', 'double'), ('b', 'double'), ('p', Lit('i64', 0)), ('an', 'i1'), ('x', 'double')]
    for lab, u1, so in (('double to double', 8, F64), ('double to float', 4, F32)):
        def post(c, so=so, tag=DBL if u1 == 8 else FLT):
            ok = c.ret == tag
            cv = lambda t: t if so == F64 else D(z3.fpFPToFP(RM, t, so))
            return [('encloses the least value', z3.Implies(ok, z3.fpLEQ(c.new('mn'), cv(c.a)))), ('encloses the greatest value', z3.Implies(ok, z3.fpLEQ(cv(c.b), c.new('mx')))), ('a range or none', z3.Or(ok, c.ret == INVALID))] + nl(c, ok)
        cs.append(Contract('v_cast_ff', arg(1, 8, 1, u1) + dps + OUTF, post, pre=pre, modifies=MOD, unit='er', models=SUB, gen=genf, label='range of CAST[%s]' % lab))

    def post(c):
        ok = c.ret == INT
        R = lambda t, m: z3.fpToSBV(z3.RTZ(), z3.fpRoundToIntegral(m, t), z3.BitVecSort(64))
        return [('encloses the least value', z3.Implies(ok, c.new('mn') <= R(c.a, z3.RTN()))), ('encloses the greatest value', z3.Implies(ok, R(c.b, z3.RTP()) <= c.new('mx'))), ('a range or none', z3.Or(ok, c.ret == INVALID))] + nl(c, ok)
    big = z3.FPVal(2.0**62, F64)
    cs.append(Contract('v_cast_fi', arg(1, 8, 0, 8) + dps + OUT, post, pre=lambda c: pre(c) + [z3.fpLEQ(c.b, big), z3.fpLEQ(z3.fpNeg(big), c.a)], modifies=MOD, unit='er', models=SUB, gen=genf, label='range of CAST[double to int]'))


def gen_fp(r, i):
    import struct
    w = lambda v: struct.unpack('<Q', struct.pack('<d', v))[0]
    return i


def outs():
    import ctypes as C
    return [C.c_int64(0), C.c_int64(0), C.c_double(0), C.c_double(0), C.c_int64(0), C.c_uint8(0)]


def trials(cs):
    import ctypes as C
    OP = optypes()
    TYPES = [(0, 8, 0, 8)] + [(5, u, 5, w) for u in (2, 3, 4, 5) for w in (2, 3, 4, 5)] + [(3, 2, 5, w) for w in (2, 3, 5)] + [(1, 8, 1, 8), (1, 4, 1, 4)]
    REL = {'kEq': lambda x, y: x == y, 'kLt': lambda x, y: x < y, 'kGt': lambda x, y: x > y, 'kLe': lambda x, y: x <= y, 'kGe': lambda x, y: x >= y, 'kNe': lambda x, y: x != y}
    N = {8: 1, 2: 1, 3: 10**3, 4: 10**6, 5: 10**9}

    def gen_q(r, k):
        kind, u, vk, vu = TYPES[k % len(TYPES)]
        n = r.choice([1, 1, 2, 3])
        if kind == 1:
            f = lambda: r.choice([0.0, 1.5, -2.0, float(r.randint(-9, 9)), r.randint(-30, 30) / 4])
            a, b = sorted([f(), f()])
            c = [f() for _ in range(n)]
        else:
            f = lambda: r.choice([0, 1, -1, r.randint(-20, 20), r.randint(-10**6, 10**6)])
            a, b = sorted([f(), f()])
            k = max(1, N[vu] // N[u])
            c = [r.choice([f(), (r.randint(min(a, b) - 2, max(a, b) + 2)) * k + r.choice([0, 0, 1, -1, k // 2, r.randint(0, k - 1)])]) for _ in range(n)]
            if N[u] > N[vu]:
                c = [x // (N[u] // N[vu]) if r.random() < .7 else x for x in c]
        return dict(kind=kind, u=u, vk=vk, vu=vu, n=n, a=a, b=b, c=c, op=[r.choice(list(REL)) for _ in range(n)], wrap=[r.random() < .3 for _ in range(n)], other=[r.random() < .15 for _ in range(n)], nulls=r.random() < .5)

    def test_q(native, i):
        f = native.get('v_qual')
        n, fp = i['n'], i['kind'] == 1
        ar = lambda t, l: (t * n)(*l)
        o = outs()
        f.restype = C.c_int
        r = f(C.c_int(n), ar(C.c_int, [OP[x] for x in i['op']]), ar(C.c_int, [i['vu']] * n), ar(C.c_int, i['wrap']), ar(C.c_int, i['other']), ar(C.c_int64, [0] * n if fp else i['c']), ar(C.c_double, i['c'] if fp else [0] * n), C.c_int(i['kind']),
              C.c_int(i['u']), C.c_int(i['vk']), C.c_int((2 if i['u'] == 4 else 3) if fp else 1), C.c_int64(0 if fp else i['a']), C.c_int64(0 if fp else i['b']), C.c_double(i['a'] if fp else 0), C.c_double(i['b'] if fp else 0),
              C.c_bool(i['nulls']), *[C.byref(x) for x in o])
        if r != ((2 if i['u'] == 4 else 3) if fp else 1):
            return 'no range'
        mn, mx = (o[2].value, o[3].value) if fp else (o[0].value, o[1].value)
        m = max(N[i['u']], N[i['vu']]) if not fp else 1
        ku, kv = (1, 1) if fp else (m // N[i['u']], m // N[i['vu']])
        near = {i['a'], i['b'], (i['a'] + i['b']) / 2 if fp else (i['a'] + i['b']) // 2}
        for c in i['c']:
            near |= {c, c + .25, c - .25} if fp else {c * kv // ku + d for d in (-1, 0, 1, 2)}
        for x in near:
            if i['a'] <= x <= i['b'] and all(i['other'][j] or REL[i['op'][j]](x * ku, i['c'][j] * kv) for j in range(n)) and not mn <= x <= mx:
                return 'the value %s meets the filter but lies outside [%s, %s]' % (x, mn, mx)
        if not (bool(o[5].value) or not i['nulls']):
            return 'NULLs are lost'
    cs.append(Trial('_Z18apply_simple_qualsPKN3hdk2ir9ColumnVarERK15ExpressionRangeN5boost8optionalINSt7__cxx114listISt10shared_ptrIKNS0_4ExprEESaISE_EEEEE', 'apply_simple_quals: whole filter', gen_q, test_q, 'er', 'the filters are a linked list of heap nodes built by constructors that consult the type context', n=1500, batch=100))

    def gen_c(r, k):
        n = r.choice([2, 3, 4])
        t = [sorted(rng64(r) if r.random() < .3 else r.randint(-50, 50) for _ in range(2)) for _ in range(n)]
        return dict(n=n, rk=[r.choice([1, 1, 1, 1, 0]) for _ in range(n)], a=[x[0] for x in t], b=[x[1] for x in t], p=[r.choice([0, 7, 7, 30]) for _ in range(n)], nulls=[r.random() < .2 for _ in range(n)], en=r.random() < .2)

    def test_c(native, i):
        f = native.get('v_case')
        n = i['n']
        ar = lambda t, l: (t * n)(*l)
        o = outs()
        f.restype = C.c_int
        r = f(C.c_int(n), C.c_int(0), C.c_int(8), ar(C.c_int, i['rk']), ar(C.c_int64, i['a']), ar(C.c_int64, i['b']), ar(C.c_int64, i['p']), ar(C.c_uint8, i['nulls']), C.c_bool(i['en']), *[C.byref(x) for x in o])
        use = range(n - 1 if i['en'] else n)
        if r == 0:
            return
        if r != 1 or any(not i['rk'][j] for j in use):
            return 'a range although a branch has none'
        if any(i['a'][j] < o[0].value or i['b'][j] > o[1].value for j in use):
            return 'a branch reaches outside the range'
        if not o[5].value and (i['en'] or any(i['nulls'][j] for j in use)):
            return 'NULLs are lost'
        k = o[4].value
        if k and any(i['p'][j] != k or (i['a'][j] - i['a'][0]) % k for j in use):
            return 'a bucket that does not separate the values'
    cs.append(Trial(GE, 'range of CASE: whole expression', gen_c, test_c, 'er', 'the branches are a linked list of heap nodes', n=600, batch=100))


def contracts():
    cs = []
    ops(cs)
    fpops(cs)
    extract(cs)
    trunc(cs)
    cast(cs)
    fpcast(cs)
    binary(cs)
    trials(cs)
    return cs


def lemmas():
    p, q, x, y, c, d, mn, f, g, k = z3.Ints('p q x y c d mn f g k')
    neg = lambda t: -t
    out = []
    for side, le in (('lower', lambda u, v: u <= v), ('upper', lambda u, v: v <= u)):
        out.append(('a product lies within the products of the limits of a factor [%s]' % side, [p <= x, x <= q, le(mn, p * y), le(mn, q * y), z3.Or(z3.And(y >= 0, (x - p) * y >= 0, (q - x) * y >= 0), z3.And(y <= 0, (x - p) * y <= 0, (q - x) * y <= 0))], le(mn, x * y)))
    out.append(('products of numbers of known sign', [p >= 0, q >= 0], p * q >= 0))
    # quotients: |x| / |y| grows with |x| and shrinks with |y|
    out.append(('a quotient grows with the dividend', [p >= 0, p <= x, y > 0, f == p / y, g == x / y], f <= g))
    out.append(('a quotient shrinks with the divisor', [x >= 0, c > 0, c <= y, f == x / c, g == x / y, y * g <= x, g >= 0, c * g <= y * g, x < c * f + c], g <= f))
    out.append(('truncation to the start of a period is monotone', [f <= x, x <= y, z3.Implies(f <= y, f <= g)], f <= g))
    P, Q = z3.Ints('P Q')
    out.append(('January 1 of a later year is later', [P < Q], jan1(P) < jan1(Q)))
    T = lambda Y: DAY * (11017 + jan1(Y))
    J = z3.Function('jan1', z3.IntSort(), z3.IntSort())
    out.append(('years do not decrease', [J(P) <= x, x < J(P + 1), J(Q) <= y, y < J(Q + 1), x <= y, z3.Implies(Q + 1 <= P, J(Q + 1) <= J(P))], P <= Q))
    out.append(('values a bucket apart have slots of their own', [k > 0, x - y >= k, f == (x - mn) / k, g == (y - mn) / k, k * f <= x - mn, x - mn < k * f + k, k * g <= y - mn, y - mn < k * g + k], g < f))
    return out
