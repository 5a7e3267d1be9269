"""C03: casts, decimal rescaling, rounding and bucketing."""
from common import *

ASSUMPTIONS = [
    'float + - * / are one uninterpreted total function each; int<->float conversions are IEEE round-to-nearest-even / truncation',
    'decimal rescaling and rounding: positive scale, and no 64-bit overflow of the rounded operand (the engine checks overflow separately)',
    'float to integer casts: the rounded value fits the target type (out-of-range conversion is undefined in C++)',
]
M63 = 1 << 63
UINTS = {'uint8_t': 8, 'uint16_t': 16}


def conv_spec(x, ft, tt):
    """value conversion of a non-NULL operand"""
    if ft in FPS and tt in FPS:
        return z3.fpToFP(RNE, x, FSORT[tt])
    if tt in FPS:
        return z3.fpSignedToFP(RNE, x, FSORT[tt])
    if ft in UINTS:
        return zx(x, INTS[tt])
    fw, tw = INTS[ft], INTS[tt]
    return sx(x, tw) if fw <= tw else tr(x, tw)


def half_away(x):
    s = x.sort()
    return fp_uf('fadd', s, x, z3.If(z3.fpLT(x, z3.FPVal(0.0, s)), z3.FPVal(-0.5, s), z3.FPVal(0.5, s)))


def contracts():
    cs = []
    pairs = []
    I = list(INTS)
    for i in I:
        for j in I:
            if i != j:
                pairs.append((i, j))
        pairs += [(i, 'float'), (i, 'double')]
    pairs += [('float', 'double'), ('double', 'float'), ('uint8_t', 'int32_t'), ('uint16_t', 'int32_t')]
    ty = lambda t: 'i%d' % UINTS[t] if t in UINTS else irty(t)
    for f, t in pairs:
        def post(c, f=f, t=t):
            n = isnull(c.operand, c.from_null)
            return [('NULL maps to NULL', z3.Implies(n, c.ret == c.to_null)), ('value preserved', z3.Implies(z3.Not(n), c.ret == conv_spec(c.operand, f, t)))]
        cs.append(Contract('cast_%s_to_%s_nullable' % (f, t), [('operand', ty(f)), ('from_null', ty(f)), ('to_null', ty(t))], post))
    for f in FPS:
        for t in I:
            w = INTS[t]

            def pre(c, w=w):
                lim = z3.FPVal(float(2 ** (w - 1) - (2 if w < 32 else 2 ** (w - 20))), c.operand.sort())
                return [z3.fpLT(z3.fpAbs(c.operand), lim)]

            def post(c, w=w):
                n = isnull(c.operand, c.from_null)
                v = z3.fpToSBV(z3.RTZ(), half_away(c.operand), z3.BitVecSort(w))
                return [('NULL maps to NULL', z3.Implies(n, c.ret == c.to_null)), ('rounds half away from zero', z3.Implies(z3.Not(n), c.ret == v))]
            cs.append(Contract('cast_%s_to_%s_nullable' % (f, t), [('operand', f), ('from_null', f), ('to_null', irty(t))], post, pre=pre))
    for t in FPS:
        def post(c):
            n = c.operand == c.from_null
            v = fp_uf('fmul', c.ret.sort(), c.multiplier, z3.fpSignedToFP(RNE, c.operand, c.ret.sort()))
            return [('NULL maps to NULL', z3.Implies(n, c.ret == c.to_null)), ('scaled value', z3.Implies(z3.Not(n), c.ret == v))]
        cs.append(Contract('cast_int64_t_to_%s_scaled_nullable' % t, [('operand', 'i64'), ('from_null', 'i64'), ('to_null', t), ('multiplier', t)], post))

    def post(c):
        n = c.operand == c.operand_null
        return [('NULL maps to NULL', z3.Implies(n, c.ret == c.result_null)), ('scaled', z3.Implies(z3.Not(n), c.ret == c.operand * c.scale))]
    cs.append(Contract('scale_decimal_up', [('operand', 'i64'), ('scale', 'i64'), ('operand_null', 'i64'), ('result_null', 'i64')], post))

    def rounded(c, x, s, r):
        h = s / 2
        return [('nearest, ties away from zero (x >= 0)', lambda g: z3.Implies(z3.And(g, x >= 0), z3.And(r * s <= x + h, x + h < r * s + s))),
                ('nearest, ties away from zero (x < 0)', lambda g: z3.Implies(z3.And(g, x < 0), z3.And(r * s >= x - h, x - h > r * s - s)))]

    # decimal scales are powers of ten
    for k in range(0, 19):
        s = 10 ** k
        h = s // 2

        def pre(c, h=h):
            return [c.operand + h < M63, c.operand - h >= -M63]
        for nm, nullable in (('scale_decimal_down_nullable', True), ('scale_decimal_down_not_nullable', False)):
            def post(c, nullable=nullable, s=s):
                n = c.operand == c.null_val if nullable else z3.BoolVal(False)
                out = [(l, f(z3.Not(n))) for l, f in rounded(c, c.operand, z3.IntVal(s), c.ret)]
                if nullable:
                    out.append(('NULL stays NULL', z3.Implies(n, c.ret == c.null_val)))
                return out
            cs.append(Contract(nm, [('operand', 'i64'), ('scale', Lit('i64', s)), ('null_val', 'i64')], post, pre=pre, dom='int', label='%s[scale=1e%d]' % (nm, k), samples=10))

        def post(c, s=s):
            return [('multiple of the scale', c.ret % s == 0), ('greatest not above x', z3.And(c.ret <= c.x, c.x < c.ret + s))]
        cs.append(Contract('decimal_floor', [('x', 'i64'), ('scale', Lit('i64', s))], post, pre=lambda c, s=s: [c.x - s >= -M63], dom='int', label='decimal_floor[scale=1e%d]' % k, samples=10))

        def post(c, s=s):
            return [('multiple of the scale', c.ret % s == 0), ('least not below x', z3.And(c.ret >= c.x, c.x > c.ret - s))]
        cs.append(Contract('decimal_ceil', [('x', 'i64'), ('scale', Lit('i64', s))], post, pre=lambda c, s=s: [c.x - s >= -M63, c.x + s < M63], dom='int', label='decimal_ceil[scale=1e%d]' % k, samples=10))

    def fl(x, d, r):
        return z3.And(r * d <= x, x < r * d + d)
    pre = lambda c: [c.divisor > 0, c.dividend - c.divisor + 1 >= -M63]
    R = {'divisor': (1, M63 - 1)}
    cs.append(Contract('floor_div_lhs', [('dividend', 'i64'), ('divisor', 'i64')], lambda c: [('floor of the quotient', fl(c.dividend, c.divisor, c.ret))], pre=pre, ranges=R, dom='int', samples=200))
    cs.append(Contract('floor_div_nullable_lhs', [('dividend', 'i64'), ('divisor', 'i64'), ('null_val', 'i64')],
                       lambda c: [('NULL stays NULL', z3.Implies(c.dividend == c.null_val, c.ret == c.null_val)),
                                  ('floor of the quotient', z3.Implies(c.dividend != c.null_val, fl(c.dividend, c.divisor, c.ret)))], pre=pre, ranges=R, dom='int', samples=200))

    # WIDTH_BUCKET
    F = lambda v: z3.FPVal(float(v), FSORT['double'])
    n2f = lambda n: z3.fpSignedToFP(RNE, n, FSORT['double'])
    D = FSORT['double']
    add1 = lambda x: fp_uf('fadd', D, x, F(1))

    def wb(c, rev, sf, oob=True):
        t, lo = c.target, c.lower
        d = fp_uf('fsub', D, lo, t) if rev else fp_uf('fsub', D, t, lo)
        v = add1(fp_uf('fmul', D, d, sf))
        if not oob:
            return v
        under = z3.fpGT(t, lo) if rev else z3.fpLT(t, lo)
        over = z3.fpLEQ(t, c.upper) if rev else z3.fpGEQ(t, c.upper)
        return z3.If(under, F(0), z3.If(over, n2f(c.parts + 1), v))

    def sf(c, rev):
        w = fp_uf('fsub', D, c.lower, c.upper) if rev else fp_uf('fsub', D, c.upper, c.lower)
        return fp_uf('fdiv', D, n2f(c.parts), w)
    P0 = [('target', 'double'), ('lower', 'double'), ('upper', 'double')]
    part = lambda c: [c.parts > 0, c.parts < 0x7fffffff]
    for rev, nm in ((False, 'width_bucket'), (True, 'width_bucket_reversed')):
        cs.append(Contract(nm, P0 + [('sf', 'double'), ('parts', 'i32')], lambda c, rev=rev: [('bucket number', c.ret == wb(c, rev, c.sf))], pre=part))
        cs.append(Contract(nm + '_nullable', P0 + [('sf', 'double'), ('parts', 'i32'), ('null_val', 'double')],
                           lambda c, rev=rev: [('NULL target', z3.Implies(z3.fpEQ(c.target, c.null_val), c.ret == F(-2**31))),
                                               ('bucket number', z3.Implies(z3.Not(z3.fpEQ(c.target, c.null_val)), c.ret == wb(c, rev, c.sf)))], pre=part))
        cs.append(Contract(nm + '_no_oob_check', P0[:2] + [('sf', 'double')], lambda c, rev=rev: [('bucket number', c.ret == wb(c, rev, c.sf, False))]))
    P1 = [('target', 'double'), ('rev', 'i1'), ('lower', 'double'), ('upper', 'double'), ('parts', 'i32')]
    ex = lambda c, oob=True: z3.If(c.rev, wb(c, True, sf(c, True), oob), wb(c, False, sf(c, False), oob))
    cs.append(Contract('width_bucket_expr', P1, lambda c: [('bucket number', c.ret == ex(c))], pre=part))
    cs.append(Contract('width_bucket_expr_no_oob_check', P1, lambda c: [('bucket number', c.ret == ex(c, False))], pre=part))
    cs.append(Contract('width_bucket_expr_nullable', P1 + [('null_val', 'double')],
                       lambda c: [('NULL target', z3.Implies(z3.fpEQ(c.target, c.null_val), c.ret == F(-2**31))),
                                  ('bucket number', z3.Implies(z3.Not(z3.fpEQ(c.target, c.null_val)), c.ret == ex(c)))], pre=part))
    return cs
