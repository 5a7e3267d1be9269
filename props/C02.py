"""C02: comparisons and logical connectives follow SQL three-valued logic."""
from common import *

ASSUMPTIONS = ['the boolean NULL sentinel handed to the connectives is neither 0 nor 1 (the engine passes -128)']


def cmp(op, a, b):
    if z3.is_fp(a):
        return {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'gt': z3.fpGT(a, b), 'le': z3.fpLEQ(a, b), 'ge': z3.fpGEQ(a, b)}[op]
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[op]


def contracts():
    cs = []
    for t in list(INTS) + list(FPS):
        ty = irty(t)
        nt = ty if t in FPS else 'i64'
        for op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            for suf, who in (('nullable', 'lr'), ('nullable_lhs', 'l'), ('nullable_rhs', 'r')):
                def post(c, op=op, who=who):
                    n = OR(*([isnull(c.lhs, c.null_val)] if 'l' in who else []) + ([isnull(c.rhs, c.null_val)] if 'r' in who else []))
                    one, zero = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)
                    return [('comparison with NULL is NULL', z3.Implies(n, c.ret == c.null_bool_val)),
                            ('otherwise the truth value of the comparison', z3.Implies(z3.Not(n), c.ret == z3.If(cmp(op, c.lhs, c.rhs), one, zero)))]
                cs.append(Contract('%s_%s_%s' % (op, t, suf), [('lhs', ty), ('rhs', ty), ('null_val', nt), ('null_bool_val', 'i8')], post))

    def nn(c):
        return [c.null_val != 0, c.null_val != 1]

    def tv(x, null):
        return x == null, z3.And(x != null, x == 0), z3.And(x != null, x != 0)

    def pnot(c):
        n, f, t = tv(c.operand, c.null_val)
        return [('NOT NULL is NULL', z3.Implies(n, c.ret == c.null_val)), ('NOT false', z3.Implies(f, c.ret == 1)), ('NOT true', z3.Implies(t, c.ret == 0))]

    def pand(c):
        ln, lf, lt = tv(c.lhs, c.null_val)
        rn, rf, rt = tv(c.rhs, c.null_val)
        xn, xf, xt = tv(c.ret, c.null_val)
        return [('AND is false iff an operand is false', xf == z3.Or(lf, rf)), ('AND is true iff both are true', xt == z3.And(lt, rt)),
                ('AND is NULL otherwise', xn == z3.And(z3.Or(ln, rn), z3.Not(lf), z3.Not(rf)))]

    def por(c):
        ln, lf, lt = tv(c.lhs, c.null_val)
        rn, rf, rt = tv(c.rhs, c.null_val)
        xn, xf, xt = tv(c.ret, c.null_val)
        return [('OR is true iff an operand is true', xt == z3.Or(lt, rt)), ('OR is false iff both are false', xf == z3.And(lf, rf)),
                ('OR is NULL otherwise', xn == z3.And(z3.Or(ln, rn), z3.Not(lt), z3.Not(rt)))]
    cs.append(Contract('logical_not', [('operand', 'i8'), ('null_val', 'i8')], pnot, pre=nn, samples=400))
    cs.append(Contract('logical_and', [('lhs', 'i8'), ('rhs', 'i8'), ('null_val', 'i8')], pand, pre=nn, samples=400))
    cs.append(Contract('logical_or', [('lhs', 'i8'), ('rhs', 'i8'), ('null_val', 'i8')], por, pre=nn, samples=400))

    def pbit(c):
        n = c.val == c.null_val
        out = z3.Or(c.val < c.min_val, c.val > c.max_val)
        return [('NULL', z3.Implies(n, c.ret == c.null_bool_val)), ('out of range is false', z3.Implies(z3.And(z3.Not(n), out), c.ret == 0))]
    return cs
