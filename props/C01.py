"""C01: NULL-propagating scalar arithmetic."""
from common import *

ASSUMPTIONS = [
    'the code generator calls the nullable helper that matches the operand types (QueryEngine/ArithmeticIR.cpp is not built here)',
    'signed overflow wraps (machine semantics); overflow detection is generated separately by the engine',
    'float + - * / are one uninterpreted total function each (IEEE operation of the target)',
]


def arith(op, a, b):
    if z3.is_fp(a):
        return fp_uf({'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}[op], a.sort(), a, b)
    return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b, 'mod': lambda: z3.SRem(a, b),
            'bw_and': lambda: a & b, 'bw_or': lambda: a | b, 'bw_xor': lambda: a ^ b}[op]()


def nodiv(op, c, w):
    """domain of integer division: divisor non-zero, quotient representable"""
    out = []
    if op in ('div', 'mod'):
        out.append(c.rhs != 0)
        out.append(z3.Not(z3.And(c.lhs == z3.BitVecVal(1 << (w - 1), w), c.rhs == z3.BitVecVal(-1, w))))
    return out


def contracts():
    cs = []
    for t in list(INTS) + list(FPS):
        isf = t in FPS
        ty = irty(t)
        nt = ty if isf else 'i64'
        w = None if isf else INTS[t]
        ops = ['add', 'sub', 'mul', 'div'] + ([] if isf else ['mod', 'bw_and', 'bw_or', 'bw_xor'])
        for op in ops:
            for suf, who in (('nullable', 'lr'), ('nullable_lhs', 'l'), ('nullable_rhs', 'r')):
                def post(c, op=op, who=who, w=w):
                    null = OR(*([isnull(c.lhs, c.null_val)] if 'l' in who else []) + ([isnull(c.rhs, c.null_val)] if 'r' in who else []))
                    return [('NULL operand gives NULL', z3.Implies(null, c.ret == asres(c.null_val, w))),
                            ('non-NULL operands give the arithmetic result', z3.Implies(z3.Not(null), c.ret == arith(op, c.lhs, c.rhs)))]
                cs.append(Contract('%s_%s_%s' % (op, t, suf), [('lhs', ty), ('rhs', ty), ('null_val', nt)], post,
                                   pre=(lambda c, op=op, w=w: nodiv(op, c, w)) if not isf else None))

        def post(c, w=w, isf=isf):
            zero = z3.fpIsZero(c.rhs) if isf else c.rhs == 0
            null = OR(isnull(c.lhs, c.null_val), isnull(c.rhs, c.null_val), zero)
            return [('NULL operand or zero divisor gives NULL', z3.Implies(null, c.ret == asres(c.null_val, w))),
                    ('otherwise the quotient', z3.Implies(z3.Not(null), c.ret == arith('div', c.lhs, c.rhs)))]
        cs.append(Contract('safe_div_' + t, [('lhs', ty), ('rhs', ty), ('null_val', nt)], post,
                           pre=None if isf else (lambda c, w=w: nodiv('div', c, w)[1:])))

        def post(c, w=w):
            n = isnull(c.operand, c.null_val)
            neg = z3.fpNeg(c.operand) if z3.is_fp(c.operand) else -c.operand
            return [('negation of NULL is NULL', z3.Implies(n, c.ret == c.null_val)),
                    ('negation otherwise', z3.Implies(z3.Not(n), c.ret == neg))]
        cs.append(Contract('uminus_%s_nullable' % t, [('operand', ty), ('null_val', ty)], post))
        if isf:
            def post(c):
                z = z3.fpIsZero(c.rhs)
                pos = z3.fpGT(c.lhs, z3.FPVal(0.0, c.lhs.sort()))
                lz = z3.fpIsZero(c.lhs)
                return [('finite divisor', z3.Implies(z3.Not(z), c.ret == arith('div', c.lhs, c.rhs))),
                        ('x/0 for positive x', z3.Implies(z3.And(z, pos), c.ret == c.inf_val)),
                        ('0/0', z3.Implies(z3.And(z, lz), c.ret == c.null_val)),
                        ('x/0 for negative x', z3.Implies(z3.And(z, z3.Not(pos), z3.Not(lz)), c.ret == z3.fpNeg(c.inf_val)))]
            cs.append(Contract('safe_inf_div_' + t, [('lhs', ty), ('rhs', ty), ('inf_val', ty), ('null_val', ty)], post))
        else:
            def post(c, w=w):
                n = isnull(c.op, c.null_val)
                return [('~NULL is NULL', z3.Implies(n, c.ret == asres(c.null_val, w))),
                        ('complement', z3.Implies(z3.Not(n), c.ret == ~c.op))]
            cs.append(Contract('bw_not_%s_nullable' % t, [('op', ty), ('null_val', 'i64')], post))
    return cs
