"""C09: fixed-width column decoding."""
from common import *

ASSUMPTIONS = [
    'the row position is inside the column buffer',
    'byte widths outside {1, 2, 4, 8} are never requested by the planner and are not specified',
]


def cell(c, w):
    return z3.Select(c.o0['col'], c.pos)


def contracts():
    cs = []
    big = lambda c: [z3.ULT(c.col_n, 1 << 50), z3.ULT(c.pos, c.col_n)]

    def gen(rng, i):
        return i

    def mkgen(ew):
        def gen(rng, i):
            n = rng.randint(1, 9)
            i['col'] = [interesting(rng, 8 * ew) for _ in range(n)]
            i['pos'] = rng.randint(0, n - 1)
            if 'null' in i and rng.random() < 0.5:
                i['null'] = i['col'][i['pos']] if ew == 4 else (s_of(i['col'][i['pos']], 8 * ew) & 0xffffffff)
            return i
        return gen
    for w in (1, 2, 4, 8):
        col = ('col', Arr(w, lambda c: c.sk('n'), ro=True))
        bw = ('w', Lit('i32', w))
        for sfx in ('', '_noinline'):
            cs.append(Contract('fixed_width_int_decode' + sfx, [col, bw, ('pos', 'i64')], lambda c: [('sign-extended element', c.ret == sx(cell(c, 0), 64))],
                               pre=big, label='fixed_width_int_decode%s[%d]' % (sfx, w), gen=mkgen(w)))
            cs.append(Contract('fixed_width_unsigned_decode' + sfx, [col, bw, ('pos', 'i64')], lambda c: [('zero-extended element', c.ret == zx(cell(c, 0), 64))],
                               pre=big, label='fixed_width_unsigned_decode%s[%d]' % (sfx, w), gen=mkgen(w)))
            cs.append(Contract('fixed_width_small_date_decode' + sfx, [col, bw, ('null', 'i32'), ('rnull', 'i64'), ('pos', 'i64')],
                               lambda c: [('NULL day gives NULL', z3.Implies(sx(cell(c, 0), 64) == sx(c.null, 64), c.ret == c.rnull)),
                                          ('day number in seconds', z3.Implies(sx(cell(c, 0), 64) != sx(c.null, 64), c.ret == sx(cell(c, 0), 64) * 86400))],
                               pre=big, label='fixed_width_small_date_decode%s[%d]' % (sfx, w), gen=mkgen(w)))
        cs.append(Contract('diff_fixed_width_int_decode', [col, bw, ('base', 'i64'), ('pos', 'i64')], lambda c: [('element plus baseline', c.ret == sx(cell(c, 0), 64) + c.base)],
                           pre=big, label='diff_fixed_width_int_decode[%d]' % w, gen=mkgen(w)))
    for k, w in (('float', 4), ('double', 8)):
        for sfx in ('', '_noinline'):
            cs.append(Contract('fixed_width_%s_decode%s' % (k, sfx), [('col', Arr(w, lambda c: c.sk('n'), ro=True)), ('pos', 'i64')],
                               lambda c, k=k: [('element bit for bit', c.ret == z3.fpBVToFP(cell(c, 0), FSORT[k]))], pre=big, gen=mkgen(w)))
    return cs
