"""C04: aggregate accumulation steps (COUNT, SUM, MIN, MAX, single value, AVG) and NULL skipping."""
from common import *

ASSUMPTIONS = [
    'integer SUM wraps at the width of the accumulator (overflow is detected separately by generated code)',
    'float + / are one uninterpreted total function each',
    'an aggregate that skips NULLs is initialised to the NULL sentinel (the engine initialises SUM/MIN/MAX of nullable columns that way)',
    'variable-length projection: source and target do not overlap and fewer than 2^31 bytes are copied',
]


def agg_int(w, suffix, out):
    ty = 'i%d' % w
    P = [('agg', Cell(ty)), ('val', ty)]
    S = P + [('skip', ty)]
    M = ('agg',)

    def op(kind, a, b):
        return {'sum': a + b, 'max': z3.If(a > b, a, b), 'min': z3.If(a < b, a, b), 'id': b, 'count': a + 1}[kind]

    def plain(kind, retold):
        def post(c):
            o, n = c.old('agg'), c.new('agg')
            r = [('accumulator = %s(old, value)' % kind, n == op(kind, o, c.val))]
            if retold:
                r.append(('returns the previous accumulator', c.ret == o))
            return r
        return post

    def skip(kind, retold):
        def post(c):
            o, n = c.old('agg'), c.new('agg')
            isn = c.val == c.skip
            r = [('NULL leaves the accumulator unchanged', z3.Implies(isn, n == o))]
            if kind == 'count':
                r.append(('non-NULL value is accumulated', z3.Implies(z3.Not(isn), n == op(kind, o, c.val))))
            else:
                r.append(('first non-NULL value replaces the initial NULL', z3.Implies(z3.And(z3.Not(isn), o == c.skip), n == c.val)))
                r.append(('non-NULL value is accumulated', z3.Implies(z3.And(z3.Not(isn), o != c.skip), n == op(kind, o, c.val))))
            if retold:
                r.append(('returns the previous accumulator', c.ret == o))
            return r
        return post
    if w in (64, 32):
        out.append(Contract('agg_count' + suffix, P, plain('count', True), modifies=M))
        out.append(Contract('agg_sum' + suffix, P, plain('sum', True), modifies=M))
        out.append(Contract('agg_count%s_skip_val' % suffix, S, skip('count', True), modifies=M))
        out.append(Contract('agg_sum%s_skip_val' % suffix, S, skip('sum', True), modifies=M))
    for k in ('max', 'min'):
        out.append(Contract('agg_%s%s' % (k, suffix), P, plain(k, False), modifies=M))
        out.append(Contract('agg_%s%s_skip_val' % (k, suffix), S, skip(k, False), modifies=M))
    out.append(Contract('agg_id' + suffix, P, plain('id', False), modifies=M))

    def single(c):
        o, n = c.old('agg'), c.new('agg')
        isn, on = c.val == c.skip, o == c.skip
        return [('NULL is ignored', z3.Implies(isn, z3.And(n == o, c.ret == 0))),
                ('first value is stored', z3.Implies(z3.And(z3.Not(isn), on), z3.And(n == c.val, c.ret == 0))),
                ('an equal value is accepted', z3.Implies(z3.And(z3.Not(isn), z3.Not(on), o == c.val), z3.And(n == o, c.ret == 0))),
                ('a different value reports the multiple-values error', z3.Implies(z3.And(z3.Not(isn), z3.Not(on), o != c.val), z3.And(n == o, c.ret == 15)))]
    out.append(Contract('checked_single_agg_id' + suffix, S, single, modifies=M))


def agg_fp(t, out):
    w = FBITS[t]
    ity = 'i%d' % w
    D = FSORT[t]
    P = [('agg', Cell(ity)), ('val', t)]
    S = P + [('skip', t)]
    M = ('agg',)
    def bits(c, x):
        return getattr(c, x + '_bits')
    def pick(kind, o, v, n, ob, vb, nb):
        nan = z3.Or(z3.fpIsNaN(o), z3.fpIsNaN(v))
        cmp = z3.fpGEQ if kind == 'max' else z3.fpLEQ
        return [('result is one of the two', z3.Or(nb == ob, nb == vb)), ('result bounds both', z3.Or(nan, z3.And(cmp(n, o), cmp(n, v))))]

    def acc(kind, c):
        o, n = c.old('agg', 0, t), c.new('agg', 0, t)
        ob, nb = c.old('agg', 0, ity), c.new('agg', 0, ity)
        vb = bits(c, 'val')
        if kind == 'sum':
            return [('sum', n == fp_uf('fadd', D, o, c.val))]
        if kind == 'id':
            return [('stored bit for bit', nb == vb)]
        if kind == 'count':
            return [('count', nb == ob + 1)]
        return pick(kind, o, c.val, n, ob, vb, nb)

    def plain(kind):
        def post(c):
            r = acc(kind, c)
            if kind == 'count':
                r.append(('returns the previous count', c.ret == c.old('agg')))
            return r
        return post

    def skip(kind):
        def post(c):
            isn = z3.fpEQ(c.val, c.skip)
            ob, nb = c.old('agg', 0, ity), c.new('agg', 0, ity)
            first = ob == bits(c, 'skip')
            r = [('NULL leaves the accumulator unchanged', z3.Implies(isn, nb == ob))]
            if kind == 'count':
                r += [(l, z3.Implies(z3.Not(isn), f)) for l, f in acc(kind, c)] + [('returns the previous count', c.ret == ob)]
            else:
                r += [('first non-NULL value replaces the initial NULL', z3.Implies(z3.And(z3.Not(isn), first), nb == bits(c, 'val')))]
                r += [(l, z3.Implies(z3.And(z3.Not(isn), z3.Not(first)), f)) for l, f in acc(kind, c)]
            return r
        return post
    nan = lambda c: [z3.Not(z3.fpIsNaN(c.skip))]
    for k in ('count', 'sum', 'max', 'min', 'id'):
        out.append(Contract('agg_%s_%s' % (k, t), P, plain(k), modifies=M))
        if k != 'id':
            out.append(Contract('agg_%s_%s_skip_val' % (k, t), S, skip(k), pre=nan, modifies=M))

    def single(c):
        o, ob, nb = c.old('agg', 0, t), c.old('agg', 0, ity), c.new('agg', 0, ity)
        vb, sb = bits(c, 'val'), bits(c, 'skip')
        isn, on = z3.fpEQ(c.val, c.skip), ob == sb
        nn = z3.Not(isn)
        return [('NULL is ignored', z3.Implies(isn, z3.And(nb == ob, c.ret == 0))),
                ('first value is stored', z3.Implies(z3.And(nn, on), z3.And(nb == vb, c.ret == 0))),
                ('an identical value is accepted', z3.Implies(z3.And(nn, z3.Not(on), ob == vb), z3.And(nb == ob, c.ret == 0))),
                ('a different value reports the multiple-values error', z3.Implies(z3.And(nn, z3.Not(on), z3.Not(z3.fpEQ(o, c.val)), z3.Not(z3.fpIsNaN(c.val))), z3.And(nb == ob, c.ret == 15))),
                ('accumulator never changes once set', z3.Implies(z3.And(nn, z3.Not(on)), nb == ob))]
    out.append(Contract('checked_single_agg_id_' + t, S, single, pre=nan, modifies=M))


def contracts():
    cs = []
    for w, s in ((64, ''), (32, '_int32'), (16, '_int16'), (8, '_int8')):
        agg_int(w, s, cs)
    for t in FPS:
        agg_fp(t, cs)
    for w in (64, 32):
        ty = 'i%d' % w

        def post(c, w=w):
            isn = sx(c.val, 64) == c.init
            return [('a value equal to the initial value leaves the slot', z3.Implies(isn, c.new('slot') == c.old('slot'))),
                    ('any other value is written', z3.Implies(z3.Not(isn), c.new('slot') == c.val))]
        cs.append(Contract('write_projection_int%d' % w, [('slot', Cell(ty)), ('val', ty), ('init', 'i64')], post, modifies=('slot',)))
    cs.append(Contract('load_double', [('agg', Cell('i64'))], lambda c: [('bit pattern', c.ret == c.old('agg', 0, 'double'))]))
    cs.append(Contract('load_float', [('agg', Cell('i32'))], lambda c: [('bit pattern', c.ret == c.old('agg', 0, 'float'))]))
    D, F = FSORT['double'], FSORT['float']
    s2d = lambda x: z3.fpSignedToFP(RNE, x, D)

    def avg(c, f):
        z = c.old('count') == 0
        return [('no rows gives NULL', z3.Implies(z, c.ret == c.null_val)), ('mean otherwise', z3.Implies(z3.Not(z), c.ret == f()))]
    nv = ('null_val', 'double')
    cs.append(Contract('load_avg_int', [('sum', Cell('i64')), ('count', Cell('i64')), nv], lambda c: avg(c, lambda: fp_uf('fdiv', D, s2d(c.old('sum')), s2d(c.old('count'))))))
    cs.append(Contract('load_avg_double', [('sum', Cell('i64')), ('count', Cell('i64')), nv], lambda c: avg(c, lambda: fp_uf('fdiv', D, c.old('sum', 0, 'double'), s2d(c.old('count'))))))
    cs.append(Contract('load_avg_float', [('sum', Cell('i32')), ('count', Cell('i32')), nv],
                       lambda c: avg(c, lambda: z3.fpToFP(RNE, fp_uf('fdiv', F, c.old('sum', 0, 'float'), z3.fpSignedToFP(RNE, c.old('count'), F)), D))))
    for k in range(0, 20):
        cs.append(Contract('load_avg_decimal', [('sum', Cell('i64')), ('count', Cell('i64')), nv, ('scale', Lit('i32', k))],
                           lambda c, k=k: avg(c, lambda: fp_uf('fdiv', D, fp_uf('fdiv', D, s2d(c.old('sum')), z3.FPVal(float(10 ** k), D)), s2d(c.old('count')))),
                           label='load_avg_decimal[scale=%d]' % k, samples=5))

    def inv(c, v):
        j = c.sk('j')
        a, o, s = v.arr(c.objs['buf']), c.o0['buf'], c.o0['value']
        return [('copied prefix', z3.Implies(z3.And(z3.UGE(j, c.offset), z3.ULT(j - c.offset, v.k)), z3.Select(a, j) == z3.Select(s, j - c.offset))),
                ('rest unchanged', z3.Implies(z3.Not(z3.And(z3.UGE(j, c.offset), z3.ULT(j - c.offset, v.k))), z3.Select(a, j) == z3.Select(o, j))),
                ('progress', v.k <= c.size), ('progress0', v.k >= 0)]

    def post(c):
        def at(j):
            inside = z3.And(z3.UGE(j, c.offset), z3.ULT(j - c.offset, c.size))
            return z3.Select(c.o1['buf'], j) == z3.If(inside, z3.Select(c.o0['value'], j - c.offset), z3.Select(c.o0['buf'], j))
        return [('copies exactly the value bytes at the offset', c.forall('j', c.buf_n, at)),
                ('returns the address of the copy', ptr_eq_idx(c, c.ret, 'buf', 1, c.offset))]

    def gen(rng, i):
        n = rng.randint(1, 40)
        i['offset'] = rng.randint(0, n - 1)
        i['size'] = rng.randint(0, n - i['offset'])
        i['buf'] = [rng.randint(0, 255) for _ in range(n)]
        i['value'] = [rng.randint(0, 255) for _ in range(i['size'])]
        return i
    cs.append(Contract('agg_id_varlen', [('buf', Bytes(lambda c: c.sk('bufn'))), ('offset', 'i64'), ('value', Bytes(lambda c: c.size, ro=True)), ('size', 'i64')], post,
                       pre=lambda c: [c.size >= 0, c.size < 1 << 31, c.offset >= 0, c.buf_n >= 0, c.buf_n < 1 << 40, c.offset < 1 << 40, c.offset + c.size <= c.buf_n], modifies=('buf',), loops=[LoopSpec(inv)], gen=gen))
    return cs
