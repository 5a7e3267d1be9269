"""C05: COUNT(DISTINCT) sets -- exact bitmaps, HyperLogLog registers, linear counting, merging."""
from common import *

ASSUMPTIONS = [
    'the hash functions are treated as arbitrary total functions of the key bytes (their quality is not a correctness matter here)',
    'values offered to an exact bitmap lie within the range the bitmap was sized for (the planner sizes it from the column range)',
    'the two sets merged are distinct objects',
    'the hash-set variant (robin_hood::unordered_set) and the HyperLogLog estimate formula (floating point) are not under contract',
]
U64 = z3.BitVecSort(64)
hash64 = z3.Function('murmur64', z3.BitVecSort(64), z3.BitVecSort(64))
hash32 = z3.Function('murmur32', z3.BitVecSort(64), z3.BitVecSort(32))


def setbit(c, idx):
    """array effect of setting bit idx of byte bitmap bm"""
    byte = z3.LShR(idx, 3)
    bit = z3.Extract(7, 0, z3.BitVecVal(1, 64) << (idx & 7))

    def at(j):
        o = z3.Select(c.o0['bm'], j)
        return z3.Select(c.o1['bm'], j) == z3.If(j == byte, o | bit, o)
    return c.forall('j', c.bm_n, at)


def same(c, n='bm'):
    return c.forall('j', c.v[n + '_n'], lambda j: z3.Select(c.o1[n], j) == z3.Select(c.o0[n], j))


def gen_bm(extra=None):
    def gen(rng, i):
        i['min'] = rng.randint(-100, 100) & (2**64 - 1)
        n = rng.randint(1, 30)
        i['bm'] = [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(n)]
        i['val'] = (s_of(i['min'], 64) + rng.randint(0, 8 * n - 1)) & (2**64 - 1)
        if 'max' in i:
            i['max'] = (s_of(i['min'], 64) + 8 * n - 1 - rng.randint(0, 7)) & (2**64 - 1)
            if rng.random() < 0.3:
                i['val'] = (s_of(i['min'], 64) + rng.randint(-20, 8 * n + 30)) & (2**64 - 1)
        for s in ('skip', 'null'):
            if s in i and rng.random() < 0.3:
                i[s] = i['val']
        return i
    return gen


def popcnt8(b):
    return sum([zx(z3.Extract(i, i, b), 64) for i in range(1, 8)], zx(z3.Extract(0, 0, b), 64))


def contracts():
    cs = []
    agg = ('agg', Struct({'p': (0, ('ptr', 'bm'))}, 8))
    bm = ('bm', Bytes(lambda c: c.sk('bmn')))
    hidden = lambda ctx, ex, mem, vals: [vals[n] for n, _ in ctx.c.params if n != 'bm']

    inr = lambda c: [z3.ULT(c.bm_n, 1 << 40), z3.ULT(z3.LShR(c.val - c.min, 3), c.bm_n)]
    cs.append(Contract('agg_count_distinct_bitmap', [agg, ('val', 'i64'), ('min', 'i64'), bm], lambda c: [('sets exactly the bit of the value', setbit(c, c.val - c.min))],
                       pre=inr, modifies=('bm',), setup=hidden, gen=gen_bm()))

    def post(c):
        isn = c.val == c.skip
        return [('NULL is not counted', z3.Implies(isn, same(c))), ('sets exactly the bit of the value', z3.Implies(z3.Not(isn), setbit(c, c.val - c.min)))]
    cs.append(Contract('agg_count_distinct_bitmap_skip_val', [agg, ('val', 'i64'), ('min', 'i64'), ('skip', 'i64'), bm], post,
                       pre=lambda c: [z3.ULT(c.bm_n, 1 << 40), z3.Or(c.val == c.skip, z3.ULT(z3.LShR(c.val - c.min, 3), c.bm_n))],
                       modifies=('bm',), setup=hidden, gen=gen_bm()))

    def post(c):
        idx = c.val - c.min
        b = z3.Select(c.o0['bm'], z3.LShR(idx, 3))
        bit = z3.Extract(7, 0, z3.LShR(zx(b, 64), idx & 7)) & 1
        isn = c.val == c.null
        out = z3.Or(c.val < c.min, c.val > c.max)
        return [('NULL gives unknown', z3.Implies(isn, c.ret == c.nullb)), ('outside the range is not a member', z3.Implies(z3.And(z3.Not(isn), out), c.ret == 0)),
                ('inside the range: the stored bit', z3.Implies(z3.And(z3.Not(isn), z3.Not(out)), c.ret == bit))]
    ps = [('val', 'i64'), ('min', 'i64'), ('max', 'i64'), ('null', 'i64'), ('nullb', 'i8')]
    cs.append(Contract('bit_is_set', [('set', Addr('bm'))] + ps + [bm], post, setup=hidden, gen=gen_bm(),
                       pre=lambda c: [z3.ULT(c.bm_n, 1 << 40), z3.Implies(c.min <= c.max, z3.ULT(z3.LShR(c.max - c.min, 3), c.bm_n))]))
    cs.append(Contract('bit_is_set', [('set', Lit('i64', 0))] + ps, label='bit_is_set[empty]',
                       post=lambda c: [('NULL gives unknown', z3.Implies(c.val == c.null, c.ret == c.nullb)), ('the empty set has no member', z3.Implies(c.val != c.null, c.ret == 0))]))

    # HyperLogLog register update
    def m64(c, ex, i, a, mem, g):
        k = ex.load(mem, g, a[0], 'i64')
        ok = z3.And(a[1] == 8, a[2] == 0)
        return z3.If(ok, hash64(k), z3.Function('murmur64x', U64, U64, U64, U64)(k, zx(a[1], 64), zx(a[2], 64))), mem, g

    def h64(c):
        if c.mode == 'conc':
            import ctypes
            f = c.native.get('MurmurHash64A')
            f.restype = ctypes.c_uint64
            x = ctypes.c_int64(s_of(c.inp['key'], 64))
            return z3.BitVecVal(f(ctypes.byref(x), ctypes.c_int(8), ctypes.c_uint64(0)), 64)
        return hash64(c.key)

    def clz(x):
        r = z3.BitVecVal(64, 64)
        for i in range(64):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(63 - i, 64), r)
        return r

    def post(c):
        h, b = h64(c), zx(c.b, 64)
        idx = z3.LShR(h, 64 - b)
        lz = clz(h << b)
        rank = z3.Extract(7, 0, z3.If(z3.ULT(lz, 64 - b), lz, 64 - b) + 1)

        def at(j):
            o = z3.Select(c.o0['bm'], j)
            return z3.Select(c.o1['bm'], j) == z3.If(z3.And(j == idx, z3.UGT(rank, o)), rank, o)
        return [('register of the hash prefix becomes max(old, rank of the rest); others unchanged', c.forall('j', c.bm_n, at))]

    def gen(rng, i):
        i['b'] = rng.randint(4, 10)
        i['bm'] = [rng.choice([0, 1, 2, 60, rng.randint(0, 60)]) for _ in range(1 << i['b'])]
        return i
    cs.append(Contract('agg_approximate_count_distinct', [agg, ('key', 'i64'), ('b', 'i32'), bm], post, modifies=('bm',), setup=hidden, gen=gen, samples=40,
                       models={'MurmurHash64A': m64, '_Z13MurmurHash64APKvim': m64},
                       pre=lambda c: [z3.UGE(c.b, 4), z3.ULE(c.b, 16), c.bm_n == z3.BitVecVal(1, 64) << zx(c.b, 64)]))

    # linear counting
    def m32(c, ex, i, a, mem, g):
        return z3.BitVec('H', 32), mem, g

    def h32(c):
        if c.mode == 'conc':
            import ctypes
            f = c.native.get('MurmurHash3')
            f.restype = ctypes.c_uint32
            kb = bytes(c.inp['key'])
            return z3.BitVecVal(f(kb, ctypes.c_int(len(kb)), ctypes.c_uint32(0)), 32)
        return z3.BitVec('H', 32)

    def post(c):
        pos = z3.URem(h32(c), c.bytes * 8)
        w, b = zx(z3.LShR(pos, 5), 64), z3.BitVecVal(1, 32) << (pos & 31)
        return [('sets exactly the bit of the hash', c.forall('j', c.bm_n, lambda j: z3.Select(c.o1['bm'], j) == z3.If(j == w, z3.Select(c.o0['bm'], j) | b, z3.Select(c.o0['bm'], j))))]

    def gen(rng, i):
        n = rng.randint(1, 16)
        i['bm'] = [rng.randint(0, 2**32 - 1) & rng.randint(0, 2**32 - 1) for _ in range(n)]
        i['bytes'] = 4 * n
        i['len'] = rng.randint(1, 24)
        i['key'] = [rng.randint(0, 255) for _ in range(i['len'])]
        return i
    cs.append(Contract('linear_probabilistic_count', [('bm', Arr(4, lambda c: z3.LShR(zx(c.bytes, 64), 2))), ('bytes', 'i32'), ('key', Bytes(lambda c: zx(c.len, 64), ro=True)), ('len', 'i32')], post,
                       modifies=('bm',), gen=gen, samples=40, models={'MurmurHash3': m32},
                       pre=lambda c: [z3.UGE(c.bytes, 4), z3.ULE(c.bytes, 1 << 28), z3.Extract(1, 0, c.bytes) == 0, z3.ULE(c.len, 1 << 20)]))

    # ---- merging and sizing (ResultSet)
    def genu(ln, rn):
        def gen(rng, i):
            n = rng.randint(0, 24)
            i['n'] = n
            i['l'] = [rng.choice([0, 1, 5, 64, rng.randint(0, 100)]) for _ in range(n)]
            i['r'] = [rng.choice([0, 1, 5, 64, rng.randint(0, 100)]) for _ in range(n)]
            return i
        return gen
    fin = lambda c, o, j: z3.Select(c.o0['l'], j) | z3.Select(c.o0['r'], j)
    cs.append(Contract('v_bitmap_set_union', [('l', Bytes(lambda c: c.n)), ('r', Bytes(lambda c: c.n)), ('n', 'i64')],
                       lambda c: [('union bit by bit', c.forall('j', c.n, lambda j: z3.Select(c.o1['l'], j) == fin(c, 'l', j)))],
                       pre=lambda c: [z3.ULT(c.n, 1 << 40)], modifies=('l',), unit='cd', gen=genu(1, 1), loops=[LoopSpec(map_inv(lambda c: c.n, ('l',), fin))]))
    for a, b in ((1, 1), (4, 4), (4, 1), (1, 4)):
        def fin2(c, o, j, a=a, b=b):
            l, r = zx(z3.Select(c.o0['l'], j), 64), zx(z3.Select(c.o0['r'], j), 64)
            return tr(z3.If(z3.UGT(l, r), l, r), 8 * (a if o == 'l' else b))

        def regs(c):
            # HyperLogLog registers are ranks in 0..65
            return []
        cs.append(Contract('v_hll_unify_%d%d' % (8 if a == 1 else 4, 8 if b == 1 else 4), [('l', Arr(a, lambda c: c.n)), ('r', Arr(b, lambda c: c.n)), ('n', 'i64')],
                           lambda c, fin2=fin2: [('register-wise maximum (%s)' % o, c.forall('j', c.n, lambda j: z3.Implies(regok(c, j), z3.Select(c.o1[o], j) == fin2(c, o, j)))) for o in ('l', 'r')],
                           pre=lambda c: [z3.ULT(c.n, 1 << 40)], modifies=('l', 'r'), unit='cd', gen=genu(a, b),
                           loops=[LoopSpec(hll_inv(fin2))]))

    def popinv(c, v):
        F = c.F
        F.chain(8 * v.k, 8)
        F.at((c.n & ~z3.BitVecVal(7, 64)) + v.k)
        out = [('words', z3.ULE(v.k, z3.LShR(c.n, 3))), ('bytes', z3.ULE(v.k, c.n)), ('rem', z3.ULE(v.k, c.n & 7))]
        for nm, t in int_phis(v):
            F.at(t)
            out += [('words-' + nm, z3.ULE(t, z3.LShR(c.n, 3))), ('bytes-' + nm, z3.ULE(t, c.n))]
            out += [('sum8k ' + nm, t == F(8 * v.k)), ('sumk ' + nm, t == F(v.k)), ('sumrem ' + nm, t == F((c.n & ~z3.BitVecVal(7, 64)) + v.k))]
            for nm2, t2 in int_phis(v):
                if nm2 != nm:
                    out.append(('sum %s %s' % (nm, nm2), t == F(t2)))
        return out

    def prep(c):
        c.F = c.fold('pop', z3.BitVecVal(0, 64), lambda acc, i: acc + (pc8(z3.Select(c.o0['b'], i)) if c.mode == 'sym' else popcnt8(z3.Select(c.o0['b'], i))))
    cs.append(Contract('v_bitmap_set_size', [('b', Arr(1, lambda c: c.n, ro=True, align=8)), ('n', 'i64')], lambda c: [('number of set bits', c.ret == c.F(c.n))],
                       pre=lambda c: [z3.ULT(c.n, 1 << 40)], prepare=prep, unit='cd', loops=[LoopSpec(popinv)], bmc=2,
                       gen=lambda rng, i: dict(n=(n := rng.randint(0, 40)), b=[rng.randint(0, 255) for _ in range(n)])))
    for w in (8, 32):
        def prep(c, w=w):
            c.F = c.fold('zeros', z3.BitVecVal(0, 64), lambda acc, i: acc + z3.If(z3.Select(c.o0['m'], i) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

        def inv(c, v):
            out = [('progress', z3.ULE(v.k, c.n)), ('zeros bound', z3.ULE(c.F(v.k), v.k))]
            for nm, t in int_phis(v):
                c.F.at(t)
                out += [('zeros ' + nm, t == c.F(v.k))] + [('zeros %s %s' % (nm, n2), t == c.F(t2)) for n2, t2 in int_phis(v) if n2 != nm] + [('bound' + nm, z3.ULE(t, c.n))]
            return out
        cs.append(Contract('v_count_zeros%d' % w, [('m', Arr(w // 8, lambda c: c.n, ro=True)), ('n', 'i64')], lambda c: [('number of zero registers', zx(c.ret, 64) == c.F(c.n))],
                           pre=lambda c: [z3.ULT(c.n, 1 << 31)], prepare=prep, unit='cd', loops=[LoopSpec(inv)],
                           gen=lambda rng, i: dict(n=(n := rng.randint(0, 40)), m=[rng.choice([0, 0, 1, 7]) for _ in range(n)])))
    cs.append(Contract('v_bitmap_bits_to_bytes', [('n', 'i64')], lambda c: [('smallest number of bytes that holds n bits', z3.And(z3.ULE(c.n, c.ret * 8), z3.ULT(c.ret * 8, c.n + 8)))], unit='cd',
                       pre=lambda c: [z3.ULT(c.n, 1 << 60)]))
    desc(cs)
    return cs


def regok(c, j):
    return z3.And(*[z3.ULE(zx(z3.Select(c.o0[o], j), 64), 65) for o in ('l', 'r')])


def hll_inv(fin2):
    def inv(c, v):
        j = c.sk('j')
        out = []
        for nm, pred, pr in done_sets(v, c.n):
            for o in ('l', 'r'):
                out.append(('%s %s' % (o, nm), z3.Implies(regok(c, j), z3.Select(v.arr(c.objs[o]), j) == z3.If(z3.And(z3.ULT(j, c.n), pred(j)), fin2(c, o, j), z3.Select(c.o0[o], j)))))
            out.append(('progress ' + nm, z3.ULE(pr, c.n)))
        return out
    return inv


DF = {'impl': (0, 'i32'), 'min': (8, 'i64'), 'bits': (16, 'i64'), 'approx': (24, 'i8'), 'dev': (28, 'i32'), 'sub': (32, 'i64')}
CPU, GPU = 0, 1


def dsz(c, d='d'):
    bits, ap, dev = c.oldf(d, 'bits'), c.oldf(d, 'approx') != 0, c.oldf(d, 'dev')
    return z3.If(ap, (z3.BitVecVal(1, 64) << bits) * z3.If(dev == GPU, z3.BitVecVal(4, 64), z3.BitVecVal(1, 64)), z3.LShR(bits + 7, 3))


def dpad(c, d='d'):
    sub, dev = c.oldf(d, 'sub'), c.oldf(d, 'dev')
    return z3.If(z3.Or(dev == GPU, z3.UGT(sub, 1)), (dsz(c, d) + 7) & ~z3.BitVecVal(7, 64), dsz(c, d))


def dpre(c, d='d'):
    ap = c.oldf(d, 'approx')
    return [c.oldf(d, 'impl') == 1, z3.Or(ap == 0, ap == 1), z3.Or(c.oldf(d, 'dev') == 0, c.oldf(d, 'dev') == 1),
            z3.If(ap == 1, z3.And(c.oldf(d, 'bits') >= 4, c.oldf(d, 'bits') <= 16), z3.And(c.oldf(d, 'bits') >= 1, c.oldf(d, 'bits') < 1 << 40)), z3.UGE(c.oldf(d, 'sub'), 1), z3.ULE(c.oldf(d, 'sub'), 64)]


def gend(rng, i, d='d', approx=None):
    i[d] = dict(impl=1, min=0, bits=rng.randint(4, 10), approx=rng.randint(0, 1) if approx is None else approx, dev=rng.randint(0, 1), sub=rng.choice([1, 1, 2, 4]))
    if not i[d]['approx']:
        i[d]['bits'] = rng.randint(1, 200)
    return i


def desc(cs):
    D = ('d', Struct(DF, 40))
    cs.append(Contract('v_bitmapSizeBytes', [D], lambda c: [('bytes of one set', c.ret == dsz(c))], pre=dpre, unit='cd', gen=lambda r, i: gend(r, i)))
    cs.append(Contract('v_bitmapPaddedSizeBytes', [D], lambda c: [('bytes of all padded copies', c.ret == c.oldf('d', 'sub') * dpad(c))], pre=dpre, unit='cd', gen=lambda r, i: gend(r, i)))

    # merging two results' sets: exact bitmaps (CPU) and HyperLogLog registers (CPU)
    N = lambda c: dsz(c, 'od')
    U = [('nh', Addr('l')), ('oh', Addr('r')), ('nd', Struct(DF, 40)), ('od', Struct(DF, 40)), ('l', Bytes(lambda c: c.sk('ln'))), ('r', Bytes(lambda c: c.sk('rn')))]
    hidden = lambda ctx, ex, mem, vals: [vals[n] for n, _ in ctx.c.params if n not in ('l', 'r')]

    def pre(ap):
        def f(c):
            return dpre(c, 'nd') + dpre(c, 'od') + [c.oldf(x, 'approx') == ap for x in ('nd', 'od')] + [c.oldf(x, 'dev') == CPU for x in ('nd', 'od')] + [
                c.oldf(x, 'sub') == 1 for x in ('nd', 'od')] + [c.oldf('nd', 'bits') == c.oldf('od', 'bits'), c.l_n == N(c), c.r_n == N(c)]
        return f

    def gen(ap):
        def g(rng, i):
            gend(rng, i, 'nd', ap)
            i['nd']['dev'] = 0
            i['nd']['sub'] = 1
            i['od'] = dict(i['nd'])
            n = (1 << i['nd']['bits']) if ap else (i['nd']['bits'] + 7) // 8
            i['l'] = [rng.choice([0, 1, 3, 60, 64]) for _ in range(n)]
            i['r'] = [rng.choice([0, 1, 2, 61, 64]) for _ in range(n)]
            return i
        return g
    fo = lambda c, o, j: z3.Select(c.o0['l'], j) | z3.Select(c.o0['r'], j)
    fm = lambda c, o, j: z3.If(z3.UGT(z3.Select(c.o0['l'], j), z3.Select(c.o0['r'], j)), z3.Select(c.o0['l'], j), z3.Select(c.o0['r'], j))
    cs.append(Contract('v_count_distinct_set_union', U, lambda c: [('union of the two sets', c.forall('j', N(c), lambda j: z3.Select(c.o1['l'], j) == fo(c, 'l', j)))],
                       pre=pre(0), modifies=('l',), setup=hidden, unit='cd', gen=gen(0), label='count_distinct_set_union[exact]', loops=[LoopSpec(map_inv(N, ('l',), fo))], samples=15))

    def inv(c, v):
        j = c.sk('j')
        out = []
        for nm, pred, pr in done_sets(v, N(c)):
            for o in ('l', 'r'):
                out.append(('%s %s' % (o, nm), z3.Implies(regok(c, j), z3.Select(v.arr(c.objs[o]), j) == z3.If(z3.And(z3.ULT(j, N(c)), pred(j)), fm(c, o, j), z3.Select(c.o0[o], j)))))
            out.append(('progress ' + nm, z3.ULE(pr, N(c))))
        return out
    cs.append(Contract('v_count_distinct_set_union', U, lambda c: [('register-wise maximum', c.forall('j', N(c), lambda j: z3.Implies(regok(c, j), z3.Select(c.o1['l'], j) == fm(c, 'l', j))))],
                       pre=pre(1), modifies=('l', 'r'), setup=hidden, unit='cd', gen=gen(1), label='count_distinct_set_union[approximate]', loops=[LoopSpec(inv)], samples=15))


def lemmas():
    """over the contracts: after inserting value i, value j is reported a member iff it was one before or j == i"""
    i, j = z3.BitVecs('i j', 64)
    A = z3.Array('A', z3.BitVecSort(64), z3.BitVecSort(8))
    bit = lambda a, x: z3.LShR(zx(z3.Select(a, z3.LShR(x, 3)), 64), x & 7) & 1
    b = z3.Extract(7, 0, z3.BitVecVal(1, 64) << (i & 7))
    A2 = z3.Store(A, z3.LShR(i, 3), z3.Select(A, z3.LShR(i, 3)) | b)
    x, y, w = z3.BitVecs('x y w', 8)
    mx = lambda a, c: z3.If(z3.UGT(a, c), a, c)
    return [('membership after insertion', [], bit(A2, j) == z3.If(i == j, z3.BitVecVal(1, 64), bit(A, j))),
            ('merging registers = registers of the merged input (max is associative, commutative, idempotent)', [],
             z3.And(mx(mx(x, y), w) == mx(x, mx(y, w)), mx(x, y) == mx(y, x), mx(x, x) == x))]
