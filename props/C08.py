"""C08: probing join hash tables (perfect, bucketized, row-id and keyed/"baseline" tables)."""
from common import *

ASSUMPTIONS = [
    'the hash function is an arbitrary total function of the key bytes (the build side uses the same one)',
    'a perfect table has a slot for every key between min and max (the planner sizes it so); bucket size is positive',
    'keyed tables are below 2^31 entries; keys of 1 to 4 components of 4 or 8 bytes',
]
E32, E64 = 2**31 - 1, 2**63 - 1


def contracts():
    cs = []
    perfect(cs)
    baseline(cs)
    return cs


# ---------------------------------------------------------------- perfect tables
def slot(c, key, bucket=None):
    off = key - c.min
    return off if bucket is None else off / bucket


def lookup(c, key, hi, bucket=None):
    """expected result of probing key with range [min, hi]"""
    v = sx(z3.Select(c.o0['t'], slot(c, key, bucket)), 64)
    return z3.If(z3.And(key >= c.min, key <= hi), v, z3.BitVecVal(-1, 64))


def gen(rng, i):
    n = rng.randint(1, 12)
    b = rng.choice([1, 1, 3, 7]) if 'bucket' in i else 1
    i['bucket'] = b
    i['t'] = [rng.choice([0xffffffff, rng.randint(0, 100)]) for _ in range(n + 1)]
    lo = rng.randint(-50, 50)
    i['min'] = lo & (2**64 - 1)
    i['max'] = (lo + n * b - 1) & (2**64 - 1)
    i['key'] = (lo + rng.randint(-3, n * b + 3)) & (2**64 - 1)
    if 'tr' in i:
        i['tr'] = (lo + n * b) & (2**64 - 1)
    if 'null' in i:
        i['null'] = i['key'] if rng.random() < .4 else 1 << 63
    return i


def perfect(cs):
    t = ('t', Arr(4, lambda c: c.sk('n'), ro=True))
    h = ('h', Addr('t'))
    hidden = lambda ctx, ex, mem, vals: [vals[n] for n, _ in ctx.c.params if n != 't']
    R = [('key', 'i64'), ('min', 'i64'), ('max', 'i64')]

    def pre(bucket=False, keys=('key',), his=('max',)):
        def f(c):
            b = c.bucket if bucket else None
            out = [z3.ULT(c.t_n, 1 << 40)]
            if bucket:
                out.append(b > 0)
            for k, hi in zip(keys, his):
                k, hi = getattr(c, k), getattr(c, hi)
                # the table covers [min, hi] and hi - min does not overflow
                out.append(z3.Implies(z3.And(k >= c.min, k <= hi), z3.And(k - c.min >= 0, z3.ULT(slot(c, k, b), c.t_n))))
            return out
        return f
    P = lambda *a, **k: Contract(*a, gen=gen, setup=hidden, **k)
    B = ('bucket', 'i64')
    cs.append(P('hash_join_idx', [h] + R + [t], lambda c: [('slot of the key inside the range, no match outside', c.ret == lookup(c, c.key, c.max))], pre=pre()))
    cs.append(P('bucketized_hash_join_idx', [h] + R + [B, t], lambda c: [('slot of the bucket inside the range, no match outside', c.ret == lookup(c, c.key, c.max, c.bucket))], pre=pre(True)))
    nul = lambda c, f: [('NULL never matches', z3.Implies(c.key == c.null, c.ret == -1)), ('otherwise the slot of the key', z3.Implies(c.key != c.null, c.ret == f))]
    cs.append(P('hash_join_idx_nullable', [h] + R + [('null', 'i64'), t], lambda c: nul(c, lookup(c, c.key, c.max)), pre=pre()))
    cs.append(P('bucketized_hash_join_idx_nullable', [h] + R + [('null', 'i64'), B, t], lambda c: nul(c, lookup(c, c.key, c.max, c.bucket)), pre=pre(True)))
    # IS NOT DISTINCT FROM: NULL matches the translated NULL slot
    bw = lambda c, f, g: [('NULL matches the NULL slot', z3.Implies(c.key == c.null, c.ret == g)), ('otherwise the slot of the key', z3.Implies(c.key != c.null, c.ret == f))]
    cs.append(P('hash_join_idx_bitwise', [h] + R + [('null', 'i64'), ('tr', 'i64'), t], lambda c: bw(c, lookup(c, c.key, c.max), lookup(c, c.tr, c.tr)), pre=pre(False, ('key', 'tr'), ('max', 'tr'))))
    cs.append(P('bucketized_hash_join_idx_bitwise', [h] + R + [('null', 'i64'), ('tr', 'i64'), B, t],
                lambda c: bw(c, lookup(c, c.key, c.max, c.bucket), lookup(c, c.tr, c.tr, c.bucket)), pre=pre(True, ('key', 'tr'), ('max', 'tr'))))
    inr = lambda c: z3.If(z3.And(c.key >= c.min, c.key <= c.max), c.key, z3.BitVecVal(-1, 64))
    cs.append(Contract('rowid_hash_join_idx', R, lambda c: [('the row id itself inside the range, no match outside', c.ret == inr(c))]))
    cs.append(Contract('rowid_hash_join_idx_nullable', R + [('null', 'i64')], lambda c: nul(c, inr(c))))
    for ty, w in INTS.items():
        cs.append(Contract('translate_null_key_' + ty, [('key', 'i%d' % w), ('null', 'i%d' % w), ('tr', 'i64')],
                           lambda c: [('NULL becomes the translated value', z3.Implies(c.key == c.null, c.ret == c.tr)), ('others keep their value', z3.Implies(c.key != c.null, c.ret == sx(c.key, 64)))]))


# ---------------------------------------------------------------- keyed tables
def word(c, arr, i, w):
    """signed little-endian word of w bytes at byte i"""
    if c.mode != 'conc':
        return c.ex.word(arr, i, w, 1)
    v = sum(((z3.simplify(z3.Select(arr, i + j)).as_long() & 255) << (8 * j)) for j in range(w))
    return z3.IntVal(s_of(v, 8 * w))


def baseline(cs):
    for w in (4, 8):
        E = E32 if w == 4 else E64
        for comps in (1, 2, 3, 4):
            kb = w * comps
            stride = kb + w

            def mk(c, w=w, kb=kb, stride=stride, E=E):
                t, k = c.o0['t'], c.o0['k']
                match = lambda s: AND(*[z3.Select(t, s * stride + j) == z3.Select(k, c.I(j)) for j in range(kb)])
                val = lambda s: word(c, t, s * stride + kb, w)
                p = Probe(c, c.n, hashof(c, 'k', 1), lambda s: z3.Or(match(s), word(c, t, s * stride, w) == E), lambda s: z3.Implies(match(s), val(s) != -1))
                p.match, p.val = match, val
                return p

            def post(c, mk=mk):
                p = mk(c)
                return p.found(lambda s: c.ret == z3.If(p.match(s), p.val(s), z3.IntVal(-2)), c.ret == -1)

            def pre(c, mk=mk):
                return mk(c).facts()

            def gen(rng, i, w=w, comps=comps, kb=kb, stride=stride, E=E):
                n = rng.randint(1, 6)
                K = lambda: sum([list(rng.choice([0, 1, 2, E - 1]).to_bytes(w, 'little')) for _ in range(comps)], [])
                i['n'] = n
                i['k'] = K()
                t = []
                for _ in range(n):
                    t += rng.choice([K(), K(), list(E.to_bytes(w, 'little')) * comps, i['k']])
                    t += list(rng.choice([0, 5, 7]).to_bytes(w, 'little'))
                i['t'] = t
                return i
            cs.append(Contract('baseline_hash_join_idx_%d' % (8 * w), [('t', Arr(1, lambda c, stride=stride: c.n * stride, ro=True, align=8)), ('k', Bytes(kb, ro=True)), ('kb', Lit('i64', kb)), ('n', 'i64')],
                               post, pre=pre, gen=gen, label='baseline_hash_join_idx_%d[%d components]' % (8 * w, comps), models={'MurmurHash1': mhash('k', kb)}, samples=60, dom='int', ranges={'n': (1, 2**31 - 1)},
                               loops=[LoopSpec(lambda c, v, mk=mk: mk(c).inv(v), try_unroll=36)]))

            # composite key dictionary: key -> index
            def mk(c, w=w, comps=comps, E=E):
                t, k = c.o0['t'], c.o0['k']
                match = lambda s: AND(*[z3.Select(t, s * comps + j) == z3.Select(k, c.I(j)) for j in range(comps)])
                H = hashof(c, 'k', w)
                # an empty slot ends the search except at the home position (where nothing can follow in a well-formed dictionary)
                p = Probe(c, c.n, H, lambda s: z3.Or(match(s), z3.And(z3.Select(t, s * comps) == E, s != H % c.n)))
                p.match = match
                return p

            def post(c, mk=mk):
                p = mk(c)
                return p.found(lambda s: c.ret == z3.If(p.match(s), s, z3.IntVal(-1)), c.ret == -1)

            def pre(c, mk=mk):
                return mk(c).facts()

            def gen(rng, i, w=w, comps=comps, E=E):
                n = rng.randint(1, 6)
                K = lambda: [rng.choice([0, 1, 2, E - 1]) for _ in range(comps)]
                i['n'] = n
                i['k'] = K()
                i['t'] = sum([rng.choice([K(), K(), [E] * comps, i['k']]) for _ in range(n)], [])
                return i
            cs.append(Contract('get_composite_key_index_%d' % (8 * w), [('k', Arr(w, comps, ro=True)), ('kc', Lit('i64', comps)), ('t', Arr(w, lambda c, comps=comps: c.n * comps, ro=True)), ('n', 'i64')],
                               post, pre=pre, gen=gen, label='get_composite_key_index_%d[%d components]' % (8 * w, comps), models={'MurmurHash1': mhash('k', kb)}, samples=60, dom='int',
                               ranges={'n': (1, (2**31 - 1) // comps)}, loops=[LoopSpec(lambda c, v, mk=mk: mk(c).inv(v), try_unroll=36)]))
        cs.append(Contract('baseline_hash_join_idx_%d' % (8 * w), [('t', Arr(1, 8, ro=True, align=8)), ('k', Bytes(8, ro=True)), ('kb', Lit('i64', 8)), ('n', Lit('i64', 0))],
                           lambda c: [('an empty table has no match', c.ret == -1)], label='baseline_hash_join_idx_%d[empty table]' % (8 * w), models={'MurmurHash1': mhash('k', 8)},
                           gen=lambda rng, i: {**i, 't': [0] * 8, 'k': [0] * 8}, samples=1))
