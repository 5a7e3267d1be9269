"""C07: direct-indexed group-by slots (perfect hash, keyless, projection) and per-thread error code."""
from common import *

ASSUMPTIONS = [
    'the output buffer has a row for every key of the column range (the planner sizes it from the column statistics)',
    'buffers are below 2^31 elements; columnar keys of 1 to 4 columns',
]
EMPTY = 2**63 - 1
RNG = {'rsq': (1, 2**20), 'key': (-2**62, 2**62 - 1), 'min': (-2**62, 2**62 - 1), 'n': (1, 2**31 - 1)}


def contracts():
    cs = []
    fast(cs)
    perfect(cs)
    scan(cs)
    return cs


def buf(ro=False):
    return ('b', Arr(8, lambda c: c.sk('bn'), ro=ro))


def only(c, upd):
    """every element of b is unchanged except as upd(j, old) says"""
    return c.forall('j', c.b_n, lambda j: z3.Select(c.o1['b'], j) == upd(j, z3.Select(c.o0['b'], j)))


def fast(cs):
    for bk, blab in ((('bucket', Lit('i64', 0)), 'no bucket'), (('bucket', 'i64'), 'bucket')):
        has = blab == 'bucket'
        rng = dict(RNG)
        if has:
            rng['bucket'] = (1, 2**40)

        def slot(c, has=has):
            return (c.key - c.min) / c.bucket if has else c.key - c.min

        def pre(c, slot=slot, r=True):
            rs = c.rsq if 'rsq' in c.v else 1
            return [c.b_n < 2**31, c.key >= c.min, slot(c) * rs >= 0, (slot(c) * rs + rs) <= c.b_n]

        def gen(rng, i, has=has):
            i['rsq'] = rng.randint(1, 4)
            n = rng.randint(1, 6)
            b = rng.randint(1, 5) if has else 1
            if has:
                i['bucket'] = b
            i['min'] = rng.randint(-9, 9) & (2**64 - 1)
            i['key'] = (s_of(i['min'], 64) + rng.randint(0, n * b - 1)) & (2**64 - 1)
            rs = i['rsq'] if any(nm == 'rsq' for nm in ['rsq']) else 1
            i['b'] = [rng.choice([EMPTY, 3, 7, EMPTY - 1]) for _ in range(n * rs)]
            return i
        for fn, wr in (('get_group_value_fast', 'key'), ('get_group_value_fast_with_original_key', 'orig')):
            ps = [buf(), ('key', 'i64')] + ([('orig', 'i64')] if wr == 'orig' else []) + [('min', 'i64'), bk, ('rsq', 'i32')]

            def post(c, slot=slot, wr=wr):
                off = slot(c) * c.rsq
                return [('row of the key', ptr_at(c, 'b', 8 * (off + 1))),
                        ('key stored on first use, nothing else written', only(c, lambda j, o: z3.If(z3.And(j == off, o == EMPTY), getattr(c, wr), o)))]
            cs.append(Contract(fn, ps, post, pre=pre, modifies=('b',), dom='int', ranges=rng, gen=gen, label='%s[%s]' % (fn, blab)))

        def post(c, slot=slot):
            off = slot(c)
            return [('bin of the key', c.ret == off), ('key stored on first use, nothing else written', only(c, lambda j, o: z3.If(z3.And(j == off, o == EMPTY), c.key, o)))]
        cs.append(Contract('get_columnar_group_bin_offset', [buf(), ('key', 'i64'), ('min', 'i64'), bk], post, pre=pre, modifies=('b',), dom='int', ranges=rng, gen=gen,
                           label='get_columnar_group_bin_offset[%s]' % blab))
    kr = {**RNG, 'bucket': (-2**62, 2**62)}
    kpre = lambda c: [c.b_n < 2**31, c.key >= c.min, (c.key - c.min) * c.rsq >= 0, (c.key - c.min) * c.rsq < c.b_n]

    def gen(rng, i):
        i['rsq'] = rng.randint(1, 4)
        n = rng.randint(1, 6)
        i['min'] = rng.randint(-9, 9) & (2**64 - 1)
        i['key'] = (s_of(i['min'], 64) + rng.randint(0, n - 1)) & (2**64 - 1)
        if 'ws' in i:
            i['ws'] = rng.randint(1, 4)
            i['wi'] = rng.randint(0, i['ws'] - 1)
        i['b'] = [0] * (n * i['rsq'] * i.get('ws', 1))
        return i
    cs.append(Contract('get_group_value_fast_keyless', [buf(), ('key', 'i64'), ('min', 'i64'), ('bucket', 'i64'), ('rsq', 'i32')],
                       lambda c: [('row of the key', ptr_at(c, 'b', 8 * ((c.key - c.min) * c.rsq)))], pre=kpre, dom='int', ranges=kr, gen=gen))
    cs.append(Contract('get_group_value_fast_keyless_semiprivate', [buf(), ('key', 'i64'), ('min', 'i64'), ('bucket', 'i64'), ('rsq', 'i32'), ('wi', 'i8'), ('ws', 'i8')],
                       lambda c: [('row of the key and copy', ptr_at(c, 'b', 8 * (c.rsq * (c.ws * (c.key - c.min) + c.wi))))], dom='int', gen=gen,
                       pre=lambda c: [c.b_n < 2**31, c.key >= c.min, (c.key - c.min) < 2**31, c.ws * (c.key - c.min) >= 0, c.ws * (c.key - c.min) < 2**31, c.rsq * (c.ws * (c.key - c.min) + c.wi) < c.b_n, c.rsq * (c.ws * (c.key - c.min) + c.wi) >= 0],
                       ranges={**kr, 'ws': (1, 127), 'wi': (0, 126)}))


def perfect(cs):
    def pre(c):
        return [c.b_n < 2**31, c.idx * c.rsq >= 0, c.idx * c.rsq + c.rsq <= c.b_n, c.kc <= c.rsq]

    def upd(c, m):
        off = c.idx * c.rsq
        e = z3.Select(c.o0['b'], off) == EMPTY
        return lambda j, o: z3.If(z3.And(e, j >= off, j < off + m), z3.Select(c.o0['k'], j - off), o)

    def post(c):
        return [('first aggregate slot of the row', ptr_at(c, 'b', 8 * (c.idx * c.rsq + c.kc))), ('key columns stored on first use, nothing else written', only(c, upd(c, c.kc)))]

    def inv(c, v):
        out = []
        for nm, t in [('k', v.k)] + int_phis(v):
            for nm2, tt in ((nm, t), ('rest ' + nm, c.kc - t), ('rel ' + nm, t - c.idx * c.rsq)):
                j = c.sk('j')
                out.append(('written below ' + nm2, z3.Select(v.arr(c.objs['b']), j) == upd(c, tt)(j, z3.Select(c.o0['b'], j))))
                out.append(('bound ' + nm2, z3.And(tt >= 0, tt <= c.kc)))
        return out

    def gen(rng, i):
        i['kc'] = rng.randint(1, 4)
        i['rsq'] = i['kc'] + rng.randint(0, 2)
        n = rng.randint(1, 4)
        i['idx'] = rng.randint(0, n - 1)
        i['k'] = [rng.randint(0, 50) for _ in range(i['kc'])]
        i['b'] = [rng.choice([EMPTY, EMPTY, 3, 7]) for _ in range(n * i['rsq'])]
        return i
    R = {'idx': (0, 2**31 - 1), 'rsq': (1, 2**20), 'kc': (1, 2**20)}
    cs.append(Contract('get_matching_group_value_perfect_hash', [buf(), ('idx', 'i32'), ('k', Arr(8, lambda c: c.kc, ro=True)), ('kc', 'i32'), ('rsq', 'i32')], post, pre=pre, modifies=('b',),
                       dom='int', ranges=R, gen=gen, loops=[LoopSpec(inv)]))

    def gen(rng, i):
        i['rsq'] = rng.randint(1, 4)
        i['idx'] = rng.randint(0, 4)
        i['b'] = [0] * (5 * i['rsq'])
        return i
    cs.append(Contract('get_matching_group_value_perfect_hash_keyless', [buf(), ('idx', 'i32'), ('rsq', 'i32')], lambda c: [('row of the group', ptr_at(c, 'b', 8 * (c.idx * c.rsq)))],
                       pre=lambda c: [c.b_n < 2**31, c.idx * c.rsq >= 0, c.idx * c.rsq < c.b_n], dom='int', ranges={'idx': R['idx'], 'rsq': R['rsq']}, gen=gen))
    for kc in (1, 2, 3, 4):
        def post(c, kc=kc):
            e = z3.Select(c.o0['b'], c.idx) == EMPTY

            def u(j, o):
                r = o
                for i in range(kc):
                    r = z3.If(j == i * c.n + c.idx, z3.Select(c.o0['k'], c.I(i)), r)
                return z3.If(e, r, o)
            return [('all key columns stored on first use, nothing else written', only(c, u))]

        def gen(rng, i, kc=kc):
            n = rng.randint(1, 5)
            i['n'] = n
            i['idx'] = rng.randint(0, n - 1)
            i['k'] = [rng.randint(0, 50) for _ in range(kc)]
            i['b'] = [rng.choice([EMPTY, EMPTY, 3, 7]) for _ in range(n * kc)]
            return i
        cs.append(Contract('set_matching_group_value_perfect_hash_columnar', [('b', Arr(8, lambda c, kc=kc: c.n * kc)), ('idx', 'i32'), ('k', Arr(8, kc, ro=True)), ('kc', Lit('i32', kc)), ('n', 'i32')], post,
                           pre=lambda c: [c.idx < c.n], modifies=('b',), dom='int', ranges={'n': (1, (2**31 - 1) // kc), 'idx': (0, 2**31 - 1)}, gen=gen,
                           label='set_matching_group_value_perfect_hash_columnar[%d columns]' % kc))


def scan(cs):
    def gen(rng, i):
        i['rsq'] = rng.randint(1, 4)
        i['n'] = rng.randint(1, 6)
        i['pos'] = rng.randint(0, 8)
        i['b'] = [rng.randint(0, 9) for _ in range(i['n'] * (i['rsq'] if gen.row else 1))]
        return i

    def mk(row):
        def g(rng, i):
            gen.row = row
            return gen(rng, i)
        return g

    def post(c):
        off = c.pos * c.rsq
        ok = c.pos < c.n
        return [('room: next row', z3.Implies(ok, ptr_at(c, 'b', 8 * (off + 1)))), ('full: no row', z3.Implies(z3.Not(ok), is_null(c))),
                ('row id written in its own row only', only(c, lambda j, o: z3.If(z3.And(ok, j == off), c.rid, o)))]
    cs.append(Contract('get_scan_output_slot', [('b', Arr(8, lambda c: c.n * c.rsq)), ('n', 'i32'), ('pos', 'i32'), ('rid', 'i64'), ('rsq', 'i32')], post, modifies=('b',), dom='int',
                       pre=lambda c: [c.pos * c.rsq >= 0, z3.Implies(c.pos < c.n, c.pos * c.rsq + c.rsq <= c.n * c.rsq)],
                       ranges={'n': (1, 2**31 - 1), 'pos': (0, 2**31 - 1), 'rsq': (1, 2**20)}, gen=mk(True), trusted=['arithmetic fact pos < n -> pos*r + r <= n*r (r >= 0) is supplied as a lemma instance']))

    def post(c):
        ok = c.pos < c.n
        return [('room: next position; full: -1', c.ret == z3.If(ok, c.pos, z3.IntVal(-1))), ('row id written at its position only', only(c, lambda j, o: z3.If(z3.And(ok, j == c.pos), c.rid, o)))]
    cs.append(Contract('get_columnar_scan_output_offset', [('b', Arr(8, lambda c: c.n)), ('n', 'i32'), ('pos', 'i32'), ('rid', 'i64')], post, modifies=('b',), dom='int',
                       ranges={'n': (1, 2**31 - 1), 'pos': (0, 2**31 - 1)}, gen=mk(False)))
    # per-thread error code: the first non-zero error sticks
    cs.append(Contract('record_error_code', [('err', 'i32'), ('codes', Arr(4, 1))],
                       lambda c: [('first error is kept', z3.Select(c.o1['codes'], c.I(0)) == z3.If(z3.And(c.err != 0, z3.Select(c.o0['codes'], c.I(0)) <= 0), c.err, z3.Select(c.o0['codes'], c.I(0))))],
                       modifies=('codes',), gen=lambda rng, i: dict(err=rng.choice([0, 5, 7, 2**32 - 3]), codes=[rng.choice([0, 0, 3, 2**32 - 1])])))
    cs.append(Contract('get_error_code', [('codes', Arr(4, 1, ro=True))], lambda c: [('the recorded code', c.ret == z3.Select(c.o0['codes'], c.I(0)))], gen=lambda rng, i: dict(codes=[rng.randint(0, 9)])))
    cs.append(Contract('pos_start_impl', [('e', Null())], lambda c: [('one CPU thread starts at row 0', c.ret == 0)]))
    cs.append(Contract('pos_step_impl', [], lambda c: [('one CPU thread visits every row', c.ret == 1)]))
