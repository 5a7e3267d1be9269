"""C16: array columns -- an array row is decoded to exactly its stored elements; subscripts, sizes and ANY/ALL see those."""
from common import *
import ctypes
import struct as st

ASSUMPTIONS = [
    'a chunk of array data is smaller than 2 GB and its offsets ascend in absolute value and end within it (what the encoders write)',
    'row numbers are below 2^31 (a fragment holds fewer rows)',
    'ANY/ALL: the comparison type holds every element value (the cast to the common type that codegen inserts); combinations that lose values are not generated',
    'operator std::string ==, < ... and robin_hood::unordered_set are those of the libraries',
]
IT = {'type_id': (0, 'i32'), 'type_size': (4, 'i32'), 'nullable': (8, 'i8'), 'eid': (12, 'i32'), 'esize': (16, 'i32'), 'skip': (56, 'i32'), 'skip_size': (60, 'i32'), 'num': (64, 'i64')}
RES = {'len': (8, 'i64'), 'ptr': (16, 'ptr'), 'null': (24, 'i8')}
B = lambda v, w=64: z3.BitVecVal(v, w)
FP = {'float': z3.Float32(), 'double': z3.Float64()}
W = {'int8_t': 1, 'int16_t': 2, 'int32_t': 4, 'int64_t': 8, 'float': 4, 'double': 8}
NULLA = {1: B(0x81, 8), 2: B(0x8001, 16), 4: B(0x80000001, 32), 8: B(0x8000000000000001, 64)}
NULLAF = {4: B(0x01000000, 32), 8: B(0x0020000000000000, 64)}
FIXED, VAR, NOTNULL = 'fixed', 'var', 'notnull'
KFIX, KVAR, KFP = 11, 12, 3


def rdbytes(a, off, w):
    parts = [z3.Select(a, off + i) for i in range(w)]
    return z3.Concat(*parts[::-1]) if w > 1 else parts[0]


class Row:
    """the array stored for a row: in range, NULL, first byte, length"""

    def __init__(self, c, kind, n):
        self.c, self.kind = c, kind
        self.n = n                       # 64 bits
        self.buf = c.o0['buf']
        f = lambda x: c.oldf('it', x)
        self.inr = z3.ULT(n, c.N)
        if kind == FIXED:
            sk = f('skip_size')
            self.start = sx(tr(n, 32) * sk, 64)
            self.len = sx(sk, 64)
            fpn = OR(*[z3.And(f('esize') == w, z3.fpEQ(z3.fpBVToFP(rdbytes(self.buf, self.start, w), FP[t]), z3.fpBVToFP(NULLAF[w], FP[t]))) for t, w in (('float', 4), ('double', 8))])
            inn = OR(*[z3.And(f('esize') == w, rdbytes(self.buf, self.start, w) == NULLA[w]) for w in (1, 2, 4, 8)])
            self.null = z3.And(f('nullable') != 0, z3.If(f('eid') == KFP, fpn, inn))
        else:
            o, x = z3.Select(c.o0['offs'], n), z3.Select(c.o0['offs'], n + 1)
            self.off, self.nxt = o, x
            self.null = x < 0 if kind == VAR else z3.BoolVal(False)
            self.start = sx(z3.If(o < 0, -o, o), 64) if kind == VAR else sx(o, 64)
            self.len = sx(x, 64) - self.start

    def pre(self):
        c, f = self.c, lambda x: self.c.oldf('it', x)
        out = [f('num') == c.N, z3.ULT(c.N, B(2**31)), z3.ULT(c.BN, B(2**31)), z3.ULE(f('nullable'), B(1, 8))]
        if self.kind == FIXED:
            sk = f('skip_size')
            out += [sk > 0, f('type_id') == KFIX, f('type_size') == sk, f('esize') > 0, f('esize') <= sk, z3.Implies(f('eid') == KFP, z3.Or(f('esize') == 4, f('esize') == 8)),
                    z3.Implies(self.inr, z3.And(z3.BVMulNoOverflow(tr(self.n, 32), sk, True), self.start >= 0, self.start + self.len <= c.BN))]
        else:
            ok = z3.And(self.start >= 0, self.start <= sx(self.nxt, 64), sx(self.nxt, 64) <= c.BN)
            out += [f('skip_size') == -1, f('type_id') == KVAR, z3.Implies(self.inr, z3.Or(self.null, ok))]
        return out

    def elem(self, j, w):
        return rdbytes(self.buf, self.start + j * w, w)


def params(kind):
    it = dict(IT)
    it['start'] = (40, ('ptr', 'buf' if kind == FIXED else 'offs'))
    ps = [('it', Struct(it, 80))]
    tail = [('N', 'i64'), ('BN', 'i64'), ('buf', Arr(1, lambda c: c.BN, ro=True))]
    if kind != FIXED:
        it['second'] = (24, ('ptr', 'buf'))
        tail.append(('offs', Arr(4, lambda c: c.N + 1, ro=True)))
    return ps, tail


def mkgen(kind, w=None, more=None, fp=False):
    def gen(rng, i):
        N = rng.randint(1, 4)
        ew = w or rng.choice([1, 2, 4, 8])
        it = {'type_id': KVAR, 'type_size': 0xffffffff, 'nullable': rng.randint(0, 1), 'eid': KFP if fp or (w is None and ew >= 4 and rng.random() < .4) else 2, 'esize': ew, 'skip': 1, 'skip_size': 0xffffffff, 'num': N}

        def elem():
            if it['eid'] == KFP:
                p = rng.choice([0., 1., -1., 1.5, 2., 1e30])
                b = st.pack('<f' if ew == 4 else '<d', p)
                if rng.random() < .2:
                    b = (0x00800000 if ew == 4 else 0x0010000000000000).to_bytes(ew, 'little')
                return b
            k = rng.random()
            v = rng.choice([0, 1, 2, 255, 3]) if k < .6 else rng.getrandbits(8 * ew) if k < .7 else 1 << (8 * ew - 1)
            return (v & (256**ew - 1)).to_bytes(ew, 'little')
        if kind == FIXED:
            m = rng.randint(1, 4)
            it.update(type_id=KFIX, type_size=m * ew, skip_size=m * ew)
            buf = b''
            for _ in range(N):
                if rng.random() < .2:
                    buf += ((NULLAF[ew] if it['eid'] == KFP else NULLA[ew]).as_long()).to_bytes(ew, 'little') + b'\0' * ((m - 1) * ew)
                else:
                    buf += b''.join(elem() for _ in range(m))
        else:
            buf = b'\0' * 8
            offs = [8]
            for _ in range(N):
                if kind == VAR and rng.random() < .3:
                    offs.append(-abs(offs[-1]))
                else:
                    for _ in range(rng.choice([0, 1, 2, 3])):
                        buf += elem()
                    offs.append(len(buf))
            i['offs'] = [x & 0xffffffff for x in offs]
        i.update(it=it, N=N, BN=len(buf), buf=list(buf))
        if more:
            more(rng, i)
        return i
    return gen


def setup_n(k, kind):
    """the first k parameters are those of the function"""
    def setup(c, ex, mem, vals):
        if kind != FIXED:
            mem[c.objs['it']][60] = (4, c.dom.const(32, -1))     # size of a variable-length type
            c.o0['it'] = dict(mem[c.objs['it']])
        return [vals[n] for n, _ in c.c.params[:k]]
    return setup


def rptr(c):
    if c.mode == 'conc':
        return conc_ptr(c, c.c, c.newf('r', 'ptr').as_long(), c.nat)
    return c.newf('r', 'ptr')


def add(cs, fn, kind, mid, post, pre=None, w=None, more=None, fp=False, label=None, nargs=None, **kw):
    ps, tail = params(kind)
    allps = ps + mid + tail

    def pr(c):
        return Row(c, kind, rowno(c)).pre() + (pre(c, Row(c, kind, rowno(c))) if pre else [])
    cs.append(Contract(fn, allps, lambda c: post(c, Row(c, kind, rowno(c))), pre=pr, setup=setup_n(len(ps + mid), kind), unit='arr', gen=mkgen(kind, w, more, fp), bmc=0,
                       label=label or '%s[%s]' % (fn, {FIXED: 'fixed length', VAR: 'variable length', NOTNULL: 'variable length, not null'}[kind]), **kw))


def rowno(c):
    if 'n' in c.v:
        return sx(c.n, 64)
    return c.row


def grow(extra=None):
    def more(rng, i):
        i['row'] = rng.randint(0, i['N'] - 1) if rng.random() < .85 else rng.randint(i['N'], i['N'] + 2)
        i['n'] = i['row'] if rng.random() < .9 else 0xffffffff
        if extra:
            extra(rng, i)
    return more


def contracts():
    cs = []
    for kind in (FIXED, VAR):
        datum(cs, 'v_array_nth', kind)
    datum(cs, 'v_array_nth_varlen', VAR)
    datum(cs, 'v_array_nth_notnull', NOTNULL)
    for kind in (FIXED, VAR):
        sizes(cs, kind)
    for t in W:
        for kind in (FIXED, VAR):
            at(cs, 'array_at_' + t, t, kind)
            checked(cs, t, kind)
        at(cs, 'varlen_array_at_' + t, t, VAR)
        at(cs, 'varlen_notnull_array_at_' + t, t, NOTNULL)
        bitcast(cs, t)
    for kind in ('scalar', 'string'):
        varlen(cs, kind)
    trials(cs)
    for t, nt in PAIRS:
        for op in OPS:
            for q in ('any', 'all'):
                quant(cs, q, op, t, nt)
    return cs


def datum(cs, fn, kind):
    def post(c, r):
        e, ln, nul, p = c.new('e'), c.newf('r', 'len'), c.newf('r', 'null'), rptr(c)
        inr = z3.And(r.inr, c.n >= 0)
        here, off = ptr_in(c, p, 'buf')
        out = [('is_end exactly for rows that do not exist', (e != 0) == z3.Not(inr))]
        if kind == NOTNULL:
            return out + [('the row is its stored bytes', z3.And(nul == 0, ln == r.len, here, off == r.start))]
        return out + [('a missing row is NULL', z3.Implies(z3.Not(inr), z3.And(ln == 0, nul != 0, ptr_is_null(c, p)))),
                      ('is_null exactly for NULL arrays', z3.Implies(inr, (nul != 0) == r.null)),
                      ('an array that is not NULL is its stored bytes', z3.Implies(z3.And(inr, z3.Not(r.null)), z3.And(ln == r.len, here, off == r.start)))] + \
            ([('a NULL array has no elements', z3.Implies(r.null, z3.And(ln == 0, ptr_is_null(c, p))))] if kind == VAR else [])

    def more(rng, i):
        i['r'] = {'len': 77, 'ptr': 99, 'null': 1}
        i['e'] = rng.randint(0, 1)
    add(cs, fn, kind, [('n', 'i32'), ('r', Struct(RES, 48)), ('e', Cell('i8'))], post, modifies=('r', 'e'), more=grow(more), pre=(lambda c, r: [z3.And(r.inr, c.n >= 0)]) if kind == NOTNULL else None)


def sizes(cs, kind):
    lg = lambda c, r: [z3.ULE(c.lg, B(3, 32))]

    def gl(rng, i):
        i['lg'] = rng.randint(0, 3)
        i['nv'] = rng.choice([0x80000000, 5])
    cnt = lambda c, r: tr(z3.LShR(r.len, zx(c.lg, 64)), 32)
    nul = lambda r: z3.Or(z3.Not(r.inr), r.null)
    add(cs, 'array_size', kind, [('row', 'i64'), ('lg', 'i32')], lambda c, r: [('number of elements, 0 for NULL', c.ret == z3.If(nul(r), B(0, 32), cnt(c, r)))], pre=lambda c, r: lg(c, r) + [z3.ULT(c.row, B(2**31))], more=grow(gl))
    add(cs, 'array_size_nullable', kind, [('row', 'i64'), ('lg', 'i32'), ('nv', 'i32')], lambda c, r: [('number of elements, NULL for NULL', c.ret == z3.If(nul(r), c.nv, cnt(c, r)))],
        pre=lambda c, r: lg(c, r) + [z3.ULT(c.row, B(2**31))], more=grow(gl))
    add(cs, 'array_is_null', kind, [('row', 'i64')], lambda c, r: [('true exactly for NULL arrays and missing rows', c.ret == nul(r))], pre=lambda c, r: [z3.ULT(c.row, B(2**31))], more=grow())

    def buff(c, r):
        here, off = ptr_in(c, c.ret, 'buf')
        return [('first byte of the array', z3.Implies(z3.And(r.inr, z3.Not(r.null)), z3.And(here, off == r.start)))]
    add(cs, 'array_buff', kind, [('row', 'i64')], buff, pre=lambda c, r: [z3.ULT(c.row, B(2**31))], more=grow())
    if kind == FIXED:
        add(cs, 'fast_fixlen_array_buff', kind, [('row', 'i64')], buff, pre=lambda c, r: [r.inr], more=grow())
        cs.append(Contract('fast_fixlen_array_size', [('it', Struct(IT, 80)), ('lg', 'i32')], lambda c: [('number of elements', c.ret == z3.LShR(c.oldf('it', 'skip_size'), c.lg))], pre=lambda c: [c.oldf('it', 'skip_size') > 0, z3.ULE(c.lg, B(3, 32))], unit='arr'))


def val(bits, t):
    return z3.fpBVToFP(bits, FP[t]) if t in FP else bits


def same(a, b):
    """equal values; floats by value or both NaN"""
    if z3.is_fp(a):
        return z3.Or(a == b, z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    return a == b


def at(cs, fn, t, kind):
    w = W[t]

    def pre(c, r):
        return [r.inr, z3.Not(r.null), z3.ULT(zx(c.j, 64), z3.UDiv(r.len, B(w)))]

    def more(rng, i):
        i['j'] = rng.randint(0, 3)
    add(cs, fn, kind, [('row', 'i64'), ('j', 'i32')], lambda c, r: [('element j of the row', same(c.ret, val(r.elem(zx(c.j, 64), w), t)))], pre=pre, w=w, more=grow(more), fp=t in FP)


def checked(cs, t, kind):
    w = W[t]

    def post(c, r):
        ok = z3.And(r.inr, z3.Not(r.null), c.j > 0, z3.ULE(c.j, z3.UDiv(r.len, B(w))))
        return [('element j (counted from 1) of the row; NULL outside it', same(c.ret, z3.If(ok, val(r.elem(c.j - 1, w), t), c.nv)))]

    def more(rng, i):
        i['j'] = rng.choice([0, 1, 2, 3, 4, 2**64 - 1, 2**63, 2**32 + 1])
        i['nv'] = rng.choice([0, 0x3f800000]) if t in FP else rng.choice([5, 1 << (8 * w - 1)])
    add(cs, 'array_at_%s_checked' % t, kind, [('row', 'i64'), ('j', 'i64'), ('nv', irty(t))], post, pre=lambda c, r: [z3.ULT(c.row, B(2**31))], w=w, more=grow(more), fp=t in FP)


def bitcast(cs, t):
    cs.append(Contract('elem_bitcast_' + t, [('x', irty(t))], lambda c: [('value kept', (same(z3.fpBVToFP(c.ret, FP['double']), z3.fpFPToFP(z3.RNE(), c.x, FP['double'])) if t in FP else c.ret == sx(c.x, 64)))], unit='arr'))


OPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
FOPS = {'eq': z3.fpEQ, 'ne': lambda a, b: z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
INTT = ['int8_t', 'int16_t', 'int32_t', 'int64_t']
PAIRS = [(a, b) for a in INTT for b in INTT if W[a] <= W[b]] + [('float', 'float'), ('float', 'double'), ('double', 'double')] + [(a, b) for a in ('int8_t', 'int16_t') for b in FP] + [('int32_t', 'double')]


GETNTH = '_Z17ChunkIter_get_nthP9ChunkIteriP14HostArrayDatumPb'


def put(ex, mem, g, p, off, v, ty):
    ex.store(mem, g, Ptr([(gg, o, ex.off_add(f, off, [])) for gg, o, f in p.cs]), v, ty)


def get_nth(c, ex, i, a, mem, g):
    """contract of ChunkIter_get_nth (proved above) for the row asked for: NULL, or the bytes of arr; any other row: anything"""
    ok = a[1] == tr(c.row, 32)
    put(ex, mem, g, a[2], 8, z3.If(ok, z3.If(c.z, B(0), c.L), z3.BitVec(ex.fresh('len'), 64)), 'i64')
    put(ex, mem, g, a[2], 16, Ptr([(c.z, None, Off()), (z3.Not(c.z), c.objs['arr'], Off())]), 'ptr')
    put(ex, mem, g, a[2], 24, z3.If(z3.And(ok, z3.Not(c.z)), B(0, 8), B(1, 8)), 'i8')
    put(ex, mem, g, a[3], 0, B(0, 8), 'i8')
    return None, mem, g


def quant(cs, q, op, t, nt):
    w = W[t]
    fn = 'array_%s_%s_%s_%s' % (q, op, t, nt)

    def hit(c, j):
        e = val(z3.Select(c.o0['arr'], j), t)
        if nt in FP:
            # the conversion is exact and one-to-one: NULL is compared after it
            f = (lambda x: z3.fpFPToFP(z3.RNE(), x, FP[nt]) if t != nt else x) if t in FP else (lambda x: z3.fpSignedToFP(z3.RNE(), x, FP[nt]))
            return z3.And(z3.Not(z3.fpEQ(f(e), f(c.null))), FOPS[op](f(e), c.needle))
        return z3.And(e != c.null, OPS[op](sx(e, 8 * W[nt]), c.needle))

    def stop(c, j):
        return hit(c, j) if q == 'any' else z3.Not(hit(c, j))

    def cnt(c):
        return z3.If(c.z, B(0), z3.UDiv(c.L, B(w)))

    def never(c):
        """no element decides (as a Boolean with instances)"""
        if c.mode == 'conc':
            return z3.Not(OR(*[stop(c, B(j)) for j in range(z3.simplify(cnt(c)).as_long())]))
        return z3.Bool('NEVER')

    def inv(c, v):
        n = cnt(c)
        j = c.sk('j')
        out = []
        for nm, pred, pr in done_sets(v, n, (1, 2)):
            out.append(('no decision: ' + nm, z3.Implies(z3.And(z3.ULT(j, n), pred(j)), z3.Not(stop(c, j)))))
            out.append(('progress ' + nm, z3.ULE(pr, n)))
        ts = [t for _, t in int_phis(v) if t.size() == 64] + [v.k]
        for x in ts + [n - 1 - v.k] + [x - 1 for _, x in int_phis(v)] + [v.k * 2, v.k * 2 + 1]:
            c.assume(z3.Implies(z3.And(z3.Bool('NEVER'), z3.ULT(x, n)), z3.Not(stop(c, x))))
        return out

    def post(c):
        dec = z3.BoolVal(q == 'any')
        return [('undecided by every element: ' + ('false' if q == 'any' else 'true'), z3.Implies(never(c), c.ret == z3.Not(dec))),
                ('one deciding element (not NULL and %s / NULL or not) decides' % op, c.forall('j', cnt(c), lambda j: z3.Implies(stop(c, j), c.ret == dec)))]

    def gen(rng, i):
        def num(t):
            if t in FP:
                return int.from_bytes(st.pack('<f' if W[t] == 4 else '<d', rng.choice([0., 1., 2., 1.5, -1., 255.])), 'little')
            return rng.choice([0, 1, 2, 3, 255, 256**W[t] - 1, 128, rng.getrandbits(64)]) & (256**W[t] - 1)
        i['needle'] = num(nt)
        i['null'] = (0x00800000 if w == 4 else 0x0010000000000000) if t in FP else 1 << (8 * w - 1)
        m = rng.choice([0, 1, 1, 2, 3])
        i['arr'] = [i['null'] if rng.random() < .3 else num(t) for _ in range(m)]
        if rng.random() < .5 and nt == t:
            i['arr'] = [i['needle'] if rng.random() < .7 else x for x in i['arr']]
        i.update(z=int(rng.random() < .1), L=m * w + rng.randint(0, w - 1), row=rng.choice([0, 1, 5]), it={'type_id': KVAR})
        return i

    def native(nat, con, mod, inp):
        row, n = inp['row'], len(inp['arr'])
        raw = b''.join((x & (256**w - 1)).to_bytes(w, 'little') for x in inp['arr'])
        buf = ctypes.create_string_buffer(b'\x07' * 16 + raw + b'\x07' * 32, 48 + len(raw))
        offs = ctypes.create_string_buffer(st.pack('<ii', 16, -16 if inp['z'] else 16 + inp['L']), 8)
        it = ctypes.create_string_buffer(st.pack('<iiBxxxiiiQQQQiiQQ', KVAR, -1, 1, KFP if t in FP else 2, w, 0, ctypes.addressof(buf), 0, (ctypes.addressof(offs) - 4 * row) & (2**64 - 1), ctypes.addressof(offs) + 4, 1, -1, row + 1, 0), 80)
        f = nat.get(fn)
        a = [ctypes.c_void_p(ctypes.addressof(it)), ctypes.c_uint64(row), nat.scalar(irty(nt), inp['needle']), nat.scalar(irty(t), inp['null'])]
        f.argtypes, f.restype = [type(x) for x in a], ctypes.c_bool
        return {'ret': int(f(*a)), 'bufs': {}, 'addr': {}}
    cs.append(Contract(fn, [('it', Struct({'type_id': (0, 'i32')}, 80)), ('row', 'i64'), ('needle', irty(nt)), ('null', irty(t)), ('z', 'i1'), ('L', 'i64'), ('arr', Arr(w, lambda c: z3.UDiv(c.L, B(w)), ro=True))], post,
                       pre=lambda c: [z3.ULT(c.row, B(2**31 - 1)), z3.ULT(c.L, B(2**31 - 64))], setup=lambda c, ex, mem, vals: [vals[n] for n in ('it', 'row', 'needle', 'null')], unit='arr', gen=gen, native=native, bmc=0,
                       models={GETNTH: get_nth}, absfp=True, loops=[LoopSpec(inv=inv)]))


def varlen(cs, kind):
    """values and strings by row number (VarlenDatum)"""
    K = FIXED if kind == 'scalar' else NOTNULL

    def row(c):
        return Row(c, K, sx(c.n, 64))

    def pre(c):
        r, f = row(c), lambda x: c.oldf('it', x)
        out = [f('num') == c.N, z3.ULT(c.N, B(2**31)), z3.ULT(c.BN, B(2**31))]
        if kind == 'scalar':
            sk = f('skip_size')
            return out + [f('type_size') == sk, OR(*[sk == w for w in (1, 2, 4, 8)]), z3.Implies(f('type_id') == KFP, z3.UGE(sk, B(4, 32))), z3.ULE(f('type_id'), B(10, 32)), f('type_id') != 0,
                          z3.Implies(r.inr, z3.And(z3.BVMulNoOverflow(tr(r.n, 32), sk, True), r.start >= 0, r.start + r.len <= c.BN))]
        return out + [f('skip_size') == -1, z3.Or(f('type_id') == 5, f('type_id') == 6), z3.Implies(r.inr, z3.And(r.off >= 0, r.off <= r.nxt, sx(r.nxt, 64) <= c.BN))]

    def post(c):
        r, f = row(c), lambda x: c.oldf('it', x)
        e, ln, nul, p = c.new('e'), c.newf('r', 'len'), c.newf('r', 'null'), rptr(c)
        inr = z3.And(r.inr, c.n >= 0)
        here, off = ptr_in(c, p, 'buf')
        if kind == 'scalar':
            fpn = OR(*[z3.And(r.len == w, z3.fpEQ(z3.fpBVToFP(rdbytes(r.buf, r.start, w), FP[t]), z3.fpBVToFP(B(m, 8 * w), FP[t]))) for t, w, m in (('float', 4, 0x00800000), ('double', 8, 0x0010000000000000))])
            isn = z3.If(f('type_id') == KFP, fpn, OR(*[z3.And(r.len == w, rdbytes(r.buf, r.start, w) == B(1 << (8 * w - 1), 8 * w)) for w in (1, 2, 4, 8)]))
        else:
            isn = r.len == 0
        return [('is_end exactly for rows that do not exist', (e != 0) == z3.Not(inr)), ('a missing row is NULL', z3.Implies(z3.Not(inr), z3.And(ln == 0, nul != 0, ptr_is_null(c, p)))),
                ('the value is its stored bytes', z3.Implies(inr, z3.And(ln == r.len, here, off == r.start))), ('is_null exactly for NULL', z3.Implies(inr, (nul != 0) == isn))]

    def gen(rng, i):
        i = mkgen(K, None, None)(rng, i)
        if kind == 'scalar':
            w, fp = i['it']['esize'], i['it']['eid'] == KFP
            i['it'].update(type_id=KFP if fp else rng.choice([1, 2, 4, 7, 8, 9]), type_size=w, skip_size=w)
            i['N'] = i['it']['num'] = i['BN'] // w
        else:
            i['it']['type_id'] = rng.choice([5, 6])
        i['r'], i['e'] = {'len': 77, 'ptr': 99, 'null': 1}, rng.randint(0, 1)
        i['n'] = rng.choice([0, i['N'] - 1, i['N'], 1, 2, 0xffffffff])
        return i
    ps, tail = params(K)
    cs.append(Contract('v_nth', ps + [('n', 'i32'), ('u', Lit('i1', 0)), ('r', Struct(RES, 48)), ('e', Cell('i8'))] + tail, post, pre=pre, setup=setup_n(5, K), unit='arr', gen=gen, bmc=0, modifies=('r', 'e'), label='ChunkIter_get_nth[%s]' % kind))


def chunk(inp, w, fp):
    """a ChunkIter over variable-length arrays given as lists of bit patterns (None: NULL)"""
    buf, offs = b'\0' * 8, [8]
    for a in inp:
        if a is None:
            offs.append(-abs(offs[-1]))
        else:
            buf += b''.join((x & (256**w - 1)).to_bytes(w, 'little') for x in a)
            offs.append(len(buf))
    b, o = ctypes.create_string_buffer(buf, len(buf)), ctypes.create_string_buffer(st.pack('<%di' % len(offs), *offs), 4 * len(offs))
    it = ctypes.create_string_buffer(st.pack('<iiBxxxiiiQQQQiiQQ', KVAR, -1, 1, KFP if fp else 2, w, 0, ctypes.addressof(b), 0, ctypes.addressof(o), ctypes.addressof(o) + len(inp) * 4, 1, -1, len(inp), 0), 80)
    return it, (b, o)


def rows(rng, w, pool):
    return [None if rng.random() < .2 else [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(rng.randint(1, 4))]


def trials(cs):
    pyop = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
    text = b'abc' * 40
    for t in INTT:
        w = W[t]
        null = 1 << (8 * w - 1)

        def gen(rng, k, w=w, null=null):
            rs = rows(rng, w, [0, 1, 2, 3, 4, 7, null])
            m = rng.choice([0, 1, 2, 3, 4, 7, 12])
            return {'rows': rs, 'row': rng.randrange(len(rs)), 'needle': (text[:m] if rng.random() < .8 else rng.choice([b'b', b'ab\x00', b'aba', b'\xff'])).hex()}

        def test(nat, i, w=w, null=null, t=t):
            it, keep = chunk(i['rows'], w, False)
            nd = bytes.fromhex(i['needle'])
            for op, f in pyop.items():
                for q in ('any', 'all'):
                    fn = nat.get('array_%s_%s_str_%s' % (q, op, t))
                    fn.restype = ctypes.c_bool
                    fn.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_char_p, ctypes.c_uint32, ctypes.c_int64, CT[irty(t)]]
                    got = fn(ctypes.addressof(it), i['row'], nd, len(nd), 0, s_of(null, 8 * w))
                    hits = [x != null and f(text[:x], nd) for x in (i['rows'][i['row']] or [])]
                    want = any(hits) if q == 'any' else all(hits)
                    if bool(got) != want:
                        return '%s %s over strings of %s: %s, expected %s' % (q, op, t, bool(got), want)
        cs.append(Trial('array_any_eq_str_' + t, 'ANY/ALL over dictionary strings[%s]' % t, gen, test, 'arr', 'std::string and the dictionary are outside the verifier', n=60))
    for t in W:
        w = W[t]
        fp = t in FP
        null = (0x00800000 if w == 4 else 0x0010000000000000) if fp else 1 << (8 * w - 1)
        pool = [int.from_bytes(st.pack('<f' if w == 4 else '<d', x), 'little') for x in (0., 1., 2.5, -3.)] + [null] if fp else [0, 1, 2, 256**w - 1, null, null + 1, 5]

        def gen(rng, k, pool=pool, w=w):
            rs = rows(rng, w, pool)
            return {'rows': rs, 'row': rng.randrange(len(rs))}

        def test(nat, i, w=w, fp=fp, null=null, t=t):
            it, keep = chunk(i['rows'], w, fp)
            out = (ctypes.c_int64 * 64)()
            f = nat.get('v_distinct')
            f.restype = ctypes.c_size_t
            f.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int64, ctypes.c_void_p, ctypes.c_size_t]
            nv = st.unpack('<q', st.pack('<d', st.unpack('<f', null.to_bytes(4, 'little'))[0]))[0] if t == 'float' else s_of(null, 8 * w)
            n = f(ctypes.addressof(it), i['row'], -w if fp else w, nv, out, 64)

            def key(x):
                if t == 'float':
                    return st.unpack('<q', st.pack('<d', st.unpack('<f', x.to_bytes(4, 'little'))[0]))[0]
                return s_of(x, 8 * w)
            want = {key(x) for x in (i['rows'][i['row']] or []) if x != null}
            if set(out[:n]) != want or n != len(want):
                return 'distinct elements %s, expected %s' % (sorted(out[:n]), sorted(want))
        cs.append(Trial('agg_count_distinct_array_' + t, 'COUNT(DISTINCT) over array elements[%s]' % t, gen, test, 'arr', 'robin_hood::unordered_set is outside the verifier', n=60))
