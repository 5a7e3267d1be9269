"""C14: building join tables: row iteration, direct-indexed fill, match counts, row-id lists, keyed (composite) slots."""
from common import *
import ctypes
import os
import units

units.NATLINK['hj'] = ['-ltbb', '-lpthread']
ASSUMPTIONS = [
    'a column is a list of chunks with non-null buffers whose row counts add up to the column\'s row count; fewer than 2^31 rows, chunks and table slots',
    'every key that is inserted lies in the range the table was sized for (the caller computes the table size from the column range)',
    'one worker is verified at a time; workers handle disjoint rows and claim slots by atomic compare-and-swap, but their interleaving is not explored',
    'NULL translation value and string translation maps are as documented; a translation map covers the inner dictionary',
    'the hash function is an arbitrary total function of the key bytes; keys do not contain the empty-key or the write-pending marker; keyed tables are smaller than 4 GB',
]
Q = (0, 2**31 - 1)
I = z3.IntVal
JC = {'buf': (0, ('ptr', 'chunks')), 'sz': (8, 'i64'), 'nch': (16, 'i64'), 'n': (24, 'i64'), 'es': (32, 'i64')}
IT = {'jc': (0, ('ptr', 'jc')), 'ti': (8, ('ptr', 'ti')), 'arr': (16, ('ptr', 'chunks')), 'data': (24, 'ptr'), 'ioc': (32, 'i64'), 'ins': (40, 'i64'), 'index': (48, 'i64'), 'start': (56, 'i64'), 'step': (64, 'i64')}
TI = {'es': (0, 'i64'), 'min': (8, 'i64'), 'max': (16, 'i64'), 'null': (24, 'i64'), 'bw': (32, 'i8'), 'tnull': (40, 'i64'), 'ct': (48, 'i32')}


def contracts():
    cs = []
    iterator(cs)
    element(cs)
    init(cs)
    for bk in (False, True):
        for mp in (False, True):
            for semi in (False, True):
                fill(cs, bk, mp, semi)
            count(cs, bk, mp)
            rowids(cs, bk, mp)
    for mp in (False, True):
        for semi in (False, True):
            cpu(cs, mp, semi)
    for w in (4, 8):
        for kc in (1, 2, 3):
            for wv in (0, 1):
                for semi in (0, 1):
                    keyed(cs, w, kc, wv, semi)
                init_keyed(cs, w, kc, wv)
            lookup(cs, w, kc)
            for mode in ('none', 'all', 'mixed'):
                key_handler(cs, w, kc, mode)
    trials(cs)
    return cs


# ---------------------------------------------------------------- iteration over the rows of a chunked column
def iterator(cs):
    num = lambda c, i: z3.Select(c.o0['chunks'], 3 * i + 1)
    buf = lambda c, i: z3.Select(c.o0['chunks'], 3 * i)

    def prepare(c):
        c.P = c.fold('rows before chunk', I(0), lambda acc, i: acc + num(c, i))

    def hyp(c, i):
        """chunk i: buffer non-null, row count non-negative; the rows before chunk i are at most all rows"""
        if c.mode == 'conc':
            return
        c.assume(z3.Implies(z3.And(i >= 0, i < c.NCH), z3.And(num(c, i) >= 0, num(c, i) < 2**31, buf(c, i) != 0)))
        c.P.at(i)
        c.assume(z3.Implies(z3.And(i >= 0, i <= c.NCH), z3.And(c.P(i) >= 0, c.P(i) <= c.P(c.NCH))))
        c.assume(z3.Implies(z3.And(i >= 0, i < c.NCH), c.P(i + 1) <= c.P(c.NCH)))

    def base(c):
        if c.mode == 'conc':
            ok = all(0 <= c.inp['chunks'][3 * i + 1] < 2**31 and c.inp['chunks'][3 * i] for i in range(len(c.inp['chunks']) // 3))
            return [z3.BoolVal(ok), c.oldf('jc', 'nch') == c.NCH, c.oldf('jc', 'n') == c.P(c.NCH)]
        hyp(c, c.NCH)
        hyp(c, I(0))
        return [c.oldf('jc', 'nch') == c.NCH, c.oldf('jc', 'n') == c.P(c.NCH), c.P(c.NCH) < 2**31, c.NCH >= 1]

    def addr(c, p):
        if c.mode == 'conc' or not isinstance(p, Ptr):
            return p
        return c.ex.d.term(c.ex.ptr_int(p))

    def at(c, f, get):
        """the iterator stands at row `index`: get(field)"""
        data, ioc, ins = addr(c, get('data')), get('ioc'), get('ins')
        hyp(c, ioc)
        return [('at the row', z3.Implies(data != 0, z3.And(ioc >= 0, ioc < c.NCH, data == buf(c, ioc), ins >= 0, c.P(ioc) + ins == f))), ]

    def here(c, f, get):
        data, ioc, ins = addr(c, get('data')), get('ioc'), get('ins')
        return at(c, f, get) + [('inside the chunk', z3.Implies(data != 0, ins < num(c, ioc))), ('ends after the last row', z3.Implies(data == 0, f >= c.P(c.NCH))),
                                ('does not end early', z3.Implies(data != 0, f < c.P(c.NCH)))]
    new = lambda c: (lambda f: c.newf('it', f))
    old = lambda c: (lambda f: c.oldf('it', f))

    def inv(c, v):
        cell = lambda f: v.cell(c.objs['it'], IT[f][0])
        g = lambda f: (lambda x: x if isinstance(x, Ptr) else c.ex.d.term(x))(cell(f)[1] if isinstance(cell(f), tuple) else cell(f))
        data, ioc, ins = addr(c, g('data')), g('ioc'), g('ins')
        t = c.target()
        return at(c, t, g) + [('within', z3.And(ioc >= 0, ioc <= c.NCH, ins >= 0)), ('index', g('index') == t), ('end', z3.Implies(data == 0, z3.Or(c.P(ioc) + ins == t, c.oldnull()))),
                              ('end at last', z3.Implies(data == 0, z3.Or(ioc == c.NCH, c.oldnull())))]

    def gen(rng, i):
        n = rng.randint(1, 4)
        i['NCH'] = n
        sizes = [rng.choice([0, 1, 2, 3, 5]) for _ in range(n)]
        i['chunks'] = sum([[1000 + 100 * j, s, 0] for j, s in enumerate(sizes)], [])
        i['jc'] = dict(sz=0, nch=n, n=sum(sizes), es=8)
        N = sum(sizes)
        if 'st' in i:
            i['st'], i['sp'] = rng.randint(0, 6), rng.randint(1, 4)
            i['it'] = {f: 0 for f in IT if isinstance(IT[f][1], str)}
        else:
            r = rng.randint(0, N)
            it = dict(data=0, ioc=n, ins=0, index=r, start=0, step=rng.randint(0, 7))
            off = 0
            for j, s in enumerate(sizes):
                if off <= r < off + s:
                    it.update(data=1000 + 100 * j, ioc=j, ins=r - off)
                off += s
            i['it'] = it
        return i
    H = [('jc', Struct(JC, 40)), ('ti', Struct(TI, 56)), ('chunks', Arr(8, lambda c: 3 * c.NCH, ro=True)), ('NCH', 'i64')]

    def pre_next(c):
        c.target = lambda: c.oldf('it', 'index') + c.oldf('it', 'step')
        c.oldnull = lambda: addr(c, c.oldf('it', 'data')) == 0
        data = addr(c, c.oldf('it', 'data'))
        i = c.oldf('it', 'ioc')
        return base(c) + [f for _, f in here(c, c.oldf('it', 'index'), old(c))] + [
            c.oldf('it', 'step') >= 0, c.oldf('it', 'step') < 2**31, c.oldf('it', 'index') >= 0, c.oldf('it', 'index') < 2**32, c.oldf('it', 'ins') >= 0, c.oldf('it', 'ins') < 2**32, i >= 0, i <= c.NCH]

    def keep(c):
        return [('%s unchanged' % f, c.newf('it', f) == c.oldf('it', f)) for f in ('start', 'step')]

    def ended(c):
        return [('a finished iterator stays finished', z3.Implies(addr(c, c.oldf('it', 'data')) == 0, addr(c, c.newf('it', 'data')) == 0))]
    cs.append(Contract('v_iter_next', [('it', Struct(IT, 72))] + H, lambda c: [('index advances by step', c.newf('it', 'index') == c.target())] + here(c, c.target(), new(c)) + keep(c) + ended(c), pre=pre_next,
                       prepare=prepare, setup=lambda c, ex, mem, vals: [vals['it']], modifies=('it',), dom='int', ranges={'NCH': (1, 2**31)}, unit='hj', gen=gen, label='JoinColumnIterator::operator++',
                       loops=[LoopSpec(inv)], trusted=['prefix sums of non-negative chunk sizes are monotone (lemma instances)']))

    def pre_new(c):
        c.target = lambda: c.st
        c.oldnull = lambda: c.oldf('jc', 'n') == 0
        return base(c)
    cs.append(Contract('v_iter_new', [('it', Struct(IT, 72)), ('jc', Struct(JC, 40)), ('ti', Struct(TI, 56)), ('st', 'i64'), ('sp', 'i64'), ('chunks', Arr(8, lambda c: 3 * c.NCH, ro=True)), ('NCH', 'i64')],
                       lambda c: [('starts at the given row', c.newf('it', 'index') == c.st), ('step', c.newf('it', 'step') == c.sp)] + here(c, c.st, new(c)), pre=pre_new, prepare=prepare,
                       setup=lambda c, ex, mem, vals: [vals[x] for x in ('it', 'jc', 'ti', 'st', 'sp')], modifies=('it',), dom='int', ranges={'NCH': (1, 2**31), 'st': Q, 'sp': Q}, unit='hj', gen=gen,
                       label='JoinColumnIterator constructor', loops=[LoopSpec(inv)]))


# ---------------------------------------------------------------- decoding the element the iterator stands at
def element(cs):
    NI, NS = -2**31, -2**15

    def small(x, w):
        b = sx(x, 64)
        n = z3.BitVecVal(NI if w == 4 else NS, 64)
        return z3.If(b == n, n, b * 86400)
    spec = {0: (small, (2, 4)), 1: (lambda x, w: sx(x, 64), (1, 2, 4, 8)), 2: (lambda x, w: zx(x, 64), (1, 2, 4))}
    for ct, (f, ws) in spec.items():
        for w in ws:
            it = {**IT, 'data': (24, ('ptr', 'col')), 'jc': (0, 'i64'), 'arr': (16, 'i64')}

            def setup(c, ex, mem, vals, ct=ct, w=w):
                ti = mem[c.objs['ti']]
                ti[0] = (8, c.dom.const(64, w))
                ti[48] = (4, c.dom.const(32, ct))
                c.o0['ti'] = dict(ti)
                return [vals['it']]

            def gen(rng, i, ct=ct, w=w):
                n = i['N'] = rng.randint(1, 6)
                i['col'] = [rng.choice([interesting(rng, 8 * w), NI & (256**w - 1), NS & (256**w - 1)]) for _ in range(n)]
                i['it'].update(ins=rng.randint(0, n - 1))
                i['ti'].update(es=w, ct=ct, bw=0)
                return i
            nm = ['small date', 'signed', 'unsigned', 'double'][ct]
            cs.append(Contract('v_iter_elem', [('it', Struct(it, 72)), ('ti', Struct(TI, 56)), ('col', Arr(w, lambda c: c.N, ro=True)), ('N', 'i64')],
                               lambda c, f=f, w=w: [('the stored value', c.ret == f(z3.Select(c.o0['col'], c.oldf('it', 'ins')), w))], pre=lambda c: [z3.ULT(c.N, 1 << 40), z3.ULT(c.oldf('it', 'ins'), c.N)],
                               setup=setup, unit='hj', gen=gen, label='JoinColumnIterator element[%s %d]' % (nm, w)))
    cs.append(Contract('v_iter_index', [('it', Struct({**IT, 'data': (24, ('ptr', 'col')), 'jc': (0, 'i64'), 'arr': (16, 'i64')}, 72)), ('ti', Struct(TI, 56)), ('col', Arr(8, lambda c: c.N, ro=True)), ('N', 'i64')],
                       lambda c: [('row number', c.ret == c.oldf('it', 'index'))], pre=lambda c: [z3.ULT(c.N, 1 << 40), z3.ULT(c.oldf('it', 'ins'), c.N)], unit='hj', label='JoinColumnIterator row number',
                       setup=lambda c, ex, mem, vals: (mem[c.objs['ti']].update({0: (8, c.dom.const(64, 8)), 48: (4, c.dom.const(32, 1))}), c.o0.update(ti=dict(mem[c.objs['ti']])), [vals['it']])[2],
                       gen=lambda rng, i: {**i, 'N': 3, 'col': [1, 2, 3], 'it': {**i['it'], 'ins': 1}, 'ti': {**i['ti'], 'es': 8, 'ct': 1, 'bw': 0}}))


# ---------------------------------------------------------------- one worker over its rows: the iterator by its contract
ITER = '_ZN18JoinColumnIterator'
JCV = {k: (o, 'i64') for k, (o, _) in JC.items()}


def fld(ex, mem, g, p, off, ty='i64'):
    return ex.load(mem, g, Ptr([(gg, o, ex.off_add(f, off, [])) for gg, o, f in p.cs]), ty)


def put(ex, mem, g, p, off, v, ty='i64'):
    ex.store(mem, g, Ptr([(gg, o, ex.off_add(f, off, [])) for gg, o, f in p.cs]), v, ty)


def m_new(c, ex, i, a, mem, g):
    """constructor contract: stands at row `start`; the column and type given are the caller's"""
    it, jc, ti, st, sp = a
    for n, p, fs in (('jc', jc, JCV), ('ti', ti, TI)):
        for f, (o, ty) in fs.items():
            v = fld(ex, mem, g, p, o, ty)
            ex.oblige('iterator over the given column (%s.%s)' % (n, f), 'pre', g, ex.d.term(v) == c.oldf(n, f))
    ex.oblige('iterator start', 'pre', g, z3.And(ex.d.term(st) >= 0, ex.d.term(st) < 2**31))
    ex.oblige('iterator step', 'pre', g, z3.And(ex.d.term(sp) >= 1, ex.d.term(sp) < 2**31))
    put(ex, mem, g, it, 0, jc, 'ptr')
    put(ex, mem, g, it, 8, ti, 'ptr')
    put(ex, mem, g, it, 24, P(c.objs['col']), 'ptr')
    put(ex, mem, g, it, 48, st)
    put(ex, mem, g, it, 56, st)
    put(ex, mem, g, it, 64, sp)
    c.g['it'] = it.cs[0][1]
    return None, mem, g


def m_next(c, ex, i, a, mem, g):
    put(ex, mem, g, a[0], 48, ex.d.bin('add', 64, fld(ex, mem, g, a[0], 48), fld(ex, mem, g, a[0], 64)))
    return a[0], mem, g


def m_valid(c, ex, i, a, mem, g):
    """valid exactly while the row number is below the row count; a default-constructed iterator is invalid"""
    p = fld(ex, mem, g, a[0], 24, 'ptr')
    if all(o is None for _, o, _ in p.cs):
        return z3.BoolVal(False), mem, g
    return ex.d.term(fld(ex, mem, g, a[0], 48)) < c.N, mem, g


def m_deref(c, ex, i, a, mem, g):
    ix = fld(ex, mem, g, a[0], 48)
    t = ex.d.term(ix)
    ex.oblige('dereferences a valid iterator', 'pre', g, z3.And(t >= 0, t < c.N))
    return [ix, ex.aread(c.o0['col'], ix, 8, c.objs['col'])], mem, g


MODELS = {ITER + 'C2EPK10JoinColumnPK18JoinColumnTypeInfomm': m_new, ITER + 'C1EPK10JoinColumnPK18JoinColumnTypeInfomm': m_new, ITER + 'ppEv': m_next,
          '_ZNK18JoinColumnIteratorcvbEv': m_valid, '_ZNK18JoinColumnIteratordeEv': m_deref}


class Rows:
    """ghost view: row -> key and slot; worker's k-th row; match counts"""

    def __init__(self, c, bk, mp):
        self.c, self.bk, self.mp = c, bk, mp
        self.ROW = z3.Function('row', z3.IntSort(), z3.IntSort())
        self.CNT = z3.Function('matches', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.K = z3.Int('rows of this worker')
        self.SLOT = z3.Function('slot of row', z3.IntSort(), z3.IntSort())
        self.INS = z3.Function('row is inserted', z3.IntSort(), z3.BoolSort())

    def key(self, r):
        """(eligible, key)"""
        c = self.c
        t = lambda f: c.oldf('ti', f)
        e = z3.Select(c.o0['col'], r)
        nul = e == t('null')
        k = z3.If(nul, t('tnull'), e)
        el = z3.Or(z3.Not(nul), t('bw') != 0)
        if self.mp:
            dm = z3.Or(t('bw') == 0, k != t('tnull'))
            o = z3.Select(c.o0['map'], k)
            el = z3.And(el, z3.Or(z3.Not(dm), z3.And(o >= t('min'), o <= t('max'), o != -1)))
            k = z3.If(dm, o, k)
        return el, k

    def slot_def(self, r):
        x = self.key(r)[1] - self.c.oldf('ti', 'min')
        return x / self.c.norm if self.bk else x

    def ok_def(self, r):
        return z3.And(r >= 0, r < self.c.N, self.key(r)[0])

    def slot(self, r):
        return self.slot_def(r) if self.c.mode == 'conc' else self.SLOT(r)

    def ok(self, r):
        """row r is inserted"""
        return self.ok_def(r) if self.c.mode == 'conc' else self.INS(r)

    def pre(self):
        c = self.c
        t = lambda f: c.oldf('ti', f)
        B = 2**61
        out = [z3.And(t(f) > -B, t(f) < B) for f in ('min', 'max', 'tnull')] + [z3.Or(t('bw') == 0, t('bw') == 1), c.inv < 0]
        if c.mode == 'conc':
            for r in range(c.N.as_long()):
                r = I(r)
                out += self.need(r)
        else:
            self.mono(I(0), self.K)
            out += [self.K >= 0, self.ROW(I(0)) == c.idx, self.ROW(self.K) >= c.N, z3.Implies(self.K > 0, self.ROW(self.K - 1) < c.N)]
            self.mono(self.K - 1, self.K)
        return out

    def need(self, r):
        """what the caller guarantees of row r"""
        c = self.c
        t = lambda f: c.oldf('ti', f)
        e = z3.Select(c.o0['col'], r)
        inr = z3.And(r >= 0, r < c.N)
        x = self.key(r)[1] - t('min')
        out = [z3.Implies(inr, z3.And(e > -2**62, e < 2**62)), z3.Implies(self.ok(r), z3.And(x >= 0, self.slot(r) >= 0, self.slot(r) < c.S))]
        if self.mp:
            nul = e == t('null')
            k = z3.If(nul, t('tnull'), e)
            dm = z3.And(z3.Or(z3.Not(nul), t('bw') != 0), z3.Or(t('bw') == 0, k != t('tnull')))
            out.append(z3.Implies(z3.And(inr, dm), z3.And(k >= 0, k < c.map_n)))
        return out

    def hyp(self, r):
        if self.c.mode != 'conc':
            self.c.assume(self.SLOT(r) == self.slot_def(r))
            self.c.assume(self.INS(r) == self.ok_def(r))
            for f in self.need(r):
                self.c.assume(f)

    def mono(self, a, b):
        """row(k) = start + k*step with step >= 1"""
        c = self.c
        R = self.ROW
        c.assume(z3.Implies(z3.And(a >= 0, a < b), R(a) + c.cnt <= R(b)))
        c.assume(z3.Implies(z3.And(b >= 0, b < a), R(b) + c.cnt <= R(a)))
        for x in (a, b):
            c.assume(z3.Implies(x >= 0, z3.And(R(x) >= c.idx, R(x) >= x)))

    def step(self, k):
        self.c.assume(z3.Implies(k >= 0, self.ROW(k + 1) == self.ROW(k) + self.c.cnt))

    def cnt(self, q, k):
        """unfold the match count of slot q at k"""
        c, C = self.c, self.CNT
        r = self.ROW(k)
        c.assume(C(q, I(0)) == 0)
        c.assume(z3.Implies(k >= 0, z3.And(C(q, k) >= 0, C(q, k) <= k)))
        c.assume(z3.Implies(k >= 0, C(q, k + 1) == C(q, k) + z3.If(z3.And(self.ok(r), self.slot(r) == q), I(1), I(0))))
        c.assume(z3.Implies(z3.And(k >= 0, k < self.K), C(q, k + 1) <= C(q, self.K)))

    def index(self, mem):
        return self.c.ex.d.term(mem[self.c.g['it']][48][1])

    def rowinv(self, v):
        self.hyp(self.ROW(v.k))
        self.step(v.k)
        self.mono(v.k, self.K)
        self.mono(v.k - 1, self.K)
        self.mono(v.k, self.K - 1)
        if z3.is_const(v.k) and not z3.is_int_value(v.k):
            self.c.assume(z3.Implies(v.k >= 1, self.ROW(v.k) == self.ROW(v.k - 1) + self.c.cnt))
        return [('row', self.index(v.mem) == self.ROW(v.k)), ('previous rows valid', z3.Or(v.k == 0, self.ROW(v.k) - self.c.cnt < self.c.N)), ('counted', v.k <= self.K)]

    def final_k(self):
        """rows of the worker in order (concrete)"""
        c = self.c
        return range(c.idx.as_long(), c.N.as_long(), c.cnt.as_long())


def vals(c, n):
    m = z3.simplify(c.v[n + '_n']).as_long()
    return lambda a: [z3.simplify(z3.Select(a, I(j))).as_long() for j in range(m)]


def nat(native, con, mod, inp):
    """call the function on a real chunked column of 8-byte signed values"""
    import struct as st
    f = native.get(con.fn)
    col = [s_of(x, 64) for x in inp['col']]
    cuts = inp.get('cuts') or [len(col)]
    keep, chunks, off = [], b'', 0
    for n in cuts:
        b = ctypes.create_string_buffer(st.pack('<%dq' % n, *col[off:off + n]) + b'\0' * 8)
        keep.append(b)
        chunks += st.pack('<QQQ', ctypes.addressof(b), n, off)
        off += n
    ch = ctypes.create_string_buffer(chunks)
    jc = ctypes.create_string_buffer(st.pack('<QQQQQ', ctypes.addressof(ch), len(chunks), len(cuts), len(col), 8))
    t = inp['ti']
    ti = ctypes.create_string_buffer(st.pack('<QqqqQqi', 8, *[s_of(t[x], 64) for x in ('min', 'max', 'null')], t['bw'] & 1, s_of(t['tnull'], 64), 1) + b'\0' * 8)
    bufs, args = {}, []
    fn = mod.fn(con.fn)
    for n, k in con.params[:len(fn.args)]:
        if n == 'jc':
            args.append(ctypes.c_void_p(ctypes.addressof(jc)))
        elif n == 'ti':
            args.append(ctypes.c_void_p(ctypes.addressof(ti)))
        elif isinstance(k, Null):
            args.append(ctypes.c_void_p(0))
        elif isinstance(k, Lit):
            args.append(native.scalar(k.ty, k.val))
        elif isinstance(k, Arr):
            raw = b''.join((x & (256**k.ew - 1)).to_bytes(k.ew, 'little') for x in inp[n])
            bufs[n] = ctypes.create_string_buffer(raw + b'\xa5' * 64, len(raw) + 64)
            args.append(ctypes.c_void_p(ctypes.addressof(bufs[n])))
        else:
            args.append(native.scalar(k, inp[n]))
    f.argtypes = [type(a) for a in args]
    f.restype = CT.get(fn.ret) if fn.ret != 'void' else None
    rv = f(*args)
    return {'ret': None if fn.ret == 'void' else int(rv), 'bufs': {n: bytes(b.raw) for n, b in bufs.items()}, 'addr': {n: ctypes.addressof(b) for n, b in bufs.items()}}


def common_gen(bk, mp):
    def gen(rng, i):
        norm = rng.choice([1, 2, 86400]) if bk else 1
        mn = rng.randint(-3, 3) * norm
        S = i['S'] = rng.randint(1, 9)
        N = rng.randint(0, 8)
        hi = mn + S * norm - 1
        ti = dict(es=8, min=mn, max=hi, null=-2**63 & (2**64 - 1), bw=rng.randint(0, 1), tnull=hi, ct=1)
        if rng.random() < .3:
            ti['null'] = mn & (2**64 - 1)
        ti = {k: v & (2**64 - 1) for k, v in ti.items()}
        if mp:
            M = S + 2
            i['map'] = [rng.choice([-1, rng.randint(mn - 1, hi + 1), hi]) & 0xffffffff for _ in range(M)]
            i['col'] = [rng.randint(0, M - 1) for _ in range(N)]
        else:
            xs = [rng.randint(mn, hi) for _ in range(N)]
            if rng.random() < .5:
                xs = [mn + norm * j for j in rng.sample(range(S), min(S, N))]
                N = len(xs)
            i['col'] = [x & (2**64 - 1) for x in xs]
        i['col'] = [ti['null'] if rng.random() < .15 else x for x in i['col']]
        i.update(N=N, ti=ti, jc={k: 0 for k in JCV}, idx=rng.randint(0, 2), cnt=rng.randint(1, 3), inv=0xffffffff)
        if bk:
            i['norm'] = norm
        cuts, left = [], N
        while left:
            n = rng.randint(0, left)
            cuts.append(n)
            left -= n
        i['cuts'] = cuts or [0]
        return i
    return gen


def hidden(con_names):
    return lambda c, ex, mem, vals: [vals[n] for n in con_names]


def params(first, bk, mp):
    ps = first + [('jc', Struct(JCV, 40)), ('ti', Struct(TI, 56)), ('map', Arr(4, lambda c: c.M, ro=True) if mp else Null()), ('idx', 'i32'), ('cnt', 'i32')]
    if bk:
        ps.append(('norm', 'i64'))
    names = [n for n, _ in ps]
    ps += [('col', Arr(8, lambda c: c.N, ro=True)), ('N', 'i64'), ('S', 'i64')] + ([('M', 'i64')] if mp else [])
    return ps, names


RG = {'idx': Q, 'cnt': (1, 2**31 - 1), 'norm': (1, 2**60), 'N': Q, 'S': Q, 'M': Q}


def tag(bk, mp):
    return ('_bucketized' if bk else '') + ('[translated strings' if mp else '[values')


def fill(cs, bk, mp, semi):
    ps, names = params([('buff', Arr(4, lambda c: c.S)), ('inv', 'i32'), ('semi', Lit('i1', int(semi)))], bk, mp)
    DIST = z3.Bool('distinct')

    def prepare(c):
        c.R = Rows(c, bk, mp)
        c.DIST = DIST

    def pre(c):
        out = c.R.pre() + [c.N >= 0]
        if mp and c.mode == 'conc':
            out.append(c.M == c.map_n)
        return out

    def A(c, b, k):
        R = c.R
        k0 = c.sk('k0')
        r0 = R.ROW(k0)
        s0 = R.slot(r0)
        R.hyp(r0)
        did = z3.And(k0 >= 0, k0 < k, R.ok(r0))
        if semi:
            return z3.Implies(did, z3.Select(b, s0) != c.inv)
        return z3.Implies(did, z3.And(z3.Select(b, s0) == r0, z3.Select(c.o0['buff'], s0) == c.inv))

    def B(c, b, lim=None):
        R = c.R
        q = c.sk('q')
        r = z3.Select(b, q)
        new = z3.And(z3.Select(c.o0['buff'], q) == c.inv, R.ok(r), R.slot(r) == q)
        if lim is not None:
            new = z3.And(new, r < lim)
        return z3.Or(z3.Select(b, q) == z3.Select(c.o0['buff'], q), new)

    def inv(c, v):
        R = c.R
        k0 = c.sk('k0')
        r0 = R.ROW(k0)
        b = v.arr(c.objs['buff'])
        out = R.rowinv(v)
        R.mono(v.k, k0)
        R.hyp(r0)
        rr = z3.Select(b, R.slot(r0))
        # distinct: no slot is claimed twice, and all claimed slots start out invalid
        c.assume(z3.Implies(z3.And(c.DIST, R.ok(r0)), z3.And(z3.Select(c.o0['buff'], R.slot(r0)) == c.inv, z3.Implies(z3.And(R.ok(rr), R.slot(rr) == R.slot(r0)), rr == r0))))
        out += [('rows done are in the table', A(c, b, v.k)), ('every entry is old or a row of its slot', B(c, b, R.ROW(v.k)))]
        return out

    def post(c):
        R = c.R
        if c.mode == 'conc':
            b = vals(c, 'buff')(c.o0['buff'])
            iv, ret = c.inv.as_long(), 0
            for r in R.final_k():
                if z3.is_true(z3.simplify(R.key(I(r))[0])):
                    s = z3.simplify(R.slot(I(r))).as_long()
                    if b[s] == iv:
                        b[s] = r
                    elif not semi:
                        ret = -1
                        break
            got = vals(c, 'buff')(c.o1['buff'])
            return [('returns -1 exactly for a duplicate key', c.ret == ret), ('the table holds the rows', z3.BoolVal(got == b))]
        b = c.o1['buff']
        k0, q = c.sk('k0'), c.sk('q')
        r0 = R.ROW(k0)
        R.mono(R.K, k0)
        fin = R.index(c.mem1)
        out = [('every row of the worker is in the table', z3.Implies(c.ret == 0, A(c, b, R.K))), ('every entry is old or a row of its slot', B(c, b)),
               ('result', z3.Or(c.ret == 0, c.ret == -1) if not semi else c.ret == 0)]
        if not semi:
            out += [('no error without duplicates', z3.Implies(z3.And(c.DIST, k0 >= 0, fin == r0), c.ret == 0)),
                    ('an error is reported only for an occupied slot', z3.Implies(z3.And(c.ret == -1, k0 >= 0, fin == r0), z3.And(R.ok(r0), z3.Select(b, R.slot(r0)) != c.inv)))]
        return out

    def gen(rng, i):
        i = common_gen(bk, mp)(rng, i)
        i['buff'] = [0xffffffff if rng.random() < .9 else 50 for _ in range(i['S'])]
        if mp:
            i['M'] = len(i['map'])
        return i
    cs.append(Contract('v_fill' + ('_bucketized' if bk else ''), ps, post, pre=pre, prepare=prepare, setup=hidden(names), modifies=('buff',), dom='int', ranges=RG, unit='hj', gen=gen, native=nat, models=MODELS, bmc=0,
                       label='fill_hash_join_buff%s%s]' % (tag(bk, mp), ', semi join' if semi else ''), loops=[LoopSpec(inv, inst=lambda c, v: [(c.sk('q'), c.R.slot(c.R.ROW(c.sk('k0'))))])]))


def count(cs, bk, mp):
    ps, names = params([('buff', Arr(4, lambda c: c.S)), ('inv', 'i32')], bk, mp)

    def prepare(c):
        c.R = Rows(c, bk, mp)

    def room(c, q):
        o = z3.Select(c.o0['buff'], q)
        c.assume(z3.Implies(z3.And(q >= 0, q < c.S), z3.And(o >= 0, o + c.N < 2**31)))

    def pre(c):
        out = c.R.pre()
        if c.mode == 'conc':
            return out + [z3.Select(c.o0['buff'], I(j)) >= 0 for j in range(c.S.as_long())] + ([c.M == c.map_n] if mp else [])
        room(c, c.sk('q'))
        c.R.cnt(c.sk('q'), c.R.K)
        return out

    def inv(c, v):
        R = c.R
        q = c.sk('q')
        b = v.arr(c.objs['buff'])
        out = R.rowinv(v)
        R.cnt(q, v.k)
        s = R.slot(R.ROW(v.k))
        room(c, s)
        R.cnt(s, v.k)
        return out + [('matches so far', z3.Select(b, q) == z3.Select(c.o0['buff'], q) + R.CNT(q, v.k))]

    def post(c):
        R = c.R
        if c.mode == 'conc':
            b = vals(c, 'buff')(c.o0['buff'])
            for r in R.final_k():
                if z3.is_true(z3.simplify(R.key(I(r))[0])):
                    b[z3.simplify(R.slot(I(r))).as_long()] += 1
            return [('each slot counts its rows', z3.BoolVal(vals(c, 'buff')(c.o1['buff']) == b))]
        q = c.sk('q')
        return [('each slot counts its rows', z3.Select(c.o1['buff'], q) == z3.Select(c.o0['buff'], q) + R.CNT(q, R.K))]

    def gen(rng, i):
        i = common_gen(bk, mp)(rng, i)
        i['buff'] = [rng.randint(0, 3) for _ in range(i['S'])]
        if mp:
            i['M'] = len(i['map'])
        return i
    cs.append(Contract('v_count' + ('_bucketized' if bk else ''), ps, post, pre=pre, prepare=prepare, setup=hidden(names), modifies=('buff',), dom='int', ranges=RG, unit='hj', gen=gen, native=nat, models=MODELS, bmc=0,
                       label='count_matches%s]' % tag(bk, mp), loops=[LoopSpec(inv, inst=lambda c, v: [(c.sk('q'), c.R.slot(c.R.ROW(v.k)))])]))


def rowids(cs, bk, mp):
    ps, names = params([('buff', Arr(4, lambda c: 2 * c.S + c.T)), ('n', 'i64'), ('inv', 'i32')], bk, mp)
    ps.append(('T', 'i64'))

    def prepare(c):
        c.R = Rows(c, bk, mp)
    pos = lambda c, s: z3.Select(c.o0['buff'], s)
    c0 = lambda c, s: z3.Select(c.o0['buff'], c.S + s)
    hi = lambda c, s: pos(c, s) + c0(c, s) + c.R.CNT(s, c.R.K)

    def lay(c, s, t=None):
        """caller: slot s owns positions pos..hi-1 of the id area; different slots own disjoint ranges"""
        c.assume(z3.Implies(z3.And(s >= 0, s < c.S, c.R.CNT(s, c.R.K) > 0), z3.And(pos(c, s) >= 0, c0(c, s) >= 0, hi(c, s) <= c.T, hi(c, s) < 2**31)))
        if t is not None:
            both = z3.And(s >= 0, s < c.S, t >= 0, t < c.S, s != t, c.R.CNT(s, c.R.K) > 0, c.R.CNT(t, c.R.K) > 0)
            c.assume(z3.Implies(both, z3.Or(hi(c, s) <= pos(c, t), hi(c, t) <= pos(c, s))))

    def plan(c):
        """concrete: rows per slot, or None if the layout does not fit"""
        R, S = c.R, c.S.as_long()
        b = vals(c, 'buff')(c.o0['buff'])
        cnt = [0] * S
        rows = []
        for r in R.final_k():
            if z3.is_true(z3.simplify(R.key(I(r))[0])):
                s = z3.simplify(R.slot(I(r))).as_long()
                rows.append((r, s))
                cnt[s] += 1
        iv = [(b[s], b[s] + b[S + s] + cnt[s]) for s in range(S) if cnt[s]]
        ok = all(0 <= l and h <= c.T.as_long() for l, h in iv) and all(b[S + s] >= 0 for s in range(S)) and all(h1 <= l2 or h2 <= l1 for a, (l1, h1) in enumerate(iv) for l2, h2 in iv[a + 1:])
        return b, rows, ok

    def pre(c):
        out = c.R.pre() + [c.n == c.S]
        if c.mode == 'conc':
            return out + [z3.BoolVal(plan(c)[2])] + ([c.M == c.map_n] if mp else [])
        R = c.R
        R.cnt(c.sk('q'), R.K)
        return out

    def target(c):
        R = c.R
        k0 = c.sk('k0')
        s0 = R.slot(R.ROW(k0))
        R.hyp(R.ROW(k0))
        R.cnt(s0, k0)
        lay(c, s0)
        return s0, 2 * c.S + pos(c, s0) + c0(c, s0) + R.CNT(s0, k0)

    def ids(c, b, k):
        R = c.R
        k0 = c.sk('k0')
        s0, p0 = target(c)
        return z3.Implies(z3.And(k0 >= 0, k0 < k, R.ok(R.ROW(k0))), z3.Select(b, p0) == R.ROW(k0))

    def other(c, b):
        R = c.R
        p = c.sk('p')
        r = z3.Select(b, 2 * c.S + p)
        s = R.slot(r)
        return z3.Implies(z3.And(p >= 0, p < c.T), z3.Or(r == z3.Select(c.o0['buff'], 2 * c.S + p), z3.And(R.ok(r), pos(c, s) + c0(c, s) <= p, p < hi(c, s))))

    def inv(c, v):
        R = c.R
        q, k0 = c.sk('q'), c.sk('k0')
        b = v.arr(c.objs['buff'])
        out = R.rowinv(v)
        R.mono(v.k, k0)
        R.cnt(q, v.k)
        s = R.slot(R.ROW(v.k))
        R.cnt(s, v.k)
        s0, p0 = target(c)
        R.cnt(s0, v.k)
        c.assume(z3.Implies(z3.And(k0 >= 0, k0 < v.k), R.CNT(s0, k0 + 1) <= R.CNT(s0, v.k)))
        c.assume(z3.Implies(z3.And(k0 >= 0, k0 < v.k + 1), R.CNT(s0, k0 + 1) <= R.CNT(s0, v.k + 1)))
        lay(c, s, s0)
        inq = z3.And(q >= 0, q < c.S)
        return out + [('positions kept', z3.Implies(inq, z3.Select(b, q) == pos(c, q))), ('matches so far', z3.Implies(inq, z3.Select(b, c.S + q) == c0(c, q) + R.CNT(q, v.k))),
                      ('rows done are in their lists', ids(c, b, v.k)), ('other ids kept', other(c, b))]

    def post(c):
        R = c.R
        if c.mode == 'conc':
            b, rows, ok = plan(c)
            S = c.S.as_long()
            for r, s in rows:
                b[2 * S + b[s] + b[S + s]] = r
                b[S + s] += 1
            return [('each slot lists its rows', z3.BoolVal(vals(c, 'buff')(c.o1['buff']) == b))]
        b, q, k0 = c.o1['buff'], c.sk('q'), c.sk('k0')
        R.mono(R.K, k0)
        inq = z3.And(q >= 0, q < c.S)
        return [('every row of the worker is in the list of its slot', ids(c, b, R.K)), ('each slot counts its rows', z3.Implies(inq, z3.Select(b, c.S + q) == c0(c, q) + R.CNT(q, R.K))),
                ('list positions unchanged', z3.Implies(inq, z3.Select(b, q) == pos(c, q))), ('nothing else in the lists changes', other(c, b))]

    def gen(rng, i):
        i = common_gen(bk, mp)(rng, i)
        S = i['n'] = i['S']
        p, off, cnt = [], 0, []
        for s in range(S):
            p.append(off)
            cnt.append(rng.choice([0, 0, 1]))
            off += i['N'] + cnt[-1]
        i['T'] = off
        i['buff'] = p + cnt + [77] * off
        if mp:
            i['M'] = len(i['map'])
        return i
    cs.append(Contract('v_rowids' + ('_bucketized' if bk else ''), ps, post, pre=pre, prepare=prepare, setup=hidden(names), modifies=('buff',), dom='int', ranges={**RG, 'T': Q}, unit='hj', gen=gen, native=nat, models=MODELS,
                       bmc=0, label='fill_row_ids%s]' % tag(bk, mp), loops=[LoopSpec(inv, inst=lambda c, v: [(c.sk('q'), c.R.slot(c.R.ROW(v.k)))])]))


# ---------------------------------------------------------------- tables with composite keys
E = {4: 2**31 - 1, 8: 2**63 - 1}


class KP(Probe):
    def hyp(self, s):
        lem(self.c, s, self.rs)
        return super().hyp(s)

    def facts(self):
        if self.c.mode != 'conc':
            lem(self.c, self.F, self.rs)
            lem(self.c, self.h, self.rs)
        return super().facts()


def lem(c, s, rs):
    """s < n -> s*rs + rs <= n*rs (rs is a constant here)"""
    if c.mode != 'conc':
        c.assume(z3.Implies(z3.And(s >= 0, s < c.n), z3.And(s * rs >= 0, s * rs + rs <= c.n * rs)))


def kprobe(c, w, kc, rs, ends_at_empty=True):
    b, k = c.o0['b'], c.o0['k']
    p = KP.__new__(KP)
    p.rs = rs
    p.at = lambda s: s * rs
    p.empty = lambda s: z3.Select(b, s * rs) == E[w]
    match = lambda s: AND(*[z3.Select(b, s * rs + j) == z3.Select(k, I(j)) for j in range(kc)])
    Probe.__init__(p, c, c.n, hashof(c, 'k', w), (lambda s: z3.Or(p.empty(s), match(s))) if ends_at_empty else match, (lambda s: z3.Select(b, s * rs) != E[w] - 1) if ends_at_empty else None)
    return p


def allb(c, f):
    return c.forall('j', c.b_n, lambda j: z3.Select(c.o1['b'], j) == f(j, z3.Select(c.o0['b'], j)))


def kpre(p, c, w, kc):
    return p.facts() + [z3.And(z3.Select(c.o0['k'], I(j)) != E[w], z3.Select(c.o0['k'], I(j)) != E[w] - 1) for j in range(kc)]


def kgen(w, kc, rs, inv, full=False):
    def gen(rng, i):
        n = i['n'] = rng.randint(1, 5)
        K = lambda: [rng.choice([0, 1, 2, -1 & (256**w - 1)]) for _ in range(kc)]
        i['k'] = K()
        rows = [rng.choice([K(), K(), [E[w]] * kc, i['k']]) for _ in range(n)]
        if full and i['k'] not in rows:
            rows[rng.randrange(n)] = i['k']
        i['b'] = sum([r + [rng.choice([(inv or 0) & (256**w - 1), 5])] * (rs - kc) for r in rows], [])
        if inv is not None:
            i['inv'] = inv & 0xffffffff
        return i
    return gen


def keyed(cs, w, kc, wv, semi):
    rs = kc + wv

    def post(c):
        p = kprobe(c, w, kc, rs)
        k, b = c.o0['k'], c.o0['b']

        def upd(s):
            def f(j, o):
                r = o
                for i in range(kc):
                    r = z3.If(j == p.at(s) + i, z3.Select(k, I(i)), r)
                r = z3.If(p.empty(s), r, o)
                if wv:
                    r = z3.If(z3.And(j == p.at(s) + kc, o == c.inv), c.val, r)
                return r
            return f

        def ret(s):
            if not wv or semi:
                return c.ret == 0
            return c.ret == z3.If(z3.Select(b, p.at(s) + kc) == c.inv, I(0), I(-1))
        return [('result: ' + n, f) for n, f in p.found(ret, c.ret == -2)] + [('table: ' + n, f) for n, f in p.found(lambda s: allb(c, upd(s)), allb(c, lambda j, o: o))]
    fn = 'v_write%s%d' % ('_semi' if semi else '', 8 * w)
    cs.append(Contract(fn, [('val', 'i32'), ('b', Arr(w, lambda c: c.n * rs)), ('n', 'i64'), ('k', Arr(w, kc, ro=True)), ('kc', Lit('i64', kc)), ('wv', Lit('i1', wv)), ('inv', 'i32'), ('kb', Lit('i64', kc * w)), ('eb', Lit('i64', rs * w))],
                       post, pre=lambda c: kpre(kprobe(c, w, kc, rs), c, w, kc), modifies=('b',), dom='int', ranges={'n': (1, (2**31 - 1) // (rs * w))}, unit='hj', gen=kgen(w, kc, rs, -1),
                       models={'_Z15MurmurHash1ImplPKvij': mhash('k', w * kc)}, label='write_baseline_hash_slot%s[%d x %d bytes%s]' % ('_for_semi_join' if semi else '', kc, w, ', with row slot' if wv else ''),
                       loops=[LoopSpec(lambda c, v: [('table unchanged while searching', v.arr(c.objs['b']) == c.o0['b'])] + kprobe(c, w, kc, rs).inv(v), try_unroll=4)]))


def lookup(cs, w, kc):
    def mk(c):
        return kprobe(c, w, kc, kc, False)

    def pre(c):
        p = mk(c)
        return p.facts() + [z3.BoolVal(p.search() is not None) if c.mode == 'conc' else p.A]
    cs.append(Contract('v_find%d' % (8 * w), [('k', Arr(w, kc, ro=True)), ('kc', Lit('i64', kc)), ('b', Arr(w, lambda c: c.n * kc, ro=True)), ('n', 'i64'), ('kb', Lit('i64', kc * w))],
                       lambda c: mk(c).found(lambda s: ptr_at(c, 'b', w * kc * s), z3.BoolVal(False)), pre=pre, dom='int', ranges={'n': (1, (2**31 - 1) // (kc * w))}, unit='hj', gen=kgen(w, kc, kc, None, True),
                       models={'_Z15MurmurHash1ImplPKvij': mhash('k', w * kc)}, label='get_matching_baseline_hash_slot_readonly[%d x %d bytes]' % (kc, w),
                       loops=[LoopSpec(lambda c, v: mk(c).inv(v), try_unroll=4)]))


def init_keyed(cs, w, kc, wv):
    rs = kc + wv
    final = lambda c, o, j: z3.If(j % rs < kc, I(E[w]), c.inv) if rs > 1 or not wv else c.inv

    def inv(c, v):
        j = c.sk('j')
        a, old = v.arr(c.objs['b']), c.o0['b']
        out = []
        inb = z3.And(j >= 0, j < c.n * rs)
        for nm, t in [('k', v.k)] + int_phis(v):
            for d in range(rs + 1):
                out.append(('done below %d*%s+%d' % (rs, nm, d), z3.Select(a, j) == z3.If(z3.And(inb, j < rs * t + d), final(c, 'b', j), z3.Select(old, j))))
            out.append(('in table ' + nm, z3.And(t >= 0, t <= c.n)))
        return out
    cs.append(Contract('v_init_keyed%d' % (8 * w), [('b', Arr(w, lambda c: c.n * rs)), ('n', 'i64'), ('kc', Lit('i64', kc)), ('wv', Lit('i1', wv)), ('inv', 'i32')],
                       lambda c: [('every entry is empty', c.forall('j', c.b_n, lambda j: z3.Select(c.o1['b'], j) == final(c, 'b', j)))], modifies=('b',), dom='int', ranges={'n': (0, 2**31)}, unit='hj',
                       label='init_baseline_hash_join_buff_%d[%d keys%s]' % (8 * w, kc, ', with row slot' if wv else ''), models={'v_split': split}, loops=[LoopSpec(inv, bounds=True, range=(0, 2**33), try_unroll=4)],
                       gen=lambda rng, i: {**i, 'n': 3, 'b': [rng.randint(0, 9) for _ in range(3 * rs)]}))


# ---------------------------------------------------------------- empty tables
def split(c, ex, i, a, mem, g):
    """an arbitrary number from 1 to n"""
    v = ex.d.fresh(ex.fresh('split'), 64, 1, a[0].hi)
    ex.facts.append(z3.Implies(g, ex.d.term(v) <= ex.d.term(a[0])))
    return v, mem, g


INITCPU = '_ZN12_GLOBAL__N_123init_hash_join_buff_cpuEPiill'


def stream(c, ex, i, a, mem, g):
    """non-temporal store of 64 bytes to a 64-byte aligned address"""
    ex.oblige('aligned non-temporal store', 'safety', g, ex.d.term(ex.ptr_int(a[0])) % 64 == 0)
    ex.store_vec(mem, g, a[0], ex.load_vec(mem, g, a[1], '<8xi64>'))
    return None, mem, g


def init(cs):
    for ver in ('', '.avx512f'):
        cs.append(Contract('v_init', [('b', Arr(4, lambda c: c.n)), ('n', 'i64'), ('inv', 'i32')], lambda c: [('every slot is invalid', c.forall('j', c.n, lambda j: z3.Select(c.o1['b'], j) == c.inv))],
                           modifies=('b',), dom='int', ranges={'n': (0, 2**40)}, unit='hj', label='init_hash_join_buff[%s]' % (ver or 'default'),
                           models={'v_split': split, INITCPU + '.ifunc': lambda c, ex, i, a, mem, g, ver=ver: ex.call_fn(INITCPU + ver, a, mem, g), '_ZL19_mm512_stream_si512PvDv8_x': stream},
                           loops=[LoopSpec(map_inv(lambda c: c.n, ['b'], lambda c, o, j: c.inv, sk='j'), bounds=True, range=(0, 2**41))], gen=lambda rng, i: (lambda n: {**i, 'n': n, 'b': [rng.randint(0, 9) for _ in range(n)]})(rng.randint(0, 70))))


# ---------------------------------------------------------------- the element-wise build used on CPU (TBB by its contract), one chunk
def cpu(cs, mp, semi):
    CH = {'buf': (0, ('ptr', 'col')), 'n': (8, 'i64'), 'row': (16, 'i64')}
    JC1 = {**JC, 'buf': (0, ('ptr', 'ch'))}
    ps = [('buff', Arr(4, lambda c: c.S)), ('inv', 'i32'), ('semi', Lit('i1', int(semi))), ('jc', Struct(JC1, 40)), ('ti', Struct(TI, 56)), ('map', Arr(4, lambda c: c.M, ro=True) if mp else Null()), ('norm', 'i64')]
    names = [n for n, _ in ps]
    ps += [('ch', Struct(CH, 24)), ('col', Arr(8, lambda c: c.N, ro=True)), ('N', 'i64'), ('S', 'i64')] + ([('M', 'i64')] if mp else [])

    class R1(Rows):
        def __init__(self, c):
            Rows.__init__(self, c, True, mp)

        def pre(self):
            c = self.c
            t = lambda f: c.oldf('ti', f)
            B = 2**61
            out = [z3.And(t(f) > -B, t(f) < B) for f in ('min', 'max', 'tnull')] + [z3.Or(t('bw') == 0, t('bw') == 1), c.inv < 0]
            if c.mode == 'conc':
                for r in range(c.N.as_long()):
                    out += self.need(I(r))
            return out

    def setup(c, ex, mem, vals):
        k = c.dom.const
        ti, jc, ch = (mem[c.objs[x]] for x in ('ti', 'jc', 'ch'))
        ti[0] = (8, k(64, 8))
        ti[48] = (4, k(32, 1))
        jc[16] = (8, k(64, 1))
        jc[24] = (8, vals['N'])
        ch[8] = (8, vals['N'])
        ch[16] = (8, ex.d.fresh('first row of the chunk', 64, 0, 2**30))
        for n, x in (('ti', ti), ('jc', jc), ('ch', ch)):
            c.o0[n] = dict(x)
        return [vals[n] for n in names]

    def prepare(c):
        c.R = R1(c)
        c.DIST = z3.Bool('distinct')

    def base(c):
        return z3.Int('first row of the chunk')

    def A(c, b, t):
        R, e0 = c.R, c.sk('e0')
        R.hyp(e0)
        did = z3.And(e0 >= 0, e0 < t, R.ok(e0))
        if semi:
            return z3.Implies(did, z3.Select(b, R.slot(e0)) != c.inv)
        return z3.Implies(did, z3.And(z3.Select(b, R.slot(e0)) == e0 + base(c), z3.Select(c.o0['buff'], R.slot(e0)) == c.inv))

    def B(c, b, t):
        R, q = c.R, c.sk('q')
        r = z3.Select(b, q)
        R.hyp(r - base(c))
        return z3.Or(r == z3.Select(c.o0['buff'], q), z3.And(z3.Select(c.o0['buff'], q) == c.inv, r - base(c) >= 0, r - base(c) < t, R.ok(r - base(c)), R.slot(r - base(c)) == q))

    def inv(c, v):
        R = c.R
        b = v.arr(c.objs['buff'])
        e0 = c.sk('e0')
        out = []
        R.hyp(e0)
        flags = [(o, off) for o, x in v.mem.items() if isinstance(x, dict) and o.local for off, (nb, y) in x.items() if nb == 4 and isinstance(y, IV)]
        for nm, t in int_phis(v):
            R.hyp(t)
            s = R.slot(t)
            rr = z3.Select(b, s) - base(c)
            R.hyp(rr)
            # distinct: no slot is claimed twice, and all claimed slots start out invalid
            c.assume(z3.Implies(z3.And(c.DIST, R.ok(t)), z3.And(z3.Select(c.o0['buff'], s) == c.inv, z3.Implies(z3.And(R.ok(rr), R.slot(rr) == s), rr == t))))
            out += [('rows below %s are in the table' % nm, A(c, b, t)), ('entries are old or rows below %s' % nm, B(c, b, t)), ('within ' + nm, z3.And(t >= 0, t <= c.N))]
            for o, off in flags:
                x = v.cell(o, off)
                x = c.ex.d.term(x) if isinstance(x, IV) else None
                if x is not None:
                    out += [('rows below %s are in the table or %s+%d set' % (nm, o.name, off), z3.Or(x != 0, A(c, b, t))), ('%s+%d set only for duplicates (%s)' % (o.name, off, nm), z3.Implies(z3.And(c.DIST, z3.BoolVal(not semi)), x == 0)),
                            ('%s+%d never set' % (o.name, off), x == 0)]
        return out

    def post(c):
        R = c.R
        if c.mode == 'conc':
            N, row = c.N.as_long(), c.inp['row']
            b0, got = vals(c, 'buff')(c.o0['buff']), vals(c, 'buff')(c.o1['buff'])
            iv, by = c.inv.as_long(), {}
            for r in range(N):
                if z3.is_true(z3.simplify(R.key(I(r))[0])):
                    by.setdefault(z3.simplify(R.slot(I(r))).as_long(), []).append(r + row)
            dup = any(len(rs) > 1 or b0[s] != iv for s, rs in by.items())
            ret = c.ret.as_long()
            ok = True
            for s in range(len(b0)):
                if b0[s] == iv and s in by:
                    ok = ok and (got[s] in by[s] if ret == 0 or semi else got[s] in by[s] + [iv])
                else:
                    ok = ok and got[s] == b0[s]
            return [('returns -1 exactly for a duplicate key', z3.BoolVal(ret == (-1 if dup and not semi else 0))), ('the table holds the rows', z3.BoolVal(ok))]
        b = c.o1['buff']
        out = [('every row is in the table', z3.Implies(c.ret == 0, A(c, b, c.N))), ('every entry is old or a row of its slot', B(c, b, c.N)), ('result', z3.Or(c.ret == 0, c.ret == -1) if not semi else c.ret == 0)]
        if not semi:
            out.append(('no error without duplicates', z3.Implies(c.DIST, c.ret == 0)))
        return out

    def gen(rng, i):
        i = common_gen(True, mp)(rng, i)
        i['buff'] = [0xffffffff if rng.random() < .9 else 50 for _ in range(i['S'])]
        i['row'] = 0
        if mp:
            i['M'] = len(i['map'])
        return i

    def pre(c):
        return c.R.pre() + [c.N >= 0] + ([base(c) >= 0, base(c) + c.N < 2**31] if c.mode != 'conc' else []) + ([c.M == c.map_n] if mp and c.mode == 'conc' else [])
    cs.append(Contract('v_fill_bucketized_cpu', ps, post, pre=pre, prepare=prepare, setup=setup, modifies=('buff',), dom='int', ranges=RG, unit='hj', gen=gen, native=nat, bmc=0,
                       models={'v_split': whole, '_ZN6logger10DebugTimerC1ENS_8SeverityEPKciS3_': nop, '_ZN6logger10DebugTimerD1Ev': nop},
                       label='fill_hash_join_buff_bucketized_cpu[%s%s]' % ('translated strings' if mp else 'values', ', semi join' if semi else ''),
                       loops=[LoopSpec(fn='parallel_for', unroll=2), LoopSpec(inv, inst=lambda c, v: [(c.sk('q'), c.R.slot(t)) for _, t in int_phis(v)] + [(c.sk('q'), c.R.slot(c.sk('e0')))], bounds=True, range=(0, 2**32), try_unroll=2)]))


def whole(c, ex, i, a, mem, g):
    return a[0], mem, g


def nop(c, ex, i, a, mem, g):
    return None, mem, g


# ---------------------------------------------------------------- the composite key of a row
def key_handler(cs, w, kc, mode):
    """mode: no translation maps at all, one per component, or only some components"""
    has = [mode == 'all' or (mode == 'mixed' and j % 2 == 1) for j in range(kc)]
    if mode == 'mixed' and not any(has):
        return
    TIS = {'%s%d' % (f, j): (56 * j + o, ty) for j in range(kc) for f, o, ty in (('null', 24, 'i64'), ('bw', 32, 'i8'))}
    ITS = {'index%d' % j: (72 * j + 48, 'i64') for j in range(kc)}
    KH = {'kc': (0, 'i64'), 'skip': (8, 'i8'), 'ti': (24, ('ptr', 'tis'))}
    if mode != 'none':
        KH['maps'] = (32, ('ptr', 'maps'))
    ps = [('kh', Struct(KH, 40)), ('its', Struct(ITS, 72 * kc)), ('key', Arr(w, kc)), ('out', Arr(8, 4)), ('code', 'i32')]
    names = [n for n, _ in ps]
    if mode != 'none':
        ps.append(('maps', Struct({'m%d' % j: (8 * j, ('ptr', 'map%d' % j)) for j in range(kc) if has[j]}, 8 * kc)))
    ps.append(('tis', Struct(TIS, 56 * kc)))
    for j in range(kc):
        ps += [('e%d' % j, 'i64')]
        if has[j]:
            ps += [('map%d' % j, Arr(4, lambda c, j=j: c.v['M%d' % j], ro=True)), ('M%d' % j, 'i64')]

    def setup(c, ex, mem, vals):
        null = Ptr([(z3.BoolVal(True), None, Off())])
        mem[c.objs['kh']][0] = (8, c.dom.const(64, kc))
        for j in range(kc):
            mem[c.objs['its']][72 * j + 8] = (8, Ptr([(z3.BoolVal(True), c.objs['tis'], Off(56 * j))]))
        c.o0['its'] = dict(mem[c.objs['its']])
        if mode == 'none':
            mem[c.objs['kh']][32] = (8, null)
        else:
            for j in range(kc):
                if not has[j]:
                    mem[c.objs['maps']][8 * j] = (8, null)
            c.o0['maps'] = dict(mem[c.objs['maps']])
        c.o0['kh'] = dict(mem[c.objs['kh']])
        c.elems = [vals['e%d' % j] for j in range(kc)]
        return [vals[n] for n in names]

    def deref(c, ex, i, a, mem, g):
        """row number and element of iterator j (JoinColumnIterator is under contract of its own)"""
        off = a[0].cs[0][2]
        o = off.c
        if len(a[0].cs) != 1 or not off.isconst() or o % 72:
            raise Unsupported('symbolic iterator')
        return [fld(ex, mem, g, a[0], 48), c.elems[o // 72]], mem, g

    def parts(c):
        ok, val = [], []
        for j in range(kc):
            e, t = c.v['e%d' % j], lambda f: c.oldf('tis', f + str(j))
            nul = e == t('null')
            o = z3.Not(z3.And(c.oldf('kh', 'skip') != 0, nul, t('bw') == 0))
            v = e
            if has[j]:
                m = z3.Select(c.o0['map%d' % j], e)
                o = z3.And(o, z3.Or(nul, m != -1))
                v = z3.If(nul, e, m)
            ok.append(o)
            val.append(v)
        return AND(*ok), val
    wrap = lambda x: x if w == 8 else (x + 2**31) % 2**32 - 2**31

    def post(c):
        ok, val = parts(c)
        o = lambda i: z3.Select(c.o1['out'], I(i))
        seen = z3.And(c.ret == c.code, o(0) == 1, o(1) == c.oldf('its', 'index0'), o(2) == kc, o(3) == wrap(val[0]), *[z3.Select(c.o1['key'], I(j)) == wrap(val[j]) for j in range(kc)])
        return [('a row with a key is passed on with its number and whole key', z3.Implies(ok, seen)),
                ('a row without a key is left out', z3.Implies(z3.Not(ok), z3.And(c.ret == 0, *[o(i) == z3.Select(c.o0['out'], I(i)) for i in range(4)])))]

    def pre(c):
        return [f for j in range(kc) if has[j] for f in [z3.Or(c.v['e%d' % j] == c.oldf('tis', 'null%d' % j), z3.And(c.v['e%d' % j] >= 0, c.v['e%d' % j] < c.v['map%d_n' % j]))]] + [z3.Or(c.oldf('kh', 'skip') == 0, c.oldf('kh', 'skip') == 1)] + \
            [z3.Or(c.oldf('tis', 'bw%d' % j) == 0, c.oldf('tis', 'bw%d' % j) == 1) for j in range(kc)]

    def gen(rng, i):
        i['kh'] = dict(kc=kc, skip=rng.randint(0, 1))
        i['its'] = {'index%d' % j: rng.randint(0, 9) for j in range(kc)}
        i['out'] = [7] * 4
        i['key'] = [99] * kc
        i['tis'] = {}
        for j in range(kc):
            nul = rng.choice([2**64 - 2**63, 3, 2**64 - 1])
            i['tis'].update({'null%d' % j: nul, 'bw%d' % j: rng.randint(0, 1)})
            M = rng.randint(1, 4)
            i['e%d' % j] = nul if rng.random() < .3 else (rng.randint(0, M - 1) if has[j] else rng.getrandbits(64) if rng.random() < .3 else rng.randint(0, 5))
            if has[j]:
                i['M%d' % j] = M
                i['map%d' % j] = [rng.choice([0xffffffff, 5, 6]) for _ in range(M)]
        return i

    def native(nat, con, mod, inp):
        import struct as st
        keep, its, mps = [], b'', b''
        t = inp['tis']
        tis = ctypes.create_string_buffer(b''.join(st.pack('<QqqQQqq', 8, 0, 0, t['null%d' % j], t['bw%d' % j], 0, 1) for j in range(kc)))
        for j in range(kc):
            el = ctypes.create_string_buffer(inp['e%d' % j].to_bytes(8, 'little'))
            keep += [el]
            its += st.pack('<QQQQQQqQQ', 0, ctypes.addressof(tis) + 56 * j, 0, ctypes.addressof(el), 0, 0, s_of(inp['its']['index%d' % j], 64), 0, 1)
            mb = None
            if has[j]:
                mb = ctypes.create_string_buffer(b''.join(x.to_bytes(4, 'little') for x in inp['map%d' % j]))
                keep.append(mb)
            mps += st.pack('<Q', ctypes.addressof(mb) if mb else 0)
        itb, mpb = ctypes.create_string_buffer(its), ctypes.create_string_buffer(mps)
        kh = ctypes.create_string_buffer(st.pack('<QQQQQ', kc, inp['kh']['skip'], 0, ctypes.addressof(tis), ctypes.addressof(mpb) if mode != 'none' else 0))
        key = ctypes.create_string_buffer(b''.join((x & (256**w - 1)).to_bytes(w, 'little') for x in inp['key']) + b'\xa5' * 64, kc * w + 64)
        out = ctypes.create_string_buffer(b''.join((x & (256**8 - 1)).to_bytes(8, 'little') for x in inp['out']) + b'\xa5' * 64, 96)
        f = nat.get(con.fn)
        f.argtypes, f.restype = [ctypes.c_void_p] * 4 + [ctypes.c_int32], ctypes.c_int32
        rv = f(ptr(kh), ptr(itb), ptr(key), ptr(out), s_of(inp['code'], 32))
        return {'ret': rv, 'bufs': {'key': bytes(key.raw), 'out': bytes(out.raw)}, 'addr': {}}
    cs.append(Contract('v_key_handler%d' % (8 * w), ps, post, pre=pre, setup=setup, modifies=('key', 'out'), dom='int', unit='hj', gen=gen, native=native, bmc=0, models={'_ZNK18JoinColumnIteratordeEv': deref},
                       ranges={'M%d' % j: (0, 2**31) for j in range(kc) if has[j]}, loops=[LoopSpec(try_unroll=4)], label='GenericKeyHandler[%d x %d bytes, maps: %s]' % (kc, w, mode)))


# ---------------------------------------------------------------- whole-table construction (threads, vectors): bounded stand-ins
class Col:
    """a chunked column in the memory layout of JoinColumn / JoinColumnTypeInfo"""

    def __init__(self, xs, cuts, ti, es=8, fmt=None):
        import struct as st
        f = fmt or {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[es]
        self.keep, chunks, off = [], b'', 0
        for n in cuts:
            b = ctypes.create_string_buffer(b''.join(st.pack('<' + f, *(x if isinstance(x, (list, tuple)) else (x,))) for x in xs[off:off + n]) + b'\0' * 8)
            self.keep.append(b)
            chunks += st.pack('<QQQ', ctypes.addressof(b), n, off)
            off += n
        assert off == len(xs)
        self.ch = ctypes.create_string_buffer(chunks)
        self.jc = st.pack('<QQQQQ', ctypes.addressof(self.ch), len(chunks), len(cuts), len(xs), es)
        self.ti = st.pack('<QqqqQqiI', es, ti.get('min', 0), ti.get('max', 0), ti.get('null', -2**63), ti.get('bw', 0), ti.get('tnull', 0), ti.get('ct', 1), 0)


def chop(rng, n):
    cuts, left = [], n
    while left:
        k = rng.randint(0, left) if rng.random() < .7 else left
        cuts.append(k)
        left -= k
    return cuts or [0]


def ptr(b):
    return ctypes.c_void_p(ctypes.addressof(b)) if b is not None else ctypes.c_void_p(0)


def i32buf(xs, pad=16):
    import struct as st
    return ctypes.create_string_buffer(st.pack('<%di' % len(xs), *xs) + b'\xa5' * pad, 4 * len(xs) + pad)


def lists_ok(buff, S, want, inv, total):
    """position/count/row-id layout: every slot lists exactly its rows"""
    import struct as st
    ints = st.unpack('<%di' % (len(buff) // 4), buff)
    if any(b != 0xa5 for b in buff[4 * (2 * S + total):]):
        return 'memory after the table changed'
    pos, cnt, ids = ints[:S], ints[S:2 * S], ints[2 * S:2 * S + total]
    for s in range(S):
        rows = want.get(s, [])
        if cnt[s] != len(rows):
            return 'slot %d: count %d, %d rows have that key' % (s, cnt[s], len(rows))
        if not rows:
            if pos[s] != inv:
                return 'slot %d: no rows, position %d' % (s, pos[s])
            continue
        if pos[s] < 0 or pos[s] + len(rows) > total:
            return 'slot %d: position %d out of range' % (s, pos[s])
        got = sorted(ids[pos[s]:pos[s] + len(rows)])
        if got != rows:
            return 'slot %d: row ids %s, expected %s' % (s, got[:20], rows[:20])
    return None


def trials(cs):
    why = 'std::async workers and std::vector: the workers are under contract, their orchestration is outside the verifier'

    def gen_otm(rng, k):
        bk = rng.random() < .4
        norm = rng.choice([2, 3, 86400]) if bk else rng.choice([1, 1, 5])
        big = k % 12 == 5
        n = rng.choice([1, 2, 3, 7, 40, 333]) if not big else rng.choice([9999, 10000, 10007, 20011])   # the scan has a threaded path from 10000 entries on
        S = n if not bk else (n if big else rng.randint(1, 40))
        cnt = n if not bk else (S - 1) * norm + rng.randint(1, norm)
        mn = rng.randint(-3, 3) * norm
        hi = mn + (S * norm if bk else n) - 1
        N = rng.choice([0, 1, 2, 5, 30, 200]) if not big else rng.choice([0, 50, 5000, 30000])
        ti = dict(min=mn, max=min(hi, mn + cnt - 1), null=rng.choice([-2**63, -2**31, mn - 1]), bw=rng.randint(0, 1), tnull=mn + cnt - 1)
        mp = None
        if not bk and rng.random() < .35:
            ti['min'], ti['max'] = max(mn, 0), max(mn, 0) + n - 1
            ti['tnull'] = ti['max']
            mp = [rng.choice([-1, rng.randint(ti['min'], ti['max']), rng.randint(0, ti['max'] + 3)]) for _ in range(rng.randint(1, 30))]
        xs = []
        for _ in range(N):
            if rng.random() < .1:
                xs.append(ti['null'])
            else:
                xs.append(rng.randint(0, len(mp) - 1) if mp else rng.randint(ti['min'], ti['max']))
        if not mp and N > 4 and rng.random() < .4:
            hot = [ti['min'], ti['max'], rng.randint(ti['min'], ti['max'])]
            xs = [rng.choice(hot) for _ in xs]
        return dict(bk=bk, norm=norm, cnt=cnt, ti=ti, map=mp, xs=xs, cuts=chop(rng, N), threads=rng.choice([1, 2, 3, 5, 8, 13]), inv=-1)

    def test_otm(native, i):
        ti, S = i['ti'], (i['cnt'] + i['norm'] - 1) // i['norm'] if i['bk'] else i['cnt']
        want = {}
        for r, x in enumerate(i['xs']):
            isnull = x == ti['null']
            if isnull:
                if not ti['bw']:
                    continue
                x = ti['tnull']
            if i['map'] and not (ti['bw'] and x == ti['tnull']):
                x = i['map'][x] if 0 <= x < len(i['map']) else None
                if x is None or x == -1 or not ti['min'] <= x <= ti['max']:
                    continue
            want.setdefault((x - ti['min']) // (i['norm'] if i['bk'] else 1), []).append(r)
        N = len(i['xs'])
        b = i32buf([i['inv']] * (2 * S + N))
        c = Col(i['xs'], i['cuts'], ti)
        jc, t = ctypes.create_string_buffer(c.jc), ctypes.create_string_buffer(c.ti)
        mp = i32buf(i['map']) if i['map'] else None
        f = native.get('v_one_to_many')
        f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int64, ctypes.c_bool, ctypes.c_int32] + [ctypes.c_void_p] * 3 + [ctypes.c_uint]
        f.restype = None
        f(ptr(b), i['cnt'], i['norm'], i['bk'], i['inv'], ptr(jc), ptr(t), ptr(mp), i['threads'])
        return lists_ok(b.raw, S, want, i['inv'], N)
    cs.append(Trial('v_one_to_many', 'fill_one_to_many_hash_table[_bucketized]: whole table', gen_otm, test_otm, 'hj', why, n=400))

    # ---- composite keys
    def gen_keys(rng, k, otm):
        kc, w = rng.choice([1, 2, 2, 3, 4]), rng.choice([4, 8])
        N = rng.choice([0, 1, 2, 5, 20, 100, 600])
        cols, maps = [], []
        for j in range(kc):
            null = rng.choice([-2**63 if w == 8 else -2**31, -128])
            bw = rng.randint(0, 1) if j == 0 else cols[0]['ti']['bw'] if rng.random() < .5 else rng.randint(0, 1)
            mp = [rng.choice([-1, rng.randint(0, 6), rng.randint(0, 6)]) for _ in range(rng.randint(1, 9))] if rng.random() < .3 else None
            lim = rng.choice([1, 4, 50, 2**30])
            xs = [null if rng.random() < .07 else (rng.randint(0, len(mp) - 1) if mp else rng.randint(-lim, lim)) for _ in range(N)]
            cols.append(dict(xs=xs, cuts=chop(rng, N), ti=dict(null=null, bw=bw, min=0, max=2**31 - 2, tnull=2**31 - 2)))
            maps.append(mp)
        if N > 2 and rng.random() < .3 and not any(maps):   # all keys different
            for r in range(N):
                cols[0]['xs'][r] = r * 3 + 1
        semi, wv = rng.random() < .3, rng.random() < .6
        return dict(w=w, k=kc, cols=cols, maps=maps, usemaps=any(maps) or rng.random() < .5, semi=semi, wv=wv, threads=rng.choice([1, 1, 2, 3, 8]), slack=rng.choice([0, 1, 7]), b=rng.choice([4, 11]))

    def keys_of(i, skip=True):
        """rows that have a key, in order"""
        out = []
        for r in range(len(i['cols'][0]['xs'])):
            key = []
            for c, mp in zip(i['cols'], i['maps']):
                x = c['xs'][r]
                if skip and x == c['ti']['null'] and not c['ti']['bw']:
                    key = None
                    break
                if i['usemaps'] and mp and x != c['ti']['null']:
                    x = mp[x]
                    if x == -1:
                        key = None
                        break
                key.append(x)
            if key is not None:
                out.append((r, tuple(key)))
        return out

    def cols_of(i):
        cc = [Col(c['xs'], c['cuts'], c['ti']) for c in i['cols']]
        jc, t = ctypes.create_string_buffer(b''.join(c.jc for c in cc)), ctypes.create_string_buffer(b''.join(c.ti for c in cc))
        mb = [i32buf(m) if m else None for m in i['maps']]
        mps = (ctypes.c_void_p * i['k'])(*[ctypes.addressof(m) if m else None for m in mb])
        return cc, jc, t, mb, mps

    def fill_keyed(native, i, n, wv, semi, env):
        """the initialised and filled table as a list of entries"""
        w, k = i['w'], i['k']
        import struct as st
        cc, jc, t, mb, mps = env
        T = 'i' if w == 4 else 'q'
        empty = 2**(8 * w - 1) - 1
        ent = k + (1 if wv else 0)
        buf = ctypes.create_string_buffer(n * ent * w + 64)
        f = native.get('v_init_keyed%d' % (8 * w))
        f.argtypes, f.restype = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_size_t, ctypes.c_bool, ctypes.c_int32], None
        f(ptr(buf), n, k, wv, -1)
        f = native.get('v_baseline')
        f.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int32, ctypes.c_bool, ctypes.c_size_t, ctypes.c_bool] + [ctypes.c_void_p] * 3 + [ctypes.c_int32]
        f.restype = ctypes.c_int
        err = f(w, ptr(buf), n, -1, semi, k, wv, ptr(jc), ptr(t), ctypes.cast(mps, ctypes.c_void_p) if i['usemaps'] else None, i['threads'])
        ents = [st.unpack_from('<%d%s' % (ent, T), buf.raw, e * ent * w) for e in range(n)]
        return err, buf, ents, empty

    def test_keyed(native, i):
        keys = keys_of(i)
        if i['w'] == 4:   # a 4-byte key column holds 4-byte values
            keys = [(r, tuple((x + 2**31) % 2**32 - 2**31 for x in key)) for r, key in keys]
        rows = {}
        for r, key in keys:
            rows.setdefault(key, []).append(r)
        n = len(rows) + i['slack'] + 1
        env = cols_of(i)
        err, buf, ents, empty = fill_keyed(native, i, n, i['wv'], i['semi'], env)
        dup = any(len(x) > 1 for x in rows.values())
        if i['wv'] and not i['semi'] and dup:
            return None if err else 'two rows with the same key and no error'
        if err:
            return 'error %d without a duplicate key or a full table' % err
        got = {}
        for e in ents:
            if e[0] == empty:
                continue
            key = e[:i['k']]
            if key in got:
                return 'key %s stored twice' % (key,)
            got[key] = e[i['k']] if i['wv'] else None
        if set(got) != set(rows):
            return 'stored keys differ from the keys of the rows: %s' % sorted(set(got) ^ set(rows))[:5]
        if i['wv']:
            for key, v in got.items():
                if v not in rows[key]:
                    return 'key %s maps to row %d' % (key, v)
        if any(buf.raw[n * (i['k'] + (1 if i['wv'] else 0)) * i['w']:]):
            return 'memory after the table changed'
        return None
    cs.append(Trial('v_baseline', 'fill_baseline_hash_join_buff_32/64: whole table', lambda rng, k: gen_keys(rng, k, False), test_keyed, 'hj', 'JoinColumnTuple iterates arrays of iterators; slot insertion is under contract', n=500))

    def test_keyed_otm(native, i):
        keys = keys_of(i)
        if i['w'] == 4:
            keys = [(r, tuple((x + 2**31) % 2**32 - 2**31 for x in key)) for r, key in keys]
        n = len({key for _, key in keys}) + i['slack'] + 1
        env = cols_of(i)
        if not i['usemaps']:
            i = dict(i, maps=[None] * i['k'])
            env = cols_of(i)
        err, buf, ents, empty = fill_keyed(native, i, n, False, False, env)
        if err:
            return 'error %d while storing the keys' % err
        slot = {e[:i['k']]: s for s, e in enumerate(ents) if e[0] != empty}
        want = {}
        for r, key in keys:
            if key not in slot:
                return 'key of row %d not stored' % r
            want.setdefault(slot[key], []).append(r)
        N = len(i['cols'][0]['xs'])
        b = i32buf([-1] * (2 * n + N))
        before = buf.raw
        f = native.get('v_one_to_many_baseline')
        f.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int32, ctypes.c_size_t] + [ctypes.c_void_p] * 3 + [ctypes.c_int32]
        f.restype = None
        cc, jc, t, mb, mps = env
        f(i['w'], ptr(b), ptr(buf), n, -1, i['k'], ptr(jc), ptr(t), ctypes.cast(mps, ctypes.c_void_p), i['threads'])
        if buf.raw != before:
            return 'the key dictionary changed'
        return lists_ok(b.raw, n, want, -1, N)
    cs.append(Trial('v_one_to_many_baseline', 'fill_one_to_many_baseline_hash_table_32/64: whole table', lambda rng, k: gen_keys(rng, k, True), test_keyed_otm, 'hj', why, n=400))

    def test_tuples(native, i):
        b = i['b']
        m = 1 << b
        f = native.get('v_distinct_tuples')
        f.argtypes, f.restype = [ctypes.c_void_p, ctypes.c_uint32, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int], None

        def sketch(ii, threads):
            cc, jc, t, mb, mps = cols_of(ii)
            buf = ctypes.create_string_buffer(m * threads + 32)
            f(ptr(buf), b, m, ii['k'], ptr(jc), ptr(t), threads)
            if any(buf.raw[m * threads:]):
                return None
            return [max(buf.raw[t * m + j] for t in range(threads)) for j in range(m)]
        got = sketch(i, i['threads'])
        if got is None:
            return 'memory after the sketches changed'
        want = [0] * m
        seen = {}
        for r in range(len(i['cols'][0]['xs'])):
            key = tuple(c['xs'][r] for c in i['cols'])
            if key not in seen:
                s = sketch(dict(i, cols=[dict(c, xs=[c['xs'][r]], cuts=[1]) for c in i['cols']]), 1)
                nz = [j for j in range(m) if s[j]]
                if len(nz) != 1 or not 1 <= s[nz[0]] <= 64 - b + 1:
                    return 'one row updates %d registers' % len(nz)
                seen[key] = (nz[0], s[nz[0]])
            j, v = seen[key]
            want[j] = max(want[j], v)
        return None if want == got else 'the sketch is not the register-wise maximum over the rows'

    def gen_tuples(rng, k):
        i = gen_keys(rng, k, False)
        i['cols'] = [dict(c, xs=c['xs'][:40], cuts=[min(40, len(c['xs']))]) for c in i['cols']]
        i['b'] = rng.choice([4, 6, 11])
        return i
    cs.append(Trial('v_distinct_tuples', 'approximate_distinct_tuples: whole column', gen_tuples, test_tuples, 'hj', why, n=120, batch=10))

    def gen_bounds(rng, k):
        N = rng.choice([0, 1, 2, 5, 40])
        fl = lambda: rng.choice([0.0, 1.0, 2.5, -3.0, rng.uniform(-10, 10)])
        return dict(rows=[[fl() for _ in range(4)] for _ in range(N)], cuts=chop(rng, N), thr=[rng.choice([1.0, 5.0, 100.0]) for _ in range(2)], init=[rng.choice([0.0, 0.5, 3.0]) for _ in range(2)], threads=rng.choice([1, 2, 3, 8]))

    def test_bounds(native, i):
        import struct as st
        c = Col(i['rows'], i['cuts'], {}, 32, '4d')
        jc, t = ctypes.create_string_buffer(c.jc), ctypes.create_string_buffer(c.ti)
        out = (ctypes.c_double * 3)(*i['init'], 77.0)
        thr = (ctypes.c_double * 2)(*i['thr'])
        f = native.get('v_bucket_sizes')
        f.argtypes, f.restype = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_void_p] * 3 + [ctypes.c_int], None
        f(ctypes.cast(out, ctypes.c_void_p), 2, ptr(jc), ptr(t), ctypes.cast(thr, ctypes.c_void_p), i['threads'])
        want = [max([i['init'][j]] + [r[j + 2] - r[j] for r in i['rows'] if r[j + 2] - r[j] < i['thr'][j]]) for j in range(2)]
        return None if list(out) == want + [77.0] else 'bucket sizes %s, expected %s' % (list(out)[:2], want)
    cs.append(Trial('v_bucket_sizes', 'compute_bucket_sizes_on_cpu: whole column', gen_bounds, test_bounds, 'hj', why, n=200))

    # ---- number of slots of a bucketized table: proved
    cs.append(Contract('v_normalized_count', [('n', 'i64'), ('norm', 'i64')],
                       lambda c: [('enough slots', c.ret * c.norm >= c.n), ('no spare slot', z3.Implies(c.ret > 0, (c.ret - 1) * c.norm < c.n)), ('not negative', c.ret >= 0)],
                       ranges={'n': (0, 2**62), 'norm': (1, 2**62)}, dom='int', unit='hj', label='HashEntryInfo::getNormalizedHashEntryCount'))
