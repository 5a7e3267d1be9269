"""C15: chunk statistics -- min, max and has_nulls of a chunk bound its data."""
from common import *

ASSUMPTIONS = [
    'tbb::parallel_reduce folds the body over sub-ranges that partition the range, in order (units/shim/tbb)',
    'statistics that existed before are those of earlier data of the same column (for a column of narrower encoding: in the range of the encoding, or the initial ones)',
    'floating-point columns hold no NaN',
    'the statistics of variable-length data (strings, arrays: std::vector of ArrayDatum) and their file format are not under contract',
]
# name: (type of the statistics, signed, type of the data, kind)
ENC = {'i8': (8, True, 8, ''), 'i16': (16, True, 16, ''), 'i32': (32, True, 32, ''), 'i64': (64, True, 64, ''), 'u8': (8, False, 8, ''), 'u16': (16, False, 16, ''),
       'f32': (32, 'f', 32, ''), 'f64': (64, 'f', 64, ''), 'fl8': (64, True, 8, 'fl'), 'fl16': (64, True, 16, 'fl'), 'fl32': (64, True, 32, 'fl'),
       'dd16': (64, True, 16, 'dd'), 'dd32': (64, True, 32, 'dd'), 'dd64': (64, True, 64, 'dd')}
FS = {32: z3.Float32(), 64: z3.Float64()}
FTY = {32: 'float', 64: 'double'}


class Spec:
    def __init__(self, name, bv=False):
        self.name = name
        self.w, self.sg, self.vw, self.kind = ENC[name]
        self.int = self.sg is True and not bv    # machine integers as mathematical ones with their ranges (wrap-around is modelled)

    def ty(self):
        return FTY[self.w] if self.sg == 'f' else 'i%d' % self.w

    def le(self, a, b):
        if self.sg == 'f':
            return z3.fpLEQ(a, b)
        return a <= b if self.sg else z3.ULE(a, b)

    def fp(self, bits):
        return z3.fpBVToFP(bits, FS[self.w]) if self.sg == 'f' else bits

    def num(self, v, w):
        return z3.IntVal(v) if self.int else z3.BitVecVal(v, w)

    def null(self, w=None):
        w = w or self.vw
        if self.sg == 'f':
            return z3.BitVecVal(0x00800000 if w == 32 else 0x0010000000000000, w)
        return self.num(-(1 << (w - 1)), w) if self.sg else self.num((1 << w) - 1, w)

    def nullarr(self):
        if self.sg == 'f':
            return z3.BitVecVal(0x01000000 if self.vw == 32 else 0x0020000000000000, self.vw)
        return self.null() + 1 if self.sg else self.null() - 1

    def val(self, x):
        """value the statistics are about, from stored data"""
        if self.kind == 'fl':
            return x
        if self.kind == 'dd':
            return x * 86400
        return self.fp(x)

    def first(self):
        """statistics of no data"""
        if self.sg == 'f':
            m = z3.BitVecVal(0x7f7fffff if self.w == 32 else 0x7fefffffffffffff, self.w)
            n = z3.BitVecVal(0xff7fffff if self.w == 32 else 0xffefffffffffffff, self.w)
            return self.fp(m), self.fp(n)
        if self.sg:
            return self.num((1 << (self.w - 1)) - 1, self.w), self.num(-(1 << (self.w - 1)), self.w)
        return z3.BitVecVal((1 << self.w) - 1, self.w), z3.BitVecVal(0, self.w)


def ule(a, b):
    return z3.And(0 <= a, a <= b) if z3.is_int(a) else z3.ULE(a, b)


def ult(a, b):
    return z3.And(0 <= a, a < b) if z3.is_int(a) else z3.ULT(a, b)


def FPW(w, sg):
    """sort of a value of that many bits: (bits, z3 sort or None in integer arithmetic)"""
    return w, (FS[w] if sg == 'f' else z3.BitVecSort(w))


def ranges_of(v, ws):
    """terms of a width that the loop carries: header variables and local cells"""
    w, so = ws
    out = []
    for i, (ph, pv) in enumerate(v.phis):
        if isinstance(pv, IV):
            if ph['ty'] == 'i%d' % w:
                out.append(('v%d' % i, v.ex.d.term(pv, w)))
        elif z3.is_expr(pv) and pv.sort() == so:
            out.append(('v%d' % i, pv))
    for o, offs in v.changed.items():
        if o.local and isinstance(v.mem.get(o), dict):
            for off in sorted(offs):
                x = v.mem[o].get(off)
                if x is None:
                    continue
                if isinstance(x[1], IV):
                    if x[0] * 8 == w:
                        out.append(('%s+%d' % (o.name, off), v.ex.d.term(x[1], w)))
                    continue
                y = v.cell(o, off)
                if z3.is_expr(y) and y.sort() == so:
                    out.append(('%s+%d' % (o.name, off), y))
                elif z3.is_bv(y) and y.size() > w and not any(z3.is_expr(v.cell(o, x)) and v.cell(o, x).sort() == so for x in offs):
                    # several fields moved as one word
                    for b in range(0, y.size() // w):
                        z = z3.Extract(b * w + w - 1, b * w, y)
                        out.append(('%s+%d' % (o.name, off + b * w // 8), z if isinstance(so, z3.BitVecSortRef) else z3.fpBVToFP(z, so)))
                elif z3.is_bv(y) and y.size() == w:
                    out.append(('%s+%d' % (o.name, off), z3.fpBVToFP(y, so)))
    return out


IREAD = {'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64', 'bool': 'i8', 'dec64': 'i64', 'dec32': 'i32', 'dec16': 'i16', 'dict8': 'u8', 'dict16': 'u16', 'dict32': 'i32', 'date16': 'dd16', 'date32': 'dd32',
         'date64': 'dd64', 'dates32': 'fl32', 'dates64': 'i64', 'time16': 'fl16', 'time32': 'fl32', 'time64': 'i64', 'stamp': 'i64', 'interval8': 'fl8', 'interval': 'i64', 'fp32': 'f32', 'fp64': 'f64'}


def contracts():
    cs = []
    for name in ENC:
        S = Spec(name)
        st = [('mn', Cell(S.ty())), ('mx', Cell(S.ty())), ('nl', Cell('i8'))]
        mod = ('mn', 'mx', 'nl')
        scan(cs, S, st, mod, True)
        scan(cs, S, st, mod, False)
        simple(cs, S, st, mod)
    for t, name in IREAD.items():
        read(cs, t, Spec(name, True))
        whole(cs, t, Spec(name))
    return cs


def same(S, a, b):
    return z3.fpEQ(a, b) if S.sg == 'f' else a == b


def lo(S, a, b):
    return z3.If(S.le(a, b), a, b)


def hi(S, a, b):
    return z3.If(S.le(a, b), b, a)


def nonan(S, *xs):
    return [z3.Not(z3.fpIsNaN(x)) for x in xs] if S.sg == 'f' else []


def isbool(*xs):
    return [ule(x, 1) for x in xs]


def bits(x):
    return z3.simplify(z3.fpToIEEEBV(x) if z3.is_fp(x) else x).as_long()


def num(rng, ty):
    w = 32 if ty == 'float' else 64
    while True:
        b = fbits(rng, ty)
        e, m = (b >> 23 & 255, b & (2**23 - 1)) if w == 32 else (b >> 52 & 2047, b & (2**52 - 1))
        if not (e == (255 if w == 32 else 2047) and m):
            return b


def simple(cs, S, st, mod):
    """one value, merging, copying, starting anew"""
    dom = dict(dom='int' if S.int else 'bv', unit='enc', modifies=mod)

    def gen(rng, i):
        for k in ('mn', 'mx', 'mn2', 'mx2'):
            if k in i:
                i[k] = num(rng, S.ty()) if S.sg == 'f' else interesting(rng, S.w) & ((1 << S.w) - 1)
        for k in ('nl', 'nl2', 'isnull'):
            if k in i:
                i[k] = rng.randint(0, 1)
        if 'x' in i and S.sg != 'f':
            if isinstance(S, Spec) and i.get('_fp'):
                pass
            i['x'] = (s_of(interesting(rng, S.w), S.w) if S.sg else interesting(rng, S.w)) & (2**64 - 1)
        return i

    def unchanged(c):
        return z3.And(same(S, c.new('mn'), c.old('mn')), same(S, c.new('mx'), c.old('mx')))

    def put(c, v):
        return [('NULL is recorded and changes no bound', z3.Implies(c.isnull, z3.And(c.new('nl') == 1, unchanged(c)))),
                ('the value is covered, exactly', z3.Implies(z3.Not(c.isnull), z3.And(same(S, c.new('mn'), lo(S, v, c.old('mn'))), same(S, c.new('mx'), hi(S, c.old('mx'), v)), c.new('nl') == c.old('nl'))))]

    def value(c):
        if S.sg == 'f':
            return z3.fpToFP(z3.RNE(), c.x, FS[S.w])
        return c.x if S.int else z3.Extract(S.w - 1, 0, c.x)
    fits = (lambda c: [c.x >= -(1 << (S.w - 1)), c.x < (1 << (S.w - 1))]) if S.int else (lambda c: [z3.ULT(c.x, 1 << S.w)]) if S.sg is False else (lambda c: [])
    cs.append(Contract('v_%s_int' % S.name, st + [('x', 'i64'), ('isnull', 'i1')], lambda c: put(c, value(c)), pre=lambda c: fits(c) + isbool(c.old('nl')) + nonan(S, c.old('mn'), c.old('mx')),
                       gen=gen, label='updateStats(integer)[%s]' % S.name, **dom))
    if S.sg == 'f':
        cs.append(Contract('v_%s_fp' % S.name, st + [('x', 'double'), ('isnull', 'i1')], lambda c: put(c, z3.fpFPToFP(z3.RNE(), c.x, FS[S.w])),
                           pre=lambda c: isbool(c.old('nl')) + nonan(S, c.x, c.old('mn'), c.old('mx')), gen=gen, label='updateStats(floating)[%s]' % S.name, **dom))
    two = [('mn2', S.ty()), ('mx2', S.ty()), ('nl2', 'i1')]
    pre = lambda c: isbool(c.old('nl')) + nonan(S, c.old('mn'), c.old('mx'), c.mn2, c.mx2)
    cs.append(Contract('v_%s_reduce' % S.name, st + two,
                       lambda c: [('bounds of both', z3.And(same(S, c.new('mn'), lo(S, c.mn2, c.old('mn'))), same(S, c.new('mx'), hi(S, c.old('mx'), c.mx2)))),
                                  ('NULLs of either', (c.new('nl') == 1) == z3.Or(c.nl2, c.old('nl') == 1))],
                       pre=pre, gen=gen, label='reduceStats[%s]' % S.name, **dom))
    cs.append(Contract('v_%s_copy' % S.name, st + two,
                       lambda c: [('those of the source', z3.And(same(S, c.new('mn'), c.mn2), same(S, c.new('mx'), c.mx2), (c.new('nl') == 1) == c.nl2))],
                       pre=pre, gen=gen, label='copyMetadata[%s]' % S.name, **dom))

    def blank(c):
        f = S.first()
        return [('statistics of no data', z3.And(same(S, c.new('mn'), f[0]), same(S, c.new('mx'), f[1]), c.new('nl') == 0))]
    cs.append(Contract('v_%s_new' % S.name, st, blank, gen=gen, label='constructor[%s]' % S.name, **dom))
    cs.append(Contract('v_%s_reset' % S.name, st, blank, pre=lambda c: isbool(c.old('nl')), gen=gen, label='resetChunkStats()[%s]' % S.name, **dom))


def read(cs, t, S):
    """encoder -> ChunkStats of a column type -> the values the planner reads; and merging of ChunkStats"""
    o = 'double' if S.sg == 'f' else 'i64'
    out = [('omn', Cell(o)), ('omx', Cell(o))]
    wide = lambda x: z3.fpFPToFP(z3.RNE(), x, FS[64]) if S.sg == 'f' else sx(x, 64) if S.sg else zx(x, 64)
    two = [('mn2', S.ty()), ('mx2', S.ty()), ('nl2', 'i1')]
    dom = dict(dom='int' if S.int else 'bv', unit='enc')

    def gen(rng, i):
        for k in ('mn', 'mx', 'mn2', 'mx2'):
            if k in i:
                i[k] = num(rng, S.ty()) if S.sg == 'f' else interesting(rng, S.w) & ((1 << S.w) - 1)
        i['nl'], i['nl2'] = rng.randint(0, 1), rng.randint(0, 1)
        if rng.random() < .3 and 'omn' in i and 'onl' not in i:
            i['mn'], i['mx'], i['nl'] = i['mn2'], i['mx2'], i['nl2']
        return i
    cs.append(Contract('v_%s_read' % t, [('mn', Cell(S.ty())), ('mx', Cell(S.ty())), ('nl', Cell('i8'))] + two + out,
                       lambda c: [('min read back', same(S, c.new('omn'), wide(c.mn2))), ('max read back', same(S, c.new('omx'), wide(c.mx2))),
                                  ('statistics taken over', z3.And(same(S, c.new('mn'), c.mn2), same(S, c.new('mx'), c.mx2), (c.new('nl') == 1) == c.nl2)),
                                  ('tells whether they differed', c.ret == z3.Not(z3.And(same(S, c.old('mn'), c.mn2), same(S, c.old('mx'), c.mx2), (c.old('nl') == 1) == c.nl2)))],
                       pre=lambda c: isbool(c.old('nl')) + nonan(S, c.old('mn'), c.old('mx'), c.mn2, c.mx2), modifies=('mn', 'mx', 'nl', 'omn', 'omx'), gen=gen, models=DYN, label='fillChunkStats/extract/resetChunkStats(stats)[%s]' % t, ret='i1', **dom))
    cs.append(Contract('v_%s_merge' % t, [('mn', S.ty()), ('mx', S.ty()), ('nl', 'i1')] + two + out + [('onl', Cell('i8'))],
                       lambda c: [('min of both', same(S, c.new('omn'), wide(lo(S, c.mn2, c.mn)))), ('max of both', same(S, c.new('omx'), wide(hi(S, c.mx, c.mx2)))),
                                  ('NULLs of either', (c.new('onl') == 1) == z3.Or(c.nl, c.nl2))],
                       pre=lambda c: nonan(S, c.mn, c.mx, c.mn2, c.mx2), modifies=('omn', 'omx', 'onl'), gen=gen, models=DYN, label='mergeStats[%s]' % t, **dom))


def dyncast(c, ex, i, a, mem, g):
    """dynamic_cast to the dynamic type of the object"""
    return a[0], mem, g


DYN = {'__dynamic_cast': dyncast}


def heap(c, ex, i, a, mem, g):
    """operator new: an object of its own"""
    ob = Obj(ex.fresh('heap'), 'cells', size=ex.d.uval(a[0]), local=True)
    mem[ob] = {}
    return P(ob), mem, g


def whole(cs, t, S):
    """from the column type to the reported statistics"""
    fw = S.w if t[:4] != 'dict' else 32
    o = S.ty() if t[:4] != 'dict' else 'i32'
    ps = [('d', Arr(S.vw // 8, lambda c: c.n, ro=True)), ('n', 'i64'), ('omn', Cell(o)), ('omx', Cell(o)), ('onl', Cell('i8'))]
    H = Scan(S, True, fix=False)
    wide = lambda x: x if S.sg == 'f' or S.int else zx(x, fw)

    def le(a, b):
        return z3.fpLEQ(a, b) if S.sg == 'f' else a <= b

    def post(c):
        mn, mx = c.new('omn'), c.new('omx')
        return [('every stored value lies between the reported min and max', c.forall('k', c.n, lambda k: z3.Implies(H.counts(c, k), z3.And(le(mn, wide(H.val(c, k))), le(wide(H.val(c, k)), mx))))),
                ('NULLs are recorded', c.forall('k', c.n, lambda k: z3.Implies(H.isnull(c, k), c.new('onl') == 1))),
                ('has_nulls only with a NULL', z3.Implies(c.new('onl') == 1, z3.Or(*[H.isnull(c, k) for k in H.ks(c)])) if c.mode == 'conc' else z3.Implies(c.ANY == 0, c.new('onl') == 0))]
    cs.append(Contract('v_%s_all' % t, ps, post, pre=lambda c: [ule(c.n, 1 << 40), c.forall('k', c.n, lambda k: H.ok(c, k))], prepare=H.prepare, modifies=('omn', 'omx', 'onl'), unit='enc', gen=H.gen,
                       label='column statistics[%s]' % t, models=dict(DYN, v_split=split, _Znwm=heap), dom='int' if S.int else 'bv', ranges={'n': (0, 2**40)} if S.int else None, loops=[LoopSpec(H.inv, bounds=True)], bmc=0))


class Scan:
    """a run of values: as stored (encoded), or as they arrive (raw)"""

    def __init__(self, S, encoded, fix=True, stats=False):
        self.S, self.encoded, self.fix, self.stats = S, encoded, fix, stats
        self.ew = S.vw if encoded else S.w
        # initial statistics are converted to the narrow type first: covered, but not exactly
        self.loose = S.kind == 'fl' and encoded

    def el(self, c, k):
        return z3.Select(c.o0['d'], k)

    def isnull(self, c, k):
        S = self.S
        return z3.fpEQ(S.fp(self.el(c, k)), S.fp(S.null())) if S.sg == 'f' else self.el(c, k) == S.null()

    def counts(self, c, k):
        S, encoded = self.S, self.encoded
        r = z3.Not(self.isnull(c, k))
        if encoded:
            # the first element of a NULL array of fixed length
            r = z3.And(r, z3.Implies(c.fix if self.fix else z3.BoolVal(False), z3.Not(z3.fpEQ(S.fp(self.el(c, k)), S.fp(S.nullarr()))) if S.sg == 'f' else self.el(c, k) != S.nullarr()))
        if S.sg == 'f':
            r = z3.And(r, z3.Not(z3.fpIsNaN(S.fp(self.el(c, k)))))
        return r

    def val(self, c, k):
        S, encoded = self.S, self.encoded
        if S.kind == 'dd' and not encoded:
            return (self.el(c, k) / 86400) * 86400
        return S.val(self.el(c, k))

    def ok(self, c, k):
        """the value can be stored"""
        S, encoded = self.S, self.encoded
        x, h = self.el(c, k), 1 << (S.vw - 1)
        if S.kind == 'dd':
            h = min(h, 2**46)
            return z3.Or(self.isnull(c, k), z3.And(x >= -h, x < h) if encoded else z3.And(x >= -h * 86400, x < h * 86400))
        if S.kind == 'fl' and not encoded:
            return z3.And(x >= -h, x < h)
        if S.sg == 'f':
            return z3.Not(z3.fpIsNaN(S.fp(x)))
        return z3.BoolVal(True)

    def post(self, c):
        S, loose = self.S, self.loose
        mn, mx = c.new('mn'), c.new('mx')
        return [('every value lies between min and max', c.forall('k', c.n, lambda k: z3.Implies(self.counts(c, k), z3.And(S.le(mn, self.val(c, k)), S.le(self.val(c, k), mx))))),
                ('earlier values stay covered', z3.And(S.le(mn, self.old(c, 'mn')), S.le(self.old(c, 'mx'), mx))),
                ('NULLs are recorded', z3.And(z3.Implies(c.old('nl') == 1, c.new('nl') == 1), c.forall('k', c.n, lambda k: z3.Implies(self.isnull(c, k), c.new('nl') == 1)))),
                ('has_nulls only with a NULL', self.nonull(c))] + ([('no wider than the values', self.tight(c))] if not loose else [])

    def old(self, c, n):
        S, loose = self.S, self.loose
        # initial statistics cover nothing
        x = c.old(n)
        if loose:
            f = S.first()[0 if n == 'mn' else 1]
            return z3.If(x == f, c.new(n), x)
        return x

    def ks(self, c):
        S = self.S
        return [S.num(k, 64) for k in range(len(c.inp['d']))]

    def nonull(self, c):
        if c.mode == 'conc':
            return z3.Implies(c.new('nl') == 1, z3.Or(c.old('nl') == 1, *[self.isnull(c, k) for k in self.ks(c)]))
        return z3.Implies(c.ANY == 0, c.new('nl') == c.old('nl'))

    def tight(self, c):
        S = self.S
        if c.mode == 'conc':
            return z3.And(*[z3.Or(same(S, c.new(n), c.old(n)), *[z3.And(self.counts(c, k), same(S, c.new(n), self.val(c, k))) for k in self.ks(c)]) for n in ('mn', 'mx')])
        return z3.And(z3.Implies(S.le(c.LO, c.old('mn')), S.le(c.LO, c.new('mn'))), z3.Implies(S.le(c.old('mx'), c.HI), S.le(c.new('mx'), c.HI)))

    def pre(self, c):
        S, loose = self.S, self.loose
        out = [ule(c.n, 1 << 40), ule(c.old('nl'), 1), c.forall('k', c.n, lambda k: self.ok(c, k))]
        out += nonan(S, c.old('mn'), c.old('mx'))
        if loose:
            f = S.first()
            inr = lambda x: z3.And(x >= -(1 << (S.vw - 1)), x < (1 << (S.vw - 1)))
            out += [z3.Or(z3.And(c.old('mn') == f[0], c.old('mx') == f[1]), z3.And(inr(c.old('mn')), inr(c.old('mx'))))]
        return out

    def prepare(self, c):
        S = self.S
        # ANY == 0: no element is NULL; LO, HI: any bounds of the values
        c.ANY = z3.Int('some element is NULL')
        if c.mode != 'conc':
            T = FS[S.w] if S.sg == 'f' else z3.IntSort() if S.int else z3.BitVecSort(S.w)
            c.LO, c.HI = z3.Const('any lower bound', T), z3.Const('any upper bound', T)
            c.assume(z3.And(*nonan(S, c.LO, c.HI)))

    def inv(self, c, v):
        S, loose = self.S, self.loose
        out = []
        k = c.sk('k')
        mn0, mx0, nl0 = (c.old('mn'), c.old('mx'), c.old('nl')) if self.stats else S.first() + (S.num(0, 8),)
        xs, ts = ranges_of(v, FPW(S.vw if loose else S.w, S.sg)), ranges_of(v, FPW(64, True))
        phis = [(n, t) for n, t in ts if n[0] == 'v']
        x = self.val(c, k)
        for n, t in phis:
            c.assume(z3.Implies(ult(t, c.n), z3.And(z3.Implies(c.ANY == 0, z3.Not(self.isnull(c, t))), self.ok(c, t), z3.Implies(self.counts(c, t), z3.And(S.le(c.LO, self.val(c, t)), S.le(self.val(c, t), c.HI))))))
            out.append(('within ' + n, ule(t, c.n)))
            b0 = v.entry_phis[v.phis[int(n[1:])][0]['id']]
            b0 = v.ex.d.term(b0, 64) if isinstance(b0, IV) else b0
            for bn, b in [('0', S.num(0, 64))] + ([('start', b0)] if not (z3.is_bv_value(b0) or z3.is_int_value(b0)) else []):
                dom = z3.And(ule(b, k), ult(k, t))
                for xn, y in xs:
                    out += [('%s <= values %s..%s' % (xn, bn, n), z3.Implies(z3.And(dom, self.counts(c, k)), S.le(y, x))),
                            ('%s >= values %s..%s' % (xn, bn, n), z3.Implies(z3.And(dom, self.counts(c, k)), S.le(x, y)))]
                for yn, y in ranges_of(v, FPW(8, True)):
                    out += [('%s: NULL in %s..%s' % (yn, bn, n), z3.Implies(z3.And(dom, self.isnull(c, k)), y == 1))]
        for xn, y in xs:
            out += [('%s <= earlier min' % xn, S.le(y, mn0)), ('%s >= earlier max' % xn, S.le(mx0, y))]
            if not loose:
                out += [('%s >= lower bound' % xn, z3.Implies(S.le(c.LO, mn0), S.le(c.LO, y))), ('%s <= upper bound' % xn, z3.Implies(S.le(mx0, c.HI), S.le(y, c.HI)))]
            out += [('%s no NaN' % xn, f) for f in nonan(S, y)]
        for yn, y in ranges_of(v, FPW(8, True)):
            out += [('%s: earlier NULL' % yn, z3.Implies(nl0 == 1, y == 1)), ('%s: only with a NULL' % yn, z3.Implies(c.ANY == 0, y == nl0)), ('%s bool' % yn, ule(y, 1))]
        return out

    def gen(self, rng, i):
        S, encoded = self.S, self.encoded
        n = rng.randint(0, 12)
        i['n'] = n
        m = (1 << self.ew) - 1
        if S.sg == 'f':
            i['d'] = [num(rng, S.ty()) for _ in range(n)]
        elif encoded or not S.kind:
            i['d'] = [rng.choice([rng.randint(-5, 60), interesting(rng, S.vw)]) & m for _ in range(n)]
        else:
            i['d'] = [(s_of(interesting(rng, min(S.vw, 46)), min(S.vw, 46)) * (86400 if S.kind == 'dd' else 1) + (rng.randint(0, 86399) if S.kind == 'dd' and rng.random() < .5 else 0)) & m for _ in range(n)]
        if n and rng.random() < .4:
            i['d'][rng.randrange(n)] = bits(S.null() if not encoded or rng.random() < .5 else S.nullarr()) & m
        if not self.stats:
            return i
        i['nl'] = rng.randint(0, 1)
        if rng.random() < .6:
            for nme, y in zip(('mn', 'mx'), S.first()):
                i[nme] = bits(y) & ((1 << S.w) - 1)
        elif S.sg == 'f':
            i['mn'], i['mx'] = num(rng, S.ty()), num(rng, S.ty())
        elif S.kind == 'fl':
            for nme in ('mn', 'mx'):
                i[nme] = s_of(interesting(rng, S.vw), S.vw) & (2**64 - 1)
        return i


def scan(cs, S, st, mod, encoded):
    H = Scan(S, encoded, stats=True)
    ps = st + [('d', Arr(H.ew // 8, lambda c: c.n, ro=True)), ('n', 'i64')] + ([('fix', 'i1')] if encoded else [])
    cs.append(Contract('v_%s_%s' % (S.name, 'encoded' if encoded else 'raw'), ps, H.post, pre=H.pre, prepare=H.prepare, modifies=mod, unit='enc', gen=H.gen,
                       label='%s[%s]' % ('updateStatsEncoded' if encoded else 'updateStats(run of values)', S.name),
                       models={'v_split': split}, dom='int' if S.int else 'bv', ranges={'n': (0, 2**40)} if S.int else None, loops=[LoopSpec(H.inv, bounds=True)], bmc=0))


def split(c, ex, i, a, mem, g):
    """an arbitrary number from 1 to n"""
    v = ex.d.fresh(ex.fresh('split'), 64, *((1, a[0].hi) if ex.d.name == 'int' else ()))
    t, n = ex.d.term(v, 64), ex.d.term(a[0], 64)
    ex.facts.append(z3.Implies(g, z3.And(ule(1, t) if not z3.is_int(t) else t >= 1, ule(t, n))))
    return v, mem, g
