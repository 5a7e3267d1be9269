"""C06: group-by hash tables (open addressing): row-wise, columnar and slot-indexed, with and without watchdog."""
from common import *

ASSUMPTIONS = [
    'the hash function is an arbitrary total function of the key bytes',
    'tables below 2^31 entries and rows of at most 2^20 words; keys of 1 to 4 columns of 4 or 8 bytes',
    'the watchdog poll returns an arbitrary value',
    'no component of a key equals the empty-key marker (the planner reserves it)',
]
E = {4: 2**31 - 1, 8: 2**63 - 1}


def contracts():
    cs = []
    for wd in (False, True):
        for w in (8, 4):
            for kc in (1, 2, 3, 4):
                rowwise(cs, w, kc, wd)
                slots(cs, w, kc, wd)
                if w == 8:
                    columnar(cs, kc, wd)
    one(cs)
    return cs


def wdog(c, ex, i, a, mem, g):
    b = z3.Bool(ex.fresh('watchdog'))
    W = z3.Bool('watchdog fired')
    ex.facts.append(z3.Implies(b, W))
    return b, mem, g


def fired(c):
    return z3.Bool('watchdog fired') if c.mode != 'conc' else z3.BoolVal(False)


def found(p, f, none, wd):
    """postcondition; with a watchdog the search may also give up"""
    c = p.c
    r = []
    for nm, ff, nn in (('result', 0, 0), ('table', 1, 1)):
        r += [(nm + ': ' + n, x) for n, x in p.found(lambda s: f(s)[ff], none[nn])]
    none = z3.And(*none)
    return [(n + (' (or the watchdog interrupts)' if wd else ''), z3.Or(z3.And(fired(c), none), x) if wd else x) for n, x in r]


def lem(c, s, rs, tot):
    """s < n -> s*rs + rs <= n*rs, rs >= 0"""
    if c.mode != 'conc':
        c.assume(z3.Implies(z3.And(s >= 0, s < c.n), z3.And(s * rs >= 0, s * rs + rs <= tot)))


def keep(c, v):
    return ('table unchanged while searching', v.arr(c.objs['b']) == c.o0['b'])


class P(Probe):
    def hyp(self, s):
        lem(self.c, s, self.rs, self.tot)
        return super().hyp(s)

    def facts(self):
        if self.c.mode != 'conc':
            lem(self.c, self.F, self.rs, self.tot)
            lem(self.c, self.h, self.rs, self.tot)
        return super().facts()


def same(c):
    return c.forall('j', c.b_n, lambda j: z3.Select(c.o1['b'], j) == z3.Select(c.o0['b'], j))


def only(c, upd):
    return c.forall('j', c.b_n, lambda j: z3.Select(c.o1['b'], j) == upd(j, z3.Select(c.o0['b'], j)))


def rowwise(cs, w, kc, wd):
    m = 8 // w
    fn = 'get_group_value' + ('_with_watchdog' if wd else '')

    def mk(c):
        b, k = c.o0['b'], c.o0['k']
        rs = c.rsq * m if m > 1 else c.rsq
        at = lambda s: s * c.rsq * m if m > 1 else s * c.rsq
        empty = lambda s: z3.Select(b, at(s)) == E[w]
        match = lambda s: AND(*[z3.Select(b, at(s) + j) == z3.Select(k, c.I(j)) for j in range(kc)])
        p = P.__new__(P)
        p.rs, p.tot = rs, c.b_n
        p.at, p.empty = at, empty
        Probe.__init__(p, c, c.n, hashof(c, 'k', w, 'MurmurHash3'), lambda s: z3.Or(empty(s), match(s)))
        return p

    def post(c):
        p = mk(c)

        def f(s):
            def upd(j, o):
                r = o
                for i in range(kc):
                    r = z3.If(j == p.at(s) + i, z3.Select(c.o0['k'], c.I(i)), r)
                return z3.If(p.empty(s), r, o)
            return ptr_at(c, 'b', w * p.at(s) + (w * kc + 7) // 8 * 8), only(c, upd)
        return found(p, f, (is_null(c), same(c)), wd)

    def gen(rng, i):
        i['n'] = rng.randint(1, 5)
        i['rsq'] = (w * kc + 7) // 8 + rng.randint(0, 2)
        K = lambda: [rng.choice([0, 1, 2]) for _ in range(kc)]
        i['k'] = K()
        rows = []
        for _ in range(i['n']):
            r = rng.choice([K(), K(), [E[w]] * kc, i['k']])
            rows += r + [rng.randint(0, 9) for _ in range(i['rsq'] * m - kc)]
        i['b'] = rows
        return i
    cs.append(Contract(fn, [('b', Arr(w, lambda c: c.n * c.rsq * m, align=8)), ('n', 'i32'), ('k', Arr(w, kc, ro=True)), ('kc', Lit('i32', kc)), ('kw', Lit('i32', w)), ('rsq', 'i32')], post,
                       pre=lambda c: mk(c).facts() + [c.rsq * 8 >= w * kc], modifies=('b',), gen=gen, dom='int', ranges={'n': (1, 2**31 - 1), 'rsq': (1, 2**20)},
                       models={'MurmurHash3': mhash('k', w * kc), 'dynamic_watchdog': wdog}, label='%s[%d x %d bytes]' % (fn, kc, w),
                       trusted=['arithmetic fact s < n -> s*r + r <= n*r (r >= 0) is supplied as a lemma instance'],
                       loops=[LoopSpec(lambda c, v: [keep(c, v)] + mk(c).inv(v), try_unroll=6)]))


def colprobe(c, w, kc):
    b, k = c.o0['b'], c.o0['k']
    empty = lambda s: z3.Select(b, s) == E[w]
    match = lambda s: AND(*[z3.Select(b, s + j * c.n) == z3.Select(k, c.I(j)) for j in range(kc)])
    p = Probe(c, c.n, hashof(c, 'k', w, 'MurmurHash3'), lambda s: z3.Or(empty(s), match(s)))
    p.empty = empty
    return p


def colupd(c, p, s, kc):
    def upd(j, o):
        r = o
        for i in range(kc):
            r = z3.If(j == s + i * c.n, z3.Select(c.o0['k'], c.I(i)), r)
        return z3.If(p.empty(s), r, o)
    return upd


def colgen(w, kc, extra):
    def gen(rng, i):
        n = i['n'] = rng.randint(1, 5)
        K = lambda: [rng.choice([0, 1, 2]) for _ in range(kc)]
        i['k'] = K()
        rows = [rng.choice([K(), K(), [E[w]] * kc, i['k']]) for _ in range(n)]
        i['b'] = [rows[r][j] for j in range(kc) for r in range(n)] + [7] * (n * extra)
        return i
    return gen


def slots(cs, w, kc, wd):
    fn = 'get_group_value_columnar_slot' + ('_with_watchdog' if wd else '')

    def post(c):
        p = colprobe(c, w, kc)
        return found(p, lambda s: (c.ret == s, only(c, colupd(c, p, s, kc))), (c.ret == -1, same(c)), wd)
    cs.append(Contract(fn, [('b', Arr(w, lambda c: c.n * kc, align=8)), ('n', 'i32'), ('k', Arr(w, kc, ro=True)), ('kc', Lit('i32', kc)), ('kw', Lit('i32', w))], post,
                       pre=lambda c: colprobe(c, w, kc).facts(), modifies=('b',), gen=colgen(w, kc, 0), dom='int', ranges={'n': (1, (2**31 - 1) // kc)},
                       models={'MurmurHash3': mhash('k', w * kc), 'dynamic_watchdog': wdog}, label='%s[%d x %d bytes]' % (fn, kc, w),
                       loops=[LoopSpec(lambda c, v: [keep(c, v)] + colprobe(c, w, kc).inv(v), try_unroll=6)]))


def columnar(cs, kc, wd):
    fn = 'get_group_value_columnar' + ('_with_watchdog' if wd else '')

    def post(c):
        p = colprobe(c, 8, kc)
        return found(p, lambda s: (ptr_at(c, 'b', 8 * (s + kc * c.n)), only(c, colupd(c, p, s, kc))), (is_null(c), same(c)), wd)
    cs.append(Contract(fn, [('b', Arr(8, lambda c: c.n * (kc + 1))), ('n', 'i32'), ('k', Arr(8, kc, ro=True)), ('kc', Lit('i32', kc))], post,
                       pre=lambda c: colprobe(c, 8, kc).facts(), modifies=('b',), gen=colgen(8, kc, 1), dom='int', ranges={'n': (1, (2**31 - 1) // (kc + 1))},
                       models={'MurmurHash3': mhash('k', 8 * kc), 'dynamic_watchdog': wdog}, label='%s[%d columns]' % (fn, kc),
                       loops=[LoopSpec(lambda c, v: [keep(c, v)] + colprobe(c, 8, kc).inv(v), try_unroll=6)]))


def one(cs):
    pass
