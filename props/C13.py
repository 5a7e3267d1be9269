"""C13: LIKE / ILIKE matching, substring search and string comparison."""
from common import *
import re
import random
import units

ASSUMPTIONS = ['strings and patterns shorter than 2^30 bytes; for the comparisons, without NUL characters',
               'LIKE patterns are well formed (an escape is followed by a character, a bracket class is closed); the escape character is none of % _ [ ]; ILIKE patterns are already lower case (the planner lowers them)',
               'single-byte characters, as documented']
R = {'S': (0, 2**30), 'N': (0, 2**30)}
PCT, UND, LB, RB = [ord(x) for x in '%_[]']


def low(x):
    return z3.If(z3.And(x >= 65, x <= 90), x + 32, x)


def contracts():
    cs = []
    compare(cs)
    simple(cs)
    like(cs)
    return cs


STR = [('str', Arr(1, lambda c: c.S, ro=True)), ('S', 'i32'), ('pat', Arr(1, lambda c: c.N, ro=True)), ('N', 'i32')]


def nullable(cs, fn, extra, post, **kw):
    """NULL strings are null pointers"""
    for side in ('none', 'left', 'right', 'both'):
        ps = list(STR)
        if side in ('left', 'both'):
            ps[0] = ('str', Null())
        if side in ('right', 'both'):
            ps[2] = ('pat', Null())
        ps += extra + [('null', 'i8')]
        if side == 'none':
            cs.append(Contract(fn, ps, lambda c: [(n, c.ret == z3.If(b, I(1), I(0))) for n, b in post(c)], dom='int', ranges=R, label=fn, **kw))
        else:
            cs.append(Contract(fn, ps, lambda c: [('NULL operand gives NULL', c.ret == c.null)], dom='int', ranges=R, label='%s[NULL %s]' % (fn, side)))


I = z3.IntVal


# ---------------------------------------------------------------- comparison
def compare(cs):
    def hyp(c, j):
        """instance at j of: equal before F; F is the length of the shorter string or the first difference"""
        a, b = c.o0['str'], c.o0['pat']
        c.assume(z3.Implies(z3.And(j >= 0, j < c.F), z3.Select(a, j) == z3.Select(b, j)))
        for t, n in ((a, c.S), (b, c.N)):
            c.assume(z3.Implies(z3.And(j >= 0, j < n), z3.Select(t, j) != 0))

    def prepare(c):
        a, b = c.o0['str'], c.o0['pat']
        if c.mode == 'conc':
            x, y = c.inp['str'], c.inp['pat']
            k = 0
            while k < min(len(x), len(y)) and x[k] == y[k]:
                k += 1
            c.v['F'] = I(k)
        else:
            c.v['F'] = z3.Int('first difference')

    def pre(c):
        a, b, F = c.o0['str'], c.o0['pat'], c.F
        if c.mode == 'conc':
            return [z3.BoolVal(0 not in c.inp['str'] and 0 not in c.inp['pat'])]
        u = lambda t: z3.Select(t, F)
        return [F >= 0, F <= c.S, F <= c.N, z3.Implies(z3.And(F < c.S, F < c.N), u(a) != u(b)), z3.Implies(F < c.S, u(a) != 0), z3.Implies(F < c.N, u(b) != 0)]

    def order(c):
        a, b, F = c.o0['str'], c.o0['pat'], c.F
        u = lambda t: z3.If(z3.Select(t, F) < 0, z3.Select(t, F) + 256, z3.Select(t, F))
        both = z3.And(F < c.S, F < c.N)
        lt = z3.If(both, u(a) < u(b), c.S < c.N)
        eq = z3.And(F == c.S, F == c.N)
        return lt, eq

    def inv(c, v):
        hyp(c, v.k)
        return [('no difference so far', v.k <= c.F), ('within', z3.And(v.k <= c.S, v.k <= c.N))]

    def gen(rng, i):
        al = [97, 98, 200, 255, 1]
        x = [rng.choice(al) for _ in range(rng.randint(0, 5))]
        y = list(x[:rng.randint(0, len(x))]) + [rng.choice(al) for _ in range(rng.randint(0, 2))] if rng.random() < .7 else list(x)
        return {**i, 'str': x, 'S': len(x), 'pat': y, 'N': len(y)}
    kw = dict(prepare=prepare, pre=pre, loops=[LoopSpec(inv=inv)], gen=gen, bmc=0)
    what = 'byte-wise lexicographic order, a prefix first'
    cs.append(Contract('StringCompare', list(STR), lambda c: [(what + ' (less)', (c.ret < 0) == order(c)[0]), (what + ' (equal)', (c.ret == 0) == order(c)[1])], dom='int', ranges=R, **kw))
    for op, f in (('lt', lambda l, e: l), ('le', lambda l, e: z3.Or(l, e)), ('gt', lambda l, e: z3.Not(z3.Or(l, e))), ('ge', lambda l, e: z3.Not(l)), ('eq', lambda l, e: e), ('ne', lambda l, e: z3.Not(e))):
        cs.append(Contract('string_' + op, list(STR), lambda c, f=f: [(what, c.ret == f(*order(c)))], dom='int', ranges=R, **kw))
        nullable(cs, 'string_%s_nullable' % op, [], lambda c, f=f: [(what, f(*order(c)))], **kw)


# ---------------------------------------------------------------- substring search
def simple(cs):
    for il in (False, True):
        simple1(cs, il)


def simple1(cs, il):
    cc = low if il else (lambda x: x)

    def prepare(c):
        c.v['found'] = z3.Bool('occurs')
        c.v['F'] = z3.Int('first occurrence')
        c.W = z3.Function('mismatch', z3.IntSort(), z3.IntSort())
        if c.mode == 'conc':
            lo = (lambda b: bytes(x + 32 if 65 <= x <= 90 else x for x in b)) if il else (lambda b: b)
            k = lo(bytes(c.inp['str'])).find(bytes(c.inp['pat']))
            c.v['found'], c.v['F'] = z3.BoolVal(k >= 0), I(k)

    def pre(c):
        if c.mode == 'conc':
            return []
        return [z3.Implies(c.found, z3.And(c.F >= 0, c.F + c.N <= c.S))]

    def hyp(c, i, j, cc=cc):
        """the pattern occurs at F (instance j); at i it does not, with a mismatch at W(i), if i is before F or nothing is found"""
        s, p = c.o0['str'], c.o0['pat']
        c.assume(z3.Implies(z3.And(c.found, j >= 0, j < c.N), z3.Select(p, j) == cc(z3.Select(s, c.F + j))))
        w = c.W(i)
        c.assume(z3.Implies(z3.And(i >= 0, i + c.N <= c.S, z3.Or(z3.Not(c.found), i < c.F)), z3.And(w >= 0, w < c.N, z3.Select(p, w) != cc(z3.Select(s, i + w)))))

    def inv(c, v):
        if z3.is_const(v.k) and v.k.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            known = c.g.setdefault('ks', {})
            if v.header not in known or not known[v.header][0].eq(v.k):
                known[v.header] = (v.k, [k for h, (k, _) in known.items() if h != v.header])
        out = [('not found before', z3.Implies(c.found, v.k <= c.F)), ('within string', z3.And(v.k <= c.S - c.N + 1))]
        for k in c.g['ks'][v.header][1]:
            hyp(c, k, v.k)
            out += [('no mismatch yet', z3.Implies(z3.Or(z3.Not(c.found), k < c.F), v.k <= c.W(k))), ('within pattern', v.k <= c.N)]
        hyp(c, v.k, I(0))
        return out

    def gen(rng, i, il=il):
        al = [97, 98, 65] if il else [97, 98]
        x = [rng.choice(al) for _ in range(rng.randint(0, 8))]
        y = [rng.choice([97, 98]) for _ in range(rng.randint(0, 4))]
        if rng.random() < .3:
            y = [c + 32 if c == 65 else c for c in x[rng.randint(0, len(x)):]]
        return {**i, 'str': x, 'S': len(x), 'pat': y, 'N': len(y)}
    fn = 'string_%slike_simple' % ('i' if il else '')
    kw = dict(prepare=prepare, pre=pre, loops=[LoopSpec(inv=inv)], gen=gen, bmc=0)
    what = 'the pattern occurs in the string'
    cs.append(Contract(fn, list(STR), lambda c: [(what, c.ret == c.found)], dom='int', ranges=R, **kw))
    nullable(cs, fn + '_nullable', [], lambda c: [(what, c.found)], **kw)


# ---------------------------------------------------------------- LIKE
class Spec:
    """L(i,j): the string from i matches the pattern from j.  A(i,j): the string from some k >= i does.
    WF(j): the pattern from j is well formed.  CE(x): first ']' at or after x.  M(i,x): s[i] occurs in the pattern from x before the first ']'"""

    def __init__(self, s, S, p, N, esc, cc):
        B, Z = z3.BoolSort(), z3.IntSort()
        self.L, self.A, self.M = [z3.Function(n, Z, Z, B) for n in ('like', 'somelike', 'inclass')]
        self.WF, self.CE = z3.Function('wellformed', Z, B), z3.Function('classend', Z, Z)
        self.s, self.S, self.p, self.N, self.esc, self.cc = s, S, p, N, esc, cc
        self.pj = lambda j: z3.Select(p, j)
        self.si = lambda i: cc(z3.Select(s, i))

    def kind(self, j):
        pj = self.pj(j)
        esc = pj == self.esc
        return esc, z3.And(z3.Not(esc), pj == PCT), z3.And(z3.Not(esc), pj == UND), z3.And(z3.Not(esc), pj == LB)

    def one(self, i, j):
        """a one-character element at j: (matches s[i], next j)"""
        e, pc, un, cl = self.kind(j)
        return (z3.If(e, self.si(i) == self.pj(j + 1), z3.If(un, z3.BoolVal(True), z3.If(cl, self.M(i, j + 1), self.si(i) == self.pj(j)))),
                z3.If(e, j + 2, z3.If(cl, self.CE(j + 1) + 1, j + 1)))

    def rng(self, i, j):
        return z3.And(i >= 0, i <= self.S, j >= 0, j <= self.N)

    def defL(self, i, j):
        m, nj = self.one(i, j)
        pc = self.kind(j)[1]
        return z3.Implies(self.rng(i, j), self.L(i, j) == z3.If(j == self.N, i == self.S, z3.If(pc, self.A(i, j + 1), z3.And(i < self.S, m, self.L(i + 1, nj)))))

    def defA(self, i, j):
        return z3.Implies(self.rng(i, j), self.A(i, j) == z3.Or(self.L(i, j), z3.And(i < self.S, self.A(i + 1, j))))

    def defWF(self, j):
        e, pc, un, cl = self.kind(j)
        ce = self.CE(j + 1)
        return z3.Implies(z3.And(j >= 0, j <= self.N), self.WF(j) == z3.Or(j == self.N, z3.If(e, z3.And(j + 1 < self.N, self.WF(j + 2)), z3.If(cl, z3.And(ce < self.N, self.WF(ce + 1)), self.WF(j + 1)))))

    def defCE(self, x):
        return z3.Implies(z3.And(x >= 0, x <= self.N), self.CE(x) == z3.If(z3.And(x < self.N, self.pj(x) != RB), self.CE(x + 1), x))

    def lemCE(self, x):
        return z3.Implies(z3.And(x >= 0, x <= self.N), z3.And(self.CE(x) >= x, self.CE(x) <= self.N, z3.Implies(self.CE(x) < self.N, self.pj(self.CE(x)) == RB)))

    def defM(self, i, x):
        return z3.Implies(self.rng(i, x), self.M(i, x) == z3.And(x < self.N, self.pj(x) != RB, z3.Or(self.si(i) == self.pj(x), self.M(i, x + 1))))

    # lemmas (each proved by induction in lemmas())
    def lemPct(self, i, j):
        return z3.Implies(z3.And(self.rng(i, j), j < self.N, self.kind(j)[1]), self.A(i, j) == self.A(i, j + 1))

    def lemOne(self, i, j):
        return z3.Implies(z3.And(self.rng(i, j), j < self.N, z3.Not(self.kind(j)[1]), self.A(i, j)), z3.And(i < self.S, self.A(i + 1, self.one(i, j)[1])))

    def lemUnd(self, i, j):
        return z3.Implies(z3.And(self.rng(i, j), j < self.N, i < self.S, self.kind(j)[2], self.A(i + 1, j + 1)), self.A(i, j))

    def lemEnd(self, i):
        return z3.Implies(z3.And(i >= 0, i <= self.S), self.A(i, self.N))

    def inst(self, i, j):
        return [f(i, j) for f in (self.defL, self.defA, self.lemPct, self.lemOne, self.lemUnd, self.defM)] + [self.defM(i, j + 1), self.defWF(j), self.defCE(j), self.defCE(j + 1), self.lemCE(j), self.lemCE(j + 1), self.lemEnd(i)]


def status():
    s = open(units.OMNI + '/Utils/StringLike.cpp').read()
    m = re.search(r'enum\s+(?:class\s+)?LikeStatus[^{]*\{(.*?)\}', s, re.S)
    if not m:
        return dict(kLIKE_TRUE=0, kLIKE_FALSE=1, kLIKE_ABORT=2, kLIKE_ERROR=3)
    b = re.sub(r'//[^\n]*|/\*.*?\*/', '', m.group(1), flags=re.S)
    return {x.split('=')[0].strip(): k for k, x in enumerate(b.split(',')) if x.strip()}


def pymatch(s, p, esc, il):
    """reference matcher on concrete strings; None: malformed pattern"""
    lo = (lambda x: x + 32 if 65 <= x <= 90 else x) if il else (lambda x: x)
    elems, j = [], 0
    while j < len(p):
        if p[j] == esc:
            if j + 1 >= len(p):
                return None
            elems.append({p[j + 1]})
            j += 2
        elif p[j] == PCT:
            elems.append('%')
            j += 1
        elif p[j] == UND:
            elems.append(None)
            j += 1
        elif p[j] == LB:
            if RB not in p[j + 1:]:
                return None
            k = p.index(RB, j + 1)
            elems.append(set(p[j + 1:k]))
            j = k + 1
        else:
            elems.append({p[j]})
            j += 1
    reach = {0}
    for e in elems:
        if e == '%':
            reach = set(range(min(reach), len(s) + 1)) if reach else set()
        else:
            reach = {i + 1 for i in reach if i < len(s) and (e is None or lo(s[i]) in e)}
    return len(s) in reach


def recfn(mod):
    """the recursive matcher behind string_like"""
    seen, todo = set(), ['string_like']
    while todo:
        n = todo.pop()
        if n in seen or n not in mod.raw:
            continue
        seen.add(n)
        f = mod.fn(n)
        for b in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks):
            for i in b['ins']:
                if i.get('callee'):
                    if i['callee'] == n:
                        return n
                    todo.append(i['callee'])
    return None


def like(cs):
    ST = status()
    T, F, AB, ER = [ST[k] for k in ('kLIKE_TRUE', 'kLIKE_FALSE', 'kLIKE_ABORT', 'kLIKE_ERROR')]

    def gen(il):
        def g(rng, i):
            n = rng.randint(0, 7)
            al = [97, 98, 99] + ([65, 66] if il else []) + [PCT, UND]
            x = [rng.choice(al[:3 if rng.random() < .7 else len(al)]) for _ in range(n)]
            if il and rng.random() < .5:
                x = [c - 32 if 97 <= c <= 122 and rng.random() < .5 else c for c in x]
            p = []
            for _ in range(rng.randint(0, 5)):
                q = rng.random()
                if q < .3:
                    p += [PCT]
                elif q < .45:
                    p += [UND]
                elif q < .6:
                    p += [LB] + [rng.choice([97, 98, 99, PCT, UND]) for _ in range(rng.randint(0, 3))] + [RB]
                elif q < .7:
                    p += [92, rng.choice([97, PCT, UND, LB, 92])]
                else:
                    p += [rng.choice([97, 98, 99])]
            return {**i, 'str': x, 'S': len(x), 'pat': p, 'N': len(p), 'esc': 92, 'i0': 0, 'j0': 0, 'il': int(il)}
        return g

    def mk(c, il):
        if c.mode == 'conc':
            r = pymatch(c.inp['str'], c.inp['pat'], c.inp['esc'], il)
            c.v['match'] = z3.BoolVal(bool(r))
            c.v['wf'] = z3.BoolVal(r is not None and not (il and any(65 <= x <= 90 for x in c.inp['pat'])))
            return
        c.spec = Spec(c.o0['str'], c.S, c.o0['pat'], c.N, c.esc, low if il else (lambda x: x))
        for f in c.spec.inst(I(0), I(0)):
            c.assume(f)
        c.v['match'], c.v['wf'] = c.spec.L(I(0), I(0)), c.spec.WF(I(0))

    def summary(c, il):
        """contract of the recursive matcher at a call: arguments denote a suffix of the string and of the (well-formed) pattern"""
        def m(ex, i, a, mem, g):
            d = ex.d
            if len(a) != 6 or not isinstance(a[0], Ptr) or not isinstance(a[2], Ptr):
                raise Unsupported('signature of the matcher')
            c0, x = ptr_in(c, a[0], 'str')
            c1, y = ptr_in(c, a[2], 'pat')
            e = d.term(a[4])
            flag = a[5] if z3.is_bool(a[5]) else d.term(a[5]) != 0
            ex.oblige('recursive call: string and pattern suffixes', 'call', g, z3.And(c0, c1, d.term(a[1]) == c.S - x, d.term(a[3]) == c.N - y, x >= 0, x <= c.S, y >= 0, y <= c.N, e == c.esc, flag == z3.BoolVal(il), c.spec.WF(y)))
            r = d.fresh(ex.fresh('status'), 32, 0, 3)
            t = d.term(r)
            L, A = c.spec.L(x, y), c.spec.A(x, y)
            ex.fact(z3.Implies(g, z3.And(z3.Or(t == T, t == F, t == AB), z3.Implies(t == T, L), z3.Implies(t == F, z3.Not(L)), z3.Implies(t == AB, z3.Not(A)))))
            for f in c.spec.inst(x, y):
                ex.fact(f)
            return r, mem, g
        return m

    def inv(c, v):
        sp = c.spec
        pt = lambda o: [ptr_in(c, pv, o)[1] for ph, pv in v.phis if ph['ty'] == 'ptr' and isinstance(pv, Ptr) and all(x[1] is c.objs[o] for x in pv.cs)]
        Is, Js = pt('str'), pt('pat')
        known = c.g.setdefault('known', {})
        h = v.header
        if z3.is_const(v.k) and v.k.decl().kind() == z3.Z3_OP_UNINTERPRETED and (h not in known or not known[h][4].eq(v.k)):
            known[h] = (Is, Js, [x for hh, q in known.items() if hh != h for x in q[0]] + [c.i0], [x for hh, q in known.items() if hh != h for x in q[1]] + [c.j0], v.k)
        ki, kj = known[h][2:4]
        out = []
        ip = int_phis(v)
        for x in Is:
            out.append(('string position', z3.And(x >= 0, x <= c.S)))
            out += [('string rest ' + n, t == c.S - x) for n, t in ip]
        for y in Js:
            out.append(('pattern position', z3.And(y >= 0, y <= c.N)))
            out.append(('rest well formed', sp.WF(y)))
            out += [('pattern rest ' + n, t == c.N - y) for n, t in ip]
            for z in kj:
                out += [('same class', sp.CE(z + 1) == sp.CE(y)), ('before the end of the class', z3.And(y >= z + 1, y <= sp.CE(z + 1)))]
                for x in ki:
                    out.append(('class member', sp.M(x, z + 1) == sp.M(x, y)))
        L0, A0 = sp.L(c.i0, c.j0), sp.A(c.i0, c.j0)
        for x in (Is or ki):
            for y in (Js or kj):
                for f in sp.inst(x, y):
                    c.assume(f)
                out += [('match of the rest', L0 == sp.L(x, y)), ('some match of the rest', z3.Implies(A0, sp.A(x, y))), ('search', L0 == sp.A(x, y))]
        return out

    def native(nat, con, mod, inp):
        import ctypes
        il = bool(inp['il'])
        f = nat.get('string_ilike' if il else 'string_like')
        a = [bytes(inp['str']), len(inp['str']), bytes(inp['pat']), len(inp['pat']), inp['esc']]
        f.argtypes = [ctypes.c_char_p, ctypes.c_int32, ctypes.c_char_p, ctypes.c_int32, ctypes.c_int8]
        f.restype = ctypes.c_bool
        return {'ret': T if f(*a) else F, 'bufs': {}, 'addr': {}}
    for il in (False, True):
        okesc = lambda c: z3.And(*[c.esc != x for x in (PCT, UND, LB, RB)])

        def setup(c, ex, mem, vals, il=il):
            p = lambda o, t: Ptr([(z3.BoolVal(True), c.objs[o], Off(0, [(1, vals[t])]))])
            d = ex.d
            return [p('str', 'i0'), IV(c.S - c.i0, 0, 2**30), p('pat', 'j0'), IV(c.N - c.j0, 0, 2**30), vals['esc'], z3.BoolVal(il)]

        def prep(c, il=il):
            mk(c, il)
            if c.mode != 'conc':
                for f in c.spec.inst(c.i0, c.j0):
                    c.assume(f)
                c.ex.summaries[c.ex.fname] = summary(c, il)

        def mpre(c):
            r = [okesc(c), c.wf]
            if c.mode != 'conc':
                r += [c.i0 >= 0, c.i0 <= c.S, c.j0 >= 0, c.j0 <= c.N, c.spec.WF(c.j0)]
            return r

        def mpost(c):
            if c.mode == 'conc':
                return [('match', (c.ret == T) == c.match)]
            L, A = c.spec.L(c.i0, c.j0), c.spec.A(c.i0, c.j0)
            return [('TRUE only for a match', z3.Implies(c.ret == T, L)), ('FALSE only without a match', z3.Implies(c.ret == F, z3.Not(L))), ('ABORT only when no later start matches either', z3.Implies(c.ret == AB, z3.Not(A))),
                    ('a well-formed pattern gives TRUE, FALSE or ABORT', z3.Or(c.ret == T, c.ret == F, c.ret == AB))]
        cs.append(Contract(recfn, [('str', Arr(1, lambda c: c.S, ro=True)), ('S', 'i32'), ('pat', Arr(1, lambda c: c.N, ro=True)), ('N', 'i32'), ('i0', 'i32'), ('j0', 'i32'), ('esc', 'i8'), ('il', Lit('i1', il))],
                           mpost, pre=mpre, setup=setup, prepare=prep, loops=[LoopSpec(inv=inv)], gen=gen(il), native=native, dom='int', ranges={**R, 'i0': (0, 2**30), 'j0': (0, 2**30)}, bmc=0,
                           label='string_like_match[%s]' % ('ILIKE' if il else 'LIKE')))

        def prep2(c, il=il):
            mk(c, il)
            if c.mode != 'conc':
                n = recfn(c.ex.m)
                if n:
                    c.ex.summaries[n] = summary(c, il)
        fn = 'string_ilike' if il else 'string_like'
        pre = lambda c: [okesc(c), c.wf]
        what = 'the string matches the pattern'
        kw = dict(pre=pre, prepare=prep2, gen=gen(il), bmc=0)
        cs.append(Contract(fn, STR + [('esc', 'i8')], lambda c: [(what, c.ret == c.match)], dom='int', ranges=R, **kw))
        nullable(cs, fn + '_nullable', [('esc', 'i8')], lambda c: [(what, c.match)], **kw)


def lemmas():
    Z = z3.IntSort()
    s, p = z3.Array('s', Z, Z), z3.Array('p', Z, Z)
    S, N, esc, i, j = z3.Ints('S N esc i j')
    out = []
    for nm, cc in (('LIKE', lambda x: x), ('ILIKE', low)):
        sp = Spec(s, S, p, N, esc, cc)
        base = [S >= 0, N >= 0, sp.rng(i, j)]
        defs = [sp.defL(i, j), sp.defA(i, j), sp.defA(i, j + 1), sp.defA(i + 1, j + 1), sp.defA(i, j + 2), sp.defA(i + 1, j + 2), sp.defA(i + 1, sp.CE(j + 1) + 1), sp.defA(i + 1, j), sp.defL(i + 1, j), sp.defL(i, j + 1), sp.defL(i + 1, j + 1), sp.lemCE(j + 1), sp.WF(j), sp.defWF(j)]
        step = lambda f: z3.Implies(i < S, f(i + 1))
        und = [sp.defL(i, j), sp.defA(i, j), sp.defA(i + 1, j + 1), sp.defL(i + 1, j + 1), sp.defA(i + 1, j), sp.defL(i + 1, j)]
        out += [(nm + ": a leading % does not change which suffixes match (induction on the string)", base + defs + [step(lambda x: sp.lemPct(x, j))], sp.lemPct(i, j)),
                (nm + ': a one-character element consumes one character (induction)', base + defs + [step(lambda x: sp.lemOne(x, j))], sp.lemOne(i, j)),
                (nm + ': _ can be prepended (induction)', base + und + [step(lambda x: sp.lemUnd(x, j)), j < N, sp.kind(j)[2]], sp.lemUnd(i, j)),
                (nm + ': the empty pattern matches the empty suffix (induction)', base + [sp.defL(i, N), sp.defA(i, N), step(sp.lemEnd)], sp.lemEnd(i)),
                (nm + ': end of a class (induction on the pattern)', base + [sp.defCE(j), z3.Implies(j < N, sp.lemCE(j + 1))], sp.lemCE(j))]
    return out
