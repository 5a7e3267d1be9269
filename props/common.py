"""helpers shared by the property files"""
import z3
from dom import *
from core import *
from contract import *

INTS = {'int8_t': 8, 'int16_t': 16, 'int32_t': 32, 'int64_t': 64}
FPS = {'float': 'float', 'double': 'double'}


def sx(x, w):
    return x if x.size() == w else z3.SignExt(w - x.size(), x)


def zx(x, w):
    return x if x.size() == w else z3.ZeroExt(w - x.size(), x)


def tr(x, w):
    return x if x.size() == w else z3.Extract(w - 1, 0, x)


def irty(t):
    if t in INTS:
        return 'i%d' % INTS[t]
    return t


def isnull(x, null):
    """value compares equal to the sentinel (numeric comparison, as SQL NULL encoding does)"""
    if z3.is_fp(x):
        return z3.fpEQ(x, null)
    w = max(x.size(), null.size())
    return sx(x, w) == sx(null, w)


def asres(x, w):
    if z3.is_fp(x):
        return x
    return tr(x, w)


# ---------------------------------------------------------------- loop-invariant templates
def int_phis(v):
    """(name, 64-bit/Int term) of the integer header variables of a loop"""
    out = []
    for i, (ph, pv) in enumerate(v.phis):
        ty = ph['ty']
        if ty == 'ptr' or ty == 'i1' or ty in FSORT or ty[0] != 'i' or isinstance(pv, list):
            continue
        if isinstance(pv, IV):
            out.append(('v%d' % i, v.ex.d.term(pv, int(ty[1:]))))
        elif z3.is_bv(pv):
            out.append(('v%d' % i, zx(pv, 64)))
            if pv.size() < 64:
                out.append(('v%ds' % i, sx(pv, 64)))
    return out


def done_sets(v, n, strides=(1, 2, 4, 8)):
    """candidate descriptions of the elements a loop over 0..n-1 has processed: name -> (predicate of j, progress facts)"""
    isint = not z3.is_bv(n)
    lt = (lambda a, b: a < b) if isint else z3.ULT
    le = (lambda a, b: a <= b) if isint else z3.ULE
    out = []
    for u in strides:
        out.append(('first %d*k' % u, lambda j, u=u: lt(j, v.k * u), v.k * u))
    out.append(('last k', lambda j: z3.Not(lt(j, n - v.k)), v.k))
    for nm, t in int_phis(v):
        out.append(('below ' + nm, lambda j, t=t: lt(j, t), t))
        out.append(('from ' + nm, lambda j, t=t: z3.Not(lt(j, t)), t))
    return out


def map_inv(n, objs, final, extra=None, sk='j'):
    """invariants for loops that rewrite elements one by one.
    n(c): element count; objs: parameter names; final(c, name, j): final value of element j (over the initial state)"""
    def inv(c, v):
        nn = n(c)
        j = c.sk(sk)
        out = []
        rng = z3.And(j >= 0, j < nn) if c.int else z3.ULT(j, nn)
        for nm, pred, pr in done_sets(v, nn):
            for o in objs:
                a, old = v.arr(c.objs[o]), c.o0[o]
                out.append(('%s: processed %s' % (o, nm), z3.Select(a, j) == z3.If(z3.And(rng, pred(j)), final(c, o, j), z3.Select(old, j))))
            out.append(('progress ' + nm, pr <= nn if c.int else z3.ULE(pr, nn)))
            out.append(('progress signed ' + nm, pr <= nn))
            out.append(('nonneg ' + nm, pr >= 0))
        if extra:
            out += extra(c, v)
        return out
    return inv


# ---------------------------------------------------------------- hashing, probing, pointers
def mhash(keyparam, nbytes):
    """hash of the whole key with seed 0: one arbitrary value H; of anything else: another arbitrary value"""
    def m1(c, ex, i, a, mem, g):
        p = a[0]
        ok = len(p.cs) == 1 and p.cs[0][1] is c.objs[keyparam] and p.cs[0][2].isconst() and p.cs[0][2].c == 0
        nb = nbytes(c) if callable(nbytes) else nbytes
        H, X = ex.d.fresh('H', 32, 0, 2**32 - 1), ex.d.fresh(ex.fresh('hash'), 32, 0, 2**32 - 1)
        if not ok:
            return X, mem, g
        return ex.d.ite(z3.And(ex.d.term(a[1], 32) == nb, ex.d.term(a[2], 32) == 0), H, X, 32), mem, g
    return m1


def hashof(c, keyparam, w, name='MurmurHash1'):
    if c.mode != 'conc':
        return z3.Int('H')
    import ctypes
    f = c.native.get(name)
    f.restype = ctypes.c_uint32
    kb = b''.join((int(x) & (256**w - 1)).to_bytes(w, 'little') for x in c.inp[keyparam])
    return z3.IntVal(f(kb, ctypes.c_int(len(kb)), ctypes.c_uint32(0)))


class Probe:
    """open addressing: slots h, h+1, ... n-1, 0, ... h-1.  stop(s): the search ends at s.
    Ghosts: F = first slot in probe order where the search ends (case A), or no slot ends it (case B)."""

    def __init__(self, c, n, H, stop, wf=None):
        self.c, self.n, self.stop = c, n, stop
        if c.mode == 'conc':
            self.h = z3.simplify(H % n)
        else:
            self.h = H % n
            c.assume(z3.And(self.h >= 0, self.h < n, z3.Implies(H < n, self.h == H)))
        self.wf = wf
        self.F = c.sk('F')
        self.A = z3.Bool('some slot ends the search')

    def dist(self, s):
        return z3.If(s >= self.h, s - self.h, s - self.h + self.n)

    def distp(self, s):
        """distance travelled when standing at s after at least one step"""
        return z3.If(s > self.h, s - self.h, s - self.h + self.n)

    def facts(self):
        if self.c.mode == 'conc':
            return [self.wf(self.c.I(s)) for s in range(self.n.as_long())] if self.wf else []
        return [z3.Implies(self.A, z3.And(self.F >= 0, self.F < self.n, self.stop(self.F), self.wf(self.F) if self.wf else True))]

    def hyp(self, s):
        """instance at s of: no slot before F (case A) / no slot at all (case B) ends the search"""
        ok = z3.And(s >= 0, s < self.n)
        if self.wf:
            self.c.assume(z3.Implies(ok, self.wf(s)))
        self.c.assume(z3.Implies(z3.And(ok, z3.Or(z3.Not(self.A), self.dist(s) < self.dist(self.F))), z3.Not(self.stop(s))))

    def inv(self, v):
        n, h, A = self.n, self.h, self.A
        ts = [(nm, t) for nm, t in int_phis(v)]
        ts += [('h+' + nm, z3.If(h + t < n, h + t, h + t - n)) for nm, t in list(ts)]
        out = []
        dF = self.dist(self.F)
        for nm, t in ts:
            self.hyp(t)
            out += [('in table ' + nm, z3.And(t >= 0, t < n)), ('F not passed, after a step ' + nm, z3.Implies(A, self.distp(t) <= dF)),
                    ('F not passed ' + nm, z3.Implies(A, self.dist(t) <= dF)), ('not home ' + nm, t != h),
                    ('bounded ' + nm, z3.And(t >= 0, t <= n)), ('F not passed, count ' + nm, z3.Implies(A, t <= dF)), ('positive ' + nm, t > 0)]
        self.hyp(h)
        return out

    def search(self):
        """concrete mode: the slot found or None"""
        n, h = z3.simplify(self.n).as_long(), z3.simplify(self.h).as_long()
        for d in range(n):
            s = self.c.I((h + d) % n)
            if z3.is_true(z3.simplify(self.stop(s))):
                return s
        return None

    def found(self, f, none):
        """f(F) in case A, none in case B"""
        if self.c.mode == 'conc':
            s = self.search()
            return [('search result', f(s) if s is not None else none)]
        return [('first ending slot in probe order decides', z3.Implies(self.A, f(self.F))), ('no slot ends the search: no match', z3.Implies(z3.Not(self.A), none))]


def ptr_at(c, n, byte):
    """the returned pointer addresses byte `byte` of parameter n's object"""
    if c.mode == 'conc':
        g, o, f = c.ret.cs[0]
        return z3.BoolVal(False) if not isinstance(o, tuple) or o[1] != n else (c.I(f.c) == byte)
    b = IV(byte, 0, 1 << 60) if c.int else byte
    return c.ex.ptr_cmp('eq', c.ret, Ptr([(z3.BoolVal(True), c.objs[n], Off(0, [(1, b)]))]))


def is_null(c):
    if c.mode == 'conc':
        return z3.BoolVal(c.ret.cs[0][1] is None)
    return c.ex.ptr_cmp('eq', c.ret, NULL)
