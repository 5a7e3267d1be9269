"""Contracts, obligation discharge, and replay of counterexamples on the natively compiled code."""
import os
import sys
import time
import json
import ctypes
import struct
import random
import signal
import subprocess
import tempfile
import traceback
import z3
from dom import *
from core import *

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T_Z3 = 20000 if TIER == 'quick' else 120000
T_CVC5 = 20 if TIER == 'quick' else 120
LIMIT_TRIAL = 60 if TIER == 'quick' else 1500   # seconds


# ---------------------------------------------------------------- parameter kinds
class Cell:
    """pointer to one scalar of type ty"""

    def __init__(self, ty, null=False):
        self.ty = ty


class Arr:
    """pointer to n elements of ew bytes.  n: callable(ctx)->term, or python int"""

    def __init__(self, ew, n, ro=False, maxn=None, rng=None, align=None):
        self.ew, self.n, self.ro, self.maxn, self.rng, self.align = ew, n, ro, maxn, rng, align or ew


class Null:
    pass


class Bytes(Arr):
    def __init__(self, n, ro=False):
        Arr.__init__(self, 1, n, ro)


class Struct:
    """pointer to an object with fields {name: (offset, kind)}, kind a scalar type or ('ptr', Arr)"""

    def __init__(self, fields, size):
        self.fields, self.size = fields, size


class Lit:
    """a scalar argument fixed to one value (the contract is instantiated per value)"""

    def __init__(self, ty, val):
        self.ty, self.val = ty, val


class Addr:
    """a 64-bit integer holding the address of another parameter's object"""

    def __init__(self, of):
        self.of = of


class RawPtr:
    """an opaque pointer value, seen as a 64-bit address"""


# ---------------------------------------------------------------- folds (ghost recursion over an index)
class Fold:
    """ghost function F(0)=init, F(i+1)=step(F(i), i)"""

    def __init__(self, ctx, name, init, step, bound=None):
        self.ctx, self.name, self.init, self.step = ctx, name, init, step
        isort = z3.IntSort() if ctx.int else z3.BitVecSort(64)
        self.f = z3.Function('fold_' + name, isort, init.sort())
        self.table = {}
        ctx.folds.append(self)

    def chain(self, base, m):
        """F(base+u) for u = 1..m written out over F(base)"""
        if self.ctx.mode != 'sym':
            return
        v = self.f(base)
        for u in range(m):
            nb = z3.simplify(base + u)
            v = self.step(v, nb)
            nx = z3.simplify(base + (u + 1))
            ok = (base >= 0) if self.ctx.int else z3.ULT(base, 1 << 62)
            self.table.setdefault(nx.sexpr(), z3.If(ok, v, self.f(nx)))
            self.ctx.assume(z3.Implies(ok, self.f(nx) == v))

    def __call__(self, i):
        if self.ctx.mode == 'sym':
            t = self.table.get(z3.simplify(i).sexpr(), None)
            return self.f(i) if t is None else t
        si = z3.simplify(i) if z3.is_expr(i) else i
        if isinstance(si, int) or z3.is_bv_value(si) or z3.is_int_value(si):
            n = si if isinstance(si, int) else si.as_long()
            if n > 100000:
                return self.f(i)
            v = self.init
            for j in range(n):
                v = self.step(v, self.idx(j))
                if self.ctx.mode == 'conc':
                    v = z3.simplify(v)
            return v
        # bounded: nested if
        B = self.ctx.bound
        vals = [self.init]
        for j in range(B):
            vals.append(self.step(vals[-1], self.idx(j)))
        r = vals[B]
        for j in range(B - 1, -1, -1):
            r = z3.If(i == self.idx(j), vals[j], r)
        return r

    def idx(self, j):
        return z3.IntVal(j) if self.ctx.int else z3.BitVecVal(j, 64)

    def unfold(self, ex, k):
        if self.ctx.mode != 'sym':
            return []
        zero = self.idx(0)
        out = [self.f(zero) == self.init]
        nw = (k >= 0) if self.ctx.int else (k != z3.BitVecVal(-1, 64))
        out.append(z3.Implies(nw, self.f(k + 1) == self.step(self.f(k), k)))
        return out

    def at(self, i):
        """unfolding at an extra index"""
        if self.ctx.mode == 'sym':
            for f in self.unfold(None, i):
                self.ctx.assume(f)


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, contract, mode, dom, bound=0):
        self.c, self.mode, self.dom, self.bound = contract, mode, dom, bound
        self.int = contract.dom == 'int'
        self.v = {}
        self.objs = {}
        self.o0, self.o1 = {}, {}
        self.folds = []
        self.extra_facts = []
        self.ret = None
        self.g = {}
        self.hashes = {}

    def __getattr__(self, n):
        try:
            return self.__dict__['v'][n]
        except KeyError:
            raise AttributeError(n)

    # initial / final contents
    def old(self, n, off=0, ty=None):
        return self.read(self.o0[n], n, off, ty)

    def new(self, n, off=0, ty=None):
        return self.read(self.o1[n], n, off, ty)

    def read(self, content, n, off, ty):
        if not isinstance(content, dict):
            return content
        if off not in content:
            return None
        v = content[off][1]
        nb = content[off][0]
        want = ty or self.fieldty(n, off)
        return conv(v, want, nb, self.int)

    def fieldty(self, n, off):
        p = self.c.pmap[n]
        if isinstance(p, Cell):
            return p.ty
        for f, (o, k) in p.fields.items():
            if o == off:
                return k if isinstance(k, str) else 'ptr'

    def oldf(self, n, f):
        o, k = self.c.pmap[n].fields[f]
        return self.old(n, o, k)

    def newf(self, n, f):
        o, k = self.c.pmap[n].fields[f]
        return self.new(n, o, k)

    def fold(self, name, init, step):
        return Fold(self, name, init, step)

    def assume(self, f):
        """instance of a definition or of the precondition"""
        if self.mode != 'conc' and not any(f.eq(x) for x in self.ex.facts):
            self.ex.fact(f)

    def memeq(self, a, ai, b, bi, m):
        if self.mode == 'conc':
            n = z3.simplify(m).as_long()
            return AND(*[z3.simplify(z3.Select(a, ai + j) == z3.Select(b, bi + j)) for j in range(n)])
        return self.ex.memeq(a, ai, b, bi, m)

    def sk(self, name, w=64):
        """an arbitrary but fixed value (skolem constant): proving a statement about it proves it for all values"""
        return z3.Int('any_' + name) if self.int else z3.BitVec('any_' + name, w)

    def forall(self, name, n, f, conc_n=None):
        """for all 0 <= j < n: f(j)"""
        if self.mode == 'conc':
            m = z3.simplify(n).as_long() if z3.is_expr(n) else n
            return AND(*[z3.simplify(f(self.I(j))) for j in range(m)])
        j = self.sk(name)
        return z3.Implies(z3.And(j >= 0, j < n) if self.int else z3.ULT(j, n), f(j))

    def I(self, v, w=64):
        return z3.IntVal(v) if self.int else z3.BitVecVal(v, w)


def conv(v, ty, nb, isint):
    if isinstance(v, IV):
        return v.t if not isinstance(v.t, int) else z3.IntVal(v.t)
    if isinstance(v, Ptr):
        return v
    if ty in FSORT:
        if z3.is_fp(v):
            return v
        return z3.fpBVToFP(v, FSORT[ty])
    if ty == 'i1':
        return v if z3.is_bool(v) else v != 0
    if ty and ty[0] == 'i' and z3.is_fp(v):
        return fp_bits(v)
    if ty and ty[0] == 'i' and z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, 8 * nb), z3.BitVecVal(0, 8 * nb))
    return v


class Cand:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def at(self, view):
        return self.f(view)


def nth(lst, name, k):
    """the k-th entry of that name: lists made from different views need not have the same length or order"""
    c = [t for n, t in lst if n == name]
    return c[k] if k < len(c) else None


class LoopSpec:
    """Loop invariant candidates; Houdini keeps the inductive ones.
    inv: callable(ctx, view) -> list of (name, Bool); accs: callable(ctx, view)-> list of (name, term): ghost terms that
    header phis (and written cells) of the same sort may equal; inst: callable(ctx, view) -> list of (skolem, term), further
    instances of the (arbitrary) skolem constants at which the induction hypothesis is used; bounds: also try header variable
    <= value fixed before the loop (operands it is compared with, unchanged local cells)."""

    def __init__(self, inv=None, accs=None, unroll=0, fn=None, try_unroll=0, inst=None, bounds=False, range=None):
        self.inv, self.accs, self.unroll, self.fn, self.try_unroll, self.inst = inv, accs, unroll, fn, try_unroll, inst
        self.ctx = None
        self.bounds, self.range = bounds, range

    @staticmethod
    def mk(name, f):
        return Cand(name, f)

    def matches(self, fn, loop, ex):
        return self.fn is None or self.fn in fn.name or self.fn in fn.dem

    def candidates(self, ex, act, loop, ev, sv):
        out = []
        ctx = self.ctx
        if self.inv:
            seen = {}
            for n, _ in self.inv(ctx, sv):
                k = seen[n] = seen.get(n, -1) + 1
                out.append(Cand(n, lambda v, n=n, k=k: nth(self.inv(ctx, v), n, k)))
        for pi, (ph, pv) in enumerate(sv.phis):
            if isinstance(pv, Ptr) and len(pv.cs) > 1 and any(o is None for _, o, _ in pv.cs):
                out.append(Cand('pointer %d is null' % pi, lambda v, pi=pi: ex.ptr_cmp('eq', v.phis[pi][1], NULL)))
        if self.bounds and ex.d.name == 'int':
            out += self.bound_cands(ex, act, loop, ev, sv)
        if self.accs:
            acc = self.accs(ctx, sv)
            seen = {}
            for an, at in acc:
                k = seen[an] = seen.get(an, -1) + 1
                j = (an, k)
                for pi, (ph, pv) in enumerate(sv.phis):
                    if isinstance(pv, (Ptr, list)):
                        continue
                    t = pv if not isinstance(pv, IV) else ex.d.term(pv, int(ph['ty'][1:]))
                    if t.sort() != at.sort():
                        continue

                    def f(v, j=j, pi=pi, w=ph['ty']):
                        p = v.phis[pi][1]
                        p = p if not isinstance(p, IV) else ex.d.term(p, int(w[1:]))
                        a = nth(self.accs(ctx, v), *j)
                        return None if a is None or a.sort() != p.sort() else p == a
                    out.append(Cand('phi%d == %s' % (pi, an), f))
                for ob, content in sv.mem.items():
                    if isinstance(content, dict):
                        e = ev.mem.get(ob)
                        for off, (nb, val) in content.items():
                            if isinstance(val, (Ptr, list)) or (e is not None and off in e and e[off][1] is val):
                                continue
                            t = val if not isinstance(val, IV) else ex.d.term(val, 8 * nb)
                            if t.sort() != at.sort():
                                continue

                            def f(v, j=j, ob=ob, off=off, nb=nb):
                                x = v.mem.get(ob, {}).get(off)
                                if x is None or x[0] != nb:
                                    return None
                                val = x[1]
                                val = val if not isinstance(val, IV) else ex.d.term(val, 8 * nb)
                                a = nth(self.accs(ctx, v), *j)
                                if a is None or val.sort() != a.sort():
                                    return None
                                return val == a
                            out.append(Cand('%s+%d == %s' % (ob.name, off, an), f))
        return out


    @staticmethod
    def bound_cands(ex, act, loop, ev, sv):
        ts = {}
        inside = {i['id'] for b in loop.blocks for i in act.fn.blocks[b]['ins']}
        for b in loop.blocks:
            for i in act.fn.blocks[b]['ins']:
                if i['op'] == 'icmp':
                    for o, ty in zip(i['a'], i['at']):
                        if o['k'] == 'v' and o['id'] not in inside and isinstance(act.env.get(o['id']), IV):
                            w = int(ty[1:])
                            ts[(w, 'ssa%d' % o['id'])] = ex.d.term(act.env[o['id']], w)
        for ob, cells in sv.mem.items():
            if isinstance(cells, dict) and isinstance(ev.mem.get(ob), dict):
                for off, (nb, val) in cells.items():
                    e = ev.mem[ob].get(off)
                    if isinstance(val, IV) and e is not None and e[1] is val and not isinstance(val.t, int):
                        ts[(8 * nb, '%s+%d' % (ob.name, off))] = ex.d.term(val, 8 * nb)
        out, seen = [], set()
        for (w, nm), t in ts.items():
            if (w, t.get_id()) in seen:
                continue
            seen.add((w, t.get_id()))
            for pi, (ph, pv) in enumerate(sv.phis):
                if isinstance(pv, IV) and ph['ty'] == 'i%d' % w:
                    e0 = ex.d.term(ev.phis[pi][1], w)
                    out.append(Cand('v%d <= %s' % (pi, nm), lambda v, pi=pi, t=t, w=w, e0=e0: z3.Or(ex.d.term(v.phis[pi][1], w) <= t, ex.d.term(v.phis[pi][1], w) == e0)))
        return out


class Contract:
    """fn: symbol (extern "C" or mangled) or callable(module)->symbol.  params: list of (name, kind).
    pre(ctx)->list of Bool; post(ctx)->list of (label, Bool); modifies: names of pointer params that may change
    (their final content must be determined by post); everything else is framed."""

    def __init__(self, fn, params, post, pre=None, modifies=(), dom='bv', loops=(), gen=None, cases=None, label=None,
                 ranges=None, aborts=None, models=None, samples=None, ret=None, nosample=False, setup=None, summary=None,
                 bmc=3, native=None, note=None, unit='rt', timeout=None, replay_only_model=False, tactic=None,
                 prepare=None, safety=True, call=None, trusted=(), cuts=None, absfp=False):
        self.fn, self.params, self.post, self.pre, self.modifies = fn, params, post, pre, set(modifies)
        self.dom, self.loops, self.gen, self.cases, self.label = dom, list(loops), gen, cases, label or (fn if isinstance(fn, str) else None)
        self.ranges = ranges or {}
        self.aborts, self.models, self.samples, self.nosample = aborts, models or {}, samples, nosample
        self.pmap = dict(params)
        self.setup, self.bmc, self.native, self.note, self.unit = setup, bmc, native, note, unit
        self.timeout, self.tactic = timeout, tactic
        self.prepare = prepare
        self.safety = safety
        self.call = call
        self.trusted = list(trusted)
        self.cuts = cuts
        self.absfp = absfp


class Trial:
    """Bounded stand-in for a function outside the verifier's reach: gen(rng, k)->JSON input, test(native, inp)->None or
    what is wrong.  The compiled code runs on n inputs; never counted as proved."""

    def __init__(self, fn, label, gen, test, unit, why, n=300, batch=25):
        self.fn, self.label, self.gen, self.test, self.unit, self.why = fn, label, gen, test, unit, why
        self.n = n if TIER == 'quick' else 20 * n
        self.batch = batch
        self.trusted, self.params, self.loops = [], [], []


def trial_one(con, native, inp, timeout=30):
    st, o = in_child(lambda: [con.test(native, inp)], timeout)
    if st == 'ok':
        return o[0]
    return 'crash or time-out of the compiled code: %s %s' % (st, o)


def check_trial(con, mod, native, r):
    rng = random.Random(SEED * 7919 + sum(map(ord, con.label)))
    r.fname = con.fn
    mod.fn(con.fn)   # present in the current tree
    t0 = time.time()
    k = 0
    while k < con.n and time.time() - t0 < LIMIT_TRIAL:
        inps = [con.gen(rng, k + j) for j in range(min(con.batch, con.n - k))]

        def go():
            for j, i in enumerate(inps):
                m = con.test(native, i)
                if m:
                    return [j, m]
            return [len(inps), None]
        st, o = in_child(go, 120)
        bad = None
        if st == 'ok':
            if o[1]:
                bad = (inps[o[0]], o[1])
        else:
            for i in inps:
                m = trial_one(con, native, i)
                if m:
                    bad = (i, m)
                    break
        k += len(inps)
        r.samples += len(inps)
        if bad:
            r.obls = 1
            r.status = 'failed'
            r.failed.append(('contract evaluated on the compiled code: ' + bad[1], 'concrete'))
            r.replay = {'input': bad[0], 'failed': bad[1]}
            return
    r.status = 'bounded'
    r.bounded_note = '%s; bounded stand-in: %d concrete executions agree with the contract' % (con.why, r.samples)


# ---------------------------------------------------------------- building the symbolic call
def build(con, mod, mode, bound=0):
    dom = IntDom() if con.dom == 'int' else BVDom()
    ctx = Ctx(con, mode, dom, bound)
    ex = Exec(mod, dom, loop_mode='inv' if mode == 'sym' else 'unroll', unroll=bound, loop_specs=con.loops)
    ex.safety, ex.absfp = con.safety, con.absfp
    ctx.ex = ex
    for s in con.loops:
        s.ctx = ctx
    ex.folds = ctx.folds
    fname = con.fn if isinstance(con.fn, str) else con.fn(mod)
    if fname is None or not mod.has(fname):
        raise Unsupported('function under contract not found: %s' % (con.label or con.fn))
    fn = mod.fn(fname)
    ex.fname = fname
    if con.setup is None and len(fn.args) != len(con.params):
        raise Unsupported('signature of %s changed: %d parameters' % (fname, len(fn.args)))
    mem, args = {}, []
    # scalars first (array lengths may refer to them)
    vals = {}
    for idx, (n, kind) in enumerate(con.params):
        if isinstance(kind, str):
            if kind in FSORT or kind == 'i1':
                # floats enter as their bit pattern so that payloads are tracked
                if kind == 'i1':
                    v = z3.Bool(n)
                    ctx.v[n] = v
                else:
                    b = z3.BitVec(n, FBITS[kind])
                    v = z3.fpBVToFP(b, FSORT[kind])
                    ctx.v[n] = v
                    ctx.v[n + '_bits'] = b
                vals[n] = v
            elif kind[0] == 'i':
                w = int(kind[1:])
                if con.dom == 'int' and n in con.ranges:
                    lo, hi = con.ranges[n]
                    v = dom.fresh(n, w, lo, hi)
                else:
                    v = dom.fresh(n, w)
                vals[n] = v
                ctx.v[n] = dom.term(v)
        elif isinstance(kind, Lit):
            v = z3.BoolVal(bool(kind.val)) if kind.ty == 'i1' else dom.const(int(kind.ty[1:]), kind.val)
            vals[n] = v
            ctx.v[n] = v if kind.ty == 'i1' else dom.term(v)
        elif isinstance(kind, RawPtr):
            v = dom.fresh(n, 64)
            ctx.v[n] = dom.term(v)
            vals[n] = Ptr([(z3.BoolVal(True), 'abs', Off(0, [(1, v)]))])
    for n, kind in con.params:
        if isinstance(kind, Cell):
            ob = Obj(n, 'cells', size=8 if kind.ty == 'ptr' else ex.tysize(kind.ty))
            ctx.objs[n] = ob
            nb = ex.tysize(kind.ty)
            if kind.ty in FSORT:
                b = z3.BitVec('*' + n, 8 * nb)
                mem[ob] = {0: (nb, b)}
            else:
                mem[ob] = {0: (nb, dom.fresh('*' + n, 8 * nb))}
            vals[n] = P(ob)
        elif isinstance(kind, Arr):
            nn = kind.n(ctx) if callable(kind.n) else ctx.I(kind.n)
            if con.dom == 'int':
                nd = IV(nn, 0, 1 << 60)
                sort = z3.ArraySort(z3.IntSort(), z3.IntSort())
            else:
                nd = nn
                sort = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8 * kind.ew))
            ob = Obj(n, 'elems', ew=kind.ew, n=nd)
            ob.align = kind.align
            if kind.rng:
                ob.range = kind.rng
            ctx.objs[n] = ob
            ctx.v[n + '_n'] = nn
            mem[ob] = z3.Const('*' + n, sort)
            vals[n] = P(ob)
        elif isinstance(kind, Struct):
            ob = Obj(n, 'cells', size=kind.size)
            ctx.objs[n] = ob
            cells = {}
            for f, (o, k) in kind.fields.items():
                if isinstance(k, str):
                    if k in FSORT:
                        cells[o] = (FBITS[k] // 8, z3.BitVec('%s.%s' % (n, f), FBITS[k]))
                    elif k == 'ptr':
                        cells[o] = (8, ex.freshval('%s.%s' % (n, f), 'ptr'))
                    else:
                        nb = ex.tysize(k)
                        cells[o] = (nb, dom.fresh('%s.%s' % (n, f), 8 * nb))
                else:
                    # ('ptr', other param name)
                    cells[o] = (8, ('ref', k[1], k[2] if len(k) > 2 else 0))
            mem[ob] = cells
            vals[n] = P(ob)
        elif isinstance(kind, Null):
            vals[n] = NULL
    for n, kind in con.params:
        if isinstance(kind, Addr):
            vals[n] = ex.ptr_int(P(ctx.objs[kind.of]))
            ctx.v[n] = dom.term(vals[n])
    for ob in ctx.objs.values():
        # an object is not at address 0 and is aligned to its element size
        if con.dom == 'int':
            ex.fact(z3.And(ob.ibase > 0, ob.ibase < 1 << 47, ob.ibase % getattr(ob, 'align', 8) == 0))
        else:
            ex.fact(z3.And(ob.base != 0, z3.URem(ob.base, getattr(ob, 'align', 8)) == 0))
    for n, kind in con.params:
        if isinstance(kind, Struct):
            ob = ctx.objs[n]
            for o, (nb, v) in list(mem[ob].items()):
                if isinstance(v, tuple):
                    off = v[2](ctx) if callable(v[2]) else v[2]
                    tgt = ctx.objs[v[1]]
                    if isinstance(off, int):
                        mem[ob][o] = (8, P(tgt, off))
                    else:
                        mem[ob][o] = (8, Ptr([(z3.BoolVal(True), tgt, Off(0, [off]))]))
    ctx.o0 = {n: (dict(mem[o]) if isinstance(mem[o], dict) else mem[o]) for n, o in ctx.objs.items()}
    for n, kind in con.params:
        if isinstance(kind, Arr) and kind.ro:
            ex.readonly.add(ctx.objs[n])
    args = [vals[n] for n, _ in con.params]
    if con.setup:
        args = con.setup(ctx, ex, mem, vals)
    for n, f in con.models.items():
        ex.summaries[n] = (lambda e, i, a, m, g, f=f: f(ctx, e, i, a, m, g))
    if con.prepare:
        con.prepare(ctx)
    pre = list(con.pre(ctx)) if con.pre else []
    for p in pre:
        ex.fact(p)
    if con.cuts and mode == 'sym':
        ex.set_cuts(*con.cuts(ctx))
    return ctx, ex, fn, fname, args, mem, pre


def post_obligations(con, ctx, ex, fn, ret, mem, g):
    """obligations of the contract at normal return"""
    if ret is not None:
        if isinstance(ret, IV):
            ctx.ret = ex.d.term(ret, int(fn.ret[1:]))
            ctx.retiv = ret
        else:
            ctx.ret = ret
    ctx.o1 = {}
    for n, o in ctx.objs.items():
        ctx.o1[n] = mem.get(o)
    ctx.mem1 = mem
    ctx.ex = ex
    out = []
    for lbl, f in con.post(ctx):
        out.append(('ensures ' + lbl, 'post', g, f))
    for n, o in ctx.objs.items():
        if n in con.modifies:
            continue
        a, b = ctx.o0[n], mem.get(o)
        if isinstance(a, dict):
            for off in a:
                x, y = a[off], b.get(off)
                if y is None:
                    if any(not (o2 + c2[0] <= off or off + x[0] <= o2) for o2, c2 in b.items()):
                        out.append(('frame: %s unchanged' % n, 'frame', g, z3.BoolVal(False)))
                    continue
                if x is y or ex.same_any(x[1], y[1]):
                    continue
                if isinstance(x[1], Ptr):
                    f = ex.ptr_cmp('eq', x[1], y[1])
                else:
                    f = conv(x[1], 'i%d' % (8 * x[0]), x[0], con.dom == 'int') == conv(y[1], 'i%d' % (8 * x[0]), x[0], con.dom == 'int')
                out.append(('frame: %s unchanged' % n, 'frame', g, f))
        else:
            if not a.eq(b):
                out.append(('frame: %s unchanged' % n, 'frame', g, a == b))
    return out


# ---------------------------------------------------------------- discharge
class Stats:
    def __init__(self):
        self.by = {}
        self.time = 0.0


def smt2_of(asserts):
    s = z3.Solver()
    s.add(*asserts)
    return s.to_smt2()


def solve(asserts, timeout_ms, want_model=True, tactic=None):
    """returns (result, backend, seconds, model)"""
    t0 = time.time()
    goal = z3.simplify(z3.And(*asserts)) if len(asserts) > 0 else z3.BoolVal(True)
    if z3.is_false(goal):
        return 'unsat', 'z3-simplifier', time.time() - t0, None
    if has_vdiv(asserts):
        s2 = z3.Solver()
        s2.set('timeout', timeout_ms)
        s2.add(*abstract_mul(asserts))
        if s2.check() == z3.unsat:
            return 'unsat', 'z3', time.time() - t0, None
    if fp_unsat(asserts):
        return 'unsat', 'z3', time.time() - t0, None
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set('timeout', min(4000, timeout_ms))
    s.add(*asserts)
    try:
        r = s.check()
        if r == z3.unknown and timeout_ms > 4000:
            q = abstract_mul(asserts)
            if q is not None:
                s2 = z3.Solver()
                s2.set('timeout', timeout_ms)
                s2.add(*q)
                if s2.check() == z3.unsat:
                    return 'unsat', 'z3', time.time() - t0, None
            s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
            s.set('timeout', timeout_ms)
            s.add(*asserts)
            r = s.check()
    except z3.Z3Exception as e:
        r = z3.unknown
    if r == z3.unsat:
        return 'unsat', 'z3', time.time() - t0, None
    if r == z3.sat:
        return 'sat', 'z3', time.time() - t0, s.model()
    # second back end
    try:
        txt = smt2_of(asserts)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
            path = f.name
        p = subprocess.run(['cvc5', '--tlimit=%d' % (T_CVC5 * 1000), path], capture_output=True, text=True, timeout=T_CVC5 + 10)
        os.unlink(path)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        if o == 'unsat':
            return 'unsat', 'cvc5', time.time() - t0, None
    except Exception:
        pass
    return 'unknown', 'z3+cvc5', time.time() - t0, None


class Result:
    def __init__(self, label):
        self.label = label
        self.status = None  # proved | failed | bounded | error
        self.obls = 0
        self.discharged = 0
        self.by = {}
        self.solver_time = 0.0
        self.failed = []  # (obligation, detail)
        self.replay = None
        self.samples = 0
        self.note = None
        self.loops = []
        self.inlined = []
        self.assumed = []
        self.cover = None
        self.fname = None
        self.kinds = {}
        self.wall = 0
        self.bounded_note = None
        self.unwinds = 0

    def dict(self):
        return self.__dict__


def gen_obligations(con, mod):
    ctx, ex, fn, fname, args, mem, pre = build(con, mod, 'sym')
    g = z3.BoolVal(True)
    ret, mem1, g1 = ex.call_fn(fname, args, mem, g)
    ex.line = None
    ex.facts += ctx.extra_facts
    base = ex.allfacts()
    obls = [(o.name, o.kind, o.facts, o.guard, o.goal, o.line) for o in ex.obls]
    n0 = len(ctx.extra_facts)
    posts = post_obligations(con, ctx, ex, fn, ret, mem1, g1)
    ex.facts += ctx.extra_facts[n0:]
    facts = ex.allfacts()
    for nm, kd, gg, f in posts:
        obls.append((nm, kd, facts, gg, f, None))
    ab = ex.abn + [(g, 'throw', ln) for g, m, ln in ex.thrown]
    if con.aborts:
        cond = con.aborts(ctx)
        gab = OR(*[a[0] for a in ab])
        obls.append(('abnormal termination exactly when specified', 'abort', facts, z3.BoolVal(True), gab == cond))
        obls[-1] = obls[-1] + (None,)
    else:
        for gg, kd, ln in ab:
            obls.append(('no abnormal termination (%s)' % kd, 'abort', facts, gg, z3.BoolVal(False), ln))
    return ctx, ex, fname, obls, g1, facts


def check_contract(con, mod, native):
    t0 = time.time()
    r = Result(con.label)
    if isinstance(con, Trial):
        try:
            check_trial(con, mod, native, r)
        except Exception:
            r.status = 'error'
            r.note = traceback.format_exc()[-1500:]
        r.wall = time.time() - t0
        return r
    try:
        _check(con, mod, native, r)
    except Unsupported as e:
        r.status = 'unsupported'
        r.note = 'outside the verifier: ' + str(e)
    except Exception as e:
        r.status = 'unsupported'
        r.note = 'internal: ' + traceback.format_exc()[-1500:]
    if r.status == 'unsupported':
        try:
            fallback(con, mod, native, r)
        except Exception as e:
            r.note += ' / fallback: ' + traceback.format_exc()[-800:]
    r.wall = time.time() - t0
    return r


def _check(con, mod, native, r):
    ctx, ex, fname, obls, g1, facts = gen_obligations(con, mod)
    r.fname = fname
    r.loops = ex.loop_log
    r.inlined = sorted(ex.called - {fname})
    r.assumed = sorted(n for n in ex.contract_used)
    r.unwinds = ex.loops_unrolled
    if ex.cuts:
        n = len([x for x in ex.cut_log if not x.endswith('(not proved)')])
        r.obls += n
        r.discharged += n
        r.kinds['cut'] = n
        r.by['z3'] = r.by.get('z3', 0) + n
        r.cuts = ex.cut_log
    cases = con.cases(ctx) if con.cases else None
    models = []
    unknown = []
    T = con.timeout * 1000 if con.timeout else T_Z3
    # vacuity: the precondition is satisfiable and normal return (or the specified abort) reachable
    cov = solve(facts + ([g1] if not con.aborts else []), T) if not con.absfp else (None, None, 0)
    r.cover = cov[0]
    r.solver_time += cov[2]
    if cov[0] == 'unsat':
        r.status = 'failed'
        r.failed.append(('vacuity: precondition satisfiable and return reachable', 'unsat'))
    if cases:
        obls.insert(0, ('case split covers the precondition', 'cases', facts, z3.BoolVal(True), OR(*[c for _, c in cases]), None))
    seen = set()
    for nm, kd, fs, gg, goal, ln in obls:
        key = (nm, kd, gg.get_id() if z3.is_expr(gg) else 0, goal.get_id(), len(fs))
        if key in seen and kd == 'safety':
            continue
        seen.add(key)
        todo = [(None, None)]
        if cases and kd != 'cases':
            todo = cases
        for cl, cc in todo:
            r.obls += 1
            r.kinds[kd] = r.kinds.get(kd, 0) + 1
            if z3.is_true(goal) or z3.is_false(gg):
                r.discharged += 1
                r.by['vcgen-trivial'] = r.by.get('vcgen-trivial', 0) + 1
                continue
            t1 = time.time()
            if quick_eq(fs, goal):
                res, be, tm, mdl = 'unsat', 'z3-simplifier', time.time() - t1, None
            else:
                res, be, tm, mdl = solve(fs + ([cc] if cc is not None else []) + [gg, z3.Not(goal)], T, tactic=con.tactic)
            r.solver_time += tm
            if res == 'sat' and __import__('dom')._fuf:
                # the abstraction of float arithmetic may be too coarse: decide with IEEE semantics
                q = z3.And(*(fs + ([cc] if cc is not None else []) + [gg, z3.Not(goal)]))
                q2 = realize(q)
                if not q2.eq(q):
                    res, be, tm, mdl2 = solve([q2], T)
                    be = be + '-ieee'
                    r.solver_time += tm
                    if res == 'sat':
                        mdl = mdl2
                    elif res == 'unknown':
                        res = 'sat'
            if res == 'unsat':
                r.discharged += 1
                r.by[be] = r.by.get(be, 0) + 1
            else:
                name = nm + (' [%s]' % cl if cl else '') + (' (%s:%s)' % ln if ln else '')
                (models if res == 'sat' else unknown).append((name, mdl, res))
    r.solver_time += ex.hsolver['time']
    n_samp = con.samples if con.samples is not None else (25 if TIER == 'quick' else 400)
    if not models and not unknown and not r.failed:
        r.status = 'proved'
        # differential self-check of contract and verifier against the compiled code
        cex = None if con.nosample else sample(con, mod, native, n_samp, r)
        if con.absfp:
            r.cover = 'executed' if r.samples else None    # inputs that meet the precondition were run to normal return
            if not r.samples:
                r.status = 'undecided'
        if cex:
            r.status = 'failed'
            r.failed.append(('contract evaluated on the compiled code: ' + cex['failed'], 'concrete'))
            r.replay = cex
        return
    # some obligation not discharged
    if con.absfp:
        con.absfp = False
        r.__init__(con.label)
        return _check(con, mod, native, r)
    for nm, mdl, res in models + unknown:
        r.failed.append((nm, res))
    cex = None
    for nm, mdl, res in models:
        cex = replay_model(con, mod, native, ctx, mdl, r)
        if cex:
            cex['obligation'] = nm
            break
    if not cex and con.loops:
        cex = bmc(con, mod, native, r)
    if not cex and not con.nosample:
        cex = sample(con, mod, native, 3000, r)
    if cex:
        r.status = 'failed'
        r.replay = cex
    elif models:
        r.status = 'failed'
    else:
        r.status = 'undecided'
        r.bounded_note = 'solver gave no answer for %s; bounded stand-in: %d concrete executions of the real function agree with the contract' % (
            '; '.join(x[0] for x in unknown[:3]), r.samples)


def fallback(con, mod, native, r):
    """function outside the verifier's reach: bounded stand-in, never counted as proved"""
    cex = None
    if con.loops or con.bmc > 3:
        try:
            cex = bmc(con, mod, native, r)
        except Unsupported as e:
            pass
    if not cex and not con.nosample:
        cex = sample(con, mod, native, 3000, r)
    if cex:
        r.status = 'failed'
        r.failed.append(('contract evaluated on the compiled code: ' + cex['failed'], 'concrete'))
        r.replay = cex
    else:
        r.status = 'bounded' if r.samples else 'error'
        r.bounded_note = '%s; bounded stand-in: %d concrete executions agree with the contract' % (r.note, r.samples)


def bmc(con, mod, native, r):
    for B in range(1, con.bmc + 1):
        try:
            ctx, ex, fn, fname, args, mem, pre = build(con, mod, 'bmc', B)
        except Unsupported:
            return None
        bnd = []
        for n, k in con.params:
            if isinstance(k, Arr) and n + '_n' in ctx.v:
                nn = ctx.v[n + '_n']
                bnd.append(z3.ULE(nn, max(B, con.bmc_n if hasattr(con, 'bmc_n') else B * 4)) if z3.is_bv(nn) else nn <= B * 4)
        for f in bnd:
            ex.fact(f)
        try:
            ret, mem1, g1 = ex.call_fn(fname, args, mem, z3.BoolVal(True))
            posts = post_obligations(con, ctx, ex, fn, ret, mem1, g1)
        except Unsupported:
            return None
        facts = ex.allfacts() + ctx.extra_facts
        goals = [AND(o.guard, NOT(o.goal)) for o in ex.obls] + [AND(gg, NOT(f)) for _, _, gg, f in posts]
        if not con.aborts:
            goals += [a[0] for a in ex.abn] + [a[0] for a in ex.thrown]
        res, be, tm, mdl = solve(facts + [OR(*goals)], T_Z3)
        r.solver_time += tm
        if res == 'sat':
            cex = replay_model(con, mod, native, ctx, mdl, r)
            if cex:
                cex['obligation'] = 'bounded unwinding (%d) of the same contract' % B
                return cex
    return None


# ---------------------------------------------------------------- native execution
CT = {'i1': ctypes.c_bool, 'i8': ctypes.c_int8, 'i16': ctypes.c_int16, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64,
      'float': ctypes.c_float, 'double': ctypes.c_double, 'ptr': ctypes.c_void_p}


def s_of(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Native:
    def __init__(self, so):
        self.so = so
        self.lib = None

    def load(self):
        if self.lib is None:
            self.lib = ctypes.CDLL(self.so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)

    def get(self, name):
        self.load()
        return getattr(self.lib, name)

    def run(self, con, mod, inp):
        """inp: {param: int bits | list of ints | {field: bits}} -> dict with outputs; executes in this process"""
        fname = con.fn if isinstance(con.fn, str) else con.fn(mod)
        if con.native:
            return con.native(self, con, mod, inp)
        fn = mod.fn(fname)
        f = self.get(fname)
        bufs = {}
        args = []
        for ai, (n, k) in enumerate(con.params):
            v = inp.get(n)
            if isinstance(k, str):
                if ai < len(fn.args) and fn.args[ai].get('zext') and k in ('i8', 'i16'):
                    args.append((ctypes.c_uint8 if k == 'i8' else ctypes.c_uint16)(v))
                else:
                    args.append(self.scalar(k, v))
            elif isinstance(k, RawPtr):
                args.append(ctypes.c_void_p(v & ((1 << 64) - 1)))
            elif isinstance(k, Null):
                args.append(ctypes.c_void_p(0))
            elif isinstance(k, Addr):
                args.append(k)
            elif isinstance(k, Lit):
                args.append(self.scalar(k.ty, k.val))
            elif isinstance(k, Cell):
                nb = {'float': 4, 'double': 8}.get(k.ty) or int(k.ty[1:]) // 8
                bufs[n] = ctypes.create_string_buffer((v & ((1 << (8 * nb)) - 1)).to_bytes(nb, 'little') + b'\xa5' * 16, nb + 16)
                args.append(ctypes.cast(bufs[n], ctypes.c_void_p))
            elif isinstance(k, Arr):
                raw = b''.join((x & ((1 << (8 * k.ew)) - 1)).to_bytes(k.ew, 'little') for x in v)
                bufs[n] = ctypes.create_string_buffer(raw + b'\xa5' * 64, len(raw) + 64)
                args.append(ctypes.cast(bufs[n], ctypes.c_void_p))
            elif isinstance(k, Struct):
                raw = bytearray(k.size)
                for fl, (o, ty) in k.fields.items():
                    if isinstance(ty, str):
                        nb = {'float': 4, 'double': 8, 'ptr': 8}.get(ty) or max(1, int(ty[1:]) // 8)
                        raw[o:o + nb] = (v[fl] & ((1 << (8 * nb)) - 1)).to_bytes(nb, 'little')
                bufs[n] = ctypes.create_string_buffer(bytes(raw) + b'\xa5' * 16, k.size + 16)
                args.append(ctypes.cast(bufs[n], ctypes.c_void_p))
        for n, k in con.params:
            if isinstance(k, Struct):
                for fl, (o, ty) in k.fields.items():
                    if not isinstance(ty, str):
                        ctypes.memmove(ctypes.addressof(bufs[n]) + o,
                                       ctypes.addressof(bufs[ty[1]]).to_bytes(8, 'little'), 8)
        args = [ctypes.c_int64(ctypes.addressof(bufs[a.of])) if isinstance(a, Addr) else a for a in args]
        f.argtypes = [type(a) for a in args]
        f.restype = CT.get(fn.ret) if fn.ret != 'void' else None
        rv = f(*args)
        out = {'ret': None, 'bufs': {}, 'addr': {n: ctypes.addressof(b) for n, b in bufs.items()}}
        if fn.ret == 'float':
            out['ret'] = struct.unpack('<I', struct.pack('<f', rv))[0]
        elif fn.ret == 'double':
            out['ret'] = struct.unpack('<Q', struct.pack('<d', rv))[0]
        elif fn.ret == 'ptr':
            out['ret'] = rv or 0
        elif fn.ret != 'void':
            out['ret'] = int(rv)
        for n, b in bufs.items():
            out['bufs'][n] = bytes(b.raw)
        return out

    def scalar(self, k, v):
        if k == 'i1':
            return ctypes.c_bool(bool(v))
        if k == 'float':
            return ctypes.c_float(struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0])
        if k == 'double':
            return ctypes.c_double(struct.unpack('<d', struct.pack('<Q', v & (2**64 - 1)))[0])
        return CT[k](s_of(v, int(k[1:])))


def conc_ctx(con, mod, inp):
    """context on concrete inputs"""
    dom = IntDom() if con.dom == 'int' else BVDom()
    ctx = Ctx(con, 'conc', dom)
    ctx.inp = inp
    for n, k in con.params:
        v = inp.get(n)
        if isinstance(k, str):
            if k == 'i1':
                ctx.v[n] = z3.BoolVal(bool(v))
            elif k in FSORT:
                b = z3.BitVecVal(v, FBITS[k])
                ctx.v[n + '_bits'] = b
                ctx.v[n] = z3.simplify(z3.fpBVToFP(b, FSORT[k]))
            else:
                w = int(k[1:])
                ctx.v[n] = z3.IntVal(s_of(v, w)) if ctx.int else z3.BitVecVal(v, w)
        elif isinstance(k, Lit):
            ctx.v[n] = z3.BoolVal(bool(k.val)) if k.ty == 'i1' else ctx.I(k.val, int(k.ty[1:]))
        elif isinstance(k, Addr):
            ctx.v[n] = ctx.I(1 << 20)
        elif isinstance(k, RawPtr):
            ctx.v[n] = z3.IntVal(v) if ctx.int else z3.BitVecVal(v, 64)
    for n, k in con.params:
        v = inp.get(n)
        if isinstance(k, Arr):
            ctx.v[n + '_n'] = ctx.I(len(v))
            ctx.objs[n] = True
            ctx.o0[n] = conc_arr(ctx, k, v)
        elif isinstance(k, Cell):
            nb = {'float': 4, 'double': 8}.get(k.ty) or int(k.ty[1:]) // 8
            ctx.objs[n] = True
            ctx.o0[n] = {0: (nb, z3.BitVecVal(v, 8 * nb) if not ctx.int else z3.IntVal(s_of(v, 8 * nb)))}
        elif isinstance(k, Struct):
            ctx.objs[n] = True
            ctx.o0[n] = conc_struct(ctx, k, v)
    return ctx


def conc_struct(ctx, k, v):
    cells = {}
    for fl, (o, ty) in k.fields.items():
        if isinstance(ty, str):
            nb = {'float': 4, 'double': 8, 'ptr': 8}.get(ty) or max(1, int(ty[1:]) // 8)
            cells[o] = (nb, z3.BitVecVal(v[fl], 8 * nb) if not ctx.int else z3.IntVal(s_of(v[fl], 8 * nb)))
    return cells


def conc_arr(ctx, k, v):
    if ctx.int:
        a = z3.K(z3.IntSort(), z3.IntVal(0))
        for i, x in enumerate(v):
            a = z3.Store(a, z3.IntVal(i), z3.IntVal(s_of(x, 8 * k.ew)))
    else:
        a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8 * k.ew))
        for i, x in enumerate(v):
            a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(x, 8 * k.ew))
    return a


def realize(f):
    """replace the uninterpreted float operations by the IEEE ones"""
    for (op, srt), uf in list(__import__('dom')._fuf.items()):
        real = FP_REAL.get(op)
        if real:
            s = uf.range()
            f = z3.substitute_funs(f, (uf, real(z3.Var(0, s), z3.Var(1, s))))
    return f


def eval_bool(f):
    """True/False/None"""
    if isinstance(f, bool):
        return f
    f = z3.simplify(realize(f))
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(f)
    r1 = s.check()
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(z3.Not(f))
    r2 = s.check()
    if r1 == z3.unsat:
        return False
    if r2 == z3.unsat:
        return True
    return None


def in_child(fn, timeout=60):
    """run fn() in a forked child; returns ('ok', json) | ('signal', n) | ('timeout', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            signal.alarm(int(timeout))
            out = fn()
            os.write(w, json.dumps(out).encode())
            os._exit(0)
        except BaseException as e:
            try:
                os.write(w, json.dumps({'exc': traceback.format_exc()[-500:]}).encode())
            except Exception:
                pass
            os._exit(3)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        return ('timeout', None) if sg == signal.SIGALRM else ('signal', sg)
    if os.WEXITSTATUS(st) != 0:
        return 'error', data.decode()
    return 'ok', json.loads(data.decode())


def run_native(con, mod, native, inp):
    def go():
        o = native.run(con, mod, inp)
        return {'ret': o['ret'], 'bufs': {n: b.hex() for n, b in o['bufs'].items()}, 'addr': o['addr'],
                'extra': o.get('extra')}
    return in_child(go, 20)


def pre_holds(con, ctx):
    if con.prepare:
        con.prepare(ctx)
    if not con.pre:
        return True
    for p in con.pre(ctx):
        if eval_bool(p) is not True:
            return False
    return True


def check_concrete(con, mod, native, inp, out=None):
    """run the real function on inp and evaluate the contract; returns None (holds / inconclusive) or a dict"""
    ctx = conc_ctx(con, mod, inp)
    ctx.native = native
    try:
        if con.ranges:
            for n, (lo, hi) in con.ranges.items():
                x = ctx.v.get(n)
                if x is not None and not (lo <= x.as_long() <= hi):
                    return None
        if not pre_holds(con, ctx):
            return None
    except Exception:
        return None
    st, o = out if out is not None else run_native(con, mod, native, inp)
    if st == 'signal':
        if con.aborts and eval_bool(con.aborts(ctx)) is True:
            return None
        return {'input': inp, 'failed': 'the function terminates normally', 'observed': 'killed by signal %d' % o}
    if st == 'timeout':
        return {'input': inp, 'failed': 'the function terminates', 'observed': 'no result after 20 s'}
    if st != 'ok':
        return None
    fname = con.fn if isinstance(con.fn, str) else con.fn(mod)
    fn = mod.fn(fname)
    if fn.ret != 'void' and o['ret'] is not None:
        rv = o['ret']
        if fn.ret == 'i1':
            ctx.ret = z3.BoolVal(bool(rv))
        elif fn.ret in FSORT:
            ctx.ret = z3.simplify(z3.fpBVToFP(z3.BitVecVal(rv, FBITS[fn.ret]), FSORT[fn.ret]))
        elif fn.ret == 'ptr':
            ctx.ret = conc_ptr(ctx, con, rv, o)
        elif fn.ret[0] == 'i':
            w = int(fn.ret[1:])
            ctx.ret = z3.IntVal(s_of(rv, w)) if ctx.int else z3.BitVecVal(rv, w)
    outs = {}
    for n, k in con.params:
        if n not in o['bufs']:
            continue
        b = bytes.fromhex(o['bufs'][n])
        if isinstance(k, Arr):
            m = len(inp[n])
            vals = [int.from_bytes(b[i * k.ew:(i + 1) * k.ew], 'little') for i in range(m)]
            outs[n] = vals
            ctx.o1[n] = conc_arr(ctx, k, vals)
            guard = b[m * k.ew:]
            if guard != b'\xa5' * len(guard):
                return {'input': inp, 'failed': 'no write outside ' + n, 'observed': 'bytes after %s overwritten' % n}
            if n not in con.modifies and vals != [x & ((1 << (8 * k.ew)) - 1) for x in inp[n]]:
                return {'input': inp, 'failed': 'frame: %s unchanged' % n, 'observed': outs[n]}
        elif isinstance(k, Cell):
            nb = {'float': 4, 'double': 8}.get(k.ty) or int(k.ty[1:]) // 8
            v = int.from_bytes(b[:nb], 'little')
            outs[n] = v
            ctx.o1[n] = {0: (nb, z3.BitVecVal(v, 8 * nb) if not ctx.int else z3.IntVal(s_of(v, 8 * nb)))}
            if b[nb:] != b'\xa5' * 16:
                return {'input': inp, 'failed': 'no write outside ' + n, 'observed': 'bytes after %s overwritten' % n}
            if n not in con.modifies and v != inp[n] & ((1 << (8 * nb)) - 1):
                return {'input': inp, 'failed': 'frame: %s unchanged' % n, 'observed': v}
        elif isinstance(k, Struct):
            vals = {}
            for fl, (off, ty) in k.fields.items():
                if isinstance(ty, str):
                    nb = {'float': 4, 'double': 8, 'ptr': 8}.get(ty) or max(1, int(ty[1:]) // 8)
                    vals[fl] = int.from_bytes(b[off:off + nb], 'little')
            outs[n] = vals
            ctx.o1[n] = conc_struct(ctx, k, vals)
            if n not in con.modifies and any(vals[f] != inp[n][f] for f in vals):
                return {'input': inp, 'failed': 'frame: %s unchanged' % n, 'observed': vals}
    ctx.extra, ctx.nat = o.get('extra'), o
    if ctx.extra and con.call:
        con.call(ctx, ctx.extra)
    try:
        posts = con.post(ctx)
    except Exception as e:
        return None
    for lbl, f in posts:
        if eval_bool(f) is False:
            return {'input': inp, 'failed': lbl, 'observed': {'ret': o['ret'], 'out': outs}}
    return None


def conc_ptr(ctx, con, rv, o):
    if rv == 0:
        return NULL
    for n, a in o['addr'].items():
        if a <= rv < a + len(o['bufs'][n]) // 2:     # guard bytes included: one past the end is inside
            return Ptr([(z3.BoolVal(True), ('conc', n), Off(rv - a))])
    return Ptr([(z3.BoolVal(True), 'abs', Off(rv))])


# pointer results in contracts -----------------------------------------------------------------
def ptr_is_null(ctx, p):
    if ctx.mode == 'conc':
        return z3.BoolVal(p.cs[0][1] is None)
    return OR(*[g for g, o, f in p.cs if o is None])


def ptr_in(ctx, p, name):
    """condition that p points into parameter `name`, and its byte offset (bit-vector / Int)"""
    if ctx.mode == 'conc':
        o = p.cs[0][1]
        if isinstance(o, tuple) and o[1] == name:
            return z3.BoolVal(True), ctx.I(p.cs[0][2].c)
        return z3.BoolVal(False), ctx.I(0)
    ob = ctx.objs[name]
    c = z3.BoolVal(False)
    off = None
    for g, o, f in p.cs:
        if o is ob:
            v = ctx.ex.d.term(ctx.ex.off_val(f))
            off = v if off is None else z3.If(g, v, off)
            c = OR(c, g)
    if off is None:
        off = ctx.I(0)
    return c, off


def ptr_eq_idx(ctx, p, name, ew, idx):
    """p == &name[idx] with ew-byte elements"""
    if ctx.mode == 'conc':
        o = p.cs[0][1]
        if isinstance(o, tuple) and o[1] == name:
            return ctx.I(p.cs[0][2].c) == (idx * ew)
        return z3.BoolVal(False)
    ob = ctx.objs[name]
    c = z3.BoolVal(False)
    for g, o, f in p.cs:
        if o is ob:
            x = ctx.ex.off_idx(f, ew)
            if x is not None:
                c = OR(c, AND(g, ctx.ex.d.term(x) == idx))
            else:
                c = OR(c, AND(g, ctx.ex.d.term(ctx.ex.off_val(f)) == idx * ew))
    return c


def model_int(mdl, t):
    v = mdl.eval(t, model_completion=True)
    if z3.is_bv_value(v) or z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    v = z3.simplify(v)
    return v.as_long()


def model_input(con, ctx, mdl):
    inp = {}
    for n, k in con.params:
        if isinstance(k, str):
            t = ctx.v.get(n + '_bits', ctx.v[n])
            x = model_int(mdl, t)
            if k[0] == 'i' and k != 'i1':
                x &= (1 << int(k[1:])) - 1
            inp[n] = x
        elif isinstance(k, RawPtr):
            inp[n] = model_int(mdl, ctx.v[n])
        elif isinstance(k, Cell):
            nb, v = ctx.o0[n][0]
            t = v.t if isinstance(v, IV) else v
            inp[n] = model_int(mdl, t) & ((1 << (8 * nb)) - 1)
        elif isinstance(k, Arr):
            m = model_int(mdl, ctx.v[n + '_n'])
            if m > 4096:
                return None
            inp[n] = [model_int(mdl, z3.Select(ctx.o0[n], ctx.I(i))) & ((1 << (8 * k.ew)) - 1) for i in range(m)]
        elif isinstance(k, Struct):
            d = {}
            for fl, (o, ty) in k.fields.items():
                if isinstance(ty, str):
                    nb, v = ctx.o0[n][o]
                    if isinstance(v, Ptr):
                        v = v.cs[0][2].vs[0][1]
                    t = v.t if isinstance(v, IV) else v
                    d[fl] = model_int(mdl, t) & ((1 << (8 * nb)) - 1)
            inp[n] = d
    return inp


def replay_model(con, mod, native, ctx, mdl, r):
    if con.nosample and not con.native:
        return None
    try:
        inp = model_input(con, ctx, mdl)
    except Exception:
        return None
    if inp is None:
        return None
    r.samples += 1
    try:
        return check_concrete(con, mod, native, inp)
    except Exception:
        return None


# ---------------------------------------------------------------- sampling
def interesting(rng, w):
    H = 1 << (w - 1)
    pool = [0, 1, 2, -1, -2, H - 1, -H, -H + 1, H - 2, 7, 10, 100, 255, 127, -128, -32768, 32767, 86400, 1000]
    c = rng.random()
    if c < 0.45:
        v = rng.choice(pool)
    elif c < 0.7:
        v = rng.randint(-20, 20)
    elif c < 0.85:
        v = rng.randint(-H, H - 1) >> rng.randint(0, w - 1)
    else:
        v = rng.randint(-H, H - 1)
    return v & ((1 << w) - 1)


def fbits(rng, k):
    pool = [0.0, -0.0, 1.0, -1.0, 1.5, 2.0, -2.5, 1e10, float('inf'), float('-inf'), 3.25, 0.5, -0.5, 2.2250738585072014e-308, 1.17549435e-38]
    c = rng.random()
    if c < 0.75:
        v = rng.choice(pool)
    elif c < 0.8:
        v = float('nan')
    else:
        v = rng.uniform(-1000, 1000)
    if k == 'float':
        return struct.unpack('<I', struct.pack('<f', v))[0]
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def gen_input(con, rng):
    inp = {}
    prev = []
    for n, k in con.params:
        if isinstance(k, str):
            if k in FSORT:
                v = fbits(rng, k)
            elif k == 'i1':
                v = rng.randint(0, 1)
            else:
                w = int(k[1:])
                if n in con.ranges and rng.random() < 0.9:
                    lo, hi = con.ranges[n]
                    c = rng.random()
                    v = rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-3, 3)))]) if c < 0.5 else rng.randint(lo, hi) >> 0
                    v &= (1 << w) - 1
                else:
                    v = interesting(rng, w)
            # same-typed arguments are often equal (null sentinels)
            same = [x for (kk, x) in prev if kk == k]
            if same and rng.random() < 0.3:
                v = rng.choice(same)
            prev.append((k, v))
            inp[n] = v
        elif isinstance(k, RawPtr):
            inp[n] = interesting(rng, 48)
        elif isinstance(k, Cell):
            same = [x for (kk, x) in prev if kk == k.ty]
            if same and rng.random() < 0.3:
                inp[n] = rng.choice(same)
            elif k.ty in FSORT:
                inp[n] = fbits(rng, k.ty)
            else:
                inp[n] = interesting(rng, int(k.ty[1:]))
                prev.append((k.ty, inp[n]))
        elif isinstance(k, Arr):
            inp[n] = None
        elif isinstance(k, Struct):
            d = {}
            for fl, (o, ty) in k.fields.items():
                if isinstance(ty, str):
                    d[fl] = fbits(rng, ty) if ty in FSORT else (rng.randint(0, 1) if ty == 'i1' else interesting(rng, 64 if ty == 'ptr' else int(ty[1:])))
            inp[n] = d
    if con.gen:
        return con.gen(rng, inp)
    for n, k in con.params:
        if isinstance(k, Arr) and inp[n] is None:
            ctx = conc_ctx(con, None, {**inp, **{m: [] for m, kk in con.params if isinstance(kk, Arr)}})
            nn = k.n(ctx) if callable(k.n) else ctx.I(k.n)
            nn = z3.simplify(nn).as_long()
            if nn > 4096:
                return None
            inp[n] = [interesting(rng, 8 * k.ew) for _ in range(nn)]
    return inp


def sample(con, mod, native, count, r):
    """evaluate the contract on the compiled real function for `count` inputs"""
    rng = random.Random(SEED * 7919 + sum(map(ord, con.label)))
    inputs = []
    tries = 0
    t0 = time.time()
    while len(inputs) < count and tries < count * 8 and time.time() - t0 < (20 if count < 500 else 60):
        tries += 1
        inp = gen_input(con, rng)
        if inp is None:
            continue
        if con.ranges or con.pre:
            try:
                ctx = conc_ctx(con, mod, inp)
                ctx.native = native
                if any(n in ctx.v and not (lo <= ctx.v[n].as_long() <= hi) for n, (lo, hi) in con.ranges.items()):
                    continue
                if not pre_holds(con, ctx):
                    continue
            except Exception:
                continue
        inputs.append(inp)
    if not inputs:
        return None

    def go():
        outs = []
        for inp in inputs:
            o = native.run(con, mod, inp)
            outs.append({'ret': o['ret'], 'bufs': {n: b.hex() for n, b in o['bufs'].items()}, 'addr': o['addr'], 'extra': o.get('extra')})
        return outs
    st, outs = in_child(go, 60) if not con.aborts else ('each', None)
    if st == 'error':
        r.note = (r.note or '') + ' native execution failed: ' + str(outs)[-400:]
        return None
    t0 = time.time()
    for j, inp in enumerate(inputs):
        if time.time() - t0 > 120:
            break
        out = ('ok', outs[j]) if st == 'ok' else None
        r.samples += 1
        cex = check_concrete(con, mod, native, inp, out)
        if cex:
            return cex
    return None
