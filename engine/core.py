"""Verification-condition generator over LLVM IR (see DESIGN.md, section "The verifier").

Forward, path-merged symbolic execution of one function: SSA values become terms, joins become
if-then-else, calls are replaced by the callee's contract when it has one (else its body is executed in
place), loops are cut at an inductive invariant (or, for bounded stand-ins, unwound).
"""
import sys
import json
import z3
from dom import *

sys.setrecursionlimit(100000)


# ---------------------------------------------------------------- module / CFG
class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.parent, self.latches = header, {header}, None, []


class Fn:
    def __init__(self, name, j):
        self.name, self.dem, self.args, self.ret = name, j['dem'], j['args'], j['ret']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.entry = j['blocks'][0]['id']
        self.succ = {}
        for b in j['blocks']:
            t = b['ins'][-1]
            s = []
            if t['op'] == 'br':
                s = [t['t']] + ([t['f']] if 'f' in t else [])
            elif t['op'] == 'switch':
                s = [t['def']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                # unwinding is followed where it is caught; destructors run by a cleanup that does not catch are skipped
                s = [t['t']] + ([t['unw']] if self.catches(t['unw']) else [])
            self.succ[b['id']] = s
        self._cfg()

    def catches(self, b):
        for i in self.blocks[b]['ins']:
            if i['op'] == 'landingpad':
                return bool(i.get('catch'))
            if i['op'] != 'phi':
                break
        return False

    def _cfg(self):
        # iterative DFS
        seen, post = set(), []
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(self.succ[m])))
                    break
            else:
                post.append(n)
                stack.pop()
        self.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.idx = idx
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        dom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in dom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = dom[x]
                                while idx[y] > idx[x]:
                                    y = dom[y]
                            nd = x
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = dom[b]
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if idx[s] <= idx[b]:
                    if not dominates(s, b):
                        self.irreducible = True
                        continue
                    L = loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            st.extend(preds[x])
        self.loops = loops
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        self.inner = {}
        for i, l in enumerate(ls):
            for b in l.blocks:
                self.inner.setdefault(b, l)
            for m in ls[i + 1:]:
                if l.header in m.blocks:
                    l.parent = m
                    break


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.raw = j['fns']
        self.globals = j['globals']
        self.decls = j['decls']
        self._f = {}
        self.bydem = {}
        for n, f in self.raw.items():
            self.bydem.setdefault(f['dem'], n)

    def has(self, n):
        return n in self.raw

    def fn(self, n):
        if n not in self._f:
            self._f[n] = Fn(n, self.raw[n])
        return self._f[n]

    def find(self, pred):
        return [n for n, f in self.raw.items() if pred(f['dem'])]


# ---------------------------------------------------------------- memory
class Obj:
    """A memory object.  kind 'cells': dict of byte offset -> (nbytes, value); kind 'elems': one z3 array of
    ew-byte elements, n of them (n is an i64 domain value); kind 'const': read-only initialised bytes."""
    cnt = 0
    bases = {}

    def __init__(self, name, kind, ew=None, n=None, size=None, local=False, data=None, relocs=None):
        Obj.cnt += 1
        self.uid = Obj.cnt
        self.name, self.kind, self.ew, self.n, self.size, self.local = name, kind, ew, n, size, local
        self.data, self.relocs = data, relocs or {}
        self.base = z3.BitVec('&' + name, 64)
        self.ibase = z3.Int('&' + name)
        Obj.bases[self.base.get_id()] = self
        Obj.bases[self.ibase.get_id()] = self

    def __repr__(self):
        return 'Obj(%s)' % self.name


class Off:
    __slots__ = ('c', 'vs')

    def __init__(self, c=0, vs=()):
        self.c, self.vs = c, tuple(vs)

    def isconst(self):
        return not self.vs


class Ptr:
    """Guarded union of (cond, obj, Off); obj None = null, obj 'abs' = absolute address (Off.vs[0])."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs


def P(obj, off=0):
    return Ptr([(z3.BoolVal(True), obj, Off(off))])


NULL = Ptr([(z3.BoolVal(True), None, Off(0))])


class Obligation:
    __slots__ = ('name', 'kind', 'nfacts', 'guard', 'goal', 'line', 'facts')

    def __init__(self, name, kind, facts, guard, goal, line):
        self.name, self.kind, self.facts, self.guard, self.goal, self.line = name, kind, facts, guard, goal, line


class Act:
    def __init__(self, fn):
        self.fn, self.env, self.rets = fn, {}, []


class Vec:
    """a vector register: lanes of one width, as a memory image"""

    def __init__(self, ty, lanes):
        self.ty, self.lanes = ty, lanes


def vec_ty(ty):
    n, e = ty[1:-1].split('x')
    return int(n), e


class LoopView:
    """What a loop-invariant candidate may talk about."""

    def __init__(self, ex, k, phis, mem, entry_mem, entry_phis, fnname, header=None, changed=None):
        self.changed = changed or {}  # object -> offsets of its cells the loop may write
        self.header = (fnname, header)
        self.ex, self.k, self.phis, self.mem, self.entry_mem, self.entry_phis, self.fn = \
            ex, k, phis, mem, entry_mem, entry_phis, fnname

    def arr(self, obj):
        return self.mem[obj]

    def cell(self, obj, off):
        n, v = self.mem[obj].get(off, (None, None))
        return self.ex.d.s(8 * n, v) if isinstance(v, IV) else v


def fp_bits(v):
    """bit pattern of a float value; exact (NaN payloads included) for values that are only moved around"""
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
        return v.arg(0)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return z3.If(v.arg(0), fp_bits(v.arg(1)), fp_bits(v.arg(2)))
    return z3.fpToIEEEBV(v)


def equalities(facts):
    """substitutions x := t from facts x == t with x a constant"""
    out = []
    st = list(facts)
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(f.children())
        elif z3.is_eq(f):
            a, b = f.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(x):
                    if not occurs(x, y):
                        out.append((x, y))
                        break
    return out


def occurs(x, t):
    seen, st = set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        st.extend(e.children())
    return False


def quick_eq(facts, goal, rounds=3):
    """goal becomes true by rewriting with equational facts"""
    if not z3.is_eq(goal):
        return False
    sub = equalities(facts)
    g = goal
    conds = {}
    st = list(g.children())
    while st and len(conds) < 4:
        e = st.pop()
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            conds[e.arg(0).get_id()] = e.arg(0)
        elif z3.is_app_of(e, z3.Z3_OP_BADD) or z3.is_app_of(e, z3.Z3_OP_ADD):
            st.extend(e.children())
    for c in conds.values():
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[f for f in facts if not has_uf(f)])
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            g = z3.substitute(g, (c, z3.BoolVal(True)))
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    eqs = None
    alts = {}
    for x, t in sub:
        if occurs(x, g):
            alts.setdefault(x.get_id(), []).append((x, t))
    import itertools
    opts = [[None] + v[:4] for v in alts.values()][:4]
    for n, combo in enumerate(itertools.product(*opts)):
        if n > 80:
            break
        sb = [c for c in combo if c is not None]
        h = z3.simplify(z3.substitute(g, *sb)) if sb else g
        if z3.is_true(h):
            return True
        if eqs is None:
            eqs = {z3.simplify(f).sexpr() for f in facts if z3.is_eq(f)}
        if z3.is_eq(h) and h.sexpr() in eqs:
            return True
    return False


_hasuf = {}


def has_uf(f):
    i = f.get_id()
    if i not in _hasuf:
        seen, st, r = set(), [f], False
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = True
                break
            st.extend(e.children())
        _hasuf[i] = (f, r)
    return _hasuf[i][1]


_mulf = {}
DIVS = {z3.Z3_OP_BUREM: 'rem', z3.Z3_OP_BUREM_I: 'rem', z3.Z3_OP_BUDIV: 'div', z3.Z3_OP_BUDIV_I: 'div', z3.Z3_OP_MOD: 'rem', z3.Z3_OP_IDIV: 'div'}


def has_vdiv(asserts):
    seen, st = set(), list(asserts)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() in DIVS and not (z3.is_bv_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
            return True
        st.extend(e.children())
    return False


CUT_OPS = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'select', 'lshr', 'ashr', 'and')


def round_split(terms, m):
    """the sum of integer terms as (visible multiples of m, rest)"""
    al, rest = [], []
    st = [z3.simplify(z3.Sum(list(terms)))] if terms else []
    while st:
        t = st.pop()
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            st.extend(t.children())
        elif z3.is_int_value(t):
            q = t.as_long()
            al.append(z3.IntVal(q - q % m))
            rest.append(z3.IntVal(q % m))
        elif z3.is_app_of(t, z3.Z3_OP_MUL) and any(z3.is_int_value(c) and c.as_long() % m == 0 for c in t.children()):
            al.append(t)
        else:
            rest.append(t)
    return z3.simplify(z3.Sum(al + [z3.IntVal(0)])), z3.simplify(z3.Sum(rest + [z3.IntVal(0)]))


_fpf = {}


def has_fp(asserts):
    seen, st = set(), list(asserts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_fp(x):
            return True
        st.extend(x.children())
    return False


def abstract_fp(asserts):
    """the assertions with floating-point operations replaced by uninterpreted functions on bit-vectors.
    Unsatisfiability of the result implies unsatisfiability of the original.  None where that is not possible."""
    cache = {}
    sym = []

    def so(s):
        return z3.BitVecSort(s.ebits() + s.sbits()) if isinstance(s, z3.FPSortRef) else s

    def uf(name, sorts):
        key = name + '|' + '|'.join(x.sexpr() for x in sorts)
        if key not in _fpf:
            _fpf[key] = z3.Function('fp!%d!%s' % (len(_fpf), name), *sorts) if len(sorts) > 1 else z3.Const('fp!%d' % len(_fpf), sorts[0])
        return _fpf[key]

    def conv1(x, ch, nc):
        if not z3.is_app(x):
            return None
        k = x.decl().kind()
        fpish = z3.is_fp(x) or any(z3.is_fp(c) for c in ch)
        if not fpish:
            if isinstance(x.sort(), z3.FPRMSortRef):
                return x
            return x if all(a is b for a, b in zip(ch, nc)) else x.decl()(*nc)
        if k == z3.Z3_OP_ITE:
            return z3.If(nc[0], nc[1], nc[2])
        if k == z3.Z3_OP_EQ:
            return nc[0] == nc[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*nc)
        if not ch:
            return uf('val ' + x.sexpr(), [so(x.sort())])
        if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
            return None
        name = x.decl().name() + str(x.decl().params())
        if k == z3.Z3_OP_FPA_GT:
            name, nc = 'lt', nc[::-1]
        elif k == z3.Z3_OP_FPA_GE:
            name, nc = 'le', nc[::-1]
        elif k == z3.Z3_OP_FPA_LT:
            name = 'lt'
        elif k == z3.Z3_OP_FPA_LE:
            name = 'le'
        elif k == z3.Z3_OP_FPA_EQ:
            f = uf('eq', [a.sort() for a in nc] + [z3.BoolSort()])
            sym.append(f(*nc) == f(*nc[::-1]))
            return f(*nc)
        args = []
        for a, b in zip(ch, nc):
            if isinstance(a.sort(), z3.FPRMSortRef):
                name += a.sexpr()
            else:
                args.append(b)
        return uf(name, [a.sort() for a in args] + [so(x.sort())])(*args)

    for e in asserts:
        st = [e]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in cache:
                st.pop()
                continue
            if z3.is_quantifier(x):
                return None
            ch = x.children()
            miss = [c for c in ch if c.get_id() not in cache]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            y = conv1(x, ch, [cache[c.get_id()][1] for c in ch])
            if y is None:
                return None
            cache[i] = (x, y)
    return [cache[e.get_id()][1] for e in asserts] + sym


def fp_unsat(asserts, timeout=3000):
    """unsatisfiable whatever the floating-point operations compute"""
    if not has_fp(asserts):
        return False
    try:
        q = abstract_fp(list(asserts))
    except z3.Z3Exception:
        return False
    if q is None:
        return False
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*q)
    return s.check() == z3.unsat


def abstract_mul(asserts):
    """the assertions with non-linear products replaced by an uninterpreted (commutative) function; None if there is none.
    Unsatisfiability of the result implies unsatisfiability of the original."""
    cache = {}
    hit = [False]
    sym = []

    def go(e):
        st = [e]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in cache:
                st.pop()
                continue
            ch = x.children()
            miss = [c for c in ch if c.get_id() not in cache]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            nc = [cache[c.get_id()][1] for c in ch]
            k = x.decl().kind() if z3.is_app(x) else None
            if k in (z3.Z3_OP_BMUL, z3.Z3_OP_MUL):
                nums = [c for c in nc if z3.is_bv_value(c) or z3.is_int_value(c)]
                rest = sorted([c for c in nc if not (z3.is_bv_value(c) or z3.is_int_value(c))], key=lambda c: c.get_id())
                if len(rest) > 1:
                    so = x.sort()
                    f = _mulf.setdefault(so.sexpr(), z3.Function('mul!' + so.sexpr(), so, so, so))

                    def ite_const(c):
                        return z3.is_app_of(c, z3.Z3_OP_ITE) and all(z3.is_bv_value(y) or z3.is_int_value(y) or ite_const(y) for y in (c.arg(1), c.arg(2)))

                    def scale(c, r):
                        return z3.If(c.arg(0), scale(c.arg(1), r), scale(c.arg(2), r)) if z3.is_app_of(c, z3.Z3_OP_ITE) else c * r
                    ic = [c for c in rest if ite_const(c)]
                    rest = [c for c in rest if not ite_const(c)] or [ic.pop()]
                    r = rest[0]
                    for c in rest[1:]:
                        hit[0] = True
                        sym.append(f(r, c) == f(c, r))
                        r = f(r, c)
                    for c in ic:
                        hit[0] = True
                        r = scale(c, r)
                    for c in nums:
                        r = c * r
                    cache[i] = (x, r)
                    continue
            if k in DIVS and not (z3.is_bv_value(nc[1]) or z3.is_int_value(nc[1])):
                # division by a variable: uninterpreted, with the facts that hold near the range
                a, n = nc
                so = x.sort()
                f = _mulf.setdefault((DIVS[k], so.sexpr()), z3.Function('%s!%s' % (DIVS[k], so.sexpr()), so, so, so))
                r = f(a, n)
                hit[0] = True
                if so == z3.IntSort():
                    pos, inr, nxt = n > 0, z3.And(a >= 0, a < n), z3.And(a >= n, a < 2 * n)
                    lt = z3.And(r >= 0, r < n)
                else:
                    pos, inr, nxt = n != 0, z3.ULT(a, n), z3.And(z3.ULE(n, a), z3.ULT(a - n, n))
                    lt = z3.ULT(r, n)
                if DIVS[k] == 'rem':
                    sym.append(z3.Implies(pos, z3.And(lt, z3.Implies(inr, r == a), z3.Implies(nxt, r == a - n))))
                else:
                    sym.append(z3.Implies(pos, z3.And(z3.Implies(inr, r == 0), z3.Implies(nxt, r == 1))))
                cache[i] = (x, r)
                continue
            if not z3.is_app(x):
                cache[i] = (x, x)
            elif all(a.eq(b) for a, b in zip(ch, nc)):
                cache[i] = (x, x)
            else:
                cache[i] = (x, z3.substitute(x, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else x.decl()(*nc))
        return cache[e.get_id()][1]
    out = [go(a) for a in asserts]
    return out + sym if hit[0] else None


_consts = {}


def consts(t):
    """names of the uninterpreted constants and functions of a term"""
    k = t.get_id()
    if k in _consts:
        return _consts[k][1]
    r, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            st.extend(x.children())
    _consts[k] = (t, frozenset(r))
    return _consts[k][1]


def conjuncts(g):
    out, st = [], [g]
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif not z3.is_true(x):
            out.append(x)
    return out


def slice_facts(facts, goals):
    vs = set()
    for x in goals:
        vs |= consts(x)
    todo = [(f, consts(f)) for f in facts]
    use = []
    while True:
        rest = []
        for f, c in todo:
            if c & vs or not c:
                use.append(f)
                vs |= c
            else:
                rest.append((f, c))
        if len(rest) == len(todo):
            return vs, use
        todo = rest


class Exec:
    def __init__(self, mod, dom, loop_mode='inv', unroll=0, loop_specs=None, max_inline=40):
        self.m, self.d = mod, dom
        self.facts, self.obls, self.abn = [], [], []
        self.thrown, self.caught = [], 0   # (guard, memory, line) of exceptions leaving the current function
        self.models, self.summaries = dict(MODELS), {}
        self.loop_mode, self.unroll_bound = loop_mode, unroll
        self.loop_specs = loop_specs or []
        self.folds = []
        self.words = []
        self.nfresh = 0
        self.gobjs = {}
        self.written = None  # dry-run write tracking
        self.depth = 0
        self.max_inline = max_inline
        self.called = set()
        self.contract_used = set()
        self.safety = True
        self.solver_hook = None
        self.unwound = False
        self.loops_cut = 0
        self.nohint = {}
        self.loops_unrolled = 0
        self.refine = {}
        self.line = None
        self.hsolver = {'queries': 0, 'time': 0.0}
        self.readonly = set()
        self.undef_n = 0
        self.fname = None
        self.keep, self.cut, self.loop_log = [], [], []

    # -- helpers
    def fresh(self, name):
        self.nfresh += 1
        return '%s!%d' % (name, self.nfresh)

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)

    def allfacts(self):
        return self.facts + (self.d.facts if hasattr(self.d, 'facts') else [])

    def oblige(self, name, kind, guard, goal):
        self.obls.append(Obligation(name, kind, self.allfacts(), guard, goal, self.line))

    # -- typed values
    def width(self, ty):
        if ty[0] != 'i':
            raise Unsupported('type ' + ty)
        return int(ty[1:])

    def undef(self, ty):
        self.undef_n += 1
        return self.freshval(self.fresh('undef'), ty)

    def freshval(self, name, ty):
        if ty == 'i1':
            return z3.Bool(name)
        if ty[0] == 'i':
            return self.d.fresh(name, int(ty[1:]))
        if ty in FSORT:
            return z3.FP(name, FSORT[ty])
        if ty == 'ptr':
            return Ptr([(z3.BoolVal(True), 'abs', Off(0, [(1, self.d.fresh(name, 64))]))])
        if ty.startswith('<'):
            n, e = vec_ty(ty)
            return Vec(e, [self.freshval(name + '.%d' % i, e) for i in range(n)])
        if ty.startswith('{'):
            return [self.freshval(name + '.%d' % i, t) for i, t in enumerate(split_struct(ty))]
        raise Unsupported('fresh ' + ty)

    def zero(self, ty):
        if ty == 'i1':
            return z3.BoolVal(False)
        if ty[0] == 'i':
            return self.d.const(int(ty[1:]), 0)
        if ty in FSORT:
            return z3.FPVal(0.0, FSORT[ty])
        if ty == 'ptr':
            return NULL
        if ty.startswith('{'):
            return [self.zero(t) for t in split_struct(ty)]
        raise Unsupported('zero ' + ty)

    def opval(self, act, o):
        k = o['k']
        if k == 'v':
            v = act.env.get(o['id'])
            if v is None:
                raise Unsupported('undefined ssa value %s in %s' % (o['id'], act.fn.name))
            if self.refine and isinstance(v, IV) and not isinstance(v.t, int):
                r = self.refine.get(v.t.get_id())
                if r:
                    lo, hi = max(v.lo, r[0]), min(v.hi, r[1])
                    if lo <= hi and (lo, hi) != (v.lo, v.hi):
                        v = IV(v.t, lo, hi) if lo != hi else IV(lo, lo, hi)
            return v
        return self.constval(act, o)

    def constval(self, act, o):
        k, ty = o['k'], o['ty']
        if k == 'c':
            if ty == 'i1':
                return z3.BoolVal(int(o['c']) != 0)
            return self.d.const(int(ty[1:]), int(o['c']))
        if k == 'f':
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(o['c']), FBITS[ty]), FSORT[ty]))
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.opval(act, e) for e in o['e']]
        if k == 'g':
            return P(self.gobj(o['n']), 0)
        if k == 'e':
            if o['op'] == 'getelementptr':
                return self.gep(act, o)
            if o['op'] in ('inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'bitcast', 'add', 'sub', 'icmp'):
                oo = dict(o)
                oo['at'] = [self.opty(x) for x in o['a']]
                return self.inst(act, oo)
        raise Unsupported('constant ' + str(o)[:100])

    def opty(self, o):
        return o.get('ty', '?')

    def gobj(self, name):
        if name in self.gobjs:
            return self.gobjs[name]
        if name in self.m.raw or name in self.m.decls or name not in self.m.globals:
            ob = Obj('@' + name, 'fn')
            ob.fnname = name
        else:
            g = self.m.globals[name]
            if g['const'] and 'init' in g:
                rel = {int(r[0]): r[1] for r in g.get('relocs', [])}
                ob = Obj('@' + name, 'const', size=g['size'], data=bytes.fromhex(g['init']), relocs=rel)
            else:
                ob = Obj('@' + name, 'gcells', size=g['size'])
        ob.gname = name
        self.gobjs[name] = ob
        return ob

    # -- offsets / pointers
    def linear(self, co, v, out, depth=0):
        """split co*v into coefficient * term pairs (exact modulo 2^64); returns the constant part"""
        if self.d.isconst(v):
            return co * self.d.sval(v)
        t = v.t if isinstance(v, IV) else v
        k = t.decl().kind()
        if depth < 6 and k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL, z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            wrap = (lambda x: IV(x, v.lo, v.hi)) if isinstance(v, IV) else (lambda x: x)

            def cval(x):
                return x.as_signed_long() if z3.is_bv_value(x) else (x.as_long() if z3.is_int_value(x) else None)
            ch = t.children()
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_ADD):
                c = 0
                for x in ch:
                    cx = cval(x)
                    c += co * cx if cx is not None else self.linear(co, wrap(x), out, depth + 1)
                return c
            if k == z3.Z3_OP_BSHL and cval(ch[1]) is not None and cval(ch[1]) < 32:
                return self.linear(co << cval(ch[1]), wrap(ch[0]), out, depth + 1)
            if k != z3.Z3_OP_BSHL and len(ch) == 2:
                for i in (0, 1):
                    if cval(ch[i]) is not None:
                        return self.linear(co * cval(ch[i]), wrap(ch[1 - i]), out, depth + 1)
        out.append((co, v))
        return 0

    def off_add(self, off, c, vs):
        d = {}
        order = []
        flat = list(off.vs)
        for co, v in vs:
            c += self.linear(co, v, flat)
        for co, v in flat:
            key = v.get_id() if not isinstance(v, IV) else (v.t if isinstance(v.t, int) else v.t.get_id())
            if key in d:
                d[key][0] += co
            else:
                d[key] = [co, v]
                order.append(key)
        return Off(off.c + c, [(d[k][0], d[k][1]) for k in order if d[k][0] != 0])

    def off_val(self, off):
        r = self.d.const(64, off.c)
        for co, v in off.vs:
            t = v if co == 1 else self.d.bin('mul', 64, v, self.d.const(64, co))
            r = t if (self.d.isconst(r) and self.d.sval(r) == 0) else self.d.bin('add', 64, r, t)
        return r

    def off_idx(self, off, ew):
        """offset / ew when structurally divisible, else None"""
        if off.c % ew:
            return None
        for co, v in off.vs:
            if co % ew:
                return None
        return self.off_val(Off(off.c // ew, [(co // ew, v) for co, v in off.vs]))

    def gep(self, act, o):
        b = self.opval(act, o['base'])
        vs = []
        for op, sc in o['vars']:
            v = self.opval(act, op)
            w = self.opw(act, op)
            if w < 64:
                v = self.d.sext(v, w, 64)
            vs.append((sc, v))
        return Ptr([(g, ob, self.off_add(of, o['off'], vs)) for g, ob, of in b.cs])

    def opw(self, act, o):
        if o['k'] == 'v':
            return int(act.tys[o['id']][1:])
        return int(o['ty'][1:])

    def ptr_int(self, p):
        r = None
        for g, ob, of in p.cs:
            if ob is None:
                v = self.off_val(of)
            elif ob == 'abs':
                v = self.off_val(of)
            else:
                if self.d.name == 'int':
                    v = self.off_val(of)
                    # user-space addresses are below 2^47 (a fact about every object)
                    v = IV(ob.ibase + v.t, 0, (1 << 47) + v.hi) if v.lo >= 0 and v.hi < 1 << 61 else IV(ob.ibase + v.t, -(1 << 63), (1 << 63) - 1)
                else:
                    v = ob.base + self.off_val(of)
            r = v if r is None else self.d.ite(g, v, r, 64)
        return r

    def int_ptr(self, v):
        """integer -> pointer: recovers the object when the value is visibly (address of an object) + offset"""
        if self.d.isconst(v) and self.d.sval(v) == 0:
            return NULL
        t = v.t if isinstance(v, IV) else v
        r = self.addr_split(t)
        if r is not None:
            ob, rest = r
            of = Off()
            for x in rest:
                if isinstance(v, IV):
                    x = IV(x, -(1 << 63), (1 << 63) - 1)
                of = self.off_add(of, 0, [(1, x)])
            return Ptr([(z3.BoolVal(True), ob, of)])
        if z3.is_expr(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            if isinstance(v, IV):
                a, b = IV(a, v.lo, v.hi), IV(b, v.lo, v.hi)
            pa, pb = self.int_ptr(a), self.int_ptr(b)
            return Ptr([(AND(c, g), o, f) for g, o, f in pa.cs] + [(AND(NOT(c), g), o, f) for g, o, f in pb.cs])
        return Ptr([(z3.BoolVal(True), 'abs', Off(0, [(1, v)]))])

    def addr_split(self, t):
        """(object, [offset terms]) when t is the object's base plus terms; understands (x + 7) & ~7 of 16-aligned bases"""
        if not z3.is_expr(t):
            return None
        if t.get_id() in Obj.bases and t.num_args() == 0:
            return Obj.bases[t.get_id()], []
        k = t.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_ADD):
            hit = None
            rest = []
            for c in t.children():
                r = self.addr_split(c) if hit is None else None
                if r is not None:
                    hit = r[0]
                    rest = r[1] + rest
                else:
                    rest.append(c)
            return (hit, rest) if hit is not None else None
        if k == z3.Z3_OP_BAND and t.num_args() == 2:
            for i in (0, 1):
                m = t.arg(i)
                if z3.is_bv_value(m) and (-m.as_signed_long()) in (1, 2, 4, 8, 16):
                    r = self.addr_split(t.arg(1 - i))
                    if r is None or -m.as_signed_long() > getattr(r[0], 'align', r[0].ew or 8):
                        return None
                    s = None
                    for x in r[1]:
                        s = x if s is None else s + x
                    return r[0], ([] if s is None else [z3.simplify(s & m)])
        return None

    def div_len(self, n, ew):
        """a byte length as a number of ew-byte elements, when visibly a multiple"""
        if ew == 1:
            return n
        return self.off_idx(self.off_add(Off(), 0, [(1, n)]), ew)

    def seg_bound(self, g, ob, idx, m, what):
        if self.safety and ob.n is not None:
            d = self.d
            ok = AND(d.icmp('ule', 64, idx, ob.n), d.icmp('ule', 64, m, d.bin('sub', 64, ob.n, idx))) if d.name == 'bv' else \
                z3.Or(d.term(m) == 0, z3.And(d.term(idx) >= 0, d.term(idx) + d.term(m) <= d.term(ob.n)))
            self.oblige('%s within bounds of %s' % (what, ob.name), 'safety', g, ok)

    def memeq(self, a, ai, b, bi, m):
        """the m elements at a[ai..] and b[bi..] are equal"""
        if self.loop_mode == 'unroll':
            z = (lambda v: z3.IntVal(v)) if self.d.name == 'int' else (lambda v: z3.BitVecVal(v, 64))
            B = max(4, self.unroll_bound)
            lt = (lambda x, y: x < y) if self.d.name == 'int' else z3.ULT
            return AND(*[z3.Implies(lt(z(j), m), z3.Select(a, ai + j) == z3.Select(b, bi + j)) for j in range(B)])
        sm = z3.simplify(m)
        if (z3.is_bv_value(sm) or z3.is_int_value(sm)) and sm.as_long() <= 64:
            return AND(*[z3.Select(a, ai + j) == z3.Select(b, bi + j) for j in range(sm.as_long())])
        f = z3.Function('memeq', a.sort(), ai.sort(), b.sort(), bi.sort(), m.sort(), z3.BoolSort())
        return f(a, ai, b, bi, m)

    def ptr_cmp(self, pred, a, b):
        res = z3.BoolVal(False)
        for ga, oa, fa in a.cs:
            for gb, ob, fb in b.cs:
                g = AND(ga, gb)
                if oa is ob and oa != 'abs':
                    p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
                    if oa is not None and isinstance(oa, Obj) and oa.ew and self.off_idx(fa, oa.ew) is not None \
                            and self.off_idx(fb, oa.ew) is not None:
                        c = self.d.icmp(p, 64, self.off_idx(fa, oa.ew), self.off_idx(fb, oa.ew))
                    else:
                        c = self.d.icmp(p, 64, self.off_val(fa), self.off_val(fb))
                elif (oa is None and isinstance(ob, Obj)) or (ob is None and isinstance(oa, Obj)):
                    if pred == 'eq':
                        c = z3.BoolVal(False)
                    elif pred == 'ne':
                        c = z3.BoolVal(True)
                    else:
                        raise Unsupported('null relational')
                else:
                    x = self.ptr_int(Ptr([(z3.BoolVal(True), oa, fa)]))
                    y = self.ptr_int(Ptr([(z3.BoolVal(True), ob, fb)]))
                    c = self.d.icmp(pred, 64, x, y)
                res = OR(res, AND(g, c))
        return res

    def ite(self, c, a, b, ty=None):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Ptr):
            if a is b:
                return a
            cs = []
            for g, o, f in a.cs:
                cs.append([AND(c, g), o, f])
            nc = NOT(c)
            for g, o, f in b.cs:
                for e in cs:
                    if e[1] is o and e[1] != 'abs' and e[2].c == f.c and len(e[2].vs) == len(f.vs) and \
                            all(x[0] == y[0] and self.same(x[1], y[1]) for x, y in zip(e[2].vs, f.vs)):
                        e[0] = OR(e[0], AND(nc, g))
                        break
                else:
                    cs.append([AND(nc, g), o, f])
            if len(cs) == 1:
                cs[0][0] = z3.BoolVal(True)
            return Ptr([tuple(x) for x in cs])
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, IV):
            return self.d.ite(c, a, b, ty or 64)
        if a.eq(b):
            return a
        if z3.is_bool(a):
            if z3.is_true(a) and z3.is_false(b):
                return c
            if z3.is_false(a) and z3.is_true(b):
                return NOT(c)
            if z3.is_false(b):
                return AND(c, a)
            if z3.is_true(a):
                return OR(c, b)
            if z3.is_false(a):
                return AND(NOT(c), b)
            if z3.is_true(b):
                return OR(NOT(c), a)
        return z3.If(c, a, b)

    def same(self, a, b):
        if isinstance(a, IV):
            if isinstance(a.t, int) or isinstance(b.t, int):
                return isinstance(a.t, int) and isinstance(b.t, int) and a.t == b.t
            return a.t.eq(b.t)
        if isinstance(a, Ptr):
            if len(a.cs) != len(b.cs):
                return False
            return all(x[0].eq(y[0]) and x[1] is y[1] and x[2].c == y[2].c and len(x[2].vs) == len(y[2].vs)
                       and all(p[0] == q[0] and self.same(p[1], q[1]) for p, q in zip(x[2].vs, y[2].vs))
                       for x, y in zip(a.cs, b.cs))
        if isinstance(a, list):
            return isinstance(b, list) and all(self.same(x, y) for x, y in zip(a, b))
        return a.sort() == b.sort() and a.eq(b)

    # -- conversions of memory values
    def tobits(self, v, nbytes):
        """value -> bit-vector of 8*nbytes (BV domain only)"""
        if isinstance(v, Ptr):
            return self.ptr_int(v)
        if isinstance(v, IV):
            return self.d.tobv(v, 8 * nbytes)
        if z3.is_fp(v):
            return fp_bits(v)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 8 * nbytes), z3.BitVecVal(0, 8 * nbytes))
        return v

    def astype(self, v, ty, nbytes):
        """memory value of nbytes as IR type ty"""
        if ty == 'ptr':
            if isinstance(v, Ptr):
                return v
            return self.int_ptr(v)
        if ty in FSORT:
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            b = self.tobits(v, nbytes)
            return z3.simplify(z3.fpBVToFP(b, FSORT[ty])) if z3.is_bv_value(b) else z3.fpBVToFP(b, FSORT[ty])
        if ty == 'i1':
            if z3.is_expr(v) and z3.is_bool(v):
                return v
            return self.d.icmp('ne', 8 * nbytes, v, self.d.const(8 * nbytes, 0))
        if ty[0] == 'i':
            if isinstance(v, IV):
                return v
            if isinstance(v, Ptr):
                return self.ptr_int(v)
            if z3.is_fp(v):
                return self.d.frombv(self.tobits(v, nbytes), 8 * nbytes)
            if z3.is_bool(v):
                return self.d.frombool(v, 8 * nbytes)
            return v
        raise Unsupported('load type ' + ty)

    def tysize(self, ty):
        if ty == 'ptr':
            return 8
        if ty in FBITS:
            return FBITS[ty] // 8
        if ty == 'i1':
            return 1
        if ty[0] == 'i':
            return (int(ty[1:]) + 7) // 8
        raise Unsupported('size of ' + ty)

    # -- load / store
    def ptr_off(self, p, c):
        return Ptr([(g, o, self.off_add(f, c, [])) for g, o, f in p.cs])

    def store_vec(self, mem, g, p, v):
        n = self.tysize(v.ty)
        for j, x in enumerate(v.lanes):
            self.store(mem, g, self.ptr_off(p, n * j), x, v.ty)

    def load_vec(self, mem, g, p, ty):
        n, e = vec_ty(ty)
        tot = n * self.tysize(e)
        lane = e
        if len(p.cs) == 1 and isinstance(p.cs[0][1], Obj):
            ob, of = p.cs[0][1], p.cs[0][2]
            if ob.kind == 'elems':
                lane = 'i%d' % (8 * ob.ew)
            elif of.isconst() and isinstance(mem.get(ob), dict) and of.c in mem[ob] and isinstance(mem[ob][of.c][1], IV):
                lane = 'i%d' % (8 * mem[ob][of.c][0])
        w = self.tysize(lane)
        return Vec(lane, [self.load(mem, g, self.ptr_off(p, w * j), lane) for j in range(tot // w)])

    def content(self, mem, ob):
        if ob not in mem:
            if ob.kind in ('cells', 'gcells'):
                mem[ob] = {}
            elif ob.kind == 'elems':
                raise Unsupported('no content for ' + ob.name)
        return mem.get(ob)

    def load(self, mem, guard, p, ty):
        n = self.tysize(ty)
        r = None
        live = [(g, o, f) for g, o, f in p.cs]
        for g, ob, of in live:
            gg = AND(guard, g)
            if ob is None:
                if self.safety:
                    self.oblige('no null dereference (load)', 'safety', gg, z3.BoolVal(False))
                continue
            if ob == 'abs':
                if self.safety:
                    self.oblige('load through a pointer of known provenance', 'safety', gg, z3.BoolVal(False))
                continue
            v = self.load1(mem, gg, ob, of, ty, n)
            r = v if r is None else self.ite(g, v, r, 8 * n)
        if r is None:
            return self.undef(ty)
        return r

    def load1(self, mem, g, ob, of, ty, n):
        if ob.kind == 'elems':
            arr = self.content(mem, ob)
            if n == ob.ew:
                idx = self.off_idx(of, n)
                if idx is not None:
                    self.bound(g, ob, idx, 'load')
                    return self.astype(self.aread(arr, idx, n, ob), ty, n)
            if self.d.name != 'bv':
                idx = self.off_idx(of, ob.ew)
                if n < ob.ew or n % ob.ew or idx is None:
                    if self.dry:
                        return self.freshval(self.fresh('dry'), ty)
                    raise Unsupported('int-domain mixed-width access')
                self.bound(g, ob, idx, 'load', n // ob.ew)
                return IV(self.word(arr, self.d.term(idx), n, ob.ew), -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            if n > ob.ew:
                if n % ob.ew:
                    raise Unsupported('access width')
                idx = self.off_idx(of, ob.ew)
                if idx is None:
                    raise Unsupported('unaligned access to ' + ob.name)
                m = n // ob.ew
                self.bound(g, ob, idx, 'load', m)
                parts = [z3.Select(arr, idx + i) for i in range(m)]
                return self.astype(z3.Concat(*parts[::-1]), ty, n)
            idx = self.off_idx(of, n)
            if idx is None:
                raise Unsupported('unaligned access to ' + ob.name)
            m = ob.ew // n
            sh = m.bit_length() - 1
            self.bound(g, ob, z3.LShR(idx, sh), 'load')
            word = z3.Select(arr, z3.LShR(idx, sh))
            sub = z3.URem(idx, m) * (8 * n)
            sub = z3.Extract(8 * ob.ew - 1, 0, sub) if ob.ew < 8 else sub
            return self.astype(z3.Extract(8 * n - 1, 0, z3.LShR(word, sub)), ty, n)
        if ob.kind == 'const':
            return self.load_const(g, ob, of, ty, n)
        if ob.kind == 'fn':
            raise Unsupported('load from function')
        cells = self.content(mem, ob)
        if not of.isconst():
            return self.load_cells_sym(cells, g, ob, of, ty, n)
        c = of.c
        if ob.size is not None and not (0 <= c and c + n <= ob.size):
            self.oblige('load within ' + ob.name, 'safety', g, z3.BoolVal(False))
            return self.undef(ty)
        if c in cells and cells[c][0] == n:
            return self.astype(cells[c][1], ty, n)
        # containing / overlapping cells
        for o2, (n2, v2) in cells.items():
            if o2 <= c and c + n <= o2 + n2 and isinstance(v2, (z3.BitVecRef,)) or \
                    (o2 <= c and c + n <= o2 + n2 and z3.is_expr(v2) and z3.is_fp(v2)):
                b = self.tobits(v2, n2)
                lo = 8 * (c - o2)
                return self.astype(z3.simplify(z3.Extract(lo + 8 * n - 1, lo, b)), ty, n)
        # assemble from smaller cells
        parts, x = [], c
        while x < c + n:
            if x in cells and x + cells[x][0] <= c + n and not isinstance(cells[x][1], (IV, Ptr)):
                parts.append(self.tobits(cells[x][1], cells[x][0]))
                x += cells[x][0]
            elif ob.local and self.d.name == 'bv' and not any(o2 <= x < o2 + n2 for o2, (n2, _) in cells.items()):
                # bytes never written (padding, the rest of a union): arbitrary
                y = min([o2 for o2 in cells if o2 > x] + [c + n])
                parts.append(z3.BitVec(self.fresh('%s+%d' % (ob.name, x)), 8 * (y - x)))
                x = y
            else:
                break
        if x == c + n and parts and self.d.name == 'bv' and any(o2 + n2 > c and o2 < c + n for o2, (n2, _) in cells.items()):
            return self.astype(z3.simplify(z3.Concat(*parts[::-1])) if len(parts) > 1 else parts[0], ty, n)
        for o2, (n2, v2) in cells.items():
            if not (o2 + n2 <= c or c + n <= o2):
                raise Unsupported('overlapping cell access in %s at %d' % (ob.name, c))
        v = self.freshval(self.fresh('%s+%d' % (ob.name, c)), ty) if not ob.local else self.undef(ty)
        cells[c] = (n, v)
        return v

    def load_cells_sym(self, cells, g, ob, of, ty, n):
        # one symbolic index into an array of cells
        idx = self.off_val(of)
        r = None
        alts = []
        for c in sorted(cells):
            n2, v2 = cells[c]
            if n2 == n:
                alts.append((c, self.astype(v2, ty, n)))
        if not alts:
            raise Unsupported('symbolic offset into ' + ob.name)
        hits = []
        for c, v in alts:
            cond = self.d.icmp('eq', 64, idx, self.d.const(64, c))
            hits.append(cond)
            r = v if r is None else self.ite(cond, v, r, 8 * n)
        if self.safety:
            self.oblige('load within ' + ob.name, 'safety', g, OR(*hits))
        return r

    def load_const(self, g, ob, of, ty, n):
        if of.isconst():
            c = of.c
            if not (0 <= c and c + n <= ob.size):
                self.oblige('load within ' + ob.name, 'safety', g, z3.BoolVal(False))
                return self.undef(ty)
            return self.constbytes(ob, c, ty, n)
        idx = self.off_idx(of, n)
        if idx is None or ob.size // n > 4096:
            raise Unsupported('symbolic offset into constant ' + ob.name)
        cnt = ob.size // n
        if self.safety:
            self.oblige('index within ' + ob.name, 'safety', g, self.d.icmp('ult', 64, idx, self.d.const(64, cnt)))
        if self.d.name == 'int':
            vals = [self.constbytes(ob, i * n, ty, n) for i in range(cnt)]
            lo, hi = max(0, idx.lo), min(cnt - 1, idx.hi)
            if lo > hi:
                return vals[0]
            t = self.d.term(vals[hi])
            for i in range(hi - 1, lo - 1, -1):
                t = z3.If(self.d.term(idx) == i, self.d.term(vals[i]), t)
            los = [vals[i].lo for i in range(lo, hi + 1)]
            return self.d.mk(t, min(los), max(los))
        r = self.constbytes(ob, (cnt - 1) * n, ty, n)
        for i in range(cnt - 2, -1, -1):
            r = self.ite(self.d.icmp('eq', 64, idx, self.d.const(64, i)), self.constbytes(ob, i * n, ty, n), r, 8 * n)
        return r

    def constbytes(self, ob, c, ty, n):
        if c in ob.relocs:
            class A:
                env = {}
            return self.constval(A, ob.relocs[c])
        v = int.from_bytes(ob.data[c:c + n], 'little')
        if ty in FSORT:
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, FBITS[ty]), FSORT[ty]))
        if ty == 'ptr':
            return NULL if v == 0 else Ptr([(z3.BoolVal(True), 'abs', Off(v))])
        if ty == 'i1':
            return z3.BoolVal(v != 0)
        return self.d.const(int(ty[1:]), v)

    def word(self, arr, idx, n, ew):
        """int domain: the n-byte little-endian word at element idx (signed), uninterpreted except that words are equal iff their parts are"""
        m = n // ew
        f = z3.Function('word%d_%d' % (n, ew), arr.sort(), z3.IntSort(), z3.IntSort())
        t = f(arr, idx)
        if not any(t.eq(x[0]) for x in self.words):
            self.fact(z3.And(t >= -(1 << (8 * n - 1)), t <= (1 << (8 * n - 1)) - 1))
            for x, a2, i2, n2, e2 in self.words:
                if n2 == n and e2 == ew:
                    self.fact((t == x) == AND(*[z3.Select(arr, idx + j) == z3.Select(a2, i2 + j) for j in range(m)]))
            self.words.append((t, arr, idx, n, ew))
        return t

    def aread(self, arr, idx, n, ob=None):
        if self.d.name == 'int':
            t = z3.Select(arr, self.d.term(idx))
            lo, hi = getattr(ob, 'range', None) or (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            self.fact(z3.And(t >= lo, t <= hi))
            return IV(t, lo, hi)
        return z3.Select(arr, idx)

    def bound(self, g, ob, idx, what, m=1):
        if self.safety and ob.n is not None:
            if m == 1:
                goal = self.d.icmp('ult', 64, idx, ob.n)
            else:
                goal = AND(self.d.icmp('ult', 64, idx, ob.n),
                           self.d.icmp('ule', 64, self.d.bin('add', 64, idx, self.d.const(64, m)), ob.n),
                           self.d.icmp('ult', 64, idx, self.d.bin('add', 64, idx, self.d.const(64, m))))
            self.oblige('%s within bounds of %s' % (what, ob.name), 'safety', g, goal)

    def store(self, mem, guard, p, v, ty):
        n = self.tysize(ty)
        for g, ob, of in p.cs:
            gg = AND(guard, g)
            if ob is None or ob == 'abs':
                if self.safety:
                    self.oblige('store through a valid pointer', 'safety', gg, z3.BoolVal(False))
                continue
            self.store1(mem, gg, g, ob, of, v, ty, n)

    def store1(self, mem, gg, g, ob, of, v, ty, n):
        if ob.kind in ('const', 'fn'):
            self.oblige('no store to constant ' + ob.name, 'safety', gg, z3.BoolVal(False))
            return
        if ob in self.readonly:
            self.oblige('no store to read-only ' + ob.name, 'frame', gg, z3.BoolVal(False))
        if self.written is not None:
            self.written.setdefault(ob, set()).add(of.c if of.isconst() and ob.kind != 'elems' else None)
        if ob.kind == 'elems':
            arr = self.content(mem, ob)
            if n == ob.ew:
                idx = self.off_idx(of, n)
                if idx is not None:
                    self.bound(gg, ob, idx, 'store')
                    if self.d.name == 'int':
                        na = z3.Store(arr, self.d.term(idx), self.d.term(v, 8 * n))
                    else:
                        na = z3.Store(arr, idx, self.tobits(v, n))
                    mem[ob] = na if z3.is_true(g) else z3.If(g, na, arr)
                    return
            if self.d.name != 'bv':
                if self.dry:
                    mem[ob] = z3.Const(self.fresh('dry'), arr.sort())
                    return
                raise Unsupported('int-domain mixed-width store')
            b = self.tobits(v, n)
            if n > ob.ew:
                idx = self.off_idx(of, ob.ew)
                if idx is None:
                    raise Unsupported('unaligned store to ' + ob.name)
                m = n // ob.ew
                self.bound(gg, ob, idx, 'store', m)
                na = arr
                for i in range(m):
                    na = z3.Store(na, idx + i, z3.simplify(z3.Extract(8 * ob.ew * (i + 1) - 1, 8 * ob.ew * i, b)))
                mem[ob] = na if z3.is_true(g) else z3.If(g, na, arr)
                return
            idx = self.off_idx(of, n)
            if idx is None:
                raise Unsupported('unaligned store to ' + ob.name)
            m = ob.ew // n
            sh = m.bit_length() - 1
            W = 8 * ob.ew
            wi = z3.LShR(idx, sh)
            self.bound(gg, ob, wi, 'store')
            sub = z3.URem(idx, m) * (8 * n)
            sub = z3.Extract(W - 1, 0, sub) if ob.ew < 8 else sub
            mask = z3.BitVecVal((1 << (8 * n)) - 1, W) << sub
            nw = (z3.Select(arr, wi) & ~mask) | (z3.ZeroExt(W - 8 * n, b) << sub)
            na = z3.Store(arr, wi, nw)
            mem[ob] = na if z3.is_true(g) else z3.If(g, na, arr)
            return
        cells = dict(self.content(mem, ob))
        mem[ob] = cells
        if not of.isconst():
            idx = self.off_val(of)
            hits = []
            for c in sorted(cells):
                if cells[c][0] == n:
                    cond = self.d.icmp('eq', 64, idx, self.d.const(64, c))
                    hits.append(cond)
                    cells[c] = (n, self.ite(AND(g, cond), v, self.conv_like(cells[c][1], v, n), 8 * n))
            if not hits:
                raise Unsupported('symbolic store into ' + ob.name)
            if self.safety:
                self.oblige('store within ' + ob.name, 'safety', gg, OR(*hits))
            return
        c = of.c
        if ob.size is not None and not (0 <= c and c + n <= ob.size):
            self.oblige('store within ' + ob.name, 'safety', gg, z3.BoolVal(False))
            return
        for o2 in list(cells):
            n2, v2 = cells[o2]
            if o2 == c and n2 == n:
                continue
            if not (o2 + n2 <= c or c + n <= o2):
                if isinstance(v2, IV) and v2.lo == v2.hi:
                    v2 = z3.BitVecVal(v2.lo & ((1 << (8 * n2)) - 1), 8 * n2)
                    del cells[o2]
                    for lo, hi in ((o2, c), (c + n, o2 + n2)):
                        if lo < hi:
                            w = 8 * (hi - lo)
                            cells[lo] = (hi - lo, self.d.const(w, z3.simplify(z3.Extract(8 * (hi - o2) - 1, 8 * (lo - o2), v2)).as_long()))
                    if not z3.is_true(g):
                        raise Unsupported('guarded overlapping store')
                    continue
                if isinstance(v2, (Ptr, IV)):
                    if c <= o2 and o2 + n2 <= c + n:
                        if not z3.is_true(g):
                            raise Unsupported('guarded overlapping store')
                        del cells[o2]
                        continue
                    raise Unsupported('overlapping store in %s' % ob.name)
                b = self.tobits(v2, n2)
                del cells[o2]
                if o2 < c:
                    cells[o2] = (c - o2, z3.simplify(z3.Extract(8 * (c - o2) - 1, 0, b)))
                if o2 + n2 > c + n:
                    cells[c + n] = (o2 + n2 - c - n, z3.simplify(z3.Extract(8 * n2 - 1, 8 * (c + n - o2), b)))
                if not z3.is_true(g):
                    raise Unsupported('guarded overlapping store')
        if z3.is_true(g):
            cells[c] = (n, v)
        else:
            old = cells[c][1] if c in cells else self.freshval(self.fresh('%s+%d' % (ob.name, c)), ty)
            cells[c] = (n, self.ite(g, v, self.conv_like(old, v, n), 8 * n))

    def conv_like(self, old, v, n):
        """convert old to the representation of v"""
        if isinstance(v, Ptr):
            return self.astype(old, 'ptr', n)
        if isinstance(v, IV) or isinstance(old, IV):
            return old
        if z3.is_fp(v):
            return self.astype(old, 'double' if v.sort().ebits() == 11 else 'float', n)
        if z3.is_bool(v):
            return self.astype(old, 'i1', n)
        if isinstance(old, Ptr):
            return self.ptr_int(old)
        return self.tobits(old, n)

    def merge_mem(self, c, a, b):
        """If c then a else b"""
        if a is b:
            return dict(a)
        r = {}
        for ob in set(a) | set(b):
            if ob not in a:
                r[ob] = b[ob]
                continue
            if ob not in b:
                r[ob] = a[ob]
                continue
            x, y = a[ob], b[ob]
            if x is y:
                r[ob] = x
            elif isinstance(x, dict):
                if self.cells_same(x, y):
                    r[ob] = x
                    continue
                cells = {}
                for off in set(x) | set(y):
                    if off in x and off in y and x[off][0] == y[off][0]:
                        p, q = x[off][1], y[off][1]
                        if p is q or self.same_any(p, q):
                            cells[off] = x[off]
                        else:
                            n = x[off][0]
                            if type(p) is not type(q) or (z3.is_expr(p) and z3.is_expr(q) and p.sort() != q.sort()):
                                p2, q2 = p, self.conv_like(q, p, n)
                            else:
                                p2, q2 = p, q
                            cells[off] = (n, self.ite(c, p2, q2, 8 * n))
                    else:
                        # cell present (with that width) on one side only
                        side, other = (x, y) if off in x else (y, x)
                        n, v = side[off]
                        ov = self.peek(other, ob, off, n, v)
                        if ov is None:
                            continue
                        cells[off] = (n, self.ite(c, v, ov, 8 * n) if side is x else self.ite(c, ov, v, 8 * n))
                r[ob] = cells
            else:
                r[ob] = x if x.eq(y) else z3.If(c, x, y)
        return r

    def same_any(self, p, q):
        if type(p) is not type(q):
            return False
        if z3.is_expr(p):
            return p.sort() == q.sort() and p.eq(q)
        return self.same(p, q)

    def cells_same(self, x, y):
        return len(x) == len(y) and all(o in y and (x[o] is y[o] or (x[o][0] == y[o][0] and self.same_any(x[o][1], y[o][1]))) for o in x)

    def peek(self, cells, ob, off, n, like):
        for o2, (n2, v2) in cells.items():
            if not (o2 + n2 <= off or off + n <= o2):
                if o2 <= off and off + n <= o2 + n2 and not isinstance(v2, (Ptr, IV)):
                    b = self.tobits(v2, n2)
                    return self.conv_like(z3.Extract(8 * (off - o2 + n) - 1, 8 * (off - o2), b), like, n)
                if ob.local:
                    return None
                raise Unsupported('merge of overlapping cells in ' + ob.name)
        if ob.local:
            return like  # uninitialised on that path
        ty = 'ptr' if isinstance(like, Ptr) else ('i%d' % (8 * n))
        return self.conv_like(self.freshval(self.fresh('%s+%d' % (ob.name, off)), ty), like, n)

    # -- functions
    def call_fn(self, fname, args, mem, guard, path=()):
        """execute body; returns (ret, mem, guard)"""
        fn = self.m.fn(fname)
        if fn.irreducible:
            raise Unsupported('irreducible control flow in ' + fname)
        n_cut, n_abn, n_soft = self.loops_cut, len(self.abn) + len(self.thrown), len(self.cut)
        caught = self.caught
        self.depth += 1
        if self.depth > self.max_inline:
            raise Unsupported('recursion without contract: ' + fname)
        self.called.add(fname)
        act = Act(fn)
        act.path = path  # call sites from the function under contract
        act.tys = {}
        for a in fn.args:
            act.tys[a['id']] = a['ty']
        for b in fn.blocks.values():
            for i in b['ins']:
                act.tys[i['id']] = i['ty']
        for a, v in zip(fn.args, args):
            if a.get('byval'):
                ob = Obj(self.fresh('byval_' + fname), 'cells', size=a['byval'], local=True)
                g, so, sf = v.cs[0]
                src = self.content(mem, so) if so.kind == 'cells' else None
                if len(v.cs) != 1 or src is None or not sf.isconst():
                    raise Unsupported('byval')
                mem[ob] = {o - sf.c: c for o, c in src.items() if sf.c <= o < sf.c + a['byval']}
                v = P(ob)
            act.env[a['id']] = v
        saved_ref = self.refine
        latches, exits = self.scope(act, None, [(guard, mem, {}, dict(self.refine))])
        self.refine = saved_ref
        self.depth -= 1
        if not act.rets:
            return None, mem, z3.BoolVal(False)
        g, m, v = act.rets[0]
        for g2, m2, v2 in act.rets[1:]:
            m = self.merge_mem(g2, m2, m)
            if v is not None:
                v = self.ite(g2, v2, v, self.width(fn.ret) if fn.ret[0] == 'i' and fn.ret != 'i1' else None)
            g = OR(g, g2)
        if n_cut == self.loops_cut and n_abn == len(self.abn) + len(self.thrown) and n_soft == len(self.cut) and caught == self.caught:
            g = guard  # every path of this call returns
        return v, m, g

    def scope(self, act, loop, header_edges):
        fn = act.fn
        blocks = loop.blocks if loop else None
        start = loop.header if loop else fn.entry
        pending = {start: list(header_edges)}
        latch, exits = [], []

        def route(tgt, edge):
            if is_false(edge[0]):
                return
            if loop and tgt == loop.header:
                latch.append(edge)
            elif blocks is not None and tgt not in blocks:
                exits.append((tgt, edge))
            else:
                pending.setdefault(tgt, []).append(edge)
        for b in fn.rpo:
            if blocks is not None and b not in blocks:
                continue
            es = pending.get(b)
            if not es:
                continue
            inner = fn.inner.get(b)
            if inner is not loop:
                # header of a child loop?
                l = inner
                while l is not None and l.parent is not loop:
                    l = l.parent
                if l is None or l.header != b:
                    continue
                for tgt, e in self.do_loop(act, l, es):
                    route(tgt, e)
                continue
            self.block(act, b, es, route)
        return latch, exits

    def merge_edges(self, act, b, es):
        phis = []
        for i in act.fn.blocks[b]['ins']:
            if i['op'] != 'phi':
                break
            phis.append(i)
        g, mem, pv, ref = es[0]
        pv = dict(pv)
        mem = dict(mem)
        ref = dict(ref)
        for g2, mem2, pv2, ref2 in es[1:]:
            mem = self.merge_mem(g2, mem2, mem)
            for i in phis:
                w = int(i['ty'][1:]) if i['ty'][0] == 'i' and i['ty'] != 'i1' else None
                pv[i['id']] = self.ite(g2, pv2[i['id']], pv[i['id']], w)
            g = OR(g, g2)
            ref = {t: (min(r[0], ref2[t][0]), max(r[1], ref2[t][1])) for t, r in ref.items() if t in ref2}
        return g, mem, pv, ref

    def edge(self, act, frm, to, cond, mem):
        pv = {}
        for i in act.fn.blocks[to]['ins']:
            if i['op'] != 'phi':
                break
            for o, b in i['inc']:
                if b == frm:
                    pv[i['id']] = self.opval(act, o)
                    break
        return (cond, dict(mem), pv, dict(self.refine))

    def block(self, act, b, es, route):
        g, mem, pv, ref = self.merge_edges(act, b, es)
        self.refine = ref
        if self.cuts and len(es) > 1:
            pv = {k: self.cut_value(v, g) for k, v in pv.items()}
        act.env.update(pv)
        for i in act.fn.blocks[b]['ins']:
            op = i['op']
            self.line = (act.fn.name, i.get('ln'))
            if op == 'phi':
                continue
            if op == 'br':
                if 'cond' in i:
                    if i['t'] == i['f']:
                        route(i['t'], self.edge(act, b, i['t'], g, mem))
                        return
                    c = self.opval(act, i['cond'])
                    if z3.is_expr(c) and not (z3.is_true(c) or z3.is_false(c)):
                        c2 = z3.simplify(c)
                        if z3.is_true(c2) or z3.is_false(c2):
                            c = c2
                    base = self.refine
                    for tgt, pol in ((i['t'], True), (i['f'], False)):
                        cc = c if pol else NOT(c)
                        if is_false(cc):
                            continue
                        self.refine = self.refined(act, base, i['cond'], pol)
                        route(tgt, self.edge(act, b, tgt, AND(g, cc), mem))
                    self.refine = base
                else:
                    route(i['t'], self.edge(act, b, i['t'], g, mem))
                return
            if op == 'switch':
                v = self.opval(act, i['cond'])
                w = self.opw(act, i['cond'])
                conds = []
                bytgt = {}
                if w == 1:
                    for cv, tgt in i['cases']:
                        c = v if int(cv) else NOT(v)
                        conds.append(c)
                        bytgt.setdefault(tgt, []).append(c)
                else:
                    for cv, tgt in i['cases']:
                        c = self.d.icmp('eq', w, v, self.d.const(w, int(cv)))
                        conds.append(c)
                        bytgt.setdefault(tgt, []).append(c)
                bytgt.setdefault(i['def'], []).append(NOT(OR(*conds)))
                for tgt, cs in bytgt.items():
                    cc = OR(*cs)
                    if is_false(cc):
                        continue
                    route(tgt, self.edge(act, b, tgt, AND(g, cc), mem))
                return
            if op == 'ret':
                v = self.opval(act, i['a'][0]) if i['a'] else None
                act.rets.append((g, mem, v))
                return
            if op == 'unreachable':
                self.abn.append((g, 'unreachable', self.line))
                return
            if op == 'resume':
                self.thrown.append((g, dict(mem), self.line))
                return
            if op in ('call', 'invoke'):
                base = len(self.thrown)
                r, mem, g = self.call(act, i, mem, g)
                if r is not None:
                    act.env[i['id']] = r
                if op == 'invoke' and len(self.thrown) > base and act.fn.catches(i['unw']):
                    for tg, tm, tl in self.thrown[base:]:
                        route(i['unw'], self.edge(act, b, i['unw'], tg, tm))
                    del self.thrown[base:]
                    self.caught += 1
                if is_false(g):
                    return
                if op == 'invoke':
                    route(i['t'], self.edge(act, b, i['t'], g, mem))
                    return
                continue
            if op == 'load' and i['ty'].startswith('<'):
                act.env[i['id']] = self.load_vec(mem, g, self.opval(act, i['a'][0]), i['ty'])
            elif op == 'store' and i['at'][0].startswith('<'):
                self.store_vec(mem, g, self.opval(act, i['a'][1]), self.opval(act, i['a'][0]))
            elif op == 'load':
                act.env[i['id']] = self.load(mem, g, self.opval(act, i['a'][0]), i['ty'])
            elif op == 'store':
                self.store(mem, g, self.opval(act, i['a'][1]), self.opval(act, i['a'][0]), i['at'][0])
            elif op == 'alloca':
                ob = Obj(self.fresh('alloca_%s_%d' % (act.fn.name[:30], i['id'])), 'cells', size=i['size'], local=True)
                mem[ob] = {}
                act.env[i['id']] = P(ob)
            elif op == 'cmpxchg':
                p, cmpv, new = (self.opval(act, x) for x in i['a'])
                ty = i['at'][1]
                old = self.load(mem, g, p, ty)
                w = self.width(ty)
                ok = self.d.icmp('eq', w, old, cmpv)
                self.store(mem, g, p, self.ite(ok, new, old, w), ty)
                act.env[i['id']] = [old, ok]
            elif op == 'atomicrmw':
                p, v = (self.opval(act, x) for x in i['a'])
                ty = i['at'][1]
                w = self.width(ty)
                old = self.load(mem, g, p, ty)
                rm = i['rmw']
                if rm in ('add', 'sub', 'and', 'or', 'xor'):
                    nv = self.d.bin(rm, w, old, v)
                elif rm == 'xchg':
                    nv = v
                elif rm in ('max', 'min', 'umax', 'umin'):
                    nv = self.d.minmax(rm if rm[0] == 'u' else 's' + rm, w, old, v)
                else:
                    raise Unsupported('atomicrmw ' + rm)
                self.store(mem, g, p, nv, ty)
                act.env[i['id']] = old
            elif op == 'getelementptr':
                act.env[i['id']] = self.gep(act, i)
            elif op == 'fence':
                pass
            elif op == 'landingpad':
                act.env[i['id']] = [NULL, self.freshval(self.fresh('selector'), 'i32')]
            else:
                act.env[i['id']] = self.inst(act, i)
                if self.cuts and op in CUT_OPS:
                    act.env[i['id']] = self.cut_value(act.env[i['id']], g)
                if self.check_div and op in ('sdiv', 'udiv', 'srem', 'urem'):
                    w = self.width(i['ty'])
                    dv = self.opval(act, i['a'][1])
                    if not self.d.isconst(dv):
                        self.oblige('division by zero', 'safety', g,
                                    self.d.icmp('ne', w, dv, self.d.const(w, 0)))

    check_div = True
    cuts = ()
    hcache = {}

    def set_cuts(self, cands, samples):
        """intermediate assertions: a computed value that provably equals one of the candidate ghost terms is replaced by it.
        cands: (name, term, lo, hi); samples: lists of (variable, number) used only to pick the candidate worth proving"""
        self.cut_samples = samples
        self.cuts = []
        self.cut_memo = {}
        self.cut_log = []
        for n, t, lo, hi in cands:
            self.cuts.append((n, t, lo, hi, tuple(self.cut_eval(t, s) for s in samples)))

    def cut_eval(self, t, s):
        r = z3.simplify(z3.substitute(t, *s)) if z3.is_expr(t) else z3.IntVal(t)
        return r.as_long() if z3.is_int_value(r) else None

    def cut_value(self, v, g):
        if not isinstance(v, IV) or v.lo == v.hi or not z3.is_expr(v.t) or v.t.num_args() == 0:
            return v
        key = (v.t.get_id(), g.get_id())
        if key in self.cut_memo:
            h = self.cut_memo[key][0]
            return v if h is None else IV(h[0], max(h[1], v.lo), min(h[2], v.hi))
        hit = None
        live = []
        for k, s in enumerate(self.cut_samples):
            gv = z3.simplify(z3.substitute(g, *s))
            if z3.is_true(gv):
                x = self.cut_eval(v.t, s)
                if x is None:
                    live = []
                    break
                live.append((k, x))
        if live:
            for n, t, lo, hi, vals in self.cuts:
                if all(vals[k] == x for k, x in live) and not v.t.eq(t):
                    if self.cut_proof(g, v.t == t):
                        hit = (t, lo, hi)
                        self.cut_log.append(n)
                        break
                    self.cut_log.append(n + ' (not proved)')
        self.cut_memo[key] = (hit, v.t, g)
        return v if hit is None else IV(hit[0], max(hit[1], v.lo), min(hit[2], v.hi))

    cut_timeout = 20000

    def cut_proof(self, g, goal):
        # first with the facts that share variables with the goal (transitively) and the guard conjuncts over those only
        fs = self.allfacts()
        vs, use = slice_facts(fs, [goal])
        cj = conjuncts(g)
        gs = [c for c in cj if consts(c) <= vs]
        if len(use) < len(fs) or len(gs) < len(cj):
            if self.entails(use, z3.And(*gs) if gs else z3.BoolVal(True), goal, self.cut_timeout):
                return True
        return self.entails(fs, g, goal, self.cut_timeout)

    def refined(self, act, base, cond, pol):
        """interval refinements implied by a branch condition (int domain only)"""
        if self.d.name != 'int':
            return base
        r = dict(base)
        saved, self.refine = self.refine, base
        self._refine(act, r, cond, pol)
        self.refine = saved
        return r

    def _refine(self, act, r, cond, pol):
        if cond['k'] != 'v':
            return
        ins = self.find_ins(act, cond['id'])
        if ins is None:
            return
        if ins['op'] == 'icmp':
            pred = ins['pred']
            w = self.opw(act, ins['a'][0]) if ins['at'][0] != 'ptr' else None
            if w is None:
                return
            try:
                a, b = self.opval(act, ins['a'][0]), self.opval(act, ins['a'][1])
            except Unsupported:
                return
            if not pol:
                pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
                        'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
            self._ref1(r, w, pred, a, b)
            sw = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
                  'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[pred]
            self._ref1(r, w, sw, b, a)
        elif ins['op'] == 'select' and ins['ty'] == 'i1':
            c, a, b = ins['a']
            if pol and b['k'] == 'c' and int(b['c']) == 0:
                self._refine(act, r, c, True)
                self._refine(act, r, a, True)
            if not pol and a['k'] == 'c' and int(a['c']) != 0:
                self._refine(act, r, c, False)
                self._refine(act, r, b, False)
        elif ins['op'] in ('and', 'or') and ins['ty'] == 'i1':
            if (ins['op'] == 'and') == pol:
                for x in ins['a']:
                    self._refine(act, r, x, pol)

    def _ref1(self, r, w, pred, a, b):
        if isinstance(a.t, int):
            return
        H, M = 1 << (w - 1), 1 << w
        key = a.t.get_id()
        self.keep.append(a.t)
        lo, hi = r.get(key, (a.lo, a.hi))
        if pred == 'eq' and ((a.hi < H and b.hi < H) or (a.lo >= 0 and b.lo >= 0)):
            lo, hi = max(lo, b.lo), min(hi, b.hi)
        elif pred[0] == 's' and a.hi < H and b.hi < H or pred[0] == 'u' and a.lo >= 0 and b.lo >= 0:
            p = pred[1:]
            if p == 'lt':
                hi = min(hi, b.hi - 1)
            elif p == 'le':
                hi = min(hi, b.hi)
            elif p == 'gt':
                lo = max(lo, b.lo + 1)
            elif p == 'ge':
                lo = max(lo, b.lo)
        elif pred in ('ult', 'ule') and a.hi < H and b.lo >= 0 and b.hi < H:
            # unsigned compare of a signed-range value with a small bound: a in [0, b)
            lo, hi = max(lo, 0), min(hi, b.hi - (pred == 'ult'))
        else:
            return
        r[key] = (lo, hi)

    def find_ins(self, act, vid):
        m = getattr(act.fn, '_insmap', None)
        if m is None:
            m = {i['id']: i for b in act.fn.blocks.values() for i in b['ins']}
            act.fn._insmap = m
        return m.get(vid)

    # -- plain instructions
    def inst(self, act, i):
        op, ty = i['op'], i['ty']
        d = self.d
        A = [self.opval(act, x) for x in i['a']]
        at = i['at']
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if ty == 'i1':
                a, b = A
                if op == 'and':
                    return AND(a, b)
                if op == 'or':
                    return OR(a, b)
                if op in ('xor', 'add', 'sub'):
                    if is_true(b):
                        return NOT(a)
                    return z3.Xor(a, b)
                raise Unsupported('i1 ' + op)
            x = m = None
            if d.name == 'int' and ty == 'i64' and op == 'and' and d.isconst(A[1]) and -d.sval(A[1]) in (2, 4, 8):
                x, m = A[0].t, -d.sval(A[1])
            elif d.name == 'int' and ty == 'i64' and op == 'shl' and d.isconst(A[1]) and d.sval(A[1]) in (1, 2, 3) and A[0].lo >= 0 and z3.is_expr(A[0].t) and z3.is_app_of(A[0].t, z3.Z3_OP_IDIV):
                m = 1 << d.sval(A[1])
                x = A[0].t.arg(0) if z3.is_int_value(A[0].t.arg(1)) and A[0].t.arg(1).as_long() == m and A[0].hi * m < 1 << 63 else None
            if x is not None:
                # alignment of an address: the base is aligned, so only the offset is rounded
                r = self.addr_split(x)
                if r is not None and getattr(r[0], 'align', r[0].ew or 8) >= m:
                    al, off = round_split(r[1], m)
                    return IV(r[0].ibase + (al + (off - off % m)), A[0].lo, A[0].hi)
            r = d.bin(op, self.width(ty), A[0], A[1])
            if op == 'sub' and ty == 'i64' and d.name == 'int' and r.lo <= -(1 << 47) and r.hi >= 1 << 47 and not d.isconst(r):
                t = z3.simplify(r.t)  # of two addresses in one object
                if z3.is_int_value(t):
                    return IV(t, t.as_long(), t.as_long())
            return r
        if op == 'icmp':
            if at[0] == 'ptr':
                return self.ptr_cmp(i['pred'], A[0], A[1])
            if at[0] == 'i1':
                if i['pred'] == 'eq':
                    return A[0] == A[1]
                if i['pred'] == 'ne':
                    return z3.Xor(A[0], A[1])
                A = [d.frombool(x, 8) for x in A]
                return d.icmp(i['pred'], 8, A[0], A[1])
            return d.icmp(i['pred'], self.width(at[0]), A[0], A[1])
        if op == 'fcmp':
            return fcmp(i['pred'], A[0], A[1])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return fp_uf(op, FSORT[ty], A[0], A[1])
        if op == 'fneg':
            return z3.fpNeg(A[0])
        if op == 'select':
            w = self.width(ty) if ty[0] == 'i' and ty != 'i1' else None
            c = A[0]
            a, b = A[1], A[2]
            if self.d.name == 'int' and w:
                # re-evaluate operands under the refinement of the condition
                base = self.refine
                self.refine = self.refined(act, base, i['a'][0], True)
                a = self.opval(act, i['a'][1])
                self.refine = self.refined(act, base, i['a'][0], False)
                b = self.opval(act, i['a'][2])
                self.refine = base
            return self.ite(c, a, b, w)
        if op == 'zext':
            if at[0] == 'i1':
                return d.frombool(A[0], self.width(ty))
            return d.zext(A[0], self.width(at[0]), self.width(ty))
        if op == 'sext':
            if at[0] == 'i1':
                return d.sfrombool(A[0], self.width(ty))
            return d.sext(A[0], self.width(at[0]), self.width(ty))
        if op == 'trunc':
            if ty == 'i1':
                w = self.width(at[0])
                return d.icmp('ne', w, d.bin('and', w, A[0], d.const(w, 1)), d.const(w, 0))
            return d.trunc(A[0], self.width(at[0]), self.width(ty))
        if op == 'sitofp':
            if d.name == 'int':
                raise Unsupported('int-domain sitofp')
            while z3.is_bv(A[0]) and z3.is_app_of(A[0], z3.Z3_OP_SIGN_EXT):   # same value
                A[0] = A[0].arg(0)
            return z3.fpSignedToFP(RNE, A[0], FSORT[ty]) if at[0] != 'i1' else z3.If(A[0], z3.FPVal(-1.0, FSORT[ty]), z3.FPVal(0.0, FSORT[ty]))
        if op == 'uitofp':
            if d.name == 'int':
                raise Unsupported('int-domain uitofp')
            if at[0] == 'i1':
                return z3.If(A[0], z3.FPVal(1.0, FSORT[ty]), z3.FPVal(0.0, FSORT[ty]))
            return z3.fpUnsignedToFP(RNE, A[0], FSORT[ty])
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), A[0], z3.BitVecSort(self.width(ty)))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), A[0], z3.BitVecSort(self.width(ty)))
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and A[0].decl().kind() == z3.Z3_OP_FPA_TO_FP and A[0].num_args() == 2 and A[0].arg(1).sort() == FSORT[ty]:
                return A[0].arg(1)    # of the extension of a narrower number, which is exact
            return z3.fpToFP(RNE, A[0], FSORT[ty])
        if op == 'insertelement' and isinstance(A[0], Vec) and d.isconst(A[2]) and A[0].ty == at[1]:
            return Vec(A[0].ty, [A[1] if j == d.uval(A[2]) else x for j, x in enumerate(A[0].lanes)])
        if op == 'bitcast':
            if at[0] == ty or isinstance(A[0], Vec):
                return A[0]
            if ty in FSORT:
                return z3.fpBVToFP(d.tobv(A[0], FBITS[ty]), FSORT[ty])
            if at[0] in FSORT and ty[0] == 'i':
                return d.frombv(self.tobits(A[0], FBITS[at[0]] // 8), FBITS[at[0]])
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            v = self.ptr_int(A[0])
            w = self.width(ty)
            return v if w == 64 else d.trunc(v, 64, w)
        if op == 'inttoptr':
            v = A[0]
            w = self.width(at[0])
            if w < 64:
                v = d.zext(v, w, 64)
            return self.int_ptr(v)
        if op == 'extractvalue':
            v = A[0]
            for k in i['ix']:
                v = v[k]
            return v
        if op == 'insertvalue':
            def ins(agg, ix, v):
                agg = list(agg)
                agg[ix[0]] = v if len(ix) == 1 else ins(agg[ix[0]], ix[1:], v)
                return agg
            return ins(A[0], i['ix'], A[1])
        if op == 'freeze':
            return A[0]
        raise Unsupported('instruction ' + op)

    # -- calls
    def call(self, act, i, mem, g):
        if i.get('asm'):
            raise Unsupported('inline asm')
        name = i.get('callee')
        if name is None:
            fp = self.opval(act, i['calleev'])
            if isinstance(fp, Ptr) and len(fp.cs) == 1 and isinstance(fp.cs[0][1], Obj) and fp.cs[0][1].kind == 'fn':
                name = fp.cs[0][1].fnname
            else:
                raise Unsupported('indirect call in ' + act.fn.name)
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing',
                            'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant')):
            return (NULL if i['ty'] == 'ptr' else None), mem, g
        args = [self.opval(act, x) for x in i['a']]
        mdl = self.summaries.get(name) or self.models.get(name)
        if mdl is None:
            base = name
            if base.startswith('llvm.'):
                parts = base.split('.')
                for n in range(len(parts), 1, -1):
                    k = '.'.join(parts[:n])
                    if k in self.models:
                        mdl = self.models[k]
                        break
        if mdl is None and name.startswith('_ZN6logger12check_failed'):
            mdl = self.models['abort']
        if mdl is not None:
            self.contract_used.add(name)
            return mdl(self, i, args, mem, g)
        dead = lambda: ((self.freshval(self.fresh('dead'), i['ty']) if i['ty'] != 'void' else None), mem, z3.BoolVal(False))
        if name in self.m.raw:
            f = self.m.fn(name)
            if (f.loops or len(f.blocks) > 8) and not z3.is_true(g) and not self.feasible(g):
                return dead()
            return self.call_fn(name, args, mem, g, act.path + (i['id'],))
        if not self.feasible(g):
            return dead()
        raise Unsupported('external function ' + name)

    # -- loops
    def do_loop(self, act, loop, es):
        if self.loop_mode == 'unroll':
            return self.do_unroll(act, loop, es, self.unroll_bound, hard=False)
        spec = None
        for s in self.loop_specs:
            if s.matches(act.fn, loop, self):
                spec = s
                break
        if spec is not None and spec.unroll:
            return self.do_unroll(act, loop, es, spec.unroll, hard=True)
        if spec is None:
            # no invariant supplied: complete unwinding if the loop ends by constant folding
            return self.do_unroll(act, loop, es, 70, hard=True)
        if spec.try_unroll and self.const_start(act, loop, es):
            snap = self.snapshot()
            try:
                return self.do_unroll(act, loop, es, spec.try_unroll, hard=True)
            except Unsupported:
                self.restore(snap)
        return self.do_inv(act, loop, es, spec)

    def const_start(self, act, loop, es):
        """a header variable starts from a literal: the loop may have a constant trip count"""
        pv0 = self.merge_edges(act, loop.header, es)[2]
        for i in act.fn.blocks[loop.header]['ins']:
            if i['op'] == 'phi' and i['ty'][0] == 'i' and i['ty'] != 'i1':
                v = pv0[i['id']]
                if not isinstance(v, (Ptr, list)) and self.d.isconst(v):
                    return True
        return False

    def do_unroll(self, act, loop, es, bound, hard):
        exits = []
        self.loops_unrolled += 1
        n = 0
        while es:
            if n > bound:
                g = OR(*[e[0] for e in es])
                if hard:
                    if self.feasible(g):
                        raise Unsupported('loop in %s not unwound completely within %d iterations' % (act.fn.name, bound))
                else:
                    self.unwound = True
                    self.cut.append(g)
                break
            latch, ex = self.scope(act, loop, es)
            exits += ex
            es = []
            for e in latch:
                c = z3.simplify(e[0]) if n < 4 or n % 8 == 0 else e[0]
                if is_false(c):
                    continue
                es.append(e)
            if es and self.prune and not self.feasible(OR(*[e[0] for e in es])):
                es = []
            n += 1
        return exits

    prune = True
    absfp = False    # find invariants with uninterpreted floating-point operations

    def feasible(self, g):
        g = z3.simplify(g)
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.allfacts())
        s.add(g)
        return s.check() != z3.unsat

    def entails(self, facts, guard, goal, timeout=10000):
        import time
        if z3.is_true(z3.simplify(goal)):
            return True
        t = time.time()
        if quick_eq(facts, goal):
            return True
        vd = has_vdiv([guard, goal] + list(facts))
        r = z3.unknown
        if fp_unsat(list(facts) + [guard, z3.Not(goal)]):
            r = z3.unsat
        elif self.absfp and has_fp(list(facts) + [guard, goal]):
            r = z3.sat
        elif not vd:
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*facts)
            s.add(guard)
            s.add(z3.Not(goal))
            r = s.check()
        if r == z3.unknown:
            q = abstract_mul([guard, z3.Not(goal)] + list(facts))
            if q is not None:
                s = z3.Solver()
                s.set('timeout', timeout)
                s.add(*q)
                r = s.check()
                if r == z3.sat:
                    r = z3.unknown
        self.hsolver['queries'] += 1
        self.hsolver['time'] += time.time() - t
        return r == z3.unsat

    dry = 0

    def entailed(self, facts, guard, goals):
        """the candidates whose goal follows; goals: (candidate, goal)"""
        goals = [(c, q) for c, q in goals]
        sure = []
        rest = []
        for c, q in goals:
            (sure if z3.is_true(z3.simplify(q)) or quick_eq(facts, q) else rest).append((c, q))
        ok = {id(c) for c, q in sure}
        if len(rest) > 1 and not has_vdiv([guard] + [q for _, q in rest] + list(facts)):
            fx, gx, orig = facts, guard, None
            if has_fp(list(facts) + [guard] + [q for _, q in rest]):
                if self.absfp:
                    ab = abstract_fp(list(facts) + [guard] + [q for _, q in rest])
                    if ab is not None:
                        fx, gx = ab[:len(facts)] + ab[len(facts) + 1 + len(rest):], ab[len(facts)]
                        orig = {id(c): q for c, q in rest}
                        rest = [(c, q) for (c, _), q in zip(rest, ab[len(facts) + 1:])]
                elif fp_unsat(list(facts) + [guard, z3.Or(*[z3.Not(q) for _, q in rest])]):
                    ok |= {id(c) for c, q in rest}
                    rest = []
            while rest:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*fx)
                s.add(gx)
                s.add(z3.Or(*[z3.Not(q) for _, q in rest]))
                self.hsolver['queries'] += 1
                r = s.check()
                if r == z3.unsat:
                    ok |= {id(c) for c, q in rest}
                    rest = []
                elif r == z3.sat:
                    m = s.model()
                    keep = [(c, q) for c, q in rest if not z3.is_false(m.eval(q, model_completion=True))]
                    if len(keep) == len(rest):
                        break
                    rest = keep
                else:
                    break
            if orig:
                rest = [(c, orig[id(c)]) for c, _ in rest]
        ok |= {id(c) for c, q in rest if self.entails(facts, guard, q)}
        return [c for c, q in goals if id(c) in ok]

    def snapshot(self):
        return (list(self.facts), list(self.obls), (list(self.abn), list(self.thrown)), self.written, dict(self.refine),
                list(self.d.facts) if hasattr(self.d, 'facts') else None)

    def restore(self, s):
        self.facts, self.obls, self.written, self.refine = list(s[0]), list(s[1]), s[3], dict(s[4])
        self.abn, self.thrown = list(s[2][0]), list(s[2][1])
        if s[5] is not None:
            self.d.facts[:] = s[5]

    def do_inv(self, act, loop, es, spec):
        self.loops_cut += 1
        first = self.snapshot()
        nohint = self.nohint.setdefault((act.fn.name, loop.header), set())

        def hint(i, v):
            """assume a header variable stays within the given range; that is then an obligation"""
            if spec.range and isinstance(v, IV) and i['id'] not in nohint and int(i['ty'][1:]) >= 32 and not self.d.isconst(v):
                return IV(v.t, max(v.lo, spec.range[0]), min(v.hi, spec.range[1]))
            return v
        g0, mem0, pv0, ref0 = self.merge_edges(act, loop.header, es)
        phis = [i for i in act.fn.blocks[loop.header]['ins'] if i['op'] == 'phi']
        kname = self.fresh('k')
        if self.d.name == 'int':
            k = z3.Int(kname)
            kfacts = [k >= 0]
        else:
            k = z3.BitVec(kname, 64)
            kfacts = []
        # 1. dry run: which objects are written, which phis are affine
        phisym = {}
        affine = {}
        for i in phis:
            phisym[i['id']] = hint(i, self.phi_fresh(i, pv0[i['id']], kname))
        havoc = set()
        cellhavoc = {}
        aff_k = {}
        narrowed = False
        narrow = []
        for rnd in range(8):
            snap = self.snapshot()
            self.d.facts.extend(narrow) if narrow else None
            self.written = {}
            mem = self.havoc_mem(mem0, havoc, cellhavoc, kname)
            self.dry += 1
            latch, ex = self.scope(act, loop, [(g0, mem, dict(phisym), ref0)])
            self.dry -= 1
            written = self.written
            changed = False
            for ob, offs in written.items():
                if ob.kind == 'elems':
                    if ob not in havoc and ob in mem0:
                        havoc.add(ob)
                        changed = True
                elif ob in mem0:
                    for o in offs:
                        if o is None:
                            for o2 in mem0[ob]:
                                if o2 not in cellhavoc.setdefault(ob, set()):
                                    cellhavoc[ob].add(o2)
                                    changed = True
                        elif o not in cellhavoc.setdefault(ob, set()):
                            cellhavoc[ob].add(o)
                            changed = True
            # affine phis
            if self.d.name == 'bv' or True:
                for i in phis:
                    pid = i['id']
                    if pid in aff_k or not latch:
                        continue
                    step = None
                    ok = True
                    for e in latch:
                        st = self.phi_step(i, phisym[pid], e[2][pid])
                        if st is None or (step is not None and not step == st):
                            ok = False
                            break
                        step = st
                    if ok and step is not None:
                        aff_k[pid] = step
                        phisym[pid] = hint(i, self.phi_affine(i, pv0[pid], step, k))
                        changed = True
            # interval of a header variable: whatever it was before, one iteration leaves it within these bounds
            if self.d.name == 'int' and latch and not changed and not narrowed:
                narrowed = True
                for i in phis:
                    pid = i['id']
                    vs = [pv0[pid]] + [e[2][pid] for e in latch]
                    if pid in aff_k or not all(isinstance(x, IV) for x in vs):
                        continue
                    w = int(i['ty'][1:])
                    lo, hi = min(x.lo for x in vs), max(x.hi for x in vs)
                    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)) and (lo, hi) != (phisym[pid].lo, phisym[pid].hi):
                        nv = self.d.fresh('phi%d@%s' % (pid, kname), w, lo, hi)
                        narrow.append(self.d.facts[-1])
                        phisym[pid] = nv
                        changed = True
            # pointer phis that gain objects
            for i in phis:
                if i['ty'] == 'ptr' and i['id'] not in aff_k:
                    for e in latch:
                        if not self.covers(phisym[i['id']], e[2][i['id']]):
                            raise Unsupported('pointer phi changes object')
            for ob, offs in cellhavoc.items():
                if isinstance(mem.get(ob), dict):
                    for o in offs & mem[ob].keys():
                        for e in latch:
                            nv = e[1].get(ob, {}).get(o)
                            if nv is not None and not self.covers(mem[ob][o][1], nv[1]):
                                raise Unsupported('pointer in %s changes object' % ob.name)
            self.restore(snap)
            if self.written is not None:
                for ob, offs in written.items():
                    self.written.setdefault(ob, set()).update(offs)
            if not changed:
                break
        else:
            raise Unsupported('loop of %s: header analysis does not settle' % act.fn.name)
        if narrow:
            self.d.facts.extend(narrow)
        memS = self.havoc_mem(mem0, havoc, cellhavoc, kname)
        entry_view = LoopView(self, self.kconst(0), [(i, pv0[i['id']]) for i in phis], mem0, mem0, pv0, act.fn.name, loop.header, cellhavoc)
        state_view = LoopView(self, k, [(i, phisym[i['id']]) for i in phis], memS, mem0, pv0, act.fn.name, loop.header, cellhavoc)
        for f in self.folds:
            kfacts += f.unfold(self, k)
        self.facts += kfacts
        if self.dry:
            # only the written objects and the shape of the header variables matter to the caller
            self.facts += []
            self.written = {} if self.written is None else self.written
            latch, ex = self.scope(act, loop, [(g0, dict(memS), dict(phisym), ref0)])
            return ex
        # 2. candidates and Houdini
        cands = spec.candidates(self, act, loop, entry_view, state_view)
        must = []
        if self.d.name == 'int':
            # an affine phi is init + step*k over the integers only while that stays within its type
            for i in phis:
                if i['id'] in aff_k and i['ty'] != 'ptr':
                    w = int(i['ty'][1:])
                    t0, st = self.d.term(pv0[i['id']], w), aff_k[i['id']]
                    must.append(spec.mk('counter %d does not wrap' % i['id'], lambda v, t0=t0, st=st, w=w: z3.And(
                        t0 + st * v.k >= -(1 << (w - 1)), t0 + st * v.k < (1 << (w - 1)))))
        hints = {}
        if spec.range and self.d.name == 'int':
            for pi, i in enumerate(phis):
                if isinstance(phisym[i['id']], IV) and i['id'] not in nohint and int(i['ty'][1:]) >= 32:
                    w = int(i['ty'][1:])
                    c = spec.mk('variable %d stays in range' % pi, lambda v, pi=pi, w=w: z3.And(self.d.term(v.phis[pi][1], w) >= spec.range[0], self.d.term(v.phis[pi][1], w) <= spec.range[1]))
                    hints[i['id']] = c
                    must.append(c)
        cands = must + cands
        live = []
        # survivors of an earlier pass of the enclosing loop (its invariant only gets weaker): nothing else can survive now
        hkey = (act.path, act.fn.name, loop.header)
        prev = self.hcache.get(hkey)
        for ix, c in enumerate(cands):
            c.ix = ix
            if prev is not None and prev[0] == len(cands) and ix not in prev[1]:
                continue
            try:
                e0 = c.at(entry_view)
            except (Unsupported, KeyError, z3.Z3Exception):
                continue
            if e0 is None or c.at(state_view) is None:
                continue
            live.append((c, e0))
        live = self.entailed(self.allfacts(), g0, live)
        outer_cache, self.hcache = self.hcache, {}
        snap = self.snapshot()
        while True:
            # body must be re-executed with current invariant as facts (inner loops use it)
            self.restore(snap)
            inv = [c.at(state_view) for c in live]
            # the invariant is proved for arbitrary skolem constants, so the induction hypothesis holds for every instance
            for q, t in (spec.inst(spec.ctx, state_view) if spec.inst else []):
                inv += [z3.substitute(f, (q, t)) for f in inv if occurs(q, f)]
            for f in inv:
                self.fact(z3.Implies(g0, f) if not z3.is_true(g0) else f)
            self.written = {} if self.written is None else self.written
            latch, ex = self.scope(act, loop, [(g0, dict(memS), dict(phisym), ref0)])
            left = live
            for e in latch:
                nv = LoopView(self, self.kplus(k), [(i, e[2][i['id']]) for i in phis], e[1], mem0, pv0, act.fn.name, loop.header, cellhavoc)
                gs = [(c, c.at(nv)) for c in left]
                left = self.entailed(self.allfacts(), e[0], [(c, q) for c, q in gs if q is not None])
            if len(left) == len(live):
                break
            live = left
        self.hcache = outer_cache
        if not any(c not in live for c in hints.values()):
            self.hcache[hkey] = (len(cands), {c.ix for c in live})
        lost = {pid for pid, c in hints.items() if c not in live}
        if lost:
            nohint |= lost
            self.restore(first)
            return self.do_inv(act, loop, es, spec)
        if any(c not in live for c in must):
            raise Unsupported('a loop counter of %s may wrap' % act.fn.name)
        # 3. final state: obligations of the surviving invariant are recorded
        fin_obls = list(self.obls)
        line = self.line
        self.obls = list(snap[1])
        fx = self.facts
        self.facts = snap[0]
        for c in live:
            self.oblige('loop invariant of %s holds on entry: %s' % (act.fn.name, c.name), 'inv-entry', g0, c.at(entry_view))
        self.facts = fx
        n0 = len(snap[1])
        self.obls += fin_obls[n0:]
        for c in live:
            for e in latch:
                nv = LoopView(self, self.kplus(k), [(i, e[2][i['id']]) for i in phis], e[1], mem0, pv0, act.fn.name, loop.header, cellhavoc)
                self.oblige('loop invariant of %s preserved: %s' % (act.fn.name, c.name), 'inv-step', e[0], c.at(nv))
        self.loop_log.append((act.fn.name, [c.name for c in live]))
        return ex

    def kconst(self, v):
        return z3.IntVal(v) if self.d.name == 'int' else z3.BitVecVal(v, 64)

    def kplus(self, k):
        return k + 1

    @staticmethod
    def covers(cur, nxt):
        """the arbitrary value cur stands for includes nxt"""
        if not isinstance(cur, Ptr):
            return not isinstance(nxt, Ptr)
        if not isinstance(nxt, Ptr):
            return False
        key = lambda o: o if o == 'abs' else id(o)
        objs = {key(o) for _, o, _ in cur.cs}
        return all(key(o) in objs or (o is None and 'abs' in objs) for _, o, _ in nxt.cs)

    def phi_fresh(self, i, init, kname):
        ty = i['ty']
        nm = 'phi%d@%s' % (i['id'], kname)
        if ty == 'ptr':
            cs = []
            for g, o, f in init.cs:
                if o is None:
                    cs.append((g, o, f))
                elif o == 'abs':
                    cs.append((g, o, Off(0, [(1, self.d.fresh(nm + '_abs', 64))])))
                else:
                    st = o.ew or 1
                    cs.append((g, o, Off(0, [(st, self.d.fresh(nm + '_' + o.name, 64))])))
            if any(o == 'abs' for _, o, _ in cs):
                # an arbitrary address includes null
                seen = False
                keep = []
                for g, o, f in cs:
                    if o is None or (o == 'abs' and seen):
                        continue
                    seen = seen or o == 'abs'
                    keep.append((g, o, f))
                cs = keep
            if len(cs) == 1:
                cs = [(z3.BoolVal(True), cs[0][1], cs[0][2])]
            else:
                none = z3.BoolVal(True)
                out = []
                for j, (g, o, f) in enumerate(cs):
                    b = z3.Bool('%s_is%d' % (nm, j)) if j < len(cs) - 1 else z3.BoolVal(True)
                    out.append((AND(none, b), o, f))
                    none = AND(none, NOT(b))
                cs = out
            return Ptr(cs)
        return self.freshval(nm, ty)

    def phi_step(self, i, cur, nxt):
        """constant difference nxt - cur, or None"""
        ty = i['ty']
        if ty == 'ptr':
            if len(cur.cs) != 1 or len(nxt.cs) != 1 or cur.cs[0][1] is not nxt.cs[0][1] or not isinstance(cur.cs[0][1], Obj):
                return None
            a, b = cur.cs[0][2], nxt.cs[0][2]
            d = self.off_add(b, -a.c, [(-co, v) for co, v in a.vs])
            return d.c if d.isconst() else None
        if ty == 'i1' or ty in FSORT or ty[0] != 'i':
            return None
        if isinstance(cur, IV):
            t = z3.simplify(self.d.term(nxt) - self.d.term(cur))
            if z3.is_int_value(t):
                return t.as_long()
            return None
        t = z3.simplify(nxt - cur)
        return t.as_signed_long() if z3.is_bv_value(t) else None

    def phi_affine(self, i, init, step, k):
        ty = i['ty']
        if ty == 'ptr':
            g, o, f = init.cs[0]
            kk = k if self.d.name == 'bv' else IV(k, 0, (1 << 62))
            return Ptr([(g, o, self.off_add(f, 0, [(step, kk)]))])
        w = int(ty[1:])
        if self.d.name == 'int':
            # the recurrence is exact over the integers only while no wrap occurs: range is an invariant candidate
            t = self.d.term(init, w) + step * k
            return IV(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        kk = z3.Extract(w - 1, 0, k) if w < 64 else k
        if step == 1:
            return init + kk
        return init + kk * step

    def havoc_mem(self, mem0, objs, cellh, kname):
        mem = dict(mem0)
        for ob in objs:
            a = mem0[ob]
            mem[ob] = z3.Const('%s@%s' % (ob.name, kname), a.sort())
        for ob, offs in cellh.items():
            if ob not in mem0:
                continue
            cells = dict(mem0[ob])
            for o in offs:
                if o in cells:
                    n, v = cells[o]
                    nm = '%s+%d@%s' % (ob.name, o, kname)
                    if isinstance(v, Ptr):
                        cells[o] = (n, self.phi_fresh({'ty': 'ptr', 'id': o}, v, kname + ob.name))
                    elif isinstance(v, IV):
                        cells[o] = (n, self.d.fresh(nm, 8 * n))
                    else:
                        cells[o] = (n, z3.Const(nm, v.sort()))
            mem[ob] = cells
        return mem


def split_struct(ty):
    s, out, d, cur = ty[1:-1], [], 0, ''
    for ch in s:
        if ch in '{[<':
            d += 1
        if ch in '}]>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def fcmp(pred, a, b):
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    if pred == 'true':
        return z3.BoolVal(True)
    if pred == 'false':
        return z3.BoolVal(False)
    if pred == 'ord':
        return z3.Not(un)
    if pred == 'uno':
        return un
    p = pred[1:]
    e = {'eq': lambda: z3.fpEQ(a, b), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
         'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b),
         'ne': lambda: z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))}[p]()
    if pred[0] == 'o':
        return e
    if pred == 'une':
        return z3.Not(z3.fpEQ(a, b))
    return z3.Or(un, e)


# ---------------------------------------------------------------- models of external functions / intrinsics
MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@model('abort', '__assert_fail', '_ZSt9terminatev', 'llvm.trap', '__cxa_throw', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc',
       '_ZSt17__throw_bad_allocv', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv',
       '__cxa_bad_cast', '__cxa_throw_bad_array_new_length', '_ZSt19__throw_logic_errorPKc')
def m_abort(ex, i, args, mem, g):
    if 'throw' in i['callee']:
        ex.thrown.append((g, dict(mem), ex.line))
    else:
        ex.abn.append((g, 'abort', ex.line))
    return None, mem, z3.BoolVal(False)


@model('_ZN6logger18fast_logging_checkENS_8SeverityE')
def m_logcheck(ex, i, args, mem, g):
    # CHECK(...)/LOG(FATAL) end the program; other log lines have no effect on results
    sev = args[0]
    fatal = z3.simplify(ex.d.icmp('eq', 32, sev, ex.d.const(32, 7)))
    if is_false(fatal):
        return z3.BoolVal(False), mem, g
    if is_true(fatal):
        ex.abn.append((g, 'abort', ex.line))
        return None, mem, z3.BoolVal(False)
    raise Unsupported('log severity not constant')


@model('abs', 'labs', 'llvm.abs')
def m_abs(ex, i, args, mem, g):
    w = ex.width(i['ty'])
    a = args[0]
    z = ex.d.const(w, 0)
    return ex.d.ite(ex.d.icmp('slt', w, a, z), ex.d.bin('sub', w, z, a), a, w), mem, g


@model('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')
def m_minmax(ex, i, args, mem, g):
    return ex.d.minmax(i['callee'].split('.')[1], ex.width(i['ty']), args[0], args[1]), mem, g


@model('llvm.expect')
def m_expect(ex, i, args, mem, g):
    return args[0], mem, g


@model('llvm.fmuladd')
def m_fma(ex, i, args, mem, g):
    s = FSORT[i['ty']]
    return fp_uf('fadd', s, fp_uf('fmul', s, args[0], args[1]), args[2]), mem, g


@model('llvm.fabs', 'fabs', 'fabsf')
def m_fabs(ex, i, args, mem, g):
    return z3.fpAbs(args[0]), mem, g


@model('pow', 'llvm.pow')
def m_pow(ex, i, args, mem, g):
    a, b = [z3.simplify(x) for x in args]
    if z3.is_fp_value(a) and z3.is_fp_value(b):
        x, y = fpnum(a), fpnum(b)
        if x == 10.0 and y == int(y) and 0 <= y <= 22:  # exact powers of ten
            return z3.FPVal(float(10 ** int(y)), args[0].sort()), mem, g
    return fp_uf('pow', args[0].sort(), *args), mem, g


def fpnum(x):
    return float(eval(str(z3.simplify(z3.fpToReal(x))).replace('?', '')))


@model('llvm.floor', 'floor', 'floorf')
def m_floor(ex, i, args, mem, g):
    return z3.fpRoundToIntegral(z3.RTN(), args[0]), mem, g


@model('llvm.ceil', 'ceil', 'ceilf')
def m_ceil(ex, i, args, mem, g):
    return z3.fpRoundToIntegral(z3.RTP(), args[0]), mem, g


@model('llvm.ctpop')
def m_ctpop(ex, i, args, mem, g):
    w = ex.width(i['ty'])
    x = ex.d.tobv(args[0], w)
    if w % 8 or ex.loop_mode != 'inv':
        return ex.d.frombv(popcount(x), w), mem, g
    # sum of the byte counts, as a small constant so that later truncation and extension are no-ops
    n = w.bit_length()
    r = z3.BitVec(ex.fresh('pop'), n)
    bs = [z3.simplify(z3.Extract(8 * j + 7, 8 * j, x)) for j in range(w // 8)]
    for y in bs:
        ex.fact(pc8(y) == popcount(z3.ZeroExt(56, y)))
    t = z3.ZeroExt(64 - n, r)
    ex.fact(t == z3.simplify(sum([pc8(y) for y in bs[1:]], pc8(bs[0]))))
    return ex.d.frombv(z3.ZeroExt(w - n, r) if w > n else r, w), mem, g


pc8 = z3.Function('popcount8', z3.BitVecSort(8), z3.BitVecSort(64))


def popcount(x):
    w = x.size()
    r = z3.BitVecVal(0, w)
    for b in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(b, b, x))
    return r


@model('llvm.ctlz')
def m_ctlz(ex, i, args, mem, g):
    w = ex.width(i['ty'])
    x = ex.d.tobv(args[0], w)
    r = z3.BitVecVal(w, w)
    for b in range(w):
        r = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(w - 1 - b, w), r)
    return ex.d.frombv(r, w), mem, g


@model('llvm.cttz')
def m_cttz(ex, i, args, mem, g):
    w = ex.width(i['ty'])
    x = ex.d.tobv(args[0], w)
    r = z3.BitVecVal(w, w)
    for b in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(b, w), r)
    return ex.d.frombv(r, w), mem, g


@model('llvm.umul.with.overflow')
def m_umulo(ex, i, args, mem, g):
    w = int(split_struct(i['ty'])[0][1:])
    a, b = (ex.d.tobv(x, w) for x in args)
    return [ex.d.frombv(a * b, w), z3.Not(z3.BVMulNoOverflow(a, b, False))], mem, g


@model('llvm.sadd.with.overflow', 'llvm.ssub.with.overflow', 'llvm.smul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')
def m_ovf(ex, i, args, mem, g):
    w = int(split_struct(i['ty'])[0][1:])
    a, b = (ex.d.tobv(x, w) for x in args)
    n = i['callee'].split('.')[1]
    op = n[1:]
    ext = z3.SignExt if n[0] == 's' else z3.ZeroExt
    A, B = ext(w, a), ext(w, b)
    R = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
    r = z3.Extract(w - 1, 0, R)
    return [ex.d.frombv(r, w), ext(w, r) != R], mem, g


@model('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def m_memcpy(ex, i, args, mem, g):
    dst, src, n = args[0], args[1], args[2]
    w = ex.opw_ty(i, 2) if hasattr(ex, 'opw_ty') else 64
    ret = dst if i['ty'] == 'ptr' else None
    mem = dict(mem)
    if z3.is_bv(n):
        n = z3.simplify(n)
    if not ex.d.isconst(n):
        # array segment copy: the new content is a lambda over the old ones
        if len(dst.cs) != 1 or len(src.cs) != 1:
            raise Unsupported('memcpy of merged pointers')
        _, so, sf = src.cs[0]
        _, do, df = dst.cs[0]
        if not (isinstance(so, Obj) and isinstance(do, Obj) and so.kind == do.kind == 'elems' and so.ew == do.ew):
            raise Unsupported('memcpy of symbolic length between these objects')
        ew = so.ew
        m = ex.div_len(n, ew)
        si, di = ex.off_idx(sf, ew), ex.off_idx(df, ew)
        if m is None or si is None or di is None:
            raise Unsupported('memcpy of symbolic length, unaligned')
        ex.seg_bound(g, so, si, m, 'memcpy source')
        ex.seg_bound(g, do, di, m, 'memcpy target')
        sa, da = ex.content(mem, so), ex.content(mem, do)
        T = ex.d.term
        if ex.d.name == 'int':
            j = z3.Int('j!')
            inside = z3.And(j >= T(di), j < T(di) + T(m))
        else:
            j = z3.BitVec('j!', 64)
            inside = z3.ULT(j - T(di), T(m))
        if ex.written is not None:
            ex.written.setdefault(do, set()).add(None)
        lam = z3.Lambda([j], z3.If(inside, z3.Select(sa, j - T(di) + T(si)), z3.Select(da, j)))
        mem[do] = lam if is_true(g) else z3.If(g, lam, da)
        return ret, mem, g
    n = ex.d.uval(n)
    if n == 0:
        return ret, mem, g
    if len(dst.cs) != 1 or len(src.cs) != 1:
        if n in (1, 2, 4, 8):
            ex.store(mem, g, dst, ex.load(mem, g, src, 'i%d' % (8 * n)), 'i%d' % (8 * n))
            return ret, mem, g
        raise Unsupported('memcpy of merged pointers')
    _, so, sf = src.cs[0]
    _, do, df = dst.cs[0]
    # cell-wise copy when the source is a cells object
    if isinstance(so, Obj) and so.kind in ('cells', 'gcells') and sf.isconst() and isinstance(do, Obj) and do.kind in ('cells',) and df.isconst():
        cells = ex.content(mem, so)
        todo = [(o, c) for o, c in cells.items() if sf.c <= o and o + c[0] <= sf.c + n]
        for o, (cn, v) in todo:
            ty = 'ptr' if isinstance(v, Ptr) else ('i%d' % (8 * cn) if not (z3.is_expr(v) and z3.is_fp(v)) else ('double' if cn == 8 else 'float'))
            ex.store(mem, g, Ptr([(z3.BoolVal(True), do, Off(df.c + o - sf.c))]), v, ty)
        return ret, mem, g
    step = 1
    ew = min([x.ew for x in (so, do) if isinstance(x, Obj) and x.kind == 'elems'] or [8])
    for s in (8, 4, 2, 1):
        if n % s == 0 and s <= ew:
            step = s
            break
    for b in range(0, n, step):
        ty = 'i%d' % (8 * step)
        v = ex.load(mem, g, Ptr([(c, o, ex.off_add(f, b, []) if o is not None else f) for c, o, f in src.cs]), ty)
        ex.store(mem, g, Ptr([(c, o, ex.off_add(f, b, []) if o is not None else f) for c, o, f in dst.cs]), v, ty)
    return ret, mem, g


@model('memcmp', 'bcmp')
def m_memcmp(ex, i, args, mem, g):
    a, b, n = args
    if len(a.cs) != 1 or len(b.cs) != 1:
        raise Unsupported('memcmp of merged pointers')
    _, ao, af = a.cs[0]
    _, bo, bf = b.cs[0]
    if not (isinstance(ao, Obj) and isinstance(bo, Obj) and ao.kind == bo.kind == 'elems' and ao.ew == bo.ew):
        raise Unsupported('memcmp of these objects')
    ew = ao.ew
    m, ai, bi = ex.div_len(n, ew), ex.off_idx(af, ew), ex.off_idx(bf, ew)
    if m is None or ai is None or bi is None:
        raise Unsupported('memcmp, unaligned')
    ex.seg_bound(g, ao, ai, m, 'memcmp')
    ex.seg_bound(g, bo, bi, m, 'memcmp')
    T = ex.d.term
    e = ex.memeq(ex.content(mem, ao), T(ai), ex.content(mem, bo), T(bi), T(m))
    r = ex.freshval(ex.fresh('memcmp'), i['ty'])
    w = int(i['ty'][1:])
    ex.fact(ex.d.icmp('eq', w, r, ex.d.const(w, 0)) == e)
    return r, mem, g


@model('llvm.memset', 'memset')
def m_memset(ex, i, args, mem, g):
    dst, v, n = args[0], args[1], args[2]
    if not ex.d.isconst(n) or not ex.d.isconst(v):
        raise Unsupported('memset of symbolic length')
    n, v = ex.d.uval(n), ex.d.uval(v) & 0xff
    mem = dict(mem)
    _, do, df = dst.cs[0]
    step = next(s for s in (8, 4, 2, 1) if n % s == 0)
    if isinstance(do, Obj) and do.kind == 'elems':
        step = min(step, do.ew)
    for b in range(0, n, step):
        ex.store(mem, g, Ptr([(c, o, ex.off_add(f, b, [])) for c, o, f in dst.cs]),
                 ex.d.const(8 * step, int.from_bytes(bytes([v]) * step, 'little')), 'i%d' % (8 * step))
    return (dst if i['ty'] == 'ptr' else None), mem, g
