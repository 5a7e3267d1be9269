"""Arithmetic domains of the verification-condition generator.

BVDom : iN is a z3 bit-vector (machine semantics, exact).
IntDom: iN is a mathematical integer congruent to the machine value modulo 2^N, with an interval
        proved by the generator; every operation whose interval leaves the representable range is
        reduced modulo 2^N explicitly, so machine arithmetic is never *assumed* to be mathematical.
i1 is a z3 Bool in both.  float/double are z3 FP terms; +,-,*,/ on them are uninterpreted functions
(congruence is all the contracts need), comparisons and conversions are interpreted.
"""
import z3


class Unsupported(Exception):
    pass


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def AND(*xs):
    ys = []
    for x in xs:
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            continue
        if x is False or z3.is_false(x):
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def OR(*xs):
    ys = []
    for x in xs:
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            continue
        if x is True or z3.is_true(x):
            return z3.BoolVal(True)
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def NOT(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


FSORT = {'float': z3.Float32(), 'double': z3.Float64()}
FBITS = {'float': 32, 'double': 64}
RNE = z3.RNE()
_fuf = {}


def fp_uf(op, sort, *args):
    key = (op, str(sort))
    if key not in _fuf:
        _fuf[key] = z3.Function('%s_%d' % (op, sort.ebits() + sort.sbits()), *([sort] * len(args)), sort)
    if op in ('fadd', 'fmul'):
        args = sorted(args, key=lambda a: a.hash())
    return _fuf[key](*args)


# concrete evaluation of the uninterpreted float operations (used when a formula is evaluated on
# concrete values): all arguments are numerals
FP_REAL = {
    'fadd': lambda a, b: z3.fpAdd(RNE, a, b), 'fsub': lambda a, b: z3.fpSub(RNE, a, b),
    'fmul': lambda a, b: z3.fpMul(RNE, a, b), 'fdiv': lambda a, b: z3.fpDiv(RNE, a, b),
}


class BVDom:
    name = 'bv'

    def const(self, w, v):
        return z3.BitVecVal(v, w)

    def fresh(self, name, w):
        return z3.BitVec(name, w)

    def sort(self, w):
        return z3.BitVecSort(w)

    def isconst(self, x):
        return z3.is_bv_value(x)

    def uval(self, x):
        return x.as_long()

    def sval(self, x):
        return x.as_signed_long()

    def term(self, x, w=None, signed=True):
        return x

    def bin(self, op, w, a, b):
        ca, cb = z3.is_bv_value(a), z3.is_bv_value(b)
        r = None
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'udiv':
            r = z3.UDiv(a, b)
        elif op == 'sdiv':
            r = a / b
        elif op == 'urem':
            r = z3.URem(a, b)
        elif op == 'srem':
            r = z3.SRem(a, b)
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = z3.LShR(a, b)
        elif op == 'ashr':
            r = a >> b
        else:
            raise Unsupported('bin ' + op)
        if ca and cb:
            r = z3.simplify(r)
        return r

    def icmp(self, pred, w, a, b):
        r = {'eq': lambda: a == b, 'ne': lambda: a != b,
             'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]()
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            r = z3.simplify(r)
        elif pred in ('eq', 'ne') and a.eq(b):
            r = z3.BoolVal(pred == 'eq')
        return r

    def zext(self, x, w0, w):
        r = z3.ZeroExt(w - w0, x)
        return z3.simplify(r) if z3.is_bv_value(x) else r

    def sext(self, x, w0, w):
        r = z3.SignExt(w - w0, x)
        return z3.simplify(r) if z3.is_bv_value(x) else r

    def trunc(self, x, w0, w):
        r = z3.Extract(w - 1, 0, x)
        return z3.simplify(r)

    def ite(self, c, a, b, w):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def frombool(self, b, w):
        if z3.is_true(b):
            return z3.BitVecVal(1, w)
        if z3.is_false(b):
            return z3.BitVecVal(0, w)
        return z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

    def sfrombool(self, b, w):
        return z3.If(b, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))

    def tobv(self, x, w):
        return x

    def frombv(self, x, w):
        return x

    def minmax(self, op, w, a, b):
        c = {'smax': lambda: a > b, 'smin': lambda: a < b,
             'umax': lambda: z3.UGT(a, b), 'umin': lambda: z3.ULT(a, b)}[op]()
        return z3.If(c, a, b)


class IV:
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    def __repr__(self):
        return 'IV(%s,[%s,%s])' % (self.t, self.lo, self.hi)


def _c(v):
    return z3.IntVal(v)


class IntDom:
    name = 'int'

    def __init__(self):
        self.facts = []  # range facts about fresh leaves
        self.cases = None  # optional bound oracle

    def const(self, w, v):
        v &= (1 << w) - 1
        if v >= 1 << (w - 1):
            v -= 1 << w
        return IV(v, v, v)

    def fresh(self, name, w, lo=None, hi=None):
        t = z3.Int(name)
        if lo is None:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        self.facts.append(z3.And(t >= lo, t <= hi))
        return IV(t, lo, hi)

    def sort(self, w):
        return z3.IntSort()

    def isconst(self, x):
        return x.lo == x.hi

    def uval(self, x):
        return x.lo

    def sval(self, x):
        return x.lo

    def mk(self, t, lo, hi):
        if lo == hi:
            return IV(lo, lo, hi)
        return IV(t, lo, hi)

    def norm(self, w, t, lo, hi):
        H, M = 1 << (w - 1), 1 << w
        if (lo >= -H and hi < H) or (lo >= 0 and hi < M):
            return self.mk(t, lo, hi)
        # one constant shift
        q = lo // M
        if lo - q * M >= 0 and hi - q * M < M:
            return self.mk(t - q * M, lo - q * M, hi - q * M)
        q = (lo + H) // M
        if hi - q * M < H:
            return self.mk(t - q * M, lo - q * M, hi - q * M)
        return self.mk(t % M, 0, M - 1)

    def s(self, w, x):
        """signed view"""
        H, M = 1 << (w - 1), 1 << w
        if x.hi < H:
            return x
        if x.lo >= H:
            return self.mk(x.t - M, x.lo - M, x.hi - M)
        return IV(z3.If(x.t >= H, x.t - M, x.t), -H, H - 1)

    def u(self, w, x):
        H, M = 1 << (w - 1), 1 << w
        if x.lo >= 0:
            return x
        if x.hi < 0:
            return self.mk(x.t + M, x.lo + M, x.hi + M)
        return IV(z3.If(x.t < 0, x.t + M, x.t), 0, M - 1)

    def term(self, x, w=None, signed=True):
        if w is not None:
            x = self.s(w, x) if signed else self.u(w, x)
        return x.t if not isinstance(x.t, int) else _c(x.t)

    def bin(self, op, w, a, b):
        A, B = a, b
        if op == 'add':
            return self.norm(w, A.t + B.t, A.lo + B.lo, A.hi + B.hi)
        if op == 'sub':
            if not isinstance(A.t, int) and not isinstance(B.t, int) and A.t.eq(B.t):
                return IV(0, 0, 0)
            return self.norm(w, A.t - B.t, A.lo - B.hi, A.hi - B.lo)
        if op == 'mul':
            ps = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
            return self.norm(w, A.t * B.t, min(ps), max(ps))
        if op in ('udiv', 'urem'):
            A, B = self.u(w, A), self.u(w, B)
            if B.lo <= 0 and op == 'udiv' and B.hi > 0 and not isinstance(B.t, int):
                # a division by zero has an obligation of its own
                return self.mk(z3.If(B.t == 0, _c(0), self._div(A.t, B.t)), 0, A.hi)
            if B.lo <= 0:
                raise Unsupported('int-domain %s by possibly zero' % op)
            if op == 'udiv':
                return self.mk(self._div(A.t, B.t), A.lo // B.hi, A.hi // B.lo)
            if A.hi < B.lo:
                return A
            if B.lo == B.hi and A.lo // B.lo == A.hi // B.lo:
                q = A.lo // B.lo
                return self.mk(A.t - q * B.lo, A.lo - q * B.lo, A.hi - q * B.lo)
            return self.mk(self._mod(A.t, B.t), 0, min(A.hi, B.hi - 1))
        if op in ('sdiv', 'srem'):
            A, B = self.s(w, A), self.s(w, B)
            if B.lo == 0 and B.hi > 0 and not isinstance(B.t, int):
                # a division by zero has an obligation of its own
                r = self.bin(op, w, A, IV(B.t, 1, B.hi))
                return self.mk(z3.If(B.t == 0, _c(0), r.t if z3.is_expr(r.t) else _c(r.t)), min(0, r.lo), max(0, r.hi))
            if B.lo <= 0:
                raise Unsupported('int-domain %s by possibly non-positive' % op)
            if op == 'sdiv':
                if A.lo >= 0:
                    return self.mk(self._div(A.t, B.t), A.lo // B.hi, A.hi // B.lo)
                neg = -self._div(-A.t, B.t) if not isinstance(A.t, int) or not isinstance(B.t, int) else -((-A.t) // B.t)
                lo = -((-A.lo) // B.lo)
                if A.hi <= 0:
                    return self.mk(neg, lo, -((-A.hi) // B.hi))
                return self.mk(z3.If(A.t >= 0, self._div(A.t, B.t), neg), lo, A.hi // B.lo)
            if A.lo >= 0:
                if A.hi < B.lo:
                    return A
                return self.mk(self._mod(A.t, B.t), 0, min(A.hi, B.hi - 1))
            neg = -self._mod(-A.t, B.t)
            if A.hi <= 0:
                return self.mk(neg, -(B.hi - 1), 0)
            return self.mk(z3.If(A.t >= 0, self._mod(A.t, B.t), neg), -(B.hi - 1), B.hi - 1)
        if op == 'shl' and b.lo == b.hi:
            return self.bin('mul', w, a, self.constz(1 << b.lo))
        if op == 'lshr' and b.lo == b.hi:
            return self.bin('udiv', w, a, self.constz(1 << b.lo))
        if op == 'ashr' and b.lo == b.hi:
            A = self.s(w, A)
            return self.mk(self._div(A.t, 1 << b.lo), A.lo >> b.lo, A.hi >> b.lo)
        if a.lo == a.hi and b.lo == b.hi:
            M = (1 << w) - 1
            x, y = a.lo & M, b.lo & M
            v = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            return self.const(w, v)
        if op == 'and':
            if a.lo == a.hi:
                a, b = b, a
            if b.lo == b.hi:
                m = b.lo & ((1 << w) - 1)
                if (m & (m + 1)) == 0:
                    if m == (1 << w) - 1:
                        return a
                    A = self.u(w, a)
                    if A.hi <= m:
                        return A
                    return self.mk(self._mod(A.t, m + 1), 0, m)
                if (-b.lo) > 0 and ((-b.lo) & (-b.lo - 1)) == 0:
                    # and with -2^k clears the low bits
                    return self.mk(a.t - self._mod(a.t, -b.lo), a.lo + b.lo + 1, a.hi)
        if op == 'xor' and b.lo == b.hi and (b.lo & ((1 << w) - 1)) == (1 << w) - 1:
            A = self.s(w, a)
            return self.mk(-1 - A.t, -1 - A.hi, -1 - A.lo)
        # through bit-vectors
        x, y = self.tobv(a, w), self.tobv(b, w)
        return self.frombv(BVDom().bin(op, w, x, y), w)

    def constz(self, v):
        return IV(v, v, v)

    def _div(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        return (a if not isinstance(a, int) else _c(a)) / (b if not isinstance(b, int) else _c(b))

    def _mod(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a % b
        a, b = (a if not isinstance(a, int) else _c(a)), (b if not isinstance(b, int) else _c(b))
        r = a % b
        if not z3.is_int_value(b):
            # instances of theorems about mod (b > 0) that spare the solver nonlinear reasoning
            self.facts.append(z3.Implies(b > 0, z3.And(r >= 0, r < b, z3.Implies(z3.And(a >= 0, a < b), r == a),
                                                       z3.Implies(z3.And(a >= b, a < 2 * b), r == a - b))))
        return r

    def icmp(self, pred, w, a, b):
        if pred in ('eq', 'ne'):
            H = 1 << (w - 1)
            if not ((a.hi < H and b.hi < H) or (a.lo >= 0 and b.lo >= 0)):
                a, b = self.u(w, a), self.u(w, b)
            if a.hi < b.lo or b.hi < a.lo:
                return z3.BoolVal(pred == 'ne')
            if a.lo == a.hi == b.lo == b.hi:
                return z3.BoolVal(pred == 'eq')
            e = self.term(a) == self.term(b)
            return e if pred == 'eq' else z3.Not(e)
        v = self.s if pred[0] == 's' else self.u
        a, b = v(w, a), v(w, b)
        p = pred[1:]
        if p in ('gt', 'ge'):
            a, b = b, a
            p = {'gt': 'lt', 'ge': 'le'}[p]
        if p == 'lt':
            if a.hi < b.lo:
                return z3.BoolVal(True)
            if a.lo >= b.hi:
                return z3.BoolVal(False)
            return self.term(a) < self.term(b)
        if a.hi <= b.lo:
            return z3.BoolVal(True)
        if a.lo > b.hi:
            return z3.BoolVal(False)
        return self.term(a) <= self.term(b)

    def zext(self, x, w0, w):
        return self.u(w0, x)

    def sext(self, x, w0, w):
        return self.s(w0, x)

    def trunc(self, x, w0, w):
        return self.norm(w, x.t, x.lo, x.hi)

    def ite(self, c, a, b, w):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a.lo == a.hi == b.lo == b.hi:
            return a
        H = 1 << (w - 1)
        if not ((a.hi < H and b.hi < H) or (a.lo >= 0 and b.lo >= 0)):
            a, b = self.s(w, a), self.s(w, b)
        ta, tb = self.term(a), self.term(b)
        if ta.eq(tb):
            return IV(a.t, min(a.lo, b.lo), max(a.hi, b.hi))
        return IV(z3.If(c, ta, tb), min(a.lo, b.lo), max(a.hi, b.hi))

    def frombool(self, b, w):
        if z3.is_true(b):
            return self.constz(1)
        if z3.is_false(b):
            return self.constz(0)
        return IV(z3.If(b, _c(1), _c(0)), 0, 1)

    def sfrombool(self, b, w):
        return IV(z3.If(b, _c(-1), _c(0)), -1, 0)

    def tobv(self, x, w):
        if isinstance(x.t, int):
            return z3.BitVecVal(x.t, w)
        return z3.Int2BV(x.t, w)

    def frombv(self, x, w):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return self.const(w, x.as_long())
        return IV(z3.BV2Int(x, False), 0, (1 << w) - 1)

    def minmax(self, op, w, a, b):
        v = self.s if op[0] == 's' else self.u
        a, b = v(w, a), v(w, b)
        c = self.icmp({'max': op[0] + 'gt', 'min': op[0] + 'lt'}[op[1:]], w, a, b)
        f = max if op.endswith('max') else min
        r = self.ite(c, a, b, w)
        if isinstance(r.t, int):
            return r
        return self.mk(r.t, f(a.lo, b.lo), f(a.hi, b.hi))
