"""Deciding layer: terms -> z3 (bit-vectors with uninterpreted float arithmetic, or reals), models back."""
import fractions
import time

import numpy as np
import z3

import terms as tm
from terms import T, is_c, mask, sgn, b2f, f2b

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "identical": 0, "template_hits": 0, "real_queries": 0, "fp_queries": 0}


def reset():
    for k in STATS:
        STATS[k] = 0


# ------------------------------------------------------------------ BV + UF

def _order(roots, seen):
    """post-order of the nodes reachable from roots that are not in seen"""
    out = []
    done = set()
    stack = [r for r in roots if isinstance(r, T)]
    while stack:
        x = stack[-1]
        if x.id in seen or x.id in done:
            stack.pop()
            continue
        todo = [y for y in tm.children(x) if y.id not in seen and y.id not in done]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        done.add(x.id)
        out.append(x)
    return out


class BV:
    """translation into QF_UFBV; fp='uf' leaves float arithmetic uninterpreted, fp='ieee' uses z3's floats"""

    def __init__(self, fp="uf"):
        self.c = {}
        self.fp = fp
        self.uf = {}
        self.side = []
        self.keep = []

    def fun(self, name, ws, w):
        k = (name, tuple(ws), w)
        f = self.uf.get(k)
        if f is None:
            f = self.uf[k] = z3.Function("%s_%s_%d" % (name, "_".join(map(str, ws)), w), *([z3.BitVecSort(x) for x in ws] + [z3.BitVecSort(w)]))
        return f

    def tr(self, t, w):
        if not isinstance(t, T):
            return z3.BitVecVal(t, w)
        for x in _order([t], self.c):
            self.c[x.id] = self._one(x)
        return self.c[t.id]

    def boolean(self, t):
        if not isinstance(t, T):
            return z3.BoolVal(bool(t))
        return self.tr(t, 1) == z3.BitVecVal(1, 1)

    def g(self, y, w):
        return self.c[y.id] if isinstance(y, T) else z3.BitVecVal(y, w)

    def fpv(self, y, w):
        b = self.g(y, w)
        return z3.fpBVToFP(b, z3.Float32() if w == 32 else z3.Float64())

    def from_fp(self, f, w):
        # a fresh bit pattern that denotes f
        v = z3.FreshConst(z3.BitVecSort(w), "fp")
        self.side.append(z3.fpBVToFP(v, z3.Float32() if w == 32 else z3.Float64()) == f)
        return v

    def _one(self, x):
        op, w, a = x.op, x.w, x.a
        g = self.g
        if op == "var":
            return z3.BitVec(a[0], w)
        if op == "concat":
            ps = [g(p, pw) for p, pw in a[0]]
            return z3.Concat(*ps) if len(ps) > 1 else ps[0]
        if op == "extract":
            return z3.Extract(a[1], a[2], self.c[a[0].id])
        if op == "sext":
            return z3.SignExt(w - a[1], g(a[0], a[1]))
        if op == "lin":
            r = z3.BitVecVal(a[0], w)
            for t, c in a[1]:
                r = r + g(t, w) * z3.BitVecVal(c, w) if c != 1 else r + g(t, w)
            return r
        if op == "mul":
            return g(a[0], w) * g(a[1], w)
        if op == "shl":
            return g(a[0], w) << g(a[1], w)
        if op == "lshr":
            return z3.LShR(g(a[0], w), g(a[1], w))
        if op == "ashr":
            return g(a[0], w) >> g(a[1], w)
        if op == "and":
            return g(a[0], w) & g(a[1], w)
        if op == "or":
            return g(a[0], w) | g(a[1], w)
        if op == "xor":
            return g(a[0], w) ^ g(a[1], w)
        if op == "xn":
            r = g(a[0], 1)
            for y in a[1:]:
                r = r ^ g(y, 1)
            return r
        if op == "not":
            return ~g(a[0], 1)
        if op == "udiv":
            return z3.UDiv(g(a[0], w), g(a[1], w))
        if op == "urem":
            return z3.URem(g(a[0], w), g(a[1], w))
        if op == "sdiv":
            return g(a[0], w) / g(a[1], w)
        if op == "srem":
            return z3.SRem(g(a[0], w), g(a[1], w))
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        if op == "eq":
            return z3.If(g(a[0], a[2]) == g(a[1], a[2]), one, zero)
        if op == "ult":
            return z3.If(z3.ULT(g(a[0], a[2]), g(a[1], a[2])), one, zero)
        if op == "slt":
            return z3.If(g(a[0], a[2]) < g(a[1], a[2]), one, zero)
        if op == "ite":
            return z3.If(g(a[0], 1) == one, g(a[1], w), g(a[2], w))
        if op == "popcnt":
            v = g(a[0], w)
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v)) if w > 1 else v
            return r
        if op == "fneg":
            return g(a[0], w) ^ z3.BitVecVal(1 << (w - 1), w)
        if op == "pow2":
            n = g(a[0], 32)
            return (n + 127) << 23
        if op == "fcmp":
            return self._fcmp(a[0], g(a[1], a[3]), g(a[2], a[3]), a[3])
        if self.fp == "ieee":
            r = self._ieee(x)
            if r is not None:
                return r
        if op in ("fadd", "fmul", "fdiv"):
            return self.fun(op, [w, w], w)(g(a[0], w), g(a[1], w))
        if op in ("sitofp", "uitofp"):
            return self.fun(op, [64], w)(g(a[0], 64))
        if op == "fpext":
            return self.fun(op, [32], 64)(g(a[0], 32))
        if op == "fptrunc":
            return self.fun(op, [64], 32)(g(a[0], 64))
        if op == "fptoint":
            return self.fun("fptoint%d" % a[2], [a[1]], w)(g(a[0], a[1]))
        if op == "f_fabs":
            return g(a[0], w) & z3.BitVecVal(mask(w - 1), w)
        if op.startswith("f_"):
            ws = [y.w if isinstance(y, T) else w for y in a]
            if op in ("f_powi", "f_ldexp"):
                ws[1] = 32
            return self.fun(op, ws, w)(*[g(y, k) for y, k in zip(a, ws)])
        raise NotImplementedError(op)

    def _fcmp(self, pred, a, b, w):
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        mant = 23 if w == 32 else 52
        ew = w - 1 - mant

        def nan(x):
            return z3.And(z3.Extract(w - 2, mant, x) == z3.BitVecVal(mask(ew), ew), z3.Extract(mant - 1, 0, x) != 0)

        def mag0(x):
            return z3.Extract(w - 2, 0, x) == 0
        s = lambda x: z3.Extract(w - 1, w - 1, x) == one
        un = z3.Or(nan(a), nan(b))
        if pred == "uno":
            r = un
        elif pred == "oeq":
            r = z3.And(z3.Not(un), z3.Or(a == b, z3.And(mag0(a), mag0(b))))
        else:
            lt = z3.If(z3.And(mag0(a), mag0(b)), z3.BoolVal(False),
                       z3.If(s(a), z3.If(s(b), z3.UGT(a, b), z3.BoolVal(True)), z3.If(s(b), z3.BoolVal(False), z3.ULT(a, b))))
            if pred == "olt":
                r = z3.And(z3.Not(un), lt)
            elif pred == "ole":
                r = z3.And(z3.Not(un), z3.Or(lt, a == b, z3.And(mag0(a), mag0(b))))
            else:
                raise NotImplementedError(pred)
        return z3.If(r, one, zero)

    def _ieee(self, x):
        op, w, a = x.op, x.w, x.a
        rm = z3.RNE()
        F = {32: z3.Float32(), 64: z3.Float64()}
        if op == "fadd":
            return self.from_fp(z3.fpAdd(rm, self.fpv(a[0], w), self.fpv(a[1], w)), w)
        if op == "fmul":
            return self.from_fp(z3.fpMul(rm, self.fpv(a[0], w), self.fpv(a[1], w)), w)
        if op == "fdiv":
            return self.from_fp(z3.fpDiv(rm, self.fpv(a[0], w), self.fpv(a[1], w)), w)
        if op == "sitofp":
            lo, hi = tm.srange(a[0], 64)
            n = max(lo.bit_length(), hi.bit_length()) + 1
            return self.from_fp(z3.fpSignedToFP(rm, z3.Extract(min(n, 63), 0, self.c[a[0].id]), F[w]), w)
        if op == "uitofp":
            return self.from_fp(z3.fpUnsignedToFP(rm, self.c[a[0].id], F[w]), w)
        if op == "fpext":
            return self.from_fp(z3.fpFPToFP(rm, self.fpv(a[0], 32), F[64]), 64)
        if op == "fptrunc":
            return self.from_fp(z3.fpFPToFP(rm, self.fpv(a[0], 64), F[32]), 32)
        if op == "f_sqrt":
            return self.from_fp(z3.fpSqrt(rm, self.fpv(a[0], w)), w)
        return None


def _run(s, timeout_ms):
    s.set("timeout", int(timeout_ms))
    t = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t
    k = "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
    STATS[k] += 1
    return k


def model_env(m):
    env = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_bv_value(v):
                env[d.name()] = v.as_long()
    return env


_vmemo = {}


def var_ids(t):
    """names of the variables of t (memoised per root)"""
    r = _vmemo.get(t.id)
    if r is None:
        r = _vmemo[t.id] = frozenset(tm.vars_of([t]))
    return r


def slice_(conds, roots):
    """the conditions connected to roots through shared variables"""
    todo = [c for c in conds if isinstance(c, T)]
    vs = set()
    for r in roots:
        if isinstance(r, T):
            vs |= var_ids(r)
    out = []
    while True:
        rest = []
        hit = False
        for c in todo:
            v = var_ids(c)
            if v & vs or not v:
                out.append(c)
                if not v <= vs:
                    vs |= v
                    hit = True
            else:
                rest.append(c)
        todo = rest
        if not hit:
            return out + [c for c in conds if not isinstance(c, T)]


_fcache = {}


def feasible(conds, cond, timeout=20):
    """may cond hold together with conds? (only what is connected to cond is looked at: errs towards yes)"""
    cs = slice_(conds, [cond]) + [cond]
    k = template(tm.mk("pair", 0, *[c for c in cs if isinstance(c, T)]))
    r = _fcache.get(k)
    if r is None:
        r = _fcache[k] = check(cs, timeout)[0] != "unsat"
    return r


def check(conds, timeout=60, fp="uf", want_model=True):
    """Are the 1-bit terms jointly satisfiable? -> (status, env)"""
    conds = [c for c in conds if c != 1]
    for c in conds:
        if not isinstance(c, T) and c == 0:
            STATS["queries"] += 1
            STATS["unsat"] += 1
            return "unsat", None
    tr = BV(fp)
    s = z3.SolverFor("QF_UFBV") if fp == "uf" else z3.Solver()
    bs = [tr.boolean(c) for c in conds]
    for b in bs:
        s.add(b)
    for b in tr.side:
        s.add(b)
    if fp != "uf":
        STATS["fp_queries"] += 1
    r = _run(s, timeout * 1000)
    if r == "sat":
        return r, model_env(s.model())
    return r, None


# ------------------------------------------------------------------ templates (alpha-equivalence)

def template(t):
    """a key equal for terms that differ only in the names of their variables"""
    if not isinstance(t, T):
        return t
    num = {}
    idx = {}
    out = []
    for x in _order([t], ()):
        n = len(idx)
        if x.op == "var":
            num[x.a[0]] = len(num)
            out.append(("var", x.w, num[x.a[0]], x.a[1:]))
        else:
            def m(v):
                if isinstance(v, T):
                    return ("#", idx[v.id])
                if isinstance(v, tuple):
                    return tuple(m(y) for y in v)
                return v
            out.append((x.op, x.w, m(x.a)))
        idx[x.id] = n
    return tuple(out)


# ------------------------------------------------------------------ reals

class Real:
    """Float terms as exact fractions (numerator, denominator) of real polynomials over integer and float atoms.
    `rep` maps integer terms the solver has shown equal (under the same conditions) to one representative."""

    def __init__(self, rep=None, timeout=10, opaque=()):
        self.c = {}
        self.opaque = opaque      # ids of float terms read as atoms
        self.side = []
        self.atoms = {}
        self.bools = {}
        self.bv = BV("uf")
        self.rep = rep or {}
        self.roots = []
        self.timeout = timeout
        self.stop = time.time() + 3 * timeout

    # -------------------------------------------------- integers
    def ilin(self, t, w, signed, k, out):
        """t read as an integer, times k, as constant + sum of coefficient * atom; atoms are (term, w, signed)"""
        if not isinstance(t, T):
            out[None] = out.get(None, 0) + k * (sgn(t, w) if signed else t)
            return
        t = self.rep.get(t.id, t)
        if not isinstance(t, T):
            return self.ilin(t, w, signed, k, out)
        slo, shi = tm.srange(t, w)
        if slo >= 0:
            signed = True
        op = t.op
        if op == "sext" and signed:
            return self.ilin(t.a[0], t.a[1], True, k, out)
        if op == "concat":
            pos = w
            for n, (p, pw) in enumerate(t.a[0]):
                pos -= pw
                self.ilin(p, pw, signed and n == 0, k << pos, out)
            return
        if op == "lin":
            ok = False
            for sg in ((True,) if signed else (False, True)):
                lo = hi = sgn(t.a[0], w)
                for x, c in t.a[1]:
                    a, b = tm.srange(x, w) if sg else tm.urange(x, w)
                    c = sgn(c, w)
                    lo += min(a * c, b * c)
                    hi += max(a * c, b * c)
                if signed and -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) or not signed and 0 <= lo and hi < 1 << w:
                    ok = True
                    break
            if ok:
                out[None] = out.get(None, 0) + k * sgn(t.a[0], w)
                for x, c in t.a[1]:
                    self.ilin(x, w, sg, k * sgn(c, w), out)
                return
        key = (t, w, signed or slo >= 0)
        out[key] = out.get(key, 0) + k

    def int_(self, t, w, signed=True):
        """real value of integer term t"""
        d = {}
        self.ilin(t, w, signed, 1, d)
        r = z3.RealVal(d.pop(None, 0))
        for (x, xw, sg), c in d.items():
            if c:
                r = r + self.iatom(x, xw, sg) * c
        return r

    def iatom(self, t, w, signed):
        op = t.op
        if op == "mul":
            f = tm.srange if signed else tm.urange
            a, b = f(t.a[0], w)
            c, d = f(t.a[1], w)
            v = (a * c, a * d, b * c, b * d)
            if (signed and -(1 << (w - 1)) <= min(v) and max(v) < 1 << (w - 1)) or (not signed and max(v) < 1 << w):
                return self.int_(t.a[0], w, signed) * self.int_(t.a[1], w, signed)
        if op == "shl" and signed:
            a, b = tm.srange(t.a[0], w)
            n = tm.urange(t.a[1], w)[1]
            if n < w and -(1 << (w - 1)) <= (a << n) and (b << n) < 1 << (w - 1):
                p, q = self.pow2(t.a[1], w)
                return self.int_(t.a[0], w) * p / q if q is not None else self.int_(t.a[0], w) * p
        if op == "ite":
            return z3.If(self.boolean(t.a[0]), self.int_(t.a[1], w, signed), self.int_(t.a[2], w, signed))
        lo, hi = tm.srange(t, w) if signed else tm.urange(t, w)
        k = (t.id, signed)
        v = self.atoms.get(k)
        if v is None:
            v = self.atoms[k] = z3.Real("a%d%s" % (t.id, "s" if signed else "u"))
            self.side.append(v >= lo)
            self.side.append(v <= hi)
        return v

    def pow2(self, n, w=32):
        """2^n for an integer term, as (num, den or None)"""
        d = {}
        self.ilin(n, w, True, 1, d)
        c0 = d.pop(None, 0)
        num = z3.RealVal(fractions.Fraction(2) ** c0)
        den = None
        for (x, xw, sg), c in d.items():
            if not c:
                continue
            if x.op == "ite" and abs(c) == 1:
                a, b = self.pow2(tm.sext(x.a[1], xw, 64) if sg else tm.zext(x.a[1], xw, 64), 64), self.pow2(tm.sext(x.a[2], xw, 64) if sg else tm.zext(x.a[2], xw, 64), 64)
                one = z3.RealVal(1)
                b0 = self.boolean(x.a[0])
                p, q = z3.If(b0, a[0], b[0]), None if a[1] is None and b[1] is None else z3.If(b0, one if a[1] is None else a[1], one if b[1] is None else b[1])
                if c < 0:
                    p, q = (one if q is None else q), p
                num = num * p
                if q is not None:
                    den = q if den is None else den * q
                continue
            k = ("p2", x.id, sg)
            v = self.atoms.get(k)
            if v is None:
                v = self.atoms[k] = z3.Real("p%d%s" % (x.id, "s" if sg else "u"))
                self.side.append(v > 0)
            for _ in range(abs(c)):
                if c > 0:
                    num = num * v
                else:
                    den = v if den is None else den * v
        return num, den

    def boolean(self, c):
        if not isinstance(c, T):
            return z3.BoolVal(bool(c))
        c = self.rep.get(c.id, c)
        if not isinstance(c, T):
            return z3.BoolVal(bool(c))
        v = self.bools.get(c.id)
        if v is None:
            if c.op == "not":
                v = z3.Not(self.boolean(c.a[0]))
            elif c.op == "and":
                v = z3.And(self.boolean(c.a[0]), self.boolean(c.a[1]))
            elif c.op == "or":
                v = z3.Or(self.boolean(c.a[0]), self.boolean(c.a[1]))
            elif c.op == "fcmp" and c.a[0] in ("oeq", "olt", "ole"):
                x, y = self.val(c.a[1], c.a[3]), self.val(c.a[2], c.a[3])
                v = {"oeq": x == y, "olt": x < y, "ole": x <= y}[c.a[0]]
            elif c.op == "fcmp" and c.a[0] == "uno":
                v = z3.BoolVal(False)
            else:
                v = self.bv.boolean(c)
            self.bools[c.id] = v
        return v

    # -------------------------------------------------- floats
    def tr(self, t, w=32):
        """(numerator, denominator or None)"""
        if not isinstance(t, T):
            f = float(b2f(t, w))
            if f != f or f in (float("inf"), float("-inf")):
                k = ("k", t)
                if k not in self.atoms:
                    self.atoms[k] = z3.FreshConst(z3.RealSort(), "nonfinite")
                return self.atoms[k], None
            return z3.RealVal(_exact(f)), None
        for x in _order_f([t], self.c, self.opaque):
            self.c[x.id] = self._atom(x) if x.id in self.opaque else self._one(x)
        return self.c[t.id]

    def _atom(self, x):
        k = ("f", x.id)
        v = self.atoms.get(k)
        if v is None:
            v = self.atoms[k] = z3.Real("f%d" % x.id)
        return v, None

    def val(self, t, w=32):
        n, d = self.tr(t, w)
        return n if d is None else n / d

    def _pw(self, p, n):
        r = z3.RealVal(1)
        for _ in range(n):
            r = r * p
        return r

    def _inv(self, p):
        n, d = p
        if not z3.is_rational_value(n):
            self.side.append(n != 0)
        return (z3.RealVal(1) if d is None else d), n

    def _mul(self, p, q):
        d = p[1] if q[1] is None else q[1] if p[1] is None else p[1] * q[1]
        return p[0] * q[0], d

    def _add(self, p, q):
        if p[1] is None and q[1] is None:
            return p[0] + q[0], None
        if p[1] is None:
            return p[0] * q[1] + q[0], q[1]
        if q[1] is None:
            return p[0] + q[0] * p[1], p[1]
        if p[1].eq(q[1]):
            return p[0] + q[0], p[1]
        return p[0] * q[1] + q[0] * p[1], p[1] * q[1]

    def cross(self, p, q):
        one = z3.RealVal(1)
        return p[0] * (one if q[1] is None else q[1]), q[0] * (one if p[1] is None else p[1])

    def same(self, p, q):
        """are two fractions certainly equal (under the side conditions)?"""
        if p[0].eq(q[0]) and (p[1] is None and q[1] is None or p[1] is not None and q[1] is not None and p[1].eq(q[1])):
            return True
        a, b = self.cross(p, q)
        return self.unsat([a != b])

    def unsat(self, fs):
        fs = [z3.simplify(f, som=True) for f in fs]
        STATS["real_queries"] += 1
        if any(z3.is_false(f) for f in fs):
            STATS["queries"] += 1
            STATS["unsat"] += 1
            return True
        s = z3.Solver()
        for f in fs + self.side:
            s.add(f)
        return _run(s, self.timeout * 1000) == "unsat"

    def app(self, name, args):
        """an uninterpreted function of fractions: equal arguments share one value"""
        if time.time() > self.stop:
            raise NotImplementedError("time")
        for n, as_, v in self.roots:
            if n == name and len(as_) == len(args) and all(self.same(x, y) for x, y in zip(as_, args)):
                return v
        v = z3.FreshConst(z3.RealSort(), name)
        if name == "f_sqrt":
            self.side.append(v >= 0)
        self.roots.append((name, args, v))
        return v

    def _one(self, x):
        op, w, a = x.op, x.w, x.a
        g = lambda y, k=None: self.c[y.id] if isinstance(y, T) else self.tr(y, k or w)
        if op == "fneg":
            n, d = g(a[0])
            return -n, d
        if op == "fadd":
            return self._add(g(a[0]), g(a[1]))
        if op == "fmul":
            return self._mul(g(a[0]), g(a[1]))
        if op == "fdiv":
            return self._mul(g(a[0]), self._inv(g(a[1])))
        if op == "sitofp":
            return self.int_(a[0], 64, True), None
        if op == "uitofp":
            return self.int_(a[0], 64, False), None
        if op == "pow2":
            return self.pow2(a[0])
        if op in ("fpext", "fptrunc"):
            return g(a[0], 32 if op == "fpext" else 64)
        if op == "ite":
            c = self.boolean(a[0])
            p, q = g(a[1]), g(a[2])
            if p[1] is None and q[1] is None:
                return z3.If(c, p[0], q[0]), None
            one = z3.RealVal(1)
            return z3.If(c, p[0], q[0]), z3.If(c, one if p[1] is None else p[1], one if q[1] is None else q[1])
        if op == "f_powi" and is_c(a[1]):
            n = sgn(a[1], 32)
            p = g(a[0])
            if n < 0:
                p = self._inv(p)
            return self._pw(p[0], abs(n)), None if p[1] is None else self._pw(p[1], abs(n))
        if op == "f_sqrt":
            return self.app("f_sqrt", [g(a[0])]), None
        if op == "f_pow" and is_c(a[1]):
            e = float(b2f(a[1], w))
            if e == 0.25:
                return self.app("f_sqrt", [(self.app("f_sqrt", [g(a[0])]), None)]), None
            if e == int(e) and 0 <= e <= 8:
                p = g(a[0])
                return self._pw(p[0], int(e)), None if p[1] is None else self._pw(p[1], int(e))
        if op == "f_fma":
            return self._add(self._mul(g(a[0]), g(a[1])), g(a[2]))
        if op == "f_fabs":
            n, d = g(a[0])
            v = n if d is None else n / d
            return z3.If(v >= 0, v, -v), None
        if op.startswith("f_"):
            ys = []
            for y in a:
                if op in ("f_powi", "f_ldexp") and y is a[1]:
                    ys.append((self.int_(y, 32), None))
                else:
                    ys.append(g(y))
            return self.app(op, ys), None
        # any other term used as a float: its bit pattern is an input
        return self._atom(x)


FOPS = {"fneg", "fadd", "fmul", "fdiv", "sitofp", "uitofp", "pow2", "fpext", "fptrunc", "ite"}


def _fchildren(x):
    op = x.op
    if op in ("sitofp", "uitofp", "pow2"):
        return ()
    if op == "ite":
        return [y for y in x.a[1:] if isinstance(y, T)]
    if op in FOPS or op.startswith("f_"):
        if op in ("f_powi", "f_ldexp"):
            return [x.a[0]] if isinstance(x.a[0], T) else []
        return [y for y in x.a if isinstance(y, T)]
    return ()


def _order_f(roots, seen, opaque=()):
    out = []
    done = set()
    stack = [r for r in roots if isinstance(r, T)]
    while stack:
        x = stack[-1]
        if x.id in seen or x.id in done:
            stack.pop()
            continue
        todo = [y for y in _fchildren(x) if y.id not in seen and y.id not in done] if x.id not in opaque else ()
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        done.add(x.id)
        out.append(x)
    return out


def _exact(f):
    """the decimal constant the programmer most likely wrote, else the exact value: e.g. 273.15f32"""
    return str(fractions.Fraction(f))


def int_leaves(ts):
    """integer terms that feed float operations, and the conditions of float selections"""
    out = {}
    for x in _order_f(ts, {}):
        if x.op in ("sitofp", "uitofp"):
            out[x.a[0].id] = (x.a[0], 64)
        elif x.op == "pow2":
            out[x.a[0].id] = (x.a[0], 32)
        elif x.op == "ite":
            out[x.a[0].id] = (x.a[0], 1)
    return list(out.values())


def sweep(conds, a, b, envs, timeout=10):
    """pairs of integer leaves of a and b that agree on all sample envs, proved equal by the solver -> {id: representative}"""
    la, lb = int_leaves([a]), int_leaves([b])
    ids = {t.id for t, _ in lb}
    caches = [{} for _ in envs]
    sig = lambda t: tuple(tm.evaluate(t, e, c) for e, c in zip(envs, caches))
    by = {}
    for t, w in lb:
        by.setdefault((w, sig(t)), []).append(t)
    rep = {}
    for t, w in la:
        if t.id in ids:
            continue
        s = sig(t)
        for u in by.get((w, s), [])[:3]:
            if check(conds + [tm.not_(tm.eq(t, u, w))], timeout)[0] == "unsat":
                rep[t.id] = u
                break
    return rep


def _top(ts, depth):
    out = set()
    front = list(ts)
    for _ in range(depth):
        out |= {x.id for x in front}
        front = [c for x in front for c in _fchildren(x) if isinstance(c, T)]
    return out


def fsweep(conds, a, b, fval, envs, budget, rep=None):
    """Equality of two float terms over the reals, bottom-up: sub-terms of a that evaluate like a sub-term of b on the sample
    environments are proved equal by the solver (earlier matches read as atoms) and replaced. -> 'unsat' / 'unknown'"""
    stop = time.time() + budget
    caches = [{} for _ in envs]

    def sig(t):
        return [fval(t, e, c)[0] for e, c in zip(envs, caches)]

    def near(p, q):
        return all(x == y or x != x and y != y or abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(p, q)) and any(x == x for x in p)
    nb = [x for x in _order_f([b], {}) if _fchildren(x) or x.op in ("sitofp", "uitofp")]
    sb = [(x, sig(x)) for x in nb]
    ids = {x.id for x in nb}
    opaque = set()
    m = {}
    for x in _order_f([a], {}):
        if not _fchildren(x) or x.op in ("sitofp", "uitofp"):
            m[x.id] = x
            continue
        y = tm.rebuild(x, lambda c: m.get(c.id, c) if isinstance(c, T) else c)
        m[x.id] = y
        if not isinstance(y, T):
            continue
        if y.id in ids:
            opaque.add(y.id)
            continue
        if time.time() > stop:
            return "unknown"
        s = sig(x)
        for u, su in sb:
            if u.w == x.w and near(s, su):
                op = opaque - {u.id}
                tries = [op] if op else []
                for depth in (2, 4, 6):
                    # the same with the topmost operations of both sides spelled out
                    o = op - _top((y, u), depth)
                    if o != tries[-1] if tries else False:
                        tries.append(o)
                for o in (["cases"] if y.op == "ite" else []) + tries + [()]:
                    if time.time() > stop:
                        return "unknown"
                    if o == "cases":
                        done = all(check_real(conds + [c], [(v, u, x.w)], 3, rep, op) == "unsat" for c, v in ((y.a[0], y.a[1]), (tm.not_(y.a[0]), y.a[2])))
                    else:
                        done = check_real(conds, [(y, u, x.w)], 5 if o else 2, rep, o) == "unsat"
                    if done:
                        m[x.id] = u
                        opaque.add(u.id)
                        break
                if m[x.id] is u:
                    break
    r = m[a.id] if isinstance(a, T) else a
    if r is b:
        return "unsat"
    return "unknown"


def check_real(conds, pairs, timeout=30, rep=None, opaque=()):
    """Can some pair of float terms differ as reals while conds hold? -> 'unsat' / 'sat' / 'unknown'"""
    R = Real(rep, min(timeout, 10), opaque)
    try:
        ds = []
        for a, b, w in pairs:
            p, q = R.cross(R.tr(a, w), R.tr(b, w))
            ds.append(p != q)
        cs = [R.boolean(c) for c in conds if c != 1]
    except NotImplementedError:
        return "unknown"
    ds = [z3.simplify(d, som=True) for d in ds]
    STATS["real_queries"] += 1
    if all(z3.is_false(d) for d in ds):
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat"
    s = z3.Solver()
    for c in cs + R.side:
        s.add(c)
    s.add(z3.Or(*ds) if len(ds) > 1 else ds[0])
    return _run(s, timeout * 1000)


# ------------------------------------------------------------------ lemma-guided search for concrete differences

UFOPS = ("fadd", "fmul", "fdiv", "sitofp", "uitofp", "fpext", "fptrunc", "fptoint")


def check_lemmas(conds, fixed, envs, timeout):
    """Satisfiability with some variables held at given values and the uninterpreted float operations pinned
    to their true values at the points earlier models (envs) visited."""
    cache = {}
    conds = [tm.substitute(c, fixed, cache) if isinstance(c, T) else c for c in conds]
    conds = [c for c in conds if c != 1]
    if any(not isinstance(c, T) and c == 0 for c in conds):
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat", None
    tr = BV("uf")
    s = z3.SolverFor("QF_UFBV")
    for c in conds:
        s.add(tr.boolean(c))
    nodes = [x for x in _order(conds, ()) if x.op in UFOPS or x.op.startswith("f_")]
    seen = set()
    for e in envs:
        ec = {}
        for x in nodes[:4000]:
            args = []
            for y in x.a:
                if isinstance(y, T) or (x.op in ("fadd", "fmul", "fdiv") or x.op.startswith("f_")):
                    args.append((tm.evaluate(y, e, ec), y.w if isinstance(y, T) else (32 if x.op in ("f_powi", "f_ldexp") and y is x.a[-1] else x.w)))
            v = tm.evaluate(x, e, ec)
            k = (x.op, x.w, tuple(args))
            if k in seen:
                continue
            seen.add(k)
            name = x.op if x.op != "fptoint" else "fptoint%d" % x.a[2]
            f = tr.fun(name, [w for _, w in args], x.w)
            s.add(f(*[z3.BitVecVal(a, w) for a, w in args]) == z3.BitVecVal(v, x.w))
    r = _run(s, timeout * 1000)
    if r == "sat":
        m = model_env(s.model())
        m.update(fixed)
        return r, m
    return r, None
