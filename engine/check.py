"""Deciding a property: run its harnesses symbolically, discharge every goal and every panic obligation with the
solver, replay what the solver refutes against the natively compiled library, and report."""
import itertools
import json
import math
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

import build as bld
import device
import llvm
import native
import samples
import solve
import terms as tm
from device import Device
from execu import Exec, pc_list
from llvm import Unsupported
from native import Call, Ptr
from terms import T, and_, eq, extract, is_c, not_, or_

VERIF = bld.VERIF
GRACE = 10
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Goal:
    __slots__ = ("name", "kind", "code", "spec", "w", "when")

    def __init__(self, name, kind, code, spec, w, when):
        self.name, self.kind, self.code, self.spec, self.w, self.when = name, kind, code, spec, w, when


class Goals(list):
    """what a specification demands of one final state"""

    def __init__(self):
        self.labels = []

    def eq(self, name, code, spec, w, when=1):
        self.append(Goal(name, "eq", code, spec, w, when))

    def fl(self, name, code, spec, when=1):
        """float equal up to rounding"""
        self.append(Goal(name, "fl", code, spec, 32, when))

    def feq(self, name, code, spec, when=1):
        """float bit-identical to (or, for zero, equal to) the specified value"""
        self.append(Goal(name, "eq", code, spec, 32, when))

    def true(self, name, cond, when=1):
        self.append(Goal(name, "true", cond, 1, 1, when))

    def reach(self, label):
        self.labels.append(label)


class Stopped:
    """a run cut off at the transaction bound"""

    def __init__(self, log):
        self.log = log


class Harness:
    """name; make() -> Call; spec(g, obs) fills goals; want: labels that must be reachable."""

    def __init__(self, name, make, spec, pre=(), device=None, want=("end",), hints=None, bounds="", deadline=300, may_panic=False, model=640,
                 validate=True, solver_timeout=60, ee=None, split=None, elim=None, fix=None, cut=None):
        self.name, self.make, self.spec, self.pre = name, make, spec, list(pre)
        self.device, self.want, self.hints, self.bounds = device, want, hints or {}, bounds
        self.deadline = deadline
        self.model = model
        self.validate = validate
        self.ee = ee
        self.fix = fix or {}
        self.cut = cut            # goals about runs stopped at the transaction bound
        self.split = split
        self.elim = elim
        self.solver_timeout = solver_timeout


# ------------------------------------------------------------------ concrete judgement

U32 = 2.0 ** -23


def fval(t, env, cache, w=32):
    """(value, bound on the rounding error any evaluation order may add) of float term t under env"""
    INF = math.inf
    if not isinstance(t, T):
        return float(tm.b2f(t, w)), 0.0
    ev = cache.setdefault("ev", {})
    fv = cache.setdefault("fv", {})

    def get(y, yw):
        return fv[y.id] if isinstance(y, T) else (float(tm.b2f(y, yw)), 0.0)

    def fin(v, e):
        if v != v or abs(v) > 3e38:
            return v, INF
        return v, e + abs(v) * U32 + (1e-38 if abs(v) < 1e-36 else 0.0)
    for x in solve._order_f([t], fv):
        op, a, xw = x.op, x.a, x.w
        if op == "fneg":
            v, e = get(a[0], xw)
            r = (-v, e)
        elif op in ("fadd", "fmul", "fdiv"):
            (p, ep), (q, eq_) = get(a[0], xw), get(a[1], xw)
            try:
                if op == "fadd":
                    r = fin(p + q, ep + eq_)
                elif op == "fmul":
                    r = fin(p * q, abs(p) * eq_ + abs(q) * ep + ep * eq_)
                elif abs(q) <= 2 * eq_ or q == 0:
                    r = (math.nan, INF)
                else:
                    v = p / q
                    r = fin(v, 2 * (ep + abs(v) * eq_) / abs(q))
            except OverflowError:
                r = (math.nan, INF)
        elif op in ("sitofp", "uitofp"):
            v = tm.evaluate(a[0], env, ev)
            if op == "sitofp":
                v = tm.sgn(v, 64)
            r = (float(v), abs(v) * U32 if abs(v) > 1 << 24 else 0.0)
        elif op == "pow2":
            n = tm.sgn(tm.evaluate(a[0], env, ev), 32)
            r = (2.0 ** n, 0.0) if -140 < n < 128 else (math.nan, INF)
        elif op in ("fpext", "fptrunc"):
            r = fin(*get(a[0], 32 if op == "fpext" else 64))
        elif op == "ite":
            c = tm.evaluate(a[0], env, ev)
            r = get(a[1], xw) if c else get(a[2], xw)
        elif op == "f_sqrt":
            v, e = get(a[0], xw)
            if v <= 4 * e:
                r = (math.nan, INF)
            else:
                s = math.sqrt(v)
                r = fin(s, e / s)
        elif op in ("f_pow", "f_powi"):
            v, e = get(a[0], xw)
            n = tm.sgn(tm.evaluate(a[1], env, ev), 32) if op == "f_powi" else get(a[1], xw)[0]
            try:
                if op == "f_pow" and v <= 4 * e or v == 0:
                    r = (math.nan, INF) if v != 0 or n <= 0 else fin(0.0, (2 * e) ** n)
                else:
                    s = v ** n
                    r = fin(s, abs(n) * abs(s) * 2 * e / abs(v) + (4 + abs(n)) * abs(s) * U32) if abs(v) > 4 * e else (s, INF)
            except (OverflowError, ZeroDivisionError):
                r = (math.nan, INF)
        elif op == "f_fabs":
            v, e = get(a[0], xw)
            r = (abs(v), e)
        elif op == "f_fma":
            (p, ep), (q, eq_), (s, es) = get(a[0], xw), get(a[1], xw), get(a[2], xw)
            r = fin(p * q + s, abs(p) * eq_ + abs(q) * ep + ep * eq_ + es + abs(p * q) * U32)
        elif op == "f_exp2":
            v, e = get(a[0], xw)
            r = fin(2.0 ** v, 2.0 ** v * e) if abs(v) < 128 else (math.nan, INF)
        elif op.startswith("f_"):
            v = float(tm.b2f(tm.evaluate(x, env, ev), xw))
            r = fin(v, INF if any(get(y, xw)[1] for y in a if isinstance(y, T) and y.id in fv) else 0.0)
        else:
            r = (float(tm.b2f(tm.evaluate(x, env, ev), xw)), 0.0)
        fv[x.id] = r
    return fv[t.id]


def judge(g, env, cache):
    """'ok' / 'bad' / 'unclear' and (got, want) for one goal under a concrete model"""
    ev = cache.setdefault("ev", {})
    if tm.evaluate(g.when, env, ev) == 0:
        return "ok", None
    if g.kind in ("eq", "true"):
        c, s = tm.evaluate(g.code, env, ev), tm.evaluate(g.spec, env, ev)
        return ("ok" if c == s else "bad"), (c, s)
    s, err = fval(g.spec, env, cache)
    if isinstance(g.code, T):
        c, ce = fval(g.code, env, cache)
        err += ce
    else:
        c = float(tm.b2f(g.code, 32))
    if err == math.inf or s != s:
        return "unclear", (c, s)
    if c != c or abs(c - s) > 32 * err + 4e-7 * abs(s):
        return "bad", (c, s)
    return "ok", (c, s)


# ------------------------------------------------------------------ sample environments

class Env(dict):
    """A total assignment: model values first, then a deterministic generator per variable name."""

    def __init__(self, model, over, hints, rng, mode):
        super().__init__(over)
        self.model, self.hints, self.mode = model, hints, mode
        self.salt = rng.getrandbits(32)
        self.img = samples.image(model)

    def get(self, k, d=0):
        if k in self:
            return self[k]
        v = self.gen(k)
        self[k] = v
        return v

    def gen(self, k):
        r = random.Random("%s/%d" % (k, self.salt))
        for p, h in self.hints.items():
            if k.startswith(p):
                if callable(h):
                    if self.mode == 5 and r.random() < 0.15:
                        return r.choice((0, 0, 0x7ff, 0x400))
                    return h(r, k)
                lo, hi = h
                if isinstance(lo, float):
                    f = r.uniform(lo, hi)
                    if self.mode == 3 and r.random() < 0.4:
                        f = -f
                    elif self.mode == 4 and r.random() < 0.2:
                        f = 0.0
                    return tm.f2b(f)
                return r.randint(lo, hi) & 0xffffffffffffffff
        if k.startswith("ee") and k[2:].isdigit():
            w = self.img[int(k[2:])]
            if self.mode == 0:
                return w
            if self.mode == 1 and r.random() < 0.9:
                return w
            if self.mode == 5:
                # a few words at the ends of their range
                if r.random() < 0.85:
                    return w
                return hamming(r.choice((0, 0, 0x7ff, 0x400, 0x3ff))) if self.model == 641 else r.choice((0, 0, 0xffff, 0x8000, 0x7fff))
            if self.model == 641:
                return hamming(r.getrandbits(11))
            return r.getrandbits(16)
        if k.startswith("fault_") or k.startswith("garb_"):
            return 0
        if k.startswith("ram_"):
            a = int(k.split("_")[1], 16)
            typ = {0x700: 19442, 0x580: 19442, 0x720: 1711, 0x5A0: 1711, 0x72A: -13115, 0x5AA: -13115, 0x70A: 6383, 0x58A: 6383}.get(a)
            v = typ + r.randint(-300, 300) if typ else r.randint(-2000, 2000)
            return v & 0xffff
        if k.startswith("status_"):
            return r.getrandbits(16) if self.mode else 0x8
        if k.startswith("control_"):
            return r.getrandbits(16)
        return r.getrandbits(64)


def hamming(v):
    """independent encoder for sample images: smallest codeword search is not needed, the parity masks are the datasheet's"""
    d = [v >> i & 1 for i in range(11)]
    p0 = d[0] ^ d[1] ^ d[3] ^ d[4] ^ d[6] ^ d[8] ^ d[10]
    p1 = d[0] ^ d[2] ^ d[3] ^ d[5] ^ d[6] ^ d[9] ^ d[10]
    p2 = d[1] ^ d[2] ^ d[3] ^ d[7] ^ d[8] ^ d[9] ^ d[10]
    p3 = d[4] ^ d[5] ^ d[6] ^ d[7] ^ d[8] ^ d[9] ^ d[10]
    w = v | p0 << 11 | p1 << 12 | p2 << 13 | p3 << 14
    return w | (bin(w).count("1") & 1) << 15


# ------------------------------------------------------------------ one harness

class Result:
    def __init__(self, name):
        self.name = name
        self.violations = []     # dicts
        self.inconclusive = []
        self.stats = {}
        self.funcs = set()
        self.samples = []
        self.bounds = ""
        self.wall = 0.0


class Runner:
    def __init__(self, h, module, so, known, cfg):
        self.h, self.module, self.so, self.known, self.cfg = h, module, so, known, cfg
        self.res = Result(h.name)
        self.rng = random.Random(SEED * 1000003 + hash_name(h.name))
        self.cache = {}
        self.n = {"goals": 0, "obligations": 0, "templates": 0, "finals": 0, "replays": 0, "validated": 0, "identical": 0, "pruned": 0}
        self.reported = set()
        self.bad_groups = {}
        self.ended = None
        self.spent = 0

    def over(self):
        return self.ended is not None and time.time() > self.ended

    # ---------------------------------------------------------- replay
    def env(self, over=None, mode=0):
        return Env(self.h.model, over or {}, self.h.hints, self.rng, mode)

    def pre_ok(self, env):
        c = {}
        return all(tm.evaluate(p, env, c) for p in self.h.pre)

    def replay(self, env, why):
        """run natively under env; list of violations (dict) found"""
        if not self.pre_ok(env):
            return []
        self.n["replays"] += 1
        obs = self.call.native(self.so, env)
        out = []
        if obs.panic:
            out.append(dict(harness=self.h.name, goal="no panic", got=obs.panic, want="normal return"))
        else:
            g = Goals()
            try:
                self.h.spec(g, obs)
            except Exception as e:
                g.true("specification applies (%r)" % e, 0)
            c = {}
            for x in g:
                v, gw = judge(x, env, c)
                if v == "bad":
                    out.append(dict(harness=self.h.name, goal=x.name, got=gw[0], want=gw[1]))
        for v in out:
            v["why"] = why
            v["env"] = {k: x for k, x in env.items()}
        return out

    def report(self, viols):
        for v in viols[:3]:
            key = (v["goal"].split("[")[0], v["got"] if v["goal"] == "no panic" else "")
            if key in self.reported:
                continue
            self.reported.add(key)
            self.res.violations.append(v)
            if self.ended is None and not match_known(self.known, self.cfg.get("prop"), v):
                # a violation is established: look for a few more, then report
                self.ended = time.time() + GRACE
                self.stop = min(self.stop, self.ended)

    def inconclusive(self, what):
        if len(self.res.inconclusive) < 20 and what not in self.res.inconclusive:
            self.res.inconclusive.append(what)

    # ---------------------------------------------------------- decide
    def key(self, conds, extra):
        r = 1
        for c in conds:
            r = and_(r, c, 1)
        return (solve.template(tm.mk("pair", 0, r, *extra)),)

    def query(self, conds, fp="uf", timeout=None):
        left = self.stop - time.time()
        if left < 1:
            return "unknown", None
        return solve.check(conds, min(timeout or self.h.solver_timeout, left), fp)

    def obligation(self, o):
        self.n["obligations"] += 1
        if self.over():
            return
        if time.time() > self.stop:
            return self.inconclusive("no time left for whether %s is reachable" % o.what)
        conds = self.h.pre + pc_list(o.pc) + [o.cond]
        nc = narrow(conds[:-1], [o.cond]) + [o.cond]
        if len(nc) < len(conds):
            k = ("o", solve.template(tm.mk("pair", 0, *[c for c in nc if isinstance(c, T)])))
            r = self.cache.get(k)
            if r is None:
                self.n["templates"] += 1
                r = self.cache[k] = self.query(nc)[0]
            if r == "unsat":
                return
        k = ("o", solve.template(tm.mk("pair", 0, *[c for c in conds if isinstance(c, T)])))
        if self.cache.get(k) == "unsat":
            return
        grp = ("panic", o.what)
        if self.bad_groups.get(grp, 0) >= 2:
            return
        self.n["templates"] += 1
        r, m = self.query(conds)
        if r == "sat":
            v = self.replay(self.env(m), "panic: " + o.what)
            if v:
                self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
                self.report(v)
                return
            r, m = self.query(conds, "ieee", 60)
            if r == "sat":
                v = self.replay(self.env(m), "panic: " + o.what)
                if v:
                    self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
                    self.report(v)
                    return
                self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
                self.inconclusive("a panic (%s) the solver finds does not reproduce" % o.what)
                return
        if r == "unsat":
            self.cache[k] = "unsat"
        else:
            self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
            self.inconclusive("no answer on whether %s is reachable" % o.what)

    def goal(self, conds, g):
        self.n["goals"] += 1
        if g.when == 0 or self.over():
            return
        if time.time() > self.stop:
            return self.inconclusive("no time left for %s" % g.name.split("[")[0])
        if self.h.elim and isinstance(g.code, T):
            g = Goal(g.name, g.kind, self.eliminate(g.code), g.spec, g.w, g.when)
        if g.when != 1:
            g = Goal(g.name, g.kind, tm.assume(g.code, g.when), tm.assume(g.spec, g.when), g.w, g.when)
            if isinstance(g.when, T):
                g = Goal(g.name, g.kind, self.settle(g.code, conds, g.when), g.spec, g.w, g.when)
        same = eq(g.code, g.spec, g.w) if not (is_c(g.code) and is_c(g.spec)) else int(g.code == g.spec)
        if same == 1:
            self.n["identical"] += 1
            conds = []
        if g.kind == "fl" and same != 1 and isinstance(g.code, T) and isinstance(g.spec, T):
            c = self.leaves(conds + ([g.when] if g.when != 1 else []), g)
            if c is not g.code:
                g = Goal(g.name, g.kind, c, g.spec, g.w, g.when)
                same = eq(g.code, g.spec, g.w)
                if same == 1:
                    self.n["identical"] += 1
                    return
        if g.kind == "fl" and same != 1 and self.refuted(conds + ([g.when] if g.when != 1 else []), g):
            return
        if g.when != 1 and same != 1 and not any(solve.var_ids(x) & solve.var_ids(g.when) for x in (g.code, g.spec) if isinstance(x, T)):
            # the two no longer depend on the premise: first without any premise
            k = ("u", solve.template(tm.mk("pair", 0, g.code, g.spec, g.kind == "fl")))
            r = self.cache.get(k)
            if r is None:
                self.n["templates"] += 1
                r = self.query([not_(same)])[0]
                if r != "unsat" and g.kind == "fl":
                    r = self.real([], g)
                self.cache[k] = r
            if r == "unsat":
                return
        conds = conds + ([g.when] if g.when != 1 else [])
        nc = narrow(conds, [g.code, g.spec, g.when])
        if len(nc) < len(conds):
            ks = tm.mk("pair", 0, g.code, g.spec, g.kind == "fl", *[c for c in nc if isinstance(c, T)])
            k = ("n", solve.template(ks))
            r = self.cache.get(k)
            if r is None:
                self.n["templates"] += 1
                r = self.query(nc + [not_(same)])[0]
                if r != "unsat" and g.kind == "fl":
                    r = self.real(nc, g)
                self.cache[k] = r
            if r == "unsat":
                return
        ks = tm.mk("pair", 0, g.code, g.spec, g.kind == "fl", *[c for c in conds if isinstance(c, T)])
        k = ("g", solve.template(ks))
        if self.cache.get(k) == "unsat":
            return
        grp = ("goal", g.name.split("[")[0])
        if self.bad_groups.get(grp, 0) >= 2:
            return
        self.n["templates"] += 1
        r, m = self.query(conds + [not_(same)])
        if r == "unsat":
            self.cache[k] = "unsat"
            return
        if g.kind == "fl":
            r = self.float_goal(conds, g, m)
        elif r == "sat":
            v = self.replay(self.env(m), g.name)
            if v:
                self.report(v)
                r = "bad"
            else:
                r, m = self.query(conds + [not_(same)], "ieee", 120)
                if r == "sat":
                    v = self.replay(self.env(m), g.name)
                    if v:
                        self.report(v)
                        r = "bad"
                    else:
                        self.inconclusive("%s: the solver's counterexample does not reproduce" % g.name)
                elif r != "unsat":
                    self.inconclusive("%s: no answer over exact floating point" % g.name)
        else:
            self.inconclusive("%s: no answer from the solver" % g.name)
        if r == "unsat":
            self.cache[k] = "unsat"
        else:
            self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1

    def refuted(self, conds, g):
        """a sample input that satisfies the conditions and shows the formulas to differ (before a proof is attempted)"""
        grp = ("goal", g.name.split("[")[0])
        if self.bad_groups.get(grp, 0) >= 2:
            return True
        k = ("r", solve.template(tm.mk("pair", 0, g.code, g.spec, *[c for c in narrow(conds, [g.code, g.spec, g.when]) if isinstance(c, T)])))
        if k in self.cache:
            return False
        self.cache[k] = True
        for i in (0, 1, 2):
            if self.try_float(conds, g, self.env(None, i)):
                self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
                return True
        if self.branches(conds, g):
            self.bad_groups[grp] = self.bad_groups.get(grp, 0) + 1
            return True
        return False

    def branches(self, conds, g):
        """the same on inputs the solver finds for either outcome of each condition that only one of the two formulas asks about"""
        here = [{x.a[0].id: x.a[0] for x in solve._order([t], ()) if x.op == "ite" and isinstance(x.a[0], T)} if isinstance(t, T) else {} for t in (g.code, g.spec)]
        odd = [here[k][i] for k in (0, 1) for i in here[k] if i not in here[1 - k]]
        tried = self.cache.setdefault("branches", {})
        for c in odd[:8]:
            fl = [x for k, x in tm.vars_of([c]).items() if self.floaty(k)]
            nc = narrow(conds, [c])
            for lim, q in itertools.product((600, 1e4) if fl else (0,), (c, not_(c))):
                k = ("b", q.id, lim, tuple(sorted(x.id for x in nc if isinstance(x, T))))
                if k not in tried:
                    if self.spent > 40:
                        return False
                    t0 = time.time()
                    m = None
                    sane = [tm.fcmp("olt", x, tm.f2b(lim), 32) for x in fl] + [tm.fcmp("olt", tm.f2b(-lim), x, 32) for x in fl]
                    for fp in ("uf", "ieee"):
                        r, m = self.query(nc + sane + [q], fp, timeout=4)
                        if r != "sat":
                            m = None
                        if r == "unsat" or r == "sat" and tm.evaluate(q, self.env(m), {}):
                            break
                    tried[k] = m
                    self.spent += time.time() - t0
                if tried[k] is not None and any(self.try_float(conds, g, self.env(tried[k], i)) for i in (0, 1, 2)):
                    return True
        return False

    def leaves(self, conds, g):
        """g.code with every integer it converts to a float replaced by the one g.spec converts, where the solver proves the two equal"""
        la, lb = solve.int_leaves([g.code]), solve.int_leaves([g.spec])
        ids = {t.id for t, _ in lb}
        odd = [(t, w) for t, w in la if t.id not in ids and w > 1]
        # a float chosen between converted integers counts as the conversion of the chosen integer
        whole = {}
        for x in solve._order_f([g.code], {}):
            if x.op == "ite":
                y = as_int(x)
                if y is not None:
                    whole[x.id] = y
        if not odd and not whole:
            return g.code
        envs = self.good_envs(conds, [g.code, g.spec])
        cs = [{} for _ in envs]
        rep = {}
        for t, w, i in [(t, w, t.id) for t, w in odd] + [(y, 64, i) for i, y in whole.items()]:
            if not isinstance(t, T):
                continue
            n = 0
            for u, uw in lb:
                if uw != w or i in rep or n > 3 or any(tm.evaluate(t, e, c) != tm.evaluate(u, e, c) for e, c in zip(envs, cs)):
                    continue
                n += 1
                nc = narrow(conds, [t, u])
                q = not_(eq(t, u, w))
                k = ("l", solve.template(tm.mk("pair", 0, q, *[c for c in nc if isinstance(c, T)])))
                r = self.cache.get(k)
                if r is None:
                    r = self.cache[k] = self.query(nc + [q], timeout=10)[0]
                if r == "unsat":
                    rep[i] = u if i == t.id else tm.sitofp(u, 64)
        return tm.substitute(g.code, {}, rep) if rep else g.code

    def good_envs(self, conds, roots):
        """a few inputs that satisfy what the conditions say about the variables of roots"""
        nc = [c for c in narrow(conds, roots) if isinstance(c, T)]
        if not hasattr(self, "samples"):
            self.samples = [(e, {}) for e in [self.env(None, i) for i in (0, 1, 2, 2, 2, 2)]]
        out = [e for e, c in self.samples if all(tm.evaluate(x, e, c) for x in nc)]
        if len(out) < 2 and nc:
            k = ("m", solve.template(tm.mk("pair", 0, *nc)), tuple(sorted(set().union(*[solve.var_ids(x) for x in nc]))))
            if k not in self.cache:
                r, m = self.query(nc, timeout=10)
                self.cache[k] = m if r == "sat" else None
            if self.cache[k] is not None:
                out += [e for e in (self.env(self.cache[k], i) for i in (0, 1)) if all(tm.evaluate(x, e, {}) for x in nc)]
        return out or [e for e, _ in self.samples]

    def settle(self, t, conds, when):
        """t with every largest condition over the premise's own variables replaced by what the solver shows it to be under the premise"""
        if not isinstance(t, T):
            return t
        vs = solve.var_ids(when)
        if not solve.var_ids(t) & vs:
            return t
        nc = narrow(conds, [when]) + [when]
        rep = {}
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            xv = solve.var_ids(x)
            if not xv & vs:
                continue
            if x.w == 1 and xv <= vs and x.op != "var":
                for v, q in ((1, not_(x)), (0, x)):
                    k = ("s", solve.template(tm.mk("pair", 0, q, *[c for c in nc if isinstance(c, T)])))
                    r = self.cache.get(k)
                    if r is None:
                        r = self.cache[k] = self.query(nc + [q], timeout=5)[0] if isinstance(q, T) or q else "unsat"
                    if r == "unsat":
                        rep[x.id] = v
                        break
                continue
            st += [c for c in tm.children(x) if isinstance(c, T)]
        return tm.substitute(t, {}, rep) if rep else t

    def eliminate(self, t):
        """replace every largest part of t that depends on a single error pattern (and the data it hits) by its error-free value, wherever the
        solver proves the two equal under the preconditions"""
        elim = self.h.elim
        done = self.cache.setdefault("elim", {})
        val = self.cache.setdefault("elim_val", {})

        def hit(x):
            r = val.get(x.id)
            if r is None:
                vs = solve.var_ids(x)
                errs = [v for v in vs if elim(v) is not None]
                allowed = set(errs) | {o for e in errs for o in elim(e)}
                r = val[x.id] = 0 if not errs else (errs[0] if len(errs) == 1 and vs <= allowed else 2)
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in done:
                st.pop()
                continue
            h = hit(x)
            if h == 0:
                done[x.id] = x
            elif isinstance(h, str):
                y = tm.substitute(x, {h: 0}, {})
                same = eq(x, y, x.w)
                ok = same == 1
                if not ok and same != 0:
                    nc = narrow(self.h.pre, [x])
                    k = ("e", solve.template(tm.mk("pair", 0, same, *[c for c in nc if isinstance(c, T)])))
                    r = self.cache.get(k)
                    if r is None:
                        self.n["templates"] += 1
                        r = self.cache[k] = self.query(nc + [not_(same)])[0]
                    ok = r == "unsat"
                done[x.id] = y if ok else x
            else:
                todo = [c for c in tm.children(x) if isinstance(c, T) and c.id not in done]
                if todo:
                    st += todo
                    continue
                done[x.id] = tm.rebuild(x, lambda c, w=None: done[c.id] if isinstance(c, T) else c)
            st.pop()
        return done[t.id]

    def real(self, conds, g):
        """equality over the reals"""
        left = self.stop - time.time()
        if left > 1:
            small = sum(1 for x in (g.code, g.spec) if isinstance(x, T) for _ in solve._order_f([x], {})) < 40
            r = solve.check_real(conds, [(g.code, g.spec, 32)], min(15, left)) if small else "unknown"
            if r != "unsat" and isinstance(g.code, T) and isinstance(g.spec, T):
                r = solve.fsweep(conds, g.code, g.spec, fval, self.good_envs(conds, [g.code, g.spec]), min(60, left))
            if r != "unsat" and not small:
                r = solve.check_real(conds, [(g.code, g.spec, 32)], min(15, left))
            if r == "unsat":
                return "unsat"
            rep = solve.sweep(conds, g.code, g.spec, self.good_envs(conds, [g.code, g.spec]))
            if rep:
                r = solve.check_real(conds, [(g.code, g.spec, 32)], min(15, left), rep)
                if r == "unsat":
                    return "unsat"
        return "unknown"

    def float_goal(self, conds, g, m):
        left = self.stop - time.time()
        if len(conds) < 200 and self.real(conds, g) == "unsat":
            return "unsat"
        # the solver says the two differ (or does not know): find a concrete, reproducible difference
        tried = 0
        lemmas = []
        tr = None
        envs = []
        if m is not None:
            envs.append(self.env(m))
            envs += [self.env({k: v for k, v in m.items() if not self.floaty(k)}, i) for i in (0, 1, 2)]
        envs += [self.env(None, i) for i in (0, 1, 2, 2, 2, 2) + (3,) * 12 + (4,) * 12]
        for e in envs:
            v = self.try_float(conds, g, e)
            if v:
                return "bad"
        # models of the conditions plus "differs", float inputs held at sane values (lemma-guided)
        for rnd in range(self.cfg.get("cegar", 24)):
            if self.stop - time.time() < 5:
                break
            e0 = self.env(None, rnd % 5)
            vs = tm.vars_of([c for c in conds if isinstance(c, T)] + [x for x in (g.code, g.spec) if isinstance(x, T)])
            fixed = {k: e0.get(k) & tm.mask(x.w) for k, x in vs.items() if self.floaty(k)}
            st, m2 = solve.check_lemmas(conds + [not_(eq(g.code, g.spec, 32))], fixed, lemmas, 20)
            if st != "sat":
                if st == "unsat" and not fixed:
                    return "unsat"
                continue
            e = self.env(m2, rnd % 5)
            if self.try_float(conds, g, e):
                return "bad"
            lemmas.append(e)
        if left > 60 and g.code is not None:
            r, m = self.query(conds + [not_(solve_feq(g.code, g.spec))], "ieee", 60)
            if r == "unsat":
                return "unsat"
            if r == "sat" and self.try_float(conds, g, self.env(m)):
                return "bad"
        self.inconclusive("%s: formulas differ, no reproducible numeric difference found" % g.name)
        return "unknown"

    def floaty(self, k):
        return any(k.startswith(p) and not callable(h) and isinstance(h[0], float) for p, h in self.h.hints.items())

    def try_float(self, conds, g, env):
        c = {}
        ev = c.setdefault("ev", {})
        if not self.pre_ok(env):
            return False
        for x in conds:
            if not tm.evaluate(x, env, ev):
                return False
        v, gw = judge(g, env, c)
        if v != "bad":
            return False
        vs = self.replay(env, g.name)
        self.report(vs)
        return bool(vs)

    # ---------------------------------------------------------- run
    def run(self):
        t0 = time.time()
        self.stop = t0 + self.h.deadline
        h = self.h
        solve.reset()
        device.EE_WORD[0] = h.ee
        device.FIX[0] = h.fix
        self.call = h.make()
        ok = False
        def late(*_):
            raise Unsupported("time limit in symbolic execution (stuck in one step)")
        signal.signal(signal.SIGALRM, late)
        signal.alarm(int(h.deadline) + 5)
        try:
            dev = h.device() if h.device else None
            ex = Exec(self.module, bus=dev, feasible=lambda cs, c: solve.feasible(h.pre + cs, c), deadline=self.stop, split=h.split)
            self.obs = self.call.run(ex, list(h.pre))
            self.res.funcs = set(ex.funcs)
            self.res.stats.update(steps=ex.steps, forks=ex.forks, merges=ex.merges, exec_s=round(time.time() - t0, 2))
            if dev is not None and getattr(dev, "cut", 0):
                self.res.stats["paths_cut_at_bound"] = dev.cut
            self.n["finals"] = len(self.obs)
            ok = True
        except Unsupported as e:
            self.inconclusive("symbolic execution stopped: %s" % e)
        signal.alarm(0)
        if ok:
            for o in ex.obligations:
                self.obligation(o)
            labels = {}
            for k, ob in enumerate(self.obs):
                conds = pc_list(ob.final.pc)
                g = Goals()
                try:
                    h.spec(g, ob)
                except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
                    # the run does not even have the shape the property speaks of
                    g.true("specification applies (%r)" % e, 0)
                for l in g.labels:
                    labels.setdefault(l, []).append(ob)
                for x in g:
                    self.goal(conds, x)
            for pc, mem, log in (dev.cuts if h.cut else ()):
                g = Goals()
                h.cut(g, Stopped(log.list()))
                for x in g:
                    self.goal(pc_list(pc), x)
            self.validate(labels)
        else:
            end = min(self.stop + 20, time.time() + 20)
            for mode in [0, 1] + [5, 2, 3] * 25:
                if time.time() > end or self.over():
                    break
                try:
                    self.report(self.replay(self.env(None, mode), "sample after failed symbolic run"))
                except RuntimeError as e:
                    self.inconclusive(str(e))
        self.n.update({k: v for k, v in solve.STATS.items() if k != "identical"})
        self.res.stats.update(self.n)
        self.res.bounds = h.bounds
        self.res.wall = time.time() - t0
        return self.res

    def validate(self, labels):
        """reachability of every outcome the property talks about, and agreement of the executor with the native code"""
        h = self.h
        envs = []
        for l in h.want:
            got = False
            for ob in labels.get(l, []):
                r, m = self.query(pc_list(ob.final.pc), timeout=60)
                if r == "sat":
                    got = True
                    envs.append((l, self.env(m)))
                    break
            if not got and not self.res.violations:
                self.inconclusive("vacuous: no feasible path reaches '%s'" % l)
        if not h.validate:
            return
        envs += [("sample", self.env(None, m)) for m in (0, 1)]
        for l, e in envs:
            if time.time() > self.stop:
                break
            if not self.pre_ok(e):
                continue
            nat = self.call.native(self.so, e)
            if nat.panic:
                self.report([dict(harness=h.name, goal="no panic", got=nat.panic, want="normal return", env=dict(e), why="reachability witness '%s'" % l)])
                continue
            err = self.agree(nat, e)
            if err and not self.res.violations:
                self.inconclusive("the executor disagrees with the native run (%s): %s" % (l, err))
            elif not err:
                self.n["validated"] += 1
                if len(self.res.samples) < 2:
                    self.res.samples.append({"harness": h.name, "witness": l, "ret": nat.ret, "transactions": len(nat.log),
                                             "inputs": dict(sorted((k, v) for k, v in e.items())[:12])})
            self.report(self.replay(e, "witness '%s'" % l)) if err is None else None

    def agree(self, nat, env):
        cache = {}
        hit = [o for o in self.obs if all(tm.evaluate(c, env, cache) for c in pc_list(o.final.pc))]
        if len(hit) != 1:
            return "%d final states claim this input" % len(hit)
        o = hit[0]
        if self.call.ret and not close(tm.evaluate(o.ret, env, cache), nat.ret, self.call.ret):
            return "return value %r, native %r" % (tm.evaluate(o.ret, env, cache), nat.ret)
        if len(o.log) != len(nat.log):
            return "%d transactions, native %d" % (len(o.log), len(nat.log))
        for a, b in zip(o.log, nat.log):
            da = None if a.data is None else [tm.evaluate(x, env, cache) for x in a.data]
            db = None if b.data is None else [tm.evaluate(x, env, cache) for x in b.data]
            if (a.kind, a.reg, a.n, tm.evaluate(a.addr, env, cache), da) != (b.kind, b.reg, b.n, b.addr, db):
                return "transaction %r, native %r" % (a, b)
        ptrs = {(n, off + i) for n, cells in self.call.bufs.items() for off, v, k in cells if isinstance(v, Ptr) for i in range(k)}
        for n, size in self.call.size.items():
            for off in range(0, size - 3, 4):
                if (n, off) in ptrs:
                    continue
                a = tm.evaluate(o.get(n, off, 4), env, cache)
                b = nat.get(n, off, 4)
                if a != b and not close(a, b, "f"):
                    return "%s+%d: %#x, native %#x" % (n, off, a, b)
        return None


def as_int(x):
    """the 64-bit integer a float term is the conversion of, if it is one"""
    if not isinstance(x, T):
        v = float(tm.b2f(x, 32))
        return int(v) & tm.mask(64) if abs(v) < 1 << 24 and v == int(v) else None
    if x.op == "sitofp":
        return x.a[0]
    if x.op == "ite":
        a, b = as_int(x.a[1]), as_int(x.a[2])
        return None if a is None or b is None else tm.ite(x.a[0], a, b, 64)
    return None


def narrow(conds, roots):
    """the conditions that speak about nothing but the variables of roots"""
    vs = set()
    for r in roots:
        if isinstance(r, T):
            vs |= solve.var_ids(r)
    out = []
    for c in conds:
        if not isinstance(c, T) or solve.var_ids(c) <= vs:
            out.append(c)
        elif c.op == "and":
            out += narrow(c.a[:2], roots)
    return out


def solve_feq(a, b):
    """IEEE-equal, or both NaN"""
    nan = lambda x: tm.fcmp("uno", x, x, 32)
    return or_(tm.fcmp("oeq", a, b, 32), and_(nan(a), nan(b), 1), 1)


def close(a, b, ty):
    if a == b:
        return True
    if ty != "f":
        return False
    x, y = float(tm.b2f(a, 32)), float(tm.b2f(b, 32))
    if x != x and y != y:
        return True
    return x == y or abs(x - y) <= 1e-4 * max(abs(x), abs(y))


def hash_name(s):
    h = 0
    for c in s.encode():
        h = (h * 131 + c) & 0xffffffff
    return h


# ------------------------------------------------------------------ a property

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])]


def match_known(known, prop, v):
    for k in known:
        if k.get("property") == prop and k.get("harness") == v["harness"] and k.get("goal") in str(v["goal"]) \
                and k.get("got", "") in str(v["got"]):
            return k
    return None


def _worker(h, module, so, known, cfg, fd):
    import pickle
    try:
        r = Runner(h, module, so, known, cfg).run()
    except BaseException as e:
        r = Result(h.name)
        r.inconclusive.append("engine error: %r\n%s" % (e, traceback.format_exc()[-1500:]))
    data = pickle.dumps(r)
    while data:
        data = data[os.write(fd, data):]
    os._exit(0)


def run_all(hs, module, so, known, cfg, procs=8):
    import pickle
    import select
    todo = list(hs)
    live = {}
    out = []
    end = None
    last = time.time() + (800 if TIER == "quick" else 14000)
    while todo or live:
        now = time.time()
        for fd in [f for f, x in live.items() if now > x[3]] if now < last else list(live):
            pid, h, data, _ = live.pop(fd)
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(fd)
            r = Result(h.name)
            r.inconclusive.append("stopped: no answer in time")
            out.append(r)
        if now > last:
            for h in todo:
                r = Result(h.name)
                r.inconclusive.append("not started: no time left")
                out.append(r)
            break
        if end is not None and time.time() > end:
            for pid, h, data, _ in live.values():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            break
        while todo and len(live) < procs:
            h = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _worker(h, module, so, known, cfg, w)
            os.close(w)
            live[r] = [pid, h, b"", time.time() + h.deadline + 90]
        if not live:
            continue
        rs, _, _ = select.select(list(live), [], [], 1)
        for fd in rs:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2] += b
                continue
            pid, h, data, _ = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out.append(pickle.loads(data))
                if end is None and any(not match_known(known, cfg.get("prop"), v) for v in out[-1].violations):
                    end = time.time() + GRACE       # what else is under way gets a little longer
                    todo = []
            except Exception:
                r = Result(h.name)
                r.inconclusive.append("the worker died")
                out.append(r)
    order = {h.name: i for i, h in enumerate(hs)}
    out.sort(key=lambda r: order.get(r.name, 0))
    return out


def main(prop, harnesses, notes, only=None, verbose=False):
    """build, decide, write evidence, print, return the exit code"""
    t0 = time.time()
    out = bld.build()
    module = llvm.Module(out["bc"])
    module._load = None
    hs = harnesses(module)
    if only:
        hs = [h for h in hs if only in h.name]
    known = load_known()
    cfg = {"cegar": 24 if TIER == "quick" else 80, "prop": prop}
    rs = run_all(hs, module, out["so"], known, cfg)
    code = 0
    viol = []
    found = {}
    for r in rs:
        for v in r.violations:
            k = match_known(known, prop, v)
            if k:
                found[k["id"]] = k
            else:
                viol.append(v)
        if verbose:
            print(r.name, "%.1fs" % r.wall, {k: v for k, v in r.stats.items() if v}, file=sys.stderr)
    for k in found.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    inc = [(r.name, i) for r in rs for i in r.inconclusive]
    tot = {}
    for r in rs:
        for k, v in r.stats.items():
            if isinstance(v, (int, float)):
                tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted(set().union(*[r.funcs for r in rs]) if rs else [])
    short = sorted({demangle(f) for f in funcs})
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("finals", 0)), "transitions": int(tot.get("steps", 0)),
            "traces_validated_against_impl": int(tot.get("validated", 0)),
            "samples": [s for r in rs for s in r.samples][:6] or [{"none": "no witness was validated"}],
            "explanation": "states = symbolic end states (each stands for all inputs satisfying its path condition); transitions = IR instructions "
                           "executed symbolically; goals and panic obligations are discharged by z3 for every value of the symbolic inputs; "
                           "traces_validated = solver witnesses run natively and compared with the symbolic state",
            "goals": int(tot.get("goals", 0)), "goals_syntactically_identical": int(tot.get("identical", 0)),
            "panic_obligations": int(tot.get("obligations", 0)), "distinct_query_templates": int(tot.get("templates", 0)),
            "solver_queries": int(tot.get("queries", 0)), "unsat": int(tot.get("unsat", 0)), "sat": int(tot.get("sat", 0)),
            "unknown": int(tot.get("unknown", 0)), "real_arithmetic_queries": int(tot.get("real_queries", 0)),
            "solver_s": tot.get("solver_s", 0.0), "native_replays": int(tot.get("replays", 0)),
            "functions_encoded": short[:150], "functions_encoded_count": len(funcs),
            "harnesses": [{"name": r.name, "bounds": r.bounds, "goals": r.stats.get("goals", 0), "obligations": r.stats.get("obligations", 0),
                           "end_states": r.stats.get("finals", 0), "queries": r.stats.get("queries", 0), "wall_s": round(r.wall, 2)} for r in rs][:120],
            "inconclusive": [list(x) for x in inc][:20],
        },
        "assumptions": notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and len(ev["coverage"]["harnesses"]) > 4:
        ev["coverage"]["harnesses"] = ev["coverage"]["harnesses"][::2]
        txt = json.dumps(ev, indent=1)
    open(os.path.join(VERIF, "evidence", prop + ".json"), "w").write(txt)
    if viol:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        rel = None
        try:
            rel = bld.build(True).get("so_release")
        except Exception:
            pass
        p = os.path.join(d, prop + ".json")
        for v in viol[:5]:
            if rel:
                h = [h for h in hs if h.name == v["harness"]][0]
                try:
                    v["release_profile"] = release(h, rel, v)
                except Exception as e:
                    v["release_profile"] = repr(e)
        json.dump({"property": prop, "violations": viol[:5]}, open(p, "w"), indent=1, default=str)
        for v in viol[:5]:
            print("  %s: %s: got %s, specified %s  [release build: %s]" % (v["harness"], v["goal"], fmt(v["got"]), fmt(v["want"]), v.get("release_profile")))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        code = 1
    elif inc:
        for n, i in inc[:20]:
            print("INCONCLUSIVE %s: %s" % (n, i))
        code = 2
    else:
        print("OK property=%s: %d goals and %d panic obligations hold for all inputs within bounds (%d queries, solver %.1fs, %.1fs total)"
              % (prop, tot.get("goals", 0), tot.get("obligations", 0), tot.get("queries", 0), tot.get("solver_s", 0), time.time() - t0))
    return code


def release(h, so, v):
    env = Env(h.model, {k: int(x) for k, x in v["env"].items()}, h.hints, random.Random(0), 0)
    device.EE_WORD[0] = h.ee
    device.FIX[0] = h.fix
    obs = h.make().native(so, env)
    if obs.panic:
        return "panics"
    g = Goals()
    h.spec(g, obs)
    c = {}
    bad = [x.name for x in g if judge(x, env, c)[0] == "bad"]
    return "also wrong (%s)" % bad[0] if bad else "no difference seen"


def fmt(x):
    return "%.9g" % x if isinstance(x, float) else (hex(x) if isinstance(x, int) else str(x)[:300])


def demangle(f):
    import re
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", f)
    if not m:
        m2 = re.match(r"_R", f)
        return f[:160] if not m2 else f[:160]
    s = m.group(1)
    out = []
    while s and s[0].isdigit():
        n = re.match(r"\d+", s).group(0)
        out.append(s[len(n):len(n) + int(n)])
        s = s[len(n) + int(n):]
    return "::".join(out)[:160]
