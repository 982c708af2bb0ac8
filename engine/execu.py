"""Symbolic executor for decoded LLVM IR (see llvm.py), producing terms (see terms.py).

States run in a global position order (loop iteration, reverse post-order) and are merged wherever
two of them meet at the same position with the same bus history, so the number of paths stays small.
A branch into code that can only panic is not followed: it is recorded as an obligation
"path condition and branch condition must be unsatisfiable".
"""
import heapq
import time

import solve
import terms as tm
from terms import T, is_c, ite, and_, or_, not_, eq, extract, concat, mask, sgn
from llvm import Unsupported

M64 = mask(64)


class Mem:
    __slots__ = ("pages", "owned")

    def __init__(self):
        self.pages = {}
        self.owned = set()

    def fork(self):
        m = Mem()
        m.pages = dict(self.pages)
        self.owned = set()
        return m

    def page_w(self, p):
        if p in self.owned:
            return self.pages[p]
        old = self.pages.get(p)
        n = [None] * 64 if old is None else list(old)
        self.pages[p] = n
        self.owned.add(p)
        return n

    def store(self, addr, val, n):
        p = addr >> 6
        o = addr & 63
        if o + n <= 64:
            pg = self.pages[p] if p in self.owned else self.page_w(p)
            if n == 1:
                pg[o] = (val, 0, 1)
            else:
                for i in range(n):
                    pg[o + i] = (val, i, n)
        else:
            for i in range(n):
                a = addr + i
                self.page_w(a >> 6)[a & 63] = (val, i, n)

    def cells(self, addr, n):
        p = addr >> 6
        o = addr & 63
        if o + n <= 64:
            pg = self.pages.get(p)
            if pg is None:
                return [None] * n
            return pg[o:o + n]
        out = []
        for i in range(n):
            a = addr + i
            pg = self.pages.get(a >> 6)
            out.append(None if pg is None else pg[a & 63])
        return out

    def put_cells(self, addr, cs):
        for i, c in enumerate(cs):
            a = addr + i
            self.page_w(a >> 6)[a & 63] = c

    def load(self, addr, n):
        cs = self.cells(addr, n)
        return join_cells(cs, n)


def join_cells(cs, n):
    c = cs[0]
    if c is not None and c[2] == n and c[1] == 0:
        v = c[0]
        for i in range(1, n):
            d = cs[i]
            if d is None or d[0] is not v or d[1] != i or d[2] != n:
                if d is not None and not isinstance(v, T) and d[0] == v and d[1] == i and d[2] == n:
                    continue
                break
        else:
            return v
    parts = []
    for i in range(n - 1, -1, -1):
        c = cs[i]
        if c is None:
            parts.append((0, 8))
        else:
            parts.append((extract(c[0], 8 * c[1] + 7, 8 * c[1]), 8))
    return concat(parts)


class Pc:
    __slots__ = ("parent", "cond", "depth", "facts", "tags")

    def __init__(self, parent, cond):
        self.parent = parent
        self.cond = cond
        self.facts = None
        self.tags = None
        self.depth = parent.depth + 1 if parent is not None else 0


def facts_of(pc):
    """literals (id -> 0/1) the path condition contains"""
    f = pc.facts
    if f is None:
        f = {}
        p = pc
        while p is not None and p.parent is not None:
            c = p.cond
            if isinstance(c, T):
                if c.op == "not":
                    f[c.a[0].id] = 0
                else:
                    f[c.id] = 1
            p = p.parent
        pc.facts = f
    return f


def under(c, f):
    """truth of c given the literals f: 1, 0 or None"""
    if not isinstance(c, T):
        return c
    v = f.get(c.id)
    if v is not None:
        return v
    op = c.op
    if op == "not":
        v = under(c.a[0], f)
        return None if v is None else 1 - v
    if op == "and":
        a = under(c.a[0], f)
        if a == 0:
            return 0
        b = under(c.a[1], f)
        if b == 0:
            return 0
        return 1 if a == 1 and b == 1 else None
    if op == "or":
        a = under(c.a[0], f)
        if a == 1:
            return 1
        b = under(c.a[1], f)
        if b == 1:
            return 1
        return 0 if a == 0 and b == 0 else None
    return None


def simp_under(t, f, budget=400):
    """t with the ites on its value paths resolved where the literals decide their condition"""
    if not isinstance(t, T) or not f:
        return t
    memo = {}
    left = [budget]

    def go(x):
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        left[0] -= 1
        if left[0] < 0:
            return x
        if x.op == "ite":
            v = under(x.a[0], f)
            if v is not None:
                r = go(x.a[1] if v else x.a[2])
            else:
                p, q = go(x.a[1]), go(x.a[2])
                r = x if p is x.a[1] and q is x.a[2] else ite(x.a[0], p, q, x.w)
        elif x.op in ("and", "or", "not", "var"):
            v = under(x, f) if x.w == 1 else None
            r = x if v is None else v
        elif x.op == "f_pow" or x.op.startswith("f"):
            r = x
        else:
            ch = {}
            changed = False
            for y in tm.children(x):
                z = go(y)
                ch[y.id] = z
                if z is not y:
                    changed = True
            r = tm.rebuild(x, lambda y: ch[y.id] if isinstance(y, T) else y) if changed else x
        memo[x.id] = r
        return r
    return go(t)


def pc_list(pc):
    out = []
    while pc is not None and pc.parent is not None:
        out.append(pc.cond)
        pc = pc.parent
    out.reverse()
    return out


class Log:
    """persistent list of bus operations"""
    __slots__ = ("parent", "op", "n")

    def __init__(self, parent, op):
        self.parent = parent
        self.op = op
        self.n = parent.n + 1 if parent is not None else 0

    def list(self):
        out = []
        l = self
        while l.parent is not None:
            out.append(l.op)
            l = l.parent
        out.reverse()
        return out


class Frame:
    __slots__ = ("F", "regs", "b", "ip", "iters", "dst", "key0")

    def __init__(self, F):
        self.F = F
        self.regs = [None] * F.nregs
        self.b = 0
        self.ip = 0
        self.iters = {}
        self.dst = -1

    def fork(self):
        f = Frame.__new__(Frame)
        f.F = self.F
        f.regs = list(self.regs)
        f.b = self.b
        f.ip = self.ip
        f.iters = dict(self.iters)
        f.dst = self.dst
        return f

    def key(self):
        F = self.F
        out = []
        for h in F.keyinfo[self.b]:
            out.append(F.rpo[h])
            out.append(self.iters.get(h, 0))
        out.append(F.rpo[self.b])
        out.append(self.ip)
        return out


class State:
    __slots__ = ("frames", "mem", "pc", "log", "ret", "allocn")

    def fork(self):
        s = State()
        s.frames = [f.fork() for f in self.frames]
        s.mem = self.mem.fork()
        s.pc = self.pc
        s.log = self.log
        s.ret = None
        s.allocn = self.allocn
        return s

    def key(self):
        out = []
        for f in self.frames:
            out.extend(f.key())
        return tuple(out)


class Obligation:
    __slots__ = ("pc", "cond", "what", "log")

    def __init__(self, pc, cond, what, log):
        self.pc, self.cond, self.what, self.log = pc, cond, what, log

    def term(self):
        r = self.cond
        for c in pc_list(self.pc):
            r = and_(r, c, 1)
        return r


class Final:
    __slots__ = ("pc", "ret", "mem", "log")

    def cond(self):
        r = 1
        for c in pc_list(self.pc):
            r = and_(r, c, 1)
        return r


class TooMany(Exception):
    pass


def vals(t, w, limit=4096):
    """possible values of t -> condition (term), or TooMany"""
    if not isinstance(t, T):
        return {t: 1}
    op = t.op
    if op == "ite":
        out = {}
        c = t.a[0]
        for v, k in vals(t.a[1], w, limit).items():
            out[v] = or_(out.get(v, 0), and_(c, k, 1), 1)
        nc = not_(c)
        for v, k in vals(t.a[2], w, limit).items():
            out[v] = or_(out.get(v, 0), and_(nc, k, 1), 1)
        return out
    if op == "concat":
        out = {0: 1}
        for p, pw in t.a[0]:
            vs = vals(p, pw, limit)
            if len(vs) * len(out) > limit:
                raise TooMany()
            n = {}
            for a, ca in out.items():
                for b, cb in vs.items():
                    k = (a << pw) | b
                    n[k] = or_(n.get(k, 0), and_(ca, cb, 1), 1)
            out = n
        return out
    if op == "lin":
        out = {t.a[0]: 1}
        m = mask(w)
        for x, c in t.a[1]:
            vs = vals(x, w, limit)
            if len(vs) * len(out) > limit:
                raise TooMany()
            n = {}
            for a, ca in out.items():
                for b, cb in vs.items():
                    k = (a + b * c) & m
                    n[k] = or_(n.get(k, 0), and_(ca, cb, 1), 1)
            out = n
        return out
    if op == "sext":
        return {sgn(v, t.a[1]) & mask(w): c for v, c in vals(t.a[0], t.a[1], limit).items()}
    if op in ("shl", "mul", "and", "or", "lshr", "xor"):
        out = {}
        A, B = vals(t.a[0], w, limit), vals(t.a[1], w, limit)
        if len(A) * len(B) > limit:
            raise TooMany()
        for a, ca in A.items():
            for b, cb in B.items():
                k = tm.BIN[op](a, b, w)
                out[k] = or_(out.get(k, 0), and_(ca, cb, 1), 1)
        return out
    if op == "ctlz" or op == "cttz" or op == "popcnt":
        lo, hi = tm.srange(t, w)
        return {v: eq(t, v, w) for v in range(0, w + 1)}
    lo, hi = tm.urange(t, w)
    if hi - lo < min(limit, 1024):
        return {v: eq(t, v, w) for v in range(lo, hi + 1)}
    lo, hi = tm.srange(t, w)
    if hi - lo < min(limit, 1024):
        return {v & mask(w): eq(t, v & mask(w), w) for v in range(lo, hi + 1)}
    raise TooMany()


class Bus:
    """Environment. Subclass: transact() decides faults and data."""

    def transact(self, ex, st, kind, addr, wbytes, rl):
        """-> (fault, data): fault is 0, an int error code or a term; data: list of byte terms (reads)."""
        raise NotImplementedError


class Stop(Exception):
    pass


DEAD = "infeasible"


def fminmax(op, x, y, w):
    """the smaller/larger of two floats; a NaN operand yields the other one (minimum, maximum: NaN); -0 < +0"""
    small = op.startswith("fmin") or op.startswith("min")
    lt = tm.fcmp("olt", x, y, w) if small else tm.fcmp("olt", y, x, w)
    r = ite(lt, x, y, w)
    if not (is_c(x) and x & mask(w - 1) or is_c(y) and y & mask(w - 1)):
        f = tm.or_ if small else tm.and_
        r = ite(tm.fcmp("oeq", x, y, w), f(x, y, w), r, w)
    if op in ("minimum", "maximum"):
        r = ite(tm.fcmp("uno", x, x, w), x, r, w)
        return ite(tm.fcmp("uno", y, y, w), y, r, w)
    r = ite(tm.fcmp("uno", x, x, w), y, r, w)
    return ite(tm.fcmp("uno", y, y, w), x, r, w)


class Exec:
    def __init__(self, module, bus=None, feasible=None, max_steps=60_000_000, deadline=None, split=None):
        self.split = split
        self.m = module
        self.bus = bus
        self.feasible = feasible
        self.objsize = {}
        self.nobj = module.nextobj
        self.obligations = []
        self.finals = []
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.funcs = set()
        self.max_steps = max_steps
        self.base = Mem()
        self._loaded = set()
        self._livept = {}
        self.allocs = {}
        self.deadline = deadline
        self.maxstates = 0
        self.pruned = 0

    # ------------------------------------------------------------- memory set-up
    def alloc(self, size):
        a = self.nobj << 32
        self.nobj += 1
        self.objsize[a >> 32] = size
        return a

    def buf(self, cells):
        """new object holding the byte values given"""
        a = self.alloc(len(cells))
        for i, c in enumerate(cells):
            if c is not None:
                self.base.store(a + i, c, 1)
        return a

    def put(self, addr, val, n):
        self.base.store(addr, val, n)

    def ensure_global(self, st, obj):
        """lazily load the initial contents of a global"""
        if obj in self._loaded:
            return
        self._loaded.add(obj)

    def _load_globals(self):
        for g, a in self.m.gaddr.items():
            if g in self.m.globals:
                b = self.m.init_bytes(g)
                self.objsize[a >> 32] = len(b)
                for i, x in enumerate(b):
                    self.base.page_w((a + i) >> 6)[(a + i) & 63] = (x, 0, 1)

    # ------------------------------------------------------------- running
    def run(self, fname, args, pc=None):
        self._load_globals()
        F = self.m.func(fname)
        self.funcs.add(fname)
        fr = Frame(F)
        for p, a in zip(F.params, args):
            fr.regs[p] = a
        st = State()
        st.frames = [fr]
        st.mem = self.base.fork()
        root = Pc(None, None)
        root.depth = 0
        for c in pc or []:
            root = Pc(root, c)
        st.pc = root
        st.log = Log(None, None)
        st.ret = None
        st.allocn = 0
        self.seq = 0
        self.heap = []
        self._go(st)
        return self.finals

    def push(self, st):
        self.seq += 1
        heapq.heappush(self.heap, (st.key(), self.seq, st))
        if len(self.heap) > self.maxstates:
            self.maxstates = len(self.heap)
            if self.maxstates > 40000:
                raise Unsupported("more than 40000 live states")

    def _go(self, st):
        self.push(st)
        heap = self.heap
        while heap:
            key, _, st = heapq.heappop(heap)
            if heap and heap[0][0] == key:
                group = [st]
                while heap and heap[0][0] == key:
                    group.append(heapq.heappop(heap)[2])
                sts = self.merge_group(group)
                for s in sts[1:]:
                    # same position, different history: run one after the other past this point
                    self.step_until(s, key)
                st = sts[0]
            self.step_until(st, key)

    def step_until(self, st, key):
        """run st until it forks, ends, or reaches a point some other state might still meet"""
        while True:
            r = self.run_block(st)
            if r is None:
                return
            # r: st arrived at a new join position
            if not self.heap:
                continue
            k = st.key()
            if k >= self.heap[0][0]:
                self.push(st)
                return

    # ------------------------------------------------------------- merging
    def livept(self, F, b, ip):
        k = (F.name, b, ip)
        r = self._livept.get(k)
        if r is None:
            from llvm import _regs
            live = set(F.live[b][1])
            B = F.blocks[b]
            for ins in reversed(B.insts[ip:]):
                if ins[1] >= 0:
                    live.discard(ins[1])
                live.update(_regs(ins))
            r = self._livept[k] = tuple(sorted(live))
        return r

    def merge_group(self, group):
        buckets = []
        tags = self.split_tags(group) if self.split is not None else None
        if tags is not None and any(DEAD not in tags[id(s)] for s in group):
            group = [s for s in group if DEAD not in tags[id(s)]]
        for s in group:
            for bk in buckets:
                if bk[0].log is s.log and (tags is None or tags[id(bk[0])] == tags[id(s)]):
                    bk.append(s)
                    break
            else:
                buckets.append([s])
        out = []
        for bk in buckets:
            if len(bk) > 2:
                # tree order, then always merge the neighbours with the deepest common ancestor
                def path(s):
                    r = []
                    p = s.pc
                    while p is not None:
                        r.append(id(p))
                        p = p.parent
                    r.reverse()
                    return r
                bk.sort(key=path)
                d = [self.lca(bk[i].pc, bk[i + 1].pc).depth for i in range(len(bk) - 1)]
                while len(bk) > 1:
                    i = max(range(len(d)), key=lambda k: d[k])
                    bk[i:i + 2] = [self.merge(bk[i], bk[i + 1])]
                    del d[i]
                    if i > 0:
                        d[i - 1] = self.lca(bk[i - 1].pc, bk[i].pc).depth
                    if i < len(bk) - 1:
                        d[i] = self.lca(bk[i].pc, bk[i + 1].pc).depth
            elif len(bk) == 2:
                bk[:] = [self.merge(bk[0], bk[1])]
            out.append(bk[0])
        return out

    def split_tags(self, group):
        """states that differ in one of the distinctions the specification asks to keep are not merged"""
        tags = {}
        for s in group:
            path = []
            p = s.pc
            while p.tags is None and p.parent is not None:
                path.append(p)
                p = p.parent
            if p.tags is None:
                p.tags = frozenset()
            for q in reversed(path):
                t = q.parent.tags
                new = [(n, pr) for n, pr in self.split([q.cond]) if n not in t or pr == 0]
                if new:
                    rec = []
                    r = q
                    while r.parent is not None and len(rec) < 60:
                        rec.append(r.cond)
                        r = r.parent
                    for n, pr in new:
                        if pr == 0:
                            # n: names; the path is dropped when its conditions on them cannot hold together
                            if not self.feasible([c for c in rec[1:] if isinstance(c, T) and solve.var_ids(c) <= n], q.cond):
                                t = t | {DEAD}
                            continue
                        vs = solve.var_ids(pr)
                        if not self.feasible([c for c in rec if isinstance(c, T) and solve.var_ids(c) <= vs], not_(pr)):
                            t = t | {n}
                q.tags = t
            tags[id(s)] = s.pc.tags
        return tags

    @staticmethod
    def lca(a, b):
        while a is not b:
            if a.depth > b.depth:
                a = a.parent
            elif b.depth > a.depth:
                b = b.parent
            else:
                a = a.parent
                b = b.parent
        return a

    def merge(self, a, b):
        self.merges += 1
        l = self.lca(a.pc, b.pc)

        def rel(p):
            r = 1
            cs = []
            while p is not l:
                cs.append(p.cond)
                p = p.parent
            for c in reversed(cs):
                r = and_(r, c, 1)
            return r
        ra, rb = rel(a.pc), rel(b.pc)
        c = ra
        # prefer a plain literal as selector
        if isinstance(ra, T) and ra.op == "not":
            a, b, ra, rb = b, a, rb, ra
            c = ra
            if isinstance(ra, T) and ra.op == "not":
                c = ra
        if isinstance(rb, T) and isinstance(ra, T) and ra.op == "and" and rb.op != "and":
            c = not_(rb)
        d = or_(ra, rb, 1)
        s = State()
        s.pc = l
        if d != 1:
            s.pc = self.add_pc(l, d)
        s.log = a.log
        s.ret = None
        s.allocn = max(a.allocn, b.allocn)
        s.frames = []
        n = len(a.frames)
        for i in range(n):
            fa, fb = a.frames[i], b.frames[i]
            F = fa.F
            f = Frame.__new__(Frame)
            f.F, f.b, f.ip, f.dst, f.iters = F, fa.b, fa.ip, fa.dst, fa.iters
            f.regs = [None] * F.nregs
            for r in self.livept(F, fa.b, fa.ip if i == n - 1 else fa.ip + 1):
                x, y = fa.regs[r], fb.regs[r]
                if x is y or y is None:
                    f.regs[r] = x
                elif x is None:
                    f.regs[r] = y
                else:
                    f.regs[r] = self.ite_val(c, x, y, F.types[r])
            s.frames.append(f)
        s.mem = self.merge_mem(c, a.mem, b.mem)
        return s

    def ite_val(self, c, x, y, ty):
        if isinstance(x, tuple):
            if ty.k == "struct":
                return tuple(self.ite_val(c, p, q, t) for p, q, t in zip(x, y, ty.elts))
            return tuple(self.ite_val(c, p, q, ty.elts) for p, q in zip(x, y))
        return ite(c, x, y, ty.w)

    def merge_mem(self, c, A, B):
        m = Mem()
        pa, pb = A.pages, B.pages
        m.pages = dict(pa)
        A.owned = set()
        B.owned = set()
        for p, y in pb.items():
            x = pa.get(p)
            if x is y:
                continue
            if x is None:
                m.pages[p] = y
                continue
            if x == y:
                continue
            n = list(x)
            for i in range(64):
                u, v = x[i], y[i]
                if u is v or v is None or u == v:
                    continue
                if u is None:
                    n[i] = v
                    continue
                if u[1] == v[1] and u[2] == v[2]:
                    n[i] = (ite(c, u[0], v[0], 8 * u[2]), u[1], u[2])
                    continue
                # different granularity: widen to the larger of the two if that is well defined
                k = u if u[2] >= v[2] else v
                a0 = (p << 6) + i - k[1]
                ca, cb = A.cells(a0, k[2]), B.cells(a0, k[2])
                if None in ca or None in cb:
                    n[i] = (ite(c, extract(u[0], 8 * u[1] + 7, 8 * u[1]), extract(v[0], 8 * v[1] + 7, 8 * v[1]), 8), 0, 1)
                else:
                    n[i] = (ite(c, join_cells(ca, k[2]), join_cells(cb, k[2]), 8 * k[2]), k[1], k[2])
            m.pages[p] = n
        return m

    # ------------------------------------------------------------- conditions
    def add_pc(self, pc, c):
        if isinstance(c, T):
            if c.op == "and":
                return self.add_pc(self.add_pc(pc, c.a[0]), c.a[1])
            if c.op == "not" and c.a[0].op == "or":
                return self.add_pc(self.add_pc(pc, not_(c.a[0].a[0])), not_(c.a[0].a[1]))
        elif c == 1:
            return pc
        return Pc(pc, c)

    def implied(self, pc, c):
        """1/0 if the literals of the path condition decide c"""
        if pc.parent is None:
            return None
        return under(c, facts_of(pc))

    def oblige(self, st, cond, what):
        if cond == 0:
            return
        v = self.implied(st.pc, cond) if isinstance(cond, T) else 1
        if v == 0:
            return
        self.obligations.append(Obligation(st.pc, cond, what, st.log))

    # ------------------------------------------------------------- transitions
    def goto(self, st, fr, b):
        """enter block b; True if b is a place where states may meet"""
        F = fr.F
        B = F.blocks[b]
        p = fr.b
        if b in F.loops:
            if p in F.loops[b]:
                fr.iters[b] = fr.iters.get(b, 0) + 1
            else:
                fr.iters[b] = 0
        if B.phis:
            regs = fr.regs
            new = []
            for dst, inc, ty in B.phis:
                o = inc[p]
                new.append(regs[o[1]] if o[0] == 0 else o[1])
            for (dst, inc, ty), v in zip(B.phis, new):
                regs[dst] = v
        fr.b = b
        fr.ip = 0
        return len(B.preds) > 1

    def panic_name(self, F, b):
        seen = set()
        while b not in seen:
            seen.add(b)
            B = F.blocks[b]
            for ins in B.insts:
                if ins[0] == "call" and isinstance(ins[3], str) and self.m.decl.get(ins[3]):
                    return ins[3]
                if ins[0] == "call" and isinstance(ins[3], str) and ins[3] in self.m.fn and not B.succs:
                    return ins[3]
            if not B.succs:
                return "unreachable"
            b = B.succs[0]
        return "unreachable"

    def branch(self, st, fr, cond, t, f):
        """returns list of (state, frame) to continue; first one is st itself if possible"""
        F = fr.F
        if not isinstance(cond, T):
            return self.goto(st, fr, t if cond else f)
        if t == f:
            return self.goto(st, fr, t)
        v = self.implied(st.pc, cond)
        if v is None and st.pc.parent is not None:
            cond = simp_under(cond, facts_of(st.pc))
            if not isinstance(cond, T):
                v = cond
        if v is not None:
            return self.goto(st, fr, t if v else f)
        dt, df = F.doomed[t], F.doomed[f]
        if dt != df:
            bad = t if dt else f
            self.oblige(st, cond if dt else not_(cond), "%s: %s" % (self.panic_name(F, bad), F.name))
            return self.goto(st, fr, f if dt else t)
        # symbolic loop exits are confirmed with the solver
        if self.feasible is not None:
            inl = [h for h in F.keyinfo[fr.b] if fr.iters.get(h, 0) >= 1 and (t not in F.loops[h]) != (f not in F.loops[h])]
            if inl:
                cs = pc_list(st.pc)
                ft = self.feasible(cs, cond)
                ff = self.feasible(cs, not_(cond)) if ft else True
                if not ft or not ff:
                    self.pruned += 1
                    return self.goto(st, fr, t if ft else f)
        self.forks += 1
        s2 = st.fork()
        f2 = s2.frames[-1]
        st.pc = self.add_pc(st.pc, cond)
        s2.pc = self.add_pc(s2.pc, not_(cond))
        self.goto(st, fr, t)
        self.goto(s2, f2, f)
        self.push(st)
        self.push(s2)
        return None

    # ------------------------------------------------------------- execution
    def run_block(self, st):
        """Run until a join position (returns st), or the state forks/ends (returns None)."""
        fr = st.frames[-1]
        while True:
            B = fr.F.blocks[fr.b]
            insts = B.insts
            n = len(insts)
            regs = fr.regs
            ip = fr.ip
            self.steps += n - ip
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
                raise Unsupported("time limit in symbolic execution")
            while ip < n:
                ins = insts[ip]
                op = ins[0]
                h = SIMPLE.get(op)
                if h is not None:
                    regs[ins[1]] = h(self, ins, regs)
                    ip += 1
                    continue
                if op == "load":
                    regs[ins[1]] = self.load(st, val(ins[3], regs), ins[2])
                    ip += 1
                    continue
                if op == "store":
                    self.store(st, val(ins[4], regs), val(ins[3], regs), ins[2])
                    ip += 1
                    continue
                if op == "alloca":
                    cnt = val(ins[4], regs)
                    key = tuple((f.F.name, f.b, f.ip) for f in st.frames[:-1]) + ((fr.F.name, fr.b, ip),)
                    a = self.allocs.get((key, st.allocn))
                    if a is None:
                        a = self.alloc(ins[3] * cnt)
                        self.allocs[(key, st.allocn)] = a
                    st.allocn += 1
                    regs[ins[1]] = a
                    ip += 1
                    continue
                if op == "jmp":
                    if self.goto(st, fr, ins[3]):
                        return st
                    break
                if op == "br":
                    fr.ip = ip
                    r = self.branch(st, fr, val(ins[3], regs), ins[4], ins[5])
                    if r is None:
                        return None
                    if r:
                        return st
                    break
                if op == "switch":
                    fr.ip = ip
                    r = self.switch(st, fr, ins, regs)
                    if r is None:
                        return None
                    if r:
                        return st
                    break
                if op == "ret":
                    v = val(ins[3], regs) if ins[3] is not None else None
                    return self.ret(st, v)
                if op == "call":
                    fr.ip = ip
                    r = self.call(st, fr, ins, regs)
                    if r == "next":
                        ip += 1
                        continue
                    if r == "enter":
                        fr = st.frames[-1]
                        break
                    return None
                if op == "unreachable":
                    self.oblige(st, 1, "unreachable: " + fr.F.name)
                    return None
                raise Unsupported(op)
            fr = st.frames[-1]

    def ret(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            f = Final()
            f.pc, f.ret, f.mem, f.log = st.pc, v, st.mem, st.log
            self.finals.append(f)
            return None
        c = st.frames[-1]
        if fr.dst >= 0:
            c.regs[fr.dst] = v
        c.ip += 1
        return st

    def switch(self, st, fr, ins, regs):
        _, _, _, o, w, cases, default = ins
        v = val(o, regs)
        if isinstance(v, T) and st.pc.parent is not None:
            v = simp_under(v, facts_of(st.pc))
        if not isinstance(v, T):
            for cv, b in cases:
                if cv == v:
                    return self.goto(st, fr, b)
            return self.goto(st, fr, default)
        # group by target
        tg = {}
        rest = 1
        for cv, b in cases:
            e = eq(v, cv, w)
            tg[b] = or_(tg.get(b, 0), e, 1)
            rest = and_(rest, not_(e), 1)
        F = fr.F
        lo, hi = tm.urange(v, w)
        covered = {cv for cv, _ in cases}
        if hi - lo < 4096 and all(x in covered for x in range(lo, hi + 1)):
            rest = 0
        else:
            try:
                if all(x in covered for x in vals(v, w, 4096)):
                    rest = 0
            except TooMany:
                pass
        tg[default] = or_(tg.get(default, 0), rest, 1)
        live = []
        for b, c in tg.items():
            if c == 0:
                continue
            iv = self.implied(st.pc, c) if isinstance(c, T) else c
            if iv == 0:
                continue
            if iv == 1:
                return self.goto(st, fr, b)
            live.append((b, c))
        good = [x for x in live if not F.doomed[x[0]]]
        if good and len(good) < len(live):
            for b, c in live:
                if F.doomed[b]:
                    self.oblige(st, c, "%s: %s" % (self.panic_name(F, b), F.name))
            live = good
        if len(live) == 1:
            return self.goto(st, fr, live[0][0])
        for k, (b, c) in enumerate(live):
            s = st.fork() if k < len(live) - 1 else st
            s.pc = self.add_pc(s.pc, c)
            self.goto(s, s.frames[-1], b)
            self.push(s)
        self.forks += len(live) - 1
        return None

    # ------------------------------------------------------------- memory access
    def check(self, st, a, n):
        sz = self.objsize.get(a >> 32)
        if sz is None or (a & 0xFFFFFFFF) + n > sz:
            return False
        return True

    def addrs(self, st, a, n):
        """concrete candidates for a symbolic address -> [(cond, addr)]"""
        if st.pc.parent is not None:
            a = simp_under(a, facts_of(st.pc))
            if not isinstance(a, T):
                if self.check(st, a, n):
                    return [(1, a)]
                self.oblige(st, 1, "out of bounds access: " + st.frames[-1].F.name)
                return []
        try:
            vs = vals(a, 64)
        except TooMany:
            raise Unsupported("symbolic address %r" % (tm.show(a, 5),))
        ok = []
        bad = 0
        for v, c in vs.items():
            if c == 0:
                continue
            if isinstance(c, T) and self.implied(st.pc, c) == 0:
                continue
            if self.check(st, v, n):
                ok.append((c, v))
            else:
                bad = or_(bad, c, 1)
        self.oblige(st, bad, "out of bounds access: " + st.frames[-1].F.name)
        return ok

    def load(self, st, a, ty):
        if isinstance(a, T):
            c = self.addrs(st, a, ty.size)
            if not c:
                return self.m.zero(ty)
            r = self.load(st, c[-1][1], ty)
            for cond, v in reversed(c[:-1]):
                r = self.ite_val(cond, self.load(st, v, ty), r, ty)
            return r
        if not self.check(st, a, ty.size):
            if ty.size:
                self.oblige(st, 1, "out of bounds load: %s" % st.frames[-1].F.name)
            return self.m.zero(ty)
        return self._load(st, a, ty)

    def _load(self, st, a, ty):
        k = ty.k
        if k == "int" or k == "float":
            n = ty.size
            v = st.mem.load(a, n)
            if ty.w != 8 * n:
                v = extract(v, ty.w - 1, 0)
            return v
        if k == "struct":
            return tuple(self._load(st, a + o, t) for o, t in zip(ty.offs, ty.elts))
        if k in ("array", "vector"):
            if k == "vector" and ty.elts.w == 1:
                n = ty.size
                v = st.mem.load(a, n)
                return tuple(extract(v, i, i) for i in range(ty.n))
            return tuple(self._load(st, a + i * ty.offs, ty.elts) for i in range(ty.n))
        raise Unsupported("load " + k)

    def store(self, st, a, v, ty):
        if isinstance(a, T):
            for cond, c in self.addrs(st, a, ty.size):
                old = self._load(st, c, ty)
                self._store(st, c, self.ite_val(cond, v, old, ty), ty)
            return
        if not self.check(st, a, ty.size):
            if ty.size:
                self.oblige(st, 1, "out of bounds store: %s" % st.frames[-1].F.name)
            return
        self._store(st, a, v, ty)

    def _store(self, st, a, v, ty):
        k = ty.k
        if k == "int" or k == "float":
            n = ty.size
            if ty.w != 8 * n:
                v = tm.zext(v, ty.w, 8 * n)
            st.mem.store(a, v, n)
        elif k == "struct":
            for o, t, x in zip(ty.offs, ty.elts, v):
                self._store(st, a + o, x, t)
        elif k in ("array", "vector"):
            for i in range(ty.n):
                self._store(st, a + i * ty.offs, v[i], ty.elts)
        else:
            raise Unsupported("store " + k)

    def conc(self, st, x, what):
        if isinstance(x, T):
            raise Unsupported("symbolic " + what + " " + tm.show(x, 4))
        return x

    # ------------------------------------------------------------- calls
    def call(self, st, fr, ins, regs):
        _, dst, ty, name, args, atys = ins
        a = [val(o, regs) for o in args]
        if not isinstance(name, str):
            tgt = val(name, regs)
            if isinstance(tgt, T):
                raise Unsupported("symbolic call target")
            name = self.m.addrfn.get(tgt)
            if name is None:
                raise Unsupported("call of unknown address")
        if name == "sym_write_read" or name == "sym_write":
            return self.do_bus(st, fr, dst, name, a)
        if name not in self.m.decl:
            self.funcs.add(name)
            F = self.m.func(name)
            f = Frame(F)
            f.dst = dst
            for p, x in zip(F.params, a):
                f.regs[p] = x
            if len(st.frames) > 200:
                raise Unsupported("call depth")
            st.frames.append(f)
            return "enter"
        if name.startswith("llvm."):
            r = self.intrinsic(st, name, a, atys, ty)
            if dst >= 0:
                regs[dst] = r
            return "next"
        if self.m.decl[name] or "panic" in name:
            self.oblige(st, 1, "%s: %s" % (name, fr.F.name))
            return "dead"
        return self.libcall(st, name, a, atys, ty, dst, regs)

    def libcall(self, st, name, a, atys, ty, dst, regs):
        n = name
        w = ty.w if ty is not None else 0
        un = {"sqrtf": "sqrt", "sqrt": "sqrt", "exp2f": "exp2", "exp2": "exp2", "fabsf": "fabs", "floorf": "floor", "ceilf": "ceil", "truncf": "trunc", "rintf": "rint",
              "cbrtf": "cbrt", "logf": "log", "expf": "exp", "log2f": "log2"}
        bi = {"powf": "pow", "pow": "pow", "fmodf": "frem", "fmod": "frem", "atan2f": "atan2"}
        un.update({f: f for f in ("exp", "log", "log2", "cbrt", "round", "fabs", "floor", "ceil", "trunc", "rint")})
        un.update({"roundf": "round", "log10f": "log10", "log10": "log10", "expm1f": "expm1", "log1pf": "log1p", "roundevenf": "rint", "nearbyintf": "rint"})
        if n in ("fminf", "fmaxf", "fmin", "fmax"):
            regs[dst] = fminmax(n[:4], a[0], a[1], w)
            return "next"
        if n in un:
            regs[dst] = tm.ffun(un[n], w, a[0])
            return "next"
        if n in bi:
            regs[dst] = tm.ffun(bi[n], w, a[0], a[1])
            return "next"
        if n in ("ldexpf", "scalbnf"):
            regs[dst] = tm.ffun("ldexp", w, a[0], a[1])
            return "next"
        if n in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], self.conc(st, a[2], "memcpy length"))
            if dst >= 0:
                regs[dst] = a[0]
            return "next"
        if n in ("bcmp", "memcmp"):
            ln = self.conc(st, a[2], "memcmp length")
            if n == "bcmp":
                r = 0
                for i in range(ln):
                    x = self.load(st, tm.add(a[0], i, 64), I8)
                    y = self.load(st, tm.add(a[1], i, 64), I8)
                    r = or_(r, not_(eq(x, y, 8)), 1)
                regs[dst] = tm.zext(r, 1, 32)
                return "next"
        raise Unsupported("external call " + name)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if isinstance(d, T) or isinstance(s, T):
            ds = self.addrs(st, d, n) if isinstance(d, T) else [(1, d)]
            ss = self.addrs(st, s, n) if isinstance(s, T) else [(1, s)]
            new = {}
            for cd, da in ds:
                for i in range(n):
                    v = None
                    for cs, sa in ss:
                        b = st.mem.load(sa + i, 1)
                        v = b if v is None else ite(cs, b, v, 8)
                    if cd != 1:
                        v = ite(cd, v, st.mem.load(da + i, 1), 8)
                    new[da + i] = v
            for k, v in new.items():
                st.mem.store(k, v, 1)
            return
        if not self.check(st, d, n) or not self.check(st, s, n):
            self.oblige(st, 1, "out of bounds memcpy: " + st.frames[-1].F.name)
            return
        st.mem.put_cells(d, st.mem.cells(s, n))

    def intrinsic(self, st, name, a, atys, ty):
        p = name.split(".")
        op = p[1]
        if op in ("memcpy", "memmove"):
            n = a[2]
            if isinstance(n, T):
                # symbolic length: copy the possible prefixes
                vs = sorted(vals(n, 64).items())
                done = 0
                for k in range(vs[-1][0]):
                    c = 0
                    for v, cc in vs:
                        if v > k:
                            c = or_(c, cc, 1)
                    x = self.load(st, tm.add(a[1], k, 64), I8)
                    y = self.load(st, tm.add(a[0], k, 64), I8)
                    self.store(st, tm.add(a[0], k, 64), ite(c, x, y, 8), I8)
                return None
            self.memcpy(st, a[0], a[1], n)
            return None
        if op == "memset":
            n = self.conc(st, a[2], "memset length")
            d = self.conc(st, a[0], "memset address")
            if n and not self.check(st, d, n):
                self.oblige(st, 1, "out of bounds memset")
                return None
            c = (a[1], 0, 1)
            for i in range(n):
                st.mem.page_w((d + i) >> 6)[(d + i) & 63] = c
            return None
        if ty is not None and ty.k == "vector":
            n = ty.n
            et = ty.elts
            out = []
            for i in range(n):
                out.append(self.intrinsic(st, name, [x[i] if isinstance(x, tuple) else x for x in a], [t.elts if t.k == "vector" else t for t in atys], et))
            return tuple(out)
        if len(p) > 3 and p[2] == "with":
            w = atys[0].w
            x, y = a[0], a[1]
            signed = op[0] == "s"
            k = op[1:]
            ext = tm.sext if signed else tm.zext
            w2 = 2 * w if k == "mul" else w + 1
            X, Y = ext(x, w, w2), ext(y, w, w2)
            f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[k]
            R = f(X, Y, w2)
            r = extract(R, w - 1, 0)
            lo, hi = tm.srange(R, w2)
            F = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
            if lo >= F[0] and hi <= F[1]:
                o = 0
            elif signed:
                o = or_(tm.slt(R, F[0] & mask(w2), w2), tm.slt(F[1] & mask(w2), R, w2), 1)
            else:
                if k == "sub":
                    o = tm.ult(x, y, w)
                else:
                    o = tm.ult(mask(w), R, w2)
            return (r, o)
        w = ty.w
        if op == "abs":
            return ite(tm.slt(a[0], 0, w), tm.neg(a[0], w), a[0], w)
        if op in ("umin", "umax", "smin", "smax"):
            lt = (tm.ult if op[0] == "u" else tm.slt)(a[0], a[1], w)
            return ite(lt, a[0], a[1], w) if op[1:] == "min" else ite(lt, a[1], a[0], w)
        if op in ("ucmp", "scmp"):
            aw = atys[0].w
            lt = (tm.ult if op[0] == "u" else tm.slt)
            return ite(lt(a[0], a[1], aw), mask(w), ite(eq(a[0], a[1], aw), 0, 1, w), w)
        if op == "bswap":
            return tm.bswap(a[0], w)
        if op == "ctpop":
            return tm.popcnt(a[0], w)
        if op in ("ctlz", "cttz"):
            return tm.ctz_(a[0], w, op == "ctlz")
        if op in ("fshl", "fshr"):
            n = self.conc(st, a[2], "funnel shift amount") % w
            c = concat([(a[0], w), (a[1], w)])
            if op == "fshl":
                return extract(c, 2 * w - 1 - n, w - n)
            return extract(c, w - 1 + n, n)
        if op in ("uadd", "usub", "sadd", "ssub") and p[2] == "sat":
            s = op[0] == "s"
            w2 = w + 1
            ext = tm.sext if s else tm.zext
            f = tm.add if op[1:] == "add" else tm.sub
            w2 = w + 2
            R = f(ext(a[0], w, w2), ext(a[1], w, w2), w2)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, mask(w))
            r = extract(R, w - 1, 0)
            return ite(tm.slt(R, lo & mask(w2), w2), lo & mask(w), ite(tm.slt(hi, R, w2), hi, r, w), w)
        if op == "bitreverse":
            return concat([(extract(a[0], i, i), 1) for i in range(w)])
        if op in ("powi", "ldexp"):
            return tm.ffun(op, w, a[0], a[1])
        if op in ("minnum", "maxnum", "minimumnum", "maximumnum", "minimum", "maximum"):
            return fminmax(op, a[0], a[1], w)
        if op in ("pow", "sqrt", "exp2", "fabs", "floor", "ceil", "trunc", "rint", "exp", "log", "log2", "log10"):
            return tm.ffun(op, w, *a)
        if op in ("nearbyint", "roundeven"):
            return tm.ffun("rint", w, *a)
        if op == "round":
            return tm.ffun("round", w, *a)
        if op == "copysign":
            return concat([(extract(a[1], w - 1, w - 1), 1), (extract(a[0], w - 2, 0), w - 1)])
        if op in ("fma", "fmuladd"):
            if op == "fmuladd":
                return tm.fadd(tm.fmul(a[0], a[1], w), a[2], w)
            return tm.ffun("fma", w, *a)
        if op == "fptosi" or op == "fptoui":  # saturating
            return tm.fptoint(a[0], atys[0].w, w, op == "fptosi", True)
        if op in ("expect", "launder", "ptr"):
            return a[0]
        if op == "is":  # llvm.is.fpclass
            m = self.conc(st, a[1], "fpclass mask")
            return self.fpclass(a[0], atys[0].w, m)
        raise Unsupported("intrinsic " + name)

    def fpclass(self, x, w, m):
        mant = 23 if w == 32 else 52
        e = extract(x, w - 2, mant)
        f = extract(x, mant - 1, 0)
        s = extract(x, w - 1, w - 1)
        ew = w - 1 - mant
        emax = eq(e, mask(ew), ew)
        ez = eq(e, 0, ew)
        fz = eq(f, 0, mant)
        q = extract(x, mant - 1, mant - 1)
        A = lambda *t: _and(*t)
        cl = [A(emax, not_(fz), not_(q)), A(emax, not_(fz), q), A(emax, fz, s), A(not_(emax), not_(ez), s), A(ez, not_(fz), s), A(ez, fz, s),
              A(ez, fz, not_(s)), A(ez, not_(fz), not_(s)), A(not_(emax), not_(ez), not_(s)), A(emax, fz, not_(s))]
        r = 0
        for i in range(10):
            if m >> i & 1:
                r = or_(r, cl[i], 1)
        return r

    # ------------------------------------------------------------- bus
    def do_bus(self, st, fr, dst, name, a):
        if self.bus is None:
            raise Unsupported("bus access without a device")
        if name == "sym_write":
            addr, wp, wl = a
            rp = rl = None
        else:
            addr, wp, wl, rp, rl = a
            rl = self.conc(st, rl, "read length")
            if rl and not (not isinstance(rp, T) and self.check(st, rp, rl)):
                raise Unsupported("bus read into bad memory")
        wl = self.conc(st, wl, "write length")
        wb = [self.load(st, tm.add(wp, i, 64), I8) for i in range(wl)]
        outs = self.bus.transact(self, st, name[4:], addr, wb, rl)
        # outs: list of (cond, ret, data or None, op)
        live = [o for o in outs if o[0] != 0]
        res = []
        for k, (cond, ret, data, op) in enumerate(live):
            s = st.fork() if k < len(live) - 1 else st
            f = s.frames[-1]
            if cond != 1:
                s.pc = self.add_pc(s.pc, cond)
            s.log = Log(s.log, op)
            if data is not None:
                for i, b in enumerate(data):
                    if b is not None:
                        s.mem.store(rp + i, b, 1)
            if dst >= 0:
                f.regs[dst] = ret
            f.ip += 1
            res.append(s)
        if not res:
            return "dead"
        if len(res) == 1 and res[0] is st:
            fr.ip -= 1
            return "next"
        for s in res:
            self.push(s)
        self.forks += len(res) - 1
        return "dead"


def _and(*t):
    r = 1
    for x in t:
        r = and_(r, x, 1)
    return r


class _I8:
    k = "int"
    w = 8
    size = 1


I8 = _I8()


def val(o, regs):
    return regs[o[1]] if o[0] == 0 else o[1]


# ----------------------------------------------------------------- simple instructions

def _vec(f):
    def g(self, ins, regs):
        return f(self, ins, regs)
    return g


def mk_bin(f):
    def h(self, ins, regs):
        o = ins[3]
        a, b = val(o[0], regs), val(o[1], regs)
        ty = ins[2]
        if ty.k == "vector":
            w = ty.elts.w
            return tuple(f(x, y, w) for x, y in zip(a, b))
        return f(a, b, ty.w)
    return h


def mk_cast(f):
    def h(self, ins, regs):
        a = val(ins[3], regs)
        ty, st = ins[2], ins[4]
        if ty.k == "vector":
            return tuple(f(x, st.elts.w, ty.elts.w) for x in a)
        return f(a, st.w, ty.w)
    return h


def h_icmp(self, ins, regs):
    pred = ins[3]
    a, b = val(ins[4], regs), val(ins[5], regs)
    ty = ins[6]
    if ty.k == "vector":
        return tuple(icmp(pred, x, y, ty.elts.w) for x, y in zip(a, b))
    return icmp(pred, a, b, ty.w)


def icmp(pred, a, b, w):
    if pred == "eq":
        return eq(a, b, w)
    if pred == "ne":
        return not_(eq(a, b, w))
    if pred == "ult":
        return tm.ult(a, b, w)
    if pred == "ugt":
        return tm.ult(b, a, w)
    if pred == "ule":
        return not_(tm.ult(b, a, w))
    if pred == "uge":
        return not_(tm.ult(a, b, w))
    if pred == "slt":
        return tm.slt(a, b, w)
    if pred == "sgt":
        return tm.slt(b, a, w)
    if pred == "sle":
        return not_(tm.slt(b, a, w))
    return not_(tm.slt(a, b, w))


def h_fcmp(self, ins, regs):
    a, b = val(ins[4], regs), val(ins[5], regs)
    ty = ins[6]
    if ty.k == "vector":
        return tuple(tm.fcmp(ins[3], x, y, ty.elts.w) for x, y in zip(a, b))
    return tm.fcmp(ins[3], a, b, ty.w)


def h_select(self, ins, regs):
    o = ins[3]
    c, a, b = val(o[0], regs), val(o[1], regs), val(o[2], regs)
    ty = ins[2]
    if isinstance(c, tuple):
        return tuple(ite(z, x, y, ty.elts.w) for z, x, y in zip(c, a, b))
    return self.ite_val(c, a, b, ty)


def h_gep(self, ins, regs):
    base = val(ins[3], regs)
    off = ins[4]
    if isinstance(base, tuple):
        raise Unsupported("vector gep")
    r = tm.add(base, off, 64)
    for o, ow, sc in ins[5]:
        x = val(o, regs)
        if ow < 64:
            x = tm.sext(x, ow, 64)
        r = tm.add(r, tm.mul(x, sc, 64), 64)
    return r


def h_extractvalue(self, ins, regs):
    v = val(ins[3][0], regs)
    for i in ins[4]:
        v = v[i]
    return v


def h_insertvalue(self, ins, regs):
    agg, x = val(ins[3][0], regs), val(ins[3][1], regs)

    def put(a, idx):
        if not idx:
            return x
        l = list(a)
        l[idx[0]] = put(a[idx[0]], idx[1:])
        return tuple(l)
    return put(agg, ins[4])


def h_extractelement(self, ins, regs):
    v, i = val(ins[3][0], regs), val(ins[3][1], regs)
    if isinstance(i, T):
        r = v[-1]
        for k in range(len(v) - 1):
            r = ite(eq(i, k, i.w), v[k], r, ins[2].w)
        return r
    return v[i]


def h_insertelement(self, ins, regs):
    v, x, i = (val(o, regs) for o in ins[3])
    if isinstance(i, T):
        raise Unsupported("symbolic insertelement")
    l = list(v)
    l[i] = x
    return tuple(l)


def h_shuffle(self, ins, regs):
    a, b = val(ins[3][0], regs), val(ins[3][1], regs)
    l = list(a) + list(b)
    return tuple(l[i] if i >= 0 else 0 for i in ins[4])


def h_freeze(self, ins, regs):
    return val(ins[3], regs)


def h_bitcast(self, ins, regs):
    v = val(ins[3], regs)
    st, ty = ins[4], ins[2]
    if st.k == "vector" or ty.k == "vector":
        if st.k == "vector":
            v = concat([(x, st.elts.w) for x in reversed(v)])
        if ty.k == "vector":
            w = ty.elts.w
            return tuple(extract(v, w * i + w - 1, w * i) for i in range(ty.n))
    return v


def h_fneg(self, ins, regs):
    v = val(ins[3][0], regs)
    if isinstance(v, tuple):
        return tuple(tm.fneg(x, ins[2].elts.w) for x in v)
    return tm.fneg(v, ins[2].w)


def _ext(f):
    return lambda a, fw, tw: f(a, fw, tw)


def c_inttoptr(a, fw, tw):
    return tm.zext(a, fw, tw) if tw > fw else extract(a, tw - 1, 0)


def f_rem(a, b, w):
    return tm.ffun("frem", w, a, b)


SIMPLE = {
    "add": mk_bin(tm.add), "sub": mk_bin(tm.sub), "mul": mk_bin(tm.mul), "udiv": mk_bin(tm.udiv), "sdiv": mk_bin(tm.sdiv), "urem": mk_bin(tm.urem), "srem": mk_bin(tm.srem),
    "shl": mk_bin(tm.shl), "lshr": mk_bin(tm.lshr), "ashr": mk_bin(tm.ashr), "and": mk_bin(tm.and_), "or": mk_bin(tm.or_), "xor": mk_bin(tm.xor),
    "fadd": mk_bin(tm.fadd), "fsub": mk_bin(tm.fsub), "fmul": mk_bin(tm.fmul), "fdiv": mk_bin(tm.fdiv), "frem": mk_bin(f_rem), "fneg": h_fneg,
    "trunc": mk_cast(tm.trunc), "zext": mk_cast(tm.zext), "sext": mk_cast(tm.sext), "ptrtoint": mk_cast(c_inttoptr), "inttoptr": mk_cast(c_inttoptr),
    "sitofp": mk_cast(lambda a, fw, tw: tm.sitofp(a, fw, tw)), "uitofp": mk_cast(lambda a, fw, tw: tm.uitofp(a, fw, tw)),
    "fptosi": mk_cast(lambda a, fw, tw: tm.fptoint(a, fw, tw, True, False)), "fptoui": mk_cast(lambda a, fw, tw: tm.fptoint(a, fw, tw, False, False)),
    "fpext": mk_cast(lambda a, fw, tw: tm.fpext(a)), "fptrunc": mk_cast(lambda a, fw, tw: tm.fptrunc(a)),
    "icmp": h_icmp, "fcmp": h_fcmp, "select": h_select, "gep": h_gep, "extractvalue": h_extractvalue, "insertvalue": h_insertvalue,
    "extractelement": h_extractelement, "insertelement": h_insertelement, "shufflevector": h_shuffle, "freeze": h_freeze, "bitcast": h_bitcast,
}
