"""Hash-consed bit-vector terms with constant folding and light canonicalisation.

Constants are Python ints (unsigned, already reduced to their width); everything else is a T node.
Floats are carried as their 32-bit (or 64-bit) patterns; float operations are nodes of their own
('fadd', 'fmul', ...) which the solver layer interprets (uninterpreted, IEEE or real).
Rewrites on integers are exact.  Rewrites on floats are exact up to the sign of a zero and the
payload of a NaN (stated in DESIGN.md).
"""
import struct
import sys

import numpy as np

sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "w", "id", "_sr", "z", "_kz")

    def __init__(self, op, w, a, i):
        self.op = op
        self.w = w
        self.a = a
        self.id = i
        self._sr = None
        self.z = None
        self._kz = None

    def __repr__(self):
        return show(self, 6)


_tab = {}
_n = [0]


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = T(op, w, a, _n[0])
        _tab[k] = t
    return t


def node_count():
    return _n[0]


def show(t, d=4):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) else str(t)
    if t.op == "var":
        return t.a[0]
    if d == 0:
        return "#%d" % t.id
    return "%s:%d(%s)" % (t.op, t.w, ", ".join(show(x, d - 1) if not isinstance(x, tuple) else "(" + ",".join(show(y, d - 1) for y in x) + ")" for x in t.a))


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def var(name, w):
    return mk("var", w, name)


def is_c(x):
    return not isinstance(x, T)


# ---------------------------------------------------------------- ranges

def srange(t, w):
    """(min, max) of t read as a signed w-bit number."""
    if not isinstance(t, T):
        s = sgn(t, w)
        return (s, s)
    if t._sr is None:
        t._sr = _srange(t)
    return t._sr


def urange(t, w):
    if not isinstance(t, T):
        return (t, t)
    lo, hi = srange(t, w)
    if lo >= 0:
        return (lo, hi)
    kz = known_zero(t, w)
    if hi < 0:
        return (lo + (1 << w), hi + (1 << w))
    return (0, mask(w) & ~kz)


def known_zero(t, w):
    """mask of bits that are certainly zero"""
    if not isinstance(t, T):
        return ~t & mask(w)
    if t._kz is None:
        t._kz = _kz(t)
    return t._kz


def _kz(t):
    op = t.op
    w = t.w
    if op == "concat":
        r = 0
        for p, pw in t.a[0]:
            r = (r << pw) | known_zero(p, pw)
        return r
    if op == "ite":
        return known_zero(t.a[1], w) & known_zero(t.a[2], w)
    if op == "and":
        return known_zero(t.a[0], w) | known_zero(t.a[1], w)
    if op in ("or", "xor"):
        return known_zero(t.a[0], w) & known_zero(t.a[1], w)
    if op == "popcnt":
        b = t.a[1].bit_length()
        return mask(w) & ~mask(b)
    if op in ("lin", "shl", "mul", "udiv", "urem", "lshr"):
        lo, hi = srange(t, w)
        if lo >= 0:
            return mask(w) & ~mask(hi.bit_length())
    return 0


def _full(w):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def _srange(t):
    op = t.op
    w = t.w
    F = _full(w)
    if op == "concat":
        # leading constant zeros -> non-negative
        p0, w0 = t.a[0][0]
        lo = hi = 0
        first = True
        for p, pw in t.a[0]:
            if first:
                a, b = srange(p, pw)
                first = False
            else:
                a, b = urange(p, pw)
            lo = (lo << pw) + a
            hi = (hi << pw) + b
        return (lo, hi)
    if op == "sext":
        return srange(t.a[0], t.a[1])
    if op == "ite":
        a = srange(t.a[1], w)
        b = srange(t.a[2], w)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "lin":
        lo = hi = sgn(t.a[0], w)
        for x, c in t.a[1]:
            a, b = srange(x, w)
            c = sgn(c, w)
            if c >= 0:
                lo += a * c
                hi += b * c
            else:
                lo += b * c
                hi += a * c
        if lo >= F[0] and hi <= F[1]:
            return (lo, hi)
        return F
    if op == "shl":
        a, b = srange(t.a[0], w)
        _, n = urange(t.a[1], w)
        if n < w:
            lo = min(a << n, a)
            hi = max(b << n, b)
            if lo >= F[0] and hi <= F[1]:
                return (lo, hi)
        return F
    if op == "mul":
        a, b = srange(t.a[0], w)
        c, d = srange(t.a[1], w)
        v = (a * c, a * d, b * c, b * d)
        if min(v) >= F[0] and max(v) <= F[1]:
            return (min(v), max(v))
        return F
    if op in ("and",):
        for x in t.a:
            a, b = srange(x, w)
            if a >= 0:
                return (0, b)
        return F
    if op == "popcnt":
        return (0, t.a[1])
    if op == "udiv":
        if is_c(t.a[1]) and t.a[1] > 0:
            a, b = urange(t.a[0], w)
            r = (a // t.a[1], b // t.a[1])
            return r if r[1] <= F[1] else F
        return F
    if op == "urem":
        if is_c(t.a[1]) and 0 < t.a[1] <= F[1]:
            a, b = urange(t.a[0], w)
            return (0, min(b, t.a[1] - 1))
        return F
    if op == "lshr":
        a, b = urange(t.a[0], w)
        return (0, b) if b <= F[1] else F
    if op == "ashr":
        a, b = srange(t.a[0], w)
        return (min(a, 0), max(b, 0))
    if op == "var" and len(t.a) > 1:
        return t.a[1]
    if w == 1:
        return (-1, 0)
    kz = known_zero(t, w)
    if kz >> (w - 1) & 1:
        return (0, mask(w) & ~kz)
    return F


# ---------------------------------------------------------------- slices

def concat(parts):
    """parts: [(value, width), ...] from the most significant down."""
    out = []
    for p, pw in parts:
        if pw == 0:
            continue
        if isinstance(p, T) and p.op == "concat":
            items = p.a[0]
        else:
            items = ((p, pw),)
        for q, qw in items:
            if out:
                l, lw = out[-1]
                if not isinstance(l, T) and not isinstance(q, T):
                    out[-1] = ((l << qw) | q, lw + qw)
                    continue
                m = _merge_adj(l, lw, q, qw)
                if m is not None:
                    out[-1] = (m, lw + qw)
                    continue
            out.append((q, qw))
    if len(out) == 1:
        return out[0][0]
    w = sum(x[1] for x in out)
    if len(out) == 2 and is_c(out[0][0]) and out[0][0] == 0 and out[1][0].op in ("lin", "mul", "shl"):
        r = _widen(out[1][0], out[1][1], w)
        if r is not None:
            return r
    return mk("concat", w, tuple(out))


def _widen(x, fw, w):
    """zero extension of arithmetic that cannot wrap, moved to the operands"""
    if x.op == "lin":
        lo = hi = sgn(x.a[0], fw)
        for t, c in x.a[1]:
            a, b = urange(t, fw)
            c = sgn(c, fw)
            lo += min(a * c, b * c)
            hi += max(a * c, b * c)
        if lo >= 0 and hi < 1 << fw:
            return lin(w, sgn(x.a[0], fw) & mask(w), [(zext(t, fw, w), sgn(c, fw) & mask(w)) for t, c in x.a[1]])
    elif x.op == "mul":
        if urange(x.a[0], fw)[1] * urange(x.a[1], fw)[1] < 1 << fw:
            return mul(zext(x.a[0], fw, w), zext(x.a[1], fw, w), w)
    elif x.op == "shl":
        n = urange(x.a[1], fw)[1]
        if n < fw and urange(x.a[0], fw)[1] << n < 1 << fw:
            return shl(zext(x.a[0], fw, w), zext(x.a[1], fw, w), w)
    return None


def _merge_adj(l, lw, q, qw):
    if not isinstance(l, T) or not isinstance(q, T):
        return None
    if l.op == "ite" and q.op == "ite" and l.a[0] is q.a[0]:
        return ite(l.a[0], concat([(l.a[1], lw), (q.a[1], qw)]), concat([(l.a[2], lw), (q.a[2], qw)]), lw + qw)
    # base/hi/lo views
    if l.op == "extract":
        lb, lh, ll = l.a
    elif l.op == "sext" and q.op != "sext":
        # sext(extract(x, h, l)) ++ extract(x, l-1, k)  ->  sext(extract(x, h, k))
        i = l.a[0]
        iw = l.a[1]
        if isinstance(i, T):
            m = _merge_adj(i, iw, q, qw)
            if m is not None:
                return sext(m, iw + qw, lw + qw)
        return None
    else:
        return None
    if q.op == "extract":
        qb, qh, ql = q.a
    else:
        return None
    if lb is qb and ll == qh + 1:
        return extract(lb, lh, ql)
    return None


def extract(x, hi, lo):
    w = hi - lo + 1
    if not isinstance(x, T):
        return (x >> lo) & mask(w)
    if lo == 0 and hi == x.w - 1:
        return x
    k = (x.id, hi, lo)
    r = _xmemo.get(k)
    if r is None:
        r = _xmemo[k] = _extract(x, hi, lo, w)
    return r


_xmemo = {}


def _extract(x, hi, lo, w):
    op = x.op
    if known_zero(x, x.w) >> lo & mask(w) == mask(w):
        return 0
    if op == "extract":
        return extract(x.a[0], hi + x.a[2], lo + x.a[2])
    if op == "popcnt" and hi == 0:
        y = x.a[0]
        return xorn([extract(y, i, i) for i in range(y.w)])
    if op == "concat":
        out = []
        pos = x.w
        for p, pw in x.a[0]:
            pos -= pw
            h = min(hi, pos + pw - 1)
            l = max(lo, pos)
            if h >= l:
                out.append((extract(p, h - pos, l - pos), h - l + 1))
        return concat(out)
    if op == "sext":
        y, yw = x.a
        if hi < yw:
            return extract(y, hi, lo)
        if lo < yw:
            return sext(extract(y, yw - 1, lo), yw - lo, w)
        return sext(extract(y, yw - 1, yw - 1), 1, w)
    if op == "ite":
        a, b = x.a[1], x.a[2]
        return ite(x.a[0], extract(a, hi, lo), extract(b, hi, lo), w)
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(extract(x.a[0], hi, lo), extract(x.a[1], hi, lo), w)
    if op == "lin" and lo == 0:
        return lin(w, x.a[0] & mask(w), [(extract(t, hi, 0), c & mask(w)) for t, c in x.a[1]])
    if op == "shl" and lo == 0:
        n = urange(x.a[1], x.w)[1]
        if n < w:
            return shl(extract(x.a[0], hi, 0), extract(x.a[1], hi, 0), w)
    return mk("extract", w, x, hi, lo)


def zext(x, fw, tw):
    if tw == fw:
        return x
    if not isinstance(x, T):
        return x
    return concat([(0, tw - fw), (x, fw)])


def sext(x, fw, tw):
    if tw == fw:
        return x
    if not isinstance(x, T):
        return sgn(x, fw) & mask(tw)
    if x.op == "sext":
        return sext(x.a[0], x.a[1], tw)
    lo, hi = srange(x, fw)
    if lo >= 0 and fw > 1:
        return zext(x, fw, tw)
    if x.op == "ite" and (is_c(x.a[1]) or is_c(x.a[2])):
        return ite(x.a[0], sext(x.a[1], fw, tw), sext(x.a[2], fw, tw), tw)
    if x.op == "lin":
        # exact when the sum cannot wrap at the narrow width
        l = h = sgn(x.a[0], fw)
        for t, c in x.a[1]:
            a, b = srange(t, fw)
            c = sgn(c, fw)
            l += min(a * c, b * c)
            h += max(a * c, b * c)
        F = _full(fw)
        if l >= F[0] and h <= F[1]:
            return lin(tw, sgn(x.a[0], fw) & mask(tw), [(sext(t, fw, tw), sgn(c, fw) & mask(tw)) for t, c in x.a[1]])
    if x.op == "shl":
        a, b = srange(x.a[0], fw)
        n = urange(x.a[1], fw)[1]
        F = _full(fw)
        if n < fw and (a << n) >= F[0] and (b << n) <= F[1]:
            return shl(sext(x.a[0], fw, tw), zext(x.a[1], fw, tw), tw)
    if x.op == "mul":
        a, b = srange(x.a[0], fw)
        c, d = srange(x.a[1], fw)
        v = (a * c, a * d, b * c, b * d)
        F = _full(fw)
        if min(v) >= F[0] and max(v) <= F[1]:
            return mul(sext(x.a[0], fw, tw), sext(x.a[1], fw, tw), tw)
    if x.op == "concat" and is_c(x.a[0][-1][0]):
        # sext(x ++ 000) = sext(x) ++ 000
        ps = x.a[0]
        tailw = ps[-1][1]
        head = concat(list(ps[:-1]))
        return concat([(sext(head, fw - tailw, tw - tailw), tw - tailw), ps[-1]])
    return mk("sext", tw, x, fw)


def trunc(x, fw, tw):
    return extract(x, tw - 1, 0)


# ---------------------------------------------------------------- arithmetic

def lin(w, c, items):
    if w == 1:
        return xorn([c & 1] + [t for t, k in items if k & 1])
    d = {}
    m = mask(w)
    stack = list(items)
    while stack:
        t, k = stack.pop()
        k &= m
        if k == 0:
            continue
        if not isinstance(t, T):
            c += t * k
            continue
        if t.op == "lin":
            c += t.a[0] * k
            for x, y in t.a[1]:
                stack.append((x, y * k))
            continue
        if t.op == "shl" and is_c(t.a[1]):
            stack.append((t.a[0], k << t.a[1]))
            continue
        if t.op == "concat" and is_c(t.a[0][-1][0]) and t.a[0][-1][0] == 0 and len(t.a[0]) == 2 and isinstance(t.a[0][0][0], T) and t.a[0][0][0].op == "sext":
            # (sext x ++ 0_n) = 2^n * sext x
            n = t.a[0][-1][1]
            i = t.a[0][0][0]
            stack.append((sext(i.a[0], i.a[1], w), k << n))
            continue
        d[t] = (d.get(t, 0) + k) & m
    c &= m
    it = [(t, k) for t, k in d.items() if k]
    if not it:
        return c
    if len(it) == 1 and c == 0:
        t, k = it[0]
        if k == 1:
            return t
        if k & (k - 1) == 0:
            n = k.bit_length() - 1
            return concat([(extract(t, w - 1 - n, 0), w - n), (0, n)])
    it.sort(key=lambda p: p[0].id)
    return mk("lin", w, c, tuple(it))


def add(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        return (a + b) & mask(w)
    if a == 0:
        return b
    if b == 0:
        return a
    if isinstance(a, T) and isinstance(b, T) and a.op != "lin" and b.op != "lin":
        if known_zero(a, w) | known_zero(b, w) == mask(w):
            return or_(a, b, w)
    return lin(w, 0, [(a, 1), (b, 1)])


def sub(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        return (a - b) & mask(w)
    if b == 0:
        return a
    return lin(w, 0, [(a, 1), (b, mask(w))])


def neg(a, w):
    return sub(0, a, w)


def mul(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        return (a * b) & mask(w)
    if not isinstance(a, T):
        a, b = b, a
    if not isinstance(b, T):
        return lin(w, 0, [(a, b)])
    if a.op == "shl" and a.a[0] == 1:
        return shl(b, a.a[1], w)
    if b.op == "shl" and b.a[0] == 1:
        return shl(a, b.a[1], w)
    if a.op == "ite" and is_c(a.a[1]) and is_c(a.a[2]):
        return ite(a.a[0], mul(a.a[1], b, w), mul(a.a[2], b, w), w)
    if b.op == "ite" and is_c(b.a[1]) and is_c(b.a[2]):
        return ite(b.a[0], mul(a, b.a[1], w), mul(a, b.a[2], w), w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, a, b)


def shl(a, n, w):
    if not isinstance(n, T):
        if n >= w:
            return 0
        if n == 0:
            return a
        if not isinstance(a, T):
            return (a << n) & mask(w)
        if a.op == "shl" and not is_c(a.a[1]):
            return shl(shl(a.a[0], n, w), a.a[1], w)
        return concat([(extract(a, w - 1 - n, 0), w - n), (0, n)])
    if a == 0:
        return 0
    return mk("shl", w, a, n)


def lshr(a, n, w):
    if not isinstance(n, T):
        if n >= w:
            return 0
        if n == 0:
            return a
        return concat([(0, n), (extract(a, w - 1, n), w - n)])
    if a == 0:
        return 0
    return mk("lshr", w, a, n)


def ashr(a, n, w):
    if not isinstance(n, T):
        if n == 0:
            return a
        if n >= w:
            n = w - 1
        return sext(extract(a, w - 1, n), w - n, w)
    if a == 0:
        return 0
    return mk("ashr", w, a, n)


def _pieces(m, w):
    """runs of (bit, width) of constant m, from the top"""
    out = []
    i = w - 1
    while i >= 0:
        b = m >> i & 1
        j = i
        while j >= 0 and (m >> j & 1) == b:
            j -= 1
        out.append((b, i, j + 1))
        i = j
    return out


_iset = {}


def iset(t):
    """(x, intervals) if the 1-bit term t says that the wide term x lies in one of the (few) unsigned intervals"""
    r = _iset.get(t.id, 0)
    if r != 0:
        return r
    r = None
    if t.op == "eq" and t.a[2] >= 12 and is_c(t.a[1]):
        r = (t.a[0], ((t.a[1], t.a[1]),))
    elif t.op == "eq" and t.a[2] >= 12 and is_c(t.a[0]):
        r = (t.a[1], ((t.a[0], t.a[0]),))
    elif t.op == "ult" and t.a[2] >= 12 and is_c(t.a[1]) and t.a[1] > 0:
        r = (t.a[0], ((0, t.a[1] - 1),))
    elif t.op == "ult" and t.a[2] >= 12 and is_c(t.a[0]) and t.a[0] < mask(t.a[2]):
        r = (t.a[1], ((t.a[0] + 1, mask(t.a[2])),))
    elif t.op == "not":
        q = iset(t.a[0])
        if q:
            r = (q[0], _icompl(q[1], mask(q[0].w)))
    elif t.op == "and" and t.w == 1:
        p, q = iset(t.a[0]), iset(t.a[1])
        if p and q and p[0] is q[0]:
            r = (p[0], _iand(p[1], q[1]))
    if r is not None and (len(r[1]) > 3 or not isinstance(r[0], T)):
        r = None
    _iset[t.id] = r
    return r


def _icompl(s, top):
    out = []
    lo = 0
    for a, b in s:
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
    if lo <= top:
        out.append((lo, top))
    return tuple(out)


def _iand(p, q):
    out = []
    for a, b in p:
        for c, d in q:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def _ibuild(x, s):
    """the canonical condition for one interval, or the complement of one; None if it takes more"""
    top = mask(x.w)
    if not s:
        return 0
    if s == ((0, top),):
        return 1
    if len(s) == 1:
        a, b = s[0]
        if a == b:
            return eq(x, a, x.w)
        if a == 0:
            return ult(x, b + 1, x.w)
        if b == top:
            return not_(ult(x, a, x.w))
        return mk("and", 1, not_(ult(x, a, x.w)), ult(x, b + 1, x.w))
    c = _icompl(s, top)
    if len(c) == 1 and c[0][0] == c[0][1]:
        return not_(eq(x, c[0][0], x.w))
    return None


def _inorm(a, b, disj):
    p = iset(a)
    if not p:
        return None
    q = iset(b)
    if not q or p[0] is not q[0]:
        return None
    x, top = p[0], mask(p[0].w)
    s = _icompl(_iand(_icompl(p[1], top), _icompl(q[1], top)), top) if disj else _iand(p[1], q[1])
    return _ibuild(x, s)


def and_(a, b, w):
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a & b
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == "xor" and is_c(a.a[1]):
            pass
        return concat([((extract(a, hi, lo) if bit else 0), hi - lo + 1) for bit, hi, lo in _pieces(b, w)])
    if a is b:
        return a
    if w == 1:
        if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
            return 0
        # absorption one level deep
        if a.op == "and" and (a.a[0] is b or a.a[1] is b):
            return a
        if b.op == "and" and (b.a[0] is a or b.a[1] is a):
            return b
        if a.op == "or" and (a.a[0] is b or a.a[1] is b):
            return b
        if b.op == "or" and (b.a[0] is a or b.a[1] is a):
            return a
        r = _inorm(a, b, False)
        if r is not None:
            return r
    else:
        kz = known_zero(a, w) | known_zero(b, w)
        if kz == mask(w):
            return 0
    if a.id > b.id:
        a, b = b, a
    return mk("and", w, a, b)


def or_(a, b, w):
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a | b
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return a
        if b == mask(w):
            return b
        return concat([((mask(hi - lo + 1) if bit else extract(a, hi, lo)), hi - lo + 1) for bit, hi, lo in _pieces(b, w)])
    if a is b:
        return a
    if w == 1:
        if (a.op == "not" and a.a[0] is b) or (b.op == "not" and b.a[0] is a):
            return 1
        for x, y in ((a, b), (b, a)):
            if x.op == "or" and (x.a[0] is y or x.a[1] is y):
                return x
            if x.op == "and" and (x.a[0] is y or x.a[1] is y):
                return y
            # (p & ~q) | q
            if x.op == "and":
                for i in (0, 1):
                    q = x.a[i]
                    if isinstance(q, T) and ((q.op == "not" and q.a[0] is y) or (y.op == "not" and y.a[0] is q)):
                        return or_(x.a[1 - i], y, 1)
        r = _inorm(a, b, True)
        if r is not None:
            return r
        for x, y in ((a, b),):
            if x.op == "and" and y.op == "and":
                # (p & q) | (p & r) = p & (q | r) for conditions on one wide value
                for i in (0, 1):
                    for j in (0, 1):
                        if x.a[i] is y.a[j] and isinstance(x.a[1 - i], T) and isinstance(y.a[1 - j], T):
                            r = _inorm(x.a[1 - i], y.a[1 - j], True)
                            if r is not None:
                                return and_(x.a[i], r, 1)
                # (p & q) | (p & ~q) = p
                for i in (0, 1):
                    for j in (0, 1):
                        if x.a[i] is y.a[j]:
                            u, v = x.a[1 - i], y.a[1 - j]
                            if (u.op == "not" and u.a[0] is v) or (v.op == "not" and v.a[0] is u):
                                return x.a[i]
    else:
        za, zb = known_zero(a, w), known_zero(b, w)
        if za | zb == mask(w):
            # disjoint: pick the live side for every run of bits
            out = []
            i = w - 1
            while i >= 0:
                sa = not (za >> i & 1)
                sb = not (zb >> i & 1)
                s = 1 if sa else (2 if sb else 0)
                j = i
                while j >= 0:
                    ta = not (za >> j & 1)
                    tb = not (zb >> j & 1)
                    if (1 if ta else (2 if tb else 0)) != s:
                        break
                    j -= 1
                out.append(((extract(a, i, j + 1) if s == 1 else extract(b, i, j + 1) if s == 2 else 0), i - j))
                i = j
            return concat(out)
    if a.id > b.id:
        a, b = b, a
    return mk("or", w, a, b)


def xor(a, b, w):
    if not isinstance(a, T):
        if not isinstance(b, T):
            return a ^ b
        a, b = b, a
    if w == 1:
        if not isinstance(b, T):
            return not_(a) if b else a
        return xorn((a, b))
    if not isinstance(b, T):
        if b == 0:
            return a
        if a.op == "xor" and is_c(a.a[1]):
            return xor(a.a[0], a.a[1] ^ b, w)
        if a.op == "ite" and (is_c(a.a[1]) or is_c(a.a[2])):
            return ite(a.a[0], xor(a.a[1], b, w), xor(a.a[2], b, w), w)
        if a.op != "concat":
            return mk("xor", w, a, b)
    if a is b:
        return 0
    if a.op == "concat" or isinstance(b, T) and b.op == "concat":
        cuts = sorted(_cuts(a, w) | _cuts(b, w), reverse=True)
        if len(cuts) <= 40:
            out = []
            for hi, lo in zip(cuts, cuts[1:]):
                out.append((xor(extract(a, hi - 1, lo), extract(b, hi - 1, lo), hi - lo), hi - lo))
            if len(out) > 1:
                return concat(out)
        if not isinstance(b, T):
            return mk("xor", w, a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("xor", w, a, b)


def _cuts(t, w):
    """bit positions at which t is glued together"""
    r = {0, w}
    if isinstance(t, T) and t.op == "concat":
        pos = w
        for _, pw in t.a[0]:
            pos -= pw
            r.add(pos)
    return r


def xorn(xs):
    """exclusive or of single bits: a set (pairs cancel) and a sign"""
    s = 0
    d = set()
    for x in xs:
        if not isinstance(x, T):
            s ^= x
            continue
        if x.op == "not":
            s ^= 1
            x = x.a[0]
        if x.op == "xn" and len(x.a) + len(d) <= 64:
            for y in x.a:
                d ^= {y}
        else:
            d ^= {x}
    if not d:
        return s
    if len(d) == 1:
        r = d.pop()
    else:
        r = mk("xn", 1, *sorted(d, key=lambda t: t.id))
    return not_(r) if s else r


def not_(a):
    if not isinstance(a, T):
        return 1 - a
    if a.op == "not":
        return a.a[0]
    return mk("not", 1, a)


def udiv(a, b, w):
    if not isinstance(b, T):
        if b == 0:
            return mask(w)
        if not isinstance(a, T):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if urange(a, w)[1] < b:
            return 0
    return mk("udiv", w, a, b)


def urem(a, b, w):
    if not isinstance(b, T):
        if b == 0:
            return a
        if not isinstance(a, T):
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if urange(a, w)[1] < b:
            return a
    return mk("urem", w, a, b)


def sdiv(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return 1 if x < 0 else mask(w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isinstance(a, T) and is_c(b) and srange(a, w)[0] >= 0 and sgn(b, w) > 0:
        return udiv(a, b, w)
    return mk("sdiv", w, a, b)


def srem(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if isinstance(a, T) and is_c(b) and srange(a, w)[0] >= 0 and sgn(b, w) > 0:
        return urem(a, b, w)
    return mk("srem", w, a, b)


# ---------------------------------------------------------------- predicates, ite

def eq(a, b, w):
    if a is b:
        return 1
    if not isinstance(a, T):
        if not isinstance(b, T):
            return 1 if a == b else 0
        a, b = b, a
    if not isinstance(b, T):
        if w == 1:
            return a if b else not_(a)
        if a.op == "ite":
            x, y = a.a[1], a.a[2]
            if is_c(x) or is_c(y):
                return ite(a.a[0], eq(x, b, w), eq(y, b, w), 1)
            lv = const_leaves(a)
            if lv is not None:
                if b not in lv:
                    return 0
                if lv == {b}:
                    return 1
                k = (a.id, b)
                r = _eqmemo.get(k)
                if r is None:
                    r = _eqmemo[k] = ite(a.a[0], eq(x, b, w), eq(y, b, w), 1)
                return r
        kz = known_zero(a, w)
        if b & kz:
            return 0
        lo, hi = srange(a, w)
        if not lo <= sgn(b, w) <= hi:
            return 0
        if a.op == "concat":
            ps = a.a[0]
            r = 1
            rest = []
            pos = w
            for p, pw in ps:
                pos -= pw
                bv = b >> pos & mask(pw)
                if is_c(p):
                    if p != bv:
                        return 0
                else:
                    rest.append((p, bv, pw))
            if len(rest) == 1:
                return eq(rest[0][0], rest[0][1], rest[0][2])
        if a.op == "or" and b == 0 and w > 1:
            # all fields zero
            ps = []
            st = [a]
            while st:
                x = st.pop()
                if isinstance(x, T) and x.op == "or":
                    st += list(x.a)
                else:
                    ps += [(p, pw) for p, pw in _fields(x, w)]
            ps = sorted(set(ps), key=_fkey)
            r = concat(ps)
            return eq(r, 0, sum(x[1] for x in ps))
        if a.op == "sext":
            return eq(a.a[0], b & mask(a.a[1]), a.a[1])
        if a.op == "xor" and is_c(a.a[1]):
            return eq(a.a[0], a.a[1] ^ b, w)
        if a.op == "lin" and len(a.a[1]) == 1 and a.a[1][0][1] in (1, mask(w)):
            t, k = a.a[1][0]
            return eq(t, ((b - a.a[0]) * (1 if k == 1 else -1)) & mask(w), w)
        return mk("eq", 1, a, b, w)
    if w == 1:
        return not_(xor(a, b, 1))
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    if a.op == "concat" or b.op == "concat":
        cuts = sorted(_cuts(a, w) | _cuts(b, w), reverse=True)
        rest = []
        for hi, lo in zip(cuts, cuts[1:]):
            x, y = extract(a, hi - 1, lo), extract(b, hi - 1, lo)
            e = eq(x, y, hi - lo)
            if e == 0:
                return 0
            if e != 1:
                rest.append((x, y, hi - lo, e))
        if not rest:
            return 1
        if len(rest) == 1:
            return rest[0][3]
        n = sum(x[2] for x in rest)
        if n < w:
            return eq(concat([(x[0], x[2]) for x in rest]), concat([(x[1], x[2]) for x in rest]), n)
    if a.op == "sext" and b.op == "sext" and a.a[1] == b.a[1]:
        return eq(a.a[0], b.a[0], a.a[1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, a, b, w)


_eqmemo = {}
_leaves = {}


def const_leaves(t, limit=12):
    """the constants an ite tree ends in, None if it ends in anything else (or too many)"""
    if not isinstance(t, T):
        return frozenset((t,))
    if t.op != "ite":
        return None
    r = _leaves.get(t.id, 0)
    if r == 0:
        a = const_leaves(t.a[1], limit)
        b = const_leaves(t.a[2], limit) if a is not None else None
        r = None if a is None or b is None or len(a | b) > limit else a | b
        _leaves[t.id] = r
    return r


def _fields(x, w):
    """pieces that are zero exactly when x is"""
    while isinstance(x, T):
        if x.op == "sext":
            x, w = x.a[0], x.a[1]
        elif x.op == "concat":
            out = []
            for p, pw in x.a[0]:
                if p != 0 if is_c(p) else True:
                    out += _fields(p, pw)
            return out
        else:
            break
    return [(x, w)] if isinstance(x, T) or x else []


def _fkey(p):
    x = p[0]
    if not isinstance(x, T):
        return (0, 0)
    if x.op == "extract":
        return (x.a[0].id, -x.a[1])
    return (x.id, 0)


def assume(t, cond):
    """t simplified knowing that the 1-bit term cond holds"""
    if not isinstance(t, T) or not isinstance(cond, T):
        return t
    cache = {}
    st = [cond]
    while st:
        c = st.pop()
        if not isinstance(c, T):
            continue
        if c.op == "and":
            st += list(c.a)
        elif c.op == "not":
            if c.a[0].op == "or":
                st += [not_(x) for x in c.a[0].a]
            cache[c.a[0].id] = 0
        cache[c.id] = 1
    return substitute(t, {}, cache)


def ult(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        return 1 if a < b else 0
    if a is b:
        return 0
    ra, rb = urange(a, w), urange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if is_c(b) and b == 1:
        return eq(a, 0, w)
    if is_c(a) and a == 0:
        return not_(eq(b, 0, w))
    if isinstance(a, T) and a.op == "ite" and is_c(b) and (is_c(a.a[1]) or is_c(a.a[2])):
        return ite(a.a[0], ult(a.a[1], b, w), ult(a.a[2], b, w), 1)
    # drop common leading zeros
    za = _lz(a, w)
    zb = _lz(b, w)
    n = min(za, zb)
    if n:
        return ult(extract(a, w - n - 1, 0), extract(b, w - n - 1, 0), w - n)
    return mk("ult", 1, a, b, w)


def _lz(t, w):
    kz = known_zero(t, w)
    n = 0
    while n < w - 1 and kz >> (w - 1 - n) & 1:
        n += 1
    return n


def ule(a, b, w):
    return not_(ult(b, a, w))


def slt(a, b, w):
    if not isinstance(a, T) and not isinstance(b, T):
        return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b:
        return 0
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if ra[0] >= 0 and rb[0] >= 0:
        return ult(a, b, w)
    if is_c(b) and b == 0:
        return eq(extract(a, w - 1, w - 1), 1, 1)
    if isinstance(a, T) and a.op == "ite" and is_c(b) and (is_c(a.a[1]) or is_c(a.a[2])):
        return ite(a.a[0], slt(a.a[1], b, w), slt(a.a[2], b, w), 1)
    return mk("slt", 1, a, b, w)


def sle(a, b, w):
    return not_(slt(b, a, w))


def _truth(d, c, val):
    """The value of condition d given that c is val, or None."""
    if d is c:
        return val
    if d.op == "not":
        v = _truth(d.a[0], c, val)
        return None if v is None else 1 - v
    if c.op == "not":
        return _truth(d, c.a[0], 1 - val)
    if c.w == 1 and (c.op == "or" and not val or c.op == "and" and val):
        for e in c.a:
            if isinstance(e, T):
                v = _truth(d, e, val)
                if v is not None:
                    return v
    return None


def _under(x, c, val):
    """x with the choices at its top (through concatenations) that c = val decides taken."""
    if not isinstance(x, T):
        return x
    if x.op == "ite":
        v = _truth(x.a[0], c, val)
        if v is not None:
            return _under(x.a[1] if v else x.a[2], c, val)
    elif x.op == "concat":
        ps = None
        for i, (p, pw) in enumerate(x.a[0]):
            if isinstance(p, T) and (p.op == "ite" or p.w == 1):
                q = _under(p, c, val)
                if q is not p:
                    ps = ps or list(x.a[0])
                    ps[i] = (q, pw)
        if ps:
            return concat(ps)
    return x


def ite(c, a, b, w):
    if not isinstance(c, T):
        return a if c else b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and a == b):
        return a
    if c.op == "not":
        return ite(c.a[0], b, a, w)
    a2, b2 = _under(a, c, 1), _under(b, c, 0)
    if a2 is not a or b2 is not b:
        return ite(c, a2, b2, w)
    if w == 1:
        if not isinstance(a, T):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if not isinstance(b, T):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
        if a is c:
            return or_(c, b, 1)
        if b is c:
            return and_(c, a, 1)
        if (b.op == "not" and b.a[0] is a) or (a.op == "not" and a.a[0] is b):
            return not_(xor(c, a, 1))
    # share equal bit ranges
    ca = isinstance(a, T) and a.op == "concat"
    cb = isinstance(b, T) and b.op == "concat"
    if (ca or cb) and w > 1:
        cuts = set()
        for x, y in ((a, ca), (b, cb)):
            if y:
                p = w
                for _, pw in x.a[0]:
                    p -= pw
                    cuts.add(p)
        cs = sorted(cuts, reverse=True)
        hi = w - 1
        out = []
        same = False
        for lo in cs:
            u, v = extract(a, hi, lo), extract(b, hi, lo)
            if u is v or (is_c(u) and is_c(v) and u == v):
                same = True
                out.append((u, hi - lo + 1, True))
            else:
                out.append(((u, v), hi - lo + 1, False))
            hi = lo - 1
        if same:
            res = []
            i = 0
            while i < len(out):
                if out[i][2]:
                    res.append((out[i][0], out[i][1]))
                    i += 1
                    continue
                us, vs, n = [], [], 0
                while i < len(out) and not out[i][2]:
                    us.append((out[i][0][0], out[i][1]))
                    vs.append((out[i][0][1], out[i][1]))
                    n += out[i][1]
                    i += 1
                res.append((ite(c, concat(us), concat(vs), n), n))
            return concat(res)
    # ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if isinstance(b, T) and b.op == "ite":
        if b.a[1] is a or (is_c(a) and is_c(b.a[1]) and a == b.a[1]):
            return ite(or_(c, b.a[0], 1), a, b.a[2], w)
    if isinstance(a, T) and a.op == "ite":
        if a.a[2] is b or (is_c(b) and is_c(a.a[2]) and b == a.a[2]):
            return ite(and_(c, a.a[0], 1), a.a[1], b, w)
    return mk("ite", w, c, a, b)


def popcnt(x, w):
    if not isinstance(x, T):
        return bin(x).count("1")
    return mk("popcnt", w, x, bin(mask(w) & ~known_zero(x, w)).count("1"))


def bswap(x, w):
    n = w // 8
    return concat([(extract(x, 8 * i + 7, 8 * i), 8) for i in range(n)])


# ---------------------------------------------------------------- floats

FT = {32: np.float32, 64: np.float64}
UT = {32: np.uint32, 64: np.uint64}


def f2b(f, w=32):
    if w == 32:
        return int(np.float32(f).view(np.uint32))
    return int(np.float64(f).view(np.uint64))


def b2f(b, w=32):
    if w == 32:
        return np.uint32(b).view(np.float32)
    return np.uint64(b).view(np.float64)


def fconst_op(op, a, b, w):
    with np.errstate(all="ignore"):
        x, y = b2f(a, w), b2f(b, w)
        if op == "fadd":
            r = x + y
        elif op == "fmul":
            r = x * y
        elif op == "fdiv":
            r = x / y
        elif op == "frem":
            r = np.fmod(x, y)
        else:
            raise ValueError(op)
        return f2b(r, w)


def fneg(a, w=32):
    if not isinstance(a, T):
        return a ^ (1 << (w - 1))
    if a.op == "fneg":
        return a.a[0]
    if a.op == "ite":
        return ite(a.a[0], fneg(a.a[1], w), fneg(a.a[2], w), w)
    return mk("fneg", w, a)


def _split_neg(a, w):
    if isinstance(a, T):
        if a.op == "fneg":
            return a.a[0], 1
        return a, 0
    # constants keep their sign (canonical for sums)
    return a, 0


def fadd(a, b, w=32):
    if not isinstance(a, T) and not isinstance(b, T):
        return fconst_op("fadd", a, b, w)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, T) and x & mask(w - 1) == 0:
            return y
    # -(x) + -(y) = -(x + y)
    na = isinstance(a, T) and a.op == "fneg"
    nb = isinstance(b, T) and b.op == "fneg"
    if (na or is_c(a) and a >> (w - 1)) and (nb or is_c(b) and b >> (w - 1)):
        return fneg(fadd(fneg(a, w), fneg(b, w), w), w)
    # canonical: first operand non-negated, lower id, decides the sign
    return _fadd2(a, b, w)


def _key(x):
    return x.id if isinstance(x, T) else -1


def _fadd2(a, b, w):
    na = isinstance(a, T) and a.op == "fneg"
    nb = isinstance(b, T) and b.op == "fneg"
    ka = _key(a.a[0] if na else a)
    kb = _key(b.a[0] if nb else b)
    if ka > kb:
        a, b, na, nb = b, a, nb, na
    # a has the smaller key; if it is a negated term, pull the sign out (keeps x-y and y-x in step)
    if na:
        return fneg(mk("fadd", w, a.a[0], fneg(b, w)), w)
    return mk("fadd", w, a, b)


def fsub(a, b, w=32):
    return fadd(a, fneg(b, w), w)


def fmul(a, b, w=32):
    if not isinstance(a, T) and not isinstance(b, T):
        return fconst_op("fmul", a, b, w)
    s = 0
    a, n = _split_neg(a, w)
    s ^= n
    b, n = _split_neg(b, w)
    s ^= n
    if not isinstance(b, T):
        a, b = b, a
    if not isinstance(a, T):
        if a >> (w - 1):
            a ^= 1 << (w - 1)
            s ^= 1
        if a == f2b(1.0, w):
            return fneg(b, w) if s else b
        # (x * 2^i) * 2^j with x an integer conversion: exact either way
        if isinstance(b, T) and b.op == "fmul" and is_c(b.a[0]) and _is_pow2(a, w) and _is_pow2(b.a[0], w):
            k = fconst_op("fmul", a, b.a[0], w)
            if _is_pow2(k, w) and _int_like(b.a[1]):
                r = fmul(k, b.a[1], w)
                return fneg(r, w) if s else r
    elif a.id > b.id:
        a, b = b, a
    r = mk("fmul", w, a, b)
    return fneg(r, w) if s else r


def _int_like(t):
    return isinstance(t, T) and t.op == "sitofp"


def _is_pow2(c, w):
    """positive, normal power of two whose reciprocal is normal too"""
    if w == 32:
        e = c >> 23
        return c & mask(23) == 0 and 1 <= e <= 253
    e = c >> 52
    return c & mask(52) == 0 and 1 <= e <= 2045


def fdiv(a, b, w=32):
    if not isinstance(a, T) and not isinstance(b, T):
        return fconst_op("fdiv", a, b, w)
    s = 0
    a, n = _split_neg(a, w)
    s ^= n
    b, n = _split_neg(b, w)
    s ^= n
    for_c = False
    if not isinstance(b, T):
        if b >> (w - 1):
            b ^= 1 << (w - 1)
            s ^= 1
        if _is_pow2(b, w):
            r = fmul(fconst_op("fdiv", f2b(1.0, w), b, w), a, w)
            return fneg(r, w) if s else r
    elif b.op == "pow2":
        p = neg(b.a[0], 32)
        r = fmul(a, pow2(p), w)
        return fneg(r, w) if s else r
    if is_c(a) and a >> (w - 1):
        a ^= 1 << (w - 1)
        s ^= 1
    r = mk("fdiv", w, a, b)
    return fneg(r, w) if s else r


def pow2(n):
    """2^n as f32 for a 32-bit signed n known to lie in [-126, 127]."""
    if not isinstance(n, T):
        return ((sgn(n, 32) + 127) & 0xFF) << 23
    lo, hi = srange(n, 32)
    if not (lo >= -126 and hi <= 127):
        raise ValueError("pow2 range %r" % ((lo, hi),))
    return mk("pow2", 32, n)


def sitofp(x, fw, w=32):
    """signed fw-bit integer to float"""
    if not isinstance(x, T):
        v = sgn(x, fw)
        return int_to_float(v, w)
    x = sext(x, fw, 64) if fw < 64 else x
    if not isinstance(x, T):
        return int_to_float(sgn(x, 64), w)
    if x.op == "ite" and (is_c(x.a[1]) or is_c(x.a[2])):
        return ite(x.a[0], sitofp(x.a[1], 64, w), sitofp(x.a[2], 64, w), w)
    if x.op == "shl" and x.a[0] == 1 and w == 32 and urange(x.a[1], 64)[1] < 63:
        return pow2(extract(x.a[1], 31, 0))
    lo, hi = srange(x, 64)
    # scaled integers: float(2^k * y) = 2^k * float(y), exact
    if x.op == "concat" and is_c(x.a[0][-1][0]) and x.a[0][-1][0] == 0:
        k = x.a[0][-1][1]
        hd = extract(x, 63, k)
        if k < 60:
            return fmul(int_to_float(1 << k, w), sitofp(sext(hd, 64 - k, 64), 64, w), w)
    # canonical sign: leading coefficient positive
    if x.op == "lin" and sgn(x.a[1][0][1], 64) < 0 and lo > -(1 << 63):
        return fneg(sitofp(neg(x, 64), 64, w), w)
    return mk("sitofp", w, x)


def uitofp(x, fw, w=32):
    if not isinstance(x, T):
        return int_to_float(x, w)
    if fw == 64:
        lo, hi = srange(x, 64)
        if lo < 0:
            return mk("uitofp", w, x)
        return sitofp(x, 64, w)
    return sitofp(zext(x, fw, 64), 64, w)


def int_to_float(v, w):
    if w == 64:
        return f2b(float(v), 64)
    if abs(v) < 1 << 53:
        return f2b(np.float32(float(v)))
    import fractions
    # round to nearest even by hand
    m = abs(v)
    s = m.bit_length() - 24
    q, r = m >> s, m & mask(s)
    h = 1 << (s - 1)
    if r > h or (r == h and q & 1):
        q += 1
    return f2b(np.float32(float(q << s) * (-1 if v < 0 else 1)))


def fcmp(pred, a, b, w=32):
    """pred in oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une"""
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    if pred[0] == "u" and pred != "uno":
        inv = {"ueq": "one", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt", "une": "oeq"}[pred]
        return not_(fcmp(inv, a, b, w))
    if pred == "ord":
        return not_(fcmp("uno", a, b, w))
    if pred == "ogt":
        return fcmp("olt", b, a, w)
    if pred == "oge":
        return fcmp("ole", b, a, w)
    if pred == "one":
        return or_(fcmp("olt", a, b, w), fcmp("olt", b, a, w), 1)
    if not isinstance(a, T) and not isinstance(b, T):
        x, y = b2f(a, w), b2f(b, w)
        if pred == "oeq":
            return int(bool(x == y))
        if pred == "olt":
            return int(bool(x < y))
        if pred == "ole":
            return int(bool(x <= y))
        if pred == "uno":
            return int(bool(x != x) or bool(y != y))
    if pred == "uno":
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b2f(b, w) != b2f(b, w):
                return 1
            if isinstance(a, T) and (a.op in ("sitofp", "pow2", "uitofp")):
                return 0
            b = 0
        if isinstance(b, T) and a.id > b.id:
            a, b = b, a
    if pred == "oeq":
        if _key(a) > _key(b):
            a, b = b, a
        if is_c(a) and isinstance(b, T) and b.op == "sitofp":
            f = float(b2f(a, w))
            if f != f or f != int(f) if abs(f) != float("inf") else True:
                return 0
            lo, hi = srange(b.a[0], 64)
            if abs(lo) < 1 << 24 and abs(hi) < 1 << 24:
                return eq(b.a[0], int(f) & mask(64), 64)
        if is_c(a) and b.op == "ite" and (is_c(b.a[1]) or is_c(b.a[2])):
            return ite(b.a[0], fcmp(pred, a, b.a[1], w), fcmp(pred, a, b.a[2], w), 1)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if is_c(x) and isinstance(y, T) and y.op == "ite" and (is_c(y.a[1]) and is_c(y.a[2])):
            f = (lambda u: fcmp(pred, x, u, w)) if not sw else (lambda u: fcmp(pred, u, x, w))
            return ite(y.a[0], f(y.a[1]), f(y.a[2]), 1)
    return mk("fcmp", 1, pred, a, b, w)


def ffun(name, w, *args):
    """other float functions: sqrt, pow, powi, exp2, ldexp, fma, ..."""
    if all(not isinstance(x, T) for x in args):
        v = eval_fun(name, w, args)
        if v is not None:
            return v
    if name == "fabs":
        if not isinstance(args[0], T):
            return args[0] & mask(w - 1)
        if args[0].op in ("fadd", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fpext", "fptrunc", "ite") or args[0].op.startswith("f_"):
            return mk("f_fabs", w, args[0])
        return concat([(0, 1), (extract(args[0], w - 2, 0), w - 1)])
    if name == "powi":
        n = args[1]
        if not isinstance(n, T):
            n = sgn(n, 32)
            if n == 0:
                return f2b(1.0, w)
            if n == 1:
                return args[0]
        if not isinstance(args[0], T) and args[0] == f2b(2.0) and w == 32:
            lo, hi = srange(n, 32)
            if lo >= -126 and hi <= 127:
                return pow2(n)
            if lo >= -126:
                return mk("f_ldexp", w, f2b(1.0), n) if isinstance(n, T) else ffun("ldexp", w, f2b(1.0), n)
    if name == "ldexp":
        x, n = args
        if isinstance(n, T) and w == 32:
            lo, hi = srange(n, 32)
            if lo >= -126 and hi <= 127:
                return fmul(x, pow2(n), w)
        if not isinstance(n, T) and -126 <= sgn(n, 32) <= 127 and w == 32:
            return fmul(x, pow2(n), w)
    if name == "exp2":
        x = args[0]
        if isinstance(x, T) and x.op == "sitofp" and w == 32:
            lo, hi = srange(x.a[0], 64)
            if lo >= -126 and hi <= 127:
                return pow2(extract(x.a[0], 31, 0))
            if lo >= -(1 << 24) and hi <= 1 << 24:
                # a power of two with an integer exponent is the same function, however it is spelled
                return mk("f_ldexp", w, f2b(1.0), extract(x.a[0], 31, 0))
        if isinstance(x, T) and x.op == "fneg" and x.a[0].op == "sitofp" and w == 32:
            lo, hi = srange(x.a[0].a[0], 64)
            if lo >= -127 and hi <= 126:
                return pow2(neg(extract(x.a[0].a[0], 31, 0), 32))
        if isinstance(x, T) and x.op == "ite":
            return ite(x.a[0], ffun(name, w, x.a[1]), ffun(name, w, x.a[2]), w)
    if name == "pow":
        b, e = args
        if not isinstance(e, T):
            ev = float(b2f(e, w))
            if ev == 1.0:
                return b
            if ev == 0.5:
                return ffun("sqrt", w, b)
        if not isinstance(b, T) and float(b2f(b, w)) == 2.0:
            return ffun("exp2", w, e)
    return mk("f_" + name, w, *args)


def eval_fun(name, w, args):
    with np.errstate(all="ignore"):
        ft = FT[w]
        if name in ("powi", "ldexp"):
            x = b2f(args[0], w)
            n = sgn(args[1], 32)
            if name == "ldexp":
                return f2b(np.ldexp(x, n), w)
            # repeated multiplication as compiler-rt's __powisf2 does
            r = ft(1)
            b = x
            m = abs(n)
            while True:
                if m & 1:
                    r = ft(r * b)
                m //= 2
                if m == 0:
                    break
                b = ft(b * b)
            if n < 0:
                r = ft(1) / r
            return f2b(r, w)
        xs = [b2f(a, w) for a in args]
        if name == "sqrt":
            return f2b(np.sqrt(xs[0]), w)
        if name == "exp2":
            return f2b(np.exp2(xs[0]), w)
        if name == "pow":
            return f2b(ft(np.power(np.float64(xs[0]), np.float64(xs[1]))) if w == 32 else np.power(xs[0], xs[1]), w)
        if name == "fabs":
            return f2b(np.abs(xs[0]), w)
        if name == "floor":
            return f2b(np.floor(xs[0]), w)
        if name == "ceil":
            return f2b(np.ceil(xs[0]), w)
        if name == "trunc":
            return f2b(np.trunc(xs[0]), w)
        if name == "rint":
            return f2b(np.rint(xs[0]), w)
        if name == "fma":
            if w == 32:
                return f2b(ft(np.float64(xs[0]) * np.float64(xs[1]) + np.float64(xs[2])), w)
        if name == "round":
            return f2b(np.copysign(np.floor(np.abs(np.float64(xs[0])) + 0.5), xs[0]), w)
        if name in ("exp", "log", "log2", "log10", "cbrt", "expm1", "log1p"):
            return f2b(ft(getattr(np, name)(np.float64(xs[0]))), w)
        if name == "atan2":
            return f2b(ft(np.arctan2(np.float64(xs[0]), np.float64(xs[1]))), w)
        if name == "frem":
            return f2b(np.fmod(xs[0], xs[1]), w)
        if name == "fpext":
            return None
    return None


def fpext(x):
    if not isinstance(x, T):
        return f2b(np.float64(b2f(x, 32)), 64)
    if x.op == "sitofp":
        lo, hi = srange(x.a[0], 64)
        if -(1 << 24) <= lo and hi <= 1 << 24:
            return mk("sitofp", 64, x.a[0])
    return mk("fpext", 64, x)


def fptrunc(x):
    if not isinstance(x, T):
        with np.errstate(all="ignore"):
            return f2b(np.float32(b2f(x, 64)), 32)
    if x.op == "fpext":
        return x.a[0]
    return mk("fptrunc", 32, x)


def fptoint(x, w, iw, signed, sat):
    lo = -(1 << (iw - 1)) if signed else 0
    hi = (1 << (iw - 1)) - 1 if signed else mask(iw)
    if not isinstance(x, T):
        f = float(b2f(x, w))
        if f != f:
            return 0
        if f in (float("inf"), float("-inf")):
            return (hi if f > 0 else lo) & mask(iw)
        v = int(f)
        return max(lo, min(hi, v)) & mask(iw)
    if x.op == "sitofp":
        a, b = srange(x.a[0], 64)
        if max(lo, -(1 << 24)) <= a and b <= min(hi, 1 << 24):
            return extract(x.a[0], iw - 1, 0) if iw <= 64 else sext(x.a[0], 64, iw)
    return mk("fptoint", iw, x, w, int(signed))


# ---------------------------------------------------------------- evaluation

def evaluate(t, env, cache=None):
    """Concrete value of t; env maps var name -> int. Iterative post-order."""
    if cache is None:
        cache = {}
    if not isinstance(t, T):
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        todo = [y for y in children(x) if y.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        cache[x.id] = _ev(x, env, cache)
    return cache[t.id]


def children(x):
    op = x.op
    if op == "var":
        return ()
    if op == "concat":
        return [p for p, _ in x.a[0] if isinstance(p, T)]
    if op == "lin":
        return [p for p, _ in x.a[1]]
    return [p for p in x.a if isinstance(p, T)]


def _ev(x, env, cache):
    g = lambda y: cache[y.id] if isinstance(y, T) else y
    op, w = x.op, x.w
    if op == "var":
        return env.get(x.a[0], 0) & mask(w)
    return rebuild(x, g)


def rebuild(x, g):
    """Re-apply x's operation to children mapped through g (folds when they are constants)."""
    op, w, a = x.op, x.w, x.a
    if op == "concat":
        return concat([(g(p), pw) for p, pw in a[0]])
    if op == "extract":
        return extract(g(a[0]), a[1], a[2])
    if op == "sext":
        return sext(g(a[0]), a[1], w)
    if op == "lin":
        return lin(w, a[0], [(g(p), c) for p, c in a[1]])
    if op == "ite":
        return ite(g(a[0]), g(a[1]), g(a[2]), w)
    if op == "xn":
        return xorn([g(p) for p in a])
    if op in BIN:
        return BIN[op](g(a[0]), g(a[1]), w)
    if op == "not":
        return not_(g(a[0]))
    if op == "eq":
        return eq(g(a[0]), g(a[1]), a[2])
    if op == "ult":
        return ult(g(a[0]), g(a[1]), a[2])
    if op == "slt":
        return slt(g(a[0]), g(a[1]), a[2])
    if op == "popcnt":
        return popcnt(g(a[0]), w)
    if op == "fneg":
        return fneg(g(a[0]), w)
    if op == "fadd":
        return fadd(g(a[0]), g(a[1]), w)
    if op == "fmul":
        return fmul(g(a[0]), g(a[1]), w)
    if op == "fdiv":
        return fdiv(g(a[0]), g(a[1]), w)
    if op == "pow2":
        return pow2(g(a[0]))
    if op == "sitofp":
        return sitofp(g(a[0]), 64, w)
    if op == "uitofp":
        return uitofp(g(a[0]), 64, w)
    if op == "fcmp":
        return fcmp(a[0], g(a[1]), g(a[2]), a[3])
    if op == "fpext":
        return fpext(g(a[0]))
    if op == "fptrunc":
        return fptrunc(g(a[0]))
    if op == "fptoint":
        return fptoint(g(a[0]), a[1], w, bool(a[2]), True)
    if op.startswith("f_"):
        return ffun(op[2:], w, *[g(p) for p in a])
    if op == "ctlz":
        return ctz_(g(a[0]), w, True)
    if op == "cttz":
        return ctz_(g(a[0]), w, False)
    if op == "var":
        return x
    raise NotImplementedError("rebuild " + op)


def ctz_(x, w, lead):
    if not isinstance(x, T):
        if x == 0:
            return w
        return w - x.bit_length() if lead else (x & -x).bit_length() - 1
    r = w
    rng = range(w) if lead else range(w - 1, -1, -1)
    for i in rng:
        r = ite(extract(x, i, i), (w - 1 - i) if lead else i, r, w)
    return r


BIN = {
    "and": and_, "or": or_, "xor": xor, "mul": mul, "shl": shl, "lshr": lshr, "ashr": ashr,
    "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem,
}


def substitute(t, env, cache=None):
    """Partial evaluation: env maps var name -> term/int."""
    if cache is None:
        cache = {}
    if not isinstance(t, T):
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        todo = [y for y in children(x) if y.id not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if x.op == "var":
            cache[x.id] = env.get(x.a[0], x)
        else:
            cache[x.id] = rebuild(x, lambda y: cache[y.id] if isinstance(y, T) else y)
    return cache[t.id]


def vars_of(ts):
    seen = set()
    out = {}
    stack = [t for t in ts if isinstance(t, T)]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out[x.a[0]] = x
        else:
            stack.extend(children(x))
    return out
