"""Notation for specifications: integers and floats as terms with operators."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import terms as tm
from terms import T, and_, concat, eq, extract, is_c, ite, not_, or_
from check import Goals, Harness
from device import Device
from native import Call, Ptr

IW = 64


class I:
    """mathematical integer carried in 64 bits (every specification stays far below 2^62)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t & tm.mask(IW) if isinstance(t, int) else t

    def __add__(self, o):
        return I(tm.add(self.t, toi(o).t, IW))
    __radd__ = __add__

    def __sub__(self, o):
        return I(tm.sub(self.t, toi(o).t, IW))

    def __rsub__(self, o):
        return toi(o) - self

    def __mul__(self, o):
        return I(tm.mul(self.t, toi(o).t, IW))
    __rmul__ = __mul__

    def __neg__(self):
        return I(tm.neg(self.t, IW))

    def __lshift__(self, n):
        return I(tm.shl(self.t, toi(n).t, IW))

    def trunc(self, w):
        return extract(self.t, w - 1, 0)

    def f(self):
        return F(tm.sitofp(self.t, IW))

    def is_(self, v):
        return eq(self.t, toi(v).t, IW)


def toi(x):
    return x if isinstance(x, I) else I(x)


def pick(c, a, b):
    """c ? a : b"""
    if isinstance(a, F) or isinstance(b, F):
        return F(ite(c, tof(a).t, tof(b).t, 32))
    if isinstance(a, I) or isinstance(b, I):
        return I(ite(c, toi(a).t, toi(b).t, IW))
    raise TypeError


class F:
    """single-precision value (compared up to rounding, so the order of operations is not part of the claim)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = tm.f2b(t) if isinstance(t, float) else t

    def __add__(self, o):
        return F(tm.fadd(self.t, tof(o).t))
    __radd__ = __add__

    def __sub__(self, o):
        return F(tm.fsub(self.t, tof(o).t))

    def __rsub__(self, o):
        return tof(o) - self

    def __mul__(self, o):
        return F(tm.fmul(self.t, tof(o).t))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return F(tm.fdiv(self.t, tof(o).t))

    def __rtruediv__(self, o):
        return tof(o) / self

    def __neg__(self):
        return F(tm.fneg(self.t))

    def powi(self, n):
        return F(tm.ffun("powi", 32, self.t, n))

    def root4(self):
        return F(tm.ffun("pow", 32, self.t, tm.f2b(0.25)))


def tof(x):
    if isinstance(x, F):
        return x
    if isinstance(x, I):
        return x.f()
    return F(float(x))


def pow2(n):
    """2^n as a float, n an integer (I)"""
    n = toi(n).t
    if isinstance(n, T):
        lo, hi = tm.srange(n, IW)
        if lo < -126 or hi > 127:
            return F(tm.ffun("exp2", 32, tm.sitofp(n, IW)))
    elif not -126 <= tm.sgn(n, IW) <= 127:
        return F(tm.ffun("exp2", 32, tm.sitofp(n, IW)))
    return F(tm.pow2(extract(n, 31, 0)))


def bits(t, hi, lo=None):
    """unsigned bit field of a term"""
    lo = hi if lo is None else lo
    return I(tm.zext(extract(t, hi, lo), hi - lo + 1, IW))


def sbits(t, hi, lo):
    """two's complement bit field"""
    return I(tm.sext(extract(t, hi, lo), hi - lo + 1, IW))


def word(i):
    return tm.var("ee%d" % i, 16)


def cells16be(call, buf, off, w):
    call.put(buf, off, extract(w, 15, 8), 1)
    call.put(buf, off + 1, extract(w, 7, 0), 1)


def image_call(fname, what, noi, nof, length=1664, wordf=word):
    c = Call(fname, "i64")
    ee = c.buf("ee", max(length, 2))
    for i in range(length // 2):
        cells16be(c, "ee", 2 * i, wordf(i))
    if length % 2:
        c.put("ee", length - 1, extract(wordf(length // 2), 15, 8), 1)
    oi, of = c.buf("oi", 4 * noi), c.buf("of", 4 * nof)
    for ty, v in (("p", ee), ("usize", length), ("u32", what), ("p", oi), ("p", of)):
        c.arg(ty, v)
    return c


class Reader:
    """walks the dump buffers in order"""

    def __init__(self, obs):
        self.o, self.ni, self.nf = obs, 0, 0

    def i(self):
        self.ni += 1
        return self.o.get("oi", 4 * (self.ni - 1), 4)

    def f(self):
        self.nf += 1
        return self.o.get("of", 4 * (self.nf - 1), 4)


def opt(g, name, r, spec, when_some):
    """an Option<f32> in the dump: flag must be `when_some`, the value spec if Some"""
    flag, val = r.i(), r.f()
    g.eq(name + ".is_some", flag, tm.zext(when_some, 1, 32), 32)
    if spec is not None:
        g.fl(name, val, tof(spec).t, when=when_some)
