import itertools
import os
from drv import *

NOTES = ["destination lengths in windows of 32 symbolic values: quick 0-63, the middle window, and the last window up to 31 entries more than there are "
         "pixels; thorough every length up to that; eight destination lengths for each frame operation of the driver; all subpages and access patterns; calibration and frame symbolic",
         "each entry must keep its old bits, or (pixel of the subpage, within the length) hold the same value as in a full-size destination, where it "
         "equals the formula over the reals (NaN, overflow and zero denominators outside the claim)"]


def members_call(mod, sp, ap):
    def make():
        c = Call("h%d_in_subpage" % mod, "u32").arg("u32", sp).arg("u32", ap)
        return c.arg("p", c.buf("out", NPIX[mod] + 8))
    return make


def spec_members(mod, sp, ap):
    def f(g, o):
        n = NPIX[mod]
        g.eq("count", o.ret, n, 32)
        for p in range(n):
            g.eq("member[%d]" % p, o.get("out", p, 1), int(member(mod, sp, ap, p)), 8)
        g.reach("end")
    return f


def value(kind, cal, sp, ap):
    ram = ram_vars()
    c = common_of(cal, RC, EM, ram)
    v = infrared(cal, c, sp, ap, ram.cp)
    t = temperature(cal, TA if kind == "ir2t" else c.ta, EM, HTR, TR, sp)
    if kind == "ir":
        return lambda p: v(p, raw(p))
    if kind == "ir2t":
        return lambda p: t(p, F(dst0(p)))
    return lambda p: t(p, v(p, raw(p)))


W = 5       # bits of destination length that are symbolic at a time
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
KINDS = ("ir", "ir2t", "one")


def length(base):
    return tm.add(base, tm.zext(tm.var("length", W), W, 64), 64)


def cut_call(kind, cal, sp, ap, base):
    """the frame processed with a full-size destination and with one of the symbolic length"""
    n = NPIX[cal.model]

    def make():
        c = pipe_call("one", cal, sp, ap, n)
        c.fname, c.ret = "h%d_cut" % cal.model, None
        b = c.buf("cut", 4 * (base + (1 << W)))
        for i in range(base + (1 << W)):
            c.put("cut", 4 * i, dst0(i), 4)
        c.args.insert(4, ("u32", KINDS.index(kind)))
        return c.arg("p", b).arg("usize", length(base))
    return make


def spec_cut(cal, sp, ap, base):
    def f(g, o):
        n = NPIX[cal.model]
        for p in range(base + (1 << W)):
            got = o.get("cut", 4 * p, 4)
            if p < n and member(cal.model, sp, ap, p):
                inside = tm.ult(p, length(base), 64)
                g.eq("beyond[%d]" % p, got, dst0(p), 32, not_(inside))
                g.eq("written[%d]" % p, got, o.get("dst", 4 * p, 4), 32, inside)
            else:
                g.eq("untouched[%d]" % p, got, dst0(p), 32)
        g.reach("end")
    return f


def spec_full(kind, cal, sp, ap, n):
    def f(g, o):
        w = value(kind, cal, sp, ap)
        for p in range(n):
            got = o.get("dst", 4 * p, 4)
            if p < NPIX[cal.model] and member(cal.model, sp, ap, p):
                g.fl("written[%d]" % p, got, w(p).t)
            else:
                g.eq("untouched[%d]" % p, got, dst0(p), 32)
        g.reach("end")
    return f


LENGTHS = {640: (0, 1, 31, 33, 100, 700, 768, 770), 641: (0, 1, 31, 33, 65, 150, 192, 194)}


def spec_drv(cal, op, sp, ap, n):
    """a frame delivered by the driver into a destination of n entries"""
    def f(g, o):
        r = Run(o, 1)
        g.true("built", int(r.built))
        res, log = r.steps[0]
        ram = [t for t in log if t.kind == "r" and t.reg is not None and t.reg < 0x2400]
        if op == 30 and not ram:
            for p in range(n):
                g.eq("untouched[%d]" % p, o.get("dst", 4 * p, 4), tm.var("dst%d" % p, 32), 32)
            g.eq("result", res, ok(0), 64)
            return
        g.eq("result", res, ok(1 if op == 30 else 0), 64)
        s = FrameSpec(cal, log, sp, ap, rc_of(cal, control_words(r.before(0))[-1]), stored_emissivity(cal))
        s.goals(g, o, "dst", n, s.raw if op == 27 else lambda p: s.temp(p, 0, F(0)))
        g.reach("end")
    return f


def harnesses(m):
    hs = []
    for mod in (640, 641):
        cal = Stub(mod)
        for op in (27, 28, 29, 30):
            for i, n in enumerate(LENGTHS[mod]):
                for sp, ap in itertools.product((0, 1), (0, 1)) if THOROUGH else [((i + op) % 2, (i // 2 + op) % 2)]:
                    steps = [Step(op, sp if op < 29 else 0, 0, "dst", n)]
                    hs.append(Harness("driver.%s.%d.%d.sp%d.%s" % (NAMES[op], n, mod, sp, PATTERNS[ap]), script(mod, steps, cal, dict(dst=n)),
                                      spec_drv(cal, op, sp, ap, n), device=Device, hints=HINTS, model=mod, fix={"control_0": {12: ap}, "status_0": {0: sp}},
                                      bounds="a driver frame, destination of %d entries" % n))
    for mod in (640, 641):
        for sp in (0, 1):
            for ap in (0, 1):
                t = "%d.sp%d.%s" % (mod, sp, PATTERNS[ap])
                hs.append(Harness("members." + t, members_call(mod, sp, ap), spec_members(mod, sp, ap), model=mod, bounds="all pixels"))
                n = NPIX[mod]
                cal = Stub(mod)
                for kind in KINDS:
                    hs.append(Harness("%s.full.%s" % (kind, t), lambda k=kind, cal=cal, sp=sp, ap=ap, n=n: pipe_call(k, cal, sp, ap, n + 2),
                                      spec_full(kind, cal, sp, ap, n + 2), hints=HINTS, model=mod, bounds="destination of all pixels plus two"))
                    for b in range(0, n + 1, 1 << W):
                        if not THOROUGH and b not in (0, 32, n // 2, n - 32, n):
                            continue
                        hs.append(Harness("%s.%d.%s" % (kind, b, t), cut_call(kind, cal, sp, ap, b), spec_cut(cal, sp, ap, b), hints=HINTS, model=mod,
                                          bounds="destination length %d to %d" % (b, b + (1 << W) - 1)))
    return hs
