from frame import *

NOTES = ["both computations are executed on the same symbolic calibration, frame, emissivity and optional reflected temperature, and compared with each other "
         "for every destination entry; every subpage and access pattern",
         "equality is over the reals with the fourth root as an uninterpreted function: NaN, overflow and zero denominators are outside the claim"]


def two_call(cal, sp, ap, n):
    def make():
        c = pipe_call("one", cal, sp, ap, n)
        c.fname, c.ret = "h%d_two" % cal.model, None
        b = c.buf("dst2", 4 * n)
        for i in range(n):
            c.put("dst2", 4 * i, dst0(i), 4)
        size = c.args.pop()
        c.arg("p", b)
        c.args.append(size)
        return c.arg("p", c.buf("t", 8))
    return make


def spec(n):
    def f(g, o):
        g.fl("ambient_temperature", o.get("t", 0, 4), o.get("t", 4, 4))
        for p in range(n):
            g.fl("pixel[%d]" % p, o.get("dst", 4 * p, 4), o.get("dst2", 4 * p, 4))
        g.reach("end")
    return f


def harnesses(m):
    hs = []
    for mod in (640, 641):
        for sp in (0, 1):
            for ap in (0, 1):
                n = NPIX[mod]
                hs.append(Harness("%d.sp%d.%s" % (mod, sp, PATTERNS[ap]), two_call(Stub(mod), sp, ap, n), spec(n), hints=HINTS, model=mod,
                                  bounds="one frame of %d pixels" % n))
    return hs
