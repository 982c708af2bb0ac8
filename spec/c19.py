from frame import *

NOTES = ["calibration, infrared values, emissivity, ambient and optional reflected temperature are symbolic; every subpage and access pattern",
         "equality is over the reals with the fourth root as an uninterpreted function: NaN, overflow and zero denominators are outside the claim"]


def spec_image(cal, sp, ap, n):
    def f(g, o):
        w = temperature(cal, TA, EM, HTR, TR, sp)
        for p in range(n):
            if member(cal.model, sp, ap, p):
                g.fl("t_o[%d]" % p, o.get("dst", 4 * p, 4), w(p, F(dst0(p))).t)
        g.reach("end")
    return f


def unit_call(fname, *args):
    def make():
        c = Call(fname, "f")
        for a in args:
            if a is None:
                c.arg("p", Stub(640, n=0).put(c))
            else:
                c.arg("f", a.t)
        return c
    return make


def one(name, want):
    def f(g, o):
        g.fl(name, o.ret, want.t)
        g.reach("end")
    return f


def spec_unit(g, o):
    """an emissivity of exactly 1 hides the reflected temperature"""
    g.feq("t_ar", o.ret, kelvin4(TA).t)
    g.reach("end")


def harnesses(m):
    V, A, TAR, KS = [F(tm.var(n, 32)) for n in ("q_v", "q_alpha", "q_tar", "q_ks")]
    hh = dict(HINTS, q_v=(10.0, 200.0), q_alpha=(7e-8, 2e-7), q_tar=(7e9, 1e10), q_ks=(-0.0009, -0.0001), dst=(-50.0, 50.0))
    b = "all arguments symbolic"
    hs = [Harness("t_ar", unit_call("h_t_ar", TA, TR, EM), one("t_ar", reflected(TA, TR, EM)), hints=hh, bounds=b),
          Harness("t_ar.black_body", unit_call("h_t_ar", TA, TR, F(1.0)), spec_unit, hints=hh, bounds=b),
          Harness("sensitivity", unit_call("h_sens", None, TA), one("sensitivity", 1.0 + Stub(640, n=0).f("k_s_ta") * (TA - 25.0)), hints=hh, bounds=b),
          Harness("per_pixel_temperature", unit_call("h_pixel_temp", V, A, TAR, KS), one("t_o", object_temp(V, A, TAR, KS)), hints=hh, bounds=b)]
    for mod in (640, 641):
        for sp in (0, 1):
            for ap in (0, 1):
                cal = Stub(mod)
                n = NPIX[mod]
                hs.append(Harness("%d.sp%d.%s" % (mod, sp, PATTERNS[ap]), lambda cal=cal, sp=sp, ap=ap, n=n: pipe_call("ir2t", cal, sp, ap, n),
                                  spec_image(cal, sp, ap, n), hints=HINTS, model=mod, bounds="one frame of %d pixels" % n))
    return hs
