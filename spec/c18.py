from frame import *

NOTES = ["calibration (all per-pixel entries, both subpages, both access patterns), pixel words, auxiliary words, emissivity and resolution factor are symbolic; "
         "every subpage and access pattern",
         "equality is over the reals: NaN, overflow to infinity and zero denominators are outside the claim",
         "the compensation pixel's value is formed by the same formula, division by emissivity included, as the library documents"]
CAL = Stub(640, n=0)


def pixel_call():
    c = Call("h_pixel_v_ir", "f").arg("i16", tm.var("px0", 16))
    for n in ("gain", "vdd"):
        c.arg("f", tm.var("q_" + n, 32))
    c.arg("f", EM.t).arg("f", TA.t).arg("i16", tm.var("off0_0", 16))
    c.arg("f", tm.var("k_v0_0", 32)).arg("f", tm.var("k_ta0_0", 32)).arg("u32", tm.zext(tm.var("q_has", 1), 1, 32)).arg("f", tm.var("comp0_0", 32))
    return c


def spec_pixel(g, o):
    cm = Common(F(tm.var("q_gain", 32)), F(tm.var("q_vdd", 32)), EM, TA)
    s = lambda n: I(tm.sext(tm.var(n, 16), 16, IW))
    fv = lambda n: F(tm.var(n, 32))
    g.fl("per_pixel_v_ir", o.ret, ir(cm, s("px0"), s("off0_0"), fv("k_v0_0"), fv("k_ta0_0"), tm.var("q_has", 1), fv("comp0_0")).t)
    g.reach("end")


def spec_image(cal, sp, ap, n):
    def f(g, o):
        ram = ram_vars()
        w = infrared(cal, common_of(cal, RC, EM, ram), sp, ap, ram.cp)
        for p in range(n):
            if member(cal.model, sp, ap, p):
                g.fl("v_ir[%d]" % p, o.get("dst", 4 * p, 4), w(p, raw(p)).t)
        g.reach("end")
    return f


def harnesses(m):
    hs = [Harness("per_pixel_v_ir", pixel_call, spec_pixel, hints=dict(HINTS, q_gain=(0.9, 1.1), q_vdd=(3.2, 3.4)), bounds="one pixel, all arguments symbolic")]
    for mod in (640, 641):
        for sp in (0, 1):
            for ap in (0, 1):
                cal = Stub(mod)
                n = NPIX[mod]
                hs.append(Harness("%d.sp%d.%s" % (mod, sp, PATTERNS[ap]), lambda cal=cal, sp=sp, ap=ap, n=n: pipe_call("ir", cal, sp, ap, n),
                                  spec_image(cal, sp, ap, n), hints=HINTS, model=mod, bounds="one frame of %d pixels" % n))
    return hs
