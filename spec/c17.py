import frame
from frame import *

NOTES = ["every calibration value, auxiliary RAM word, emissivity and resolution factor is symbolic; equality is over the reals (zero denominators, "
         "NaN and overflow to infinity are outside the claim)",
         "the ambient temperature uses the supply voltage difference without resolution correction, as the library documents"]


def args_call(fname, *args):
    def make():
        c = Call(fname, "f")
        for ty, v in args:
            c.arg(ty, CAL.put(c) if v is None else v)
        return c
    return make


CAL = Stub(640, n=0)
RAM = ram_vars()
ART, DV = F(tm.var("q_art", 32)), F(tm.var("q_dv", 32))


def one(name, want):
    def f(g, o):
        g.fl(name, o.ret, want.t)
        g.reach("end")
    return f


def common_call():
    c = Call("h_common", None)
    st = CAL.put(c)
    c.arg("p", st).arg("f", RC.t).arg("f", EM.t)
    r = c.buf("ram", 12)
    for i, v in enumerate(RAM.raw):
        c.put("ram", 2 * i, v, 2)
    c.arg("p", r).arg("p", c.buf("out", 16))
    return c


def spec_common(g, o):
    w = common_of(CAL, RC, EM, RAM)
    for i, (n, v) in enumerate((("gain", w.gain), ("v_dd", w.vdd), ("emissivity", w.em), ("t_a", w.ta))):
        g.fl(n, o.get("out", 4 * i, 4), v.t)
    g.reach("end")


def ret_call(kind, m):
    return lambda: pipe_call(kind, Stub(m, n=0), 0, 1, 0)


def spec_ret(m):
    def f(g, o):
        g.fl("ambient_temperature", o.ret, t_ambient(Stub(m, n=0), ram_vars()).t)
        g.reach("end")
    return f


def harnesses(m):
    h = dict(HINTS, q_art=(12000.0, 13500.0), q_dv=(-0.2, 0.2))
    b = "all calibrations, RAM words and arguments symbolic"
    mk = lambda n, call, spec: Harness(n, call, spec, hints=h, bounds=b)
    dv = DV
    v_dd = dv * RC + (RC - 1.0) * (CAL.i16("v_dd_25").f() / CAL.i16("k_v_dd").f()) + CAL.f("v_dd_0")
    hs = [mk("delta_v", args_call("h_delta_v", ("p", None), ("i16", RAM.raw[2])), one("delta_v", delta_v(CAL, RAM.vdd))),
          mk("v_dd", args_call("h_v_dd", ("p", None), ("f", RC.t), ("f", DV.t)), one("v_dd", v_dd)),
          mk("v_ptat_art", args_call("h_v_ptat_art", ("p", None), ("i16", RAM.raw[1]), ("i16", RAM.raw[0])),
             one("v_ptat_art", ptat_ratio(CAL, RAM.ptat, RAM.vbe))),
          mk("ambient", args_call("h_ambient", ("p", None), ("f", ART.t), ("f", DV.t)), one("ambient", ambient_of(CAL, ART, DV))),
          mk("common", common_call, spec_common)]
    for mm in (640, 641):
        for k in ("ir", "one"):
            hs.append(mk("%d.%s.returned" % (mm, k), ret_call(k, mm), spec_ret(mm)))
    return hs
