"""Frame formulas of the datasheets (calculation of Vdd, Ta, the infrared image and the basic-range object temperature) over an abstract
calibration, and the stub calibration that hands the library those same abstract values."""
from common import *

NPIX = {640: 768, 641: 192}
COLS = {640: 32, 641: 16}
NCT = {640: 4, 641: 8}
BASIC = {640: 1, 641: 2}
SELF_HEATING = {640: 8.0, 641: 5.0}
PATTERNS = ("interleave", "chess")
K0 = 273.15


def member(model, sp, ap, p):
    """does pixel p belong to subpage sp? ap: 0 interleave, 1 chess"""
    if model == 641:
        return True
    row, col = p // 32, p % 32
    return (row + col) % 2 == sp if ap == 1 else row % 2 == sp


class Stub:
    """a calibration with arbitrary values: s_* scalars, off<sp>_<p> etc. per pixel"""

    def __init__(self, model, n=None, fixed=None):
        self.model = model
        self.n = NPIX[model] if n is None else n
        self.fixed = fixed or {}

    def var(self, name, w):
        if name in self.fixed:
            return self.fixed[name]
        return tm.var(name, w)

    def f(self, name):
        return F(self.var("s_" + name, 32))

    def i16(self, name):
        return I(tm.sext(self.var("s_" + name, 16), 16, IW))

    def flag(self, name):
        return self.var("s_" + name, 1)

    def resolution(self):
        return self.var("s_resolution", 2)

    def offset(self, sp, p):
        return I(tm.sext(self.var("off%d_%d" % (sp, p), 16), 16, IW))

    def px(self, name, sp, p):
        """alpha, k_v, k_ta (per subpage), comp (per access pattern)"""
        return F(self.var("%s%d_%d" % (name, sp, p), 32))

    # ---- layout handed to the library
    def put(self, c, buf="stub"):
        s = self
        ptr = c.buf(buf, 248)
        put = lambda off, v, n: c.put(buf, off, v, n)
        put(0, s.i16("k_v_dd").trunc(16), 2)
        put(2, s.i16("v_dd_25").trunc(16), 2)
        for i in (0, 1):
            put(4 + 2 * i, s.i16("offset_cp%d" % i).trunc(16), 2)
        put(8, tm.zext(s.resolution(), 2, 32), 4)
        put(12, tm.zext(s.flag("has_tgc"), 1, 32), 4)
        put(16, tm.zext(s.flag("has_emissivity"), 1, 32), 4)
        for i in range(4):
            put(20 + 4 * i, tm.zext(s.flag("has_cp_comp%d" % i), 1, 32), 4)
        for i in (0, 1):
            put(36 + 4 * i, tm.zext(s.flag("has_comp%d" % i), 1, 32), 4)
        for i, n in enumerate(("v_dd_0", "k_v_ptat", "k_t_ptat", "v_ptat_25", "alpha_ptat", "gain", "k_s_ta")):
            put(44 + 4 * i, s.f(n).t, 4)
        for i in range(8):
            put(72 + 4 * i, s.f("k_s_to%d" % i).t, 4)
            put(104 + 4 * i, s.f("alpha_correction%d" % i).t, 4)
        for k, n in enumerate(("alpha_cp", "k_v_cp", "k_ta_cp")):
            for i in (0, 1):
                put(136 + 8 * k + 4 * i, s.f("%s%d" % (n, i)).t, 4)
        put(160, s.f("tgc").t, 4)
        put(164, s.f("emissivity").t, 4)
        for i in range(4):
            put(168 + 4 * i, s.f("cp_comp%d" % i).t, 4)
        for i in range(8):
            put(184 + 2 * i, s.i16("corner%d" % i).trunc(16), 2)
        put(200, s.n, 8)
        n = s.n
        po = c.buf(buf + "_off", max(4 * n, 4))
        for sp in (0, 1):
            for p in range(n):
                c.put(buf + "_off", 2 * (sp * n + p), s.offset(sp, p).trunc(16), 2)
        c.put(buf, 208, po, 8)
        for k, name in enumerate(("alpha", "k_v", "k_ta", "comp")):
            b = buf + "_" + name
            q = c.buf(b, max(8 * n, 4))
            for sp in (0, 1):
                for p in range(n):
                    c.put(b, 4 * (sp * n + p), s.px(name, sp, p).t, 4)
            c.put(buf, 216 + 8 * k, q, 8)
        return ptr


# sane magnitudes for sampled numbers (they only steer which concrete values are tried)
HINTS = {"s_k_v_dd": (-4000, -2000), "s_v_dd_25": (-14000, -11000), "s_offset_cp": (-120, -20), "s_corner": (-40, 300), "s_v_dd_0": (3.2, 3.4),
         "s_k_v_ptat": (0.001, 0.01), "s_k_t_ptat": (40.0, 45.0), "s_v_ptat_25": (12000.0, 12500.0), "s_alpha_ptat": (8.5, 9.5),
         "s_gain": (5000.0, 7000.0), "s_k_s_ta": (-0.003, 0.003), "s_k_s_to": (-0.0009, -0.0001), "s_alpha_correction": (0.8, 1.2),
         "s_alpha_cp": (1e-9, 5e-9), "s_k_v_cp": (0.2, 0.5), "s_k_ta_cp": (0.001, 0.006), "s_tgc": (0.2, 1.0), "s_emissivity": (0.85, 0.99),
         "s_cp_comp": (-5.0, 5.0), "off": (-120, -20), "alpha": (7e-8, 2e-7), "k_v": (0.2, 0.6), "k_ta": (0.001, 0.008), "comp": (-5.0, 5.0),
         "px": (-2000, 2000), "r_vbe": (18500, 20000), "r_ptat": (1600, 1800), "r_vdd": (-13500, -12700), "r_gain": (5900, 6900),
         "r_cp": (-60, 60), "q_em": (0.8, 0.99), "q_rc": (0.5, 2.0), "q_tr": (10.0, 40.0), "q_ta": (20.0, 45.0), "dst": (-50.0, 50.0)}


class Ram:
    """the five auxiliary words"""

    def __init__(self, vbe, ptat, vdd, gain, cp):
        g = lambda w: I(tm.sext(w, 16, IW))
        self.raw = (vbe, ptat, vdd, gain, cp)
        self.vbe, self.ptat, self.vdd, self.gain, self.cp = map(g, self.raw)


def ram_vars():
    return Ram(*[tm.var("r_" + n, 16) for n in ("vbe", "ptat", "vdd", "gain", "cp")])


# ------------------------------------------------------------------ formulas

def delta_v(cal, vdd_pix):
    return (vdd_pix - cal.i16("v_dd_25")).f() / cal.i16("k_v_dd").f()


def supply(cal, rc, vdd_pix):
    """(rc * VDDpix - Vdd25) / KVdd + VDD0"""
    return (rc * vdd_pix.f() - cal.i16("v_dd_25").f()) / cal.i16("k_v_dd").f() + cal.f("v_dd_0")


def ptat_ratio(cal, ptat, vbe):
    return ptat.f() / (ptat.f() * cal.f("alpha_ptat") + vbe.f()) * 2.0 ** 18


def ambient_of(cal, art, dv):
    return (art / (1.0 + cal.f("k_v_ptat") * dv) - cal.f("v_ptat_25")) / cal.f("k_t_ptat") + 25.0


def t_ambient(cal, ram):
    return ambient_of(cal, ptat_ratio(cal, ram.ptat, ram.vbe), delta_v(cal, ram.vdd))


def gain_of(cal, ram):
    return cal.f("gain") / ram.gain.f()


class Common:
    def __init__(self, gain, vdd, em, ta):
        self.gain, self.vdd, self.em, self.ta = gain, vdd, em, ta


def common_of(cal, rc, em, ram):
    return Common(gain_of(cal, ram), supply(cal, rc, ram.vdd), em, t_ambient(cal, ram))


def ir(c, pix, off, kv, kta, has, comp):
    v = pix.f() * c.gain + pick(has, comp, 0.0) - off.f() * (1.0 + kta * (c.ta - 25.0)) * (1.0 + kv * (c.vdd - 3.3))
    return v / c.em


def infrared(cal, c, sp, ap, cp_raw):
    """-> function of (pixel, raw word)"""
    k = 2 * sp + ap
    cpv = ir(c, cp_raw, cal.i16("offset_cp%d" % sp), cal.f("k_v_cp%d" % sp), cal.f("k_ta_cp%d" % sp), cal.flag("has_cp_comp%d" % k), cal.f("cp_comp%d" % k))
    grad = cal.f("tgc") * cpv

    def one(p, raw):
        v = ir(c, raw, cal.offset(sp, p), cal.px("k_v", sp, p), cal.px("k_ta", sp, p), cal.flag("has_comp%d" % ap), cal.px("comp", ap, p))
        return pick(cal.flag("has_tgc"), v - grad, v)
    return one


def kelvin4(t):
    return (t + K0).powi(4)


def reflected(ta, tr, em):
    """radiation term from ambient and reflected temperature"""
    a, r = kelvin4(ta), kelvin4(tr)
    return F(ite(tm.fcmp("oeq", em.t, tm.f2b(1.0)), a.t, (r - (r - a) / em).t, 32))


def object_temp(v, alpha, tar, ks):
    sx = ks * (alpha.powi(3) * v + alpha.powi(4) * tar).root4()
    return (v / (alpha * (1.0 - ks * K0) + sx) + tar).root4() - K0


def temperature(cal, ta, em, has_tr, tr, sp):
    """-> function of (pixel, infrared value)"""
    m = cal.model
    tar = reflected(ta, pick(has_tr, tr, ta - SELF_HEATING[m]), em)
    sens = 1.0 + cal.f("k_s_ta") * (ta - 25.0)
    acp = cal.f("alpha_cp%d" % sp) * cal.f("tgc")
    ks = cal.f("k_s_to%d" % BASIC[m])

    def one(p, v):
        a = cal.px("alpha", sp, p)
        return object_temp(v, pick(cal.flag("has_tgc"), a - acp, a) * sens, tar, ks)
    return one


# ------------------------------------------------------------------ pipeline calls

def pix(p):
    return tm.var("px%d" % p, 16)


def raw(p):
    return I(tm.sext(pix(p), 16, IW))


def dst0(i):
    return tm.var("dst%d" % i, 32)


EM, RC, TR, TA, HTR = F(tm.var("q_em", 32)), F(tm.var("q_rc", 32)), F(tm.var("q_tr", 32)), F(tm.var("q_ta", 32)), tm.var("q_has_tr", 1)


def pipe_call(kind, cal, sp, ap, n, length=None, ram=None, em=EM):
    """kind: ir, ir2t, one; n: destination capacity; length: destination length passed (term or int)"""
    m = cal.model
    two = kind == "ir2t"
    c = Call("h%d_%s" % (m, kind), None if two else "f")
    ram = ram or ram_vars()
    st = cal.put(c)
    pp = c.buf("pipe", 32)
    for i, v in enumerate((em.t, RC.t, TR.t, tm.zext(HTR, 1, 32), TA.t)):
        c.put("pipe", 4 * i, v, 4)
    for i, v in enumerate(ram.raw):
        c.put("pipe", 20 + 2 * i, v, 2)
    c.arg("p", st).arg("p", pp)
    if not two:
        npx = NPIX[m]
        b = c.buf("px", 2 * npx)
        for p in range(npx):
            cells16be(c, "px", 2 * p, pix(p))
        c.arg("p", b).arg("usize", 2 * npx)
    d = c.buf("dst", max(4 * n, 4))
    for i in range(n):
        c.put("dst", 4 * i, dst0(i), 4)
    c.arg("u32", sp)
    c.arg("u32", ap)
    c.arg("p", d).arg("usize", n if length is None else length)
    return c
