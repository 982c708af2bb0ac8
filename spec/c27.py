import itertools
import cal640
import cal641
from drv import *
from c05 import LOW, PRE, codeword, d_hints

NOTES = ["a driver constructed from the EEPROM on the bus, then one frame; every EEPROM image (MLX90641: every error-free one whose split values carry five low bits), RAM, "
         "control and status content and address; subpage, access pattern and operation by case split; the bus does not fail (faults: C22)",
         "pixels whose EEPROM entry marks them failed, whose offset does not fit 16 bits, and scale exponents beyond a float are outside the claim",
         "pixels are compared over the reals; overflow, NaN and zero denominators are outside the claim"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def tgc_hint(r, name):
    """the sample image has no temperature gradient coefficient; try images that do"""
    import samples
    return r.getrandbits(16) | 1 if name == "ee60" else samples.image(640)[int(name[2:])]


class Image:
    """the calibration formulas of an EEPROM image under the names the frame formulas use"""

    def __init__(self, model):
        self.model = model
        self.cal = cal640.Cal640() if model == 640 else cal641.Cal641()
        self.memo = {}

    def get(self, name, *a):
        k = (name,) + a
        if k not in self.memo:
            self.memo[k] = getattr(self.cal, name)(*a)
        return self.memo[k]

    def f(self, name):
        if name == "v_dd_0":
            return F(3.3)
        if name == "emissivity":
            return self.get(name) if self.model == 641 else F(0.0)
        for p in ("k_s_to", "alpha_correction"):
            if name.startswith(p):
                return self.get(p)[int(name[len(p):])]
        if name.startswith("alpha_cp"):
            return self.get("alpha_cp", int(name[-1]))
        if name[:-1] in ("k_v_cp", "k_ta_cp"):
            return self.get(name[:-1])
        if name.startswith("cp_comp"):
            return self.get("c1") if self.model == 640 else F(0.0)
        return self.get(name)

    def i16(self, name):
        if name.startswith("offset_cp"):
            return self.get("offset_cp", int(name[-1]))
        return self.get(name)

    def flag(self, name):
        if name == "has_tgc":
            return not_(self.get("tgc_field").is_(0)) if self.model == 640 else 1
        if name == "has_emissivity":
            return int(self.model == 641)
        if name.startswith("has_cp_comp"):
            return int(self.model == 640 and name[-1] == "2")        # interleave mode, subpage 1
        return int(self.model == 640 and name == "has_comp0")

    def resolution(self):
        return self.get("resolution").trunc(2)

    def offset(self, sp, p):
        return self.get("offset", p) if self.model == 640 else self.get("offset", sp, p)

    def px(self, name, sp, p):
        if name == "comp":
            return self.get("interleave", p) if self.model == 640 else F(0.0)
        return self.get(name, p)

    def claimed(self, sp, p):
        o = self.offset(sp, p)
        c = and_(not_(self.get("failed", p)), eq(tm.sext(o.trunc(16), 16, 64), o.t, 64), 1)
        if self.model == 641:
            for t in (tm.ult(self.get("u", 52).t, 127, 64), tm.ult(self.get("u", 46).t, 127, 64), tm.ult(bits(self.cal.p(16), 10, 5).t, 31, 64)):
                c = and_(c, t, 1)
        return c


def spec(cal, op, sp, ap, n):
    def f(g, o):
        r = Run(o, 1)
        g.true("built", int(r.built))
        if not r.built:
            return
        res, log = r.steps[0]
        if op == 30 and len(log) == 1:
            g.eq("result", res, ok(0), 64)
            return
        g.eq("result", res, ok(1 if op == 30 else 0), 64)
        s = FrameSpec(cal, log, sp, ap, rc_of(cal, control_words(r.before(0))[-1]), stored_emissivity(cal))
        g.true("aux_read", int(s.ok))
        if not s.ok:
            return
        val = s.raw if op == 27 else lambda p: s.temp(p, 0, F(0))
        for p in range(n):
            got = o.get("dst", 4 * p, 4)
            if not member(cal.model, sp, ap, p):
                g.eq("untouched[%d]" % p, got, tm.var("dst%d" % p, 32), 32)
                continue
            g.true("read[%d]" % p, int(s.word(p) is not None))
            if s.word(p) is not None:
                g.fl("pixel[%d]" % p, got, val(p).t, cal.claimed(sp, p))
        g.reach("end")
    return f


def harnesses(m):
    hs = []
    for mod in (640, 641):
        cal = Image(mod)
        n = NPIX[mod]
        for op, sp, ap in itertools.product((27, 28, 29, 30), (0, 1), (0, 1)):
            if not THOROUGH and (op == 29 and sp == ap or op == 30 and sp != ap):
                continue
            kw = {} if mod == 640 else dict(ee=codeword, pre=PRE)
            hints = dict(HINTS, **dict(d_hints())) if mod == 641 else dict(HINTS, ee60=tgc_hint)
            hs.append(Harness("%d.%s.sp%d.%s" % (mod, NAMES[op], sp, PATTERNS[ap]), script(mod, [Step(op, sp if op < 29 else 0, 0, "dst", n)], None, dict(dst=n)),
                              spec(cal, op, sp, ap, n), device=Device, hints=hints, model=mod, fix={"control_0": {12: ap}, "status_0": {0: sp}},
                              bounds="construction from the EEPROM, one frame, all pixels", **kw))
    return hs
