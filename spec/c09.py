import cal640
import cal641
from common import *
from c05 import PRE, codeword, d_hints

NOTES = ["MLX90641 images are valid codewords (C07 covers the others); KsTo scale exponents above 126 on the MLX90641 are not claimed",
         "a zero factor 1 + KsTo x difference (division by zero below the basic range) is not claimed",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]


def make(n, small, cal):
    def spec(g, o):
        g.eq("result", o.ret, 0, 64)
        r = Reader(o)
        for _ in range(3):
            r.i()
        for x in ("corner_temperatures", "k_s_to", "alpha_correction"):
            g.eq(x + ".len", r.i(), n, 32)
        c = cal()
        ac = c.alpha_correction()
        for i in range(n):
            r.i()
            r.f()
            a = r.f()
            if i == c_basic(n):
                g.feq("alpha_correction[%d]" % i, a, tm.f2b(1.0))
            else:
                g.fl("alpha_correction[%d]" % i, a, ac[i].t, small)
        g.reach("end")
    return spec


def c_basic(n):
    return 1 if n == 4 else 2


def harnesses(m):
    small = tm.ult(tm.var("d52", 11), 127, 11)
    return [Harness("h640.alpha_correction", lambda: image_call("h640_cal", 64, 64, 64), make(4, 1, cal640.Cal640), bounds="one image, all 832 words symbolic"),
            Harness("h641.alpha_correction", lambda: image_call("h641_cal", 64, 64, 64, wordf=codeword), make(8, small, cal641.Cal641), pre=PRE,
                    model=641, hints=dict(d_hints()), bounds="one image, all 832 payloads symbolic")]
