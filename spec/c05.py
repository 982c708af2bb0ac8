from hamming import *
from cal641 import *
from check import hamming as _h

NOTES = ["the image is symbolic: 832 eleven-bit payloads, encoded with the datasheet's check bits; the second word of each split value carries at most "
         "five data bits, as the datasheet's arithmetic (32 x first + second) requires",
         "KsTo and alpha_CP scale exponents above 126 are outside the range of a single-precision float and are not claimed",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]
LOW = (18, 37, 41, 48)


def codeword(i):
    return encode(p11(i))


PRE = [eq(extract(p11(i), 10, 5), 0, 6) for i in LOW]


def scalars641(g, r, cal, some=None):
    g.eq("k_v_dd", r.i(), cal.k_v_dd().trunc(32), 32)
    g.eq("v_dd_25", r.i(), cal.v_dd_25().trunc(32), 32)
    g.eq("resolution", r.i(), cal.resolution().trunc(32), 32)
    for n in ("corner_temperatures", "k_s_to", "alpha_correction"):
        g.eq(n + ".len", r.i(), 8, 32)
    small = tm.ult(cal.u(52).t, 127, 64)
    ct, ks = cal.corner(), cal.k_s_to()
    for i in range(8):
        g.eq("corner_temperature[%d]" % i, r.i(), ct[i].trunc(32), 32)
        g.fl("k_s_to[%d]" % i, r.f(), ks[i].t, small)
        r.f()
    g.feq("v_dd_0", r.f(), tm.f2b(3.3))
    for n in ("k_v_ptat", "k_t_ptat", "v_ptat_25", "alpha_ptat", "gain", "k_s_ta"):
        g.fl(n, r.f(), getattr(cal, n)().t)
    for sp in (0, 1):
        g.eq("offset_cp[%d]" % sp, r.i(), cal.offset_cp(sp).trunc(32), 32)
        g.fl("alpha_cp[%d]" % sp, r.f(), cal.alpha_cp(sp).t, tm.ult(cal.u(46).t, 127, 64))
        g.fl("k_v_cp[%d]" % sp, r.f(), cal.k_v_cp().t)
        g.fl("k_ta_cp[%d]" % sp, r.f(), cal.k_ta_cp().t)
        opt(g, "cp_interleave_correction[%d]" % sp, r, None, 0)
        opt(g, "cp_chess_correction[%d]" % sp, r, None, 0)
    opt(g, "tgc", r, cal.tgc(), 1)
    opt(g, "emissivity", r, cal.emissivity(), 1)


def spec(g, obs):
    g.eq("result", obs.ret, 0, 64)
    scalars641(g, Reader(obs), Cal641())
    g.reach("end")


def harnesses(m):
    return [Harness("h641_cal.scalars", lambda: image_call("h641_cal", 64, 64, 64, wordf=codeword), spec, pre=PRE, model=641,
                    hints=dict(d_hints()), bounds="one image, all 832 payloads symbolic")]


def d_hints():
    import samples
    img = samples.image(641)

    def f(r, name):
        i = int(name[1:])
        v = img[i] & 0x7ff
        if r.random() < 0.5 or i in (46, 52):
            return v
        return r.getrandbits(5 if i in LOW else 11)
    yield "d", f
