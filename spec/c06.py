from cal641 import *
from c05 import PRE, codeword, d_hints

NOTES = ["the image is symbolic: 832 eleven-bit payloads, encoded with the datasheet's check bits; the second word of each split value carries at most "
         "five data bits",
         "all 192 pixels of both subpages are compared; offsets outside the 16-bit range the API returns are only required not to panic (C23)",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]
WHAT = {"offset": 1, "alpha": 2, "k_v": 4, "k_ta": 8}


def spec_list(name, make=Cal641):
    def spec(g, obs):
        g.eq("result", obs.ret, 0, 64)
        r = Reader(obs)
        cal = make()
        for sp in (0, 1):
            for p in range(N):
                ok = not_(cal.failed(p))
                if name == "offset":
                    o = cal.offset(sp, p)
                    # 16-bit results; the scale field reaches 63, so bound it where the sum cannot wrap the reference arithmetic
                    sc = bits(cal.p(16), 10, 5)
                    fits = and_(tm.ult(sc.t, 31, 64), eq(tm.sext(o.trunc(16), 16, 64), o.t, 64), 1)
                    g.eq("offset[%d,%d]" % (sp, p), r.i(), tm.sext(o.trunc(16), 16, 32), 32, and_(ok, fits, 1))
                else:
                    g.fl("%s[%d,%d]" % (name, sp, p), r.f(), getattr(cal, name)(p).t, ok)
            g.eq("len_%s[%d]" % (name, sp), r.i(), N, 32)
        g.reach("end")
    return spec


def spec_comp(g, obs):
    g.eq("result", obs.ret, 0, 64)
    r = Reader(obs)
    for ap in ("interleave", "chess"):
        for p in range(N):
            opt(g, "%s_correction[%d]" % (ap, p), r, None, 0)
        g.eq("len_%s" % ap, r.i(), N, 32)
    g.reach("end")


def spec_flags(g, obs, cal=None):
    g.eq("result", obs.ret, 0, 64)
    r = Reader(obs)
    cal = cal or Cal641()
    g.eq("failed.len", r.i(), N, 32)
    g.eq("outlier.len", r.i(), N, 32)
    for p in range(N):
        f = tm.zext(cal.failed(p), 1, 32)
        g.eq("failed[%d]" % p, r.i(), f, 32)
        g.eq("outlier[%d]" % p, r.i(), f, 32)
    g.reach("end")


def harnesses(m):
    b = "one image, all 832 payloads symbolic"
    mk = lambda what: lambda: image_call("h641_cal", what, 2048, 1024, wordf=codeword)
    hs = [Harness("h641_cal." + k, mk(v), spec_list(k), pre=PRE, model=641, hints=dict(d_hints()), bounds=b) for k, v in WHAT.items()]
    hs.append(Harness("h641_cal.compensation", mk(16), spec_comp, pre=PRE, model=641, hints=dict(d_hints()), bounds=b))
    hs.append(Harness("h641_cal.flags", mk(32), spec_flags, pre=PRE, model=641, hints=dict(d_hints()), bounds=b))
    return hs
