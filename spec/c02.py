from cal640 import *

NOTES = ["the whole 832-word image is symbolic; all 768 pixels of both subpages are compared",
         "offsets outside the 16-bit range the API returns are only required not to panic (C23)",
         "for a pixel marked failed only Kv and the interleave correction are specified",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]

WHAT = {"offset": 1, "alpha": 2, "k_v": 4, "k_ta": 8}


def make(what):
    return lambda: image_call("h640_cal", what, 4096, 4096)


def spec_list(name):
    def spec(g, obs):
        g.eq("result", obs.ret, 0, 64)
        r = Reader(obs)
        cal = Cal640()
        for sp in (0, 1):
            for p in range(N):
                ok = not_(cal.failed(p))
                if name == "offset":
                    o = cal.offset(p)
                    fits = eq(tm.sext(o.trunc(16), 16, 64), o.t, 64)
                    g.eq("offset[%d,%d]" % (sp, p), r.i(), tm.sext(o.trunc(16), 16, 32), 32, and_(ok, fits, 1))
                else:
                    g.fl("%s[%d,%d]" % (name, sp, p), r.f(), getattr(cal, name)(p).t, 1 if name == "k_v" else ok)
            g.eq("len_%s[%d]" % (name, sp), r.i(), N, 32)
        g.reach("end")
    return spec


def spec_comp(g, obs):
    g.eq("result", obs.ret, 0, 64)
    r = Reader(obs)
    cal = Cal640()
    for p in range(N):
        opt(g, "interleave_correction[%d]" % p, r, cal.interleave(p), 1)
    g.eq("len_interleave", r.i(), N, 32)
    # chess mode: no pixel has a correction
    for p in range(N):
        opt(g, "chess_correction[%d]" % p, r, None, 0)
    g.eq("len_chess", r.i(), N, 32)
    g.reach("end")


def harnesses(m):
    hs = [Harness("h640_cal." + k, make(v), spec_list(k), bounds="one image, all 832 words symbolic") for k, v in WHAT.items()]
    hs.append(Harness("h640_cal.compensation", make(16), spec_comp, bounds="one image, all 832 words symbolic"))
    return hs
