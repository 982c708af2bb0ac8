from cal640 import *

NOTES = ["the whole 832-word image is symbolic (13312 bits); no assumption on its content",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]


def scalars640(g, r, cal):
    g.eq("k_v_dd", r.i(), cal.k_v_dd().trunc(32), 32)
    g.eq("v_dd_25", r.i(), cal.v_dd_25().trunc(32), 32)
    g.eq("resolution", r.i(), cal.resolution().trunc(32), 32)
    for n in ("corner_temperatures", "k_s_to", "alpha_correction"):
        g.eq(n + ".len", r.i(), 4, 32)
    ct, ks, ac = cal.corner(), cal.k_s_to(), cal.alpha_correction()
    for i in range(4):
        g.eq("corner_temperature[%d]" % i, r.i(), ct[i].trunc(32), 32)
        g.fl("k_s_to[%d]" % i, r.f(), ks[i].t)
        r.f()
    g.feq("v_dd_0", r.f(), tm.f2b(3.3))
    for n in ("k_v_ptat", "k_t_ptat", "v_ptat_25", "alpha_ptat", "gain", "k_s_ta"):
        g.fl(n, r.f(), getattr(cal, n)().t)
    for sp in (0, 1):
        g.eq("offset_cp[%d]" % sp, r.i(), cal.offset_cp(sp).trunc(32), 32)
        g.fl("alpha_cp[%d]" % sp, r.f(), cal.alpha_cp(sp).t)
        g.fl("k_v_cp[%d]" % sp, r.f(), cal.k_v_cp().t)
        g.fl("k_ta_cp[%d]" % sp, r.f(), cal.k_ta_cp().t)
        # interleave mode: only subpage 1 is corrected, by ILchessC1; chess mode never
        opt(g, "cp_interleave_correction[%d]" % sp, r, cal.c1() if sp else None, int(sp == 1))
        opt(g, "cp_chess_correction[%d]" % sp, r, None, 0)
    opt(g, "tgc", r, cal.tgc(), not_(cal.tgc_field().is_(0)))
    opt(g, "emissivity", r, None, 0)


def spec(g, obs):
    g.eq("result", obs.ret, 0, 64)
    scalars640(g, Reader(obs), Cal640())
    g.reach("end")


def harnesses(m):
    return [Harness("h640_cal.scalars", lambda: image_call("h640_cal", 64, 64, 64), spec, bounds="one image, all 832 words symbolic")]
