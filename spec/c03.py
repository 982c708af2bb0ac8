from cal640 import *

NOTES = ["the whole 832-word image is symbolic; all 768 flags of both sets are compared"]


def spec(g, obs):
    g.eq("result", obs.ret, 0, 64)
    r = Reader(obs)
    cal = Cal640()
    g.eq("failed.len", r.i(), N, 32)
    g.eq("outlier.len", r.i(), N, 32)
    for p in range(N):
        g.eq("failed[%d]" % p, r.i(), tm.zext(cal.failed(p), 1, 32), 32)
        g.eq("outlier[%d]" % p, r.i(), tm.zext(cal.outlier(p), 1, 32), 32)
    g.reach("end")


def harnesses(m):
    return [Harness("h640_cal.flags", lambda: image_call("h640_cal", 32, 2048, 16), spec, bounds="one image, all 832 words symbolic")]
