from common import *

NOTES = ["all 2^32 float bit patterns, all 2^8 bytes, all 2^64 integers; the eight rates and four resolutions are symbolic indices"]
V8, V32, V64, R3, R2 = tm.var("b", 8), tm.var("x", 32), tm.var("n", 64), tm.var("rate", 3), tm.var("res", 2)


def fcall(fn, ret, ty, v):
    return lambda: Call(fn, ret).arg(ty, v)


def partial(values, isv):
    """ok(index) exactly for the listed inputs, an error for everything else"""
    def f(g, o):
        ok = 0
        for i, v in values:
            c = isv(v)
            ok = or_(ok, c, 1)
            g.eq("accepts[%s]" % v, o.ret, i, 64, c)
        g.true("rejects", not_(eq(extract(o.ret, 39, 32), 0, 8)), not_(ok))
        g.reach("end")
    return f


def table(w, values, arg):
    def f(g, o):
        for i, v in enumerate(values):
            g.eq("value[%d]" % i, o.ret, v, w, eq(extract(arg, len(values).bit_length() - 2, 0), i, len(values).bit_length() - 1))
        g.reach("end")
    return f


def const(w, v):
    def f(g, o):
        g.eq("default", o.ret, v, w)
        g.reach("end")
    return f


RATES = [0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0]


def harnesses(m):
    b = "all values"
    f8 = lambda v: eq(V8, v, 8)
    f32 = lambda v: eq(V32, tm.f2b(v), 32)
    H = lambda n, c, s: Harness(n, c, s, bounds=b)
    rate, res = tm.zext(R3, 3, 32), tm.zext(R2, 2, 32)
    return [
        H("rate.from_f32", fcall("h_rate_from_f32", "i64", "f", V32), partial(list(enumerate(RATES)), f32)),
        H("rate.from_u8", fcall("h_rate_from_u8", "i64", "u8", V8), partial([(i, int(v)) for i, v in enumerate(RATES) if v >= 1], f8)),
        H("rate.to_f32", fcall("h_rate_to_f32", "f", "u32", rate), table(32, [tm.f2b(v) for v in RATES], R3)),
        H("rate.to_duration", fcall("h_rate_to_duration", "u64", "u32", rate), table(64, [int(1e9 / v) for v in RATES], R3)),
        H("rate.default", lambda: Call("h_rate_default", "u32"), const(32, 2)),
        H("resolution.from_u8", fcall("h_res_from_u8", "i64", "u8", V8), partial([(i, 16 + i) for i in range(4)], f8)),
        H("resolution.to_u8", fcall("h_res_to_u8", "u8", "u32", res), table(8, [16, 17, 18, 19], R2)),
        H("resolution.default", lambda: Call("h_res_default", "u32"), const(32, 2)),
        H("subpage.from", fcall("h_subpage_from", "i64", "usize", V64), partial([(0, 0), (1, 1)], lambda v: eq(V64, v, 64))),
        H("subpage.to", fcall("h_subpage_to", "u64", "u32", tm.zext(extract(R2, 0, 0), 1, 32)), table(64, [0, 1], R2)),
        H("pattern.from", fcall("h_pattern_from", "i64", "u8", V8), partial([(0, 0), (1, 1)], f8)),
        H("pattern.to", fcall("h_pattern_to", "u8", "u32", tm.zext(extract(R2, 0, 0), 1, 32)), table(8, [0, 1], R2)),
    ]
