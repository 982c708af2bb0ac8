from common import *

NOTES = ["all pairs of the four calibrated and four current resolutions, both cameras (the frame-level use of the factor is part of C17 and C13)"]
A, B = tm.var("calibrated", 2), tm.var("current", 2)


def make(model):
    return lambda: Call("h_resolution_correction", "f").arg("u32", model).arg("u32", tm.zext(A, 2, 32)).arg("u32", tm.zext(B, 2, 32))


def spec(g, o):
    for a in range(4):
        for b in range(4):
            g.feq("factor[%d,%d]" % (a, b), o.ret, tm.f2b(2.0 ** (a - b)), and_(eq(A, a, 2), eq(B, b, 2), 1))
    g.reach("end")


def harnesses(m):
    return [Harness("factor.mlx9064%d" % i, make(i), spec, bounds="all 16 pairs of resolutions") for i in (0, 1)]
