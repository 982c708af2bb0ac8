from regs import *

NOTES = ["all 65536 register values, all argument values; registers are built from and turned back into their two raw bytes"]
R, S, V = tm.var("raw", 16), tm.var("other", 16), tm.var("v", 32)


def get(fn, n):
    def f():
        c = Call(fn, "u16").arg("u16", R)
        return c.arg("p", c.buf("out", 4 * n))
    return f


def spec_get(fields):
    def f(g, o):
        g.eq("round_trip", o.ret, R, 16)
        for i, (n, h, l) in enumerate(fields):
            g.eq(n, o.get("out", 4 * i, 4), tm.zext(extract(R, h, l), h - l + 1, 32), 32)
        g.reach("end")
    return f


def setter(fn, op):
    return lambda: Call(fn, "u16").arg("u16", R).arg("u32", op).arg("u32", V)


def spec_set(name, h, l, val):
    def f(g, o):
        g.eq("set_" + name, o.ret, with_field(R, h, l, val if val is not None else extract(V, h - l, 0)), 16)
        g.reach("end")
    return f


def spec_eq(fields):
    def f(g, o):
        g.eq("equality", o.ret, tm.zext(same_fields(R, S, fields), 1, 32), 32)
        g.reach("end")
    return f


def spec_default(v):
    def f(g, o):
        g.eq("default", o.ret, v, 16)
        g.reach("end")
    return f


def harnesses(m):
    b = "all 2^16 register values"
    hs = [Harness("status.get", get("h_status_get", 4), spec_get(STATUS), bounds=b),
          Harness("control.get", get("h_control_get", 8), spec_get(CONTROL), bounds=b)]
    for op, n, val in ((0, "new_data", 0), (1, "overwrite", None), (2, "start", 1)):
        hs.append(Harness("status.set_" + n, setter("h_status_set", op), spec_set(n, *fld(STATUS, n), val), bounds=b))
    for op, (n, h, l) in enumerate(CONTROL):
        hs.append(Harness("control.set_" + n, setter("h_control_set", op), spec_set(n, h, l, None), bounds=b + " and all arguments"))
    hs.append(Harness("status.eq", lambda: Call("h_status_eq", "u32").arg("u16", R).arg("u16", S), spec_eq(STATUS), bounds="all pairs"))
    hs.append(Harness("control.eq", lambda: Call("h_control_eq", "u32").arg("u16", R).arg("u16", S), spec_eq(CONTROL), bounds="all pairs"))
    for i, v in ((0, 0x1901), (1, 0x0901)):
        hs.append(Harness("control.default%d" % (640 + i), lambda i=i: Call("h_control_default", "u16").arg("u32", i), spec_default(v), bounds="constant"))
    return hs
