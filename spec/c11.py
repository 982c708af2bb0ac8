from regs import *
from c10 import get, setter

NOTES = ["every device address, register value and error value; the bus returns arbitrary bytes or an arbitrary error",
         "the I2C configuration register keeps only its three documented flags (the library drops reserved bits), so only those are claimed"]
R, V, A = tm.var("raw", 16), tm.var("v", 32), tm.var("addr", 8)


def rd(kind):
    return lambda: Call("h_reg_read", "i64").arg("u32", REG[kind][0]).arg("u32", tm.zext(A, 8, 32))


def wr(kind):
    return lambda: Call("h_reg_write", "i64").arg("u32", REG[kind][0]).arg("u32", tm.zext(A, 8, 32)).arg("u16", R)


def bits_of(kind):
    return 0x7 if kind == "i2c" else 0xffff


def spec_rd(kind):
    def f(g, o):
        g.true("one_transfer", int(len(o.log) == 1))
        t = o.log[0]
        g.true("two_byte_read", int((t.kind, t.reg, t.n, len(t.raw)) == ("r", REG[kind][1], 2, 2)))
        g.eq("device", t.addr, tm.zext(A, 8, 32), 32)
        if t.failed:
            g.eq("error", o.ret, concat([(1, 32), (t.fault, 32)]), 64)
            g.reach("fault")
            return
        g.eq("kind", extract(o.ret, 63, 32), 0, 32)
        w = t.word()
        if kind == "i2c":
            g.eq("flags", extract(o.ret, 2, 0), extract(w, 2, 0), 3)
        else:
            g.eq("value", extract(o.ret, 31, 0), tm.zext(w, 16, 32), 32)
        g.reach("ok")
    return f


def spec_wr(kind):
    def f(g, o):
        g.true("one_transfer", int(len(o.log) == 1))
        t = o.log[0]
        g.true("four_byte_write", int((t.kind, t.reg, t.n) == ("w", REG[kind][1], 2)))
        g.eq("device", t.addr, tm.zext(A, 8, 32), 32)
        if kind == "i2c":
            g.eq("flags", extract(t.word(), 2, 0), extract(R, 2, 0), 3)
        else:
            g.eq("value", t.word(), R, 16)
        if t.failed:
            g.eq("error", o.ret, concat([(2, 32), (t.fault, 32)]), 64)
            g.reach("fault")
        else:
            g.eq("result", o.ret, 0, 64)
            g.reach("ok")
    return f


INVERTED = (1, 0, 1)     # "disable" bits read as "enabled" flags


def spec_get(g, o):
    g.eq("flags_round_trip", extract(o.ret, 2, 0), extract(R, 2, 0), 3)
    for i, inv in enumerate(INVERTED):
        g.eq("getter_" + I2C[i][0], o.get("out", 4 * i, 4), tm.zext(tm.xor(extract(R, i, i), inv, 1), 1, 32), 32)
    g.reach("end")


def spec_set(i):
    def f(g, o):
        for j, inv in enumerate(INVERTED):
            want = extract(R, j, j) if j != i else tm.xor(extract(V, 0, 0), inv, 1)
            g.eq("flag_" + I2C[j][0], extract(o.ret, j, j), want, 1)
        g.reach("end")
    return f


def spec_eq(g, o):
    g.eq("equality", o.ret, tm.zext(eq(extract(R, 2, 0), extract(V, 2, 0), 3), 1, 32), 32)
    g.reach("end")


def spec_default(g, o):
    g.eq("default", extract(o.ret, 2, 0), 0, 3)
    g.reach("end")


def harnesses(m):
    dev = lambda: Device(max_faults=1)
    hs = []
    for k in REG:
        b = "one transfer, which may fail with any error; all 2^16 values, all 2^8 addresses"
        hs.append(Harness("read." + k, rd(k), spec_rd(k), device=dev, want=("ok", "fault"), bounds=b))
        hs.append(Harness("write." + k, wr(k), spec_wr(k), device=dev, want=("ok", "fault"), bounds=b))
    hs.append(Harness("i2c.get", get("h_i2c_get", 3), spec_get, bounds="all 2^16 register values"))
    for i, (n, _, _) in enumerate(I2C):
        hs.append(Harness("i2c.set_" + n, setter("h_i2c_set", i), spec_set(i), bounds="all 2^16 register values and arguments"))
    hs.append(Harness("i2c.eq", lambda: Call("h_i2c_eq", "u32").arg("u16", R).arg("u16", extract(V, 15, 0)), spec_eq, bounds="all pairs"))
    hs.append(Harness("i2c.default", lambda: Call("h_i2c_default", "u16"), spec_default, bounds="constant"))
    return hs
