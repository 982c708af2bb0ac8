from cal640 import *
from c01 import scalars640
from c05 import PRE, codeword, d_hints, scalars641
from cal641 import Cal641
import c02
import c03
import c06

NOTES = ["bus: every EEPROM content (MLX90641: valid codewords), every device address, and every outcome of the transfer (success, or a failure with any "
         "error value)",
         "short buffers: every length from 0 to 1663 at once (symbolic length, symbolic content)",
         "longer buffers: 1665, 1666, 1700 and 2048 bytes (concrete lengths, symbolic content), compared on every shared and per-pixel value listed "
         "in the harness names"]
ADDR = tm.var("addr", 7)
LEN = tm.var("len", 11)


def bus_call(fn):
    def f():
        c = Call(fn, "i64")
        oi, of = c.buf("oi", 4 * 64), c.buf("of", 4 * 64)
        return c.arg("u32", tm.zext(ADDR, 7, 32)).arg("p", oi).arg("p", of)
    return f


def spec_bus(scalars, cal):
    def f(g, o):
        g.eq("transactions", len(o.log), 1, 32)
        if len(o.log) != 1:
            return
        op = o.log[0]
        g.eq("kind", int(op.kind == "r"), 1, 1)
        g.eq("device address", op.addr, tm.zext(ADDR, 7, 32), 32)
        g.eq("memory address", op.reg if op.reg is not None else 0, 0x2400, 16)
        g.eq("bytes", op.n, 1664, 32)
        if op.failed:
            g.eq("error", o.ret, concat([(1, 32), (op.fault, 32)]), 64)
            g.reach("fault")
        else:
            g.eq("result", o.ret, 0, 64)
            scalars(g, Reader(o), cal())
            g.reach("end")
    return f


def short_call(fn):
    def f():
        c = image_call(fn, 64, 64, 64)
        c.args[1] = ("usize", tm.zext(LEN, 11, 64))
        return c
    return f


def spec_short(g, o):
    g.true("short data is an error", not_(eq(extract(o.ret, 39, 32), 0, 8)))
    g.reach("end")


def sc(scalars, cal):
    def f(g, o):
        g.eq("result", o.ret, 0, 64)
        scalars(g, Reader(o), cal())
        g.reach("end")
    return f


def junk(base):
    return lambda i: base(i) if i < 832 else tm.var("junk%d" % i, 16)


def harnesses(m):
    hs = []
    for fn, scalars, cal, model, kw in (("h640_cal", scalars640, Cal640, 640, {}),
                                        ("h641_cal", scalars641, Cal641, 641, dict(pre=PRE, hints=dict(d_hints()), ee=codeword))):
        wf = kw.get("ee", word)
        hs.append(Harness(fn + "_bus", bus_call(fn + "_bus"), spec_bus(scalars, cal), device=lambda: Device(max_faults=1), want=("end", "fault"), model=model,
                          bounds="one load; whole EEPROM, address and fault symbolic", **kw))
        short = [tm.ult(LEN, 1664, 11)]
        hs.append(Harness(fn + ".short", short_call(fn), spec_short, pre=short, model=model, hints={"len": (0, 1663)}, bounds="all lengths 0..1663"))
        lists = [("offset", 1), ("alpha", 2)]
        for ln, parts in ((1665, ["scalars"]), (1666, ["scalars", "offset", "alpha", "k_v", "k_ta", "flags"]), (1700, ["scalars", "offset"]), (2048, ["scalars", "offset"])):
            for p in parts:
                what = {"scalars": 64, "offset": 1, "alpha": 2, "k_v": 4, "k_ta": 8, "flags": 32}[p]
                if p == "scalars":
                    sp = sc(scalars, cal)
                elif p == "flags":
                    sp = c03.spec if model == 640 else c06.spec_flags
                else:
                    sp = (c02 if model == 640 else c06).spec_list(p)
                hs.append(Harness("%s.length%d.%s" % (fn, ln, p), lambda ln=ln, what=what, fn=fn, wf=wf: image_call(fn, what, 4096, 4096, ln, junk(wf)), sp,
                                  model=model, bounds="%d bytes, all symbolic" % ln, **{k: v for k, v in kw.items() if k != "ee"}))
    return hs
