from frame import *

NOTES = ["every device address, RAM content and previous buffer content; both subpages and access patterns of both cameras; the bus does not fail (faults: C22)",
         "a word read more than once counts with its last value; in chess mode the other subpage's pixels may be transferred or not"]
A = tm.var("addr", 8)
GUARD = 16
AUX = {640: (0x700, 0x720, 0x72A, 0x70A, (0x708, 0x728)), 641: (0x580, 0x5A0, 0x5AA, 0x58A, (0x588, 0x5A8))}
NAMES = ("vbe", "ptat", "vdd", "gain", "cp")


def aux(model, sp):
    a = AUX[model]
    return a[:4] + (a[4][sp],)


def address(model, sp, p):
    """RAM address of pixel p when read for subpage sp"""
    return 0x400 + p if model == 640 else 0x400 + p // 32 * 64 + 32 * sp + p % 32


def allowed(model, sp, ap):
    """RAM words a frame read of the subpage may touch"""
    n = NPIX[model]
    if model == 640 and ap == 0:
        ps = [p for p in range(n) if p // 32 % 2 == sp]
    else:
        ps = range(n)
    return {address(model, sp, p) for p in ps} | set(aux(model, sp))


def last_read(log, word):
    r = None
    for t in log:
        if t.kind == "r" and t.reg is not None and not t.failed and t.reg <= word and 2 * (word - t.reg) + 2 <= t.n:
            r = t.word(word - t.reg)
    return r


def call(model, sp, ap):
    def make():
        n = 2 * NPIX[model]
        c = Call("h%d_read_ram" % model, "i64").arg("u32", tm.zext(A, 8, 32)).arg("u32", sp).arg("u32", ap)
        b = c.buf("buf", n + GUARD)
        for i in range(n + GUARD):
            c.put("buf", i, tm.var("old%d" % i, 8), 1)
        return c.arg("p", b).arg("usize", n).arg("p", c.buf("out", 20))
    return make


def frame_reads(g, log, model, sp, ap, addr, what=""):
    """the transfers of log are those of one frame"""
    ok = allowed(model, sp, ap)
    g.true(what + "only_reads", int(all(t.kind == "r" and t.reg is not None and len(t.raw) == 2 for t in log)))
    g.true(what + "only_its_words", int(all(t.reg + i in ok for t in log if t.reg is not None for i in range((t.n + 1) // 2))))
    for i, t in enumerate(log):
        g.eq(what + "device[%d]" % i, t.addr, addr, 32)


def spec(model, sp, ap):
    def f(g, o):
        n = NPIX[model]
        g.eq("result", o.ret, 0, 64)
        frame_reads(g, o.log, model, sp, ap, tm.zext(A, 8, 32))
        for p in range(n):
            if member(model, sp, ap, p):
                w = last_read(o.log, address(model, sp, p))
                g.true("transferred[%d]" % p, int(w is not None))
                if w is not None:
                    g.eq("pixel[%d]" % p, concat([(o.get("buf", 2 * p, 1), 8), (o.get("buf", 2 * p + 1, 1), 8)]), w, 16)
        for i in range(GUARD):
            g.eq("beyond[%d]" % i, o.get("buf", 2 * n + i, 1), tm.var("old%d" % (2 * n + i), 8), 8)
        for i, (a, nm) in enumerate(zip(aux(model, sp), NAMES)):
            w = last_read(o.log, a)
            g.true("read." + nm, int(w is not None))
            if w is not None:
                g.eq(nm, o.get("out", 4 * i, 4), tm.sext(w, 16, 32), 32)
        g.reach("end")
    return f


def harnesses(m):
    return [Harness("%d.sp%d.%s" % (mod, sp, PATTERNS[ap]), call(mod, sp, ap), spec(mod, sp, ap), model=mod, device=Device, bounds="one frame read")
            for mod in (640, 641) for sp in (0, 1) for ap in (0, 1)]
