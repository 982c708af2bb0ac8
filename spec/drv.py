"""Driver scripts: a driver over the symbolic bus, built from a stub calibration or from the EEPROM on the bus, performing a list of operations."""
from frame import *
from regs import STATUS, CONTROL, fld, with_field

A = tm.var("addr", 8)
DEVICE = tm.zext(A, 8, 32)
SREG, CREG = 0x8000, 0x800D
# operation code -> (register, field); setters have a requested value
GETTERS = {0: ("status", "subpage"), 3: ("status", "overwrite"), 5: ("control", "use_subpages"), 7: ("control", "data_hold"),
           9: ("control", "subpage_repeat"), 11: ("control", "subpage"), 13: ("control", "frame_rate"), 15: ("control", "resolution"),
           17: ("control", "access_pattern")}
SETTERS = {4: ("status", "overwrite"), 6: ("control", "use_subpages"), 8: ("control", "data_hold"), 10: ("control", "subpage_repeat"),
           12: ("control", "subpage"), 14: ("control", "frame_rate"), 16: ("control", "resolution"), 18: ("control", "access_pattern")}
NAMES = {0: "last_measured_subpage", 1: "data_available", 2: "reset_data_available", 3: "overwrite_enabled", 4: "set_overwrite_enabled",
         5: "subpages_enabled", 6: "set_use_subpages", 7: "data_hold_enabled", 8: "set_data_hold", 9: "subpage_repeat", 10: "set_subpage_repeat",
         11: "selected_subpage", 12: "set_subpage", 13: "frame_rate", 14: "set_frame_rate", 15: "resolution", 16: "set_resolution",
         17: "access_pattern", 18: "set_access_pattern", 19: "effective_emissivity", 20: "override_emissivity", 21: "use_default_emissivity",
         22: "reflected_temperature", 23: "set_reflected_temperature", 24: "ambient_temperature", 25: "height", 26: "width",
         27: "raw_image_subpage", 28: "image_subpage", 29: "image", 30: "image_if_ready", 31: "synchronize"}
SETTINGS = list(range(19))
NEWDATA = fld(STATUS, "new_data")
FIELDS = {"status": STATUS, "control": CONTROL}
REGADDR = {"status": SREG, "control": CREG}


def bounds_of(reg, name):
    return fld(FIELDS[reg], name)


class Step:
    def __init__(self, op, arg=0, arg2=0, dst=None, n=0):
        self.op, self.arg, self.arg2, self.dst, self.n = op, arg, arg2, dst, n


def script(model, steps, stub=None, dsts=None):
    """dsts: name -> number of entries (initial content dst<i>)"""
    def make():
        c = Call("h%d_drv%s" % (model, "_stub" if stub else ""), "i64")
        if stub:
            c.arg("p", stub.put(c))
        c.arg("u32", DEVICE)
        ops = c.buf("ops", 32 * len(steps))
        spare = c.buf("spare", 8)
        ptrs = {}
        for name, k in (dsts or {}).items():
            ptrs[name] = c.buf(name, 4 * k)
            for i in range(k):
                c.put(name, 4 * i, tm.var("%s%d" % (name, i), 32), 4)
        for k, s in enumerate(steps):
            for off, v in ((0, s.op), (4, s.arg), (8, s.arg2), (12, 0)):
                c.put("ops", 32 * k + off, v, 4)
            c.put("ops", 32 * k + 16, ptrs[s.dst] if s.dst else spare, 8)
            c.put("ops", 32 * k + 24, s.n, 8)
        c.arg("p", ops).arg("usize", len(steps))
        return c.arg("p", c.buf("out", 8 * (2 * len(steps) + 1)))
    return make


def cint(x):
    if not isinstance(x, int):
        raise ValueError("the number of transactions is not fixed on this path")
    return x


class Run:
    """what happened: constructor transactions, then per step its result and transactions"""

    def __init__(self, o, n):
        self.built = True
        if not isinstance(o.ret, int) or o.ret != 0:
            self.built = False
        self.ctor = o.log[:cint(o.get("out", 0, 8))]
        self.steps = []
        at = len(self.ctor)
        if self.built:
            for k in range(n):
                to = cint(o.get("out", 8 * (2 * k + 2), 8))
                self.steps.append((o.get("out", 8 * (2 * k + 1), 8), o.log[at:to]))
                at = to
        self.rest = o.log[at:]

    def before(self, k):
        """all transactions before step k"""
        return self.ctor + [t for _, l in self.steps[:k] for t in l]


def ok(v=0, w=32):
    return concat([(0, 32), (tm.zext(v, w, 32), 32)])


def bus_error(t):
    return concat([(1 if t.kind == "r" else 2, 32), (t.fault, 32)])


def is_reg_read(t, reg):
    return (t.kind, t.reg, t.n, len(t.raw)) == ("r", REGADDR[reg], 2, 2)


def is_reg_write(t, reg):
    return (t.kind, t.reg, t.n) == ("w", REGADDR[reg], 2)


def check_setting(g, op, arg, res, log, what=""):
    """result and transactions of settings operation `op` (0..18) against the register contents"""
    for i, t in enumerate(log):
        g.eq(what + "device[%d]" % i, t.addr, DEVICE, 32)
    reg = (GETTERS.get(op) or SETTERS.get(op) or ("status",))[0]
    g.true(what + "reads_once_first", int(len(log) >= 1 and is_reg_read(log[0], reg)))
    if not log or not is_reg_read(log[0], reg):
        return "odd"
    if log[0].failed:
        g.true(what + "nothing_after_error", int(len(log) == 1))
        g.eq(what + "read_error", res, bus_error(log[0]), 64)
        return "read_error"
    w = log[0].word()
    if op in GETTERS or op == 1:
        g.true(what + "one_transfer", int(len(log) == 1))
        if op == 1:
            new = extract(w, *NEWDATA)
            v = tm.ite(new, tm.zext(extract(w, 0, 0), 1, 32), 2, 32)
            g.eq(what + "value", res, ok(v), 64)
        else:
            h, l = bounds_of(*GETTERS[op])
            g.eq(what + "value", res, ok(extract(w, h, l), h - l + 1), 64)
        return "value"
    if op == 2:
        h, l = NEWDATA
        want, differs = with_field(w, h, l, 0), None
    else:
        h, l = bounds_of(*SETTERS[op])
        want = with_field(w, h, l, extract(arg, h - l, 0))
        differs = not_(eq(extract(w, h, l), extract(arg, h - l, 0), h - l + 1))
    if len(log) == 1:
        if differs is None:
            g.true(what + "written", 0)
        else:
            g.true(what + "unchanged_field", not_(differs))
        g.eq(what + "result", res, 0, 64)
        return "unchanged"
    t = log[1]
    g.true(what + "one_write", int(len(log) == 2 and is_reg_write(t, reg)))
    if not is_reg_write(t, reg):
        return "odd"
    if differs is not None:
        g.true(what + "changed_field", differs)
    g.eq(what + "written", t.word(), want, 16)
    if t.failed:
        g.eq(what + "write_error", res, bus_error(t), 64)
        return "write_error"
    g.eq(what + "result", res, 0, 64)
    return "written"


# ------------------------------------------------------------------ frames

from c15 import address, aux, last_read, frame_reads  # noqa: E402


def stored_emissivity(cal):
    return pick(cal.flag("has_emissivity"), cal.f("emissivity"), F(tm.f2b(1.0)))


def control_words(log):
    """the control register contents the driver read from, or successfully wrote to, the camera, in order"""
    return [t.word() for t in log if not t.failed and t.reg == CREG and t.n == 2]


def rc_of(cal, control):
    """resolution correction: 2^(calibrated - current)"""
    return pow2(I(tm.zext(cal.resolution(), 2, IW)) - I(tm.zext(extract(control, 11, 10), 2, IW)))


class FrameSpec:
    """what one frame read (transactions `log`) has to produce"""

    def __init__(self, cal, log, sp, ap, rc, em):
        self.cal, self.log, self.sp, self.ap = cal, log, sp, ap
        m = cal.model
        ws = [last_read(log, a) for a in aux(m, sp)]
        self.ok = all(w is not None for w in ws)
        if not self.ok:
            return
        self.ram = Ram(*ws)
        self.em = em
        self.common = common_of(cal, rc, em, self.ram)
        self.ta = self.common.ta
        self.ir = infrared(cal, self.common, sp, ap, self.ram.cp)

    def word(self, p):
        return last_read(self.log, address(self.cal.model, self.sp, p))

    def raw(self, p):
        return self.ir(p, I(tm.sext(self.word(p), 16, IW)))

    def temp(self, p, has_tr, tr):
        return temperature(self.cal, self.ta, self.em, has_tr, tr, self.sp)(p, self.raw(p))

    def goals(self, g, o, dst, n, value, what=""):
        """destination dst of n entries"""
        g.true(what + "aux_read", int(self.ok))
        if not self.ok:
            return
        for p in range(n):
            got = o.get(dst, 4 * p, 4)
            if p < NPIX[self.cal.model] and member(self.cal.model, self.sp, self.ap, p):
                g.true(what + "read[%d]" % p, int(self.word(p) is not None))
                if self.word(p) is not None:
                    g.fl(what + "pixel[%d]" % p, got, value(p).t)
            else:
                g.eq(what + "untouched[%d]" % p, got, tm.var("%s%d" % (dst, p), 32), 32)
