import itertools
from drv import *
from c05 import PRE, codeword, d_hints

NOTES = ["every single operation (settings by symbolic operation code; frames by subpage and access pattern; synchronisation up to four polls; construction from a "
         "calibration and from the EEPROM) with a failure of any one of its transactions, the reported error value arbitrary; settings also in pairs with two failures; frames followed by another frame, whose pixels are compared",
         "a failing read leaves arbitrary bytes in the library's buffer; register, RAM, EEPROM content, address and calibration symbolic; MLX90641 EEPROM words are codewords"]
N = 34
ARG, ARG2 = tm.var("arg", 32), tm.var("arg2", 32)


def check_step(g, name, res, log):
    bad = [i for i, t in enumerate(log) if t.failed]
    if bad:
        g.true(name + "stops_at_fault", int(bad == [len(log) - 1]))
        g.eq(name + "error", res, bus_error(log[bad[0]]), 64)
        return False
    g.eq(name + "no_error", extract(res, 63, 32), 0, 32)
    return True


def spec_settings(n):
    def f(g, o):
        r = Run(o, n)
        check_ctor(g, o, r)
        if not r.built:
            return
        for k in range(n):
            g.reach("ok" if check_step(g, "%d." % k, *r.steps[k]) else "fault")
        g.true("nothing_else", int(not r.rest))
    return f


def check_ctor(g, o, r):
    bad = [i for i, t in enumerate(r.ctor) if t.failed]
    if bad:
        g.true("ctor.stops_at_fault", int(bad == [len(r.ctor) - 1] and not r.rest and not r.built))
        g.eq("ctor.error", o.ret, bus_error(r.ctor[bad[0]]), 64)
        g.reach("ctor_fault")
    else:
        g.eq("ctor.no_error", o.ret, 0, 64)


def spec_ctor(g, o):
    r = Run(o, 1)
    check_ctor(g, o, r)
    for i, t in enumerate(r.ctor):
        g.eq("ctor.device[%d]" % i, t.addr, DEVICE, 32)
        g.true("ctor.reads[%d]" % i, int(t.kind == "r"))
    if r.built:
        g.reach("built")


def spec_frame(op):
    def f(g, o):
        r = Run(o, 4)
        if not r.built:
            return
        res, log = r.steps[2]
        if not check_step(g, "", res, log):
            t = [x for x in log if x.failed][0]
            if t.kind == "r":
                for p in range(N):
                    g.eq("kept[%d]" % p, o.get("dst", 4 * p, 4), tm.var("dst%d" % p, 32), 32)
                g.eq("ambient_kept", r.steps[3][0], r.steps[1][0], 64)
                g.reach("read_fault")
            else:
                g.reach("write_fault")
        else:
            g.reach("ok")
        g.true("nothing_else", int(not r.rest and not r.steps[3][1]))
    return f


def spec_recover(cal, ap):
    """the frame after a failed operation is as good as any"""
    def f(g, o):
        r = Run(o, 2)
        if not r.built or any(t.failed for t in r.steps[1][1]):
            return
        res, log = r.steps[1]
        ctl = control_words(r.before(1))
        g.eq("result", res, 0, 64)
        sp = extract(log[0].word(), 0, 0) if log and is_reg_read(log[0], "status") else None
        g.true("status_first", int(isinstance(sp, int)))
        if not isinstance(sp, int):
            return
        frame_reads(g, log[1:], cal.model, sp, ap, DEVICE)
        s = FrameSpec(cal, log[1:], sp, ap, rc_of(cal, ctl[-1]), stored_emissivity(cal))
        s.goals(g, o, "dst", N, lambda p: s.temp(p, 0, F(0)))
        g.reach("after_fault" if any(t.failed for t in r.before(1)) else "ok")
    return f


POLLS = 4


def spec_sync(g, o):
    r = Run(o, 1)
    if not r.built:
        return
    g.reach("ok" if check_step(g, "", *r.steps[0]) else "fault")


def harnesses(m):
    hs = []
    for mod in (640, 641):
        st = Stub(mod, 0)
        ops = {"0-15": tm.zext(tm.var("first_op", 4), 4, 32), "16-19": tm.add(16, tm.zext(tm.var("first_op", 2), 2, 32), 32)}
        for k, op in ops.items():
            hs.append(Harness("%d.settings%s" % (mod, k), script(mod, [Step(op, ARG)], st), spec_settings(1), device=lambda: Device(max_faults=1),
                              want=("ok", "fault", "ctor_fault"), hints=HINTS, model=mod, bounds="construction and one operation, one fault"))
        hs.append(Harness("%d.settings_twice" % mod, script(mod, [Step(ops["0-15"], ARG), Step(tm.zext(tm.var("second_op", 4), 4, 32), ARG2)], st),
                          spec_settings(2), device=lambda: Device(max_faults=2, fault_from=1), want=("ok", "fault"), hints=HINTS, model=mod,
                          bounds="two operations, two faults"))
        hs.append(Harness("%d.synchronize" % mod, script(mod, [Step(31)], st), spec_sync, device=lambda: Device(max_faults=1, fault_from=1, max_ops=3 + POLLS),
                          want=("ok", "fault"), hints=HINTS, model=mod, bounds="at most %d polls, one fault" % POLLS))
        kw = dict(pre=PRE, hints=dict(HINTS, **dict(d_hints())), ee=codeword) if mod == 641 else dict(hints=HINTS)
        hs.append(Harness("%d.construct" % mod, script(mod, [Step(19)]), spec_ctor, device=lambda: Device(max_faults=1), want=("built", "ctor_fault"), model=mod,
                          bounds="one construction, one fault", **kw))
        st = Stub(mod, N)
        for op, sp, ap in itertools.product((27, 28, 29, 30), (0, 1), (0, 1)):
            steps = [Step(27, 1 - sp, 0, "first", N), Step(24), Step(op, sp, 0, "dst", N), Step(24)]
            first = {640: 18 if ap == 0 else 7, 641: 12}[mod] - 1
            hs.append(Harness("%d.%s.sp%d.%s" % (mod, NAMES[op], sp, PATTERNS[ap]), script(mod, steps, st, dict(first=N, dst=N)), spec_frame(op),
                              device=lambda k=first: Device(max_faults=1, fault_from=k), want=("ok", "read_fault") + (("write_fault",) if op == 30 else ()),
                              hints=HINTS, model=mod, fix={"control_0": {12: ap}, "status_0": {0: sp}}, bounds="one earlier frame, one frame, one fault"))
            if op in (28, 30):
                hs.append(Harness("%d.recover.%s.sp%d.%s" % (mod, NAMES[op], sp, PATTERNS[ap]), script(mod, [Step(op, sp, 0, "first", N), Step(29, 0, 0, "dst", N)], st, dict(first=N, dst=N)),
                                  spec_recover(st, ap), device=lambda: Device(max_faults=1, fault_from=1), want=("ok", "after_fault"), hints=HINTS, model=mod,
                                  fix={"control_0": {12: ap}, "status_0": {0: sp}, "status_1": {0: 1 - sp}}, bounds="one frame, one fault, another frame"))
    return hs
