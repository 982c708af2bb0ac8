import itertools
from drv import *

NOTES = ["history: construction, one arbitrary operation (any settings operation with any argument, or a frame operation), then a raw frame; the same with an emissivity override, a reflected temperature and a frame before the settings operation; every register content "
         "(the access pattern bit by case split), at most one failing register transaction anywhere; calibration, RAM content, address symbolic",
         "construction leaves every combination of access pattern and resolution, so one further operation covers histories of any length as long as these two "
         "cached values are all the driver remembers of the control register",
         "the frame is compared on the first 34 pixels (two rows and two pixels), which tells the patterns, rows and columns apart; equality over the reals"]
N = 34
EM0, TR0 = tm.var("q_em", 32), tm.var("q_tr", 32)
ARG, NARG = tm.var("arg", 32), tm.var("arg", 31)


def spec(cal, k, sp, em=None):
    def f(g, o):
        r = Run(o, k + 1)
        if not r.built:
            return
        res, log = r.steps[k]
        ctl = control_words(r.before(k))
        g.true("control_known", int(len(ctl) > 0))
        if not ctl:
            return
        cur = ctl[-1]
        ap = extract(cur, 12, 12)
        if not isinstance(ap, int):
            raise ValueError("access pattern not fixed by the case split")
        if any(t.failed for t in log):
            return
        g.eq("result", res, 0, 64)
        frame_reads(g, log, cal.model, sp, ap, DEVICE)
        s = FrameSpec(cal, log, sp, ap, rc_of(cal, cur), em or stored_emissivity(cal))
        s.goals(g, o, "dst", N, s.raw)
        g.reach("end")
        if any(t.failed and t.kind == "w" and t.reg == CREG for t in r.before(k)):
            g.reach("failed_write")
    return f


def harnesses(m):
    hs = []
    dev = lambda: Device(max_faults=1, fault_on=(SREG, CREG))
    for mod in (640, 641):
        st = Stub(mod, N)
        firsts = [("settings0-15", tm.zext(tm.var("first_op", 4), 4, 32), ARG), ("settings16-17", tm.add(16, tm.zext(tm.var("first_op", 1), 1, 32), 32), ARG)]
        firsts += [("set_access_pattern%d" % v, 18, tm.concat([(NARG, 31), (v, 1)])) for v in (0, 1)]
        firsts += [(NAMES[k], k, ARG) for k in (29, 30)]
        for (name, op, arg), b0, b1 in itertools.product(firsts, (0, 1), (0, 1)):
            frame = op in (29, 30)
            fix = {"control_0": {12: b0}, "status_0": {0: b1}} if frame else {"control_0": {12: b0}, "control_1": {12: b1}}
            want = ("end",) if frame or name == "set_access_pattern%d" % b1 else ("end", "failed_write")
            steps = [Step(op, arg, 0, "first", N), Step(27, b0 ^ b1, 0, "dst", N)]
            if not frame:
                before = [Step(20, EM0), Step(23, TR0, 1), Step(27, b1, 0, "first", N)]
                hs.append(Harness("%d.after_frame.%s.%d%d" % (mod, name, b0, b1), script(mod, before + [Step(op, arg), steps[1]], st, dict(first=N, dst=N)), spec(st, 4, b0 ^ b1, F(EM0)),
                                  device=dev, want=want, hints=HINTS, model=mod, fix=fix, bounds="construction, overrides and a frame, one operation, one frame; one fault"))
            hs.append(Harness("%d.%s.%d%d" % (mod, name, b0, b1), script(mod, steps, st, dict(first=N, dst=N)), spec(st, 1, b0 ^ b1), device=dev,
                              want=want, hints=HINTS, model=mod, fix=fix, bounds="construction, one operation, one frame; one fault"))
    return hs
