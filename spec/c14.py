import itertools
from drv import *

NOTES = ["a driver that has already processed one raw frame, with or without an emissivity override and a reflected temperature (so that the ambient temperature is set), then 'generate if ready' or 'generate', then the ambient "
         "temperature is read; every status, control and RAM content (subpage bit and access pattern by case split), calibration and address symbolic; no faults (C22)",
         "the same with an earlier 'generate if ready' of any outcome, including one bus fault anywhere in it, so that an acknowledgement that failed is made up for",
         "pixels are compared on a destination of 34 entries (two rows and two pixels; one pixel per entry is C16/C18/C19), over the reals"]
N = 34
EM0, TR0, SOME = tm.var("q_em", 32), tm.var("q_tr", 32), tm.var("q_some", 1)


def spec(cal, op, ap, k0=0):
    def f(g, o):
        r = Run(o, 4 + k0)
        g.true("built", int(r.built))
        before, (res, log), after = r.steps[1 + k0], r.steps[2 + k0], r.steps[3 + k0]
        g.true("queries_silent", int(not before[1] and not after[1] and not r.rest))
        for i, t in enumerate(log):
            g.eq("device[%d]" % i, t.addr, DEVICE, 32)
        g.true("status_first", int(bool(log) and is_reg_read(log[0], "status")))
        if not (log and is_reg_read(log[0], "status")):
            return
        if any(t.failed for t in log):
            return
        new = extract(log[0].word(), *NEWDATA)
        sp = extract(log[0].word(), 0, 0)
        ctl = control_words(r.before(2 + k0))
        em = F(EM0) if k0 else stored_emissivity(cal)
        rc = rc_of(cal, ctl[-1])
        if op == 30 and len(log) == 1:
            g.true("not_ready", tm.not_(new))
            g.eq("result", res, ok(0), 64)
            for p in range(N):
                g.eq("kept[%d]" % p, o.get("dst", 4 * p, 4), tm.var("dst%d" % p, 32), 32)
            g.eq("ambient_kept", after[0], before[0], 64)
            g.reach("not_ready")
            return
        frame = log[1:]
        if op == 30:
            g.true("ready", new)
            g.eq("result", res, ok(1), 64)
            w = log[-1]
            g.true("acknowledged_last", int(is_reg_write(w, "status")))
            if not is_reg_write(w, "status"):
                return
            cur = [t for t in log[:-1] if is_reg_read(t, "status")][-1]
            g.eq("acknowledged", w.word(), with_field(cur.word(), *NEWDATA, 0), 16)
            frame = log[1:-1]
        else:
            g.eq("result", res, ok(0), 64)
            g.true("never_writes", int(all(t.kind == "r" for t in log)))
        frame_reads(g, [t for t in frame if not is_reg_read(t, "status")], cal.model, sp, ap, DEVICE)
        s = FrameSpec(cal, frame, sp, ap, rc, em)
        s.goals(g, o, "dst", N, lambda p: s.temp(p, SOME if k0 else 0, F(TR0 if k0 else 0)))
        if s.ok:
            g.eq("ambient_set", extract(after[0], 63, 32), 1, 32)
            g.fl("ambient", extract(after[0], 31, 0), s.ta.t)
        g.reach("ready")
        if any(t.failed for t in r.before(2 + k0)):
            g.reach("after_fault")
    return f


def harnesses(m):
    hs = []
    for mod in (640, 641):
        st = Stub(mod, N)
        for op, sp, ap, over in itertools.product((29, 30), (0, 1), (0, 1), (0, 1)):
            steps = [Step(20, EM0), Step(23, TR0, tm.zext(SOME, 1, 32))] if over else []
            k0 = len(steps)
            steps += [Step(27, 1 - sp, 0, "first", N), Step(24), Step(op, 0, 0, "dst", N), Step(24)]
            hs.append(Harness("%d.%s.sp%d.%s%s" % (mod, NAMES[op], sp, PATTERNS[ap], ".override" if over else ""), script(mod, steps, st, dict(first=N, dst=N)),
                              spec(st, op, ap, k0), device=Device, want=("ready", "not_ready") if op == 30 else ("ready",), hints=HINTS, model=mod,
                              fix={"control_0": {12: ap}, "status_0": {0: sp}}, bounds="construction, one earlier frame, one frame%s" % (", overrides before" if over else "")))
        for sp0, sp, ap in itertools.product((0, 1), (0, 1), (0, 1)):
            steps = [Step(20, EM0), Step(23, TR0, tm.zext(SOME, 1, 32)), Step(30, 0, 0, "first", N), Step(24), Step(30, 0, 0, "dst", N), Step(24)]
            hs.append(Harness("%d.ready_twice.sp%d%d.%s" % (mod, sp0, sp, PATTERNS[ap]), script(mod, steps, st, dict(first=N, dst=N)), spec(st, 30, ap, 2),
                              device=lambda: Device(max_faults=1, fault_from=1), want=("ready", "not_ready", "after_fault"), hints=HINTS, model=mod,
                              fix={"control_0": {12: ap}, "status_0": {0: sp0}, "status_1": {0: sp}},
                              bounds="construction, overrides, one 'generate if ready' with any outcome (one fault), then another"))
    return hs
