import os
import re

from drv import *

NOTES = ["every status register content on every read, every address, a failure of any one transaction; the driver fresh, after one arbitrary settings operation, or after overrides and a frame; "
         "up to eight polls (runs still waiting then are checked up to that point), and waits of 2100 polls (thorough: 4900), every other bit of the status still arbitrary"]
POLLS, LONG = 8, 4900 if os.environ.get("VERIF_TIER") == "thorough" else 2100
ARG = tm.var("arg", 32)


def spec(n):
    def f(g, o):
        r = Run(o, n)
        if not r.built:
            return
        res, log = r.steps[n - 1]
        g.true("nothing_else", int(not r.rest))
        for i, t in enumerate(log):
            g.eq("device[%d]" % i, t.addr, DEVICE, 32)
        if any(t.failed for t in log):
            bad = [i for i, t in enumerate(log) if t.failed]
            g.true("stops_at_fault", int(bad == [len(log) - 1]))
            g.eq("error", res, bus_error(log[bad[0]]), 64)
            g.reach("fault%d" % min(bad[0], 3))
        else:
            g.eq("result", res, 0, 64)
            g.reach("polls%d" % (len(log) - 2))
            g.true("waited", int(len(log) >= 3))
        shape = [t.kind for t in log] == (["r", "w"] + ["r"] * len(log))[:len(log)]
        g.true("read_write_polls", int(shape and all(t.reg == SREG and t.n == 2 for t in log)))
        if not shape:
            return
        if len(log) > 1 and not log[0].failed:
            w = log[0].word()
            for name, v in (("new_data", 0), ("overwrite", 1), ("start", 1)):
                w = with_field(w, *fld(STATUS, name), v)
            g.eq("requested", log[1].word(), w, 16)
        for i, t in enumerate(log[2:]):
            if not t.failed:
                new = extract(t.word(), *NEWDATA)
                g.true("poll[%d]" % i, new if i == len(log) - 3 else not_(new))
    return f


def still_waiting(g, o, before="r(r|rw)?"):
    """a run that has not returned yet has not been told of new data since its request"""
    at = [i for i, t in enumerate(o.log) if t.kind == "w"]
    # construction, at most one earlier settings operation, the request, polls
    g.true("requested_once", int(bool(re.fullmatch(before + "rwr*", "".join(t.kind for t in o.log)))))
    for i, t in enumerate(o.log[at[-1] + 1:] if at else ()):
        g.true("poll_continued[%d]" % i, not_(extract(t.word(), *NEWDATA)) if is_reg_read(t, "status") else 0)


def harnesses(m):
    hs = []
    want = ("fault0", "fault1", "fault2", "fault3") + tuple("polls%d" % i for i in range(1, POLLS + 1))
    for mod in (640, 641):
        st = Stub(mod, 0)
        hs.append(Harness("%d.fresh" % mod, script(mod, [Step(31)], st), spec(1), device=lambda: Device(max_faults=1, fault_from=1, max_ops=3 + POLLS),
                          want=want, cut=still_waiting, hints=HINTS, model=mod, bounds="at most %d polls, one fault" % POLLS))
        hs.append(Harness("%d.after_setting" % mod, script(mod, [Step(tm.zext(tm.var("first_op", 4), 4, 32), ARG), Step(31)], st), spec(2),
                          device=lambda: Device(max_faults=1, fault_from=1, max_ops=4 + POLLS), want=want, cut=still_waiting, hints=HINTS, model=mod,
                          bounds="one earlier operation, at most %d polls, one fault" % POLLS))
        k = {640: 18, 641: 12}[mod]      # transactions of the constructor and one frame
        steps = [Step(20, tm.var("q_em", 32)), Step(23, tm.var("q_tr", 32), 1), Step(27, 0, 0, "first", 0), Step(31)]
        hs.append(Harness("%d.after_frame" % mod, script(mod, steps, st, dict(first=1)), spec(4), device=lambda k=k: Device(max_faults=1, fault_from=k, max_ops=k + 2 + POLLS),
                          want=want, cut=lambda g, o, k=k: still_waiting(g, o, "r{%d}" % k), hints=HINTS, model=mod, fix={"control_0": {12: 0}},
                          bounds="overrides and a frame before, at most %d polls, one fault" % POLLS))
        waits = {"status_%d" % i: {3: 0} for i in range(1, LONG)}
        waits["status_%d" % LONG] = {3: 1}
        hs.append(Harness("%d.long_wait" % mod, script(mod, [Step(31)], st), spec(1), device=lambda: Device(max_ops=LONG + 3), want=("polls%d" % LONG,),
                          hints=HINTS, model=mod, fix=waits, cut=still_waiting, bounds="%d polls" % LONG))
    return hs
