from drv import *

NOTES = ["one arbitrary earlier settings operation (symbolic operation code and argument), or overrides and a frame, then the operation under test; every register content and argument; "
         "every device address; at most one failing transaction, anywhere; the calibration is an arbitrary one",
         "the device may change its registers between transactions: each read returns a fresh value"]
ARG = tm.var("arg", 32)
# the earlier operation: codes 0-15, or 16-19
FIRST = {"a": tm.zext(tm.var("first_op", 4), 4, 32), "b": tm.add(16, tm.zext(tm.var("first_op", 2), 2, 32), 32)}
ARGA = tm.var("first_arg", 32)
FRAME = {640: 18, 641: 12}       # transactions of the constructor and one frame


def spec(op, k=1):
    def f(g, o):
        r = Run(o, k + 1)
        if not r.built or len(r.steps) <= k:
            return
        g.reach(check_setting(g, op, ARG, *r.steps[k]))
        g.true("nothing_else", int(not r.rest))
    return f


def want(op):
    if op in SETTERS:
        return ("read_error", "unchanged", "written", "write_error")
    return ("read_error", "written", "write_error") if op == 2 else ("read_error", "value")


def harnesses(m):
    hs = []
    for mod in (640, 641):
        st = Stub(mod, 0)
        for op in SETTINGS:
            for k, first in FIRST.items():
                hs.append(Harness("%d.%s.%s" % (mod, NAMES[op], k), script(mod, [Step(first, ARGA), Step(op, ARG)], st), spec(op),
                                  device=lambda: Device(max_faults=1), want=want(op), hints=HINTS, model=mod,
                                  bounds="two operations (first: codes %s), one fault" % ("0-15" if k == "a" else "16-19")))
            before = [Step(20, tm.var("q_em", 32)), Step(23, tm.var("q_tr", 32), 1), Step(27, 0, 0, "first", 0)]
            hs.append(Harness("%d.%s.after_frame" % (mod, NAMES[op]), script(mod, before + [Step(op, ARG)], st, dict(first=1)), spec(op, 3),
                              device=lambda k=FRAME[mod]: Device(max_faults=1, fault_from=k), want=want(op), hints=HINTS, model=mod, fix={"control_0": {12: 0}},
                              bounds="overrides, a frame, one operation, one fault"))
    return hs
