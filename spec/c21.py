import itertools
from drv import *

NOTES = ["every override, reflected temperature (set or cleared), calibration, RAM, register content and address; the scripts listed as harnesses (up to eleven operations; histories: every order of three settings operations), "
         "subpage and access pattern by case split; frames compared on 34 destination entries over the reals"]
N = 34
E1, E2, T1, T2 = tm.var("q_em", 32), tm.var("q_em2", 32), tm.var("q_tr", 32), tm.var("q_tr2", 32)
S1, S2 = tm.var("q_some", 1), tm.var("q_some2", 1)
OP, ARG = tm.zext(tm.var("first_op", 4), 4, 32), tm.var("arg", 32)
EMISSIVITY, OVERRIDE, DEFAULT, REFL, SETREFL, AMBIENT = 19, 20, 21, 22, 23, 24


def optb(some, v):
    """an optional float as the driver script reports it"""
    return concat([(0, 31), (some, 1), (tm.ite(some, v, 0, 32), 32)])


class Model:
    """the documented settings"""

    def __init__(self, cal):
        self.cal = cal
        self.em = stored_emissivity(cal)
        self.tr = (0, 0)
        self.ta = None          # (before any frame) or the term of the last successful frame

    def step(self, g, name, s, res, log, r, o, k, ap):
        silent = s.op in (EMISSIVITY, OVERRIDE, DEFAULT, REFL, SETREFL, AMBIENT)
        if silent:
            g.true(name + "silent", int(not log))
        if s.op == EMISSIVITY:
            g.eq(name + "emissivity", res, concat([(0, 32), (self.em.t, 32)]), 64)
        elif s.op == OVERRIDE:
            self.em = F(s.arg)
        elif s.op == DEFAULT:
            self.em = stored_emissivity(self.cal)
        elif s.op == REFL:
            g.eq(name + "reflected", res, optb(*self.tr), 64)
        elif s.op == SETREFL:
            self.tr = (extract(s.arg2, 0, 0), s.arg)
        elif s.op == AMBIENT:
            g.eq(name + "ambient_known", extract(res, 63, 32), int(self.ta is not None), 32)
            if self.ta is not None:
                g.fl(name + "ambient", extract(res, 31, 0), self.ta.t)
        elif s.op in (27, 28, 29, 30):
            if any(t.failed for t in log):
                g.reach("failed_frame")
                return
            ctl = control_words(r.before(k))
            log = [t for t in log if t.reg != SREG]
            fs = FrameSpec(self.cal, log, s.arg, ap, rc_of(self.cal, ctl[-1]), self.em)
            val = fs.raw if s.op == 27 else (lambda p: fs.temp(p, self.tr[0], F(self.tr[1])))
            fs.goals(g, o, s.dst, N, val, name)
            if fs.ok:
                self.ta = fs.ta
            g.reach("frame")


def spec(cal, steps, ap):
    def f(g, o):
        r = Run(o, len(steps))
        g.true("built", int(r.built))
        m = Model(cal)
        for k, s in enumerate(steps):
            res, log = r.steps[k]
            m.step(g, "%d." % k, s, res, log, r, o, k, ap)
        g.reach("end")
    return f


def orders(alphabet, n):
    """a sequence in which every run of n letters occurs (greedy de Bruijn sequence)"""
    k = len(alphabet)
    seq, seen = [0] * (n - 1), set()
    while True:
        tail = tuple(seq[len(seq) - n + 1:])
        for c in range(k - 1, -1, -1):
            if tail + (c,) not in seen:
                seen.add(tail + (c,))
                seq.append(c)
                break
        else:
            return [alphabet[i] for i in seq]


def histories(q):
    """every order of three settings operations, the settings queried after each; values arbitrary"""
    steps = []
    for i, what in enumerate(orders(("override", "default", "set", "clear"), 3)):
        v = tm.var("q_v%d" % i, 32)
        steps.append({"override": Step(OVERRIDE, v), "default": Step(DEFAULT), "set": Step(SETREFL, v, 1), "clear": Step(SETREFL, v, 0)}[what])
        steps += q
    return steps


def frame(op, sp, dst):
    return Step(op, sp, 0, dst, N)


def scripts(sp):
    q = [Step(EMISSIVITY), Step(REFL), Step(AMBIENT)]
    S = lambda v, some: Step(SETREFL, v, tm.zext(some, 1, 32))
    return {
        "start": (q, ()),
        "histories": (histories(q), ()),
        "settings_after_frame": ([frame(27, sp, "dst"), Step(OVERRIDE, E1), Step(AMBIENT), Step(DEFAULT), Step(AMBIENT), S(T1, S1), Step(AMBIENT), Step(OP, ARG)] + q, ("frame",)),
        "override": (q + [Step(OVERRIDE, E1), Step(EMISSIVITY), Step(OVERRIDE, E2), Step(EMISSIVITY), Step(DEFAULT), Step(EMISSIVITY)], ()),
        "reflected": ([S(T1, S1), Step(REFL), S(E1, S2), Step(REFL), Step(EMISSIVITY), Step(AMBIENT)], ()),
        "kept_by_settings": ([Step(OVERRIDE, E1), S(T1, S1), Step(OP, ARG)] + q, ("first_op",)),
        "image_override": ([Step(OVERRIDE, E1), S(T1, S1), frame(28, sp, "dst")] + q, ("frame",)),
        "raw_override": ([Step(OVERRIDE, E1), S(T1, S1), frame(27, sp, "dst")] + q, ("frame",)),
        "image_default": ([Step(OVERRIDE, E1), Step(DEFAULT), S(T1, 1), S(E2, 0), frame(28, sp, "dst")] + q, ("frame",)),
        "image_reflected": ([S(T1, 1), frame(28, sp, "dst")] + q, ("frame",)),
        "latest_override": ([Step(OVERRIDE, E1), S(T1, S1), frame(29, sp, "dst")] + q, ("frame",)),
        "ready_override": ([Step(OVERRIDE, E1), S(T1, S1), frame(30, sp, "dst")] + q, ("frame",)),
        "ready_default": ([Step(OVERRIDE, E1), Step(DEFAULT), S(T1, 1), S(E2, 0), frame(30, sp, "dst")] + q, ("frame",)),
        **{"second_%d_%d" % (a, b): ([Step(OVERRIDE, E1), S(T1, 1), frame(a, 1 - sp, "first"), Step(OVERRIDE, E2), S(T2, 1), frame(b, sp, "dst"), Step(AMBIENT)], ("frame",))
           for a in (28, 30) for b in (28, 29, 30)},
        "latest_ambient": ([frame(28, 1 - sp, "first"), Step(AMBIENT), frame(27, sp, "dst"), Step(AMBIENT)], ("frame",)),
        "failed_frame": ([frame(27, 1 - sp, "first"), frame(28, sp, "dst"), Step(AMBIENT)], ("failed_frame",)),
    }


def flagged(steps, name):
    """the status words the frames of a script read: new data for the subpage the script asks for"""
    if not name.startswith(("latest_o", "ready", "second")):
        return {}
    return {"status_%d" % i: {0: s.arg, 3: 1} for i, s in enumerate(s for s in steps if s.op in (29, 30))}


def harnesses(m):
    hs = []
    for mod in (640, 641):
        st = Stub(mod, N)
        for sp, ap in itertools.product((0, 1), (0, 1)):
            for name, (steps, tags) in scripts(sp).items():
                if "frame" not in tags and "failed_frame" not in tags and (sp or ap):
                    continue
                fault = name == "failed_frame"
                hs.append(Harness("%d.%s.sp%d.%s" % (mod, name, sp, PATTERNS[ap]), script(mod, steps, st, dict(first=N, dst=N)), spec(st, steps, ap),
                                  device=(lambda: Device(max_faults=1, fault_from=1)) if fault else Device, want=("end",) + tuple(t for t in tags if "frame" in t),
                                  hints=dict(HINTS, q_em2=(0.8, 0.99), q_tr2=(10.0, 40.0)), model=mod, fix=dict({"control_0": {12: ap}}, **flagged(steps, name)),
                                  bounds="%d operations%s" % (len(steps), ", one fault" if fault else "")))
    return hs
