from hamming import *
from cal641 import *
import c05
import c06

NOTES = ["errors: all 832 words of the image are arbitrary 16-bit values: any combination of correct, correctable and uncorrectable words",
         "values: every word used is a codeword of an arbitrary payload with any one of its 16 bits, or none, flipped; the second word of each split value "
         "carries at most five data bits; the result must be the datasheet's value for the payloads",
         "floating-point results are compared up to rounding (solver: identical operations, else equality over the reals)"]

# what the calibration uses: everything from 0x2410 on except the two reserved words 0x2413 and 0x2414
USED = list(range(16, 19)) + list(range(21, 832))


def split(conds):
    """the executor keeps apart what happens for correctable and for uncorrectable words"""
    import solve
    vs = set()
    for c in conds:
        if isinstance(c, T):
            vs |= solve.var_ids(c)
    for v in sorted(vs):
        if v.startswith("ee"):
            yield v, not_(correctable(tm.var(v, 16)))


def named(val):
    """val is the 16-bit content of a used, uncorrectable word"""
    if isinstance(val, T) and val.op == "var" and int(val.a[0][2:]) in USED:
        return not_(correctable(val))
    r = 0
    for i in USED:
        r = or_(r, and_(eq(word(i), val, 16), not_(correctable(word(i))), 1), 1)
    return r


def spec_any(g, obs):
    ok = eq(extract(obs.ret, 63, 32), 0, 32)
    if ok != 0:
        for i in USED:
            g.true("accepts only correctable words[%d]" % i, correctable(word(i)), ok)
        g.reach("success")
    if ok != 1:
        g.eq("checksum error", extract(obs.ret, 63, 16), 5 << 16, 48, not_(ok))
        g.true("names an uncorrectable word", named(extract(obs.ret, 15, 0)), not_(ok))
        g.reach("error")


def damaged(i):
    """a codeword with at most one bit flipped; words the calibration does not use are arbitrary"""
    return tm.xor(encode(p11(i)), tm.var("e%d" % i, 16), 16) if i in USED else word(i)


def elim(v):
    """variables that hold an error pattern, and the data the pattern applies to"""
    return ["d" + v[1:]] if v[0] == "e" and v[1].isdigit() else None


def prune(conds):
    """paths that no image with at most one flipped bit per word can take are dropped as soon as they would be merged"""
    import solve
    vs = set()
    for c in conds:
        if isinstance(c, T):
            vs |= solve.var_ids(c)
    for v in sorted(vs):
        if elim(v):
            yield frozenset([v] + elim(v)), 0


def one_bit(v):
    return eq(tm.and_(v, tm.sub(v, 1, 16), 16), 0, 16)


def bad(r, name):
    """words of the sample image, many with one flipped bit and few with more"""
    import samples
    w = samples.image(641)[int(name[2:])]
    if r.random() < 0.5:
        w ^= 1 << r.randrange(16)
    return w ^ 3 << r.randrange(15) if r.random() < 0.001 else w


HINTS = {"ee": bad}


def harnesses(m):
    d = dict(c05.d_hints())
    d["e"] = lambda r, name: r.getrandbits(16) if name[1] == "e" else (1 << r.randrange(16) if r.random() < 0.5 else 0)
    pre = c05.PRE + [one_bit(tm.var("e%d" % i, 16)) for i in USED]
    hs = [Harness("errors", lambda: image_call("h641_cal", 64, 64, 64), spec_any, model=641, split=split, hints=HINTS, want=("success", "error"),
                  bounds="one image of 832 arbitrary words")]
    b = "one image of 832 words, each a codeword of an arbitrary payload with any one bit or none flipped; unused words arbitrary"
    mk = lambda what: lambda: image_call("h641_cal", what, 2048, 1024, wordf=damaged)
    todo = [("scalars", 64, c05.spec)] + [(k, v, c06.spec_list(k)) for k, v in c06.WHAT.items()] + [("compensation", 16, c06.spec_comp), ("flags", 32, c06.spec_flags)]
    for k, v, spec in todo:
        hs.append(Harness("corrected." + k, mk(v), spec, pre=pre, model=641, hints=d, elim=elim, split=prune, bounds=b))
    return hs
