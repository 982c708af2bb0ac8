import c04
import c07
import c10
import c11
import c15
import c16
import c22
import c24
import c25
import c26
from cal640 import *
from c08 import LEN, short_call

NOTES = ["arithmetic overflow counts as a panic (the library is encoded with overflow checks), as do out-of-range indices and slices, failed unwraps and "
         "explicit panics; floating-point overflow and NaN do not panic and are not looked for",
         "EEPROM: all 832 words arbitrary 16-bit values for both cameras (MLX90641: correct, correctable and uncorrectable words in any combination); every "
         "buffer length from 0 to 1664",
         "frames: calibration, RAM, registers and settings arbitrary; destination lengths as in C16; up to one bus fault in construction, settings and frames",
         "EEPROM decoding and frame processing are checked one after the other: frames are processed with an arbitrary calibration, which covers every one an "
         "EEPROM can hold"]


def spec(g, o):
    g.reach("end")


def spec_cal(g, o):
    """an arbitrary image: some are accepted, some are not"""
    good = eq(extract(o.ret, 63, 32), 0, 32)
    if good != 0:
        g.reach("accepted")
    if good != 1:
        g.reach("rejected")


def lifted(mod, tag, m, keep=lambda n: True):
    """the runs of another property, asked only whether they can panic"""
    for h in mod.harnesses(m):
        if keep(h.name):
            h.name, h.spec, h.want, h.cut = tag + "." + h.name, spec, ("end",), None
            yield h


def harnesses(m):
    hs = [Harness("h640_cal", lambda: image_call("h640_cal", 127, 16384, 16384), spec, bounds="one image of 832 arbitrary words; every accessor"),
          Harness("h641_cal", lambda: image_call("h641_cal", 127, 16384, 16384), spec_cal, model=641, split=c07.split, hints=c07.HINTS, want=("accepted", "rejected"),
                  bounds="one image of 832 arbitrary words; every accessor")]
    for mod in (640, 641):
        hs.append(Harness("h%d_cal.short" % mod, short_call("h%d_cal" % mod), spec, pre=[tm.ult(LEN, 1664, 11)], model=mod, hints={"len": (0, 1663)},
                          bounds="all lengths 0..1663"))
    for mod, tag in ((c04, "hamming"), (c10, "register"), (c11, "transfer"), (c24, "conversion"), (c25, "resolution"), (c15, "read"), (c16, "frame"), (c26, "sync")):
        hs += lifted(mod, tag, m)
    hs += lifted(c22, "fault", m, lambda n: "construct" not in n)
    return hs
