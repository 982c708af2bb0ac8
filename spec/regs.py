"""Register fields, from the datasheets (status 0x8000, control 0x800D, I2C configuration 0x800F)."""
from common import *

STATUS = [("subpage", 0, 0), ("new_data", 3, 3), ("overwrite", 4, 4), ("start", 5, 5)]
CONTROL = [("use_subpages", 0, 0), ("step_mode", 1, 1), ("data_hold", 2, 2), ("subpage_repeat", 3, 3), ("subpage", 4, 4),
           ("frame_rate", 9, 7), ("resolution", 11, 10), ("access_pattern", 12, 12)]
I2C = [("fast_mode_plus", 0, 0), ("threshold", 1, 1), ("sda_limiter", 2, 2)]
REG = {"status": (0, 0x8000), "control": (1, 0x800D), "i2c": (2, 0x800F)}


def fld(fields, name):
    return [(h, l) for n, h, l in fields if n == name][0]


def field(raw, hi, lo):
    return extract(raw, hi, lo)


def with_field(raw, hi, lo, v):
    """raw with bits hi..lo replaced by v (a term of that width)"""
    return concat([(extract(raw, 15, hi + 1) if hi < 15 else 0, 15 - hi), (v, hi - lo + 1), (extract(raw, lo - 1, 0) if lo else 0, lo)])


def same_fields(a, b, fields):
    r = 1
    for _, h, l in fields:
        r = and_(r, eq(extract(a, h, l), extract(b, h, l), h - l + 1), 1)
    return r
