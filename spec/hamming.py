"""The MLX90641 EEPROM code, from the datasheet's parity equations: 11 data bits D0..D10, check bits P0..P3 at 11..14
and the overall parity at 15."""
from common import *

PARITY = [(0, 1, 3, 4, 6, 8, 10), (0, 2, 3, 5, 6, 9, 10), (1, 2, 3, 7, 8, 9, 10), (4, 5, 6, 7, 8, 9, 10)]


def xorbits(bs):
    r = 0
    for b in bs:
        r = tm.xor(r, b, 1)
    return r


def encode(d):
    """d: 11-bit term -> 16-bit codeword"""
    b = [extract(d, i, i) for i in range(11)]
    p = [xorbits(b[i] for i in m) for m in PARITY]
    top = xorbits(b + p)
    return concat([(top, 1)] + [(x, 1) for x in reversed(p)] + [(d, 11)])


def syndrome(w):
    b = [extract(w, i, i) for i in range(16)]
    s = [tm.xor(xorbits(b[i] for i in m), b[11 + k], 1) for k, m in enumerate(PARITY)]
    return s, xorbits(b)


def distance_gt(w, c, n):
    """do w and c differ in more than n bits? (n 0 or 1)"""
    x = tm.xor(w, c, 16)
    if n == 0:
        return not_(eq(x, 0, 16))
    y = tm.and_(x, tm.sub(x, 1, 16), 16)
    return not_(eq(y, 0, 16))


def correctable(w):
    """some codeword lies within distance one of w: the overall parity is odd (one error), or the word is a codeword"""
    s, par = syndrome(w)
    nos = 1
    for x in s:
        nos = and_(nos, not_(x), 1)
    return or_(par, nos, 1)
