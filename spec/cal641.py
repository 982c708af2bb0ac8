"""MLX90641 calibration extraction, written from the Melexis datasheet (section 11.2.2): every word carries 11 data bits."""
from common import *
from cal640 import alpha_corr

ROWS, COLS, N = 12, 16, 192
BASIC, SELF_HEATING = 2, 5.0


def p11(i):
    return tm.var("d%d" % i, 11)


class Cal641:
    def __init__(self, payload=p11):
        self.p = payload

    def u(self, i):
        return bits(self.p(i), 10, 0)

    def s(self, i):
        return sbits(self.p(i), 10, 0)

    def pair(self, i):
        """16 bits split over two words: 11 high bits, then five low bits"""
        return concat([(self.p(i), 11), (extract(self.p(i + 1), 4, 0), 5)])

    def k_v_dd(self):
        return self.s(39) * 32

    def v_dd_25(self):
        return self.s(38) * 32

    def resolution(self):
        return bits(self.p(51), 10, 9)

    def k_v_ptat(self):
        return self.s(43).f() / 4096.0

    def k_t_ptat(self):
        return self.s(42).f() / 8.0

    def v_ptat_25(self):
        return bits(self.pair(40), 15, 0).f()

    def alpha_ptat(self):
        return self.u(44).f() / 128.0

    def gain(self):
        return bits(self.pair(36), 15, 0).f()

    def tgc(self):
        return sbits(self.p(51), 8, 0).f() / 64.0

    def emissivity(self):
        return self.s(35).f() / 512.0

    def k_s_ta(self):
        return self.s(34).f() / 32768.0

    def corner(self):
        return [I(-40), I(-20), I(0), I(80), I(120), self.u(58), self.u(60), self.u(62)]

    def k_s_to(self):
        sc = pow2(self.u(52))
        return [self.s(i).f() / sc for i in (53, 54, 55, 56, 57, 59, 61, 63)]

    def offset_cp(self, sp):
        return sbits(self.pair(47), 15, 0)

    def alpha_cp(self, sp):
        return self.u(45).f() / pow2(self.u(46))

    def k_v_cp(self):
        return sbits(self.p(50), 5, 0).f() / pow2(bits(self.p(50), 10, 6))

    def k_ta_cp(self):
        return sbits(self.p(49), 5, 0).f() / pow2(bits(self.p(49), 10, 6))

    # pixels
    def offset(self, sp, i):
        avg = sbits(self.pair(17), 15, 0)
        return avg + (self.s((64 if sp == 0 else 640) + i) << bits(self.p(16), 10, 5))

    def alpha(self, i):
        k = i // 32
        w = self.p(25 + k // 2)
        sc = (bits(w, 10, 5) if k % 2 == 0 else bits(w, 4, 0)) + 20
        return (self.u(256 + i).f() / 2047.0) * (self.u(28 + k).f() / pow2(sc))

    def k_ta(self, i):
        w = self.p(22)
        return ((sbits(self.p(448 + i), 10, 5) << bits(w, 4, 0)) + self.s(21)).f() / pow2(bits(w, 10, 5))

    def k_v(self, i):
        w = self.p(24)
        return ((sbits(self.p(448 + i), 4, 0) << bits(w, 4, 0)) + self.s(23)).f() / pow2(bits(w, 10, 5))

    def failed(self, i):
        r = 1
        for w in (64, 256, 448, 640):
            r = and_(r, eq(self.p(w + i), 0, 11), 1)
        return r

    def alpha_correction(self):
        return alpha_corr(self.k_s_to(), self.corner(), BASIC)
