"""MLX90640 calibration extraction, written from the Melexis datasheet (section 11.2.2)."""
from common import *

ROWS, COLS, N = 24, 32, 768
BASIC, SELF_HEATING = 1, 8.0


class Cal640:
    def __init__(self, word=word):
        self.w = word

    def k_v_dd(self):
        return sbits(self.w(51), 15, 8) * 32

    def v_dd_25(self):
        return (bits(self.w(51), 7, 0) - 256) * 32 - 8192

    def resolution(self):
        return bits(self.w(56), 13, 12)

    def k_v_ptat(self):
        return sbits(self.w(50), 15, 10).f() / 4096.0

    def k_t_ptat(self):
        return sbits(self.w(50), 9, 0).f() / 8.0

    def v_ptat_25(self):
        return sbits(self.w(49), 15, 0).f()

    def alpha_ptat(self):
        return bits(self.w(16), 15, 12).f() / 4.0 + 8.0

    def gain(self):
        return sbits(self.w(48), 15, 0).f()

    def tgc_field(self):
        return sbits(self.w(60), 7, 0)

    def tgc(self):
        return self.tgc_field().f() / 32.0

    def k_s_ta(self):
        return sbits(self.w(60), 15, 8).f() / 8192.0

    def corner(self):
        e = self.w(63)
        step = bits(e, 13, 12) * 10
        ct2 = bits(e, 7, 4) * step
        ct3 = ct2 + bits(e, 11, 8) * step
        return [I(-40), I(0), ct2, ct3]

    def k_s_to(self):
        sc = bits(self.w(63), 3, 0) + 8
        return [f.f() / pow2(sc) for f in (sbits(self.w(61), 7, 0), sbits(self.w(61), 15, 8), sbits(self.w(62), 7, 0), sbits(self.w(62), 15, 8))]

    # compensation pixel
    def offset_cp(self, sp):
        o = sbits(self.w(58), 9, 0)
        return o if sp == 0 else o + sbits(self.w(58), 15, 10)

    def alpha_cp(self, sp):
        a = sbits(self.w(57), 9, 0) if False else bits(self.w(57), 9, 0)
        a0 = a.f() / pow2(bits(self.w(32), 15, 12) + 27)
        if sp == 0:
            return a0
        return a0 * (1.0 + sbits(self.w(57), 15, 10).f() / 128.0)

    def k_v_cp(self):
        return sbits(self.w(59), 15, 8).f() / pow2(bits(self.w(56), 11, 8))

    def k_ta_cp(self):
        return sbits(self.w(59), 7, 0).f() / pow2(bits(self.w(56), 7, 4) + 8)

    # interleave correction constants
    def c1(self):
        return sbits(self.w(53), 5, 0).f() / 16.0

    def c2(self):
        return sbits(self.w(53), 10, 6).f() / 2.0

    def c3(self):
        return sbits(self.w(53), 15, 11).f() / 8.0

    # pixels
    def px(self, p):
        return self.w(64 + p)

    def offset(self, p):
        r, c = divmod(p, COLS)
        avg = sbits(self.w(17), 15, 0)
        row = nib(self.w(18 + r // 4), r % 4)
        col = nib(self.w(24 + c // 4), c % 4)
        e = self.w(16)
        return avg + (row << bits(e, 11, 8)) + (col << bits(e, 7, 4)) + (sbits(self.px(p), 15, 10) << bits(e, 3, 0))

    def alpha(self, p):
        r, c = divmod(p, COLS)
        ref = bits(self.w(33), 15, 0)
        row = nib(self.w(34 + r // 4), r % 4)
        col = nib(self.w(40 + c // 4), c % 4)
        e = self.w(32)
        tot = ref + (row << bits(e, 11, 8)) + (col << bits(e, 7, 4)) + (sbits(self.px(p), 9, 4) << bits(e, 3, 0))
        return tot.f() / pow2(bits(e, 15, 12) + 30)

    def k_ta(self, p):
        r, c = divmod(p, COLS)
        w, hi = {(0, 0): (54, 1), (1, 0): (54, 0), (0, 1): (55, 1), (1, 1): (55, 0)}[r % 2, c % 2]
        rc = sbits(self.w(w), 15, 8) if hi else sbits(self.w(w), 7, 0)
        s1 = bits(self.w(56), 7, 4) + 8
        s2 = bits(self.w(56), 3, 0)
        return (rc + (sbits(self.px(p), 3, 1) << s2)).f() / pow2(s1)

    def k_v(self, p):
        r, c = divmod(p, COLS)
        n = {(0, 0): 3, (1, 0): 2, (0, 1): 1, (1, 1): 0}[r % 2, c % 2]
        return nib(self.w(52), n).f() / pow2(bits(self.w(56), 11, 8))

    def interleave(self, p):
        r, c = divmod(p, COLS)
        c2, c3 = self.c2(), self.c3()
        v = [-c3, c2 - c3, -c3, -(c2 + c3)][c % 4]
        return v if r % 2 == 0 else -v

    def failed(self, p):
        return eq(self.px(p), 0, 16)

    def outlier(self, p):
        return extract(self.px(p), 0, 0)

    def alpha_correction(self):
        return alpha_corr(self.k_s_to(), self.corner(), BASIC)


def nib(w, k):
    return sbits(w, 4 * k + 3, 4 * k)


def alpha_corr(ks, ct, basic):
    n = len(ks)
    ac = [None] * n
    ac[basic] = F(1.0)
    for i in range(basic - 1, -1, -1):
        ac[i] = ac[i + 1] / (1.0 + ks[i] * (ct[i + 1] - ct[i]).f())
    for i in range(basic + 1, n):
        ac[i] = ac[i - 1] * (1.0 + ks[i - 1] * (ct[i] - ct[i - 1]).f())
    return ac
