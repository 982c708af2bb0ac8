from hamming import *

NOTES = ["all 65536 values of every word are symbolic; no assumption",
         "the check bits are those of the datasheet's parity equations (D0..D10, P0..P4)"]
E, D = "h_add_checksum", "h_validate_checksum"
CHECKSUM = 5 << 32


def call(fn, t):
    return lambda: Call(fn, "i64").arg("u16", t)


W = tm.var("w", 16)
V = tm.var("v", 11)
B1, B2 = tm.var("b1", 4), tm.var("b2", 4)


def flip(w, b):
    return tm.xor(w, tm.shl(1, tm.zext(b, 4, 16), 16), 16)


def enc(g, o):
    """add_checksum: everything up to 11 bits gets the datasheet's check bits, anything wider is rejected"""
    wide = not_(eq(extract(W, 15, 11), 0, 5))
    g.eq("encode", o.ret, tm.zext(encode(extract(W, 10, 0)), 16, 64), 64, not_(wide))
    g.true("encode.rejects_wide", not_(eq(extract(o.ret, 39, 32), 0, 8)), wide)
    g.reach("end")


def dec_codeword(g, o):
    g.eq("decode(codeword)", o.ret, tm.zext(V, 11, 64), 64)
    g.reach("end")


def dec_double(g, o):
    w = flip(flip(encode(V), B1), B2)
    g.eq("double error", o.ret, concat([(5, 32), (0, 16), (w, 16)]), 64, not_(eq(B1, B2, 4)))
    g.reach("end")


def dec_any(g, o):
    # decoded: the result is 11 bits wide and its codeword is within distance one; otherwise no codeword is
    ok = eq(extract(o.ret, 63, 32), 0, 32)
    r = extract(o.ret, 10, 0)
    g.true("decoded.narrow", eq(extract(o.ret, 31, 11), 0, 21), ok)
    g.true("decoded.distance", not_(distance_gt(W, encode(r), 1)), ok)
    g.eq("rejected.error", o.ret, concat([(5, 32), (0, 16), (W, 16)]), 64, not_(ok))
    g.true("rejected.no_codeword_near", distance_gt(W, encode(V), 1), not_(ok))
    g.eq("decoded.exactly_if_correctable", ok, correctable(W), 1)
    g.reach("end")


def harnesses(m):
    return [Harness("encode", call(E, W), enc, bounds="all 2^16 words"),
            Harness("decode.codeword", call(D, encode(V)), dec_codeword, bounds="all 2^11 values"),
            Harness("decode.single", call(D, flip(encode(V), B1)), dec_codeword, bounds="all values, all 16 flipped bits"),
            Harness("decode.double", call(D, flip(flip(encode(V), B1), B2)), dec_double, pre=[not_(eq(B1, B2, 4))],
                    bounds="all values, all pairs of flipped bits"),
            Harness("decode.any", call(D, W), dec_any, bounds="all 2^16 words and all 2^11 candidate values")]
