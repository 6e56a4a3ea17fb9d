"""Decoder: reads the wire format, in both byte orders, and consumes exactly the value."""
from ..terms import *
from ..client import blk
from .. import spec
from ..judge import ret, throws, run_client
from .c03 import BASICS, CLS, sym

HARNESS = ["dec"]


def enc_both(code, x, r, big):
    pre = blk("P", 8, r)
    e = spec.Enc(pre, big)
    e.val(code, x)
    return pre, e.b


def host(code, x):
    return spec.encode(EMPTY, (code, x))


def dec_case(R, P, sig, val, r, big, what):
    """decode an encoded value at an offset; the re-encoded value, its type and what remains must agree"""
    pre, d = enc_both(sig, val, r, big)
    tail = blk("T", 1, 0)
    run_client(R, P, "decode", "%s at offset %d mod 8, %s-endian" % (what, r, "big" if big else "little"), "dec_sig",
               {"sig": lit(sig), "d": cat(d, tail), "off": slen(pre), "rest": slen(tail), "swap": TRUE if big else FALSE},
               [ret(cat(host(sig, val), lit("|" + sig + "|"), tail, lit("E")))], "DBus::Type::unmarshallData")


def val(code, name, r=0):
    return blk(name, 1, 0, 255) if code == "g" else blk(name, 8, r) if BASICS[code] == "s" else sym(code, name)


def check(R, P, tier):
    res = range(8)
    for code in BASICS:
        for big in (False, True):
            for r in res:
                for rx in (res if code in "so" and r in (0, 3) else [5]):
                    x = val(code, "x", rx)
                    pre, d = enc_both(code, x, r, big)
                    tail = blk("T", 1, 0)
                    run_client(R, P, "decode", "%s::unmarshall at offset %d mod 8, %s-endian%s" % (CLS[code], r, "big" if big else "little", ", text of length %d mod 8" % rx if BASICS[code] == "s" else ""), "dec_" + code,
                               {"d": cat(d, tail), "off": slen(pre), "rest": slen(tail), "swap": TRUE if big else FALSE},
                               [ret(cat(host(code, x), lit("|"), tail, lit("E")))], "DBus::Type::%s::unmarshall" % CLS[code])
    U32, U8, U16, U64 = (atom(isym(mk("nm", n), w, False)) for n, w in (("y", 32), ("x", 8), ("y", 16), ("y", 64)))
    D = mk("dsym", mk("nm", "w"))
    for big in (False, True):
        for r in res:
            for code in BASICS:
                x, y = val(code, "x", 3), val(code, "y", 6)
                dec_case(R, P, code, x, r, big, CLS[code] + " by signature")
                for n in (0, 1, 2):
                    dec_case(R, P, "a" + code, [x, y][:n], r, big, "array of %d %s" % (n, CLS[code]))
            for rx in (res if tier == "thorough" or r in (0, 5) else [r]):
                s = blk("s", 8, rx)
                t = blk("t", 8, 2)
                wh = "text of length %d mod 8" % rx
                dec_case(R, P, "a{su}", [(s, U32), (t, U32)], r, big, "dictionary, " + wh)
                dec_case(R, P, "a(yt)", [(U8, U64), (U8, U64)], r, big, "array of structures")
                dec_case(R, P, "a{sv}", [(s, ("u", U32)), (t, ("s", s))], r, big, "dictionary of variants, " + wh)
                dec_case(R, P, "(yqsd)", [U8, U16, s, D], r, big, "structure, " + wh)
                dec_case(R, P, "(y(sat)u)", [U8, (s, [U64, U64]), U32], r, big, "nested structure, " + wh)
                dec_case(R, P, "aas", [[s, t], [t]], r, big, "array of arrays, " + wh)
                for c in BASICS:
                    dec_case(R, P, "v", (c, val(c, "s", rx)), r, big, "variant of %s, %s" % (CLS[c], wh))
                dec_case(R, P, "av", [("s", s), ("(yt)", (U8, U64))], r, big, "array of variants, " + wh)


FLOOR = 1500
EXPLAIN = ("Abstract interpretation of the decoder on symbolic encodings produced by an independent specification encoder (both byte orders, every start offset modulo 8, text lengths by residue): "
           "the decoded value, re-encoded at offset 0, its type, and what remains of the input must equal the specification's terms on every path.")
ASSUME = ["host is little endian (the configuration built here)"]
