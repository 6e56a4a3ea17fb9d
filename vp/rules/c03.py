"""Encoder layout: every value is laid out at the offset, with the padding and the bytes the format prescribes."""
from ..terms import *
from ..client import blk, zeros
from .. import spec
from ..judge import ret, throws, run_client

BASICS = {"y": (8, False), "b": None, "n": (16, True), "q": (16, False), "i": (32, True), "u": (32, False), "x": (64, True), "t": (64, False), "d": "d", "s": "s", "o": "s", "g": "s"}
CLS = {"y": "Byte", "b": "Boolean", "n": "Int16", "q": "Uint16", "i": "Int32", "u": "Uint32", "x": "Int64", "t": "Uint64", "d": "Double",
       "s": "String", "o": "ObjectPath", "g": "Signature"}
HARNESS = ["enc"]


def sym(code, name, r=None):
    """symbolic argument of a basic type"""
    b = BASICS[code]
    if b is None:
        return mk("batom", mk("nm", name))
    if b == "d":
        return mk("dsym", mk("nm", name))
    if b == "s":
        return ssym(mk("nm", name)) if r is None else blk(name, 8, r)
    return atom(isym(mk("nm", name), *b))


def guard(strs, exp, limit=255):
    """an over-long signature cannot be written"""
    c = TRUE
    for s in strs:
        c = mk_and(c, ge0(sub(num(limit), slen(s))))
    return [ret(exp, c), throws(neg(c))] if c is not TRUE else [ret(exp)]


def check(R, P, tier):
    res = range(8)
    for code in BASICS:
        gl = lambda x: guard([x] if code == "g" else [], None)
        for r in res:
            pre = cat(blk("P", 8, r))
            x = sym(code, "x")
            exp = spec.encode(pre, (code, x))
            cs = guard([x] if code == "g" else [], exp)
            for kind, what in (("enc", "%s::marshall" % CLS[code]), ("encg", "Type::marshallData"), ("wr", "MessageOStream::write")):
                if kind == "wr" and code == "o":
                    continue
                run_client(R, P, "layout", "%s(%s) at offset %d mod 8" % (what, code, r), "%s_%s" % (kind, code), {"pre": pre, "x": x}, cs, "DBus::Type::" + CLS[code])
        run_client(R, P, "signature", "signature of %s" % CLS[code], "sig_" + code, {"x": sym(code, "x")}, [ret(lit(code))], "DBus::Type::getMarshallingSignature")
    # padding primitives
    for r in res:
        pre = blk("P", 8, r)
        for k in (2, 4, 8):
            run_client(R, P, "padding", "pad%d at offset %d mod 8" % (k, r), "wr_pad%d" % k, {"pre": pre}, [ret(cat(pre, zeros(-r % k)))], "DBus::MessageOStream::pad%d" % k)
        for r2 in (0, 1, 5):
            x = blk("x", 8, r2)
            run_client(R, P, "padding", "append a stream at offset %d mod 8" % r, "wr_stream", {"pre": pre, "x": x}, [ret(cat(pre, x))], "DBus::MessageOStream::write")
    # arrays
    for code in BASICS:
        for r in res:
            pre = blk("P", 8, r)
            xs = res if BASICS[code] == "s" else [None]
            for n in (0, 1, 2):
                for rx in (xs if n == 2 else [None] if BASICS[code] != "s" else [3]):
                    x, y = sym(code, "x", rx), sym(code, "y")
                    e = [x, y][:n]
                    exp = spec.encode(pre, ("a" + code, e))
                    run_client(R, P, "array", "array of %d %s at offset %d mod 8%s" % (n, CLS[code], r, "" if rx is None else ", first of length %d mod 8" % rx), "arr_" + code,
                               {"pre": pre, "x": x, "y": y, "n": num(n)}, guard(e if code == "g" else [], exp), "DBus::Type::Array::marshall")
    U32, U8, U16, U64 = (atom(isym(mk("nm", n), w, False)) for n, w in (("y", 32), ("x", 8), ("y", 16), ("y", 64)))
    D = mk("dsym", mk("nm", "w"))
    for r in res:
        pre = blk("P", 8, r)
        for n in (0, 1, 2):
            for rx in (res if n else [0]):
                x = blk("x", 8, rx)
                exp = spec.encode(pre, ("av", [("s", x), ("u", U32)][:n]))
                run_client(R, P, "array", "array of %d variants at offset %d mod 8, text of length %d mod 8" % (n, r, rx), "arr_v", {"pre": pre, "x": x, "y": U32, "n": num(n)}, [ret(exp)], "DBus::Type::Array::marshall")
                exp = spec.encode(pre, ("a{su}", [(x, U32)] * n))
                run_client(R, P, "array", "array of %d dictionary entries at offset %d mod 8, key of length %d mod 8" % (n, r, rx), "arr_dict", {"pre": pre, "x": x, "y": U32, "n": num(n)}, [ret(exp)], "DBus::Type::Array::marshall")
            exp = spec.encode(pre, ("a(yt)", [(U8, U64)] * n))
            run_client(R, P, "array", "array of %d structures at offset %d mod 8" % (n, r), "arr_struct", {"pre": pre, "x": U8, "y": U64, "n": num(n)}, [ret(exp)], "DBus::Type::Array::marshall")
        for rx in res:
            z = blk("z", 8, rx)
            exp = spec.encode(pre, ("(yqsd)", [U8, U16, z, D]))
            run_client(R, P, "structure", "structure at offset %d mod 8, text of length %d mod 8" % (r, rx), "struct_mix", {"pre": pre, "x": U8, "y": U16, "z": z, "w": D}, [ret(exp)], "DBus::Type::Struct::marshall")
            ux = atom(isym(mk("nm", "x"), 32, False))
            run_client(R, P, "dictionary entry", "entry at offset %d mod 8" % r, "dict_us", {"pre": pre, "x": ux, "y": z}, [ret(spec.encode(pre, ("{us}", [ux, z])))], "DBus::Type::DictEntry::marshall")
        s = ssym(mk("nm", "x"))
        for c in "sog":
            exp = spec.encode(pre, ("v", (c, s)))
            run_client(R, P, "variant", "variant of %s at offset %d mod 8" % (CLS[c], r), "var_" + c, {"pre": pre, "x": s}, guard([s] if c == "g" else [], exp), "DBus::Type::Variant::marshall")
        ux = atom(isym(mk("nm", "x"), 32, False))
        run_client(R, P, "variant", "variant of Uint32 at offset %d mod 8" % r, "var_u", {"pre": pre, "x": ux}, [ret(spec.encode(pre, ("v", ("u", ux))))], "DBus::Type::Variant::marshall")


FLOOR = 1000
EXPLAIN = ("Path-partitioned abstract interpretation of the public encoding API (constructors, marshall, Type::marshallData, MessageOStream) on client programs with symbolic values; "
           "one instance per type, start offset modulo 8, element count (0, 1, 2) and text length modulo 8. On every path the abstract text of the stream must equal the text an "
           "independent encoder written from the wire format gives; an alarm needs a valuation of the symbols that satisfies the path and separates both texts.")
ASSUME = ["host is little endian (the configuration built here)", "arrays of up to two elements; longer arrays repeat the second element's step"]
