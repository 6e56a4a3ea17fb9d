"""Values kept in the generic type read back as what was put in; anything else is refused."""
import itertools
from ..terms import *
from ..client import blk
from .. import spec
from ..judge import ret, throws, run_client
from .c03 import BASICS, CLS, sym

HARNESS = ["val"]
WHERE = "DBus::Type"
FLOOR = 300
TYPES = ["y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "ay", "(y)", "{ys}"]
ALIGN = {"y": 1, "b": 4, "n": 2, "q": 2, "i": 4, "u": 4, "x": 8, "t": 8, "d": 8, "s": 4, "o": 4, "g": 1, "v": 1, "a": 4, "(": 8, "{": 8}
MORE = ["as", "aay", "a{sv}", "(ii)", "(s(yv))", "a(ii)", "a{s(iv)}", "aa{sa{sv}}", "((i)(s))", "(a{sv}as)", "a{sa{s(ii)}}", "(((y)))", "aaas", "a((y))", "(aai)", "a{o(aya{sv})}"]


def text(code, x):
    if BASICS[code] == "s":
        return x
    if code == "b":
        return lit("1" if x is TRUE else "0")
    return spiece(mk("sapp", "dec", x))


def check(R, P, tier):
    for code in CLS:
        if code == "d":
            continue
        rs = range(8) if BASICS[code] == "s" else itertools.product((FALSE, TRUE), repeat=2) if code == "b" else [None]
        for r in rs:
            x, y = r if code == "b" else (sym(code, "x", r), sym(code, "y"))
            what = "%s%s" % (CLS[code], "" if r is None else " %s and %s" % (x is TRUE, y is TRUE) if code == "b" else " of length %d mod 8" % r)
            T_ = "DBus::Type::asString"
            for k in ("text", "own"):
                run_client(R, P, "text", "%s of %s" % ("asString" if k == "text" else "member asString", what), "%s_%s" % (k, code), {"x": x}, [ret(text(code, x))], T_)
            run_client(R, P, "text", "copy of %s" % what, "text_copy_" + code, {"x": x}, [ret(text(code, x))], T_)
            for k, n in (("array", "Array"), ("struct", "Struct"), ("call", "parameters")):
                run_client(R, P, "container", "%s of two %s, the other copy changed" % (n, what), "in_%s_%s" % (k, code), {"x": x, "y": y},
                           [ret(cat(text(code, x), lit(","), text(code, y)))], WHERE)
    run_client(R, P, "text", "asString of nothing", "text_none", {}, [ret(EMPTY)], "DBus::Type::asString")
    I = lambda w: atom(isym(mk("nm", "x"), w, False))
    run_client(R, P, "number", "asByte of Byte", "byte_y", {"x": I(8)}, [ret(I(8))], "DBus::Type::asByte")
    for c, w in (("y", 8), ("q", 16), ("u", 32), ("v", 32)):
        run_client(R, P, "number", "asUint32 of type %s" % c, "uint32_" + c, {"x": I(w)}, [ret(I(w))], "DBus::Type::asUint32")
    b = sym("b", "x")
    run_client(R, P, "number", "asUint32 of Boolean", "uint32_b", {"x": b}, [ret(num(1), b), ret(num(0), neg(b))], "DBus::Type::asUint32")
    for c in "sogu":
        x = sym(c, "x", 3 if c != "u" else None)
        t = text(c, x)
        run_client(R, P, "variant", "variant of %s" % CLS[c], "variant_" + c, {"x": x}, [ret(cat(t, lit(","), t, lit(",v" + c)))], "DBus::Type::Variant")
    for k, t in enumerate(TYPES):
        K = {"k": num(k)}
        run_client(R, P, "kind", "type of a value of type %s" % t, "type_of", K, [ret(lit(t))], "DBus::Type::getMarshallingSignature")
        for n, want, v in (("array", "ay", num(1)), ("struct", "(y)", num(1)), ("signature", "g", lit("x")), ("variant", "v", lit("1"))):
            run_client(R, P, "kind", "ref%s of a value of type %s" % (n.capitalize(), t), "ref_" + n, K, [ret(v)] if t == want else [throws()], "DBus::Type::ref" + n.capitalize())
    x = blk("x", 8, 5)
    U, B = atom(isym(mk("nm", "y"), 32, False)), atom(isym(mk("nm", "z"), 8, False))
    D = lambda a: spiece(mk("sapp", "dec", a))
    run_client(R, P, "container", "parameters of different types", "mixed", {"x": x, "y": U, "z": B},
               [ret(cat(x, lit(","), D(U), lit(","), D(B), lit(",suy;"), x, lit(","), D(U), lit(",su;"), x, lit(",s")))], "DBus::Message::MethodCallParametersIn")
    # signatures
    for t in TYPES[:13]:
        run_client(R, P, "kind", "create %s" % t, "created", {"s": lit(t)}, [ret(lit(t))], "DBus::Type::create")
    for c in map(chr, range(33, 127)):
        if c not in ALIGN:
            run_client(R, P, "kind", "create %s" % c, "created", {"s": lit(c)}, [throws()], "DBus::Type::create")
    every = TYPES[:15] + MORE
    for t in every:
        for rest in ("", "u", "a(yv)"):
            run_client(R, P, "kind", "alignment of %s%s" % (t, rest), "alignment", {"s": lit(t + rest)}, [ret(num(ALIGN[t[0]]))], "DBus::Type::getAlignment")
        for p in ("", "u", "(s)a{yy}"):
            for q in ("", "u", "(s)", "ay"):
                run_client(R, P, "complete type", "at %d of %s" % (len(p), p + t + q), "first_type", {"s": lit(p + t + q), "i": num(len(p))}, [ret(lit(t))], "DBus::Type::extractSignature")
    for s in ("(", "(i", "((i)", "a(", "a(ii", "a{s", "a{s(v)", "(a{sv}", "a{sv"):
        run_client(R, P, "complete type", "unfinished %s" % s, "first_type", {"s": lit(s), "i": num(0)}, [throws()], "DBus::Type::extractSignature")


EXPLAIN = ("Client programs put values of every type into the generic type, variants, containers and call parameters, copy them and read them back, with symbolic numbers and texts; "
           "what is read must equal what was put in. Every pair of type kept and type asked for, every printable type code and complete types between others are evaluated as well.")
