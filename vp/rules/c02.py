"""Decoding any received bytes ends: each value takes something of the input, and nesting is limited."""
import itertools
from ..terms import *
from ..client import text
from .. import spec
from ..interp import Undecided, addr
from ..judge import ret, throws, run_client
from .c01 import region, isy, clean, create, align
from .c03 import BASICS, CLS

HARNESS = ["dec"]
ALPHABET = "ybnqiuxtdsogvah({"


class Nested:
    """a nested value: decoding it fails, or consumes at least one byte (which is what the rule shows of every type)"""

    def __init__(self):
        self.n = 0

    def __call__(self, ip, st, o, a, nd):
        self.n += 1
        f = [x for x in ip.P.find("DBus::MessageIStream::read") if len(x["ps"]) == 2 and "string" in x["ps"][0]["t"]]
        if len(f) != 1:
            raise Undecided("MessageIStream::read(std::string&, size_t)")
        k = isy(clean(ip, "k"))
        st.facts = st.facts | {ge0(addc(k, -1))}
        root = ("L", "nestbuf%d" % self.n)
        ip.rootty[root] = "std::basic_string<char>"
        st.store[root] = EMPTY
        th = st.copy()
        ip.throw(th, "std::runtime_error", nd)
        return [(s, VOID) for s, v in ip.call_fn(f[0], a[1], [addr(root), k], st, nd)]


def nest(kind, d, leaf=("y", num(7))):
    """(signature, value) of a value nested d containers deep"""
    sig, v = leaf
    for i in range(d):
        k = kind[i % len(kind)]
        if k == "a":
            # an array of dictionary entries is one container of each kind
            sig, v = "a" + sig, [v]
        elif k == "(":
            sig, v = "(" + sig + ")", [v]
        elif k == "{":
            sig, v = "a{y" + sig + "}", [[num(3), v]]
        else:
            sig, v = "v", (sig, v)
    return sig, v


def check(R, P, tier):
    rg = region(("d", "size"))
    sig = ssym(mk("nm", "sig"))
    never = [throws(TRUE)]
    W = "DBus::Type::%s::unmarshall"
    for c in BASICS:
        run_client(R, P, "progress", "%s from any bytes at any offset" % CLS[c], "progress_" + c, {"sig": lit(c)}, never, W % CLS[c], **rg)
    for c, pre in (("a", "a"), ("r", "("), ("e", "{"), ("v", "v")):
        what = {"a": "Array", "r": "Struct", "e": "DictEntry", "v": "Variant"}[c]
        cuts = {"DBus::Type::unmarshallData": Nested(), "DBus::Type::create": create, "DBus::Type::getAlignment": align}
        run_client(R, P, "progress", "%s of any signature from any bytes, contents arbitrary" % what, "progress_" + c, {"sig": lit("v") if c == "v" else cat(lit(pre), sig)}, never, W % what, cuts=cuts, **rg)
    for s in ("ay", "as", "a(su)", "a{sv}", "av", "(yyyyuua(yv))", "(s)", "(ay)", "{su}", "{yv}", "a{s(yt)}", "()", "a()", "(()", "{}", "a", "aa", "a(", "({yy}"):
        c = {"(": "r", "{": "e"}.get(s[0], s[0])
        run_client(R, P, "progress", "%s from any bytes, contents arbitrary" % s, "progress_" + c, {"sig": lit(s)}, never, "DBus::Type", cuts={"DBus::Type::unmarshallData": Nested()}, **rg)
    # what is not a type is refused, and not taken for a value of no bytes
    for c in range(256):
        if chr(c) not in ALPHABET:
            run_client(R, P, "unknown types", "the code %d" % c, "progress_sig", {"sig": text(bytes([c]))}, never, "DBus::Type::create/unmarshallData", **rg)
            if c in (0, 1, 32, 97 + 25, 127, 128, 255) or tier == "thorough":
                run_client(R, P, "unknown types", "the code %d and any more" % c, "progress_sig", {"sig": cat(text(bytes([c])), sig)}, never, "DBus::Type::create/unmarshallData", **rg)
    run_client(R, P, "unknown types", "no code at all", "progress_sig", {"sig": EMPTY}, never, "DBus::Type::create/unmarshallData", **rg)
    # what is taken of a signature is never empty
    i = isy("i")
    run_client(R, P, "signature", "the next type of any signature at any position inside it is not empty, or refused", "taken", {"sig": sig, "i": i}, [ret(ONE)], "DBus::Type::extractSignature", assume=[ge0(addc(sub(slen(sig), i), -1))])
    for n in range(1, 5 if tier == "thorough" else 4):
        for t in itertools.product("ya(){}", repeat=n):
            s = "".join(t)
            for k in range(n):
                run_client(R, P, "signature", "the next type of %s at %d" % (s, k), "taken", {"sig": lit(s), "i": num(k)}, [ret(ONE)], "DBus::Type::extractSignature")
    # nesting
    KINDS = {"a": "arrays", "(": "structures", "{": "dictionaries", "v": "variants", "a(": "arrays of structures", "v(": "structures in variants", "va": "arrays in variants", "v{": "dictionaries in variants", "{(": "dictionaries of structures", "a(v": "variants, structures, arrays"}
    WD = "DBus::MessageIStream::ContainerScope"
    for kind, what in KINDS.items():
        for big in (False, True):
            e = "big-endian" if big else "little-endian"
            # a dictionary is two containers, and counts as an array and a structure
            most = {"{": 32, "v{": 16, "{(": 16}.get(kind, 32)
            for d in (range(1, most + 1) if tier == "thorough" else (1, 2, 3, 8, 16, 31, 32)):
                if d > most:
                    continue
                s, v = nest(kind, d)
                if len(s) > 255:
                    continue
                run_client(R, P, "nesting", "%s nested %d deep, %s" % (what, d, e), "through", {"sig": lit(s), "d": spec.encode(EMPTY, (s, v), big=big), "swap": TRUE if big else FALSE}, [ret(spec.encode(EMPTY, (s, v)))], WD, rec_limit=300, UNROLL=150, max_depth=4000)
            for d in (72, 96) if tier == "thorough" else (72,):
                s, v = nest(kind, d)
                if len(s) > 200 or any(len(q) > 200 for q in inner(s, v)):
                    continue
                run_client(R, P, "nesting", "%s nested %d deep, %s" % (what, d, e), "taken_in", {"sig": lit(s), "d": spec.encode(EMPTY, (s, v), big=big), "swap": TRUE if big else FALSE}, [throws(TRUE)], WD, rec_limit=700, UNROLL=150, max_steps=20000000, max_depth=4000)
    # many beside each other are no nesting
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        for s, v, what in (("av", [("y", num(i)) for i in range(100)], "100 variants"), ("a(y)", [[num(i)] for i in range(100)], "100 structures"), ("aay", [[num(i)] for i in range(100)], "100 arrays"), ("a{yy}", [[num(i), num(i)] for i in range(100)], "100 entries"),
                           ("av", [("(v)", [("y", num(i))]) for i in range(70)], "70 structures of variants"), ("(" + "(y)" * 80 + ")", [[num(i)] for i in range(80)], "a structure of 80")):
            run_client(R, P, "breadth", "%s beside each other, %s" % (what, e), "through", {"sig": lit(s), "d": spec.encode(EMPTY, (s, v), big=big), "swap": TRUE if big else FALSE}, [ret(spec.encode(EMPTY, (s, v)))], WD, rec_limit=300, UNROLL=150, max_depth=4000, max_steps=20000000)


def inner(s, v):
    """the signatures inside variants"""
    out = []
    todo = [(s, v)]
    while todo:
        s, v = todo.pop()
        if s == "v":
            out.append(v[0])
            todo.append(v)
        elif s[0] == "a":
            todo += [(s[1:], x) for x in v]
        elif s[0] in "({":
            todo += list(zip(spec.split(s[1:-1]), v))
    return out


FLOOR = 100
EXPLAIN = ("Abstract interpretation of every decoder over buffers of unknown content and length: a value that was decoded has taken at least one byte (reading again all that was left before it must fail), by induction over nested values; a code "
           "that is no type is refused; the next type of a signature is never empty. So every loop of the decoder runs out of input. Values nested far beyond the limit of the specification must be refused, and legal nesting and any breadth must not.")
ASSUME = ["the arrays, structures and strings that a loop of the decoder walks are finite, and each turn takes part of them (shown); the loops themselves are not unrolled", "nesting between 33 and 71 containers of one kind is left open"]
