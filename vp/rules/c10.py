"""Every message reaches the handler of its type once; what goes wrong with one does not touch the next."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .c07 import txt, NAME, NEEDS, CODE, WHERE
from .c08 import raw_of, at

HARNESS = ["proto"]
KINDS = (CALL, RETURN, ERROR, SIGNAL)

# signature, body: contents that cannot be decoded (or are not there)
BAD = [
    ("s", lit(b"\x05\0\0\0abc\0"), "a string longer than the body"),
    ("s", lit(b"\xff\xff\xff\xff\0"), "a string length of 2^32-1"),
    ("su", lit(b"\x01\0\0\0a\0"), "the second parameter missing"),
    ("s", lit(b"\x01"), "a cut string length"),
    ("z", lit(b"\x01\0\0\0"), "an unknown type code"),
    ("a", lit(b"\x01\0\0\0\0"), "an array of nothing"),
    ("as", lit(b"\x09\0\0\0\x01\0\0\0a\0"), "an array longer than the body"),
    ("ai", lit(b"\x03\0\0\0\0\0\0"), "an array that ends inside an element"),
    ("(s}", lit(b"\x01\0\0\0a\0"), "mismatched brackets"),
    ("v", lit(b"\x01z\0\0"), "a variant of unknown type"),
    ("v", lit(b"\xc8s\0\0"), "a variant signature longer than the body"),
    ("g", lit(b"\xc8s\0"), "a signature longer than the body"),
    ("x", lit(b"\x01\0\0\0"), "half a number"),
]


def broken(kind, sig, body, big):
    t = {n: txt(n + "0", 3) for n in CODE}
    t["reply"] = u32("reply0")
    fs = [field(CODE[f], t[f]) for f in NEEDS[kind] + ["sender"]]
    fs.append(field(SIG, lit(sig)))
    return cat(header(kind, num(1), slen(body), u32("serial0"), fs, big), body)


def unknown(ty, big, body=True):
    b = [("s", txt("x0", 5))] if body else []
    return message(ty, u8("fl0"), u32("serial0"), [field(PATH, txt("path0", 2)), field(SENDER, txt("sender0", 5))], b, big)


def check(R, P, tier):
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        for k1 in KINDS:
            m1, w1 = raw_of(k1, big, "1")
            n1 = Note().add(k1, **w1).b
            # a failing handler of a message without a body
            m0, w0 = raw_of(k1, big, "1", False)
            n0 = Note().add(k1, **w0).b
            for k2 in KINDS:
                m2, w2 = raw_of(k2, big, "2")
                n2 = Note().add(k2, **w2).b
                w = "%s without a body, then %s, %s" % (NAME[k1], NAME[k2], e)
                run_client(R, P, "failing handler", w + ", two deliveries", "recv_throwing", {"t": m0, "u": m2}, [ret(cat(n0, lit("x|"), n2, lit("x|")))], WHERE)
                run_client(R, P, "failing handler", w + ", one delivery", "recv_throwing", {"t": cat(m0, m2), "u": EMPTY}, [ret(cat(n0, lit("x"), n2, lit("x||")))], WHERE)
            # every pair of types, in one delivery and in two
            for k2 in KINDS:
                m2, w2 = raw_of(k2, big, "2", False)
                n2 = Note().add(k2, **w2).b
                w = "%s then %s, %s" % (NAME[k1], NAME[k2], e)
                run_client(R, P, "once", w + ", one delivery", "recv1", {"t": cat(m1, m2)}, [ret(cat(n1, n2, lit("|")))], WHERE)
                run_client(R, P, "once", w + ", two deliveries", "recv2", {"t": m1, "u": m2}, [ret(cat(n1, lit("|"), n2, lit("|")))], WHERE)
                run_client(R, P, "failing handler", w + ", one delivery", "recv_throwing", {"t": cat(m1, m2), "u": EMPTY}, [ret(cat(n1, lit("x"), n2, lit("x||")))], WHERE)
                run_client(R, P, "failing handler", w + ", two deliveries", "recv_throwing", {"t": m1, "u": m2}, [ret(cat(n1, lit("x|"), n2, lit("x|")))], WHERE)
                a, b = at(m2, 9)
                run_client(R, P, "failing handler", w + ", divided in the second message", "recv_throwing", {"t": cat(m1, a), "u": b}, [ret(cat(n1, lit("x|"), n2, lit("x|")))], WHERE)
            # a message of unknown type before and between
            for ty, tn, cond in ((ZERO, "0", TRUE), (u8("type"), "5 to 255", ge0(addc(u8("type"), -5)))):
                for body in (True, False):
                    m = unknown(ty, big, body)
                    w = "message of type %s%s, then %s, %s" % (tn, " with a body" if body else "", NAME[k1], e)
                    run_client(R, P, "unknown type", w, "recv1", {"t": cat(m, m1)}, [ret(cat(n1, lit("|")), cond)], WHERE, assume=[cond])
                    run_client(R, P, "unknown type", w + ", two deliveries", "recv2", {"t": m, "u": m1}, [ret(cat(lit("|"), n1, lit("|")), cond)], WHERE, assume=[cond])
            # a body that cannot be decoded
            for k0 in KINDS:
                for sig, body, what in BAD:
                    if big and sig != "s":
                        continue
                    m = broken(k0, sig, body, big)
                    run_client(R, P, "bad body", "%s with %s, then %s, %s" % (NAME[k0], what, NAME[k1], e), "recv1", {"t": cat(m, m1)}, [ret(cat(n1, lit("|")))], WHERE)
            # started afresh after reset()
            for k2 in KINDS:
                m2, w2 = raw_of(k2, not big, "2")
                n2 = Note().add(k2, **w2).b
                for k in (1, 12, 15, 16, 17, 23):
                    a, b = at(m1, k)
                    run_client(R, P, "reset", "reset after %d octets of a %s, then %s, %s first" % (k, NAME[k1], NAME[k2], e), "recv_reset", {"t": a, "u": m2}, [ret(cat(lit("|"), n2, lit("|")))], WHERE)
                # all of the header and part of the body
                h = (blk("x1_a", 8, 3, 1 << 14), blk("x1_b", 8, 7, 1 << 14))
                m, kw = raw_of(k1, big, "1", halves={"x1": h, "x": h})
                ps = list(m.a[0])
                i = ps.index(h[0].a[0][0])
                a = mk("cat", tuple(ps[:i + 1]))
                run_client(R, P, "reset", "reset inside the body of a %s, then %s, %s first" % (NAME[k1], NAME[k2], e), "recv_reset", {"t": a, "u": m2}, [ret(cat(lit("|"), n2, lit("|")))], WHERE)
                run_client(R, P, "reset", "reset after a whole %s, then %s, %s first" % (NAME[k1], NAME[k2], e), "recv_reset", {"t": m1, "u": m2}, [ret(cat(n1, lit("|"), n2, lit("|")))], WHERE)


FLOOR = 400
EXPLAIN = ("Abstract interpretation of the parser on sequences of two messages: all pairs of types in one and several deliveries, with handlers that throw, with messages of unknown type, with bodies that cannot be decoded, and after reset() "
           "in the middle of a message; each well-formed message must reach exactly the handler of its type, exactly once, in order.")
ASSUME = ["texts below 512 kB", "malformed bodies are a fixed list of representative faults"]
