"""Messages larger than the protocol allows are refused before they are buffered."""
from ..terms import *
from ..judge import ret, throws, run_client
from ..wire import *
from .c07 import txt, values, CODE, NEEDS, NAME, cases

HARNESS = ["proto"]
WHERE = "DBus::MessageProtocol::onReceiveData"
ARRAY, MESSAGE = 67108864, 134217728


def above(x, n):
    return ge0(addc(x, -n - 1))


def start(kind, big, alen, blen=None):
    """the first 16 octets of a message"""
    e = spec_enc(big)
    e.raw(lit(b"B" if big else b"l"))
    for x in (num(kind), num(0), num(1)):
        e.val("y", x)
    e.val("u", blen if blen is not None else u32("blen"))
    e.val("u", u32("serial"))
    e.val("u", alen)
    return e.b


def spec_enc(big):
    from .. import spec
    return spec.Enc(EMPTY, big)


def check(R, P, tier):
    from .c08 import at
    alen = u32("alen")
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        for kind in (CALL, RETURN, ERROR, SIGNAL):
            b = start(kind, big, alen)
            limit = above(alen, ARRAY)
            some = ge0(addc(alen, -1))
            run_client(R, P, "header fields", "%s, %s, any announced length of the header fields" % (NAME[kind], e), "recv1", {"t": b}, [throws(limit), ret(lit("|"), mk_and(neg(limit), some))], WHERE)
            for k in (1, 7, 12, 13, 15):
                x, y = at(b, k)
                run_client(R, P, "header fields", "%s, %s, any announced length of the header fields, delivered in two pieces cut at %d" % (NAME[kind], e, k), "recv2", {"t": x, "u": y},
                           [throws(limit), ret(lit("||"), mk_and(neg(limit), some))], WHERE)
            # the whole header has arrived, nothing of the body has
            for r in range(8):
                v = values(r)
                fs = [field(CODE[f], v[f]) for f in NEEDS[kind] + ["sender"]]
                blen = u32("blen")
                h = header(kind, num(0), blen, u32("serial"), fs, big)
                over = above(add(slen(h), blen), MESSAGE)
                body = ge0(addc(blen, -1))
                w = "%s, %s, text lengths %d mod 8 and on, any announced body length" % (NAME[kind], e, r)
                run_client(R, P, "body", w, "recv1", {"t": h}, [throws(over), ret(lit("|"), mk_and(neg(over), body))], WHERE)
                x, y = at(h, 16)
                run_client(R, P, "body", w + ", delivered in two pieces", "recv2", {"t": x, "u": y}, [throws(over), ret(lit("||"), mk_and(neg(over), body))], WHERE)


FLOOR = 150
EXPLAIN = ("Abstract interpretation of the parser on message beginnings with symbolic announced lengths (all 2^32 values), both byte orders, whole and divided: above the limits of the protocol (array 64 MiB, message 128 MiB) it must refuse "
           "as soon as the announcement can be read, and up to the limits wait for the rest.")
ASSUME = ["texts below 512 kB"]
