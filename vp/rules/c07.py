"""What a handler is told about a received message is what the message says."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import ret, anything, run_client
from ..wire import *

HARNESS = ["proto"]
WHERE = "DBus::MessageProtocol::onReceiveData / DBus::Message"
FIT = 1 << 16  # every text below 512 kB: the size limits are another property


def txt(n, r):
    return blk(n, 8, r, FIT)


def values(r=0):
    return {"path": txt("path", (3 + r) % 8), "ifc": txt("ifc", (6 + 3 * r) % 8), "member": txt("member", (1 + r) % 8), "dest": txt("dest", (4 + 5 * r) % 8), "sender": txt("sender", (7 + r) % 8), "reply": u32("reply")}


CODE = {"path": PATH, "ifc": IFC, "member": MEMBER, "dest": DEST, "sender": SENDER, "reply": REPLY}
NEEDS = {CALL: ["path", "member"], RETURN: ["reply"], ERROR: ["reply"], SIGNAL: ["path", "ifc", "member"]}
NAME = {CALL: "method call", RETURN: "method return", ERROR: "error", SIGNAL: "signal"}
PARAMS = {
    "no parameters": [],
    "(s)": [("s", txt("x", 2))],
    "(su)": [("s", txt("x", 5)), ("u", u32("y"))],
    "(us)": [("u", u32("y")), ("s", txt("x", 1))],
}


def cases(kind, flags, **kw):
    if kind == CALL:
        return [ret(Note().add(kind, answer=a, **kw).raw("|").b, c) for c, a in answers(flags)]
    return [ret(Note().add(kind, **kw).raw("|").b)]


def one(R, P, rule, inst, kind, fields, params=(), big=False, extra=(), flags=None, front=()):
    """one message; fields: names from values() or (code, ...) header field values"""
    flags = u8("flags") if flags is None else flags
    v = values(kind)
    fs = list(front) + [field(CODE[f], v[f]) for f in fields] + list(extra)
    if kind == ERROR:
        fs.insert(len(front), field(ERRNAME, txt("errname", 5)))
    m = message(kind, flags, u32("serial"), fs, params, big)
    kw = {f: v[f] for f in fields}
    if kind == ERROR and params and params[0][0] == "s":
        kw["text"] = params[0][1]
    run_client(R, P, rule, inst, "recv1", {"t": m}, cases(kind, flags, serial=u32("serial"), params=params, **kw), WHERE)


def check(R, P, tier):
    names = list(CODE)
    for kind in (CALL, RETURN, ERROR, SIGNAL):
        opt = [n for n in names if n not in NEEDS[kind]]
        subsets = [list(s) for k in range(len(opt) + 1) for s in itertools.combinations(opt, k)]
        for big in (False, True):
            e = "big-endian" if big else "little-endian"
            for s in subsets:
                one(R, P, "fields", "%s with %s, %s" % (NAME[kind], ", ".join(NEEDS[kind] + s), e), kind, NEEDS[kind] + s, big=big)
            for pn, ps in PARAMS.items():
                one(R, P, "parameters", "%s with %s, %s" % (NAME[kind], pn, e), kind, NEEDS[kind] + ["sender"], ps, big)
        # any order
        for o in itertools.permutations(NEEDS[kind] + ["sender", "dest"] if len(NEEDS[kind]) < 3 else NEEDS[kind] + ["sender"]):
            one(R, P, "order", "%s with fields in the order %s" % (NAME[kind], ", ".join(o)), kind, list(o))
        # fields that must be ignored
        for code in (10, 11, 127, 255):
            for big in (False, True):
                one(R, P, "unknown field", "%s with an unknown header field %d first, %s" % (NAME[kind], code, "big-endian" if big else "little-endian"), kind, NEEDS[kind], big=big, front=[(num(code), ("s", txt("q", 3)))])
        one(R, P, "unknown field", "%s with a unix-fds field" % NAME[kind], kind, NEEDS[kind], extra=[(num(9), ("u", u32("fds")))])


FLOOR = 150
EXPLAIN = ("Abstract interpretation of the receive path from the bytes of a message (built by an independent encoder: every subset and many orders of header fields, both byte orders, symbolic texts, serials, flags and parameters) "
           "to the registered handler: every accessor of the message handed over must return the term that was put on the wire, absent fields the empty text or zero.")
ASSUME = ["texts below 512 kB (the size limits are property C09)", "parameters are strings and unsigned 32-bit integers; decoding of the other types is property C04"]
