"""Message framing does not depend on how the bytes are cut into deliveries."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .c07 import txt, NAME, NEEDS, CODE, WHERE

HARNESS = ["proto"]


# the last field of each kind of message is followed by padding
RES = {"path": 3, "ifc": 6, "member": 1, "dest": 4, "sender": 2, "x": 2}


def raw_of(kind, big, tag="", body=True, halves=None):
    """(bytes of a message, what its handler is told); halves: {text: (a, b)} to write a text as two symbols"""
    t = {n: (cat(*halves[n]) if halves and n in halves else txt(n + tag, RES[n])) for n in RES}
    t["reply"] = u32("reply" + tag)
    fs = NEEDS[kind] + ["sender"]
    ps = [("s", t["x"]), ("u", u32("y" + tag)), ("u", u32("z" + tag))] if body else []
    m = message(kind, num(1), u32("serial" + tag), [field(CODE[f], t[f]) for f in fs], ps, big)
    kw = {f: t[f] for f in fs}
    if kind == ERROR and ps:
        kw["text"] = t["x"]
    return m, dict(serial=u32("serial" + tag), params=ps, answer="0", **kw)


def cut(m, i, k):
    """m in two, after k octets of its piece i"""
    ps = list(m.a[0])
    before, after = mk("cat", tuple(ps[:i])), mk("cat", tuple(ps[i + 1:]))
    p = ps[i]
    if isinstance(p, bytes):
        return cat(before, lit(p[:k])), cat(lit(p[k:]), after)
    n = p.a[1] if p.op == "le" else 1
    return cat(before, substr(spiece(p), ZERO, num(k))), cat(substr(spiece(p), num(k), num(n - k)), after)


def at(m, k):
    """m in two, after its first k octets (all of constant length)"""
    for i, p in enumerate(m.a[0]):
        n = len(p) if isinstance(p, bytes) else p.a[1] if p.op == "le" else 1 if p.op == "chr" else None
        if n is None:
            raise ValueError("cut beyond the fixed part")
        if k < n:
            return cut(m, i, k)
        k -= n
    return m, EMPTY


def splits(kind, big, body):
    """every place where a delivery can end: (what, first, second, note)"""
    m, kw = raw_of(kind, big, body=body)
    for i, p in enumerate(m.a[0]):
        n = len(p) if isinstance(p, bytes) else p.a[1] if p.op == "le" else 1 if p.op == "chr" else 0
        for k in range(n):
            a, b = cut(m, i, k)
            yield "octet %d of piece %d" % (k, i), a, b, kw
    for name in NEEDS[kind] + ["sender"] + (["x"] if body else []):
        if name == "reply":
            continue
        for ra in sorted({0, 3, RES[name]}):
            h = (blk(name + "_a", 8, ra, 1 << 14), blk(name + "_b", 8, (RES[name] - ra) % 8, 1 << 14))
            m2, kw2 = raw_of(kind, big, body=body, halves={name: h})
            ps = list(m2.a[0])
            i = ps.index(h[0].a[0][0])
            yield "inside text %s after %d mod 8 octets" % (name, ra), mk("cat", tuple(ps[:i + 1])), mk("cat", tuple(ps[i + 1:])), kw2
    yield "end", m, EMPTY, kw


def check(R, P, tier):
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        for kind in (CALL, RETURN, ERROR, SIGNAL):
            for body in (True, False):
                for what, a, b, kw in splits(kind, big, body):
                    n = Note().add(kind, **kw).b
                    run_client(R, P, "split", "%s%s, %s, cut at %s" % (NAME[kind], "" if body else " without body", e, what), "recv2", {"t": a, "u": b},
                               [ret(cat(n, lit("||")) if what == "end" else cat(lit("|"), n, lit("|")))], WHERE)
        # several messages in one delivery, and a cut in the second
        for k1, k2 in ((CALL, SIGNAL), (SIGNAL, RETURN), (RETURN, ERROR), (ERROR, CALL)):
            for b1 in (True, False):
                m1, w1 = raw_of(k1, big, "1", b1)
                m2, w2 = raw_of(k2, not big, "2", not b1)
                n = Note().add(k1, **w1).add(k2, **w2).b
                run_client(R, P, "several", "%s then %s in one delivery, %s first" % (NAME[k1], NAME[k2], e), "recv1", {"t": cat(m1, m2)}, [ret(cat(n, lit("|")))], WHERE)
                for k in (1, 4, 12, 15, 16, 17, 23):
                    a, b = at(m2, k)
                    n1, n2 = Note().add(k1, **w1).raw("|").b, Note().add(k2, **w2).raw("|").b
                    run_client(R, P, "several", "%s and %d octets of a %s, then the rest, %s first" % (NAME[k1], k, NAME[k2], e), "recv2", {"t": cat(m1, a), "u": b}, [ret(cat(n1, n2))], WHERE)
                    # in three deliveries
                    c, d = at(m1, k)
                    run_client(R, P, "several", "%d octets of a %s, the rest with %d octets of a %s, the rest, %s first" % (k, NAME[k1], k, NAME[k2], e), "recv3", {"t": c, "u": cat(d, a), "w": b},
                               [ret(cat(lit("|"), n1, n2))], WHERE)
        for kind in (CALL, SIGNAL):
            for body in (True, False):
                m, kw = raw_of(kind, big, body=body)
                for k1, k2 in ((1, 2), (3, 15), (4, 16), (11, 13), (12, 16), (15, 16), (15, 17), (16, 17), (16, 23), (1, 23)):
                    x, c = at(m, k2)
                    a, b = at(x, k1)
                    run_client(R, P, "pieces", "%s%s, %s, cut at octets %d and %d" % (NAME[kind], "" if body else " without body", e, k1, k2), "recv3", {"t": a, "u": b, "w": c},
                               [ret(cat(lit("||"), Note().add(kind, **kw).b, lit("|")))], WHERE)


FLOOR = 500
EXPLAIN = ("Abstract interpretation of the parser on messages delivered in two or three pieces: the cut is placed at every octet of the fixed parts and (symbolically, by residue) inside every text of messages of all four types, "
           "both byte orders, with and without body, and across several messages in one delivery; the handlers must be told exactly what one whole delivery tells them, once, in order, and all bytes must be taken over.")
ASSUME = ["texts below 512 kB", "at most two messages and three pieces per instance"]
