"""Every outgoing message is a well-formed D-Bus message that says what it was built from."""
from ..terms import *
from ..client import blk
from .. import spec
from ..judge import ret, run_client, alternatives
from ..wire import *

HARNESS = ["msg"]
FIT = 1 << 16


def txt(n, r):
    return blk(n, 8, r, FIT)


def u64(n):
    return atom(isym(mk("nm", n), 64, False))


def expect(kind, flags, fields, params=(), tail=EMPTY):
    """(cases) the serial is whatever getSerial() says, and not zero is another property"""

    def val(r):
        v = r.val
        p = v.a[0][0] if v.op == "cat" and v.a[0] else None
        serial = p.a[0] if isinstance(p, T) and p.op == "le" and p.a[1] == 4 else None
        if serial is None:
            b = p[:4] if isinstance(p, bytes) and len(p) >= 4 else None
            serial = num(int.from_bytes(b, "little")) if b else None
        if serial is None:
            return lit("?")
        head = spiece(mk("le", serial, 4))
        got = v
        first = None
        for m in orders(kind, flags, serial, fields, params):
            m = cat(head, m, tail)
            if first is None:
                first = m
            if m is got:
                return m
        return alternatives([first] + [cat(head, m, tail) for m in orders(kind, flags, serial, fields, params)])
    return val


def check(R, P, tier):
    def go(inst, name, args, kind, flags, fields, params=(), cond=TRUE):
        run_client(R, P, "message", inst, name, args, [ret(expect(kind, flags, fields, params), cond)], "DBus::Message")

    for r in range(8):
        path, ifc, mem, dest, x = txt("path", r), txt("ifc", (3 * r + 1) % 8), txt("member", (5 * r + 2) % 8), txt("dest", (7 * r + 4) % 8), txt("x", (r + 3) % 8)
        y, rs, name, text = u32("y"), u32("reply"), txt("name", (r + 6) % 8), txt("text", (3 * r + 5) % 8)
        A = {"path": path, "ifc": ifc, "member": mem, "dest": dest}
        four = [field(PATH, path), field(DEST, dest), field(IFC, ifc), field(MEMBER, mem)]
        w = "text lengths %d mod 8 and on" % r
        go("method call without flags, " + w, "call_default", A, CALL, ZERO, four)
        for f in range(16):
            fl = num(f)
            want = num(f & 3)
            if f > 7 and r:
                continue
            go("method call, flags %d, no parameters, %s" % (f, w), "call0", dict(A, flags=fl), CALL, want, four)
        for f in (0, 1, 2, 3):
            go("method call, flags %d, (s), %s" % (f, w), "call_s", dict(A, flags=num(f), x=x), CALL, num(f), four, [("s", x)])
            go("method call, flags %d, (su), %s" % (f, w), "call_su", dict(A, flags=num(f), x=x, y=y), CALL, num(f), four, [("s", x), ("u", y)])
        go("method call, mixed parameters, " + w, "call_mixed", dict(A, flags=ZERO, x=x, b=u8("b"), t=u64("t")), CALL, ZERO, four, [("y", u8("b")), ("s", x), ("t", u64("t")), ("(yt)", [u8("b"), u64("t")]), ("as", [x])])
        two = [field(DEST, dest), field(REPLY, rs)]
        go("method return, no parameters, " + w, "return0", {"reply": rs, "dest": dest}, RETURN, ZERO, two)
        go("method return, (su), " + w, "return_su", {"reply": rs, "dest": dest, "x": x, "y": y}, RETURN, ZERO, two, [("s", x), ("u", y)])
        go("error, " + w, "error1", {"reply": rs, "name": name, "text": text, "dest": dest}, ERROR, ZERO, [field(DEST, dest), field(ERRNAME, name), field(REPLY, rs)], [("s", text)])
        three = [field(PATH, path), field(IFC, ifc), field(MEMBER, mem)]
        B = dict(A, dest=EMPTY)
        go("broadcast signal, no parameters, " + w, "signal0", B, SIGNAL, ZERO, three)
        go("broadcast signal, (us), " + w, "signal_us", dict(B, x=x, y=y), SIGNAL, ZERO, three, [("u", y), ("s", x)])
        B = dict(A, dest=cat(lit(":1."), dest))
        uni = [field(PATH, path), field(DEST, cat(lit(":1."), dest)), field(IFC, ifc), field(MEMBER, mem)]
        go("unicast signal, no parameters, " + w, "signal0", B, SIGNAL, ZERO, uni)
        go("unicast signal, (us), " + w, "signal_us", dict(B, x=x, y=y), SIGNAL, ZERO, uni, [("u", y), ("s", x)])
        go("signal marshalled twice, " + w, "signal_twice", {"path": path, "ifc": ifc, "member": mem, "x": x}, SIGNAL, ZERO, three, [("s", x)])


FLOOR = 180
EXPLAIN = ("Abstract interpretation of message construction and marshalling through the public API for all four message types (symbolic object, interface, member, destination, texts, serials; every residue of the text lengths; all flags): "
           "the bytes must be one of the specification's encodings - fixed header, body length, serial, exactly the header fields required, in any order, padding to 8, body - with exactly the given contents.")
ASSUME = ["texts below 512 kB", "a non-empty destination for method calls, returns and errors"]
