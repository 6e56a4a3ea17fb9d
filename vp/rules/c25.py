"""Method calls and signals reach the handler registered under their own name, and no other."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .. import net
from .c11 import KW, SERIALS

HARNESS = ["native"]
WHERE = "DBus::Native::onReceiveMethodCall/onReceiveSignal/register*/unRegister*"


def msg(kind, path, ifc, member, sender=None, serial="serial", big=False, dest=None):
    fs = [field(PATH, path)]
    if ifc is not None:
        fs.append(field(IFC, ifc))
    fs.append(field(MEMBER, member))
    if sender is not None:
        fs.append(field(SENDER, sender))
    if dest is not None:
        fs.append(field(DEST, dest))
    return message(kind, u8("flags") if kind == CALL else ONE, u32(serial), fs, (), big)


def told(mark, path, ifc, member, serial="serial"):
    return cat(lit(mark), path, lit(";"), ifc, lit(";"), member, lit(";"), spiece(mk("le", u32(serial), 4)))


def ch(n):
    return atom(mk("isym", mk("nm", n), 0, 255))


def letter(x):
    return [ge0(addc(x, -97)), ge0(sub(num(122), x))]


def check(R, P, tier):
    i, m = blk("i", 8, 2, 5), blk("m", 8, 5, 5)
    n1 = cat(i, lit("."), m)
    n2, n3 = blk("n2", 8, 4, 5), blk("n3", 8, 3, 5)
    path, sn = blk("path", 8, 4, 5), blk("sn", 8, 6, 5)
    dot = lit(".")
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        other = {
            "its own name": (i, m, True),
            "another name": (blk("j", 8, 0, 5), blk("k", 8, 6, 5), False),
            "the interface, another member": (i, blk("k", 8, 6, 5), False),
            "the member, another interface": (blk("j", 8, 0, 5), m, False),
            "the member without the last character": (i, blk("m1", 8, 4, 5), False),
            "a longer member": (i, cat(m, lit("x")), False),
            "a longer interface": (cat(lit("x"), i), m, False),
            "interface and member exchanged": (m, i, False),
        }
        for what, (a, b, own) in other.items():
            if what == "interface and member exchanged":
                a, b = cat(lit("m."), i), i
            for kind, mark in ((CALL, "1"), (SIGNAL, "A")):
                for k2, mark2 in ((CALL, "1"), (SIGNAL, "A")):
                    t, u = msg(kind, path, a, b, sn, "serial", big), msg(k2, lit("/q"), i, m, None, "serial2", not big)
                    exp = cat(told(mark, path, a, b) if own else EMPTY, lit("|"), told(mark2, lit("/q"), i, m, "serial2"))
                    run_client(R, P, "route", "a %s of %s, then a %s of the registered name, %s" % (("method call", "signal")[kind == SIGNAL], what, ("method call", "signal")[k2 == SIGNAL], e), "route",
                               {"n1": n1, "n2": n2, "n3": n3, "t": t, "u": u}, [ret(exp)], WHERE, assume=SERIALS, **KW)
        # the other handlers
        for x, (a, b) in {"second method": (i, cat(m, lit("z"))), "second signal": (cat(lit("z"), i), m)}.items():
            full = cat(a, dot, b)
            meth = x == "second method"
            t, u = msg(CALL, path, a, b, sn, "serial", big), msg(SIGNAL, lit("/q"), a, b, sn, "serial2", big)
            exp = cat(told("2", path, a, b) if meth else EMPTY, lit("|"), EMPTY if meth else told("B", lit("/q"), a, b, "serial2"))
            run_client(R, P, "route", "method call and signal of the name of the %s handler, %s" % (x, e), "route",
                       {"n1": n1, "n2": full if meth else n2, "n3": n3 if meth else full, "t": t, "u": u}, [ret(exp)], WHERE, assume=SERIALS, **KW)
        # one character, any, in each place
        x, y = ch("x"), ch("y")
        for where in ("member", "interface"):
            def names(c):
                c = spiece(mk("chr", c))
                return (i, cat(lit("M"), c)) if where == "member" else (cat(lit("a.b"), c), m)
            ri, rm = names(x)
            si, sm = names(y)
            same, differ = eq0(sub(x, y)), neg(eq0(sub(x, y)))
            t, u = msg(CALL, path, si, sm, sn, "serial", big), msg(SIGNAL, path, si, sm, sn, "serial2", big)
            run_client(R, P, "route", "names that differ in one character of the %s, or do not, %s" % (where, e), "route", {"n1": cat(ri, dot, rm), "n2": n2, "n3": n3, "t": t, "u": u},
                       [ret(cat(told("1", path, si, sm), lit("|"), told("A", path, si, sm, "serial2")), same), ret(lit("|"), differ)], WHERE, assume=SERIALS + letter(x) + letter(y), **KW)
        # any name at all
        a, b = blk("a", 8, 5, 3), blk("b", 8, 2, 3)
        for kind, mark in ((CALL, "1"), (SIGNAL, "A")):
            same = lambda r, a=a, b=b: r.ip.streq(cat(a, dot, b), n1)  # noqa: E731
            differ = lambda r, a=a, b=b: neg(r.ip.streq(cat(a, dot, b), n1))  # noqa: E731
            run_client(R, P, "route", "%s of any name of the same length modulo 8, %s" % (("method call", "signal")[kind == SIGNAL], e), "route", {"n1": n1, "n2": n2, "n3": n3, "t": msg(kind, path, a, b, sn, "serial", big), "u": EMPTY},
                       [ret(cat(told(mark, path, a, b), lit("|")), same), ret(lit("|"), differ)], WHERE, assume=SERIALS, **KW)
        # handlers come and go
        for order in (0, 1):
            ms = [msg(CALL, path, i, m, sn, "serial", big), msg(SIGNAL, path, i, m, sn, "serial2", not big)]
            if order:
                ms.reverse()

            def seq(*xs):
                return cat(*(reversed(xs) if order else xs))
            c = {k: told(k, path, i, m) for k in "12"}
            s = {k: told(k, path, i, m, "serial2") for k in "AB"}
            exp = cat(lit("|"), seq(c["1"], s["A"]), lit("|"), s["A"], lit("|"), c["2"], lit("|"), seq(c["2"], s["B"]))
            run_client(R, P, "register", "handlers registered, removed and registered again, %s first, %s" % (("signals", "method calls")[order == 0], e), "unroute", {"n1": n1, "t": ms[0], "u": ms[1]}, [ret(exp)], WHERE, assume=SERIALS, **KW)
    # given names, in given relations: parts, extensions, neighbours in order, other letters
    for r1, r2, r3 in (("i.f.SetAll", "i.f.Get", "i.f.Set"), ("i.f.Set", "i.f.SetAll", "i.f.Se"), ("a.b.C", "a.b.B", "a.b.D"), ("x.y.Z", "i.f.get", "i.f.Get"), ("a.b.c.M", "a.b.M", "a.M")):
        for to in sorted({x for r in (r1, r2, r3) for x in (r, r[:-1], r + "x", r[:-1] + chr(ord(r[-1]) + 1), r[:-1] + chr(ord(r[-1]) - 1), r.swapcase(), r.replace(".", ".a.", 1), r[2:])} | {"zz.Z", "a.A"}):
            if "." not in to or to[-1] in ".@[`{":
                continue
            i, m = to.rsplit(".", 1)
            meth = {r2: "2", r1: "1"}.get(to)
            sig = {r3: "B", r1: "A"}.get(to)
            t, u = msg(CALL, lit("/p"), lit(i), lit(m), None, "serial"), msg(SIGNAL, lit("/q"), lit(i), lit(m), lit(":1.7"), "serial2")
            exp = cat(told(meth, lit("/p"), lit(i), lit(m)) if meth else EMPTY, lit("|"), told(sig, lit("/q"), lit(i), lit(m), "serial2") if sig else EMPTY)
            run_client(R, P, "route", "handlers of methods %s and %s, of signals %s and %s; %s arrives as each" % (r1, r2, r1, r3, to), "route", {"n1": lit(r1), "n2": lit(r2), "n3": lit(r3), "t": t, "u": u}, [ret(exp)], WHERE, assume=SERIALS, **KW)
    # names of all lengths
    for a in range(8):
        for b in range(8):
            i, m = blk("i", 8, a, 5), blk("m", 8, b, 5)
            t, u = msg(CALL, path, i, m, None, "serial"), msg(SIGNAL, path, i, m, sn, "serial2")
            n2, n3 = blk("n2", 8, (a + b) % 8, 5), blk("n3", 8, (a + b + 3) % 8, 5)
            exp = cat(told("1", path, i, m), lit("|"), told("A", path, i, m, "serial2"))
            run_client(R, P, "route", "interface of %d and member of %d bytes modulo 8" % (a, b), "route", {"n1": cat(i, dot, m), "n2": n2, "n3": n3, "t": t, "u": u}, [ret(exp)], WHERE, assume=SERIALS, **KW)
    # another thread changes the registrations
    for a in range(8):
        i, m = blk("i", 8, a, 5), blk("m", 8, 5, 5)
        for what in (0, 1):
            for swap in (0, 1):
                t, u = msg(CALL, path, i, m, sn, "serial"), msg(SIGNAL, path, i, m, sn, "serial2")
                v, w = msg(CALL, path, cat(i, lit("x")), m, sn, "serial3"), msg(SIGNAL, path, cat(i, lit("x")), m, sn, "serial4")
                i2 = cat(i, lit("x"))
                exp = cat(told("1", path, i, m), told("A", path, i, m, "serial2"), lit("|"), *([] if what else [told("2", path, i2, m, "serial3"), told("B", path, i2, m, "serial4")]))
                run_client(R, P, "two threads", "handlers of another name are %s while messages arrive, %s goes on, interface %d mod 8" % (("registered", "removed")[what], ("the application", "the io thread")[swap], a), "register_at",
                           {"what": num(what), "swap": num(swap), "n1": cat(i, dot, m), "n2": cat(i2, dot, m), "t": t, "u": u, "v": v, "w": w}, [ret(exp)], WHERE, assume=SERIALS, max_steps=20000000, **KW)


FLOOR = 100
EXPLAIN = ("Abstract interpretation of a connection with several handlers registered: method calls and signals of the registered name, of names that differ in any one character, are longer, shorter or divided elsewhere, in both byte orders; "
           "each must reach exactly the handler of its kind and name, before and after handlers are removed and registered again.")
ASSUME = ["a name registered twice is left open", "texts below 40 bytes"]
