"""The calls to the bus ask it what they are named after, with the arguments given, and pass its answer on."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .c06 import expect
from .c11 import KW, SERIALS, around

HARNESS = ["native"]
WHERE = "DBus::Native::call*"
BUS, OBJ = "org.freedesktop.DBus", "/org/freedesktop/DBus"
# interface org.freedesktop.DBus of the specification: method, its arguments
METHODS = [("Hello", ""), ("GetConnectionUnixProcessID", "s"), ("GetConnectionUnixUser", "s"), ("RequestName", "su"), ("ReleaseName", "s"), ("ListQueuedOwners", "s"), ("ListNames", ""), ("ListActivatableNames", ""),
           ("NameHasOwner", "s"), ("AddMatch", "s"), ("RemoveMatch", "s")]


def check(R, P, tier):
    flags = u32("flags")
    for i, (member, sig) in enumerate(METHODS):
        for k in range(8) if sig else (0,):
            # a rule is text of keys and values; the other arguments are names
            name = cat(lit("type='signal',sender='"), blk("id:name", 8, k, 20), lit("'")) if "Match" in member else blk("name", 8, k, 20)
            for kind in (RETURN, ERROR):
                pre, post = around(kind, lit(BUS))
                answer = "" if member == "RemoveMatch" else "FS"[kind == RETURN] + BUS + ";"
                tail = lit("|" + answer + "|")

                run_client(R, P, "bus call", "%s%s, answered with %s; argument %d mod 8" % (member, "(%s)" % sig if sig else "", ("a return", "an error")[kind == ERROR], k), "bus",
                           {"which": num(i), "name": name, "flags": flags, "pre": pre, "post": post}, [ret(whole(member, sig, name, flags, tail))], WHERE, assume=SERIALS, **KW)
    # two at once
    n = blk("id:name", 8, 3, 20)
    for i, (m1, _) in enumerate(METHODS):
        for j, (m2, _) in enumerate(METHODS):
            if "Match" in m1 + m2:
                continue
            for k1, k2 in itertools.product((RETURN, ERROR), repeat=2) if tier == "thorough" else ((RETURN, ERROR), (ERROR, RETURN)):
                pre1, post1 = around(k1, lit("a.a"))
                pre2, post2 = around(k2, lit("b.b"))
                exp = "|%sa.a;+%sb.b;|" % ("FS"[k1 == RETURN], "FS"[k2 == RETURN])
                run_client(R, P, "two calls", "%s and %s, the second answered first, with %s" % (m1, m2, ("a return", "an error")[k2 == ERROR]), "bus_pair",
                           {"one": num(i), "two": num(j), "name": n, "pre1": pre1, "post1": post1, "pre2": pre2, "post2": post2}, [ret(lit(exp))], WHERE, assume=SERIALS, **KW)


def whole(member, sig, name, flags, tail):
    params = [(t, name if t == "s" else flags) for t in sig]
    fields = [field(PATH, lit(OBJ)), field(DEST, lit(BUS)), field(IFC, lit(BUS)), field(MEMBER, lit(member))]
    return expect(CALL, ONE if member == "RemoveMatch" else ZERO, fields, params, tail)


FLOOR = 200
EXPLAIN = ("Abstract interpretation of each convenience call to the message bus over a modelled socket: the bytes written must be the method call that the D-Bus specification defines for it (destination, object, interface, member, "
           "signature and the given arguments, for every text and number), and the return or error that comes back must reach the matching handler exactly once.")
ASSUME = ["arguments below 160 bytes"]
