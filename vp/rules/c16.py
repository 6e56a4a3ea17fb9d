"""Handlers may add and remove handlers, their own included."""
from ..terms import *
from ..client import blk
from ..judge import alternatives, ret, run_client, run_obls
from ..wire import *
from .. import net
from .c07 import NAME
from .c08 import raw_of
from .c11 import KW, SERIALS, around
from .c25 import msg, told
from .c21 import ID, VAL, got, rule, signal

HARNESS = ["native", "proto"]
WHERE = "DBus::Native::onReceive*"
KINDS = ("life", "iter", "mem", "null")


def check(R, P, tier):
    def both(ru, inst, name, args, exp):
        run_client(R, P, ru, inst, name, args, exp, WHERE, assume=SERIALS, **KW)
        run_obls(R, P, ru + ": objects in use", inst, name, args, KINDS, WHERE, assume=SERIALS, **KW)

    path, sn = blk("path", 8, 4, 5), blk("sn", 8, 6, 5)
    for a, b in ((2, 5), (0, 0), (7, 1)) if tier == "quick" else [(i, j) for i in range(8) for j in range(8)]:
        i, m = blk("i", 8, a, 5), blk("m", 8, b, 5)
        n1 = cat(i, lit("."), m)
        i2, m2 = blk("i2", 8, a, 5), blk("m2", 8, (b + 1) % 8, 5)
        n2 = cat(i2, lit("."), m2)
        for big in (False, True):
            for order in (0, 1):
                w = "names of %d and %d bytes modulo 8, %s, %s first" % (a, b, ("little", "big")[big] + "-endian", ("method call", "signal")[order])
                c, s = msg(CALL, path, i, m, sn, "serial", big), msg(SIGNAL, path, i, m, sn, "serial2", big)

                def tell(x, y, order=order, i=i, m=m):
                    k = [told(x, path, i, m) if x else EMPTY, told(y, path, i, m, "serial2") if y else EMPTY]
                    return cat(*(reversed(k) if order else k))
                t, u = (s, c) if order else (c, s)
                for again in (0, 1):
                    both("itself", "a handler removes itself%s; %s" % (" and registers another" if again else "", w), "self_remove", {"again": num(again), "n1": n1, "t": t, "u": u},
                         [ret(cat(tell("1", "A"), lit("|"), tell("2", "B") if again else EMPTY))])
                # the other one
                for what in (0, 1, 2):
                    # the first arrival removes the other handler of the name
                    both("others", "a handler %s; %s" % (("removes others", "registers others", "removes and registers others")[what], w), "change", {"what": num(what), "n1": n1, "n2": n2, "t": t, "u": u},
                         [ret(cat(tell(None, "A") if order else tell("1", None), lit("|"), EMPTY if what != 1 else tell("1", None) if order else tell(None, "A")))])
                c2, s2 = msg(CALL, path, i2, m2, sn, "serial2", big), msg(SIGNAL, path, i2, m2, sn, "serial2", big)
                for what in (0, 1):
                    both("others", "a handler %s; %s; then a message for another" % (("removes others", "registers others")[what], w), "change", {"what": num(what), "n1": n1, "n2": n2, "t": t, "u": s2 if order else c2},
                         [ret(cat(tell(None, "A") if order else tell("1", None), lit("|"), EMPTY if what == 0 else told("B" if order else "2", path, i2, m2, "serial2")))])
    # the parser's own handlers
    for big in (False, True):
        for k1 in (CALL, RETURN, ERROR, SIGNAL):
            for k2 in (CALL, RETURN, ERROR, SIGNAL):
                m1, w1 = raw_of(k1, big, "1")
                m2, w2 = raw_of(k2, not big, "2", False)
                exp = cat(lit("kept"), Note().add(k1, **w1).b, lit("|"), lit("kept") if k1 != k2 else EMPTY, Note().add(k2, **w2).b, lit("|"))
                inst = "%s then %s, whose handlers replace themselves, %s first" % (NAME[k1], NAME[k2], "big-endian" if big else "little-endian")
                run_client(R, P, "parser", inst, "recv_replacing", {"t": m1, "u": m2}, [ret(exp)], WHERE)
                run_obls(R, P, "parser: objects in use", inst, "recv_replacing", {"t": m1, "u": m2}, KINDS, WHERE)
    for kind in (RETURN, ERROR):
        pre, post = around(kind, sn)
        i, m = blk("i", 8, 3, 5), blk("m", 8, 6, 5)
        t = msg(SIGNAL, path, i, m, sn)
        for what in (0, 1):
            first = cat(lit("s" if kind == RETURN else "f"), sn, lit(";"))
            both("replies", "the handler of a reply (%s) %s" % (("return", "error")[kind == ERROR], ("replaces another handler", "makes three calls")[what]), "reply_changes",
                 {"what": num(what), "n1": cat(i, lit("."), m), "pre1": pre, "post1": post, "t": t},
                 [ret(cat(first, lit("|"), told("A" if what else "B", path, i, m), lit("|"), cat(lit("cS=" if kind == RETURN else "cF="), sn, lit(";")) if what else EMPTY))])
    V = VAL
    t = signal(V)
    r1, r2, r3 = rule([("member", V["member"])]), rule([("interface", V["interface"])]), rule([("sender", V["sender"])])
    for (a, b) in ((r1, r2), (r2, r1), (r3, r2)):
        R_, S, T_, U = got("R", V), got("S", V), got("T", V), got("U", V)
        allow = {
            # a change made while a signal is handed out may or may not affect the rest of that round
            0: [cat(x, lit("|"), S) for x in (cat(R_, S), cat(S, R_))],
            1: [cat(x, lit("|"), R_) for x in (cat(R_, S), cat(S, R_), R_)],
            2: [cat(x, lit("|"), y) for x in (cat(R_, S), cat(S, R_), cat(R_, S, T_), cat(R_, T_, S), cat(S, R_, T_), cat(T_, R_, S), cat(T_, S, R_), cat(S, T_, R_))
                for y in (cat(R_, S, T_), cat(R_, T_, S), cat(S, R_, T_), cat(T_, R_, S), cat(T_, S, R_), cat(S, T_, R_))],
            3: [cat(x, lit("|"), y) for x in (cat(R_, S), cat(S, R_), cat(R_, S, U), cat(R_, U, S), cat(S, R_, U)) for y in (cat(U, S), cat(S, U))],
        }
        for what in (0, 1, 2, 3):
            both("rules", "the handler of the rule %s %s" % ("member" if a is r1 else "interface" if a is r2 else "sender", ("removes its rule", "removes the other rule", "adds a rule", "replaces its rule")[what]), "rule_changes",
                 {"what": num(what), "rule1": a, "rule2": b, "rule3": r1 if a is r3 else r3, "t": t}, [ret(alternatives(allow[what]))])


FLOOR = 100
EXPLAIN = ("Abstract interpretation of programs whose handlers (of method calls, signals, match rules and replies) remove themselves or others, register new ones and make calls, with an obligation at every use of a function object, map entry or iterator "
           "that it still exists, and the same demands on what later messages reach as for any other registration.")
ASSUME = ["a change made while a signal is being handed out may or may not affect the rest of that round"]
