"""A reply reaches the handler of the call it answers, once, and no other."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import alternatives, ret, run_client
from ..wire import *
from .. import net

HARNESS = ["native"]
WHERE = "DBus::Native::onReceiveMethodReturn/onReceiveError/sendMethodCall"
C = atom(isym(mk("nm", "DBus::Message::Base::m_SerialCounter"), 32, False))
# serials differ while this many messages are made (C20)
SERIALS = [ge0(addc(C, -1)), ge0(addc(sub(ZERO, C), (1 << 32) - 20))]
KW = {"cuts": dict(net.CUTS), "net": True}


def reply(kind, sender, s, big=False, order=(REPLY, SENDER, ERRNAME), params=()):
    fs = {REPLY: s, SENDER: sender, ERRNAME: lit("e.e")}
    return message(kind, ZERO, u32("serial of the reply"), [field(f, fs[f]) for f in order if kind == ERROR or f != ERRNAME], params, big)


def around(kind, sender):
    """a reply, divided at the serial it replies to"""
    s = u32("the reply serial")
    ps = list(reply(kind, sender, s).a[0])
    i = [k for k, p in enumerate(ps) if isinstance(p, T) and p.op == "le" and any(x is s.a[1][0][0] for x in subterms(p))]
    assert len(i) == 1
    return cat(mk("cat", tuple(ps[:i[0]]))), cat(mk("cat", tuple(ps[i[0] + 1:])))


def told(mark, kind, sender):
    return cat(lit(mark + ("S" if kind == RETURN else "F") + "="), sender, lit(";"))


NAME = {RETURN: "return", ERROR: "error"}


def check(R, P, tier):
    for big in (False, True):
        e = "big-endian" if big else "little-endian"
        for kind in (RETURN, ERROR):
            k = u32("k")
            for order in itertools.permutations((REPLY, SENDER, ERRNAME) if kind == ERROR else (REPLY, SENDER)):
                for params in ((), [("s", blk("text", 8, 3, 5))]):
                    for r in (range(8) if not params else (5,)):
                        sn = blk("sn", 8, r, 5)
                        run_client(R, P, "one call", "%s with any reply serial, %s, fields %s, sender %d mod 8%s" % (NAME[kind], e, "".join(map(str, order)), r, ", parameters" if params else ""), "reply1",
                                   {"t": reply(kind, sn, k, big, order, params), "k": k}, [ret(alternatives([cat(told("a", kind, sn), lit("own")), lit("other")]))], WHERE, assume=SERIALS, **KW)
    sn = [blk("sn%d" % i, 8, 3 + i, 5) for i in range(4)]
    pats = [(RETURN, ERROR, RETURN, ERROR), (ERROR, RETURN, RETURN, RETURN)]
    if tier == "thorough":
        pats = list(itertools.product((RETURN, ERROR), repeat=4))
    for pat in pats:
        pp = [around(kd, sn[i]) for i, kd in enumerate(pat)]
        for rs in itertools.product(range(4), repeat=4):
            if len(set(rs)) == 1 and rs[0] == 3:
                continue
            done = set()
            want = []
            for i, x in enumerate(rs):
                if x < 3 and x not in done:
                    done.add(x)
                    want.append(told("abc"[x], pat[i], sn[i]))
                else:
                    want.append(EMPTY)
            exp = cat(want[0], lit("|"), want[1], lit("|"), want[2], lit("|"), want[3])
            args = {}
            for i in range(4):
                args["pre%d" % (i + 1)], args["post%d" % (i + 1)] = pp[i]
                args["r%d" % (i + 1)] = num(rs[i])
            run_client(R, P, "three calls", "%s for call %s" % (", ".join(NAME[x] for x in pat), ", ".join("abc-"[x] for x in rs)), "replies", args, [ret(exp)], WHERE, assume=SERIALS, **KW)
    for kind in (RETURN, ERROR):
        pre, post = around(kind, sn[0])
        run_client(R, P, "early", "%s that arrives before the sending call has returned" % NAME[kind], "reply_early", {"pre": pre, "post": post}, [ret(cat(told("a", kind, sn[0]), lit("|")))], WHERE, assume=SERIALS, **KW)
        run_client(R, P, "not expected", "%s to a call that wants none" % NAME[kind], "reply_unwanted", {"pre": pre, "post": post}, [ret(EMPTY)], WHERE, assume=SERIALS, **KW)
        for k2 in (RETURN, ERROR):
            pre2, post2 = around(k2, sn[1])
            m = "s" if kind == RETURN else "f"
            for what in (0, 1):
                run_client(R, P, "handler", "handler of the %s %s, then a second call's %s" % (NAME[kind], ("fails", "makes another call")[what], NAME[k2]), "reply_handler",
                           {"what": num(what), "pre1": pre, "post1": post, "pre2": pre2, "post2": post2}, [ret(cat(lit(m + "||"), told("b", k2, sn[1]), lit("|")))], WHERE, assume=SERIALS, **KW)
            for swap in (0, 1):
                run_client(R, P, "two threads", "a call is made while the %s to another arrives, %s goes on; then its %s" % (NAME[kind], ("the caller", "the io thread")[swap], NAME[k2]), "reply_at",
                           {"swap": num(swap), "pre1": pre, "post1": post, "pre2": pre2, "post2": post2}, [ret(cat(told("a", kind, sn[0]), lit("|"), told("b", k2, sn[1])))], WHERE, assume=SERIALS, **KW)
                a, b = told("a", kind, sn[0]), told("b", k2, sn[1])
                run_client(R, P, "two threads", "two threads make a call each, %s and %s arrive, the %s first" % (NAME[kind], NAME[k2], ("first", "second")[swap]), "both_call",
                           {"first": num(swap), "pre1": pre, "post1": post, "pre2": pre2, "post2": post2}, [ret(cat(b, a) if swap else cat(a, b))], WHERE, assume=SERIALS, **KW)


FLOOR = 500
EXPLAIN = ("Abstract interpretation of programs that make up to three calls over a modelled socket and receive up to four replies in every order, doubled and to serials nobody waits for; the serial counter and the reply serial are symbolic, so "
           "'no handler but the call's own' is decided for every pair of serials.")
ASSUME = ["serials of outstanding calls differ (C20)", "at most three calls outstanding, four replies", "texts in replies below 40 bytes"]
