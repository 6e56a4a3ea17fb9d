"""No two threads touch the same data without an order between them."""
from ..terms import *
from ..client import client
from ..judge import undefined
from ..interp import Undecided
from ..wire import *
from .. import ground, net, sched
from .c11 import around, C

HARNESS = ["conc"]
WHERE = "DBus::Native, DBus::Transport, DBus::MessageProtocol, DBus::AuthenticationProtocol, DBus::Message::Base"
APP = ["a signal is broadcast", "a method is called", "a method handler is registered", "a method handler goes", "a signal handler is registered", "a signal handler goes", "a rule is added", "a rule goes",
       "authentication is begun", "the statistics are read", "a call is answered", "a call is refused", "a signal is sent"]
READY = {20: "a call arrives", 21: "a reply arrives", 22: "an error arrives", 23: "a signal arrives", 26: "a write completes", 27: "a write fails", 28: "the other end closes", 31: "two messages and a part arrive"}
EARLY = {24: "OK arrives", 25: "AGREE_UNIX_FD arrives", 26: "a write completes", 28: "the other end closes", 29: "ERROR arrives", 30: "a part of an answer arrives"}
STAGE = ["before authentication", "during the handshake", "when connected"]


def texts():
    f = [field(PATH, lit("/p")), field(IFC, lit("i.f")), field(MEMBER, lit("M")), field(SENDER, lit(":1.7"))]
    rp, rq = around(RETURN, lit(":1.7"))
    ep, eq = around(ERROR, lit(":1.7"))
    return {"call": message(CALL, ZERO, num(77), f), "signal": message(SIGNAL, ZERO, num(78), f), "rpre": rp, "rpost": rq, "epre": ep, "epost": eq}


def pairs(tier):
    """(stage, what the one thread does, what the other does)"""
    for stage in (2, 1, 0):
        io = READY if stage == 2 else EARLY
        for a in range(len(APP)):
            for b in io:
                yield stage, a, b
                yield stage, b, a
            for b in range(len(APP)):
                if a <= b or tier == "thorough":
                    yield stage, a, b


def name(stage, x):
    return APP[x] if x < 20 else (READY if stage == 2 else EARLY)[x]


def cuts(active):
    c = dict(net.CUTS)
    c["DBus::Log::isActive"] = lambda ip, st, o, a, n: [(st, TRUE if active else FALSE)]
    return c


def explore(P, stage, a, b):
    """paths of the two threads"""
    if stage == "handlers":
        t = texts()
        t["reply"] = cat(t["rpre"], lit(b"\x09\0\0\0"), t["rpost"])
        t["error"] = cat(t["epre"], lit(b"\x09\0\0\0"), t["epost"])
        return client(P, "handlers", {"which": num(a), "t": t[b]}, cuts(True), net=True, race=True, max_steps=20000000, assume=[eq0(addc(C, -1000))])
    if stage == "levels":
        return client(P, "levels", {"what": num(a)}, net.CUTS, net=True, race=True, max_steps=20000000)
    if stage is None:
        return client(P, "born", {"what": num(a)}, cuts(True), net=True, race=True, max_steps=20000000, assume=[eq0(addc(C, -1000))])
    if a is None:
        return client(P, "end", dict(texts(), stage=num(stage), what=num(b)), cuts(True), net=True, race=True, max_steps=20000000, assume=[eq0(addc(C, -1000))])
    return client(P, "pair", dict(texts(), stage=num(stage), a=num(a), b=num(b)), cuts(True), net=True, race=True, max_steps=20000000, assume=[eq0(addc(C, -1000))])


def jobs(tier):
    for i, w in enumerate(("the first write completes", "the answer arrives", "the other end closes")):
        yield "construction", "a connection is made while %s" % w, (None, i, 0)
    for stage in (2, 1, 0):
        io = READY if stage == 2 else EARLY
        for b in io:
            yield "the end", "a connection ends %s; %s meanwhile" % (STAGE[stage], io[b]), (stage, None, b)
    for i, w in enumerate(("calls", "returns", "errors", "signals")):
        for b in ("call", "reply", "error", "signal"):
            yield "handlers", "the handler of %s is set while a %s arrives" % (w, b), ("handlers", i, b)
    for i, w in enumerate(("something is logged", "it is changed", "it is asked for")):
        yield "log", "the level of the log is changed while %s" % w, ("levels", i, 0)
    for stage, a, b in pairs(tier):
        yield "two threads", "%s, %s; %s meanwhile" % (STAGE[stage], name(stage, a), name(stage, b)), (stage, a, b)


def judge(R, P, rule, inst, what, f):
    try:
        rs, ip = explore(P, *what)
    except Undecided as e:
        R.add(rule, inst, "undecided", "abstract interpretation gave up: %s" % e, WHERE)
        return
    R.paths += len(rs)
    R.fns |= set(ip.visited)
    undefined(R, rule, inst, ip, WHERE)
    if not rs:
        R.add(rule, inst, "undecided", "no path", WHERE)
    bad = {}
    und = None
    for r in rs:
        for key, text, where in f(ip, r):
            if ground.separate(list(r.st.pc) + list(r.st.facts), lambda w: True)[0] == "differ":
                bad.setdefault(key, (text, where))
            else:
                und = "on a path that may not exist: " + text
        if r.st.taint:
            und = und or "not modelled: %s" % sorted(r.st.taint)[0]
    for key, (text, where) in bad.items():
        R.add(rule, "%s: %s" % (inst, key), "violated", text, where)
    if not bad:
        R.add(rule, inst, "undecided" if und else "proved", und or "", WHERE)


def found(ip, r):
    for nm, x, y in sched.unordered(ip, r.st, r.events()):
        nm = nm.replace("DBus::", "")
        w = lambda e: "%s by the %s thread in %s (%s)" % ("written" if e[7] else "read", {"io": "io", "app": "application's", "app2": "application's second"}[e[4].a[0]], e[2].replace("DBus::", ""), e[1])
        yield nm, "%s is %s and %s, and nothing orders the two" % (nm, w(x), w(y)), y[1]


def check(R, P, tier):
    for rule, inst, what in jobs(tier):
        R.defer(lambda r, rule=rule, inst=inst, what=what: judge(r, P, rule, inst, what, found))


FLOOR = 600
EXPLAIN = ("Abstract interpretation of two threads on one connection: an application thread and the io thread, or two application threads, each in one of 13 API calls or 12 deliveries, before, during and after the handshake; the second thread "
           "steps in at every place where the first takes a lock. Every access to heap and global data of the library is recorded with its thread, and a happens-before order is built from locks, the start of the io thread and the start of "
           "asynchronous operations; two accesses, one of them a write, that this order does not relate are a race. Handlers that use the connection themselves run inside the deliveries.")
ASSUME = ["one thread steps in per schedule, where a lock is taken", "atomics, boost::asio objects and boost::thread are safe to use from two threads in the way the library does", "the logger's output stream is locked by the C library"]
