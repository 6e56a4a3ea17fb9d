"""The statistics count what was sent and received."""
import itertools
from ..terms import *
from ..client import blk
from ..interp import Undecided
from ..judge import ret, run_client
from ..wire import *
from .. import net
from .c11 import SERIALS, KW, NAME, around

HARNESS = ["stats"]
WHERE = "DBus::Native::getStats"
NOTE = ("W", "note")
OK, AGREE = b"OK 0123\r\n", b"AGREE_UNIX_FD\r\n"
FIELDS = ("sent_methodcalls", "sent_methodreturns", "sent_errors", "sent_signals", "receive_methodcalls", "receive_methodreturns", "receive_errors", "receive_signals")
# the handshake's own lines are strings the transport sends too; the credentials byte is no string
SHAKE = {0: [net.HELLO[1:], b"BEGIN\r\n"], 1: [net.HELLO[1:], b"NEGOTIATE_UNIX_FD\r\n", b"BEGIN\r\n"]}
SENT_AS = {0: "sent_methodcalls", 1: "sent_methodcalls", 2: "sent_methodreturns", 3: "sent_errors", 4: "sent_signals", 5: "sent_signals"}
GOT_AS = {CALL: "receive_methodcalls", RETURN: "receive_methodreturns", ERROR: "receive_errors", SIGNAL: "receive_signals"}


def digits(x):
    x = x if isinstance(x, T) else num(x)
    c = cval(x)
    return lit("%d" % c) if c is not None else spiece(mk("sapp", "dec", x))


def text(n, auth, msg, written, queued, pumped, out):
    """n: messages by kind; octets of the handshake and of messages received; strings written, kept waiting, sent after waiting; octets sent"""
    o = lit("Native stats:\n")
    for f in FIELDS:
        o = cat(o, lit(" count_%s: " % f), digits(n.get(f, 0)), lit("\n"))
    o = cat(o, lit(" bytes_auth: "), digits(auth), lit("\n bytes_message: "), digits(msg), lit("\nTransport stats:\n"))
    for f, v in (("count_messages_sent", written), ("count_messages_queued", queued), ("count_messages_pumped", pumped), ("bytes_sent", out), ("bytes_read", add(num(auth), msg if isinstance(msg, T) else num(msg)))):
        o = cat(o, lit(" %s: " % f), digits(v), lit("\n"))
    return o


def shaken(kind):
    return len(SHAKE[kind]), sum(len(x) for x in SHAKE[kind])


def counts(kinds):
    n = {}
    for k in kinds:
        n[k] = n.get(k, 0) + 1
    return n


def note_len(r):
    v = r.st.store.get(NOTE, EMPTY)
    if v.op != "cat":
        raise Undecided("what the client prepared")
    return slen(v)


FS = {CALL: (PATH, IFC, MEMBER, SENDER), SIGNAL: (PATH, IFC, MEMBER, SENDER), RETURN: (REPLY, SENDER), ERROR: (REPLY, ERRNAME, SENDER)}


def incoming(kind, i, k, ifc="i.f", big=False, params=()):
    v = {PATH: cat(lit("/p"), blk("p%d" % i, 8, k, 5)), IFC: lit(ifc), MEMBER: lit("M"), SENDER: lit(":1.7"), REPLY: u32("the reply serial %d" % i), ERRNAME: lit("e.e")}
    return message(kind, ZERO, u32("serial %d" % i), [field(f, v[f]) for f in FS[kind]], params, big)


def check(R, P, tier):
    run_client(R, P, "nothing yet", "connected", "none", {}, [ret(text({}, 0, 0, 0, 0, 0, 0))], WHERE, **KW)
    for kind in (0, 1):
        t = OK + (AGREE if kind else b"")
        w = ("basic", "with file descriptors")[kind]
        c, l = shaken(kind)
        for cut in range(len(t) + 1):
            run_client(R, P, "handshake", "%s, divided after %d octets" % (w, cut), "shake", {"kind": num(kind), "a": lit(t[:cut]), "b": lit(t[cut:])}, [ret(text({}, len(t), 0, c, 0, 0, l))], WHERE, **KW)
        for k in range(8):
            m = incoming(SIGNAL, 1, k)
            m2 = incoming(CALL, 2, (k + 3) % 8)
            for cut in (0, 4, len(t) - 1, len(t)):
                run_client(R, P, "handshake", "%s, divided after %d octets, then a signal and a call, paths %d mod 8" % (w, cut, k), "shake3", {"kind": num(kind), "a": lit(t[:cut]), "b": cat(lit(t[cut:]), m), "c": m2},
                           [ret(text({"receive_signals": 1, "receive_methodcalls": 1}, len(t), add(slen(m), slen(m2)), c, 0, 0, l))], WHERE, assume=SERIALS, **KW)
    c, l = shaken(0)
    for waiting in range(4):
        for ws in itertools.product(range(6), repeat=3):
            if tier != "thorough" and (ws[0] + 2 * ws[1] + 3 * ws[2] + waiting) % 3:
                continue
            k = (ws[0] + ws[1] * 3 + ws[2] * 5 + waiting) % 8
            run_client(R, P, "sent", "messages %s, %d of them before the handshake, path %d mod 8" % ("".join(map(str, ws)), waiting, k), "sends",
                       dict({x: num(v) for x, v in zip("abc", ws)}, waiting=num(waiting), p=cat(lit("/p"), blk("p", 8, k, 5)), r=u32("r")),
                       [ret(lambda r, ws=ws, waiting=waiting: text(counts(SENT_AS[x] for x in ws), len(OK), 0, c + 3, waiting, waiting, add(num(l), note_len(r))))], WHERE, assume=SERIALS, **KW)
    for ks in itertools.product((CALL, RETURN, ERROR, SIGNAL), repeat=3):
        for heard in (0, 1):
            k = sum(ks) % 8
            for ifc in ("i.f", "i.g"):
                ms = [incoming(x, i, (k + i) % 8, ifc, big=bool(i % 2), params=[("s", blk("text%d" % i, 8, i, 5))] if i == 1 else ()) for i, x in enumerate(ks)]
                run_client(R, P, "received", "%s, %s, interface %s, path %d mod 8" % (" ".join({CALL: "call", RETURN: "return", ERROR: "error", SIGNAL: "signal"}[x] for x in ks), ("nobody listens", "with handlers")[heard], ifc, k), "hears",
                           dict({x: v for x, v in zip("abc", ms)}, heard=num(heard)),
                           [ret(text(counts(GOT_AS[x] for x in ks), len(OK), add(add(slen(ms[0]), slen(ms[1])), slen(ms[2])), c, 0, 0, l))], WHERE, assume=SERIALS, **KW)
    for kind in (RETURN, ERROR):
        for fails in (0, 1):
            for k in range(8):
                pre, post = around(kind, blk("sn", 8, k, 5))
                run_client(R, P, "answered", "a call, its %s%s, sender %d mod 8" % (NAME[kind], ", the handler fails" if fails else "", k), "answered", {"fails": num(fails), "pre": pre, "post": post},
                           [ret(lambda r, kind=kind, n=addc(add(slen(pre), slen(post)), 4): text({"sent_methodcalls": 1, GOT_AS[kind]: 1}, len(OK), n, c + 1, 0, 0, add(num(l), note_len(r))))], WHERE, assume=SERIALS, **KW)
    for k in range(8):
        for kind in (CALL, RETURN, ERROR, SIGNAL):
            m = incoming(kind, 1, k)
            # one message in two deliveries, and two in one
            run_client(R, P, "closed", "one message of kind %d, then the end, path %d mod 8" % (kind, k), "closed", {"a": m}, [ret(text({GOT_AS[kind]: 1}, len(OK), slen(m), c, 0, 0, l))], WHERE, assume=SERIALS, **KW)
            m2 = incoming(SIGNAL, 2, (k + 5) % 8, "i.g")
            run_client(R, P, "received", "kind %d and a signal in one delivery, path %d mod 8" % (kind, k), "hears", {"heard": ONE, "a": cat(m, m2), "b": EMPTY, "c": EMPTY},
                       [ret(text(counts([GOT_AS[kind], "receive_signals"]), len(OK), add(slen(m), slen(m2)), c, 0, 0, l))], WHERE, assume=SERIALS, **KW)


FLOOR = 400
EXPLAIN = ("Abstract interpretation of client programs that send and receive messages with symbolic contents over the modelled socket, before, during and after the handshake, with and without handlers, and then read "
           "DBus::Native::getStats: each number in the text must be the number of messages of that kind sent or received, or the number of octets (a term in the symbolic lengths).")
ASSUME = ["the handshake and the messages are well formed", "the numbers stay below 2^64", "the statistics are read while nothing else happens"]
