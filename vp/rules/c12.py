"""Messages wait for the handshake and leave afterwards once each, in the order they were sent."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import alternatives, ret, run_client
from ..wire import *
from .. import net
from ..interp import Undecided
from .c11 import SERIALS, KW

HARNESS = ["native"]
WHERE = "DBus::Transport::sendString/addToMessageQueue/onAuthComplete"
NOTE = ("W", "note")
HELLO = lit(net.HELLO)
AUTH = {0: [EMPTY, HELLO, EMPTY, lit("BEGIN\r\n")], 1: [EMPTY, HELLO, lit("NEGOTIATE_UNIX_FD\r\n"), lit("BEGIN\r\n")]}
STAGE = ("before the handshake", "during it", "after half of it", "after it")


def notes(r, n):
    """the messages the client prepared, which it separated by <note>"""
    out = []
    v = r.st.store[NOTE]
    cur = []
    for p in v.a[0]:
        while isinstance(p, bytes) and b"<note>" in p:
            a, _, p = p.partition(b"<note>")
            cur += [a] if a else []
            out.append(cat(*[lit(x) if isinstance(x, bytes) else mk("cat", (x,)) for x in cur]))
            cur = []
        if p:
            cur.append(p)
    if len(out) != n:
        raise Undecided("what the client prepared")
    return out


def check(R, P, tier):
    # the messages are signals with paths of any length
    paths = {"p%d" % i: blk("p%d" % i, 8, i, 5) for i in (1, 2, 3)}
    for kind in (0, 1):
        for ss in itertools.product(range(4), repeat=3):
            def want(r, kind=kind, ss=ss):
                m = notes(r, 3)
                out = EMPTY
                waiting = []
                for now in range(4):
                    new = [m[i] for i in range(3) if ss[i] == now]
                    o = AUTH[kind][now]
                    if now == 0:
                        # the credentials byte may go out at once or with the rest
                        o = lit(net.HELLO[:1])
                    elif now == 1:
                        o = lit(net.HELLO[1:])
                    if now < 3:
                        waiting += new
                    else:
                        o = cat(o, *waiting, *new)
                    out = cat(out, o, lit("|"))
                return out
            run_client(R, P, "queue", "three signals, sent %s; %s" % (", ".join(STAGE[s] for s in ss), ("basic", "with file descriptors")[kind]), "queued",
                       dict(paths, kind=num(kind), s1=num(ss[0]), s2=num(ss[1]), s3=num(ss[2])), [ret(want)], WHERE, assume=SERIALS, **KW)
    for k in range(8):
        p = blk("p", 8, k, 5)
        run_client(R, P, "kinds", "every kind of message, sent before the handshake, path %d mod 8" % k, "queued_kinds", {"p": p, "r": u32("r")},
                   [ret(lambda r: cat(lit(net.HELLO[:1]), lit("|"), lit(net.HELLO[1:]), lit("|BEGIN\r\n"), *notes(r, 5)))], WHERE, assume=SERIALS, **KW)
        run_client(R, P, "kinds", "every kind of message, sent after the handshake, path %d mod 8" % k, "sent_kinds", {"p": p, "r": u32("r")}, [ret(lambda r: cat(*notes(r, 5)))], WHERE, assume=SERIALS, **KW)
    # another thread
    for k in range(8):
        for swap in (0, 1):
            for kind in (0, 1):
                run_client(R, P, "two threads", "a signal is sent while the handshake ends, another waits; %s, %s goes on, paths %d and %d mod 8" % (("basic", "with file descriptors")[kind], ("the sender", "the io thread")[swap], k, (k + 3) % 8),
                           "queued_at", {"kind": num(kind), "swap": num(swap), "p1": blk("p1", 8, k, 5), "p2": blk("p2", 8, (k + 3) % 8, 5)},
                           [ret(lambda r: cat(lit("BEGIN\r\n"), *notes(r, 2)))], WHERE, assume=SERIALS, **KW)
        for stage in (0, 1):
            run_client(R, P, "two threads", "two threads send a signal each, %s the handshake, paths %d and %d mod 8" % (("before", "after")[stage], k, (k + 3) % 8), "both_send",
                       {"stage": num(stage), "p1": blk("p1", 8, k, 5), "p2": blk("p2", 8, (k + 3) % 8, 5)}, [ret(either)], WHERE, assume=SERIALS, **KW)


def either(r):
    a, b = notes(r, 2)
    h = lit(net.HELLO + b"BEGIN\r\n")
    return alternatives([cat(h, a, b), cat(h, b, a)])


FLOOR = 140
EXPLAIN = ("Abstract interpretation of programs that send messages of every kind before, during and after the authentication handshake over a modelled socket; what is written at each stage must be the handshake only, and after BEGIN every "
           "message once, whole, in the order sent; also when a second thread steps in wherever the first takes a lock.")
ASSUME = ["three messages of one kind or five of all kinds", "writes complete between the stages (other orders: C26)"]
