"""What is written reaches the socket whole, once and in order, however slowly the socket takes it."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from ..interp import Undecided
from .. import net
from .c11 import SERIALS, KW
from .c12 import notes

HARNESS = ["native"]
WHERE = "DBus::Transport::queueWrite/startWrite/handle_write_output"


def check(R, P, tier):
    for kind in (0, 1):
        for w in range(32):
            def want(r, kind=kind):
                m = notes(r, 3)
                return cat(lit(net.HELLO), lit("NEGOTIATE_UNIX_FD\r\n" if kind else ""), lit("BEGIN\r\n"), *m)
            for res in ((0, 3, 6), (1, 7, 4)) if tier == "quick" else ((i, j, k) for i in range(8) for j in range(0, 8, 3) for k in range(0, 8, 3)):
                paths = {"p%d" % (i + 1): blk("p%d" % (i + 1), 8, k, 5) for i, k in enumerate(res)}
                done = [x for i, x in enumerate(("the first message", "the handshake began", "its first answer", "the second message", "the second message (twice)")) if w >> i & 1]
                run_client(R, P, "order", "writes complete after %s; %s; texts %s mod 8" % (", ".join(done) or "everything", ("basic", "with file descriptors")[kind], "%d,%d,%d" % res), "writes",
                           dict(paths, kind=num(kind), when=num(w)), [ret(want)], WHERE, assume=SERIALS, **KW)
    # a failed write: what follows is not mixed with it
    for w in (0, 1):
        for k in range(8):
            run_client(R, P, "failure", "a write fails%s; a message after that, %d mod 8" % (", another waits" if w else "", k), "write_fails", {"when": num(w), "p1": blk("p1", 8, 3, 5), "p2": blk("p2", 8, k, 5)},
                       [ret(lambda r: notes(r, 1)[0])], WHERE, assume=SERIALS, **KW)
    for swap in (0, 1):
        for k in range(8):
            run_client(R, P, "two threads", "a write completes while another message is sent, %s goes on, texts %d mod 8" % (("the sender", "the io thread")[swap], k), "complete_at",
                       {"swap": num(swap), "p1": blk("p1", 8, 3, 5), "p2": blk("p2", 8, k, 5), "p3": blk("p3", 8, 6, 5)}, [ret(lambda r: cat(*notes(r, 3)))], WHERE, assume=SERIALS, **KW)


FLOOR = 140
EXPLAIN = ("Abstract interpretation of programs that send messages while earlier writes are outstanding; the modelled socket marks a write that starts before another has completed and a buffer nothing keeps alive until its write has completed. "
           "For every pattern of completions the bytes written are the handshake and the messages, whole, once and in order.")
ASSUME = ["three messages and the handshake", "the socket completes writes in the order they were started"]
