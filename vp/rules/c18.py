"""The end of a connection: nothing is called or used afterwards, what was sent is written, and the end comes."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .c11 import SERIALS, KW
from .c12 import notes
from .c14 import texts

HARNESS = ["native"]
WHERE = "DBus::Native::~Native, DBus::Transport::~Transport"
STAGE = ["new", "handshake begun", "connected", "closed by the other end", "a part of a message has arrived", "a write has failed"]


def check(R, P, tier):
    t = texts()
    for stage, what in enumerate(STAGE):
        for full in (FALSE, TRUE):
            for kind in ("signal", "call"):
                for k in (1, 17, 60) if stage == 4 else (1,):
                    u = substr(t["signal"], ZERO, num(k))
                    run_client(R, P, "silence", "%s%s; a %s arrives afterwards%s" % (what, ", writes outstanding" if full is TRUE else "", kind, ", after %d octets" % k if stage == 4 else ""), "over", {"stage": num(stage), "full": full, "t": t[kind], "u": u}, [ret(lit("0"))], WHERE, assume=SERIALS, **KW)
    for w, what in enumerate(("a signal arrives", "the other end closes", "a write completes", "a write fails")):
        for at in range(12):
            run_client(R, P, "meanwhile", "%s during the end, before lock %d" % (what, at), "over_at", {"what": num(w), "at": num(at), "t": t["signal"]}, [ret(lit("0"))], WHERE, assume=SERIALS, **KW)
    for w in range(8):
        for k in range(8):
            p = {"p%d" % (i + 1): blk("p%d" % (i + 1), 8, (k * (i + 1) + 3 * i) % 8, 5) for i in range(3)}
            run_client(R, P, "last words", "three signals, writes completed %s before the end, texts %d mod 8" % (bin(w)[2:], k), "last_words", dict(p, when=num(w)), [ret(lambda r: cat(lit(b"\0AUTH EXTERNAL 31303030\r\nBEGIN\r\n"), *notes(r, 3)))], WHERE, assume=SERIALS, **KW)
    run_client(R, P, "silence", "the other end takes nothing more", "stalled", {"p1": blk("p1", 8, 3, 5)}, [ret(lit("0"))], WHERE, assume=SERIALS, **KW)


FLOOR = 100
EXPLAIN = ("Abstract interpretation of programs that end a connection in every stage of it: destructors of the library run, with their members' and owned objects' ends, against the modelled socket and io thread. Whatever is outstanding or arrives "
           "during or after the end, no handler of the application is called afterwards, no destroyed object is used, nothing waits or aborts, and messages sent on an authenticated connection are written first.")
ASSUME = ["the other end reads within the second the library waits for it (where last words are concerned)", "the connection is ended from an application thread, outside any handler", "what the io thread has outstanding when it ends is what the modelled socket knows of"]
