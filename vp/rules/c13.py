"""The authentication handshake: BEGIN exactly when the server has accepted, and nothing else out of turn."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import alternatives, ret, run_client
from ..wire import *
from .. import net
from .c11 import KW, SERIALS

HARNESS = ["native"]
WHERE = "DBus::AuthenticationProtocol::onCommand"
HELLO = lit(net.HELLO)
BEGIN = lit("BEGIN\r\n")
NEG = lit("NEGOTIATE_UNIX_FD\r\n")
OK, AGREE, ERR, REJ = "OK 1234deadbeef\r\n", "AGREE_UNIX_FD\r\n", 'ERROR "no"\r\n', "REJECTED EXTERNAL\r\n"
OTHER = ["DATA 00\r\n", "HELLO\r\n", "\r\n", "CANCEL\r\n", "NEGOTIATE_UNIX_FD\r\n", "AUTH EXTERNAL 30\r\n", "BEGIN\r\n", "REJECTED\r\n", "ERROR\r\n", "XOK 00\r\n", " OK 00\r\n", "ok 00\r\n", "A\r\n", "AGREE\r\n", "O\r\n"]
LINES = [OK, AGREE, ERR, REJ]


def runs(kind, lines):
    """all the outputs the protocol allows, None for what it leaves open"""
    st = [("start", ())]
    for x in lines:
        new = []
        for s, o in st:
            if s == "done":
                new.append((s, o + (EMPTY,)))  # not the handshake's business any more
            elif s == "start":
                if x == OK:
                    new.append(("done", o + (BEGIN,)) if kind == 0 else ("asked", o + (NEG,)))
                else:
                    new.append((s, o + (EMPTY,)))
            else:
                if x == AGREE:
                    new.append(("done", o + (BEGIN,)))
                elif x == OK:
                    return None  # the specification has no second OK
                elif x in (ERR, "ERROR\r\n"):
                    new.append((s, o + (EMPTY,)))  # the client needs file descriptors: it waits
                    new.append(("done", o + (BEGIN,)))  # or does without
                else:
                    new.append((s, o + (EMPTY,)))
        st = new
    return [o for s, o in st]


def shake(R, P, rule, kind, lines):
    al = runs(kind, lines)
    if al is None:
        return
    al = list(dict.fromkeys(al))
    exp = [cat(HELLO, *[x for y in o for x in (lit("|"), y)]) for o in al]
    run_client(R, P, rule, "%s: %s" % (("basic", "with file descriptors")[kind], " ".join(x.strip() or "(empty)" for x in lines)), "shake",
               dict({"kind": num(kind)}, **{"abcd"[i]: lit(x) for i, x in enumerate(lines)}), [ret(alternatives(exp) if len(exp) > 1 else exp[0])], WHERE, **KW)


def cut(R, P, kind, text, what):
    al = [o for o in runs(kind, text)]
    want = cat(HELLO, *[x for x in al[0]])
    t = "".join(text)
    for i in range(1, len(t)):
        run_client(R, P, "cut", "%s, divided after %d of %d bytes" % (what, i, len(t)), "shake_cut", {"kind": num(kind), "a": lit(t[:i]), "b": lit(t[i:])}, [ret(want)], WHERE, **KW)
    run_client(R, P, "cut", what + ", in one delivery", "shake_cut", {"kind": num(kind), "a": lit(t), "b": EMPTY}, [ret(want)], WHERE, **KW)


def identity(ds):
    c = dict(net.CUTS)
    c["std::to_string"] = lambda ip, st, o, a, n: [(st, cat(*[spiece(mk("chr", d)) for d in ds]))]
    return c


def check(R, P, tier):
    for kind in (0, 1):
        for ls in itertools.product(LINES, repeat=4):
            shake(R, P, "sequence", kind, ls)
        for x in OTHER:
            shake(R, P, "other line", kind, (x, OK, AGREE, x))
            shake(R, P, "other line", kind, (OK, x, AGREE, x))
            shake(R, P, "other line", kind, (REJ, x, OK, AGREE))
            if tier == "thorough":
                for y in OTHER + LINES:
                    for z in LINES:
                        shake(R, P, "other line", kind, (x, y, z, AGREE))
                        shake(R, P, "other line", kind, (y, z, x, AGREE))
    cut(R, P, 0, [OK], "OK")
    cut(R, P, 0, [ERR, OK], "ERROR, OK")
    cut(R, P, 0, [REJ, "HELLO\r\n", OK], "REJECTED, an unknown line, OK")
    cut(R, P, 1, [OK, AGREE], "OK, AGREE_UNIX_FD")
    cut(R, P, 1, [AGREE, OK, AGREE], "AGREE_UNIX_FD out of turn, OK, AGREE_UNIX_FD")
    cut(R, P, 1, [REJ, OK, REJ, AGREE], "REJECTED, OK, REJECTED, AGREE_UNIX_FD")
    # line ends: the line is over at CR LF and not before
    for a, b in (("OK 00\n", "\r\n"), ("OK 00\r", "\n"), ("OK\r\r", "\n"), ("\nOK 00\r\n", "OK 00\r\n")):
        want = cat(HELLO, BEGIN)
        run_client(R, P, "line end", "%r then %r" % (a, b), "shake_cut", {"kind": ZERO, "a": lit(a), "b": lit(b)}, [ret(want)], WHERE, **KW)
    for t in ("OK 00\n", "OK 00\r", "OK 00", "OK 00\n\r"):
        run_client(R, P, "line end", "%r is no line" % t, "shake_cut", {"kind": ZERO, "a": lit(t), "b": EMPTY}, [ret(HELLO)], WHERE, **KW)
    # the identity: the decimal digits of the user id, each in hexadecimal
    for kind in (0, 1):
        for k in range(1, 11):
            ds = [atom(mk("isym", mk("nm", "digit %d" % i), 0, 255)) for i in range(k)]
            hexd = [x for d in ds for x in (lit("3"), spiece(mk("chr", d)))]
            run_client(R, P, "identity", "user id of %d digits, %s" % (k, ("basic", "with file descriptors")[kind]), "hello", {"kind": num(kind)}, [ret(cat(lit(b"\0AUTH EXTERNAL "), *hexd, lit("\r\n")))],
                       WHERE, cuts=identity(ds), net=True, assume=[c for d in ds for c in (ge0(addc(d, -48)), ge0(sub(num(57), d)))])
    # messages that follow the handshake in the same delivery reach their handlers
    p = [blk("p%d" % i, 8, 3 * i, 5) for i in range(3)]
    ms = [message(SIGNAL, ZERO, u32("s%d" % i), [field(PATH, p[i]), field(IFC, lit("i.f")), field(MEMBER, lit("M"))], (), i == 1) for i in range(3)]
    told = [cat(x, lit(";")) for x in p]
    for kind in (0, 1):
        h = lit(OK + (AGREE if kind else ""))
        w = cat(HELLO, NEG if kind else EMPTY, BEGIN)
        for i in range(4):
            for j in range(i, 4):
                t = cat(h, *ms[:i])
                u = cat(*ms[i:j]) if i < j else EMPTY
                run_client(R, P, "messages follow", "%d messages in the delivery that ends the handshake, %d in the next, %s" % (i, j - i, ("basic", "with file descriptors")[kind]), "shake_then", {"kind": num(kind), "a": t, "b": u},
                           [ret(cat(*told[:i], lit("|"), *told[i:j], lit("|"), w))], WHERE, assume=SERIALS, **KW)
        # divided inside the first message
        raw = list(ms[0].a[0])
        for k in range(1, len(raw)):
            run_client(R, P, "messages follow", "the delivery ends inside the first message (%d), %s" % (k, ("basic", "with file descriptors")[kind]), "shake_then",
                       {"kind": num(kind), "a": cat(h, mk("cat", tuple(raw[:k]))), "b": cat(mk("cat", tuple(raw[k:])), ms[1])}, [ret(cat(lit("|"), told[0], told[1], lit("|"), w))], WHERE, assume=SERIALS, **KW)
            run_client(R, P, "messages follow", "the first message begins in the handshake's delivery; divided (%d), %s" % (k, ("basic", "with file descriptors")[kind]), "shake_then",
                       {"kind": num(kind), "a": lit((OK + (AGREE if kind else ""))[:k]), "b": cat(lit((OK + (AGREE if kind else ""))[k:]), ms[0], ms[2])}, [ret(cat(lit("|"), told[0], told[2], lit("|"), w))], WHERE, assume=SERIALS, **KW)


FLOOR = 500
EXPLAIN = ("Abstract interpretation of the client against a modelled server: every sequence of four lines out of OK, AGREE_UNIX_FD, ERROR and REJECTED and many other lines, the same bytes divided at every position, the identity for every user id by its number "
           "of digits, and messages that follow BEGIN in the same delivery; compared with an automaton of the handshake written from the specification.")
ASSUME = ["the specification has no second OK: such sequences are left open", "an ERROR after NEGOTIATE_UNIX_FD may be waited on or end the handshake"]
