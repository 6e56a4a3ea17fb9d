"""Messages on the wire, and what a handler is told about them, written from the specification."""
import itertools
from .terms import *
from .client import blk
from . import spec

CALL, RETURN, ERROR, SIGNAL = 1, 2, 3, 4
PATH, IFC, MEMBER, ERRNAME, REPLY, DEST, SENDER, SIG = 1, 2, 3, 4, 5, 6, 7, 8
FTYPE = {PATH: "o", IFC: "s", MEMBER: "s", ERRNAME: "s", REPLY: "u", DEST: "s", SENDER: "s", SIG: "g"}


def u32(n):
    return atom(isym(mk("nm", n), 32, False))


def u8(n):
    return atom(isym(mk("nm", n), 8, False))


def field(code, v):
    return (num(code), (FTYPE[code], v))


def body_of(params, big=False):
    return spec.encode(EMPTY, *params, big=big)


def header(kind, flags, blen, serial, fields, big=False):
    e = spec.Enc(EMPTY, big)
    e.raw(lit(b"B" if big else b"l"))
    for x in (kind if isinstance(kind, T) else num(kind), flags, num(1)):
        e.val("y", x)
    e.val("u", blen)
    e.val("u", serial)
    e.val("a(yv)", fields)
    e.pad(8)
    return e.b


def message(kind, flags, serial, fields, params=(), big=False):
    """a whole message; the signature field is added last when there are parameters"""
    b = body_of(params, big)
    fs = list(fields)
    if params:
        fs.append(field(SIG, lit("".join(t for t, _ in params))))
    return cat(header(kind, flags, slen(b), serial, fs, big), b)


def orders(kind, flags, serial, fields, params=()):
    """every order of the header fields"""
    b = body_of(params)
    fs = list(fields)
    if params:
        fs.append(field(SIG, lit("".join(t for t, _ in params))))
    for p in itertools.permutations(fs):
        yield cat(header(kind, flags, slen(b), serial, list(p)), b)


class Note:
    """mirror of note() in harness/proto.cpp: what each handler is told"""

    def __init__(self):
        self.b = EMPTY

    def raw(self, *xs):
        for x in xs:
            self.b = cat(self.b, x if isinstance(x, T) else lit(x))
        return self

    def s(self, *xs):
        for x in xs:
            self.raw(x, ";")
        return self

    def i(self, x):
        return self.raw(spiece(mk("le", x, 4)))

    def add(self, kind, serial=ZERO, params=(), path=EMPTY, ifc=EMPTY, member=EMPTY, dest=EMPTY, sender=EMPTY, reply=ZERO, text=EMPTY, answer="1"):
        self.raw("?CRES"[kind]).s(path, ifc, member, dest, sender).i(serial).i(reply)
        for t, v in params:
            self.s(lit(t))
            if t == "u":
                self.i(v)
            else:
                self.s(v)
        self.raw(".")
        if kind == CALL:
            self.raw(answer).s(path, ifc, member)
        elif kind == RETURN:
            self.i(reply)
        elif kind == ERROR:
            self.i(reply).s(text)
        return self


def answers(flags):
    """(condition, what is reported) for 'a reply is expected'"""
    c = eq0(mod(flags, 2))
    return [(c, "1"), (neg(c), "0")]
