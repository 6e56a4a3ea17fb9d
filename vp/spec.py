"""The wire format written down independently of the code under analysis.

Values are terms; the encoder appends to a text whose length is known modulo 8.
"""
from .terms import *

ALIGN = {"y": 1, "b": 4, "n": 2, "q": 2, "i": 4, "u": 4, "x": 8, "t": 8, "d": 8, "s": 4, "o": 4, "g": 1, "a": 4, "(": 8, "{": 8, "v": 1}
WIDTH = {"y": 1, "b": 4, "n": 2, "q": 2, "i": 4, "u": 4, "x": 8, "t": 8}


def complete(sig, i=0):
    """index after the complete type starting at i"""
    c = sig[i]
    if c == "a":
        return complete(sig, i + 1)
    if c in "({":
        i += 1
        while sig[i] not in ")}":
            i = complete(sig, i)
        return i + 1
    return i + 1


def split(sig):
    out, i = [], 0
    while i < len(sig):
        j = complete(sig, i)
        out.append(sig[i:j])
        i = j
    return out


class Enc:
    def __init__(self, pre=EMPTY, big=False):
        self.b = pre
        self.base = ZERO
        self.big = big

    def pad(self, n):
        r = cval(mod(slen(self.b), n))
        if r is None:
            raise ValueError("length not known modulo %d" % n)
        if r:
            self.b = cat(self.b, lit(b"\0" * (n - r)))

    def raw(self, s):
        self.b = cat(self.b, s)

    def int(self, x, w):
        if self.big and w > 1:
            c = cval(x)
            if c is not None:
                self.raw(lit((c & ((1 << 8 * w) - 1)).to_bytes(w, "big")))
            else:
                self.raw(cat(spiece(mk("le", bswap(x, w), w))))
        else:
            self.raw(spiece(mk("le", x, w) if w > 1 else mk("chr", truncbits(x, 8, False))))

    def val(self, sig, v):
        c = sig[0]
        self.pad(ALIGN[c])
        if c in "ybnqiuxt":
            x = v if isint(v) else b2i(v)
            self.int(x, WIDTH[c])
        elif c == "d":
            s = spiece(mk("dbytes", v))
            self.raw(spiece(mk("sapp", "rev", s, num(8))) if self.big else s)
        elif c in "so":
            self.int(slen(v), 4)
            self.raw(v)
            self.raw(lit(b"\0"))
        elif c == "g":
            self.int(slen(v), 1)
            self.raw(v)
            self.raw(lit(b"\0"))
        elif c == "v":
            s, x = v
            self.int(num(len(s)), 1)
            self.raw(lit(s.encode() + b"\0"))
            self.val(s, x)
        elif c == "a":
            # length of the elements, excluding the padding before the first
            head = self.b
            l0 = slen(self.b)
            self.raw(lit(b"\0\0\0\0"))
            self.pad(ALIGN[sig[1]])
            start = slen(self.b)
            hole = self.b
            for x in v:
                self.val(sig[1:], x)
            body = sub(slen(self.b), start)
            rest = substr(self.b, addc(l0, 4), sub(slen(self.b), addc(l0, 4)))
            self.b = head
            self.int(body, 4)
            self.raw(rest)
        elif c in "({":
            for t, x in zip(split(sig[1:-1]), v):
                self.val(t, x)
        else:
            raise ValueError(sig)


def encode(pre, *tv, big=False):
    e = Enc(pre, big)
    for t, v in tv:
        e.val(t, v)
    return e.b
