"""Hash-consed value terms and linear arithmetic (the abstract value domain)."""
from fractions import Fraction
import itertools
import math

_tab = {}
_n = itertools.count(1)


class T:
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_n)
        t._h = hash(k)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- linear integers
def num(c):
    return mk("lin", int(c), ())


ZERO = num(0)
ONE = num(1)
TRUE = mk("true")
FALSE = mk("false")
NULL = mk("null")
VOID = mk("void")


def atom(t):
    """linear form of one atom"""
    return mk("lin", 0, ((t, 1),))


def isint(t):
    return isinstance(t, T) and t.op == "lin"


def cval(t):
    """constant value or None"""
    if isint(t) and not t.a[1]:
        return t.a[0]
    return None


def _norm(c, d):
    return mk("lin", c, tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda p: p[0].id)))


def add(x, y):
    if not x.a[1] and not y.a[1]:
        return num(x.a[0] + y.a[0])
    d = dict(x.a[1])
    for k, v in y.a[1]:
        d[k] = d.get(k, 0) + v
    return _norm(x.a[0] + y.a[0], d)


def mulc(x, c):
    if c == 1:
        return x
    return _norm(x.a[0] * c, {k: v * c for k, v in x.a[1]})


def sub(x, y):
    return add(x, mulc(y, -1))


def addc(x, c):
    return mk("lin", x.a[0] + c, x.a[1])


def rng_atom(t):
    """(lo, hi) of an atom; None = unbounded"""
    o = t.op
    if o == "isym":
        return t.a[1], t.a[2]
    if o == "len":
        return 0, (1 << 62)
    if o == "ext":
        return 0, (1 << 62)
    if o == "mod":
        return 0, t.a[1] - 1
    if o == "div":
        lo, hi = rng(t.a[0])
        k = t.a[1]
        return (None if lo is None else (lo // k if lo >= 0 else -((-lo) // k)), None if hi is None else hi // k)
    if o == "wrap":
        w, s = t.a[1], t.a[2]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if o == "b2i":
        return 0, 1
    if o in ("ch", "ld", "bswap", "app", "bop"):
        return t.a[-2], t.a[-1]
    return None, None


def rng(x):
    lo = hi = x.a[0]
    for k, v in x.a[1]:
        l, h = rng_atom(k)
        if v < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + v * l
        hi = None if hi is None or h is None else hi + v * h
        if lo is None and hi is None:
            break
    return lo, hi


def isym(name, w=64, s=False):
    if w == 1:
        return mk("isym", name, 0, 1)
    return mk("isym", name, -(1 << (w - 1)) if s else 0, (1 << (w - 1)) - 1 if s else (1 << w) - 1)


def mod(x, k):
    """x mod k for a mathematical x >= 0 (caller's duty), k > 0 constant"""
    if k == 1:
        return ZERO
    d = {}
    c = x.a[0] % k
    for t, v in x.a[1]:
        v %= k
        if not v:
            continue
        if t.op == "mod" and t.a[1] % k == 0:
            # (y mod mk) == y (mod k)
            r = mulc(mod(t.a[0], t.a[1]) if False else t.a[0], v)
            y = mod(r, k)
            c += y.a[0]
            for t2, v2 in y.a[1]:
                d[t2] = d.get(t2, 0) + v2
            continue
        if t.op == "wrap" and (1 << t.a[1]) % k == 0:
            y = mod(mulc(t.a[0], v), k)
            c += y.a[0]
            for t2, v2 in y.a[1]:
                d[t2] = d.get(t2, 0) + v2
            continue
        d[t] = d.get(t, 0) + v
    d = {t: v % k for t, v in d.items() if v % k}
    c %= k
    if not d:
        return num(c)
    y = _norm(c, d)
    lo, hi = rng(y)
    if lo is not None and hi is not None and lo >= 0 and hi < k:
        return y
    return atom(mk("mod", y, k))


def div(x, k):
    """floor(x / k), x >= 0"""
    if k == 1:
        return x
    if x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[1][0][0].op == "div":
        t = x.a[1][0][0]
        return div(t.a[0], t.a[1] * k)
    q = {}
    r = {}
    for t, v in x.a[1]:
        if v % k == 0:
            q[t] = v // k
        else:
            r[t] = v
    if not r:
        return _norm(x.a[0] // k, q)
    rest = _norm(x.a[0] % k, r)
    lo, hi = rng(rest)
    if lo is not None and hi is not None and lo >= 0 and hi < k:
        return _norm(x.a[0] // k, q)
    return add(_norm(x.a[0] // k, q), atom(mk("div", rest, k)))


def join_octets(x):
    """a sum whose terms are the octets of one integer, in either order, is that integer"""
    while len(x.a[1]) > 1:
        y = join_two(x)
        if y is None:
            break
        x = y
    return octets_reversed(x)


def join_two(x):
    d = dict(x.a[1])
    for t, c in x.a[1]:
        if t.op == "mod":
            y = u = None
            for u, k in x.a[1]:
                if k != c * t.a[1]:
                    continue
                dv = u if u.op == "div" else u.a[0].a[1][0][0] if u.op == "mod" and u.a[0].a[0] == 0 and len(u.a[0].a[1]) == 1 and u.a[0].a[1][0][1] == 1 else None
                if dv is not None and dv.op == "div" and dv.a[1] == t.a[1] and mod(dv.a[0], t.a[1]) is mod(t.a[0], t.a[1]):
                    y = dv.a[0] if dv is u else mod(dv.a[0], t.a[1] * u.a[1])
                    break
            if y is None:
                continue
        elif loaded(t) and any(u.op == "ld" and u.a[2] == 1 and u.a[0] is loaded(t).a[0] and u.a[1] is addc(loaded(t).a[1], loaded(t).a[2]) and c == k << 8 and loaded(t).a[2] < 8 for u, k in x.a[1]):
            # the octet after those read so far, with the first of them on top
            m = loaded(t)
            u = next(u for u, k in x.a[1] if u.op == "ld" and u.a[2] == 1 and u.a[0] is m.a[0] and u.a[1] is addc(m.a[1], m.a[2]) and c == k << 8)
            c = d[u]
            y = bswap(load_mem(m.a[0], m.a[1], m.a[2] + 1), m.a[2] + 1)
        elif t.op == "ld":
            u = next((u for u, k in x.a[1] if u.op == "ld" and u.a[0] is t.a[0] and u.a[1] is addc(t.a[1], t.a[2]) and k == c << 8 * t.a[2] and t.a[2] + u.a[2] <= 8), None)
            if u is None:
                continue
            y = load_mem(t.a[0], t.a[1], t.a[2] + u.a[2])
        else:
            continue
        return add(_norm(x.a[0], {k: v for k, v in d.items() if k is not t and k is not u}), mulc(y, c))
    return None


def loaded(t):
    """the octets that are read with the first on top"""
    if t.op == "ld" and t.a[2] == 1:
        return t
    if t.op == "bswap" and t.a[0].a[0] == 0 and len(t.a[0].a[1]) == 1 and t.a[0].a[1][0][1] == 1 and t.a[0].a[1][0][0].op == "ld" and t.a[0].a[1][0][0].a[2] == t.a[1]:
        return t.a[0].a[1][0][0]
    return None


def octet_of(t):
    """(integer, which) when t is one of its octets"""
    if t.op == "mod" and t.a[1] == 256:
        u = t.a[0]
        if u.a[0] == 0 and len(u.a[1]) == 1 and u.a[1][0][1] == 1 and u.a[1][0][0].op == "div":
            t = u.a[1][0][0]
        else:
            return u, 0
    if t.op == "div":
        k = t.a[1].bit_length() - 1
        if t.a[1] == 1 << k and k % 8 == 0:
            return t.a[0], k // 8
    return None


def octets_reversed(x):
    n = len(x.a[1])
    if n not in (2, 4, 8):
        return x
    vs = [(octet_of(t), c, t) for t, c in x.a[1]]
    if all(o for o, _, _ in vs):
        u = vs[0][0][0]
        lo, hi = rng(u)
        if lo is not None and hi is not None and lo >= 0 and hi < 1 << 8 * n and all(o[0] is u for o, _, _ in vs) and all(c == 1 << 8 * (n - 1 - o[1]) for o, c, _ in vs):
            return addc(bswap(u, n), x.a[0])
    return x


def truncbits(x, w, s):
    """reduce into w bits; exact when the range is known to fit"""
    lo, hi = rng(x)
    L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if lo is not None and hi is not None and lo >= L and hi <= H:
        return x
    c = cval(x)
    if c is not None:
        c &= (1 << w) - 1
        if s and c >> (w - 1):
            c -= 1 << w
        return num(c)
    # strip inner wraps that are at least as wide
    d = {}
    c = x.a[0]
    ch = False
    for t, v in x.a[1]:
        if t.op == "wrap" and t.a[1] >= w:
            ch = True
            c += t.a[0].a[0] * v
            for t2, v2 in t.a[0].a[1]:
                d[t2] = d.get(t2, 0) + v2 * v
        else:
            d[t] = d.get(t, 0) + v
    if ch:
        return truncbits(_norm(c, d), w, s)
    m = 1 << w
    d = {t: ((v + m // 2) % m) - m // 2 for t, v in x.a[1]}
    y = _norm(((x.a[0] + m // 2) % m) - m // 2, d)
    lo, hi = rng(y)
    if lo is not None and hi is not None and lo >= L and hi <= H:
        return y
    return atom(mk("wrap", y, w, s))


# ---------------------------------------------------------------- conditions
def ge0(x):
    c = cval(x)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    lo, hi = rng(x)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk("ge", x)


def eq0(x):
    c = cval(x)
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = rng(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if x.a[1][0][1] < 0:
        x = mulc(x, -1)
    if len(x.a[1]) == 1:
        t, v = x.a[1][0]
        if x.a[0] % v:
            return FALSE
        if v != 1:
            x = mk("lin", x.a[0] // v, ((t, 1),))
        if t.op == "b2i":
            if x.a[0] == 0:
                return neg(t.a[0])
            if x.a[0] == -1:
                return t.a[0]
            return FALSE
        if t.op == "ch" and len(t.a) and rng_atom(t)[0] is not None:
            pass
    elif x.a[0] % math.gcd(*[v for _, v in x.a[1]]):
        return FALSE
    return mk("eq", x)


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "ge":
        return ge0(addc(mulc(c.a[0], -1), -1))
    if c.op == "and":
        return mk_or(neg(c.a[0]), neg(c.a[1]))
    if c.op == "or":
        return mk_and(neg(c.a[0]), neg(c.a[1]))
    return mk("not", c)


def mk_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", a, b)


def mk_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk("or", a, b)


def b2i(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "ne01":
        return c.a[0]
    return atom(mk("b2i", c))


def i2b(x):
    """integer != 0"""
    if not isint(x):
        return x
    return neg(eq0(x))


# ---------------------------------------------------------------- sequences of bytes
# a string value is  mk("cat", pieces);  pieces:
#   ("lit", bytes)            literal bytes
#   T("ssym", name)           unknown string
#   T("le", lin, n)           n little-endian (host) bytes of an integer
#   T("chr", lin)             one byte
#   T("rep", lin byte, lin n) n copies
#   T("mem", region, off, n)  n bytes of a memory region
#   T("subs", cat, off, n)    a part of another string
#   T("sapp", name, *args)    opaque
#   T("dbytes", d)            8 host bytes of a double
#   T("fold", ...)            loop result
def lit(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return mk("cat", (b,)) if b else EMPTY


EMPTY = mk("cat", ())


def blkn(b):
    """how many multiples a block text holds"""
    return mk("isym", mk("blkn", b.a[0]), 0, b.a[3])


def plen(p):
    if isinstance(p, bytes):
        return num(len(p))
    o = p.op
    if o == "le":
        return num(p.a[1])
    if o == "chr":
        return ONE
    if o == "dbytes":
        return num(8)
    if o == "rep":
        return p.a[1]
    if o in ("mem", "subs", "rmem"):
        return p.a[2]
    if o == "sapp" and p.a[0] == "rev":
        return p.a[2]
    if o == "ssym" and isinstance(p.a[0], T) and p.a[0].op == "blk":
        # a text whose length is a multiple of a[1] (+ a[2] <= length)
        b = p.a[0]
        return addc(mulc(atom(blkn(b)), b.a[1]), b.a[2])
    return atom(mk("len", p))


def slen(s):
    r = ZERO
    for p in s.a[0]:
        r = add(r, plen(p))
    return r


def cat(*ss):
    out = []
    for s in ss:
        for p in s.a[0]:
            if isinstance(p, T):
                if p.op == "chr" or p.op == "le":
                    p = canon_int_piece(p)
                if p.op == "chr" and cval(p.a[0]) is not None:
                    p = bytes([cval(p.a[0]) & 255])
                elif p.op == "le" and cval(p.a[0]) is not None:
                    p = (cval(p.a[0]) & ((1 << (8 * p.a[1])) - 1)).to_bytes(p.a[1], "little")
                elif p.op == "rep":
                    n = cval(p.a[1])
                    if n == 0:
                        continue
                    b = cval(p.a[0])
                    if n is not None and b is not None and 0 < n < 4096:
                        p = bytes([b & 255]) * n
                elif p.op in ("mem", "subs") and cval(p.a[2]) == 0:
                    continue
            if isinstance(p, bytes):
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += p
                    continue
            elif out and isinstance(out[-1], T) and out[-1].op == p.op == "mem" and out[-1].a[0] is p.a[0] and add(out[-1].a[1], out[-1].a[2]) is p.a[1]:
                out[-1] = mk("mem", p.a[0], out[-1].a[1], add(out[-1].a[2], p.a[2]))
                continue
            elif out and isinstance(out[-1], T) and out[-1].op == p.op == "subs" and out[-1].a[0] is p.a[0] and add(out[-1].a[1], out[-1].a[2]) is p.a[1]:
                out[-1] = mk("subs", p.a[0], out[-1].a[1], add(out[-1].a[2], p.a[2]))
                base = out[-1]
                if base.a[1] is ZERO and base.a[2] is slen(base.a[0]):
                    out.pop()
                    out.extend(base.a[0].a[0])
                continue
            elif out and isinstance(p, T) and p.op == "chr" and char_of(p) and isinstance(out[-1], T) and (out[-1].op == "chr" and char_of(out[-1]) and char_of(out[-1])[0] is char_of(p)[0] and addc(char_of(out[-1])[1], 1) is char_of(p)[1] or out[-1].op == "subs" and out[-1].a[0] is char_of(p)[0] and add(out[-1].a[1], out[-1].a[2]) is char_of(p)[1]):
                # the characters of one text, one after the other
                b, i = char_of(p)
                q = out.pop()
                q = mk("subs", b, addc(i, -1), num(2)) if q.op == "chr" else mk("subs", b, q.a[1], addc(q.a[2], 1))
                if q.a[1] is ZERO and q.a[2] is slen(b):
                    out.extend(b.a[0])
                else:
                    out.append(q)
                continue
            elif out and isinstance(p, T) and p.op == "chr" and isinstance(out[-1], T) and out[-1].op in ("chr", "le") and len(p.a[0].a[1]) and any(t.op == "div" for t, _ in p.a[0].a[1]):
                # the octets of one integer, one after the other
                q = out[-1]
                n = 1 if q.op == "chr" else q.a[1]
                if n < 8 and mod(div(q.a[0], 1 << 8 * n), 256) is mod(p.a[0], 256):
                    out[-1] = canon_int_piece(mk("le", q.a[0], n + 1))
                    continue
            out.append(p)
    return mk("cat", tuple(out))


def char_of(p):
    """(text, position) when the octet is a character of a text"""
    x = p.a[0]
    if x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[1][0][0].op == "ch":
        return x.a[1][0][0].a[:2]
    return None


def canon_int_piece(p):
    """one representative for integers that agree in the bits written"""
    w = 8 if p.op == "chr" else 8 * p.a[1]
    x = truncbits(p.a[0], w, False)
    if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
        t = x.a[1][0][0]
        if t.op == "wrap" and t.a[1] == w:
            x = t.a[0]
    if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
        t = x.a[1][0][0]
        if t.op == "mod" and t.a[1] % (1 << w) == 0:
            return canon_int_piece(mk("chr", t.a[0]) if p.op == "chr" else mk("le", t.a[0], p.a[1]))
        if t.op == "ld" and 8 * t.a[2] == w:
            return mk("mem", t.a[0], t.a[1], num(t.a[2]))
        if t.op == "bswap" and 8 * t.a[1] == w and t.a[0].a[0] == 0 and len(t.a[0].a[1]) == 1 and t.a[0].a[1][0][1] == 1:
            u = t.a[0].a[1][0][0]
            if u.op == "ld" and 8 * u.a[2] == w:
                return mk("rmem", u.a[0], u.a[1], num(u.a[2]))
    if x is p.a[0]:
        return p
    return mk("chr", x) if p.op == "chr" else mk("le", x, p.a[1])


def bswap(x, w):
    """unsigned integer whose w bytes are those of x reversed"""
    c = cval(x)
    if c is not None:
        return num(int.from_bytes((c & ((1 << 8 * w) - 1)).to_bytes(w, "little"), "big"))
    x = truncbits(x, 8 * w, False)
    if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
        t = x.a[1][0][0]
        if t.op == "wrap" and t.a[1] == 8 * w:
            x = t.a[0]
    if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
        t = x.a[1][0][0]
        if t.op == "bswap" and t.a[1] == w:
            return truncbits(t.a[0], 8 * w, False)
    return atom(mk("bswap", x, w, 0, (1 << 8 * w) - 1))


def strconst(s):
    """python bytes when fully known, else None"""
    if s.op != "cat":
        return None
    if not s.a[0]:
        return b""
    if len(s.a[0]) == 1 and isinstance(s.a[0][0], bytes):
        return s.a[0][0]
    return None


def ssym(name):
    return mk("cat", (mk("ssym", name),))


def spiece(p):
    return mk("cat", (p,))


def substr(s, off, n):
    """s[off, off+n) with 0 <= off, off+n <= len(s) (caller's duty)"""
    if n is ZERO:
        return EMPTY
    if off is ZERO and n is slen(s):
        return s
    # walk the pieces while boundaries are decided syntactically
    pos = ZERO
    ps = list(s.a[0])
    i = 0
    end = add(off, n)
    out = []
    started = False
    while i < len(ps):
        p = ps[i]
        l = plen(p)
        nxt = add(pos, l)
        if not started:
            d = cval(sub(off, pos))
            if d == 0:
                started = True
                continue
            dn = cval(sub(off, nxt))
            lo1, hi1 = rng(sub(off, nxt))
            if dn is not None and dn >= 0 or (lo1 is not None and lo1 >= 0):
                pos = nxt
                i += 1
                continue
            # starts inside p ?
            if d is not None and d > 0 and isinstance(p, bytes):
                if d < len(p):
                    ps[i] = p[d:]
                    pos = off
                    continue
            if isinstance(p, T) and p.op in ("mem", "subs"):
                k = sub(off, pos)
                lo, _ = rng(k)
                if lo is not None and lo >= 0:
                    rest = sub(l, k)
                    ps[i] = mk(p.op, p.a[0], add(p.a[1], k), rest)
                    pos = off
                    continue
            break
        else:
            if pos is end:
                return cat(mk("cat", tuple(out)))
            e = cval(sub(end, nxt))
            lo, hi = rng(sub(end, nxt))
            if (e is not None and e >= 0) or (lo is not None and lo >= 0):
                out.append(p)
                pos = nxt
                i += 1
                continue
            d = cval(sub(end, pos))
            if d is not None and d >= 0 and isinstance(p, bytes):
                out.append(p[:d])
                return cat(mk("cat", tuple(out)))
            if isinstance(p, T) and p.op in ("mem", "subs"):
                k = sub(end, pos)
                lo, _ = rng(k)
                if lo is not None and lo >= 0:
                    out.append(mk(p.op, p.a[0], p.a[1], k))
                    return cat(mk("cat", tuple(out)))
            break
    if started and pos is end:
        return cat(mk("cat", tuple(out)))
    return spiece(mk("subs", s, off, n))


def replace_sub(s, off, n, rep):
    """s with [off,off+n) replaced, or None if the boundaries cannot be placed"""
    total = slen(s)
    a = substr(s, ZERO, off)
    b = substr(s, add(off, n), sub(total, add(off, n)))
    return cat(a, rep, b)


def char_at(s, i, signed=True):
    """integer term of character i"""
    pos = ZERO
    for p in s.a[0]:
        l = plen(p)
        d = cval(sub(i, pos))
        if d is not None and cval(l) is not None and 0 <= d < cval(l) and isinstance(p, T) and len(s.a[0]) > 1 or len(s.a[0]) == 1 and isinstance(p, T) and p.op == "sapp" and p.a[0] == "rev":
            if p.op == "subs":
                return char_at(p.a[0], addc(p.a[1], d), signed)
            if p.op == "sapp" and p.a[0] == "rev":
                return char_at(p.a[1], sub(addc(p.a[2] if isinstance(p.a[2], T) else num(p.a[2]), -1), sub(i, pos)), signed)
        if d is not None:
            if isinstance(p, bytes):
                if 0 <= d < len(p):
                    c = p[d]
                    return num(c - 256 if signed and c > 127 else c)
            elif d == 0 and p.op == "chr":
                return truncbits(p.a[0], 8, signed)
            elif p.op == "le" and 0 <= d < p.a[1]:
                return truncbits(mod(div(truncbits(p.a[0], 8 * p.a[1], False), 1 << (8 * d)), 256), 8, signed)
        if cval(l) is None and d is not None and d < 0:
            break
        pos = add(pos, l)
    lo, hi = (-128, 127) if signed else (0, 255)
    if len(s.a[0]) == 1 and isinstance(s.a[0][0], T) and s.a[0][0].op == "subs":
        q = s.a[0][0]
        return char_at(q.a[0], add(q.a[1], i), signed)
    if len(s.a[0]) == 1 and isinstance(s.a[0][0], T) and s.a[0][0].op == "mem":
        q = s.a[0][0]
        return load_mem(q.a[0], add(q.a[1], i), 1, signed)
    x = atom(mk("ch", s, i, 0, 255))
    return truncbits(x, 8, True) if signed else x


def load_mem(region, off, n, signed=False):
    x = atom(mk("ld", region, off, n, 0, (1 << (8 * n)) - 1))
    return truncbits(x, 8 * n, True) if signed else x


# ---------------------------------------------------------------- generic helpers
def children(t):
    for a in t.a:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            st = [a]
            while st:
                x = st.pop()
                for y in x:
                    if isinstance(y, T):
                        yield y
                    elif isinstance(y, tuple):
                        st.append(y)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def subst(t, m, memo=None):
    """replace subterms (map T->T); linear and string terms are renormalised"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        r = num(t.a[0])
        for k, v in t.a[1]:
            y = m.get(k)
            if y is None:
                y = rebuild_atom(k, m, memo)
            elif y.op != "lin":
                y = atom(y)
            r = add(r, mulc(y, v))
    elif t.op == "cat":
        parts = []
        for p in t.a[0]:
            if isinstance(p, bytes):
                parts.append(spiece(p))
            else:
                y = m.get(p)
                if y is None:
                    y = subst(p, m, memo)
                parts.append(y if y.op == "cat" else spiece(y))
        r = cat(*parts)
    elif t.op in ("ge", "eq"):
        x = subst(t.a[0], m, memo)
        r = ge0(x) if t.op == "ge" else eq0(x)
    elif t.op == "not":
        r = neg(subst(t.a[0], m, memo))
    elif t.op == "and":
        r = mk_and(subst(t.a[0], m, memo), subst(t.a[1], m, memo))
    elif t.op == "or":
        r = mk_or(subst(t.a[0], m, memo), subst(t.a[1], m, memo))
    elif t.op == "tyof":
        v = subst(t.a[0], m, memo)
        r = mk("ty", v.a[0]) if v.op == "any" else mk("ty", "void") if v.op == "any0" else mk("tyof", v)
    elif t.op == "bapp" and t.a[0] == "anyis":
        v = subst(t.a[1], m, memo)
        r = (TRUE if v.a[0] == t.a[2].a[0] else FALSE) if v.op == "any" else (TRUE if t.a[2].a[0] == "void" else FALSE) if v.op == "any0" else mk("bapp", "anyis", v, t.a[2])
    else:
        r = mk(t.op, *[_sa(a, m, memo) for a in t.a])
    memo[t] = r
    return r


def _sa(a, m, memo):
    if isinstance(a, T):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_sa(x, m, memo) for x in a)
    return a


def rebuild_atom(k, m, memo):
    """linear form of an atom after substitution inside it"""
    if k.op == "mod":
        return mod(subst(k.a[0], m, memo), k.a[1])
    if k.op == "div":
        return div(subst(k.a[0], m, memo), k.a[1])
    if k.op == "wrap":
        return truncbits(subst(k.a[0], m, memo), k.a[1], k.a[2])
    if k.op == "len":
        y = m.get(k.a[0])
        if y is None:
            y = subst(k.a[0], m, memo)
        return slen(y) if y.op == "cat" else (sqlen(y) if y.op == "seq" else atom(mk("len", y)))
    if k.op == "b2i":
        return b2i(subst(k.a[0], m, memo))
    if k.op == "ch":
        y = subst(k.a[0], m, memo)
        return char_at(y, subst(k.a[1], m, memo), False)
    y = mk(k.op, *[_sa(a, m, memo) for a in k.a])
    return atom(y)


# ---------------------------------------------------------------- vectors
#  mk("seq", pieces): T("el", v) | T("vsym", name, elemtype) | T("vfold", ...)
def seq(*ps):
    return mk("seq", tuple(ps))


def sqlen(s):
    r = ZERO
    for p in s.a[0]:
        r = add(r, ONE if p.op == "el" else atom(mk("len", p)))
    return r


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "…"
    o = t.op
    if o == "lin":
        ps = []
        for k, v in t.a[1]:
            ps.append(("" if v == 1 else "%d*" % v) + show(k, d + 1))
        if t.a[0] or not ps:
            ps.append(str(t.a[0]))
        return " + ".join(ps) if len(ps) == 1 else "(" + " + ".join(ps) + ")"
    if o == "isym" or o == "ssym" or o == "batom":
        return str(t.a[0])
    if o == "cat":
        return "«" + " ".join(show(p, d + 1) if isinstance(p, T) else repr(p)[1:] for p in t.a[0]) + "»"
    if o == "seq":
        return "[" + ", ".join(show(p, d + 1) for p in t.a[0]) + "]"
    if o == "ge":
        return show(t.a[0], d + 1) + ">=0"
    if o == "eq":
        return show(t.a[0], d + 1) + "==0"
    if o == "rec":
        return t.a[0].split("::")[-1] + "{" + ", ".join("%s=%s" % (f, show(v, d + 1)) for f, v in t.a[2]) + ("" if t.a[1] is None else " …") + "}"
    if o == "addr":
        return "&" + str(t.a[0]) + "".join("." + (s[1] if isinstance(s[1], str) else show(s[1], d + 1)) for s in t.a[1])
    if not t.a:
        return o
    return o + "(" + ", ".join(show(a, d + 1) if isinstance(a, T) else ("(" + ",".join(show(x, d + 1) for x in a) + ")" if isinstance(a, tuple) else str(a)) for a in t.a) + ")"


# ---------------------------------------------------------------- entailment (Fourier-Motzkin)
def _expand(lins):
    """add range facts and div/mod relations of the atoms that occur"""
    out = list(lins)
    seen = set()
    todo = [k for l in lins for k, _ in l.a[1]]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        lo, hi = rng_atom(k)
        a = atom(k)
        if lo is not None:
            out.append(addc(a, -lo))
        if hi is not None:
            out.append(addc(mulc(a, -1), hi))
        if k.op == "mod":
            x = k.a[0]
            q = mk("div", x, k.a[1])
            e = sub(sub(x, mulc(atom(q), k.a[1])), a)
            out.append(e)
            out.append(mulc(e, -1))
            todo.extend(t for t, _ in e.a[1])
        if k.op == "div":
            # 0 <= x - k*d <= k-1
            e = sub(k.a[0], mulc(a, k.a[1]))
            out.append(e)
            out.append(addc(mulc(e, -1), k.a[1] - 1))
            todo.extend(t for t, _ in e.a[1])
    return out


_inf_cache = {}


def infeasible(lins):
    """True when the conjunction of lin >= 0 has no rational solution (sound, may give up -> False)"""
    key = frozenset(lins)
    r = _inf_cache.get(key)
    if r is None:
        r = _infeasible(list(key))
        _inf_cache[key] = r
    return r


def _infeasible(lins):
    rows = []
    seen = set()
    for l in _expand(lins):
        if not l.a[1]:
            if l.a[0] < 0:
                return True
            continue
        if l in seen:
            continue
        seen.add(l)
        rows.append((l.a[0], dict(l.a[1])))
    # eliminate equalities first via FM; choose the variable with fewest products
    def key(r):
        return (tuple(sorted((t.id, v) for t, v in r[1].items())))
    for _ in range(200):
        if not rows:
            return False
        occ = {}
        for c, d in rows:
            for t, v in d.items():
                p = occ.setdefault(t, [0, 0])
                p[0 if v > 0 else 1] += 1
        # drop variables that appear with one sign only
        t = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k.id))
        pos = [r for r in rows if r[1].get(t, 0) > 0]
        neg_ = [r for r in rows if r[1].get(t, 0) < 0]
        rest = [r for r in rows if t not in r[1]]
        if len(pos) * len(neg_) > 4000:
            return False
        best = {}
        for r in rest:
            k = key(r)
            if k not in best or best[k][0] > r[0]:
                best[k] = r
        for cp, dp in pos:
            vp = dp[t]
            for cn, dn in neg_:
                vn = -dn[t]
                d = {}
                for k, v in dp.items():
                    if k is not t:
                        d[k] = v * vn
                for k, v in dn.items():
                    if k is not t:
                        d[k] = d.get(k, 0) + v * vp
                d = {k: v for k, v in d.items() if v}
                c = cp * vn + cn * vp
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                from math import gcd
                for v in d.values():
                    g = gcd(g, abs(v))
                if g > 1:
                    d = {k: v // g for k, v in d.items()}
                    c = c // g  # integer tightening
                r = (c, d)
                k = key(r)
                if k not in best or best[k][0] > c:
                    best[k] = r
        rows = list(best.values())
        if len(rows) > 3000:
            return False
    return False
