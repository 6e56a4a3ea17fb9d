"""Concretisation of value terms: used only to separate two different terms.

Two different normal forms may still denote the same value; an alarm needs a
valuation of the symbols that satisfies the path condition and separates them.
"""
import random
import struct
from . import terms as tm
from .terms import T, mk


class NoVal(Exception):
    """the term has a part without a denotation here"""


OPAQUE = ("unk", "rec#", "havoc", "opq")


def bad_name(x):
    """symbols introduced by an approximation are not free to choose"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            st.extend(y.a)
        elif isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, str) and ("#" in y or "@" in y):
            return True
    return False


class Val:
    def __init__(self, seed, consts=(), strs=(), fixed=None):
        self.r = random.Random(seed)
        self.seed = seed
        self.consts = list(consts)
        self.strs = list(strs)
        self.env = dict(fixed or {})
        self.memo = {}
        self.local = {}

    # -------------------------------------------------------- choices
    def pick_int(self, lo, hi):
        r = self.r
        lo = 0 if lo is None else lo
        hi = (1 << 20) if hi is None else hi
        m = r.randrange(6)
        if m == 0 and self.consts:
            c = r.choice(self.consts) + r.choice((-1, 0, 0, 0, 1))
            if lo <= c <= hi:
                return c
        if m == 1:
            return r.choice((lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, 1)), max(lo, min(hi, -1))))
        if m == 2:
            return r.randint(lo, hi)
        if m == 3:
            b = r.randrange(1, max(2, hi.bit_length() + 1))
            return max(lo, min(hi, r.getrandbits(b)))
        if m == 4:
            return max(lo, min(hi, (1 << r.randrange(0, 40)) + r.choice((-1, 0, 1))))
        return max(lo, min(hi, r.randrange(0, 300)))

    def pick_bytes(self, n=None):
        r = self.r
        if n is None:
            m = r.randrange(5)
            if m == 0 and self.strs:
                s = r.choice(self.strs)
                k = r.randrange(4)
                if k == 0:
                    return s[:r.randrange(len(s) + 1)]
                if k == 1:
                    return s + self.pick_bytes(r.randrange(1, 5))
                return s
            n = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 12, 20, 64, 255, 256, 300)) if m < 3 else r.randrange(0, 24)
        al = b"abcxyz019._-/ " if r.randrange(3) else bytes(range(256))
        return bytes(r.choice(al) for _ in range(n))

    def atom(self, t):
        if t in self.env:
            return self.env[t]
        if bad_name(t):
            raise NoVal("approximated symbol %s" % t)
        o = t.op
        if o == "isym":
            n = t.a[0]
            if isinstance(n, T) and n.op == "blkn":
                v = self.r.choice((0, 0, 1, 2, 3, 5, 33))
                if t.a[2] is not None:
                    v = min(v, t.a[2])
            else:
                v = self.pick_int(t.a[1], t.a[2])
        elif o == "ssym":
            n = t.a[0]
            if isinstance(n, T) and n.op == "blk":
                k = self.atom(tm.blkn(n)) * n.a[1] + n.a[2]
                v = bytes(self.r.choice(b"abcxyzABZ019_") for _ in range(k)) if str(n.a[0]).startswith("id:") else self.pick_bytes(k)
            else:
                v = self.pick_bytes()
        elif o == "batom":
            v = self.r.randrange(2) == 1
        elif o == "dsym":
            v = self.r.choice((struct.pack("<d", 1.5), struct.pack("<d", -0.0), struct.pack("<d", 1e300), bytes(range(1, 9)), b"\0" * 6 + b"\xf8\x7f", self.pick_bytes(8)))
        elif o == "vsym":
            v = ("vsym", t, self.r.choice((0, 1, 2, 3)))
        else:
            raise NoVal(o)
        self.env[t] = v
        return v

    def region(self, reg, i):
        """byte i of a memory region"""
        if reg.op == "strbuf":
            s = self.ev(reg.a[1])
            if i == len(s):
                return 0
            if not 0 <= i < len(s):
                raise NoVal("outside a buffer")
            return s[i]
        if reg.op == "litbuf":
            return self.ev(reg.a[0])[i]
        k = ("reg", reg)
        d = self.env.setdefault(k, {})
        if i not in d:
            d[i] = random.Random("%s/%s/%s" % (self.seed, show_name(reg), i)).choice((0, 1, 2, 255, 108, 66, 4, 7, random.Random(self.seed * 7 + i).randrange(256)))
        return d[i]

    def rbytes(self, reg, off, n):
        if n < 0 or n > 1 << 16:
            raise NoVal("extent")
        return bytes(self.region(reg, off + j) for j in range(n))

    # -------------------------------------------------------- evaluation
    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            if not self.local:
                self.memo[t] = r
        return r

    def _ev(self, t):
        o = t.op
        a = t.a
        if o == "lin":
            s = a[0]
            for k, v in a[1]:
                s += v * self.ev(k)
            return s
        if o in ("isym", "batom", "dsym", "vsym"):
            if t in self.local:
                return self.local[t]
            return self.atom(t)
        if o == "ssym":
            if t in self.local:
                return self.local[t]
            return self.atom(t)
        if o == "cat":
            out = []
            n = 0
            for p in a[0]:
                b = p if isinstance(p, bytes) else self.ev(p)
                if not isinstance(b, bytes):
                    raise NoVal("piece")
                n += len(b)
                if n > 1 << 18:
                    raise NoVal("too long")
                out.append(b)
            return b"".join(out)
        if o == "len":
            if a[0].op == "vsym":
                return self.atom(a[0])[2]
            return len(self.ev(a[0]))
        if o == "le":
            return (self.ev(a[0]) & ((1 << (8 * a[1])) - 1)).to_bytes(a[1], "little")
        if o == "chr":
            return bytes([self.ev(a[0]) & 255])
        if o == "rep":
            n = self.ev(a[1])
            if n < 0 or n > 1 << 16:
                raise NoVal("rep")
            return bytes([self.ev(a[0]) & 255]) * n
        if o == "dbytes":
            return self.ev(a[0])
        if o == "dconst":
            return struct.pack("<d", a[0])
        if o == "dblmem":
            b = self.rbytes(a[0], self.ev(a[1]), 8)
            return b if a[2] == "host" else b[::-1]
        if o == "dapp" and a[0] == "ofbytes":
            b = self.ev(a[1])
            if len(b) != 8:
                raise NoVal("double bytes")
            return b
        if o == "mem":
            return self.rbytes(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == "rmem":
            return self.rbytes(a[0], self.ev(a[1]), self.ev(a[2]))[::-1]
        if o == "subs":
            s = self.ev(a[0])
            off, n = self.ev(a[1]), self.ev(a[2])
            if off < 0 or n < 0 or off + n > len(s):
                raise NoVal("substring")
            return s[off:off + n]
        if o == "ld":
            return int.from_bytes(self.rbytes(a[0], self.ev(a[1]), a[2]), "little")
        if o == "ch":
            s, i = self.ev(a[0]), self.ev(a[1])
            if i == len(s):
                return 0
            if not 0 <= i < len(s):
                raise NoVal("char")
            return s[i]
        if o == "bswap":
            w = a[1]
            return int.from_bytes((self.ev(a[0]) & ((1 << 8 * w) - 1)).to_bytes(w, "little"), "big")
        if o == "mod":
            return self.ev(a[0]) % a[1]
        if o == "div":
            return self.ev(a[0]) // a[1]
        if o == "wrap":
            x = self.ev(a[0]) & ((1 << a[1]) - 1)
            if a[2] and x >> (a[1] - 1):
                x -= 1 << a[1]
            return x
        if o == "b2i":
            return 1 if self.ev(a[0]) else 0
        if o == "bop":
            return self.ev(a[1]) & a[2]
        if o == "app":
            return self.app(t)
        if o == "sapp":
            return self.sapp(t)
        if o == "bapp":
            return self.bapp(t)
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "ge":
            return self.ev(a[0]) >= 0
        if o == "eq":
            return self.ev(a[0]) == 0
        if o == "not":
            return not self.ev(a[0])
        if o == "and":
            return bool(self.ev(a[0]) and self.ev(a[1]))
        if o == "or":
            return bool(self.ev(a[0]) or self.ev(a[1]))
        if o == "seq=":
            return self.ev(a[0]) == self.ev(a[1])
        if o == "strlit":
            return a[0]
        if o == "seq":
            out = []
            for p in a[0]:
                if p.op == "el":
                    out.append(self.ev(p.a[0]))
                elif p.op == "vsym":
                    v = self.atom(p)
                    out += [("elem", p, i) for i in range(v[2])]
                else:
                    raise NoVal(p.op)
            return tuple(out)
        if o == "any":
            return ("any", a[0], self.ev(a[1]))
        if o == "any0":
            return ("any", "void", None)
        if o == "ty":
            return ("ty", a[0])
        if o == "rec":
            if a[1] is not None:
                raise NoVal("partial record")
            return ("rec", a[0], tuple((f, self.ev(v)) for f, v in a[2]))
        if o == "map":
            if a[0].op != "mempty":
                raise NoVal("map")
            d = {}
            for op in a[1]:
                if op[0] != "put":
                    raise NoVal("map")
                d[self.ev(op[1])] = self.ev(op[2])
            return ("map", tuple(sorted(d.items(), key=repr)))
        if o in ("null", "void", "fnull"):
            return (o,)
        if o == "fold":
            return self.fold(t)
        if o == "uninit":
            raise NoVal("uninit")
        raise NoVal(o)

    def fold(self, t):
        n = self.ev(t.a[0])
        if not 0 <= n <= 4096:
            raise NoVal("fold")
        acc = b""
        saved = dict(self.local)
        IX = mk("isym", "IX", 0, 1 << 62)
        ACC = mk("ssym", "ACC")
        try:
            for i in range(n):
                self.local = dict(saved)
                self.local[IX] = i
                self.local[ACC] = acc
                hit = [r for pcs, r in t.a[1] if all(self.ev(c) for c in pcs)]
                if len(hit) != 1:
                    raise NoVal("fold branch")
                acc += self.ev(hit[0])
        finally:
            self.local = saved
        return acc

    def app(self, t):
        op, args = t.a[0], t.a[1]
        L, H = t.a[2], t.a[3]
        if op in ("strcmp",):
            u, v = self.ev(args[0]), self.ev(args[1])
            return (u > v) - (u < v)
        if op in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            s, p, pos = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
            r = self.find(op, s, p, pos)
            return (1 << 64) - 1 if r < 0 else r
        if op == "bytes2int":
            b = self.ev(args[0])
            return int.from_bytes(b, "little", signed=L < 0)
        if op == "strtonum":
            s = self.ev(args[0])
            try:
                return int(s.decode("latin1").strip(), self.ev(args[1]) or 10)
            except ValueError:
                raise NoVal("number")
        if op == "msize":
            v = self.ev(args[0])
            if isinstance(v, tuple) and v and v[0] == "map":
                return len(v[1])
            raise NoVal(op)
        if op in ("mul", "shl", "shr", "/", "%", "&", "|", "^", "*"):
            x, y = [self.ev(z) for z in args]
            if op in ("mul", "*"):
                r = x * y
            elif op == "shl":
                r = x << y if 0 <= y < 128 else 0
            elif op == "shr":
                r = x >> y if 0 <= y < 128 else 0
            elif op in ("/", "%"):
                if y == 0:
                    raise NoVal("division by zero")
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                r = q if op == "/" else x - q * y
            elif op == "&":
                r = x & y
            elif op == "|":
                r = x | y
            else:
                r = x ^ y
            w = (H - L + 1).bit_length() - 1
            r &= (1 << w) - 1
            if L < 0 and r >> (w - 1):
                r -= 1 << w
            return r
        raise NoVal(op)

    @staticmethod
    def find(op, s, p, pos):
        if op == "find":
            return s.find(p, pos) if pos <= len(s) else -1
        if op == "rfind":
            return s.rfind(p, 0, min(pos, len(s)) + len(p))
        if op == "find_first_of":
            return next((i for i in range(pos, len(s)) if s[i] in p), -1)
        if op == "find_last_of":
            return next((i for i in range(min(pos, len(s) - 1), -1, -1) if s[i] in p), -1)
        if op == "find_first_not_of":
            return next((i for i in range(pos, len(s)) if s[i] not in p), -1)
        return next((i for i in range(min(pos, len(s) - 1), -1, -1) if s[i] not in p), -1)

    def sapp(self, t):
        k = t.a[0]
        if k == "dec":
            return str(self.ev(t.a[1])).encode()
        if k == "cstr":
            return self.ev(t.a[1]).split(b"\0")[0]
        if k == "rev":
            return self.ev(t.a[1])[::-1]
        if k == "chr":
            x = self.ev(t.a[1])
            return bytes([x & 255])
        raise NoVal("sapp " + str(k))

    def bapp(self, t):
        k = t.a[0]
        if k == "found":
            return self.ev(tm.atom(t.a[1])) != (1 << 64) - 1
        if k == "isnum":
            s = self.ev(t.a[1]).decode("latin1")
            if t.a[2] is not tm.num(10):
                raise NoVal("base")
            import re
            return re.match(r"\s*[+-]?\d+", s) is not None and re.fullmatch(r"\s*[+-]?\d+", s) is not None
        if k == "inrange":
            x = int(self.ev(t.a[1]).decode("latin1"))
            return self.ev(t.a[2]) <= x <= self.ev(t.a[3])
        if k == "eq":
            return self.ev(t.a[1]) == self.ev(t.a[2])
        if k == "anyis":
            v = self.ev(t.a[1])
            if v[0] != "any":
                raise NoVal("any")
            return v[1] == t.a[2].a[0]
        raise NoVal("bapp " + str(k))


def show_name(t):
    return tm.show(t)


def collect(terms):
    """integer and byte constants that occur in the terms"""
    ints, strs = set(), set()
    seen = set()
    for t in terms:
        for s in tm.subterms(t, seen):
            if s.op == "lin":
                if abs(s.a[0]) < 1 << 64:
                    ints.add(s.a[0])
                    ints.add(-s.a[0])
                for _, v in s.a[1]:
                    pass
            elif s.op == "cat":
                for p in s.a[0]:
                    if isinstance(p, bytes) and len(p) < 200:
                        strs.add(p)
    return sorted(ints), sorted(strs)


def separate(pathcond, differ, tries=600, fixed=None, consts=()):
    """(status, valuation): find a valuation with every condition true and differ(val) true.

    status: 'differ' | 'same' (satisfying valuations found, none separates) | 'none'
    """
    ints, strs = collect(list(pathcond) + list(consts))
    sat = 0
    for i in range(tries):
        v = Val(i, ints, strs, fixed)
        # solve simple conditions first: x == const on symbols
        try:
            solve(v, pathcond, i)
            if not repair(v, pathcond):
                continue
            sat += 1
            if differ(v):
                return "differ", v
        except NoVal:
            continue
        if sat >= 120:
            break
    return ("same" if sat else "none"), None


def solve(v, conds, i):
    """seed the valuation with equalities of the path condition"""
    for c in conds:
        if c.op == "eq":
            x = c.a[0]
            if len(x.a[1]) == 1:
                t, k = x.a[1][0]
                if t.op == "isym" and t not in v.env and (-x.a[0]) % k == 0:
                    v.env[t] = -x.a[0] // k
                elif t.op == "ld" and t not in v.env and (-x.a[0]) % k == 0:
                    try:
                        off = v.ev(t.a[1])
                        d = v.env.setdefault(("reg", t.a[0]), {})
                        b = ((-x.a[0] // k) & ((1 << 8 * t.a[2]) - 1)).to_bytes(t.a[2], "little")
                        for j, y in enumerate(b):
                            d.setdefault(off + j, y)
                    except NoVal:
                        pass
                elif t.op == "len" and t.a[0].op == "ssym" and t.a[0] not in v.env and 0 <= -x.a[0] // k < 5000:
                    v.env[t.a[0]] = v.pick_bytes(-x.a[0] // k)
        elif c.op == "seq=":
            for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                b = tm.strconst(q) if q.op == "cat" else None
                if b is not None and p.op == "cat" and len(p.a[0]) == 1 and isinstance(p.a[0][0], T):
                    s = p.a[0][0]
                    if s.op == "ssym" and s not in v.env:
                        v.env[s] = b
                    elif s.op == "subs" and len(s.a[0].a[0]) == 1 and isinstance(s.a[0].a[0][0], T) and s.a[0].a[0][0].op == "ssym" and s.a[0].a[0][0] not in v.env:
                        try:
                            v.env[s.a[0].a[0][0]] = v.pick_bytes(v.ev(s.a[1]) if s.a[1].a[1] == () else 0) + b + (v.pick_bytes() if v.r.randrange(2) else b"")
                        except NoVal:
                            pass
        elif c.op == "batom":
            v.env.setdefault(c, True)
        elif c.op == "not" and c.a[0].op == "batom":
            v.env.setdefault(c.a[0], False)
        elif c.op == "ge":
            # single symbol bounds
            x = c.a[0]
            if len(x.a[1]) == 1:
                t, k = x.a[1][0]
                if t.op == "isym" and t not in v.env and abs(k) == 1:
                    b = -x.a[0] * k
                    lo, hi = t.a[1], t.a[2]
                    if k > 0:
                        lo = max(lo, b)
                    else:
                        hi = min(hi, b)
                    if lo <= hi:
                        y = v.pick_int(lo, hi) if v.r.randrange(2) else (lo if k > 0 else hi)
                        # only when no other condition is broken: checked by the caller
                        v.env.setdefault(t, y)
                elif t.op == "len" and t.a[0].op == "ssym" and t.a[0] not in v.env and abs(k) == 1:
                    b = -x.a[0] * k
                    n = b + v.r.choice((0, 0, 1, 2, 9)) if k > 0 else max(0, b - v.r.choice((0, 0, 1, 2, 9)))
                    if 0 <= n < 5000 and not bad_name(t.a[0]) and not (isinstance(t.a[0].a[0], T) and t.a[0].a[0].op == "blk"):
                        v.env[t.a[0]] = v.pick_bytes(n)


def repair(v, conds, rounds=24):
    """adjust single symbols until every condition holds"""
    r = v.r
    for k in range(rounds):
        bad = [c for c in conds if not v.ev(c)]
        if not bad:
            return True
        if not fix(v, r.choice(bad), r):
            return False
        v.memo.clear()
    return False


def fix(v, c, r):
    o = c.op
    if o == "and":
        for x in c.a:
            if not v.ev(x):
                return fix(v, x, r)
        return True
    if o == "or":
        return fix(v, r.choice(c.a), r)
    if o == "batom":
        return put(v, c, True)
    if o == "not" and c.a[0].op == "batom":
        return put(v, c.a[0], False)
    if o in ("ge", "eq"):
        x = c.a[0]
        s = v.ev(x)
        ts = list(x.a[1])
        r.shuffle(ts)
        for t, k in ts:
            if o == "eq":
                if s % k:
                    continue
                d = -s // k
            else:
                d = -(s // abs(k))
                d = d if k > 0 else -d
                if r.randrange(4) == 0:
                    d += (1 if k > 0 else -1) * r.choice((1, 2, 4, 8))
            if put(v, t, v.ev(t) + d):
                return True
        return False
    if o == "not" and c.a[0].op == "eq":
        ts = list(c.a[0].a[0].a[1])
        r.shuffle(ts)
        for t, k in ts:
            if put(v, t, v.ev(t) + r.choice((1, -1, 2, 5))):
                return True
        return False
    if o == "seq=":
        for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            if p.op == "cat" and len(p.a[0]) == 1 and isinstance(p.a[0][0], T) and p.a[0][0].op == "ssym" and not (isinstance(p.a[0][0].a[0], T) and p.a[0][0].a[0].op == "blk"):
                return put(v, p.a[0][0], v.ev(q))
    return False


def put(v, t, x):
    """make the atom t have the value x"""
    o = t.op
    if o == "batom" or o == "ssym":
        if bad_name(t):
            return False
        v.env[t] = x
        return True
    if o == "isym":
        if bad_name(t) or (t.a[1] is not None and x < t.a[1]) or (t.a[2] is not None and x > t.a[2]) or isinstance(t.a[0], T) and t.a[0].op == "blkn" and x > 5000:
            return False
        if isinstance(t.a[0], T) and t.a[0].op == "blkn":
            for s in list(v.env):
                if isinstance(s, T) and s.op == "ssym" and isinstance(s.a[0], T) and s.a[0].op == "blk" and tm.blkn(s.a[0]) is t:
                    del v.env[s]
        v.env[t] = x
        return True
    if o == "lin":
        ts = t.a[1]
        if len(ts) == 1 and (x - t.a[0]) % ts[0][1] == 0:
            return put(v, ts[0][0], (x - t.a[0]) // ts[0][1])
        return False
    if o == "ld":
        reg, off, n = t.a[0], v.ev(t.a[1]), t.a[2]
        if reg.op in ("strbuf", "litbuf") or bad_name(reg):
            return False
        b = (x & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        if t.a[3] == 0 and not 0 <= x < 1 << 8 * n:
            return False
        d = v.env.setdefault(("reg", reg), {})
        for j, y in enumerate(b):
            d[off + j] = y
        return True
    if o == "bswap" and isinstance(t.a[1], int):
        n = t.a[1]
        if not 0 <= x < 1 << 8 * n:
            return False
        y = int.from_bytes(x.to_bytes(n, "little"), "big")
        return put(v, t.a[0], y)
    if o == "mod":
        cur = v.ev(t.a[0])
        m = v.ev(t.a[1]) if isinstance(t.a[1], T) else t.a[1]
        return m and 0 <= x < m and put(v, t.a[0], cur - cur % m + x)
    if o == "len" and t.a[0].op == "ssym" and not (isinstance(t.a[0].a[0], T) and t.a[0].a[0].op == "blk") and 0 <= x < 1 << 14:
        if bad_name(t.a[0]):
            return False
        cur = v.ev(t.a[0])
        v.env[t.a[0]] = cur[:x] + v.pick_bytes(max(0, x - len(cur)))
        return True
    return False
