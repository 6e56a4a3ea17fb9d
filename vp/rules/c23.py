"""Logging prints texts as they are: formats are constants, arguments fit them, the level decides."""
import re
from ..terms import *
from ..client import blk
from ..interp import strip_cv, tname
from ..judge import ret, run_client
from .. import models

HARNESS = ["log"]
WHERE = "DBus::Log"
FLOOR = 60
CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])")
OUT = ("W", "log")


def convs(s):
    return [m for m in CONV.finditer(s) if m.group(5) != "%"]


# ---------------------------------------------------------------- what is printed
def put(st, v):
    st.store[OUT] = cat(st.store.get(OUT, EMPTY), v)


def expand(ip, st, fmt, args, n):
    out, k, end = EMPTY, 0, 0
    for m in CONV.finditer(fmt):
        out = cat(out, lit(fmt[end:m.start()].encode("latin1")))
        end = m.end()
        c = m.group(5)
        if c == "%":
            out = cat(out, lit("%"))
            continue
        if k >= len(args) or "*" in (m.group(2), m.group(3)) or m.group(2) or c not in "sdiuxc":
            return None
        a = args[k]
        k += 1
        if c == "s":
            if m.group(3):
                return None
            out = cat(out, models.as_string(ip, st, a, n))
        elif not isint(ip.toint(a)):
            return None
        elif c == "c":
            out = cat(out, spiece(mk("chr", ip.toint(a))))
        else:
            w = int(m.group(3) or 0)
            x = truncbits(ip.toint(a), 64 if m.group(4) in ("l", "ll", "z", "j") else 32, c in "di")
            out = cat(out, models.num_text(ip, st, x, mk("fl", 16 if c == "x" else 10, w, 48)))
    return cat(out, lit(fmt[end:].encode("latin1")))


def text_of(ip, st, v):
    """a constant C string"""
    if v.op == "strlit":
        b = v.a[0]
        return b.decode("latin1") if isinstance(b, bytes) else b
    s = models.as_string(ip, st, v, {}) if v.op == "bptr" else None
    c = strconst(s) if s is not None else None
    return None if c is None else c.decode("latin1")


def printf_like(at, va):
    def f(ip, st, o, a, n):
        fmt = text_of(ip, st, a[at])
        args = a[at + 1:]
        if va:
            fr = [x for x in reversed(ip.stack) if x.get("va") and x["va"][0]]
            args = fr[0]["va"][0] if fr else []
        v = None if fmt is None else expand(ip, st, fmt, args, n)
        if v is None:
            # text from outside as a format: printed as itself only if it has no conversion
            v = spiece(mk("sapp", "printf", models.as_string(ip, st, a[at], n) if fmt is None else lit(fmt)))
        put(st, v)
        return [(st, num(0))]
    return f


def puts(ip, st, o, a, n):
    put(st, models.as_string(ip, st, a[0], n))
    return [(st, num(0))]


def putch(ip, st, o, a, n):
    put(st, cat(spiece(mk("chr", ip.toint(a[0])))))
    return [(st, num(0))]


def printed(ip, st, o, a, n):
    return [(st, st.store.get(OUT, EMPTY))]


CUTS = {"W::printed": printed, "vfprintf": printf_like(1, True), "fprintf": printf_like(1, False), "printf": printf_like(0, False), "fputs": puts, "fputc": putch, "putc": putch, "putchar": putch,
        "DBus::Log::write": None, "DBus::Log::writeHex": None}
KW = {"cuts": CUTS}


def hexed(prefix, bs):
    """the prefix, then lines of at most 32 octets, two digits and a blank each"""
    out = prefix
    for i, b in enumerate(bs):
        out = cat(out, b, lit(" "))
        if i % 32 == 31:
            out = cat(out, lit("\n"))
            if len(bs) % 32:
                out = cat(out, spiece(mk("rep", num(32), slen(prefix))))
    return cat(out, lit("\n")) if len(bs) % 32 else out


def check(R, P, tier):
    for level in range(5):
        for t in range(4):
            for r in (0, 5):
                s = blk("id:s", 8, r)
                on = t >= level
                run_client(R, P, "level", "level %d, message of level %d, text of length %d mod 8" % (level, t, r), "at_level", {"level": num(level), "type": num(t), "s": s},
                           [ret(cat(lit("<"), s, lit(">\n"), s, lit("05 \non")) if on else lit("off"))], "DBus::Log::write", **KW)
            for l2 in range(5):
                run_client(R, P, "level", "level %d then %d, messages of level %d" % (level, l2, t), "level_twice", {"first": num(level), "second": num(l2), "type": num(t)},
                           [ret(lit(("a" if t >= level else "") + ("b" if t >= l2 else "")))], "DBus::Log::setLevel", **KW)
    s = blk("id:s", 8, 3)
    d, z = atom(isym(mk("nm", "d"), 32, True)), atom(isym(mk("nm", "z"), 64, False))
    D = lambda x: spiece(mk("sapp", "dec", x))
    run_client(R, P, "text", "text and numbers", "mixed", {"s": s, "d": d, "z": z}, [ret(cat(s, lit(" ("), D(d), lit(") "), D(z), lit("%\n")))], "DBus::Log::write", **KW)
    for r in (0, 1, 5):
        for k in [0, 1, 2, 5, 31, 32, 33, 40] + ([63, 64, 65, 96, 100] if tier == "thorough" else [64]):
            p = blk("id:p", 8, r, 4)
            bs = [(i * 37 + 11) & 255 for i in range(k)]
            run_client(R, P, "hex", "%d octets, prefix of length %d mod 8" % (k, r), "hex", {"prefix": p, "data": lit(bytes(bs))}, [ret(hexed(p, [lit("%02x" % b) for b in bs]))], "DBus::Log::writeHex", **KW)
    for k in (1, 3):
        xs = [atom(isym(mk("nm", "c%d" % i), 8, False)) for i in range(k)]
        data = cat(*[spiece(mk("chr", x)) for x in xs])
        exp = hexed(lit("p"), [spiece(mk("sapp", "fmt", mk("fl", 16, 2, 48), x)) for x in xs])
        run_client(R, P, "hex", "%d octets of any value" % k, "hex", {"prefix": lit("p"), "data": data}, [ret(exp)], "DBus::Log::writeHex", **KW)
    formats(R, P)


# ---------------------------------------------------------------- every call of a printing function
PRINTERS = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "dprintf": 1, "syslog": 1}


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def peel(e):
    while isinstance(e, dict) and e.get("k") in ("load", "cast", "full", "tmp", "paren") and "e" in e:
        e = e["e"]
    return e


class Formats:
    def __init__(self, P):
        self.P = P
        self.calls = {}  # function -> [(caller, call node)]
        self.fns = [f for f in P.funcs.values() if "/src/" in f["file"] and f.get("body")]
        for f in self.fns:
            for part in (f["body"], f.get("inits")):
                walk(part, lambda n: n.get("k") in ("call", "mcall", "opcall", "ctor") and n.get("fn") and self.calls.setdefault(n["fn"], []).append((f, n)))
        # functions that hand a parameter on as a format
        self.printers = {}
        self.named = dict(PRINTERS)
        work = True
        while work:
            work = False
            for f in self.fns:
                for n in self.inside(f):
                    i = self.fmt_at(n)
                    if i is None or i >= len(n["a"]):
                        continue
                    e = peel(n["a"][i])
                    if e and e.get("k") == "ref" and e.get("dk") == "parm":
                        k = [j for j, p in enumerate(f["ps"]) if p["id"] == e["id"]]
                        if k and f["fn"] not in self.printers and strip_cv(f["ps"][k[0]]["t"]).endswith("*"):
                            self.printers[f["fn"]] = k[0]
                            work = True

    def inside(self, f):
        out = []
        for part in (f["body"], f.get("inits")):
            walk(part, lambda n: n.get("k") in ("call", "mcall") and out.append(n))
        return out

    def fmt_at(self, n):
        if n.get("fn") in self.printers:
            return self.printers[n["fn"]]
        if not n.get("repo") and n.get("sn") in PRINTERS:
            return PRINTERS[n["sn"]]
        return None

    def consts(self, e, f, depth=0):
        """the constant texts an expression may be; None: it may be something else"""
        e = peel(e)
        if depth > 8 or not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "str":
            v = e.get("v")
            return [bytes(x & 255 for x in v).decode("latin1") if isinstance(v, list) else v]
        if k == "cond":
            out = []
            for x in ("a", "b", "t", "f"):
                if isinstance(e.get(x), dict):
                    v = self.consts(e[x], f, depth + 1)
                    if v is None:
                        return None
                    out += v
            return out or None
        if k in ("ref", "member"):
            return self.named_const(e, f, depth)
        return None

    def named_const(self, e, f, depth):
        """what a variable is initialised and assigned with"""
        found, odd = [], []

        def look(n):
            if n.get("k") == "decl":
                for d in n.get("a") or []:
                    if d.get("id") == e.get("id") and d.get("init") is not None:
                        found.append(d["init"])
            if n.get("k") in ("asg", "assign") or n.get("k") == "bin" and n.get("op") == "=":
                l = peel((n.get("a") or [n.get("l")])[0]) if n.get("a") else None
                if isinstance(l, dict) and l.get("id") == e.get("id"):
                    odd.append(n)
        if e.get("dk") == "local":
            walk(f["body"], look)
            if len(found) == 1 and not odd:
                return self.consts(found[0], f, depth + 1)
        return None

    def outside(self, e, f, depth=0):
        """certainly made while the program runs: the characters of a text object that is no constant"""
        e = peel(e)
        if not isinstance(e, dict):
            return False
        if e.get("k") in ("mcall", "call") and e.get("sn") in ("c_str", "data", "what", "message", "name", "strerror"):
            return True
        return False


def kind(t):
    """what a conversion must be given for an argument of the type"""
    t = strip_cv(t)
    if t.endswith("*") or t.endswith("]"):
        x = t.rstrip("*] 0123456789[").strip()
        return "s" if x in ("char", "const char", "char const", "unsigned char", "const unsigned char", "signed char", "const signed char") else "p"
    if t in ("double", "float"):
        return "f"
    if t in ("long double",):
        return "Lf"
    w = {"int": 4, "unsigned int": 4, "short": 4, "unsigned short": 4, "char": 4, "signed char": 4, "unsigned char": 4, "bool": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}.get(t)
    return w


def takes(m):
    c, l = m.group(5), m.group(4)
    if c in "diuoxXc":
        return {None: 4, "h": 4, "hh": 4, "l": 8, "ll": 8, "z": 8, "j": 8, "t": 8}.get(l)
    if c in "eEfFgGaA":
        return "Lf" if l == "L" else "f"
    return {"s": "s", "p": "p"}.get(c)


def formats(R, P):
    F = Formats(P)
    R.fns |= {f["fn"] for f in F.fns}
    for f in F.fns:
        for n in F.inside(f):
            i = F.fmt_at(n)
            if i is None or i >= len(n["a"]):
                continue
            e = peel(n["a"][i])
            if f["fn"] in F.printers and isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") == "parm":
                continue  # the callers are looked at
            where = "%s:%s" % (f["file"].split("/")[-1], n.get("l"))
            inst = "%s called by %s" % (n.get("n"), f["n"])
            fm = F.consts(e, f)
            if fm is None:
                bad = F.outside(e, f)
                R.add("constant format", "%s, line %s" % (inst, n.get("l")), "violated" if bad else "undecided", "the format is a text made while the program runs", where,
                      key="constant format/%s" % inst)
                continue
            R.add("constant format", "%s, line %s" % (inst, n.get("l")), "proved", "", where)
            if n.get("sn", "").startswith("v"):
                continue
            args = n["a"][i + 1:]
            for s in fm:
                want = convs(s)
                what = None
                if any("*" in (m.group(2), m.group(3)) for m in want):
                    R.add("arguments", "%s, line %s" % (inst, n.get("l")), "undecided", "width from an argument", where)
                    continue
                if len(want) > len(args):
                    what = "%r has %d conversions, %d arguments are given" % (s, len(want), len(args))
                for m, a in zip(want, args):
                    k, t = kind(a.get("t", "?")), takes(m)
                    if k is None or t is None:
                        if strip_cv(a.get("t", "?")) in P.recs or tname(strip_cv(a.get("t", "?"))).startswith("std::"):
                            what = what or "%r is given an object of type %s for %s" % (s, a.get("t"), m.group(0))
                        continue
                    if k != t and not (t == "p" and k == "s"):
                        what = what or "%r is given %s for %s" % (s, a.get("t"), m.group(0))
                R.add("arguments", "%s, line %s" % (inst, n.get("l")), "violated" if what else "proved", what or "", where, key="arguments/%s" % inst)


EXPLAIN = ("Every call of a printing function in the sources (and of functions that hand a parameter on as a format) must have constant formats whose conversions fit the arguments by number, kind and size. "
           "Client programs log symbolic texts and octets at every pair of levels; what reaches the stream must be the texts themselves.")
