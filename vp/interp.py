"""Abstract interpreter over the extracted syntax trees.

Path-partitioned abstract interpretation: a state maps abstract objects to terms
(Herbrand values, linear integer forms, byte/element sequences), with a set of
linear facts.  Calls are inlined through resolved callees; loops are solved by a
fixpoint with inferred linear invariants and accumulator summaries.
"""
import itertools
import re
from . import terms as tm
from .terms import *


class Undecided(Exception):
    pass


INTT = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
        "unsigned long long": (64, False), "bool": (1, False), "__int128": (128, True), "wchar_t": (32, True), "char16_t": (16, False),
        "char32_t": (32, False)}


def strip_cv(t):
    t = t.strip()
    while t.startswith("const ") or t.startswith("volatile "):
        t = t.split(" ", 1)[1]
    while t.endswith("const") and t[-6:-5] in ("*", " "):
        t = t[:-5].strip()
    return t


def targs(t):
    """top-level template arguments of a type name"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for c in t[i:]:
        if c == "<" or c == "(":
            d += 1
            if d == 1:
                continue
        elif c == ">" or c == ")":
            d -= 1
            if d == 0:
                break
        elif c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def tname(t):
    """class name without template arguments"""
    i = t.find("<")
    return t if i < 0 else t[:i]


STRING = ("std::basic_string", "std::basic_string_view", "std::__cxx11::basic_string")
VEC = ("std::vector", "std::list", "std::deque", "std::initializer_list", "std::array", "std::set", "std::queue")
MAP = ("std::map", "std::unordered_map", "std::multimap")
PTR = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "boost::shared_ptr")
MUTEX = ("boost::recursive_mutex", "std::recursive_mutex", "std::mutex", "boost::mutex", "std::shared_mutex", "boost::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex", "boost::timed_mutex", "boost::recursive_timed_mutex")
LOCKS = ("boost::unique_lock", "boost::lock_guard", "std::lock_guard", "std::unique_lock", "std::scoped_lock", "boost::shared_lock", "std::shared_lock",
         "boost::detail::try_lock_wrapper")
STREAM = ("std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ostream", "std::basic_ios", "std::basic_istream", "std::basic_iostream")
FUNC = ("std::function", "boost::function")


class State:
    __slots__ = ("store", "facts", "pc", "trace", "env", "this", "guards", "held", "level", "taint", "depth")

    def __init__(self):
        self.store = {}
        self.facts = frozenset()
        self.pc = ()
        self.trace = None
        self.env = {}
        self.this = None
        self.guards = ()
        self.held = ()
        self.level = 0
        self.taint = frozenset()
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = self.facts
        s.pc = self.pc
        s.trace = self.trace
        s.env = dict(self.env)
        s.this = self.this
        s.guards = self.guards
        s.held = self.held
        s.level = self.level
        s.taint = self.taint
        s.depth = self.depth
        return s

    def key(self):
        return (frozenset(self.store.items()), self.facts, self.trace, frozenset(self.env.items()), self.this, self.guards, self.held, self.taint)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t.a[1])
            t = t.a[0]
        out.reverse()
        return out


def addr(root, *path):
    return mk("addr", root, tuple(path))


def sub_addr(a, *steps):
    return mk("addr", a.a[0], a.a[1] + tuple(steps))


class Frames(dict):
    """depth of the frame a root belongs to; -1 when it is not a local one"""

    def __missing__(self, r):
        k = -1
        if isinstance(r, str) and "@" in r:
            try:
                k = int(r.rsplit("@", 1)[1].split(".")[0])
            except ValueError:
                pass
        self[r] = k
        return k


FRAME = Frames()


class Exc(Exception):
    pass


def ix_step(k, t):
    """one element of an array; the bytes of an unsigned one are not signed"""
    w, sg = INTT.get(strip_cv(t.strip()), (0, True))
    return ("ix", k, False) if w == 8 and not sg else ("ix", k)


class Interp:
    MAXSTATES = 400
    UNROLL = 70
    BOUNDED = 0  # iterations examined of a loop that is not unrolled, instead of a summary

    def __init__(self, prog, cuts=None, max_depth=40):
        self.P = prog
        self.cuts = cuts or {}
        self.net = False
        self.running = []  # function objects being called
        self.throws = []
        self.rootty = {}
        self.obls = {}  # (kind, loc) -> dict
        self.counter = itertools.count(1)
        self.max_depth = max_depth
        self.stack = []
        self.nstmts = 0
        self.visited = set()
        self.undecided = set()
        self.steps = 0
        self.max_steps = 400000
        self.hook_event = None
        self.callback_throws = False
        self.globals_written = None
        self.rec_limit = 1
        self.loopinfo = []
        self.range_notes = []
        self.track_uninit = True
        self.noeval_globals = set()
        from . import models
        from . import sched
        self.models = models
        self.sched = sched
        self.race = False

    # ------------------------------------------------------------ misc
    extents = {}

    def fresh(self, p):
        return "%s#%d" % (p, next(self.counter))

    def loc(self, n=None):
        f = self.stack[-1]["file"] if self.stack else "?"
        return "%s:%s" % (f.split("/")[-1], n.get("l", "?") if isinstance(n, dict) else "?")

    def where(self):
        return self.stack[-1]["n"] if self.stack else "?"

    def unk(self, st, why, n=None):
        st.taint = st.taint | {why}
        self.undecided.add("%s at %s" % (why, self.loc(n) if n else "?"))

    def ev_(self, st, kind, n, *payload):
        e = mk("ev", kind, self.loc(n), self.where(), st.held, *payload)
        st.trace = mk("tr", st.trace, e)
        return e

    # ------------------------------------------------------------ facts
    def assume(self, st, c):
        """list of states where c holds (st is consumed)"""
        if c is TRUE:
            return [st]
        if c is FALSE:
            return []
        d = self.decide(st, c)
        if d is True:
            return [st]
        if d is False:
            return []
        if c.op == "and":
            return [y for x in self.assume(st, c.a[0]) for y in self.assume(x, c.a[1])]
        if c.op == "or":
            s2 = st.copy()
            r = self.assume(st, c.a[0])
            s3 = self.assume(s2, neg(c.a[0]))
            for x in s3:
                r += self.assume(x, c.a[1])
            return r
        st.pc = st.pc + (c,)
        st.facts = st.facts | {c}
        if c.op == "bapp" and c.a[0] == "anyis" and c.a[1].op == "anysym":
            v, ty = c.a[1], c.a[2].a[0]
            self.substate(st, {v: mk("any0") if ty == "void" else mk("any", ty, self.symval(ty, mk("nf", v, ty)))}, keep=c)
        # equalities with a constant are substituted
        if c.op == "eq":
            x = c.a[0]
            if len(x.a[1]) == 1 and x.a[1][0][0].op == "isym" and abs(x.a[1][0][1]) == 1:
                a, v = x.a[1][0]
                self.substate(st, {a: num(-x.a[0] // v)}, keep=c)
            elif x.a[1]:
                # propagate: atom = rest, only when an atom is a plain symbol
                pass
        elif c.op == "seq=":
            for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if p.op == "cat" and len(p.a[0]) == 1 and isinstance(p.a[0][0], T) and p.a[0][0].op == "ssym" and strconst(q) is not None:
                    self.substate(st, {p.a[0][0]: q}, keep=c)
                    break
        if not self.consistent(st):
            return []
        return [st]

    def substate(self, st, m, keep=None):
        memo = {}
        for r, v in list(st.store.items()):
            st.store[r] = subst(v, m, memo)
        nf = set()
        for f in st.facts:
            if f is keep:
                nf.add(f)
                continue
            g = subst(f, m, memo)
            if g is TRUE:
                continue
            nf.add(g)
        st.facts = frozenset(nf)
        if st.trace is not None:
            st.trace = self.subst_trace(st.trace, m, memo)
        for k, v in list(st.env.items()):
            st.env[k] = subst(v, m, memo)
        st.held = tuple(subst(h, m, memo) for h in st.held)
        if isinstance(st.this, T):
            st.this = subst(st.this, m, memo)
        self.frames_subst(m)

    def frames_subst(self, m):
        pass

    def subst_trace(self, t, m, memo):
        evs = []
        while t is not None:
            evs.append(t.a[1])
            t = t.a[0]
        r = None
        for e in reversed(evs):
            r = mk("tr", r, subst(e, m, memo))
        return r

    def linfacts(self, st, lins):
        """linear facts connected with the given linear forms"""
        fs = []
        for f in st.facts:
            if f.op == "ge":
                fs.append((f.a[0],))
            elif f.op == "eq":
                fs.append((f.a[0], mulc(f.a[0], -1)))
        want = set()
        for l in lins:
            want |= self.atoms(l)
        out = []
        changed = True
        rest = fs
        while changed and rest:
            changed = False
            nr = []
            for t in rest:
                at = self.atoms(t[0])
                if at & want:
                    out.extend(t)
                    if not at <= want:
                        want |= at
                        changed = True
                else:
                    nr.append(t)
            rest = nr
        return out

    _atoms_cache = {}

    def atoms(self, l):
        r = self._atoms_cache.get(l)
        if r is None:
            r = set()
            todo = [k for k, _ in l.a[1]]
            while todo:
                k = todo.pop()
                if k in r:
                    continue
                r.add(k)
                if k.op in ("mod", "div"):
                    todo.extend(t for t, _ in k.a[0].a[1])
                    if k.op == "mod":
                        r.add(mk("div", k.a[0], k.a[1]))
            r = frozenset(r)
            self._atoms_cache[l] = r
        return r

    def consistent(self, st):
        if FALSE in st.facts:
            return False
        lins = []
        for f in st.facts:
            if f.op == "ge":
                lins.append(f.a[0])
            elif f.op == "eq":
                lins.append(f.a[0])
                lins.append(mulc(f.a[0], -1))
            elif f.op == "not" and f.a[0] in st.facts:
                return False
        # only the component of the most recent fact needs a check
        if st.pc:
            last = st.pc[-1]
            base = last if last.op in ("ge", "eq") else (last.a[0] if last.op == "not" and last.a[0].op == "eq" else None)
            if base is not None:
                comp = self.linfacts(st, [base.a[0]])
                if infeasible(comp):
                    return False
        for f in st.facts:
            if f.op == "not" and f.a[0].op == "eq":
                if self.entails_lin(st, f.a[0].a[0]) and self.entails_lin(st, mulc(f.a[0].a[0], -1)):
                    return False
        return True

    def consistent_all(self, st):
        """full consistency check of the linear facts"""
        lins = []
        for f in st.facts:
            if f.op == "ge":
                lins.append(f.a[0])
            elif f.op == "eq":
                lins.append(f.a[0])
                lins.append(mulc(f.a[0], -1))
            elif f is FALSE:
                return False
        return not infeasible(lins)

    def is_ptr_like(self, n):
        t = strip_cv(n.get("t", ""))
        return t.endswith("*") or "nullptr_t" in t

    def entails_lin(self, st, l):
        """l >= 0 ?"""
        lo, hi = rng(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        ng = addc(mulc(l, -1), -1)
        fs = self.linfacts(st, [l])
        if not fs and not any(k.op in ("mod", "div") for k, _ in l.a[1]) and False:
            return False
        return infeasible(fs + [ng])

    def unwrap(self, st, l):
        """words that do not overflow here are numbers"""
        for k, v in l.a[1]:
            if k.op == "wrap":
                x, w, sg = k.a[0], k.a[1], k.a[2]
                lo = -(1 << (w - 1)) if sg else 0
                hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
                if self.entails_lin(st, addc(x, -lo)) and self.entails_lin(st, addc(mulc(x, -1), hi)):
                    l = add(sub(l, mulc(atom(k), v)), mulc(x, v))
        return l

    def decide(self, st, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in st.facts:
            return True
        n = neg(c)
        if n in st.facts:
            return False
        o = c.op
        if o in ("ge", "eq") and any(k.op == "wrap" for k, _ in c.a[0].a[1]):
            l = self.unwrap(st, c.a[0])
            if l is not c.a[0]:
                return self.decide(st, ge0(l) if o == "ge" else eq0(l))
        if o == "ge":
            if self.entails_lin(st, c.a[0]):
                return True
            if self.entails_lin(st, n.a[0]) if n.op == "ge" else n is FALSE:
                return False
            return None
        if o == "eq":
            x = c.a[0]
            g = self.entails_lin(st, x)
            l = self.entails_lin(st, mulc(x, -1))
            if g and l:
                return True
            if self.entails_lin(st, addc(x, -1)) or self.entails_lin(st, addc(mulc(x, -1), -1)):
                return False
            # x != 0 recorded for a multiple
            return None
        if o == "not":
            d = self.decide(st, c.a[0])
            return None if d is None else (not d)
        if o == "and":
            a, b = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == "or":
            a, b = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        return None

    def split(self, st, c):
        """(states where c, states where not c)"""
        d = self.decide(st, c)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        s2 = st.copy()
        return self.assume(st, c), self.assume(s2, neg(c))

    def oblige(self, st, kind, c, n, what, assume=True):
        """obligation c at this point"""
        key = (kind, self.loc(n), self.where(), what)
        r = self.obls.setdefault(key, {"n": 0, "ok": 0, "bad": []})
        r["n"] += 1
        if self.decide(st, c) is True:
            r["ok"] += 1
            return True
        r["bad"].append((c, st.facts, st.taint, [f["n"] for f in self.stack], st.pc))
        if assume and c is not FALSE and self.decide(st, c) is not False:
            st.facts = st.facts | {c}
        return False

    # ------------------------------------------------------------ types
    def ftype(self, cls, f):
        c = cls
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            r = self.P.recs.get(c)
            if r:
                for x in r["fields"]:
                    if x["n"] == f:
                        return x["t"]
                todo.extend(r["bases"])
        b = tname(cls)
        if b == "std::pair":
            ta = targs(cls)
            if len(ta) == 2:
                return strip_cv(ta[0] if f == "first" else ta[1])
        return None

    def symval(self, t, name):
        t = strip_cv(t)
        if t.endswith("&"):
            t = strip_cv(t[:-1].rstrip("& "))
        if t in INTT:
            w, s = INTT[t]
            if w == 1:
                return mk("batom", name)
            return atom(isym(name, w, s))
        if t.endswith("*"):
            base = strip_cv(t[:-1])
            if base in ("unsigned char", "char", "void", "signed char"):
                return mk("bptr", mk("region", name), ZERO)
            root = ("P", name)
            self.rootty[root] = base
            return addr(root)
        b = tname(t)
        if b in STRING:
            return ssym(name)
        if b in VEC:
            return seq(mk("vsym", name, (targs(t) or ["?"])[0]))
        if b in MAP:
            ta = targs(t)
            return mk("map", mk("msym", name, ta[0], ta[1]), ())
        if b == "boost::any" or b == "std::any":
            return mk("anysym", name)
        if b in FUNC:
            return mk("fsym", name)
        if b in PTR:
            root = ("P", name)
            self.rootty[root] = targs(t)[0]
            return addr(root)
        if b in ("std::atomic",):
            return self.symval(targs(t)[0], name)
        if t in ("double", "float"):
            return mk("dsym", name)
        if t in self.P.recs or b == "std::pair":
            return mk("rec", t, name if isinstance(name, T) else mk("nm", name), ())
        if t.find("(unnamed enum") >= 0 or t.find("::") >= 0 and t.split("::")[-1][:1].isupper() and t not in self.P.recs and not b.startswith(("std::", "boost::")):
            return atom(isym(name, 32, False))
        return mk("opq", name, t)

    def field(self, v, f, st=None):
        if v.op == "rec":
            for k, x in v.a[2]:
                if k == f:
                    return x
            if v.a[1] is not None:
                t = self.ftype(v.a[0], f)
                if t is None:
                    return mk("opq", mk("nf", v.a[1], f), "?")
                return self.symval(t, mk("nf", v.a[1], f))
            t = self.ftype(v.a[0], f)
            return mk("uninit", t or "?")
        if v.op == "uninit":
            return mk("uninit", "?")
        return mk("opq", mk("nf", v, f), "?")

    def setfield(self, v, f, x):
        if v.op == "rec":
            d = dict(v.a[2])
            d[f] = x
            return mk("rec", v.a[0], v.a[1], tuple(sorted(d.items())))
        # unknown container: keep the old identity as the base
        return mk("rec", "?", mk("nm", v), ((f, x),))

    def elem(self, v, i, st, n=None):
        """element i of a vector value"""
        pos = ZERO
        for p in v.a[0]:
            d = cval(sub(i, pos))
            if p.op == "el":
                if d == 0:
                    return p.a[0]
                if st is not None and d is None and self.decide(st, eq0(sub(i, pos))) is True:
                    return p.a[0]
                pos = addc(pos, 1)
            else:
                if p.op == "vsym":
                    k = sub(i, pos)
                    if len(v.a[0]) == 1 or (st is not None and self.decide(st, ge0(addc(sub(atom(mk("len", p)), k), -1))) is True and self.decide(st, ge0(k)) is True):
                        return self.symval(p.a[1], mk("ni", p, k))
                pos = add(pos, atom(mk("len", p)))
        return mk("elemof", v, i)

    def setelem(self, v, i, x, st):
        pos = ZERO
        ps = list(v.a[0])
        for j, p in enumerate(ps):
            if p.op == "el":
                if sub(i, pos) is ZERO:
                    ps[j] = mk("el", x)
                    return seq(*ps)
                pos = addc(pos, 1)
            else:
                pos = add(pos, atom(mk("len", p)))
        return seq(mk("vupd", v, i, x))

    # ------------------------------------------------------------ memory
    def root(self, st, r, n=None):
        v = st.store.get(r)
        if v is None:
            t = self.rootty.get(r)
            if isinstance(r, tuple) and r[0] == "P" and t:
                v = self.symval(t, mk("nd", r[1]) if not isinstance(r[1], T) else mk("nd", r[1]))
            elif isinstance(r, tuple) and r[0] == "G":
                v = self.global_value(st, r[1])
            else:
                v = mk("opq", mk("nm", str(r)), t or "?")
            st.store[r] = v
        return v

    def known_value(self, st, v):
        """v, with the symbols the path has fixed"""
        m = {}
        for f in st.facts:
            if f.op == "eq":
                x = f.a[0]
                if len(x.a[1]) == 1 and x.a[1][0][0].op == "isym" and abs(x.a[1][0][1]) == 1:
                    m[x.a[1][0][0]] = num(-x.a[0] // x.a[1][0][1])
        return subst(v, m) if m else v

    def global_value(self, st, q):
        g = self.P.globals.get(q)
        if q.endswith("::npos"):
            return num((1 << 64) - 1)
        m = re.search(r"placeholders::_(\d+)$", q)
        if m:
            return mk("ph", int(m.group(1)))
        if g is None:
            return mk("opq", mk("nm", q), "?")
        if not g.get("const") and not g.get("static") and q in self.mutable_globals():
            v = self.symval(g["t"], mk("nm", q))
            return self.known_value(st, v) if isint(v) else v
        if q in self.noeval_globals or "init" not in g:
            return self.symval(g["t"], mk("nm", q))
        # evaluate the initialiser in an empty context
        self.noeval_globals.add(q)
        try:
            s0 = State()
            s0.level = 1000
            s0.depth = st.depth + 1
            self.stack.append({"file": g["unit"], "n": q, "fn": q})
            th, self.throws = self.throws, []
            try:
                rs = self.init_value(g["init"], g, s0)
            finally:
                self.throws = th
                self.stack.pop()
        finally:
            self.noeval_globals.discard(q)
        if len(rs) != 1:
            return self.symval(g["t"], mk("nm", q))
        v = rs[0][1]
        return v

    def mutable_globals(self):
        """globals that some function may modify (assignment, ++, address, non-const use)"""
        if self.globals_written is None:
            w = set()

            def walk(o, parent, role, gp):
                if isinstance(o, dict):
                    if o.get("k") == "ref" and o.get("dk") in ("global", "slocal"):
                        elem_read = gp is not None and gp.get("k") == "load" and (
                            parent.get("k") == "opcall" and parent.get("op") == "[]" or parent.get("k") == "mcall" and parent.get("sn") in ("at", "front", "back"))
                        if not elem_read and not self.const_use(parent, role):
                            w.add(o.get("q"))
                    for k, v in o.items():
                        if isinstance(v, dict):
                            walk(v, o, k, parent)
                        elif isinstance(v, list):
                            for i, x in enumerate(v):
                                if isinstance(x, (dict, list)):
                                    walk(x, o, (k, i), parent)
                elif isinstance(o, list):
                    for x in o:
                        walk(x, parent, role, gp)
            for f in self.P.funcs.values():
                walk(f, None, None, None)
            self.globals_written = w
        return self.globals_written

    def const_use(self, p, role):
        if p is None:
            return False
        k = p.get("k")
        if k == "load":
            return True
        if k == "mcall" and role == "o":
            return bool(p.get("const"))
        if k == "opcall":
            i = role[1] if isinstance(role, tuple) else 0
            if p.get("member"):
                if i == 0:
                    if p.get("const"):
                        return True
                    return p.get("op") == "[]" and p.get("lv") and False
                i -= 1
            pt = p.get("pt") or []
            return i < len(pt) and (not pt[i].endswith("&") or pt[i].startswith("const "))
        if k in ("call", "mcall", "ctor"):
            i = role[1] if isinstance(role, tuple) else 0
            pt = p.get("pt") or []
            return i < len(pt) and (not pt[i].endswith("&") or pt[i].startswith("const "))
        if k == "mem":
            return False
        return False

    def load(self, st, a, n=None, t=None):
        """value stored at address a"""
        if a.op == "mentry":
            return mk("rec", "std::pair", None, (("first", a.a[1]), ("second", self.load(st, sub_addr(a.a[0], ("key", a.a[1])), n))))
        if a.op == "mref":
            return self.load_mref(st, a, n)
        if a.op != "addr":
            self.unk(st, "load through unresolved pointer", n)
            return self.symval(t or "?", self.fresh("unk"))
        if self.race:
            self.sched.note(self, st, a, False, n)
        v = self.root(st, a.a[0])
        if v.op == "freed":
            v = self.freed(st, a.a[0], v, n)
        for i, s in enumerate(a.a[1]):
            v = self.step(st, v, s, n)
        if t is not None and v.op == "cat" and False:
            pass
        return v

    def table(self, st, v, i):
        """a character of a constant table, where the index stays in a part that counts up"""
        b = strconst(v)
        if b is None or cval(i) is not None or not 1 < len(b) < 300:
            return None
        lo = 0
        while lo < len(b):
            hi = lo
            while hi + 1 < len(b) and b[hi + 1] == b[hi] + 1 and b[hi] != 127:
                hi += 1
            if hi > lo and b[hi] < 128 and self.decide(st, mk_and(ge0(addc(i, -lo)), ge0(sub(num(hi), i)))) is True:
                return addc(i, b[lo] - lo)
            lo = hi + 1
        return None

    def step(self, st, v, s, n):
        k = s[0]
        if k == "f":
            return self.field(v, s[1], st)
        if k == "ix":
            if v.op == "cat":
                x = self.table(st, v, s[1])
                return x if x is not None else char_at(v, s[1], s[2] if len(s) > 2 else True)
            if v.op == "seq":
                return self.elem(v, s[1], st, n)
            if v.op == "uninit":
                return mk("uninit", "?")
            return mk("opq", mk("ni", v, s[1]), "?")
        if k == "any":
            if v.op == "any":
                return v.a[1]
            return mk("opq", mk("nf", v, "any"), "?")
        if k == "key":
            return self.mapval(st, v, s[1])
        raise Undecided("path step %s" % (s,))

    def mapval(self, st, m, key):
        if m.op != "map":
            return mk("opq", mk("nk", m, key), "?")
        for op in reversed(m.a[1]):
            if op[0] == "put" and op[1] is key:
                return op[2]
            if op[0] == "havoc":
                return self.symval(op[1], mk("nk", mk("nm", op[2]), key))
        if m.a[0].op == "msym":
            return self.symval(m.a[0].a[2], mk("nk", m.a[0], key))
        return mk("opq", mk("nk", m, key), "?")

    def store_(self, st, a, x, n=None):
        if a.op == "mref":
            self.ev_(st, "memwrite", n or {}, a)
            return
        if a.op != "addr":
            self.unk(st, "store through unresolved pointer", n)
            return
        if self.race:
            self.sched.note(self, st, a, True, n)
        r = a.a[0]
        path = a.a[1]
        if path and path[-1][0] == "ix" and isinstance(x, T) and isint(x):
            q = self.octet_of_int(st, a, n)
            if q is not None:
                y = truncbits(q[0], q[1], False)
                old = mulc(mod(div(y, 1 << 8 * q[2]), 256), 1 << 8 * q[2])
                new = mulc(mod(truncbits(x, 8, False), 256), 1 << 8 * q[2])
                self.store_(st, q[3], truncbits(join_octets(add(sub(y, old), new)), q[1], q[4]), n)
                return
        v = self.root(st, r)
        if v.op == "freed":
            v = self.freed(st, r, v, n)
        st.store[r] = self.upd(st, v, path, x, n)

    def freed(self, st, r, v, n):
        """what has been destroyed is used"""
        self.oblige(st, "life", FALSE, n or {}, "use of a destroyed object (%s)" % v.a[0], assume=False)
        v = st.store[r] = self.symval(v.a[0], mk("nm", self.fresh("gone")))
        return v

    def free(self, st, a, n):
        if a.op == "addr" and not a.a[1] and isinstance(a.a[0], tuple) and a.a[0][0] == "H":
            t = strip_cv(self.rootty.get(a.a[0]) or "")
            if t in self.P.recs:
                if self.race:
                    self.sched.note(self, st, a, True, n)
                st.store[a.a[0]] = mk("freed", t)

    def upd(self, st, v, path, x, n):
        if not path:
            return x
        s = path[0]
        k = s[0]
        inner = self.upd(st, self.step(st, v, s, n), path[1:], x, n)
        if k == "f":
            return self.setfield(v, s[1], inner)
        if k == "ix":
            if v.op == "cat":
                i = s[1]
                r = replace_sub(v, i, ONE, spiece(mk("chr", inner)) if isint(inner) else spiece(mk("sapp", "chr", inner)))
                return r
            if v.op == "seq":
                return self.setelem(v, s[1], inner, st)
            return mk("opq", mk("nm", self.fresh("arr")), "?")
        if k == "any":
            if v.op == "any":
                return mk("any", v.a[0], inner)
            return mk("any", "?", inner)
        if k == "key":
            if v.op == "map":
                return mk("map", v.a[0], v.a[1] + (("put", s[1], inner),))
            return v
        raise Undecided("path step")

    def typeof(self, a, st=None):
        """declared type of the object at an address (or None)"""
        if a.op != "addr":
            return None
        t = self.rootty.get(a.a[0])
        for i, s in enumerate(a.a[1]):
            if s[0] == "any":
                v = self.load(st, addr(a.a[0], *a.a[1][:i])) if st is not None else None
                t = v.a[0] if v is not None and v.op == "any" else None
                continue
            if t is None:
                return None
            t = strip_cv(t)
            if s[0] == "f":
                t = self.ftype(t, s[1])
            elif s[0] == "ix":
                m = re.match(r"(.*)\[\d+\]$", t)
                if m:
                    t = m.group(1).strip()
                elif tname(t) in STRING:
                    t = targs(t)[0]
                else:
                    ta = targs(t)
                    t = ta[0] if ta else None
            elif s[0] == "key":
                ta = targs(t)
                t = ta[1] if len(ta) > 1 else None
            else:
                return None
        return t and strip_cv(t)

    # raw memory: bptr(base, off); base = region term, or strbuf(addr, snapshot)
    def extent(self, st, base):
        if base.op == "region":
            e = self.extents.get(base)
            return e if e is not None else atom(mk("ext", base))
        if base.op == "strbuf":
            return slen(base.a[1])
        if base.op == "litbuf":
            return addc(slen(base.a[0]), 1)
        return None

    def check_mem(self, st, base, off, n_bytes, n, what):
        if base.op == "strbuf" and base.a[0] is not None:
            cur = self.load(st, base.a[0], n)
            if cur is not base.a[1]:
                self.oblige(st, "mem", FALSE, n, what + " through a pointer into a buffer that was modified since")
                return
        e = self.extent(st, base)
        if e is None:
            self.unk(st, "memory of unknown extent", n)
            return
        slack = ONE if base.op == "strbuf" else ZERO
        self.oblige(st, "mem", ge0(off), n, what + " (start)")
        if n_bytes is ZERO:
            slack = ONE
        self.oblige(st, "mem", ge0(sub(sub(e, off), n_bytes)), n, what + " (end)")

    def mem_bytes(self, st, base, off, n_bytes):
        """string value of bytes [off, off+n)"""
        if base.op == "region":
            return cat(spiece(mk("mem", base, off, n_bytes)))
        if base.op == "strbuf":
            return substr(base.a[1], off, n_bytes)
        if base.op == "litbuf":
            return substr(base.a[0], off, n_bytes)
        return spiece(mk("sapp", "bytes", base, off, n_bytes))

    def load_mref(self, st, a, n):
        base, off, w, s = a.a
        self.check_mem(st, base, off, num(w), n, "read of %d byte(s)" % w)
        if base.op == "region":
            return load_mem(base, off, w, s)
        v = self.mem_bytes(st, base, off, num(w))
        return int_of(v, w, s)

    # pointer value -> lvalue of pointee
    def deref(self, st, p, t, n):
        if p.op in ("addr", "mentry"):
            return p
        if p.op == "bptr":
            w, s = INTT.get(strip_cv(t), (8, False))
            return mk("mref", p.a[0], p.a[1], max(1, w // 8), s)
        if p.op == "null":
            self.oblige(st, "null", FALSE, n, "null pointer dereference")
            root = self.fresh("nullobj")
            self.rootty[root] = strip_cv(t)
            return addr(root)
        if p.op == "iter":
            return self.iter_deref(st, p, n)
        self.unk(st, "dereference of unresolved pointer", n)
        root = self.fresh("unkobj")
        self.rootty[root] = strip_cv(t)
        st.store[root] = self.symval(t, self.fresh("unk"))
        return addr(root)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exceeded")
        m = getattr(self, "x_" + n["k"], None)
        if m is None:
            raise Undecided("expression kind %s" % n["k"])
        return m(n, st)

    def evs(self, ns, st):
        out = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def rv(self, n, st):
        """evaluate to a value (loads class-type lvalues)"""
        out = []
        for s, v in self.ev(n, st):
            if n.get("lv") and v.op in ("addr", "mref"):
                v = self.load(s, v, n)
            out.append((s, v))
        return out

    def temp(self, st, v, n, t=None):
        r = "t%d@%d" % (n.get("_", 0), st.depth)
        k = 0
        while r in st.store and k < 3 and st.store[r] is not v:
            k += 1
            r = "t%d@%d.%d" % (n.get("_", 0), st.depth, k)
        self.rootty[r] = strip_cv(t or n.get("t", "?"))
        st.store[r] = v
        return addr(r)

    def x_full(self, n, st):
        g0 = st.guards
        out = self.ev(n["e"], st)
        for s, v in out:
            # unnamed lock temporaries die at the end of the full expression
            for g in s.guards[len(g0):]:
                if isinstance(g[0], str) and g[0].startswith("t"):
                    self.release_guard(s, g, n)
        return out

    def x_tmp(self, n, st):
        out = []
        for s, v in self.ev(n["e"], st):
            if n["e"].get("lv") and v.op in ("addr", "mref"):
                out.append((s, v))
                continue
            out.append((s, self.temp(s, v, n, n.get("c") or n["t"])))
        return out

    def x_int(self, n, st):
        v = n["v"]
        v = int(v)
        if n.get("b") or n["t"] == "bool":
            return [(st, TRUE if v else FALSE)]
        return [(st, num(v))]

    def x_flt(self, n, st):
        return [(st, mk("dconst", repr(n["v"])))]

    def x_str(self, n, st):
        b = bytes(n["v"])
        return [(st, mk("strlit", b))]

    def x_null(self, n, st):
        return [(st, NULL)]

    def x_this(self, n, st):
        if st.this is None:
            raise Undecided("no this")
        return [(st, st.this)]

    def x_zero(self, n, st):
        return [(st, self.zero(n["t"]))]

    def zero(self, t):
        t = strip_cv(t)
        if t == "bool":
            return FALSE
        if t in INTT:
            return ZERO
        if t in ("double", "float"):
            return mk("dconst", "0.0")
        if t.endswith("*"):
            return NULL
        d = self.default(t)
        return d if d is not None else ZERO

    def default(self, t):
        """default-constructed library value"""
        b = tname(strip_cv(t))
        if b in STRING:
            return EMPTY
        if b in VEC:
            return seq()
        if b in MAP:
            return mk("map", mk("mempty"), ())
        if b in ("boost::any", "std::any"):
            return mk("any0")
        if b in FUNC:
            return mk("fnull")
        if b in PTR:
            return NULL
        if b in STREAM:
            return mk("rec", "ss", None, (("s", EMPTY), ("fl", mk("nm", ""))))
        return None

    def x_ref(self, n, st):
        dk = n.get("dk")
        if dk == "enum":
            return [(st, num(n["v"]))]
        if dk in ("local", "parm"):
            a = st.env.get(n["id"])
            if a is None:
                # captured or unknown
                a = self.capture_lookup(st, n)
            return [(st, a)]
        if dk in ("global", "slocal"):
            q = n["q"]
            root = ("G", q)
            self.rootty[root] = n["t"]
            if n.get("isref"):
                return [(st, self.load(st, addr(root), n))]
            return [(st, addr(root))]
        if dk == "fn":
            return [(st, mk("fnp", n["fn"], n["n"]))]
        raise Undecided("reference kind %s" % dk)

    def capture_lookup(self, st, n):
        raise Undecided("unbound variable %s" % n.get("n"))

    def x_bind(self, n, st):
        a = st.env.get(n["of"])
        if a is None:
            raise Undecided("structured binding")
        f = n.get("f") or ("first" if n.get("i") == 0 else "second")
        if a.op == "mentry":
            if f == "first":
                return [(st, self.temp(st, a.a[1], n, n.get("t")))]
            return [(st, sub_addr(a.a[0], ("key", a.a[1])))]
        return [(st, sub_addr(a, ("f", f)))]

    def x_mem(self, n, st):
        out = []
        for s, b in self.ev(n["b"], st):
            if n.get("arrow"):
                b = self.deref(s, b, n.get("fc", "?"), n)
            elif b.op not in ("addr", "mref", "mentry"):
                b = self.temp(s, b, n, n.get("fc"))
            if b.op == "mentry":
                if n["f"] == "first":
                    out.append((s, self.temp(s, b.a[1], n, n.get("t"))))
                else:
                    out.append((s, sub_addr(b.a[0], ("key", b.a[1]))))
                continue
            if b.op == "mref":
                self.unk(s, "field of raw memory", n)
                b = self.temp(s, self.symval(n["fc"], self.fresh("unk")), n, n.get("fc"))
            a = sub_addr(b, ("f", n["f"]))
            if n.get("isref"):
                a = self.load(s, a, n)
            out.append((s, a))
        return out

    def x_memfn(self, n, st):
        raise Undecided("member function reference")

    def x_load(self, n, st):
        out = []
        for s, a in self.ev(n["e"], st):
            if a.op in ("addr", "mref"):
                v = self.load(s, a, n, n.get("t"))
                v = self.coerce_load(s, a, v, n)
            else:
                v = a
            if v.op == "uninit":
                self.oblige(s, "uninit", FALSE, n, "read of uninitialised %s" % self.describe(n["e"]))
                v = self.symval(n["t"], self.fresh("un"))
                if a.op == "addr":
                    self.store_(s, a, v, n)
            out.append((s, v))
        return out

    def coerce_load(self, st, a, v, n):
        t = strip_cv(n.get("t", ""))
        if a.op == "addr" and a.a[1] and a.a[1][-1][0] == "ix":
            # re-typed access into a byte array
            arr = self.load(st, addr(a.a[0], *a.a[1][:-1]), n)
            if arr.op == "cat" and t in ("double", "float"):
                return dbl_of(substr(arr, a.a[1][-1][1], num(8)))
            if arr.op == "cat" and t in INTT and INTT[t][0] > 8:
                w, sg = INTT[t]
                return int_of(substr(arr, a.a[1][-1][1], num(w // 8)), w // 8, sg)
        if t in INTT and INTT[t][0] == 8 and a.op == "addr":
            # an octet of a wider integer
            r = self.octet_of_int(st, a, n)
            if r is not None:
                return truncbits(mod(div(truncbits(r[0], r[1], False), 1 << 8 * r[2]), 256), 8, INTT[t][1])
        if t == "bool" and isint(v):
            return i2b(v)
        return v

    def octet_of_int(self, st, a, n):
        """(integer, width, which octet, its address) when a is the address of an octet of a wider integer"""
        k = 0
        b = a
        if a.a[1] and a.a[1][-1][0] == "ix":
            b = addr(a.a[0], *a.a[1][:-1])
            k = cval(a.a[1][-1][1])
        t = self.typeof(b, st)
        if b is not a and t not in INTT:
            return None
        if t not in INTT or INTT[t][0] <= 8 or k is None or not 0 <= k < INTT[t][0] // 8:
            return None
        v = self.load(st, b, n)
        if v.op == "uninit":
            v = atom(isym(mk("nm", self.fresh("uninit")), INTT[t][0], INTT[t][1]))
        v = self.toint(v)
        return None if v is None else (v, INTT[t][0], k, b, INTT[t][1])

    def describe(self, n):
        while isinstance(n, dict):
            if n.get("k") == "mem":
                return "%s.%s" % (n.get("fc", "?").split("::")[-1], n["f"])
            if n.get("k") == "ref":
                return n.get("n", "?")
            n = n.get("e") or n.get("b")
        return "value"

    # ---- integer helpers
    def fit(self, st, v, w, s, n=None):
        """reduce an exact result to the type's range"""
        if not isint(v):
            return v
        if w == 1:
            return v
        lo, hi = rng(v)
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if lo is not None and hi is not None and lo >= L and hi <= H:
            return v
        if cval(v) is not None:
            return truncbits(v, w, s)
        okl = lo is not None and lo >= L or self.entails_lin(st, addc(v, -L))
        if okl:
            okh = hi is not None and hi <= H or self.entails_lin(st, addc(mulc(v, -1), H))
            if okh:
                return v
        return truncbits(v, w, s)

    def toint(self, v):
        if isint(v):
            return v
        if v.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp"):
            return b2i(v)
        return None

    def tobool(self, st, v, n=None):
        if isint(v):
            return i2b(v)
        if v.op in ("addr", "bptr", "strlit", "lam", "bind", "fnp"):
            return TRUE
        if v.op == "null" or v.op == "fnull":
            return FALSE
        if v.op == "fsym":
            return mk("bapp", "fset", v)
        if v.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp"):
            return v
        if v.op == "opq":
            return mk("bapp", "opq", v)
        return mk("bapp", "bool", v)

    def arith(self, st, op, a, b, n, w, s):
        x, y = self.toint(a), self.toint(b)
        if x is None or y is None:
            return self.ptr_arith(st, op, a, b, n)
        cx, cy = cval(x), cval(y)
        if op == "+":
            r = add(x, y)
            if len(r.a[1]) > 1 and any(t.op in ("mod", "ld", "bswap") for t, _ in r.a[1]):
                r = join_octets(r)
            return self.fit(st, r, w, s, n)
        if op == "-":
            return self.fit(st, sub(x, y), w, s, n)
        if op == "*":
            if cx is not None:
                return self.fit(st, mulc(y, cx), w, s, n)
            if cy is not None:
                return self.fit(st, mulc(x, cy), w, s, n)
            return self.opaque_int(st, "mul", (x, y), w, s)
        if op in ("/", "%"):
            if cy is None:
                # constant divisor known through facts?
                self.oblige(st, "div0", neg(eq0(y)), n, "division by zero")
                cy = self.const_of(st, y)
            elif cy == 0:
                self.oblige(st, "div0", FALSE, n, "division by zero")
            lo, _ = rng(x)
            nonneg = (lo is not None and lo >= 0) or self.entails_lin(st, x)
            if cy and cy > 0 and nonneg:
                return div(x, cy) if op == "/" else mod(x, cy)
            if cx is not None and cy:
                q = abs(cx) // abs(cy)
                q = q if (cx < 0) == (cy < 0) else -q
                return num(q if op == "/" else cx - q * cy)
            return self.opaque_int(st, op, (x, y), w, s)
        if op == "<<":
            if cy is not None:
                return self.fit(st, mulc(x, 1 << cy), w, s, n)
            return self.opaque_int(st, "shl", (x, y), w, s)
        if op == ">>":
            if cy is not None:
                lo, _ = rng(x)
                if lo is not None and lo >= 0:
                    return div(x, 1 << cy)
            return self.opaque_int(st, "shr", (x, y), w, s)
        if op in ("&", "|", "^"):
            return self.bits(st, op, x, y, w, s)
        raise Undecided("operator %s" % op)

    def const_of(self, st, x):
        c = cval(x)
        if c is not None:
            return c
        for f in st.facts:
            if f.op == "eq":
                d = f.a[0]
                if d.a[1] == x.a[1]:
                    return x.a[0] - d.a[0]
                if mulc(d, -1).a[1] == x.a[1]:
                    return x.a[0] + d.a[0]
        return None

    def opaque_int(self, st, op, args, w, s):
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return atom(mk("app", op, args, L, H))

    def bits(self, st, op, x, y, w, s):
        cx, cy = cval(x), cval(y)
        if cx is not None and cy is not None:
            m = (1 << w) - 1
            r = {"&": (cx & m) & (cy & m), "|": (cx & m) | (cy & m), "^": (cx & m) ^ (cy & m)}[op]
            return truncbits(num(r), w, s)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        lo, hi = rng(x)
        if op == "&" and cy is not None:
            cy &= (1 << w) - 1
            if cy == 0:
                return ZERO
            if cy & (cy + 1) == 0:
                if lo is not None and lo >= 0:
                    if hi is not None and hi <= cy:
                        return x
                    return mod(x, cy + 1)
                xx = truncbits(x, w, False)
                return mod(xx, cy + 1)
            full = (1 << w) - 1
            low = full & ~cy
            if low & (low + 1) == 0:
                # only low bits are cleared
                xx = x if lo is not None and lo >= 0 and hi is not None and hi <= full else truncbits(x, w, False)
                return truncbits(sub(xx, mod(xx, low + 1)), w, s)
            if hi is not None and lo is not None and lo >= 0:
                # keep only bits that x can have
                mask = cy & ((1 << hi.bit_length()) - 1)
                if mask == (1 << hi.bit_length()) - 1:
                    return x
                cy = mask
                if cy == 0:
                    return ZERO
            # nested masks
            if len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
                t = x.a[1][0][0]
                if t.op == "bop" and t.a[0] == "&":
                    return self.bits(st, "&", t.a[1], num(cy & t.a[2]), w, s)
                if t.op == "mod" and (t.a[1] & (t.a[1] - 1)) == 0:
                    return self.bits(st, "&", t.a[0], num(cy & (t.a[1] - 1)), w, s)
            return atom(mk("bop", "&", x, cy, 0, cy))
        if op == "|" and cy == 0 or op == "^" and cy == 0:
            return x
        for u, v in ((x, y), (y, x)):
            lo, hi = rng(v)
            if lo is not None and lo >= 0 and hi is not None and (rng(u)[0] or 0) >= 0:
                k = hi.bit_length()
                if all(c % (1 << k) == 0 for c in (u.a[0],) + tuple(c for _, c in u.a[1])):
                    # no bit in common
                    return self.fit(st, join_octets(add(u, v)), w, s, None)
        return self.opaque_int(st, op, tuple(sorted((x, y), key=lambda q: q.id)), w, s)

    def ptr_arith(self, st, op, a, b, n):
        x, y = a, b
        if isint(x):
            x, y = y, x
        k = self.toint(y)
        if x.op == "bptr" and k is not None:
            return mk("bptr", x.a[0], add(x.a[1], k) if op == "+" else sub(x.a[1], k))
        if x.op == "bptr" and y.op == "bptr" and op == "-" and x.a[0] is y.a[0]:
            return sub(x.a[1], y.a[1])
        if x.op == "addr" and k is not None and x.a[1] and x.a[1][-1][0] == "ix":
            i = x.a[1][-1]
            return mk("addr", x.a[0], x.a[1][:-1] + ((("ix", add(i[1], k) if op == "+" else sub(i[1], k)) + tuple(i[2:])),))
        if x.op == "strlit" and k is not None:
            return mk("bptr", mk("litbuf", lit(x.a[0])), k)
        if x.op == "iter" and k is not None:
            return self.iter_move(st, x, k if op == "+" else mulc(k, -1), n)
        if x.op == "iter" and y.op == "iter" and op == "-" and x.a[0] is y.a[0] and isint(x.a[1]) and isint(y.a[1]):
            return sub(x.a[1], y.a[1])
        if x.op in ("dsym", "dconst", "dapp", "dblmem", "dbl") or y.op in ("dsym", "dconst", "dapp", "dblmem", "dbl"):
            return mk("dapp", op, a, b)
        if op == "-" and x.op == y.op == "addr" and self.same_array(x, y):
            return sub(x.a[1][-1][1], y.a[1][-1][1])
        self.unk(st, "pointer arithmetic", n)
        return self.symval(n.get("t", "?"), self.fresh("unk"))

    def same_array(self, a, b):
        """addresses of elements of one array"""
        return a.a[0] == b.a[0] and a.a[1] and b.a[1] and a.a[1][-1][0] == b.a[1][-1][0] == "ix" and a.a[1][:-1] == b.a[1][:-1]

    def x_bin(self, n, st):
        op = n["op"]
        if op == ",":
            return [(s2, v) for s, _ in self.ev(n["a"], st) for s2, v in self.ev(n["b"], s)]
        if op in ("&&", "||"):
            out = []
            for s, t in self.cond(n, st):
                out.append((s, TRUE if t else FALSE))
            return out
        out = []
        for s, (a, b) in [(s, tuple(v)) for s, v in self.evs([n["a"], n["b"]], st)]:
            if n["a"].get("lv") and a.op == "addr" and op not in (".*", "->*"):
                a = self.load(s, a, n)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                out.append((s, self.compare(s, op, a, b, n)))
            else:
                out.append((s, self.arith(s, op, a, b, n, n.get("w", 64), n.get("s", False))))
        return out

    def compare(self, st, op, a, b, n):
        x, y = self.toint(a), self.toint(b)
        if x is not None and y is not None:
            if op in ("==", "!="):
                if (a.op in ("true", "false") or b.op in ("true", "false")) and not (isint(a) and isint(b)):
                    p, q = (a, b) if b.op in ("true", "false") else (b, a)
                    p = i2b(p) if isint(p) else p
                    r = p if q is TRUE else neg(p)
                else:
                    r = eq0(sub(x, y))
                return r if op == "==" else neg(r)
            if op == "<":
                return ge0(addc(sub(y, x), -1))
            if op == "<=":
                return ge0(sub(y, x))
            if op == ">":
                return ge0(addc(sub(x, y), -1))
            return ge0(sub(x, y))
        if op in ("==", "!="):
            r = self.equal(st, a, b, n)
            return r if op == "==" else neg(r)
        if a.op == "bptr" and b.op == "bptr" and a.a[0] is b.a[0]:
            return self.compare(st, op, a.a[1], b.a[1], n)
        if a.op == "iter" and b.op == "iter" and isint(a.a[1]) and isint(b.a[1]):
            return self.compare(st, op, a.a[1], b.a[1], n)
        if a.op == "addr" and b.op == "addr" and self.same_array(a, b):
            return self.compare(st, op, a.a[1][-1][1], b.a[1][-1][1], n)
        return mk("bapp", "cmp" + op, a, b)

    def equal(self, st, a, b, n):
        if a is b:
            return TRUE
        if isint(a) and isint(b):
            return eq0(sub(a, b))
        if a.op == "cat" and b.op == "cat":
            return self.streq(a, b)
        if a.op == "null" or b.op == "null":
            o = b if a.op == "null" else a
            if o.op in ("addr", "bptr", "strlit", "lam", "bind"):
                if o.op == "addr" and isinstance(o.a[0], tuple) and o.a[0][0] == "P":
                    return FALSE
                return FALSE
            if o.op == "null":
                return TRUE
            if o.op == "fnull":
                return TRUE
            if o.op == "fsym":
                return neg(mk("bapp", "fset", o))
            return mk("bapp", "isnull", o)
        if a.op == "bptr" and b.op == "bptr" and a.a[0] is b.a[0]:
            return eq0(sub(a.a[1], b.a[1]))
        if a.op == "iter" and b.op == "iter":
            return self.iter_eq(st, a, b, n)
        if a.op == "addr" and b.op == "addr":
            if a.a[0] == b.a[0] and a.a[1] and b.a[1] and a.a[1][-1][0] == "ix" and b.a[1][-1][0] == "ix" and a.a[1][:-1] == b.a[1][:-1]:
                return eq0(sub(a.a[1][-1][1], b.a[1][-1][1]))
            return FALSE
        if a.op == "ty" and b.op == "ty":
            return TRUE if a is b else FALSE
        if {a.op, b.op} == {"ty", "tyof"}:
            p, q = (a, b) if a.op == "tyof" else (b, a)
            return mk("bapp", "anyis", p.a[0], q)
        if a.op == "seq" and b.op == "seq" and not a.a[0] and not b.a[0]:
            return TRUE
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("bapp", "eq", x, y)

    def streq(self, a, b):
        if a is b:
            return TRUE
        ca, cb = strconst(a), strconst(b)
        if ca is not None and cb is not None:
            return TRUE if ca == cb else FALSE
        if cb == b"":
            return eq0(slen(a))
        if ca == b"":
            return eq0(slen(b))
        d = cval(sub(slen(a), slen(b)))
        if d is not None and d != 0 or eq0(sub(slen(a), slen(b))) is FALSE:
            return FALSE
        # strip common prefix / suffix
        pa, pb = list(a.a[0]), list(b.a[0])
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, bytes) and isinstance(y, bytes):
                k = min(len(x), len(y))
                if x[:k] != y[:k]:
                    return FALSE
                pa[0], pb[0] = x[k:], y[k:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
            elif x is y:
                pa.pop(0)
                pb.pop(0)
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, bytes) and isinstance(y, bytes):
                k = min(len(x), len(y))
                if x[-k:] != y[-k:]:
                    return FALSE
                pa[-1], pb[-1] = x[:-k], y[:-k]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
            elif x is y:
                pa.pop()
                pb.pop()
            else:
                break
        a, b = mk("cat", tuple(pa)), mk("cat", tuple(pb))
        if a is b:
            return TRUE
        if not pb:
            return eq0(slen(a))
        if not pa:
            return eq0(slen(b))
        for p, q in ((pa, pb), (pb, pa)):
            if len(p) == 1 and len(q) == 1 and isinstance(p[0], bytes) and isinstance(q[0], T):
                if q[0].op == "chr" and len(p[0]) == 1:
                    return eq0(sub(truncbits(q[0].a[0], 8, False), num(p[0][0])))
                if q[0].op == "subs" and cval(q[0].a[2]) == len(p[0]) == 1:
                    return eq0(sub(char_at(q[0].a[0], q[0].a[1], False), num(p[0][0])))
        if len(pa) == len(pb) == 1 and isinstance(pa[0], T) and isinstance(pb[0], T) and pa[0].op == pb[0].op == "chr":
            return eq0(sub(truncbits(pa[0].a[0], 8, False), truncbits(pb[0].a[0], 8, False)))
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("seq=", x, y)

    def cond(self, n, st):
        """evaluate a condition: list of (state, bool)"""
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s, t in self.cond(n["a"], st):
                if n["op"] == "&&" and not t or n["op"] == "||" and t:
                    out.append((s, t))
                else:
                    out += self.cond(n["b"], s)
            return out
        if n["k"] == "un" and n["op"] == "!":
            return [(s, not t) for s, t in self.cond(n["e"], st)]
        if n["k"] == "full":
            # keep lock-temporaries semantics
            return self.cond(n["e"], st)
        if n["k"] == "cond":
            out = []
            for s, t in self.cond(n["q"], st):
                out += self.cond(n["a"] if t else n["b"], s)
            return out
        out = []
        for s, v in self.ev(n, st):
            if n.get("lv") and v.op in ("addr", "mref"):
                v = self.load(s, v, n)
            c = self.tobool(s, v, n)
            a, b = self.split(s, c)
            out += [(x, True) for x in a] + [(x, False) for x in b]
        return out

    def x_un(self, n, st):
        op = n["op"]
        if op == "!":
            return [(s, FALSE if t else TRUE) for s, t in self.cond(n["e"], st)]
        out = []
        for s, v in self.ev(n["e"], st):
            if op in ("++", "--"):
                old = self.load(s, v, n)
                if old.op == "uninit":
                    self.oblige(s, "uninit", FALSE, n, "read of uninitialised %s" % self.describe(n["e"]))
                    old = self.symval(n["t"], self.fresh("un"))
                if isint(old) or old.op in ("batom", "true", "false", "b2i"):
                    new = self.fit(s, addc(self.toint(old), 1 if op == "++" else -1), n.get("w", 64), n.get("s", False), n)
                else:
                    new = self.ptr_arith(s, "+", old, ONE if op == "++" else num(-1), n)
                self.store_(s, v, new, n)
                self.ev_(s, "inc", n, v, old, new)
                out.append((s, old if n.get("post") else v))
            elif op == "*":
                if v.op == "strlit":
                    v = mk("bptr", mk("litbuf", lit(v.a[0])), ZERO)
                out.append((s, self.deref(s, v, n["t"], n)))
            elif op == "&":
                if v.op == "mref":
                    v = mk("bptr", v.a[0], v.a[1])
                elif v.op == "addr" and v.a[1] and v.a[1][-1][0] == "ix":
                    t = self.typeof(addr(v.a[0], *v.a[1][:-1]), s)
                    if t and tname(t) in STRING:
                        a0 = addr(v.a[0], *v.a[1][:-1])
                        v = mk("bptr", mk("strbuf", a0, self.load(s, a0, n)), v.a[1][-1][1])
                out.append((s, v))
            elif op == "-":
                x = self.toint(v)
                out.append((s, self.fit(s, mulc(x, -1), n.get("w", 64), n.get("s", True), n) if x is not None else mk("dapp", "neg", v)))
            elif op == "~":
                x = self.toint(v)
                out.append((s, self.fit(s, addc(mulc(x, -1), -1), n.get("w", 64), n.get("s", True), n)))
            elif op == "+":
                out.append((s, v))
            elif op in ("__extension__", "__real"):
                out.append((s, v))
            else:
                raise Undecided("unary %s" % op)
        return out

    def x_fnaddr(self, n, st):
        return [(st, mk("fnp", n["fn"], n["n"]))]

    def x_asg(self, n, st):
        out = []
        # right operand first (C++17)
        for s, b in self.ev(n["b"], st):
            if n["b"].get("lv") and b.op in ("addr", "mref"):
                b = self.load(s, b, n)
            for s2, a in self.ev(n["a"], s):
                self.store_(s2, a, b, n)
                self.ev_(s2, "asg", n, a, b)
                out.append((s2, a))
        return out

    def x_casg(self, n, st):
        out = []
        for s, b in self.ev(n["b"], st):
            for s2, a in self.ev(n["a"], s):
                old = self.load(s2, a, n)
                if old.op == "uninit":
                    self.oblige(s2, "uninit", FALSE, n, "read of uninitialised %s" % self.describe(n["a"]))
                    old = self.symval(n["t"], self.fresh("un"))
                v = self.arith(s2, n["op"], old, b, n, n.get("w", 64), n.get("s", False))
                lt = n.get("lt") or {}
                if isint(v) and "w" in lt:
                    v = self.fit(s2, v, lt["w"], lt["s"], n)
                    if lt["w"] == 1:
                        v = i2b(v)
                self.store_(s2, a, v, n)
                self.ev_(s2, "asg", n, a, v)
                out.append((s2, a))
        return out

    def x_cond(self, n, st):
        out = []
        for s, t in self.cond(n["q"], st):
            for s2, v in self.ev(n["a"] if t else n["b"], s):
                m = n["a"] if t else n["b"]
                if not n.get("lv") and m.get("lv") and v.op in ("addr", "mref"):
                    v = self.load(s2, v, n)
                out.append((s2, v))
        return out

    def x_idx(self, n, st):
        out = []
        for s, (b, i) in [(s, tuple(v)) for s, v in self.evs([n["b"], n["i"]], st)]:
            i = self.toint(i)
            if b.op == "addr":
                last = b.a[1][-1] if b.a[1] else None
                if last and last[0] == "ix":
                    k = add(last[1], i)
                    base = addr(b.a[0], *b.a[1][:-1])
                else:
                    k = i
                    base = b
                t = self.typeof(base, s)
                m = re.search(r"\[(\d+)\]$", t or "")
                if m:
                    self.oblige(s, "mem", mk_and(ge0(k), ge0(addc(sub(num(int(m.group(1))), k), -1))), n, "array index")
                out.append((s, sub_addr(base, ix_step(k, n["t"]))))
            else:
                if b.op == "strlit":
                    b = mk("bptr", mk("litbuf", lit(b.a[0])), ZERO)
                if b.op == "bptr":
                    w, sg = INTT.get(strip_cv(n["t"]), (8, True))
                    out.append((s, mk("mref", b.a[0], add(b.a[1], mulc(i, w // 8)), w // 8, sg)))
                else:
                    out.append((s, self.deref(s, b, n["t"], n)))
        return out

    def x_cast(self, n, st):
        ck = n["ck"]
        out = []
        for s, v in self.ev(n["e"], st):
            if ck in ("IntegralCast", "BooleanToSignedIntegral"):
                x = self.toint(v)
                if x is None:
                    if v.op == "opq":
                        x = self.symval(n["t"], mk("nf", v, "int"))
                    else:
                        raise Undecided("integral cast of %s" % v.op)
                if n["t"] == "bool":
                    out.append((s, i2b(x)))
                else:
                    out.append((s, self.fit(s, x, n.get("w", 64), n.get("s", False), n)))
            elif ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean", "FloatingToBoolean"):
                out.append((s, self.tobool(s, v, n)))
            elif ck == "ArrayToPointerDecay":
                if v.op == "addr":
                    v = sub_addr(v, ix_step(ZERO, n["t"].rstrip("*")))
                out.append((s, v))
            elif ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "ToVoid", "NonAtomicToAtomic", "AtomicToNonAtomic"):
                if ck == "LValueBitCast" and v.op == "mref":
                    w, sg = INTT.get(strip_cv(n["t"]), (8 * v.a[2], v.a[3]))
                    v = mk("mref", v.a[0], v.a[1], w // 8, sg)
                out.append((s, v))
            elif ck in ("BitCast", "Dynamic"):
                out.append((s, v))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck in ("IntegralToFloating", "FloatingCast"):
                out.append((s, mk("dapp", "ofint", v)))
            elif ck == "FloatingToIntegral":
                out.append((s, self.symval(n["t"], mk("nf", v, "toint"))))
            elif ck in ("PointerToIntegral",):
                out.append((s, self.symval(n["t"], mk("nf", v, "ptrint"))))
            elif ck in ("IntegralToPointer", "NullToMemberPointer"):
                out.append((s, mk("opq", mk("nf", v, "ptr"), n["t"])))
            else:
                out.append((s, v))
        return out

    def x_throw(self, n, st):
        if n.get("e") is None:
            cur = st.env.get("#exc")
            self.throws.append((st, cur if cur is not None else mk("exc", "std::exception", (), None)))
            return []
        for s, v in self.ev(n["e"], st):
            e = mk("exc", n.get("c", "?"), tuple(n.get("bases") or (n.get("c", "?"),)), v if v.op != "addr" else self.load(s, v, n))
            self.ev_(s, "throw", n, e)
            self.throws.append((s, e))
        return []

    def throw(self, st, cls, n, msg=None):
        bases = {"std::out_of_range": ("std::out_of_range", "std::logic_error", "std::exception"),
                 "std::invalid_argument": ("std::invalid_argument", "std::logic_error", "std::exception"),
                 "boost::bad_any_cast": ("boost::bad_any_cast", "std::bad_cast", "std::exception"),
                 "std::bad_function_call": ("std::bad_function_call", "std::exception"),
                 "std::runtime_error": ("std::runtime_error", "std::exception"),
                 "user": ("user", "std::exception")}.get(cls, (cls, "std::exception"))
        e = mk("exc", cls, bases, msg)
        self.ev_(st, "throw", n, e)
        self.throws.append((st, e))

    def x_typeid(self, n, st):
        if "c" in n:
            return [(st, mk("ty", n["c"]))]
        return [(s, mk("opq", mk("nf", v, "typeid"), "std::type_info")) for s, v in self.ev(n["e"], st)]

    def x_stmtexpr(self, n, st):
        raise Undecided("statement expression")

    def x_unk(self, n, st):
        raise Undecided("expression %s" % n.get("sc"))

    def x_delete(self, n, st):
        out = []
        for s, v in self.ev(n["e"], st):
            if v.op in ("addr", "mref") and n["e"].get("lv"):
                v = self.load(s, v, n)
            c = strip_cv(self.typeof(v, s) or "") if v.op == "addr" else None
            for x in self.destroy(s, v, c, n) if c and self.dies(c) else [s]:
                self.ev_(x, "delete", n, v)
                self.free(x, v, n)
                out.append((x, VOID))
        return out

    def x_lambda(self, n, st):
        caps = []
        for c in n["caps"]:
            if c.get("this"):
                caps.append(("this", st.this))
            elif "id" in c:
                a = st.env.get(c["id"])
                if a is None:
                    continue
                if c.get("byref"):
                    caps.append((c["id"], a))
                elif c.get("init") is not None and False:
                    pass
                else:
                    if a.op == "addr":
                        caps.append((c["id"], "v", self.load(st, a, n)))
                    else:
                        caps.append((c["id"], a))
        self.lambdas = getattr(self, "lambdas", {})
        self.lambdas[n["_"]] = (n["fn"], dict(self.stack[-1]) if self.stack else None)
        return [(st, mk("lam", n["_"], tuple(caps)))]

    def x_init(self, n, st):
        # braced initialisation of an aggregate / array
        out = []
        t = strip_cv(n["t"])
        for s, vs in self.evs(n["a"], st):
            vals = []
            for m, v in zip(n["a"], vs):
                if m.get("lv") and v.op in ("addr", "mref"):
                    v = self.load(s, v, m)
                vals.append(v)
            if "fs" in n and t in self.P.recs:
                d = {}
                for f, v in zip([x for x in n["fs"]], vals):
                    d[f] = v
                out.append((s, mk("rec", t, None, tuple(sorted(d.items())))))
            elif "n" in n or t.endswith("]"):
                k = n.get("n", len(vals))
                if k and re.match(r"(const )?(unsigned |signed )?char\[", t):
                    ps = [spiece(mk("chr", self.toint(v))) for v in vals] + [lit(b"\0")] * (k - len(vals))
                    out.append((s, cat(*ps)))
                else:
                    fill = self.zero(re.sub(r"\[\d+\]$", "", t))
                    out.append((s, seq(*([mk("el", v) for v in vals] + [mk("el", fill)] * max(0, k - len(vals))))))
            elif len(vals) == 1:
                out.append((s, vals[0]))
            elif not vals:
                out.append((s, self.zero(t)))
            else:
                out.append((s, seq(*[mk("el", v) for v in vals])))
        return out

    def x_new(self, n, st):
        out = []
        root = None
        r0 = "h%d@%d" % (n["_"], st.depth)
        root, k = r0, 0
        while ("H", root) in st.store:
            k += 1
            root = "%s.%d" % (r0, k)
        root = ("H", root)
        self.rootty[root] = n["c"]
        a = addr(root)
        e = n.get("e")
        if e is None:
            st.store[root] = self.default(n["c"]) or mk("uninit", n["c"])
            return [(st, a)]
        if e["k"] in ("ctor",) or (e["k"] == "full" and e["e"]["k"] == "ctor"):
            c = e if e["k"] == "ctor" else e["e"]
            for s in self.construct(c, a, st):
                out.append((s, a))
            return out
        for s, v in self.ev(e, st):
            s.store[root] = v
            out.append((s, a))
        return out

    # ------------------------------------------------------------ construction and calls
    def x_ctor(self, n, st):
        """constructor used as a prvalue: build in a temporary, return the value"""
        root = "c%s@%d" % (n["_"] if "_" in n else "i" + str(n.get("l")), st.depth)
        self.rootty[root] = n["c"]
        a = addr(root)
        out = []
        for s in self.construct(n, a, st):
            v = s.store.get(root)
            if v is None:
                v = mk("opq", mk("nm", self.fresh("obj")), n["c"])
            if v.op == "lock":
                # prvalue lock not bound to a variable: handled by the caller
                pass
            else:
                s.store.pop(root, None)
            out.append((s, v))
        return out

    def construct(self, n, a, st):
        """run constructor node n on address a: list of states"""
        c = n["c"]
        out = []
        if n.get("arr"):
            st.store[a.a[0]] = self.upd(st, self.root(st, a.a[0]), a.a[1], self.default_array(n), n) if a.a[1] else self.default_array(n)
            return [st]
        if (n.get("copy") or n.get("move")) and (n.get("dflt") or not n.get("repo") or n["fn"] not in self.P.funcs):
            for s, v in self.ev(n["a"][0], st):
                if v.op in ("addr", "mref"):
                    v2 = self.load(s, v, n)
                    if n.get("move") and v.op == "addr":
                        self.moved_from(s, v, v2, n)
                else:
                    v2 = v
                self.store_(s, a, v2, n)
                out.append(s)
            return out
        f = self.P.funcs.get(n["fn"])
        if f is not None:
            for s, args in self.evs(n["a"], st):
                for s2, _ in self.call_fn(f, a, args, s, n, ctor=True):
                    out.append(s2)
            return out
        if n.get("dctor") and (n.get("dflt") or n.get("repo")) and c in self.P.recs:
            return self.default_construct(c, a, st, n)
        for s, args in self.evs(n["a"], st):
            for s2, v in self.models.construct(self, n, c, args, s, a):
                if v is not None:
                    self.store_(s2, a, v, n)
                out.append(s2)
        return out

    def moved_from(self, st, a, v, n):
        b = tname(self.typeof(a, st) or "")
        d = self.default(self.typeof(a, st) or "")
        if v.op in ("cat", "seq", "map", "addr") and d is not None:
            self.store_(st, a, d, n)

    def default_array(self, n):
        t = n["t"]
        m = re.search(r"\[(\d+)\]$", t)
        k = int(m.group(1)) if m else 0
        d = self.default(re.sub(r"\[\d+\]$", "", t)) or mk("uninit", t)
        return seq(*[mk("el", d)] * k)

    def default_construct(self, c, a, st, n):
        """implicit default constructor of a repository class"""
        self.store_(st, a, mk("rec", c, None, ()), n)
        sts = [st]
        r = self.P.recs.get(c)
        for b in r["bases"]:
            nxt = []
            for s in sts:
                nxt += self.construct_default_of(b, a, s, n)
            sts = nxt
            for s in sts:
                v = self.load(s, a, n)
                if v.op == "rec":
                    self.store_(s, a, mk("rec", c, v.a[1], v.a[2]), n)
        for f in r["fields"]:
            nxt = []
            for s in sts:
                nxt += self.init_field(f, a, s, n)
            sts = nxt
        return sts

    def construct_default_of(self, c, a, st, n):
        for f in self.P.funcs.values():
            if f.get("ctor") and f.get("cls") == c and not f["ps"]:
                return [s for s, _ in self.call_fn(f, a, [], st, n, ctor=True)]
        if c in self.P.recs:
            return self.default_construct(c, a, st, n)
        d = self.default(c)
        if d is not None:
            self.store_(st, a, d, n)
        return [st]

    def init_field(self, f, a, st, n):
        """default member initialisation"""
        fa = sub_addr(a, ("f", f["n"]))
        if f.get("init") is not None:
            out = []
            for s, v in self.init_value(f["init"], f, st):
                self.store_(s, fa, v, n)
                out.append(s)
            return out
        c = strip_cv(f["t"])
        d = self.default(c)
        if d is not None:
            self.store_(st, fa, d, n)
            return [st]
        if c in self.P.recs:
            return self.construct_default_of(c, fa, st, n)
        if f.get("an"):
            if f.get("es") == 1:
                self.store_(st, fa, spiece(mk("sapp", "uninitbytes", mk("nm", self.fresh("u")))), n)
            else:
                self.store_(st, fa, mk("uninit", c), n)
            return [st]
        if f.get("scalar") or c in INTT:
            self.store_(st, fa, mk("uninit", f["t"]), n)
        else:
            self.store_(st, fa, mk("opq", mk("nf", mk("nm", str(a)), f["n"]), c), n)
        return [st]

    def init_value(self, e, var, st):
        """value of an initialiser expression"""
        out = []
        for s, v in self.ev(e, st):
            if e.get("lv") and v.op in ("addr", "mref") and not var.get("ref"):
                v = self.load(s, v, e)
            elif v.op == "strlit" and (var.get("an") or strip_cv(var.get("t", "")).endswith("]")):
                v = lit(v.a[0] + b"\0" * max(1, (var.get("an") or 0) - len(v.a[0])))
            if strip_cv(var.get("t", "")) == "bool" and isint(v):
                v = i2b(v)
            out.append((s, v))
        return out

    def x_call(self, n, st):
        return self.do_call(n, st, None, None)

    def x_mcall(self, n, st):
        out = []
        for s, o in self.ev(n["o"], st):
            if n.get("arrow"):
                o = self.deref(s, o, n.get("oc", "?"), n)
            elif o.op not in ("addr", "mref"):
                o = self.temp(s, o, n["o"], n.get("oc"))
            out += self.do_call(n, s, o, None)
        return out

    def x_opcall(self, n, st):
        if n.get("member"):
            out = []
            for s, o in self.ev(n["a"][0], st):
                if o.op not in ("addr", "mref"):
                    o = self.temp(s, o, n["a"][0], n["ac"][0])
                for r in self.do_call(n, s, o, n["a"][1:]):
                    out.append(r)
            return out
        return self.do_call(n, st, None, None)

    def x_icall(self, n, st):
        out = []
        for s, f in self.ev(n["f"], st):
            if f.op == "addr":
                f = self.load(s, f, n)
            for s2, args in self.evs(n["a"], s):
                out += self.invoke(f, args, s2, n, None)
        return out

    def do_call(self, n, st, o, args):
        an = n["a"] if args is None else args
        out = []
        f = self.P.funcs.get(n.get("fn"))
        for s, vs in self.evs(an, st):
            cut = self.cuts.get(n.get("n"))
            if cut is not None:
                r = cut(self, s, o, vs, n)
                if r is not None:
                    out += r
                    continue
            if f is not None:
                r = self.call_fn(f, o, vs, s, n)
            else:
                r = self.models.call(self, n, o, vs, an, s)
            out += r
        return out

    def bind_args(self, f, args, st, n, argnodes=None):
        env = {}
        for i, p in enumerate(f["ps"]):
            v = args[i] if i < len(args) else None
            if v is None:
                v = self.symval(p["t"], self.fresh("arg"))
            if p.get("ref"):
                if v.op not in ("addr", "mref"):
                    root = "p%d@%d" % (p["id"], st.depth + 1)
                    self.rootty[root] = p["c"]
                    st.store[root] = v
                    v = addr(root)
                env[p["id"]] = v
            else:
                if v.op in ("addr", "mref") and not p.get("ptr") and tname(p["c"]) not in PTR and not strip_cv(p["t"]).endswith("*"):
                    v = self.load(st, v, n)
                root = "p%d@%d" % (p["id"], st.depth + 1)
                self.rootty[root] = strip_cv(p["t"])
                st.store[root] = v
                env[p["id"]] = addr(root)
        return env

    def call_fn(self, f, this, args, st, n, ctor=False):
        """inline a function body"""
        if sum(1 for x in self.stack if x["fn"] == f["fn"]) > self.rec_limit or len(self.stack) > self.max_depth:
            self.unk(st, "recursion %s" % f["n"], n)
            if f["rt"] == "void" or ctor:
                return [(st, VOID)]
            return [(st, self.symval(f["rt"], self.fresh("rec")))]
        self.visited.add(f["fn"])
        saved_env, saved_this, saved_level, saved_depth = st.env, st.this, st.level, st.depth
        env = self.bind_args(f, args, st, n)
        st.env = env
        st.this = this if not f.get("static") else None
        st.level = saved_level + 1
        st.depth = saved_depth + 1
        self.stack.append({"fn": f["fn"], "n": f["n"], "file": f["file"], "va": (args[len(f["ps"]):], (n.get("a") or [])[len(f["ps"]):] if isinstance(n, dict) else [])})
        th, self.throws = self.throws, []
        res = []
        try:
            sts = [st]
            if f.get("ctor"):
                sts = self.ctor_inits(f, this, st, n)
            for s in sts:
                for kind, s2, v in self.exec(f["body"], s):
                    if kind == "ret" and f.get("rref") is None and v.op in ("addr", "mref") and not self.is_ptr_type(f["rt"]):
                        v = self.load(s2, v, n)
                    res.append((s2, v if kind == "ret" else VOID))
            mythrows = self.throws
        finally:
            self.throws = th
            self.stack.pop()
        out = []
        for s, v in res:
            out += [(x, v) for x in self.leave(s, saved_env, saved_this, saved_level, saved_depth, n)]
        for s, e in mythrows:
            self.throws += [(x, e) for x in self.leave(s, saved_env, saved_this, saved_level, saved_depth, n)]
        return self.dedupe(out)

    def is_ptr_type(self, t):
        t = strip_cv(t)
        return t.endswith("*") or tname(t) in PTR or t.endswith("&")

    def leave(self, s, env, this, level, depth, n):
        """states in which the function has been left"""
        return [self.left(x, env, this, level, depth) for x in self.unwind(s, level, n)]

    def left(self, s, env, this, level, depth):
        s.env, s.this, s.level = dict(env), this, level
        s.depth = depth
        # drop dead roots of deeper frames
        for r in [r for r in s.store if FRAME[r] > depth + 1]:
            del s.store[r]
        return s

    def ctor_inits(self, f, this, st, n):
        c = f["cls"]
        self.store_(st, this, mk("rec", c, None, ()), n)
        sts = [st]
        done = set()
        for i in f["inits"]:
            nxt = []
            for s in sts:
                if "base" in i:
                    e = i["e"]
                    nn = e
                    while nn["k"] == "full":
                        nn = nn["e"]
                    if nn["k"] == "ctor":
                        for s2 in self.construct(nn, this, s):
                            v = self.load(s2, this, n)
                            if v.op == "rec":
                                self.store_(s2, this, mk("rec", c, v.a[1], v.a[2]), n)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                elif i.get("deleg"):
                    nn = i["e"]
                    while nn["k"] == "full":
                        nn = nn["e"]
                    nxt += self.construct(nn, this, s)
                elif "f" in i:
                    fa = sub_addr(this, ("f", i["f"]))
                    self.rootty.get(this.a[0])
                    e = i["e"]
                    nn = e
                    while nn["k"] == "full":
                        nn = nn["e"]
                    if nn["k"] == "ctor":
                        nxt += self.construct(nn, fa, s)
                    else:
                        for s2, v in self.init_value(e, {"t": i["t"], "ref": i["t"].endswith("&")}, s):
                            self.store_(s2, fa, v, n)
                            nxt.append(s2)
                    done.add(i["f"])
                else:
                    nxt.append(s)
            sts = nxt
        r = self.P.recs.get(c)
        if r and not any(i.get("deleg") for i in f["inits"]):
            for fl in r["fields"]:
                if fl["n"] in done:
                    continue
                nxt = []
                for s in sts:
                    nxt += self.init_field(fl, this, s, n)
                sts = nxt
        return sts

    def dedupe(self, rs):
        if len(rs) < 2:
            return rs
        seen = {}
        out = []
        many = {}
        for s, v in rs:
            many[s.trace] = many.get(s.trace, 0) + 1
        for s, v in rs:
            if many[s.trace] == 1:
                out.append((s, v))
                continue
            k = (s.key(), v)
            if k in seen:
                continue
            seen[k] = 1
            out.append((s, v))
        if len(out) > self.MAXSTATES:
            raise Undecided("too many states in %s" % self.where())
        return out

    # ---- function values
    def invoke(self, f, args, st, n, place):
        """call a function value with argument addresses/values"""
        if f.op == "fnp":
            fn = self.P.funcs.get(f.a[0])
            cut = self.cuts.get(f.a[1])
            this = None
            a = list(args)
            isfn = fn is not None and fn.get("cls") and not fn.get("static")
            if isfn or (fn is None and cut is not None):
                this = a.pop(0)
                if this.op in ("addr",):
                    tv = self.load(st, this, n) if self.is_smart(st, this) else None
                    if tv is not None and tv.op == "addr":
                        this = tv
            if cut is not None:
                r = cut(self, st, this, a, n)
                if r is not None:
                    return r
            if fn is None:
                self.unk(st, "call of unknown function %s" % f.a[1], n)
                return [(st, VOID)]
            return self.call_fn(fn, this, a[:len(fn["ps"])], st, n)
        if f.op == "bind":
            full = []
            for b in f.a[1]:
                if b.op == "ph":
                    k = b.a[0] - 1
                    full.append(args[k] if k < len(args) else mk("opq", mk("nm", "missing"), "?"))
                else:
                    full.append(b)
            return self.invoke(f.a[0], full, st, n, place)
        if f.op == "lam":
            fn, fr = self.lambdas[f.a[0]]
            return self.call_lambda(f, fn, fr, args, st, n)
        if f.op == "fnull":
            self.throw(st, "std::bad_function_call", n)
            return []
        # opaque callback
        vals = tuple(self.load(st, a, n) if a.op == "addr" else a for a in args)
        self.ev_(st, "callback", n, f, vals, place if place is not None else NULL)
        cb = getattr(self, "on_callback", None)
        if cb is not None:
            r = cb(self, st, f, args, n, place)
            if r is not None:
                return r
        if self.callback_throws:
            s2 = st.copy()
            self.throw(s2, "user", n)
        t = n.get("t", "void")
        if t == "void":
            return [(st, VOID)]
        return [(st, self.symval(t, self.fresh("cb")))]

    def is_smart(self, st, a):
        t = self.typeof(a, st)
        return bool(t) and (tname(t) in PTR)

    def call_lambda(self, f, fn, fr, args, st, n):
        if sum(1 for x in self.stack if x["fn"] == fn["fn"]) > self.rec_limit + 1:
            raise Undecided("recursive lambda")
        saved = (st.env, st.this, st.level, st.depth)
        env = {}
        this = None
        st.depth += 0
        for c in f.a[1]:
            if c[0] == "this":
                this = c[1]
            elif len(c) == 3:
                root = "k%d@%d" % (c[0], st.depth + 1)
                st.store[root] = c[2]
                env[c[0]] = addr(root)
            else:
                env[c[0]] = c[1]
        env2 = self.bind_args(fn, args, st, n)
        env.update(env2)
        st.env, st.this = env, this
        st.level = saved[2] + 1
        st.depth = saved[3] + 1
        self.stack.append({"fn": fn["fn"], "n": (fr or {}).get("n", "") + "::lambda", "file": fn["file"]})
        th, self.throws = self.throws, []
        res = []
        try:
            for kind, s2, v in self.exec(fn["body"], st):
                if kind == "ret" and not fn.get("rref") and v.op in ("addr", "mref") and not self.is_ptr_type(fn["rt"]):
                    v = self.load(s2, v, n)
                res.append((s2, v if kind == "ret" else VOID))
            mine = self.throws
        finally:
            self.throws = th
            self.stack.pop()
        out = []
        for s, v in res:
            out += [(x, v) for x in self.leave(s, *saved, n)]
        for s, e in mine:
            self.throws += [(x, e) for x in self.leave(s, *saved, n)]
        return self.dedupe(out)

    # ------------------------------------------------------------ locks
    def acquire(self, st, m, n):
        """states in which the lock is held"""
        out = self.sched.point(self, st, n)
        for s in out:
            self.ev_(s, "lock", n, m, self.sched.me(s))
            s.held = s.held + (m,)
        return out

    def release(self, st, m, n):
        h = list(st.held)
        for i in range(len(h) - 1, -1, -1):
            if h[i] is m:
                del h[i]
                break
        st.held = tuple(h)
        self.ev_(st, "unlock", n, m, self.sched.me(st))

    def release_guard(self, st, g, n):
        root = g[0]
        v = st.store.get(root)
        st.guards = tuple(x for x in st.guards if x != g)
        if v is not None and v.op == "lock" and v.a[1] is TRUE:
            for m in reversed(v.a[0]):
                self.release(st, m, n)
            st.store[root] = mk("lock", v.a[0], FALSE)

    # ------------------------------------------------------------ ends of lives
    def unwind(self, st, lvl, n):
        """states in which what was declared beyond a level is gone"""
        todo, out = [st], []
        while todo:
            s = todo.pop()
            g = s.guards[-1] if s.guards and s.guards[-1][1] > lvl else next((x for x in reversed(s.guards) if x[1] > lvl), None)
            if g is None:
                out.append(s)
            elif len(g) == 2:
                self.release_guard(s, g, n)
                todo.append(s)
            else:
                s.guards = tuple(x for x in s.guards if x != g)
                # the destructor sees the frame it was declared in as its caller
                lv = s.level
                s.level = max(s.level, g[1])
                k = self.owns(g[2])
                for x in self.destroy(s, addr(g[0]), g[2], n) if k is None else self.drop(s, addr(g[0]), g[2], k, n):
                    x.level = lv
                    todo.append(x)
        return out[::-1]

    def unwind_all(self, out, lvl, n):
        res = []
        for k, s, v in out:
            for x in self.unwind(s, lvl, n):
                x.level = lvl
                res.append((k, x, v))
        return res

    def dtor_of(self, c):
        r = self.P.recs.get(c)
        for m in (r or {}).get("methods", ()):
            if m.get("dtor") and not m.get("implicit"):
                return self.P.funcs.get(m["fn"])
        return None

    def dies(self, c):
        """does the end of an object of this class run code of the library"""
        memo = self.P.__dict__.setdefault("dies_", {})
        if c not in memo:
            memo[c] = False
            r = self.P.recs.get(c)
            if r is not None:
                memo[c] = self.dtor_of(c) is not None or any(self.dies(b if isinstance(b, str) else b.get("c", b.get("n"))) for b in r.get("bases", ())) or any(self.dies(f.get("c")) or self.owns(f.get("t", "")) is not None for f in r["fields"])
        return memo[c]

    def owns(self, t):
        """class of the object a smart pointer of this type ends, if that runs code"""
        t = strip_cv(t)
        if tname(t) in ("std::unique_ptr", "std::shared_ptr"):
            c = strip_cv(targs(t)[0])
            if c in self.P.recs:
                return c
        return None

    def destroy(self, st, a, c, n):
        """the end of an object: its destructor, its members, its bases"""
        sts = [st]
        f = self.dtor_of(c)
        if f is not None:
            sts = [s for s, _ in self.call_fn(f, a, [], st, n)]
        r = self.P.recs.get(c) or {}
        for fl in reversed(r.get("fields", ())):
            k = self.owns(fl.get("t", ""))
            if k is None and not self.dies(fl.get("c")):
                continue
            fa = sub_addr(a, ("f", fl["n"]))
            nxt = []
            for s in sts:
                if k is None:
                    nxt += self.destroy(s, fa, fl["c"], n)
                else:
                    nxt += self.drop(s, fa, fl["t"], k, n)
            sts = nxt
        for b in reversed(r.get("bases", ())):
            b = b if isinstance(b, str) else b.get("c", b.get("n"))
            if self.dies(b):
                sts = [y for s in sts for y in self.destroy(s, a, b, n)]
        return sts

    def drop(self, st, pa, t, c, n):
        """a smart pointer lets go"""
        v = self.load(st, pa, n)
        self.store_(st, pa, NULL, n)
        if v is NULL:
            return [st]
        if v.op != "addr":
            self.unk(st, "end of an unknown object", n)
            return [st]
        if tname(strip_cv(t)) == "std::shared_ptr" and self.shared(st, v):
            return [st]
        out = self.destroy(st, v, c, n)
        for s in out:
            self.ev_(s, "delete", n, v)
            self.free(s, v, n)
        return out

    def shared(self, st, v):
        """does another shared pointer hold the object"""
        def held(x, t):
            if isinstance(x, T) and x.op == "rec":
                r = self.P.recs.get(x.a[0])
                ts = {f["n"]: f.get("t", "") for f in (r or {}).get("fields", ())}
                return any(held(y, ts.get(k, "")) for k, y in x.a[2])
            return x is v and tname(strip_cv(t or "")) == "std::shared_ptr"
        return any(held(x, self.rootty.get(r, "")) for r, x in st.store.items())

    # ------------------------------------------------------------ iterators
    def iter_deref(self, st, it, n):
        cont, pos = it.a[0], it.a[1]
        if cont.op != "addr":
            return self.deref(st, cont, n.get("t", "?"), n)
        if isint(pos):
            v = self.load(st, cont, n)
            ln = slen(v) if v.op == "cat" else (sqlen(v) if v.op == "seq" else None)
            if ln is not None:
                self.oblige(st, "mem", mk_and(ge0(pos), ge0(addc(sub(ln, pos), -1))), n, "iterator dereference")
            return sub_addr(cont, ("ix", pos))
        if pos.op in ("mkey", "mit"):
            self.ev_(st, "deref", n, it)
            k = pos.a[0] if pos.op == "mkey" else self.models.mit_key(self, pos)
            if pos.op == "mkey" and cont.op == "addr":
                ks = self.models.map_keys(self, st, self.load(st, cont, n))
                if ks is not None and not any(x is k or self.decide(st, self.equal(st, x, k, n)) is not False for x in ks):
                    self.oblige(st, "life", FALSE, n, "use of an erased element", assume=False)
            return self.map_entry(st, cont, k, n)
        if pos.op == "mend":
            self.oblige(st, "mem", FALSE, n, "dereference of end()")
        self.unk(st, "iterator dereference", n)
        return self.temp(st, mk("opq", mk("nm", self.fresh("unk")), "?"), n)

    def unused(self, st, a, n):
        """the object at a goes: it must not be a function that is running"""
        if a.op != "addr" or isinstance(a.a[0], str):
            return
        for r in self.running:
            if r.op == "mref" or r.op != "addr" or r.a[0] != a.a[0]:
                continue
            p, q = a.a[1], r.a[1]
            if len(q) >= len(p) and all(x == y or x[0] == y[0] == "key" and self.decide(st, self.equal(st, x[1], y[1], n)) is True for x, y in zip(p, q)):
                self.oblige(st, "life", FALSE, n, "a function destroyed or replaced while it runs", assume=False)

    def map_entry(self, st, cont, key, n):
        # entries are materialised as a pair whose second aliases the mapped value
        return mk("mentry", cont, key)

    def iter_move(self, st, it, k, n):
        if isint(it.a[1]):
            return mk("iter", it.a[0], add(it.a[1], k), *it.a[2:])
        self.unk(st, "iterator arithmetic", n)
        return mk("iter", it.a[0], mk("munk", self.fresh("it")), *it.a[2:])

    def iter_eq(self, st, a, b, n):
        p, q = a.a[1], b.a[1]
        if p is q:
            return TRUE
        if isint(p) and isint(q):
            return eq0(sub(p, q))
        if {p.op, q.op} == {"mkey", "mend"}:
            return FALSE
        if p.op == "mkey" and q.op == "mkey":
            return self.equal(st, p.a[0], q.a[0], n)
        x, y = sorted((p, q), key=lambda t: t.id)
        return mk("bapp", "eq", x, y)

    # ------------------------------------------------------------ statements
    # result: list of (kind, state, value)   kind in n, ret, brk, cont
    def exec(self, n, st):
        if n is None:
            return [("n", st, VOID)]
        self.nstmts += 1
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exceeded")
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            raise Undecided("statement kind %s" % n["k"])
        return m(n, st)

    def exec_seq(self, ns, st):
        cur = [st]
        done = []
        for n in ns:
            nxt = []
            for s in cur:
                for k, s2, v in self.exec(n, s):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        done.append((k, s2, v))
            cur = self.dedupe_s(nxt)
            if not cur:
                break
        return [("n", s, VOID) for s in cur] + done

    def dedupe_s(self, sts):
        return [s for s, _ in self.dedupe([(s, VOID) for s in sts])]

    def s_block(self, n, st):
        lvl = st.level
        st.level = lvl + 1
        out = self.exec_seq(n["a"], st)
        return self.unwind_all(out, lvl, {"l": n.get("el", n.get("l"))})

    def s_nop(self, n, st):
        return [("n", st, VOID)]

    def s_expr(self, n, st):
        return [("n", s, VOID) for s, _ in self.ev_stmt(n["e"], st)]

    def ev_stmt(self, e, st):
        out = self.ev(e, st)
        # a lock object created as an unnamed prvalue dies here
        for s, v in out:
            for g in reversed(s.guards):
                if isinstance(g[0], str) and g[0][0] in "ct" and g[1] >= s.level and v is s.store.get(g[0]):
                    self.release_guard(s, g, e)
        return out

    def s_decl(self, n, st):
        sts = [st]
        for v in n["a"]:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s)
            sts = nxt
        return [("n", s, VOID) for s in sts]

    def declare(self, v, st):
        if v.get("static"):
            root = ("G", v["q"])
            self.rootty[root] = v["t"]
            st.env[v["id"]] = addr(root)
            return [st]
        root = "v%d@%d" % (v["id"], st.depth)
        self.rootty[root] = strip_cv(v["t"])
        a = addr(root)
        e = v.get("init")
        if v.get("ref"):
            out = []
            for s, x in self.ev(e, st):
                if x.op not in ("addr", "mref", "mentry"):
                    self.rootty[root] = v["c"]
                    s.store[root] = x
                    x = a
                s.env[v["id"]] = x
                out.append(s)
            return out
        if e is None:
            st.env[v["id"]] = a
            if v.get("an"):
                if v.get("es") == 1:
                    st.store[root] = spiece(mk("mem", mk("region", self.fresh("stackbuf")), ZERO, num(v["an"])))
                else:
                    st.store[root] = seq(*[mk("el", mk("uninit", v.get("et", "?")))] * v["an"])
            else:
                st.store[root] = mk("uninit", strip_cv(v["t"]))
            return [st]
        nn = e
        while nn["k"] == "full":
            nn = nn["e"]
        out = []
        if nn["k"] == "ctor" and not nn.get("lv"):
            st.env[v["id"]] = a
            g0 = st.guards
            for s in self.construct(nn, a, st):
                s.env[v["id"]] = a
                for g in s.guards[len(g0):]:
                    if isinstance(g[0], str) and g[0].startswith("t"):
                        self.release_guard(s, g, nn)
                self.owned(s, root, v)
                out.append(s)
            return out
        for s, x in self.init_value(e, v, st):
            s.env[v["id"]] = a
            s.store[root] = x
            if x.op == "lock":
                # lock returned by value (guaranteed elision): owned by the variable
                s.guards = tuple(g for g in s.guards if s.store.get(g[0]) is not x) + ((root, s.level),)
            self.owned(s, root, v)
            out.append(s)
        return out

    def owned(self, s, root, v):
        """a variable whose end runs code of the library"""
        t = strip_cv(v["t"])
        if self.dies(t) or self.owns(t) is not None:
            s.guards = s.guards + ((root, s.level, t),)

    def s_if(self, n, st):
        lvl = st.level
        st.level += 1
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st) if k == "n"]
        if n.get("var"):
            sts = [y for x in sts for y in self.declare(n["var"], x)]
        out = []
        for s0 in sts:
            for s, t in self.cond(n["q"], s0):
                b = n["a"] if t else n.get("b")
                out += self.exec(b, s) if b is not None else [("n", s, VOID)]
        return self.unwind_all(out, lvl, n)

    def s_ret(self, n, st):
        if n.get("e") is None:
            return [("ret", st, VOID)]
        return [("ret", s, v) for s, v in self.ev(n["e"], st)]

    def s_break(self, n, st):
        return [("brk", st, VOID)]

    def s_cont(self, n, st):
        return [("cont", st, VOID)]

    def s_label(self, n, st):
        return self.exec(n["s"], st)

    def s_goto(self, n, st):
        raise Undecided("goto")

    def s_unk(self, n, st):
        raise Undecided("statement %s" % n.get("sc"))

    def s_case(self, n, st):
        return self.exec(n["s"], st)

    s_default = s_case

    def s_switch(self, n, st):
        lvl = st.level
        st.level += 1
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st) if k == "n"]
        if n.get("var"):
            sts = [y for x in sts for y in self.declare(n["var"], x)]
        body = n["body"]["a"] if n["body"]["k"] == "block" else [n["body"]]
        # flatten labels
        items = []  # (labels, stmt)
        for x in body:
            labels = []
            while isinstance(x, dict) and x["k"] in ("case", "default"):
                labels.append(("d",) if x["k"] == "default" else ("c", x["v"], x.get("v2")))
                x = x["s"]
            items.append((labels, x))
        out = []
        for s0 in sts:
            for s, v in self.rv(n["q"], s0):
                x = self.toint(v)
                if x is None:
                    raise Undecided("switch value")
                rest = [s]
                entries = []
                dflt = None
                for i, (labels, _) in enumerate(items):
                    for L in labels:
                        if L[0] == "d":
                            dflt = i
                            continue
                        lo = num(int(L[1]["v"]))
                        c = eq0(sub(x, lo))
                        if L[2] is not None:
                            c = mk_and(ge0(sub(x, lo)), ge0(sub(num(int(L[2]["v"])), x)))
                        nr = []
                        for r in rest:
                            a, b = self.split(r, c)
                            entries += [(i, y) for y in a]
                            nr += b
                        rest = nr
                for r in rest:
                    if dflt is not None:
                        entries.append((dflt, r))
                    else:
                        out.append(("n", r, VOID))
                for i, y in entries:
                    for k, s2, v2 in self.exec_seq([it[1] for it in items[i:]], y):
                        out.append(("n" if k == "brk" else k, s2, v2))
        return self.unwind_all(out, lvl, n)

    def s_try(self, n, st):
        lvl = st.level
        env, this, depth = dict(st.env), st.this, st.depth
        th, self.throws = self.throws, []
        try:
            out = self.exec(n["body"], st)
            mine = self.throws
        finally:
            self.throws = th
        for s, e in [(y, e) for x, e in mine for y in self.unwind(x, lvl, n)]:
            s.level = lvl
            env2 = dict(env)
            s.env, s.this, s.depth = env2, this, depth
            handled = False
            for h in n["h"]:
                t = h["t"]
                if t == "..." or t in e.a[1] or t == e.a[0]:
                    handled = True
                elif "?any" in e.a[1]:
                    s_un = s.copy()
                    # may or may not match
                    self.run_handler(h, s, e, out)
                    s = s_un
                    continue
                if handled:
                    self.run_handler(h, s, e, out)
                    break
            if not handled:
                self.throws.append((s, e))
        return out

    def run_handler(self, h, s, e, out):
        self.ev_(s, "catch", h, e)
        saved = s.env.get("#exc")
        s.env["#exc"] = e
        if h.get("var"):
            root = "v%d@%d" % (h["var"]["id"], s.depth)
            self.rootty[root] = h["var"]["c"]
            s.store[root] = e
            s.env[h["var"]["id"]] = addr(root)
        for k, s2, v in self.exec(h["body"], s):
            s2.env.pop("#exc", None)
            if saved is not None:
                s2.env["#exc"] = saved
            out.append((k, s2, v))

    # ------------------------------------------------------------ loops
    def s_for(self, n, st):
        lvl = st.level
        st.level += 1
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.exec(n["init"], st) if k == "n"]
        out = []
        for s in sts:
            out += self.loop(n, s, n.get("q"), n["body"], n.get("inc"), False)
        return self.unwind_all(out, lvl, n)

    def s_while(self, n, st):
        if n.get("var"):
            raise Undecided("while with declaration")
        return self.loop(n, st, n["q"], n["body"], None, False)

    def s_do(self, n, st):
        return self.loop(n, st, n["q"], n["body"], None, True)

    def s_range(self, n, st):
        lvl = st.level
        st.level += 1
        out = []
        for s, c in self.ev(n["r"], st):
            if c.op == "iter":
                raise Undecided("range over iterator")
            if c.op != "addr":
                if c.op == "strlit":
                    c = self.temp(s, lit(c.a[0]), n)
                else:
                    c = self.temp(s, c, n["r"], n["rc"])
            out += self.range_loop(n, s, c)
        return self.unwind_all(out, lvl, n)

    def range_loop(self, n, st, c):
        v = self.load(st, c, n)
        if v.op == "map":
            return self.map_loop(n, st, c, v)
        if v.op == "rec" and v.a[0] == "tokens":
            return self.token_loop(n, st, c, v)
        if v.op not in ("cat", "seq"):
            self.unk(st, "range over unknown container", n)
            v = seq(mk("vsym", self.fresh("unk"), n["var"]["c"]))
            c = self.temp(st, v, n, n["rc"])
        sb = tname(strip_cv(n["rc"])) in STRING and "unsigned char" in n["rc"]
        # concrete element count: unroll
        ln = slen(v) if v.op == "cat" else sqlen(v)
        k = cval(ln)
        if k is None:
            k = self.const_of(st, ln)
        idroot = "i%d@%d" % (n["_"], st.depth)
        self.rootty[idroot] = "unsigned long"
        st.store[idroot] = ZERO
        snapshot = v

        def cond(s):
            i = s.store[idroot]
            cur = self.load(s, c, n)
            if cur is not snapshot and not self.loop_alias_ok(cur, snapshot):
                # container modified while it is iterated over
                e = self.ev_(s, "iter-invalid", n, c)
                self.oblige(s, "iter", FALSE, n, "container modified during range iteration", assume=False)
            return self.split(s, ge0(addc(sub(ln, i), -1)))

        def body(s):
            i = s.store[idroot]
            a = sub_addr(c, ("ix", i, not sb))
            outs = []
            for s2 in self.bind_var(n["var"], a, s, n):
                outs += self.exec(n["body"], s2)
            return outs

        def inc(s):
            s.store[idroot] = addc(s.store[idroot], 1)
            return [s]
        return self.loop_core(n, st, cond, body, inc, False)

    def loop_alias_ok(self, cur, snap):
        return False

    def bind_var(self, var, a, st, n):
        """loop variable initialised from the element at address a"""
        if var.get("ref"):
            st.env[var["id"]] = a
            return [st]
        root = "v%d@%d" % (var["id"], st.depth)
        self.rootty[root] = strip_cv(var["t"])
        x = self.load(st, a, n)
        if a.op == "mentry" or x.op == "mentryv":
            x = x
        st.store[root] = x
        st.env[var["id"]] = addr(root)
        return [st]

    def map_loop(self, n, st, c, v):
        """iteration over a map: one abstract entry, zero or more times"""
        key = self.fresh("mk")
        base = v.a[0]
        if base.op == "mempty" and not v.a[1]:
            return [("n", st, VOID)]
        kt, vt = (base.a[1], base.a[2]) if base.op == "msym" else ("?", "?")
        keys = self.models.map_keys(self, st, v)
        if keys is not None:
            if not keys:
                return [("n", st, VOID)]
            return self.known_map_loop(n, st, c, keys)

        def cond(s):
            return [s], [s.copy()]

        def body(s):
            kk = self.symval(kt, mk("nm", self.fresh("key")))
            self.ev_(s, "mapiter", n, c, kk)
            outs = []
            for s2 in self.bind_var(n["var"], mk("mentry", c, kk), s, n):
                outs += self.exec(n["body"], s2)
            return outs

        def inc(s):
            cur = self.load(s, c, n)
            return [s]
        return self.loop_core(n, st, cond, body, inc, False, exact=False)

    def known_map_loop(self, n, st, c, keys):
        out = []
        todo = [(st, mk("mkey", keys[0]))]
        while todo:
            s, pos = todo.pop(0)
            if pos.op == "mend":
                out.append(("n", s, VOID))
                continue
            k = pos.a[0]
            for s2 in self.bind_var(n["var"], mk("mentry", c, k), s, n):
                for kind, s3, v in self.exec(n["body"], s2):
                    if kind in ("n", "cont"):
                        nx = self.models.map_after(self, s3, c, self.load(s3, c, n), k, n)
                        if nx is None:
                            self.unk(s3, "position after the current one in a map", n)
                            out.append(("n", s3, VOID))
                        else:
                            todo.append((s3, nx.a[1]))
                    elif kind == "brk":
                        out.append(("n", s3, VOID))
                    else:
                        out.append((kind, s3, v))
            if len(todo) + len(out) > 200:
                raise Undecided("too many paths through a map loop")
        return out

    def token_loop(self, n, st, c, v):
        toks = self.models.tokens_of(self, st, v)
        if toks is not None:
            out = []
            sts = [st]
            for tok in toks:
                nxt = []
                for s in sts:
                    # empty tokens are left out
                    a, b = self.split(s, ge0(addc(slen(tok), -1)))
                    nxt += b
                    for x in a:
                        t = self.temp(x, tok, n, "std::basic_string<char>")
                        for s2 in self.bind_var(n["var"], t, x, n):
                            for kind, s3, w in self.exec(n["body"], s2):
                                if kind in ("n", "cont"):
                                    nxt.append(s3)
                                else:
                                    out.append(("n" if kind == "brk" else kind, s3, w))
                sts = nxt
                if len(sts) + len(out) > 500:
                    raise Undecided("too many paths through the tokens of a text")
            return out + [("n", s, VOID) for s in sts]

        def cond(s):
            return [s], [s.copy()]

        def body(s):
            tok = ssym(mk("nm", self.fresh("tok")))
            a = self.temp(s, tok, n, "std::basic_string<char>")
            self.ev_(s, "token", n, tok)
            s.facts = s.facts | {ge0(addc(slen(tok), -1))}
            outs = []
            for s2 in self.bind_var(n["var"], a, s, n):
                outs += self.exec(n["body"], s2)
            return outs

        return self.loop_core(n, st, cond, body, lambda s: [s], False, exact=False)

    def loop(self, n, st, q, body, inc, dowhile):
        def fc(s):
            if q is None:
                return [s], []
            a, b = [], []
            for s2, t in self.cond(q, s):
                (a if t else b).append(s2)
            return a, b

        def fb(s):
            return self.exec(body, s)

        def fi(s):
            if inc is None:
                return [s]
            return [s2 for s2, _ in self.ev(inc, s)]
        return self.loop_core(n, st, fc, fb, fi, dowhile)

    def loop_core(self, n, st, cond, body, inc, dowhile, exact=True):
        # 1. bounded unrolling while the condition is decided on a single path
        r = self.try_unroll(n, st.copy(), cond, body, inc, dowhile) if exact else None
        if r is not None:
            return r
        if self.BOUNDED:
            return self.peel(n, st, cond, body, inc, dowhile, exact)
        return self.summarise(n, st, cond, body, inc, dowhile)

    def peel(self, n, st, cond, body, inc, dowhile, exact):
        """the first iterations, each exactly; what takes more is left out"""
        cur, done, first = [st], [], True
        if not exact:
            self.unk(st, "iteration over unknown entries", n)
        for it in range(self.BOUNDED):
            nxt = []
            for s in cur:
                ts, fs = ([s], []) if dowhile and first else cond(s)
                done += [("n", x, VOID) for x in fs]
                for t in ts:
                    for k, s2, v in body(t):
                        if k in ("n", "cont"):
                            nxt += inc(s2)
                        else:
                            done.append(("n" if k == "brk" else k, s2, v))
            first = False
            cur = self.dedupe_s(nxt)[:60]
            if not cur or len(done) > 120:
                return done
        for s in cur:
            done += [("n", x, VOID) for x in cond(s)[1]]
        return done

    def try_unroll(self, n, st, cond, body, inc, dowhile):
        saved = (list(self.throws), {k: dict(v, bad=list(v["bad"])) for k, v in self.obls.items()}, self.nstmts)
        cur = [st]
        done = []
        first = True
        und = set(self.undecided)
        wide = self.race or self.sched.AT in st.store

        def rollback():
            self.throws[:] = saved[0]
            self.obls.clear()
            self.obls.update(saved[1])
            self.undecided = und
        for it in range(self.UNROLL):
            nxt = []
            for s in cur:
                if dowhile and first:
                    ts, fs = [s], []
                else:
                    ts, fs = cond(s)
                    if ts and fs:
                        rollback()
                        return None
                done += [("n", x, VOID) for x in fs]
                for t in ts:
                    for k, s2, v in body(t):
                        if k in ("n", "cont"):
                            nxt += inc(s2)
                        elif k == "brk":
                            done.append(("n", s2, VOID))
                        else:
                            done.append((k, s2, v))
            first = False
            cur = self.dedupe_s(nxt)
            if len(cur) > (300 if wide else 24):
                rollback()
                return None
            if not cur:
                return done
        rollback()
        return None

    def havoc_value(self, v, st, a, name):
        t = self.typeof(a, st)
        if isint(v):
            w, s = INTT.get(t or "", (64, False))
            return atom(isym(name, w, s))
        if v.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp"):
            return mk("batom", name)
        if v.op == "cat":
            return ssym(name)
        if v.op == "seq":
            et = None
            if t:
                ta = targs(t)
                et = ta[0] if ta else None
            if et is None:
                for p in v.a[0]:
                    if p.op == "vsym":
                        et = p.a[1]
            return seq(mk("vsym", name, et or "?"))
        if v.op == "map":
            return mk("map", v.a[0], v.a[1] + (("havoc", targs(t)[1] if t and len(targs(t)) > 1 else "?", name),)) if False else mk("map", mk("msym", name, (targs(t) + ["?", "?"])[0] if t else "?", (targs(t) + ["?", "?"])[1] if t else "?"), ())
        if v.op == "bptr":
            off = atom(isym(mk("nm", name), 64, False))
            return mk("bptr", v.a[0], off)
        if v.op == "iter" and isint(v.a[1]):
            return mk("iter", v.a[0], atom(isym(mk("nm", name), 64, False)), *v.a[2:])
        if v.op == "uninit":
            return v
        if v.op in ("any", "any0", "anysym"):
            return mk("anysym", name)
        if v.op in ("fsym", "fnull", "lam", "bind"):
            return mk("fsym", name)
        if v.op == "rec":
            return mk("rec", v.a[0], mk("nm", name), ())
        if v.op in ("dsym", "dconst", "dapp", "dblmem"):
            return mk("dsym", name)
        if t:
            return self.symval(t, name)
        return mk("opq", mk("nm", name), "?")

    def diff(self, a, b, path, out, top=True):
        """paths at which two values differ"""
        if a is b:
            return
        if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0] and a.a[1] is b.a[1]:
            da, db = dict(a.a[2]), dict(b.a[2])
            for f in set(da) | set(db):
                x = da.get(f)
                y = db.get(f)
                if x is None:
                    x = self.field(a, f)
                if y is None:
                    y = self.field(b, f)
                self.diff(x, y, path + (("f", f),), out, False)
            return
        out.add(path)

    def summarise(self, n, st, cond, body, inc, dowhile):
        """the loop by invariants; what its exact first iteration cannot discharge is kept, because it can be refuted"""
        first = []
        r = self.summarise_(n, st, cond, body, inc, dowhile, first)
        for k, bad in first:
            o = self.obls.setdefault(k, {"n": 0, "ok": 0, "bad": []})
            o["n"] += len(bad)
            o["bad"] += bad
        return r

    def summarise_(self, n, st, cond, body, inc, dowhile, first):
        tag = self.fresh("L%d" % n.get("_", 0))
        live = [r for r in st.store]
        mods = {}  # addr -> sym value
        init = {}
        und = set(self.undecided)
        obl0 = {k: dict(v, bad=list(v["bad"])) for k, v in self.obls.items()}
        thr0 = list(self.throws)

        def head(facts):
            h = st.copy()
            for a, v in mods.items():
                self.store_(h, a, v)
            h.facts = h.facts | facts
            return h

        def run(h):
            """one iteration: (ends, exits, others, throws)"""
            saved, self.throws = self.throws, []
            ends, exits, others = [], [], []
            try:
                if dowhile:
                    ts, fs = [h], []
                else:
                    ts, fs = cond(h)
                exits += fs
                for t in ts:
                    for k, s2, v in body(t):
                        if k in ("n", "cont"):
                            for s3 in inc(s2):
                                if dowhile:
                                    a, b = cond(s3)
                                    ends += a
                                    exits += b
                                else:
                                    ends.append(s3)
                        elif k == "brk":
                            others.append(("n", s2, VOID))
                        else:
                            others.append((k, s2, v))
                th = self.throws
            finally:
                self.throws = saved
            return ts, ends, exits, others, th

        basetrace = st.trace
        for rnd in range(12):
            h = head(frozenset())
            h0 = h.copy()
            ts, ends, exits, others, th = run(h)
            if rnd == 0:
                for k, v in self.obls.items():
                    b = v["bad"][len(obl0[k]["bad"]) if k in obl0 else 0:]
                    if b:
                        first.append((k, b))
            new = set()
            for e in ends:
                for r in live:
                    if r in e.store and e.store[r] is not h0.store.get(r):
                        b = h0.store.get(r)
                        if b is None:
                            continue
                        if isinstance(r, str) and "@" in r and (r[0] in "tc" or r[0] in "pk" and int(r.rsplit("@", 1)[1].split(".")[0]) > st.depth):
                            # temporaries, and what calls that have returned left behind
                            continue
                        o = set()
                        self.diff(b, e.store[r], (), o)
                        for p in o:
                            new.add((r, p))
            add_any = False
            for r, p in sorted(new, key=str):
                a = mk("addr", r, p)
                if a in mods:
                    continue
                add_any = True
                # a deeper modified path inside an already havoc'd one is covered
                cur = self.load(st, a)
                init[a] = cur
                mods[a] = self.havoc_value(cur, st, a, mk("nm", "%s.%s" % (tag, "".join(str(x[1]) for x in p) or str(r))))
            if not add_any:
                break
            self.obls.clear()
            self.obls.update({k: dict(v, bad=list(v["bad"])) for k, v in obl0.items()})
            self.throws[:] = thr0
        else:
            raise Undecided("loop does not stabilise")

        # ---- invariants
        def ints(state, which):
            """integer measures of modified locations"""
            out = {}
            for a in mods:
                v = which(a, state)
                if isint(v):
                    out[a] = v
                elif v.op == "cat":
                    out[(a, "len")] = slen(v)
                elif v.op == "seq":
                    out[(a, "len")] = sqlen(v)
                elif v.op == "bptr":
                    out[(a, "off")] = v.a[1]
                elif v.op == "iter" and isint(v.a[1]):
                    out[(a, "pos")] = v.a[1]
            return out
        hv = ints(None, lambda a, s: mods[a])
        iv = ints(None, lambda a, s: init[a])
        keys = [k for k in hv if k in iv]
        evs = [ints(e, lambda a, s: self.load(s, a)) for e in ends]
        delta = {}
        for k in keys:
            ds = {sub(e[k], hv[k]) if k in e else None for e in evs}
            if len(ds) == 1:
                d = ds.pop()
                delta[k] = d
        cands = []
        for k in keys:
            cands.append(ge0(sub(hv[k], iv[k])))
            cands.append(ge0(sub(iv[k], hv[k])))
        nk = [k for k in keys]
        for i, k in enumerate(nk):
            for j in nk[i + 1:]:
                dk, dj = delta.get(k), delta.get(j)
                if dk is not None and dj is not None and dk is dj:
                    x = sub(sub(hv[k], iv[k]), sub(hv[j], iv[j]))
                    cands += [ge0(x), ge0(mulc(x, -1))]
                elif dk is not None and dj is not None and dk is mulc(dj, -1):
                    x = add(sub(hv[k], iv[k]), sub(hv[j], iv[j]))
                    cands += [ge0(x), ge0(mulc(x, -1))]
                elif dk is not None and dj is not None and cval(dk) and cval(dj):
                    x = sub(mulc(sub(hv[k], iv[k]), cval(dj)), mulc(sub(hv[j], iv[j]), cval(dk)))
                    cands += [ge0(x), ge0(mulc(x, -1))]
                else:
                    x = sub(sub(hv[k], iv[k]), sub(hv[j], iv[j]))
                    y = add(sub(hv[k], iv[k]), sub(hv[j], iv[j]))
                    cands += [ge0(x), ge0(mulc(x, -1)), ge0(y), ge0(mulc(y, -1))]
        # guard facts learnt when the condition holds, weakened by one step
        hfacts = head(frozenset()).facts
        guards = set()
        for t in ts:
            for f in t.facts - hfacts:
                if f.op == "ge":
                    guards.add(f.a[0])
                elif f.op == "eq" or f.op == "not" and f.a[0].op == "eq":
                    x = f.a[0] if f.op == "eq" else f.a[0].a[0]
                    guards.add(x)
                    guards.add(mulc(x, -1))
        if dowhile:
            # what the condition at the end says about the next value, weakened
            for e, ev_ in zip(ends, evs):
                for f in e.facts - hfacts:
                    if f.op != "ge":
                        continue
                    x = f.a[0]
                    co = dict(x.a[1])
                    for k in keys:
                        y = ev_.get(k)
                        if y is None or not y.a[1]:
                            continue
                        a0, c0 = y.a[1][-1]
                        if a0 in co and co[a0] % c0 == 0:
                            g = add(sub(x, mulc(y, co[a0] // c0)), mulc(hv[k], co[a0] // c0))
                            for w in (0, 1, 2, 3):
                                cands.append(ge0(addc(g, w)))
        # outer facts mentioning the initial values
        for k in keys:
            for f in st.facts:
                if f.op == "ge" and not cval(iv[k]) and iv[k].a[1] and iv[k].a[1][0][0] in dict(f.a[0].a[1]):
                    # replace the initial value by the current one
                    at = iv[k].a[1][0][0]
                    co = dict(f.a[0].a[1])[at]
                    if iv[k].a[1][0][1] == 1 and len(iv[k].a[1]) == 1:
                        cands.append(ge0(add(f.a[0], mulc(sub(hv[k], iv[k]), co))))
        smalls = sorted({abs(cval(d)) for d in delta.values() if d is not None and cval(d)} | {0, 1})
        for g in guards:
            for c in smalls:
                cands.append(ge0(addc(g, c)))
            for d in delta.values():
                if d is not None and cval(d) is None:
                    cands.append(ge0(add(g, d)))
                    cands.append(ge0(sub(g, d)))
        cands = [c for c in dict.fromkeys(cands) if c not in (TRUE, FALSE)]
        subst_init = {}
        for a in mods:
            m = mods[a]
            i = init[a]
            for x, y in zip(self.havoc_atoms(m), self.havoc_atoms_of(i)):
                if x is not None and y is not None:
                    subst_init[x] = y

        def at_init(c):
            return self.decide(st, subst(c, subst_init))
        inv = [c for c in cands if at_init(c) is True]
        for rnd in range(12):
            self.obls.clear()
            self.obls.update({k: dict(v, bad=list(v["bad"])) for k, v in obl0.items()})
            self.throws[:] = thr0
            self.undecided = set(und)
            h = head(frozenset(inv))
            ts, ends, exits, others, th = run(h)
            keep = []
            for c in inv:
                ok = True
                for e in ends:
                    m = {}
                    for a in mods:
                        for x, y in zip(self.havoc_atoms(mods[a]), self.havoc_atoms_of(self.load(e, a))):
                            if x is not None and y is not None:
                                m[x] = y
                    if self.decide(e, subst(c, m)) is not True:
                        ok = False
                        break
                if ok:
                    keep.append(c)
            if len(keep) == len(inv):
                break
            inv = keep
        if ends and not exits and not others and not th:
            # nothing leaves the loop, whatever the values it modifies
            self.oblige(st, "term", FALSE, n, "a loop nothing ends")
        # non-integer values that keep their initial value would not be in mods
        # ---- accumulators
        alts = []
        for e in ends:
            evl = []
            t = e.trace
            while t is not basetrace and t is not None:
                evl.append(t.a[1])
                t = t.a[0]
            evl.reverse()
            alts.append(tuple(evl))
        lev = mk("ev", "loop", self.loc(n), self.where(), st.held, tuple(dict.fromkeys(alts)))
        info = {"loc": self.loc(n), "fn": self.where(), "mods": {a: (init[a], mods[a], [self.load(e, a) for e in ends]) for a in mods},
                "delta": {k: [sub(x[k], hv[k]) if k in x else None for x in [ints(e, lambda a, s: self.load(s, a)) for e in ends]] for k in keys},
                "ends": ends, "guards": guards, "ts": ts, "inv": inv, "node": n, "hv": hv, "iv": iv, "st": st, "stack": [f["n"] for f in self.stack], "und": set(self.undecided) - und}
        self.loopinfo.append(info)
        closed = self.closed_forms(n, st, mods, init, ends, hv, iv)

        out = []

        def finish(s, kind, v, use_closed):
            # rebuild the trace: base + loop event + tail
            tail = []
            t = s.trace
            while t is not basetrace and t is not None:
                tail.append(t.a[1])
                t = t.a[0]
            tr = basetrace
            if any(alts):
                tr = mk("tr", tr, lev)
            for e in reversed(tail):
                tr = mk("tr", tr, e)
            s.trace = tr
            if use_closed and closed is not None:
                cnt_key, i0, m = closed
                cnt = self.count_at_exit(s, hv[cnt_key])
                if cnt is not None:
                    m2 = {}
                    cc = sub(cnt, i0)
                    for x, y in m.items():
                        m2[x] = subst(y, {mk("cnt"): cc}) if isinstance(y, T) else y
                    self.substate(s, m2)
            out.append((kind, s, v))
        for s in exits:
            finish(s, "n", VOID, True)
        for k, s, v in others:
            finish(s, k, v, False)
        for s, e in th:
            tail = []
            t = s.trace
            while t is not basetrace and t is not None:
                tail.append(t.a[1])
                t = t.a[0]
            tr = basetrace
            if any(alts):
                tr = mk("tr", tr, lev)
            for e2 in reversed(tail):
                tr = mk("tr", tr, e2)
            s.trace = tr
            self.throws.append((s, e))
        # the zero-iteration exit is represented by the havoc'd head too
        return out

    def havoc_atoms(self, v):
        """atoms that stand for a havoc'd value"""
        if isint(v):
            return [v.a[1][0][0]]
        if v.op == "cat":
            return [v.a[0][0]]
        if v.op == "seq":
            return [v.a[0][0]]
        if v.op in ("bptr", "iter") and isint(v.a[1]) and v.a[1].a[1]:
            return [v.a[1].a[1][0][0]]
        if v.op == "batom":
            return [v]
        return [None]

    def havoc_atoms_of(self, v):
        """values corresponding to havoc_atoms"""
        if isint(v) or v.op in ("cat", "seq"):
            return [v]
        if v.op in ("bptr", "iter"):
            return [v.a[1]]
        if v.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp"):
            return [v]
        return [None]

    def count_at_exit(self, s, h):
        """value of the counter when the loop is left, if the facts determine it"""
        for f in s.facts:
            if f.op == "ge" or f.op == "eq":
                x = f.a[0]
                d = dict(x.a[1])
                a = h.a[1][0][0]
                if d.get(a) in (1, -1):
                    val = mulc(sub(x, mulc(h, d[a])), -d[a])
                    if a in self.atoms(val):
                        continue
                    if self.decide(s, eq0(sub(h, val))) is True:
                        return val
        return None

    def closed_forms(self, n, st, mods, init, ends, hv, iv):
        """(counter, start, {havoc atom -> closed form in cnt}) for accumulators"""
        if not ends:
            return None
        cnt = None
        for a in mods:
            if a in hv and all(cval(sub(self.load(e, a), mods[a])) == 1 if isint(self.load(e, a)) else False for e in ends):
                cnt = a
                if cval(init[a]) == 0:
                    break
        if cnt is None:
            # iterators
            for a in mods:
                if mods[a].op == "iter" and isint(mods[a].a[1]) and all(self.load(e, a).op == "iter" and isint(self.load(e, a).a[1]) and cval(sub(self.load(e, a).a[1], mods[a].a[1])) == 1 for e in ends):
                    cnt = (a, "pos")
                    break
        if cnt is None:
            return None
        base = hv[cnt]
        i0 = iv[cnt]
        IX = mk("isym", "IX", 0, 1 << 62)
        cntatom = base.a[1][0][0]
        m0 = {cntatom: add(atom(IX), i0)}
        res = {}
        C = atom(mk("isym", "CNTDUMMY", 0, 1 << 62))
        for a in mods:
            if a == cnt or (isinstance(cnt, tuple) and cnt[0] == a):
                continue
            m = mods[a]
            if m.op in ("cat", "seq"):
                p = m.a[0][0]
                forms = []
                for e in ends:
                    v = self.load(e, a)
                    if v.op != m.op or not v.a[0] or v.a[0][0] is not p:
                        forms = None
                        break
                    rest = mk(v.op, v.a[0][1:])
                    pcs = tuple(sorted((c for c in e.pc[len(st.pc):] if c.op not in ("ge",)), key=lambda q: q.id)) if len(ends) > 1 else ()
                    rest = subst(rest, dict(m0, **{}))
                    pcs = tuple(subst(c, m0) for c in pcs)
                    rest = subst(rest, {p: spiece(mk("ssym", "ACC")) if m.op == "cat" else seq(mk("vsym", "ACC", "?"))})
                    forms.append((pcs, rest))
                if forms:
                    if len({f for _, f in forms}) == 1:
                        forms = [((), forms[0][1])]
                    fold = mk("fold" if m.op == "cat" else "vfold", mk("cnt"), tuple(sorted(forms, key=lambda q: str(q))))
                    res[p] = cat(init[a], spiece(fold)) if m.op == "cat" else mk("seq", init[a].a[0] + (fold,))
            elif isint(m):
                ds = {sub(self.load(e, a), m) if isint(self.load(e, a)) else None for e in ends}
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None and cval(d) is not None:
                        # linear in the counter (resolved through invariants); nothing to do
                        pass
        return cnt, i0, res


def int_of(s, w, signed):
    """integer held by the w bytes of string value s"""
    if len(s.a[0]) == 1:
        p = s.a[0][0]
        if isinstance(p, bytes):
            return num(int.from_bytes(p, "little", signed=signed))
        if p.op == "le" and p.a[1] == w:
            return truncbits(p.a[0], 8 * w, signed)
        if p.op == "chr" and w == 1:
            return truncbits(p.a[0], 8, signed)
        if p.op == "subs" and w == 1:
            return char_at(s, ZERO, signed)
        if p.op == "mem":
            return load_mem(p.a[0], p.a[1], w, signed)
        if p.op == "rmem":
            x = tm.bswap(load_mem(p.a[0], p.a[1], w, False), w)
            return truncbits(x, 8 * w, signed)
    return atom(mk("app", "bytes2int", (s,), -(1 << (8 * w - 1)) if signed else 0, (1 << (8 * w - (1 if signed else 0))) - 1))


def dbl_of(s):
    if len(s.a[0]) == 1 and isinstance(s.a[0][0], T):
        p = s.a[0][0]
        if p.op == "dbytes":
            return p.a[0]
        if p.op == "mem":
            return mk("dblmem", p.a[0], p.a[1], "host")
        if p.op == "rmem":
            return mk("dblmem", p.a[0], p.a[1], "swapped")
    return mk("dapp", "ofbytes", s)
