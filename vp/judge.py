"""Comparing what the code computes with what the property demands."""
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from .terms import *
from . import ground
from .client import client
from .interp import Undecided
from .load import Broken


class Out:
    """expected outcome of one case"""

    def __init__(self, cond, kind, val=None, ev=None):
        self.cond, self.kind, self.val, self.ev = cond, kind, val, ev


def ret(v, cond=TRUE):
    return Out(cond, "ret", v)


def throws(cond=TRUE):
    return Out(cond, "throw")


def anything(cond=TRUE):
    return Out(cond, "any")


class Alternatives:
    """any of several expected values"""

    def __init__(self, vals):
        self.vals = vals


def alternatives(vals):
    return Alternatives(vals)


class Crash(Exception):
    pass


def enough(path):
    """several violations are known, or one for a while"""
    return os.path.exists(path) and (os.path.getsize(path) >= 12 or time.time() - os.stat(path).st_mtime > 20)


class TimeUp(BaseException):
    """not an Exception: nothing inside the analysis may take it for its own"""


def too_long(*a):
    raise TimeUp


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.fns = set()
        self.paths = 0
        self.t0 = time.time()
        self.notes = []
        self.data = []  # what the instances hand to the rule's finish()
        self.known = ()  # recorded findings
        self.suspect = False  # a loop's summary does not exclude a violation
        self.jobs = None  # deferred work, when it is to be spread over processes

    def add(self, rule, inst, status, what="", where="", key=None):
        self.items.append({"rule": rule, "instance": inst, "status": status, "what": what, "where": where, "key": key or "%s/%s" % (rule, inst)})

    def defer(self, f):
        """f(report) now, or later in one of several processes"""
        if self.jobs is None:
            f(self)
        else:
            self.jobs.append(f)

    def run_jobs(self, limit=90, total=600, n=None):
        """the deferred work, over all cores; what exceeds its time is undecided"""
        jobs, self.jobs = self.jobs or [], None
        n = n or min(os.cpu_count() or 1, 8)
        d = tempfile.mkdtemp(prefix="vpjobs")
        pids = []
        end = self.t0 + total
        sys.stdout.flush()
        sys.stderr.flush()
        try:
            for w in range(n):
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        out = []
                        found = 0
                        signal.signal(signal.SIGALRM, too_long)
                        for i in range(w, len(jobs), n):
                            r = Report(self.pid)
                            t = time.time()
                            if enough(d + "/found"):
                                out.append((i, [], set(), 0, ["not examined further after the violations found"], []))
                                break
                            try:
                                left = min(limit, end - t)
                                if left < 1:
                                    raise Undecided("time budget of the check used up")
                                signal.setitimer(signal.ITIMER_REAL, left)
                                jobs[i](r)
                                signal.setitimer(signal.ITIMER_REAL, 0)
                            except TimeUp:
                                r.add("time", "job %d" % i, "undecided", "time limit of one instance")
                            except Undecided as e:
                                signal.setitimer(signal.ITIMER_REAL, 0)
                                r.add("time", "job %d" % i, "undecided", str(e))
                            except RecursionError:
                                signal.setitimer(signal.ITIMER_REAL, 0)
                                r.add("depth", "job %d" % i, "undecided", "recursion limit of the analyser")
                            except Exception as e:
                                # a construct the analyser does not cope with decides nothing
                                signal.setitimer(signal.ITIMER_REAL, 0)
                                tb = traceback.extract_tb(e.__traceback__)[-1]
                                r.add("internal", "job %d" % i, "undecided", "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                            out.append((i, r.items, r.fns, r.paths, r.notes, r.data))
                            found += sum(1 for x in r.items if x["status"] == "violated" and x["key"] not in self.known)
                            if found:
                                with open(d + "/found", "a") as f:
                                    f.write("x" * found)
                                found = 0
                        with open("%s/%d" % (d, w), "wb") as f:
                            pickle.dump(out, f)
                        code = 0
                    except BaseException:
                        with open("%s/%d.err" % (d, w), "w") as f:
                            traceback.print_exc(file=f)
                    finally:
                        os._exit(code)
                pids.append(pid)
            bad = []
            for w, pid in enumerate(pids):
                _, st = os.waitpid(pid, 0)
                if st:
                    e = "%s/%d.err" % (d, w)
                    bad.append(open(e).read() if os.path.exists(e) else "worker ended with status %d" % st)
            if bad:
                raise Crash(bad[0])
            res = []
            for w in range(n):
                res += pickle.load(open("%s/%d" % (d, w), "rb"))
            for i, items, fns, paths, notes, data in sorted(res, key=lambda x: x[0]):
                self.items += items
                self.fns |= fns
                self.paths += paths
                self.notes += notes
                self.data += data
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def ok(self, rule, inst):
        self.add(rule, inst, "proved")

    def count(self, s):
        return sum(1 for i in self.items if i["status"] == s)


def same(a, b):
    return a is b


def visited(R, ip):
    R.paths += 1
    for f in ip.visited:
        R.fns.add(f)


def norm(r, v):
    """value of a result: references are read"""
    if isinstance(v, T) and v.op == "addr":
        return r.ip.load(r.st, v)
    return v


def show_val(v, limit=80):
    if isinstance(v, bytes):
        s = v.hex(" ") if any(c < 32 or c > 126 for c in v) else repr(v)[1:]
        return s if len(s) <= limit else s[:limit] + "…(%d bytes)" % len(v)
    s = repr(v)
    return s if len(s) <= limit else s[:limit] + "…"


def contrast(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        return "the code gives %d bytes, the property demands %d; from byte %d on: %s instead of %s" % (len(a), len(b), i, show_val(a[i:i + 24]) or "end", show_val(b[i:i + 24]) or "end")
    return "the code gives %s, the property demands %s" % (show_val(a), show_val(b))


def describe(val):
    out = []
    for t, v in val.env.items():
        if isinstance(t, tuple):
            out.append("memory %s = %s" % (show(t[1]), {k: x for k, x in sorted(v.items())[:24]}))
        elif t.op in ("isym", "ssym", "batom", "dsym"):
            n = show(t)
            if not n.startswith("blkn"):
                if isinstance(t.a[0], T) and t.a[0].op == "blk":
                    out.append("%s: text of %d bytes" % (t.a[0].a[0], len(v)))
                else:
                    out.append("%s = %s" % (n, show_val(v)))
    return "; ".join(out[:12])


def exact(*terms):
    """whether the terms speak of nothing that stands for 'any value a loop may leave'"""
    seen, todo = set(), list(terms)
    while todo:
        t = todo.pop()
        if isinstance(t, (list, tuple, set, frozenset)):
            todo.extend(t)
        elif isinstance(t, T):
            subterms(t, seen)
    return not any(x.op == "nm" and isinstance(x.a[0], str) and HAVOC.match(x.a[0]) for x in seen)


HAVOC = re.compile(r"L\d+#")


def accuse(R, terms, *a, **k):
    """report a violation, when what shows it is exact; otherwise it is to be looked at again"""
    if exact(*terms):
        R.add(*a, **k)
        return True
    R.suspect = True
    return False


def judge_paths(R, rule, inst, results, cases, where, view=None, consts=()):
    """compare every path with every case; one verdict per (path, case)"""
    worst = "proved"
    for r in results:
        st = r.st
        v = norm(r, r.val) if r.kind == "ret" else r.val
        if r.kind == "ret" and view is not None:
            v = view(r, v)
        for c in cases:
            cond = c.cond(r) if callable(c.cond) else c.cond
            if cond is not TRUE:
                d = r.ip.decide(st, cond)
                if d is False:
                    continue
            if c.kind == "any":
                continue
            exp = c.val(r) if callable(c.val) else c.val
            if c.kind == r.kind == "throw":
                if st.taint:
                    worst = max_w(worst, "undecided")
                continue
            pc = list(st.pc) + list(st.facts) + ([cond] if cond is not TRUE else [])
            if c.kind == r.kind:
                alts = exp.vals if isinstance(exp, Alternatives) else [exp]
                exp = alts[0]
                if any(v is e for e in alts):
                    if st.taint:
                        worst = max_w(worst, "undecided")
                    continue
                if st.taint:
                    worst = max_w(worst, "undecided")
                    continue
                s2 = st.copy()
                sts = r.ip.assume(s2, cond)
                if not sts:
                    continue
                if all(any(decide_equal(r.ip, x, simp(r.ip, x, v), simp(r.ip, x, e)) for e in alts) for x in sts):
                    continue
                s, val = ground.separate(pc, lambda w: all(w.ev(v) != w.ev(e) for e in alts), consts=[v, exp])
                if s == "differ" and accuse(R, (pc, v, exp), rule, inst, "violated", "for %s: %s" % (describe(val), contrast(val.ev(v), val.ev(exp))), where):
                    return "violated"
                worst = max_w(worst, "undecided")
            else:
                if st.taint:
                    worst = max_w(worst, "undecided")
                    continue
                s2 = st.copy()
                if not r.ip.assume(s2, cond):
                    continue
                s, val = ground.separate(pc, lambda w: True)
                if s == "differ":
                    if r.kind == "throw":
                        m = "for %s: the code throws %s, the property demands %s" % (describe(val), show(r.val)[:80], show(exp)[:120])
                    else:
                        m = "for %s: the code returns %s, the property demands a rejection" % (describe(val), show(v)[:120])
                    if accuse(R, (pc,), rule, inst, "violated", m, where):
                        return "violated"
                worst = max_w(worst, "undecided")
    if not results:
        worst = "undecided"
    R.add(rule, inst, worst, "" if worst == "proved" else "not decided", where)
    return worst


def simp(ip, st, t):
    """t rewritten with what the path knows"""
    if not isinstance(t, T):
        return t
    m = {}
    for f in st.facts:
        if f.op == "eq":
            x = f.a[0]
            if len(x.a[1]) == 1 and x.a[1][0][0].op in ("isym", "ld", "bop", "mod", "wrap") and x.a[0] % x.a[1][0][1] == 0:
                m[x.a[1][0][0]] = num(-x.a[0] // x.a[1][0][1])
        elif f.op == "seq=":
            for p, q in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if p.op == "cat" and len(p.a[0]) == 1 and isinstance(p.a[0][0], T) and p.a[0][0].op == "ssym" and q.op == "cat" and strconst(q) is not None:
                    m[p.a[0][0]] = q
    for s in subterms(t):
        if s.op == "b2i":
            d = ip.decide(st, s.a[0])
            if d is not None:
                m[s] = ONE if d else ZERO
        elif s.op in ("batom", "bapp"):
            d = ip.decide(st, s)
            if d is not None:
                m[s] = TRUE if d else FALSE
    return subst(t, m) if m else t


def decide_equal(ip, st, a, b):
    if a is b:
        return True
    if not (isinstance(a, T) and isinstance(b, T)):
        return False
    if isint(a) and isint(b):
        return ip.decide(st, eq0(sub(a, b))) is True
    if a.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp") and b.op in ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp"):
        da, db = ip.decide(st, a), ip.decide(st, b)
        return da is not None and da == db
    if a.op == b.op == "cat":
        return ip.decide(st, ip.streq(a, b)) is True or octets_equal(ip, st, a, b)
    return False


def octets_equal(ip, st, a, b):
    """piece by piece: octets given by different terms of one value"""
    def units(v):
        for p in v.a[0]:
            if isinstance(p, bytes):
                for c in p:
                    yield num(c)
            elif p.op == "le":
                x = truncbits(p.a[0], 8 * p.a[1], False)
                for k in range(p.a[1]):
                    yield mod(div(x, 1 << 8 * k), 256)
            elif p.op == "chr":
                yield mod(truncbits(p.a[0], 8, False), 256)
            else:
                yield p
    xs, ys = list(units(a)), list(units(b))
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if not (isint(x) and isint(y)) or ip.decide(st, eq0(sub(x, y))) is not True:
            return False
    return True


RANK = {"proved": 0, "undecided": 1, "violated": 2}


def max_w(a, b):
    return a if RANK[a] >= RANK[b] else b


def run_client(R, P, rule, inst, name, args, cases, where, cuts=None, view=None, consts=(), **kw):
    R.defer(lambda r: run_client_now(r, P, rule, inst, name, args, cases, where, cuts, view, consts, **kw))


BOUND = 6


def closer(R, f):
    """f(report, bound): where summaries of loops leave a violation open, what their first iterations show is added"""
    R1 = Report(R.pid)
    r = f(R1, 0)
    if R1.suspect and not any(i["status"] == "violated" for i in R1.items):
        R2 = Report(R.pid)
        f(R2, BOUND)
        bad = [i for i in R2.items if i["status"] == "violated"]
        if bad:
            names = {i["key"] for i in bad}
            R1.items = [i for i in R1.items if i["key"] not in names] + bad
    R.items += R1.items
    R.paths += R1.paths
    R.fns |= R1.fns
    return r


def run_client_now(R, P, rule, inst, name, args, cases, where, cuts=None, view=None, consts=(), **kw):
    return closer(R, lambda r, b: run_client_once(r, P, rule, inst, name, args, cases, where, cuts, view, consts, BOUNDED=b, **kw))


def run_client_once(R, P, rule, inst, name, args, cases, where, cuts=None, view=None, consts=(), **kw):
    try:
        rs, ip = client(P, name, args, cuts, **kw)
    except Undecided as e:
        R.add(rule, inst, "undecided", "abstract interpretation gave up: %s" % e, where)
        undefined(R, rule, inst, getattr(e, "ip", None), where)
        return None
    R.paths += len(rs)
    R.fns |= set(ip.visited)
    undefined(R, rule, inst, ip, where)
    try:
        judge_paths(R, rule, inst, rs, cases, where, view, consts)
    except Undecided as e:
        R.add(rule, inst, "undecided", "%s" % e, where)
    return rs, ip


UB = ("mem", "null", "div0", "life", "term")


def undefined(R, rule, inst, ip, where):
    """accesses on the way that are certainly wrong: the behaviour is undefined, whatever the result"""
    if ip is None or all(o["ok"] == o["n"] for k, o in ip.obls.items() if k[0] in UB):
        return
    R2 = Report(R.pid)
    judge_obls(R2, rule, inst, ip, UB, where)
    R.suspect = R.suspect or R2.suspect
    R.items += [i for i in R2.items if i["status"] == "violated"]


def judge_obls(R, rule, inst, ip, kinds, where, floor=0):
    """one item per obligation site met while evaluating a client"""
    n = 0
    for (kind, loc, fn, what), o in sorted(ip.obls.items(), key=lambda x: str(x[0])):
        if kind not in kinds:
            continue
        n += 1
        site = "%s: %s in %s" % (inst, what, fn)
        if o["ok"] == o["n"]:
            R.ok(rule, site)
            continue
        worst = None
        for c, facts, taint, stack, pc in o["bad"]:
            if taint:
                continue
            s, val = ground.separate(list(pc) + list(facts) + [neg(c)], lambda w: not w.ev(c), consts=[c])
            if s == "differ" and not exact(pc, facts, c):
                R.suspect = True
            elif s == "differ":
                worst = (val, stack)
                break
        if worst:
            R.add(rule, site, "violated", "%s, for %s; call path %s" % (what, describe(worst[0]), " > ".join(x.replace("DBus::", "") for x in worst[1])), loc, key="%s/%s" % (rule, site))
        else:
            R.add(rule, site, "undecided", "not discharged at %s" % loc, loc)
    return n


def run_obls(R, P, rule, inst, name, args, kinds, where, cuts=None, **kw):
    R.defer(lambda r: run_obls_now(r, P, rule, inst, name, args, kinds, where, cuts, **kw))


def run_obls_now(R, P, rule, inst, name, args, kinds, where, cuts=None, **kw):
    return closer(R, lambda r, b: run_obls_once(r, P, rule, inst, name, args, kinds, where, cuts, BOUNDED=b, **kw))


def run_obls_once(R, P, rule, inst, name, args, kinds, where, cuts=None, **kw):
    try:
        rs, ip = client(P, name, args, cuts, **kw)
    except Undecided as e:
        R.add(rule, inst, "undecided", "abstract interpretation gave up: %s" % e, where)
        # what was met before that can still be refuted
        ip = getattr(e, "ip", None)
        if ip is not None:
            R2 = Report(R.pid)
            judge_obls(R2, rule, inst, ip, kinds, where)
            R.suspect = R.suspect or R2.suspect
            R.items += [i for i in R2.items if i["status"] == "violated"]
        return None
    R.paths += len(rs)
    R.fns |= set(ip.visited)
    n = judge_obls(R, rule, inst, ip, kinds, where)
    R.add(rule, inst + ": every access reached was examined", "undecided" if any(r.st.taint for r in rs) and not n else "proved")
    return rs, ip
