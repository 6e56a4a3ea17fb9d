"""No order of the library's locks can stop two threads for good, and every lock taken is given back."""
from ..terms import *
from ..interp import MUTEX, addr, strip_cv, tname
from .. import sched
from . import c14

HARNESS = c14.HARNESS
WHERE = c14.WHERE


def lock_name(ip, st, m):
    if m.op != "addr":
        return show(m)
    t = ip.typeof(addr(m.a[0]), st) if m.a[0][0] != "G" else None
    return "::".join([(strip_cv(t) if t else str(m.a[0][1])).replace("DBus::", "")] + [s[1] for s in m.a[1] if s[0] == "f"])


def recursive(ip, st, m):
    t = tname(strip_cv(ip.typeof(m, st) or ""))
    return "recursive" in t


def edges(ip, r):
    """(lock held, lock taken, io or application thread, other locks held, place)"""
    out = set()
    for e in sched.flat(r.events()):
        if e[0] != "lock":
            continue
        who = "io" if e[5] is sched.IO else "application"
        m = lock_name(ip, r.st, e[4])
        for h in e[3]:
            if h is not e[4]:
                hn = lock_name(ip, r.st, h)
                out.add((hn, m, who, frozenset(lock_name(ip, r.st, x) for x in e[3] if x is not h and x is not e[4]), "%s (%s)" % (e[2].replace("DBus::", ""), e[1])))
    return out


def found(ip, r):
    for e in sched.flat(r.events()):
        if e[0] == "lock" and e[4] in e[3] and not recursive(ip, r.st, e[4]):
            m = lock_name(ip, r.st, e[4])
            yield "again " + m, "%s is taken in %s while this thread holds it already" % (m, e[2].replace("DBus::", "")), e[1]
        if e[0] == "stuck":
            yield "wait", "the wait in %s never ends" % e[2].replace("DBus::", ""), e[1]
    if r.st.held:
        m = lock_name(ip, r.st, r.st.held[-1])
        yield "kept " + m, "%s is still held when all calls have returned" % m, WHERE


def check(R, P, tier):
    for rule, inst, what in c14.jobs(tier):
        def job(r, rule=rule, inst=inst, what=what):
            es = set()

            def f(ip, x):
                es.update(edges(ip, x))
                return found(ip, x)
            c14.judge(r, P, rule, inst, what, f)
            r.data.append(es)
        R.defer(job)


def finish(R):
    """cycles among the locks taken while others are held"""
    es = set().union(*R.data) if R.data else set()
    by = {}
    for h, m, who, rest, where in es:
        by.setdefault((h, m), set()).add((who, rest, where))
    nodes = sorted({x for k in by for x in k})
    after = {}
    for h, m in sorted(by):
        after.setdefault(h, []).append(m)
    seen = set()

    def cycles(start, at, path):
        for m in after.get(at, ()):
            if m == start:
                yield path
            elif m > start and m not in path:
                yield from cycles(start, m, path + [m])

    for s in nodes:
        for c in cycles(s, s, [s]):
            ring = [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]
            hit = feasible(ring, by)
            key = " < ".join(c)
            if hit and key not in seen:
                seen.add(key)
                R.add("order", key, "violated", "; ".join("%s thread holds %s and takes %s in %s" % (w, h, m, p) for (h, m), (w, _, p) in zip(ring, hit)), hit[0][2])
    for h, m in sorted(by):
        if not any(h in k.split(" < ") and m in k.split(" < ") for k in seen):
            R.ok("order", "%s, then %s (%s)" % (h, m, ", ".join(sorted({w for w, _, _ in by[(h, m)]}))))
    if not es:
        R.ok("order", "no lock is taken while another is held")


def feasible(ring, by):
    """one thread per step, at most one of them the io thread, and no lock that all of two steps hold"""
    def go(i, chosen):
        if i == len(ring):
            return chosen
        h, m = ring[i]
        for w, rest, p in sorted(by[(h, m)], key=lambda x: (x[0], sorted(x[1]), x[2])):
            if w == "io" and any(x[0] == "io" for x in chosen):
                continue
            if any(rest & x[1] for x in chosen):
                continue
            r = go(i + 1, chosen + [(w, rest, p)])
            if r:
                return r
        return None
    return go(0, [])


FLOOR = 600
EXPLAIN = ("Abstract interpretation of the two-thread programs of C14; every place where a lock is taken while others are held gives an edge of the lock order, with the thread and the other locks held. A cycle that two or more different threads "
           "can form with no common lock is a deadlock. Also: no lock that is not recursive is taken twice by one thread, no wait is left without anyone to end it, and no lock is kept when the calls have returned.")
ASSUME = ["locks of the application that its handlers take are not known", "any number of application threads, one io thread"]
