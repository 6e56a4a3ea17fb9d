"""Threads of client programs: which one runs, another one that steps in, and what they share.

W::at(k, f) arms f: a second application thread runs it just before the k-th lock is taken from then on, or as soon after as
no lock it needs is held; before any of them when k is negative (one path each). W::now() runs it if that has not happened yet. The io thread runs what the socket delivers.
"""
from .terms import *
from .interp import MUTEX, Undecided, addr, strip_cv, tname

AT = ("W", "at")
ME = ("W", "me")
APP = mk("nm", "app")
APP2 = mk("nm", "app2")
IO = mk("nm", "io")


def me(st):
    return st.store.get(ME, APP)


def asio_thread(st):
    """from here on the io thread runs; returns what to restore"""
    old = st.store.get(ME)
    st.store[ME] = IO
    return old


def back(st, old):
    if old is None:
        st.store.pop(ME, None)
    else:
        st.store[ME] = old


def at(ip, st, o, a, n):
    f = ip.load(st, a[1], n) if a[1].op == "addr" else a[1]
    if AT in st.store:
        raise Undecided("a second thread is armed already")
    st.store[AT] = mk("at", a[0], f)
    if ip.race:
        ip.ev_(st, "spawn", n, me(st), APP2)
    return [(st, VOID)]


def now(ip, st, o, a, n):
    """runs what is armed; true when it was"""
    x = st.store.get(AT)
    if x is None:
        return [(st, FALSE)]
    return [(s, TRUE) for s in step_in(ip, st, x.a[1], n)]


def step_in(ip, st, f, n):
    del st.store[AT]
    held, st.held = st.held, ()
    old = st.store.get(ME)
    st.store[ME] = APP2
    out = []
    for s, _ in ip.invoke(f, [], st, n, None):
        s.held = held
        back(s, old)
        out.append(s)
    return out


def point(ip, st, n):
    """a lock is about to be taken"""
    x = st.store.get(AT)
    if x is None:
        return [st]
    if x.op != "at":
        raise Undecided("second thread after a summarised loop")
    k, f = x.a
    if cval(k) is None:
        raise Undecided("when the second thread runs")
    if cval(k) < 0:
        # at any of the points
        st2 = ahead(ip, st, f, n)
        return [st] + st2
    if cval(k) > 0:
        st.store[AT] = mk("at", num(cval(k) - 1), f)
        return [st]
    return ahead(ip, st, f, n) or [st]


def ahead(ip, st, f, n):
    """the second thread runs now; nothing when it has to wait for a lock"""
    held, base = st.held, st.trace
    out = []
    for s in step_in(ip, st.copy(), f, n):
        if held:
            t = s.trace
            while t is not None and t is not base:
                e = t.a[1].a
                if e[0] == "loop":
                    raise Undecided("summarised loop of a second thread")
                if e[0] == "lock" and e[4] in held:
                    return []  # it waits
                t = t.a[0]
        out.append(s)
    return out


CUTS = {"W::at": at, "W::now": now}


# ---------------------------------------------------------------- data races
def shared(a):
    if a.op != "addr":
        return None
    r = a.a[0]
    if not (isinstance(r, tuple) and r[0] in ("H", "G")):
        return None
    p = []
    for s in a.a[1]:
        if s[0] != "f":
            break
        p.append(s[1])
    return r, tuple(p)


def note(ip, st, a, write, n):
    x = shared(a)
    if x is None:
        return
    who = me(st)
    t = st.trace
    for _ in range(24):
        if t is None:
            break
        e = t.a[1].a
        if e[0] in ("lock", "unlock", "spawn", "post", "take", "thread", "atm", "joined"):
            break
        if e[0] == "acc" and e[4] is who and e[5] == x[0] and e[6] == x[1] and (e[7] or not write):
            return
        t = t.a[0]
    ip.ev_(st, "acc", n or {}, who, x[0], x[1], write)


def atomic(ip, st, o, order, mode, n):
    """an atomic is read or written; its order only counts when it is not relaxed"""
    if not ip.race or order and cval(ip.toint(order[0])) == 0:
        return
    ip.ev_(st, "atm", n, me(st), o, mode)


def flat(evs):
    for e in evs:
        if e.a[0] == "loop":
            for alt in e.a[4]:
                yield from flat(alt)
        else:
            yield e.a


def races(evs):
    """pairs of accesses to the same memory no lock (or start of a thread or operation) puts in order: [(first, second)]"""
    vc = {}
    locks = {}
    posts = {}
    last = {}  # (root, path) -> {(thread, write): (clock, access)}
    below = {}  # root -> paths
    out = []

    def clk(t):
        c = vc.get(t)
        if c is None:
            c = vc[t] = {t: 1}
        return c

    def join(t, c):
        d = clk(t)
        for k, v in c.items():
            if d.get(k, 0) < v:
                d[k] = v

    def publish(t):
        c = dict(clk(t))
        vc[t][t] += 1
        return c

    for e in flat(evs):
        k = e[0]
        if k == "lock":
            join(e[5], locks.get(e[4], {}))
        elif k == "unlock":
            locks[e[4]] = publish(e[5])
        elif k == "atm":
            if e[6] == "r":
                join(e[4], locks.get(e[5], {}))
            else:
                locks[e[5]] = publish(e[4])
        elif k == "spawn":
            join(e[5], publish(e[4]))
        elif k == "joined":
            join(e[4], publish(e[5]))
        elif k == "thread":
            join(IO, publish(e[6]))
        elif k == "post":
            posts[e[5]] = publish(e[4])
        elif k == "take":
            join(e[4], posts.get(e[5], {}))
        elif k == "acc":
            t, root, path, w = e[4:8]
            c = clk(t)
            for p in below.get(root, ()):
                m = min(len(p), len(path))
                if p[:m] != path[:m]:
                    continue
                for (t2, w2), (when, e2) in last[(root, p)].items():
                    if t2 is not t and (w or w2) and c.get(t2, 0) < when:
                        out.append((e2, e))
            below.setdefault(root, {})[path] = 1
            last.setdefault((root, path), {})[(t, w)] = (c[t], e)
    return out


ORDERED = ("std::atomic", "std::__atomic_base", "boost::atomic", "boost::asio::", "boost::thread", "std::thread")


def unordered(ip, st, evs):
    """the races on plain data: [(class and member, first, second)]"""
    out = []
    seen = set()
    for x, y in races(evs):
        d = x if len(x[6]) > len(y[6]) else y
        if d[5][0] == "G":
            t, name = ip.rootty.get(d[5]), d[5][1]
        else:
            a = addr(d[5], *[("f", p) for p in d[6]])
            t = ip.typeof(a, st)
            top = ip.typeof(addr(d[5]), st)
            name = "::".join([strip_cv(top or "?")] + list(d[6]))
        if t and tname(strip_cv(t)).startswith(ORDERED) or tname(strip_cv(t or "")) in MUTEX:
            continue
        k = (name, x[1], y[1])
        if k not in seen:
            seen.add(k)
            out.append((name, x, y))
    return out
