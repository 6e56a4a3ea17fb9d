"""The socket as client programs see it: the functions of namespace W in harness/native.cpp.

A write that need not be complete takes by turns one octet and all there is. A write that starts while another one is outstanding leaves '!' in the bytes sent, a buffer that has gone (or may go)
before its write completes '#'. A write that fails is not sent."""
from .terms import *
from .interp import Undecided, addr
from . import sched

SENT = ("W", "sent")      # bytes of completed writes
WRITES = ("W", "writes")  # writes started and not completed: (buffer, handler)
READ = ("W", "read")      # the outstanding read: (buffer, handler)
EARLY = ("W", "early")    # arrives while the next write is being started
TURN = ("W", "turn")      # how much the next partial write takes
STALL = ("W", "stall")    # the socket takes nothing more
GONE = ("W", "gone")      # the socket has been shut down: RECV, SEND or 2 for both
RECV, SEND = 0, 1


def get(st, r, default):
    v = st.store.get(r, default)
    if v is not None and default is not None and v.op != default.op:
        raise Undecided("state of the socket after a summarised loop")
    return v


def stack(root):
    return isinstance(root, str)


def mentions(v, root, seen):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "addr" and x.a[0] == root:
                return True
            todo += [y for y in x.a if isinstance(y, (T, tuple))]
    return False


def kept(st, buf, h):
    """something that outlives the write refers to its buffer"""
    obj = buf.a[0]
    if obj.op != "addr":
        return obj.op in ("strlit", "bptr")
    root = obj.a[0]
    if stack(root):
        return False
    if isinstance(root, tuple) and root[0] != "H":
        return True
    if len(obj.a[1]) and obj.a[1][0][0] == "f":
        return True  # a member of an object that exists anyway
    seen = set()
    if mentions(h, root, seen):
        return True
    return any(mentions(v, root, seen) for r, v in st.store.items() if not stack(r) and not (isinstance(r, tuple) and r[0] in ("W", "A")) and r != root)


def on_write(ip, st, sock, buf, h, n, some=False):
    if buf.op != "asiobuf":
        raise Undecided("buffer of a write")
    if ip.race:
        ip.ev_(st, "post", n, sched.me(st), mk("nwr", buf, h))
    ws = get(st, WRITES, mk("ws"))
    if ws.a:
        # two at once: the parts of each may come in any order
        st.store[SENT] = cat(get(st, SENT, EMPTY), lit("!"))
    if not kept(st, buf, h):
        st.store[SENT] = cat(get(st, SENT, EMPTY), lit("#"))
    st.store[WRITES] = mk("ws", *ws.a, mk("wr", buf, h, some))
    early = st.store.get(EARLY)
    if early is None or early.op != "cat":
        return [st]
    # the other thread gets all there is before this one goes on, unless a lock held here stops it
    s2 = st.copy()
    del s2.store[EARLY]
    held, s2.held = s2.held, ()
    k = len(s2.events())
    out = []
    for s, _ in incoming(ip, s2, early, n):
        locks = [e.a[4] for e in s.events()[k:] if e.a[0] == "lock"]
        if any(x in held for x in locks):
            return [st]
        s.held = held
        out.append(s)
    return out


def on_read(ip, st, sock, buf, h, n):
    if buf.op != "asiobuf" or READ in st.store and st.store[READ].op == "rd":
        raise Undecided("read operation")
    if ip.race:
        ip.ev_(st, "post", n, sched.me(st), mk("nrd"))
    st.store[READ] = mk("rd", buf, h)


def awake(ip, st, key, n):
    """the io thread goes on; returns who ran before"""
    old = sched.asio_thread(st)
    if ip.race:
        ip.ev_(st, "take", n, sched.IO, key)
    return old


def deliver(ip, st, h, args, old, n):
    """the io thread calls a handler"""
    out = []
    for s, _ in ip.invoke(h, args, st, n, None):
        sched.back(s, old)
        out.append((s, TRUE))
    return out


def beside(ip, st, held, f):
    """the io thread does f while this one waits, holding some locks; None when it needs one of them"""
    s2 = st.copy()
    s2.held = ()
    k = len(s2.events())
    out = []
    for s, v in f(s2):
        if any(e.a[0] == "lock" and e.a[4] in held for e in s.events()[k:]):
            return None
        s.held = st.held
        out.append((s, v))
    return out


def meanwhile(ip, st, guard, n):
    """a wait on a condition variable: a write completes, unless the socket takes nothing more"""
    if STALL in st.store:
        return [(st, FALSE)]
    g = ip.load(st, guard, n) if guard.op == "addr" else guard
    ms = [m for m in (g.a[0] if g.op == "lock" else ()) if m in st.held]
    s2 = st.copy()
    for m in ms:
        ip.release(s2, m, n)
    out = []
    for s, v in beside(ip, s2, s2.held, lambda s: complete(ip, s, None, [], n)) or []:
        for m in reversed(ms):
            ip.ev_(s, "lock", n, m, sched.me(s))
            s.held = s.held + (m,)
        out.append((s, v))
    return out or [(st, FALSE)]


def gone(st, way):
    """the socket has been shut down for this direction"""
    return GONE in st.store and cval(st.store[GONE]) in (way, 2)


def join(ip, st, o, m, n, hasty=False):
    """wait for the io thread, which ends when it has nothing outstanding; hasty: it is given no time"""
    todo, out = [st], []
    for _ in range(64):
        nxt = []
        for s in todo:
            r = get(s, READ, None)
            reading = r is not None and r.op == "rd"
            ws = get(s, WRITES, mk("ws"))
            if hasty and (reading or ws.a):
                out.append((s, FALSE))
                continue
            if reading and gone(s, RECV):
                f = lambda x: hangup(ip, x, None, [], n)
            elif ws.a and (gone(s, SEND) or STALL not in s.store):
                f = lambda x: complete(ip, x, None, [], n)
            elif reading or ws.a:
                f = None
            else:
                if ip.race:
                    ip.ev_(s, "joined", n, sched.me(s), sched.IO)
                out.append((s, TRUE if m != "join" else VOID))
                continue
            ys = beside(ip, s, s.held, f) if f else None
            if ys is None:
                # it goes on for ever
                if m == "join":
                    ip.oblige(s, "life", FALSE, n, "a wait for the io thread, which does not end")
                else:
                    out.append((s, FALSE))
            else:
                nxt += [y for y, _ in ys]
        todo = nxt
        if not todo:
            return out
    raise Undecided("the io thread does not end")


def stall(ip, st, o, a, n):
    st.store[STALL] = TRUE
    return [(st, VOID)]


def aborted(ip, st, o, a, n):
    ip.oblige(st, "life", FALSE, n, "the program is aborted")
    return []


def content(ip, st, buf, n):
    obj, v, rest = buf.a
    if obj.op == "addr" and not stack(obj.a[0]):
        v = ip.load(st, obj, n)  # what the memory holds now, not when the write was started
    if v.op != "cat":
        raise Undecided("contents of a write")
    if rest:
        v = substr(v, ZERO, rest[0])
    return v


def ec(ip, st, n, failed, what="failed"):
    v = mk("ecv", TRUE if failed else FALSE, what if failed else "none")
    return ip.temp(st, v, n, "boost::system::error_code")


def complete(ip, st, o, a, n, failed=False):
    ws = get(st, WRITES, mk("ws"))
    if not ws.a:
        return [(st, FALSE)]
    buf, h, some = ws.a[0].a
    st.store[WRITES] = mk("ws", *ws.a[1:])
    old = awake(ip, st, mk("nwr", buf, h), n)
    v = content(ip, st, buf, n)
    failed = failed or gone(st, SEND)
    if some and not failed:
        # as much as the socket has room for: by turns one octet, and all there is
        turn = st.store.get(TURN, FALSE)
        st.store[TURN] = FALSE if turn is TRUE else TRUE
        if turn is not TRUE:
            c = slen(v)
            if cval(c) == 0:
                raise Undecided("write of nothing")
            v = substr(v, ZERO, ONE)
    if not failed:
        st.store[SENT] = cat(get(st, SENT, EMPTY), v)
        if not kept(st, buf, h):
            st.store[SENT] = cat(get(st, SENT, EMPTY), lit("#"))
    return deliver(ip, st, h, [ec(ip, st, n, failed), ZERO if failed else slen(v)], old, n)


def sent(ip, st, o, a, n):
    v = get(st, SENT, EMPTY)
    st.store[SENT] = EMPTY
    return [(st, v)]


def incoming(ip, st, t, n):
    r = get(st, READ, None)
    if r is None or r.op != "rd":
        return [(st, FALSE)]
    buf, h = r.a
    st.store[READ] = mk("none")
    old = awake(ip, st, mk("nrd"), n)
    obj = buf.a[0]
    # what was in the buffer behind it: anything
    ip.store_(st, obj, cat(t, spiece(mk("chr", atom(isym(mk("nm", ip.fresh("behind")), 8, False)))), ssym(mk("nm", ip.fresh("stale")))), n)
    return deliver(ip, st, h, [ec(ip, st, n, False), slen(t)], old, n)


def arrive(ip, st, o, a, n):
    return incoming(ip, st, ip.load(st, a[0], n) if a[0].op == "addr" else a[0], n)


def hangup(ip, st, o, a, n, what="eof"):
    r = get(st, READ, None)
    if r is None or r.op != "rd":
        return [(st, FALSE)]
    buf, h = r.a
    st.store[READ] = mk("none")
    return deliver(ip, st, h, [ec(ip, st, n, True, what), ZERO], awake(ip, st, mk("nrd"), n), n)


def early(ip, st, o, a, n):
    st.store[EARLY] = ip.load(st, a[0], n) if a[0].op == "addr" else a[0]
    return [(st, VOID)]


def note(ip, st, o, a, n):
    st.store[("W", "note")] = cat(get(st, ("W", "note"), EMPTY), ip.load(st, a[0], n) if a[0].op == "addr" else a[0])
    return [(st, VOID)]


def hexbin(ip, st, o, a, n):
    """the converted text is of no consequence: any"""
    if not a or a[0].op != "addr":
        return None
    ip.store_(st, a[0], cat(ssym(mk("nm", ip.fresh("bin")))), n)
    return [(st, VOID)]


CUTS = {
    "DBus::Utils::ConvertHexStringToBinary": hexbin,
    "W::complete": complete,
    "W::sent": sent,
    "W::arrive": arrive,
    "W::hangup": hangup,
    "W::early": early,
    "W::note": note,
    "W::fail": lambda ip, st, o, a, n: complete(ip, st, o, a, n, True),
    "getuid": lambda ip, st, o, a, n: [(st, num(1000))],
    "W::at": sched.at,
    "W::now": sched.now,
    "W::stall": stall,
    "abort": aborted,
    "std::abort": aborted,
    "geteuid": lambda ip, st, o, a, n: [(st, num(1000))],
}
HELLO = b"\0AUTH EXTERNAL 31303030\r\n"
