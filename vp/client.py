"""Client programs (harness/*.cpp) evaluated abstractly with symbolic arguments."""
from .terms import *
from .interp import State, addr, Undecided
from .run import new_interp, sym_args, Result
from . import run as runmod
from .load import Broken

LOGCUTS = {
    "DBus::Log::write": lambda ip, st, o, a, n: [(st, VOID)],
    "DBus::Log::writeHex": lambda ip, st, o, a, n: [(st, VOID)],
}


def blk(name, k=8, r=0, most=1 << 24):
    """text of unknown content whose length is r modulo k, at most most*k + r"""
    return mk("cat", (mk("ssym", mk("blk", name, k, r, most)),))


def zeros(n):
    return mk("cat", (b"\0" * n,)) if n else mk("cat", ())


def le(x, n):
    return cat(mk("cat", (mk("le", x, n),)))


def text(b):
    return lit(b if isinstance(b, bytes) else b.encode())


def client(P, name, args=None, cuts=None, assume=(), **kw):
    """paths of one client; args: {param name: value}"""
    f = P.one("H::" + name)
    c = dict(LOGCUTS)
    c.update(cuts or {})
    kw.setdefault("rec_limit", 12)
    ip = new_interp(P, c, **kw)
    st = State()
    for c in assume:
        got = ip.assume(st, c)
        if len(got) != 1:
            raise Undecided("assumption")
        st = got[0]
    given = {}
    for p in f["ps"]:
        if args and p["n"] in args:
            v = args[p["n"]]
            if p.get("ref"):
                root = ("A", p["n"])
                ip.rootty[root] = p["c"]
                st.store[root] = v
                v = addr(root)
            given[p["n"]] = v
    a = sym_args(ip, st, f, given)
    try:
        return runmod.run(ip, f, None, a, st), ip
    except Undecided as e:
        e.ip = ip
        raise
