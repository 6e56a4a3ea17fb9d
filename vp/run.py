"""Convenience layer: run one function abstractly from a symbolic call."""
from .terms import *
from .interp import Interp, State, addr, sub_addr, strip_cv, targs, tname, Undecided
from .load import Broken


class Result:
    """outcome of one abstract path"""

    def __init__(self, st, val, kind, ip):
        self.st, self.val, self.kind, self.ip = st, val, kind, ip

    def load(self, a, n=None):
        return self.ip.load(self.st, a, n)

    def events(self):
        return self.st.events()


def new_interp(P, cuts=None, **kw):
    ip = Interp(P, cuts)
    for k, v in kw.items():
        setattr(ip, k, v)
    return ip


def sym_args(ip, st, f, given=None):
    """symbolic arguments for the parameters of f: {name: value}"""
    out = []
    given = given or {}
    for i, p in enumerate(f["ps"]):
        g = given.get(i, given.get(p["n"]))
        if g is not None:
            v = g
        elif p.get("ref"):
            root = ("A", p["n"] or str(i))
            ip.rootty[root] = p["c"]
            st.store[root] = ip.symval(p["c"], mk("nm", p["n"] or "arg%d" % i))
            v = addr(root)
        else:
            v = ip.symval(p["t"], mk("nm", p["n"] or "arg%d" % i))
        out.append(v)
    return out


def obj(ip, st, cls, name="this", val=None):
    root = ("O", name)
    ip.rootty[root] = cls
    st.store[root] = val if val is not None else ip.symval(cls, mk("nm", name))
    return addr(root)


def run(ip, f, this=None, args=(), st=None, ctor=None):
    """list of Result for calling f"""
    st = st if st is not None else State()
    n = {"k": "entry", "l": f.get("l"), "t": f["rt"]}
    out = []
    ip.throws = []
    try:
        for s, v in ip.call_fn(f, this, list(args), st, n, ctor=bool(f.get("ctor"))):
            out.append(Result(s, v, "ret", ip))
        for s, e in ip.throws:
            out.append(Result(s, e, "throw", ip))
    finally:
        ip.throws = []
    return out
