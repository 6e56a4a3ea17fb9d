"""Introspection data describes every member, each argument by one complete type."""
import itertools
import re
from ..terms import *
from ..client import blk
from ..judge import alternatives, ret, run_client

HARNESS = ["text"]
WHERE = "DBus::Introspectable"
BASIC = list("ybnqiuxtdsogvh")
MORE = ["as", "aay", "a{sv}", "(ii)", "(s(yv))", "a(ii)", "a{s(iv)}", "aa{sa{sv}}", "((i)(s))", "(a{sv}as)", "a{sa{s(ii)}}", "(((y)))"]
ALL = BASIC + MORE
DOCTYPE = '<!DOCTYPE node PUBLIC "-//freedesktop//DTD D-BUS Object Introspection 1.0//EN" "http://www.freedesktop.org/standards/dbus/1.0/introspect.dtd">'
ACCESS = ["read", "write", "readwrite"]


def plain(b):
    """the same document: blanks between elements and the kind of quotes do not matter"""
    b = re.sub(rb"\s+", b" ", b.replace(b'"', b"'"))
    return b.replace(b"> <", b"><").replace(b" />", b"/>").replace(b" >", b">")


def doc(*xs):
    v = cat(*[x if isinstance(x, T) else lit(x) for x in xs])
    return cat(*[lit(plain(p)) if isinstance(p, bytes) else spiece(p) for p in v.a[0]])


def view(r, v):
    v = doc(v) if v.op == "cat" else v
    # a blank where a literal ends
    ps = list(v.a[0]) if v.op == "cat" else []
    if ps and isinstance(ps[-1], bytes):
        ps[-1] = ps[-1].rstrip()
    return cat(*[lit(p) if isinstance(p, bytes) else spiece(p) for p in ps]) if ps else v


def args(types, extra=""):
    return "".join("<arg %stype='%s'/>" % (extra, t) for t in types)


def method(name, ins, outs):
    # the attributes may come in either order
    a = doc("<method name='", name, "'>", args(ins, "direction='in' "), args(outs, "direction='out' "), "</method>")
    return a


def signal(name, ts):
    return doc("<signal name='", name, "'>", args(ts), "</signal>")


def prop(name, t, access):
    return doc("<property name='", name, "' type='", t, "' access='", access, "'/>")


def check(R, P, tier):
    seqs = [()] + [(t,) for t in ALL] + list(itertools.product(ALL, repeat=2)) + [("s", "a{sv}", "as"), ("y", "(ii)", "a(ii)"), ("a{sv}", "a{sv}", "a{sv}"), ("aay", "s", "((i)(s))", "v"), tuple(BASIC), tuple(ALL)]
    if tier == "thorough":
        seqs += list(itertools.product(ALL, repeat=3))
    for i, ts in enumerate(seqs):
        n = blk("id:name", 8, i % 8, 20)
        run_client(R, P, "signal", "arguments %s" % (" ".join(ts) or "none"), "intro_signal", {"name": n, "type": lit("".join(ts))}, [ret(signal(n, ts))], WHERE, view=view)
    short = [s for s in seqs if len(s) != 2 or s[0] in MORE[:6] and s[1] in MORE[:6] + ["s"]][:3000 if tier == "thorough" else 90]
    for i, ts in enumerate(short):
        n = blk("id:name", 8, i % 8, 20)
        for us in ((), ts, ("a{sv}",), ("s", "(ii)"), tuple(reversed(ts))):
            run_client(R, P, "method", "arguments %s, results %s" % (" ".join(ts) or "none", " ".join(us) or "none"), "intro_method", {"name": n, "in": lit("".join(ts)), "out": lit("".join(us))}, [ret(method(n, ts, us))], WHERE, view=view)
    for i, t in enumerate(ALL):
        n = blk("id:name", 8, i % 8, 20)
        for a in range(3):
            run_client(R, P, "property", "%s, %s" % (t, ACCESS[a]), "intro_property", {"name": n, "type": lit(t), "access": num(a)}, [ret(prop(n, t, ACCESS[a]))], WHERE, view=view)
        run_client(R, P, "property", "%s, no access given" % t, "intro_property_default", {"name": n, "type": lit(t)}, [ret(prop(n, t, "read"))], WHERE, view=view)
    a = u64("access")
    n = blk("id:name", 8, 3, 20)
    run_client(R, P, "property", "any other access", "intro_property", {"name": n, "type": lit("s"), "access": a}, [ret(prop(n, "s", "read"), ge0(addc(a, -3)))], WHERE, view=view)
    t1, t2 = ("s", "a{sv}"), ("(ii)",)
    for k in range(8):
        n = blk("id:name", 8, k, 20)
        for ps, ms, ss in itertools.product(range(3), repeat=3):
            # in whatever order the members come
            P2 = [prop("Pp", "".join(t1), "write"), prop("Pq", "".join(t2), "readwrite")][:ps]
            M2 = [method("Mp", t1, t2), method("Mq", t2, t1)][:ms]
            S2 = [signal("Sp", t1), signal("Sq", t2)][:ss]
            want = [doc("<interface name='", n, "'>", *[x for g in o for x in g], "</interface>") for o in itertools.permutations((P2, M2, S2))]
            run_client(R, P, "interface", "%d properties, %d methods, %d signals, name %d mod 8" % (ps, ms, ss, k), "intro_interface", {"name": n, "ps": num(ps), "ms": num(ms), "ss": num(ss), "t1": lit("".join(t1)), "t2": lit("".join(t2))},
                       [ret(alternatives(want))], WHERE, view=view)
        n1, n2, n3 = n, blk("id:n2", 8, (k + 2) % 8, 20), blk("id:n3", 8, (k + 5) % 8, 20)
        parts = [doc("<interface name='", n1, "'>", signal("S", "s"), "</interface>"), doc("<interface name='", n2, "'>", method("M", "u", ()), "</interface>"), doc("<interface name='", n3, "'></interface>")]
        for c in range(4):
            run_client(R, P, "object", "%d interfaces, name %d mod 8" % (c, k), "intro_all", {"n": num(c), "n1": n1, "n2": n2, "n3": n3}, [ret(doc(DOCTYPE, "<node>", *parts[:c], "</node>"))], WHERE, view=view)


def u64(n):
    return atom(isym(mk("nm", n), 64, False))


FLOOR = 1000
EXPLAIN = ("Abstract interpretation of the introspection classes for members whose signatures are given sequences of complete types (all single types, all pairs, containers nested) and whose names are symbolic: the document must hold every "
           "interface, method, signal and property once, with one argument per complete type, in order and with its direction. Blanks, quotes and the order of kinds do not count.")
ASSUME = ["names and signatures are valid and need no XML escapes", "signatures are a fixed list"]
