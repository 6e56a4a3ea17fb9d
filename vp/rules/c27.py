"""A bus address names the socket it stands for."""
from ..terms import *
from ..client import blk
from ..judge import ret, run_client

HARNESS = ["text"]
WHERE = "DBus::Platform::getSystemBus/getSessionBus"
DEFAULT = {"session": EMPTY, "system": lit("/var/run/dbus/system_bus_socket")}


def ID(n, r=0, k=20):
    return blk("id:" + n, 8, r, k)


def envset(ip, st, o, a, n):
    name = ip.load(st, a[0], n) if a[0].op == "addr" else a[0]
    st.store[("W", "env", strconst(name))] = ip.load(st, a[1], n) if a[1].op == "addr" else a[1]
    return [(st, VOID)]


def getenv(ip, st, o, a, n):
    name = a[0].a[0] if a[0].op == "strlit" else None
    if name is None:
        return None
    v = st.store.get(("W", "env", name))
    return [(st, NULL if v is None else mk("bptr", mk("strbuf", None, v), ZERO))]


KW = {"cuts": {"W::env": envset, "getenv": getenv, "std::getenv": getenv, "secure_getenv": getenv}}


def forms(k):
    """(what, address, the socket it names)"""
    p = cat(lit("/"), ID("p", k), lit("/"), ID("q", (3 * k + 1) % 8))
    g = ID("g", (k + 5) % 8)
    nul = lit(b"\0")
    yield "a path", p, p
    yield "unix:path", cat(lit("unix:path="), p), p
    yield "unix:path with guid", cat(lit("unix:path="), p, lit(",guid="), g), p
    yield "unix:abstract", cat(lit("unix:abstract="), p), cat(nul, p)
    yield "unix:abstract with guid", cat(lit("unix:abstract="), p, lit(",guid="), g), cat(nul, p)
    yield "unix:abstract, no slash", cat(lit("unix:abstract=d"), ID("p", k), lit("-"), g), cat(nul, lit("d"), ID("p", k), lit("-"), g)
    yield "a path with the prefix inside", cat(p, lit("/unix:path="), g), cat(p, lit("/unix:path="), g)
    yield "a path with the other prefix inside", cat(lit("/x"), g, lit("unix:abstract=/y"), ID("p", k)), cat(lit("/x"), g, lit("unix:abstract=/y"), ID("p", k))
    yield "unix:path of a name with the prefix inside", cat(lit("unix:path=/a"), g, lit("/unix:path="), g), cat(lit("/a"), g, lit("/unix:path="), g)


def check(R, P, tier):
    for k in range(8):
        for what, a, sock in forms(k):
            for bus in ("session", "system"):
                w = "%s, %s bus, lengths %d mod 8" % (what, bus, k)
                run_client(R, P, "address", w, bus + "_bus", {"a": a}, [ret(sock)], WHERE, **KW)
                run_client(R, P, "environment", w, bus + "_env", {"has": ONE, "a": a}, [ret(sock)], WHERE, **KW)
                other = cat(lit("unix:abstract=/z"), ID("z", k))
                args = {"a": a, "b": other} if bus == "session" else {"a": other, "b": a}
                run_client(R, P, "environment", w + ", the other bus elsewhere", "both_env", dict(args, which=num(bus == "system")), [ret(sock)], WHERE, **KW)
    for bus in ("session", "system"):
        run_client(R, P, "default", bus + " bus, no address", bus + "_none", {}, [ret(DEFAULT[bus])], WHERE, **KW)
        run_client(R, P, "default", bus + " bus, no variable", bus + "_env", {"has": ZERO, "a": EMPTY}, [ret(DEFAULT[bus])], WHERE, **KW)


FLOOR = 200
EXPLAIN = ("Abstract interpretation of Platform::getSessionBus/getSystemBus for every documented form of address over symbolic paths and guids (by length modulo 8), given directly and through the environment: the result must be exactly the "
           "socket the address names (NUL first for an abstract one, without the guid), and the default where there is no address.")
ASSUME = ["paths and guids of letters, digits, underscores, dashes and slashes, below 330 bytes", "one address, of transport unix, with path or abstract first and guid last; no escapes"]
