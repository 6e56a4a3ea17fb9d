"""Decoding received bytes never reads or writes outside them, whatever they are."""
from ..terms import *
from ..client import blk
from ..interp import Undecided, addr
from ..judge import run_obls
from .c03 import BASICS, CLS
from .. import net

HARNESS = ["dec", "proto", "octets"]
KINDS = ("mem", "null", "div0")


def isy(name, w=64):
    return atom(isym(mk("nm", name), w, False))


def region(*pairs):
    """buffers of unknown content: {region: its extent}"""
    return {"extents": {mk("region", mk("nm", d)): isy(n) for d, n in pairs}}


def clean(ip, p):
    return ip.fresh(p).replace("#", "_")


class Nested:
    """a nested value: decoding it fails, or consumes some number of bytes of the stream through the stream's own operations"""

    def __init__(self):
        self.n = 0

    def __call__(self, ip, st, o, a, nd):
        self.n += 1
        f = [x for x in ip.P.find("DBus::MessageIStream::read") if len(x["ps"]) == 2 and "string" in x["ps"][0]["t"]]
        if len(f) != 1:
            raise Undecided("MessageIStream::read(std::string&, size_t)")
        k = isy(clean(ip, "k"))
        root = ("L", "nestbuf%d" % self.n)
        ip.rootty[root] = "std::basic_string<char>"
        st.store[root] = EMPTY
        th = st.copy()
        ip.throw(th, "std::runtime_error", nd)
        return [(s, VOID) for s, v in ip.call_fn(f[0], a[1], [addr(root), k], st, nd)]


def create(ip, st, o, a, nd):
    th = st.copy()
    ip.throw(th, "std::runtime_error", nd)
    return [(st, mk("anysym", mk("nm", clean(ip, "c"))))]


def align(ip, st, o, a, nd):
    return [(st, atom(mk("isym", mk("nm", clean(ip, "al")), 1, 8)))]


def header_cuts():
    """the header is decoded by the rules above; here it fails or yields any body length"""
    nested = Nested()
    return {
        "DBus::Type::Struct::unmarshall": lambda ip, st, o, a, n: nested(ip, st, None, [None, a[0]], n),
        "DBus::Type::asUint32": lambda ip, st, o, a, n: [(st, isy(clean(ip, "body"), 32))],
        "DBus::Type::Struct::operator[]": lambda ip, st, o, a, n: [(st, mk("anysym", mk("nm", "field")))],
        "DBus::MessageProtocol::onBodyComplete": lambda ip, st, o, a, n: [(st, VOID)],
    }


def auth_cuts():
    """a line of the handshake ends it, does not, or fails"""
    def command(ip, st, o, a, n):
        th = st.copy()
        ip.throw(th, "std::runtime_error", n)
        s2 = st.copy()
        return [(st, TRUE), (s2, FALSE)]
    return dict(net.CUTS, **{"DBus::AuthenticationProtocol::onCommand": command})


def check(R, P, tier):
    rg = region(("d", "size"))
    sig = ssym(mk("nm", "sig"))
    for c in BASICS:
        run_obls(R, P, "bounds", "%s decoded from any bytes at any offset" % CLS[c], "raw_" + c, {"sig": lit(c)}, KINDS, "DBus::Type::" + CLS[c], **rg)
    for c in ("a", "r", "e", "v"):
        what = {"a": "Array", "r": "Struct", "e": "DictEntry", "v": "Variant"}[c]
        pre = {"a": "a", "r": "(", "e": "{", "v": "v"}[c]
        cuts = {"DBus::Type::unmarshallData": Nested()}
        if c == "v":
            run_obls(R, P, "bounds", "Variant decoded from any bytes, contents arbitrary", "raw_v", {"sig": lit("v")}, KINDS, "DBus::Type::Variant", cuts=dict(cuts, **{"DBus::Type::create": create}), **rg)
            continue
        run_obls(R, P, "bounds", "%s of any signature from any bytes, contents arbitrary" % what, "raw_" + c, {"sig": cat(lit(pre), sig)}, KINDS, "DBus::Type::" + what,
                 cuts=dict(cuts, **{"DBus::Type::create": create, "DBus::Type::getAlignment": align}), **rg)
    for s in ("ay", "as", "a(su)", "a{sv}", "av", "(yyyyuua(yv))", "(s)", "(ay)", "{su}", "{yv}", "a{s(yt)}"):
        c = {"(": "r", "{": "e"}.get(s[0], s[0])
        run_obls(R, P, "bounds", "%s from any bytes, contents arbitrary" % s, "raw_" + c, {"sig": lit(s)}, KINDS, "DBus::Type", cuts={"DBus::Type::unmarshallData": Nested()}, **rg)
    run_obls(R, P, "signature", "Type::create of any signature", "created", {"sig": sig}, KINDS, "DBus::Type::create")
    run_obls(R, P, "signature", "Type::getAlignment of any signature", "alignment", {"sig": sig}, KINDS, "DBus::Type::getAlignment")
    run_obls(R, P, "signature", "Type::extractSignature of any signature at any position inside it", "extracted", {"sig": sig, "i": isy("i")}, KINDS, "DBus::Type::extractSignature",
             assume=[ge0(sub(slen(sig), isy("i")))])
    for nm in ("raw_read", "raw_align", "raw_sub"):
        kw = dict(rg)
        if nm == "raw_align":
            kw["assume"] = [ge0(addc(isy("a"), -1))]
        run_obls(R, P, "stream", "MessageIStream %s by any amount" % nm[4:], nm, {}, KINDS, "DBus::MessageIStream", **kw)
    run_obls(R, P, "framing", "any bytes received by a new parser", "feed1", {}, KINDS, "DBus::MessageProtocol::onReceiveData", cuts=header_cuts(), extents={mk("region", mk("nm", "d")): isy("n")})
    run_obls(R, P, "framing", "any bytes received after any others", "feed2", {}, KINDS, "DBus::MessageProtocol::onReceiveData", cuts=header_cuts(),
             extents={mk("region", mk("nm", "d")): isy("n"), mk("region", mk("nm", "e")): isy("m")})
    rd = region(("d", "n"))
    run_obls(R, P, "octets", "finding any octet in any part of the bytes", "oct_find", {}, KINDS, "DBus::OctetBuffer::find", **rd)
    run_obls(R, P, "octets", "reading and taking what was found", "oct_found", {}, KINDS, "DBus::OctetBuffer::find", **rd)
    run_obls(R, P, "octets", "any octet of any part of the bytes", "oct_at", {}, KINDS, "DBus::OctetBuffer", **rd)
    run_obls(R, P, "octets", "copying any part of the bytes", "oct_copy", {}, KINDS, "DBus::OctetBuffer::copy", assume=[ge0(sub(num(64), isy("m")))], **rd)
    run_obls(R, P, "handshake", "any bytes received", "oct_auth", {}, KINDS, "DBus::AuthenticationProtocol::onReceiveData", cuts=auth_cuts(), net=True, **rd)
    run_obls(R, P, "handshake", "any bytes received after any others", "oct_auth2", {}, KINDS, "DBus::AuthenticationProtocol::onReceiveData", cuts=auth_cuts(), net=True, extents={mk("region", mk("nm", "d")): isy("n"), mk("region", mk("nm", "e")): isy("m")})


FLOOR = 100
EXPLAIN = ("Abstract interpretation of every decoder and of the framing code over buffers of unknown content and unknown length: each pointer dereference, copy and container index met on any path is an "
           "obligation 'inside the bytes received' that must follow from the conditions tested on that path (nested values: fail, or consume any number of bytes through the stream's own checked operations).")
ASSUME = ["the body of a decoder loop is covered by a loop invariant inferred from its own conditions (summarised loops), not by unrolling"]
