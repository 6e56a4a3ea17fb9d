"""Transfer functions of the library operations the code uses."""
import re
from .terms import *
from . import terms as tm
from . import net
from . import sched
from .interp import (STRING, VEC, MAP, PTR, MUTEX, LOCKS, STREAM, FUNC, INTT, addr, sub_addr, strip_cv, targs, tname,
                     int_of, dbl_of, Undecided)

NPOS = num((1 << 64) - 1)
BOOLS = ("true", "false", "ge", "eq", "not", "and", "or", "batom", "seq=", "bapp")


# ---------------------------------------------------------------- helpers
def deref_arg(ip, st, v, n):
    """object value for an argument that may be an address"""
    if v.op in ("addr", "mref"):
        return ip.load(st, v, n)
    return v


def cstr_of(s):
    """C string view of a string value"""
    return mk("bptr", mk("strbuf", None, s), ZERO)


def as_string(ip, st, v, n):
    """std::string value converted from an argument"""
    if v.op in ("addr", "mref"):
        if v.op == "addr" and v.a[1] and v.a[1][-1][0] == "ix":
            base = ip.load(st, addr(v.a[0], *v.a[1][:-1]), n)
            if base.op == "cat":
                return zcut(base, v.a[1][-1][1])
        v = ip.load(st, v, n)
    if v.op == "cat":
        return v
    if v.op == "strlit":
        return lit(v.a[0].split(b"\0")[0])
    if v.op == "bptr":
        b, off = v.a
        if b.op in ("strbuf", "litbuf"):
            s = b.a[1] if b.op == "strbuf" else b.a[0]
            return zcut(s, off)
        return spiece(mk("sapp", "cstrat", b, off))
    if v.op == "null":
        ip.oblige(st, "null", FALSE, n, "null C string")
        return EMPTY
    if isint(v):
        return spiece(mk("chr", v))
    if v.op == "uninit":
        ip.oblige(st, "uninit", FALSE, n, "read of uninitialised value")
    return spiece(mk("sapp", "str", v))


def zcut(s, off):
    s = substr(s, off, sub(slen(s), off))
    out = []
    for p in s.a[0]:
        if isinstance(p, bytes):
            i = p.find(b"\0")
            if i >= 0:
                out.append(p[:i])
                break
            out.append(p)
        else:
            out.append(p)
    r = cat(mk("cat", tuple(out)))
    if any(isinstance(p, T) for p in out):
        return spiece(mk("sapp", "cstr", r)) if not clean_text(r) else r
    return r


def clean_text(s):
    return all(isinstance(p, bytes) and b"\0" not in p or isinstance(p, T) and (p.op == "sapp" and p.a[0] in ("dec", "hex", "cstr", "cstrat") or p.op == "ssym" and lacks(None, None, p, b"\0") or p.op == "rep" and (cval(p.a[0]) or 0) > 0) for p in s.a[0])


def seq_at(v, i):
    return v


def fail(ip, st, n, why):
    """unmodelled operation: symbolic result, tainted state"""
    ip.unk(st, why, n)
    t = n.get("t", "void")
    if t == "void":
        return [(st, VOID)]
    if n.get("lv"):
        root = ip.fresh("unkref")
        ip.rootty[root] = strip_cv(t)
        st.store[root] = ip.symval(t, mk("nm", ip.fresh("unk")))
        return [(st, addr(root))]
    return [(st, ip.symval(t, mk("nm", ip.fresh("unk"))))]


def havoc_obj(ip, st, o, n):
    if o is not None and o.op == "addr":
        t = ip.typeof(o, st)
        ip.store_(st, o, ip.symval(t or "?", mk("nm", ip.fresh("unk"))), n)


def boolv(c):
    return c


def ret(st, v):
    return [(st, v)]


def throw_if(ip, st, c, cls, n):
    """states where c does not hold; the others throw"""
    bad, ok = ip.split(st, c)
    for b in bad:
        ip.throw(b, cls, n)
    return ok


# ---------------------------------------------------------------- constructors
def is_alloc(t):
    t = tname(strip_cv(t).rstrip("& "))
    return t.endswith("allocator") or t.endswith("allocator_type")


def construct(ip, n, c, args, st, a):
    b = tname(strip_cv(c))
    pt = n.get("pt") or []
    nodes = n.get("a") or []
    if b in STRING:
        return ret(st, string_ctor(ip, n, args, pt, st))
    if b in VEC:
        if not args or (len(args) == 1 and pt and is_alloc(pt[0])):
            return ret(st, seq())
        v0 = args[0]
        if "initializer_list" in (pt[0] if pt else ""):
            v = deref_arg(ip, st, v0, n)
            return ret(st, v if v.op in ("seq", "cat") else seq())
        if isint(v0) or v0.op == "lin":
            et = (targs(c) or ["?"])[0]
            k = cval(v0)
            if et in ("unsigned char", "char"):
                pass
            if k is not None and k <= 64:
                d = deref_arg(ip, st, args[1], n) if len(args) > 1 and not is_alloc(pt[1]) else ip.zero(et)
                return ret(st, seq(*[mk("el", d)] * k))
        if v0.op == "iter" and len(args) >= 2:
            s = iter_range(ip, st, args[0], args[1], n)
            if s is not None:
                return ret(st, s)
        v = deref_arg(ip, st, v0, n)
        if v.op == "seq":
            return ret(st, v)
        ip.unk(st, "container constructor", n)
        return ret(st, ip.symval(c, mk("nm", ip.fresh("unk"))))
    if b in MAP:
        if not args or not nodes:
            return ret(st, mk("map", mk("mempty"), ()))
        v = deref_arg(ip, st, args[0], n)
        if v.op == "map":
            return ret(st, v)
        if v.op == "seq":
            m = mk("map", mk("mempty"), ())
            ok = True
            for e in v.a[0]:
                if e.op == "el" and e.a[0].op == "rec":
                    m = mk("map", m.a[0], m.a[1] + (("put", ip.field(e.a[0], "first"), ip.field(e.a[0], "second")),))
                else:
                    ok = False
            if ok:
                return ret(st, m)
        ip.unk(st, "map constructor", n)
        return ret(st, ip.symval(c, mk("nm", ip.fresh("unk"))))
    if b in ("boost::any", "std::any"):
        if not args:
            return ret(st, mk("any0"))
        v = deref_arg(ip, st, args[0], n)
        if v.op in ("any", "any0", "anysym") and "any" in pt[0]:
            return ret(st, v)
        ty = strip_cv(pt[0].rstrip("& ").strip())
        return ret(st, mk("any", ty, v))
    if b in FUNC:
        if not args:
            return ret(st, mk("fnull"))
        v = args[0]
        if v.op == "addr":
            v = ip.load(st, v, n)
        if v.op == "null":
            v = mk("fnull")
        return ret(st, v)
    if b in PTR:
        if not args:
            return ret(st, NULL)
        v = args[0]
        t = pt[0] if pt else ""
        if (tname(strip_cv(t)) in PTR or t.endswith("&")) and v.op == "addr" and ip.is_smart(st, v):
            return ret(st, ip.load(st, v, n))
        if (tname(strip_cv(t)) in PTR or t.endswith("&")) and v.op == "addr":
            x = ip.load(st, v, n)
            if x.op in ("addr", "null"):
                return ret(st, x)
        return ret(st, v)
    if b in STREAM:
        s = EMPTY
        if args and pt and "string" in pt[0]:
            s = as_string(ip, st, args[0], n)
        return ret(st, mk("rec", "ss", None, (("fl", mk("nm", "")), ("s", s))))
    if b in MUTEX:
        return ret(st, mk("mutex"))
    if b in LOCKS:
        ms = []
        mode = "lock"
        for v, t in zip(args, pt):
            if "defer" in t:
                mode = "defer"
            elif "adopt" in t:
                mode = "adopt"
            elif "try_to" in t or "chrono" in t:
                mode = "try"
            elif v.op == "addr":
                ms.append(v)
        if args and args[0].op == "addr" and pt and tname(strip_cv(pt[0].rstrip("& "))) in LOCKS:
            # move construction
            v = ip.load(st, args[0], n)
            if v.op == "lock":
                ip.store_(st, args[0], mk("lock", v.a[0], FALSE), n)
                st.guards = st.guards + ((a.a[0], st.level),)
                return ret(st, v)
        ms = tuple(ms)
        sts = [st]
        if mode == "lock":
            for m in ms:
                sts = [y for x in sts for y in ip.acquire(x, m, n)]
        if mode == "try":
            ip.unk(st, "try lock", n)
        owns = TRUE if mode in ("lock", "adopt") else FALSE
        v = mk("lock", ms, owns)
        for s in sts:
            s.guards = s.guards + ((a.a[0], s.level),)
            s.store[a.a[0]] = v
        return [(s, v) for s in sts]
    if b == "std::pair":
        if not args:
            ta = targs(c)
            return ret(st, mk("rec", c, None, (("first", ip.zero(ta[0])), ("second", ip.zero(ta[1])))))
        if len(args) >= 2:
            ta = targs(c)
            f = conv(ip, st, args[0], ta[0] if ta else None, n)
            s = conv(ip, st, args[1], ta[1] if len(ta) > 1 else None, n)
            return ret(st, mk("rec", c, None, (("first", f), ("second", s))))
        v = deref_arg(ip, st, args[0], n)
        if v.op == "rec":
            ta = targs(c)
            f = conv(ip, st, ip.field(v, "first"), ta[0] if ta else None, n)
            s = conv(ip, st, ip.field(v, "second"), ta[1] if len(ta) > 1 else None, n)
            return ret(st, mk("rec", c, None, (("first", f), ("second", s))))
        return ret(st, v)
    if b == "std::atomic":
        return ret(st, args[0] if args else mk("uninit", c))
    if b.startswith("boost::tokenizer"):
        return ret(st, mk("rec", "tokens", None, (("s", as_string(ip, st, args[0], n)), ("sep", deref_arg(ip, st, args[1], n) if len(args) > 1 else NULL))))
    if b.startswith("boost::char_separator"):
        return ret(st, mk("rec", "sep", None, (("s", as_string(ip, st, args[0], n)),)))
    if b in ("boost::thread", "std::thread"):
        if args:
            ip.ev_(st, "thread", n, a, deref_arg(ip, st, args[0], n), sched.me(st))
            return ret(st, mk("thr", deref_arg(ip, st, args[0], n)))
        return ret(st, mk("thr", NULL))
    if b in ("std::allocator", "boost::empty_token_policy", "std::less"):
        return ret(st, mk("opq", mk("nm", b), c))
    if b.endswith("error_code"):
        if ip.net and not args:
            return ret(st, mk("ecv", FALSE, "none"))
        if ip.net and len(args) == 1 and deref_arg(ip, st, args[0], n).op == "ecv":
            return ret(st, deref_arg(ip, st, args[0], n))
        return ret(st, mk("rec", "ec", mk("nm", ip.fresh("ec")), ()))
    if b in ("std::function_ref",):
        return ret(st, args[0])
    if "iterator" in b and len(args) == 1:
        return ret(st, deref_arg(ip, st, args[0], n))
    if any(x in c for x in ("runtime_error", "out_of_range", "logic_error", "invalid_argument", "length_error", "std::exception", "domain_error", "range_error", "bad_any_cast")):
        m = as_string(ip, st, args[0], n) if args else EMPTY
        if args and args[0].op == "addr" and ip.load(st, args[0], n).op in ("excv", "exc"):
            return ret(st, ip.load(st, args[0], n))
        return ret(st, mk("excv", c, m))
    m = re.match(r"boost::arg<(\d+)>|std::_Placeholder<(\d+)>", c)
    if m:
        return ret(st, mk("ph", int(m.group(1) or m.group(2))))
    if len(args) == 1 and args[0].op == "addr" and (n.get("copy") or n.get("move")):
        return ret(st, ip.load(st, args[0], n))
    vals = tuple(a_ for a_ in args)
    return ret(st, mk("opq", mk("nm", mk("new", c, vals)), c))


def conv(ip, st, v, t, n):
    """implicit conversion of an argument to type t"""
    if v.op in ("addr", "mref") and not (t and (strip_cv(t).endswith("*") or tname(strip_cv(t)) in PTR)):
        v = ip.load(st, v, n)
    if t is None:
        return v
    t = strip_cv(t)
    b = tname(t)
    if b in STRING and v.op in ("strlit", "bptr"):
        return as_string(ip, st, v, n)
    if b in ("boost::any", "std::any") and v.op not in ("any", "any0", "anysym", "opq"):
        if v.op == "rec" and v.a[0] in ip.P.recs:
            return mk("any", v.a[0], v)
    if b in FUNC and v.op == "null":
        return mk("fnull")
    return v


def string_ctor(ip, n, args, pt, st):
    pt = [p for p in pt]
    if args and pt and is_alloc(pt[min(len(pt), len(args)) - 1]):
        args = args[:-1] if len(args) == len(pt) else args
        pt = pt[:len(args)]
    if not args:
        return EMPTY
    t = pt[0] if pt else ""
    if len(args) == 1:
        if "initializer_list" in t:
            v = deref_arg(ip, st, args[0], n)
            if v.op == "seq":
                return cat(*[spiece(mk("chr", e.a[0])) for e in v.a[0] if e.op == "el"])
            return v
        return as_string(ip, st, args[0], n)
    if len(args) == 2 and (isint(args[0]) or args[0].op == "lin"):
        ch = ip.toint(deref_arg(ip, st, args[1], n))
        return cat(spiece(mk("rep", truncbits(ch, 8, False), args[0])))
    if args[0].op == "iter" and args[1].op == "iter":
        s = iter_range(ip, st, args[0], args[1], n)
        if s is not None:
            return s
    if len(args) == 2 and t.endswith("*") and isint(args[1]):
        return mem_string(ip, st, args[0], args[1], n)
    if len(args) == 2 and t.endswith("*") and args[1].op == "bptr" and args[0].op == "bptr" and args[0].a[0] is args[1].a[0]:
        return mem_string(ip, st, args[0], sub(args[1].a[1], args[0].a[1]), n)
    if len(args) in (2, 3) and isint(args[1]):
        # (string, pos[, n])
        s = as_string(ip, st, args[0], n)
        ok = ip.decide(st, ge0(sub(slen(s), args[1])))
        if ok is True:
            k = sub(slen(s), args[1])
            if len(args) == 3 and ip.decide(st, ge0(sub(k, args[2]))) is True:
                k = args[2]
                return substr(s, args[1], k)
            if len(args) == 2 or ip.decide(st, ge0(sub(args[2], k))) is True:
                return substr(s, args[1], k)
    ip.unk(st, "string constructor", n)
    return ssym(mk("nm", ip.fresh("unk")))


def mem_string(ip, st, p, k, n):
    if p.op == "strlit":
        p = mk("bptr", mk("litbuf", lit(p.a[0])), ZERO)
    if p.op == "addr":
        r = bytes_at(ip, st, p, k, n)
        if r is not None:
            return r
    if p.op != "bptr":
        ip.unk(st, "bytes from unresolved pointer", n)
        return ssym(mk("nm", ip.fresh("unk")))
    ip.check_mem(st, p.a[0], p.a[1], k, n, "read of %s byte(s)" % (cval(k) if cval(k) is not None else "n"))
    return ip.mem_bytes(st, p.a[0], p.a[1], k)


def bytes_at(ip, st, p, k, n):
    """string value of k bytes of an object (array element pointer or scalar address)"""
    if p.a[1] and p.a[1][-1][0] == "ix":
        off = p.a[1][-1][1]
        base = ip.load(st, addr(p.a[0], *p.a[1][:-1]), n)
        if base.op == "cat":
            ip.oblige(st, "mem", mk_and(ge0(off), ge0(sub(sub(slen(base), off), k))), n, "read of an array")
            return substr(base, off, k)
        return None
    v = ip.load(st, p, n)
    t = ip.typeof(p, st)
    if t in INTT:
        w = max(8, INTT[t][0]) // 8
        x = ip.toint(v)
        if cval(k) == w and x is not None:
            return cat(spiece(mk("le", x, w) if w > 1 else mk("chr", x)))
    if t in ("double",) and cval(k) == 8:
        if v.op == "dblmem" and v.a[2] == "host":
            return cat(spiece(mk("mem", v.a[0], v.a[1], num(8))))
        return spiece(mk("dbytes", v))
    return None


def write_bytes(ip, st, p, s, n):
    """store the bytes of s at pointer p"""
    if p.op == "bptr":
        b = p.a[0]
        if b.op == "strbuf" and b.a[0] is not None:
            cur = ip.load(st, b.a[0], n)
            if cur.op == "cat":
                ip.oblige(st, "mem", ge0(sub(sub(slen(cur), p.a[1]), slen(s))), n, "write past the end")
                ip.store_(st, b.a[0], replace_sub(cur, p.a[1], slen(s), s), n)
                return True
        ip.ev_(st, "memwrite", n, p, s)
        return True
    if p.op != "addr":
        return False
    if p.a[1] and p.a[1][-1][0] == "ix":
        a0 = addr(p.a[0], *p.a[1][:-1])
        off = p.a[1][-1][1]
        base = ip.load(st, a0, n)
        if base.op == "cat":
            ip.oblige(st, "mem", mk_and(ge0(off), ge0(sub(sub(slen(base), off), slen(s)))), n, "write past the end of an array")
            ip.store_(st, a0, replace_sub(base, off, slen(s), s), n)
            return True
        return False
    t = ip.typeof(p, st)
    k = cval(slen(s))
    if t in INTT and k is not None:
        w, sg = INTT[t]
        w = max(8, w)
        ip.oblige(st, "mem", TRUE if 8 * k <= w else FALSE, n, "write past the end of a variable")
        if 8 * k == w:
            x = int_of(s, k, sg)
            ip.store_(st, p, x if t != "bool" else i2b(x), n)
            return True
        return False
    if t in ("double",) and k == 8:
        ip.store_(st, p, dbl_of(s), n)
        return True
    return False


def iter_range(ip, st, b, e, n):
    """value of [b, e) of one container"""
    if b.op == "iter" and e.op == "iter" and b.a[0] is e.a[0] and isint(b.a[1]) and isint(e.a[1]):
        v = ip.load(st, b.a[0], n)
        ln = slen(v) if v.op == "cat" else sqlen(v) if v.op == "seq" else None
        if ln is None:
            return None
        if b.a[1] is ZERO and e.a[1] is ln:
            return v
        if v.op == "cat":
            return substr(v, b.a[1], sub(e.a[1], b.a[1]))
    return None


# ---------------------------------------------------------------- calls
def call(ip, n, o, args, nodes, st):
    cls = n.get("cls") or ""
    b = tname(strip_cv(cls)) if cls else ""
    m = n.get("sn") or n.get("op") or ""
    if n["k"] == "opcall":
        m = "operator" + n["op"]
    if n.get("conv") or m.startswith("operator bool"):
        m = "operator bool"
    if o is not None:
        h = None
        ot = tname(strip_cv(n.get("oc") or (n.get("ac") or [""])[0] or cls))
        if b in STRING or ot in STRING:
            h = string_m
        elif b in VEC or ot in VEC:
            h = vec_m
        elif b in MAP or ot in MAP:
            h = map_m
        elif ot in PTR or b.startswith("std::__shared_ptr") or b.startswith("std::shared_ptr") or b.startswith("std::unique_ptr"):
            h = ptr_m
        elif b in FUNC or ot in FUNC or b == "std::_Function_base":
            h = func_m
        elif b in LOCKS or ot in LOCKS:
            h = lock_m
        elif b in MUTEX or ot in MUTEX:
            h = mutex_m
        elif b in ("boost::any", "std::any"):
            h = any_m
        elif b == "std::type_info":
            h = tinfo_m
        elif b in STREAM or ot in STREAM:
            h = stream_m
        elif "iterator" in b or "iterator" in ot:
            h = iter_m
        elif b in ("std::atomic", "std::__atomic_base") or ot == "std::atomic":
            h = atomic_m
        elif b in ("boost::thread", "std::thread"):
            h = thread_m
        elif "error_code" in b:
            h = ec_m
        elif "condition_variable" in b or "condition_variable" in ot:
            h = cond_m
        elif b == "std::pair":
            h = pair_m
        elif m == "what":
            return ret(st, cstr_of(ssym(mk("nm", mk("what", o)))))
        elif "socket" in b or "socket" in ot or "socket" in m or "io_context" in b or "io_context" in ot or b.startswith("boost::asio") or ot.startswith("boost::asio"):
            h = asio_m
        if h is not None:
            r = h(ip, n, m, o, args, nodes, st)
            if r is not None:
                return r
        if m == "operator=" and len(args) == 1 and b in ip.P.recs:
            v = deref_arg(ip, st, args[0], n)
            ip.store_(st, o, v, n)
            return ret(st, o)
        if m == "operator=" and len(args) == 1 and not b:
            ip.store_(st, o, deref_arg(ip, st, args[0], n), n)
            return ret(st, o)
        if m == "operator()":
            v = deref_arg(ip, st, o, n)
            if v.op in ("lam", "fnp", "bind", "fsym"):
                return ip.invoke(v, args, st, n, None)
        if n.get("repo") and cls in ip.P.recs and not n.get("pt") and m == "operator=":
            return ret(st, o)
        if not n.get("const"):
            havoc_obj(ip, st, o, n)
        return fail(ip, st, n, "call of %s" % short(n.get("n", m)))
    f = FREE.get(m)
    if f is not None:
        r = f(ip, n, args, nodes, st)
        if r is not None:
            return r
    name = n.get("n", m)
    # unknown function: it may modify what it is given by reference
    for v, t in zip(args, n.get("pt") or []):
        if v.op == "addr" and (t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const ")):
            havoc_obj(ip, st, v, n)
    return fail(ip, st, n, "call of %s" % short(name))


def short(s):
    return re.sub(r"<.*>", "<>", s)


# ---------------------------------------------------------------- std::string
def npos_or(ip, st, s, pos, k):
    return k


def string_m(ip, n, m, o, args, nodes, st):
    s = ip.load(st, o, n)
    if s.op == "uninit":
        ip.oblige(st, "uninit", FALSE, n, "read of uninitialised value")
    if s.op != "cat":
        if s.op == "opq":
            s = ssym(mk("nm", s))
            ip.store_(st, o, s, n)
        else:
            return None
    sb = "unsigned char" not in (n.get("oc") or n.get("cls") or "")
    L = slen(s)

    def put(v):
        ip.store_(st, o, v, n)
        return ret(st, o)
    if m in ("size", "length"):
        return ret(st, L)
    if m == "empty":
        return ret(st, eq0(L))
    if m == "clear":
        return put(EMPTY)
    if m in ("c_str", "data"):
        return ret(st, mk("bptr", mk("strbuf", o, s), ZERO))
    if m == "operator=" or m == "assign":
        if len(args) == 1:
            return put(as_string(ip, st, args[0], n))
        if len(args) == 2:
            return put(string_ctor(ip, n, args, n["pt"], st))
        return None
    if m in ("operator+=", "append", "push_back"):
        if len(args) == 1:
            if "initializer_list" in (n.get("pt") or [""])[0]:
                return None
            return put(cat(s, as_string(ip, st, args[0], n)))
        return put(cat(s, string_ctor(ip, n, args, n["pt"], st)))
    if m in ("operator[]", "at"):
        i = args[0]
        if m == "at":
            sts = throw_if(ip, st, neg(ge0(addc(sub(L, i), -1))), "std::out_of_range", n)
            return [(x, sub_addr(o, ("ix", i, sb))) for x in sts]
        # s[size()] is the terminator (readable)
        ip.oblige(st, "mem", ge0(sub(L, i)), n, "string index")
        if ip.decide(st, eq0(sub(L, i))) is True:
            return ret(st, ip.temp(st, ZERO, n, "char"))
        return ret(st, sub_addr(o, ("ix", i, sb)))
    if m in ("front", "back"):
        ip.oblige(st, "mem", ge0(addc(L, -1)), n, m + " of an empty string")
        return ret(st, sub_addr(o, ("ix", ZERO if m == "front" else addc(L, -1), sb)))
    if m == "pop_back":
        ip.oblige(st, "mem", ge0(addc(L, -1)), n, "pop_back of an empty string")
        return put(substr(s, ZERO, addc(L, -1)))
    if m in ("begin", "cbegin"):
        return ret(st, mk("iter", o, ZERO))
    if m in ("end", "cend"):
        return ret(st, mk("iter", o, L))
    if m in ("reserve", "shrink_to_fit"):
        return ret(st, VOID)
    if m == "capacity":
        return None
    if m == "resize":
        k = args[0]
        ch = ip.toint(args[1]) if len(args) > 1 else ZERO
        out = []
        a, b = ip.split(st, ge0(sub(L, k)))
        for x in a:
            ip.store_(x, o, substr(s, ZERO, k), n)
            out.append((x, VOID))
        for x in b:
            ip.store_(x, o, cat(s, spiece(mk("rep", ch, sub(k, L)))), n)
            out.append((x, VOID))
        return out
    if m == "substr":
        pos = args[0] if args else ZERO
        cnt = args[1] if len(args) > 1 else NPOS
        out = []
        for x in throw_if(ip, st, neg(ge0(sub(L, pos))), "std::out_of_range", n):
            rest = sub(L, pos)
            if cnt is NPOS:
                out.append((x, substr(s, pos, rest)))
                continue
            a, b = ip.split(x, ge0(sub(rest, cnt)))
            out += [(y, substr(s, pos, cnt)) for y in a]
            out += [(y, substr(s, pos, rest)) for y in b]
        return out
    if m == "erase":
        if args and args[0].op == "iter":
            pos = args[0].a[1]
            end = args[1].a[1] if len(args) > 1 and args[1].op == "iter" else addc(pos, 1)
            ip.oblige(st, "mem", mk_and(ge0(pos), ge0(sub(L, end))), n, "erase outside the string")
            ip.store_(st, o, cat(substr(s, ZERO, pos), substr(s, end, sub(L, end))), n)
            return ret(st, mk("iter", o, pos))
        pos = args[0] if args else ZERO
        cnt = args[1] if len(args) > 1 else NPOS
        out = []
        for x in throw_if(ip, st, neg(ge0(sub(L, pos))), "std::out_of_range", n):
            rest = sub(L, pos)
            if cnt is NPOS:
                ip.store_(x, o, substr(s, ZERO, pos), n)
                out.append((x, o))
                continue
            a, b = ip.split(x, ge0(sub(rest, cnt)))
            for y in a:
                e = add(pos, cnt)
                ip.store_(y, o, cat(substr(s, ZERO, pos), substr(s, e, sub(L, e))), n)
                out.append((y, o))
            for y in b:
                ip.store_(y, o, substr(s, ZERO, pos), n)
                out.append((y, o))
        return out
    if m == "insert" and len(args) == 2 and isint(args[0]):
        out = []
        r = as_string(ip, st, args[1], n)
        for x in throw_if(ip, st, neg(ge0(sub(L, args[0]))), "std::out_of_range", n):
            ip.store_(x, o, cat(substr(s, ZERO, args[0]), r, substr(s, args[0], sub(L, args[0]))), n)
            out.append((x, o))
        return out
    if m == "replace" and args and isint(args[0]) and len(args) in (3, 4):
        pos, cnt = args[0], args[1]
        r = as_string(ip, st, args[2], n) if len(args) == 3 else mem_string(ip, st, args[2], args[3], n) if args[2].op in ("bptr", "strlit", "addr") and n["pt"][2].endswith("*") else None
        if r is None:
            return None
        out = []
        for x in throw_if(ip, st, neg(ge0(sub(L, pos))), "std::out_of_range", n):
            a, b = ip.split(x, ge0(sub(sub(L, pos), cnt)))
            for y in a:
                ip.store_(y, o, replace_sub(s, pos, cnt, r), n)
                out.append((y, o))
            for y in b:
                ip.store_(y, o, cat(substr(s, ZERO, pos), r), n)
                out.append((y, o))
        return out
    if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        return find_m(ip, n, m, s, args, st)
    if m in ("starts_with", "ends_with"):
        p = as_string(ip, st, args[0], n)
        out = []
        a, b = ip.split(st, ge0(sub(L, slen(p))))
        for x in a:
            out.append((x, prefix_eq(ip, x, s, p) if m == "starts_with" else ip.streq(substr(s, sub(L, slen(p)), slen(p)), p)))
        out += [(x, FALSE) for x in b]
        return out
    if m == "compare":
        out = []
        if len(args) == 1:
            todo = [(st, s, as_string(ip, st, args[0], n))]
        elif len(args) in (3, 5) and isint(args[0]):
            todo = []
            p = as_string(ip, st, args[2], n)
            if len(args) == 5:
                if not all(isint(x) and cval(x) is not None for x in (slen(p), args[3], args[4])) or cval(args[3]) > cval(slen(p)):
                    return None
                p = substr(p, args[3], num(min(cval(args[4]), cval(slen(p)) - cval(args[3]))))
            for x in throw_if(ip, st, neg(ge0(sub(L, args[0]))), "std::out_of_range", n):
                rest = sub(L, args[0])
                if args[1] is NPOS:
                    todo.append((x, substr(s, args[0], rest), p))
                    continue
                a, b = ip.split(x, ge0(sub(rest, args[1])))
                if args[0] is ZERO and args[1] is slen(p):
                    for y in a:
                        c = prefix_eq(ip, y, s, p)
                        todo.append((y, s, s) if c is TRUE else (y, EMPTY, lit("-")) if c is FALSE else (y, substr(s, ZERO, args[1]), p))
                else:
                    todo += [(y, substr(s, args[0], args[1]), p) for y in a]
                todo += [(y, substr(s, args[0], rest), p) for y in b]
        else:
            return None
        for x, u, v in todo:
            a, b = ip.split(x, ip.streq(u, v))
            out += [(y, ZERO) for y in a]
            for y in b:
                if strconst(u) is not None and strconst(v) is not None:
                    out.append((y, num(-1 if strconst(u) < strconst(v) else 1)))
                    continue
                r = mk("app", "strcmp", (u, v), -(1 << 31), (1 << 31) - 1)
                y.facts = y.facts | {neg(eq0(atom(r)))}
                out.append((y, atom(r)))
        return out
    if m == "swap" and args and args[0].op == "addr":
        v = ip.load(st, args[0], n)
        ip.store_(st, args[0], s, n)
        ip.store_(st, o, v, n)
        return ret(st, VOID)
    if m == "copy":
        return None
    if m == "operator basic_string_view":
        return ret(st, s)
    if m == "remove_prefix":
        ip.oblige(st, "mem", ge0(sub(L, args[0])), n, "remove_prefix beyond the end")
        return put(substr(s, args[0], sub(L, args[0])))
    if m == "remove_suffix":
        ip.oblige(st, "mem", ge0(sub(L, args[0])), n, "remove_suffix beyond the end")
        return put(substr(s, ZERO, sub(L, args[0])))
    return None


IDCHARS = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def lacks(ip, st, piece, chars):
    """no byte of the piece is one of chars"""
    if piece.op == "ssym" and isinstance(piece.a[0], T) and piece.a[0].op == "blk" and str(piece.a[0].a[0]).startswith("id:"):
        return not any(c in IDCHARS for c in chars)
    if piece.op == "chr":
        x = truncbits(piece.a[0], 8, False)
        return all(ip.decide(st, eq0(addc(x, -c))) is False for c in chars)
    return False


def pieces_at(ip, st, s, chars):
    """s divided at every one of chars, when it is certain where they are"""
    out, cur = [], []
    for p in s.a[0]:
        if isinstance(p, bytes):
            k = 0
            for i, c in enumerate(p):
                if c in chars:
                    cur.append(lit(p[k:i]))
                    out.append(cat(*cur) if cur else EMPTY)
                    cur = []
                    k = i + 1
            cur.append(lit(p[k:]))
        elif lacks(ip, st, p, chars):
            cur.append(spiece(p))
        else:
            return None
    out.append(cat(*cur) if cur else EMPTY)
    return out


def tokens_of(ip, st, v):
    f = dict(v.a[-1])
    sep = f["sep"]
    while sep.op == "rec":
        x = [w for k, w in sep.a[-1] if w.op == "cat"]
        if not x:
            return None
        sep = x[0]
    c = strconst(sep) if sep.op == "cat" else None
    if c is None or f["s"].op != "cat":
        return None
    return pieces_at(ip, st, f["s"], c)


def prefix_eq(ip, st, s, p):
    """p, which is no longer than s, begins s"""
    a, b = list(s.a[0]), list(p.a[0])
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, bytes) and isinstance(y, bytes):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return FALSE
            a[0], b[0] = x[k:], y[k:]
        elif isinstance(x, T) and isinstance(y, T) and x.op == y.op == "chr":
            d = ip.decide(st, eq0(sub(truncbits(x.a[0], 8, False), truncbits(y.a[0], 8, False))))
            if d is False:
                return FALSE
            if d is None:
                break
            a.pop(0)
            b.pop(0)
            continue
        elif x is y:
            a.pop(0)
            b.pop(0)
            continue
        else:
            # a text without the byte the other goes on with
            for u, v in ((x, y), (y, x)):
                if isinstance(u, bytes) and isinstance(v, T) and lacks(ip, st, v, u[:1]) and ip.decide(st, ge0(addc(slen(spiece(v)), -1))) is True:
                    return FALSE
            break
        if not a[0]:
            a.pop(0)
        if not b[0]:
            b.pop(0)
    s, p = cat(*[lit(x) if isinstance(x, bytes) else spiece(x) for x in a]), cat(*[lit(x) if isinstance(x, bytes) else spiece(x) for x in b])
    if not p.a[0]:
        return TRUE
    return ip.streq(substr(s, ZERO, slen(p)), p)


def matches(ip, st, ps, i, c, k):
    """the rest of c, from its k-th byte, stands where the i-th piece begins: True, False or None"""
    if k == len(c):
        return True
    if i == len(ps):
        return False
    x = ps[i]
    if isinstance(x, bytes):
        w = min(len(x), len(c) - k)
        return x[:w] == c[k:k + w] and (k + w == len(c) or matches(ip, st, ps, i + 1, c, k + w))
    if within(ip, st, ps, i, c, k) is None:
        return None
    if ip.decide(st, ge0(addc(slen(spiece(x)), -1))) is True:
        return False
    return False if matches(ip, st, ps, i + 1, c, k) is False else None


def within(ip, st, ps, i, c, k):
    """False when no part of the rest of c, one byte at least, can be in the i-th piece with what follows after it"""
    for j in range(k, len(c)):
        if lacks(ip, st, ps[i], c[j:j + 1]):
            return False
        if j + 1 == len(c) or matches(ip, st, ps, i + 1, c, j + 1) is not False:
            return None
    return False


def find_text(ip, st, s, c):
    """where c is first found, when that is certain: position, False for nowhere, None"""
    ps, off = s.a[0], ZERO
    for i, x in enumerate(ps):
        if isinstance(x, bytes):
            for t in range(len(x)):
                w = min(len(x) - t, len(c))
                if x[t:t + w] == c[:w]:
                    r = w == len(c) or matches(ip, st, ps, i + 1, c, w)
                    if r is not False:
                        return addc(off, t) if r else None
            off = addc(off, len(x))
        else:
            if within(ip, st, ps, i, c, 0) is not False:
                return None
            off = add(off, slen(spiece(x)))
    return False


def find_m(ip, n, m, s, args, st):
    p = as_string(ip, st, args[0], n)
    pos = args[1] if len(args) > 1 else (ZERO if m.startswith("find_f") or m == "find" else NPOS)
    cs, cp, cpos = strconst(s), strconst(p), cval(pos)
    if cs is not None and cp is not None and cpos is not None:
        if m == "find":
            r = cs.find(cp, cpos) if cpos <= len(cs) else -1
        elif m == "rfind":
            r = cs.rfind(cp, 0, min(cpos, len(cs)) + len(cp))
        elif m == "find_first_of":
            r = next((i for i in range(cpos, len(cs)) if cs[i] in cp), -1)
        elif m == "find_last_of":
            r = next((i for i in range(min(cpos, len(cs) - 1), -1, -1) if cs[i] in cp), -1)
        elif m == "find_first_not_of":
            r = next((i for i in range(cpos, len(cs)) if cs[i] not in cp), -1)
        else:
            r = next((i for i in range(min(cpos, len(cs) - 1), -1, -1) if cs[i] not in cp), -1)
        return ret(st, NPOS if r < 0 else num(r))
    L = slen(s)
    out = []
    if m == "rfind" and cpos == 0 or m == "find" and pos is ZERO and False:
        a, b = ip.split(st, ge0(sub(L, slen(p))))
        for x in a:
            c, d = ip.split(x, prefix_eq(ip, x, s, p))
            out += [(y, ZERO) for y in c] + [(y, NPOS) for y in d]
        out += [(x, NPOS) for x in b]
        return out
    if cp and cpos == 0 and (m == "find_first_of" or m == "find" and len(cp) == 1):
        off = ZERO
        for x in s.a[0]:
            if isinstance(x, bytes):
                k = next((i for i, c in enumerate(x) if c in cp), None)
                if k is not None:
                    return ret(st, addc(off, k))
                off = addc(off, len(x))
            elif lacks(ip, st, x, cp):
                off = add(off, slen(spiece(x)))
            else:
                break
        else:
            return ret(st, NPOS)
    if m == "find" and cpos == 0 and cp and len(cp) > 1:
        v = find_text(ip, st, s, cp)
        if v is not None:
            return ret(st, NPOS if v is False else v)
    if m == "find" and cpos == 0 and (cp is None or len(cp) > 1):
        # at the beginning or not is what callers ask
        out = []
        a, b = ip.split(st, ge0(sub(L, slen(p))))
        for x in a:
            c = prefix_eq(ip, x, s, p)
            d = ip.decide(x, c)
            if d is True:
                out.append((x, ZERO))
            elif d is False or d is None and not (c.op == "seq=" and any(y.op == "subs" for y in subterms(c))):
                yes, no = ip.split(x, c)
                out += [(y, ZERO) for y in yes]
                for y in no:
                    out += [(z, v) for z, v in find_later(ip, m, s, p, y)]
            else:
                out += find_later(ip, m, s, p, x, False)
        out += [(x, NPOS) for x in b]
        return out
    w = slen(p) if m in ("find", "rfind") else ONE
    f = mk("app", m, (s, p, pos), 0, (1 << 64) - 1)
    has = mk("bapp", "found", f)
    a, b = ip.split(st, has)
    for x in a:
        v = atom(f)
        new = {ge0(v), ge0(sub(sub(L, w), v)), ge0(sub(num(1 << 62), v))}
        if m in ("find", "find_first_of", "find_first_not_of"):
            new.add(ge0(sub(v, pos)))
        x.facts = x.facts | {c for c in new if c is not TRUE}
        if ip.consistent_all(x):
            out.append((x, v))
    out += [(x, NPOS) for x in b]
    return out


def find_later(ip, m, s, p, st, after=True):
    """found somewhere (after the beginning), or not at all"""
    v = atom(mk("app", m, (s, p, ZERO), 0, (1 << 64) - 1))
    a, b = ip.split(st, mk("bapp", "found", v.a[1][0][0]))
    out = []
    for x in a:
        new = {ge0(addc(v, -1)) if after else ge0(v), ge0(sub(sub(slen(s), slen(p)), v)), ge0(sub(num(1 << 62), v))}
        x.facts = x.facts | {c for c in new if c is not TRUE}
        if ip.consistent_all(x):
            out.append((x, v))
    return out + [(x, NPOS) for x in b]


# ---------------------------------------------------------------- containers
def vec_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if v.op == "cat":
        return string_m(ip, n, m, o, args, nodes, st)
    if v.op != "seq":
        return None
    L = sqlen(v)

    def put(x):
        ip.store_(st, o, x, n)
        return ret(st, VOID)
    if m == "size":
        return ret(st, L)
    if m == "empty":
        return ret(st, eq0(L))
    if m == "clear":
        ip.ev_(st, "clear", n, o)
        return put(seq())
    if m in ("push_back", "emplace_back"):
        x = deref_arg(ip, st, args[0], n) if args else mk("uninit", "?")
        et = (targs(strip_cv(n.get("oc") or n.get("cls") or "")) or [None])[0]
        if m == "emplace_back" and (len(args) != 1 or et in ip.P.recs and x.op != "rec"):
            return None
        x = conv(ip, st, x, et, n)
        ip.ev_(st, "push", n, o, x)
        ip.store_(st, o, mk("seq", v.a[0] + (mk("el", x),)), n)
        return ret(st, sub_addr(o, ("ix", L)) if n.get("lv") else VOID)
    if m == "push":
        x = deref_arg(ip, st, args[0], n)
        ip.ev_(st, "push", n, o, x)
        return put(mk("seq", v.a[0] + (mk("el", x),)))
    if m in ("operator[]", "at"):
        i = args[0]
        if m == "at":
            sts = throw_if(ip, st, neg(ge0(addc(sub(L, i), -1))), "std::out_of_range", n)
            return [(x, sub_addr(o, ("ix", i))) for x in sts]
        ip.oblige(st, "mem", mk_and(ge0(i), ge0(addc(sub(L, i), -1))), n, "vector index")
        return ret(st, sub_addr(o, ("ix", i)))
    if m in ("front", "back"):
        ip.oblige(st, "mem", ge0(addc(L, -1)), n, m + " of an empty container")
        if not v.a[0]:
            return []
        return ret(st, sub_addr(o, ("ix", ZERO if m == "front" else addc(L, -1))))
    if m in ("pop_back",):
        ip.oblige(st, "mem", ge0(addc(L, -1)), n, "pop_back of an empty container")
        if not v.a[0]:
            return []
        if v.a[0] and v.a[0][-1].op == "el":
            return put(mk("seq", v.a[0][:-1]))
        return None
    if m in ("pop_front", "pop"):
        ip.oblige(st, "mem", ge0(addc(L, -1)), n, m + " of an empty container")
        if not v.a[0]:
            return []
        if v.a[0] and v.a[0][0].op == "el":
            ip.ev_(st, "pop", n, o, v.a[0][0].a[0])
            return put(mk("seq", v.a[0][1:]))
        ip.ev_(st, "pop", n, o, ip.elem(v, ZERO, st))
        if v.a[0] and v.a[0][0].op == "vsym":
            p = v.a[0][0]
            r = mk("vsym", mk("nm", mk("tail", p)), p.a[1])
            st.facts = st.facts | {eq0(sub(addc(atom(mk("len", r)), 1), atom(mk("len", p))))}
            return put(mk("seq", (r,) + v.a[0][1:]))
        return None
    if m in ("begin", "cbegin"):
        return ret(st, mk("iter", o, ZERO))
    if m in ("end", "cend"):
        return ret(st, mk("iter", o, L))
    if m in ("reserve", "shrink_to_fit"):
        return ret(st, VOID)
    if m == "operator=":
        x = deref_arg(ip, st, args[0], n)
        if x.op == "seq":
            ip.store_(st, o, x, n)
            return ret(st, o)
        return None
    if m == "swap" and args and args[0].op == "addr":
        x = ip.load(st, args[0], n)
        ip.store_(st, args[0], v, n)
        return put(x)
    if m == "resize" and cval(args[0]) is not None and cval(L) is not None:
        k, l = cval(args[0]), cval(L)
        et = (targs(strip_cv(n.get("oc") or n.get("cls") or "")) or ["?"])[0]
        if k <= l:
            return put(mk("seq", v.a[0][:k]))
        return put(mk("seq", v.a[0] + (mk("el", ip.zero(et)),) * (k - l)))
    if m == "erase" and len(args) == 2:
        if args[0].op == "iter" and args[1].op == "iter" and args[0].a[1] is ZERO and args[1].a[1] is L:
            return put(seq())
    if m == "erase" and len(args) == 1 and args[0].op == "iter" and cval(args[0].a[1]) is not None and all(p.op == "el" for p in v.a[0]):
        i = cval(args[0].a[1])
        if 0 <= i < len(v.a[0]):
            ip.store_(st, o, mk("seq", v.a[0][:i] + v.a[0][i + 1:]), n)
            return ret(st, mk("iter", o, num(i)))
    if m == "erase" and len(args) == 1 and args[0].op == "iter" and args[0].a[1] is ZERO and v.a[0] and v.a[0][0].op == "vsym":
        vec_m(ip, n, "pop_front", o, [], [], st)
        return ret(st, mk("iter", o, ZERO))
    if m == "insert" and len(args) == 2 and args[0].op == "iter" and cval(args[0].a[1]) is not None and all(p.op == "el" for p in v.a[0]) and not (args[1].op == "iter"):
        i = cval(args[0].a[1])
        if 0 <= i <= len(v.a[0]):
            x = conv(ip, st, deref_arg(ip, st, args[1], n), (targs(strip_cv(n.get("oc") or n.get("cls") or "")) or [None])[0], n)
            ip.store_(st, o, mk("seq", v.a[0][:i] + (mk("el", x),) + v.a[0][i:]), n)
            return ret(st, mk("iter", o, num(i)))
    if m in ("push_front", "emplace_front") and len(args) == 1:
        x = conv(ip, st, deref_arg(ip, st, args[0], n), (targs(strip_cv(n.get("oc") or n.get("cls") or "")) or [None])[0], n)
        ip.store_(st, o, mk("seq", (mk("el", x),) + v.a[0]), n)
        return ret(st, VOID)
    return None


def map_lookup(ip, st, m, key):
    """[(state, present?, value)]"""
    ops = m.a[1]
    i = len(ops)
    todo = [(st, i)]
    out = []
    while todo:
        s, i = todo.pop()
        done = False
        while i > 0:
            op = ops[i - 1]
            i -= 1
            if op[0] == "clear":
                out.append((s, False, None))
                done = True
                break
            if op[0] not in ("put", "del"):
                continue
            c = ip.equal(s, op[1], key, {})
            d = ip.decide(s, c)
            if d is None:
                a, b = ip.split(s, c)
                for x in a:
                    out.append((x, op[0] == "put", op[2] if op[0] == "put" else None))
                for x in b:
                    todo.append((x, i))
                done = True
                break
            if d:
                out.append((s, op[0] == "put", op[2] if op[0] == "put" else None))
                done = True
                break
        if done:
            continue
        base = m.a[0]
        if base.op == "mempty":
            out.append((s, False, None))
            continue
        c = mk("bapp", "has", base, key)
        a, b = ip.split(s, c)
        for x in a:
            out.append((x, True, None))
        for x in b:
            out.append((x, False, None))
    return out


def map_keys(ip, st, v):
    """the keys present, in order where it is known; None when not known"""
    if v.op != "map" or v.a[0].op != "mempty":
        return None
    keys = []
    for op in v.a[1]:
        if op[0] == "clear":
            keys = []
            continue
        if op[0] not in ("put", "del"):
            return None
        hit = []
        for k in keys:
            d = ip.decide(st, ip.equal(st, k, op[1], {}))
            if d is None:
                return None
            if d:
                hit.append(k)
        if op[0] == "put" and not hit:
            keys.append(op[1])
        if op[0] == "del":
            keys = [k for k in keys if k not in hit]
    if all(isint(k) and cval(k) is not None for k in keys):
        keys.sort(key=cval)
    elif all(k.op == "cat" and strconst(k) is not None for k in keys):
        keys.sort(key=strconst)
    return keys


def same_key(ip, st, v, key):
    """the key under which the map holds the element found by this one"""
    if v.op == "map":
        for op in reversed(v.a[1]):
            if op[0] in ("put", "del") and (op[1] is key or ip.decide(st, ip.equal(st, op[1], key, {})) is True):
                return op[1]
    return key


def map_after(ip, st, o, v, key, n):
    """position after the one of this key"""
    keys = map_keys(ip, st, v)
    if keys is None:
        return None
    for i, k in enumerate(keys):
        if k is key or ip.decide(st, ip.equal(st, k, key, {})) is True:
            return mk("iter", o, mk("mkey", keys[i + 1]) if i + 1 < len(keys) else mk("mend"))
    ip.oblige(st, "life", FALSE, n, "iterator of an erased element")
    return None


def map_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if v.op != "map":
        return None
    ta = targs(strip_cv(n.get("oc") or n.get("cls") or ""))
    kt = ta[0] if ta else None
    vt = ta[1] if len(ta) > 1 else None
    if m in ("end", "cend"):
        return ret(st, mk("iter", o, mk("mend")))
    if m in ("begin", "cbegin"):
        ks = map_keys(ip, st, v)
        if ks is not None:
            return ret(st, mk("iter", o, mk("mkey", ks[0]) if ks else mk("mend")))
        return ret(st, mk("iter", o, mk("mit", mk("nm", ip.fresh("mit")), kt or "?")))
    if m == "clear":
        ip.ev_(st, "clear", n, o)
        ip.unused(st, o, n)
        ip.store_(st, o, mk("map", mk("mempty"), ()), n)
        return ret(st, VOID)
    if m in ("size",):
        if v.a[0].op == "mempty" and not v.a[1]:
            return ret(st, ZERO)
        return ret(st, atom(mk("app", "msize", (v,), 0, 1 << 62)))
    if m == "empty":
        if v.a[0].op == "mempty" and not v.a[1]:
            return ret(st, TRUE)
        return ret(st, eq0(atom(mk("app", "msize", (v,), 0, 1 << 62))))
    if m == "operator=":
        x = deref_arg(ip, st, args[0], n)
        if x.op == "map":
            ip.store_(st, o, x, n)
            return ret(st, o)
        return None
    if m == "swap" and args and args[0].op == "addr":
        x = ip.load(st, args[0], n)
        ip.store_(st, args[0], v, n)
        ip.store_(st, o, x, n)
        return ret(st, VOID)
    key = None
    if args:
        key = conv(ip, st, args[0], kt, n) if args[0].op != "iter" else None
    if m in ("lower_bound", "upper_bound") and key is not None and not (n.get("oc") or n.get("cls") or "").startswith("std::unordered"):
        ks = map_keys(ip, st, v)
        plain = (lambda k: cval(k) if isint(k) else strconst(k) if k.op == "cat" else None)
        if ks is None or plain(key) is None or any(plain(k) is None for k in ks):
            return None
        for k in ks:
            if plain(k) > plain(key) or m == "lower_bound" and plain(k) == plain(key):
                return ret(st, mk("iter", o, mk("mkey", k)))
        return ret(st, mk("iter", o, mk("mend")))
    if m in ("find", "count", "contains", "at") and key is not None:
        out = []
        for s, p, x in map_lookup(ip, st, v, key):
            if m == "find":
                ip.ev_(s, "find", n, o, key, TRUE if p else FALSE)
                out.append((s, mk("iter", o, mk("mkey", same_key(ip, s, v, key)) if p else mk("mend"))))
            elif m == "count":
                out.append((s, ONE if p else ZERO))
            elif m == "contains":
                out.append((s, TRUE if p else FALSE))
            else:
                if p:
                    out.append((s, sub_addr(o, ("key", same_key(ip, s, v, key)))))
                else:
                    ip.throw(s, "std::out_of_range", n)
        return out
    if m == "erase" and len(args) == 1:
        if args[0].op == "iter":
            pos = args[0].a[1]
            if pos.op == "mkey":
                ip.ev_(st, "mapdel", n, o, pos.a[0])
                nx = map_after(ip, st, o, v, pos.a[0], n)
                ip.unused(st, sub_addr(o, ("key", pos.a[0])), n)
                ip.store_(st, o, mk("map", v.a[0], v.a[1] + (("del", pos.a[0]),)), n)
                if nx is not None:
                    return ret(st, nx)
                return ret(st, mk("iter", o, mk("mit", mk("nm", ip.fresh("mit")), kt or "?")))
            if pos.op == "mit":
                k = mit_key(ip, pos)
                ip.ev_(st, "mapdel", n, o, k)
                ip.store_(st, o, mk("map", v.a[0], v.a[1] + (("del", k),)), n)
                return ret(st, mk("iter", o, mk("mit", mk("nm", ip.fresh("mit")), kt or "?")))
            if pos.op == "mend":
                ip.oblige(st, "mem", FALSE, n, "erase of end()")
                return ret(st, args[0])
            return None
        ip.ev_(st, "mapdel", n, o, key)
        ip.unused(st, sub_addr(o, ("key", key)), n)
        ip.store_(st, o, mk("map", v.a[0], v.a[1] + (("del", key),)), n)
        return ret(st, atom(mk("app", "erased", (v, key), 0, 1)))
    if m in ("emplace", "insert", "try_emplace", "insert_or_assign"):
        if m == "insert" and len(args) == 1:
            p = deref_arg(ip, st, args[0], n)
            if p.op != "rec":
                return None
            key, val = ip.field(p, "first"), ip.field(p, "second")
            key, val = conv(ip, st, key, kt, n), conv(ip, st, val, vt, n)
        elif m == "emplace" and len(args) == 1:
            p = deref_arg(ip, st, args[0], n)
            if p.op != "rec":
                return None
            key, val = conv(ip, st, ip.field(p, "first"), kt, n), conv(ip, st, ip.field(p, "second"), vt, n)
        elif len(args) == 2:
            val = conv(ip, st, args[1], vt, n)
            if vt in ip.P.recs and val.op != "rec":
                cs = [f for f in ip.P.funcs.values() if f.get("ctor") and f.get("cls") == vt and len(f["ps"]) == 1]
                if len(cs) == 1:
                    root = ip.fresh("emp")
                    ip.rootty[root] = vt
                    r = ip.call_fn(cs[0], addr(root), [args[1]], st, n, ctor=True)
                    if len(r) == 1:
                        st = r[0][0]
                        val = st.store.pop(root)
                        v = ip.load(st, o, n)
                    else:
                        return None
                else:
                    return None
        else:
            return None
        out = []
        for s, p, x in map_lookup(ip, st, v, key):
            cur = ip.load(s, o, n)
            if not p or m == "insert_or_assign":
                ip.ev_(s, "mapput", n, o, key, val)
                ip.store_(s, o, mk("map", cur.a[0], cur.a[1] + (("put", key, val),)), n)
            else:
                ip.ev_(s, "mapkeep", n, o, key, val)
            out.append((s, mk("rec", "std::pair<it,bool>", None, (("first", mk("iter", o, mk("mkey", key))), ("second", FALSE if p and m != "insert_or_assign" else TRUE)))))
        return out
    if m == "operator[]":
        out = []
        for s, p, x in map_lookup(ip, st, v, key):
            if not p:
                cur = ip.load(s, o, n)
                d = ip.zero(vt) if vt and (strip_cv(vt) in INTT or ip.default(vt) is not None) else mk("rec", vt or "?", None, ())
                ip.ev_(s, "mapdef", n, o, key)
                ip.store_(s, o, mk("map", cur.a[0], cur.a[1] + (("put", key, d),)), n)
            out.append((s, sub_addr(o, ("key", same_key(ip, s, v, key) if p else key))))
        return out
    return None


def mit_key(ip, pos):
    return ip.symval(pos.a[1], mk("nf", pos, "key"))


def pair_m(ip, n, m, o, args, nodes, st):
    if m == "operator=":
        v = deref_arg(ip, st, args[0], n)
        if v.op == "rec":
            t = ip.typeof(o, st)
            ta = targs(t or "")
            f = conv(ip, st, ip.field(v, "first"), ta[0] if ta else None, n)
            s = conv(ip, st, ip.field(v, "second"), ta[1] if len(ta) > 1 else None, n)
            ip.store_(st, o, mk("rec", t or v.a[0], None, (("first", f), ("second", s))), n)
            return ret(st, o)
    return None


# ---------------------------------------------------------------- pointers, functions
def ptr_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if m in ("operator->", "get"):
        return ret(st, v)
    if m == "operator*":
        return ret(st, ip.deref(st, v, n.get("t", "?"), n))
    if m == "operator bool":
        return ret(st, ip.tobool(st, v))
    if m == "reset":
        ip.store_(st, o, args[0] if args else NULL, n)
        ip.ev_(st, "asg", n, o, args[0] if args else NULL)
        return ret(st, VOID)
    if m == "operator=":
        x = args[0]
        if x.op == "addr" and (ip.is_smart(st, x) or (n.get("pt") or [""])[0].endswith("&")):
            x = ip.load(st, x, n)
        ip.store_(st, o, x, n)
        ip.ev_(st, "asg", n, o, x)
        return ret(st, o)
    if m == "release":
        ip.store_(st, o, NULL, n)
        return ret(st, v)
    return None


def func_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if m == "operator()":
        ip.running.append(o)
        try:
            return ip.invoke(v, args, st, n, o)
        finally:
            ip.running.pop()
    if m == "operator bool":
        return ret(st, ip.tobool(st, v))
    if m == "operator=":
        ip.unused(st, o, n)
        x = args[0]
        if x.op == "addr":
            x = ip.load(st, x, n)
        if x.op == "null":
            x = mk("fnull")
        ip.store_(st, o, x, n)
        ip.ev_(st, "asg", n, o, x)
        return ret(st, o)
    if m == "swap" and args and args[0].op == "addr":
        x = ip.load(st, args[0], n)
        ip.store_(st, args[0], v, n)
        ip.store_(st, o, x, n)
        return ret(st, VOID)
    if m == "_M_empty":
        return ret(st, neg(ip.tobool(st, v)))
    return None


def lock_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if v.op != "lock":
        return None
    if m == "lock":
        sts = [st]
        for x in v.a[0]:
            sts = [z for y in sts for z in ip.acquire(y, x, n)]
        for s in sts:
            ip.store_(s, o, mk("lock", v.a[0], TRUE), n)
        return [(s, VOID) for s in sts]
    if m == "unlock":
        for x in reversed(v.a[0]):
            ip.release(st, x, n)
        ip.store_(st, o, mk("lock", v.a[0], FALSE), n)
        return ret(st, VOID)
    if m in ("owns_lock", "operator bool"):
        return ret(st, v.a[1])
    return None


def mutex_m(ip, n, m, o, args, nodes, st):
    if m in ("lock", "lock_shared"):
        return [(s, VOID) for s in ip.acquire(st, o, n)]
    if m in ("unlock", "unlock_shared"):
        ip.release(st, o, n)
        return ret(st, VOID)
    return None


# ---------------------------------------------------------------- any, type_info
def any_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if m == "type":
        return ret(st, ip.temp(st, any_type(v), n, "std::type_info"))
    if m in ("empty",):
        return ret(st, any_empty(v))
    if m == "has_value":
        return ret(st, neg(any_empty(v)))
    if m == "operator=":
        x = deref_arg(ip, st, args[0], n)
        if x.op not in ("any", "any0", "anysym"):
            ty = strip_cv(n["pt"][0].rstrip("& ").strip())
            x = mk("any", ty, x)
        ip.store_(st, o, x, n)
        return ret(st, o)
    if m in ("clear", "reset"):
        ip.store_(st, o, mk("any0"), n)
        return ret(st, VOID)
    if m == "swap" and args and args[0].op == "addr":
        x = ip.load(st, args[0], n)
        ip.store_(st, args[0], v, n)
        ip.store_(st, o, x, n)
        return ret(st, o)
    return None


def any_type(v):
    if v.op == "any":
        return mk("ty", v.a[0])
    if v.op == "any0":
        return mk("ty", "void")
    return mk("tyof", v)


def any_empty(v):
    if v.op == "any":
        return FALSE
    if v.op == "any0":
        return TRUE
    return mk("bapp", "anyis", v, mk("ty", "void"))


def any_cast(ip, n, args, nodes, st):
    rt = (n.get("ta") or [n["t"]])[0]
    a = args[0]
    pt = (n.get("pt") or [""])[0]
    ptr = pt.rstrip().endswith("*")
    want = strip_cv(rt.rstrip("& ").strip())
    if ptr:
        want = strip_cv(want.rstrip("*").strip())
        if a.op == "null":
            return ret(st, NULL)
    if a.op != "addr":
        a = ip.temp(st, a, n, "boost::any")
    v = ip.load(st, a, n)
    out = []
    if v.op == "any":
        hits, miss = ([st], []) if v.a[0] == want else ([], [st])
    elif v.op == "any0":
        hits, miss = [], [st]
    elif v.op == "anysym":
        hits, miss = ip.split(st, mk("bapp", "anyis", v, mk("ty", want)))
    else:
        return None
    for s in hits:
        p = sub_addr(a, ("any",))
        if ptr or n.get("lv"):
            out.append((s, p))
        else:
            out.append((s, ip.load(s, p, n)))
    for s in miss:
        if ptr:
            out.append((s, NULL))
        else:
            ip.throw(s, "boost::bad_any_cast", n)
    return out


def tinfo_m(ip, n, m, o, args, nodes, st):
    v = deref_arg(ip, st, o, n)
    if m == "name":
        if v.op == "ty":
            return ret(st, mk("strlit", v.a[0].encode()))
        return ret(st, cstr_of(ssym(mk("nf", v, "name"))))
    if m in ("operator==", "operator!="):
        x = deref_arg(ip, st, args[0], n)
        c = ip.equal(st, v, x, n)
        return ret(st, c if m == "operator==" else neg(c))
    if m == "hash_code":
        if v.op == "ty":
            return ret(st, atom(mk("app", "tyhash", (v,), 0, (1 << 64) - 1)))
    return None


# ---------------------------------------------------------------- streams
def stream_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    if m == "str" and not args:
        if v.op != "rec":
            return None
        return ret(st, ip.field(v, "s"))
    if m == "str" and args:
        ip.store_(st, o, ip.setfield(v, "s", as_string(ip, st, args[0], n)), n)
        return ret(st, VOID)
    if m == "operator<<":
        return stream_out(ip, n, o, args[0], (n.get("pt") or ["?"])[-1], st)
    if m in ("operator bool", "operator!", "good", "fail", "eof"):
        return None
    return None


FL0 = mk("nm", "")


def set_fl(fl, x, nm):
    """format flags (base, width, fill) after a manipulator"""
    if fl == FL0:
        fl = mk("fl", 10, 0, 32)
    if fl.op == "fl":
        base, width, fill = fl.a
        if x.op == "manip" and x.a[0] in ("setw", "setfill"):
            c = cval(x.a[1][0]) if x.a[1] and x.a[1][0].op == "lin" else None
            if c is not None:
                return mk("fl", base, c, fill) if x.a[0] == "setw" else mk("fl", base, width, c & 255)
        w = str(x.a[1] if x.op == "fnp" else x.a[0]).split("(")[0].split("::")[-1]
        if w in ("hex", "dec", "oct"):
            return mk("fl", {"hex": 16, "dec": 10, "oct": 8}[w], width, fill)
    return mk("nm", mk("flx", fl, mk("nm", nm)))


def fl_odd(fl):
    return fl.op != "fl" and fl != FL0


def fl_width(fl):
    return fl.a[1] if fl.op == "fl" else 0


def fl_used(fl):
    return mk("fl", fl.a[0], 0, fl.a[2]) if fl.op == "fl" else fl


def num_text(ip, st, y, fl):
    if fl_odd(fl):
        return spiece(mk("sapp", "fmt", fl, y))
    base, width, fill = fl.a if fl.op == "fl" else (10, 0, 32)
    c = cval(y)
    if c is not None and (c >= 0 or base == 10):
        r = ("%d" % c if base == 10 else "%x" % c if base == 16 else "%o" % c).encode()
        if fill == 48 and c < 0:
            return spiece(mk("sapp", "fmt", fl, y))
        return lit(bytes([fill]) * (width - len(r)) + r)
    if base == 16 and width <= 2 and ip.decide(st, mk_and(ge0(addc(y, -48)), ge0(sub(num(57), y)))):
        return cat(lit(b"3"), spiece(mk("chr", y)))
    if base == 10 and width == 0:
        return spiece(mk("sapp", "dec", y))
    return spiece(mk("sapp", "fmt", fl, y))


def stream_out(ip, n, o, x, t, st):
    v = ip.load(st, o, n)
    if v.op != "rec":
        v = mk("rec", "ss", None, (("fl", mk("nm", "?")), ("s", spiece(mk("sapp", "str", v)))))
    s, fl = ip.field(v, "s"), ip.field(v, "fl")
    t = strip_cv(t.rstrip("& ").strip())
    if x.op in ("addr", "mref") and not t.endswith("*"):
        x = ip.load(st, x, n)
    if x.op == "manip" or x.op == "fnp" or "(*)" in t:
        nm = show(x)
        if "endl" in nm:
            s = cat(s, lit(b"\n"))
        elif x.op == "manip" and x.a[0] in ("flush",):
            pass
        else:
            fl = set_fl(fl, x, nm)
        ip.store_(st, o, ip.setfield(ip.setfield(v, "fl", fl), "s", s), n)
        return ret(st, o)
    if t in ("char", "unsigned char", "signed char"):
        p = spiece(mk("chr", truncbits(ip.toint(x), 8, False)))
        if fl_odd(fl) or fl_width(fl) not in (0, 1):
            p = spiece(mk("sapp", "fmt", fl, ip.toint(x)))
        fl = fl_used(fl)
    elif t in INTT:
        y = ip.toint(x)
        if y is None:
            y = atom(mk("app", "int", (x,), None, None))
        p = num_text(ip, st, y, fl)
        fl = fl_used(fl)
    elif x.op in ("cat", "strlit", "bptr"):
        p = as_string(ip, st, x, n)
    else:
        p = spiece(mk("sapp", "fmtv", x))
    ip.store_(st, o, ip.setfield(ip.setfield(v, "fl", fl), "s", cat(s, p)), n)
    return ret(st, o)


def free_out(ip, n, args, nodes, st):
    o = args[0]
    if o.op != "addr":
        return None
    return stream_out(ip, n, o, args[1], (n.get("pt") or ["?", "?"])[1], st)


# ---------------------------------------------------------------- iterators
def iter_m(ip, n, m, o, args, nodes, st):
    it = deref_arg(ip, st, o, n)
    if it.op not in ("iter", "bptr", "addr"):
        return None
    if m in ("operator*", "operator->"):
        if it.op == "iter":
            return ret(st, ip.iter_deref(st, it, n))
        return ret(st, ip.deref(st, it, n.get("t", "?"), n))
    if m in ("operator++", "operator--"):
        d = 1 if m == "operator++" else -1
        nx = None
        if it.op == "iter" and it.a[1].op == "mkey" and d == 1:
            nx = map_after(ip, st, it.a[0], ip.load(st, it.a[0], n), it.a[1].a[0], n)
        if nx is not None:
            new = nx
        elif it.op == "iter" and not isint(it.a[1]):
            kt = it.a[1].a[1] if it.a[1].op == "mit" else "?"
            new = mk("iter", it.a[0], mk("mit", mk("nm", ip.fresh("mit")), kt))
        elif it.op == "iter":
            new = mk("iter", it.a[0], addc(it.a[1], d))
        else:
            new = ip.ptr_arith(st, "+", it, num(d), n)
        if o.op == "addr":
            ip.store_(st, o, new, n)
        post = len(n.get("pt") or []) == 1
        return ret(st, it if post else o)
    if m in ("operator+=", "operator-=") and it.op == "iter" and isint(it.a[1]):
        k = args[0] if m == "operator+=" else mulc(args[0], -1)
        ip.store_(st, o, mk("iter", it.a[0], add(it.a[1], k)), n)
        return ret(st, o)
    if m in ("operator+", "operator-") and args:
        y = deref_arg(ip, st, args[0], n)
        return ret(st, ip.ptr_arith(st, m[-1], it, y, n))
    if m in ("operator==", "operator!="):
        y = deref_arg(ip, st, args[0], n)
        c = ip.equal(st, it, y, n)
        return ret(st, c if m == "operator==" else neg(c))
    if m == "operator=":
        y = deref_arg(ip, st, args[0], n)
        ip.store_(st, o, y, n)
        return ret(st, o)
    if m == "operator[]" and it.op == "iter":
        return ret(st, ip.iter_deref(st, ip.iter_move(st, it, args[0], n), n))
    if m == "base":
        return ret(st, it)
    return None


def atomic_m(ip, n, m, o, args, nodes, st):
    v = ip.load(st, o, n)
    t = ip.typeof(o, st) or ""
    ta = targs(t)
    w, s = INTT.get(ta[0] if ta else "", (64, False))
    if m in ("load", "operator bool") or m.startswith("operator ") or m.startswith("operator") and n["k"] == "mcall" and not args and m not in ("operator++", "operator--"):
        if v.op == "uninit":
            ip.oblige(st, "uninit", FALSE, n, "read of uninitialised atomic")
            v = ip.symval(ta[0] if ta else "?", mk("nm", ip.fresh("un")))
        sched.atomic(ip, st, o, args, "r", n)
        return ret(st, v)
    if m in ("store", "operator="):
        sched.atomic(ip, st, o, args[1:], "w", n)
        x = deref_arg(ip, st, args[0], n)
        ip.store_(st, o, x, n)
        ip.ev_(st, "asg", n, o, x)
        return ret(st, x if m == "operator=" else VOID)
    if m in ("compare_exchange_strong", "compare_exchange_weak") and len(args) >= 2 and args[0].op == "addr":
        sched.atomic(ip, st, o, (), "r", n)
        a, b = ip.split(st, ip.equal(st, ip.load(st, args[0], n), v, n))
        for s in a:
            ip.store_(s, o, deref_arg(ip, s, args[1], n), n)
            sched.atomic(ip, s, o, (), "w", n)
        for s in b:
            ip.store_(s, args[0], v, n)
        return [(s, TRUE) for s in a] + [(s, FALSE) for s in b]
    if m == "exchange":
        sched.atomic(ip, st, o, args[1:], "r", n)
        sched.atomic(ip, st, o, args[1:], "w", n)
        x = deref_arg(ip, st, args[0], n)
        ip.store_(st, o, x, n)
        return ret(st, v)
    if m in ("operator++", "operator--", "fetch_add", "fetch_sub", "operator+=", "operator-="):
        d = ip.toint(args[0]) if args and m not in ("operator++", "operator--") else ONE
        if m in ("operator--", "fetch_sub", "operator-="):
            d = mulc(d, -1)
        x = ip.toint(v)
        if x is None:
            x = ip.symval(ta[0] if ta else "unsigned long", mk("nm", ip.fresh("un")))
        new = ip.fit(st, add(x, d), w, s, n)
        ip.store_(st, o, new, n)
        ip.ev_(st, "inc", n, o, x, new)
        post = m in ("fetch_add", "fetch_sub") or (m in ("operator++", "operator--") and len(n.get("pt") or []) == 1)
        return ret(st, x if post else new)
    return None


def no_time(ip, st, a, n):
    """a duration of zero, or less: nothing can happen within it"""
    for _ in range(4):
        v = deref_arg(ip, st, a, n) if a.op == "addr" else a
        if v.op == "opq" and "duration" in str(v.a[1]) and v.a[0].op == "nm" and getattr(v.a[0].a[0], "op", "") == "new" and len(v.a[0].a[0].a) > 1:
            x = v.a[0].a[0].a[1]
            if isinstance(x, tuple):
                if not x:
                    return False
                x = x[0]
            if not isinstance(x, T):
                return False
            a = x
            continue
        return isint(v) and cval(v) is not None and cval(v) <= 0
    return False


def thread_m(ip, n, m, o, args, nodes, st):
    if m == "operator=":
        v = deref_arg(ip, st, args[0], n)
        ip.store_(st, o, v, n)
        ip.ev_(st, "thread-set", n, o)
        return ret(st, o)
    ip.ev_(st, "thread-" + m, n, o)
    if m == "joinable":
        return ret(st, mk("batom", mk("nm", ip.fresh("joinable"))))
    if ip.net and m in ("try_join_for", "timed_join", "try_join_until", "join"):
        return net.join(ip, st, o, m, n, m == "try_join_for" and args and no_time(ip, st, args[0], n))
    if m in ("try_join_for", "timed_join", "try_join_until"):
        return ret(st, mk("batom", mk("nm", ip.fresh("joined"))))
    if n.get("t") == "void":
        return ret(st, VOID)
    return ret(st, ip.symval(n["t"], mk("nm", ip.fresh(m))))


def cond_m(ip, n, m, o, args, nodes, st):
    """condition variable: a wait lets the other thread run (net.py), without it the outcome is open"""
    ip.ev_(st, "cond-" + m, n, o)
    if m in ("notify_one", "notify_all"):
        return ret(st, VOID)
    if m not in ("wait", "wait_for", "wait_until"):
        return None
    timed = m != "wait"
    if len(args) < (3 if timed else 2):
        # without a predicate: something has happened, or the time is up
        if not ip.net:
            return ret(st, ip.symval(n["t"], mk("nm", ip.fresh(m))) if timed else VOID)
        out = []
        for y, done in net.meanwhile(ip, st, args[0], n):
            if timed:
                out.append((y, num(0 if done is TRUE else 1)))
            elif done is TRUE:
                out.append((y, VOID))
            else:
                ip.ev_(y, "stuck", n, o)
        return out
    hasty = m == "wait_for" and no_time(ip, st, args[1], n)
    pred = args[-1]
    pred = ip.load(st, pred, n) if pred.op == "addr" else pred
    out = []
    todo = [st]
    for _ in range(64):
        nxt = []
        for s in todo:
            for s2, v in ip.invoke(pred, [], s, n, None):
                a, b = ip.split(s2, v)
                out += [(x, TRUE if timed else VOID) for x in a]
                for x in b:
                    if hasty:
                        out.append((x, FALSE))
                        continue
                    if not ip.net:
                        if timed:
                            out.append((x, FALSE))
                        continue
                    for y, done in net.meanwhile(ip, x, args[0], n):
                        if done is TRUE:
                            nxt.append(y)
                        elif timed:
                            out.append((y, FALSE))
                        else:
                            ip.ev_(y, "stuck", n, o)
        todo = nxt
        if not todo:
            return out
    raise Undecided("condition variable: the predicate stays false")


def ec_m(ip, n, m, o, args, nodes, st):
    v = deref_arg(ip, st, o, n)
    if m == "operator bool":
        if v.op == "ecv":
            return ret(st, v.a[0])
        return ret(st, mk("bapp", "ecset", v))
    if m == "value":
        if v.op == "ecv":
            return ret(st, num({"none": 0, "eof": 2}.get(v.a[1], 32)))
        return ret(st, ip.symval("int", mk("nf", v, "value")))
    if m == "message":
        return ret(st, ssym(mk("nf", v, "message")))
    if m in ("category",):
        return ret(st, ip.temp(st, mk("opq", mk("nf", v, "category"), "cat"), n, "boost::system::error_category"))
    if m == "operator==" or m == "operator!=":
        c = mk("bapp", "eceq", v, deref_arg(ip, st, args[0], n))
        return ret(st, c if m == "operator==" else neg(c))
    if m == "clear":
        return ret(st, VOID)
    return None


def asio_m(ip, n, m, o, args, nodes, st):
    vals = tuple(deref_arg(ip, st, a, n) if a.op == "addr" else a for a in args)
    ip.ev_(st, "io-" + m, n, o, vals)
    if ip.net and m == "async_read_some" and len(vals) == 2:
        net.on_read(ip, st, o, vals[0], vals[1], n)
        return ret(st, VOID)
    if ip.net and m in ("async_write_some", "async_send") and len(vals) == 2:
        net.on_write(ip, st, o, vals[0], vals[1], n, some=True)
        return ret(st, VOID)
    if ip.net and m == "stop":
        # nothing is called any more
        st.store[net.READ] = mk("none")
        st.store[net.WRITES] = mk("ws")
    if ip.net and m in ("shutdown", "close", "cancel"):
        # shut down for receiving (0), sending (1), both
        how = cval(args[0]) if m == "shutdown" and args and isint(args[0]) else 2
        old = st.store.get(net.GONE)
        old = cval(old) if old is not None else how
        st.store[net.GONE] = num(2 if old is None or how is None or old != how else how)
        if args and args[-1].op == "addr" and "error_code" in str(ip.typeof(args[-1], st)):
            ip.store_(st, args[-1], mk("ecv", FALSE, "none"), n)
    if m.startswith("async_"):
        return ret(st, VOID)
    t = n.get("t", "void")
    if n.get("lv"):
        if args and args[-1].op == "addr":
            return ret(st, args[-1])
        return ret(st, o)
    if t == "void":
        return ret(st, VOID)
    return ret(st, ip.symval(t, mk("nm", ip.fresh("io"))))


# ---------------------------------------------------------------- free functions
def f_move(ip, n, args, nodes, st):
    return ret(st, args[0])


def f_minmax(ip, n, args, nodes, st):
    if len(args) != 2:
        return None
    a, b = deref_arg(ip, st, args[0], n), deref_arg(ip, st, args[1], n)
    if not (isint(a) and isint(b)):
        return None
    lt, ge_ = ip.split(st, ge0(sub(a, b)))  # a >= b
    mn = n["sn"] == "min"
    return [(s, b if mn else a) for s in lt] + [(s, a if mn else b) for s in ge_]


def f_swap(ip, n, args, nodes, st):
    if args[0].op == "addr" and args[1].op == "addr":
        a, b = ip.load(st, args[0], n), ip.load(st, args[1], n)
        ip.store_(st, args[0], b, n)
        ip.store_(st, args[1], a, n)
        ip.ev_(st, "asg", n, args[0], b)
        ip.ev_(st, "asg", n, args[1], a)
        return ret(st, VOID)


def f_exchange(ip, n, args, nodes, st):
    if args[0].op == "addr":
        a = ip.load(st, args[0], n)
        t = ip.typeof(args[0], st)
        v = conv(ip, st, args[1], t, n)
        if v.op == "null" and t and tname(t) in FUNC:
            v = mk("fnull")
        ip.store_(st, args[0], v, n)
        ip.ev_(st, "asg", n, args[0], v)
        return ret(st, a)


def f_make_pair(ip, n, args, nodes, st):
    a, b = deref_arg(ip, st, args[0], n) if args[0].op == "addr" else args[0], args[1]
    if b.op == "addr":
        b = ip.load(st, b, n)
    return ret(st, mk("rec", n.get("t", "std::pair"), None, (("first", a), ("second", b))))


def f_make_ptr(ip, n, args, nodes, st):
    t = (n.get("ta") or ["?"])[0]
    root = ("H", ip.fresh("mk"))
    ip.rootty[root] = t
    a = addr(root)
    if tname(t) in STRING:
        vs = [v if strip_cv(nd.get("t", "")).endswith("*") else deref_arg(ip, st, v, n) for v, nd in zip(args, nodes)]
        st.store[root] = string_ctor(ip, n, vs, [strip_cv(p).rstrip("& ") for p in n.get("pt") or []], st) if args else EMPTY
        return ret(st, a)
    if t in ip.P.recs:
        vals = [v for v in args]
        if len(vals) == 1 and vals[0].op == "addr":
            x = ip.load(st, vals[0], n)
            if x.op == "rec" and x.a[0] == t:
                st.store[root] = x
                return ret(st, a)
        cs = [f for f in ip.P.funcs.values() if f.get("ctor") and f.get("cls") == t and len(f["ps"]) == len(vals)]
        if len(cs) == 1:
            return [(s, a) for s, _ in ip.call_fn(cs[0], a, vals, st, n, ctor=True)]
        return None
    d = ip.default(t)
    if len(args) == 1:
        st.store[root] = deref_arg(ip, st, args[0], n)
    elif d is not None:
        st.store[root] = d
    else:
        return None
    return ret(st, a)


def f_bind(ip, n, args, nodes, st):
    vals = []
    for v, nd in zip(args, nodes):
        t = (nd.get("t", "") + " " + str(nd.get("c", "")))
        m = re.search(r"boost::arg<(\d+)>|_Placeholder<(\d+)>", t)
        if m:
            vals.append(mk("ph", int(m.group(1) or m.group(2))))
            continue
        if v.op == "addr":
            tt = strip_cv(nd.get("t", ""))
            if nd.get("lv") or nd.get("k") in ("tmp", "full"):
                if v.a[0] and isinstance(v.a[0], tuple) and v.a[0][0] == "G" and "_1" in str(v.a[0][1]):
                    vals.append(mk("ph", 1))
                    continue
                if not tt.endswith("*") or nd.get("lv") or nd.get("k") == "tmp":
                    v = ip.load(st, v, n)
        vals.append(v)
    return ret(st, mk("bind", vals[0], tuple(vals[1:])))


def f_ref(ip, n, args, nodes, st):
    return ret(st, args[0])


def f_bswap(w):
    def f(ip, n, args, nodes, st):
        x = ip.toint(args[0])
        if x is None:
            x = atom(mk("app", "raw", args[0], 0, (1 << 8 * w) - 1))
        return ret(st, tm.bswap(x, w))
    return f


def f_strlen(ip, n, args, nodes, st):
    s = as_string(ip, st, args[0], n)
    return ret(st, slen(s))


def f_memcpy(ip, n, args, nodes, st):
    d, s, k = args
    src = mem_string(ip, st, s, k, n)
    if not write_bytes(ip, st, d, src, n):
        ip.unk(st, "memory copy to unresolved pointer", n)
        havoc_obj(ip, st, d, n)
    return ret(st, d)


def f_memset(ip, n, args, nodes, st):
    d, c, k = args
    if d.op == "addr" and cval(c) == 0:
        t = ip.typeof(d, st)
        v = ip.load(st, d, n)
        if v.op == "rec" and t in ip.P.recs:
            for f in ip.P.recs[t]["fields"]:
                if f.get("scalar"):
                    ip.store_(st, sub_addr(d, ("f", f["n"])), ip.zero(f["t"]), n)
            return ret(st, d)
    if not write_bytes(ip, st, d, spiece(mk("rep", truncbits(ip.toint(c), 8, False), k)), n):
        ip.unk(st, "memset of unresolved pointer", n)
        havoc_obj(ip, st, d, n)
    return ret(st, d)


def f_reverse(ip, n, args, nodes, st):
    b, e = args
    if b.op == "iter":
        b = sub_addr(b.a[0], ("ix", b.a[1]))
        e = sub_addr(e.a[0], ("ix", e.a[1])) if e.op == "iter" else e
    if b.op == "addr" and e.op == "addr" and b.a[1] and e.a[1] and b.a[1][-1][0] == "ix" and e.a[1][-1][0] == "ix":
        a0 = addr(b.a[0], *b.a[1][:-1])
        v = ip.load(st, a0, n)
        i, j = b.a[1][-1][1], e.a[1][-1][1]
        if v.op == "cat":
            ip.oblige(st, "mem", mk_and(ge0(i), ge0(sub(slen(v), j))), n, "reverse outside the array")
            part = substr(v, i, sub(j, i))
            ip.store_(st, a0, replace_sub(v, i, sub(j, i), rev(part)), n)
            return ret(st, VOID)
    return None


def rev(s):
    c = strconst(s)
    if c is not None:
        return lit(c[::-1])
    if len(s.a[0]) == 1 and s.a[0][0].op == "mem":
        return spiece(mk("rmem", *s.a[0][0].a))
    if len(s.a[0]) == 1 and s.a[0][0].op == "rmem":
        return spiece(mk("mem", *s.a[0][0].a))
    if len(s.a[0]) == 1 and s.a[0][0].op == "chr":
        return s
    if len(s.a[0]) == 1 and s.a[0][0].op == "le":
        return cat(spiece(mk("le", tm.bswap(s.a[0][0].a[0], s.a[0][0].a[1]), s.a[0][0].a[1])))
    if len(s.a[0]) == 1 and s.a[0][0].op == "sapp" and s.a[0][0].a[0] == "rev":
        return s.a[0][0].a[1]
    return spiece(mk("sapp", "rev", s, slen(s)))


def f_begin(ip, n, args, nodes, st):
    o = args[0]
    end = n["sn"] in ("end", "cend")
    if o.op != "addr":
        return None
    v = ip.load(st, o, n)
    t = ip.typeof(o, st) or ""
    ln = slen(v) if v.op == "cat" else sqlen(v) if v.op == "seq" else None
    if v.op == "map":
        return map_m(ip, dict(n, oc=t), n["sn"], o, [], [], st)
    if ln is None:
        return None
    if t.endswith("]"):
        return ret(st, sub_addr(o, ("ix", ln if end else ZERO)))
    return ret(st, mk("iter", o, ln if end else ZERO))


def f_sto(ip, n, args, nodes, st):
    s = as_string(ip, st, args[0], n)
    sn = n["sn"]
    base = cval(args[2]) if len(args) > 2 else 10
    w, sg = {"stoi": (32, True), "stol": (64, True), "stoll": (64, True), "stoul": (64, False), "stoull": (64, False)}.get(sn, (0, 0))
    c = strconst(s)
    if c is not None and base == 10 and re.fullmatch(rb"\d+", c):
        x = int(c)
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if L <= x <= H:
            return ret(st, num(x))
        ip.throw(st, "std::out_of_range", n)
        return []
    L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if len(s.a[0]) == 1 and isinstance(s.a[0][0], T) and s.a[0][0].op == "sapp" and s.a[0][0].a[0] == "dec" and base == 10:
        x = s.a[0][0].a[1]
        good, bad = ip.split(st, mk_and(ge0(addc(x, -L)), ge0(addc(mulc(x, -1), H))))
        for b in bad:
            ip.throw(b, "std::out_of_range", n)
        return [(g, x) for g in good]
    isnum = mk("bapp", "isnum", s, num(base or 0))
    good, bad = ip.split(st, isnum)
    for b in bad:
        ip.throw(b, "std::invalid_argument", n)
    out = []
    for g in good:
        inr = mk("bapp", "inrange", s, num(L), num(H))
        g1, g2 = ip.split(g, inr)
        for b in g2:
            ip.throw(b, "std::out_of_range", n)
        out += [(x, atom(mk("app", "strtonum", (s, num(base or 0)), L, H))) for x in g1]
    return out


def f_to_string(ip, n, args, nodes, st):
    x = args[0]
    y = ip.toint(x)
    if y is None:
        return ret(st, spiece(mk("sapp", "fmtv", x)))
    if cval(y) is not None:
        return ret(st, lit(str(cval(y)).encode()))
    return ret(st, spiece(mk("sapp", "dec", y)))


def f_plus(ip, n, args, nodes, st):
    pt = n.get("pt") or []
    if any("basic_string" in p for p in pt):
        return ret(st, cat(as_string(ip, st, args[0], n), as_string(ip, st, args[1], n)))
    if "chrono::" in n.get("t", ""):
        return ret(st, mk("opq", mk("nm", ip.fresh("time")), n["t"]))
    a, b = deref_arg(ip, st, args[0], n), deref_arg(ip, st, args[1], n)
    if a.op == "iter" or b.op == "iter":
        return ret(st, ip.ptr_arith(st, "+", a, b, n))


def f_now(ip, n, args, nodes, st):
    if "chrono::" in n.get("t", ""):
        return ret(st, mk("opq", mk("nm", ip.fresh("time")), n["t"]))
    return None


def f_minus(ip, n, args, nodes, st):
    if "chrono::" in n.get("t", ""):
        return f_now(ip, n, args, nodes, st)
    a, b = deref_arg(ip, st, args[0], n), deref_arg(ip, st, args[1], n)
    if a.op == "iter":
        return ret(st, ip.ptr_arith(st, "-", a, b, n))


def f_eq(ip, n, args, nodes, st):
    pt = n.get("pt") or []
    op = n["op"]
    if any("basic_string" in p and "iterator" not in p for p in pt):
        a, b = as_string(ip, st, args[0], n), as_string(ip, st, args[1], n)
        c = ip.streq(a, b)
    else:
        a = deref_arg(ip, st, args[0], n) if not ip.is_ptr_like(nodes[0]) else args[0]
        b = deref_arg(ip, st, args[1], n) if not ip.is_ptr_like(nodes[1]) else args[1]
        if any("error_category" in p for p in pt):
            c = mk("bapp", "eq", a, b)
            for x, y in ((a, b), (b, a)):
                # the category of an error the modelled socket has given
                if x.op == "opq" and x.a[0].op == "nf" and x.a[0].a[0].op == "ecv" and "_category" in str(y):
                    c = TRUE if ("misc_category" if x.a[0].a[0].a[1] == "eof" else "system_category") in str(y) else FALSE
        elif any("error_code" in p for p in pt):
            c = mk("bapp", "eceq", a, b)
        else:
            c = ip.equal(st, a, b, n)
    return ret(st, c if op == "==" else neg(c))


def f_less(ip, n, args, nodes, st):
    a, b = deref_arg(ip, st, args[0], n), deref_arg(ip, st, args[1], n)
    return ret(st, ip.compare(st, n["op"], a, b, n))


def f_manip(ip, n, args, nodes, st):
    return ret(st, mk("manip", n["sn"], tuple(args)))


def f_buffer(ip, n, args, nodes, st):
    vals = tuple(args)
    obj = args[0]
    if obj.op == "addr" and not (obj.a[1] and obj.a[1][-1][0] == "ix"):
        v = ip.load(st, obj, n)
    else:
        v = obj
    return ret(st, mk("asiobuf", obj, v, vals[1:]))


def f_async_write(ip, n, args, nodes, st):
    h = args[2] if len(args) > 2 else args[-1]
    h = ip.load(st, h, n) if h.op == "addr" else h
    buf = deref_arg(ip, st, args[1], n)
    ip.ev_(st, "async_write", n, args[0], buf, h)
    if ip.net:
        return [(s, VOID) for s in net.on_write(ip, st, args[0], buf, h, n)]
    return ret(st, VOID)


def f_nop(ip, n, args, nodes, st):
    t = n.get("t", "void")
    if t == "void":
        return ret(st, VOID)
    return ret(st, ip.symval(t, mk("nm", ip.fresh(n["sn"]))))


def f_getenv(ip, n, args, nodes, st):
    s = as_string(ip, st, args[0], n)
    c = mk("bapp", "envset", s)
    a, b = ip.split(st, c)
    return [(x, cstr_of(ssym(mk("nf", s, "env")))) for x in a] + [(x, NULL) for x in b]


def f_getuid(ip, n, args, nodes, st):
    return ret(st, atom(mk("isym", "getuid", 0, (1 << 32) - 1)))


def f_split(ip, n, args, nodes, st):
    # boost::split(out, in, pred[, mode]): at least one piece
    o = args[0]
    if o.op != "addr":
        return None
    s = as_string(ip, st, args[1], n)
    pred = deref_arg(ip, st, args[2], n)
    x = pred.a[0].a[0] if pred.op == "opq" and isinstance(pred.a[0], T) and pred.a[0].op == "nm" else None
    c = strconst(x.a[0]) if isinstance(x, T) and x.op == "is_any_of" and x.a[0].op == "cat" else None
    if c and (len(args) == 3 or cval(args[3]) == 1) and s.op == "cat":
        ps = pieces_at(ip, st, s, c)
        if ps is not None:
            ip.store_(st, o, seq(*[mk("el", y) for y in ps]), n)
            return ret(st, o)
    p = mk("vsym", mk("nm", mk("split", s, mk("nm", ip.fresh("sp")))), (targs(ip.typeof(o) or "") or ["std::basic_string<char>"])[0])
    st.facts = st.facts | {ge0(addc(atom(mk("len", p)), -1))}
    ip.store_(st, o, seq(p), n)
    ip.ev_(st, "split", n, o, s, seq(p), deref_arg(ip, st, args[2], n))
    return ret(st, o)


def f_any_of(ip, n, args, nodes, st):
    return ret(st, mk("opq", mk("nm", mk("is_any_of", as_string(ip, st, args[0], n))), "pred"))


def f_for_each(ip, n, args, nodes, st):
    b, e, f = args[0], args[1], deref_arg(ip, st, args[2], n) if args[2].op == "addr" else args[2]
    return iter_loop(ip, n, b, e, st, lambda s, a: [("n", x, v) for x, v in ip.invoke(f, [a], s, dict(n, t="void"), None)])


def iter_loop(ip, n, b, e, st, body):
    if b.op == "addr" and e.op == "addr" and b.a[1] and b.a[1][-1][0] == "ix" and e.a[1] and e.a[1][-1][0] == "ix":
        cont = addr(b.a[0], *b.a[1][:-1])
        lo, hi = b.a[1][-1][1], e.a[1][-1][1]
    elif b.op == "iter" and e.op == "iter" and isint(b.a[1]) and isint(e.a[1]):
        cont, lo, hi = b.a[0], b.a[1], e.a[1]
    else:
        return None
    root = "i%d@%d" % (n.get("_", 0), st.depth)
    ip.rootty[root] = "unsigned long"
    st.store[root] = lo

    def cond(s):
        return ip.split(s, ge0(addc(sub(hi, s.store[root]), -1)))

    def fb(s):
        return body(s, sub_addr(cont, ("ix", s.store[root])))

    def inc(s):
        s.store[root] = addc(s.store[root], 1)
        return [s]
    out = []
    for k, s, v in ip.loop_core(n, st, cond, fb, inc, False):
        out.append((s, VOID))
    return out


def f_copy(ip, n, args, nodes, st):
    b, e, d = args
    s = iter_range(ip, st, b, e, n)
    if s is None and b.op == "bptr" and e.op == "bptr" and b.a[0] is e.a[0]:
        s = mem_string(ip, st, b, sub(e.a[1], b.a[1]), n)
    if s is None and b.op == "addr" and e.op == "addr" and b.a[1] and e.a[1] and b.a[1][-1][0] == "ix" and e.a[1][-1][0] == "ix":
        s = bytes_at(ip, st, b, sub(e.a[1][-1][1], b.a[1][-1][1]), n)
    if s is None or s.op != "cat":
        return None
    if d.op == "iter":
        d2 = sub_addr(d.a[0], ("ix", d.a[1]))
    else:
        d2 = d
    if not write_bytes(ip, st, d2, s, n):
        return None
    return ret(st, ip.ptr_arith(st, "+", d, slen(s), n) if d.op in ("iter", "bptr") else d)


def f_copy_n(ip, n, args, nodes, st):
    b, k, d = args
    s = mem_string(ip, st, b, k, n) if b.op in ("bptr", "addr") else None
    if s is None:
        return None
    if not write_bytes(ip, st, d, s, n):
        return None
    return ret(st, d)


def f_distance(ip, n, args, nodes, st):
    a, b = deref_arg(ip, st, args[0], n), deref_arg(ip, st, args[1], n)
    if a.op == b.op == "iter" and isint(a.a[1]) and isint(b.a[1]):
        return ret(st, sub(b.a[1], a.a[1]))


def f_next(ip, n, args, nodes, st):
    a = deref_arg(ip, st, args[0], n)
    k = args[1] if len(args) > 1 else ONE
    if n["sn"] == "prev":
        k = mulc(k, -1)
    return ret(st, ip.ptr_arith(st, "+", a, k, n))


def f_abort(ip, n, args, nodes, st):
    ip.ev_(st, "abort", n)
    return []


def f_holds(ip, n, args, nodes, st):
    return None


FREE = {
    "move": f_move, "forward": f_move, "as_const": f_move, "addressof": f_move, "min": f_minmax, "max": f_minmax, "swap": f_swap,
    "exchange": f_exchange, "make_pair": f_make_pair, "make_shared": f_make_ptr, "make_unique": f_make_ptr, "bind": f_bind,
    "ref": f_ref, "cref": f_ref, "__bswap_16": f_bswap(2), "__bswap_32": f_bswap(4), "__bswap_64": f_bswap(8),
    "__builtin_bswap16": f_bswap(2), "__builtin_bswap32": f_bswap(4), "__builtin_bswap64": f_bswap(8),
    "htonl": f_bswap(4), "ntohl": f_bswap(4), "htons": f_bswap(2), "ntohs": f_bswap(2),
    "strlen": f_strlen, "memcpy": f_memcpy, "memmove": f_memcpy, "memset": f_memset, "reverse": f_reverse, "begin": f_begin, "end": f_begin,
    "cbegin": f_begin, "cend": f_begin, "stoi": f_sto, "stol": f_sto, "stoll": f_sto, "stoul": f_sto, "stoull": f_sto,
    "to_string": f_to_string, "operator+": f_plus, "operator-": f_minus, "operator==": f_eq, "operator!=": f_eq, "operator<": f_less,
    "operator>": f_less, "operator<=": f_less, "operator>=": f_less, "operator<<": free_out, "setw": f_manip, "setfill": f_manip,
    "setprecision": f_manip, "buffer": f_buffer, "async_write": f_async_write, "fflush": f_nop, "vfprintf": f_nop, "getenv": f_getenv,
    "getuid": f_getuid, "geteuid": f_nop, "split": f_split, "is_any_of": f_any_of, "any_cast": any_cast, "for_each": f_for_each, "copy": f_copy,
    "copy_n": f_copy_n, "distance": f_distance, "now": f_now, "next": f_next, "prev": f_next, "abort": f_abort, "terminate": f_abort,
    "__builtin_va_start": f_nop, "__builtin_va_end": f_nop,
}
