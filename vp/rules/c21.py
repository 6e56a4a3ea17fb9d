"""A match rule's handler gets the signals the rule describes, and no others."""
import itertools
from ..terms import *
from ..client import blk
from ..judge import ret, run_client
from ..wire import *
from .. import net
from .c11 import KW, SERIALS
from .c25 import ch, letter, told

HARNESS = ["native"]
WHERE = "DBus::MatchRule / DBus::Native::callAddMatch, callRemoveMatch, onReceiveSignal"
KEYS = ["sender", "interface", "member", "path", "path_namespace", "destination"]


def ID(n, r=0, k=2):
    """a name of letters, digits and underscores"""
    return blk("id:" + n, 8, r, k)


VAL = {
    "sender": cat(lit(":1."), ID("s", 3)),
    "interface": cat(ID("i1", 2), lit("."), ID("i2", 4)),
    "member": cat(lit("M"), ID("m", 5)),
    "path": cat(lit("/a"), ID("p1", 3), lit("/"), ID("p2", 0)),
    "path_namespace": cat(lit("/a"), ID("p1", 3)),
    "destination": cat(ID("d1", 1), lit("."), ID("d2", 1)),
}
OTHER = {
    "sender": cat(lit(":1."), ID("s9", 4)),
    "interface": cat(ID("i1", 2), lit("."), ID("i9", 5)),
    "member": cat(lit("M"), ID("m9", 6)),
    "path": cat(lit("/a"), ID("p1", 3), lit("/"), ID("p9", 1)),
    "path_namespace": cat(lit("/b"), ID("n9", 5)),
    "destination": cat(ID("d1", 1), lit("."), ID("d9", 2)),
}
FIELD = {"sender": SENDER, "interface": IFC, "member": MEMBER, "path": PATH, "destination": DEST}


def rule(kv, head="type='signal'"):
    parts = [lit(head)] if head else []
    parts += [cat(lit(k + "='"), v, lit("'")) for k, v in kv]
    out = EMPTY
    for i, p in enumerate(parts):
        out = cat(out, lit(",") if i else EMPTY, p)
    return out


def signal(vals, big=False, serial="serial", without=()):
    return message(SIGNAL, ONE, u32(serial), [field(FIELD[k], vals[k]) for k in FIELD if k not in without], (), big)


def got(mark, vals, serial="serial"):
    return told(mark, vals["path"], vals["interface"], vals["member"], serial)


def check(R, P, tier):
    def one(what, kv, vals, yes, big=False, without=(), head="type='signal'", assume=(), cases=None):
        exp = cases or [ret(got("R", vals) if yes else EMPTY)]
        run_client(R, P, "match", what, "match", {"rule": rule(kv, head), "t": signal(vals, big, without=without)}, exp, WHERE, assume=SERIALS + list(assume), **KW)

    # every set of keys: all agree, or all but one
    for n in range(0, 6):
        for ks in itertools.combinations(KEYS, n):
            if "path" in ks and "path_namespace" in ks:
                continue
            for head in ("type='signal'",) if n else ("type='signal'", ""):
                name = "rule with %s" % (", ".join(ks) or "no key but the type" if head or ks else "nothing")
                one(name + ", all agree", [(k, VAL[k]) for k in ks], VAL, True, big=n % 2 == 1, head=head)
                one(name + ", keys in the other order, all agree", [(k, VAL[k]) for k in reversed(ks)], VAL, True, head="" if n else head)
                for k in ks:
                    one(name + ", %s differs" % k, [(x, OTHER[x] if x == k else VAL[x]) for x in ks], VAL, False)
                    one(name + ", %s differs, keys in the other order" % k, [(x, OTHER[x] if x == k else VAL[x]) for x in reversed(ks)], VAL, False, big=True)
    for ks in itertools.permutations(("sender", "interface", "member", "path")):
        one("keys in the order %s" % ", ".join(ks), [(k, VAL[k]) for k in ks], VAL, True)
    # the signal lacks the field
    for k in ("sender", "destination"):
        one("%s demanded, the signal has none" % k, [(k, VAL[k])], VAL, False, without=(k,))
        one("%s not demanded, the signal has none" % k, [("member", VAL["member"])], VAL, True, without=(k,))
    # one character, in the middle and at the end
    x, y = ch("x"), ch("y")
    for k in FIELD:
        for a, b in ((lit("/a" if k == "path" else "a"), ID("z", 3)), (cat(lit("/"), ID("z", 3)) if k == "path" else ID("z", 3), EMPTY)):
            rv, mv = cat(a, spiece(mk("chr", x)), b), cat(a, spiece(mk("chr", y)), b)
            vals = dict(VAL, **{k: mv})
            run_client(R, P, "match", "%s with one character %s that differs, or does not" % (k, "inside" if b is not EMPTY else "at the end"), "match", {"rule": rule([(k, rv)]), "t": signal(vals)},
                       [ret(got("R", vals), eq0(sub(x, y))), ret(EMPTY, neg(eq0(sub(x, y))))], WHERE, assume=SERIALS + letter(x) + letter(y), **KW)
        v = VAL[k]
        for what, mv in (("is longer", cat(v, lit("x"))), ("is longer by a part", cat(v, lit("/x" if k == "path" else ".x"))), ("is shorter", lit("/" if k == "path" else "a"))):
            vals = dict(VAL, **{k: mv})
            run_client(R, P, "match", "%s of the signal %s" % (k, what), "match", {"rule": rule([(k, v)]), "t": signal(vals)}, [ret(EMPTY)], WHERE, assume=SERIALS, **KW)
    # the path namespace
    for r1 in range(8):
        for r2 in (0, 3, 5) if tier == "quick" else range(8):
            ns = cat(lit("/a"), ID("p1", r1))
            ns2 = cat(ns, lit("/"), ID("p2", r2))
            for n, nm in ((ns, "/%d" % r1), (ns2, "/%d/%d" % (r1, r2))):
                for what, p, yes in (("itself", n, True), ("a part below it", cat(n, lit("/"), ID("q", r2)), True), ("two parts below it", cat(n, lit("/"), ID("q", r2), lit("/"), ID("q2", 1)), True),
                                     ("it below another", cat(lit("/b"), n), False), ("the root", lit("/"), False)):
                    one("path namespace %s, path %s (%d)" % (nm, what, r2), [("path_namespace", n)], dict(VAL, path=p), yes, big=r2 == 3)
                vals = dict(VAL, path=cat(n, spiece(mk("chr", x)), ID("q", r2)))
                run_client(R, P, "match", "path namespace %s, a path that goes on with any character but / (%d)" % (nm, r2), "match", {"rule": rule([("path_namespace", n)]), "t": signal(vals)}, [ret(EMPTY)], WHERE,
                           assume=SERIALS + letter(x), **KW)
            one("path namespace /%d/%d, path /%d" % (r1, r2, r1), [("path_namespace", ns2)], dict(VAL, path=ns), False)
            for p in (lit("/"), ns, ns2):
                one("path namespace /, path of %d parts (%d, %d)" % (0 if p.a[0] == (b"/",) else 1 if p is ns else 2, r1, r2), [("path_namespace", lit("/"))], dict(VAL, path=p), True)
    # both kinds of path
    t = signal(VAL)
    for kv in itertools.permutations([("path", VAL["path"]), ("path_namespace", VAL["path_namespace"])]):
        run_client(R, P, "refused", "a rule with %s and %s" % (kv[0][0], kv[1][0]), "bad_rule", {"rule": rule(kv), "t": t}, [ret(lit("refused||"))], WHERE, assume=SERIALS, **KW)
    for bad in ("type", "type=", "interface='x',member", "member='", "=", "path=/", "interface='a',=,"):
        run_client(R, P, "refused", "the rule %s" % bad, "bad_rule", {"rule": lit(bad), "t": t}, [ret(lit("refused||"))], WHERE, assume=SERIALS, **KW)
    # two rules, and a handler registered for the signal's name
    V2 = dict(VAL, **{k: OTHER[k] for k in ("interface", "member", "path")})
    name = cat(VAL["interface"], lit("."), VAL["member"])
    rules = {"interface": rule([("interface", VAL["interface"])]), "other interface": rule([("interface", V2["interface"])]), "sender": rule([("sender", VAL["sender"])]), "other sender": rule([("sender", OTHER["sender"])])}
    takes = {"interface": (True, False), "other interface": (False, True), "sender": (True, True), "other sender": (False, False)}
    for (a, ra), (b, rb) in itertools.permutations(rules.items(), 2):
        for big in (False, True):
            t, u = signal(VAL, big), signal(V2, not big, "serial2")

            def phase(on, order):
                out = []
                for j, (vals, sr) in enumerate(((VAL, "serial"), (V2, "serial2"))):
                    if j == 0:
                        out.append(got("H", vals, sr))
                    for mark in order:
                        if mark in on and takes[a if mark == "R" else b][j]:
                            out.append(got(mark, vals, sr))
                return cat(*out)

            def whole(order, phase=phase):
                return cat(phase("RS", order), lit("|"), phase("S", order), lit("|"), phase("", order), lit("|"), phase("R", order))
            # both handlers are called; in which order is left open
            from ..judge import alternatives
            run_client(R, P, "several rules", "rules for %s and for %s, removed one by one, %s" % (a, b, "big-endian" if big else "little-endian"), "match2",
                       {"rule1": ra, "rule2": rb, "name": name, "t": t, "u": u}, [ret(alternatives([whole("RS"), whole("SR")]))], WHERE, assume=SERIALS, **KW)
    # another thread adds or removes a rule
    ra, rb = rules["interface"], rules["other interface"]
    for what in (0, 1):
        for swap in (0, 1):
            for first, vals in ((ra, VAL), (rules["sender"], VAL)):
                run_client(R, P, "two threads", "a rule is %s while a signal of another (%s) arrives, %s goes on" % (("added", "removed")[what], "interface" if first is ra else "sender", ("the application", "the io thread")[swap]), "rule_at",
                           {"what": num(what), "swap": num(swap), "rule1": first, "rule2": rb, "t": signal(VAL), "u": signal(dict(V2, sender=OTHER["sender"]), False, "serial2")},
                           [ret(cat(got("R", VAL), lit("|"), EMPTY if what else got("S", V2, "serial2")))], WHERE, assume=SERIALS, max_steps=20000000, **KW)


FLOOR = 300
EXPLAIN = ("Abstract interpretation of rules with every set of keys against signals that agree in all of them or in all but one, of rule values and signal fields that differ in any one character or in length, of path namespaces and paths in every relation, "
           "and of several rules and handlers at once, with names of any content and every length modulo 8.")
ASSUME = ["names contain letters, digits and underscores between the dots and slashes", "the order in which two rules' handlers run is open", "arg0-style keys and quoting of commas are outside the property"]
