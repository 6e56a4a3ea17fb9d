"""Every message gets a serial of its own, and it is never zero."""
from ..terms import *
from ..judge import ret, run_client
from ..interp import Undecided
from .. import net

HARNESS = ["msg", "native"]
WHERE = "DBus::Message::Base::Base(uint32_t)"
C = atom(isym(mk("nm", "DBus::Message::Base::m_SerialCounter"), 32, False))
TOP = 1 << 32


def check(R, P, tier):
    # at any state of the counter, messages of every type are numbered apart and not zero
    run_client(R, P, "consecutive", "five messages of all types, counter anywhere below the wrap", "serials", {}, [ret(lit("++#+##+###+####"))], WHERE,
               assume=[ge0(addc(C, -1)), ge0(addc(sub(ZERO, C), TOP - 64))])
    # zero is a counter value some implementations never reach; the ones that do reach it from the last numbers
    for c in (1, 2, TOP - 5, TOP - 4, TOP - 3, TOP - 2, TOP - 1):
        run_client(R, P, "wrap", "five messages of all types, counter at %d" % c, "serials", {}, [ret(lit("++#+##+###+####"))], WHERE, assume=[eq0(addc(C, -c))])
    for nm in ("nonzero_call", "nonzero_signal", "nonzero_return", "nonzero_error"):
        run_client(R, P, "nonzero", nm[8:] + ", counter anywhere", nm, {}, [ret(lit("+"))], WHERE, assume=[ge0(addc(C, -1))])
    run_client(R, P, "stable", "a message keeps its serial: copied, sent, others created", "serial_stable", {}, [ret(lit("samesame"))], WHERE)
    for nm in ("distinct_calls", "distinct_mixed"):
        run_client(R, P, "distinct", "two messages after each other (%s), counter anywhere but at the last number" % nm[9:], nm, {}, [ret(lit("other"))], WHERE, assume=[ge0(addc(C, -1)), ge0(addc(sub(ZERO, C), TOP - 2))])
        run_client(R, P, "distinct", "two messages after each other (%s), counter at the last number" % nm[9:], nm, {}, [ret(lit("other"))], WHERE, assume=[eq0(addc(C, 1 - TOP))])
    for c, what in (([ge0(addc(C, -1)), ge0(addc(sub(ZERO, C), TOP - 4))], "anywhere below the last"), ([eq0(addc(C, 3 - TOP))], "third from the last"), ([eq0(addc(C, 2 - TOP))], "last but one"), ([eq0(addc(C, 1 - TOP))], "at the last number")):
        run_client(R, P, "two threads", "two threads make a message each, then one makes another; counter %s" % what, "serials_at", {}, [ret(lit("differ"))], WHERE, assume=c, net=True, cuts=dict(net.CUTS))


FLOOR = 15
EXPLAIN = ("Abstract interpretation of message construction with the serial counter as a symbolic 32-bit word (so every history of the process): no message gets zero, messages created after each other differ, including "
           "across the wrap of the counter, and a message keeps its serial. That the counter is only touched under its lock is property C14.")
