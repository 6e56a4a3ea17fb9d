// Client programs the analysis interprets abstractly; never compiled or run.
#include <functional>
#include <stdexcept>
#include <string>

#include "dbus.h"
#include "dbus_message.h"
#include "dbus_native.h"
#include "dbus_type.h"
#include "dbus_type_string.h"
#include "dbus_type_uint32.h"

using namespace DBus;

// The other end of the socket; the analysis supplies these.
namespace W {
// lets one outstanding write complete; false when there is none
bool complete();
// the same, but it fails
bool fail();
// everything written since the last call, in order
std::string sent();
// bytes arrive
bool arrive(const std::string& t);
// the other end closes
bool hangup();
// bytes that arrive while the next write is being started
void early(const std::string& t);
// another application thread runs f just before the k-th lock is taken from now on; before any of them when k is negative
void at(int k, const std::function<void()>& f);
// it runs now, unless it has
bool now();
// from now on the socket takes nothing more
void stall();
// for the rule: what the client expects
void note(const std::string& t);
}

namespace H {

typedef std::string Out;

void put(Out& o, const std::string& s)
{
    o += s;
    o += ';';
}
void put4(Out& o, uint32_t v) { o.append((const char*)&v, 4); }

void drain()
{
    // more than any client here has to write
    for (int i = 0; i < 16 && W::complete(); ++i) {
    }
}

AuthenticationProtocol::AuthRequired auth(int kind)
{
    return kind ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC;
}

// connected and authenticated
Native& ready()
{
    Native& n = *new Native("bus");
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    W::arrive("OK 0123\r\n");
    drain();
    W::sent();
    return n;
}

// ---------------------------------------------------------------- handshake
// the first thing written
std::string hello(int kind)
{
    Native& n = *new Native("bus");
    n.BeginAuth(auth(kind));
    drain();
    return W::sent();
}

// four deliveries during the handshake, and what is written after each
std::string shake(int kind, const std::string& a, const std::string& b, const std::string& c, const std::string& d)
{
    Native& n = *new Native("bus");
    Out o;
    n.BeginAuth(auth(kind));
    drain();
    o += W::sent();
    o += '|';
    W::arrive(a);
    drain();
    o += W::sent();
    o += '|';
    W::arrive(b);
    drain();
    o += W::sent();
    o += '|';
    W::arrive(c);
    drain();
    o += W::sent();
    o += '|';
    W::arrive(d);
    drain();
    o += W::sent();
    return o;
}

// the same text in two deliveries
std::string shake_cut(int kind, const std::string& a, const std::string& b)
{
    Native& n = *new Native("bus");
    n.BeginAuth(auth(kind));
    W::arrive(a);
    W::arrive(b);
    drain();
    return W::sent();
}

// messages follow the handshake in the same delivery
std::string shake_then(int kind, const std::string& a, const std::string& b)
{
    Native& n = *new Native("bus");
    Out o;
    n.registerSignalHandler("i.f.M", [&o](const Message::Signal& s) { put(o, s.getHeaderPath()); });
    n.BeginAuth(auth(kind));
    W::arrive(a);
    o += '|';
    W::arrive(b);
    drain();
    o += '|';
    o += W::sent();
    return o;
}

// ---------------------------------------------------------------- sending before the handshake is complete
Message::Signal sig(const std::string& path)
{
    return Message::Signal(Message::MethodCallIdentifier(path, "i.f", "M"));
}

void send_at(Native& n, int now, int at, const Message::Signal& s)
{
    if (now == at) {
        n.broadcastSignal(s);
    }
}

// three signals sent at chosen stages: 0 before the handshake, 1 during it, 2 after the first answer, 3 at its end
std::string queued(int kind, int s1, int s2, int s3, const std::string& p1, const std::string& p2, const std::string& p3)
{
    Native& n = *new Native("bus");
    const Message::Signal m1 = sig(p1), m2 = sig(p2), m3 = sig(p3);
    W::note(m1.marshall(""));
    W::note("<note>");
    W::note(m2.marshall(""));
    W::note("<note>");
    W::note(m3.marshall(""));
    W::note("<note>");
    Out o;
    for (int now = 0; now < 4; ++now) {
        if (now == 1) {
            n.BeginAuth(auth(kind));
        }
        if (now == 2) {
            W::arrive(kind ? "OK 0123\r\n" : "OK 01");
        }
        if (now == 3) {
            W::arrive(kind ? "AGREE_UNIX_FD\r\n" : "23\r\n");
        }
        send_at(n, now, s1, m1);
        send_at(n, now, s2, m2);
        send_at(n, now, s3, m3);
        drain();
        o += W::sent();
        o += '|';
    }
    drain();
    o += W::sent();
    return o;
}

// one message of each kind, sent before the handshake
std::string queued_kinds(const std::string& p, uint32_t r)
{
    Native& n = *new Native("bus");
    Message::MethodCallIdentifier id(p, "i.f", "M");
    Message::MethodCall c(id);
    Message::MethodReturn t(r);
    Message::Error e(r, "e.e", "text");
    Message::Signal s(id), b(id);
    Out o;
    n.sendMethodCall("d.d", c);
    n.sendMethodReturn("d.d", t);
    n.sendError("d.d", e);
    n.sendSignal(":1.5", s);
    n.broadcastSignal(b);
    drain();
    o += W::sent();
    o += '|';
    W::note(c.marshall("d.d") + "<note>");
    W::note(t.marshall("d.d") + "<note>");
    W::note(e.marshall("d.d") + "<note>");
    W::note(s.marshall(":1.5") + "<note>");
    W::note(b.marshall("") + "<note>");
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    drain();
    o += W::sent();
    o += '|';
    W::arrive("OK 0123\r\n");
    drain();
    o += W::sent();
    return o;
}

// one message of each kind, sent after the handshake
std::string sent_kinds(const std::string& p, uint32_t r)
{
    Native& n = ready();
    Message::MethodCallIdentifier id(p, "i.f", "M");
    Message::MethodCall c(id);
    Message::MethodReturn t(r);
    Message::Error e(r, "e.e", "text");
    Message::Signal s(id), b(id);
    n.sendMethodCall("d.d", c);
    n.sendMethodReturn("d.d", t);
    n.sendError("d.d", e);
    n.sendSignal(":1.5", s);
    n.broadcastSignal(b);
    W::note(c.marshall("d.d") + "<note>");
    W::note(t.marshall("d.d") + "<note>");
    W::note(e.marshall("d.d") + "<note>");
    W::note(s.marshall(":1.5") + "<note>");
    W::note(b.marshall("") + "<note>");
    drain();
    return W::sent();
}

// ---------------------------------------------------------------- writes complete when they like
// bit i of when: a write may complete after step i
std::string writes(int kind, unsigned when, const std::string& p1, const std::string& p2, const std::string& p3)
{
    Native& n = *new Native("bus");
    const Message::Signal m1 = sig(p1), m2 = sig(p2), m3 = sig(p3);
    W::note(m1.marshall("") + "<note>");
    W::note(m2.marshall("") + "<note>");
    W::note(m3.marshall("") + "<note>");
    n.broadcastSignal(m1);
    if (when & 1) {
        W::complete();
    }
    n.BeginAuth(auth(kind));
    if (when & 2) {
        W::complete();
    }
    W::arrive("OK 0123\r\n");
    if (when & 4) {
        W::complete();
    }
    if (kind) {
        W::arrive("AGREE_UNIX_FD\r\n");
    }
    n.broadcastSignal(m2);
    if (when & 8) {
        W::complete();
    }
    if (when & 16) {
        W::complete();
    }
    n.broadcastSignal(m3);
    drain();
    return W::sent();
}

// a write fails; what was not written yet is dropped or written whole, never out of order
std::string write_fails(unsigned when, const std::string& p1, const std::string& p2)
{
    Native& n = ready();
    const Message::Signal m1 = sig(p1), m2 = sig(p2);
    W::note(m2.marshall("") + "<note>");
    n.broadcastSignal(m1);
    if (when & 1) {
        n.broadcastSignal(m1);
    }
    W::fail();
    drain();
    W::sent();
    n.broadcastSignal(m2);
    drain();
    return W::sent();
}

// ---------------------------------------------------------------- replies
void expect(Native& n, Out& o, char mark, const Message::MethodCall& c)
{
    const uint32_t own = c.getSerial();
    n.sendMethodCall("d.d", c, [&o, mark, own](const Message::MethodReturn& r) {
            o += mark;
            o += 'S';
            o += r.m_SerialReplyingTo == own ? '=' : '#';
            put(o, r.getHeaderSender()); }, [&o, mark, own](const Message::Error& e) {
            o += mark;
            o += 'F';
            o += e.getSerialOfReply() == own ? '=' : '#';
            put(o, e.getHeaderSender()); });
}

std::string bytes4(uint32_t v, int big)
{
    Out o;
    if (big) {
        o += (char)(v >> 24);
        o += (char)(v >> 16);
        o += (char)(v >> 8);
        o += (char)v;
    } else {
        put4(o, v);
    }
    return o;
}

// one call outstanding, a reply t to serial k
std::string reply1(const std::string& t, uint32_t k)
{
    Native& n = ready();
    Out o;
    Message::MethodCall c(Message::MethodCallIdentifier("/p", "i.f", "M"));
    expect(n, o, 'a', c);
    drain();
    W::arrive(t);
    o += c.getSerial() == k ? "own" : "other";
    return o;
}

// three calls outstanding; four replies arrive, each to the call of its number (3: to none)
std::string replies(const std::string& pre1, const std::string& post1, const std::string& pre2, const std::string& post2, const std::string& pre3, const std::string& post3, const std::string& pre4, const std::string& post4, int r1, int r2, int r3, int r4)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCall c1(id), c2(id), c3(id), c4(id);
    const uint32_t ser[4] = { c1.getSerial(), c2.getSerial(), c3.getSerial(), c4.getSerial() };
    expect(n, o, 'a', c1);
    expect(n, o, 'b', c2);
    expect(n, o, 'c', c3);
    drain();
    W::arrive(pre1 + bytes4(ser[r1], 0) + post1);
    o += '|';
    W::arrive(pre2 + bytes4(ser[r2], 0) + post2);
    o += '|';
    W::arrive(pre3 + bytes4(ser[r3], 0) + post3);
    o += '|';
    W::arrive(pre4 + bytes4(ser[r4], 0) + post4);
    return o;
}

// the reply arrives before the call that sends the request has returned
std::string reply_early(const std::string& pre, const std::string& post)
{
    Native& n = ready();
    Out o;
    Message::MethodCall c(Message::MethodCallIdentifier("/p", "i.f", "M"));
    const std::string t = pre + bytes4(c.getSerial(), 0) + post;
    W::early(t);
    expect(n, o, 'a', c);
    drain();
    o += '|';
    W::arrive(t);
    return o;
}

// no reply is expected: none is reported, and nothing is kept waiting for one
std::string reply_unwanted(const std::string& pre, const std::string& post)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCallParametersIn in;
    Message::MethodCall c(id, in, Message::Header::FLAGS_NO_REPLY_EXPECTED);
    expect(n, o, 'a', c);
    drain();
    W::arrive(pre + bytes4(c.getSerial(), 0) + post);
    return o;
}

// the first reply's handler fails, or makes another call
std::string reply_handler(int what, const std::string& pre1, const std::string& post1, const std::string& pre2, const std::string& post2)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCall c1(id), c2(id);
    n.sendMethodCall("d.d", c1, [&o, &n, &c2, what](const Message::MethodReturn&) {
            o += 's';
            if (what) {
                expect(n, o, 'b', c2);
            } else {
                throw std::runtime_error("handler");
            } }, [&o, &n, &c2, what](const Message::Error&) {
            o += 'f';
            if (what) {
                expect(n, o, 'b', c2);
            } else {
                throw std::runtime_error("handler");
            } });
    if (!what) {
        expect(n, o, 'b', c2);
    }
    drain();
    const std::string t = pre1 + bytes4(c1.getSerial(), 0) + post1;
    W::arrive(t);
    drain();
    o += '|';
    W::arrive(t);
    o += '|';
    W::arrive(pre2 + bytes4(c2.getSerial(), 0) + post2);
    o += '|';
    W::arrive(pre2 + bytes4(c2.getSerial(), 0) + post2);
    return o;
}

// ---------------------------------------------------------------- routing
void note_call(Out& o, char mark, const Message::MethodCall& m)
{
    o += mark;
    put(o, m.getObject());
    put(o, m.getInterface());
    put(o, m.getMethod());
    put4(o, m.getSerial());
}
void note_signal(Out& o, char mark, const Message::Signal& m)
{
    o += mark;
    put(o, m.getHeaderPath());
    put(o, m.getHeaderInterface());
    put(o, m.getHeaderMember());
    put4(o, m.getSerial());
}

// two method handlers, one signal handler with a name of its own and one with the first name
std::string route(const std::string& n1, const std::string& n2, const std::string& n3, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    n.registerMethodCallHandler(n1, [&o](const Message::MethodCall& m) { note_call(o, '1', m); });
    n.registerMethodCallHandler(n2, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
    n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'A', m); });
    n.registerSignalHandler(n3, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
    W::arrive(t);
    o += '|';
    W::arrive(u);
    return o;
}

// handlers come and go
std::string unroute(const std::string& n1, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.registerMethodCallHandler(n1, [&o](const Message::MethodCall& m) { note_call(o, '1', m); });
    n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'A', m); });
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.unRegisterMethodCallHandler(n1);
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.registerMethodCallHandler(n1, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
    n.unRegisterSignalHandler(n1);
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
    W::arrive(t);
    W::arrive(u);
    return o;
}

// a handler removes itself (and registers another in its place)
std::string self_remove(int again, const std::string& n1, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    n.registerMethodCallHandler(n1, [&o, &n, n1, again](const Message::MethodCall& m) {
        n.unRegisterMethodCallHandler(n1);
        if (again) {
            n.registerMethodCallHandler(n1, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
        }
        note_call(o, '1', m);
    });
    n.registerSignalHandler(n1, [&o, &n, n1, again](const Message::Signal& m) {
        n.unRegisterSignalHandler(n1);
        if (again) {
            n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
        }
        note_signal(o, 'A', m);
    });
    W::arrive(t);
    W::arrive(u);
    o += '|';
    W::arrive(t);
    W::arrive(u);
    return o;
}

// ---------------------------------------------------------------- match rules
void add_rule(Native& n, Out& o, char mark, const std::string& rule)
{
    n.callAddMatch(
        rule, [](const Message::MethodReturn&) {}, [](const Message::Error&) {},
        [&o, mark](const Message::Signal& m) { note_signal(o, mark, m); });
    drain();
}

// one rule, one message
std::string match(const std::string& rule, const std::string& t)
{
    Native& n = ready();
    Out o;
    add_rule(n, o, 'R', rule);
    W::arrive(t);
    return o;
}

// two rules and a handler of the signal's own name; then one rule less, then the other
std::string match2(const std::string& rule1, const std::string& rule2, const std::string& name, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    n.registerSignalHandler(name, [&o](const Message::Signal& m) { note_signal(o, 'H', m); });
    add_rule(n, o, 'R', rule1);
    add_rule(n, o, 'S', rule2);
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.callRemoveMatch(rule1);
    drain();
    W::arrive(t);
    W::arrive(u);
    o += '|';
    n.callRemoveMatch(rule2);
    drain();
    W::arrive(t);
    W::arrive(u);
    o += '|';
    add_rule(n, o, 'R', rule1);
    W::arrive(t);
    W::arrive(u);
    return o;
}

// a rule that is refused
std::string bad_rule(const std::string& rule, const std::string& t)
{
    Native& n = ready();
    Out o;
    try {
        add_rule(n, o, 'R', rule);
        o += "accepted";
    } catch (const std::exception&) {
        o += "refused";
    }
    drain();
    o += '|';
    o += W::sent();
    o += '|';
    W::arrive(t);
    return o;
}

// ---------------------------------------------------------------- handlers that change the registrations
// what: 0 the other's name goes, 1 many new names come, 2 both
std::string change(int what, const std::string& n1, const std::string& n2, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    const auto act = [&o, &n, n1, n2, what](bool method) {
        if (what != 1) {
            if (method) {
                n.unRegisterSignalHandler(n1);
                n.unRegisterMethodCallHandler(n2);
            } else {
                n.unRegisterMethodCallHandler(n1);
                n.unRegisterSignalHandler(n2);
            }
        }
        if (what != 0) {
            n.registerMethodCallHandler("a.b", [](const Message::MethodCall&) {});
            n.registerMethodCallHandler("z.z", [](const Message::MethodCall&) {});
            n.registerSignalHandler("a.b", [](const Message::Signal&) {});
            n.registerSignalHandler("z.z", [](const Message::Signal&) {});
        }
    };
    n.registerMethodCallHandler(n1, [&o, act](const Message::MethodCall& m) {
        act(true);
        note_call(o, '1', m);
    });
    n.registerSignalHandler(n1, [&o, act](const Message::Signal& m) {
        act(false);
        note_signal(o, 'A', m);
    });
    n.registerMethodCallHandler(n2, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
    n.registerSignalHandler(n2, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
    W::arrive(t);
    o += '|';
    W::arrive(u);
    return o;
}

// what a rule's handler does to the rules: 0 removes its own, 1 removes the other's, 2 adds one, 3 removes its own and adds it again
std::string rule_changes(int what, const std::string& rule1, const std::string& rule2, const std::string& rule3, const std::string& t)
{
    Native& n = ready();
    Out o;
    n.callAddMatch(
        rule1, [](const Message::MethodReturn&) {}, [](const Message::Error&) {},
        [&o, &n, what, rule1, rule2, rule3](const Message::Signal& m) {
            if (what == 0 || what == 3) {
                n.callRemoveMatch(rule1);
            }
            if (what == 1) {
                n.callRemoveMatch(rule2);
            }
            if (what == 2) {
                add_rule(n, o, 'T', rule3);
            }
            if (what == 3) {
                add_rule(n, o, 'U', rule1);
            }
            note_signal(o, 'R', m);
        });
    drain();
    add_rule(n, o, 'S', rule2);
    W::arrive(t);
    o += '|';
    W::arrive(t);
    return o;
}

// a reply's handler: 0 removes and registers handlers, 1 makes the same call again (until three replies have come)
std::string reply_changes(int what, const std::string& n1, const std::string& pre1, const std::string& post1, const std::string& t)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCall c1(id), c2(id), c3(id), c4(id);
    n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'A', m); });
    const auto act = [&o, &n, &c2, &c3, &c4, n1, what] {
        if (what) {
            expect(n, o, 'b', c2);
            expect(n, o, 'c', c3);
            expect(n, o, 'd', c4);
        } else {
            n.unRegisterSignalHandler(n1);
            n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
        }
    };
    n.sendMethodCall("d.d", c1, [&o, act](const Message::MethodReturn& r) {
            act();
            o += 's';
            put(o, r.getHeaderSender()); }, [&o, act](const Message::Error& e) {
            act();
            o += 'f';
            put(o, e.getHeaderSender()); });
    drain();
    W::arrive(pre1 + bytes4(c1.getSerial(), 0) + post1);
    drain();
    o += '|';
    W::arrive(t);
    o += '|';
    W::arrive(pre1 + bytes4(c3.getSerial(), 0) + post1);
    return o;
}

// ---------------------------------------------------------------- two threads
void together(int swap, const std::function<void()>& a, const std::function<void()>& b)
{
    if (swap) {
        W::at(-1, a);
        b();
    } else {
        W::at(-1, b);
        a();
    }
    W::now();
}

// a signal is sent while the last answer of the handshake arrives; another one waits already
std::string queued_at(int kind, int swap, const std::string& p1, const std::string& p2)
{
    Native& n = *new Native("bus");
    const Message::Signal m1 = sig(p1), m2 = sig(p2);
    W::note(m1.marshall("") + "<note>");
    W::note(m2.marshall("") + "<note>");
    n.broadcastSignal(m1);
    n.BeginAuth(auth(kind));
    if (kind) {
        W::arrive("OK 0123\r\n");
    }
    drain();
    W::sent();
    together(
        swap, [&] { n.broadcastSignal(m2); }, [&] { W::arrive(kind ? "AGREE_UNIX_FD\r\n" : "OK 0123\r\n"); });
    drain();
    return W::sent();
}

// two threads send, before the handshake (0) or after it (1)
std::string both_send(int stage, const std::string& p1, const std::string& p2)
{
    Native& n = *new Native("bus");
    const Message::Signal m1 = sig(p1), m2 = sig(p2);
    W::note(m1.marshall("") + "<note>");
    W::note(m2.marshall("") + "<note>");
    if (stage) {
        n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
        W::arrive("OK 0123\r\n");
        drain();
    }
    together(
        0, [&] { n.broadcastSignal(m1); }, [&] { n.broadcastSignal(m2); });
    if (!stage) {
        n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
        W::arrive("OK 0123\r\n");
    }
    drain();
    return W::sent();
}

// a write completes while another message is sent
std::string complete_at(int swap, const std::string& p1, const std::string& p2, const std::string& p3)
{
    Native& n = ready();
    const Message::Signal m1 = sig(p1), m2 = sig(p2), m3 = sig(p3);
    W::note(m1.marshall("") + "<note>");
    W::note(m2.marshall("") + "<note>");
    W::note(m3.marshall("") + "<note>");
    n.broadcastSignal(m1);
    together(
        swap, [&] { n.broadcastSignal(m2); }, [] { W::complete(); });
    n.broadcastSignal(m3);
    drain();
    return W::sent();
}

// a call is made while the reply to an earlier one arrives
std::string reply_at(int swap, const std::string& pre1, const std::string& post1, const std::string& pre2, const std::string& post2)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCall c1(id), c2(id);
    expect(n, o, 'a', c1);
    drain();
    const std::string t = pre1 + bytes4(c1.getSerial(), 0) + post1;
    const std::string u = pre2 + bytes4(c2.getSerial(), 0) + post2;
    together(
        swap, [&] { expect(n, o, 'b', c2); }, [&] { W::arrive(t); });
    drain();
    o += '|';
    W::arrive(u);
    W::arrive(t);
    W::arrive(u);
    return o;
}

// two threads make a call each; then both replies come
std::string both_call(int first, const std::string& pre1, const std::string& post1, const std::string& pre2, const std::string& post2)
{
    Native& n = ready();
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    Message::MethodCall c1(id), c2(id);
    together(
        0, [&] { expect(n, o, 'a', c1); }, [&] { expect(n, o, 'b', c2); });
    drain();
    if (first) {
        W::arrive(pre2 + bytes4(c2.getSerial(), 0) + post2);
    }
    W::arrive(pre1 + bytes4(c1.getSerial(), 0) + post1);
    if (!first) {
        W::arrive(pre2 + bytes4(c2.getSerial(), 0) + post2);
    }
    return o;
}

// two threads make a message each
std::string serials_at()
{
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    uint32_t a = 0, b = 0;
    W::at(-1, [&] { b = Message::Signal(id).getSerial(); });
    a = Message::MethodCall(id).getSerial();
    W::now();
    const uint32_t c = Message::MethodCall(id).getSerial();
    return a != b && a && b && c != a && c != b ? "differ" : "same";
}

// what: 0 the other name is registered while a message arrives, 1 it goes
std::string register_at(int what, int swap, const std::string& n1, const std::string& n2, const std::string& t, const std::string& u, const std::string& v, const std::string& w)
{
    Native& n = ready();
    Out o;
    n.registerMethodCallHandler(n1, [&o](const Message::MethodCall& m) { note_call(o, '1', m); });
    n.registerSignalHandler(n1, [&o](const Message::Signal& m) { note_signal(o, 'A', m); });
    if (what) {
        n.registerMethodCallHandler(n2, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
        n.registerSignalHandler(n2, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
    }
    together(
        swap,
        [&] {
            if (what) {
                n.unRegisterMethodCallHandler(n2);
                n.unRegisterSignalHandler(n2);
            } else {
                n.registerMethodCallHandler(n2, [&o](const Message::MethodCall& m) { note_call(o, '2', m); });
                n.registerSignalHandler(n2, [&o](const Message::Signal& m) { note_signal(o, 'B', m); });
            }
        },
        [&] {
            W::arrive(t);
            W::arrive(u);
        });
    o += '|';
    W::arrive(v);
    W::arrive(w);
    return o;
}

// what: 0 another rule is added while a signal arrives, 1 it goes
std::string rule_at(int what, int swap, const std::string& rule1, const std::string& rule2, const std::string& t, const std::string& u)
{
    Native& n = ready();
    Out o;
    add_rule(n, o, 'R', rule1);
    if (what) {
        add_rule(n, o, 'S', rule2);
    }
    together(
        swap,
        [&] {
            if (what) {
                n.callRemoveMatch(rule2);
            } else {
                n.callAddMatch(
                    rule2, [](const Message::MethodReturn&) {}, [](const Message::Error&) {},
                    [&o](const Message::Signal& m) { note_signal(o, 'S', m); });
            }
        },
        [&] { W::arrive(t); });
    drain();
    o += '|';
    W::arrive(u);
    return o;
}

// ---------------------------------------------------------------- calls to the bus itself
void bus_call(Native& n, Out& o, int which, const std::string& name, uint32_t flags)
{
    const auto yes = [&o](const Message::MethodReturn& r) {
        o += 'S';
        put(o, r.getHeaderSender());
    };
    const auto no = [&o](const Message::Error& e) {
        o += 'F';
        put(o, e.getHeaderSender());
    };
    switch (which) {
    case 0:
        n.callHello(yes, no);
        break;
    case 1:
        n.callGetUnixProcessId(name, yes, no);
        break;
    case 2:
        n.callGetConnectionUnixUser(name, yes, no);
        break;
    case 3:
        n.callRequestName(name, flags, yes, no);
        break;
    case 4:
        n.callReleaseName(name, yes, no);
        break;
    case 5:
        n.callListQueuedOwners(name, yes, no);
        break;
    case 6:
        n.callListNames(yes, no);
        break;
    case 7:
        n.callListActivatableNames(yes, no);
        break;
    case 8:
        n.callNameHasOwner(name, yes, no);
        break;
    case 9:
        n.callAddMatch(name, yes, no, [](const Message::Signal&) {});
        break;
    default:
        n.callRemoveMatch(name);
    }
}

// the request, without its serial; then what the reply brings, twice
std::string bus(int which, const std::string& name, uint32_t flags, const std::string& pre, const std::string& post)
{
    Native& n = ready();
    Out o;
    bus_call(n, o, which, name, flags);
    drain();
    const std::string m = W::sent();
    const std::string t = pre + m.substr(8, 4) + post;
    o += m.substr(8, 4);
    o += m;
    o += '|';
    W::arrive(t);
    o += '|';
    W::arrive(t);
    return o;
}

// two requests at once, the second one answered first
std::string bus_pair(int one, int two, const std::string& name, const std::string& pre1, const std::string& post1, const std::string& pre2, const std::string& post2)
{
    Native& n = ready();
    Out o, p;
    bus_call(n, o, one, name, 1);
    drain();
    const std::string s = W::sent().substr(8, 4);
    bus_call(n, p, two, name, 2);
    drain();
    const std::string t = W::sent().substr(8, 4);
    W::arrive(pre2 + t + post2);
    o += '|';
    p += '|';
    W::arrive(pre1 + s + post1);
    return o + '+' + p;
}

// ---------------------------------------------------------------- the end of a connection
// everything a connection may call back
void listen(Native& n, Out& o, const Message::MethodCall& c)
{
    n.registerMethodCallHandler("i.f.M", [&o](const Message::MethodCall&) { o += 'c'; });
    n.registerSignalHandler("i.f.M", [&o](const Message::Signal&) { o += 's'; });
    n.callAddMatch(
        "type='signal',member='M'", [&o](const Message::MethodReturn&) { o += 'a'; }, [&o](const Message::Error&) { o += 'x'; }, [&o](const Message::Signal&) { o += 'm'; });
    n.sendMethodCall(
        "d.d", c, [&o](const Message::MethodReturn&) { o += 'r'; }, [&o](const Message::Error&) { o += 'e'; });
}

// stage: 0 new, 1 the handshake has begun, 2 it is complete, 3 the other end has closed, 4 it is complete and a part of a message has arrived, 5 writes fail
std::string over(int stage, bool full, const std::string& t, const std::string& u)
{
    Native* n = new Native("bus");
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    const Message::MethodCall c(id);
    listen(*n, o, c);
    if (stage > 0) {
        n->BeginAuth(stage == 1 ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        W::arrive("OK 0123\r\n");
    }
    if (stage == 4) {
        W::arrive(u);
    }
    if (!full) {
        drain();
    }
    if (stage == 3) {
        W::hangup();
    }
    if (stage == 5) {
        W::fail();
    }
    delete n;
    // from here on nothing happens
    o.clear();
    while (W::complete()) {
    }
    const bool more = W::arrive(t);
    W::hangup();
    return o + (more ? "1" : "0");
}

// something arrives while it ends
std::string over_at(int what, int at, const std::string& t)
{
    Native* n = new Native("bus");
    Out o;
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    const Message::MethodCall c(id);
    listen(*n, o, c);
    n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    W::arrive("OK 0123\r\n");
    drain();
    n->broadcastSignal(Message::Signal(id));
    W::at(at, [&] {
        if (what == 0) {
            W::arrive(t);
        } else if (what == 1) {
            W::hangup();
        } else if (what == 2) {
            W::complete();
        } else {
            W::fail();
        }
    });
    delete n;
    W::now();
    o.clear();
    while (W::complete()) {
    }
    const bool more = W::arrive(t);
    W::hangup();
    return o + (more ? "1" : "0");
}

// what was sent before the end
std::string last_words(unsigned when, const std::string& p1, const std::string& p2, const std::string& p3)
{
    Native* n = new Native("bus");
    const Message::Signal m1 = sig(p1), m2 = sig(p2), m3 = sig(p3);
    W::note(m1.marshall("") + "<note>");
    W::note(m2.marshall("") + "<note>");
    W::note(m3.marshall("") + "<note>");
    n->broadcastSignal(m1);
    n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    if (when & 1) {
        drain();
    }
    W::arrive("OK 0123\r\n");
    if (when & 2) {
        drain();
    }
    n->broadcastSignal(m2);
    if (when & 4) {
        W::complete();
    }
    n->broadcastSignal(m3);
    delete n;
    return W::sent();
}

// the other end takes nothing more: it ends all the same
std::string stalled(const std::string& p1)
{
    Native* n = new Native("bus");
    const Message::Signal m1 = sig(p1);
    n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    W::arrive("OK 0123\r\n");
    n->broadcastSignal(m1);
    W::stall();
    delete n;
    return W::arrive("x") ? "1" : "0";
}

}
