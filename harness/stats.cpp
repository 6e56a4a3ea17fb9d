// Client programs the analysis interprets abstractly; never compiled or run.
#include <functional>
#include <stdexcept>
#include <string>

#include "dbus.h"
#include "dbus_message.h"
#include "dbus_native.h"
#include "dbus_type.h"
#include "dbus_type_string.h"

using namespace DBus;

namespace W {
bool complete();
bool fail();
std::string sent();
bool arrive(const std::string& t);
bool hangup();
void early(const std::string& t);
void at(int k, const std::function<void()>& f);
bool now();
void stall();
void note(const std::string& t);
}

namespace H {

void drain()
{
    for (int i = 0; i < 24 && W::complete(); ++i) {
    }
}

AuthenticationProtocol::AuthRequired auth(int kind)
{
    return kind ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC;
}

Native& ready()
{
    Native& n = *new Native("bus");
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    W::arrive("OK 0123\r\n");
    drain();
    return n;
}

// connected only
std::string none()
{
    Native& n = *new Native("bus");
    drain();
    return n.getStats();
}

// the handshake in two deliveries
std::string shake(int kind, const std::string& a, const std::string& b)
{
    Native& n = *new Native("bus");
    n.BeginAuth(auth(kind));
    drain();
    W::arrive(a);
    W::arrive(b);
    drain();
    return n.getStats();
}

// an incoming delivery on each side of the end of the handshake
std::string shake3(int kind, const std::string& a, const std::string& b, const std::string& c)
{
    Native& n = *new Native("bus");
    n.BeginAuth(auth(kind));
    drain();
    W::arrive(a);
    W::arrive(b);
    W::arrive(c);
    drain();
    return n.getStats();
}

void say(Native& n, int what, const std::string& p, uint32_t r)
{
    Message::MethodCallIdentifier id(p, "i.f", "M");
    if (what == 0) {
        Message::MethodCall c(id);
        W::note(c.marshall("d.d"));
        n.sendMethodCall("d.d", c);
    } else if (what == 1) {
        Message::MethodCallParametersIn in;
        Message::MethodCall c(id, in, Message::Header::FLAGS_NO_REPLY_EXPECTED);
        W::note(c.marshall("d.d"));
        n.sendMethodCall("d.d", c);
    } else if (what == 2) {
        Message::MethodReturn t(r);
        W::note(t.marshall("d.d"));
        n.sendMethodReturn("d.d", t);
    } else if (what == 3) {
        Message::Error e(r, "e.e", "text");
        W::note(e.marshall("d.d"));
        n.sendError("d.d", e);
    } else if (what == 4) {
        Message::Signal s(id);
        W::note(s.marshall(":1.5"));
        n.sendSignal(":1.5", s);
    } else if (what == 5) {
        Message::Signal s(id);
        W::note(s.marshall(""));
        n.broadcastSignal(s);
    }
}

// three messages, of which the first wait for the handshake
std::string sends(int waiting, int a, int b, int c, const std::string& p, uint32_t r)
{
    Native& n = *new Native("bus");
    const int what[3] = { a, b, c };
    for (int i = 0; i < waiting; ++i) {
        say(n, what[i], p, r);
    }
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    W::arrive("OK 0123\r\n");
    for (int i = waiting; i < 3; ++i) {
        say(n, what[i], p, r);
    }
    drain();
    return n.getStats();
}

void hear(Native& n)
{
    n.registerMethodCallHandler("i.f.M", [](const Message::MethodCall&) {});
    n.registerSignalHandler("i.f.M", [](const Message::Signal&) { throw std::runtime_error("handler"); });
}

// three deliveries after the handshake
std::string hears(int heard, const std::string& a, const std::string& b, const std::string& c)
{
    Native& n = ready();
    if (heard) {
        hear(n);
    }
    W::arrive(a);
    W::arrive(b);
    W::arrive(c);
    return n.getStats();
}

// a call and its answer
std::string answered(int fails, const std::string& pre, const std::string& post)
{
    Native& n = ready();
    Message::MethodCall c(Message::MethodCallIdentifier("/p", "i.f", "M"));
    W::note(c.marshall("d.d"));
    n.sendMethodCall("d.d", c, [fails](const Message::MethodReturn&) {
            if (fails) {
                throw std::runtime_error("handler");
            } }, [fails](const Message::Error&) {
            if (fails) {
                throw std::runtime_error("handler");
            } });
    drain();
    const uint32_t v = c.getSerial();
    W::arrive(pre + std::string((const char*)&v, 4) + post);
    return n.getStats();
}

// the other end closes
std::string closed(const std::string& a)
{
    Native& n = ready();
    W::arrive(a);
    W::hangup();
    return n.getStats();
}
}
