// Two threads at work on one connection; interpreted abstractly, never compiled or run.
#include <functional>
#include <stdexcept>
#include <string>

#include "dbus.h"
#include "dbus_log.h"
#include "dbus_message.h"
#include "dbus_messageprotocol.h"
#include "dbus_native.h"

using namespace DBus;

namespace W {
bool complete();
bool fail();
std::string sent();
bool arrive(const std::string& t);
bool hangup();
// another application thread runs f just before the k-th lock is taken from now on; before any of them when k is negative
void at(int k, const std::function<void()>& f);
// it runs now, unless it has
bool now();
}

namespace H {

void drain()
{
    for (int i = 0; i < 16 && W::complete(); ++i) {
    }
}

std::string bytes4(uint32_t v)
{
    std::string o;
    o.append((const char*)&v, 4);
    return o;
}

struct Texts {
    std::string call, reply, error, signal;
};

void act(Native& n, int what, const Texts& t)
{
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    switch (what) {
    case 0:
        n.broadcastSignal(Message::Signal(id));
        break;
    case 1:
        n.sendMethodCall("d.d", Message::MethodCall(id));
        break;
    case 2:
        n.registerMethodCallHandler("i.f.N", [](const Message::MethodCall&) {});
        break;
    case 3:
        n.unRegisterMethodCallHandler("i.f.M");
        break;
    case 4:
        n.registerSignalHandler("i.f.N", [](const Message::Signal&) {});
        break;
    case 5:
        n.unRegisterSignalHandler("i.f.M");
        break;
    case 6:
        n.callAddMatch(
            "type='signal',member='N'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [](const Message::Signal&) {});
        break;
    case 7:
        n.callRemoveMatch("type='signal',member='M'");
        break;
    case 8:
        n.BeginAuth(AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
        break;
    case 9:
        n.getStats();
        break;
    case 10:
        n.sendMethodReturn("d.d", Message::MethodReturn(7));
        break;
    case 11:
        n.sendError("d.d", Message::Error(7, "e.e", "text"));
        break;
    case 12:
        n.sendSignal(":1.5", Message::Signal(id));
        break;
    case 20:
        W::arrive(t.call);
        break;
    case 21:
        W::arrive(t.reply);
        break;
    case 22:
        W::arrive(t.error);
        break;
    case 23:
        W::arrive(t.signal);
        break;
    case 24:
        W::arrive("OK 0123\r\n");
        break;
    case 25:
        W::arrive("AGREE_UNIX_FD\r\n");
        break;
    case 26:
        W::complete();
        break;
    case 27:
        W::fail();
        break;
    case 28:
        W::hangup();
        break;
    case 29:
        W::arrive("ERROR\r\n");
        break;
    case 30:
        W::arrive("OK");
        break;
    case 31:
        W::arrive(t.signal + t.call + t.signal.substr(0, 20));
        break;
    }
}

// what a handler does to the connection
void inside(Native& n)
{
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    n.sendMethodCall("d.d", Message::MethodCall(id));
    n.registerMethodCallHandler("i.f.H", [](const Message::MethodCall&) {});
    n.unRegisterMethodCallHandler("i.f.H");
    n.registerSignalHandler("i.f.H", [](const Message::Signal&) {});
    n.unRegisterSignalHandler("i.f.H");
    n.callAddMatch(
        "type='signal',member='H'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [](const Message::Signal&) {});
    n.callRemoveMatch("type='signal',member='H'");
}

// stage: 0 nothing has happened yet, 1 the handshake has begun, 2 it is complete
// one thread does a, and another b at any point of it
void pair(int stage, int a, int b, const std::string& call, const std::string& signal, const std::string& rpre, const std::string& rpost, const std::string& epre, const std::string& epost)
{
    Native& n = *new Native("bus");
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    if (stage > 0) {
        n.BeginAuth(stage == 1 ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    }
    if (stage > 1) {
        W::arrive("OK 0123\r\n");
    }
    drain();
    n.registerMethodCallHandler("i.f.M", [&n](const Message::MethodCall&) { inside(n); });
    n.registerSignalHandler("i.f.M", [&n](const Message::Signal&) { inside(n); });
    n.callAddMatch(
        "type='signal',member='M'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [&n](const Message::Signal&) { inside(n); });
    const Message::MethodCall c(id);
    n.sendMethodCall(
        "d.d", c, [&n](const Message::MethodReturn&) { inside(n); }, [&n](const Message::Error&) { inside(n); });
    Texts t;
    t.call = call;
    t.signal = signal;
    t.reply = rpre + bytes4(c.getSerial()) + rpost;
    t.error = epre + bytes4(c.getSerial()) + epost;
    W::at(-1, [&] { act(n, b, t); });
    act(n, a, t);
    W::now();
    drain();
    act(n, 9, t);
}

// the first delivery comes at any point of the construction
void born(int what)
{
    W::at(-1, [what] {
        if (what == 0) {
            W::complete();
        } else if (what == 1) {
            W::arrive("OK 0123\r\n");
        } else {
            W::hangup();
        }
    });
    Native& n = *new Native("bus");
    W::now();
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    drain();
}

// the connection ends while something is delivered
void end(int stage, int what, const std::string& call, const std::string& signal, const std::string& rpre, const std::string& rpost, const std::string& epre, const std::string& epost)
{
    Native& n = *new Native("bus");
    Message::MethodCallIdentifier id("/p", "i.f", "M");
    if (stage > 0) {
        n.BeginAuth(stage == 1 ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    }
    if (stage > 1) {
        W::arrive("OK 0123\r\n");
    }
    drain();
    n.registerMethodCallHandler("i.f.M", [&n](const Message::MethodCall&) { inside(n); });
    n.registerSignalHandler("i.f.M", [&n](const Message::Signal&) { inside(n); });
    n.callAddMatch(
        "type='signal',member='M'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [&n](const Message::Signal&) { inside(n); });
    const Message::MethodCall c(id);
    n.sendMethodCall(
        "d.d", c, [&n](const Message::MethodReturn&) { inside(n); }, [&n](const Message::Error&) { inside(n); });
    Texts t;
    t.call = call;
    t.signal = signal;
    t.reply = rpre + bytes4(c.getSerial()) + rpost;
    t.error = epre + bytes4(c.getSerial()) + epost;
    W::at(-1, [&] { act(n, what, t); });
    delete &n;
    W::now();
}

// the handler of one kind of message is set while a message of any kind arrives
void handlers(int which, const std::string& t)
{
    MessageProtocol& p = *new MessageProtocol();
    p.setMethodCallHandler([](const Message::MethodCall&) {});
    p.setMethodReturnHandler([](const Message::MethodReturn&) {});
    p.setErrorHandler([](const Message::Error&) {});
    p.setSignalHandler([](const Message::Signal&) {});
    W::at(-1, [&p, which] {
        if (which == 0) {
            p.setMethodCallHandler([](const Message::MethodCall&) {});
        } else if (which == 1) {
            p.setMethodReturnHandler([](const Message::MethodReturn&) {});
        } else if (which == 2) {
            p.setErrorHandler([](const Message::Error&) {});
        } else {
            p.setSignalHandler([](const Message::Signal&) {});
        }
    });
    OctetBuffer b((const uint8_t*)t.data(), t.size());
    p.onReceiveData(b);
    W::now();
}

// the level of the log is changed while something is logged, and by two threads
void levels(int what)
{
    W::at(-1, [] { Log::setLevel(Log::INFO); });
    if (what == 0) {
        Log::write(Log::TRACE, "text\n");
    } else if (what == 1) {
        Log::setLevel(Log::ERROR);
    } else {
        Log::isActive(Log::INFO);
    }
    W::now();
}

}
