// Client programs the analysis interprets abstractly; never compiled or run.
#include <stdexcept>
#include <string>

#include "dbus_message.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_messageprotocol.h"
#include "dbus_octetbuffer.h"
#include "dbus_type.h"
#include "dbus_type_struct.h"

using namespace DBus;

namespace H {

// one delivery of received bytes to a fresh parser
size_t feed1(const uint8_t* d, size_t n)
{
    MessageProtocol p;
    OctetBuffer b { d, n };
    p.onReceiveData(b);
    return b.size();
}

// two deliveries
size_t feed2(const uint8_t* d, size_t n, const uint8_t* e, size_t m)
{
    MessageProtocol p;
    OctetBuffer b { d, n };
    p.onReceiveData(b);
    OctetBuffer c { e, m };
    p.onReceiveData(c);
    return c.size();
}

// what the handlers are told about every received message
typedef std::string Out;

void put(Out& o, const std::string& s)
{
    o += s;
    o += ';';
}
void put4(Out& o, uint32_t v) { o.append((const char*)&v, 4); }

void note(Out& o, char kind, const Message::Base& m)
{
    o += kind;
    put(o, m.getHeaderPath());
    put(o, m.getHeaderInterface());
    put(o, m.getHeaderMember());
    put(o, m.getHeaderDestination());
    put(o, m.getHeaderSender());
    put4(o, m.getSerial());
    put4(o, m.getReplySerial());
    for (size_t i = 0; i < m.getParameterCount(); ++i) {
        const std::string sig = Type::getMarshallingSignature(m.getParameter(i));
        put(o, sig);
        if (sig == "u") {
            put4(o, Type::asUint32(m.getParameter(i)));
        } else {
            put(o, Type::asString(m.getParameter(i)));
        }
    }
    o += '.';
}
void note_call(Out& o, const Message::MethodCall& m)
{
    note(o, 'C', m);
    o += m.isReplyExpected() ? '1' : '0';
    put(o, m.getObject());
    put(o, m.getInterface());
    put(o, m.getMethod());
}
void note_return(Out& o, const Message::MethodReturn& m)
{
    note(o, 'R', m);
    put4(o, m.m_SerialReplyingTo);
}
void note_error(Out& o, const Message::Error& m)
{
    note(o, 'E', m);
    put4(o, m.getSerialOfReply());
    put(o, m.getMessage());
}

void listen(MessageProtocol& p, Out& o)
{
    p.setMethodCallHandler([&o](const Message::MethodCall& m) { note_call(o, m); });
    p.setMethodReturnHandler([&o](const Message::MethodReturn& m) { note_return(o, m); });
    p.setErrorHandler([&o](const Message::Error& m) { note_error(o, m); });
    p.setSignalHandler([&o](const Message::Signal& m) { note(o, 'S', m); });
}

void deliver(MessageProtocol& p, Out& o, const std::string& t)
{
    OctetBuffer b { (const uint8_t*)t.data(), t.size() };
    p.onReceiveData(b);
    // everything delivered has been taken over
    o += b.size() ? 'L' : '|';
}

std::string recv1(const std::string& t)
{
    MessageProtocol p;
    Out o;
    listen(p, o);
    deliver(p, o, t);
    return o;
}
std::string recv2(const std::string& t, const std::string& u)
{
    MessageProtocol p;
    Out o;
    listen(p, o);
    deliver(p, o, t);
    deliver(p, o, u);
    return o;
}
std::string recv3(const std::string& t, const std::string& u, const std::string& w)
{
    MessageProtocol p;
    Out o;
    listen(p, o);
    deliver(p, o, t);
    deliver(p, o, u);
    deliver(p, o, w);
    return o;
}
// a handler that fails: what is received afterwards is still delivered
std::string recv_throwing(const std::string& t, const std::string& u)
{
    MessageProtocol p;
    Out o;
    auto fail = [&o](char c) {
        o += c;
        throw std::runtime_error("handler");
    };
    p.setMethodCallHandler([&o, fail](const Message::MethodCall& m) { note_call(o, m); fail('x'); });
    p.setMethodReturnHandler([&o, fail](const Message::MethodReturn& m) { note_return(o, m); fail('x'); });
    p.setErrorHandler([&o, fail](const Message::Error& m) { note_error(o, m); fail('x'); });
    p.setSignalHandler([&o, fail](const Message::Signal& m) { note(o, 'S', m); fail('x'); });
    deliver(p, o, t);
    deliver(p, o, u);
    return o;
}

// a handler that replaces itself while it runs
std::string recv_replacing(const std::string& t, const std::string& u)
{
    MessageProtocol p;
    Out o;
    std::string tag("kept");
    p.setMethodCallHandler([&o, &p, tag](const Message::MethodCall& m) {
        p.setMethodCallHandler([&o](const Message::MethodCall& m) { note_call(o, m); });
        o += tag;
        note_call(o, m);
    });
    p.setMethodReturnHandler([&o, &p, tag](const Message::MethodReturn& m) {
        p.setMethodReturnHandler([&o](const Message::MethodReturn& m) { note_return(o, m); });
        o += tag;
        note_return(o, m);
    });
    p.setErrorHandler([&o, &p, tag](const Message::Error& m) {
        p.setErrorHandler([&o](const Message::Error& m) { note_error(o, m); });
        o += tag;
        note_error(o, m);
    });
    p.setSignalHandler([&o, &p, tag](const Message::Signal& m) {
        p.setSignalHandler([&o](const Message::Signal& m) { note(o, 'S', m); });
        o += tag;
        note(o, 'S', m);
    });
    deliver(p, o, t);
    deliver(p, o, u);
    return o;
}

// the parser after it was reset in the middle of a message
std::string recv_reset(const std::string& t, const std::string& u)
{
    MessageProtocol p;
    Out o;
    listen(p, o);
    deliver(p, o, t);
    p.reset();
    deliver(p, o, u);
    return o;
}

}
