// Client programs the analysis interprets abstractly; never compiled or run.
#include <string>

#include "dbus_message.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_byte.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"

using namespace DBus;

namespace H {

std::string with_serial(uint32_t serial, const std::string& m) { return std::string((const char*)&serial, 4) + m; }

std::string call0(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest, uint32_t flags)
{
    Message::MethodCallIdentifier id(path, ifc, member);
    Message::MethodCall m(id, Message::MethodCallParametersIn(), flags);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string call_default(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest)
{
    Message::MethodCallIdentifier id(path, ifc, member);
    Message::MethodCall m(id);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string call_s(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest, uint32_t flags, const std::string& x)
{
    Message::MethodCallIdentifier id(path, ifc, member);
    Message::MethodCall m(id, Message::MethodCallParametersIn(x), flags);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string call_su(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest, uint32_t flags, const std::string& x, uint32_t y)
{
    Message::MethodCallIdentifier id(path, ifc, member);
    Message::MethodCall m(id, Message::MethodCallParametersIn(x, y), flags);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string call_mixed(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest, uint32_t flags, const std::string& x, uint8_t b, uint64_t t)
{
    Message::MethodCallIdentifier id(path, ifc, member);
    Message::MethodCallParametersIn p;
    p.add(b);
    p.add(x);
    p.add(Type::Uint64(t));
    Type::Struct s;
    s.add(Type::Byte(b));
    s.add(Type::Uint64(t));
    p.add(s);
    Type::Array a;
    a.add(Type::String(x));
    p.add(a);
    Message::MethodCall m(id, p, flags);
    return with_serial(m.getSerial(), m.marshall(dest));
}

std::string return0(uint32_t reply, const std::string& dest)
{
    Message::MethodReturn m(reply);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string return_su(uint32_t reply, const std::string& dest, const std::string& x, uint32_t y)
{
    Message::MethodReturn m(reply);
    m.addParameter(Type::String(x));
    m.addParameter(Type::Uint32(y));
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string error1(uint32_t reply, const std::string& name, const std::string& text, const std::string& dest)
{
    Message::Error m(reply, name, text);
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string signal0(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest)
{
    Message::Signal m(Message::MethodCallIdentifier { path, ifc, member });
    return with_serial(m.getSerial(), m.marshall(dest));
}
std::string signal_us(const std::string& path, const std::string& ifc, const std::string& member, const std::string& dest, const std::string& x, uint32_t y)
{
    Message::Signal m(Message::MethodCallIdentifier { path, ifc, member });
    m.addParameter(Type::Uint32(y));
    m.addParameter(Type::String(x));
    return with_serial(m.getSerial(), m.marshall(dest));
}
// the same message written twice
std::string signal_twice(const std::string& path, const std::string& ifc, const std::string& member, const std::string& x)
{
    Message::Signal m(Message::MethodCallIdentifier { path, ifc, member });
    m.addParameter(Type::String(x));
    m.marshall("");
    return with_serial(m.getSerial(), m.marshall(""));
}

// serials of messages created one after the other, and of the copies of one
std::string serials()
{
    Message::MethodCallIdentifier id("/a", "b.c", "d");
    Message::MethodCall a(id);
    Message::Signal b(id);
    Message::MethodReturn c(7);
    Message::Error d(7, "e.f", "g");
    Message::MethodCall e(id);
    const uint32_t s[5] = { a.getSerial(), b.getSerial(), c.getSerial(), d.getSerial(), e.getSerial() };
    std::string r;
    for (int i = 0; i < 5; ++i) {
        r += s[i] ? "+" : "0";
        for (int j = 0; j < i; ++j) {
            r += s[i] == s[j] ? "=" : "#";
        }
    }
    return r;
}
uint32_t serial_of_call()
{
    Message::MethodCall a(Message::MethodCallIdentifier { "/a", "b.c", "d" });
    return a.getSerial();
}
std::string serial_stable()
{
    Message::MethodCall a(Message::MethodCallIdentifier { "/a", "b.c", "d" });
    Message::MethodCall b(a);
    const uint32_t s = a.getSerial();
    a.marshall("x.y");
    Message::MethodCall c(Message::MethodCallIdentifier { "/a", "b.c", "d" });
    return std::string(a.getSerial() == s ? "same" : "other") + (b.getSerial() == s ? "same" : "other");
}

}

namespace H {

std::string nonzero(const Message::Base& m) { return m.getSerial() ? "+" : "0"; }
std::string nonzero_call()
{
    return nonzero(Message::MethodCall(Message::MethodCallIdentifier { "/a", "b.c", "d" }));
}
std::string nonzero_signal()
{
    return nonzero(Message::Signal(Message::MethodCallIdentifier { "/a", "b.c", "d" }));
}
std::string nonzero_return()
{
    return nonzero(Message::MethodReturn(7));
}
std::string nonzero_error()
{
    return nonzero(Message::Error(7, "e.f", "g"));
}
std::string distinct_calls()
{
    Message::MethodCall a(Message::MethodCallIdentifier { "/a", "b.c", "d" });
    Message::MethodCall b(Message::MethodCallIdentifier { "/a", "b.c", "d" });
    return a.getSerial() == b.getSerial() ? "same" : "other";
}
std::string distinct_mixed()
{
    Message::MethodReturn a(7);
    Message::Error b(7, "e.f", "g");
    return a.getSerial() == b.getSerial() ? "same" : "other";
}

}
