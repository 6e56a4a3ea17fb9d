// Client programs the analysis interprets abstractly; never compiled or run.
#include <string>

#include "dbus_introspectable.h"
#include "dbus_platform.h"
#include "dbus_validation.h"

using namespace DBus;

namespace W {
// the environment has the variable, with that value
void env(const std::string& name, const std::string& value);
}

namespace H {

// ---------------------------------------------------------------- bus addresses
std::string session_bus(const std::string& a) { return Platform::getSessionBus(a.c_str()); }
std::string system_bus(const std::string& a) { return Platform::getSystemBus(a.c_str()); }
std::string session_none() { return Platform::getSessionBus(nullptr); }
std::string system_none() { return Platform::getSystemBus(nullptr); }

std::string session_env(int has, const std::string& a)
{
    if (has) {
        W::env("DBUS_SESSION_BUS_ADDRESS", a);
    }
    W::env("DBUS_SYSTEM_BUS", "/wrong");
    return Platform::getSessionBus();
}

std::string system_env(int has, const std::string& a)
{
    if (has) {
        W::env("DBUS_SYSTEM_BUS_ADDRESS", a);
    }
    W::env("DBUS_SESSION_BUS", "/wrong");
    return Platform::getSystemBus();
}

// both variables set
std::string both_env(int which, const std::string& a, const std::string& b)
{
    W::env("DBUS_SESSION_BUS_ADDRESS", a);
    W::env("DBUS_SYSTEM_BUS_ADDRESS", b);
    return which ? Platform::getSystemBus() : Platform::getSessionBus();
}

// ---------------------------------------------------------------- introspection
std::string intro_signal(const std::string& name, const std::string& type)
{
    return Introspectable::Signal(name, type).serialize();
}

std::string intro_method(const std::string& name, const std::string& in, const std::string& out)
{
    return Introspectable::Method(name, in, out).serialize();
}

std::string intro_property(const std::string& name, const std::string& type, unsigned long access)
{
    return Introspectable::Property(name, type, access).serialize();
}

std::string intro_property_default(const std::string& name, const std::string& type)
{
    return Introspectable::Property(name, type).serialize();
}

std::string intro_interface(const std::string& name, int ps, int ms, int ss, const std::string& t1, const std::string& t2)
{
    Introspectable::Interface i(name);
    for (int k = 0; k < ps; ++k) {
        i.addProperty(Introspectable::Property(k ? "Pq" : "Pp", k ? t2 : t1, k ? Introspectable::Property::PROPERTY_READWRITE : Introspectable::Property::PROPERTY_WRITE));
    }
    for (int k = 0; k < ms; ++k) {
        i.addMethod(Introspectable::Method(k ? "Mq" : "Mp", k ? t2 : t1, k ? t1 : t2));
    }
    for (int k = 0; k < ss; ++k) {
        i.addSignal(Introspectable::Signal(k ? "Sq" : "Sp", k ? t2 : t1));
    }
    return i.serialize();
}

std::string intro_all(int n, const std::string& n1, const std::string& n2, const std::string& n3)
{
    Introspectable::Introspection all;
    if (n > 0) {
        Introspectable::Interface i(n1);
        i.addSignal(Introspectable::Signal("S", "s"));
        all.addInterface(i);
    }
    if (n > 1) {
        Introspectable::Interface i(n2);
        i.addMethod(Introspectable::Method("M", "u", ""));
        all.addInterface(i);
    }
    if (n > 2) {
        all.addInterface(Introspectable::Interface(n3));
    }
    return all.serialize();
}

}
