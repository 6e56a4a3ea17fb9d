// Client programs the analysis interprets abstractly; never compiled or run.
#include <stdexcept>
#include "dbus_message.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"

using namespace DBus;

namespace H {

// what is left after the value, and whether the stream then is exhausted
std::string finish(MessageIStream& s, size_t rest)
{
    std::string t;
    s.read(t, rest);
    t += s.empty() ? "E" : "-";
    return t;
}

#define DEC(N, CLS)                                                                      \
    std::string dec_##N(const std::string& d, size_t off, size_t rest, bool swap)        \
    {                                                                                    \
        MessageIStream s((const uint8_t*)d.data(), d.size(), swap);                      \
        std::string t;                                                                   \
        s.read(t, off);                                                                  \
        Type::CLS v;                                                                     \
        v.unmarshall(s);                                                                 \
        MessageOStream o;                                                                \
        v.marshall(o);                                                                   \
        return o.data + "|" + finish(s, rest);                                           \
    }                                                                                    \
    std::string str_##N(const std::string& d, size_t off, bool swap)                     \
    {                                                                                    \
        MessageIStream s((const uint8_t*)d.data(), d.size(), swap);                      \
        std::string t;                                                                   \
        s.read(t, off);                                                                  \
        Type::CLS v;                                                                     \
        v.unmarshall(s);                                                                 \
        return Type::asString(Type::Generic(v));                                         \
    }

DEC(y, Byte)
DEC(b, Boolean)
DEC(n, Int16)
DEC(q, Uint16)
DEC(i, Int32)
DEC(u, Uint32)
DEC(x, Int64)
DEC(t, Uint64)
DEC(d, Double)
DEC(s, String)
DEC(o, ObjectPath)
DEC(g, Signature)

// any complete type, by its signature
std::string dec_sig(const std::string& sig, const std::string& d, size_t off, size_t rest, bool swap)
{
    MessageIStream s((const uint8_t*)d.data(), d.size(), swap);
    std::string t;
    s.read(t, off);
    Type::Generic v = Type::create(sig);
    Type::unmarshallData(v, s);
    MessageOStream o;
    Type::marshallData(v, o);
    return o.data + "|" + Type::getMarshallingSignature(v) + "|" + finish(s, rest);
}

// the decoder alone
void raw_sig(const std::string& sig, const uint8_t* d, size_t size, bool swap)
{
    MessageIStream s(d, size, swap);
    Type::Generic v = Type::create(sig);
    Type::unmarshallData(v, s);
}

#define RAWC(N, CLS)                                                                          \
    void raw_##N(const std::string& sig, const uint8_t* d, size_t size, size_t off, bool swap) \
    {                                                                                         \
        MessageIStream s(d, size, swap);                                                      \
        std::string t;                                                                        \
        s.read(t, off);                                                                       \
        Type::CLS v;                                                                          \
        v.setSignature(sig);                                                                  \
        v.unmarshall(s);                                                                      \
    }
RAWC(y, Byte)
RAWC(b, Boolean)
RAWC(n, Int16)
RAWC(q, Uint16)
RAWC(i, Int32)
RAWC(u, Uint32)
RAWC(x, Int64)
RAWC(t, Uint64)
RAWC(d, Double)
RAWC(s, String)
RAWC(o, ObjectPath)
RAWC(g, Signature)
RAWC(a, Array)
RAWC(r, Struct)
RAWC(e, DictEntry)
RAWC(v, Variant)
std::string raw_read(const uint8_t* d, size_t size, size_t n)
{
    MessageIStream s(d, size, false);
    std::string t;
    s.read(t, n);
    return t;
}
std::string raw_align(const uint8_t* d, size_t size, size_t n, size_t a, size_t m)
{
    MessageIStream s(d, size, false);
    std::string t;
    s.read(t, n);
    s.align(a);
    s.read(t, m);
    return t;
}
std::string raw_sub(const uint8_t* d, size_t size, size_t n, size_t m)
{
    MessageIStream s(d, size, false);
    MessageIStream u(s, n);
    std::string t;
    u.read(t, m);
    return t;
}

// a value is decoded, then all that was left before it: something must be missing
#define PROGRESS(N, CLS)                                                                           \
    void progress_##N(const std::string& sig, const uint8_t* d, size_t size, size_t off, bool swap) \
    {                                                                                              \
        MessageIStream s(d, size, swap);                                                           \
        std::string t;                                                                             \
        s.read(t, off);                                                                            \
        Type::CLS v;                                                                               \
        v.setSignature(sig);                                                                       \
        v.unmarshall(s);                                                                           \
        s.read(t, size - off);                                                                     \
    }
PROGRESS(y, Byte)
PROGRESS(b, Boolean)
PROGRESS(n, Int16)
PROGRESS(q, Uint16)
PROGRESS(i, Int32)
PROGRESS(u, Uint32)
PROGRESS(x, Int64)
PROGRESS(t, Uint64)
PROGRESS(d, Double)
PROGRESS(s, String)
PROGRESS(o, ObjectPath)
PROGRESS(g, Signature)
PROGRESS(a, Array)
PROGRESS(r, Struct)
PROGRESS(e, DictEntry)
PROGRESS(v, Variant)
void progress_sig(const std::string& sig, const uint8_t* d, size_t size, size_t off, bool swap)
{
    MessageIStream s(d, size, swap);
    std::string t;
    s.read(t, off);
    Type::Generic v = Type::create(sig);
    Type::unmarshallData(v, s);
    s.read(t, size - off);
}

// the part of a signature that is taken next is not empty, or there is none
int taken(const std::string& sig, size_t i)
{
    try {
        return Type::extractSignature(sig, i).size() >= 1 ? 1 : 0;
    } catch (const std::exception&) {
        return 1;
    }
}

// whole value in, value out
std::string through(const std::string& sig, const std::string& d, bool swap)
{
    MessageIStream s((const uint8_t*)d.data(), d.size(), swap);
    Type::Generic v = Type::create(sig);
    Type::unmarshallData(v, s);
    MessageOStream o;
    Type::marshallData(v, o);
    return o.data;
}
// decoded only
std::string taken_in(const std::string& sig, const std::string& d, bool swap)
{
    MessageIStream s((const uint8_t*)d.data(), d.size(), swap);
    Type::Generic v = Type::create(sig);
    Type::unmarshallData(v, s);
    return s.empty() ? "all" : "part";
}

size_t alignment(const std::string& sig) { return Type::getAlignment(sig); }
std::string created(const std::string& sig)
{
    Type::Generic v = Type::create(sig);
    return Type::getMarshallingSignature(v);
}
std::string extracted(const std::string& sig, size_t i) { return Type::extractSignature(sig, i); }

}
