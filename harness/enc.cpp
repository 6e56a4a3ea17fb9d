// Client programs the analysis interprets abstractly; never compiled or run.
#include "dbus_message.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"

using namespace DBus;

namespace H {

#define BASIC(N, CLS, CT)                                   \
    std::string enc_##N(const std::string& pre, CT x)       \
    {                                                       \
        MessageOStream s;                                   \
        s.write(pre);                                       \
        Type::CLS v(x);                                     \
        v.marshall(s);                                      \
        return s.data;                                      \
    }                                                       \
    std::string encg_##N(const std::string& pre, CT x)      \
    {                                                       \
        MessageOStream s;                                   \
        s.write(pre);                                       \
        Type::CLS v(x);                                     \
        Type::Generic g(v);                                 \
        Type::marshallData(g, s);                           \
        return s.data;                                      \
    }                                                       \
    std::string sig_##N(CT x)                               \
    {                                                       \
        Type::CLS v(x);                                     \
        return Type::getMarshallingSignature(Type::Generic(v)); \
    }

BASIC(y, Byte, uint8_t)
BASIC(b, Boolean, bool)
BASIC(n, Int16, int16_t)
BASIC(q, Uint16, uint16_t)
BASIC(i, Int32, int32_t)
BASIC(u, Uint32, uint32_t)
BASIC(x, Int64, int64_t)
BASIC(t, Uint64, uint64_t)
BASIC(d, Double, double)
BASIC(s, String, const std::string&)
BASIC(o, ObjectPath, const std::string&)
BASIC(g, Signature, const std::string&)

#define WRITE(N, M, CT)                                     \
    std::string wr_##N(const std::string& pre, CT x)        \
    {                                                       \
        MessageOStream s;                                   \
        s.write(pre);                                       \
        s.M(x);                                             \
        return s.data;                                      \
    }

WRITE(y, writeByte, uint8_t)
WRITE(b, writeBoolean, bool)
WRITE(n, writeInt16, int16_t)
WRITE(q, writeUint16, uint16_t)
WRITE(i, writeInt32, int32_t)
WRITE(u, writeUint32, uint32_t)
WRITE(x, writeInt64, int64_t)
WRITE(t, writeUint64, uint64_t)
WRITE(d, writeDouble, double)
WRITE(s, writeString, const std::string&)
WRITE(g, writeSignature, const std::string&)

std::string wr_stream(const std::string& pre, const std::string& x)
{
    MessageOStream s, t;
    s.write(pre);
    t.write(x);
    s.write(t);
    return s.data;
}
std::string wr_pad2(const std::string& pre) { MessageOStream s; s.write(pre); s.pad2(); return s.data; }
std::string wr_pad4(const std::string& pre) { MessageOStream s; s.write(pre); s.pad4(); return s.data; }
std::string wr_pad8(const std::string& pre) { MessageOStream s; s.write(pre); s.pad8(); return s.data; }
std::string wr_pad(const std::string& pre, size_t n) { MessageOStream s; s.write(pre); s.pad(n); return s.data; }

// containers
#define ARR(N, CLS, CT)                                              \
    std::string arr_##N(const std::string& pre, CT x, CT y, size_t n) \
    {                                                                \
        MessageOStream s;                                            \
        s.write(pre);                                                \
        Type::Array a;                                               \
        a.setSignature("a" #N);                                      \
        if (n > 0) a.add(Type::CLS(x));                              \
        if (n > 1) a.add(Type::CLS(y));                              \
        Type::marshallData(Type::Generic(a), s);                     \
        return s.data;                                               \
    }
ARR(y, Byte, uint8_t)
ARR(b, Boolean, bool)
ARR(n, Int16, int16_t)
ARR(q, Uint16, uint16_t)
ARR(i, Int32, int32_t)
ARR(u, Uint32, uint32_t)
ARR(x, Int64, int64_t)
ARR(t, Uint64, uint64_t)
ARR(d, Double, double)
ARR(s, String, const std::string&)
ARR(o, ObjectPath, const std::string&)
ARR(g, Signature, const std::string&)

std::string arr_v(const std::string& pre, const std::string& x, uint32_t y, size_t n)
{
    MessageOStream s;
    s.write(pre);
    Type::Array a;
    a.setSignature("av");
    if (n > 0) a.add(Type::Variant(Type::String(x)));
    if (n > 1) a.add(Type::Variant(Type::Uint32(y)));
    Type::marshallData(Type::Generic(a), s);
    return s.data;
}
std::string arr_struct(const std::string& pre, uint8_t x, uint64_t y, size_t n)
{
    MessageOStream s;
    s.write(pre);
    Type::Array a;
    a.setSignature("a(yt)");
    if (n > 0) {
        Type::Struct e;
        e.add(Type::Byte(x));
        e.add(Type::Uint64(y));
        a.add(e);
    }
    if (n > 1) {
        Type::Struct e;
        e.add(Type::Byte(x));
        e.add(Type::Uint64(y));
        a.add(e);
    }
    Type::marshallData(Type::Generic(a), s);
    return s.data;
}
std::string arr_dict(const std::string& pre, const std::string& x, uint32_t y, size_t n)
{
    MessageOStream s;
    s.write(pre);
    Type::Array a;
    a.setSignature("a{su}");
    if (n > 0) a.add(Type::DictEntry(Type::Generic(Type::String(x)), Type::Generic(Type::Uint32(y))));
    if (n > 1) a.add(Type::DictEntry(Type::Generic(Type::String(x)), Type::Generic(Type::Uint32(y))));
    Type::marshallData(Type::Generic(a), s);
    return s.data;
}
std::string struct_mix(const std::string& pre, uint8_t x, uint16_t y, const std::string& z, double w)
{
    MessageOStream s;
    s.write(pre);
    Type::Struct e;
    e.add(Type::Byte(x));
    e.add(Type::Uint16(y));
    e.add(Type::String(z));
    e.add(Type::Double(w));
    Type::marshallData(Type::Generic(e), s);
    return s.data;
}
std::string dict_us(const std::string& pre, uint32_t x, const std::string& y)
{
    MessageOStream s;
    s.write(pre);
    Type::Generic k { Type::Uint32(x) };
    Type::Generic v { Type::String(y) };
    Type::DictEntry e(k, v);
    Type::marshallData(Type::Generic(e), s);
    return s.data;
}
std::string var_s(const std::string& pre, const std::string& x) { MessageOStream s; s.write(pre); Type::marshallData(Type::Generic(Type::Variant(Type::String(x))), s); return s.data; }
std::string var_o(const std::string& pre, const std::string& x) { MessageOStream s; s.write(pre); Type::marshallData(Type::Generic(Type::Variant(Type::ObjectPath(x))), s); return s.data; }
std::string var_g(const std::string& pre, const std::string& x) { MessageOStream s; s.write(pre); Type::marshallData(Type::Generic(Type::Variant(Type::Signature(x))), s); return s.data; }
std::string var_u(const std::string& pre, uint32_t x) { MessageOStream s; s.write(pre); Type::marshallData(Type::Generic(Type::Variant(Type::Uint32(x))), s); return s.data; }

}
