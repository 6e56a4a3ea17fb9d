// Client programs the analysis interprets abstractly; never compiled or run.
#include <string>
#include <vector>

#include "dbus_message.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_octetbuffer.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"

using namespace DBus;

namespace H {

// ---------------------------------------------------------------- reading a value
#define VALUE(N, CLS, CT)                                                                        \
    std::string text_##N(CT x) { return Type::asString(Type::Generic(Type::CLS(x))); }           \
    std::string own_##N(CT x) { return Type::CLS(x).asString(); }                                \
    std::string text_copy_##N(CT x)                                                              \
    {                                                                                            \
        Type::Generic g{ Type::CLS(x) };                                                         \
        std::vector<Type::Generic> v;                                                            \
        v.push_back(g);                                                                          \
        g = Type::Generic();                                                                     \
        return Type::asString(v[0]) + Type::asString(g);                                         \
    }                                                                                            \
    std::string in_array_##N(CT x, CT y)                                                         \
    {                                                                                            \
        Type::Array a;                                                                           \
        a.setSignature("a" #N);                                                                  \
        a.add(Type::CLS(x));                                                                     \
        Type::Array b(a);                                                                        \
        b.add(Type::CLS(y));                                                                     \
        Type::Generic g(b);                                                                      \
        a.add(Type::CLS(y));                                                                     \
        a.add(Type::CLS(y));                                                                     \
        const Type::Array& c = Type::refArray(g);                                                \
        if (c.size() != 2 || c.getContents().size() != 2 || a.size() != 3) {                     \
            return "size";                                                                       \
        }                                                                                        \
        return Type::asString(c.getContents()[0]) + "," + Type::asString(c.getContents()[1]);    \
    }                                                                                            \
    std::string in_struct_##N(CT x, CT y)                                                        \
    {                                                                                            \
        Type::Struct a;                                                                          \
        a.add(Type::CLS(x));                                                                     \
        Type::Struct b(a);                                                                       \
        b.add(Type::CLS(y));                                                                     \
        Type::Generic g(b);                                                                      \
        a.clear();                                                                               \
        const Type::Struct& c = Type::refStruct(g);                                              \
        if (c.getEntries() != 2 || a.getEntries() != 0) {                                        \
            return "size";                                                                       \
        }                                                                                        \
        return Type::asString(c[0]) + "," + Type::asString(c[1]);                                \
    }                                                                                            \
    std::string in_call_##N(CT x, CT y)                                                          \
    {                                                                                            \
        Message::MethodCallParametersIn p{ Type::Generic(Type::CLS(x)) };                        \
        p.add(Type::Generic(Type::CLS(y)));                                                      \
        if (p.getParameterCount() != 2) {                                                        \
            return "size";                                                                       \
        }                                                                                        \
        return Type::asString(p.getParameter(0)) + "," + Type::asString(p.getParameter(1));      \
    }

VALUE(y, Byte, uint8_t)
VALUE(b, Boolean, bool)
VALUE(n, Int16, int16_t)
VALUE(q, Uint16, uint16_t)
VALUE(i, Int32, int32_t)
VALUE(u, Uint32, uint32_t)
VALUE(x, Int64, int64_t)
VALUE(t, Uint64, uint64_t)
VALUE(s, String, const std::string&)
VALUE(o, ObjectPath, const std::string&)
VALUE(g, Signature, const std::string&)

std::string text_none() { return Type::asString(Type::Generic()); }

uint8_t byte_y(uint8_t x) { return Type::asByte(Type::Generic(Type::Byte(x))); }
uint32_t uint32_y(uint8_t x) { return Type::asUint32(Type::Generic(Type::Byte(x))); }
uint32_t uint32_q(uint16_t x) { return Type::asUint32(Type::Generic(Type::Uint16(x))); }
uint32_t uint32_u(uint32_t x) { return Type::asUint32(Type::Generic(Type::Uint32(x))); }
uint32_t uint32_v(uint32_t x) { return Type::asUint32(Type::Generic(Type::Variant(Type::Uint32(x)))); }
uint32_t uint32_b(bool x) { return Type::asUint32(Type::Generic(Type::Boolean(x))); }

// ---------------------------------------------------------------- variants
std::string variant_s(const std::string& x)
{
    Type::Generic g(Type::Variant(Type::String{ x }));
    return Type::asString(g) + "," + Type::asString(Type::refVariant(g).getValue()) + "," + Type::getMarshallingSignature(g) + Type::getMarshallingSignature(Type::refVariant(g).getValue());
}
std::string variant_o(const std::string& x)
{
    Type::Generic g(Type::Variant(Type::ObjectPath{ x }));
    return Type::asString(g) + "," + Type::asString(Type::refVariant(g).getValue()) + "," + Type::getMarshallingSignature(g) + Type::getMarshallingSignature(Type::refVariant(g).getValue());
}
std::string variant_g(const std::string& x)
{
    Type::Generic g(Type::Variant(Type::Signature{ x }));
    return Type::asString(g) + "," + Type::asString(Type::refVariant(g).getValue()) + "," + Type::getMarshallingSignature(g) + Type::getMarshallingSignature(Type::refVariant(g).getValue());
}
std::string variant_u(uint32_t x)
{
    Type::Generic g(Type::Variant(Type::Uint32{ x }));
    return Type::asString(g) + "," + Type::asString(Type::refVariant(g).getValue()) + "," + Type::getMarshallingSignature(g) + Type::getMarshallingSignature(Type::refVariant(g).getValue());
}

// ---------------------------------------------------------------- values of every type
Type::Generic make(int k)
{
    switch (k) {
    case 0: return Type::Generic(Type::Byte(1));
    case 1: return Type::Generic(Type::Boolean(1));
    case 2: return Type::Generic(Type::Int16(1));
    case 3: return Type::Generic(Type::Uint16(1));
    case 4: return Type::Generic(Type::Int32(1));
    case 5: return Type::Generic(Type::Uint32(1));
    case 6: return Type::Generic(Type::Int64(1));
    case 7: return Type::Generic(Type::Uint64(1));
    case 8: return Type::Generic(Type::Double(1));
    case 9: return Type::Generic(Type::String("x"));
    case 10: return Type::Generic(Type::ObjectPath("/x"));
    case 11: return Type::Generic(Type::Signature("x"));
    case 12: return Type::Generic(Type::Variant(Type::Uint32(1)));
    case 13: {
        Type::Array a;
        a.setSignature("ay");
        a.add(Type::Byte(1));
        return Type::Generic(a);
    }
    case 14: {
        Type::Struct s;
        s.add(Type::Byte(1));
        return Type::Generic(s);
    }
    case 15: return Type::Generic(Type::DictEntry(Type::Generic(Type::Byte(1)), Type::Generic(Type::String("x"))));
    }
    return Type::Generic();
}

int ref_array(int k) { return Type::refArray(make(k)).size(); }
int ref_struct(int k) { return Type::refStruct(make(k)).getEntries(); }
std::string ref_signature(int k) { return Type::refSignature(make(k)).asString(); }
std::string ref_variant(int k) { return Type::asString(Type::refVariant(make(k)).getValue()); }
std::string type_of(int k) { return Type::getMarshallingSignature(make(k)); }

// ---------------------------------------------------------------- signatures
std::string created(const std::string& s) { return Type::getMarshallingSignature(Type::create(s)); }
size_t alignment(const std::string& s) { return Type::getAlignment(s); }
std::string first_type(const std::string& s, size_t i) { return Type::extractSignature(s, i); }

std::string mixed(const std::string& x, uint32_t y, uint8_t z)
{
    Message::MethodCallParametersIn p;
    p.add(x);
    p.add(y);
    p.add(z);
    Message::MethodCallParametersIn q(x, y);
    Message::MethodCallParametersIn r(x);
    return Type::asString(p.getParameter(0)) + "," + Type::asString(p.getParameter(1)) + "," + Type::asString(p.getParameter(2)) + "," + p.getMarshallingSignature() + ";"
        + Type::asString(q.getParameter(0)) + "," + Type::asString(q.getParameter(1)) + "," + q.getMarshallingSignature() + ";"
        + Type::asString(r.getParameter(0)) + "," + r.getMarshallingSignature();
}

}
