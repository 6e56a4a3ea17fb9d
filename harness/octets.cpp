// Client programs the analysis interprets abstractly; never compiled or run.
#include <memory>
#include <string>

#include "dbus_auth.h"
#include "dbus_octetbuffer.h"
#include "dbus_transport.h"

using namespace DBus;

namespace H {

size_t oct_find(const uint8_t* d, size_t n, size_t k, int c)
{
    OctetBuffer b { d, n };
    b.remove_prefix(k);
    return b.find((uint8_t)c);
}

// what is found can be read and taken
size_t oct_found(const uint8_t* d, size_t n, int c)
{
    OctetBuffer b { d, n };
    const size_t at = b.find((uint8_t)c);
    if (at != std::string::npos) {
        const uint8_t v = b[at];
        b.remove_prefix(at + 1);
        return v;
    }
    return b.size();
}

size_t oct_at(const uint8_t* d, size_t n, size_t k, size_t i, size_t j)
{
    OctetBuffer b { d, n };
    b.remove_prefix(k);
    size_t r = b[i];
    b.remove_prefix(j);
    r += b.empty() ? 0 : b[0];
    return r;
}

size_t oct_copy(const uint8_t* d, size_t n, size_t k, size_t m)
{
    uint8_t out[64] = { 0 };
    OctetBuffer b { d, n };
    b.remove_prefix(k);
    b.copy(out, m);
    return out[63];
}

// the handshake's side of a delivery, or of two
size_t oct_auth(const uint8_t* d, size_t n)
{
    std::shared_ptr<Transport> t(new Transport("bus"));
    AuthenticationProtocol a(t);
    OctetBuffer b { d, n };
    a.onReceiveData(b);
    return b.size();
}

size_t oct_auth2(const uint8_t* d, size_t n, const uint8_t* e, size_t m)
{
    std::shared_ptr<Transport> t(new Transport("bus"));
    AuthenticationProtocol a(t);
    OctetBuffer b { d, n };
    a.onReceiveData(b);
    OctetBuffer c { e, m };
    a.onReceiveData(c);
    return b.size() + c.size();
}
}
