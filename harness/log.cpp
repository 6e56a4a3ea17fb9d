// Client programs the analysis interprets abstractly; never compiled or run.
#include <cstdint>
#include <string>

#include "dbus_log.h"
#include "dbus_message.h"
#include "dbus_native.h"
#include "dbus_type.h"

using namespace DBus;

namespace W {
// what has been printed so far
std::string printed();
}

namespace H {

std::string at_level(size_t level, size_t type, const std::string& s)
{
    Log::setLevel(level);
    Log::write(type, "<%s>\n", s.c_str());
    Log::writeHex(type, s, "\x05");
    return W::printed() + (Log::isActive(type) ? "on" : "off");
}

std::string at_default(size_t type, const std::string& s)
{
    Log::write(type, "<%s>\n", s.c_str());
    return W::printed() + (Log::isActive(type) ? "on" : "off");
}

std::string level_twice(size_t first, size_t second, size_t type)
{
    Log::setLevel(first);
    Log::write(type, "%s", "a");
    Log::setLevel(second);
    Log::write(type, "%s", "b");
    return W::printed();
}

std::string mixed(const std::string& s, int d, unsigned long z)
{
    Log::setLevel(Log::TRACE);
    Log::write(Log::ERROR, "%s (%d) %zu%%\n", s.c_str(), d, z);
    return W::printed();
}

std::string hex(const std::string& prefix, const std::string& data)
{
    Log::setLevel(Log::TRACE);
    Log::writeHex(Log::INFO, prefix, data);
    return W::printed();
}

}
