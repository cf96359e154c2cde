// Stand-in for the part of the library that is outside every claim: log output.
#include "log.hpp"
#include "egrt.h"
#include <exception>
using std::string;
namespace electionguard
{
    void Log::trace(string, const char *) {}
    void Log::trace(string, DomainLoggableType, const char *) {}
    void Log::debug(string, const char *) {}
    void Log::debug(string, DomainLoggableType, const char *) {}
    void Log::info(string, const char *) {}
    void Log::info(string, DomainLoggableType, const char *) {}
    void Log::warn(string, const char *) {}
    void Log::warn(string, DomainLoggableType, const char *) {}
    void Log::error(string) {}
    void Log::error(string, DomainLoggableType, const char *) {}
    void Log::error(string, const std::exception &, const char *) {}
}
