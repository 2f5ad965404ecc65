// Stand-in for the one use NeoFOAM makes of cpptrace: the stack trace printed with an error message.
#pragma once
#include <string>
namespace NeoFOAMtrace
{
struct stacktrace { std::string to_string() const { return "(no trace)"; } };
inline stacktrace generate_trace() { return {}; }
}
namespace cpptrace = NeoFOAMtrace;
