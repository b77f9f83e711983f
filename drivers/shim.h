// A disk that fails: link with -Wl,--wrap=fopen and shim.cpp.
#ifndef VF_SHIM_H
#define VF_SHIM_H
#include <string>
namespace shim {
// how: "full" nothing after byte at can be stored, "once" only the write that reaches
// byte at fails, "close" everything is accepted but closing reports an error
void arm(std::string const& name, std::string const& how, long at);
}
#endif
