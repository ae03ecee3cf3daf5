// The default command path; no logic of its own.
#include "src/command_path.cpp"
#include <new>
#include <cstddef>
extern const std::size_t VP_w_ok = W_OK;
extern "C" void vp_path(std::string* out) { new (out) std::string(xtr::default_command_path()); }
