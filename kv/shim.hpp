// Force-included in every TU of the library and of the harness: a failed
// assertion of the library (which calls exit() in Release mode) becomes a C++
// exception so that one enumerated case cannot end the whole exploration.
#pragma once
#include <array>
#include <cstdlib>
#include <stdexcept>
struct kv_exit_exc { int code; };
[[noreturn]] inline void kv_exit(int c) { throw kv_exit_exc{c}; }
namespace std { using ::kv_exit; }
#define exit kv_exit
