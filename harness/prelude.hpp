// Included first by all the harnesses
#ifndef PRELUDE_HPP
#define PRELUDE_HPP
#include <bits/c++config.h>
#ifdef HARNESS_THREADS
// Have the code of strings and streams compiled (and instrumented) here rather than taken from the C++ library
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include "../simrt/simrt.hpp"
#include <vector>
#include <memory>
#include <stdexcept>
#include <system_error>

// Code of the oracles: not observed by the simulator
#define ORACLE __attribute__((no_sanitize("thread"), noinline))

/// Check a consequence of the property
#define REQUIRE(cond, cls, ...) do { if (!(cond)) { sim::violation(cls, __VA_ARGS__); } } while (0)

// The library comes with its own main(), keep it under another name
#define main vif_program_main
#ifndef HAVE_VIF_MAIN
int vif_main(int, char*[]) { return 0; }
#endif

#endif
