// for builds that imitate a C++ library without std::from_chars for floating-point numbers
#pragma once
#include <charconv>
#include <string>
#if __has_include(<version>)
#include <version>
#endif
#undef __cpp_lib_to_chars
