// Verification-only replacement of the spdlog header: log statements keep their argument evaluation and lose their
// output.  This is the one thing the translation of /repo's sources to verification conditions drops (stated in DESIGN.md).
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <locale>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <cmath>
namespace spdlog {
template<class... A> inline void trace(const A &...) {}
template<class... A> inline void debug(const A &...) {}
template<class... A> inline void info(const A &...) {}
template<class... A> inline void warn(const A &...) {}
template<class... A> inline void error(const A &...) {}
template<class... A> inline void critical(const A &...) {}
}
