// All standard (and hwloc) headers first, so that __clang__ can be undefined for libfork alone.
#include <version>
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <chrono>
#include <climits>
#include <compare>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <latch>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <semaphore>
#include <set>
#include <source_location>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#ifdef LF_USE_HWLOC
  #include <hwloc.h>
#endif
#ifdef LFA_GCCVIEW
  #undef __clang__
#endif
#ifdef LFA_CLANG16VIEW
  #undef __clang_major__
  #define __clang_major__ 16
#endif
#include "libfork.hpp"
#ifdef LFA_GCCVIEW
  #define __clang__ 1
#endif
