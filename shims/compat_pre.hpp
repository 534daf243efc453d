// Force-included before every translation unit: standard headers that the
// (absent) upstream third-party headers used to pull in transitively, and the
// fmt-5 style buffer overload that fmt 9 dropped.
#pragma once
// fmt::format_to is called unqualified upstream: keep std::format_to out of ADL
#define format_to std_hidden_format_to
#include <chrono>
#if __cplusplus > 201703L
#include <format>
#endif
#undef format_to
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#define FMT_CONSTEVAL
#define FMT_DEPRECATED_OSTREAM
#include <fmt/format.h>
#include <fmt/ostream.h>
namespace fmt
{
template <
    typename Buf, typename... Args,
    typename = std::enable_if_t<std::is_same_v<Buf, fmt::memory_buffer>>>
inline auto format_to(Buf& buf, fmt::string_view f, const Args&... args)
{
  return fmt::vformat_to(fmt::appender(buf), f, fmt::make_format_args(args...));
}
}
