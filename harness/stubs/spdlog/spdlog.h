#pragma once
// Logging is not part of any property: messages are dropped in the encoded program.
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <string>
namespace spdlog {
template <typename... A> inline void trace(A &&...) {}
template <typename... A> inline void debug(A &&...) {}
template <typename... A> inline void info(A &&...) {}
template <typename... A> inline void warn(A &&...) {}
template <typename... A> inline void error(A &&...) {}
template <typename... A> inline void critical(A &&...) {}
}
