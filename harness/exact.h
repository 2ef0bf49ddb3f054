// Helpers of the suites on pure functions.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "vt.h"

// A view on memory of exactly its size, so that over-reads are visible.
struct Exact {
  std::unique_ptr<char[]> buf;
  size_t size;
  explicit Exact(const std::string& s) : buf(new char[s.size()]), size(s.size()) {
    if (size) std::memcpy(buf.get(), s.data(), size);
  }
  operator std::string_view() const { return std::string_view(buf.get(), size); }
};

inline std::string ToStr(const std::string& s) { return s; }
inline std::string ToStr(std::string_view s) { return std::string(s); }
inline std::string ToStr(bool v) { return v ? "true" : "false"; }
inline std::string ToStr(int32_t v) { return std::to_string(v); }
inline std::string ToStr(uint32_t v) { return std::to_string(v); }
inline std::string ToStr(int64_t v) { return std::to_string(v); }
inline std::string ToStr(uint64_t v) { return std::to_string(v); }
inline std::string ToStr(double v) { return vt::StrF("%.17g", v); }
#define EQ(c, what, got, want) \
  VT_CHECK(c, what, (got) == (want), "%s: got \"%s\", expected \"%s\"", what, \
           vt::Esc(ToStr(got)).c_str(), vt::Esc(ToStr(want)).c_str())
