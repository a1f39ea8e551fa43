// Replaces the library's logging back-end (std::format / std::cout) by no-ops.
// Everything else of tinyopt is compiled as is.
#pragma once
#include <sstream>
#include <string>
#include <iostream>
namespace vstub {
template <typename... A> inline std::string format(const char *, A &&...) { return std::string(); }
}
namespace std {
struct vstub_ostringstream {
  template <typename T> vstub_ostringstream &operator<<(const T &) { return *this; }
  std::string str() const { return std::string(); }
};
}
// With VF_LOG_EVAL what is logged is still evaluated.
namespace vstub {
template <typename... A> inline void log(const A &...) {}
}
#ifdef VF_LOG_EVAL
#define TINYOPT_LOG(...) do { vstub::log(__VA_ARGS__); } while (0);
#else
#define TINYOPT_LOG(...) do { } while (0);
#endif
#define TINYOPT_FORMAT_NS vstub
#define TINYOPT_NO_FORMATTERS 1
#define ostringstream vstub_ostringstream
