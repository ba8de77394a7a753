// Stand-in for absl/log/check.h (not installed here): same meaning, abort on failure.
#ifndef SHIM_ABSL_LOG_CHECK_H
#define SHIM_ABSL_LOG_CHECK_H
#include <cstdlib>
#include <iostream>
namespace absl_shim {
struct FatalMessage {
  FatalMessage() {}
  [[noreturn]] ~FatalMessage() { std::cerr << std::endl; std::abort(); }
  std::ostream &stream() { return std::cerr; }
};
}  // namespace absl_shim
#define CHECK(c) while (!(c)) ::absl_shim::FatalMessage().stream() << "CHECK failed: " #c " "
#define CHECK_OP_SHIM(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) CHECK_OP_SHIM(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_SHIM(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_SHIM(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_SHIM(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_SHIM(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_SHIM(a, >=, b)
#define QCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#endif
