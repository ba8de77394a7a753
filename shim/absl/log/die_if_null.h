#ifndef SHIM_ABSL_LOG_DIE_IF_NULL_H
#define SHIM_ABSL_LOG_DIE_IF_NULL_H
#include <utility>
#include "absl/log/check.h"
namespace absl_shim {
template <typename T> [[nodiscard]] T DieIfNull(T &&t) {
  CHECK(t != nullptr);
  return std::forward<T>(t);
}
}  // namespace absl_shim
#define ABSL_DIE_IF_NULL(v) ::absl_shim::DieIfNull(v)
#endif
