// Type-level facts, decided by the compiler from the current sources.
#include <type_traits>
#include "bant/util/arena-container.h"
#include "bant/util/arena.h"
namespace witness {
#define OBS(name, T)                                                            \
  constexpr bool copy_##name =                                                  \
    std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T>;            \
  constexpr bool move_##name =                                                  \
    std::is_move_constructible_v<T> || std::is_move_assignable_v<T>;
using Deque = bant::ArenaDeque<int, 3, 96>;
OBS(deque, Deque)
}  // namespace witness
