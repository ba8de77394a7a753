// Instantiates the templates so that their members are analysed for typical and
// for unusual parameters even where the program itself does not use them.
#include <cstdint>
#include "bant/util/arena-container.h"
#include "bant/util/arena.h"
namespace witness {
struct Odd { char c[7]; };
struct Wide { void *p; double d; };
}  // namespace witness
template class bant::ArenaDeque<int>;
template class bant::ArenaDeque<int, 3, 96>;
template class bant::ArenaDeque<witness::Odd, 1, 1>;
template class bant::ArenaDeque<witness::Wide, 5, 40000>;
template witness::Wide *bant::Arena::New<witness::Wide>();
