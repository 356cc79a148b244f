// vx: * jobs=4 time=400 time_t=800 symmem=0
// bounds: maps with owning keys and values: every history of 2 (thorough 3) operations out of 9 with each of 4 keys from empty and full-at-capacity-4 starts
#include "elems.h"

HARNESS(map_move_only) {
    map_history<Tok, Tok>(QT(2, 3));
    vx_reach("end");
}
HARNESS(map_copyable) {
    map_history<Cpy, Cpy>(QT(2, 3));
    vx_reach("end");
}
