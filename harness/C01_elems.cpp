// vx: * jobs=4 time=400 time_t=800 symmem=0
// bounds: vectors of move-only and of self-referential copyable elements: every history of 2 (thorough 3) operations
#include "elems.h"

HARNESS(vec_move_only) {
    vec_history<Tok, false>(QT(2, 3));
    vx_reach("end");
}
HARNESS(vec_copyable) {
    vec_history<Cpy, true>(QT(2, 3));
    vx_reach("end");
}
