// vx: * jobs=4 time=400 time_t=800 symmem=0
// bounds: heaps of move-only and of self-referential copyable elements: every history of 3 (thorough 4) operations out of 6
#include "elems.h"

HARNESS(heap_move_only) {
    heap_history<Tok>(QT(3, 4));
    vx_reach("end");
}
HARNESS(heap_copyable) {
    heap_history<Cpy>(QT(3, 4));
    vx_reach("end");
}
