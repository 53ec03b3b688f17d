/* a reference past the words one word of map can describe */
#include "types.h"
typedef struct { long w[70]; } FPad;
GGC_TYPE(FFar)
    GGC_MDATA(FPad, pad);
    GGC_MPTR(DNode, ref);
GGC_END_TYPE(FFar,
    GGC_PTR(FFar, ref)
    )
void *gf_new(void) { return GGC_NEW(FFar); }
void *gf_get(FFar f) { return GGC_RP(f, ref); }
