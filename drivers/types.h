#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"
#include "ggggc/collections/unit.h"

/* types with members all over the place */
GGC_TYPE(DNode)
    GGC_MPTR(DNode, first);
    GGC_MDATA(long, num);
    GGC_MPTR(void *, any);
GGC_END_TYPE(DNode,
    GGC_PTR(DNode, first)
    GGC_PTR(DNode, any)
    )

typedef struct { long pad[40]; } DPad40;
typedef struct { char c[17]; } DOdd;

GGC_TYPE(DFar)
    GGC_MDATA(DPad40, pad);
    GGC_MPTR(DNode, far1);
    GGC_MDATA(char, c);
    GGC_MPTR(DNode, far2);
    GGC_MDATA(DOdd, odd);
    GGC_MPTR(DNode, far3);
GGC_END_TYPE(DFar,
    GGC_PTR(DFar, far1)
    GGC_PTR(DFar, far2)
    GGC_PTR(DFar, far3)
    )

typedef struct { long pad[59]; } DPad59;
/* the last word the one-word map can describe */
GGC_TYPE(DEdge)
    GGC_MDATA(DPad59, pad);
    GGC_MPTR(DNode, p);
    GGC_MPTR(DNode, q);
GGC_END_TYPE(DEdge,
    GGC_PTR(DEdge, p)
    GGC_PTR(DEdge, q)
    )

/* no references at all */
GGC_TYPE(DData)
    GGC_MDATA(long, a);
    GGC_MDATA(DOdd, b);
GGC_END_TYPE(DData, GGC_NO_PTRS)

/* one word */
GGC_TYPE(DOne)
    GGC_MPTR(void *, only);
GGC_END_TYPE(DOne,
    GGC_PTR(DOne, only)
    )

GGC_DA_TYPE(DOdd)
