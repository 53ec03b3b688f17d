/* types with references at every place the one-word map can describe, after
 * members of every size */
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
#define AT(k) \
typedef struct { long w[k]; } LPad ## k; \
GGC_TYPE(LAt ## k) \
    GGC_MDATA(LPad ## k, pad); \
    GGC_MPTR(DNode, ref); \
    GGC_MDATA(char, tail); \
GGC_END_TYPE(LAt ## k, \
    GGC_PTR(LAt ## k, ref) \
    )
AT(1) AT(2) AT(3) AT(4) AT(5) AT(6) AT(7) AT(8) AT(9) AT(10) AT(11) AT(12) AT(13) AT(14) AT(15) AT(16) AT(17) AT(18) AT(19) AT(20)
AT(21) AT(22) AT(23) AT(24) AT(25) AT(26) AT(27) AT(28) AT(29) AT(30) AT(31) AT(32) AT(33) AT(34) AT(35) AT(36) AT(37) AT(38) AT(39) AT(40)
AT(41) AT(42) AT(43) AT(44) AT(45) AT(46) AT(47) AT(48) AT(49) AT(50) AT(51) AT(52) AT(53) AT(54) AT(55) AT(56) AT(57) AT(58) AT(59) AT(60)
AT(61)
#ifndef GGGGC_DEBUG_MEMORY_CORRUPTION
AT(62)
#endif

#define ODD(k) \
typedef struct { char c[k]; } LOdd ## k; \
GGC_TYPE(LAfter ## k) \
    GGC_MPTR(void *, before); \
    GGC_MDATA(LOdd ## k, odd); \
    GGC_MPTR(DNode, after); \
    GGC_MDATA(LOdd ## k, odd2); \
GGC_END_TYPE(LAfter ## k, \
    GGC_PTR(LAfter ## k, before) \
    GGC_PTR(LAfter ## k, after) \
    )
ODD(1) ODD(2) ODD(3) ODD(5) ODD(7) ODD(8) ODD(9) ODD(15) ODD(16) ODD(31) ODD(100)

GGC_TYPE(LMixed)
    GGC_MDATA(char, a);
    GGC_MPTR(DNode, p);
    GGC_MDATA(short, b);
    GGC_MPTR(LMixed, q);
    GGC_MDATA(double, c);
    GGC_MDATA(float, d);
    GGC_MPTR(GGC_List, r);
    GGC_MPTR(DNodeArray, s);
    GGC_MDATA(void *, notref);
    GGC_MPTR(GGC_int_Array, t);
GGC_END_TYPE(LMixed,
    GGC_PTR(LMixed, p)
    GGC_PTR(LMixed, q)
    GGC_PTR(LMixed, r)
    GGC_PTR(LMixed, s)
    GGC_PTR(LMixed, t)
    )

/* large data, few references */
typedef struct { char c[5000]; } LHuge;
GGC_TYPE(LBig)
    GGC_MPTR(DNode, p);
    GGC_MDATA(LHuge, h);
GGC_END_TYPE(LBig,
    GGC_PTR(LBig, p)
    )

/* the collections' own macros */
GGC_LIST(DNode)
GGC_LIST(LMixed)
static size_t lhash(DNode n) { return (size_t) GGC_RD(n, num); }
static int lcmp(DNode a, DNode b) { return a != b; }
GGC_MAP(LMap, DNode, LMixed, lhash, lcmp)
GGC_UNIT(int)
GGC_UNIT(double)
GGC_UNIT(char)
GGC_DA_TYPE(LHuge)
GGC_UNIT(LHuge)

#define NEW(t) void *gl_new_ ## t(void) { return GGC_NEW(t); }
NEW(LAt1) NEW(LAt61) NEW(LMixed) NEW(LBig) NEW(DNodeList) NEW(DNodeListNode) NEW(LMap) NEW(LMapEntry) NEW(GGC_int_Unit) NEW(DFar) NEW(DEdge) NEW(DData) NEW(DOne)
NEW(GGC_List) NEW(GGC_ListNode) NEW(GGC_Map) NEW(GGC_MapEntry) NEW(GGC_ThreadArg)

/* keep the layout of the array types known */
#define ARR(t) ggc_size_t gl_len_ ## t(t a) { return GGC_LENGTH(a); }
ARR(DNodeArray) ARR(GGC_voidpArray) ARR(GGC_char_Array) ARR(GGC_short_Array) ARR(GGC_int_Array) ARR(GGC_unsigned_Array) ARR(GGC_long_Array)
ARR(GGC_float_Array) ARR(GGC_double_Array) ARR(GGC_size_t_Array) ARR(GGC_DOdd_Array) ARR(GGC_LHuge_Array) ARR(LMixedArray)

/* the typed collections' functions */
void gt_DNodeListPush(DNodeList l, DNode n) { DNodeListPush(l, n); }
void gt_DNodeListPushList(DNodeList l, DNodeList m) { DNodeListPushList(l, m); }
void gt_DNodeListUnshift(DNodeList l, DNode n) { DNodeListUnshift(l, n); }
void gt_DNodeListUnshiftList(DNodeList l, DNodeList m) { DNodeListUnshiftList(l, m); }
DNode gt_DNodeListShift(DNodeList l) { return DNodeListShift(l); }
void gt_DNodeListInsertAfter(DNodeList l, DNodeListNode a, DNode n) { DNodeListInsertAfter(l, a, n); }
void gt_DNodeListInsertAfterList(DNodeList l, DNodeListNode a, DNodeList m) { DNodeListInsertAfterList(l, a, m); }
DNodeArray gt_DNodeListToArray(DNodeList l) { return DNodeListToArray(l); }
int gt_LMapGet(LMap m, DNode k, LMixed *v) { return LMapGet(m, k, v); }
void gt_LMapPut(LMap m, DNode k, LMixed v) { LMapPut(m, k, v); }
LMap gt_LMapClone(LMap m) { return LMapClone(m); }
#ifdef __cplusplus
}
#endif
