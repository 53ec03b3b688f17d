/* every public form of storing into an object */
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
void gd_wp_first(DNode o, DNode v) { GGC_WP(o, first, v); }
void gd_wp_any(DNode o, DNode v) { GGC_WP(o, any, v); }
void gd_wp_far1(DFar o, DNode v) { GGC_WP(o, far1, v); }
void gd_wp_far3(DFar o, DNode v) { GGC_WP(o, far3, v); }
void gd_wap(DNodeArray o, DNode v, ggc_size_t i) { GGC_WAP(o, i, v); }
void gd_wup(DNode o, DNode v) { GGC_WUP(o, v); }
void gd_wd(DNode o, long v) { GGC_WD(o, num, v); }
void gd_wad(GGC_long_Array o, long v, ggc_size_t i) { GGC_WAD(o, i, v); }
void *gd_rp(DNode o) { return GGC_RP(o, first); }
void *gd_rp_far3(DFar o) { return GGC_RP(o, far3); }
void *gd_rap(DNodeArray o, ggc_size_t i) { return GGC_RAP(o, i); }
void *gd_rup(DNode o) { return GGC_RUP(o); }
long gd_rd(DNode o) { return GGC_RD(o, num); }
long gd_rad(GGC_long_Array o, ggc_size_t i) { return GGC_RAD(o, i); }
ggc_size_t gd_length(DNodeArray o) { return GGC_LENGTH(o); }
ggc_size_t gd_dlength(GGC_long_Array o) { return GGC_LENGTH(o); }
GGC_UNIT(long)
void gd_unit_long(GGC_long_Unit o, long v) { GGC_WD(o, v, v); }
#ifdef __cplusplus
void gd_cxx_member(DNode o, DNode v) { o->first = v; }
void gd_cxx_far3(DFar o, DNode v) { o->far3 = v; }
void *gd_cxx_rp(DNode o) { DNode r = o->first; return r; }
}
void gd_cxx_put(GGCPA<DNode, DNodeArray> &o, DNode v, ggc_size_t i) { o.put(i, v); }
void gd_cxx_dput(GGCDA<long, GGC_long_Array> &o, long v, ggc_size_t i) { o.put(i, v); }
void *gd_cxx_get(GGCPA<DNode, DNodeArray> &o, ggc_size_t i) { return o[i]; }
#endif
