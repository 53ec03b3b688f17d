/* every form of registering local references, generated once and kept */
#include <stdlib.h>
#include <string.h>
#include <alloca.h>
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
void *gd_g[16];
void gd_use(void);
int gd_ask(void);

void gd_push_1(void) { GGC_PUSH_1(gd_g[0]); gd_use(); return; }
void gd_manual_1(void) { GGC_PUSH_MANUAL_1(gd_g[0]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_2(void) { GGC_PUSH_2(gd_g[0], gd_g[1]); gd_use(); return; }
void gd_manual_2(void) { GGC_PUSH_MANUAL_2(gd_g[0], gd_g[1]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_3(void) { GGC_PUSH_3(gd_g[0], gd_g[1], gd_g[2]); gd_use(); return; }
void gd_manual_3(void) { GGC_PUSH_MANUAL_3(gd_g[0], gd_g[1], gd_g[2]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_4(void) { GGC_PUSH_4(gd_g[0], gd_g[1], gd_g[2], gd_g[3]); gd_use(); return; }
void gd_manual_4(void) { GGC_PUSH_MANUAL_4(gd_g[0], gd_g[1], gd_g[2], gd_g[3]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_5(void) { GGC_PUSH_5(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4]); gd_use(); return; }
void gd_manual_5(void) { GGC_PUSH_MANUAL_5(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_6(void) { GGC_PUSH_6(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5]); gd_use(); return; }
void gd_manual_6(void) { GGC_PUSH_MANUAL_6(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_7(void) { GGC_PUSH_7(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6]); gd_use(); return; }
void gd_manual_7(void) { GGC_PUSH_MANUAL_7(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_8(void) { GGC_PUSH_8(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7]); gd_use(); return; }
void gd_manual_8(void) { GGC_PUSH_MANUAL_8(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_9(void) { GGC_PUSH_9(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8]); gd_use(); return; }
void gd_manual_9(void) { GGC_PUSH_MANUAL_9(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_10(void) { GGC_PUSH_10(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9]); gd_use(); return; }
void gd_manual_10(void) { GGC_PUSH_MANUAL_10(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_11(void) { GGC_PUSH_11(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10]); gd_use(); return; }
void gd_manual_11(void) { GGC_PUSH_MANUAL_11(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_12(void) { GGC_PUSH_12(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11]); gd_use(); return; }
void gd_manual_12(void) { GGC_PUSH_MANUAL_12(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_13(void) { GGC_PUSH_13(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12]); gd_use(); return; }
void gd_manual_13(void) { GGC_PUSH_MANUAL_13(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_14(void) { GGC_PUSH_14(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13]); gd_use(); return; }
void gd_manual_14(void) { GGC_PUSH_MANUAL_14(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_15(void) { GGC_PUSH_15(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13], gd_g[14]); gd_use(); return; }
void gd_manual_15(void) { GGC_PUSH_MANUAL_15(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13], gd_g[14]); gd_use(); GGC_POP_MANUAL(); return; }
void gd_push_16(void) { GGC_PUSH_16(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13], gd_g[14], gd_g[15]); gd_use(); return; }
void gd_manual_16(void) { GGC_PUSH_MANUAL_16(gd_g[0], gd_g[1], gd_g[2], gd_g[3], gd_g[4], gd_g[5], gd_g[6], gd_g[7], gd_g[8], gd_g[9], gd_g[10], gd_g[11], gd_g[12], gd_g[13], gd_g[14], gd_g[15]); gd_use(); GGC_POP_MANUAL(); return; }

#define GD_LIST(...) { __VA_ARGS__ }
#define GD_COMMA ,
void gd_n_1(void) { GGC_PUSH_N(1, { &gd_g[0] }); gd_use(); return; }
void gd_n_3(void) { GGC_PUSH_N(3, { &gd_g[0] GD_COMMA &gd_g[1] GD_COMMA &gd_g[2] }); gd_use(); return; }
void gd_n_7(void) { GGC_PUSH_N(3 + 4, { &gd_g[0] GD_COMMA &gd_g[1] GD_COMMA &gd_g[2] GD_COMMA &gd_g[3] GD_COMMA &gd_g[4] GD_COMMA &gd_g[5] GD_COMMA &gd_g[6] }); gd_use(); return; }
void gd_early(void) { GGC_PUSH_2(gd_g[0], gd_g[1]); if (gd_ask()) return; gd_use(); if (gd_ask()) { gd_use(); return; } return; }
int gd_value(void) { GGC_PUSH_1(gd_g[0]); if (gd_ask()) return 1; gd_use(); return 2; }
void gd_loop(int n) { int i; for (i = 0; i < n; i++) { GGC_PUSH_1(gd_g[0]); gd_use(); GGC_POP(); } return; }
void gd_nested(void) { GGC_PUSH_1(gd_g[0]); if (gd_ask()) { GGC_PUSH_2(gd_g[1], gd_g[2]); gd_use(); GGC_POP(); } gd_use(); return; }
void gd_mixed(void) { GGC_PUSH_1(gd_g[0]); if (gd_ask()) { GGC_PUSH_MANUAL_1(gd_g[1]); gd_use(); GGC_POP_MANUAL(); } return; }
#if (defined(__GNUC__) && !defined(GGGGC_NO_GNUC_CLEANUP)) || defined(__cplusplus)
void gd_inner_return(void) { GGC_PUSH_1(gd_g[0]); if (gd_ask()) { GGC_PUSH_2(gd_g[1], gd_g[2]); gd_use(); if (gd_ask()) return; gd_use(); } gd_use(); }
void gd_breaks(int n) { int i; for (i = 0; i < n; i++) { GGC_PUSH_1(gd_g[0]); if (gd_ask()) continue; if (gd_ask()) break; gd_use(); } }
void gd_goto(void) { again: { GGC_PUSH_1(gd_g[0]); if (gd_ask()) goto again; if (gd_ask()) goto out; gd_use(); } out: gd_use(); }
#endif
#ifdef __cplusplus
}
extern "C" {
void gd_cxx_value(DNode v) { GGC<DNode> a(v); gd_use(); }
void gd_cxx_default(void) { GGC<DNode> a; gd_use(); if (gd_ask()) return; gd_use(); }
void gd_cxx_copy(DNode v) { GGC<DNode> a(v); GGC<DNode> b(a); gd_use(); }
void gd_cxx_two(DNode v, DNode w) { GGC<DNode> a = v; GGC<DNode> b = w; if (gd_ask()) return; gd_use(); b = a; a = w; }
void gd_cxx_loop(DNode v, int n) { int i; for (i = 0; i < n; i++) { GGC<DNode> a(v); if (gd_ask()) break; gd_use(); } }
void gd_cxx_pa(DNodeArray v) { GGCPA<DNode, DNodeArray> a(v); gd_use(); }
void gd_cxx_pad(void) { GGCPA<DNode, DNodeArray> a; gd_use(); }
void gd_cxx_da(GGC_long_Array v) { GGCDA<long, GGC_long_Array> a(v); gd_use(); }
void gd_cxx_dad(void) { GGCDA<long, GGC_long_Array> a; gd_use(); }
void gd_cxx_pac(DNodeArray v) { GGC<DNodeArray> b(v); GGCPA<DNode, DNodeArray> a(b); gd_use(); a = b; a = v; }
void gd_cxx_dac(GGC_long_Array v) { GGC<GGC_long_Array> b(v); GGCDA<long, GGC_long_Array> a(b); gd_use(); a = b; a = v; }
void gd_cxx_mix(DNode v) { GGC<DNode> a(v); { GGC_PUSH_1(gd_g[0]); gd_use(); if (gd_ask()) return; } gd_use(); }
}
#endif
