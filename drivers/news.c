/* every public form of allocating */
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
void *gd_new_node(void) { return GGC_NEW(DNode); }
void *gd_new_far(void) { return GGC_NEW(DFar); }
void *gd_new_pa(ggc_size_t n) { return GGC_NEW_PA(DNode, n); }
void *gd_new_da_long(ggc_size_t n) { return GGC_NEW_DA(long, n); }
void *gd_new_da_odd(ggc_size_t n) { return GGC_NEW_DA(DOdd, n); }
void *gd_new_slot(void) { return GGC_NEW_FROM_DESCRIPTOR_SLOT(&DNode__descriptorSlot); }
void *gd_new_desc(struct GGGGC_Descriptor *d) { return GGC_NEW_FROM_DESCRIPTOR(d); }
void *gd_new_descriptor(ggc_size_t n, const ggc_size_t *p) { return GGC_NEW_DESCRIPTOR(n, p); }
#ifdef GGGGC_FEATURE_EXTTAG
void *gd_new_descriptor_tags(ggc_size_t n, const unsigned char *p) { return GGC_NEW_DESCRIPTOR_WITH_TAGS(n, p); }
#endif
ggc_size_t gd_pa_off(void) { return (ggc_size_t) &((DNodeArray) 0)->a__ptrs[0]; }
ggc_size_t gd_da_off(void) { return (ggc_size_t) &((GGC_long_Array) 0)->a__data[0]; }
ggc_size_t gd_pa_len(void) { return (ggc_size_t) &((DNodeArray) 0)->length; }
ggc_size_t gd_da_len(void) { return (ggc_size_t) &((GGC_long_Array) 0)->length; }
unsigned long gd_size_odd = sizeof(DOdd), gd_size_long = sizeof(long);
#ifdef __cplusplus
}
#endif
