/* constants of a configuration, as the sources define them */
#include <stdio.h>
#include <stdlib.h>
#include "ggggc/gc.h"
#include "ggggc-internals.h"
#ifdef __cplusplus
extern "C" {
#endif
unsigned long ggsa_GGGGC_POOL_BYTES = GGGGC_POOL_BYTES;
unsigned long ggsa_GGGGC_CARD_BYTES = GGGGC_CARD_BYTES;
unsigned long ggsa_GGGGC_CARDS_PER_POOL = GGGGC_CARDS_PER_POOL;
unsigned long ggsa_GGGGC_WORDS_PER_POOL = GGGGC_WORDS_PER_POOL;
unsigned long ggsa_GGGGC_GENERATIONS = GGGGC_GENERATIONS;
unsigned long ggsa_GGGGC_BITS_PER_WORD = GGGGC_BITS_PER_WORD;
unsigned long ggsa_GGGGC_MINIMUM_OBJECT_SIZE = GGGGC_MINIMUM_OBJECT_SIZE;
unsigned long ggsa_HEADER = sizeof(struct GGGGC_Header);
#ifdef GGGGC_MEMORY_CORRUPTION_VAL
unsigned long ggsa_GGGGC_MEMORY_CORRUPTION_VAL = GGGGC_MEMORY_CORRUPTION_VAL;
#endif
#ifdef GGGGC_DESCRIPTOR_DESCRIPTION
unsigned long ggsa_GGGGC_DESCRIPTOR_DESCRIPTION = GGGGC_DESCRIPTOR_DESCRIPTION;
#endif
#ifdef __cplusplus
}
#endif
