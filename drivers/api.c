/* every public macro and function, used as documented */
#include "ggggc/gc.h"
#include "ggggc/collections.h"
#include <limits.h>
#ifdef __cplusplus
extern "C" {
#endif

GGC_TYPE(ANode)
    GGC_MPTR(ANode, next);
    GGC_MDATA(int, num);
    GGC_MPTR(void *, any);
GGC_END_TYPE(ANode,
    GGC_PTR(ANode, next)
    GGC_PTR(ANode, any)
    )
GGC_TYPE(AData)
    GGC_MDATA(double, d);
GGC_END_TYPE(AData, GGC_NO_PTRS)
typedef struct { char c[3]; } AOdd;
GGC_DA_TYPE(AOdd)
GGC_UNIT(int)
GGC_LIST(ANode)
GGC_LIST(GGC_int_Unit)
static size_t ahash(ANode k) { return (size_t) GGC_RD(k, num); }
static int acmp(ANode a, ANode b) { return GGC_RD(a, num) - GGC_RD(b, num); }
GGC_MAP(AMap, ANode, GGC_int_Unit, ahash, acmp)

static ANode aglobal;

ANode api_members(ANode n, int v)
{
    ANode m = NULL;
    void *x = NULL;
    struct GGGGC_Descriptor *desc = NULL;
    int w;
    GGC_PUSH_4(n, m, x, desc);
    m = GGC_NEW(ANode);
    GGC_WP(m, next, n);
    GGC_WD(m, num, v);
    GGC_WP(m, any, x);
    w = GGC_RD(m, num);
    n = GGC_RP(m, next);
    x = GGC_RP(m, any);
    GGC_WP(m, next, GGC_NULL);
    desc = m->header.descriptor__ptr;
    GGC_WUP(m, x);
    x = GGC_RUP(m);
    GGC_WD(m, num, w);
    GGC_POP();
    return m;
}

void api_arrays(ggc_size_t len, int v, ANode n)
{
    ANodeArray a = NULL;
    GGC_int_Array d = NULL;
    GGC_AOdd_Array o = NULL;
    GGC_voidpArray g = NULL;
    GGC_char_Array c1 = NULL; GGC_short_Array c2 = NULL; GGC_unsigned_Array c3 = NULL; GGC_long_Array c4 = NULL;
    GGC_float_Array c5 = NULL; GGC_double_Array c6 = NULL; GGC_size_t_Array c7 = NULL;
    void *x = NULL;
    int w;
    ggc_size_t l;
    AOdd odd;
    GGC_PUSH_10(a, d, o, g, c1, c2, c3, c4, c5, c6);
    a = GGC_NEW_PA(ANode, len);
    g = GGC_NEW_PA(GGC_voidp, len);
    d = GGC_NEW_DA(int, len);
    o = GGC_NEW_DA(AOdd, len);
    c1 = GGC_NEW_DA(char, len); c2 = GGC_NEW_DA(short, len); c3 = GGC_NEW_DA(unsigned, len); c4 = GGC_NEW_DA(long, len);
    c5 = GGC_NEW_DA(float, len); c6 = GGC_NEW_DA(double, len); c7 = GGC_NEW_DA(size_t, len);
    GGC_WAP(a, 0, n);
    GGC_WAP(a, len - 1, GGC_NULL);
    n = GGC_RAP(a, 1);
    GGC_WAP(g, 2, n);
    x = GGC_RAP(g, 2);
    GGC_WAD(d, 3, v);
    w = GGC_RAD(d, 4);
    odd = GGC_RAD(o, 1);
    GGC_WAD(o, 2, odd);
    l = GGC_LENGTH(a) + GGC_LENGTH(d) + GGC_LENGTH(c7);
    (void) l; (void) w; (void) x;
    GGC_POP();
}

void api_descriptors(void)
{
    ggc_size_t ptrs[2];
    GGC_Descriptor d = NULL;
    void *x = NULL;
#ifdef GGGGC_FEATURE_EXTTAG
    unsigned char tags[4];
    ggc_size_t k;
#endif
    GGC_PUSH_2(d, x);
    ptrs[0] = 5; ptrs[1] = 0;
    d = GGC_NEW_DESCRIPTOR(70, ptrs);
    x = GGC_NEW_FROM_DESCRIPTOR(d);
#ifdef GGGGC_FEATURE_EXTTAG
    for (k = 0; k < 4; k++) tags[k] = 0;
    d = GGC_NEW_DESCRIPTOR_WITH_TAGS(4, tags);
#endif
    d = ggggc_allocateDescriptor(4, 9);
    d = ggggc_allocateDescriptorPA(10);
    d = ggggc_allocateDescriptorDA(10);
    d = ggggc_allocateDescriptorSlot(&ANode__descriptorSlot);
    x = GGC_NEW_FROM_DESCRIPTOR_SLOT(&AData__descriptorSlot);
    GGC_POP();
}

void api_roots(ANode n)
{
    {
        ANode m = NULL;
        GGC_PUSH_1(m);
        m = n;
        GGC_POP();
    }
    {
        GGC_PUSH_MANUAL_1(n);
        GGC_POP_MANUAL();
    }
    {
        GGC_PUSH_1(aglobal);
        GGC_GLOBALIZE();
        GGC_POP();
    }
    GGC_YIELD();
    GGC_COLLECT();
    ggggc_yield();
    ggggc_collect();
    ggggc_globalize();
}

#ifdef GGGGC_FEATURE_FINALIZERS
static void afinal(void *o) { (void) o; }
void api_finalizers(ANode n)
{
    GGC_PUSH_1(n);
    GGC_FINALIZE(n, afinal);
    GGC_POP();
}
#endif

#ifdef GGGGC_FEATURE_JITPSTACK
void api_jit(void *x)
{
    ggc_jitPointerStack--;
    *ggc_jitPointerStack = x;
    if (ggc_jitPointerStack < ggc_jitPointerStackEnd) ggc_jitPointerStack++;
}
#endif

static void athread(GGC_ThreadArg a)
{
    void *p = NULL, *d;
    GGC_PUSH_2(a, p);
    p = GGC_RP(a, parg);
    d = GGC_RD(a, darg);
    (void) d;
    GGC_POP();
}
static ggc_mutex_t amutex = GGC_MUTEX_INITIALIZER;
int api_threads(GGC_ThreadArg a)
{
    ggc_thread_t t;
    ggc_barrier_t b;
    ggc_sem_t s;
    int r = 0;
    GGC_PUSH_1(a);
    r |= ggc_thread_create(&t, athread, a);
    r |= ggc_thread_join(t);
    r |= ggc_barrier_init(&b, 2);
    r |= ggc_barrier_wait(&b);
    r |= ggc_barrier_wait_raw(&b);
    r |= ggc_barrier_destroy(&b);
    r |= ggc_mutex_lock(&amutex);
    r |= ggc_mutex_unlock(&amutex);
    r |= ggc_mutex_lock_raw(&amutex);
    r |= ggc_mutex_trylock(&amutex);
    r |= ggc_sem_init(&s, 1);
    r |= ggc_sem_post(&s);
    r |= ggc_sem_wait(&s);
    r |= ggc_sem_wait_raw(&s);
    r |= ggc_sem_destroy(&s);
    ggc_pre_blocking();
    ggc_post_blocking();
    GGC_POP();
    return r;
}

void api_list(ANodeList l, ANodeList k, ANode n)
{
    ANodeArray a = NULL;
    GGC_List g = NULL;
    ANodeListNode e = NULL;
    GGC_voidpArray v = NULL;
    GGC_PUSH_7(l, k, n, a, g, e, v);
    l = GGC_NEW(ANodeList);
    ANodeListPush(l, n);
    ANodeListPushList(l, k);
    ANodeListUnshift(l, n);
    ANodeListUnshiftList(l, k);
    e = GGC_RP(l, head);
    ANodeListInsertAfter(l, e, n);
    ANodeListInsertAfterList(l, e, k);
    n = ANodeListShift(l);
    a = ANodeListToArray(l);
    g = GGC_NEW(GGC_List);
    GGC_ListPush(g, n);
    v = GGC_ListToArray(g);
    GGC_POP();
}

int api_map(AMap m, ANode k)
{
    GGC_int_Unit v = NULL;
    GGC_int_UnitArray ua = NULL;
    GGC_int_Array ia = NULL;
    int r;
    GGC_PUSH_5(m, k, v, ua, ia);
    m = GGC_NEW(AMap);
    v = GGC_NEW(GGC_int_Unit);
    GGC_WD(v, v, 3);
    AMapPut(m, k, v);
    r = AMapGet(m, k, &v);
    m = AMapClone(m);
    ua = GGC_NEW_PA(GGC_int_Unit, 1);
    GGC_WAP(ua, 0, v);
    ia = GGC_int_UnitArrayDeunit(ua);
    GGC_POP();
    return r;
}

#ifdef __cplusplus
}

/* the C++ ways */
int api_cxx(ANode n)
{
    GGC<ANode> a, b(n), c(b);
    GGCPA<ANode, ANodeArray> pa = GGC_NEW_PA(ANode, 10);
    GGCDA<int, GGC_int_Array> da = GGC_NEW_DA(int, 10);
    a = GGC_NEW(ANode);
    a->next = b;
    a->num = 42;
    b = a->next;
    pa.put(0, a);
    b = pa[0];
    b = pa.get(1);
    da.put(0, 12);
    return (a == b) + !a + (a == n) + da[0] + da.get(1) + a->num + (a.get() != 0) + (bool) b;
}
#endif
