//@ link: src/data.c src/ref.c
//@ checks: bounds pointer
//@ unwind: 8
//@ defs: -DNDEBUG -Dfree=vp_free -Dmalloc=vp_malloc -Dposix_memalign=vp_memalign
//@ flags: --max-field-sensitivity-array-size 64
//@ case: op{0..10} -DOP={}
//@ bound: one operation of the public data API from every state: packet present or absent, user data attached or not, each with any number of other references (1..2^30 in all), arbitrary sizes, offsets, timestamps and allocation failures
//@ assume: the allocator is a model that tracks every block; sequences follow because each operation preserves the counts exactly
#include "vp.h"
#include "config.h"
#include <errno.h>
#include "src/internal.h"
#include "src/data.h"
#include "src/ref.h"
#include "src/mem.h"
/* blocks: 0 = packet reference, 1 = user data reference, 2 = other user data reference, 3 = newly created */
static Dav1dRef rf[4]; static int st[4];
static struct { uint8_t d[64]; Dav1dRef r; } blk; static int st_blk; static size_t req; static int fail;
static uint8_t bytes[16], ud0, ud1, ud2; static int cookie0, cookie1, cookie2;
static int called[3], bad_cb;
static void cb0(const uint8_t *d, void *k) { called[0]++; if (d != bytes || k != &cookie0) bad_cb++; }
static void cb1(const uint8_t *d, void *k) { called[1]++; if (d != &ud1 || k != &cookie1) bad_cb++; }
static void cb2(const uint8_t *d, void *k) { called[2]++; if (d != &ud2 || k != &cookie2) bad_cb++; }
void *vp_malloc(size_t sz) { VP_ASSERT(sz >= sizeof(Dav1dRef), "room for the reference"); if (fail) return NULL; st[3] = 1; return &rf[3]; }
int vp_memalign(void **p, size_t align, size_t sz) {
    req = sz;
    if (fail) return 12;
    VP_ASSUME(sz <= sizeof(blk));
    st_blk++; *p = &blk; return 0;
}
void vp_free(void *p) {
    int n = p == NULL;
    if (p == &blk) { VP_ASSERT(st_blk == 1, "data is freed once"); st_blk = 2; n++; }
    for (int i = 0; i < 4; i++) if (p == &rf[i]) { VP_ASSERT(st[i] == 1, "a reference is freed once"); st[i] = 2; n++; rf[i].ref_cnt = 77; }
    VP_ASSERT(n == 1, "only live blocks are freed");
}
void dav1d_mem_pool_push(Dav1dMemPool *p, Dav1dMemPoolBuffer *b) {}
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *p, size_t s) { return NULL; }
static int cnt[3];
static Dav1dRef *mk(const int i) { /* an application reference with others elsewhere */
    static const uint8_t *const ptr[3] = { bytes, &ud1, &ud2 };
    static void *const ck[3] = { &cookie0, &cookie1, &cookie2 };
    cnt[i] = vp_int(1, 1 << 30);
    dav1d_ref_init(&rf[i], ptr[i], i == 0 ? cb0 : i == 1 ? cb1 : cb2, ck[i], 1);
    rf[i].ref_cnt = cnt[i]; st[i] = 1;
    return &rf[i];
}
static void expect(const int i, const int d) { /* reference i moved by d */
    if (cnt[i] + d == 0) VP_ASSERT(st[i] == 2 && called[i] == 1, "the release callback runs once, with the last reference");
    else VP_ASSERT(st[i] == 1 && !called[i] && (int) rf[i].ref_cnt == cnt[i] + d, "the reference is counted and kept while in use");
}
static int same_props(const Dav1dDataProps *a, const Dav1dDataProps *b) {
    return a->timestamp == b->timestamp && a->duration == b->duration && a->offset == b->offset && a->size == b->size && a->user_data.data == b->user_data.data && a->user_data.ref == b->user_data.ref;
}
static int defaults(const Dav1dDataProps *m, const size_t sz) { return m->timestamp == INT64_MIN && !m->duration && m->offset == -1 && m->size == sz && !m->user_data.data && !m->user_data.ref; }
static void fill(Dav1dData *b, const int has, const int ud) {
    memset(b, 0, sizeof(*b));
    if (has) { const int off = vp_int(0, 15); b->ref = mk(0); b->data = bytes + off; b->sz = vp_int(1, 16 - off); }
    b->m.timestamp = vp_u64(); b->m.duration = vp_u64(); b->m.offset = vp_u64(); b->m.size = vp_u64();
    if (ud) { b->m.user_data.ref = mk(1); b->m.user_data.data = &ud1; }
}
static void one(const int has, const int ud) {
    for (int i = 0; i < 4; i++) { st[i] = 0; if (i < 3) called[i] = 0; }
    st_blk = 0; fail = vp_bool(); bad_cb = 0;
    Dav1dData a, b; Dav1dDataProps p, q;
    fill(&a, has, ud);
    p = a.m;
#if OP == 0
    const size_t sz = vp_u64();
    memset(&a, 0, sizeof(a));
    uint8_t *r = dav1d_data_create_internal(&a, sz);
    if (sz > SIZE_MAX / 2 || fail) VP_ASSERT(!r && !a.ref && !a.data, "impossible sizes and allocation failure leave no packet");
    else {
        VP_ASSERT(r == blk.d && a.data == r && a.sz == sz && defaults(&a.m, sz), "a created packet covers the new buffer with default properties");
        VP_ASSERT(req >= sz + sizeof(Dav1dRef) && (uint8_t *) a.ref >= r + sz && (uint8_t *) (a.ref + 1) <= r + req, "the whole buffer is writable");
        VP_ASSERT(a.ref->ref_cnt == 1, "one owner");
        dav1d_data_unref_internal(&a);
        VP_ASSERT(st_blk == 2 && !a.ref && !a.data && !a.sz, "releasing the last packet frees the buffer");
    }
#elif OP == 1
    const size_t sz = vp_u64();
    memset(&a, 0, sizeof(a));
    const int r = dav1d_data_wrap_internal(&a, bytes, sz, cb0, &cookie0);
    if (sz > SIZE_MAX / 2) VP_ASSERT(r == DAV1D_ERR(EINVAL) && !a.ref, "impossible sizes are rejected");
    else if (fail) VP_ASSERT(r == DAV1D_ERR(ENOMEM) && !a.ref, "allocation failure leaves no packet");
    else {
        VP_ASSERT(!r && a.data == bytes && a.sz == sz && defaults(&a.m, sz) && a.ref->ref_cnt == 1, "a wrapped packet covers exactly the given bytes");
        Dav1dData c2; memset(&c2, 0, sizeof(c2));
        dav1d_data_ref(&c2, &a);
        dav1d_data_unref_internal(&a);
        VP_ASSERT(!called[0] && st[3] == 1, "the bytes stay valid while another packet uses them");
        dav1d_data_unref_internal(&c2);
        VP_ASSERT(called[0] == 1 && st[3] == 2, "the release callback runs once, with the last reference");
    }
#elif OP == 2
    VP_ASSUME(!ud);
    const int r = dav1d_data_wrap_user_data_internal(&a, &ud1, cb1, &cookie1);
    if (fail) VP_ASSERT(r == DAV1D_ERR(ENOMEM) && same_props(&a.m, &p), "allocation failure changes nothing");
    else {
        VP_ASSERT(!r && a.m.user_data.data == &ud1 && a.m.user_data.ref->ref_cnt == 1 && a.m.timestamp == p.timestamp && a.m.size == p.size, "user data is attached");
        dav1d_data_unref_internal(&a);
        VP_ASSERT(called[1] == 1 && st[3] == 2, "the user data callback runs once");
        if (has) expect(0, -1);
    }
#elif OP == 3 || OP == 4 || OP == 5
#if OP == 3
    memset(&b, 0, sizeof(b)); b.m.timestamp = vp_u64();
    dav1d_data_ref(&b, &a);
    VP_ASSERT(b.data == a.data && b.sz == a.sz && b.ref == a.ref && same_props(&a.m, &b.m), "a second reference is an exact copy");
    if (has) expect(0, 1);
    if (ud) expect(1, 1);
#elif OP == 4
    dav1d_data_unref_internal(&a);
    VP_ASSERT(!a.data && !a.sz && !a.ref && defaults(&a.m, 0), "a released packet is empty");
    if (has) expect(0, -1);
    if (ud) expect(1, -1);
#else
    dav1d_data_props_unref_internal(&a.m);
    VP_ASSERT(defaults(&a.m, 0), "released properties are the defaults");
    if (has) expect(0, 0);
    if (ud) expect(1, -1);
#endif
#elif OP == 6
    memset(&q, 0, sizeof(q));
    q.timestamp = vp_u64(); q.duration = vp_u64(); q.offset = vp_u64(); q.size = vp_u64();
    if (has) { q.user_data.ref = mk(2); q.user_data.data = &ud2; }
    dav1d_data_props_copy(&q, &a.m);
    VP_ASSERT(same_props(&q, &a.m) && same_props(&a.m, &p), "properties are copied exactly");
    if (has) expect(2, -1);
    if (ud) expect(1, 1);
#elif OP == 7 /* copying between two holders of the same user data keeps it alive */
    if (!ud) return;
    q = a.m; cnt[1]++; rf[1].ref_cnt = cnt[1];
    dav1d_data_props_copy(&q, &a.m);
    VP_ASSERT(same_props(&q, &a.m), "properties are copied exactly");
    expect(1, 0);
#elif OP == 8
    dav1d_data_props_set_defaults(&q);
    VP_ASSERT(defaults(&q, 0), "default properties");
#elif OP == 9 /* a counted reference */
    Dav1dRef *r = mk(0);
    const int w = dav1d_ref_is_writable(r);
    VP_ASSERT(!w, "data owned by the application is never written");
    dav1d_ref_inc(r); expect(0, 1);
    Dav1dRef *s = r;
    dav1d_ref_dec(&s); VP_ASSERT(!s, "a dropped reference is forgotten"); expect(0, 0);
    dav1d_ref_dec(&s); expect(0, 0);
    dav1d_ref_dec(&r); expect(0, -1);
#elif OP == 10
    static const uint8_t *nul;
    VP_ASSERT(dav1d_data_create_internal(NULL, 4) == NULL, "no packet given");
    VP_ASSERT(dav1d_data_wrap_internal(&a, nul, 4, cb0, &cookie0) == DAV1D_ERR(EINVAL), "no bytes given");
    VP_ASSERT(dav1d_data_wrap_internal(&a, bytes, 4, NULL, &cookie0) == DAV1D_ERR(EINVAL), "no callback given");
    VP_ASSERT(dav1d_data_wrap_internal(NULL, bytes, 4, cb0, &cookie0) == DAV1D_ERR(EINVAL), "no packet given");
    VP_ASSERT(dav1d_data_wrap_user_data_internal(&a, bytes, NULL, &cookie0) == DAV1D_ERR(EINVAL), "no callback given");
    VP_ASSERT(same_props(&a.m, &p) && !st[3] && !st_blk, "invalid requests change nothing");
    if (has) expect(0, 0);
#endif
    VP_ASSERT(!bad_cb, "callbacks get exactly the pointers given");
}
void vp_harness(void) {
    for (int i = 0; i < 4; i++) { if (OP == 2 && (i & 2)) continue; one(i & 1, i >> 1); }
}
