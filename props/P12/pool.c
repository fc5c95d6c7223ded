//@ link: src/mem.c
//@ checks: bounds pointer
//@ unwind: 8
//@ defs: -DNDEBUG -Dfree=vp_free -Dmalloc=vp_malloc -Dposix_memalign=vp_memalign
//@ flags: --max-field-sensitivity-array-size 64
//@ case: init -DOP=0
//@ case: take{0..3} -DOP=1 -DN={}
//@ case: give{0..3} -DOP=2 -DN={}
//@ case: end{0..3} -DOP=3 -DN={}
//@ bound: one operation (create, take, return, end) from every valid pool state with 0..3 idle buffers, each of either of two sizes, and any number (below 2^30) of outstanding ones, ended or not; allocation failure arbitrary; other threads move the pool to any other valid state at every lock boundary
//@ assume: other threads touch the pool only while holding its lock, and may destroy it once they hold its last buffer; the allocator is a model that tracks every block
#include "vp.h"
#include "config.h"
#include "src/internal.h"
#ifndef N
#define N 0
#endif
#define NB 6 /* blocks 0..2 idle, 3 the one held, 4 fresh, 5 another thread's */
static struct { uint8_t pay[64]; Dav1dMemPoolBuffer b; } m64[NB];
static struct { uint8_t pay[96]; Dav1dMemPoolBuffer b; } m96[NB];
static int st64[NB], st96[NB]; /* 0 unused, 1 live, 2 freed */
static Dav1dMemPool pool_mem; static int st_pool;
static Dav1dMemPoolBuffer poison;
static int locked, n_destroy, n_sections, active;
/* the published state */
static Dav1dMemPoolBuffer *g_buf; static int g_ref, g_end, delta, owned, end_seen, ref_out; static Dav1dMemPoolBuffer *buf_in, *buf_out;
static Dav1dMemPoolBuffer *mk(const int i, const int big) {
    if (big) { st96[i] = 1; m96[i].b.data = &m96[i]; return &m96[i].b; }
    st64[i] = 1; m64[i].b.data = &m64[i]; return &m64[i].b;
}
void *vp_malloc(size_t sz) { if (vp_bool()) return NULL; st_pool = 1; return &pool_mem; }
int vp_memalign(void **p, size_t align, size_t sz) {
    VP_ASSERT(!locked, "memory is not allocated with the lock held");
    VP_ASSERT(align == 64, "pool memory is aligned");
    if (vp_bool()) return 12;
    if (sz == sizeof(m64[0])) { st64[4]++; *p = &m64[4]; }
    else { VP_ASSERT(sz == sizeof(m96[0]), "memory of the requested size is obtained"); st96[4]++; *p = &m96[4]; }
    return 0;
}
void vp_free(void *p) {
    int n = p == NULL;
    if (p == &pool_mem) { VP_ASSERT(st_pool == 1, "the pool is freed once"); st_pool = 2; n++; }
    for (int i = 0; i < NB; i++) {
        if (p == &m64[i]) { VP_ASSERT(st64[i] == 1, "a block is freed once"); st64[i] = 2; n++; m64[i].b.next = &poison; m64[i].b.data = &poison; }
        if (p == &m96[i]) { VP_ASSERT(st96[i] == 1, "a block is freed once"); st96[i] = 2; n++; m96[i].b.next = &poison; m96[i].b.data = &poison; }
    }
    VP_ASSERT(n == 1, "only blocks that were allocated are freed");
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return vp_bool() ? 12 : 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { VP_ASSERT(!locked, "a locked mutex is not destroyed"); n_destroy++; return 0; }
static void scramble(void) { if (active) { pool_mem.buf = &poison; pool_mem.ref_cnt = vp_i32(); pool_mem.end = vp_bool(); } }
int pthread_mutex_lock(pthread_mutex_t *m) {
    VP_ASSERT(m == &pool_mem.lock && !n_destroy && st_pool == 1, "the lock of a live pool is taken");
    VP_ASSERT(!locked, "no self deadlock"); locked = 1;
    if (active) {
        if (n_sections) VP_ASSERT(delta + owned > 0, "a pool nothing is held of is not touched again (another thread may have destroyed it)");
        if (n_sections) { /* others acted in between: one more idle buffer, other counts */
            if (!g_end && vp_bool()) g_end = 1, g_buf = NULL;
            if (!g_end) { Dav1dMemPoolBuffer *o = mk(5, 0); o->next = g_buf; g_buf = o; }
            g_ref = vp_int(2 - g_end, 1 << 30);
        }
        pool_mem.buf = g_buf; pool_mem.ref_cnt = g_ref; pool_mem.end = g_end; buf_in = g_buf;
    }
    n_sections++;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    VP_ASSERT(locked, "unlock of a held mutex"); locked = 0;
    if (active) {
        delta += pool_mem.ref_cnt - g_ref;
        g_buf = buf_out = pool_mem.buf; g_ref = ref_out = pool_mem.ref_cnt; end_seen = g_end; g_end = pool_mem.end;
    }
    scramble();
    return 0;
}
void vp_harness(void) {
#if OP == 0
    Dav1dMemPool *pool = &pool_mem;
    const int r = dav1d_mem_pool_init(ALLOC_PIC, &pool);
    if (r) VP_ASSERT(!pool && st_pool != 1 && r == DAV1D_ERR(ENOMEM), "failed creation leaves nothing");
    else VP_ASSERT(pool == &pool_mem && !pool->buf && pool->ref_cnt == 1 && !pool->end, "a new pool is empty and open");
#else
    for (int comb = 0; comb < 1 << (N + 1); comb++) {
        int big[4];
        for (int i = 0; i < NB; i++) st64[i] = st96[i] = 0;
        for (int i = 0; i < 4; i++) big[i] = comb >> i & 1;
        n_destroy = n_sections = delta = locked = 0; st_pool = 1; active = 1; owned = OP != 1;
        Dav1dMemPoolBuffer *idle[4] = { NULL };
        for (int i = N - 1; i >= 0; i--) { idle[i] = mk(i, big[i + 1]); idle[i]->next = idle[i + 1]; }
        g_buf = idle[0];
#if OP == 1
        g_end = 0; g_ref = vp_int(1, 1 << 30);
        scramble();
        const size_t sz = big[0] ? 96 : 64;
        Dav1dMemPoolBuffer *b = dav1d_mem_pool_pop(&pool_mem, sz);
        const int fits = N && big[1] == big[0];
        if (fits) VP_ASSERT(b == idle[0], "a fitting idle buffer is reused");
        if (b) {
            VP_ASSERT(fits || (b == (big[0] ? &m96[4].b : &m64[4].b)), "the buffer is new or the idle one that fits");
            if (!fits) VP_ASSERT(b->data == (big[0] ? (void *) &m96[4] : (void *) &m64[4]) && st64[4] == !big[0] && st96[4] == big[0], "a new buffer has the requested size");
            VP_ASSERT(fits || !N || (big[1] ? st96[0] : st64[0]) == 2, "an unfit buffer is freed");
            if (fits) VP_ASSERT((big[1] ? st96[0] : st64[0]) == 1, "the buffer handed out is alive");
            VP_ASSERT(delta == 1 && !n_destroy && st_pool == 1, "the pool counts one more buffer");
        } else {
            VP_ASSERT(delta == 0, "a failed request leaves the count unchanged");
            VP_ASSERT(n_destroy == (ref_out == 0) && (st_pool == 2) == n_destroy, "the last user destroys the pool");
        }
        if (n_sections == 1) VP_ASSERT(buf_out == (N ? idle[1] : NULL), "only the first idle buffer leaves the pool");
        for (int i = 1; i < N; i++) VP_ASSERT((big[i + 1] ? st96[i] : st64[i]) == 1, "other idle buffers are kept");
#elif OP == 2
        g_end = vp_bool(); g_ref = vp_int(1, 1 << 30); VP_ASSUME(g_end || g_ref > 1);
        if (g_end) g_buf = NULL;
        const int ended = g_end, ref0 = g_ref;
        Dav1dMemPoolBuffer *b = mk(3, big[0]);
        b->next = &poison;
        scramble();
        dav1d_mem_pool_push(&pool_mem, b);
        VP_ASSERT(delta == -1 && n_sections == 1, "the pool counts one buffer less");
        VP_ASSERT((big[0] ? st96[3] : st64[3]) == (ended ? 2 : 1), "a buffer returned to an ended pool is freed, else kept");
        if (!ended) VP_ASSERT(buf_out == b && b->next == idle[0], "the buffer joins the idle ones");
        else VP_ASSERT(!buf_out, "an ended pool keeps no buffer");
        VP_ASSERT(n_destroy == (ended && ref0 == 1) && (st_pool == 2) == n_destroy, "the last buffer of an ended pool destroys it, nothing else does");
        for (int i = 0; i < N; i++) VP_ASSERT((big[i + 1] ? st96[i] : st64[i]) == 1, "idle buffers are kept");
#else
        g_end = 0; g_ref = vp_int(1, 1 << 30);
        const int ref0 = g_ref;
        scramble();
        dav1d_mem_pool_end(&pool_mem);
        VP_ASSERT(delta == -1 && g_end, "the pool is closed");
        VP_ASSERT(n_destroy == (ref0 == 1) && (st_pool == 2) == n_destroy, "a pool without outstanding buffers is destroyed, others stay");
        VP_ASSERT(!buf_out, "an ended pool keeps no buffer");
        for (int i = 0; i < N; i++) VP_ASSERT((big[i + 1] ? st96[i] : st64[i]) == 2, "every idle buffer is freed");
#endif
        VP_ASSERT(!locked, "no lock is left held");
    }
#endif
}
