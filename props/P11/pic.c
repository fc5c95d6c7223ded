//@ link: src/picture.c src/data.c src/ref.c
//@ checks: bounds
//@ unwind: 8
//@ defs: -DNDEBUG -Dfree=vp_free
//@ flags: --max-field-sensitivity-array-size 64
//@ case: alloc{0..7} -DOP=0 -DMT=0 -DLO={} -DHI={}
//@ case: allocmt{7..7} -DOP=0 -DMT=1 -DLO={} -DHI={}
//@ case: copy{0..7} -DOP=1 -DMT=1 -DLO={} -DHI={}
//@ case: ref -DOP=2 -DMT=1 -DLO=0 -DHI=7
//@ case: unref -DOP=3 -DMT=1 -DLO=0 -DHI=7
//@ case: move -DOP=4 -DMT=1 -DLO=0 -DHI=7
//@ case: tref -DOP=5 -DMT=1 -DLO=0 -DHI=7
//@ case: props -DOP=6 -DMT=0 -DLO=0 -DHI=7
//@ case: events -DOP=7 -DMT=0 -DLO=0 -DHI=7
//@ bound: one operation on pictures from every state: attached headers, metadata and user data present or not, each with any number of other references; any size, layout, depth, visibility, layer and pending flags; allocator refusals at any point
//@ assume: the buffer pool is a model (real pool: P12); sequences follow because each operation preserves the counts exactly
#include "vp.h"
#include "config.h"
#include <errno.h>
#include "src/internal.h"
#include "src/picture.h"
#include "src/data.h"
#include "src/ref.h"
#include "src/mem.h"
void dav1d_log(Dav1dContext *c, const char *f, ...) { }
static Dav1dContext c; static Dav1dFrameContext f; static struct Dav1dTileGroup tile[1];
static Dav1dSequenceHeader sh; static Dav1dFrameHeader fh; static Dav1dContentLightLevel cl; static Dav1dMasteringDisplay md; static Dav1dITUTT35 t35[2];
/* model of the pool */
static struct { Dav1dPicAllocator a; Dav1dPicture p; Dav1dRef r; void *x[2]; } ctx[2];
static Dav1dMemPoolBuffer pb[2]; static int st_ctx[2], n_pop, pop_fail; static int pool_id;
void vp_free(void *p) { VP_ASSERT(!p, "nothing else is freed"); }
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *p, size_t sz) {
    VP_ASSERT(p == (Dav1dMemPool *) &pool_id, "the picture context pool is used");
    VP_ASSERT(sz <= sizeof(ctx[0]), "model: size");
    if (pop_fail) return NULL;
    const int i = n_pop++; pb[i].data = &ctx[i]; st_ctx[i] = 1; return &pb[i];
}
void dav1d_mem_pool_push(Dav1dMemPool *p, Dav1dMemPoolBuffer *b) {
    VP_ASSERT(p == (Dav1dMemPool *) &pool_id && (b == &pb[0] || b == &pb[1]), "the context goes back to its pool");
    const int i = b == &pb[1]; VP_ASSERT(st_ctx[i] == 1, "a context is returned once"); st_ctx[i] = 2;
}
/* the application's allocator */
static int ck_a, ck_b, n_acb, n_rcb, acb_res; static uint8_t pix[3]; static int adata; static ptrdiff_t s0, s1; static int mono;
static struct { int w, h, bpc, layout; void *fh, *sh, *cookie; } seen;
static int acb(Dav1dPicture *p, void *k) {
    n_acb++; seen.w = p->p.w; seen.h = p->p.h; seen.bpc = p->p.bpc; seen.layout = p->p.layout; seen.fh = p->frame_hdr; seen.sh = p->seq_hdr; seen.cookie = k;
    if (acb_res < 0) return acb_res;
    p->data[0] = &pix[0]; p->data[1] = mono ? NULL : &pix[1]; p->data[2] = mono ? NULL : &pix[2]; p->stride[0] = s0; p->stride[1] = s1; p->allocator_data = &adata;
    return 0;
}
static void rcb(Dav1dPicture *p, void *k) {
    n_rcb++;
    VP_ASSERT(k == &ck_a, "the release callback gets the allocator's cookie");
    VP_ASSERT(p->data[0] == &pix[0] && p->data[1] == (mono ? NULL : &pix[1]) && p->data[2] == (mono ? NULL : &pix[2]) && p->stride[0] == s0 && p->stride[1] == s1 && p->allocator_data == &adata, "the release callback gets the picture as it was allocated");
}
/* counted references */
enum { SEQ, FRM, CL, MD, T35, UD, PIC, NR };
static Dav1dRef rf[NR + 3]; static int cnt[NR + 3], rel[NR + 3];
static void relcb(const uint8_t *d, void *k) { rel[(Dav1dRef *) k - rf]++; }
static Dav1dRef *mk(const int i) { cnt[i] = vp_int(1, 1 << 30); rel[i] = 0; dav1d_ref_init(&rf[i], &rf[i], relcb, &rf[i], 0); rf[i].ref_cnt = cnt[i]; return &rf[i]; }
static void expect(const Dav1dRef *r, const int i, const int d) {
    if (!r) return;
    if (cnt[i] + d == 0) VP_ASSERT(rel[i] == 1, "an attachment is released with its last reference");
    else VP_ASSERT(!rel[i] && (int) rf[i].ref_cnt == cnt[i] + d, "every attachment is counted exactly");
}
static void expect_all(const Dav1dPicture *p, const int d) {
    expect(p->seq_hdr_ref, SEQ, d); expect(p->frame_hdr_ref, FRM, d); expect(p->content_light_ref, CL, d); expect(p->mastering_display_ref, MD, d); expect(p->itut_t35_ref, T35, d); expect(p->m.user_data.ref, UD, d);
}
static void fill_m(Dav1dDataProps *m, const int ud) { memset(m, 0, sizeof(*m)); m->timestamp = vp_u64(); m->duration = vp_u64(); m->offset = vp_u64(); m->size = vp_u64(); if (ud) { m->user_data.ref = mk(UD); m->user_data.data = &pix[0]; } }
static int same_m(const Dav1dDataProps *a, const Dav1dDataProps *b) { return a->timestamp == b->timestamp && a->duration == b->duration && a->offset == b->offset && a->size == b->size && a->user_data.data == b->user_data.data && a->user_data.ref == b->user_data.ref; }
static int same_meta(const Dav1dPicture *a, const Dav1dPicture *b) { return a->content_light == b->content_light && a->content_light_ref == b->content_light_ref && a->mastering_display == b->mastering_display && a->mastering_display_ref == b->mastering_display_ref && a->itut_t35 == b->itut_t35 && a->itut_t35_ref == b->itut_t35_ref && a->n_itut_t35 == b->n_itut_t35; }
static int same_pic(const Dav1dPicture *a, const Dav1dPicture *b) {
    return a->data[0] == b->data[0] && a->data[1] == b->data[1] && a->data[2] == b->data[2] && a->stride[0] == b->stride[0] && a->stride[1] == b->stride[1] && a->p.w == b->p.w && a->p.h == b->p.h && a->p.bpc == b->p.bpc && a->p.layout == b->p.layout &&
        a->seq_hdr == b->seq_hdr && a->seq_hdr_ref == b->seq_hdr_ref && a->frame_hdr == b->frame_hdr && a->frame_hdr_ref == b->frame_hdr_ref && a->ref == b->ref && a->allocator_data == b->allocator_data && same_m(&a->m, &b->m) && same_meta(a, b);
}
static void fill_hdr(void) {
    sh.layout = vp_int(0, 3); fh.width[0] = vp_int(1, 65536); fh.width[1] = vp_int(1, 65536); fh.height = vp_int(1, 65536);
    mono = sh.layout == 0; s0 = vp_i32(); s1 = vp_i32();
}
static Dav1dThreadPicture tp, tq;
static void fill_pic(const int what) { /* a picture whose buffer has other references */
    Dav1dPicture *p = &tp.p;
    memset(&tp, 0, sizeof(tp)); memset(&tq, 0, sizeof(tq));
    fill_hdr();
    p->data[0] = &pix[0]; p->data[1] = mono ? NULL : &pix[1]; p->data[2] = mono ? NULL : &pix[2]; p->stride[0] = s0; p->stride[1] = s1; p->allocator_data = &adata;
    p->p.w = fh.width[1]; p->p.h = fh.height; p->p.bpc = 8 + 2 * vp_int(0, 2); p->p.layout = sh.layout;
    p->seq_hdr = &sh; p->seq_hdr_ref = mk(SEQ); p->frame_hdr = &fh; p->frame_hdr_ref = mk(FRM);
    if (what & 1) { p->content_light = &cl; p->content_light_ref = mk(CL); p->mastering_display = &md; p->mastering_display_ref = mk(MD); }
    if (what & 2) { p->itut_t35 = t35; p->n_itut_t35 = vp_int(1, 2); p->itut_t35_ref = mk(T35); }
    fill_m(&p->m, what & 4);
    tp.visible = vp_bool(); tp.showable = vp_bool(); tp.flags = vp_int(0, 7); tp.progress = (atomic_uint *) &ctx[0].x;
    p->ref = mk(PIC);
}
static void one(const int what) {
    n_pop = n_acb = n_rcb = 0; st_ctx[0] = st_ctx[1] = 0; pop_fail = vp_bool(); acb_res = vp_bool() ? -vp_int(1, 4000) : 0;
    c.pic_ctx_pool = (Dav1dMemPool *) &pool_id; c.n_fc = 1 + MT;
    c.allocator.cookie = &ck_a; c.allocator.alloc_picture_callback = acb; c.allocator.release_picture_callback = rcb;
#if OP == 0
    fill_hdr();
    const int bpc = 8 + 2 * vp_int(0, 2);
    memset(&f, 0, sizeof(f)); f.c = &c; f.tile = tile; f.frame_hdr = &fh; f.frame_hdr_ref = mk(FRM); f.seq_hdr = &sh; f.seq_hdr_ref = mk(SEQ);
    c.content_light = NULL; c.content_light_ref = NULL; c.mastering_display = NULL; c.mastering_display_ref = NULL; c.itut_t35 = NULL; c.itut_t35_ref = NULL; c.n_itut_t35 = 0;
    if (what & 1) { c.content_light = &cl; c.content_light_ref = mk(CL); c.mastering_display = &md; c.mastering_display_ref = mk(MD); }
    if (what & 2) { c.itut_t35 = t35; c.n_itut_t35 = vp_int(1, 2); c.itut_t35_ref = mk(T35); }
    fill_m(&tile[0].data.m, what & 4);
    const Dav1dDataProps m = tile[0].data.m;
    const int nt = c.n_itut_t35, flags = vp_int(0, 7), layer = vp_int(0, 3);
    c.frame_flags = flags; c.max_spatial_id = vp_int(0, 3); fh.spatial_id = layer; c.output_invisible_frames = vp_bool();
    fh.show_frame = vp_bool(); fh.showable_frame = vp_bool();
    const int r = dav1d_thread_picture_alloc(&c, &f, bpc);
    Dav1dPicture *p = &f.sr_cur.p;
    if (!pop_fail) VP_ASSERT(n_acb == 1 && seen.w == fh.width[1] && seen.h == fh.height && seen.bpc == bpc && seen.layout == (int) sh.layout && seen.fh == &fh && seen.sh == &sh && seen.cookie == &ck_a, "the allocator is asked once, for exactly this picture");
    if (pop_fail || acb_res < 0) {
        VP_ASSERT(r == (pop_fail ? DAV1D_ERR(ENOMEM) : acb_res), "the allocator's error is reported");
        VP_ASSERT(st_ctx[0] != 1 && !p->data[0] && !p->ref && !n_rcb, "a refused allocation leaves nothing behind");
        VP_ASSERT((int) rf[FRM].ref_cnt == cnt[FRM] && (int) rf[SEQ].ref_cnt == cnt[SEQ], "a refused allocation takes no references");
        VP_ASSERT((int) c.frame_flags == flags && (what & 2 ? c.itut_t35 == t35 : 1), "a refused allocation consumes no events or metadata");
        return;
    }
    VP_ASSERT(!r && p->data[0] == &pix[0] && p->stride[0] == s0 && p->allocator_data == &adata && p->frame_hdr == &fh && p->seq_hdr == &sh && p->p.w == fh.width[1] && p->p.h == fh.height && p->p.bpc == bpc, "the picture is the allocator's");
    VP_ASSERT((int) rf[FRM].ref_cnt == cnt[FRM] + 1 && (int) rf[SEQ].ref_cnt == cnt[SEQ] + 1, "the picture holds its headers");
    VP_ASSERT(same_m(&p->m, &m), "the packet's properties are attached");
    expect(m.user_data.ref, UD, 1);
    VP_ASSERT((int) f.sr_cur.flags == flags && f.sr_cur.visible == fh.show_frame && f.sr_cur.showable == fh.showable_frame, "visibility and events are attached");
    const int outp = (fh.show_frame || c.output_invisible_frames) && layer == c.max_spatial_id;
    VP_ASSERT((int) c.frame_flags == (outp ? 0 : flags & (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO)), "events not yet output stay pending for the next picture");
    if (fh.show_frame) {
        VP_ASSERT(p->content_light == (what & 1 ? &cl : NULL) && p->mastering_display == (what & 1 ? &md : NULL) && p->itut_t35 == (what & 2 ? t35 : NULL) && (int) p->n_itut_t35 == nt, "metadata is attached to visible pictures");
        if (what & 1) { expect(p->content_light_ref, CL, 1); expect(p->mastering_display_ref, MD, 1); VP_ASSERT(c.content_light == &cl && c.mastering_display == &md, "static metadata stays active"); }
        if (what & 2) expect(p->itut_t35_ref, T35, 0);
        VP_ASSERT(!c.itut_t35 && !c.itut_t35_ref && !c.n_itut_t35, "T.35 messages are attached to one picture only");
    } else {
        VP_ASSERT(!p->content_light && !p->mastering_display && !p->itut_t35, "hidden pictures carry no metadata");
        VP_ASSERT(c.itut_t35 == (what & 2 ? t35 : NULL) && (int) c.n_itut_t35 == nt, "T.35 messages wait for a visible picture");
        if (what & 1) expect(c.content_light_ref, CL, 0);
        if (what & 2) expect(c.itut_t35_ref, T35, 0);
    }
    if (MT) VP_ASSERT(f.sr_cur.progress && f.sr_cur.progress[0] == 0 && f.sr_cur.progress[1] == 0, "progress starts at nothing");
    /* two holders; the buffer is released by the last one only */
    dav1d_thread_picture_ref(&tq, &f.sr_cur);
    dav1d_thread_picture_unref(&f.sr_cur);
    VP_ASSERT(!n_rcb && st_ctx[0] == 1, "the buffer stays while a reference remains");
    dav1d_thread_picture_unref(&tq);
    VP_ASSERT(n_rcb == 1 && st_ctx[0] == 2, "the buffer is released exactly once, with the last reference");
    VP_ASSERT((int) rf[FRM].ref_cnt == cnt[FRM] && (int) rf[SEQ].ref_cnt == cnt[SEQ], "the headers are released");
#elif OP == 1
    fill_pic(what);
    ctx[1].a = c.allocator; pb[1].data = &ctx[1]; st_ctx[1] = 1; tp.p.ref->const_data = &pb[1];
    c.allocator.cookie = &ck_b;
    const int w = vp_int(1, 65536);
    Dav1dPicture d; memset(&d, 0, sizeof(d));
    const int r = dav1d_picture_alloc_copy(&c, &d, w, &tp.p);
    if (!pop_fail) VP_ASSERT(n_acb == 1 && seen.w == w && seen.h == tp.p.p.h && seen.bpc == tp.p.p.bpc && seen.layout == (int) sh.layout && seen.cookie == &ck_a, "a copy is asked of the picture's own allocator");
    if (pop_fail || acb_res < 0) { VP_ASSERT(r < 0 && st_ctx[0] != 1 && !d.ref && !d.data[0], "a refused copy leaves nothing"); expect_all(&tp.p, 0); return; }
    VP_ASSERT(!r && same_m(&d.m, &tp.p.m) && same_meta(&d, &tp.p) && d.frame_hdr == tp.p.frame_hdr && d.seq_hdr == tp.p.seq_hdr && d.p.w == w && d.p.h == tp.p.p.h, "a copy carries the same headers, properties and metadata");
    expect_all(&tp.p, 1);
    dav1d_picture_unref_internal(&d);
    VP_ASSERT(n_rcb == 1 && st_ctx[0] == 2 && st_ctx[1] == 1, "releasing the copy releases its own buffer only");
    expect_all(&tp.p, 0);
#elif OP == 2
    fill_pic(what);
    dav1d_picture_ref(&tq.p, &tp.p);
    VP_ASSERT(same_pic(&tq.p, &tp.p), "a second reference is an exact copy");
    expect_all(&tp.p, 1); expect(tp.p.ref, PIC, 1);
#elif OP == 3
    fill_pic(what);
    const Dav1dPicture was = tp.p;
    dav1d_thread_picture_unref(&tp);
    expect_all(&was, -1); expect(was.ref, PIC, -1);
    VP_ASSERT(!tp.p.data[0] && !tp.p.ref && !tp.p.frame_hdr && !tp.p.seq_hdr && !tp.p.m.user_data.ref && tp.p.m.timestamp == INT64_MIN && tp.p.m.offset == -1 && !tp.p.itut_t35 && !tp.p.content_light && !tp.p.mastering_display, "a released picture is empty");
    dav1d_thread_picture_unref(&tp);
    expect_all(&was, -1);
#elif OP == 4
    fill_pic(what);
    const Dav1dThreadPicture was = tp;
    dav1d_thread_picture_move_ref(&tq, &tp);
    VP_ASSERT(same_pic(&tq.p, &was.p) && tq.flags == was.flags && tq.visible == was.visible && tq.showable == was.showable && tq.progress == was.progress, "moving keeps everything");
    VP_ASSERT(!tp.p.data[0] && !tp.p.ref && !tp.p.frame_hdr_ref && !tp.p.m.user_data.ref && !tp.flags, "the source of a move is empty");
    expect_all(&was.p, 0); expect(was.p.ref, PIC, 0);
#elif OP == 5
    fill_pic(what);
    dav1d_thread_picture_ref(&tq, &tp);
    VP_ASSERT(same_pic(&tq.p, &tp.p) && tq.flags == tp.flags && tq.visible == tp.visible && tq.showable == tp.showable && tq.progress == tp.progress, "a second reference is an exact copy");
    expect_all(&tp.p, 1); expect(tp.p.ref, PIC, 1);
#elif OP == 6 /* replacing the metadata of a shown picture */
    fill_pic(what);
    const Dav1dPicture was = tp.p;
    Dav1dRef *o[3] = { mk(NR), mk(NR + 1), mk(NR + 2) };
    Dav1dDataProps m; memset(&m, 0, sizeof(m)); m.timestamp = vp_u64();
    dav1d_picture_copy_props(&tp.p, &cl, o[0], &md, o[1], t35, o[2], 2, &m);
    VP_ASSERT(tp.p.content_light_ref == o[0] && tp.p.mastering_display_ref == o[1] && tp.p.itut_t35_ref == o[2] && tp.p.n_itut_t35 == 2 && tp.p.itut_t35 == t35 && tp.p.content_light == &cl && tp.p.mastering_display == &md && same_m(&tp.p.m, &m), "the new metadata replaces the old");
    for (int i = 0; i < 3; i++) expect(o[i], NR + i, 1);
    expect(was.content_light_ref, CL, -1); expect(was.mastering_display_ref, MD, -1); expect(was.itut_t35_ref, T35, -1); expect(was.m.user_data.ref, UD, -1);
    expect(was.seq_hdr_ref, SEQ, 0); expect(was.frame_hdr_ref, FRM, 0);
#else
    fill_pic(what);
    const int e = dav1d_picture_get_event_flags(&tp);
    VP_ASSERT(e == ((tp.flags & PICTURE_FLAG_NEW_SEQUENCE ? DAV1D_EVENT_FLAG_NEW_SEQUENCE : 0) | (tp.flags & PICTURE_FLAG_NEW_OP_PARAMS_INFO ? DAV1D_EVENT_FLAG_NEW_OP_PARAMS_INFO : 0)), "events are those of the picture");
#endif
}
void vp_harness(void) {
    for (int w = LO; w <= HI; w++) { memset(&tp, 0, sizeof(tp)); memset(&tq, 0, sizeof(tq)); one(w); }
}
