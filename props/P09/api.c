//@ link: src/lib.c
//@ checks: bounds
//@ unwind: 20
//@ unwindset: vp_harness.0:66
//@ defs: -DNDEBUG
//@ flags: --max-field-sensitivity-array-size 8
//@ case: send{0..3} -DOP=0 -DCFG={} -DLO=0
//@ case: sendl{0..7} -DOP=0 -DCFG={} -DLO=2
//@ case: get{0..3} -DOP=1 -DCFG={} -DL2=0
//@ case: layers1_{0..5} -DOP=1 -DCFG=1 -DL2=1 -DSUB={}
//@ case: layers3_{0..5} -DOP=1 -DCFG=3 -DL2=1 -DSUB={} tier=thorough
//@ case: layers3_q -DOP=1 -DCFG=3 -DL2=1 -DSUB=3
//@ case: layers5_{0..5} -DOP=1 -DCFG=5 -DL2=1 -DSUB={}
//@ case: layers7_{0..5} -DOP=1 -DCFG=7 -DL2=1 -DSUB={} tier=thorough
//@ case: layers7_q -DOP=1 -DCFG=7 -DL2=1 -DSUB=3
//@ case: layers0 -DOP=1 -DCFG=0 -DL2=1
//@ case: layers2 -DOP=1 -DCFG=2 -DL2=1
//@ case: layers4 -DOP=1 -DCFG=4 -DL2=1
//@ case: layers6 -DOP=1 -DCFG=6 -DL2=1
//@ case: drain{0..2} -DOP=2 -DCFG={}
//@ case: flush1 -DOP=3 -DCFG=0
//@ case: flush2_{0..3} -DOP=3 -DCFG=1 -DFB={}
//@ case: misc -DOP=4 -DCFG=0
//@ case: grain -DOP=5 -DCFG=0
//@ bound: one API call from every decoder state: packet pending or not (up to 2 bytes), pictures queued or not, any layer settings, pending error, drain state; every packet parse arbitrarily consumes bytes, fails, or produces a picture; draining of 3 frame threads in every state
//@ assume: packet parsing, reference counting and grain synthesis are models (real ones: P08, P10, P11, P25); frame threads have finished when waited for
#include "vp.h"
#include "config.h"
#include <errno.h>
#include "src/internal.h"
#include "src/obu.h"
#include "src/picture.h"
#include "src/data.h"
#include "src/ref.h"
#include "src/mem.h"
#include "src/cdf.h"
#include "src/fg_apply.h"
#include "src/decode.h"
#include "src/thread_task.h"
#include "dav1d/dav1d.h"
#define NP 8
static Dav1dContext c;
static uint8_t pix[NP]; static Dav1dFrameHeader hdr[NP]; static int refs_of[NP]; static int vis[NP];
static uint8_t bytes[4]; static int data_refs;
static int n_err_props; static int64_t err_ts;
void dav1d_log(Dav1dContext *x, const char *f, ...) { }
static int pid(const Dav1dPicture *p) { for (int i = 0; i < NP; i++) if (p->data[0] == &pix[i]) return i; return 0; }
void dav1d_picture_ref(Dav1dPicture *d, const Dav1dPicture *s) { VP_ASSERT(!d->data[0], "a picture is not overwritten"); *d = *s; for (int i = 1; i < NP; i++) if (s->data[0] == &pix[i]) refs_of[i]++; }
void dav1d_picture_move_ref(Dav1dPicture *d, Dav1dPicture *s) { VP_ASSERT(!d->data[0], "a picture is not overwritten"); *d = *s; s->data[0] = NULL; s->frame_hdr = NULL; s->ref = NULL; }
void dav1d_thread_picture_ref(Dav1dThreadPicture *d, const Dav1dThreadPicture *s) { dav1d_picture_ref(&d->p, &s->p); d->flags = s->flags; d->visible = s->visible; }
void dav1d_thread_picture_move_ref(Dav1dThreadPicture *d, Dav1dThreadPicture *s) { dav1d_picture_move_ref(&d->p, &s->p); d->flags = s->flags; d->visible = s->visible; s->flags = 0; s->visible = 0; }
void dav1d_picture_unref_internal(Dav1dPicture *p) { for (int i = 1; i < NP; i++) if (p->data[0] == &pix[i]) refs_of[i]--; p->data[0] = NULL; p->frame_hdr = NULL; }
void dav1d_thread_picture_unref(Dav1dThreadPicture *p) { dav1d_picture_unref_internal(&p->p); }
enum Dav1dEventFlags dav1d_picture_get_event_flags(const Dav1dThreadPicture *p) { return (enum Dav1dEventFlags)(p->flags & 3); }
void dav1d_data_props_copy(Dav1dDataProps *d, const Dav1dDataProps *s) { d->timestamp = s->timestamp; d->size = s->size; n_err_props++; err_ts = s->timestamp; }
void dav1d_data_props_set_defaults(Dav1dDataProps *p) { p->timestamp = INT64_MIN; p->duration = 0; p->offset = -1; p->size = 0; p->user_data.data = NULL; p->user_data.ref = NULL; }
static int n_props_unref;
void dav1d_data_props_unref_internal(Dav1dDataProps *p) { n_props_unref++; dav1d_data_props_set_defaults(p); }
void dav1d_data_ref(Dav1dData *d, const Dav1dData *s) { VP_ASSERT(!d->data, "a packet is not overwritten"); *d = *s; if (s->data) data_refs++; }
void dav1d_data_unref_internal(Dav1dData *b) { if (b->data) data_refs--; b->data = NULL; b->sz = 0; b->ref = NULL; }
static Dav1dRef rp[16]; static int rdec[16];
void dav1d_ref_dec(Dav1dRef **p) { for (int i = 0; i < 16; i++) if (*p == &rp[i]) rdec[i]++; *p = NULL; }
static int n_cdf; void dav1d_cdf_thread_unref(CdfThreadContext *x) { n_cdf++; x->ref = NULL; }
static int n_exit, exit_ret; void dav1d_decode_frame_exit(Dav1dFrameContext *f, int r) { n_exit++; exit_ret = r; f->task_thread.retval = r; }
static int n_lock, tl; 
int pthread_mutex_lock(pthread_mutex_t *m) { VP_ASSERT(!tl, "no self deadlock"); tl = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { VP_ASSERT(tl, "unlock of a held lock"); tl = 0; return 0; }
int pthread_cond_wait(pthread_cond_t *cd, pthread_mutex_t *m) {
    VP_ASSERT(tl && m == &c.task_thread.lock, "waiting with the lock held");
    for (unsigned i = 0; i < c.n_fc; i++) c.fc[i].n_tile_data = 0;
    for (unsigned i = 0; i < c.n_tc; i++) c.tc[i].task_thread.flushed = 1;
    return 0;
}
/* grain */
static int n_grain, grain_res, gr_bpc; static const void *gr_fg; static int n_dfg;
int dav1d_picture_alloc_copy(Dav1dContext *x, Dav1dPicture *d, const int w, const Dav1dPicture *s) { VP_ASSERT(w == s->p.w, "the grainy picture has the size of the original"); if (grain_res < 0) return grain_res; *d = *s; d->data[0] = &pix[7]; refs_of[7]++; return 0; }
void dav1d_apply_grain_8bpc(const Dav1dFilmGrainDSPContext *dsp, Dav1dPicture *o, const Dav1dPicture *i) { VP_ASSERT(o->p.bpc == 8 && dsp == &c.dsp[0].fg, "the right depth"); n_grain++; }
void dav1d_apply_grain_16bpc(const Dav1dFilmGrainDSPContext *dsp, Dav1dPicture *o, const Dav1dPicture *i) { VP_ASSERT((o->p.bpc == 10 && dsp == &c.dsp[1].fg) || (o->p.bpc == 12 && dsp == &c.dsp[2].fg), "the right depth"); n_grain++; }
void dav1d_task_delayed_fg(Dav1dContext *x, Dav1dPicture *o, const Dav1dPicture *i) { n_dfg++; }
static int c_sid[NP], c_tu[NP];
static int grainy(const int i) { const Dav1dFilmGrainData *g = &hdr[i].film_grain.data; return g->num_y_points || g->num_uv_points[0] || g->num_uv_points[1] || (g->clip_to_restricted_range && g->chroma_scaling_from_luma); }
static void mkpic(Dav1dThreadPicture *t, const int i) {
    Dav1dFilmGrainData *g = &hdr[i].film_grain.data;
    hdr[i].spatial_id = c_sid[i];
#ifdef L2
    if (!L2 || CFG == 6)
#endif
    { g->num_y_points = vp_int(0, 14); g->num_uv_points[0] = vp_int(0, 10); g->num_uv_points[1] = vp_int(0, 10);
    g->clip_to_restricted_range = vp_bool(); g->chroma_scaling_from_luma = vp_bool(); }
    t->p.data[0] = &pix[i]; t->p.frame_hdr = &hdr[i]; t->p.p.bpc = 8 + 2 * vp_int(0, 2); t->p.p.w = 16; t->flags = c_tu[i] < 0 ? vp_int(0, 7) : c_tu[i] ? PICTURE_FLAG_NEW_TEMPORAL_UNIT : 0; t->visible = 1; refs_of[i]++;
}
/* model of what packets contain: each parse call consumes, fails or shows a picture */
static int n_parse, out_res[4], out_pic[4], out_used[4];
ptrdiff_t dav1d_parse_obus(Dav1dContext *x, Dav1dData *in) {
    VP_ASSERT(x == &c && in == &c.in && in->sz > 0 && in->data, "parsing gets the pending data");
    VP_ASSERT(!c.out.p.data[0] || !!c.cache.p.data[0], "no packet is parsed while a picture waits for the application");
    VP_ASSERT(n_parse < 3, "parsing makes progress");
    const int k = n_parse++;
    if (out_res[k] < 0) c.cached_error_props.timestamp = in->m.timestamp;
    if (out_pic[k]) { VP_ASSERT(!c.out.p.data[0], "no picture is lost"); if (k == 0) mkpic(&c.out, 3); else mkpic(&c.out, 4); }
    if (out_res[k] < 0) return out_res[k];
    return k ? 1 : c.in.sz == 1 || out_used[k] == 1 ? 1 : 2;
}
static Dav1dFrameContext fcs[3]; static Dav1dTaskContext tcs[3]; static Dav1dThreadPicture od[3]; static atomic_uint prog[3][2];
/* reference model of the output stage */
static int m_out, m_cache, m_flags[NP];
static int m_single(void) { return c.all_layers || !c.max_spatial_id; }
static int m_ready(const int drain) { /* is a picture due to the application */
    if (m_single()) return m_out != 0;
    if (m_out && m_cache) {
        if (hdr[m_cache].spatial_id == c.max_spatial_id || (m_flags[m_out] & PICTURE_FLAG_NEW_TEMPORAL_UNIT)) return 1;
        m_cache = m_out; m_out = 0; return 0;
    }
    if (m_cache && drain) return 1;
    if (m_out) { m_cache = m_out; m_out = 0; }
    return 0;
}
static void state(const int inb, const int outp, const int cachep) {
    memset(refs_of, 0, sizeof(refs_of)); data_refs = n_parse = n_grain = n_dfg = n_err_props = n_cdf = n_exit = n_props_unref = tl = 0;
    memset(&c.in, 0, sizeof(c.in)); memset(&c.out, 0, sizeof(c.out)); memset(&c.cache, 0, sizeof(c.cache)); c.out.p.data[0] = c.cache.p.data[0] = NULL; c.out.p.frame_hdr = c.cache.p.frame_hdr = NULL;
    c.n_fc = 1; c.n_tc = 1; c.fc = fcs; c.tc = tcs; c.flush = &c.flush_mem;
    if (inb) { c.in.data = bytes; c.in.sz = inb; c.in.m.timestamp = vp_u64(); data_refs = 1; }
    if (outp) mkpic(&c.out, 1);
    if (cachep) mkpic(&c.cache, 2);
    m_out = outp ? 1 : 0; m_cache = cachep ? 2 : 0;
    c.drain = vp_bool();
    c.apply_grain = vp_bool(); grain_res = vp_bool() ? -vp_int(1, 4000) : 0;
    for (int i = 0; i < 3; i++) { out_res[i] = vp_bool() ? -vp_int(1, 4000) : 0; out_pic[i] = vp_bool(); out_used[i] = 1 + vp_bool(); }
    c.cached_error = 0;
    for (int i = 0; i < NP; i++) { c_sid[i] = OP == 0 ? vp_int(0, 3) : 0; c_tu[i] = OP == 0 ? vp_bool() : -1; }
}
static void check_live(const Dav1dPicture *got) { /* every picture is held exactly where the model says */
    for (int i = 1; i < 5; i++) {
        const int held = (c.out.p.data[0] == &pix[i]) + (c.cache.p.data[0] == &pix[i]) + (got && got->data[0] == &pix[i]);
        VP_ASSERT(refs_of[i] == held, "every picture is released or owned by exactly one place");
    }
}
#if OP == 0
static void one(const int inb, const int outp, const int cachep, const int layers) {
    state(inb, outp, cachep);
    c.all_layers = layers == 0; c.max_spatial_id = layers == 2 ? vp_int(1, 3) : layers == 1 ? 0 : vp_int(0, 3);
    if (layers != 2 && cachep) return; /* the cache is used in highest-layer mode only */
    const int drain0 = c.drain;
    Dav1dData in; memset(&in, 0, sizeof(in));
    const int kind = vp_int(0, 2), sz = vp_int(1, 2);
    in.data = kind == 2 ? NULL : bytes + 2; in.sz = kind == 2 ? 0 : kind == 1 ? (vp_bool() ? 0 : (size_t) SIZE_MAX / 2 + vp_int(1, 5)) : sz; in.m.timestamp = vp_u64();
    const Dav1dData was = in;
    if (in.data) data_refs++; /* the application's */
    const int r = dav1d_send_data(&c, &in);
    if (kind == 1) {
        VP_ASSERT(r == DAV1D_ERR(EINVAL) && in.data == was.data && in.sz == was.sz && !n_parse && c.drain == drain0, "an invalid size is rejected without effect");
        check_live(NULL); return;
    }
    if (kind == 0) VP_ASSERT(!c.drain, "new data ends draining");
    if (inb) {
        VP_ASSERT(r == DAV1D_ERR(EAGAIN) && in.data == was.data && in.sz == was.sz && !n_parse && (int) c.in.sz == inb && c.in.data == bytes, "while data is pending new data is refused and stays with the application");
        check_live(NULL); return;
    }
    if (kind == 2) { VP_ASSERT(r == 0 && !n_parse && !c.in.data, "an empty packet does nothing"); return; }
    if (r == 0) VP_ASSERT(!in.data && !in.sz, "consumed data belongs to the library");
    else VP_ASSERT(in.data == was.data && in.sz == was.sz && !c.in.data && n_parse && !(c.out.p.data[0] && (c.all_layers || !c.max_spatial_id)) && r == out_res[n_parse - 1], "on error the data stays with the application and the error is the parser's");
    VP_ASSERT(data_refs == (in.data != NULL) + (c.in.data != NULL), "the packet is held exactly by its owners");
    if (c.in.data) VP_ASSERT(c.in.sz > 0 && c.in.data + c.in.sz == was.data + was.sz, "unparsed bytes are kept");
    const int pics = !!c.out.p.data[0], left = (int) c.in.sz;
    if (left) VP_ASSERT(layers == 2 ? pics || c.cache.p.data[0] : pics, "parsing pauses only for a finished picture");
    check_live(NULL);
}
#endif
#if OP == 1
static void get(const int inb, const int outp, const int cachep, const int err0, const int o0, const int o1, const int bits) {
    state(0, 0, 0);
    const int L = L2;
    c.max_spatial_id = L ? 2 : 0; c.all_layers = L ? 0 : vp_bool();
    c_sid[2] = 1 + (bits & 1); c_sid[1] = 1 + (bits >> 1 & 1); c_tu[1] = L ? bits >> 2 & 1 : -1; c_sid[3] = 1 + (bits >> 3 & 1); c_tu[3] = L ? bits >> 4 & 1 : -1; c_sid[4] = 2; c_tu[4] = L ? bits >> 5 & 1 : -1;
    out_res[0] = o0 == 0 || o0 == 5 ? -11 : 0; out_pic[0] = o0 == 2 || o0 == 4 || o0 == 5; out_used[0] = o0 > 2 ? 2 : 1;
    out_res[1] = o1 == 0 ? -12 : 0; out_pic[1] = o1 == 2; out_used[1] = 1;
    if (inb) { c.in.data = bytes; c.in.sz = inb; c.in.m.timestamp = vp_u64(); data_refs = 1; }
    if (outp) mkpic(&c.out, 1);
    if (cachep) mkpic(&c.cache, 2);
    m_out = outp ? 1 : 0; m_cache = cachep ? 2 : 0;
    for (int i = 1; i < 5; i++) m_flags[i] = c_tu[i] > 0 ? PICTURE_FLAG_NEW_TEMPORAL_UNIT : 0;
    Dav1dPicture out; memset(&out, 0, sizeof(out));
    c.cached_error = err0 ? -13 : 0;
    const int e0 = c.cached_error;
    const int r = dav1d_get_picture(&c, &out);
    VP_ASSERT(c.drain == 1, "asking for a picture starts draining");
    if (err0) {
        VP_ASSERT(r == e0 && !c.cached_error && !n_parse && !out.data[0] && (int) c.in.sz == inb && pid(&c.out.p) == outp && pid(&c.cache.p) == 2 * cachep, "a pending error is reported once, before anything else");
        check_live(NULL); return;
    }
    /* replay on the model */
    int k = 0, left = inb, err = 0, ready = m_ready(0);
    if (!ready) while (left > 0) {
        const int rr = out_res[k], pp = out_pic[k], used = k ? 1 : left == 1 || out_used[k] == 1 ? 1 : 2;
        k++;
        if (rr < 0) left = 0;
        else left -= used;
        if (pp) m_out = k == 1 ? 3 : 4;
        if ((ready = m_ready(0))) break;
        if (rr < 0) { err = rr; break; }
    }
    VP_ASSERT(n_parse == k, "exactly the needed packets are parsed");
    VP_ASSERT((int) c.in.sz == left && (left > 0) == (c.in.data != NULL) && data_refs == (left > 0), "exactly the parsed bytes are consumed");
    if (err) { VP_ASSERT(r == err && !out.data[0], "a parse error is reported"); check_live(NULL); return; }
    if (!ready) ready = m_ready(1);
    if (!ready) { VP_ASSERT(r == DAV1D_ERR(EAGAIN) && !out.data[0], "without a picture more data is asked for"); check_live(&out); return; }
    int due = m_single() ? m_out : m_cache;
    if (m_single()) m_out = 0; else { m_cache = m_out; m_out = 0; }
    const int g = c.apply_grain && grainy(due);
    if (g && grain_res < 0) VP_ASSERT(r == grain_res && !out.data[0], "a grain failure is reported");
    else VP_ASSERT(r == 0 && out.data[0] == (g ? &pix[7] : &pix[due]) && out.frame_hdr == &hdr[due], "the picture due is returned");
    VP_ASSERT(n_grain == (g && grain_res == 0), "grain is applied exactly when enabled and signalled");
    VP_ASSERT((m_out ? c.out.p.data[0] == &pix[m_out] : !c.out.p.data[0]) && (m_cache ? c.cache.p.data[0] == &pix[m_cache] : !c.cache.p.data[0]), "later pictures stay queued in order");
    check_live(&out);
}
#endif
void vp_harness(void) {
#if OP == 0
    for (int l = LO; l <= (LO ? 2 : 1); l++) one(CFG & 1 ? 2 : 0, CFG >> 1 & 1, CFG >> 2, l);
#elif OP == 1
    const int inp = CFG & 1, outp = CFG >> 1 & 1, cachep = L2 && CFG >> 2;
    for (int e = 0; e < 2; e++)
        for (int b = inp ? 1 : 0; b <= (inp ? 2 : 0); b++)
            for (int o0 = 0; o0 < (b == 0 || e ? 1 : b == 1 ? 3 : 6); o0++)
#ifdef SUB
                if (o0 == SUB)
#endif
                for (int o1 = 0; o1 < (b == 2 && o0 && o0 <= 2 ? 3 : 1); o1++)
                    for (int bits = 0; bits < (L2 ? 64 : 1); bits++) {
                        if ((!cachep && bits & 1) || (!outp && bits & 6) || ((!b || e) && bits & 56) || ((b != 2 || o1 != 2) && bits & 32) || (o0 != 2 && o0 < 4 && bits & 24)) continue;
                        get(b, outp, cachep, e, o0, o1, bits);
                    }
#elif OP == 2 /* draining frame threads */
    for (int e = 0; e <= 3; e++) { /* e slots already empty from next on, the others filled */
        state(0, 0, 0);
        c.n_fc = 3; c.n_tc = 3; c.frame_thread.out_delayed = od; c.frame_thread.next = CFG; c.drain = 1; c.all_layers = 1; c.max_spatial_id = 0; c.output_invisible_frames = vp_bool(); c.apply_grain = 0; c.event_flags = 0;
        c.task_thread.cur = vp_int(0, 3); c.task_thread.first = vp_int(0, 2);
        int due = -1, err = 0, seen = 0, stop = 0; 
        for (int k = 0; k < 3; k++) {
            const int i = (CFG + k) % 3;
            fcs[i].c = &c; fcs[i].task_thread.ttd = &c.task_thread; fcs[i].n_tile_data = vp_int(0, 1); fcs[i].task_thread.error = 0; fcs[i].task_thread.retval = 0;
            od[i].p.data[0] = NULL; od[i].p.frame_hdr = NULL; od[i].progress = prog[i]; prog[i][1] = 100;
            if (k < e) continue;
            const int kind = vp_int(0, 3); /* shown, hidden, failed with error, damaged */
            mkpic(&od[i], 1 + i); od[i].visible = kind != 1; od[i].p.m.timestamp = 1000 + i;
            if (kind == 2) { fcs[i].task_thread.retval = -5 - i; fcs[i].task_thread.error = 1; }
            if (kind == 3) prog[i][1] = FRAME_ERROR;
            vis[i] = kind == 0 || (kind == 1 && c.output_invisible_frames);
            if (!stop) { seen++; if (kind == 2) { err = -5 - i; stop = 1; due = i; } else if (vis[i]) { due = i; stop = 1; } }
        }
        Dav1dPicture out; memset(&out, 0, sizeof(out));
        const int r = dav1d_get_picture(&c, &out);
        VP_ASSERT(!tl, "no lock is left held");
        if (err) VP_ASSERT(r == err && !out.data[0] && c.cached_error_props.timestamp == 1000 + due && !fcs[due].task_thread.retval, "the error of the oldest frame is reported once, with its packet");
        else if (due >= 0) VP_ASSERT(r == 0 && out.data[0] == &pix[1 + due] && (int) c.event_flags == (od[due].flags & 3), "frames come out oldest first, hidden and damaged ones skipped");
        else VP_ASSERT(r == DAV1D_ERR(EAGAIN) && !out.data[0], "a drained decoder asks for data");
        int q = 0;
        for (int k = 0; k < 3; k++) {
            const int i = (CFG + k) % 3;
            if (k < e) continue;
            q++;
            VP_ASSERT(!od[i].p.data[0] == (q <= seen), "exactly the frames up to the reported one leave the queue");
            VP_ASSERT(refs_of[1 + i] == (q > seen) + (out.data[0] == &pix[1 + i]), "each frame is released or handed out once");
        }
        if (stop) VP_ASSERT((int) c.frame_thread.next == (due + 1) % 3, "the next call goes on behind it");
    }
#elif OP == 3
    for (int b = 0; b < 4; b++) {
#ifdef FB
        if (b != FB) continue;
#endif
        state(b & 1 ? 2 : 0, b & 1, b >> 1);
        c.n_fc = CFG ? 3 : 1; c.n_tc = CFG ? 3 : 1; c.frame_thread.out_delayed = od; c.cached_error = vp_i32();
        for (int i = 0; i < 16; i++) rdec[i] = 0;
        for (int i = 0; i < 8; i++) {
            c.refs[i].p.p.data[0] = NULL; c.refs[i].p.p.frame_hdr = NULL; c.refs[i].segmap = NULL; c.refs[i].refmvs = NULL;
        }
        mkpic(&c.refs[b].p, 3); mkpic(&c.refs[7 - b].p, 4); c.refs[b].segmap = &rp[0]; c.refs[7 - b].refmvs = &rp[1]; c.cdf[b].ref = &rp[2];
        c.seq_hdr = (void *) bytes; c.seq_hdr_ref = &rp[3]; c.frame_hdr = hdr; c.mastering_display = (void *) bytes; c.mastering_display_ref = &rp[4]; c.content_light = (void *) bytes; c.content_light_ref = &rp[5]; c.itut_t35 = (void *) bytes; c.itut_t35_ref = &rp[6]; c.n_itut_t35 = 1;
        c.frame_thread.next = CFG ? b % 3 : 0;
        for (int i = 0; i < 3; i++) {
            fcs[i].c = &c; fcs[i].n_tile_data = vp_int(0, 2); fcs[i].task_thread.retval = vp_i32(); fcs[i].task_thread.error = vp_bool(); tcs[i].task_thread.flushed = vp_bool();
            fcs[i].task_thread.task_head = fcs[i].task_thread.task_tail = fcs[i].task_thread.task_cur_prev = fcs[i].task_thread.pending_tasks.head = fcs[i].task_thread.pending_tasks.tail = (void *) bytes; fcs[i].task_thread.pending_tasks.merge = 1;
            od[i].p.data[0] = NULL; od[i].p.frame_hdr = NULL;
        }
        if (CFG) mkpic(&od[1], 5);
        c.task_thread.first = 2; c.task_thread.cur = 1; c.task_thread.reset_task_cur = 0; c.task_thread.cond_signaled = 1;
        dav1d_flush(&c);
        for (int i = 1; i < 6; i++) VP_ASSERT(refs_of[i] == 0, "every picture is released");
        VP_ASSERT(data_refs == 0 && !c.in.data && !c.in.sz, "pending data is dropped");
        VP_ASSERT(!c.out.p.data[0] && !c.cache.p.data[0] && !c.drain && !c.cached_error, "nothing is queued, draining or failed");
        VP_ASSERT(!c.frame_hdr && !c.seq_hdr && !c.seq_hdr_ref && !c.mastering_display && !c.mastering_display_ref && !c.content_light && !c.content_light_ref && !c.itut_t35 && !c.itut_t35_ref && !c.n_itut_t35, "no header or metadata survives");
        for (int i = 0; i < 8; i++) VP_ASSERT(!c.refs[i].p.p.data[0] && !c.refs[i].p.p.frame_hdr && !c.refs[i].segmap && !c.refs[i].refmvs && !c.cdf[i].ref, "no reference survives");
        VP_ASSERT(rdec[0] == 1 && rdec[1] == 1 && rdec[3] == 1 && rdec[4] == 1 && rdec[5] == 1 && rdec[6] == 1, "each is released once");
        VP_ASSERT(n_props_unref >= 1, "the error's user data is released");
        VP_ASSERT(c.flush_mem == 0 && !tl, "the decoder accepts data again");
        if (CFG) {
            VP_ASSERT(n_exit == 3 && exit_ret < 0 && c.frame_thread.next == 0 && c.task_thread.first == 0 && c.task_thread.cur == 3 && c.task_thread.reset_task_cur == UINT_MAX && c.task_thread.cond_signaled == 0, "the frame queue restarts");
            for (int i = 0; i < 3; i++) VP_ASSERT(tcs[i].task_thread.flushed && !fcs[i].n_tile_data && !fcs[i].task_thread.retval && !fcs[i].task_thread.error && !od[i].p.data[0] && !fcs[i].task_thread.task_head && !fcs[i].task_thread.task_tail && !fcs[i].task_thread.task_cur_prev && !fcs[i].task_thread.pending_tasks.head && !fcs[i].task_thread.pending_tasks.tail && !fcs[i].task_thread.pending_tasks.merge, "no frame or task survives");
        }
    }
#elif OP == 4
    state(0, 0, 0);
    const unsigned ev = vp_bits(2); enum Dav1dEventFlags e = (enum Dav1dEventFlags) vp_bits(2);
    c.event_flags = (enum Dav1dEventFlags) ev;
    VP_ASSERT(!dav1d_get_event_flags(&c, &e) && (unsigned) e == ev, "events are reported");
    VP_ASSERT(!dav1d_get_event_flags(&c, &e) && !e, "and reported once");
    Dav1dDataProps o; dav1d_data_props_set_defaults(&o);
    c.cached_error_props.timestamp = vp_u64(); c.cached_error_props.size = vp_u64(); c.cached_error_props.offset = vp_u64(); c.cached_error_props.duration = vp_u64(); c.cached_error_props.user_data.ref = &rp[9]; c.cached_error_props.user_data.data = bytes;
    const Dav1dDataProps w = c.cached_error_props;
    VP_ASSERT(!dav1d_get_decode_error_data_props(&c, &o) && o.timestamp == w.timestamp && o.size == w.size && o.offset == w.offset && o.duration == w.duration && o.user_data.ref == w.user_data.ref && o.user_data.data == w.user_data.data, "the failed packet's properties are handed over");
    VP_ASSERT(c.cached_error_props.timestamp == INT64_MIN && c.cached_error_props.offset == -1 && !c.cached_error_props.user_data.ref && n_props_unref == 1, "and owned by the application alone");
    VP_ASSERT(dav1d_get_event_flags(&c, NULL) == DAV1D_ERR(EINVAL) && dav1d_get_event_flags(NULL, &e) == DAV1D_ERR(EINVAL) && dav1d_get_decode_error_data_props(NULL, &o) == DAV1D_ERR(EINVAL) && dav1d_get_decode_error_data_props(&c, NULL) == DAV1D_ERR(EINVAL), "missing arguments are rejected");
    Dav1dPicture p; Dav1dData d; memset(&p, 0, sizeof(p)); memset(&d, 0, sizeof(d));
    VP_ASSERT(dav1d_send_data(NULL, &d) == DAV1D_ERR(EINVAL) && dav1d_send_data(&c, NULL) == DAV1D_ERR(EINVAL) && dav1d_get_picture(NULL, &p) == DAV1D_ERR(EINVAL) && dav1d_get_picture(&c, NULL) == DAV1D_ERR(EINVAL) && dav1d_apply_grain(&c, NULL, &p) == DAV1D_ERR(EINVAL), "missing arguments are rejected");
    const unsigned va = dav1d_version_api();
    VP_ASSERT(va == ((DAV1D_API_VERSION_MAJOR << 16) | (DAV1D_API_VERSION_MINOR << 8) | DAV1D_API_VERSION_PATCH), "the API version is reported");
#else
    state(0, 1, 0);
    c.n_tc = vp_int(1, 2);
    Dav1dPicture o; memset(&o, 0, sizeof(o));
    const int r = dav1d_apply_grain(&c, &o, &c.out.p), g = grainy(1);
    if (!g) VP_ASSERT(!r && o.data[0] == &pix[1] && refs_of[1] == 2 && !n_grain && !n_dfg, "without grain data the picture itself is returned");
    else if (grain_res < 0) VP_ASSERT(r == grain_res && !o.data[0] && refs_of[1] == 1, "an allocation failure leaves no picture");
    else VP_ASSERT(!r && o.data[0] == &pix[7] && refs_of[1] == 1 && n_grain == (c.n_tc == 1) && n_dfg == (c.n_tc > 1), "grain is applied once to a new picture");
#endif
}
