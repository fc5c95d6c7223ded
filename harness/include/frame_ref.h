/* Reference writer for OBU_FRAME_HEADER (AV1 5.9, uncompressed_header) and
 * comparison with what the real parser stores.  Optional-element structure is
 * concrete (pseudo-random from SHAPE, biased by B_* macros); payload is symbolic. */
#include "tape.h"
#include "src/internal.h"
#include "src/obu.h"
#include "src/ref.h"
#include "src/picture.h"
#include "src/data.h"
#include "src/cdf.h"
#include "src/decode.h"
#include "src/warpmv.h"
#include "src/env.h"
#include "dav1d/dav1d.h"
/* ---- environment of the parser: recorded / inert ---- */
void dav1d_log(Dav1dContext *c, const char *f, ...) { (void)c; (void)f; }
void dav1d_data_props_copy(Dav1dDataProps *d, const Dav1dDataProps *s) { (void)d; (void)s; }
void dav1d_data_unref_internal(Dav1dData *b) { (void)b; }
void dav1d_data_ref(Dav1dData *d, const Dav1dData *s) { *d = *s; }
static int n_submit; int dav1d_submit_frame(Dav1dContext *c) { n_submit++; c->n_tile_data = 0; return 0; }
void dav1d_ref_dec(Dav1dRef **p) { *p = NULL; }
Dav1dRef *dav1d_ref_create(enum AllocationType t, size_t s) { (void)s; return NULL; }
Dav1dRef *dav1d_ref_create_using_pool(Dav1dMemPool *p, size_t s) { (void)p; (void)s; return NULL; }
void dav1d_thread_picture_ref(Dav1dThreadPicture *d, const Dav1dThreadPicture *s) { *d = *s; }
void dav1d_thread_picture_unref(Dav1dThreadPicture *d) { memset(d, 0, sizeof(*d)); }
void dav1d_picture_copy_props(Dav1dPicture *p, Dav1dContentLightLevel *a, Dav1dRef *b, Dav1dMasteringDisplay *d, Dav1dRef *e, Dav1dITUTT35 *f, Dav1dRef *g, size_t n, const Dav1dDataProps *m) { (void)p;(void)a;(void)b;(void)d;(void)e;(void)f;(void)g;(void)n;(void)m; }
void dav1d_picture_free_itut_t35(const uint8_t *d, void *u) { (void)d; (void)u; }
enum Dav1dEventFlags dav1d_picture_get_event_flags(const Dav1dThreadPicture *p) { (void)p; return 0; }
void dav1d_cdf_thread_ref(CdfThreadContext *d, CdfThreadContext *s) { *d = *s; }
void dav1d_cdf_thread_unref(CdfThreadContext *c) { (void)c; }
const Dav1dWarpedMotionParams dav1d_default_wm_params = { .type = DAV1D_WM_TYPE_IDENTITY, .matrix = { 0, 0, 1 << 16, 0, 0, 1 << 16 } };

#ifndef B_REDUCED
#define B_REDUCED (S(10) == 0)
#endif
#ifndef B_TYPE
#define B_TYPE S(4)
#endif
#ifndef B_SHOWN
#define B_SHOWN S(2)
#endif
#ifndef B_W
static const int dims[16] = { 16, 64, 65, 100, 128, 129, 200, 352, 640, 1000, 1920, 2500, 4096, 4100, 1, 300 };
#define B_W dims[S(16)]
#define B_H dims[S(16)]
#endif
#ifndef B_UNIFORM
#define B_UNIFORM S(2)
#endif
#ifndef B_SEG
#define B_SEG S(2)
#endif
#ifndef B_FG
#define B_FG S(2)
#endif
#ifndef B_FGUPD
#define B_FGUPD S(3)
#endif
#ifndef B_GMV
#define B_GMV (S(3) == 0)
#endif
#ifndef B_LOSSLESS
#define B_LOSSLESS (S(6) == 0)
#endif
#ifndef B_LFD
#define B_LFD S(2)
#endif
#ifndef B_SHORT
#define B_SHORT S(2)
#endif
#ifndef B_COMPREF
#define B_COMPREF S(2)
#endif

static Dav1dContext c; static Dav1dSequenceHeader sq; static Dav1dFrameHeader hh, R[8]; static Dav1dRef hh_ref;
static Dav1dFrameHeader *const h = &hh;
static Dav1dData in;
#define EQ(f, v) VP_ASSERT(hh.f == (v), "frame header field " #f " is the coded one")
#define EQT(f, v) VP_ASSERT(hh.f == (v), "tile layout: " #f " is the standard's")
#define EQG(f, v) VP_ASSERT(hh.film_grain.f == (v), "film grain " #f " is the coded one")

static int relhint(int a, int b) { /* get_relative_dist */
    if (!sq.order_hint) return 0;
    int d = a - b; const int m = 1 << (sq.order_hint_n_bits - 1);
    return (d & (m - 1)) - (d & m);
}
static int x_tile_log2(int blk, int target) { int k; for (k = 0; (blk << k) < target; k++) ; return k; }
static int w_su(int n) { /* su(n) value */ const unsigned v = vp_bits(n); W(n, v); return (int)(v << (32 - n)) >> (32 - n); }
static int w_delta_q(int on) { W(1, on); return on ? w_su(7) : 0; }

/* 7.8 set_frame_refs */
static void x_set_frame_refs(int last, int gold, int cur, int8_t *out) {
    int shifted[8], used[8] = {0}; const int curh = 1 << (sq.order_hint_n_bits - 1);
    for (int i = 0; i < 7; i++) out[i] = -1;
    out[0] = last; out[3] = gold;
    for (int i = 0; i < 8; i++) { used[i] = i == last || i == gold; shifted[i] = curh + relhint(R[i].frame_offset, cur); }
    int ref = -1, best = 0;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= curh && (ref < 0 || shifted[i] >= best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[6] = ref; for (int i = 0; i < 8; i++) used[i] |= i == ref; }
    ref = -1;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= curh && (ref < 0 || shifted[i] < best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[4] = ref; for (int i = 0; i < 8; i++) used[i] |= i == ref; }
    ref = -1;
    for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] >= curh && (ref < 0 || shifted[i] < best)) { ref = i; best = shifted[i]; }
    if (ref >= 0) { out[5] = ref; for (int i = 0; i < 8; i++) used[i] |= i == ref; }
    static const uint8_t order[5] = { 1, 2, 4, 5, 6 }; /* LAST2, LAST3, BWDREF, ALTREF2, ALTREF */
    for (int k = 0; k < 5; k++) if (out[order[k]] < 0) {
        ref = -1;
        for (int i = 0; i < 8; i++) if (!used[i] && shifted[i] < curh && (ref < 0 || shifted[i] >= best)) { ref = i; best = shifted[i]; }
        if (ref >= 0) { out[order[k]] = ref; for (int i = 0; i < 8; i++) used[i] |= i == ref; }
    }
    ref = -1;
    for (int i = 0; i < 8; i++) if (ref < 0 || shifted[i] < best) { ref = i; best = shifted[i]; }
    for (int i = 0; i < 7; i++) if (out[i] < 0) out[i] = ref;
}
/* 5.9.22 skip_mode_params */
static int x_skip_mode(int cur, const int8_t *refidx, int *f0, int *f1) {
    int fwd = -1, bwd = -1, fh = 0, bh = 0;
    for (int i = 0; i < 7; i++) {
        const int rh = R[refidx[i]].frame_offset;
        if (relhint(rh, cur) < 0) { if (fwd < 0 || relhint(rh, fh) > 0) { fwd = i; fh = rh; } }
        else if (relhint(rh, cur) > 0) { if (bwd < 0 || relhint(rh, bh) < 0) { bwd = i; bh = rh; } }
    }
    if (fwd < 0) return 0;
    if (bwd >= 0) { *f0 = fwd < bwd ? fwd : bwd; *f1 = fwd < bwd ? bwd : fwd; return 1; }
    int sec = -1, sh = 0;
    for (int i = 0; i < 7; i++) { const int rh = R[refidx[i]].frame_offset; if (relhint(rh, fh) < 0 && (sec < 0 || relhint(rh, sh) > 0)) { sec = i; sh = rh; } }
    if (sec < 0) return 0;
    *f0 = fwd < sec ? fwd : sec; *f1 = fwd < sec ? sec : fwd; return 1;
}
static void x_superres(int w1, int *sr, int *den, int *w0) {
    *sr = 0; *den = 8;
    if (sq.super_res) { *sr = S(2); W(1, *sr); if (*sr) { const int cd = S(8); W(3, cd); *den = cd + 9; } }
    *w0 = (w1 * 8 + *den / 2) / *den;
    /* the library clamps the downscaled width to min(16, upscaled width) */
    if (*sr && *w0 < (w1 < 16 ? w1 : 16)) *w0 = w1 < 16 ? w1 : 16;
}

void frame_setup(void) {
    /* a sequence */
    sq.reduced_still_picture_header = B_REDUCED;
    const int red = sq.reduced_still_picture_header;
    sq.still_picture = red;
    sq.monochrome = S(5) == 0; sq.ss_hor = sq.monochrome ? 1 : S(3) != 0; sq.ss_ver = sq.monochrome ? 1 : sq.ss_hor && S(3); sq.separate_uv_delta_q = !sq.monochrome && S(2);
    sq.sb128 = S(2); sq.width_n_bits = 13 + S(4); sq.height_n_bits = 13 + S(4); sq.max_width = B_W; sq.max_height = B_H;
    sq.num_operating_points = 1; sq.super_res = S(2); sq.cdef = S(3) != 0; sq.restoration = S(3) != 0; sq.film_grain_present = B_FG;
    sq.screen_content_tools = 2; sq.force_integer_mv = 2;
    if (!red) {
        sq.decoder_model_info_present = S(3) == 0;
        if (sq.decoder_model_info_present) { sq.timing_info_present = 1; sq.equal_picture_interval = S(2); sq.buffer_removal_delay_length = 1 + S(32); sq.frame_presentation_delay_length = 1 + S(32); }
        sq.num_operating_points = 1 + S(3);
        for (int i = 0; i < sq.num_operating_points; i++) { sq.operating_points[i].idc = S(2) ? (1 + S(15)) << 8 | (1 + S(255)) : 0; sq.operating_points[i].decoder_model_param_present = sq.decoder_model_info_present && S(2); }
        sq.frame_id_numbers_present = S(3) == 0; if (sq.frame_id_numbers_present) { sq.delta_frame_id_n_bits = 2 + S(12); sq.frame_id_n_bits = sq.delta_frame_id_n_bits + 1 + S(2); }
        sq.order_hint = S(5) != 0; sq.order_hint_n_bits = sq.order_hint ? 2 + S(7) : 0; sq.ref_frame_mvs = sq.order_hint && S(2); sq.warped_motion = S(2);
        sq.screen_content_tools = S(3); sq.force_integer_mv = sq.screen_content_tools ? S(3) : 2;
    }
    c.seq_hdr = &sq; c.frame_hdr_ref = &hh_ref; hh_ref.data = &hh; hh_ref.ref_cnt = 1; c.n_fc = 1;
    for (int i = 0; i < 8; i++) c.refs[i].p.p.frame_hdr = &R[i];
}
static int f_type, f_show, f_existing, f_errres, tid, sid;
static int x_w1, x_h, x_w0, x_rows, x_cols;
void frame_obu(void) {
    const int red = sq.reduced_still_picture_header;
    int ext = S(2); tid = ext ? S(8) : 0; sid = ext ? S(4) : 0;
    W(1, 0); W(4, 3); W(1, ext); W(1, 0); W(1, 0); if (ext) { W(3, tid); W(2, sid); W(3, 0); }
    int fid = 0;
    f_type = red ? 0 : B_TYPE; f_show = red ? 1 : B_SHOWN;
    const int key = f_type == 0, intra = key || f_type == 2, sw = f_type == 3;
    const int prd = sq.decoder_model_info_present && !sq.equal_picture_interval;
    unsigned fpd = 0; int showable;
    if (!red) {
        W(1, 0); W(2, f_type); W(1, f_show);
        if (f_show) { if (prd) { fpd = vp_u32() >> (32 - sq.frame_presentation_delay_length); W(sq.frame_presentation_delay_length, fpd); } showable = !key; }
        else { showable = B_SHOWN; W(1, showable); }
        if (sw || (key && f_show)) f_errres = 1; else { f_errres = S(3) == 0; W(1, f_errres); }
    } else { showable = 0; f_errres = 1; }
    const int dcu = S(2); W(1, dcu);
    int sct, fim;
    if (sq.screen_content_tools == 2) { sct = S(2); W(1, sct); } else sct = sq.screen_content_tools;
    if (sct) { if (sq.force_integer_mv == 2) { fim = S(2); W(1, fim); } else fim = sq.force_integer_mv; } else fim = 0;
    if (intra) fim = 1;
    if (sq.frame_id_numbers_present) { fid = S(1 << sq.frame_id_n_bits); W(sq.frame_id_n_bits, fid); }
    int fso = 0; if (sw) fso = 1; else if (!red) { fso = S(2); W(1, fso); }
    int oh = 0; if (sq.order_hint) {
#ifdef SYM_HINTS
        oh = vp_bits(sq.order_hint_n_bits);
#else
        oh = S(1 << sq.order_hint_n_bits);
#endif
        W(sq.order_hint_n_bits, oh); }
#ifdef SYM_HINTS
    int prim = 7; if (!(intra || f_errres)) W(3, 7);
#else
    int prim = 7; if (!(intra || f_errres)) { prim = S(3) ? S(7) : 7; W(3, prim); }
#endif
    int brt = 0; unsigned brv[4] = {0}; 
    if (sq.decoder_model_info_present) { brt = S(2); W(1, brt);
        if (brt) for (int i = 0; i < sq.num_operating_points; i++) if (sq.operating_points[i].decoder_model_param_present) {
            const int idc = sq.operating_points[i].idc;
            if (!idc || ((idc >> tid) & 1 && (idc >> (sid + 8)) & 1)) { brv[i] = vp_u32() >> (32 - sq.buffer_removal_delay_length); W(sq.buffer_removal_delay_length, brv[i]); } } }
    unsigned refresh; if (sw || (key && f_show)) refresh = 255; else { refresh = intra ? S(2) ? 255 : S(255) : vp_u8(); W(8, refresh); }
    if ((!intra || refresh != 255) && f_errres && sq.order_hint) for (int i = 0; i < 8; i++) W(sq.order_hint_n_bits, vp_bits(sq.order_hint_n_bits));
    int8_t refidx[7] = {0}; int shortsig = 0; const int hasidx = !intra;
    int sr, den, hrs = 0, rw, rh, ibc = 0, hp = 0, filt = 0, smm = 0, urm = 0;
#ifdef SYM_HINTS
    for (int i = 0; i < 8; i++) R[i].frame_offset = vp_bits(sq.order_hint_n_bits);
#else
    for (int i = 0; i < 8; i++) R[i].frame_offset = sq.order_hint ? S(4) ? (oh + S(9) - 4) & ((1 << sq.order_hint_n_bits) - 1) : S(1 << sq.order_hint_n_bits) : 0;
#endif
    for (int i = 0; i < 8; i++) { R[i].width[1] = B_W; R[i].height = B_H; R[i].render_width = vp_int(1, 65536); R[i].render_height = vp_int(1, 65536); R[i].frame_id = S(1 << 14); }
    if (!intra) {
        if (sq.order_hint) { shortsig = B_SHORT; W(1, shortsig);
            if (shortsig) { const int l = S(8), g = S(8); W(3, l); W(3, g); x_set_frame_refs(l, g, oh, refidx); } }
        if (sq.frame_id_numbers_present) for (int i = 0; i < 8; i++) R[i].frame_id = (fid - 1 - S(1 << sq.delta_frame_id_n_bits)) & ((1 << sq.frame_id_n_bits) - 1);
        for (int i = 0; i < 7; i++) {
            if (!shortsig) { refidx[i] = S(8); W(3, refidx[i]); }
            if (sq.frame_id_numbers_present) W(sq.delta_frame_id_n_bits, ((fid - R[refidx[i]].frame_id) & ((1 << sq.frame_id_n_bits) - 1)) - 1);
        }
    }
    int found = 0;
    if (!intra && fso && !f_errres) {
        const int which = S(8); /* 7: none */
        for (int i = 0; i < 7; i++) { W(1, i == which); if (i == which) { found = 1; x_w1 = R[refidx[i]].width[1]; x_h = R[refidx[i]].height; rw = R[refidx[i]].render_width; rh = R[refidx[i]].render_height; break; } }
    }
    if (found) x_superres(x_w1, &sr, &den, &x_w0);
    else {
        if (fso) { x_w1 = B_W; x_h = B_H; W(sq.width_n_bits, x_w1 - 1); W(sq.height_n_bits, x_h - 1); } else { x_w1 = sq.max_width; x_h = sq.max_height; }
        x_superres(x_w1, &sr, &den, &x_w0);
        hrs = S(2); W(1, hrs); if (hrs) { rw = vp_int(1, 65536); rh = vp_int(1, 65536); W(16, rw - 1); W(16, rh - 1); } else { rw = x_w1; rh = x_h; }
    }
    if (intra) { if (sct && !sr) { ibc = S(2); W(1, ibc); } }
    else {
        if (!fim) { hp = S(2); W(1, hp); }
        const int fsw = S(2); W(1, fsw); if (fsw) filt = 4; else { filt = vp_bits(2); W(2, filt); }
        smm = vp_bool(); W(1, smm);
        if (!f_errres && sq.ref_frame_mvs) { urm = vp_bool(); W(1, urm); }
    }
    int rctx = 0; if (!red && !dcu) { const int d = vp_bool(); W(1, d); rctx = !d; }
    /* 5.9.15 tile_info */
    const int shift = sq.sb128 ? 5 : 4, sbc = sq.sb128 ? ((2 * ((x_w0 + 7) >> 3)) + 31) >> 5 : ((2 * ((x_w0 + 7) >> 3)) + 15) >> 4, sbr = sq.sb128 ? ((2 * ((x_h + 7) >> 3)) + 31) >> 5 : ((2 * ((x_h + 7) >> 3)) + 15) >> 4;
    const int mtw = 4096 >> (shift + 2); int mta = (4096 * 2304) >> (2 * (shift + 2));
    const int minc = x_tile_log2(mtw, sbc), maxc = x_tile_log2(1, sbc < 64 ? sbc : 64), maxr = x_tile_log2(1, sbr < 64 ? sbr : 64);
    int mint = x_tile_log2(mta, sbr * sbc); if (mint < minc) mint = minc;
    int lc, lr_, cs[66], rs[66], nc = 0, nr = 0;
    const int uni = B_UNIFORM; W(1, uni);
    if (uni) {
        lc = minc; while (lc < maxc) { const int inc = S(3) != 0; W(1, inc); if (inc) lc++; else break; }
        const int tw = (sbc + (1 << lc) - 1) >> lc; for (int s = 0; s < sbc; s += tw) cs[nc++] = s;
        int minr = mint - lc; if (minr < 0) minr = 0;
        lr_ = minr; while (lr_ < maxr) { const int inc = S(3) != 0; W(1, inc); if (inc) lr_++; else break; }
        const int th = (sbr + (1 << lr_) - 1) >> lr_; for (int s = 0; s < sbr; s += th) rs[nr++] = s;
    } else {
        int widest = 0, s = 0;
        for (; s < sbc; ) { cs[nc++] = s; const int mx = sbc - s < mtw ? sbc - s : mtw; int v = S(2) ? mx - 1 : S(mx); const int need = (sbc - s - (v + 1)); if (nc >= 60 || need < 0) v = mx - 1; if (mx > 1) W_ns(mx, v); else v = 0; s += v + 1; if (v + 1 > widest) widest = v + 1; }
        lc = x_tile_log2(1, nc);
        if (mint > 0) mta = (sbr * sbc) >> (mint + 1); else mta = sbr * sbc;
        int mth = mta / widest; if (mth < 1) mth = 1;
        for (s = 0; s < sbr; ) { rs[nr++] = s; const int mx = sbr - s < mth ? sbr - s : mth; int v = S(2) ? mx - 1 : S(mx); if (nr >= 40) v = mx - 1; if (mx > 1) W_ns(mx, v); else v = 0; s += v + 1; }
        lr_ = x_tile_log2(1, nr);
    }
    cs[nc] = sbc; rs[nr] = sbr; x_cols = nc; x_rows = nr;
    int ctxt = 0, tsb = 0;
    if (lc || lr_) { ctxt = S(nc * nr); W(lc + lr_, ctxt); tsb = 1 + vp_bits(2); W(2, tsb - 1); }
    /* quantization_params */
    const int lossless = B_LOSSLESS;
    const int yac = lossless ? 0 : 1 + S(255); W(8, yac);
    const int ydc = w_delta_q(lossless ? 0 : S(2)); int udc = 0, uac = 0, vdc = 0, vac = 0;
    if (!sq.monochrome) {
        int diff = 0; if (sq.separate_uv_delta_q) { diff = S(2); W(1, diff); }
        udc = w_delta_q(lossless ? 0 : S(2)); uac = w_delta_q(lossless ? 0 : S(2));
        if (diff) { vdc = w_delta_q(lossless ? 0 : S(2)); vac = w_delta_q(lossless ? 0 : S(2)); } else { vdc = udc; vac = uac; }
    }
    const int qm = S(2); unsigned qy = 0, qu = 0, qv = 0; W(1, qm);
    if (qm) { qy = vp_bits(4); qu = vp_bits(4); W(4, qy); W(4, qu); if (sq.separate_uv_delta_q) { qv = vp_bits(4); W(4, qv); } else qv = qu; }
    /* segmentation_params */
    const int seg = B_SEG; int um = 0, tu = 0, ud = 0; Dav1dSegmentationDataSet sd; memset(&sd, 0, sizeof(sd)); for (int i = 0; i < 8; i++) sd.d[i].ref = -1;
    const int pidx = prim == 7 ? 0 : refidx[prim];
    W(1, seg);
    if (seg) {
        um = ud = 1; if (prim != 7) { um = S(2); W(1, um); if (um) { tu = vp_bool(); W(1, tu); } ud = S(2); W(1, ud); }
        if (ud) {
            sd.last_active_segid = -1;
            static const uint8_t fb[5] = { 9, 7, 7, 7, 7 };
            for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
                int en = S(3) == 0; if (j == 0 && (lossless || i == 0)) en = 0;
                if (j >= 6) { en = vp_bool(); }
                W(1, en);
                if (j < 6) { if (en) { const int v = j < 5 ? w_su(fb[j]) : (int) vp_bits(3); if (j == 5) W(3, v);
                    if (j == 0) sd.d[i].delta_q = v; else if (j == 1) sd.d[i].delta_lf_y_v = v; else if (j == 2) sd.d[i].delta_lf_y_h = v; else if (j == 3) sd.d[i].delta_lf_u = v; else if (j == 4) sd.d[i].delta_lf_v = v; else sd.d[i].ref = v; } }
                else if (j == 6) sd.d[i].skip = en; else sd.d[i].globalmv = en;
                if (en) { sd.last_active_segid = i; if (j >= 5) sd.preskip = 1; }
            }
        } else {
            for (int i = 0; i < 8; i++) { R[pidx].segmentation.seg_data.d[i].delta_q = lossless || i == 0 ? 0 : vp_int(-256, 255); R[pidx].segmentation.seg_data.d[i].ref = vp_int(-1, 7); R[pidx].segmentation.seg_data.d[i].delta_lf_v = vp_int(-64, 63); }
            R[pidx].segmentation.seg_data.last_active_segid = vp_int(-1, 7); R[pidx].segmentation.seg_data.preskip = vp_bool();
            sd = R[pidx].segmentation.seg_data;
        }
    }
    /* delta_q / delta_lf */
    int dq = 0, dqr = 0, dl = 0, dlr = 0, dlm = 0;
    if (yac) { dq = S(2); W(1, dq); } if (dq) { dqr = vp_bits(2); W(2, dqr); if (!ibc) { dl = S(2); W(1, dl); } }
    if (dl) { dlr = vp_bits(2); dlm = vp_bool(); W(2, dlr); W(1, dlm); }
    const int alll = yac == 0 && lossless;
    /* loop_filter_params */
    int l0 = 0, l1 = 0, lu = 0, lv = 0, sh = 0, mde = 1, mdu = 1; int rd_[8] = { 1, 0, 0, 0, -1, 0, -1, -1 }, md[2] = {0};
    const int codelf = !(alll || ibc);
    if (codelf) {
        const int z = S(3); if (z == 0) { l0 = l1 = 0; } else if (z == 1) { l0 = 0; l1 = 1 + S(63); } else { l0 = 1 + S(63); l1 = vp_bits(6); }
        W(6, l0); W(6, l1);
        if (!sq.monochrome && z) { lu = vp_bits(6); lv = vp_bits(6); W(6, lu); W(6, lv); }
        sh = vp_bits(3); W(3, sh);
        if (prim != 7) { for (int i = 0; i < 8; i++) rd_[i] = R[pidx].loopfilter.mode_ref_deltas.ref_delta[i] = vp_int(-64, 63); for (int i = 0; i < 2; i++) md[i] = R[pidx].loopfilter.mode_ref_deltas.mode_delta[i] = vp_int(-64, 63); }
        mde = S(2); W(1, mde); mdu = 0;
        if (mde) { mdu = S(2); W(1, mdu); if (mdu) { for (int i = 0; i < 8; i++) { const int u = B_LFD; W(1, u); if (u) rd_[i] = w_su(7); } for (int i = 0; i < 2; i++) { const int u = B_LFD; W(1, u); if (u) md[i] = w_su(7); } } }
    }
    /* cdef_params */
    int damp = 0, cb = 0; unsigned cy[8] = {0}, cuv[8] = {0}; const int codecdef = !alll && !ibc && sq.cdef;
    if (codecdef) { damp = vp_bits(2) + 3; W(2, damp - 3); cb = S(4); W(2, cb); for (int i = 0; i < (1 << cb); i++) { cy[i] = vp_bits(6); W(6, cy[i]); if (!sq.monochrome) { cuv[i] = vp_bits(6); W(6, cuv[i]); } } }
    /* lr_params */
    int lt[3] = {0}, us0 = 0, us1 = 0; const int codelr = !(alll && !sr) && !ibc && sq.restoration; int useslr = 0;
    if (codelr) {
        int chroma = 0; for (int p = 0; p < (sq.monochrome ? 1 : 3); p++) { lt[p] = S(4); W(2, lt[p]); if (lt[p]) { useslr = 1; if (p) chroma = 1; } }
        if (useslr) { int lus; const int b = S(2); W(1, b); lus = b; if (sq.sb128) lus++; else if (b) { const int e = vp_bool(); W(1, e); lus += e; }
            us0 = 6 + lus; us1 = us0; if (sq.ss_hor && sq.ss_ver && chroma) { const int s = vp_bool(); W(1, s); us1 = us0 - s; } }
    }
    int txs = 0; if (!alll) { txs = vp_bool(); W(1, txs); }
    int rsel = 0; if (!intra) { rsel = B_COMPREF; W(1, rsel); }
    int sma = 0, f0 = 0, f1 = 0, sme = 0;
#ifdef SYM_HINTS
    /* symbolic outcome: one coded 1 followed by zeros only */
    if (rsel && !intra && sq.order_hint) { sma = x_skip_mode(oh, refidx, &f0, &f1); W(1, 1); }
    const int wm = 0, rtx = rsel && sq.order_hint ? !sma : 0; sme = sma;
    Dav1dWarpedMotionParams g[7]; for (int i = 0; i < 7; i++) g[i] = dav1d_default_wm_params;
    W(24, 0);
#else
    if (!(intra || !rsel || !sq.order_hint)) sma = x_skip_mode(oh, refidx, &f0, &f1);
    if (sma) { sme = S(2); W(1, sme); }
    int wm = 0; if (!(intra || f_errres || !sq.warped_motion)) { wm = vp_bool(); W(1, wm); }
    const int rtx = vp_bool(); W(1, rtx);
    /* global_motion_params */
    Dav1dWarpedMotionParams g[7]; for (int i = 0; i < 7; i++) g[i] = dav1d_default_wm_params;
    if (!intra) for (int i = 0; i < 7; i++) {
        const int isg = B_GMV; W(1, isg); if (!isg) continue;
        const int rz = S(2); W(1, rz); int ty = DAV1D_WM_TYPE_ROT_ZOOM; if (!rz) { const int tr = S(2); W(1, tr); ty = tr ? DAV1D_WM_TYPE_TRANSLATION : DAV1D_WM_TYPE_AFFINE; }
        int32_t pg[6] = { 0, 0, 65536, 0, 0, 65536 };
        if (prim != 7) { for (int k = 0; k < 6; k++) { pg[k] = vp_int(-(1 << 20), 1 << 20); R[pidx].gmv[i].matrix[k] = pg[k]; } }
        g[i].type = ty;
        static const uint8_t ord[6] = { 2, 3, 4, 5, 0, 1 };
        for (int k = 0; k < 6; k++) { const int ix = ord[k];
            if (ix >= 2 && ix < 4 && ty < DAV1D_WM_TYPE_ROT_ZOOM) continue;
            if (ix >= 4 && ty != DAV1D_WM_TYPE_AFFINE) { if (ty == DAV1D_WM_TYPE_ROT_ZOOM) { g[i].matrix[4] = -g[i].matrix[3]; g[i].matrix[5] = g[i].matrix[2]; } continue; }
            int ab = 12, pb = 15; if (ix < 2) { if (ty == DAV1D_WM_TYPE_TRANSLATION) { ab = 9 - !hp; pb = 3 - !hp; } else { ab = 12; pb = 6; } }
            const int pd = 16 - pb, round = ix % 3 == 2 ? 65536 : 0, sub = ix % 3 == 2 ? 1 << pb : 0, mx = 1 << ab;
            const int r = (pg[ix] >> pd) - sub;
#ifdef VP_REPLAY
            /* the code is defined for references inside its range */
#endif
            VP_ASSUME(r >= -mx && r <= mx);
            const int v = vp_int(-mx, mx); W_subexp(v, r, ab);
            g[i].matrix[ix] = v * (1 << pd) + round;
        }
    }
#endif
    /* film_grain_params */
    int fgp = 0, upd = 1; Dav1dFilmGrainData fg; memset(&fg, 0, sizeof(fg));
#ifndef SYM_HINTS
    if (sq.film_grain_present && (f_show || showable)) {
        fgp = B_FG; W(1, fgp);
        if (fgp) {
            const unsigned seed = vp_u16(); W(16, seed);
            if (f_type == 1) { upd = B_FGUPD != 0; W(1, upd); }
            if (!upd) { const int ri = refidx[S(7)]; W(3, ri);
                R[ri].film_grain.data.num_y_points = vp_int(0, 14); R[ri].film_grain.data.overlap_flag = vp_bool(); R[ri].film_grain.data.y_points[3][1] = vp_u8(); R[ri].film_grain.data.seed = vp_u16(); R[ri].film_grain.data.scaling_shift = vp_u8();
                fg = R[ri].film_grain.data; fg.seed = seed;
            } else {
                fg.seed = seed; fg.num_y_points = S(3) ? S(15) : 0; W(4, fg.num_y_points);
                for (int i = 0, x = 0; i < fg.num_y_points; i++) { x += (i != 0) + S(14); fg.y_points[i][0] = x; fg.y_points[i][1] = vp_u8(); W(8, x); W(8, fg.y_points[i][1]); }
                if (!sq.monochrome) { fg.chroma_scaling_from_luma = S(2); W(1, fg.chroma_scaling_from_luma); }
                if (sq.monochrome || fg.chroma_scaling_from_luma || (sq.ss_hor && sq.ss_ver && !fg.num_y_points)) ;
                else { const int any = S(4); for (int p = 0; p < 2; p++) { fg.num_uv_points[p] = any ? (sq.ss_hor && sq.ss_ver) ? 1 + S(10) : S(11) : 0; W(4, fg.num_uv_points[p]);
                    for (int i = 0, x = 0; i < fg.num_uv_points[p]; i++) { x += (i != 0) + S(20); fg.uv_points[p][i][0] = x; fg.uv_points[p][i][1] = vp_u8(); W(8, x); W(8, fg.uv_points[p][i][1]); } } }
                fg.scaling_shift = vp_bits(2) + 8; W(2, fg.scaling_shift - 8); fg.ar_coeff_lag = S(4); W(2, fg.ar_coeff_lag);
                const int np = 2 * fg.ar_coeff_lag * (fg.ar_coeff_lag + 1); int nu = np;
                if (fg.num_y_points) { nu = np + 1; for (int i = 0; i < np; i++) { const int v = vp_u8(); W(8, v); fg.ar_coeffs_y[i] = v - 128; } }
                for (int p = 0; p < 2; p++) if (fg.chroma_scaling_from_luma || fg.num_uv_points[p]) for (int i = 0; i < nu; i++) { const int v = vp_u8(); W(8, v); fg.ar_coeffs_uv[p][i] = v - 128; }
                fg.ar_coeff_shift = vp_bits(2) + 6; W(2, fg.ar_coeff_shift - 6); fg.grain_scale_shift = vp_bits(2); W(2, fg.grain_scale_shift);
                for (int p = 0; p < 2; p++) if (fg.num_uv_points[p]) { const int a = vp_u8(), b = vp_u8(), o = vp_bits(9); W(8, a); W(8, b); W(9, o); fg.uv_mult[p] = a - 128; fg.uv_luma_mult[p] = b - 128; fg.uv_offset[p] = o - 256; }
                fg.overlap_flag = vp_bool(); fg.clip_to_restricted_range = vp_bool(); W(1, fg.overlap_flag); W(1, fg.clip_to_restricted_range);
            }
        }
    }
#endif
    W(1, 1); while (Tn & 7) W(1, 0);
    VP_ASSERT(Tn <= TAPE_MAX, "harness: tape size");
    tape_seal();
    in.data = tape_bytes; in.sz = Tn / 8;
    const ptrdiff_t res = dav1d_parse_obus(&c, &in);
    VP_ASSERT(res == Tn / 8, "a valid frame header is accepted and consumed");
    VP_ASSERT(!sx_bad && sx_r == sx_w, "global motion parameters are coded relative to the previous frame's");
    VP_ASSERT(n_submit == 0, "nothing is decoded before the tile data arrives");
#ifdef CHK_BASE
    EQ(temporal_id, tid); EQ(spatial_id, sid); EQ(show_existing_frame, 0); EQ(frame_type, f_type); EQ(show_frame, f_show); EQ(showable_frame, showable); EQ(error_resilient_mode, f_errres);
    EQ(disable_cdf_update, dcu); EQ(allow_screen_content_tools, sct); EQ(force_integer_mv, fim); EQ(frame_id, fid); EQ(frame_size_override, fso); EQ(frame_offset, oh);
    EQ(primary_ref_frame, prim); EQ(frame_presentation_delay, fpd); EQ(buffer_removal_time_present, brt); for (int i = 0; i < 3; i++) EQ(operating_points[i].buffer_removal_time, brv[i]);
    EQ(refresh_frame_flags, refresh); EQ(width[1], x_w1); EQ(height, x_h); EQ(width[0], x_w0); EQ(super_res.enabled, sr); EQ(super_res.width_scale_denominator, den);
    EQ(render_width, rw); EQ(render_height, rh); EQ(have_render_size, hrs); EQ(allow_intrabc, ibc);
    if (!intra) { EQ(hp, hp); EQ(subpel_filter_mode, filt); EQ(switchable_motion_mode, smm); }
    EQ(use_ref_frame_mvs, urm); EQ(refresh_context, rctx);
    EQ(quant.yac, yac); EQ(quant.ydc_delta, ydc); EQ(quant.udc_delta, udc); EQ(quant.uac_delta, uac); EQ(quant.vdc_delta, vdc); EQ(quant.vac_delta, vac);
    EQ(quant.qm, qm); EQ(quant.qm_y, qy); EQ(quant.qm_u, qu); EQ(quant.qm_v, qv);
    EQ(segmentation.enabled, seg); EQ(segmentation.update_map, um); EQ(segmentation.temporal, tu); EQ(segmentation.update_data, ud);
    if (seg) { EQ(segmentation.seg_data.preskip, sd.preskip); EQ(segmentation.seg_data.last_active_segid, sd.last_active_segid); }
    for (int i = 0; i < 8; i++) {
        EQ(segmentation.seg_data.d[i].delta_q, sd.d[i].delta_q); EQ(segmentation.seg_data.d[i].delta_lf_y_v, sd.d[i].delta_lf_y_v); EQ(segmentation.seg_data.d[i].delta_lf_y_h, sd.d[i].delta_lf_y_h);
        EQ(segmentation.seg_data.d[i].delta_lf_u, sd.d[i].delta_lf_u); EQ(segmentation.seg_data.d[i].delta_lf_v, sd.d[i].delta_lf_v); EQ(segmentation.seg_data.d[i].ref, sd.d[i].ref); EQ(segmentation.seg_data.d[i].skip, sd.d[i].skip); EQ(segmentation.seg_data.d[i].globalmv, sd.d[i].globalmv);
        int q = yac + (seg ? sd.d[i].delta_q : 0); if (q < 0) q = 0; if (q > 255) q = 255;
        EQ(segmentation.qidx[i], q); EQ(segmentation.lossless[i], q == 0 && !ydc && !udc && !uac && !vdc && !vac);
    }
    EQ(all_lossless, alll); EQ(delta.q.present, dq); EQ(delta.q.res_log2, dqr); EQ(delta.lf.present, dl); EQ(delta.lf.res_log2, dlr); EQ(delta.lf.multi, dlm);
    EQ(loopfilter.level_y[0], l0); EQ(loopfilter.level_y[1], l1); EQ(loopfilter.level_u, lu); EQ(loopfilter.level_v, lv); EQ(loopfilter.sharpness, sh);
    if (codelf) { EQ(loopfilter.mode_ref_delta_enabled, mde); EQ(loopfilter.mode_ref_delta_update, mdu); }
    for (int i = 0; i < 8; i++) EQ(loopfilter.mode_ref_deltas.ref_delta[i], rd_[i]); for (int i = 0; i < 2; i++) EQ(loopfilter.mode_ref_deltas.mode_delta[i], md[i]);
    if (codecdef) EQ(cdef.damping, damp); EQ(cdef.n_bits, cb); for (int i = 0; i < (1 << cb); i++) { EQ(cdef.y_strength[i], cy[i]); if (!sq.monochrome) EQ(cdef.uv_strength[i], cuv[i]); }
    EQ(restoration.type[0], lt[0]); EQ(restoration.type[1], lt[1]); EQ(restoration.type[2], lt[2]); if (useslr) { EQ(restoration.unit_size[0], us0); EQ(restoration.unit_size[1], us1); }
    EQ(txfm_mode, alll ? DAV1D_TX_4X4_ONLY : txs ? DAV1D_TX_SWITCHABLE : DAV1D_TX_LARGEST); EQ(switchable_comp_refs, rsel); EQ(warp_motion, wm); EQ(reduced_txtp_set, rtx); EQ(skip_mode_enabled, sme);
#endif
#ifdef CHK_TILES
    EQT(tiling.uniform, uni); EQT(tiling.log2_cols, lc); EQT(tiling.log2_rows, lr_); EQT(tiling.cols, nc); EQT(tiling.rows, nr);
    for (int i = 0; i <= nc; i++) EQT(tiling.col_start_sb[i], cs[i]); for (int i = 0; i <= nr; i++) EQT(tiling.row_start_sb[i], rs[i]);
    EQT(tiling.update, ctxt); EQT(tiling.n_bytes, tsb);
#endif
#ifdef CHK_REFS
    if (hasidx) { EQ(frame_ref_short_signaling, shortsig); for (int i = 0; i < 7; i++) EQ(refidx[i], refidx[i]); }
    EQ(skip_mode_allowed, sma); EQ(skip_mode_enabled, sme); if (sma) { EQ(skip_mode_refs[0], f0); EQ(skip_mode_refs[1], f1); }
#endif
#ifdef CHK_GMV
    for (int i = 0; i < 7; i++) { EQ(gmv[i].type, g[i].type); for (int k = 0; k < 6; k++) EQ(gmv[i].matrix[k], g[i].matrix[k]); }
#endif
#ifdef CHK_FG
    EQG(present, fgp); if (fgp) EQG(update, upd);
    EQG(data.seed, fg.seed); EQG(data.num_y_points, fg.num_y_points); EQG(data.chroma_scaling_from_luma, fg.chroma_scaling_from_luma);
    if (!fgp || upd) {
        for (int i = 0; i < fg.num_y_points; i++) { EQG(data.y_points[i][0], fg.y_points[i][0]); EQG(data.y_points[i][1], fg.y_points[i][1]); }
        for (int p = 0; p < 2; p++) { EQG(data.num_uv_points[p], fg.num_uv_points[p]); for (int i = 0; i < fg.num_uv_points[p]; i++) { EQG(data.uv_points[p][i][0], fg.uv_points[p][i][0]); EQG(data.uv_points[p][i][1], fg.uv_points[p][i][1]); } }
        for (int i = 0; i < 24; i++) EQG(data.ar_coeffs_y[i], fg.ar_coeffs_y[i]); for (int p = 0; p < 2; p++) for (int i = 0; i < 25; i++) EQG(data.ar_coeffs_uv[p][i], fg.ar_coeffs_uv[p][i]);
        for (int p = 0; p < 2; p++) { EQG(data.uv_mult[p], fg.uv_mult[p]); EQG(data.uv_luma_mult[p], fg.uv_luma_mult[p]); EQG(data.uv_offset[p], fg.uv_offset[p]); }
    } else EQG(data.y_points[3][1], fg.y_points[3][1]);
    EQG(data.scaling_shift, fg.scaling_shift); EQG(data.ar_coeff_lag, fg.ar_coeff_lag); EQG(data.ar_coeff_shift, fg.ar_coeff_shift); EQG(data.grain_scale_shift, fg.grain_scale_shift);
    EQG(data.overlap_flag, fg.overlap_flag); EQG(data.clip_to_restricted_range, fg.clip_to_restricted_range);
#endif
}
