//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 70
//@ unwindset: memcmp.0:260
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=512
//@ case: still -DSTILL=1
//@ case: full -DSTILL=0
//@ case: pending{0..5} -DSTILL=0 -DPEND={}
//@ case: badnew -DSTILL=1 -DBAD
//@ bound: two sequence headers in a row of the same layout with arbitrary sizes, level, quality flags and decoder model payload; 8 populated reference slots
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); picture references are tracked by identity
#include "config.h"
#include "obu_env.h"
int dav1d_submit_frame(Dav1dContext *c) { n_submit++; return 0; }
static Dav1dFrameHeader R[8], cur; static Dav1dContentLightLevel cl; static Dav1dMasteringDisplay md; 
typedef struct { unsigned w, h, lvl, filt, buf, idc, fg; } P;
static int W_seq(P *p, int bad) {
    for (int i = 0; i < (int) sizeof(tape_bytes); i++) tape_bytes[i] = 0; Tn = 0;
    p->w = vp_u16(); p->h = vp_u16(); p->lvl = vp_bits(3); p->filt = vp_bool(); p->buf = vp_u16() >> 6; p->idc = vp_bits(2); p->fg = vp_bool();
#ifdef PEND /* concrete difference in one field, with a frame pending */
    static int nth; const int dd = nth++; p->w = 100 + (PEND == 0 && dd); p->h = 50 + (PEND == 1 && dd); p->lvl = 5; p->filt = PEND == 2 && dd; p->idc = PEND == 3 && dd; p->buf = 7 + dd; p->fg = PEND == 5 && dd;
#endif
    W(8, 1 << 3); W(3, bad ? 3 : 0);
    if (STILL) { W(1, 1); W(1, 1); W(5, p->lvl); }
    else {
        W(1, 0); W(1, 0); /* still, reduced */
        W(1, 1); W(32, 1); W(32, 1); W(1, 0); /* timing */ W(1, 1); W(5, 9); W(32, 1); W(5, 3); W(5, 3); /* decoder model */
        W(1, 0); W(5, 0); W(10, 0x101 << 0 | p->idc << 1); W(2, 0); /* 1 op: idc 12 bits */ W(5, p->lvl); W(1, 1); W(10, p->buf); W(10, 5); W(1, 0);
    }
    W(4, 15); W(4, 15); W(16, p->w); W(16, p->h);
    if (!STILL) W(1, 0); /* frame ids */
    W(1, 0); W(1, p->filt); W(1, 0); /* sb128, filter intra, intra edge */
    if (!STILL) W(7, 0);
    W(1, 0); W(1, 0); W(1, 0); /* superres cdef restoration */
    W(1, 0); W(1, 1); W(1, 0); W(1, 0); /* 8 bit, mono, no color desc, range */
    W(1, p->fg); W(1, 1); while (Tn & 7) W(1, 0);
    tape_seal(); in.data = tape_bytes; in.sz = Tn / 8; return Tn / 8;
}
#ifndef VP_REPLAY /* equality only (both headers live in seq_store) */
int memcmp(const void *a, const void *b, size_t n) {
    int d = 0;
    if (n == sizeof(((Dav1dSequenceHeader *) 0)->operating_parameter_info)) {
        const struct Dav1dSequenceHeaderOperatingParameterInfo *x = a, *y = b;
        for (int i = 0; i < DAV1D_MAX_OPERATING_POINTS; i++) d |= x[i].decoder_buffer_delay != y[i].decoder_buffer_delay || x[i].encoder_buffer_delay != y[i].encoder_buffer_delay || x[i].low_delay_mode != y[i].low_delay_mode;
        return d;
    }
    const Dav1dSequenceHeader *x = a, *y = b;
    VP_ASSERT((x == &seq_store[0] || x == &seq_store[1]) && (y == &seq_store[0] || y == &seq_store[1]) && n <= sizeof(Dav1dSequenceHeader), "harness: only sequence headers are compared");
#define D(f) if (offsetof(Dav1dSequenceHeader, f) + sizeof(x->f) <= n) d |= x->f != y->f;
    D(profile) D(max_width) D(max_height) D(layout) D(pri) D(trc) D(mtrx) D(chr) D(hbd) D(color_range) D(num_operating_points) D(still_picture) D(reduced_still_picture_header) D(timing_info_present) D(num_units_in_tick) D(time_scale) D(equal_picture_interval) D(num_ticks_per_picture) D(decoder_model_info_present) D(encoder_decoder_buffer_delay_length) D(num_units_in_decoding_tick) D(buffer_removal_delay_length) D(frame_presentation_delay_length) D(display_model_info_present) D(width_n_bits) D(height_n_bits) D(frame_id_numbers_present) D(delta_frame_id_n_bits) D(frame_id_n_bits) D(sb128) D(filter_intra) D(intra_edge_filter) D(inter_intra) D(masked_compound) D(warped_motion) D(dual_filter) D(order_hint) D(jnt_comp) D(ref_frame_mvs) D(screen_content_tools) D(force_integer_mv) D(order_hint_n_bits) D(super_res) D(cdef) D(restoration) D(ss_hor) D(ss_ver) D(monochrome) D(color_description_present) D(separate_uv_delta_q) D(film_grain_present)
    for (int i = 0; i < DAV1D_MAX_OPERATING_POINTS; i++) { D(operating_points[i].major_level) D(operating_points[i].minor_level) D(operating_points[i].initial_display_delay) D(operating_points[i].idc) D(operating_points[i].tier) D(operating_points[i].decoder_model_param_present) D(operating_points[i].display_model_param_present) }
    for (int i = 0; i < DAV1D_MAX_OPERATING_POINTS; i++) { D(operating_parameter_info[i].decoder_buffer_delay) D(operating_parameter_info[i].encoder_buffer_delay) D(operating_parameter_info[i].low_delay_mode) }
    return d;
}
#endif
void vp_harness(void) {
    c.n_fc = 1; P a, b;
    int sz = W_seq(&a, 0); ptrdiff_t r = dav1d_parse_obus(&c, &in);
    VP_ASSERT(r == sz && c.seq_hdr == &seq_store[0] && c.seq_hdr_ref == &ref_pool[0] && n_refs == 1 && n_store == 1 && c.frame_flags == PICTURE_FLAG_NEW_SEQUENCE, "the first sequence header starts a sequence");
    Dav1dRef *const ra = c.seq_hdr_ref; Dav1dSequenceHeader *const sa = c.seq_hdr;
    VP_ASSERT(c.seq_hdr->max_width == (int) a.w + 1 && ra->ref_cnt == 1, "harness: the header was understood");
    c.frame_flags = 0; c.seq_hdr = &seq_store[0]; c.seq_hdr_ref = &ref_pool[0]; n_refs = n_store = 1; /* concrete from here on */
    static Dav1dRef segs[8], mvs[8];
    for (int i = 0; i < 8; i++) { c.refs[i].p.p.frame_hdr = &R[i]; segs[i].ref_cnt = mvs[i].ref_cnt = 1; c.refs[i].segmap = &segs[i]; c.refs[i].refmvs = &mvs[i]; c.cdf[i].data.cdf = (CdfContext *) &R[i]; }
    Dav1dRef *rc = mk_ref(&cl), *rm = mk_ref(&md); c.content_light = &cl; c.content_light_ref = rc; c.mastering_display = &md; c.mastering_display_ref = rm; 
#if defined(PEND) || defined(BAD)
    c.frame_hdr = &cur; cur.tiling.cols = cur.tiling.rows = 1;
#endif

#ifdef BAD
    sz = W_seq(&b, 1); r = dav1d_parse_obus(&c, &in);
    VP_ASSERT(r == DAV1D_ERR(EINVAL) && c.seq_hdr == sa && c.seq_hdr_ref == ra && ra->ref_cnt == 1 && c.frame_flags == 0, "an invalid sequence header leaves the active one in force");
    for (int i = 0; i < 8; i++) VP_ASSERT(c.refs[i].p.p.frame_hdr == &R[i], "and the references in place");
#else
    sz = W_seq(&b, 0); r = dav1d_parse_obus(&c, &in);
    VP_ASSERT(r == sz && c.seq_hdr->max_width == (int) b.w + 1 && c.seq_hdr != sa, "the new header is in force");
    VP_ASSERT(ra->ref_cnt == 0 && c.seq_hdr_ref->ref_cnt == 1 && c.seq_hdr_ref->data == c.seq_hdr, "and the old one released");
    const int diff = a.w != b.w || a.h != b.h || a.lvl != b.lvl || a.filt != b.filt || a.fg != b.fg || (!STILL && a.idc != b.idc);
    const int opdiff = !STILL && a.buf != b.buf;
    VP_ASSERT(c.frame_flags == (diff ? PICTURE_FLAG_NEW_SEQUENCE : opdiff ? PICTURE_FLAG_NEW_OP_PARAMS_INFO : 0), "a change of sequence or of operating parameters is flagged");
    if (diff) {
        for (int i = 0; i < 8; i++) { VP_ASSERT(!c.refs[i].p.p.frame_hdr && !c.refs[i].segmap && !c.refs[i].refmvs && !c.cdf[i].data.cdf, "a new sequence keeps no reference state"); VP_ASSERT(segs[i].ref_cnt == 0 && mvs[i].ref_cnt == 0, "and releases it"); }
        VP_ASSERT(!c.content_light && !c.mastering_display && rc->ref_cnt == 0 && rm->ref_cnt == 0, "nor metadata"); VP_ASSERT(!c.frame_hdr, "nor a pending frame");
#ifndef PEND
        VP_WITNESS("new sequence");
#endif
    } else {
        for (int i = 0; i < 8; i++) VP_ASSERT(c.refs[i].p.p.frame_hdr == &R[i] && segs[i].ref_cnt == 1 && c.cdf[i].data.cdf, "a repeated header keeps all references");
        VP_ASSERT(c.content_light == &cl && c.mastering_display == &md && rc->ref_cnt == 1, "and metadata");
#ifndef PEND
        VP_WITNESS("same sequence");
#else
        VP_ASSERT(c.frame_hdr == &cur, "and a pending frame");
#endif
    }
#endif
    VP_WITNESS("end");
}
