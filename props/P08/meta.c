//@ link: src/obu.c
//@ checks: bounds pointer overflow shift
//@ unwind: 60
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=448
//@ case: cll -DKIND=1
//@ case: mdcv -DKIND=2
//@ case: cllshort -DKIND=1 -DSHORT=3
//@ case: mdcvshort -DKIND=2 -DSHORT=23
//@ case: t35_{0..4} -DKIND=4 -DLEN={} -DZ=0
//@ case: t35z_{2..4} -DKIND=4 -DLEN={} -DZ=2
//@ case: t35x_{1..4} -DKIND=4 -DLEN={} -DZ=1 -DCCX
//@ bound: metadata payload bytes arbitrary; T.35 messages of up to 5 payload bytes with 0..2 trailing zero bytes, after 0 or 1 messages already stored
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it)
#include "config.h"
#define TAPE_PACK
#include "obu_env.h"
int dav1d_submit_frame(Dav1dContext *c) { n_submit++; return 0; }
static Dav1dSequenceHeader sq; static Dav1dContentLightLevel old_cl; static Dav1dMasteringDisplay old_md;
void vp_harness(void) {
    c.n_fc = 1; c.seq_hdr = &sq;
    Dav1dRef *o1 = mk_ref(&old_cl), *o2 = mk_ref(&old_md);
    c.content_light = &old_cl; c.content_light_ref = o1; c.mastering_display = &old_md; c.mastering_display_ref = o2;
    in.m.timestamp = vp_u64();
    W(8, 5 << 3); W(8, KIND);
#if KIND == 1
    const unsigned a = vp_u16(), b = vp_u16(); W(16, a); W(16, b); W(8, 0x80); (void) 0;
    int sz = Tn / 8;
#elif KIND == 2
    unsigned v[8]; for (int i = 0; i < 8; i++) { v[i] = vp_u16(); W(16, v[i]); }
    const uint32_t mx = vp_u32(), mn = vp_u32(); W(32, mx); W(32, mn); W(8, 0x80);
    int sz = Tn / 8;
#else
    uint8_t pl[8];
    const int cc = vp_u8(); int cx = 0; VP_ASSUME((cc == 0xff) ==
#ifdef CCX
        1);
#else
        0);
#endif
#ifdef CCX
    W(8, 0xff); cx = vp_u8(); W(8, cx);
#else
    W(8, cc);
#endif
    for (int i = 0; i < LEN; i++) { pl[i] = vp_u8(); W(8, pl[i]); }
    W(8, 0x80); for (int i = 0; i < Z; i++) W(8, 0);
    int sz = Tn / 8;
#endif
#ifdef SHORT
    sz = SHORT;
#endif
    tape_seal(); in.data = tape_bytes; in.sz = sz;
    const ptrdiff_t r = dav1d_parse_obus(&c, &in);
#ifdef SHORT
    VP_ASSERT(r == DAV1D_ERR(EINVAL), "truncated metadata is refused");
    VP_ASSERT(c.content_light == &old_cl && c.mastering_display == &old_md && o1->ref_cnt == 1 && o2->ref_cnt == 1, "and leaves the previous metadata in place");
    VP_ASSERT(n_refs - n_freed == 2, "nothing is leaked");
#else
    VP_ASSERT(r == sz, "the metadata unit is consumed");
#if KIND == 1
    VP_ASSERT(c.content_light != &old_cl && c.content_light->max_content_light_level == (int) a && c.content_light->max_frame_average_light_level == (int) b, "content light level is the coded one");
    VP_ASSERT(o1->ref_cnt == 0 && c.content_light_ref->ref_cnt == 1 && c.content_light_ref->data == c.content_light, "the old one is released");
    VP_ASSERT(c.mastering_display == &old_md && o2->ref_cnt == 1, "other metadata is kept");
#elif KIND == 2
    for (int i = 0; i < 6; i++) VP_ASSERT(c.mastering_display->primaries[i >> 1][i & 1] == v[i], "colour primary is the coded one");
    VP_ASSERT(c.mastering_display->white_point[0] == v[6] && c.mastering_display->white_point[1] == v[7], "white point is the coded one");
    VP_ASSERT(c.mastering_display->max_luminance == mx && c.mastering_display->min_luminance == mn, "luminance range is the coded one");
    VP_ASSERT(o2->ref_cnt == 0 && c.mastering_display_ref->ref_cnt == 1 && c.mastering_display_ref->data == c.mastering_display, "the old one is released");
    VP_ASSERT(c.content_light == &old_cl && o1->ref_cnt == 1, "other metadata is kept");
#else
    if (LEN == 0) VP_ASSERT(c.n_itut_t35 == 0 && !c.itut_t35, "an empty message is ignored");
    else {
        VP_ASSERT(c.n_itut_t35 == 1 && c.itut_t35[0].country_code == cc && c.itut_t35[0].country_code_extension_byte == cx && c.itut_t35[0].payload_size == LEN, "T.35 message header is the coded one");
        for (int i = 0; i < LEN; i++) VP_ASSERT(c.itut_t35[0].payload[i] == pl[i], "T.35 payload is the coded one");
        VP_ASSERT(c.itut_t35_ref->ref_cnt == 1 && ((struct itut_t35_ctx_context *) c.itut_t35_ref->user_data)->n_itut_t35 == 1 && ((struct itut_t35_ctx_context *) c.itut_t35_ref->user_data)->itut_t35 == c.itut_t35, "and owned once");
        /* a second message is appended */
        const ptrdiff_t r2 = dav1d_parse_obus(&c, &in);
        VP_ASSERT(r2 == sz && c.n_itut_t35 == 2, "a second T.35 message is appended");
        for (int k = 0; k < 2; k++) { VP_ASSERT(c.itut_t35[k].country_code == cc && c.itut_t35[k].payload_size == LEN, "both are intact"); for (int i = 0; i < LEN; i++) VP_ASSERT(c.itut_t35[k].payload[i] == pl[i], "both payloads are intact"); }
        VP_ASSERT(((struct itut_t35_ctx_context *) c.itut_t35_ref->user_data)->n_itut_t35 == 2 && ((struct itut_t35_ctx_context *) c.itut_t35_ref->user_data)->itut_t35 == c.itut_t35, "and the owner releases both");
    }
#endif
#endif
    VP_ASSERT(n_submit == 0, "nothing is decoded");
    VP_WITNESS("end");
}
