//@ link: src/obu.c
//@ checks: bounds pointer
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=256
//@ case: i{0..7} -DIDX={}
//@ bound: every shown slot 0..7 (one per case); slot contents (present, decodable, frame type, showable), frame-type filter, pending metadata and timestamps arbitrary; single frame thread
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); picture references are tracked by identity
#include "config.h"
#include "obu_env.h"
int dav1d_submit_frame(Dav1dContext *c) { n_submit++; return 0; }
static Dav1dSequenceHeader sq; static Dav1dFrameHeader R[8]; static char px[8]; static Dav1dContentLightLevel cl; static Dav1dMasteringDisplay md; static Dav1dITUTT35 t35;
static char cdfd[8];
void vp_harness(void) {
    c.n_fc = 1; c.seq_hdr = &sq; Dav1dRef *sr = mk_ref(&sq); c.seq_hdr_ref = sr; sq.num_operating_points = 1;
    static Dav1dFrameHeader cur; c.frame_hdr_ref = mk_ref(&cur);
    Dav1dRef *seg[8]; static Dav1dRef segs[8], mvs[8]; int has[8], pix[8];
    for (int i = 0; i < 8; i++) {
        has[i] = vp_bool(); pix[i] = vp_bool();
        if (has[i]) { c.refs[i].p.p.frame_hdr = &R[i]; R[i].frame_type = vp_bits(2); if (pix[i]) c.refs[i].p.p.data[0] = &px[i]; c.refs[i].p.showable = vp_bool(); c.refs[i].p.flags = i == IDX; }
        segs[i].ref_cnt = 1; mvs[i].ref_cnt = 1; seg[i] = vp_bool() ? &segs[i] : NULL; c.refs[i].segmap = seg[i]; c.refs[i].refmvs = &mvs[i];
        c.cdf[i].data.cdf = (CdfContext *) &cdfd[i];
    }
    c.decode_frame_type = vp_int(0, 3); c.strict_std_compliance = vp_bool();
    c.content_light = vp_bool() ? &cl : NULL; c.mastering_display = vp_bool() ? &md : NULL; c.itut_t35 = &t35; c.n_itut_t35 = 1; Dav1dRef *tr = mk_ref(&t35); c.itut_t35_ref = tr;
    const int showable = c.refs[IDX].p.showable;
    W(8, 3 << 3); W(1, 1); W(3, IDX); W(1, 1); W(3, 0);
    tape_seal(); in.data = tape_bytes; in.sz = 2; in.m.timestamp = vp_u64();
    const ptrdiff_t r = dav1d_parse_obus(&c, &in);
    const int ft = R[IDX].frame_type, inter = ft == DAV1D_FRAME_TYPE_INTER || ft == DAV1D_FRAME_TYPE_SWITCH;
    const int skip = has[IDX] && ((inter && c.decode_frame_type > DAV1D_DECODEFRAMETYPE_REFERENCE) || (ft == DAV1D_FRAME_TYPE_INTRA && c.decode_frame_type > DAV1D_DECODEFRAMETYPE_INTRA));
    VP_ASSERT(n_submit == 0, "showing a decoded frame decodes nothing");
    if (!has[IDX] || (!skip && !pix[IDX]) || (!skip && c.strict_std_compliance && !showable)) {
        VP_ASSERT(r == DAV1D_ERR(EINVAL) && !c.out.p.data[0] && !c.event_flags, "an empty or unshowable slot cannot be shown");
    } else {
        VP_ASSERT(r == 2, "the header is consumed"); VP_ASSERT(!c.frame_hdr, "no frame is left pending");
        if (skip) VP_ASSERT(!c.out.p.data[0] && c.itut_t35_ref == tr, "a frame outside the requested types is not shown");
        else {
            VP_ASSERT(c.out.p.data[0] == &px[IDX] && c.out.p.frame_hdr == &R[IDX], "the shown picture is the slot's");
            VP_ASSERT(n_props == 1 && pp_p == &c.out.p && pp_cl == c.content_light && pp_md == c.mastering_display && pp_t35 == &t35 && pp_n == 1 && pp_ts == in.m.timestamp, "with the current metadata and packet properties");
            VP_ASSERT(!c.itut_t35 && !c.n_itut_t35 && !c.itut_t35_ref && tr->ref_cnt == 0, "T.35 messages are attached once");
            VP_ASSERT(c.event_flags & DAV1D_EVENT_FLAG_NEW_SEQUENCE, "pending sequence events are reported");
        }
        if (!skip && ft == DAV1D_FRAME_TYPE_KEY) {
            VP_ASSERT(!c.refs[IDX].p.showable, "a key frame is shown this way only once");
            for (int i = 0; i < 8; i++) {
                VP_ASSERT(c.refs[i].p.p.frame_hdr == &R[IDX] && c.refs[i].p.p.data[0] == &px[IDX], "a shown key frame refreshes every slot");
                VP_ASSERT(c.cdf[i].data.cdf == (CdfContext *) &cdfd[IDX], "including its probabilities");
                VP_ASSERT(c.refs[i].segmap == seg[IDX], "its segmentation map");
                if (i != IDX) { VP_ASSERT(segs[i].ref_cnt == (seg[i] ? 0 : 1), "old segmentation maps are released"); VP_ASSERT(!c.refs[i].refmvs && mvs[i].ref_cnt == 0, "and old motion fields dropped"); }
            }
            if (seg[IDX]) VP_ASSERT(segs[IDX].ref_cnt == 8, "one reference per slot");
            VP_WITNESS("key");
        } else {
            for (int i = 0; i < 8; i++) { VP_ASSERT(c.refs[i].p.p.frame_hdr == (has[i] ? &R[i] : NULL) && c.cdf[i].data.cdf == (CdfContext *) &cdfd[i], "other slots are untouched"); VP_ASSERT(segs[i].ref_cnt == 1 && mvs[i].ref_cnt == 1 && c.refs[i].segmap == seg[i], "and so are their maps"); }
            if (!skip) VP_WITNESS("shown");
        }
    }
}
