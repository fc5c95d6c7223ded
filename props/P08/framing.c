//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 60
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=448
//@ case: td -DTYPE=2
//@ case: pad -DTYPE=15
//@ case: list -DTYPE=8
//@ case: res{9..14} -DTYPE={}
//@ case: res0 -DTYPE=0
//@ case: meta_scal -DTYPE=5 -DMETA=3
//@ case: meta_time -DTYPE=5 -DMETA=5
//@ case: meta_unk -DTYPE=5 -DMETA=77
//@ case: dropframe -DTYPE=6 -DDROP
//@ case: drophdr -DTYPE=3 -DDROP
//@ case: dropred -DTYPE=7 -DDROP
//@ case: droptile -DTYPE=4 -DDROP
//@ case: dropmeta -DTYPE=5 -DDROP -DMETA=1
//@ case: noseq -DTYPE=3 -DNOSEQ
//@ case: noseqf -DTYPE=6 -DNOSEQ
//@ case: nohdr -DTYPE=4 -DNOSEQ
//@ bound: packets up to 12 bytes; extension present or not, no length or a 1..8 byte LEB128 length (every value up to the packet size plus one, zero padded forms, and values beyond 32 bits), forbidden bit and strictness: enumerated inside each case; layer ids, operating point (concrete pairs where the unit must be dropped), reserved bits and payload arbitrary; packet type concrete per case
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); nothing is decoded
#include "config.h"
#define TAPE_PACK
#include "obu_env.h"
int dav1d_submit_frame(Dav1dContext *c) { n_submit++; return 0; }
static Dav1dSequenceHeader sq; static Dav1dFrameHeader fh;
static int accepted, n_dropped;
static void one(const int ext, const int leb, const uint64_t len, const int extra, const int strict, const int forb) {
    for (int i = 0; i < (int) sizeof(tape_bytes); i++) tape_bytes[i] = 0;
    Tn = 0; n_err_props = 0;
#ifdef DROP /* an operating point that lacks this layer */
    const int tid = S(8), sid = S(4), idc = ((1 + S(4095)) & ~(S(2) ? 1 << tid : 1 << (sid + 8))) ?: 256 >> (sid == 0);
#else
    const int tid = vp_bits(3), sid = vp_bits(2), idc = vp_bits(12);
#endif
    W(1, forb); W(4, TYPE); W(1, ext); W(1, leb > 0); W(1, vp_bool());
    if (ext) { W(3, tid); W(2, sid); W(3, vp_bits(3)); }
    for (int i = 0; i < leb; i++) { W(1, i != leb - 1); W(7, (uint32_t)(len >> (7 * i))); }
    const int hdr = Tn / 8, sz = hdr + extra;
#ifdef META
    if (sz > hdr) W(8, META);
#endif
    while (Tn < sz * 8) W(8, vp_u8());
    tape_seal();
    in.data = tape_bytes; in.sz = sz; in.m.timestamp = vp_u64();
    c.n_fc = 1; c.strict_std_compliance = strict; c.frame_flags = 0; c.frame_hdr = NULL;
    c.operating_point_idc = idc;
    c.max_spatial_id = 3;
    const int dropped = ext && idc && !((idc >> tid) & (idc >> (sid + 8)) & 1);
#ifdef NOSEQ
    c.seq_hdr = NULL; VP_ASSUME(!dropped);
#else
    c.seq_hdr = &sq;
#endif
#ifdef DROP
    if (!dropped) return;
    n_dropped++;
#endif
    const ptrdiff_t r = dav1d_parse_obus(&c, &in);
    VP_ASSERT(r <= sz, "never consumes more than the packet");
    int bad = strict && forb;
    if (leb && len > (uint64_t) extra) bad = 1;
#ifdef META
    if (!dropped && (leb ? len == 0 : sz == hdr)) bad = 1; /* no metadata type */
#endif
#ifdef NOSEQ
    bad = 1;
#endif
    if (bad) { VP_ASSERT(r == DAV1D_ERR(EINVAL), "a malformed packet is refused"); VP_ASSERT(n_err_props == 1 && err_ts == in.m.timestamp, "the error carries the packet's properties"); }
    else { accepted = 1; VP_ASSERT(r == (leb ? hdr + (ptrdiff_t) len : sz), "exactly the packet unit is consumed"); VP_ASSERT(n_err_props == 0, "no error is recorded"); }
    VP_ASSERT(n_submit == 0 && c.n_tile_data == 0 && data_refs == 0, "nothing is decoded");
    VP_ASSERT(c.content_light == NULL && c.mastering_display == NULL && c.n_itut_t35 == 0, "no metadata is attached");
    VP_ASSERT(c.operating_point_idc == (unsigned) idc && c.max_spatial_id == 3, "operating point is unchanged");
    VP_ASSERT(c.frame_flags == (TYPE == 2 && !bad ? PICTURE_FLAG_NEW_TEMPORAL_UNIT : 0), "only a temporal delimiter starts a temporal unit");
#ifndef NOSEQ
    VP_ASSERT(c.seq_hdr == &sq, "the active sequence is kept");
#endif
}
void vp_harness(void) {
#ifdef DROP
    const int e0 = 1;
#else
    const int e0 = 0;
#endif
    one(e0, 0, 0, 0, 0, 0); one(1, 0, 0, 3, 0, 1); one(1, 0, 0, 2, 1, 0); one(e0, 0, 0, 2, 1, 1);
    one(e0, 1, 0, 3, 0, 0); one(1, 1, 1, 3, 0, 0); one(e0, 1, 2, 3, 0, 0); one(1, 1, 3, 3, 0, 0); one(1, 1, 4, 3, 0, 0);
    one(1, 2, 3, 4, 0, 0); one(e0, 2, 128, 4, 1, 0); one(1, 5, 0x100000002ull, 3, 0, 0); one(1, 8, 2, 4, 0, 0); one(e0, 5, 1ull << 31, 4, 0, 0);
#ifdef DROP
    VP_ASSERT(n_dropped > 8, "harness: dropped units were made");
#endif
    VP_WITNESS("end");
}
