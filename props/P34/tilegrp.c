//@ link: src/obu.c
//@ checks: bounds pointer overflow
//@ unwind: 20
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=448
//@ case: n1 -DNC=1 -DNR=1 -DLC=0 -DLR=0 -DPRE={0}
//@ case: n2 -DNC=2 -DNR=1 -DLC=1 -DLR=0 -DPRE={0}
//@ case: n3 -DNC=3 -DNR=1 -DLC=2 -DLR=0 -DPRE={0}
//@ case: n6 -DNC=3 -DNR=2 -DLC=2 -DLR=1 -DPRE={0}
//@ case: n4one -DNC=2 -DNR=2 -DLC=1 -DLR=1 -DNOPOS -DPRE={0}
//@ case: n2_0 -DNC=2 -DNR=1 -DLC=1 -DLR=0 -DPRE={1}
//@ case: n3_0 -DNC=3 -DNR=1 -DLC=2 -DLR=0 -DPRE={1}
//@ case: n3_1 -DNC=1 -DNR=3 -DLC=0 -DLR=2 -DPRE={2}
//@ case: n3_00 -DNC=3 -DNR=1 -DLC=2 -DLR=0 -DPRE={1,1}
//@ case: n4_1 -DNC=2 -DNR=2 -DLC=1 -DLR=1 -DPRE={2}
//@ case: n4_01 -DNC=2 -DNR=2 -DLC=1 -DLR=1 -DPRE={1,1}
//@ case: n6_13 -DNC=3 -DNR=2 -DLC=2 -DLR=1 -DPRE={2,2}
//@ case: n4_bad -DNC=2 -DNR=2 -DLC=1 -DLR=1 -DPRE={1,9}
//@ case: n4_badfirst -DNC=2 -DNR=2 -DLC=1 -DLR=1 -DPRE={9}
//@ bound: frames of 1, 2, 3, 4 or 6 tiles; 0 to 2 earlier tile group packets (concrete, valid or out of order) followed by one with arbitrary first and last tile (or none given); packet payload arbitrary, 1 or 2 bytes of data each; arbitrary frame type, refresh flags and frame-type filter
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); decoding itself is recorded, not run
#include "config.h"
#include "obu_env.h"
static Dav1dSequenceHeader sq; static Dav1dFrameHeader fh; static struct Dav1dTileGroup tg[4];
static int x_n, x_s[4], x_e[4]; static const uint8_t *x_d[4]; static size_t x_z[4]; static int x_tiles;
int dav1d_submit_frame(Dav1dContext *c) {
    n_submit++;
    VP_ASSERT(x_tiles == NC * NR, "a frame is decoded only once all its tiles have arrived");
    VP_ASSERT(c->frame_hdr == &fh && c->n_tile_data == x_n, "with exactly the tile groups received");
    for (int i = 0; i < 4; i++) if (i < x_n) {
        VP_ASSERT(tg[i].start == x_s[i] && tg[i].end == x_e[i], "tile group covers its coded tiles");
        VP_ASSERT(tg[i].data.data == x_d[i] && tg[i].data.sz == x_z[i], "tile group data is the packet's payload");
        tg[i].data.data = NULL; data_refs--;
    }
    c->n_tile_data = 0; return 0;
}
static uint8_t buf[4][16];
#ifndef VP_REPLAY
void *realloc(void *p, size_t n) { VP_ASSERT(p == tg && n <= sizeof(tg), "the tile table only grows as needed"); return tg; }
#endif
void vp_harness(void) {
    Dav1dRef *fr = mk_ref(&fh), *sr = mk_ref(&sq);
    c.n_fc = 1; c.seq_hdr = &sq; c.seq_hdr_ref = sr; c.frame_hdr = &fh; c.frame_hdr_ref = fr; c.tile = tg; c.n_tile_data_alloc = 4;
    fh.tiling.cols = NC; fh.tiling.rows = NR; fh.tiling.log2_cols = LC; fh.tiling.log2_rows = LR;
    fh.frame_type = vp_bits(2); fh.refresh_frame_flags = vp_u8(); 
    c.decode_frame_type = vp_int(0, 3);
    const int inter = fh.frame_type == DAV1D_FRAME_TYPE_INTER || fh.frame_type == DAV1D_FRAME_TYPE_SWITCH, io = fh.frame_type == DAV1D_FRAME_TYPE_INTRA, rf = fh.refresh_frame_flags;
    int skip = 0;
    if (c.decode_frame_type == DAV1D_DECODEFRAMETYPE_REFERENCE) skip = !rf && (inter || io);
    else if (c.decode_frame_type == DAV1D_DECODEFRAMETYPE_INTRA) skip = inter;
    else if (c.decode_frame_type == DAV1D_DECODEFRAMETYPE_KEY) skip = inter || io;
    int done = 0, skipped = 0, submitted = 0;
    static const int pre[3] = PRE; int np = 0; while (pre[np]) np++;
    for (int g = 0; g <= np; g++) {
        /* each packet has a buffer and a tape of its own */
        for (int i = 0; i < (int) sizeof(tape_bytes); i++) tape_bytes[i] = 0;
        Tn = 0; W(8, 4 << 3);
        int s = 0, e = NC * NR - 1;
#ifdef NOPOS
        if (NC * NR > 1) W(1, 0);
#else
        if (NC * NR > 1) { W(1, 1); if (g < np) { s = pre[g] == 9 ? x_tiles + 1 : x_tiles; e = pre[g] == 9 ? s : s + pre[g] - 1; } else { s = vp_bits(LC + LR); e = vp_bits(LC + LR); } W(LC + LR, s); W(LC + LR, e); }
#endif
        while (Tn & 7) W(1, vp_bool());
        const int hdr = Tn / 8, sz = hdr + 1 + (g & 1);
        for (int i = hdr; i < sz; i++) W(8, vp_u8());
        tape_seal();
#ifdef VP_REPLAY
        memcpy(buf[g], tape_bytes, 16);
#endif
        in.data = buf[g]; in.sz = sz; in.m.timestamp = g;
        const int had = c.frame_hdr != NULL, nd = n_submit;
        const int ok = had && s <= e && s == x_tiles;
        if (ok) { x_s[x_n] = s; x_e[x_n] = e; x_d[x_n] = buf[g] + hdr; x_z[x_n] = sz - hdr; x_n++; x_tiles += e - s + 1; }
        else if (had) { x_n = 0; x_tiles = 0; }
        const ptrdiff_t r = dav1d_parse_obus(&c, &in);
        if (!ok) {
            VP_ASSERT(r == DAV1D_ERR(EINVAL), "an out-of-order tile group, or one without a frame, is refused");
            if (had) VP_ASSERT(data_refs == 0 && c.n_tile_data == 0 && c.n_tiles == 0, "and the tiles received so far are dropped");
        } else VP_ASSERT(r == sz, "the packet is consumed");
        if (ok && x_tiles == NC * NR) {
            done = 1;
            VP_ASSERT(c.frame_hdr == NULL, "the frame is over");
            if (skip) { skipped = 1; VP_ASSERT(n_submit == nd, "a frame outside the requested types is not decoded"); }
            else { submitted = 1; VP_ASSERT(n_submit == nd + 1, "a complete frame is decoded exactly once"); VP_ASSERT(data_refs == 0, "its data is handed over"); }
            VP_ASSERT(c.n_tiles == 0, "no tile is left over");
            x_n = x_tiles = 0;
        } else VP_ASSERT(n_submit == nd, "an incomplete frame is not decoded");
        if (g < np) { /* concrete outcome: pin it */
            VP_ASSERT(c.frame_hdr == &fh && c.n_tiles == x_tiles && c.n_tile_data == x_n, "the frame goes on"); c.frame_hdr = &fh; c.n_tiles = x_tiles; c.n_tile_data = x_n; c.tile = tg; c.n_tile_data_alloc = 4; }
        if (ok && !done) VP_ASSERT(c.n_tile_data == x_n && data_refs == x_n, "each group keeps one reference to its packet");
    }
    if (skipped) {
        for (int i = 0; i < 8; i++) VP_ASSERT((c.refs[i].p.p.frame_hdr == &fh) == ((rf >> i) & 1), "a skipped frame still updates the reference headers it refreshes");
        VP_ASSERT(c.frame_hdr_ref == NULL && fr->ref_cnt == __builtin_popcount(rf), "with one header reference per slot");
    } else for (int i = 0; i < 8; i++) VP_ASSERT(!c.refs[i].p.p.frame_hdr, "reference slots are untouched");
    VP_WITNESS("end");
    if (submitted) VP_WITNESS("a frame was submitted");
    if (skipped) VP_WITNESS("a frame was skipped");
}
