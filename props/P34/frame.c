//@ link: src/obu.c
//@ checks: bounds pointer overflow
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=448
//@ case: obu_frame -DK=0
//@ case: hdr_grp -DK=1
//@ case: redundant -DK=2
//@ case: limit -DK=3
//@ case: rehdr -DK=4
//@ case: realloc -DK=5
//@ bound: one-tile still frames of 64x64 (arbitrary size limit; 1x1 to 65536x65536 arbitrary for the limit case); payload and header values arbitrary
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); decoding itself is recorded, not run
#include "config.h"
#include "obu_env.h"
static Dav1dSequenceHeader sq; static const uint8_t *x_d; static size_t x_z; static int x_q;
int dav1d_submit_frame(Dav1dContext *c) {
    n_submit++;
    VP_ASSERT(c->n_tile_data == 1 && c->tile[0].start == 0 && c->tile[0].end == 0 && c->n_tiles == 1, "the only tile is there");
    VP_ASSERT(c->tile[0].data.data == x_d && c->tile[0].data.sz == x_z, "with exactly the payload bytes after the aligned header");
    VP_ASSERT(c->frame_hdr->quant.yac == x_q, "under its own header");
    c->tile[0].data.data = NULL; data_refs--; c->n_tile_data = 0; return 0;
}
static int W_hdr(void) { /* reduced still picture, monochrome, single tile */
    const int q = vp_u8();
    W(1, vp_bool()); /* disable_cdf_update */
    W(1, 0); /* no render size */
    W(1, 1); /* uniform tiles, one superblock */
    W(8, q | 1); x_q = q | 1; W(1, 0); W(1, 0); W(1, 0); W(1, 0); /* quant, qm, seg, delta_q */
    W(6, vp_bits(6)); W(6, vp_bits(6)); W(3, vp_bits(3)); W(1, 0); /* loop filter */
    W(1, vp_bool()); W(1, vp_bool()); /* tx mode, reduced tx set */
    return q | 1;
}
static Dav1dFrameHeader hh;
#define PIN (c.frame_hdr = &hh)
static uint8_t other[32]; static uint8_t buf[3][32]; static int nb;
static ptrdiff_t send(int sz) {
    tape_seal();
#ifdef VP_REPLAY
    memcpy(buf[nb], tape_bytes, 32);
#endif
    in.data = buf[nb]; in.sz = sz; nb++;
    return dav1d_parse_obus(&c, &in);
}
static void begin(int type) { for (int i = 0; i < (int) sizeof(tape_bytes); i++) tape_bytes[i] = 0; Tn = 0; W(8, type << 3); }
static int align(void) { while (Tn & 7) W(1, vp_bool()); return Tn / 8; }
static int trail(void) { W(1, 1); while (Tn & 7) W(1, 0); return Tn / 8; }
static int payload(int n) { for (int i = 0; i < n; i++) W(8, vp_u8()); return Tn / 8; }
static void x_data(int hdr, int sz) { x_d = buf[nb] + hdr; x_z = sz - hdr; }
void vp_harness(void) {
    sq.reduced_still_picture_header = 1; sq.still_picture = 1; sq.monochrome = 1; sq.ss_hor = sq.ss_ver = 1; sq.max_width = sq.max_height = 64; sq.num_operating_points = 1;
    c.n_fc = 1; c.seq_hdr = &sq; c.seq_hdr_ref = mk_ref(&sq);
    c.frame_hdr_ref = mk_ref(&hh); static struct Dav1dTileGroup tg[2]; c.tile = tg; c.n_tile_data_alloc = 2;
    int h, sz; ptrdiff_t r;
#if K == 0
    begin(6); W_hdr(); h = align(); sz = payload(3); x_data(h, sz); r = send(sz);
    VP_ASSERT(r == sz && n_submit == 1 && !c.frame_hdr && !c.n_tiles && data_refs == 0, "a frame packet is decoded at once");
#elif K == 1 || K == 5
#if K == 5
    c.tile = NULL; c.n_tile_data_alloc = 0;
#endif
    begin(3); W_hdr(); sz = trail(); r = send(sz);
    VP_ASSERT(r == sz && n_submit == 0 && c.frame_hdr == &hh, "a frame header waits for its tiles"); PIN;
    begin(4); sz = payload(2); x_data(1, Tn / 8); r = send(Tn / 8);
    VP_ASSERT(r == sz && n_submit == 1 && !c.frame_hdr && data_refs == 0, "and is decoded when they arrive");
    (void) h;
#elif K == 2
    begin(3); const int q1 = W_hdr(); sz = trail(); r = send(sz);
    VP_ASSERT(r == sz && n_submit == 0 && c.frame_hdr == &hh, "a frame header waits for its tiles"); PIN;
    begin(7); W_hdr(); sz = trail(); r = send(sz);
    VP_ASSERT(r == sz && c.frame_hdr && c.frame_hdr->quant.yac == q1, "a redundant header does not replace the pending one"); PIN; x_q = q1;
    begin(4); payload(1); x_data(1, Tn / 8); r = send(Tn / 8);
    VP_ASSERT(n_submit == 1 && !c.frame_hdr, "which is then decoded"); (void) h;
#elif K == 3
    const int lim = vp_u32();
    c.frame_size_limit = lim;
    begin(6); W_hdr(); h = align(); sz = payload(1); x_data(h, sz); r = send(sz);
    const int over = c.frame_size_limit && 64 * 64 > c.frame_size_limit;
    if (over) { VP_ASSERT(r == DAV1D_ERR(ERANGE) && n_submit == 0 && !c.frame_hdr && data_refs == 0, "a frame above the size limit is refused"); }
    else VP_ASSERT(r == sz && n_submit == 1, "a frame within the size limit is decoded");
#elif K == 4
    /* tiles of an unfinished frame are dropped when a new frame header arrives */
    tg[0].data.data = other; tg[0].start = 0; tg[0].end = 0; data_refs = 1; c.n_tile_data = 1; c.n_tiles = vp_int(1, 3);
    begin(6); W_hdr(); h = align(); sz = payload(2); x_data(h, sz); r = send(sz);
    VP_ASSERT(r == sz && n_submit == 1 && data_refs == 0, "a new frame starts with no stale tiles");
#endif
    VP_WITNESS("end");
}
