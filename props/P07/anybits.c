//@ link: src/obu.c
//@ checks: bounds overflow shift div
//@ unwind: 9
//@ unwindset: parse_frame_hdr.15:66
//@ flags: --max-field-sensitivity-array-size 70
//@ case: still64_10 -DRED=1 -DFT=0 -DSB=0 -DNB=10
//@ case: still128_11 -DRED=1 -DFT=0 -DSB=1 -DNB=11
//@ case: key64 -DRED=0 -DFT=0 -DSB=0 -DNB=8
//@ case: intra64 -DRED=0 -DFT=2 -DSB=0 -DNB=8
//@ case: still64_16 -DRED=1 -DFT=0 -DSB=0 -DNB=16 tier=thorough timeout=1500
//@ case: still128_16 -DRED=1 -DFT=0 -DSB=1 -DNB=16 tier=thorough timeout=1500
//@ case: key128_16 -DRED=0 -DFT=0 -DSB=1 -DNB=16 tier=thorough timeout=1500
//@ case: intra128_16 -DRED=0 -DFT=2 -DSB=1 -DNB=16 tier=thorough timeout=1500
//@ bound: frame sizes up to 2^8..2^11 in each direction quick (2^16 thorough); every answer of the bit reader arbitrary within its width; every sequence option arbitrary within what a valid sequence header can hold; intra frames (inter frames need 8 symbolic references and are covered structure by structure in P03-P06)
//@ assume: bit reader returns a value of the requested width (real bit reader: P01)
#include "config.h"
#define VP_TAPE_H
#include "vp.h"
#include "common/intops.h"
#include "src/getbits.h"
#include "obu_env.h"
int dav1d_submit_frame(Dav1dContext *c) { n_submit++; return 0; }
static uint8_t bytes[64]; static int calls;
void dav1d_init_get_bits(GetBits *g, const uint8_t *d, size_t sz) { g->ptr = g->ptr_start = d; g->ptr_end = d + sz; g->state = 0; g->bits_left = 0; g->error = 0; }
/* packet header: type 3 (frame header), no extension, no length; then (not reduced) show_existing=0 and the frame type */
static const int8_t fixed[8] = { 0, 3, 0, 0, 0, 0, FT, -1 };
static unsigned ans(int n) { const int k = calls++; if (k < (RED ? 5 : 7)) return fixed[k]; return n >= 32 ? vp_u32() : vp_u32() & ((1u << n) - 1); }
unsigned dav1d_get_bit(GetBits *g) { return ans(1); }
unsigned dav1d_get_bits(GetBits *g, int n) { VP_ASSERT(n > 0 && n <= 32, "1 to 32 bits are requested"); return ans(n); }
int dav1d_get_sbits(GetBits *g, int n) { VP_ASSERT(n > 0 && n < 32, "1 to 31 bits are requested"); const int v = vp_i32(); VP_ASSUME(v >= -(1 << (n - 1)) && v < 1 << (n - 1)); return v; }
unsigned dav1d_get_uniform(GetBits *g, unsigned max) { VP_ASSERT(max > 1, "uniform codes need two values"); const unsigned v = vp_u32(); VP_ASSUME(v < max); return v; }
unsigned dav1d_get_uleb128(GetBits *g) { return vp_u32(); }
unsigned dav1d_get_vlc(GetBits *g) { return vp_u32(); }
int dav1d_get_bits_subexp(GetBits *g, int ref, unsigned n) { VP_ASSUME(0); return 0; }
static Dav1dSequenceHeader sq; static Dav1dFrameHeader hh;
void vp_harness(void) {
    sq.reduced_still_picture_header = RED; sq.still_picture = RED ? 1 : vp_bool(); sq.monochrome = vp_bool(); sq.ss_hor = vp_bool(); sq.ss_ver = vp_bool() & sq.ss_hor; sq.separate_uv_delta_q = vp_bool();
    sq.sb128 = SB; sq.width_n_bits = vp_int(1, NB); sq.height_n_bits = vp_int(1, NB); sq.max_width = vp_int(1, 1 << sq.width_n_bits); sq.max_height = vp_int(1, 1 << sq.height_n_bits);
    sq.num_operating_points = 1; sq.super_res = vp_bool(); sq.cdef = vp_bool(); sq.restoration = vp_bool(); sq.film_grain_present = vp_bool();
    sq.screen_content_tools = vp_int(0, 2); sq.force_integer_mv = vp_int(0, 2);
    if (!RED) { sq.order_hint = vp_bool(); sq.order_hint_n_bits = sq.order_hint ? vp_int(1, 8) : 0; sq.frame_id_numbers_present = vp_bool(); sq.delta_frame_id_n_bits = vp_int(2, 17); sq.frame_id_n_bits = vp_int(1, 16);
        sq.decoder_model_info_present = vp_bool(); sq.equal_picture_interval = vp_bool(); sq.frame_presentation_delay_length = vp_int(1, 32); sq.buffer_removal_delay_length = vp_int(1, 32); sq.operating_points[0].decoder_model_param_present = vp_bool(); }
    c.seq_hdr = &sq; c.frame_hdr_ref = mk_ref(&hh); c.n_fc = 1;
    in.data = bytes; in.sz = 64;
    const ptrdiff_t r = dav1d_parse_obus(&c, &in);
    VP_ASSERT(n_submit == 0, "nothing is decoded");
    if (r >= 0) {
        VP_ASSERT(c.frame_hdr == &hh, "the accepted header is pending");
        const int w = hh.width[0], sb = 64 << sq.sb128, sbw = (w + sb - 1) / sb, sbh = (hh.height + sb - 1) / sb;
        VP_ASSERT(hh.width[1] >= 1 && hh.width[1] <= 65536 && hh.height >= 1 && hh.height <= 65536 && w >= 1 && w <= hh.width[1], "frame size is in range");
        VP_ASSERT(hh.tiling.cols >= 1 && hh.tiling.cols <= 64 && hh.tiling.rows >= 1 && hh.tiling.rows <= 64, "1 to 64 tile columns and rows");
        VP_ASSERT(hh.tiling.col_start_sb[0] == 0 && hh.tiling.row_start_sb[0] == 0 && hh.tiling.col_start_sb[hh.tiling.cols] == sbw && hh.tiling.row_start_sb[hh.tiling.rows] == sbh, "tiles cover the frame");
        const int i = vp_int(0, 63);
        if (i < hh.tiling.cols) VP_ASSERT(hh.tiling.col_start_sb[i] < hh.tiling.col_start_sb[i + 1], "tile columns are not empty");
        if (i < hh.tiling.rows) VP_ASSERT(hh.tiling.row_start_sb[i] < hh.tiling.row_start_sb[i + 1], "tile rows are not empty");
        VP_ASSERT(hh.tiling.update < hh.tiling.cols * hh.tiling.rows && hh.tiling.update >= 0, "the context tile exists");
        VP_ASSERT(hh.tiling.n_bytes <= 4, "tile sizes take up to 4 bytes");
        VP_ASSERT(hh.cdef.n_bits <= 3 && hh.cdef.damping >= 0 && hh.cdef.damping <= 6, "CDEF parameters are in range");
        VP_ASSERT(hh.restoration.unit_size[0] <= 8 && hh.restoration.unit_size[1] <= 8, "restoration units are at most 256");
        VP_ASSERT(hh.super_res.width_scale_denominator >= 8 && hh.super_res.width_scale_denominator <= 16, "superres scale is in range");
        if (hh.film_grain.present) VP_ASSERT(hh.film_grain.data.num_y_points <= 14 && hh.film_grain.data.num_uv_points[0] <= 10 && hh.film_grain.data.num_uv_points[1] <= 10, "grain point counts are in range");
        VP_WITNESS("accepted");
    } else VP_WITNESS("refused");
}
