//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 40
//@ flags: --max-field-sensitivity-array-size 64
//@ case: s{0..47} -DSHAPE={}
//@ bound: 48 concrete choices of which optional syntax elements are present (operating points up to 4, clock length codes up to 20 zeros); every coded value is arbitrary
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it)
#include "config.h"
#include "tape.h"
#include "src/internal.h"
#include "src/obu.h"
#include "dav1d/dav1d.h"
int dav1d_no_log; 
void dav1d_log(Dav1dContext *c, const char *f, ...) { (void)c; (void)f; }
#define EQ(f, v) VP_ASSERT(h.f == (v), "sequence header field " #f " is the coded one")
static Dav1dSequenceHeader h;
void vp_harness(void) {
    lcg = SHAPE * 2654435761u + 99;
    S(2);
    const int profile = S(3), reduced = S(5) == 0, still = reduced ? 1 : S(2);
    const int ext = S(2), haslen = S(2);
    W(1, 0); W(4, 1); W(1, ext); W(1, haslen); W(1, 0); if (ext) W(8, vp_u8());
    int lenpos = Tn; if (haslen) W(8, 0);
    const int start = Tn;
    W(3, profile); W(1, still); W(1, reduced);
    int nop = 1, timing = 0, dmi = 0, dmp[4] = {0}, ddp[4] = {0}, disp = 0, idc[4] = {0}, tierp[4] = {0}, equal = 0, edl = 0, brl = 0, fpl = 0;
    unsigned v_maj[4], v_min[4], v_tier[4] = {0}, v_dbd[4] = {0}, v_ebd[4] = {0}, v_ldm[4] = {0}, v_idd[4], nticks = 0, tscale = 0, ntpp = 0, nudt = 0;
    if (reduced) { v_maj[0] = vp_bits(3); v_min[0] = vp_bits(2); v_idd[0] = 10; W(3, v_maj[0]); W(2, v_min[0]); }
    else {
        timing = S(2); W(1, timing);
        if (timing) {
            nticks = vp_u32(); tscale = vp_u32(); W(32, nticks); W(32, tscale);
            equal = S(2); W(1, equal);
            if (equal) { const int z = S(4) == 3 ? 20 : S(6); const unsigned pl = vp_bits(z); W(z, 0); W(1, 1); W(z, pl); ntpp = pl + (1u << z) - 1 + 1; }
            dmi = S(2); W(1, dmi);
            if (dmi) { edl = 1 + S(32); brl = 1 + S(32); fpl = 1 + S(32); nudt = vp_u32(); W(5, edl - 1); W(32, nudt); W(5, brl - 1); W(5, fpl - 1); }
        }
        disp = S(2); W(1, disp); nop = 1 + S(4); W(5, nop - 1);
        for (int i = 0; i < nop; i++) {
            idc[i] = S(2) ? ((1 + S(15)) << 8 | (1 + S(255))) : 0; W(12, idc[i]);
            tierp[i] = S(2);
            /* seq_level_idx > 7 <=> tier coded */
            v_maj[i] = tierp[i] ? 4 + S(6) : 2 + S(2); v_min[i] = vp_bits(2); W(3, v_maj[i] - 2);
            W(2, v_min[i]);
            if (tierp[i]) { v_tier[i] = vp_bool(); W(1, v_tier[i]); }
            if (dmi) { dmp[i] = S(2); W(1, dmp[i]);
                if (dmp[i]) { v_dbd[i] = vp_u32() & (0xffffffffu >> (32 - edl)); v_ebd[i] = vp_u32() & (0xffffffffu >> (32 - edl)); v_ldm[i] = vp_bool(); W(edl, v_dbd[i]); W(edl, v_ebd[i]); W(1, v_ldm[i]); } }
            v_idd[i] = 10;
            if (disp) { ddp[i] = S(2); W(1, ddp[i]); if (ddp[i]) { v_idd[i] = 1 + vp_bits(4); W(4, v_idd[i] - 1); } }
        }
    }
    const int wn = 1 + S(16), hn = 1 + S(16); const unsigned mw = vp_bits(wn), mh = vp_bits(hn);
    W(4, wn - 1); W(4, hn - 1); W(wn, mw); W(hn, mh);
    int fid = 0, dfl = 0, afl = 0;
    if (!reduced) { fid = S(2); W(1, fid); if (fid) { dfl = vp_bits(4); afl = vp_bits(3); W(4, dfl); W(3, afl); dfl += 2; afl += dfl + 1; } }
    const int sb128 = vp_bool(), fi = vp_bool(), ief = vp_bool(); W(1, sb128); W(1, fi); W(1, ief);
    int ii = 0, mc = 0, wm = 0, df = 0, oh = 0, jc = 0, rmv = 0, sct = 2, fim = 2, ohn = 0;
    if (!reduced) {
        ii = vp_bool(); mc = vp_bool(); wm = vp_bool(); df = vp_bool(); oh = S(2); W(1, ii); W(1, mc); W(1, wm); W(1, df); W(1, oh);
        if (oh) { jc = vp_bool(); rmv = vp_bool(); W(1, jc); W(1, rmv); }
        const int choose = S(2); W(1, choose); if (!choose) { sct = S(2); W(1, sct); }
        if (sct > 0) { const int cf = S(2); W(1, cf); if (!cf) { fim = vp_bool(); W(1, fim); } }
        if (oh) { ohn = 1 + vp_bits(3); W(3, ohn - 1); }
    }
    const int sr = vp_bool(), cd = vp_bool(), lr = vp_bool(); W(1, sr); W(1, cd); W(1, lr);
    /* color_config */
    int hb = S(2), twelve = 0, mono = 0, cdp, pri = 2, trc = 2, mtx = 2, range = 0, ssx = 0, ssy = 0, chr = 0, sepuv = 0;
    W(1, hb); if (profile == 2 && hb) { twelve = S(2); W(1, twelve); }
    if (profile != 1) { mono = S(3) == 0; W(1, mono); }
    cdp = S(2); W(1, cdp);
    const int can444 = profile == 1 || (profile == 2 && twelve), srgb = cdp && can444 && !mono && S(2);
    if (cdp) { if (srgb) { pri = 1; trc = 13; mtx = 0; } else { pri = vp_u8(); trc = vp_u8(); mtx = S(256); if (mtx == 0) mtx = 1; } W(8, pri); W(8, trc); W(8, mtx); }
    if (mono) { range = vp_bool(); W(1, range); ssx = ssy = 1; }
    else if (srgb) { range = 1; }
    else {
        range = vp_bool(); W(1, range);
        if (profile == 0) ssx = ssy = 1;
        else if (profile == 2) { if (twelve) { ssx = S(2); W(1, ssx); if (ssx) { ssy = S(2); W(1, ssy); } } else ssx = 1; }
        if (ssx && ssy) { chr = vp_bits(2); W(2, chr); }
    }
    if (!mono) { sepuv = vp_bool(); W(1, sepuv); }
    const int fg = vp_bool(); W(1, fg);
    W(1, 1);
    while (Tn & 7) W(1, 0);
    if (haslen) { const int len = (Tn - start) / 8; for (int k = 0; k < 8; k++) TB(lenpos + k) = (len >> (7 - k)) & 1; }
    /* possibly preceded/followed by another OBU (padding) */
    if (haslen && S(2)) { W(8, 15 << 3 | 2); W(8, 3); W(24, vp_bits(24)); }
    tape_seal();
    h.profile = 0xa5; h.max_width = -1; h.num_ticks_per_picture = 77; h.layout = 3; h.ss_hor = h.ss_ver = 1; h.operating_points[0].tier = 1;
    const int res = dav1d_parse_sequence_header(&h, tape_bytes, Tn / 8);
    VP_ASSERT(res == 0, "a valid sequence header is accepted");
    EQ(profile, profile); EQ(still_picture, still); EQ(reduced_still_picture_header, reduced);
    EQ(timing_info_present, timing); EQ(num_units_in_tick, nticks); EQ(time_scale, tscale); EQ(equal_picture_interval, equal); EQ(num_ticks_per_picture, ntpp);
    EQ(decoder_model_info_present, dmi); EQ(encoder_decoder_buffer_delay_length, edl); EQ(num_units_in_decoding_tick, nudt);
    EQ(buffer_removal_delay_length, brl); EQ(frame_presentation_delay_length, fpl); EQ(display_model_info_present, disp); EQ(num_operating_points, nop);
    for (int i = 0; i < nop; i++) {
        EQ(operating_points[i].idc, idc[i]); EQ(operating_points[i].minor_level, v_min[i]);
        EQ(operating_points[i].major_level, v_maj[i]);
        EQ(operating_points[i].tier, v_tier[i]); EQ(operating_points[i].decoder_model_param_present, dmp[i]); EQ(operating_points[i].display_model_param_present, ddp[i]);
        EQ(operating_points[i].initial_display_delay, v_idd[i]);
        EQ(operating_parameter_info[i].decoder_buffer_delay, v_dbd[i]); EQ(operating_parameter_info[i].encoder_buffer_delay, v_ebd[i]); EQ(operating_parameter_info[i].low_delay_mode, v_ldm[i]);
    }
    EQ(width_n_bits, wn); EQ(height_n_bits, hn); EQ(max_width, (int) mw + 1); EQ(max_height, (int) mh + 1);
    EQ(frame_id_numbers_present, fid); EQ(delta_frame_id_n_bits, dfl); EQ(frame_id_n_bits, afl);
    EQ(sb128, sb128); EQ(filter_intra, fi); EQ(intra_edge_filter, ief); EQ(inter_intra, ii); EQ(masked_compound, mc); EQ(warped_motion, wm); EQ(dual_filter, df);
    EQ(order_hint, oh); EQ(jnt_comp, jc); EQ(ref_frame_mvs, rmv); EQ(screen_content_tools, sct); EQ(force_integer_mv, fim); EQ(order_hint_n_bits, ohn);
    EQ(super_res, sr); EQ(cdef, cd); EQ(restoration, lr); EQ(hbd, hb + twelve); EQ(monochrome, mono); EQ(color_description_present, cdp);
    EQ(pri, pri); EQ(trc, trc); EQ(mtrx, mtx); EQ(color_range, range); EQ(ss_hor, ssx); EQ(ss_ver, ssy); EQ(chr, chr); EQ(separate_uv_delta_q, sepuv); EQ(film_grain_present, fg);
    EQ(layout, mono ? DAV1D_PIXEL_LAYOUT_I400 : ssx ? ssy ? DAV1D_PIXEL_LAYOUT_I420 : DAV1D_PIXEL_LAYOUT_I422 : DAV1D_PIXEL_LAYOUT_I444);
}
