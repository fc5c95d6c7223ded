//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 40
//@ flags: --max-field-sensitivity-array-size 64
//@ case: profile -DBAD=1
//@ case: reduced -DBAD=2
//@ case: idc -DBAD=3
//@ case: ticks -DBAD=4
//@ case: trunc{0..9} -DBAD=5 -DCUT={}
//@ case: length -DBAD=6
//@ case: srgb0 -DBAD=7 -DPROF=0
//@ case: srgb2 -DBAD=7 -DPROF=2
//@ case: noseq -DBAD=8
//@ case: args -DBAD=9 -DNDEBUG
//@ case: good -DBAD=0
//@ bound: one invalid element per case, every other coded value arbitrary; truncation at every byte of a 10-byte header
#include "config.h"
#include "tape.h"
#include "src/internal.h"
#include "src/obu.h"
#include "dav1d/dav1d.h"
void dav1d_log(Dav1dContext *c, const char *f, ...) { (void)c; (void)f; }
static Dav1dSequenceHeader h;
void vp_harness(void) {
    const int haslen = 1;
    W(1, 0); W(4, BAD == 8 ? 15 : 1); W(1, 0); W(1, haslen); W(1, 0); int lenpos = Tn; W(8, 0);
    const int start = Tn;
#if BAD == 7
    const int profile = PROF;
#else
    const int profile = 0;
#endif
    const int reduced = BAD == 2 || BAD == 5 || BAD == 6;
    if (BAD == 1) { W(3, vp_int(3, 7)); } else W(3, profile);
    W(1, BAD != 2); W(1, reduced);
    if (reduced) W(5, vp_bits(5));
    else {
        W(1, BAD == 4);
        if (BAD == 4) { W(32, vp_u32()); W(32, vp_u32()); W(1, 1); W(32, 0); W(1, 0); }
        W(1, 0); W(5, 0);
        int idc = 0;
        if (BAD == 3) { idc = vp_bits(12); VP_ASSUME(idc && (!(idc & 0xff) || !(idc & 0xf00))); }
        W(12, idc); W(3, 0); W(2, 0);
    }
    W(4, 7); W(4, 7); W(8, vp_bits(8)); W(8, vp_bits(8));
    if (!reduced) W(1, 0);
    W(3, vp_bits(3));
    if (!reduced) { W(4, vp_bits(4)); W(1, 0); W(1, 1); W(1, 1); }
    W(3, vp_bits(3));
    W(1, 0);
    if (profile == 2 && 0) W(1, 0);
    if (profile != 1) W(1, 0);
    const int cdp = BAD == 7; W(1, cdp);
    if (cdp) { W(8, 1); W(8, 13); W(8, 0); } else W(1, 0);
    if (profile == 0) W(2, 0);
    W(1, 0); W(1, vp_bool());
    W(1, 1); while (Tn & 7) W(1, 0);
    int len = (Tn - start) / 8;
    for (int k = 0; k < 8; k++) TB(lenpos + k) = ((len + (BAD == 6)) >> (7 - k)) & 1;
    size_t sz = Tn / 8;
#if BAD == 5
    if (sz <= 1 + CUT) return;
    sz -= 1 + CUT;
    if (sz > 1) for (int k = 0; k < 8; k++) TB(lenpos + k) = ((sz - 2) >> (7 - k)) & 1;
#endif
    tape_seal();
    const int res = BAD == 9 ? 0 : dav1d_parse_sequence_header(&h, tape_bytes, sz);
    if (BAD == 0) VP_ASSERT(res == 0, "the uncorrupted header is accepted");
    else if (BAD == 8) VP_ASSERT(res == DAV1D_ERR(ENOENT), "no sequence header in the data is reported as such");
    else if (BAD == 9) {
        VP_ASSERT(dav1d_parse_sequence_header(NULL, tape_bytes, 4) == DAV1D_ERR(EINVAL), "null output is rejected");
        VP_ASSERT(dav1d_parse_sequence_header(&h, NULL, 4) == DAV1D_ERR(EINVAL), "null data is rejected");
        VP_ASSERT(dav1d_parse_sequence_header(&h, tape_bytes, 0) == DAV1D_ERR(EINVAL), "empty data is rejected");
    }
    else VP_ASSERT(res == DAV1D_ERR(EINVAL), "an invalid sequence header is rejected");
}
