//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 40
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=1200
//@ case: short{0..7} -DSHAPE={} -DB_SHORT=1 -DB_COMPREF=0
//@ case: skip{8..15} -DSHAPE={} -DB_SHORT=0 -DB_COMPREF=1
//@ case: both{16..19} -DSHAPE={} -DB_SHORT=1 -DB_COMPREF=1 tier=thorough timeout=1500
//@ bound: order hints of the current frame and of all eight reference slots arbitrary (2 to 8 bit hints); sequence options, coded slot numbers and the remaining header structure concrete per case
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); reference counting, logging and frame submission are inert stand-ins
#include "config.h"
#define CHK_REFS
#define SYM_HINTS
static int S(int);
#define B_REDUCED 0
#define B_TYPE 1
#define B_W 352
#define B_H 288
#define B_SEG 0
#define B_FG 0
#define B_LFD 0
#include "frame_ref.h"
void vp_harness(void) {
    lcg = SHAPE * 2654435761u + 5; S(2); frame_setup();
    sq.order_hint = 1; sq.order_hint_n_bits = 8 - (SHAPE % 7); sq.decoder_model_info_present = 0; sq.frame_id_numbers_present = 0;
    frame_obu();
}
