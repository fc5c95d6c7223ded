//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=1800
//@ case: g{0..47} -DSHAPE={}
//@ bound: point counts, point positions, autoregression lag and presence flags concrete (48 cases); scaling values, coefficients, multipliers, seed and flags arbitrary
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); reference counting, logging and frame submission are inert stand-ins
#include "config.h"
#define CHK_FG
static int S(int);
#define B_W 352
#define B_H 288
#define B_SEG 0
#define B_LFD 0
#define B_GMV 0
#define B_FG 1
#define B_SHOWN 1
#define B_FGUPD S(4)
#include "frame_ref.h"
void vp_harness(void) { lcg = SHAPE * 2654435761u + 13; S(2); frame_setup(); frame_obu(); }
