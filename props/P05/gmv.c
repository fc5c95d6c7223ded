//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=1800
//@ case: g{0..31} -DSHAPE={}
//@ bound: coded global motion parameters, and those of the previous frame they are coded against, arbitrary within the range where the coding is defined; model type choice and remaining header structure concrete (32 cases)
//@ assume: the signed sub-exponential code itself is decided in P01; here the parser must request it with the standard's reference and width
#include "config.h"
#define CHK_REFS
#define CHK_GMV
static int S(int);
#define B_REDUCED 0
#define B_TYPE (S(4) ? 1 : 3)
#define B_W 352
#define B_H 288
#define B_SEG 0
#define B_FG 0
#define B_LFD 0
#define B_GMV (S(3) != 0)
#include "frame_ref.h"
void vp_harness(void) { lcg = SHAPE * 2654435761u + 3; S(2); frame_setup(); frame_obu(); }
