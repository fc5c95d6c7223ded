//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=1800
//@ case: s{0..47} -DSHAPE={}
//@ case: t{48..255} -DSHAPE={} tier=thorough
//@ bound: per case one concrete frame size from 1x1 to 65536x65536, superblock size, superres denominator and tile split choice (48 quick, 256 thorough); the context tile, tile size byte count and all non-tiling payload arbitrary
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); reference counting, logging and frame submission are inert stand-ins
#include "config.h"
#define CHK_TILES
static int S(int);
static const int vdims[16] = { 16384, 7000, 63, 64, 65, 1920, 1080, 3840, 4096, 4097, 2304, 8192, 65536, 512, 1, 31000 };
#define B_W vdims[S(16)]
#define B_H vdims[S(16)]
#define B_TYPE (S(3) ? 0 : 2)
#define B_SEG 0
#define B_FG 0
#define B_LFD 0
#include "frame_ref.h"
void vp_harness(void) { lcg = SHAPE * 2654435761u + 11; S(2); frame_setup(); sq.width_n_bits = sq.height_n_bits = 16; frame_obu(); }
