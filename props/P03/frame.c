//@ link: src/obu.c
//@ checks: bounds
//@ unwind: 70
//@ flags: --max-field-sensitivity-array-size 64
//@ defs: -DTAPE_MAX=1800
//@ case: s{0..63} -DSHAPE={}
//@ case: t{64..255} -DSHAPE={} tier=thorough
//@ bound: 64 concrete choices of sequence options, frame type and which optional syntax elements are present, with concrete frame sizes up to 4100x4100; every other coded value is arbitrary
//@ assume: bit reading answered from the written bits (real bit reader: P01; replays use it); reference counting, logging and frame submission are inert stand-ins
#include "config.h"
#define CHK_BASE
#include "frame_ref.h"
void vp_harness(void) { lcg = SHAPE * 2654435761u + 7; S(2); frame_setup(); frame_obu(); }
