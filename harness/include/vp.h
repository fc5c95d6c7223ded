/* Harness support.  One source, two builds:
 *  - symbolic (goto-cc/CBMC): every vp_*() input is a solver variable; its
 *    value is also assigned to vp_log, so a counterexample trace yields the
 *    exact input sequence;
 *  - replay (-DVP_REPLAY, gcc + ASan/UBSan): vp_*() reads that sequence back
 *    and runs the same harness against the real code, natively. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

#ifdef VP_REPLAY
#include <stdio.h>
uint64_t vp_next(void);
void vp_fail(const char *msg);
void vp_unreached(void);
#define VP_ASSUME(c) do { if (!(c)) { fprintf(stderr, "VP_ASSUME not met: %s\n", #c); _Exit(77); } } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail(msg); } while (0)
#define VP_WITNESS(msg) ((void)0)
static inline uint64_t vp_raw(void) { return vp_next(); }
#else
extern uint64_t vp_log;
uint64_t nondet_vp(void);
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert(c, "VP: " msg)
#define VP_WITNESS(msg) __CPROVER_assert(0, "VP_WITNESS " msg)
#ifdef VP_PIN /* restricted query: inputs fixed to one pseudo-random sequence (see run.py, pinned) */
static uint64_t vp_lcg = VP_PIN * 0x9e3779b97f4a7c15ULL;
static inline uint64_t vp_pin(void) { vp_lcg = vp_lcg * 6364136223846793005ULL + 1442695040888963407ULL; return vp_lcg >> 24 ^ vp_lcg << 40; }
static inline uint64_t vp_raw(void) { uint64_t v = vp_pin(); vp_log = v; return v; }
#else
static inline uint64_t vp_raw(void) { uint64_t v = nondet_vp(); vp_log = v; return v; }
#endif
#endif

static inline uint8_t  vp_u8 (void) { return (uint8_t)  vp_raw(); }
static inline int8_t   vp_i8 (void) { return (int8_t)   vp_raw(); }
static inline uint16_t vp_u16(void) { return (uint16_t) vp_raw(); }
static inline int16_t  vp_i16(void) { return (int16_t)  vp_raw(); }
static inline uint32_t vp_u32(void) { return (uint32_t) vp_raw(); }
static inline int32_t  vp_i32(void) { return (int32_t)  vp_raw(); }
static inline uint64_t vp_u64(void) { return            vp_raw(); }
static inline int vp_bool(void) { return (int)(vp_raw() & 1); }
/* inclusive range */
static inline int64_t vp_range(int64_t lo, int64_t hi) {
#if defined(VP_PIN) && !defined(VP_REPLAY)
    const uint64_t sp = (uint64_t) hi - (uint64_t) lo + 1;
    const int64_t pv = lo + (int64_t) (sp ? (vp_pin() >> 8) % sp : vp_pin());
    vp_log = (uint64_t) pv; return pv;
#endif
    int64_t v = (int64_t) vp_raw();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline int vp_int(int lo, int hi) {
#if defined(VP_PIN) && !defined(VP_REPLAY)
    const int pw = (int) (lo + (int64_t) ((vp_pin() >> 8) % ((uint64_t) ((int64_t) hi - lo) + 1)));
    vp_log = (uint64_t) pw; return pw;
#endif
    int v = (int) vp_raw();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline unsigned vp_bits(int n) { return (unsigned)(vp_raw() & ((1ULL << n) - 1)); }
static inline void vp_bytes(void *p, size_t n) {
    uint8_t *b = (uint8_t *) p;
    for (size_t i = 0; i < n; i++) b[i] = vp_u8();
}
void vp_harness(void);
#endif
