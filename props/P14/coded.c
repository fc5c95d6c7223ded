//@ checks: bounds overflow shift
//@ unwind: 18
//@ bound: any sequence of decoded bits; uniform maxima 2..4096; subexp with the filter shapes of the syntax (n = 8<<k, k in 1..4) and any reference
//@ case: uniform -DOP=0
//@ case: subexp1 -DOP=1 -DK=1
//@ case: subexp2 -DOP=1 -DK=2
//@ case: subexp3 -DOP=1 -DK=3
//@ case: subexp4 -DOP=1 -DK=4
//@ case: hitok -DOP=2
//@ assume: equiprobable bits are solver variables (their decoding is the msac cases)
#include "config.h"
#include "vp.h"
struct MsacContext; static uint32_t tape; static int used;
static unsigned vp_equi(struct MsacContext *s) { (void)s; return tape >> (31 - used++) & 1; }
#define dav1d_msac_decode_bool_equi vp_equi
static unsigned tok[5]; static int ntok; static uint16_t *tokcdf; static size_t tokn; static int tokbad;
static unsigned vp_sym4(struct MsacContext *s, uint16_t *cdf, size_t n) { (void)s; tokbad |= cdf != tokcdf || n != 3; return tok[ntok++]; }
#define dav1d_msac_decode_symbol_adapt4 vp_sym4
#include "src/msac.c"
static unsigned mp; static unsigned L(int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v * 2 + (tape >> (31 - mp++) & 1); return v; }
static int invrec(int r, int v) { return v > 2*r ? v : (v & 1) ? r - ((v+1)>>1) : r + (v>>1); }
static MsacContext s;
void vp_harness(void) {
    tape = vp_u32();
#if OP == 0
    const unsigned n = vp_int(2, 4096);
    const int a = dav1d_msac_decode_uniform(&s, n);
    int w = 0; for (unsigned x = n; x; x >>= 1) w++;
    const int m = (1 << w) - n; int v = L(w - 1); if (v >= m) v = (v << 1) - m + L(1);
    VP_ASSERT(a == v && a >= 0 && (unsigned)a < n, "non-symmetric value NS(n)"); VP_ASSERT(used == (int)mp, "bits consumed");
#elif OP == 2
    uint16_t cdf[4]; tokcdf = cdf;
    for (int i = 0; i < 4; i++) tok[i] = vp_int(0, 3);
    const unsigned a = dav1d_msac_decode_hi_tok_c(&s, cdf);
    unsigned b = 3; int k = 0; for (; k < 4; k++) { b += tok[k]; if (tok[k] < 3) { k++; break; } }
    VP_ASSERT(a == b && ntok == k && !tokbad, "base-range token: up to four 4-ary symbols, stopping at the first below 3");
#else
    const int n = 8 << K, ref = vp_int(0, n - 1);
    const int a = dav1d_msac_decode_subexp(&s, ref, n, K);
    /* decode_subexp_bool(numSyms, k), decode_subexp_unsigned_with_ref_bool */
    int i = 0, mk = 0, v; for (;;) {
        int b2 = i ? K + i - 1 : K, aa = 1 << b2;
        if (n <= mk + 3 * aa) { const int nn = n - mk; int w = 0; for (int x = nn; x; x >>= 1) w++; const int m = (1 << w) - nn; v = L(w - 1); if (v >= m) v = (v << 1) - m + L(1);
            v += mk; break; }
        if (L(1)) { i++; mk += aa; } else { v = L(b2) + mk; break; }
    }
    const int x = (ref << 1) <= n ? invrec(ref, v) : n - 1 - invrec(n - 1 - ref, v);
    VP_ASSERT(a == x, "restoration coefficient is the standard's subexponential code"); VP_ASSERT(used == (int)mp, "bits consumed");
    VP_ASSERT(a >= 0 && a < n, "value stays in the filter's range");
#endif
}
