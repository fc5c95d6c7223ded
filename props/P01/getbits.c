//@ link: src/getbits.c
//@ checks: bounds pointer overflow shift
//@ unwind: 6
//@ unwindset: vp_harness.0:14,vp_harness.1:14,vp_harness.2:34,dav1d_get_vlc.0:34,dav1d_get_uleb128.0:10,m_ns.0:33,get_bits_subexp_u.0:20,m_subexp.0:20
//@ bound: buffer of 1..12 arbitrary bytes ending at the end of its object; one arbitrary-width read of 0..32 bits before (vlc, subexp: 0..8 bits), one bit after the read under test
//@ case: bits -DOP=0
//@ case: sbits -DOP=1
//@ case: bit -DOP=2
//@ case: uniform -DOP=3
//@ case: vlc{0..7} -DOP=4 -DK1={}
//@ case: uleb -DOP=5
//@ case: subexp10_{0..7} -DOP=6 -DK1={} -DNN=10
//@ case: subexp12_{0..7} -DOP=6 -DK1={} -DNN=12
//@ case: subexp15_{0..7} -DOP=6 -DK1={} -DNN=15
//@ case: align -DOP=7
#include "config.h"
#include "vp.h"
#include <limits.h>
#include "src/getbits.h"
#define N 12
/* oracle: an infinite bit string, MSB first; bits past the end are 'missing' */
typedef unsigned __int128 u128;
static uint8_t arr[N]; static uint8_t *buf; static unsigned sz, pos; static int over; static u128 big;
static unsigned m_bits(int n) {
    u128 v = n ? (big << pos) >> (128 - n) : 0;
    pos += n;
    if (pos > sz * 8) over = 1, v = 0, pos = sz * 8;
    return (unsigned) v;
}
static unsigned m_bit(void) { return m_bits(1); }
static unsigned m_ns(unsigned n) { /* AV1 4.10.7 */
    int w = 0; unsigned x = n; while (x) { x >>= 1; w++; }
    unsigned m = (1u << w) - n, v = m_bits(w - 1);
    if (v < m) return v;
    return (v << 1) - m + m_bit();
}
static unsigned m_invrec(unsigned r, unsigned v) { return v > 2*r ? v : (v & 1) ? r - ((v+1)>>1) : r + (v>>1); }
static int m_subexp(int ref, int n) { /* AV1 decode_signed_subexp_with_ref(-2^n, 2^n+1, ref), k=3 */
    const int low = -(1 << n), mx = (2 << n) + 1; const unsigned r = ref - low;
    unsigned mk = 0; int i = 0, k = 3; unsigned sub;
    for (;;) {
        int b2 = i ? k + i - 1 : k; unsigned a = 1u << b2;
        if ((unsigned)mx <= mk + 3 * a) { sub = m_ns(mx - mk) + mk; break; }
        if (m_bit()) { i++; mk += a; } else { sub = m_bits(b2) + mk; break; }
    }
    unsigned x = (r << 1) <= (unsigned)mx ? m_invrec(r, sub) : mx - 1 - m_invrec(mx - 1 - r, sub);
    return (int) x + low;
}
void vp_harness(void) {
    sz = vp_int(1, N);
    buf = arr + (N - sz); /* ends exactly at the end of its object */
    for (unsigned i = 0; i < N; i++) arr[i] = vp_u8();
    for (unsigned i = 0; i < N; i++) big = big << 8 | arr[i];
    big <<= 128 - 8 * N; big <<= 8 * (N - sz);
    GetBits gb;
    dav1d_init_get_bits(&gb, buf, sz);
    
#ifdef K1
    const int k1 = K1;
#else
    const int k1 = vp_int(0, 32);
#endif

    if (k1) { unsigned a = dav1d_get_bits(&gb, k1), b = m_bits(k1); VP_ASSERT(over || a == b, "first read returns the bits in order"); VP_ASSERT(!gb.error == !over, "error iff past the end (1)"); }
    VP_ASSUME(!over);
    unsigned a = 0, b = 0;
#if OP == 0
    const int n = vp_int(1, 32); a = dav1d_get_bits(&gb, n); b = m_bits(n);
    VP_ASSERT(n == 32 || a < (1u << n), "n-bit value fits n bits even past the end");
#elif OP == 1
    const int n = vp_int(1, 32); int sa = dav1d_get_sbits(&gb, n); unsigned u = m_bits(n);
    int sb = n == 32 ? (int) u : (u >> (n-1)) & 1 ? (int)(u | (0xffffffffu << n)) : (int)u; a = sa; b = sb;
#elif OP == 2
    a = dav1d_get_bit(&gb); b = m_bit();
    VP_ASSERT(a <= 1, "bit is 0 or 1");
#elif OP == 3
    const unsigned mx = vp_int(2, 0x10001); a = dav1d_get_uniform(&gb, mx); b = m_ns(mx);
    VP_ASSERT(a < mx, "uniform value below its maximum even past the end");
#elif OP == 4
    { int z = 0; while (z < 32 && !m_bit()) z++;
      a = dav1d_get_vlc(&gb);
      if (z >= 32) b = 0xFFFFFFFFu; else b = (z ? m_bits(z) : 0) + (unsigned)((1ULL << z) - 1); }
#elif OP == 5
    { /* leb128: at most 8 bytes, value must fit 32 bits */
      uint64_t v = 0; int i, more = 1; for (i = 0; i < 8 && more; i++) { unsigned x = m_bits(8); v |= (uint64_t)(x & 127) << (7*i); more = x >> 7; }
      int bad = more || v > UINT_MAX;
      a = dav1d_get_uleb128(&gb); b = (unsigned) v;
      if (!over) VP_ASSERT(!gb.error == !bad, "leb128 over 8 bytes or over 32 bits is an error, anything else is not");
      VP_ASSUME(!bad); }
#elif OP == 6

    const int nn = NN;
    const int ref = vp_int(-(1 << nn), 1 << nn);
    a = dav1d_get_bits_subexp(&gb, ref, nn); b = m_subexp(ref, nn);
    VP_ASSERT((int)a >= -(1 << nn) && (int)a <= (1 << nn), "subexp value stays in its range even past the end");
#elif OP == 7
    dav1d_bytealign_get_bits(&gb); pos = (pos + 7) & ~7u; if (pos > sz * 8) over = 1;
#endif
    VP_ASSERT(over || a == b, "decoded value is the one the syntax defines");
    VP_ASSERT(!over || gb.error, "reading past the end sets the error flag");
    VP_ASSERT(over || !gb.error, "no error while inside the buffer");
    if (!over) {
        VP_ASSERT(dav1d_get_bits_pos(&gb) == pos, "exactly the coded bits are consumed");
        if (pos < sz * 8) { unsigned c = dav1d_get_bit(&gb), d = m_bit(); VP_ASSERT(c == d, "next bit follows"); }
    }
    VP_ASSERT(gb.ptr <= gb.ptr_end && gb.ptr_end == buf + sz, "read pointer stays inside the buffer");
}
