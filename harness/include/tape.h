/* Bitstream writer + bit source for the header properties.
 * The reference writer emits the AV1 syntax bit by bit (W) at concrete
 * positions; payload bits may be solver variables.  Symbolic build: the real
 * parser's dav1d_get_* calls are answered from that tape (the real bit reader
 * is decided separately, property P01).  Replay build: the tape is packed into
 * bytes and parsed by the real bit reader. */
#ifndef VP_TAPE_H
#define VP_TAPE_H
#include "vp.h"
#include "common/intops.h"
#include "src/getbits.h"
#ifndef TAPE_MAX
#define TAPE_MAX 1200
#endif
static uint8_t T2[TAPE_MAX / 64 + 1][64]; static int Tn;
#define TB(i) T2[(i) >> 6][(i) & 63]
static uint8_t tape_bytes[TAPE_MAX / 8 + 1];
#define W(n, v) do { const uint32_t w_v = (uint32_t)(v); for (int w_k = (n) - 1; w_k >= 0; w_k--) { TB(Tn) = (w_v >> w_k) & 1; Tn++; } } while (0)
/* signed subexp tokens (gm params): value, reference, bits */
static int sx_ref[64], sx_n[64], sx_val[64], sx_w, sx_r, sx_bad;
static void W_ns(unsigned n, unsigned v) { /* NS(n) */
    int w = 0; for (unsigned x = n; x; x >>= 1) w++;
    const unsigned m = (1u << w) - n;
    if (v < m) W(w - 1, v); else { const unsigned x = v + m; W(w - 1, x >> 1); W(1, x & 1); }
}
#ifdef VP_REPLAY
#include "src/getbits.c"
static void W_subexp(int val, int ref, int n) {
    const int mx = 2 << n, off = 1 << n; const int r = ref + off, x = val + off; int v;
    /* invert inv_recenter */
    const int lim = mx + 1; int rr = r, xx = x; if (!((r << 1) <= lim)) { rr = lim - 1 - r; xx = lim - 1 - x; }
    v = xx > 2 * rr ? xx : xx >= rr ? (xx - rr) << 1 : ((rr - xx) << 1) - 1;
    int i = 0, mk = 0;
    for (;;) { const int b = i ? 3 + i - 1 : 3, a = 1 << b;
        if (lim <= mk + 3 * a) { W_ns(lim - mk, v - mk); break; }
        const int more = v >= mk + a; W(1, more);
        if (!more) { W(b, v - mk); break; } i++; mk += a; }
}
static void tape_seal(void) { for (int i = 0; i < Tn; i++) tape_bytes[i >> 3] |= TB(i) << (7 - (i & 7)); }
#else
static void W_subexp(int val, int ref, int n) { sx_ref[sx_w] = ref; sx_n[sx_w] = n; sx_val[sx_w++] = val; }
#ifdef TAPE_PACK /* only where the parser reads payload bytes directly */
static void tape_seal(void) { for (int i = 0; i < Tn; i++) tape_bytes[i >> 3] |= TB(i) << (7 - (i & 7)); }
#else
static void tape_seal(void) { }
#endif
static int Tp;
static void tp_sync(GetBits *c) { c->ptr = c->ptr_start + ((Tp + 7) >> 3); c->bits_left = -Tp & 7; c->state = 0; }
void dav1d_init_get_bits(GetBits *c, const uint8_t *data, size_t sz) {
    Tp = 0; c->ptr = c->ptr_start = data; c->ptr_end = data + sz; c->state = 0; c->bits_left = 0; c->error = 0;
}
static unsigned rd(GetBits *c) {
    /* the parser may byte-align or move the read pointer itself */
    const int at = (int)(c->ptr - c->ptr_start) * 8 - c->bits_left; Tp = at;
    unsigned v = 0;
    if (Tp >= (int)(c->ptr_end - c->ptr_start) * 8) c->error = 1;
    else { v = TB(Tp); Tp++; tp_sync(c); }
    return v;
}
unsigned dav1d_get_bit(GetBits *c) { return rd(c); }
unsigned dav1d_get_bits(GetBits *c, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v << 1 | rd(c); return v; }
int dav1d_get_sbits(GetBits *c, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v << 1 | rd(c); return (int)(v << (32 - n)) >> (32 - n); }
unsigned dav1d_get_uleb128(GetBits *c) { uint64_t v = 0; unsigned b; int i = 0; do { b = dav1d_get_bits(c, 8); v |= (uint64_t)(b & 127) << i; i += 7; } while ((b & 128) && i < 56); if (v > 0xffffffffu || (b & 128)) { c->error = 1; return 0; } return (unsigned) v; }
unsigned dav1d_get_uniform(GetBits *c, unsigned max) {
    int l = 0; for (unsigned x = max; x; x >>= 1) l++;
    const unsigned m = (1u << l) - max, v = dav1d_get_bits(c, l - 1);
    return v < m ? v : (v << 1) - m + rd(c);
}
unsigned dav1d_get_vlc(GetBits *c) { int z = 0; while (z < 32 && !rd(c)) z++; if (z == 32) return 0xffffffffu; return (z ? dav1d_get_bits(c, z) : 0) + (1u << z) - 1; }
int dav1d_get_bits_subexp(GetBits *c, int ref, unsigned n) {
    (void)c;
    if (sx_r >= sx_w || sx_ref[sx_r] != ref || sx_n[sx_r] != (int) n) sx_bad = 1;
    return sx_val[sx_r++];
}
#endif
/* concrete pseudo-random structure */
static uint32_t lcg;
static int S(int n) { lcg = lcg * 1664525u + 1013904223u; return (int)((lcg >> 10) % (unsigned)n); }
#endif
