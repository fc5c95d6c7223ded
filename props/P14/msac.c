//@ link:
//@ checks: bounds shift
//@ unwind: 18
//@ bound: one decode step from any decoder state (any range 32768..65535, any value below it, any refill phase, 8 bytes loaded and 8 to come, all arbitrary); symbol alphabets 2..3 for any range, 4..16 for ranges 32768..33023 (thorough: more), with any monotone 15-bit CDF and any adaptation count; from initialisation: buffers of 1..10 bytes and up to 3 decode steps, crossing the end of data
//@ assume: the bytes past the end are those the standard prescribes (zero bits), checked for up to 14 bits past the end as conformance requires
//@ case: step_sym{1..2} -DOP=0 -DNS={}
//@ case: r128_sym{3..15} -DOP=0 -DNS={} -DRTOP=128
//@ case: r171_sym{3..4} -DOP=0 -DNS={} -DRTOP=171
//@ case: r255_sym{3..15} -DOP=0 -DNS={} -DRTOP=255 tier=thorough timeout=1500
//@ case: full_sym{3..7} -DOP=0 -DNS={} tier=thorough timeout=1500
//@ case: step_bool -DOP=1
//@ case: step_equi -DOP=2
//@ case: step_boolad -DOP=3
//@ case: init{1..10} -DOP=4 -DSZ={}
//@ case: eob{1..2} -DOP=5 -DSZ={}
#include "config.h"
#include "vp.h"
#include "src/msac.c"
#define N 16
static uint8_t buf[N];
typedef unsigned __int128 u128;
static u128 bits128(int n) { u128 v = 0; for (int i = 0; i < N; i++) v = v << 8 | (i < n ? buf[i] : 0); return v; } /* data then zero padding */
/* --- the standard's symbol decoder (AV1 8.2) --- */
static unsigned SV, SR; static int P, NB; static u128 D;
static unsigned f_bits(int n) { unsigned v = n && P < 128 ? (unsigned)((D << P) >> (128 - n)) : 0; P += n; return v; }
static int flog2(unsigned x) { int r = 0; for (int i = 0; i < 16; i++) if (x >> i) r = i; return r; }
static void spec_init(int sz) { NB = sz; D = bits128(sz); P = 0; unsigned b = f_bits(15); SV = 32767 ^ b; SR = 1 << 15; }
static void spec_norm(void) { int b = 15 - flog2(SR); SR <<= b; unsigned nd = f_bits(b); SV = nd ^ (((SV + 1) << b) - 1); }
/* icdf[i] = 32768 - cdf[i], icdf[n-1] = 0 (the standard's f) */
static int spec_symbol(const uint16_t *icdf, int n) {
    unsigned cur = SR, prev; int s = -1;
    do { s++; prev = cur; unsigned f = s == n - 1 ? 0 : icdf[s]; cur = (((SR >> 8) * (f >> 6)) >> 1) + 4 * (n - s - 1); } while (SV < cur);
    SR = prev - cur; SV -= cur; spec_norm();
    return s;
}
static void spec_adapt(uint16_t *icdf, int n, int sym, unsigned *cnt) {
    int rate = 3 + (*cnt > 15) + (*cnt > 31) + (n >= 4 ? 2 : n >= 2 ? 1 : 0);
    /* cdf towards 0 below the symbol, towards 32768 from it on */
    for (int i = 0; i < n - 1; i++) if (i < sym) icdf[i] += (32768 - icdf[i]) >> rate; else icdf[i] -= icdf[i] >> rate;
    *cnt += *cnt < 32;
}
static void rel(const MsacContext *s, int sz) {
    VP_ASSERT((unsigned)(s->dif >> 48) == SV, "window holds the standard's SymbolValue");
    VP_ASSERT(s->rng == SR, "range is the standard's SymbolRange");
    VP_ASSERT(s->buf_pos >= buf && s->buf_pos <= buf + sz && s->buf_end == buf + sz, "never reads outside the tile data");
    const uint64_t low = s->dif << 16, want = P > 80 ? 0 : (uint64_t)(((~D) << P) >> 64);
    const int q = (int)(s->buf_pos - buf);
    if (P > 80) return;
    if (q < sz || s->cnt >= 0) {
        /* inside the data: exactly the bits of the bytes consumed so far are loaded */
        const int have = q * 8 - P;
        VP_ASSERT(have >= 0 && have <= 48, "refilled whenever the window needs it");
        const uint64_t m = have <= 0 ? 0 : ~0ull << (64 - have);
        if (have <= 48 && have >= 0) VP_ASSERT((low & m) == (want & m), "the loaded bits are the next bits of the data, inverted");
        if (q < sz) VP_ASSERT((low & ~m) == 0 && s->cnt == have, "unloaded bits are clear and counted");
    }
    if (q >= sz && P <= sz * 8 + 14) {
        const int need = sz * 8 + 15 - P; /* up to 15 bits past the end */
        const uint64_t m = ~0ull << (64 - (need > 48 ? 48 : need));
        if (s->cnt < 15) VP_ASSERT((low & m) == (want & m) || s->cnt >= 0, "bits past the end decode as the standard's zero padding");
    }
}
static MsacContext s;
static void any_state(void) {
    const int q = 8; /* bytes loaded */
    for (int i = 0; i < N; i++) buf[i] = vp_u8();
    NB = N; D = bits128(N);
#if OP == 0
    const int cnt = 48; /* no refill in this step: refills are the step_bool/equi/boolad cases */
#else
    const int cnt = vp_int(0, 48);
#endif
    P = q * 8 - cnt;
    SR = vp_int(32768, 65535); SV = vp_int(0, 65535); VP_ASSUME(SV < SR);
#ifdef RTOP
    VP_ASSUME((SR >> 8) == RTOP);
#endif
    s.buf_pos = buf + q; s.buf_end = buf + N; s.rng = SR; s.cnt = cnt;
    const uint64_t nxt = cnt ? (uint64_t)((((~D) << P) >> (128 - cnt))) : 0;
    s.dif = (uint64_t) SV << 48 | (cnt ? nxt << (48 - cnt) : 0);
    s.allow_update_cdf = vp_bool();
}
static void any_cdf(uint16_t *inv, uint16_t *spec, int ns, unsigned *cnt) {
    for (int i = 0; i < ns; i++) { inv[i] = vp_int(1, 32767); if (i) VP_ASSUME(inv[i] <= inv[i-1]); spec[i] = inv[i]; }
    spec[ns] = 0; *cnt = vp_int(0, 32); inv[ns] = *cnt;
}
static uint16_t inv[16], sp[17];
void vp_harness(void) {
    unsigned cnt, a, b;
#if OP == 0
    any_state(); any_cdf(inv, sp, NS, &cnt);
    a = dav1d_msac_decode_symbol_adapt_c(&s, inv, NS);
    b = spec_symbol(sp, NS + 1);
    VP_ASSERT(a == b, "symbol is the one the standard decodes");
    if (s.allow_update_cdf) spec_adapt(sp, NS + 1, b, &cnt);
    for (int i = 0; i < NS; i++) VP_ASSERT(inv[i] == sp[i], "adapted CDF is the standard's");
    VP_ASSERT(inv[NS] == cnt, "adaptation counter");
    rel(&s, N);
#elif OP == 1
    any_state(); const unsigned f = vp_int(1, 32767);
    sp[0] = f;
    a = dav1d_msac_decode_bool_c(&s, f); b = spec_symbol(sp, 2);
    VP_ASSERT(a == b, "boolean is the one the standard decodes"); rel(&s, N);
#elif OP == 2
    any_state(); sp[0] = 1 << 14;
    a = dav1d_msac_decode_bool_equi_c(&s); b = spec_symbol(sp, 2);
    VP_ASSERT(a == b, "equiprobable bit is the one the standard decodes"); rel(&s, N);
#elif OP == 3
    any_state(); any_cdf(inv, sp, 1, &cnt);
    a = dav1d_msac_decode_bool_adapt_c(&s, inv); b = spec_symbol(sp, 2);
    VP_ASSERT(a == b, "adaptive boolean is the one the standard decodes");
    if (s.allow_update_cdf) spec_adapt(sp, 2, b, &cnt);
    VP_ASSERT(inv[0] == sp[0] && inv[1] == cnt, "adapted CDF is the standard's"); rel(&s, N);
#elif OP == 4 || OP == 5
    for (int i = 0; i < SZ; i++) buf[i] = vp_u8();
    const int dis = vp_bool();
    dav1d_msac_init(&s, buf, SZ, dis); spec_init(SZ);
    VP_ASSERT(s.allow_update_cdf == !dis, "adaptation switch");
    rel(&s, SZ);
#if OP == 5
    for (int k = 0; k < 3; k++) {
        const unsigned f = vp_int(1, 32767); sp[0] = f;
        a = dav1d_msac_decode_bool_c(&s, f); b = spec_symbol(sp, 2);
        if (P - SZ * 8 > 14) break;
        VP_ASSERT(a == b, "boolean near the end of data is the one the standard decodes"); rel(&s, SZ);
    }
#endif
#endif
}
