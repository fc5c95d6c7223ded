//@ link: src/picture.c
//@ checks: bounds overflow
//@ unwind: 8
//@ defs: -DNDEBUG
//@ case: l{0..3} -DLAYOUT={}
//@ bound: every width and height from 1 to 65536, depths 8, 10 and 12, all layouts
//@ assume: the memory pool returns a block of the requested size (real pool: P12), or none
#include "vp.h"
#include "config.h"
#include <errno.h>
#include "src/internal.h"
#include "src/picture.h"
#include "src/mem.h"
static size_t req; static int fail, n_push, id; static Dav1dMemPoolBuffer b; static uint8_t base[64];
static Dav1dMemPoolBuffer *pushed;
void dav1d_log(Dav1dContext *c, const char *f, ...) { }
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *p, size_t sz) { VP_ASSERT(p == (Dav1dMemPool *) &id, "the cookie is the pool"); req = sz; b.data = base; return fail ? NULL : &b; }
void dav1d_mem_pool_push(Dav1dMemPool *p, Dav1dMemPoolBuffer *x) { VP_ASSERT(p == (Dav1dMemPool *) &id, "the cookie is the pool"); pushed = x; n_push++; }
void vp_harness(void) {
    Dav1dPicture p; memset(&p, 0, sizeof(p));
    p.p.w = vp_int(1, 65536); p.p.h = vp_int(1, 65536); p.p.bpc = 8 + 2 * vp_int(0, 2); p.p.layout = LAYOUT;
    fail = vp_bool();
    const int r = dav1d_default_picture_alloc(&p, &id);
    if (fail) { VP_ASSERT(r == DAV1D_ERR(ENOMEM), "failure is reported"); return; }
    VP_ASSERT(!r && p.allocator_data == &b, "the buffer is remembered");
    const int64_t ps = p.p.bpc > 8 ? 2 : 1, mono = LAYOUT == DAV1D_PIXEL_LAYOUT_I400;
    const int64_t aw = (p.p.w + 127) / 128 * 128, ah = (p.p.h + 127) / 128 * 128;
    const int64_t cw = LAYOUT == DAV1D_PIXEL_LAYOUT_I444 ? aw : aw / 2, ch = LAYOUT == DAV1D_PIXEL_LAYOUT_I420 ? ah / 2 : ah;
    const int64_t S = p.stride[0], U = p.stride[1], total = (int64_t) req + sizeof(Dav1dMemPoolBuffer);
    VP_ASSERT(S >= aw * ps && S % DAV1D_PICTURE_ALIGNMENT == 0, "luma rows hold the padded width and are aligned");
    const int64_t o0 = (int64_t)((uintptr_t) p.data[0] - (uintptr_t) base), ysz = S * ah;
    VP_ASSERT(o0 >= 0 && o0 % DAV1D_PICTURE_ALIGNMENT == 0, "planes are aligned");
    VP_ASSERT(total % 8 == 0 && (req & 7) == 0, "the pool gets a rounded size");
    if (mono) {
        VP_ASSERT(!p.data[1] && !p.data[2] && U == 0, "monochrome has no chroma");
        VP_ASSERT(o0 + ysz + DAV1D_PICTURE_ALIGNMENT <= total, "the buffer holds the plane and the padding behind it");
    } else {
        const int64_t o1 = (int64_t)((uintptr_t) p.data[1] - (uintptr_t) base), o2 = (int64_t)((uintptr_t) p.data[2] - (uintptr_t) base), csz = U * ch;
        VP_ASSERT(U >= cw * ps && U % DAV1D_PICTURE_ALIGNMENT == 0, "chroma rows hold the padded width and are aligned");
        VP_ASSERT(o1 % DAV1D_PICTURE_ALIGNMENT == 0 && o2 % DAV1D_PICTURE_ALIGNMENT == 0, "planes are aligned");
        VP_ASSERT(o0 + ysz <= o1 && o1 + csz <= o2, "planes do not overlap");
        VP_ASSERT(o2 + csz + DAV1D_PICTURE_ALIGNMENT <= total, "the buffer holds all planes and the padding behind them");
    }
    dav1d_default_picture_release(&p, &id);
    VP_ASSERT(n_push == 1 && pushed == &b, "release returns exactly the buffer");
}
