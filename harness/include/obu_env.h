/* Counting environment of the OBU layer (src/obu.c): references are real
 * Dav1dRef objects with real counts; pictures, CDFs and data are tracked by
 * identity.  Used with tape.h (bit source). */
#ifndef VP_OBU_ENV_H
#define VP_OBU_ENV_H
#include "tape.h"
#include "src/internal.h"
#include "src/obu.h"
#include "src/ref.h"
#include "src/picture.h"
#include "src/data.h"
#include "src/cdf.h"
#include "src/decode.h"
#include "src/warpmv.h"
#include "src/env.h"
#include "dav1d/dav1d.h"
void dav1d_log(Dav1dContext *c, const char *f, ...) { (void)c; (void)f; }
static int n_err_props; static int64_t err_ts;
void dav1d_data_props_copy(Dav1dDataProps *d, const Dav1dDataProps *s) { d->timestamp = s->timestamp; n_err_props++; err_ts = s->timestamp; }
static int data_refs; /* live references to packet data */
void dav1d_data_unref_internal(Dav1dData *b) { if (b->data) data_refs--; memset(b, 0, sizeof(*b)); }
void dav1d_data_ref(Dav1dData *d, const Dav1dData *s) { VP_ASSERT(!d->data, "a packet reference is not overwritten"); *d = *s; data_refs++; }
static int n_submit; int dav1d_submit_frame(Dav1dContext *c);
static Dav1dRef ref_pool[10]; static int n_refs; static int n_freed; static struct { Dav1dContentLightLevel cl; Dav1dMasteringDisplay md; } meta_store; static Dav1dSequenceHeader seq_store[3]; static Dav1dFrameHeader frm_store; static int n_store;
static Dav1dRef *mk_ref(void *d) { Dav1dRef *r = &ref_pool[n_refs++]; r->data = d; r->ref_cnt = 1; return r; }
void dav1d_ref_dec(Dav1dRef **p) { Dav1dRef *r = *p; if (!r) return; *p = NULL; VP_ASSERT(r->ref_cnt > 0, "no reference is dropped twice"); if (--r->ref_cnt == 0) n_freed++; }
Dav1dRef *dav1d_ref_create(enum AllocationType t, size_t s) { return mk_ref(s == sizeof(Dav1dContentLightLevel) ? (void *) &meta_store.cl : (void *) &meta_store.md); }
Dav1dRef *dav1d_ref_create_using_pool(Dav1dMemPool *p, size_t s) { (void)p; return s == sizeof(Dav1dSequenceHeader) ? mk_ref(&seq_store[n_store++]) : mk_ref(&frm_store); }
void dav1d_thread_picture_ref(Dav1dThreadPicture *d, const Dav1dThreadPicture *s) { *d = *s; }
void dav1d_thread_picture_unref(Dav1dThreadPicture *d) { memset(d, 0, sizeof(*d)); }
static int n_props; static Dav1dContentLightLevel *pp_cl; static Dav1dMasteringDisplay *pp_md; static Dav1dITUTT35 *pp_t35; static size_t pp_n; static int64_t pp_ts; static Dav1dPicture *pp_p;
void dav1d_picture_copy_props(Dav1dPicture *p, Dav1dContentLightLevel *a, Dav1dRef *b, Dav1dMasteringDisplay *d, Dav1dRef *e, Dav1dITUTT35 *f, Dav1dRef *g, size_t n, const Dav1dDataProps *m) { (void)b;(void)e;(void)g; n_props++; pp_p = p; pp_cl = a; pp_md = d; pp_t35 = f; pp_n = n; pp_ts = m->timestamp; }
void dav1d_picture_free_itut_t35(const uint8_t *d, void *u) { (void)d; (void)u; }
enum Dav1dEventFlags dav1d_picture_get_event_flags(const Dav1dThreadPicture *p) { return p->flags & 1 ? DAV1D_EVENT_FLAG_NEW_SEQUENCE : 0; }
void dav1d_cdf_thread_ref(CdfThreadContext *d, CdfThreadContext *s) { *d = *s; }
void dav1d_cdf_thread_unref(CdfThreadContext *c) { memset(c, 0, sizeof(*c)); }
const Dav1dWarpedMotionParams dav1d_default_wm_params = { .type = DAV1D_WM_TYPE_IDENTITY, .matrix = { 0, 0, 1 << 16, 0, 0, 1 << 16 } };
static Dav1dContext c; static Dav1dData in;
#endif
