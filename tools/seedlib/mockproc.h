/* in-memory stand-in for Mercury's proc layer: encode to / decode from one buffer */
#ifndef MOCKPROC_H
#define MOCKPROC_H
#include <stdlib.h>
#include <string.h>
#include "mercury.h"
#include "mercury_proc_string.h"
struct mp { hg_proc_op_t op; size_t pos; size_t len; int fail_at; int calls; unsigned char b[1 << 20]; };
static struct mp MP;
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return ((struct mp *)p)->op; }
static hg_return_t mp_rw(hg_proc_t p, void *d, size_t n)
{
    struct mp *m = (struct mp *)p;
    if (m->fail_at && ++m->calls == m->fail_at) return HG_PROTOCOL_ERROR;
    if (m->op == HG_ENCODE) { memcpy(m->b + m->pos, d, n); m->pos += n; m->len = m->pos; }
    else if (m->op == HG_DECODE) { if (m->pos + n > m->len) return HG_PROTOCOL_ERROR; memcpy(d, m->b + m->pos, n); m->pos += n; }
    return HG_SUCCESS;
}
#define MPT(n, t) hg_return_t hg_proc_##n(hg_proc_t p, void *d) { return mp_rw(p, d, sizeof(t)); }
MPT(int8_t, int8_t) MPT(uint8_t, uint8_t) MPT(int16_t, int16_t) MPT(uint16_t, uint16_t)
MPT(int32_t, int32_t) MPT(uint32_t, uint32_t) MPT(int64_t, int64_t) MPT(uint64_t, uint64_t)
MPT(hg_int32_t, int32_t) MPT(hg_uint32_t, uint32_t) MPT(hg_int64_t, int64_t) MPT(hg_uint64_t, uint64_t)
MPT(hg_size_t, hg_size_t) MPT(hg_bulk_t, hg_bulk_t)
hg_return_t hg_proc_raw(hg_proc_t p, void *d, hg_size_t n) { return mp_rw(p, d, n); }
hg_return_t hg_proc_bytes(hg_proc_t p, void *d, hg_size_t n) { return mp_rw(p, d, n); }
hg_return_t hg_proc_memcpy(hg_proc_t p, void *d, hg_size_t n) { return mp_rw(p, d, n); }
hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d)
{
    struct mp *m = (struct mp *)p; uint32_t n; char **s = (char **)d;
    if (m->op == HG_ENCODE) { n = *s ? strlen(*s) + 1 : 0; hg_return_t r = mp_rw(p, &n, 4); return r ? r : n ? mp_rw(p, *s, n) : 0; }
    if (m->op == HG_DECODE) { hg_return_t r = mp_rw(p, &n, 4); if (r) return r; *s = n ? malloc(n) : NULL; return n ? mp_rw(p, *s, n) : 0; }
    return HG_SUCCESS;
}
hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d) { return hg_proc_hg_const_string_t(p, d); }
static void mp_reset(hg_proc_op_t op) { MP.op = op; MP.pos = 0; MP.calls = 0; MP.fail_at = 0; if (op == HG_ENCODE) MP.len = 0; }
#endif
