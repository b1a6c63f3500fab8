/* contracts on nginx-mpegts-module/src/ngx_ts_stream.c */

#include "vp.h"
#include <arpa/inet.h>

#if defined U_PES
#define VPC_N  3
#define VPC_T  24
#elif defined U_PSI
#define VPC_N  3
#define VPC_T  40
#else
#define VPC_N  3
#define VPC_T  6
#endif
#include "vp_chain.h"

static unsigned  g_calls;

#include "ngx_ts_stream.c"
#include "vp_stubs.h"

ngx_uint_t ngx_pagesize;
volatile ngx_str_t ngx_cached_http_log_iso8601;
ngx_pid_t ngx_pid;

u_char *ngx_sprintf(u_char *buf, const char *fmt, ...) { return buf; }
ngx_pool_cleanup_t *ngx_pool_cleanup_add(ngx_pool_t *p, size_t n) { return NULL; }
void ngx_pool_cleanup_file(void *data) { }
void *ngx_array_push(ngx_array_t *a) { return NULL; }
ngx_array_t *ngx_array_create(ngx_pool_t *p, ngx_uint_t n, size_t size) { return NULL; }

static ngx_ts_stream_t   g_ts;
static ngx_ts_header_t   g_h;
static ngx_ts_es_t       g_es;
static ngx_ts_program_t  g_prog;


/* ------------------------------------------------------------------ */
#ifdef U_HEADER

VP_DECLARE_INPUT(struct { uint8_t pkt[188]; })

/* spec: ISO 13818-1 2.4.3.2 / 2.4.3.4 */

static int sp_afic(const u_char *p) { return (p[3] >> 4) & 3; }

static int
sp_valid(const u_char *p)
{
    if (p[0] != 0x47 || sp_afic(p) == 0) {
        return 0;
    }

    if (sp_afic(p) & 2) {
        if (p[4] > 183) {
            return 0;
        }

        if (p[4] > 0 && (p[5] & 0x10) && p[4] < 7) {
            return 0;
        }
    }

    return 1;
}

static int
P_rejects_exactly_invalid(ssize_t rv, const u_char *p)
{
    return (rv == NGX_ERROR) == !sp_valid(p);
}

static int
P_pid_pusi_cc(ssize_t rv, const u_char *p, ngx_ts_header_t *h)
{
    if (!sp_valid(p)) {
        return 1;
    }

    return h->pid == (((p[1] & 0x1f) << 8) | p[2])
        && h->pusi == ((p[1] >> 6) & 1)
        && h->cont == (p[3] & 0x0f);
}

static int
P_payload_offset(ssize_t rv, const u_char *p)
{
    if (!sp_valid(p)) {
        return 1;
    }

    switch (sp_afic(p)) {

    case 1:
        return rv == 4;

    case 3:
        return rv == 5 + p[4] && rv <= 188;

    default:
        return rv == NGX_DONE;
    }
}

static int
P_adaptation(ssize_t rv, const u_char *p, ngx_ts_header_t *h)
{
    int       af;
    uint64_t  base, ext;

    if (!sp_valid(p)) {
        return 1;
    }

    af = (sp_afic(p) & 2) && p[4] > 0;

    if (h->rand != (af && (p[5] & 0x40)) || h->pcrf != (af && (p[5] & 0x10))) {
        return 0;
    }

    if (!h->pcrf) {
        return h->pcr == 0;
    }

    base = ((uint64_t) p[6] << 25) | ((uint64_t) p[7] << 17)
        | ((uint64_t) p[8] << 9) | ((uint64_t) p[9] << 1) | (p[10] >> 7);
    ext = ((uint64_t) (p[10] & 1) << 8) | p[11];

    return h->pcr == base * 300 + ext;
}

ssize_t ngx_ts_read_header_c(ngx_ts_stream_t *ts, u_char *p, ngx_ts_header_t *h)
__CPROVER_requires(__CPROVER_r_ok(p, 188) && h == &g_h && ts == &g_ts)
__CPROVER_assigns(*h)
__CPROVER_ensures(P_rejects_exactly_invalid(__CPROVER_return_value, p))
__CPROVER_ensures(P_pid_pusi_cc(__CPROVER_return_value, p, h))
__CPROVER_ensures(P_payload_offset(__CPROVER_return_value, p))
__CPROVER_ensures(P_adaptation(__CPROVER_return_value, p, h))
;

static u_char  g_pkt[188];

void
h_header(void)
{
    ssize_t  rv;

    VP_LOAD_INPUT();
    memcpy(g_pkt, in.pkt, 188);
    g_ts.log = &vp_log;

    rv = ngx_ts_read_header(&g_ts, g_pkt, &g_h);

    VP_POST(P_rejects_exactly_invalid(rv, g_pkt));
    VP_POST(P_pid_pusi_cc(rv, g_pkt, &g_h));
    VP_POST(P_payload_offset(rv, g_pkt));
    VP_POST(P_adaptation(rv, g_pkt, &g_h));

    VP_COVER(rv == NGX_DONE);
    VP_COVER(rv == 4);
    VP_COVER(g_h.pcrf && rv > 4);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_BYTES

VP_DECLARE_INPUT(struct {
    uint8_t  shape, len, null_dst;
    uint8_t  data[VPC_T];
})

static ngx_ts_byte_read_t  g_br;
static u_char              g_dst[VPC_T + 1];
static size_t              g_len;

static const uint8_t  g_shapes[][3] = {
    { 6, 6, 6 }, { 3, 6, 6 }, { 2, 4, 6 }, { 0, 3, 6 }, { 2, 2, 6 },
    { 1, 6, 6 }, { 0, 0, 4 }, { 1, 2, 3 }, { 0, 0, 0 }, { 4, 5, 5 }
};

VP_SPEC_BEGIN

static int
P_status(ngx_int_t rv)
{
    return rv == (g_len <= vpc_len ? NGX_OK : NGX_AGAIN);
}

static int
P_bytes_copied(void)
{
    size_t  i;

    for (i = 0; i < VPC_T + 1; i++) {
        if (in.null_dst || i >= g_len || i >= vpc_len) {
            if (g_dst[i] != 0xee) {
                return 0;
            }

        } else if (g_dst[i] != vpc_byte(i)) {
            return 0;
        }
    }

    return 1;
}

/* the reader is positioned right after the bytes read */
static int
P_position(ngx_ts_byte_read_t *br)
{
    size_t  i;

    for (i = 0; i < VPC_T; i++) {
        if (vpc_at(br->cl, br->p, i) != vpc_byte(g_len + i)) {
            return 0;
        }
    }

    return 1;
}

static int
P_bytes_left(size_t left)
{
    return left == (g_len <= vpc_len ? vpc_len - g_len : 0);
}

VP_SPEC_END

ngx_int_t ngx_ts_byte_read_c(ngx_ts_byte_read_t *br, u_char *dst, size_t len)
__CPROVER_requires(br == &g_br && (dst == NULL || dst == g_dst))
__CPROVER_assigns(*br, __CPROVER_object_whole(g_dst))
__CPROVER_ensures(P_status(__CPROVER_return_value))
__CPROVER_ensures(P_bytes_copied())
__CPROVER_ensures(P_position(br))
;

static void
bytes_one(const uint8_t *end, size_t len)
{
    ngx_int_t  rv;

    ngx_ts_byte_read_init(&g_br, vpc_build(in.data, 3, end));
    memset(g_dst, 0xee, sizeof(g_dst));
    g_len = len;

    rv = ngx_ts_byte_read(&g_br, in.null_dst ? NULL : g_dst, len);

    VP_POST(P_status(rv));
    VP_POST(P_bytes_copied());
    VP_POST(P_position(&g_br));

    VP_ASSERT(P_bytes_left(ngx_ts_byte_left(&g_br)));

    VP_COVER(rv == NGX_OK);
}

void
h_bytes(void)
{
    unsigned  i, len;

    VP_LOAD_INPUT();

    for (i = 0; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i++) {
        for (len = 0; len <= VPC_T + 1; len++) {
            if (in.shape == i && in.len == len) {
                bytes_one(g_shapes[i], len);
                return;
            }
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_PES

VP_DECLARE_INPUT(struct {
    uint8_t   shape, hl;
    uint8_t   data[VPC_T];
    uint8_t   corrupt;
    uint8_t   rand, pusi, pcrf;
    uint64_t  pcr;
    uint8_t   handler_fails;
})

static unsigned        g_payload_ok;
static unsigned        g_hd_ok;
static u_char          vpc_flat[VPC_T];
static ngx_ts_handler_t  g_handler;
static uint64_t        g_hd_pts, g_hd_dts;
static unsigned        g_hd_ptsf;
static size_t          g_hd_size;

VP_SPEC_BEGIN

/* spec on the flattened PES packet f[0..L) */

static int
sp_opt(int sid)
{
    return sid != 0xbc && sid != 0xbe && sid != 0xbf && sid != 0xf0
        && sid != 0xf1 && sid != 0xff && sid != 0xf2 && sid != 0xf8;
}

enum { SP_WAIT, SP_ERROR, SP_SKIP, SP_FULL };

static int
sp_class(const u_char *f, size_t L)
{
    unsigned  plen;

    if (L < 3) {
        return SP_WAIT;
    }

    if (f[0] != 0 || f[1] != 0 || f[2] != 1) {
        return SP_ERROR;
    }

    if (L < 6) {
        return SP_WAIT;
    }

    if (f[3] == 0xbe) {
        return SP_SKIP;
    }

    if (!sp_opt(f[3])) {
        return SP_FULL;
    }

    if (L < 9) {
        return SP_WAIT;
    }

    plen = (f[4] << 8) | f[5];
    if (plen && plen < 3u + f[8]) {
        return SP_ERROR;
    }

    if (L < 9u + f[8]) {
        return SP_WAIT;
    }

    return SP_FULL;
}

/* optional header long enough for the timestamps its flags announce */
static int
sp_conforming(const u_char *f)
{
    if (!sp_opt(f[3])) {
        return 1;
    }

    switch (f[7] & 0xc0) {

    case 0x80:
        return f[8] >= 5;

    case 0xc0:
        return f[8] >= 10;
    }

    return 1;
}

static size_t
sp_offset(const u_char *f)
{
    return sp_opt(f[3]) ? 9u + f[8] : 6;
}

static int
sp_length_ok(const u_char *f, size_t L)
{
    unsigned  plen = (f[4] << 8) | f[5];

    return plen == 0 || 6u + plen == L;
}

static uint64_t
sp_ts(const u_char *p)
{
    return ((uint64_t) ((p[0] >> 1) & 7) << 30)
        | ((uint64_t) ((p[1] << 7) | (p[2] >> 1)) << 15)
        | ((p[3] << 7) | (p[4] >> 1));
}

static ngx_int_t
vp_handler(ngx_ts_handler_data_t *hd)
{
    size_t  i, off;

    g_calls++;
    off = sp_offset(vpc_flat);

    g_payload_ok = 1;
    for (i = 0; i < VPC_T; i++) {
        if (vpc_at(hd->bufs, hd->bufs ? hd->bufs->buf->pos : NULL, i)
            != vpc_byte(off + i))
        {
            g_payload_ok = 0;
        }
    }

    g_hd_ok = hd->event == NGX_TS_PES && hd->ts == &g_ts && hd->prog == &g_prog
        && hd->es == &g_es;
    g_hd_pts = g_es.pts;
    g_hd_dts = g_es.dts;
    g_hd_ptsf = g_es.ptsf;
    return in.handler_fails ? NGX_ERROR : NGX_OK;
}

static int
P_outcome(ngx_int_t rv)
{
    switch (sp_class(vpc_flat, vpc_len)) {

    case SP_ERROR:
        return rv == NGX_ERROR && g_calls == 0;

    case SP_WAIT:
        return rv == NGX_OK && g_calls == 0;

    case SP_SKIP:
        return rv == NGX_OK && g_calls == 0 && g_es.bufs.head == NULL;
    }

    /* complete packet: delivered exactly once unless corrupt */

    if (!sp_conforming(vpc_flat)) {
        return g_calls <= 1;
    }

    if (in.corrupt || !sp_length_ok(vpc_flat, vpc_len)) {
        return g_calls == 0 && rv == NGX_OK;
    }

    return g_calls == 1 && rv == (in.handler_fails ? NGX_ERROR : NGX_OK);
}

static int
P_payload(void)
{
    return g_calls == 0 || (g_payload_ok && g_hd_ok);
}

static int
P_timestamps(void)
{
    const u_char  *f = vpc_flat;

    if (g_calls == 0 || !sp_conforming(f)) {
        return 1;
    }

    if (!sp_opt(f[3]) || !(f[7] & 0x80)) {
        return g_hd_ptsf == 0;
    }

    if ((f[7] & 0xc0) == 0x80) {
        return g_hd_ptsf == 1 && g_hd_pts == sp_ts(f + 9)
            && g_hd_dts == g_hd_pts;
    }

    return g_hd_ptsf == 1 && g_hd_pts == sp_ts(f + 9)
        && g_hd_dts == sp_ts(f + 14);
}

/* after a complete packet every buffer is back on the free list */
static int
P_buffers_returned(ngx_int_t rv)
{
    unsigned      i;
    ngx_chain_t  *cl;

    if (rv != NGX_OK || sp_class(vpc_flat, vpc_len) < SP_SKIP
        || !sp_conforming(vpc_flat))
    {
        return 1;
    }

    if (g_es.bufs.head != NULL || g_es.bufs.tail != &g_es.bufs.head
        || g_es.corrupt)
    {
        return sp_class(vpc_flat, vpc_len) == SP_SKIP
            && g_es.bufs.head == NULL && g_es.bufs.tail == &g_es.bufs.head;
    }

    for (i = 0, cl = g_ts.free; i < VPC_N; i++) {
        if (i < vpc_n) {
            if (cl != &vpc_cl[i]) {
                return 0;
            }

            cl = cl->next;
        }
    }

    return cl == NULL;
}

static int
P_pcr(void)
{
    return g_prog.pcr == ((in.pcrf && g_prog.pcr_pid == g_es.pid) ? in.pcr : 0);
}

VP_SPEC_END

ngx_int_t ngx_ts_read_pes_c(ngx_ts_stream_t *ts, ngx_ts_program_t *prog,
    ngx_ts_es_t *es, ngx_ts_header_t *h, ngx_buf_t *b)
__CPROVER_requires(b == NULL && ts == &g_ts && prog == &g_prog && es == &g_es && h == &g_h)
__CPROVER_assigns(*es, ts->free, prog->pcr, __CPROVER_object_whole(vpc_bf),
    __CPROVER_object_whole(vpc_cl), g_calls, g_payload_ok, g_hd_ok, g_hd_pts, g_hd_dts, g_hd_ptsf)
__CPROVER_ensures(P_outcome(__CPROVER_return_value))
__CPROVER_ensures(P_payload())
__CPROVER_ensures(P_timestamps())
__CPROVER_ensures(P_buffers_returned(__CPROVER_return_value))
__CPROVER_ensures(P_pcr())
;

static const uint8_t  g_shapes[][6] = {
    /* hlen, stream id, PTS_DTS flags byte, node ends */
    { 10, 0xe0, 0xc0, 19, 24, 24 }, { 10, 0xe0, 0xff, 5, 15, 24 },
    { 10, 0xc0, 0xc0, 9, 19, 19 },  { 12, 0xbd, 0xc1, 12, 12, 22 },
    { 5, 0xe0, 0x80, 14, 20, 20 },  { 5, 0xc0, 0x80, 3, 13, 16 },
    { 5, 0xe1, 0xbf, 1, 9, 14 },    { 5, 0xe0, 0x80, 13, 13, 13 },
    { 0, 0xe0, 0x00, 9, 12, 12 },   { 0, 0xe0, 0x3f, 4, 6, 10 },
    { 0, 0xe0, 0x40, 0, 8, 9 },     { 0, 0xe0, 0x00, 3, 5, 6 },
    { 7, 0xe0, 0x80, 16, 18, 22 },  { 2, 0xe0, 0x80, 10, 11, 18 },
    { 0, 0xe0, 0x00, 2, 2, 2 },     { 5, 0xe0, 0x00, 8, 14, 17 },
    { 9, 0xbf, 0xc0, 6, 12, 20 },   { 9, 0xbe, 0xc0, 6, 12, 20 },
    { 9, 0xf0, 0xc0, 3, 9, 9 },     { 0, 0xff, 0x80, 6, 6, 6 },
    { 10, 0xe0, 0xc0, 0, 11, 19 },  { 14, 0xe0, 0xc0, 5, 23, 24 }
};

static void
pes_one(const uint8_t *shape)
{
    ngx_int_t  rv;
    unsigned   i;

    for (i = 0; i < VPC_T; i++) {
        vpc_flat[i] = in.data[i];
    }

    /* fixed by the shape; everything else is symbolic */
    vpc_flat[3] = shape[1];
    vpc_flat[6] = 0x80;
    vpc_flat[7] = shape[2];
    vpc_flat[8] = shape[0];

    /* nodes are stored in descending order: place the logical bytes */
    g_es.bufs.head = vpc_build(in.data, 3, shape + 3);
    for (i = 0; i < vpc_len; i++) {
        vpc_put(i, vpc_flat[i]);
    }

    g_es.bufs.tail = &vpc_cl[2].next;

    rv = ngx_ts_read_pes(&g_ts, &g_prog, &g_es, &g_h, NULL);

    VP_POST(P_outcome(rv));
    VP_POST(P_payload());
    VP_POST(P_timestamps());
    VP_POST(P_buffers_returned(rv));
    VP_POST(P_pcr());
}

void
h_pes(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    VP_PRE(in.corrupt <= 1 && in.rand <= 1 && in.pusi <= 1 && in.pcrf <= 1);

    g_ts.log = &vp_log;
    g_es.corrupt = in.corrupt;
    g_h.rand = in.rand;
    g_h.pusi = in.pusi;
    g_h.pcrf = in.pcrf;
    g_h.pcr = in.pcr;
    g_es.pid = 256;
    g_prog.pcr_pid = in.rand ? 256 : 257;
    g_handler.handler = vp_handler;
    g_ts.handlers = &g_handler;

    for (i = U_PES; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i += 3) {
        if (in.shape == i) {
            pes_one(g_shapes[i]);
            break;
        }
    }

    VP_COVER(g_calls == 1);
    VP_COVER(in.corrupt && !g_es.corrupt);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_PSI

/*
 * PAT and PMT: sections of a fixed structure (lengths, splits over the
 * packets), symbolic identifiers and payload.
 */

VP_DECLARE_INPUT(struct {
    uint8_t   shape;
    uint8_t   data[VPC_T];
    uint8_t   handler_fails;
})

static u_char            vpc_flat[VPC_T];
static ngx_ts_handler_t  g_handler;
static unsigned          g_hd_ok;
static ngx_buf_t         g_b;

static ngx_int_t
vp_handler(ngx_ts_handler_data_t *hd)
{
    g_calls++;
    g_hd_ok = hd->ts == &g_ts
#if (U_PSI == 1)
        && hd->event == NGX_TS_PAT;
#else
        && hd->event == NGX_TS_PMT && hd->prog == &g_prog;
#endif
    return in.handler_fails ? NGX_ERROR : NGX_OK;
}

static unsigned
f16(unsigned k)
{
    return (vpc_flat[k] << 8) | vpc_flat[k + 1];
}

typedef struct {
    uint8_t  end[3];    /* bytes per node */
    uint8_t  ptr;       /* pointer_field */
    uint16_t slen;      /* section_length */
    uint8_t  pil;       /* PMT: program_info_length */
    uint8_t  el[3];     /* PMT: ES_info_length of each ES */
    uint8_t  af;        /* allocations that fail (bit mask) */
    uint8_t  zero;      /* PAT: entries that are the network PID */
} shape_t;

enum { W_WAIT, W_ERROR, W_DONE };

/* result expected for a section of L bytes */
static int
sp_class(const shape_t *s, size_t L, unsigned min)
{
    if (L < 2u + s->ptr + 2) {
        return W_WAIT;
    }

    if (s->slen < min || s->slen > 0x3fd) {
        return W_ERROR;
    }

    return L < 4u + s->ptr + s->slen ? W_WAIT : W_DONE;
}

/* the packet that completes the section is passed as b: the chain so far has
 * the first nodes, the last node arrives now */
static void
psi_arrive(const shape_t *s, ngx_ts_bufs_t *bufs, ngx_buf_t **b)
{
    unsigned  i;

    memcpy(vpc_flat, in.data, VPC_T);
    vpc_flat[0] = s->ptr;
    vpc_flat[2 + s->ptr] = 0xb0 | (s->slen >> 8);
    vpc_flat[3 + s->ptr] = (u_char) s->slen;

    vpc_build(vpc_flat, 3, s->end);
    for (i = 0; i < vpc_len; i++) {
        vpc_put(i, vpc_flat[i]);
    }

    if (s->end[1] == 0) {
        /* first packet of the section */
        bufs->head = NULL;
        ngx_ts_bufs_init(*bufs);

    } else {
        bufs->head = &vpc_cl[0];
        vpc_cl[1].next = NULL;
        bufs->tail = &vpc_cl[1].next;
    }

    *b = &vpc_bf[2];
}

/* every byte still there, in order */
static int
psi_pending(ngx_ts_bufs_t *bufs)
{
    unsigned  i;

    for (i = 0; i < VPC_T; i++) {
        if (vpc_at(bufs->head, bufs->head ? bufs->head->buf->pos : NULL, i)
            != vpc_byte(i))
        {
            return 0;
        }
    }

    return 1;
}

static int
psi_freed(ngx_ts_bufs_t *bufs)
{
    ngx_chain_t  *cl;
    unsigned      i, n;

    for (cl = g_ts.free, n = 0, i = 0; i < VPC_N && cl; i++, cl = cl->next) {
        n += cl->buf == &vpc_bf[2];
    }

    return bufs->head == NULL && bufs->tail == &bufs->head && cl == NULL
        && n == 1;
}


#if (U_PSI == 1)

static const shape_t  g_shapes[] = {
    { { 5, 9, 17 }, 0, 13 },  { { 3, 20, 28 }, 1, 21 }, { { 0, 0, 24 }, 0, 17, 0, { 0 }, 0, 1 },
    { { 2, 9, 20 }, 0, 17, 0, { 0 }, 0, 2 }, { { 2, 9, 21 }, 0, 17, 0, { 0 }, 1 },
    { { 2, 9, 21 }, 0, 17, 0, { 0 }, 2 },  { { 0, 0, 25 }, 0, 21, 0, { 0 }, 0, 5 },  { { 0, 0, 30 }, 2, 9 },   { { 0, 0, 30 }, 0, 8 },
    { { 4, 8, 12 }, 0, 0x3fe }, { { 0, 0, 30 }, 0, 0x3fd },
    { { 0, 0, 3 }, 0, 13 },   { { 2, 3, 4 }, 5, 13 },
};

static void
pat_one(const shape_t *s)
{
    unsigned          i, n, k, o;
    ngx_int_t         rv;
    ngx_buf_t        *b;

    vp_alloc_fail = s->af;
    psi_arrive(s, &g_ts.bufs, &b);

    for (i = 0; i < 3; i++) {
        o = 4u + s->ptr + 5 + i * 4;
        if (o + 2 <= vpc_len) {
            vpc_flat[o] = 0;
            vpc_flat[o + 1] = (s->zero >> i) & 1 ? 0 : 7 + i;
            vpc_put(o, vpc_flat[o]);
            vpc_put(o + 1, vpc_flat[o + 1]);
        }
    }

    rv = ngx_ts_read_pat(&g_ts, &g_h, b);

    if (s->af) {
        VP_POST(rv == NGX_ERROR && g_calls == 0);
        return;
    }

    switch (sp_class(s, vpc_len, 9)) {

    case W_WAIT:
        VP_POST(rv == NGX_OK && g_calls == 0 && g_ts.nprogs == 0);
        VP_POST(psi_pending(&g_ts.bufs));
        return;

    case W_ERROR:
        VP_POST(rv == NGX_ERROR && g_calls == 0 && g_ts.nprogs == 0);
        return;
    }

    VP_POST(g_calls == 1 && g_hd_ok);
    VP_POST(rv == (in.handler_fails ? NGX_ERROR : NGX_OK));

    /* one program per entry with a non-zero number, in order */
    o = 4u + s->ptr + 5;
    n = (s->slen - 9) / 4;
    for (i = 0, k = 0; i < n; i++) {
        if (f16(o + i * 4) == 0) {
            continue;
        }

        VP_POST(k < g_ts.nprogs && g_ts.progs[k].number == f16(o + i * 4)
                && g_ts.progs[k].pid == (f16(o + i * 4 + 2) & 0x1fff)
                && g_ts.progs[k].nes == 0 && g_ts.progs[k].bufs.head == NULL
                && g_ts.progs[k].bufs.tail == &g_ts.progs[k].bufs.head);
        k++;
    }

    VP_POST(g_ts.nprogs == k);
    VP_POST(rv != NGX_OK || psi_freed(&g_ts.bufs));
    VP_COVER(k == 3);
}

#else

static const shape_t  g_shapes[] = {
    { { 5, 9, 22 }, 0, 18, 0, { 0 } },
    { { 3, 18, 30 }, 1, 25, 2, { 0, 0 } },
    { { 0, 0, 33 }, 0, 26, 0, { 3, 0 } },
    { { 13, 21, 38 }, 0, 33, 3, { 0, 2 , 0 } },
    { { 0, 0, 40 }, 0, 13, 0, { 0 } },
    { { 0, 0, 30 }, 0, 12, 0, { 0 } },
    { { 0, 0, 30 }, 0, 17, 5, { 0 } },           /* program info too long */
    { { 0, 0, 40 }, 0, 20, 0, { 3 } },           /* ES info past the section */
    { { 2, 9, 16 }, 0, 18, 0, { 0 } },           /* incomplete */
    { { 0, 0, 30 }, 0, 0x3fe, 0, { 0 } },
    { { 0, 0, 40 }, 0, 16, 0, { 0 } },           /* partial last entry */
    { { 0, 0, 33 }, 0, 26, 0, { 3, 0 }, 1 },
    { { 0, 0, 33 }, 0, 26, 0, { 3, 0 }, 2 },
    { { 0, 0, 33 }, 0, 26, 0, { 3, 0 }, 4 },
};

static void
pmt_one(const shape_t *s)
{
    unsigned      i, j, n, o, bad, v, anyv, left;
    ngx_int_t     rv;
    ngx_buf_t    *b;
    ngx_ts_es_t  *es;

    vp_alloc_fail = s->af;
    psi_arrive(s, &g_prog.bufs, &b);

    /* structure bytes */
    o = 4u + s->ptr + 7;
    vpc_flat[o] = 0xf0;
    vpc_flat[o + 1] = s->pil;
    vpc_put(o, vpc_flat[o]);
    vpc_put(o + 1, s->pil);

    o += 2 + s->pil;
    bad = s->slen < 13u + s->pil || s->slen > 0x3fd;
    n = 0;
    left = bad ? 0 : s->slen - 13 - s->pil;
    while (left && !bad) {
        if (o + 5 + s->el[n] > vpc_len || left < 5u + s->el[n]) {
            bad = 1;
        }

        if (o + 4 < VPC_T) {
            vpc_flat[o + 3] = 0xf0;
            vpc_flat[o + 4] = s->el[n];
            vpc_put(o + 3, vpc_flat[o + 3]);
            vpc_put(o + 4, s->el[n]);
        }

        left -= 5 + s->el[n];
        o += 5 + s->el[n];
        n++;
    }

    rv = ngx_ts_read_pmt(&g_ts, &g_prog, &g_h, b);

    if (s->af) {
        VP_POST(rv == NGX_ERROR && g_calls == 0);
        return;
    }

    switch (sp_class(s, vpc_len, 13)) {

    case W_WAIT:
        VP_POST(rv == NGX_OK && g_calls == 0 && g_prog.nes == 0);
        VP_POST(psi_pending(&g_prog.bufs));
        return;

    case W_ERROR:
        VP_POST(rv == NGX_ERROR && g_calls == 0 && g_prog.nes == 0);
        return;
    }

    if (bad) {
        VP_POST(rv == NGX_ERROR && g_calls == 0 && g_prog.nes == 0);
        return;
    }

    VP_POST(g_calls == 1 && g_hd_ok);
    VP_POST(rv == (in.handler_fails ? NGX_ERROR : NGX_OK));
    VP_POST(g_prog.pcr_pid == (f16(4 + s->ptr + 5) & 0x1fff));
    VP_POST(g_prog.nes == n);

    o = 4u + s->ptr + 9 + s->pil;
    anyv = 0;
    for (i = 0; i < n; i++) {
        es = &g_prog.es[i];
        v = vpc_flat[o] == 1 || vpc_flat[o] == 2 || vpc_flat[o] == 0x10
            || vpc_flat[o] == 0x1b || vpc_flat[o] == 0x24;
        anyv |= v;

        VP_POST(es->type == vpc_flat[o] && es->pid == (f16(o + 1) & 0x1fff));
        VP_POST(es->video == v && es->cont == NGX_TS_CC_UNSET
                && !es->corrupt && es->bufs.head == NULL
                && es->bufs.tail == &es->bufs.head);
        VP_POST(es->info.len == s->el[i]);

        for (j = 0; j < s->el[i]; j++) {
            VP_POST(es->info.data[j] == vpc_flat[o + 5 + j]);
        }

        o += 5 + s->el[i];
    }

    VP_POST(g_prog.video == anyv);
    VP_POST(rv != NGX_OK || psi_freed(&g_prog.bufs));
    VP_COVER(n == 2 && anyv);
}

#endif

void
h_psi(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    g_ts.log = &vp_log;
    g_handler.handler = vp_handler;
    g_ts.handlers = &g_handler;
    ngx_ts_bufs_init(g_ts.bufs);

    for (i = 0; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i++) {
        if (in.shape == i) {
            g_h.pusi = g_shapes[i].end[1] == 0;
#if (U_PSI == 1)
            pat_one(&g_shapes[i]);
#else
            pmt_one(&g_shapes[i]);
#endif
            break;
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_PKT

/* dispatch of one packet over two programs of two streams, any PIDs */

VP_DECLARE_INPUT(struct {
    uint8_t   shape;
    uint8_t   pkt[188];
    uint16_t  ppid[2];
    uint16_t  epid[4];
    uint8_t   cont[4];
    uint8_t   corrupt[4];
})

static ngx_ts_program_t  g_progs[2];
static ngx_ts_es_t       g_ess[4];
static u_char            g_pkt[188];
static ngx_buf_t         g_b;

/* adaptation field length (255: none, 254: adaptation field only), pusi, cc,
 * high bits of the PID (with the error and priority bits) */
static const uint8_t  g_shapes[][4] = {
    { 255, 1, 0, 0 }, { 255, 0, 15, 0x1f }, { 0, 1, 7, 1 }, { 1, 1, 9, 0x25 },
    { 7, 1, 15, 0x10 }, { 177, 1, 3, 2 }, { 178, 1, 1, 4 }, { 183, 1, 4, 0xb },
    { 254, 1, 8, 0x1e }, { 7, 0, 2, 0 }, { 254, 0, 0, 0 },
};

static void
pkt_one(const uint8_t *s)
{
    unsigned   i, pid, hit, off, pusi, cc, bad, match, seen;
    ngx_int_t  rv;

    pusi = s[1];
    cc = s[2];

    g_pkt[0] = 0x47;
    g_pkt[1] = (pusi << 6) | s[3];

    if (s[0] == 255) {
        g_pkt[3] = 0x10 | cc;
        off = 4;

    } else if (s[0] == 254) {
        g_pkt[3] = 0x20 | cc;
        g_pkt[4] = 183;
        off = 188;

    } else {
        g_pkt[3] = 0x30 | cc;
        g_pkt[4] = s[0];
        off = 5 + s[0];
        if (s[0] && s[0] < 7) {
            g_pkt[5] = 0x40;
        }
    }

    g_b.start = g_b.pos = g_pkt;
    g_b.last = g_b.end = g_pkt + 188;

    pid = ((g_pkt[1] & 0x1f) << 8) | g_pkt[2];

    /* 0: not an elementary stream, else 1 + its index */
    hit = 0;
    seen = pid == 0;
    for (i = 0; i < 2; i++) {
        if (!seen && g_progs[i].pid == pid) {
            seen = 1;
        }

        if (!seen && g_ess[i * 2].pid == pid) {
            hit = 1 + i * 2;
            seen = 1;
        }

        if (!seen && g_ess[i * 2 + 1].pid == pid) {
            hit = 2 + i * 2;
            seen = 1;
        }
    }

    rv = ngx_ts_read_packet(&g_ts, &g_b);

    bad = hit && pusi
        && (off <= 185 && (g_pkt[off] || g_pkt[off + 1] || g_pkt[off + 2] != 1));
    VP_POST(rv == (bad ? NGX_ERROR : NGX_OK));
    VP_POST(g_b.pos == g_pkt + off && g_b.last == g_pkt + 188);

    for (i = 0; i < 4; i++) {
        match = hit == i + 1;

        if (!match) {
            VP_POST(g_ess[i].bufs.head == NULL
                    && g_ess[i].corrupt == (in.corrupt[i] & 1)
                    && g_ess[i].cont == (in.cont[i] == 16 ? NGX_TS_CC_UNSET
                                         : in.cont[i]));
            continue;
        }

        /* a packet out of sequence marks the pending PES as corrupt */
        VP_POST(g_ess[i].cont == cc);
        VP_POST(g_ess[i].corrupt == ((in.corrupt[i] & 1)
                || (in.cont[i] != 16 && cc != ((in.cont[i] + 1) & 15))));

        if (pusi) {
            VP_POST(g_ess[i].bufs.head && g_ess[i].bufs.head->buf == &g_b
                    && g_ess[i].bufs.head->next == NULL
                    && g_ess[i].bufs.tail == &g_ess[i].bufs.head->next);
            VP_POST(g_ts.free == NULL);
        } else {
            VP_POST(g_ess[i].bufs.head == NULL);
        }
    }

    /* the buffer is never lost: pending on a stream, or back on the free list */
    VP_POST((hit && pusi) || (g_ts.free && g_ts.free->buf == &g_b
                              && g_ts.free->next == NULL));

    VP_COVER(hit == 4 && pusi && rv == NGX_OK);
    VP_COVER(hit == 0);
}

void
h_pkt(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    memcpy(g_pkt, in.pkt, 188);

    g_ts.log = &vp_log;
    g_ts.nprogs = 2;
    g_ts.progs = g_progs;
    for (i = 0; i < 2; i++) {
        g_progs[i].pid = in.ppid[i] & 0x1fff;
        g_progs[i].nes = 2;
        g_progs[i].es = &g_ess[i * 2];
    }

    for (i = 0; i < 4; i++) {
        VP_PRE(in.cont[i] <= 16);
        g_ess[i].pid = in.epid[i] & 0x1fff;
        g_ess[i].cont = in.cont[i] == 16 ? NGX_TS_CC_UNSET : in.cont[i];
        g_ess[i].corrupt = in.corrupt[i] & 1;
        ngx_ts_bufs_init(g_ess[i].bufs);
    }

    for (i = 0; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i++) {
        if (in.shape == i) {
            pkt_one(g_shapes[i]);
            break;
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_PEND

/* a packet arriving on a stream that has a pending PES packet */

VP_DECLARE_INPUT(struct {
    uint8_t   pusi, rand, cont, hcont, corrupt, handler_fails, old_rand;
    uint8_t   old[12];
    uint8_t   pay[12];
})

static ngx_ts_handler_t  g_handler;
static u_char            g_old[12], g_new[12];
static ngx_buf_t         g_ob, g_nb;
static ngx_chain_t       g_ocl;
static unsigned          g_hd_ok;

static ngx_int_t
vp_handler(ngx_ts_handler_data_t *hd)
{
    g_calls++;
    g_hd_ok = hd->bufs == &g_ocl && g_ob.pos == g_old + 9 && g_ocl.next == NULL
        && hd->es == &g_es && g_es.rand == (in.old_rand & 1);
    return in.handler_fails ? NGX_ERROR : NGX_OK;
}

void
h_pend(void)
{
    ngx_int_t  rv;
    unsigned   gap, bad, lenbad;

    VP_LOAD_INPUT();
    VP_PRE(in.cont <= 15 && in.hcont <= 15);

    memcpy(g_old, in.old, 12);
    g_old[0] = g_old[1] = 0;
    g_old[2] = 1;
    g_old[3] = 0xe0;
    g_old[6] = 0x80;
    g_old[7] = 0;
    g_old[8] = 0;
    g_old[4] = 0;
    VP_PRE(g_old[5] == 0 || g_old[5] >= 3);
    memcpy(g_new, in.pay, 12);

    g_ob.start = g_ob.pos = g_old;
    g_ob.last = g_ob.end = g_old + 12;
    g_ocl.buf = &g_ob;
    g_ocl.next = NULL;
    g_nb.start = g_nb.pos = g_new;
    g_nb.last = g_nb.end = g_new + 12;

    g_handler.handler = vp_handler;
    g_ts.handlers = &g_handler;
    g_ts.log = &vp_log;
    g_es.pid = 256;
    g_es.cont = in.cont;
    g_es.corrupt = in.corrupt & 1;
    g_es.rand = in.old_rand & 1;
    g_es.bufs.head = &g_ocl;
    g_es.bufs.tail = &g_ocl.next;
    g_h.pid = 256;
    g_h.cont = in.hcont;
    g_h.rand = in.rand & 1;

    gap = in.hcont != ((in.cont + 1) & 15);
    lenbad = g_old[5] != 0 && g_old[5] != 6;

    if (!(in.pusi & 1)) {
        /* continuation: queued after the pending bytes */
        g_h.pusi = 0;
        rv = ngx_ts_read_pes(&g_ts, &g_prog, &g_es, &g_h, &g_nb);

        VP_POST(rv == NGX_OK && g_calls == 0);
        VP_POST(g_es.bufs.head == &g_ocl && g_ocl.next
                && g_ocl.next->buf == &g_nb && g_ocl.next->next == NULL
                && g_es.bufs.tail == &g_ocl.next->next);
        VP_POST(g_es.rand == (in.old_rand & 1));
        VP_POST(g_es.corrupt == ((in.corrupt & 1) || gap));
        VP_COVER(gap);
        return;
    }

    /* a new unit: the pending one is delivered first, exactly once */
    g_h.pusi = 1;
    rv = ngx_ts_read_pes(&g_ts, &g_prog, &g_es, &g_h, &g_nb);

    VP_POST(g_calls == !((in.corrupt & 1) || lenbad));
    VP_POST(!g_calls || g_hd_ok);

    if (g_calls && in.handler_fails) {
        VP_POST(rv == NGX_ERROR);
        return;
    }

    bad = g_new[0] || g_new[1] || g_new[2] != 1;
    VP_POST(rv == (bad ? NGX_ERROR : NGX_OK));
    VP_POST(g_ts.free == &g_ocl && g_ocl.next == NULL);
    VP_POST(g_es.bufs.head && g_es.bufs.head->buf == &g_nb
            && g_es.bufs.head->next == NULL
            && g_es.bufs.tail == &g_es.bufs.head->next);
    VP_POST(g_es.rand == (in.rand & 1));
    VP_POST(g_es.corrupt == gap && g_es.cont == in.hcont);
    VP_COVER(rv == NGX_OK && g_calls == 1 && gap);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_READ

#define NB  (2 * 188 + 20)

VP_DECLARE_INPUT(struct {
    uint8_t   shape;
    uint16_t  k;
    uint64_t  mem_left;
    uint8_t   data[NB];
})

static u_char       g_mem[NB];
static ngx_buf_t    g_bf[3];
static ngx_chain_t  g_cl[3];

static const uint16_t  g_shapes[][3] = {
    { 188, 376, NB }, { 1, 188, NB }, { 187, 189, 376 }, { 0, 0, 188 },
    { 4, 192, 380 },  { 200, 376, 377 }, { 376, 376, 376 }, { 20, 40, 187 },
    { 0, NB, NB }, { 188, 188, 190 }
};

static void
read_one(const uint16_t *end)
{
    unsigned   i, prev, k, full;
    ngx_int_t  rv;

    prev = 0;
    for (i = 0; i < 3; i++) {
        g_bf[i].start = g_bf[i].pos = g_mem + prev;
        g_bf[i].last = g_bf[i].end = g_mem + end[i];
        g_cl[i].buf = &g_bf[i];
        g_cl[i].next = i < 2 ? &g_cl[i + 1] : NULL;
        prev = end[i];
    }

    full = end[2] / 188;
    k = in.k;

    rv = ngx_ts_read(&g_ts, &g_cl[0]);

    if (in.mem_left < 188) {
        /* bounded memory: refused without allocating anything */
        VP_POST(rv == NGX_ERROR && g_ts.mem_left == in.mem_left
                && g_ts.buf == NULL && vp_alloc_n == 0);
        return;
    }

    VP_POST(rv == NGX_OK);
    VP_POST(g_bf[0].pos == g_bf[0].last && g_bf[1].pos == g_bf[1].last
            && g_bf[2].pos == g_bf[2].last);

    /* one packet buffer is enough when packets are not retained */
    VP_POST(g_ts.mem_left == in.mem_left - 188);

    if (end[2] % 188) {
        VP_POST(g_ts.buf && g_ts.buf->last - g_ts.buf->start == end[2] % 188
                && g_ts.buf->pos == g_ts.buf->start && g_ts.free == NULL
                && g_ts.buf->end - g_ts.buf->start == 188);
        if (k < end[2] % 188) {
            VP_POST(g_ts.buf->start[k] == g_mem[full * 188 + k]);
        }

    } else {
        VP_POST(g_ts.buf == NULL && g_ts.free && g_ts.free->next == NULL
                && g_ts.free->buf->end - g_ts.free->buf->start == 188);
        if (k < 188) {
            VP_POST(g_ts.free->buf->start[k] == g_mem[(full - 1) * 188 + k]);
        }
    }
}

void
h_read(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    memcpy(g_mem, in.data, NB);

    for (i = 0; i < NB; i += 188) {
        g_mem[i] = 0x47;
        g_mem[i + 1] = 0x01;
        g_mem[i + 3] = 0x10;
    }

    g_ts.log = &vp_log;
    g_ts.pool = &vp_pool;
    g_ts.mem_left = in.mem_left;
    ngx_ts_bufs_init(g_ts.bufs);

    for (i = 0; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i++) {
        if (in.shape == i) {
            read_one(g_shapes[i]);
            break;
        }
    }

    VP_COVER(g_ts.buf != NULL);
    VP_COVER(g_ts.free != NULL);
}

#endif
