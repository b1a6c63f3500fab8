/* contracts on nginx-common persist streams */

#include "vp.h"

static unsigned  g_bufsize;

/* releasing goes through a recorder (ngx_free is a macro for free) */
static void      *g_freed;
static unsigned   g_nfreed;
static void *vp_free(void *p);
#undef ngx_free
#define ngx_free  vp_free

#include "ngx_persist_write.c"
#include "ngx_persist_read.c"
#include "ngx_mem_rstream.c"

#define VP_OWN_TEMP_BUF
#include "vp_stubs.h"

/*
 * The writer relies on b->end only: smaller buffers than the requested 2048
 * bytes put the buffer boundaries everywhere.
 */
ngx_buf_t *
ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t  *b = ngx_pcalloc(pool, sizeof(ngx_buf_t));

    if (b == NULL) {
        return NULL;
    }

    if (g_bufsize && size > g_bufsize) {
        size = g_bufsize;
    }

    b->start = ngx_palloc(pool, size);
    if (b->start == NULL) {
        return NULL;
    }

    b->pos = b->start;
    b->last = b->start;
    b->end = b->last + size;
    b->temporary = 1;
    return b;
}

static void *
vp_free(void *p)
{
    g_freed = p;
    g_nfreed++;
    return NULL;
}

ngx_pool_t *ngx_create_pool(size_t size, ngx_log_t *log) { return NULL; }
void ngx_destroy_pool(ngx_pool_t *pool) { }
ngx_pool_cleanup_t *ngx_pool_cleanup_add(ngx_pool_t *p, size_t n) { return NULL; }
volatile ngx_time_t *ngx_cached_time;
void ngx_debug_point(void) { }

int deflateInit2_(z_streamp strm, int level, int method, int windowBits,
    int memLevel, int strategy, const char *version, int stream_size) { return Z_MEM_ERROR; }
int deflate(z_streamp strm, int flush) { return Z_STREAM_ERROR; }
int deflateEnd(z_streamp strm) { return Z_OK; }

#ifndef U_INFL
int uncompress(Bytef *dest, uLongf *destLen, const Bytef *source, uLong sourceLen) { return Z_DATA_ERROR; }
#endif


/* ------------------------------------------------------------------ */
#ifdef U_RS

/* the primitive readers, for a stream of any size */

VP_DECLARE_INPUT(struct {
    uint64_t  n, size, k, max;
    uint8_t   first[8];
})

#ifdef VP_REPLAY
#define NMAX  4096
#else
#define NMAX  (1UL << 40)
#endif

static ngx_mem_rstream_t  g_rs, g_out;
static u_char            *g_mem;
static u_char             g_scope;

VP_SPEC_BEGIN

static int
P_pos(ngx_mem_rstream_t *rs, size_t off)
{
    return rs->pos == g_mem + off && rs->end == g_mem + in.n
        && rs->log == &vp_log && rs->scope == &g_scope && rs->version == 10;
}

static int
P_read(ngx_int_t rv, ngx_mem_rstream_t *rs)
{
    if (in.size > in.n) {
        return rv == NGX_BAD_DATA && P_pos(rs, 0);
    }

    return rv == NGX_OK && P_pos(rs, in.size);
}

static int
P_get_ptr(void *rv, ngx_mem_rstream_t *rs)
{
    if (in.size > in.n) {
        return rv == NULL && P_pos(rs, 0);
    }

    return rv == g_mem && P_pos(rs, in.size);
}

static int
P_get_stream(ngx_int_t rv, ngx_mem_rstream_t *rs, ngx_mem_rstream_t *out)
{
    if (in.size > in.n) {
        return rv == NGX_BAD_DATA && P_pos(rs, 0);
    }

    return rv == NGX_OK && (rs == out || P_pos(rs, in.size))
        && out->pos == g_mem && out->end == g_mem + in.size
        && out->log == &vp_log && out->scope == &g_scope && out->version == 10;
}

static uint32_t
sp_u32(size_t o)
{
    return g_mem[o] | (g_mem[o + 1] << 8) | (g_mem[o + 2] << 16)
        | ((uint32_t) g_mem[o + 3] << 24);
}

static int
P_str(ngx_int_t rv, ngx_mem_rstream_t *rs, ngx_str_t *s)
{
    if (in.n < 4 || in.n - 4 < sp_u32(0)) {
        return rv == NGX_BAD_DATA && rs->pos >= g_mem && rs->pos <= rs->end;
    }

    return rv == NGX_OK && s->len == sp_u32(0) && s->data == g_mem + 4
        && P_pos(rs, 4 + (size_t) sp_u32(0));
}

VP_SPEC_END

void *ngx_mem_rstream_get_ptr_c(ngx_mem_rstream_t *rs, size_t size)
__CPROVER_requires(size == in.size && __CPROVER_r_ok(g_mem, in.n) && P_pos(rs, 0))
__CPROVER_assigns(rs->pos)
__CPROVER_ensures(P_get_ptr(__CPROVER_return_value, rs))
;

ngx_int_t ngx_mem_rstream_get_stream_c(ngx_mem_rstream_t *rs, size_t size,
    ngx_mem_rstream_t *out)
__CPROVER_requires(size == in.size && __CPROVER_r_ok(g_mem, in.n) && P_pos(rs, 0))
__CPROVER_assigns(rs->pos, *out)
__CPROVER_ensures(P_get_stream(__CPROVER_return_value, rs, out))
;

ngx_int_t ngx_mem_rstream_str_get_c(ngx_mem_rstream_t *rs, ngx_str_t *s)
__CPROVER_requires(__CPROVER_r_ok(g_mem, in.n) && P_pos(rs, 0))
__CPROVER_assigns(rs->pos, s->data, s->len)
__CPROVER_ensures(P_str(__CPROVER_return_value, rs, s))
;

static void
rs_init(void)
{
    VP_LOAD_INPUT();
    VP_PRE(in.n <= NMAX);

    g_mem = malloc(in.n);
    VP_PRE(g_mem != NULL);
    if (in.n >= 8) {
        memcpy(g_mem, in.first, 8);
    }

    ngx_mem_rstream_set(&g_rs, g_mem, g_mem + in.n, &vp_log, &g_scope, 10);
}

#if (U_RS == 1)

void
h_rs(void)
{
    void  *rv;

    rs_init();
    rv = ngx_mem_rstream_get_ptr(&g_rs, in.size);
    VP_POST(P_get_ptr(rv, &g_rs));
    VP_COVER(rv == NULL);
    VP_COVER(rv != NULL && in.size > 100);
}

#elif (U_RS == 2)

void
h_rs(void)
{
    ngx_int_t  rv;

    rs_init();
    rv = ngx_mem_rstream_get_stream(&g_rs, in.size, in.k ? &g_rs : &g_out);
    VP_POST(P_get_stream(rv, &g_rs, in.k ? &g_rs : &g_out));
    VP_COVER(rv == NGX_OK && in.k);
    VP_COVER(rv == NGX_OK && !in.k);
}

#elif (U_RS == 3)

static ngx_str_t  g_s;

void
h_rs(void)
{
    ngx_int_t  rv;

    rs_init();
    rv = ngx_mem_rstream_str_get(&g_rs, &g_s);
    VP_POST(P_str(rv, &g_rs, &g_s));
    VP_COVER(rv == NGX_OK && g_s.len > 5);
    VP_COVER(rv != NGX_OK && in.n > 8);
}

#elif (U_RS == 4)

/* copying readers: destination of exactly the permitted size */

static u_char     g_dst[24];

ngx_int_t ngx_mem_rstream_read_c(ngx_mem_rstream_t *rs, void *buf, size_t size)
__CPROVER_requires(size == in.size && size <= 24 && buf == g_dst)
__CPROVER_requires(__CPROVER_r_ok(g_mem, in.n) && P_pos(rs, 0))
__CPROVER_assigns(rs->pos, __CPROVER_object_whole(g_dst))
__CPROVER_ensures(P_read(__CPROVER_return_value, rs))
__CPROVER_ensures(__CPROVER_return_value != NGX_OK || in.k >= size || g_dst[in.k] == g_mem[in.k])
__CPROVER_ensures(in.k < size || in.k >= 24 || g_dst[in.k] == 0xee)
;

void
h_rs(void)
{
    ngx_int_t  rv;

    rs_init();
    VP_PRE(in.size <= 24);
    memset(g_dst, 0xee, 24);

    rv = ngx_mem_rstream_read(&g_rs, g_dst, in.size);
    VP_POST(P_read(rv, &g_rs));
    VP_POST(rv != NGX_OK || in.k >= in.size || g_dst[in.k] == g_mem[in.k]);
    VP_POST(in.k < in.size || in.k >= 24 || g_dst[in.k] == 0xee);
    VP_COVER(rv == NGX_OK && in.k < in.size);
    VP_COVER(rv != NGX_OK);
}

#elif (U_RS == 5)

static u_char     g_dst[24];
static ngx_str_t  g_s;

static int
P_fixed(ngx_int_t rv)
{
    if (in.n < 4 || sp_u32(0) > in.max || in.n - 4 < sp_u32(0)) {
        return rv == NGX_BAD_DATA && g_rs.pos >= g_mem && g_rs.pos <= g_rs.end
            && (in.k >= 24 || g_dst[in.k] == 0xee);
    }

    return rv == NGX_OK && g_s.len == sp_u32(0) && g_s.data == g_dst
        && P_pos(&g_rs, 4 + (size_t) sp_u32(0))
        && (in.k >= 24 || g_dst[in.k] == (in.k < g_s.len ? g_mem[4 + in.k] : 0xee));
}

ngx_int_t ngx_mem_rstream_str_fixed_c(ngx_mem_rstream_t *rs, ngx_str_t *s, size_t max)
__CPROVER_requires(max == in.max && max <= 24 && s->data == g_dst && rs == &g_rs && s == &g_s)
__CPROVER_requires(__CPROVER_r_ok(g_mem, in.n) && P_pos(rs, 0))
__CPROVER_assigns(rs->pos, s->len, __CPROVER_object_whole(g_dst))
__CPROVER_ensures(P_fixed(__CPROVER_return_value))
;

void
h_rs(void)
{
    ngx_int_t  rv;

    rs_init();
    VP_PRE(in.max <= 24);
    memset(g_dst, 0xee, 24);
    g_s.data = g_dst;

    rv = ngx_mem_rstream_str_fixed(&g_rs, &g_s, in.max);
    VP_POST(P_fixed(rv));
    VP_COVER(rv == NGX_OK && g_s.len == 24);
    VP_COVER(rv != NGX_OK && in.n > 100);
}

#endif
#endif


/* ------------------------------------------------------------------ */
#ifdef U_BLK

VP_DECLARE_INPUT(struct {
    uint64_t  n;
    uint32_t  type;
    uint64_t  pos;
    uint8_t   first[40];
})

#ifdef VP_REPLAY
#define NMAX  65536
#else
#define NMAX  (1UL << 40)
#endif

static ngx_mem_rstream_t  g_rs, g_out;
static u_char            *g_mem;
static u_char             g_scope;

VP_SPEC_BEGIN

static uint32_t
sp_u32(size_t o)
{
    return g_mem[o] | (g_mem[o + 1] << 8) | (g_mem[o + 2] << 16)
        | ((uint32_t) g_mem[o + 3] << 24);
}

/* the block starts at 0: its payload is exactly [12, size) and the stream
 * continues at size; nothing is handed out past the end of the stream */
static int
P_block(ngx_persist_block_hdr_t *rv, ngx_mem_rstream_t *rs,
    ngx_mem_rstream_t *out)
{
    if (in.n < 12 || sp_u32(4) < 12 || sp_u32(4) > in.n) {
        return rv == NULL;
    }

    return (u_char *) rv == g_mem
        && out->pos == g_mem + 12 && out->end == g_mem + sp_u32(4)
        && out->log == &vp_log && out->scope == &g_scope && out->version == 10
        && rs->pos == g_mem + sp_u32(4) && rs->end == g_mem + in.n;
}

static int
P_file(ngx_int_t rv, ngx_mem_rstream_t *rs)
{
    uint32_t  hs;

    if (in.n < 32 || sp_u32(0) != 0x66706c6b || sp_u32(20) != in.type) {
        return rv == NGX_BAD_DATA;
    }

    if (sp_u32(16) < 9 || sp_u32(16) > 10) {
        return rv == NGX_DECLINED;
    }

    hs = sp_u32(8) & 0x0fffffff;
    if (hs < 32 || hs > in.n) {
        return rv == NGX_BAD_DATA;
    }

    return rv == NGX_OK && rs->pos == g_mem + hs && rs->end == g_mem + in.n
        && rs->log == &vp_log && rs->scope == &g_scope
        && rs->version == sp_u32(16);
}

static int
P_skip(ngx_int_t rv, ngx_mem_rstream_t *rs)
{
    uint32_t  hs = sp_u32(8) & 0x0fffffff;

    if (hs < in.pos || hs > in.n) {
        return rv == NGX_BAD_DATA && rs->pos == g_mem + in.pos;
    }

    return rv == NGX_OK && rs->pos == g_mem + hs && rs->end == g_mem + in.n;
}

VP_SPEC_END

ngx_persist_block_hdr_t *ngx_persist_read_block_c(ngx_mem_rstream_t *rs,
    ngx_mem_rstream_t *block_rs)
__CPROVER_requires(rs == &g_rs && block_rs == &g_out && __CPROVER_r_ok(g_mem, in.n))
__CPROVER_assigns(rs->pos, *block_rs)
__CPROVER_ensures(P_block(__CPROVER_return_value, rs, block_rs))
;

ngx_int_t ngx_persist_read_file_header_c(ngx_str_t *buf, uint32_t type,
    ngx_log_t *log, void *scope, ngx_mem_rstream_t *rs)
__CPROVER_requires(__CPROVER_r_ok(g_mem, in.n) && buf->data == g_mem && buf->len == in.n)
__CPROVER_assigns(*rs)
__CPROVER_ensures(P_file(__CPROVER_return_value, rs))
;

ngx_int_t ngx_persist_read_skip_block_header_c(ngx_mem_rstream_t *rs,
    ngx_persist_block_hdr_t *header)
__CPROVER_requires(rs == &g_rs && (u_char *) header == g_mem && __CPROVER_r_ok(g_mem, in.n))
__CPROVER_assigns(rs->pos)
__CPROVER_ensures(P_skip(__CPROVER_return_value, rs))
;

static void
blk_init(void)
{
    VP_LOAD_INPUT();
    VP_PRE(in.n <= NMAX);

    g_mem = malloc(in.n);
    VP_PRE(g_mem != NULL);
    if (in.n >= 40) {
        memcpy(g_mem, in.first, 40);
    }

    ngx_mem_rstream_set(&g_rs, g_mem, g_mem + in.n, &vp_log, &g_scope, 10);
}

#if (U_BLK == 1)

void
h_blk(void)
{
    void  *rv;

    blk_init();
    rv = ngx_persist_read_block(&g_rs, &g_out);
    VP_POST(P_block(rv, &g_rs, &g_out));
    VP_COVER(rv == NULL && in.n > 40);
    VP_COVER(rv != NULL && in.n > 100);
}

#elif (U_BLK == 2)

void
h_blk(void)
{
    ngx_int_t  rv;
    ngx_str_t  s;

    blk_init();
    s.data = g_mem;
    s.len = in.n;
    rv = ngx_persist_read_file_header(&s, in.type, &vp_log, &g_scope, &g_out);
    VP_POST(P_file(rv, &g_out));
    VP_COVER(rv == NGX_OK);
    VP_COVER(rv == NGX_DECLINED);
}

#elif (U_BLK == 3)

void
h_blk(void)
{
    ngx_int_t  rv;

    blk_init();
    VP_PRE(in.n >= 40 && in.pos >= 12 && in.pos <= in.n && in.pos < (1u << 31));
    g_rs.pos = g_mem + in.pos;
    rv = ngx_persist_read_skip_block_header(&g_rs, (void *) g_mem);
    VP_POST(P_skip(rv, &g_rs));
    VP_COVER(rv == NGX_OK && g_rs.pos > g_mem + in.pos);
    VP_COVER(rv != NGX_OK);
}

#endif
#endif


/* ------------------------------------------------------------------ */
#ifdef U_INFL

/* inflate: the output buffer has exactly the announced size; a failure
 * releases what was allocated, once, by the allocator that provided it */

VP_DECLARE_INPUT(struct {
    uint8_t   hdr[40];
    uint64_t  n, max, out;
    uint8_t   use_pool, use_ptr, zrc, fail;
})

static u_char             g_mem[40];
static ngx_mem_rstream_t  g_rs;
static unsigned           g_unc;
static void              *g_dest, *g_ptr;
static ngx_str_t          g_buf;
static size_t             g_dest_len;
static u_char             g_scope;

int
uncompress(Bytef *dest, uLongf *destLen, const Bytef *source, uLong sourceLen)
{
    g_unc++;
    g_dest = dest;
    g_dest_len = *destLen;
    VP_ASSERT(source == g_mem + 36 && sourceLen == 4);

    if (in.zrc) {
        return Z_DATA_ERROR;
    }

    *destLen = in.out;
    return Z_OK;
}

static uint32_t
sp_u32(size_t o)
{
    return g_mem[o] | (g_mem[o + 1] << 8) | (g_mem[o + 2] << 16)
        | ((uint32_t) g_mem[o + 3] << 24);
}

#define HS   (sp_u32(8) & 0x0fffffff)
#define US   sp_u32(12)

VP_SPEC_BEGIN

static int
P_infl(ngx_int_t rv)
{
    if (!(sp_u32(8) & 0x40000000)) {
        return rv == NGX_OK && g_unc == 0 && g_rs.pos == g_mem + 36
            && g_rs.end == g_mem + 40 && vp_alloc_n == 0 && g_nfreed == 0
            && g_ptr == (in.use_ptr ? NULL : &g_buf);
    }

    if (US < HS || (in.max && US > in.max)) {
        return rv == NGX_BAD_DATA && g_unc == 0 && vp_alloc_n == 0
            && g_nfreed == 0;
    }

    if (in.fail & 1) {
        return rv == NGX_ERROR && g_unc == 0 && g_nfreed == 0;
    }

    if (g_unc != 1 || g_dest_len != US - HS || vp_alloc_bytes != US - HS) {
        return 0;
    }

    if (in.zrc) {
        return rv == NGX_BAD_DATA
            && (in.use_pool ? g_nfreed == 0
                            : g_nfreed == 1 && g_freed == g_dest);
    }

    return rv == NGX_OK && g_nfreed == 0 && g_rs.pos == g_dest
        && g_rs.end == (u_char *) g_dest + in.out
        && g_rs.log == &vp_log && g_rs.scope == &g_scope && g_rs.version == 9
        && g_ptr == (in.use_ptr ? g_dest : &g_buf);
}

VP_SPEC_END

ngx_int_t ngx_persist_read_inflate_c(ngx_str_t *buf, size_t max_size,
    ngx_mem_rstream_t *rs, ngx_pool_t *pool, void **ptr)
__CPROVER_requires(buf == &g_buf && buf->data == g_mem && buf->len == 40)
__CPROVER_requires(max_size == in.max && rs == &g_rs && rs->pos == g_mem + 36
    && rs->end == g_mem + 40 && rs->log == &vp_log && rs->scope == &g_scope
    && rs->version == 9)
__CPROVER_requires(pool == (in.use_pool ? &vp_pool : NULL)
    && ptr == (in.use_ptr ? &g_ptr : NULL))
__CPROVER_requires(US < HS || in.out <= US - HS)
__CPROVER_requires(g_unc == 0 && g_nfreed == 0 && vp_alloc_n == 0
    && vp_alloc_bytes == 0)
__CPROVER_assigns(g_rs.pos, g_rs.end, g_rs.log, g_rs.scope, g_rs.version, g_ptr, g_unc, g_dest, g_dest_len, g_freed, g_nfreed,
    vp_alloc_n, vp_alloc_bytes)
__CPROVER_ensures(P_infl(__CPROVER_return_value))
;

void
h_infl(void)
{
    ngx_int_t  rv;

    VP_LOAD_INPUT();
    memcpy(g_mem, in.hdr, 40);
    g_buf.data = g_mem;
    g_buf.len = 40;
    g_ptr = &g_buf;
    g_unc = 0;
    g_nfreed = 0;
    vp_alloc_fail = in.fail & 1;
    VP_PRE(US < HS || in.out <= US - HS);

    ngx_mem_rstream_set(&g_rs, g_mem + 36, g_mem + 40, &vp_log, &g_scope, 9);

    rv = ngx_persist_read_inflate(&g_buf, in.max, &g_rs,
        in.use_pool ? &vp_pool : NULL, in.use_ptr ? &g_ptr : NULL);

    VP_POST(P_infl(rv));
    VP_COVER(rv == NGX_OK && in.out > 5);
    VP_COVER(rv == NGX_BAD_DATA && g_unc == 1 && in.use_pool);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_WR

/*
 * Scripts of writer calls (fixed), symbolic contents:
 *   ( open a block   ) close it   h  set_header explicitly
 *   1..9 write n bytes   A..E append 1..5 bytes by reference
 *   r join a second writer holding 7 bytes
 */

#define VP_MAX  96

VP_DECLARE_INPUT(struct {
    uint8_t   shape;
    uint8_t   data[VP_MAX];
})

typedef struct {
    const char  *ops;
    uint8_t      bufsize;
    uint8_t      type;
} script_t;

static const script_t  g_scripts[] = {
    { "(5)", 7, 0 },
    { "(3(2)4)", 16, 0 },
    { "((6)(1))", 10, 0 },
    { "2(A3(B)2(C1))", 9, 0 },
    { "(1h(2)3)", 13, 0 },
    { "(h4)", 12, 0 },
    { "((((2))))3", 24, 0 },
    { "(2r3)", 15, 0 },
    { "9D2E(1A)", 11, 0 },
    { "(A)(2)", 64, 0 },
    { "(A2(B)", 5, 0 },
    { "(3(2)A)", 48, 1 },
    { "r(r2)", 12, 0 },
    { "A(B2)3", 12, 0 },
};

static u_char    g_data[VP_MAX], g_exp[VP_MAX], g_got[VP_MAX];
static unsigned  g_n;           /* expected bytes */

static void
put32(unsigned at, uint32_t v)
{
    g_exp[at] = (u_char) v;
    g_exp[at + 1] = (u_char) (v >> 8);
    g_exp[at + 2] = (u_char) (v >> 16);
    g_exp[at + 3] = (u_char) (v >> 24);
}

static void
wr_one(const script_t *s)
{
    const char               *p;
    unsigned                  i, k, n, d, start[6], hdr[6], used, header;
    size_t                    size;
    ngx_int_t                 rv;
    ngx_chain_t              *cl, **last;
    ngx_persist_write_ctx_t  *ctx, *ctx2;

    g_bufsize = s->bufsize;
    ctx = ngx_persist_write_init(&vp_pool, s->type ? 0x61626364 : 0, 0);
    VP_POST(ctx != NULL);

    header = s->type ? sizeof(ngx_persist_file_header_t) : 0;
    g_n = header;
    used = 0;
    d = 0;

    for (p = s->ops; *p; p++) {
        rv = NGX_OK;

        if (*p == '(') {
            if (d && !hdr[d - 1]) {
                hdr[d - 1] = (g_n - start[d - 1]) | 0x10000000;
            }

            start[d] = g_n;
            hdr[d] = 0;
            put32(g_n, 0x30303030 + d);
            g_n += 12;
            rv = ngx_persist_write_block_open(ctx, 0x30303030 + d);
            d++;

        } else if (*p == ')') {
            d--;
            put32(start[d] + 4, g_n - start[d]);
            put32(start[d] + 8, hdr[d] ? hdr[d] : 12);
            ngx_persist_write_block_close(ctx);

        } else if (*p == 'h') {
            if (!hdr[d - 1]) {
                hdr[d - 1] = (g_n - start[d - 1]) | 0x20000000;
            }

            ngx_persist_write_block_set_header(ctx,
                NGX_PERSIST_HEADER_FLAG_INDEX);

        } else if (*p == 'r') {
            ctx2 = ngx_persist_write_init(&vp_pool, 0, 0);
            VP_POST(ctx2 != NULL);
            rv = ngx_persist_write(ctx2, g_data + used, 7);
            for (i = 0; i < 7; i++) {
                g_exp[g_n + i] = g_data[used + i];
            }

            g_n += 7;
            used += 7;
            VP_POST(rv == NGX_OK);
            rv = ngx_persist_write_chain(ctx, ctx2);

        } else {
            n = *p >= 'A' ? *p - 'A' + 1 : *p - '0';
            for (i = 0; i < n; i++) {
                g_exp[g_n + i] = g_data[used + i];
            }

            rv = *p >= 'A' ? ngx_persist_write_append(ctx, g_data + used, n)
                 : ngx_persist_write(ctx, g_data + used, n);
            g_n += n;
            used += n;
        }

        VP_POST(rv == NGX_OK);
        VP_POST(ngx_persist_write_get_size(ctx) == g_n);
    }

    if (d) {
        /* an unbalanced writer produces no output */
        VP_POST(ngx_persist_write_close(ctx, &size, NULL) == NULL);
        return;
    }

    cl = ngx_persist_write_close(ctx, &size, &last);
    VP_POST(size == g_n);

    k = 0;
    for (; cl; cl = cl->next) {
        n = cl->buf->last - cl->buf->pos;
        VP_POST(n > 0 && k + n <= g_n);
        VP_POST(cl->next || last == &cl->next);
        for (i = 0; i < n; i++) {
            g_got[k + i] = cl->buf->pos[i];
        }

        k += n;
    }

    VP_POST(k == g_n);

    for (i = header; i < g_n; i++) {
        VP_POST(g_got[i] == g_exp[i]);
    }

    if (header) {
        /* the reader accepts the writer's header */
        ngx_str_t          b;
        ngx_mem_rstream_t  rs;

        b.data = g_got;
        b.len = g_n;
        VP_POST(ngx_persist_read_file_header(&b, 0x61626364, &vp_log, NULL, &rs)
                == NGX_OK);
        VP_POST(rs.pos == g_got + header && rs.end == g_got + g_n
                && rs.version == NGX_PERSIST_FILE_VERSION);
        VP_POST(((ngx_persist_file_header_t *) g_got)->size == g_n);
    }

    VP_COVER(g_n > 40);
}

void
h_wr(void)
{
    static ngx_time_t  t;
    unsigned           i;

    VP_LOAD_INPUT();
    memcpy(g_data, in.data, VP_MAX);
    ngx_cached_time = &t;
    vp_pool.log = &vp_log;

    for (i = 0; i < sizeof(g_scripts) / sizeof(g_scripts[0]); i++) {
        if (in.shape == i) {
            wr_one(&g_scripts[i]);
            break;
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_LIST

/* list reader: nalloc-sized parts, never more than count elements */

#define VP_MAX  40

VP_DECLARE_INPUT(struct {
    uint8_t  shape;
    uint8_t  data[VP_MAX];
})

/* nalloc, already used, count, bytes available, failing allocation */
static const uint8_t  g_shapes[][5] = {
    { 3, 0, 2, 12, 0 }, { 3, 1, 2, 8, 0 }, { 3, 1, 3, 40, 0 }, { 2, 2, 5, 20, 0 },
    { 2, 0, 5, 19, 0 }, { 1, 1, 3, 12, 0 }, { 2, 2, 5, 20, 1 }, { 2, 2, 5, 20, 2 },
    { 4, 2, 0, 0, 0 }, { 3, 0, 7, 28, 0 }
};

static u_char             g_data[VP_MAX];
static ngx_mem_rstream_t  g_rs;

static void
list_one(const uint8_t *s)
{
    unsigned          i, j, k, n;
    ngx_int_t         rv;
    ngx_list_t        l;
    ngx_list_part_t  *part;

    l.pool = &vp_pool;
    l.size = 4;
    l.nalloc = s[0];
    l.part.elts = malloc(s[0] * 4);
    l.part.nelts = s[1];
    l.part.next = NULL;
    l.last = &l.part;
    vp_alloc_fail = s[4];

    ngx_mem_rstream_set(&g_rs, g_data, g_data + s[3], &vp_log, NULL, 10);

    rv = ngx_mem_rstream_read_list(&g_rs, &l, s[2]);

    if (s[4]) {
        VP_POST(rv == NGX_ERROR);
        return;
    }

    if (s[3] < s[2] * 4) {
        VP_POST(rv == NGX_BAD_DATA);
        return;
    }

    VP_POST(rv == NGX_OK && g_rs.pos == g_data + s[2] * 4);

    n = 0;
    k = 0;
    for (part = &l.part; part; part = part->next) {
        VP_POST(part->nelts <= l.nalloc && (part->next || part == l.last));
        VP_POST(part->nelts == l.nalloc || part->next == NULL);
        for (i = part == &l.part ? s[1] : 0; i < part->nelts; i++) {
            for (j = 0; j < 4; j++) {
                VP_POST(((u_char *) part->elts)[i * 4 + j] == g_data[k * 4 + j]);
            }

            k++;
        }
    }

    VP_POST(k == s[2]);
    VP_COVER(k == 7);
}

void
h_list(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    memcpy(g_data, in.data, VP_MAX);

    for (i = 0; i < sizeof(g_shapes) / sizeof(g_shapes[0]); i++) {
        if (in.shape == i) {
            list_one(g_shapes[i]);
            break;
        }
    }
}

#endif
