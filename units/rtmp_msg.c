/* contracts on the RTMP protocol, user and aggregate message handlers */

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;
volatile ngx_msec_t    ngx_current_msec;

#include "nginx-rtmp-module/src/ngx_rtmp_receive.c"
#include "vp_stubs.h"

ngx_module_t                  ngx_rtmp_core_module;
ngx_rtmp_core_main_conf_t    *ngx_rtmp_core_main_conf;
ngx_rtmp_stream_begin_pt      ngx_rtmp_stream_begin;
ngx_rtmp_stream_eof_pt        ngx_rtmp_stream_eof;
ngx_rtmp_stream_dry_pt        ngx_rtmp_stream_dry;
ngx_rtmp_set_buflen_pt        ngx_rtmp_set_buflen;
ngx_rtmp_recorded_pt          ngx_rtmp_recorded;

#ifndef SIZE
#define SIZE  32
#endif

VP_DECLARE_INPUT(struct {
    u_char      b[32];
    uint8_t     n;
    uint8_t     type;
    uint32_t    ack;
    int         rc;
})

static ngx_rtmp_session_t   g_s;
static ngx_rtmp_header_t    g_h;
static ngx_connection_t     g_c;

/* what a handler asked for */
static int       g_call;
static uint32_t  g_arg, g_arg2;
static unsigned  g_calls;

enum { C_CHUNK = 1, C_BEGIN, C_EOF, C_DRY, C_BUFLEN, C_RECORDED, C_PING, C_RESET };

static ngx_int_t
vp_call(int what, uint32_t a, uint32_t b)
{
    g_calls++;
    g_call = what;
    g_arg = a;
    g_arg2 = b;
    return in.rc;
}

ngx_int_t
ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
{
    return vp_call(C_CHUNK, size, 0);
}

ngx_int_t
ngx_rtmp_send_ping_response(ngx_rtmp_session_t *s, uint32_t timestamp)
{
    return vp_call(C_PING, timestamp, 0);
}

void
ngx_rtmp_reset_ping(ngx_rtmp_session_t *s)
{
    vp_call(C_RESET, 0, 0);
}

static ngx_int_t
vp_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v)
{
    return vp_call(C_BEGIN, v->msid, 0);
}

static ngx_int_t
vp_eof(ngx_rtmp_session_t *s, ngx_rtmp_stream_eof_t *v)
{
    return vp_call(C_EOF, v->msid, 0);
}

static ngx_int_t
vp_dry(ngx_rtmp_session_t *s, ngx_rtmp_stream_dry_t *v)
{
    return vp_call(C_DRY, v->msid, 0);
}

static ngx_int_t
vp_buflen(ngx_rtmp_session_t *s, ngx_rtmp_set_buflen_t *v)
{
    return vp_call(C_BUFLEN, v->msid, v->buflen);
}

static ngx_int_t
vp_recorded(ngx_rtmp_session_t *s, ngx_rtmp_recorded_t *v)
{
    return vp_call(C_RECORDED, v->msid, 0);
}

char *
ngx_rtmp_user_message_type(uint16_t evt)
{
    return "";
}

char *
ngx_rtmp_message_type(uint8_t type)
{
    return "";
}

ngx_int_t
ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts, size_t nelts)
{
    return NGX_ERROR;
}

void *
ngx_hash_find(ngx_hash_t *hash, ngx_uint_t key, u_char *name, size_t len)
{
    return NULL;
}

ngx_uint_t
ngx_hash_strlow(u_char *dst, u_char *src, size_t n)
{
    return 0;
}

static void
x_start(void)
{
    VP_LOAD_INPUT();
    ngx_rtmp_stream_begin = vp_begin;
    ngx_rtmp_stream_eof = vp_eof;
    ngx_rtmp_stream_dry = vp_dry;
    ngx_rtmp_set_buflen = vp_buflen;
    ngx_rtmp_recorded = vp_recorded;
    g_s.connection = &g_c;
    g_c.log = &vp_log;
    g_calls = 0;
    g_call = 0;
}


#if defined U_PROTOCOL || defined U_USER

static ngx_buf_t    g_buf;
static ngx_chain_t  g_in;
static u_char       g_mem[48];

/* one buffer of n bytes; what lies behind it is not read */
static void
x_load(void)
{
    unsigned  i;

    x_start();
    VP_PRE(in.n <= 16);
    for (i = 0; i < 48; i++) {
        g_mem[i] = i < in.n ? in.b[i % 32] : 0xff;
    }

    g_buf.pos = g_mem;
    g_buf.last = g_mem + in.n;
    g_in.buf = &g_buf;
    g_in.next = NULL;
    g_h.type = in.type;
    g_s.ack_size = in.ack;
    g_s.buflen = in.ack;
}

#define BE32(p)                                                              \
    ((uint32_t) (p)[0] << 24 | (p)[1] << 16 | (p)[2] << 8 | (p)[3])
#endif


#ifdef U_PROTOCOL
void
h_protocol(void)
{
    uint32_t   v;
    ngx_int_t  rc;

    x_load();
    rc = ngx_rtmp_protocol_message_handler(&g_s, &g_h, &g_in);
    v = BE32(in.b);

    if (in.n < 4) {
        VP_POST(rc == NGX_OK && g_calls == 0 && g_s.ack_size == in.ack);
        VP_COVER(1);
        return;
    }

    VP_POST(rc == (in.type == 1 || in.type == 2 || in.type == 3 || in.type == 5
                   || in.type == 6 ? NGX_OK : NGX_ERROR));
    VP_POST(g_s.ack_size == (in.type == 5 ? v : in.ack));
    VP_POST(g_calls == (in.type == 1) && (g_calls == 0 || (g_call == C_CHUNK && g_arg == v)));
    VP_COVER(in.type == 1);
    VP_COVER(in.type == 5);
    VP_COVER(rc == NGX_ERROR);
}
#endif


#ifdef U_USER
void
h_user(void)
{
    unsigned   evt;
    uint32_t   v, v2;
    ngx_int_t  rc;

    static const int  calls[] = {
        C_BEGIN, C_EOF, C_DRY, C_BUFLEN, C_RECORDED, 0, C_PING, C_RESET
    };

    x_load();
    rc = ngx_rtmp_user_message_handler(&g_s, &g_h, &g_in);
    evt = in.b[0] << 8 | in.b[1];
    v = BE32(in.b + 2);
    v2 = BE32(in.b + 6);

    if (in.n < 6 || evt > 7 || evt == 5 || (evt == 3 && in.n < 10)) {
        VP_POST(rc == NGX_OK && g_calls == 0 && g_s.buflen == in.ack);
        VP_COVER(evt == 3);
        VP_COVER(evt == 0);
        return;
    }

    VP_POST(g_calls == 1 && g_call == calls[evt]);
    VP_POST(evt == 7 ? rc == NGX_OK : rc == in.rc && g_arg == v);
    VP_POST(g_arg2 == (evt == 3 ? v2 : 0));
    VP_POST(g_s.buflen == (evt == 3 ? v2 : in.ack));
    VP_COVER(evt == 3);
    VP_COVER(evt == 6);
}
#endif


#ifdef U_AGGREGATE

#define WIRE  72
#define BUFS  68

static u_char       g_wire[WIRE];
static unsigned     g_wires;
static ngx_chain_t  g_cls[BUFS];
static ngx_buf_t    g_bufs[BUFS];

#define MSGS  5

static struct {
    u_char    type;
    uint32_t  mlen, ts, msid;
    unsigned  at;
} g_exp[MSGS];

static unsigned  g_exps, g_got, g_next, g_fail;
static uint32_t  g_base;

ngx_int_t
ngx_rtmp_receive_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *cl)
{
    unsigned   n;
    u_char    *p;

    VP_POST(s == &g_s && g_got < g_exps);
    VP_POST(h->type == g_exp[g_got].type && h->mlen == g_exp[g_got].mlen);
    VP_POST(h->timestamp == g_h.timestamp + g_exp[g_got].ts - g_base);
    VP_POST(h->msid == g_exp[g_got].msid && h->csid == g_h.csid);

    n = 0;
    for (; cl; cl = cl->next) {
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            VP_POST(p == g_wire + g_exp[g_got].at + n);
            n++;
        }
    }

    VP_POST(n == g_exp[g_got].mlen);
    g_got++;
    return g_got == g_fail ? NGX_ERROR : NGX_OK;
}

static void
x_put(u_char c)
{
    g_wire[g_wires++] = c;
}

static void
x_24(uint32_t v)
{
    x_put(v >> 16);
    x_put(v >> 8);
    x_put(v);
}

/* timestamps and stream ids of any value */
static void
x_sub(u_char type, unsigned mlen)
{
    unsigned  i;
    u_char    t[4], m[3];

    for (i = 0; i < 4; i++) {
        t[i] = in.b[g_next++ % 32];
    }

    for (i = 0; i < 3; i++) {
        m[i] = in.b[g_next++ % 32];
    }

    x_put(type);
    x_24(mlen);
    x_put(t[1]);
    x_put(t[2]);
    x_put(t[3]);
    x_put(t[0]);
    x_put(m[0]);
    x_put(m[1]);
    x_put(m[2]);

    g_exp[g_exps].type = type;
    g_exp[g_exps].mlen = mlen;
    g_exp[g_exps].ts = (uint32_t) t[0] << 24 | t[1] << 16 | t[2] << 8 | t[3];
    g_exp[g_exps].msid = m[0] << 16 | m[1] << 8 | m[2];
    g_exp[g_exps].at = g_wires;
    if (g_exps == 0) {
        g_base = g_exp[0].ts;
    }

    g_exps++;
    for (i = 0; i < mlen; i++) {
        x_put(0xe0 + i);
    }
}

/* the size of the message before */
static void
x_back(unsigned size)
{
    x_put(0);
    x_24(11 + size);
}

static ngx_int_t
x_run(unsigned first, unsigned step, unsigned total)
{
    unsigned  i, n, size;

    for (i = n = 0; i < total; n++) {
        size = n == 0 ? first : step;
        if (n == 1) {
            size = 0;
        }

        if (size > total - i) {
            size = total - i;
        }

        g_bufs[n].start = g_bufs[n].pos = g_wire + i;
        g_bufs[n].last = g_bufs[n].end = g_wire + i + size;
        g_cls[n].buf = &g_bufs[n];
        g_cls[n].next = &g_cls[n + 1];
        i += size;
    }

    g_cls[n - 1].next = NULL;
    g_got = 0;
    return ngx_rtmp_aggregate_message_handler(&g_s, &g_h, g_cls);
}

static void
x_new(void)
{
    g_wires = g_exps = g_next = 0;
    g_fail = 100;
}

static void
x_three(unsigned first, unsigned step)
{
    x_new();
    x_sub(8, 7);
    x_back(7);
    x_sub(9, 0);
    x_back(0);
    x_sub(18, 12);
    x_back(12);
    VP_POST(x_run(first, step, g_wires) == NGX_OK);
    VP_POST(g_got == 3);
}

void
h_aggregate(void)
{
    unsigned  i;

    x_start();
    g_h.type = NGX_RTMP_MSG_AGGREGATE;
    g_h.csid = 6;
    g_h.timestamp = in.ack;
    g_h.mlen = 100;

    x_three(200, 1);
    x_three(1, 1);
    x_three(18, 16);
    x_three(16, 6);
    x_three(11, 7);
    x_three(22, 11);

    /* cut short: a header, or the data */
    x_new();
    x_sub(8, 7);
    x_back(7);
    i = g_wires;
    x_sub(9, 5);
    VP_POST(x_run(16, 16, i) == NGX_OK && g_got == 1);
    VP_POST(x_run(16, 16, i - 2) == NGX_OK && g_got == 1);
    for (i++; i < g_wires; i++) {
        VP_POST(x_run(16, 16, i) == NGX_ERROR && g_got == 1);
    }

    /* a handler fails */
    g_fail = 1;
    x_back(5);
    VP_POST(x_run(16, 16, g_wires) == NGX_ERROR && g_got == 1);
    g_fail = 2;
    VP_POST(x_run(200, 16, g_wires) == NGX_ERROR && g_got == 2);

    /* an aggregate in an aggregate */
    x_new();
    x_sub(8, 7);
    x_back(7);
    x_sub(NGX_RTMP_MSG_AGGREGATE, 15);
    x_back(15);
    VP_POST(x_run(16, 16, g_wires) == NGX_ERROR && g_got == 1);
    VP_COVER(1);
}
#endif
