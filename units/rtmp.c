/*
 * RTMP input: chunk streams into messages, aggregates, and the way back
 * (prepared messages parse to themselves).
 */

#define VP_OWN_PALLOC
#define VP_OWN_CHAIN
#include "vp.h"
#include "nginx-rtmp-module/src/ngx_rtmp_handler.c"
#include "nginx-rtmp-module/src/ngx_rtmp_receive.c"
#include "nginx-rtmp-module/src/ngx_rtmp_shared.c"
#include "vp_stubs.h"

VP_DECLARE_INPUT(struct {
    u_char      d[64];
})

volatile ngx_cycle_t                        *ngx_cycle;
volatile ngx_msec_t                          ngx_current_msec;
ngx_module_t                                 ngx_rtmp_core_module;
ngx_module_t                                 ngx_rtmp_cmd_module;
ngx_rtmp_core_main_conf_t                   *ngx_rtmp_core_main_conf;

#define MEMS  26
#define MEM   84

static ngx_pool_t   g_pools[8];
static unsigned     g_pool_n;
static u_char       g_m0[MEM], g_m1[MEM], g_m2[MEM], g_m3[MEM], g_m4[MEM], g_m5[MEM],
                    g_m6[MEM], g_m7[MEM], g_m8[MEM], g_m9[MEM], g_m10[MEM], g_m11[MEM],
                    g_m12[MEM], g_m13[MEM], g_m14[MEM], g_m15[MEM], g_m16[MEM], g_m17[MEM],
                    g_m18[MEM], g_m19[MEM], g_m20[MEM], g_m21[MEM], g_m22[MEM], g_m23[MEM],
                    g_m24[MEM], g_m25[MEM];
static u_char      *g_mem[MEMS] = {
    g_m0, g_m1, g_m2, g_m3, g_m4, g_m5, g_m6, g_m7, g_m8, g_m9, g_m10, g_m11,
    g_m12, g_m13, g_m14, g_m15, g_m16, g_m17, g_m18, g_m19, g_m20, g_m21,
    g_m22, g_m23, g_m24, g_m25
};
static ngx_pool_t  *g_mem_pool[MEMS];
static size_t       g_mem_size[MEMS];
static unsigned     g_mem_n;
static ngx_chain_t  g_cls[MEMS];
static ngx_buf_t    g_bufs[MEMS];
static unsigned     g_cl_n, g_buf_n;

#if !VP_NATIVE
void *
memmove(void *dst, const void *src, size_t n)
{
    size_t         i;
    u_char         t[MEM];
    const u_char  *s = src;

    for (i = 0; i < n; i++) {
        t[i] = s[i];
    }

    for (i = 0; i < n; i++) {
        ((u_char *) dst)[i] = t[i];
    }

    return dst;
}
#endif

ngx_chain_t *
ngx_alloc_chain_link(ngx_pool_t *pool)
{
    VP_POST(g_cl_n < MEMS);
    return &g_cls[g_cl_n++];
}

void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    VP_POST(size == sizeof(ngx_buf_t) && g_buf_n < MEMS);
    g_bufs[g_buf_n].start = g_bufs[g_buf_n].pos = g_bufs[g_buf_n].last = NULL;
    return &g_bufs[g_buf_n++];
}

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    VP_POST(g_mem_n < MEMS && size < MEM);
    g_mem_pool[g_mem_n] = pool;
    g_mem_size[g_mem_n] = size;
    g_mem[g_mem_n][size] = 0x5d;
    return g_mem[g_mem_n++];
}

ngx_pool_t *
ngx_create_pool(size_t size, ngx_log_t *log)
{
    VP_POST(g_pool_n < 8);
    return &g_pools[g_pool_n++];
}

/* what is in a destroyed pool is gone */
void
ngx_destroy_pool(ngx_pool_t *pool)
{
    unsigned  i, k;

    for (i = 0; i < g_mem_n; i++) {
        if (g_mem_pool[i] == pool) {
            g_mem_pool[i] = NULL;
            for (k = 0; k < g_mem_size[i]; k++) {
                g_mem[i][k] = 0xee;
            }
        }
    }
}

static unsigned  g_finals, g_acks;
static uint32_t  g_ack_value;

ngx_rbtree_t         ngx_event_timer_rbtree;
ngx_event_actions_t  ngx_event_actions;

void
ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
}

void
ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
}

static unsigned  g_drained;

void
ngx_event_process_posted(ngx_cycle_t *cycle, ngx_queue_t *posted)
{
    g_drained++;
}

ngx_int_t
ngx_handle_write_event(ngx_event_t *wev, size_t lowat)
{
    return NGX_OK;
}

void
ngx_rtmp_finalize_session(ngx_rtmp_session_t *s)
{
    g_finals++;
}

ngx_int_t
ngx_rtmp_send_ack(ngx_rtmp_session_t *s, uint32_t seq)
{
    g_acks++;
    g_ack_value = seq;
    return NGX_OK;
}

ngx_int_t
ngx_rtmp_send_ping_response(ngx_rtmp_session_t *s, uint32_t timestamp)
{
    return NGX_OK;
}

ngx_int_t
ngx_rtmp_send_ping_request(ngx_rtmp_session_t *s, uint32_t timestamp)
{
    return NGX_OK;
}

void
ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *bw, uint32_t bytes)
{
}

ngx_int_t
ngx_handle_read_event(ngx_event_t *rev, ngx_uint_t flags)
{
    return NGX_OK;
}


/* the session */
#ifndef STREAMS
#define STREAMS  70
#endif

static struct {
    ngx_rtmp_session_t   s;
    ngx_chain_t         *out[8];
} g_s;

#define S  (&g_s.s)

static ngx_rtmp_chunk_stream_t    g_streams[STREAMS];
static ngx_rtmp_stream_t          g_in_streams[STREAMS];
static ngx_rtmp_core_srv_conf_t   g_srv;
static ngx_rtmp_core_main_conf_t  g_main;
static void                      *g_srvs[1], *g_mains[1];
static ngx_connection_t           g_c;
static ngx_event_t                g_rev;

static u_char    g_wire[700];
static unsigned  g_wires, g_at, g_first, g_step, g_reads;

/* what has arrived, in pieces */
static ssize_t
vp_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    unsigned  i, n;

    if (g_at == g_wires) {
        return NGX_AGAIN;
    }

    n = g_reads++ == 0 ? g_first : g_step;
    if (n > g_wires - g_at) {
        n = g_wires - g_at;
    }

    if (n > size) {
        n = size;
    }

    VP_POST(n > 0);
    for (i = 0; i < n; i++) {
        buf[i] = g_wire[g_at++];
    }

    return n;
}

/* the messages */
#define MSGS  12

typedef struct {
    uint32_t  csid, ts, mlen, msid;
    u_char    type;
    unsigned  data;                     /* offset in the payload */
} msg_t;

static msg_t     g_exp[MSGS];
static unsigned  g_exps, g_got;
static u_char    g_data[400];
static unsigned  g_datas;
static unsigned  g_set_sizes, g_new_size[4], g_new_sizes;

static ngx_int_t
vp_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    msg_t        *m;
    unsigned      n;
    u_char       *p;
    ngx_chain_t  *cl;

    VP_POST(s == S && g_got < g_exps);
    if (g_got >= g_exps) {
        return NGX_ERROR;
    }

    m = &g_exp[g_got++];
    VP_POST(h->type == m->type);
    VP_POST(h->timestamp == m->ts);
    VP_POST(h->mlen == m->mlen);
    VP_POST(h->msid == m->msid && s->in_msid == m->msid);
    VP_POST(h->csid == m->csid);

    n = 0;
    for (cl = in; cl != NULL; cl = cl->next) {
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            VP_POST(n < m->mlen && *p == g_data[m->data + n]);
            n++;
        }
    }

    VP_POST(n == m->mlen);

    if (h->type == NGX_RTMP_MSG_CHUNK_SIZE) {
        return ngx_rtmp_set_chunk_size(s, g_new_size[g_set_sizes++]);
    }

    return NGX_OK;
}

static ngx_rtmp_handler_pt  g_handlers[1] = { vp_message };


/* payload; distinct bytes keep a misread header concrete */
static u_char
x_byte(unsigned i)
{
#ifdef CONC
    return 37 * i + 11;
#else
    return in.d[(i * 5) % 64];
#endif
}


/* the sender */
typedef struct {
    int       used;
    msg_t     m;
    unsigned  fmt;
    uint32_t  stamp;                    /* as in the header */
    uint32_t  delta;
    int       ext;
    unsigned  sent;
} tx_t;

static tx_t      g_tx[4];
static unsigned  g_tx_chunk;
static int       g_tx_ext;              /* type 3 chunks repeat the extended timestamp */

static void
x_start(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    ngx_rtmp_core_module.ctx_index = 0;
    g_srvs[0] = &g_srv;
    g_mains[0] = &g_main;
    g_srv.max_streams = STREAMS;
    g_srv.max_message = 1000;
    g_srv.chunk_size = 16;

    for (i = 0; i < NGX_RTMP_MAX_EVENT; i++) {
        g_main.events[i].elts = g_handlers;
        g_main.events[i].nelts = 1;
    }
}

static void
x_begin(unsigned chunk)
{
    unsigned  i;

    g_mem_n = g_cl_n = g_buf_n = 0;
    g_pool_n = 1;

    for (i = 0; i < STREAMS; i++) {
        g_streams[i].hdr.csid = 0;
        g_streams[i].hdr.timestamp = 0;
        g_streams[i].hdr.mlen = 0;
        g_streams[i].hdr.type = 0;
        g_streams[i].hdr.msid = 0;
        g_streams[i].dtime = 0;
        g_streams[i].len = 0;
        g_streams[i].ext = 0;
        g_streams[i].in = NULL;
    }

    S->connection = &g_c;
    S->srv_conf = g_srvs;
    S->main_conf = g_mains;
    S->in_chunk_streams = g_streams;
    S->in_streams = g_in_streams;
    S->in_stream = NULL;
    S->in_msid = 0;
    S->in_csid = 0;
    S->in_pool = &g_pools[0];
    S->in_old_pool = NULL;
    S->in_chunk_size = chunk;
    S->in_chunk_size_changing = 0;
    S->in_bytes = 0;
    S->in_last_ack = 0;
    S->ack_size = 0;
    S->last_timestamp = 0;
    S->type3_ext_ts = NGX_RTMP_TYPE3_EXT_TS_OFF;
    S->dump_input = 0;

    g_c.destroyed = 0;
    g_c.log = &vp_log;
    g_c.read = &g_rev;
    g_c.data = S;
    g_c.recv = vp_recv;
    g_rev.data = &g_c;

    g_wires = g_at = g_reads = 0;
    g_exps = g_got = g_datas = 0;
    g_set_sizes = g_new_sizes = 0;
    g_finals = g_acks = 0;
    g_tx_chunk = chunk;
    g_tx_ext = 0;

    for (i = 0; i < 4; i++) {
        g_tx[i].used = 0;
        g_tx[i].sent = 0;
        g_tx[i].delta = 0;
    }
}

static void
x_put(u_char c)
{
    g_wire[g_wires++] = c;
}

static void
x_basic(unsigned fmt, uint32_t csid)
{
    if (csid < 64) {
        x_put((fmt << 6) | csid);

    } else if (csid < 320) {
        x_put(fmt << 6);
        x_put(csid - 64);

    } else {
        x_put((fmt << 6) | 1);
        x_put((csid - 64) & 0xff);
        x_put((csid - 64) >> 8);
    }
}

static void
x_ext(uint32_t v)
{
    x_put(v >> 24);
    x_put(v >> 16);
    x_put(v >> 8);
    x_put(v);
}

static tx_t *
x_stream(uint32_t csid)
{
    unsigned  i;

    for (i = 0; i < 4; i++) {
        if (!g_tx[i].used) {
            g_tx[i].used = 1;
            g_tx[i].m.csid = csid;
        }

        if (g_tx[i].m.csid == csid) {
            return &g_tx[i];
        }
    }

    return NULL;
}

/* announces a message; what the format leaves out is as before */
static void
x_msg(uint32_t csid, unsigned fmt, uint32_t stamp, u_char type, uint32_t msid,
    unsigned mlen)
{
    unsigned   i;
    tx_t      *t = x_stream(csid);

    t->fmt = fmt;
    if (fmt == 0) {
        t->m.ts = stamp;
        t->m.msid = msid;
        t->delta = 0;

    } else {
        if (fmt < 3) {
            t->delta = stamp;
        }

        t->m.ts += t->delta;
    }

    if (fmt < 2) {
        t->m.type = type;
        t->m.mlen = mlen;
    }

    if (fmt < 3) {
        t->stamp = stamp;
        t->ext = stamp >= 0xffffff;
    }

    t->m.data = g_datas;
    for (i = 0; i < t->m.mlen; i++) {
        g_data[g_datas] = x_byte(g_datas);
        g_datas++;
    }

    t->sent = 0;
}

/* its next chunk */
static void
x_chunk(uint32_t csid)
{
    unsigned   i, n, fmt;
    uint32_t   v;
    tx_t      *t = x_stream(csid);

    fmt = t->sent == 0 ? t->fmt : 3;
    x_basic(fmt, csid);

    if (fmt < 3) {
        v = t->ext ? 0xffffff : t->stamp;
        x_put(v >> 16);
        x_put(v >> 8);
        x_put(v);
    }

    if (fmt < 2) {
        x_put(t->m.mlen >> 16);
        x_put(t->m.mlen >> 8);
        x_put(t->m.mlen);
        x_put(t->m.type);
    }

    if (fmt == 0) {
        x_put(t->m.msid);
        x_put(t->m.msid >> 8);
        x_put(t->m.msid >> 16);
        x_put(t->m.msid >> 24);
    }

    if (t->ext && (fmt < 3 || g_tx_ext)) {
        x_ext(t->stamp);
    }

    n = t->m.mlen - t->sent;
    if (n > g_tx_chunk) {
        n = g_tx_chunk;
    }

    for (i = 0; i < n; i++) {
        x_put(g_data[t->m.data + t->sent]);
        t->sent++;
    }

    if (t->sent == t->m.mlen) {
        g_exp[g_exps++] = t->m;
    }
}

/* the chunk size changes */
static void
x_size(unsigned size)
{
    unsigned  at = g_datas;

    x_msg(2, 0, 0, NGX_RTMP_MSG_CHUNK_SIZE, 0, 4);
    g_data[at] = 0;
    g_data[at + 1] = 0;
    g_data[at + 2] = 0;
    g_data[at + 3] = size;
    g_new_size[g_new_sizes++] = size;
    x_chunk(2);
    g_tx_chunk = size;
}

static void
mem_check(void)
{
    unsigned  i;

    for (i = 0; i < g_mem_n; i++) {
        VP_POST(g_mem[i][g_mem_size[i]] == 0x5d);
    }
}

static void
x_run(unsigned first, unsigned step)
{
    g_first = first;
    g_step = step;
    ngx_rtmp_recv(&g_rev);
    VP_POST(g_finals == 0);
    VP_POST(g_got == g_exps && g_at == g_wires);
    VP_POST(S->in_bytes == g_wires);
    mem_check();
}


#ifdef U_RECV

static void
x_shape(unsigned shape, unsigned first, unsigned step)
{
    unsigned  i;

    x_begin(16);

    switch (shape) {

    case 0:                             /* all header formats */
        x_msg(3, 0, 1000, 20, 0, 5);
        x_chunk(3);
        x_msg(3, 1, 20, 18, 0, 7);
        x_chunk(3);
        x_msg(3, 2, 30, 0, 0, 0);
        x_chunk(3);
        x_msg(3, 3, 0, 0, 0, 0);
        x_chunk(3);
        x_msg(3, 0, 500, 9, 0x04030201, 16);
        x_chunk(3);
        x_msg(3, 3, 0, 0, 0, 0);
        x_chunk(3);
        break;

    case 1:                             /* fragments of three streams, interleaved */
        x_msg(4, 0, 77, 9, 1, 40);
        x_msg(6, 0, 78, 8, 2, 17);
        x_chunk(4);
        x_chunk(6);
        x_chunk(4);
        x_chunk(6);
        x_msg(6, 1, 5, 8, 2, 33);
        x_chunk(6);
        x_msg(63, 0, 1, 18, 1, 3);
        x_chunk(63);
        x_chunk(4);
        x_chunk(6);
        x_msg(4, 2, 9, 0, 0, 0);
        x_chunk(4);
        x_chunk(4);
        x_chunk(6);
        x_chunk(4);
        break;

    case 2:                             /* exact multiples, an empty message, other ids */
        x_msg(64, 0, 0xfffffe, 8, 0xff000001, 32);
        x_chunk(64);
        x_chunk(64);
        x_msg(5, 0, 3, 20, 0, 0);
        x_chunk(5);
        x_msg(69, 0, 3, 22, 7, 48);
        for (i = 0; i < 3; i++) {
            x_chunk(69);
        }
        x_msg(5, 1, 3, 20, 0, 1);
        x_chunk(5);
        break;
    }

    x_run(first, step);
}

void
h_recv(void)
{
    x_start();
#ifndef CUTS
    x_shape(0, 1000, 1000);
    x_shape(0, 1, 1);
    x_shape(1, 1000, 1000);
    x_shape(1, 1, 1);
    x_shape(1, 13, 7);
    x_shape(2, 1000, 1000);
    x_shape(2, 5, 3);
#else
    unsigned  i;

    for (i = 1; i < 34; i += 2) {
        x_shape(CUTS, i, 34);
    }
#endif
    VP_COVER(1);
}
#endif


#ifdef U_WIDE
/* two and three byte chunk stream ids */
void
h_wide(void)
{
    unsigned  i;

    x_start();
    for (i = 0; i < 2; i++) {
        x_begin(16);
        x_msg(319, 0, 5, 9, 1, 20);
        x_chunk(319);
        x_msg(320, 0, 6, 8, 1, 18);
        x_chunk(320);
        x_chunk(319);
        x_chunk(320);
        x_msg(579, 0, 6, 8, 1, 1);
        x_chunk(579);
        x_run(i ? 1000 : 1, i ? 1000 : 1);
    }

    VP_COVER(1);
}
#endif


#ifdef U_STAMP
/* extended timestamps */
static void
x_stamps(ngx_uint_t mode, int repeated, unsigned first, unsigned step)
{
    x_begin(16);
    S->type3_ext_ts = mode;
    g_tx_ext = repeated;
    x_msg(4, 0, 0xffffff, 9, 1, 40);
    x_chunk(4);
    x_chunk(4);
    x_chunk(4);
    x_msg(4, 1, 0x01020304, 9, 1, 18);
    x_chunk(4);
    x_chunk(4);
    x_msg(4, 2, 0xf0000000, 9, 1, 18);
    x_chunk(4);
    x_chunk(4);
    x_msg(4, 1, 0xfffffe, 9, 1, 18);
    x_chunk(4);
    x_chunk(4);
    x_msg(4, 0, 0x12345678, 9, 1, 1);
    x_chunk(4);
    x_run(first, step);
}

void
h_stamp(void)
{
    x_start();
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_OFF, 0, 1000, 1000);
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_OFF, 0, 1, 1);
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_ON, 1, 1000, 1000);
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_ON, 1, 1, 1);
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_AUTO, 1, 1000, 1000);
    x_stamps(NGX_RTMP_TYPE3_EXT_TS_AUTO, 1, 2, 3);
    VP_COVER(1);
}
#endif


#ifdef U_SIZE
/* the chunk size changes while messages are under way */
static void
x_sizes(unsigned size, unsigned first, unsigned step)
{
    unsigned  i;

    x_begin(16);
    x_msg(4, 0, 77, 9, 1, 60);
    x_chunk(4);
    x_msg(6, 0, 78, 8, 1, 40);
    x_chunk(6);
    x_chunk(4);
    x_size(size);
    while (g_tx[1].sent < 40) {
        x_chunk(6);
    }
    while (g_tx[0].sent < 60) {
        x_chunk(4);
    }
    x_msg(6, 1, 78, 8, 1, 20);
    for (i = 0; i < 20; i += size) {
        x_chunk(6);
    }
    x_run(first, step);
    VP_POST(S->in_chunk_size == size && !S->in_chunk_size_changing);
    VP_POST(S->in_pool == &g_pools[1] && S->in_old_pool == NULL);
}

void
h_size(void)
{
    x_start();
    x_sizes(8, 1000, 1000);
    x_sizes(8, 1, 1);
    x_sizes(32, 1000, 1000);
    x_sizes(40, 1, 1);
    x_sizes(15, 10, 11);
    VP_COVER(1);
}
#endif


#ifdef U_REFUSE
static void
x_refused(unsigned messages)
{
    g_first = g_step = 1000;
    ngx_rtmp_recv(&g_rev);
    VP_POST(g_finals == 1 && g_got == messages);
}

static ssize_t
vp_recv_end(ngx_connection_t *c, u_char *buf, size_t size)
{
    return 0;
}

static ssize_t
vp_recv_error(ngx_connection_t *c, u_char *buf, size_t size)
{
    return NGX_ERROR;
}

static ngx_int_t
vp_refuse(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    return NGX_ERROR;
}

static ngx_rtmp_handler_pt  g_refuse[1] = { vp_refuse };

void
h_refuse(void)
{
    unsigned  i;

    x_start();

    /* a stream id or a message out of range */
    x_begin(16);
    x_msg(3, 0, 1000, 20, 0, 5);
    x_chunk(3);
    x_msg(70, 0, 1000, 20, 0, 5);
    x_chunk(70);
    x_refused(1);

    x_begin(16);
    x_msg(3, 0, 1000, 20, 0, 5);
    x_chunk(3);
    x_msg(3, 0, 1000, 20, 0, 16);
    i = g_wires;
    x_chunk(3);
    g_wire[i + 4] = 0;
    g_wire[i + 5] = 1001 >> 8;
    g_wire[i + 6] = 1001 & 0xff;
    x_refused(1);

    /* a message that becomes shorter than what has arrived */
    x_begin(16);
    x_msg(3, 0, 1000, 20, 0, 40);
    x_chunk(3);
    x_chunk(3);
    x_basic(1, 3);
    x_put(0);
    x_put(0);
    x_put(0);
    x_put(0);
    x_put(0);
    x_put(31);
    x_put(20);
    for (i = 0; i < 16; i++) {
        x_put(1);
    }
    x_refused(0);

    /* a handler fails */
    x_begin(16);
    g_main.events[9].elts = g_refuse;
    x_msg(3, 0, 1000, 20, 0, 5);
    x_chunk(3);
    x_msg(3, 0, 1000, 9, 0, 5);
    x_chunk(3);
    x_msg(3, 0, 1000, 20, 0, 5);
    x_chunk(3);
    x_refused(1);

    /* the connection ends, or fails */
    x_begin(16);
    g_c.recv = vp_recv_end;
    x_refused(0);
    x_begin(16);
    g_c.recv = vp_recv_error;
    x_refused(0);

    /* types beyond the last are ignored */
    x_begin(16);
    x_msg(3, 0, 1000, 23, 0, 5);
    x_chunk(3);
    g_exps = 0;
    x_msg(3, 0, 1000, 22, 0, 5);
    x_chunk(3);
    x_run(1000, 1000);

    /* acknowledgements */
    x_begin(16);
    S->ack_size = 20;
    x_msg(3, 0, 1000, 20, 0, 16);
    x_chunk(3);
    x_msg(3, 3, 0, 0, 0, 0);
    x_chunk(3);
    x_run(19, 1);
    VP_POST(g_wires == 12 + 16 + 1 + 16 && g_acks == 2 && g_ack_value == 40);

    x_begin(16);
    S->ack_size = 20;
    x_msg(3, 0, 1000, 20, 0, 16);
    x_chunk(3);
    x_run(27, 1);
    VP_POST(g_acks == 1 && g_ack_value == 27);
    VP_COVER(1);
}
#endif


#if defined U_PREPARE || defined U_SEND

#define CHUNK  16

/* a shared buffer, with its count of references */
typedef struct __attribute__((packed)) {
    NGX_RTMP_REFCOUNT_TYPE   ref;
    ngx_chain_t              cl;
    ngx_buf_t                buf;
    u_char                   data[CHUNK + NGX_RTMP_MAX_CHUNK_HEADER];
} shared_t;

static shared_t    g_s0, g_s1, g_s2, g_s3, g_s4, g_s5, g_s6, g_s7, g_s8, g_s9;
static shared_t   *g_shared[10] = {
    &g_s0, &g_s1, &g_s2, &g_s3, &g_s4, &g_s5, &g_s6, &g_s7, &g_s8, &g_s9
};

/* n bytes from g_data, as ngx_rtmp_append_shared_bufs leaves them */
static ngx_chain_t *
x_out(unsigned at, unsigned first, unsigned n)
{
    unsigned   i, k, b;
    shared_t  *sh;

    i = 0;
    b = first;
    do {
        sh = g_shared[b];
        sh->ref = 1;
        sh->cl.buf = &sh->buf;
        sh->cl.next = NULL;
        sh->buf.start = sh->data;
        sh->buf.pos = sh->data + NGX_RTMP_MAX_CHUNK_HEADER;
        sh->buf.end = sh->data + NGX_RTMP_MAX_CHUNK_HEADER + CHUNK;
        for (k = 0; k < CHUNK && i < n; k++) {
            sh->buf.pos[k] = g_data[at + i++];
        }

        sh->buf.last = sh->buf.pos + k;
        if (b > first) {
            g_shared[b - 1]->cl.next = &sh->cl;
        }

        b++;
    } while (i < n);

    return &g_shared[first]->cl;
}
#endif


#ifdef U_PREPARE

static ngx_rtmp_header_t  g_h, g_lh;

/* a peer that reads chunks as the RTMP specification lays them out */
static u_char
x_get(void)
{
    VP_POST(g_at < g_wires);
    return g_at < g_wires ? g_wire[g_at++] : 0;
}

static struct {
    uint32_t  csid, ts, delta, mlen, msid, stamp;
    u_char    type;
} g_rx;

static uint32_t
x_get_n(unsigned n)
{
    uint32_t  v = 0;

    while (n--) {
        v = v << 8 | x_get();
    }

    return v;
}

static unsigned
x_get_basic(uint32_t *csid)
{
    unsigned  b, fmt;

    b = x_get();
    fmt = b >> 6;
    *csid = b & 63;
    if (*csid == 0) {
        *csid = 64 + x_get();

    } else if (*csid == 1) {
        *csid = 64 + x_get();
        *csid += x_get() << 8;
    }

    return fmt;
}

static void
x_peer(msg_t *m, int repeated)
{
    unsigned  i, k, fmt, ext;
    uint32_t  csid, v, id;

    fmt = x_get_basic(&csid);
    VP_POST(csid == m->csid);
    VP_POST(fmt == 0 || g_rx.csid == csid);
    g_rx.csid = csid;
    ext = 0;
    if (fmt < 3) {
        v = x_get_n(3);
        ext = v == 0xffffff;
        if (fmt < 2) {
            g_rx.mlen = x_get_n(3);
            g_rx.type = x_get();
            if (fmt == 0) {
                id = x_get();
                id |= x_get() << 8;
                id |= x_get() << 16;
                id |= (uint32_t) x_get() << 24;
                g_rx.msid = id;
            }
        }

        if (ext) {
            v = x_get_n(4);
        }

        if (fmt == 0) {
            g_rx.ts = v;
            g_rx.delta = 0;

        } else {
            g_rx.delta = v;
        }

        g_rx.stamp = v;
    }

    g_rx.ts += g_rx.delta;
    VP_POST(g_rx.ts == m->ts && g_rx.mlen == m->mlen && g_rx.type == m->type && g_rx.msid == m->msid);

    for (i = 0; i < m->mlen; ) {
        if (i > 0) {
            fmt = x_get_basic(&csid);
            VP_POST(fmt == 3 && csid == m->csid);
            if (ext && repeated) {
                VP_POST(x_get_n(4) == g_rx.stamp);
            }
        }

        for (k = 0; k < CHUNK && i < m->mlen; k++, i++) {
            VP_POST(x_get() == g_data[m->data + i]);
        }
    }

    VP_POST(g_at == g_wires);
}

/* the message, as the format leaves from lh, and what has to come back */
static void
x_prepare(uint32_t csid, u_char type, uint32_t ts, uint32_t msid, unsigned n,
    ngx_rtmp_header_t *lh)
{
    unsigned      i;
    u_char       *p;
    msg_t        *m;
    ngx_chain_t  *cl;

    m = &g_exp[g_exps++];
    m->csid = csid;
    m->type = type;
    m->ts = ts;
    m->msid = msid;
    m->mlen = n;
    m->data = g_datas;

    for (i = 0; i < n; i++) {
        g_data[g_datas] = x_byte(g_datas);
        g_datas++;
    }

    g_h.csid = csid;
    g_h.type = type;
    g_h.timestamp = ts;
    g_h.msid = msid;
    g_h.mlen = 0;

    cl = x_out(m->data, 0, n);
    ngx_rtmp_prepare_message(S, &g_h, lh, cl);
    for (; cl; cl = cl->next) {
        VP_POST(cl->buf->pos >= cl->buf->start);
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            x_put(*p);
        }
    }

    x_peer(m, g_srv.play_time_fix);
    g_lh = g_h;
    g_lh.mlen = n;
}

static void
x_trip(unsigned shape, int fix)
{
    g_rx.csid = 0;
    x_begin(CHUNK);
    S->type3_ext_ts = fix ? NGX_RTMP_TYPE3_EXT_TS_ON : NGX_RTMP_TYPE3_EXT_TS_OFF;
    g_srv.play_time_fix = fix;

    switch (shape) {

    case 0:
        x_prepare(3, 20, 1000, 0, 5, NULL);
        x_prepare(4, 9, 0x123456, 1, 16, NULL);
        x_prepare(4, 9, 0x123457, 0x04030201, 17, NULL);
        x_prepare(5, 8, 7, 1, 48, NULL);
        x_prepare(63, 18, 7, 1, 0, NULL);
        x_prepare(2, 4, 0, 0, 6, NULL);
        break;

    case 1:
        x_prepare(6, 8, 100, 1, 20, NULL);
        x_prepare(6, 8, 140, 1, 33, &g_lh);
        x_prepare(6, 8, 160, 1, 33, &g_lh);
        x_prepare(6, 9, 170, 1, 33, &g_lh);
        x_prepare(6, 9, 180, 2, 33, &g_lh);
        x_prepare(6, 9, 180, 2, 33, &g_lh);
        x_prepare(6, 9, 180 + 0x1000000, 2, 20, &g_lh);
        break;

    case 2:
        x_prepare(4, 9, 0xffffff, 1, 40, NULL);
        x_prepare(4, 9, 0xfffffe, 1, 20, NULL);
        x_prepare(4, 9, 0x12345678, 1, 40, NULL);
        x_prepare(4, 8, 0x12345678 + 0x89abcdef, 1, 32, &g_lh);
        x_prepare(4, 8, 0x12345678 + 0x89abcdef + 3, 1, 32, &g_lh);
        break;

    case 3:
        x_prepare(64, 9, 10, 1, 20, NULL);
        x_prepare(319, 9, 20, 1, 20, NULL);
        x_prepare(320, 9, 0x1ffffff, 1, 40, NULL);
        x_prepare(320, 9, 0x1ffffff + 4, 1, 40, &g_lh);
        x_prepare(579, 9, 40, 1, 20, NULL);
        break;
    }
}

void
h_prepare(void)
{
    x_start();
#if STREAMS < 100
    x_trip(0, 0);
    x_trip(1, 0);
    x_trip(1, 1);
    x_trip(2, 0);
    x_trip(2, 1);

    x_begin(CHUNK);
    x_out(0, 0, 5);
    g_h.csid = STREAMS;
    ngx_rtmp_prepare_message(S, &g_h, NULL, &g_s0.cl);
    VP_POST(g_finals == 1);
#else
    x_trip(3, 0);
    x_trip(3, 1);
#endif
    VP_COVER(1);
}
#endif


#ifdef U_SEND

static u_char       g_sent[160];
static unsigned     g_sents, g_allow, g_piece;
static ngx_event_t  g_wev;

/* takes g_piece bytes at a time, g_allow times */
static ssize_t
vp_send(ngx_connection_t *c, u_char *buf, size_t size)
{
    unsigned  i;

    VP_POST(size > 0);
    if (g_allow == 0) {
        return NGX_AGAIN;
    }

    g_allow--;
    for (i = 0; i < g_piece && i < size; i++) {
        g_sent[g_sents++] = buf[i];
    }

    return i;
}

static ssize_t
vp_send_error(ngx_connection_t *c, u_char *buf, size_t size)
{
    return NGX_ERROR;
}

static unsigned
x_send_begin(unsigned queue, unsigned at)
{
    unsigned  i;

    x_begin(CHUNK);
    for (i = 0; i < 120; i++) {
        g_data[i] = in.d[i % 64] ^ i;
    }

    S->out_queue = queue;
    S->out_cork = 0;
    S->out_buffer = 0;
    S->out_pos = at;
    S->out_last = at;
    S->out_chain = NULL;
    S->out_bytes = 0;
    g_srv.free = NULL;
    g_c.send = vp_send;
    g_c.write = &g_wev;
    g_wev.data = &g_c;
    g_wev.log = &vp_log;
    g_wev.timedout = 0;
    g_wev.timer_set = 0;
    g_wev.active = 0;
    g_sents = 0;
    g_allow = 0;
    g_drained = 0;
    return 0;
}

static void
x_sent(unsigned n)
{
    unsigned  i;

    VP_POST(g_sents == n && S->out_bytes == n);
    for (i = 0; i < n; i++) {
        VP_POST(g_sent[i] == g_data[i]);
    }
}

static void
x_queue(unsigned queue, unsigned at, unsigned piece)
{
    unsigned      i, k, n[4] = { 5, 40, 16, 17 }, b[4] = { 0, 1, 4, 5 }, d[4] = { 0, 5, 45, 61 };
    ngx_chain_t  *cl;

    x_send_begin(queue, at);
    g_piece = piece;

    for (i = 0; i < 4; i++) {
        cl = x_out(d[i], b[i], n[i]);
        VP_POST(ngx_rtmp_send_message(S, cl, 0) == NGX_OK);
        VP_POST(g_shared[b[i]]->ref == 2);
        ngx_rtmp_free_shared_chain(&g_srv, cl);
        VP_POST(g_srv.free == NULL && g_sents == 0);
    }

    /* as the peer accepts */
    for (k = 0; g_sents < 78 && k < 80; k++) {
        g_allow = 3;
        ngx_rtmp_send(&g_wev);
        i = g_sents;
        VP_POST((g_shared[0]->ref == 0) == (i >= 5));
        VP_POST((g_shared[1]->ref == 0) == (i >= 45));
        VP_POST((g_shared[4]->ref == 0) == (i >= 61));
        VP_POST((g_shared[5]->ref == 0) == (i >= 78));
    }

    x_sent(78);
    VP_POST(g_finals == 0 && g_drained == 1);
    VP_POST(S->out_pos == S->out_last && S->out_pos == (at + 4) % queue && S->out_chain == NULL);

    /* all seven buffers, each once */
    k = 0;
    for (cl = g_srv.free; cl; cl = cl->next) {
        k++;
    }

    VP_POST(k == 7);
}

/* a full queue keeps what it has; low priorities give way first */
static void
x_full(unsigned queue, unsigned at)
{
    unsigned      i, n;
    ngx_chain_t  *cl;

    x_send_begin(queue, at);
    g_piece = 100;
    n = queue - 1;
    for (i = 0; i < n; i++) {
        cl = x_out(i, i, 1);
        if (i + 1 + 3 * queue / 4 >= queue) {
            VP_POST(ngx_rtmp_send_message(S, cl, 3) == NGX_AGAIN);
            VP_POST(S->out_last == (at + i) % queue && g_shared[i]->ref == 1);
        }

        VP_POST(ngx_rtmp_send_message(S, cl, 0) == NGX_OK);
    }

    cl = x_out(100, 9, 1);
    VP_POST(ngx_rtmp_send_message(S, cl, 0) == NGX_AGAIN);
    VP_POST(g_s9.ref == 1);

    g_allow = 20;
    ngx_rtmp_send(&g_wev);
    x_sent(n);
    VP_POST(S->out_pos == S->out_last);
}

void
h_send(void)
{
    x_start();
    x_queue(8, 0, 100);
    x_queue(8, 6, 1);
    x_queue(6, 5, 7);
    x_full(8, 0);
    x_full(8, 5);
    x_full(6, 0);
    x_full(6, 4);

    /* the connection fails, or stalls */
    x_send_begin(8, 0);
    g_c.send = vp_send_error;
    VP_POST(ngx_rtmp_send_message(S, x_out(0, 0, 5), 0) == NGX_OK);
    VP_POST(g_finals == 1);
    x_send_begin(8, 0);
    VP_POST(ngx_rtmp_send_message(S, x_out(0, 0, 5), 0) == NGX_OK);
    VP_POST(g_finals == 0 && g_wev.timer_set);
    g_wev.timedout = 1;
    ngx_rtmp_send(&g_wev);
    VP_POST(g_finals == 1 && g_sents == 0);
    VP_COVER(1);
}
#endif
