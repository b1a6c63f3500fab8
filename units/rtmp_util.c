/* contracts on the RTMP module's bit reader, chain reader and shared buffers */

#define VP_OWN_PALLOC
#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;
volatile ngx_msec_t    ngx_current_msec;

#include "nginx-rtmp-module/src/ngx_rtmp_bitop.c"
#include "nginx-rtmp-module/src/ngx_rtmp_chain_reader.c"
#include "nginx-rtmp-module/src/ngx_rtmp_shared.c"
#include "vp_stubs.h"

VP_DECLARE_INPUT(struct {
    u_char      b[32];
    uint8_t     n;
    uint8_t     p;
    uint8_t     c;
})

#define PAD  8

static u_char  g_buf[PAD + 32 + PAD];
#define g_b  (g_buf + PAD)

#define BIT(b, i)  (((b)[(i) >> 3] >> (7 - ((i) & 7))) & 1)

static void
x_fill(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    for (i = 0; i < sizeof(g_buf); i++) {
        g_buf[i] = 0xff;
    }

    for (i = 0; i < 32; i++) {
        g_b[i] = in.b[i];
    }
}


#ifdef U_BITS

static ngx_rtmp_bit_reader_t  g_r;

static void
x_bits(unsigned n, unsigned p, unsigned c)
{
    unsigned  i;
    uint64_t  v, e;

    ngx_rtmp_bit_init_reader(&g_r, g_b, g_b + n);
    VP_POST(g_r.pos == g_b && g_r.last == g_b + n && g_r.offs == 0 && g_r.err == 0);
    g_r.pos = g_b + p / 8;
    g_r.offs = p % 8;

    v = ngx_rtmp_bit_read(&g_r, c);

    if (p + c > 8 * n) {
        VP_POST(v == 0 && g_r.err == 1);
        return;
    }

    e = 0;
    for (i = 0; i < c; i++) {
        e = e << 1 | BIT(g_b, p + i);
    }

    VP_POST(v == e && g_r.err == 0);
    VP_POST(g_r.pos == g_b + (p + c) / 8 && g_r.offs == (p + c) % 8);
}

void
h_bits(void)
{
    unsigned  p, c;

    x_fill();
    for (p = PMIN; p < PMIN + 2; p++) {
        for (c = 0; c <= 64; c++) {
            x_bits(12, p, c);
        }
    }

    for (c = 0; c <= 33; c++) {
        x_bits(3, PMIN + 7, c);
        x_bits(4, PMIN, c);
    }

    VP_COVER(1);
}
#endif


#ifdef U_GOLOMB

static ngx_rtmp_bit_reader_t  g_r;

static void
x_set(unsigned i, unsigned v)
{
    g_b[i >> 3] = (g_b[i >> 3] & ~(0x80 >> (i & 7))) | (v ? 0x80 >> (i & 7) : 0);
}

static void
x_golomb(unsigned p, unsigned z, u_char fill)
{
    unsigned  i;
    uint64_t  k;
    int64_t   s;

    for (i = 0; i < 14; i++) {
        g_b[i] = i > (p + z) / 8 ? in.b[i] : fill;
    }

    for (i = 0; i < z; i++) {
        x_set(p + i, 0);
    }

    x_set(p + z, 1);

    k = 0;
    for (i = 0; i < z; i++) {
        k = k << 1 | BIT(g_b, p + z + 1 + i);
    }

    k += ((uint64_t) 1 << z) - 1;

    ngx_rtmp_bit_init_reader(&g_r, g_b, g_b + 14);
    g_r.offs = p;
    VP_POST(ngx_rtmp_bit_read_golomb(&g_r) == k);
    VP_POST(g_r.err == 0);
    VP_POST(g_r.pos == g_b + (p + 2 * z + 1) / 8 && g_r.offs == (p + 2 * z + 1) % 8);

    /* 9.1.1: odd codes are positive */
    s = k & 1 ? (int64_t) (k / 2 + 1) : -(int64_t) (k / 2);
    ngx_rtmp_bit_init_reader(&g_r, g_b, g_b + 14);
    g_r.offs = p;
    VP_POST(ngx_rtmp_bit_read_golomb_signed(&g_r) == s);
    VP_POST(g_r.err == 0);

    /* cut short */
    ngx_rtmp_bit_init_reader(&g_r, g_b, g_b + (p + 2 * z) / 8);
    g_r.offs = p;
    ngx_rtmp_bit_read_golomb(&g_r);
    VP_POST(g_r.err == 1);
}

void
h_golomb(void)
{
    unsigned  z;

    x_fill();
    for (z = 0; z < 33; z++) {
        x_golomb(z % 8, z, 0xff);
        x_golomb((z + 3) % 8, z, 0x5a);
    }

    for (z = 0; z < 6; z++) {
        x_golomb(7, z, 0);
        x_golomb(4, z + 3, 0xa5);
    }

    VP_COVER(1);
}
#endif


#define BUFS  34

static ngx_chain_t  g_cls[BUFS];
static ngx_buf_t    g_bufs[BUFS];

/* n bytes in buffers: of first bytes, an empty one, then of step bytes */
static ngx_chain_t *
x_chain(unsigned first, unsigned step, unsigned total)
{
    unsigned  i, n, size;

    i = n = 0;
    do {
        size = n == 0 ? first : step;
        if (n == 1) {
            size = 0;
        }

        if (size > total - i) {
            size = total - i;
        }

        g_bufs[n].start = g_bufs[n].pos = g_b + i;
        g_bufs[n].last = g_bufs[n].end = g_b + i + size;
        g_cls[n].buf = &g_bufs[n];
        g_cls[n].next = &g_cls[n + 1];
        i += size;
        n++;
    } while (i < total);

    g_cls[n - 1].next = NULL;
    return g_cls;
}


#ifdef U_CHAIN

static u_char  g_dst[40];

static void
x_clear(void)
{
    unsigned  i;

    for (i = 0; i < 40; i++) {
        g_dst[i] = 0x77;
    }
}

static void
x_walk(unsigned first, unsigned step)
{
    unsigned                 at, n, i;
    ngx_chain_t             *cl;
    ngx_rtmp_chain_reader_t  r;

    cl = x_chain(first, step, 20);
    ngx_rtmp_chain_reader_init(&r, cl);
    at = 0;
    for (n = 0; at + n <= 20; n++) {
        x_clear();
        VP_POST(ngx_rtmp_chain_reader_read(&r, g_dst, n) == NGX_OK);
        for (i = 0; i < n; i++) {
            VP_POST(g_dst[i] == in.b[at + i]);
        }

        VP_POST(g_dst[n] == 0x77);
        at += n;
        if (at + n + 1 <= 20 && n != 2) {
            VP_POST(ngx_rtmp_chain_reader_skip(&r, n + 1) == NGX_OK);
            at += n + 1;
        }

        VP_POST(r.pos == g_b + at && r.buf == r.cl->buf);
    }

    x_clear();
    VP_POST(ngx_rtmp_chain_reader_read(&r, g_dst, 21 - at) == NGX_ERROR);
    VP_POST(g_dst[21 - at] == 0x77);
    ngx_rtmp_chain_reader_init(&r, cl);
    VP_POST(ngx_rtmp_chain_reader_skip(&r, 21) == NGX_ERROR);
    ngx_rtmp_chain_reader_init(&r, cl);
    VP_POST(ngx_rtmp_chain_reader_skip(&r, 20) == NGX_OK);
    VP_POST(r.pos == g_b + 20);
}

void
h_chain(void)
{
    x_fill();
    x_walk(40, 1);
    x_walk(1, 1);
    x_walk(3, 5);
    x_walk(0, 7);
    VP_COVER(1);
}
#endif


#ifdef U_EP

/* 9: some byte above 3 */
static void
x_ep(const char *text, unsigned first, unsigned step, unsigned read, unsigned skip)
{
    u_char                      e[16], d[40], c;
    unsigned                    i, n, total, k, want, left, zeros;
    ngx_chain_t                *cl;
    ngx_rtmp_chain_reader_t     r;
    ngx_rtmp_chain_reader_ep_t  ep;

    zeros = n = total = 0;
    for (i = 0; text[i]; i++) {
        if (text[i] == '9') {
            c = 4 + i * 7;

        } else {
            c = text[i] - '0';
        }

        g_b[total++] = c;
        if (zeros >= 2 && text[i] == '3') {
            zeros = 0;
            continue;
        }

        zeros = text[i] == '0' ? zeros + 1 : 0;
        e[n++] = c;
    }

    /* bytes after the unit */
    g_b[total] = 0;
    g_b[total + 1] = 0;
    g_b[total + 2] = 3;

    cl = x_chain(first, step, total + 3);
    ngx_rtmp_chain_reader_init(&r, cl);
    ngx_rtmp_chain_reader_ep_init(&ep, &r);
    ep.left = total;

    left = n;
    k = 0;
    for (i = 0; left > 0; i++) {
        want = i % 2 ? skip : read;
        if (want > left) {
            want = left;
        }

        if (i % 2) {
            VP_POST(ngx_rtmp_chain_reader_ep_skip(&ep, want) == NGX_OK);

        } else {
            d[want] = 0x77;
            VP_POST(ngx_rtmp_chain_reader_ep_read(&ep, d, want) == NGX_OK);
            VP_POST(d[want] == 0x77);
            for (c = 0; c < want; c++) {
                VP_POST(d[c] == e[k + c]);
            }
        }

        k += want;
        left -= want;
    }

    /* never beyond the unit */
    VP_POST(ngx_rtmp_chain_reader_ep_read(&ep, d, 2) == NGX_ERROR);
    VP_POST(ngx_rtmp_chain_reader_ep_skip(&ep, 2) == NGX_ERROR);
    VP_POST(ep.base.pos <= g_b + total);
}

static const char  *g_texts[] = {
    "99999999", "9003900399", "003003003", "0030039", "90000399", "00390390", "0009003009",
    "9939900", "90030390", "000000003", "9900300", "00100200"
};

void
h_ep(void)
{
    unsigned  i;

    x_fill();
    for (i = 0; i < 12; i++) {
        x_ep(g_texts[i], 40, 40, 3, 2);
        x_ep(g_texts[i], 1, 1, 1, 1);
        x_ep(g_texts[i], 2, 3, 16, 1);
        x_ep(g_texts[i], 4, 2, 0, 16);
    }

    VP_COVER(1);
}
#endif


#ifdef U_SHARED

#define SHARED  10
#define CHUNK   16

typedef struct __attribute__((packed)) {
    NGX_RTMP_REFCOUNT_TYPE   ref;
    ngx_chain_t              cl;
    ngx_buf_t                buf;
    u_char                   data[CHUNK + NGX_RTMP_MAX_CHUNK_HEADER];
    u_char                   guard;
} shared_t;

static shared_t    g_s0, g_s1, g_s2, g_s3, g_s4, g_s5, g_s6, g_s7, g_s8, g_s9;
static shared_t   *g_shared[SHARED] = {
    &g_s0, &g_s1, &g_s2, &g_s3, &g_s4, &g_s5, &g_s6, &g_s7, &g_s8, &g_s9
};
static unsigned    g_allocs;

void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    VP_POST(size == offsetof(shared_t, guard) && g_allocs < SHARED);
    g_shared[g_allocs]->guard = 0x5d;
    g_shared[g_allocs]->cl.buf = NULL;
    g_shared[g_allocs]->cl.next = NULL;
    return g_shared[g_allocs++];
}

static ngx_rtmp_core_srv_conf_t  g_cscf;

/* head holds the bytes of both chains in order, after the header room */
static void
x_append(unsigned n1, unsigned first1, unsigned n2, unsigned first2, unsigned step)
{
    unsigned      i, k, bufs;
    ngx_chain_t  *head, *cl, *p;

    g_allocs = 0;
    g_cscf.free = NULL;

    head = NULL;
    if (n1) {
        head = ngx_rtmp_append_shared_bufs(&g_cscf, NULL, x_chain(first1, step, n1));
    }

    for (i = 0; i < n2; i++) {
        g_b[i] = in.b[31 - i];
    }

    cl = ngx_rtmp_append_shared_bufs(&g_cscf, head, x_chain(first2, step, n2));
    VP_POST(cl != NULL && (head == NULL || cl == head));
    head = cl;

    for (i = 0; i < 32; i++) {
        g_b[i] = in.b[i];
    }

    k = bufs = 0;
    for (cl = head; cl; cl = cl->next) {
        VP_POST(cl == &g_shared[bufs]->cl);
        bufs++;
        VP_POST(cl->buf->pos == cl->buf->start + NGX_RTMP_MAX_CHUNK_HEADER);
        VP_POST(cl->buf->end == cl->buf->start + NGX_RTMP_MAX_CHUNK_HEADER + CHUNK);
        VP_POST(cl->next == NULL || cl->buf->last == cl->buf->end);
        for (i = 0; cl->buf->pos + i < cl->buf->last; i++) {
            VP_POST(cl->buf->pos[i] == (k < n1 ? in.b[k] : in.b[31 - (k - n1)]));
            k++;
        }
    }

    VP_POST(k == n1 + n2 && bufs == g_allocs);
    for (i = 0; i < g_allocs; i++) {
        VP_POST(g_shared[i]->guard == 0x5d && g_shared[i]->ref == 1);
    }

    /* released with the last reference, and used again */
    ngx_rtmp_acquire_shared_chain(head);
    ngx_rtmp_free_shared_chain(&g_cscf, head);
    VP_POST(g_cscf.free == NULL && head->buf != NULL);
    ngx_rtmp_free_shared_chain(&g_cscf, head);
    VP_POST(g_cscf.free == head);

    for (i = 0; i < bufs; i++) {
        cl = ngx_rtmp_alloc_shared_buf(&g_cscf);
        VP_POST(cl == &g_shared[i]->cl && cl->next == NULL && g_shared[i]->ref == 1);
        VP_POST(cl->buf->pos == cl->buf->start + NGX_RTMP_MAX_CHUNK_HEADER);
        VP_POST(cl->buf->last == cl->buf->pos);
    }

    VP_POST(g_allocs == bufs && g_cscf.free == NULL);
    p = ngx_rtmp_alloc_shared_buf(&g_cscf);
    VP_POST(p == &g_shared[bufs]->cl && g_allocs == bufs + 1);
    ngx_rtmp_free_shared_chain(&g_cscf, cl);
    ngx_rtmp_free_shared_chain(&g_cscf, p);
    VP_POST(g_cscf.free == p && p->next == cl && cl->next == NULL);
}

void
h_shared(void)
{
    x_fill();
    g_cscf.chunk_size = CHUNK;
    x_append(0, 0, 5, 40, 40);
    x_append(0, 0, 16, 7, 3);
    x_append(0, 0, 32, 0, 17);
    x_append(0, 0, 32, 30, 1);
    x_append(10, 40, 6, 40, 1);
    x_append(10, 2, 23, 5, 9);
    x_append(16, 40, 1, 40, 1);
    x_append(32, 40, 32, 16, 16);
    x_append(31, 4, 32, 1, 31);
    VP_COVER(1);
}
#endif
