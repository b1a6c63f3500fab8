/*
 * AMF0 values: reading across buffers into the elements asked for, writing,
 * and refusing what is malformed.
 */

#include "vp.h"
#undef NGX_DEBUG
#include "ngx_rtmp_amf.c"             /* rewritten, see the unit table */
#include "vp_stubs.h"

VP_DECLARE_INPUT(struct {
    u_char      d[64];
})

volatile ngx_cycle_t                        *ngx_cycle;
volatile ngx_msec_t                          ngx_current_msec;

#ifndef WIRE
#define WIRE  400
#endif

static u_char       g_wire[WIRE];
static unsigned     g_wires;
#ifndef BUFS
#define BUFS  8
#endif

static ngx_chain_t  g_cls[BUFS];
static ngx_buf_t    g_bufs[BUFS];
static unsigned     g_next;             /* next input byte */

static void
x_put(u_char c)
{
    g_wire[g_wires++] = c;
}

static u_char
x_any(void)
{
    u_char  c = in.d[g_next++ % 64];

    x_put(c);
    return c;
}

static void
x_any_n(unsigned n, u_char *v)
{
    unsigned  i;

    for (i = 0; i < n; i++) {
        v[i] = x_any();
    }
}

static void
x_16(unsigned v)
{
    x_put(v >> 8);
    x_put(v);
}

static void
x_key(char *s)
{
    unsigned  i, n;

    for (n = 0; s[n]; n++) { /* void */ }

    x_16(n);
    for (i = 0; i < n; i++) {
        x_put(s[i]);
    }
}

/* the stream in buffers: of first bytes, an empty one, then of step bytes */
static ngx_chain_t *
x_chain(unsigned first, unsigned step, unsigned total)
{
    unsigned  i, n, size;

    for (i = n = 0; i < total; n++) {
        size = n == 0 ? first : step;
        if (n == 1) {
            size = 0;
        }

        if (size > total - i) {
            size = total - i;
        }

        g_bufs[n].start = g_bufs[n].pos = g_wire + i;
        g_bufs[n].last = g_bufs[n].end = g_wire + i + size;
        g_cls[n].buf = &g_bufs[n];
        g_cls[n].next = &g_cls[n + 1];
        i += size;
    }

    g_cls[n - 1].next = NULL;
    return g_cls;
}

static ngx_rtmp_amf_ctx_t  g_ctx;

static void
x_ctx(ngx_chain_t *cl)
{
    g_ctx.link = cl;
    g_ctx.first = NULL;
    g_ctx.offset = 0;
    g_ctx.alloc = NULL;
    g_ctx.arg = NULL;
    g_ctx.log = &vp_log;
    g_ctx.depth = 0;
}

/* a number arrives with its most significant byte first */
static int
x_number(void *data, u_char *wire, unsigned n)
{
    unsigned   i;
    u_char    *p = data;

    for (i = 0; i < n; i++) {
        if (p[i] != wire[n - 1 - i]) {
            return 0;
        }
    }

    return 1;
}

static int
x_same(void *data, u_char *v, unsigned n)
{
    unsigned   i;
    u_char    *p = data;

    for (i = 0; i < n; i++) {
        if (p[i] != v[i]) {
            return 0;
        }
    }

    return 1;
}


#ifdef U_READ

static struct {
    u_char  num[8], pad0;
    u_char  yes, pad1;
    u_char  s1[8], pad2;
    u_char  s2[4], pad3;
    u_char  s3[5], pad4;
    u_char  onum[8], pad5;
    u_char  ostr[6], pad6;
    u_char  absent[8], pad7;
    u_char  inner[8], pad8;
    u_char  a0[8], a1[1], pad9;
    u_char  m0[8], pad10;
    u_char  last[8], pad11;
    u_char  opt[8], pad12;
} g_r;

static ngx_rtmp_amf_elt_t  g_inner[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_string("deep"), g_r.inner, 0 },
};

static ngx_rtmp_amf_elt_t  g_obj[] = {
    { NGX_RTMP_AMF_STRING, ngx_string("str"), g_r.ostr, sizeof(g_r.ostr) },
    { NGX_RTMP_AMF_NUMBER, ngx_string("absent"), g_r.absent, 0 },
    { NGX_RTMP_AMF_NUMBER, ngx_string("num"), g_r.onum, 0 },
    { NGX_RTMP_AMF_OBJECT, ngx_string("in"), g_inner, sizeof(g_inner) },
};

static ngx_rtmp_amf_elt_t  g_arr[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, g_r.a0, 0 },
    { NGX_RTMP_AMF_BOOLEAN, ngx_null_string, g_r.a1, 0 },
};

static ngx_rtmp_amf_elt_t  g_mixed[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_string("m0"), g_r.m0, 0 },
};

static ngx_rtmp_amf_elt_t  g_elts[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, g_r.num, 0 },
    { NGX_RTMP_AMF_BOOLEAN, ngx_null_string, &g_r.yes, 0 },
    { NGX_RTMP_AMF_STRING, ngx_null_string, g_r.s1, sizeof(g_r.s1) },
    { NGX_RTMP_AMF_STRING, ngx_null_string, g_r.s2, sizeof(g_r.s2) },
    { NGX_RTMP_AMF_STRING, ngx_null_string, g_r.s3, sizeof(g_r.s3) },
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, g_r.absent, 0 },
    { NGX_RTMP_AMF_OBJECT, ngx_null_string, g_obj, sizeof(g_obj) },
    { NGX_RTMP_AMF_ARRAY, ngx_null_string, g_arr, sizeof(g_arr) },
    { NGX_RTMP_AMF_OBJECT, ngx_null_string, g_mixed, sizeof(g_mixed) },
    { NGX_RTMP_AMF_NULL, ngx_null_string, NULL, 0 },
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, g_r.last, 0 },
    { NGX_RTMP_AMF_NUMBER | NGX_RTMP_AMF_OPTIONAL, ngx_null_string, g_r.opt, 0 },
};

static void
x_read(unsigned first, unsigned step)
{
    u_char     num[8], yes, s1[5], s2[9], s3[5], onum[8], ostr[2], inner[8],
               a0[8], a1, m0[8], last[8], t[9];
    unsigned   i;
    ngx_int_t  rc;

    g_wires = g_next = 0;
    for (i = 0; i < sizeof(g_r); i++) {
        ((u_char *) &g_r)[i] = 0x77;
    }

    x_put(0);
    x_any_n(8, num);
    x_put(1);
    yes = x_any();
    x_put(2);
    x_16(5);
    x_any_n(5, s1);
    x_put(2);
    x_16(9);
    x_any_n(9, s2);
    x_put(2);
    x_16(5);
    x_any_n(5, s3);
    x_put(2);                           /* of another type than asked for */
    x_16(3);
    x_any_n(3, t);

    x_put(3);
    x_key("unknown");
    x_put(2);
    x_16(4);
    x_any_n(4, t);
    x_key("num");
    x_put(0);
    x_any_n(8, onum);
    x_key("st");
    x_put(0);
    x_any_n(8, t);
    x_key("nux");
    x_put(0);
    x_any_n(8, t);
    x_key("str");
    x_put(2);
    x_16(2);
    x_any_n(2, ostr);
    x_key("stray");
    x_put(3);
    x_key("num");
    x_put(0);
    x_any_n(8, t);
    x_16(0);
    x_put(9);
    x_key("in");
    x_put(3);
    x_key("deep");
    x_put(0);
    x_any_n(8, inner);
    x_16(0);
    x_put(9);
    x_16(0);
    x_put(9);

    x_put(10);
    x_put(0);
    x_put(0);
    x_16(3);
    x_put(0);
    x_any_n(8, a0);
    x_put(1);
    a1 = x_any();
    x_put(5);

    x_put(8);
    x_any_n(4, t);
    x_key("m0");
    x_put(0);
    x_any_n(8, m0);
    x_16(0);
    x_put(9);

    x_put(5);
    x_put(0);
    x_any_n(8, last);

    x_ctx(x_chain(first, step, g_wires));
    rc = ngx_rtmp_amf_read(&g_ctx, g_elts, 12);
    VP_POST(rc == NGX_OK);
    VP_POST(x_number(g_r.num, num, 8));
    VP_POST(g_r.yes == yes);
    VP_POST(x_same(g_r.s1, s1, 5) && g_r.s1[5] == 0);
    VP_POST(x_same(g_r.s2, s2, 3) && g_r.s2[3] == 0);
    VP_POST(x_same(g_r.s3, s3, 4) && g_r.s3[4] == 0);
    VP_POST(x_number(g_r.onum, onum, 8));
    VP_POST(x_same(g_r.ostr, ostr, 2) && g_r.ostr[2] == 0);
    VP_POST(x_number(g_r.inner, inner, 8));
    VP_POST(x_number(g_r.a0, a0, 8));
    VP_POST(g_r.a1[0] == a1);
    VP_POST(x_number(g_r.m0, m0, 8));
    VP_POST(x_number(g_r.last, last, 8));

    /* nothing else is touched */
    for (i = 0; i < 8; i++) {
        VP_POST(g_r.absent[i] == 0x77 && g_r.opt[i] == 0x77);
    }

    VP_POST(g_r.pad0 == 0x77 && g_r.pad1 == 0x77 && g_r.pad2 == 0x77
            && g_r.pad3 == 0x77 && g_r.pad4 == 0x77 && g_r.pad5 == 0x77);
    VP_POST(g_r.pad6 == 0x77 && g_r.pad7 == 0x77 && g_r.pad8 == 0x77
            && g_r.pad9 == 0x77 && g_r.pad10 == 0x77 && g_r.pad11 == 0x77
            && g_r.pad12 == 0x77);
    VP_POST(g_ctx.link->buf->pos + g_ctx.offset == g_wire + g_wires);
}

void
h_read(void)
{
    VP_LOAD_INPUT();
    x_read(1000, 1);
    x_read(1, 1);
    x_read(3, 5);
    x_read(20, 13);
    VP_COVER(1);
}
#endif


#ifdef U_REFUSE

static u_char  g_num[8], g_str[4], g_num2[8];

static ngx_rtmp_amf_elt_t  g_obj[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_string("a"), g_num, 0 },
};

static ngx_rtmp_amf_elt_t  g_elts[] = {
    { NGX_RTMP_AMF_STRING, ngx_null_string, g_str, sizeof(g_str) },
    { NGX_RTMP_AMF_OBJECT, ngx_null_string, g_obj, sizeof(g_obj) },
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, g_num2, 0 },
};

static ngx_int_t
x_try(unsigned first, unsigned total)
{
    x_ctx(x_chain(first, 4, total));
    return ngx_rtmp_amf_read(&g_ctx, g_elts, 3);
}

void
h_refuse(void)
{
    u_char    t[9];
    unsigned  i, j, end;

    VP_LOAD_INPUT();

    /* cut at every byte */
    g_wires = g_next = 0;
    x_put(2);
    x_16(4);
    x_any_n(4, t);
    x_put(3);
    x_key("a");
    x_put(0);
    x_any_n(8, t);
    end = g_wires;
    x_16(0);
    x_put(9);
    x_put(0);
    x_any_n(8, t);

    for (i = 1; i < g_wires; i++) {
        VP_POST(x_try(2, i) == NGX_ERROR);
        VP_POST(x_try(1000, i) == NGX_ERROR);
    }

    VP_POST(x_try(3, g_wires) == NGX_OK);

    /* an object is closed by its end, whatever follows an empty key */
    g_wire[end + 2] = 0;
    VP_POST(x_try(3, g_wires) == NGX_ERROR);
    g_wire[end + 2] = 9;

    /* the input ends after a member */
    g_wires = g_next = 0;
    x_put(3);
    x_key("a");
    x_put(0);
    x_any_n(8, t);
    x_ctx(x_chain(4, 4, g_wires));
    VP_POST(ngx_rtmp_amf_read(&g_ctx, g_elts + 1, 1) == NGX_OK);
    VP_POST(x_number(g_num, t, 8));

    /* types that are not there */
    for (i = 4; i < 20; i++) {
        if (i == 4 || i == 7 || i > 10) {
            g_wires = g_next = 0;
            x_put(i);
            x_any_n(9, t);
            x_ctx(x_chain(4, 4, g_wires));
            VP_POST(ngx_rtmp_amf_read(&g_ctx, g_elts + 2, 1) == NGX_ERROR);
        }
    }

    /* an array shorter than it says */
    g_wires = g_next = 0;
    x_put(10);
    x_put(0);
    x_put(0);
    x_16(3);
    x_put(1);
    x_put(1);
    x_put(1);
    x_put(1);
    x_ctx(x_chain(4, 4, g_wires));
    VP_POST(ngx_rtmp_amf_read(&g_ctx, NULL, 1) == NGX_ERROR);
    x_put(5);
    x_ctx(x_chain(4, 4, g_wires));
    VP_POST(ngx_rtmp_amf_read(&g_ctx, NULL, 1) == NGX_OK);
    VP_COVER(1);
}
#endif


#ifdef U_DEEP
/* nesting */
static ngx_int_t
x_deep(unsigned n, unsigned kind)
{
    unsigned  i;

    g_wires = 0;
    for (i = 0; i < n; i++) {
        if (kind == 0 || (kind == 2 && i % 2)) {
            x_put(10);
            x_put(0);
            x_put(0);
            x_16(1);

        } else {
            x_put(3);
            x_key("k");
        }
    }

    x_put(5);
    x_ctx(x_chain(1000, 4, g_wires));
    return ngx_rtmp_amf_read(&g_ctx, NULL, 1);
}

void
h_deep(void)
{
    VP_LOAD_INPUT();
    VP_POST(x_deep(8, 0) == NGX_OK && g_ctx.depth == 0);
    VP_POST(x_deep(8, 1) == NGX_OK && g_ctx.depth == 0);
    VP_POST(x_deep(65, 0) == NGX_ERROR);
    VP_POST(x_deep(65, 1) == NGX_ERROR);
    VP_POST(x_deep(65, 2) == NGX_ERROR);
    VP_COVER(1);
}
#endif


#ifdef U_WRITE

static u_char      g_out[3][200];
static unsigned    g_allocs, g_size;

static ngx_chain_t *
x_alloc(void *arg)
{
    unsigned  n = g_allocs++;

    VP_POST(arg == &g_allocs && n < BUFS);
    g_bufs[n].start = g_bufs[n].pos = g_bufs[n].last = g_wire + n * g_size;
    g_bufs[n].end = g_bufs[n].start + g_size;
    g_cls[n].buf = &g_bufs[n];
    g_cls[n].next = NULL;
    return &g_cls[n];
}

static u_char    g_exp[200];
static unsigned  g_exps;

static void
e_put(u_char c)
{
    g_exp[g_exps++] = c;
}

static void
e_put_n(u_char *p, unsigned n)
{
    unsigned  i;

    for (i = 0; i < n; i++) {
        e_put(p[i]);
    }
}

static void
e_number(u_char *p, unsigned n)
{
    while (n--) {
        e_put(p[n]);
    }
}

static void
x_write(unsigned size)
{
    unsigned  i, n;

    ngx_rtmp_amf_elt_t  inner[] = {
        { NGX_RTMP_AMF_BOOLEAN, ngx_string("b"), in.d + 30, 0 },
    };

    ngx_rtmp_amf_elt_t  obj[] = {
        { NGX_RTMP_AMF_STRING, ngx_string("str"), in.d + 20, 3 },
        { NGX_RTMP_AMF_OBJECT, ngx_string("o"), inner, sizeof(inner) },
        { NGX_RTMP_AMF_NUMBER, ngx_string("num"), in.d + 24, 0 },
    };

    ngx_rtmp_amf_elt_t  arr[] = {
        { NGX_RTMP_AMF_NULL, ngx_null_string, NULL, 0 },
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, in.d + 33, 0 },
    };

    ngx_rtmp_amf_elt_t  elts[] = {
        { NGX_RTMP_AMF_STRING, ngx_null_string, "onStatus", 0 },
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, in.d, 0 },
        { NGX_RTMP_AMF_NULL, ngx_null_string, NULL, 0 },
        { NGX_RTMP_AMF_OBJECT, ngx_null_string, obj, sizeof(obj) },
        { NGX_RTMP_AMF_ARRAY, ngx_null_string, arr, sizeof(arr) },
        { NGX_RTMP_AMF_MIXED_ARRAY, ngx_null_string, inner, sizeof(inner) },
        { NGX_RTMP_AMF_INT8 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, in.d + 45, 0 },
        { NGX_RTMP_AMF_INT16 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, in.d + 46, 0 },
        { NGX_RTMP_AMF_INT32 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, in.d + 48, 0 },
    };

    g_exps = 0;
    e_put(2);
    e_put(0);
    e_put(8);
    e_put_n((u_char *) "onStatus", 8);
    e_put(0);
    e_number(in.d, 8);
    e_put(5);
    e_put(3);
    e_put(0);
    e_put(3);
    e_put_n((u_char *) "str", 3);
    e_put(2);
    e_put(0);
    e_put(3);
    e_put_n(in.d + 20, 3);
    e_put(0);
    e_put(1);
    e_put('o');
    e_put(3);
    e_put(0);
    e_put(1);
    e_put('b');
    e_put(1);
    e_put(in.d[30]);
    e_put(0);
    e_put(0);
    e_put(9);
    e_put(0);
    e_put(3);
    e_put_n((u_char *) "num", 3);
    e_put(0);
    e_number(in.d + 24, 8);
    e_put(0);
    e_put(0);
    e_put(9);
    e_put(10);
    e_put(0);
    e_put(0);
    e_put(0);
    e_put(2);
    e_put(5);
    e_put(0);
    e_number(in.d + 33, 8);
    e_put(8);
    e_put(0);
    e_put(0);
    e_put(0);
    e_put(0);
    e_put(0);
    e_put(1);
    e_put('b');
    e_put(1);
    e_put(in.d[30]);
    e_put(0);
    e_put(0);
    e_put(9);
    e_put(in.d[45]);
    e_number(in.d + 46, 2);
    e_number(in.d + 48, 4);

    g_allocs = 0;
    g_size = size;
    x_ctx(NULL);
    g_ctx.alloc = x_alloc;
    g_ctx.arg = &g_allocs;

    VP_POST(ngx_rtmp_amf_write(&g_ctx, elts, 9) == NGX_OK);

    n = 0;
    VP_POST(g_ctx.first == &g_cls[0] && g_ctx.link == &g_cls[g_allocs - 1]);
    for (i = 0; i < g_allocs; i++) {
        VP_POST(g_cls[i].next == (i + 1 < g_allocs ? &g_cls[i + 1] : NULL));
        VP_POST(g_bufs[i].pos == g_wire + i * size);
        n += g_bufs[i].last - g_bufs[i].pos;
        VP_POST(i + 1 == g_allocs || g_bufs[i].last == g_bufs[i].end);
    }

    VP_POST(n == g_exps);
    for (i = 0; i < g_exps; i++) {
        VP_POST(g_wire[i] == g_exp[i]);
    }

    VP_POST(g_wire[g_exps] == 0x77);
}

void
h_write(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    for (i = 0; i < WIRE; i++) {
        g_wire[i] = 0x77;
    }

    x_write(200);
    x_write(1);
    x_write(5);
    x_write(13);
    VP_COVER(1);
}
#endif
