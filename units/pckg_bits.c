/* contracts on the packager's bit reader, Exp-Golomb codes and emulation prevention */

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;
ngx_uint_t             ngx_pagesize = 4096;

void *ngx_array_push_n(ngx_array_t *a, ngx_uint_t n) { return NULL; }
ngx_int_t ngx_array_init_stub(void) { return NGX_OK; }

#include "nginx-pckg-module/src/media/avc_hevc_parser.c"
#include "vp_stubs.h"

#define PAD     24                      /* outside the data, on both sides */

/* the reader is described by its position in bits from the buffer's start */
#define P_READER(r, b, n)                                                     \
    ((r)->stream.cur_pos >= (b) && (r)->stream.cur_pos <= (b) + (n)           \
     && (r)->stream.end_pos == (b) + (n)                                      \
     && (r)->cur_bit >= -1 && (r)->cur_bit <= 7)

#define P_BITPOS(r, b)                                                        \
    (8 * (int) ((r)->stream.cur_pos - (b)) - ((r)->cur_bit + 1))

#define BIT(b, i)  (((b)[(i) >> 3] >> (7 - ((i) & 7))) & 1)


VP_DECLARE_INPUT(struct {
    u_char      b[16];
    uint8_t     n;
    uint8_t     p;
    uint32_t    v;
})

static bit_reader_state_t   g_r;
static u_char               g_buf[PAD + 16 + PAD];

#define g_b  (g_buf + PAD)


/* n bytes, the reader at bit p, as a sequence of reads leaves it */
static void
vp_setup(unsigned n, unsigned p)
{
    unsigned  i;

    /* whatever lies outside must not matter */
    for (i = 0; i < sizeof(g_buf); i++) {
        g_buf[i] = 0xff;
    }

    for (i = 0; i < 16; i++) {
        if (i < n) {
            g_b[i] = in.b[i];
        }
    }

    bit_read_stream_init(&g_r, g_b, n);
    g_r.stream.cur_pos = g_b + (p + 7) / 8;
    g_r.cur_bit = (p & 7) ? 7 - (p & 7) : -1;
    g_r.cur_byte = (p & 7) ? g_b[p >> 3] : 0;
}


#if defined U_BITS

/* bits past the end read as zero */
static uint64_t
vp_bits(unsigned n, unsigned p, unsigned count)
{
    uint64_t  v = 0;
    unsigned  i;

    for (i = 0; i < count; i++) {
        v = v << 1;
        if (p + i < 8 * n) {
            v |= BIT(g_b, p + i);
        }
    }

    return v;
}


static void
vp_one(unsigned n, unsigned p, unsigned count)
{
    int64_t   v;
    unsigned  end = p + count;

    vp_setup(n, p);

#if OP == 0
    v = bit_read_stream_get_one(&g_r);
    VP_POST((uint64_t) v == vp_bits(n, p, count));
#elif OP == 1
    v = 0;
    bit_read_stream_skip(&g_r, count);
#elif OP == 2
    v = bit_read_stream_get(&g_r, count);
    VP_POST((uint32_t) v == vp_bits(n, p, count));
#else
    v = bit_read_stream_get_long(&g_r, count);
    VP_POST((uint64_t) v == vp_bits(n, p, count));
#endif

    /* nothing is read outside the buffer, a read past its end is noticed */
    VP_POST(P_READER(&g_r, g_b, n));
    VP_POST(!g_r.stream.eof_reached == (end <= 8 * n));

    if (end <= 8 * n) {
        VP_POST((unsigned) P_BITPOS(&g_r, g_b) == end);

        /* the next bit is the one that follows */
        VP_POST(bit_read_stream_get_one(&g_r) == (int) vp_bits(n, end, 1));

    } else {
        VP_POST(g_r.stream.cur_pos == g_r.stream.end_pos);
        VP_POST(bit_read_stream_get_one(&g_r) == 0);
    }
}


void
h_bits(void)
{
    unsigned  p, c, n;

    VP_LOAD_INPUT();

    n = OP == 3 ? 8 : OP == 1 ? 5 : 4;

    for (p = 0; p < 8; p++) {
        for (c = 0; c < 65; c++) {
#if OP == 0
            if (c != 1) {
                continue;
            }
#elif OP == 2
            if (c > 32) {
                continue;
            }
#elif OP == 3
            if (c > 2 && c < 62 && c % 5 != p % 5) {
                continue;
            }
#endif
            vp_one(n, p, c);
        }

        vp_one(0, 0, OP == 0 ? 1 : p);
    }

    for (n = 1; n < 3; n++) {
        vp_one(n, 8 * n - 1, 1);
        vp_one(n, 8 * n, 1);
    }

    VP_COVER(1);
}

#endif


#if defined U_GOLOMB

/* ue(v) of ITU-T H.264 9.1: z zero bits, a one, z bits */
static void
vp_code(unsigned n, unsigned p, unsigned z)
{
    unsigned  i, op, end;
    uint32_t  v, w;
    int32_t   s;

    end = p + 2 * z + 1;

    for (op = 0; op < 4; op++) {
        vp_setup(n, p);
        v = 0;
        s = 0;

        if (op == 0) {
            v = bit_read_stream_get_unsigned_exp(&g_r);

        } else if (op == 1) {
            s = bit_read_stream_get_signed_exp(&g_r);

        } else if (op == 2) {
            bit_read_stream_skip_unsigned_exp(&g_r);

        } else {
            bit_read_stream_skip_signed_exp(&g_r);
        }

        VP_POST(P_READER(&g_r, g_b, n));
        VP_POST(!g_r.stream.eof_reached == (end <= 8 * n));

        if (end > 8 * n) {
            continue;
        }

        VP_POST((unsigned) P_BITPOS(&g_r, g_b) == end);

        w = 0;
        for (i = 0; i < z; i++) {
            w = (w << 1) | BIT(g_b, p + z + 1 + i);
        }

        w += (1u << z) - 1;

        if (op == 0) {
            VP_POST(v == w);

        } else if (op == 1) {
            VP_POST(w >= 0x7fffffff
                    || s == ((w & 1) ? (int32_t) ((w + 1) / 2) : -(int32_t) (w / 2)));
        }
    }
}


void
h_golomb(void)
{
    unsigned  z, p, i, k;
    u_char    save[16];

    VP_LOAD_INPUT();

    for (i = 0; i < 16; i++) {
        save[i] = in.b[i];
    }

    /* the one is the last bit of its byte, the bytes that follow are arbitrary */
    for (z = 0; z < 32; z++) {
        p = (7 - z) & 7;
        k = (p + z) / 8;
        for (i = 0; i < 16; i++) {
            in.b[i] = i < k ? 0 : i == k ? 1 : save[i];
        }

        vp_code(k + 1 + (z + 7) / 8, p, z);
        if (z > 0) {
            vp_code(k + (z + 7) / 8, p, z);
        }
    }

    /* short codes at every alignment, all suffixes */
    for (p = 0; p < 8; p++) {
        for (z = 0; z < 4; z++) {
            for (i = 0; i < (1u << z); i++) {
                k = (1u << z) | i;              /* 2z + 1 bits */
                k <<= 24 - (p + 2 * z + 1);
                in.b[0] = k >> 16;
                in.b[1] = k >> 8;
                in.b[2] = k;
                vp_code(2, p, z);
            }
        }
    }

    VP_COVER(1);
}

#endif


#if defined U_TAIL

void
h_trailing(void)
{
    unsigned  i, ok;

    VP_LOAD_INPUT();
    VP_PRE(in.n <= 3 && in.p <= 8 * in.n);
    vp_setup(in.n, in.p);

    ok = in.p < 8 * (unsigned) in.n && BIT(g_b, in.p);
    for (i = 0; i < 24; i++) {
        if (i > in.p && i < 8 * (unsigned) in.n && BIT(g_b, i)) {
            ok = 0;
        }
    }

    VP_POST(!avc_hevc_parser_rbsp_trailing_bits(&g_r) == !ok);
    VP_POST(P_READER(&g_r, g_b, in.n));
    VP_COVER(ok && in.p == 9);
}

#endif


#if defined U_LOG2

void
h_log2(void)
{
    unsigned  r;

    VP_LOAD_INPUT();
    VP_PRE(in.v > 0);
    r = avc_hevc_parser_ceil_log2(in.v);
    VP_POST(r <= 32 && ((uint64_t) 1 << r) >= in.v);
    VP_POST(r == 0 || ((uint64_t) 1 << (r - 1)) < in.v);
    VP_COVER(r == 32);
}

#endif


#if defined U_EMUL || defined U_ANY

#define NE   6
static u_char   g_enc[NE + NE / 2 + 1];
static unsigned  g_len;
static request_context_t  g_rc;

/* ITU-T H.264 7.4.1.1: no 00 00 0x (x <= 3) may appear in the NAL */
static void
vp_encode(const u_char *p, unsigned n)
{
    unsigned  i, z = 0;

    g_len = 0;
    for (i = 0; i < NE; i++) {
        if (i >= n) {
            break;
        }

        if (z == 2 && p[i] <= 3) {
            g_enc[g_len++] = 3;
            z = 0;
        }

        g_enc[g_len++] = p[i];
        z = p[i] ? 0 : z + 1;
    }
}


#if defined U_EMUL

static u_char  g_x[NE];

static void
vp_emul(unsigned n)
{
    unsigned      i;
    vod_status_t  rc;

    for (i = 0; i < NE; i++) {
        g_b[i] = g_x[i];
    }

    vp_encode(g_x, n);

    VP_POST(avc_hevc_parser_emulation_prevention_encode_bytes(g_b, g_b + n) == g_len - n);

    for (i = 0; i < g_len; i++) {
        g_b[i] = g_enc[i];
    }

    rc = avc_hevc_parser_emulation_prevention_decode(&g_rc, &g_r, g_b, g_len);

    if (rc != VOD_OK) {
        VP_POST(rc == VOD_ALLOC_FAILED && vp_alloc_fail && g_len != n);
        return;
    }

    VP_POST(g_r.stream.end_pos - g_r.stream.cur_pos == n);
    VP_POST(g_r.cur_bit == -1 && !g_r.stream.eof_reached);

    for (i = 0; i < n; i++) {
        VP_POST(g_r.stream.cur_pos[i] == g_x[i]);
    }
}


void
h_emul(void)
{
    static const u_char  abc[4] = { 0, 3, 0x41, 1 };
    unsigned             i, k, n, m;

    VP_LOAD_INPUT();

    g_rc.log = &vp_log;
    g_rc.pool = &vp_pool;

    /* all words over {0, 3, x} of 5 bytes, over {0, 3, x, 1} of up to 4 */
    for (n = 1; n <= 5; n++) {
        m = n == 5 ? 3 : 4;
        for (i = 0; i < (n == 5 ? 243 : 1u << (2 * n)); i++) {
            for (k = 0; k < n; k++) {
                g_x[k] = abc[k == 0 ? i % m : k == 1 ? i / m % m : k == 2 ? i / m / m % m
                             : k == 3 ? i / m / m / m % m : i / 81];
            }

            vp_emul(n);
        }
    }

    vp_alloc_fail = 0xffffffff;
    vp_alloc_n = 0;
    g_x[0] = g_x[1] = g_x[2] = 0;
    vp_emul(3);
    VP_COVER(1);
}


#else

/* any bytes, encoded or not: every byte of the result comes from the input, in order */
void
h_emul_any(void)
{
    unsigned      i, o;
    vod_status_t  rc;

    VP_LOAD_INPUT();
    vp_setup(EN, 0);

    g_rc.log = &vp_log;
    g_rc.pool = &vp_pool;
    rc = avc_hevc_parser_emulation_prevention_decode(&g_rc, &g_r, g_b, EN);
    VP_POST(rc == VOD_OK);

    for (i = o = 0; i < EN; i++) {
        if (i >= 2 && in.b[i] == 3 && in.b[i - 1] == 0 && in.b[i - 2] == 0) {
            continue;
        }

        VP_POST(g_r.stream.cur_pos[o] == in.b[i]);
        o++;
    }

    VP_POST(g_r.stream.end_pos - g_r.stream.cur_pos == o);
    VP_COVER(o + 1 == EN);
}

#endif
#endif
