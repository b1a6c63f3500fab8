/*
 * AES-CBC output of HLS (whole segments, audio frames and AVC slices of
 * SAMPLE-AES), against the layout the scheme prescribes.
 */

#include "vp.h"
#include "nginx-pckg-module/src/media/common.h"

#define PCKG_OUT  1200
#define PCKG_BUF  128
#define VP_OWN_PALLOC
#include "pckg_enc.h"

#ifdef U_SAMPLE
#include "nginx-pckg-module/src/media/mpegts/sample_aes_avc_filter.c"
#elif defined U_FRAME
#include "nginx-pckg-module/src/media/mpegts/frame_encrypt_filter.c"
#else
#include "nginx-pckg-module/src/media/aes_cbc_encrypt.c"
#endif
#include "vp_stubs.h"

ngx_pool_cleanup_t *
ngx_pool_cleanup_add(ngx_pool_t *p, size_t size)
{
    static ngx_pool_cleanup_t  cln;

    return &cln;
}

VP_DECLARE_INPUT(struct {
    u_char      iv[16];
    u_char      key[16];
    u_char      d[64];
})

static void
cbc_keys(void)
{
    unsigned  i;

    vp_enc_reset();
    for (i = 0; i < 16; i++) {
        g_key[i] = in.key[i];
        g_iv[i] = in.iv[i];
    }
}

#if defined U_SAMPLE || defined U_FRAME

static media_filter_context_t  g_ctx;
static media_filter_t          g_filter;
static u_char                  g_src[600];
static u_char                  g_exp[1200];
static unsigned                g_exps;
static unsigned                g_pos;
static output_frame_t         *g_started;

static vod_status_t
vp_start(media_filter_context_t *context, output_frame_t *frame)
{
    g_started = frame;
    return VOD_OK;
}

/* the next filter: takes the bytes as they come */
static vod_status_t
vp_next_write(media_filter_context_t *context, const u_char *p, uint32_t n)
{
    uint32_t  i;

    for (i = 0; i < n; i++) {
        if (g_pos < PCKG_OUT) {
            g_out[g_pos] = p[i];
        }
        g_pos++;
    }

    return VOD_OK;
}

static void
compare(void)
{
    unsigned  i;

    VP_POST(g_pos == g_exps);
    for (i = 0; i < g_exps; i++) {
        VP_POST(g_out[i] == g_exp[i]);
    }
}
#endif


#ifdef U_FRAME
static frame_encrypt_filter_state_t  g_state;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    return &g_state;
}

/* a frame: 16 bytes clear, whole blocks encrypted, the rest clear */
static void
frame(unsigned size, unsigned step, unsigned first)
{
    output_frame_t  f;
    unsigned        i, at, n;

    g_exps = size;
    for (i = 0; i < size; i++) {
        g_exp[i] = g_src[i];
    }

    x_iv(in.iv);
    for (i = 16; i + 16 <= size; i += 16) {
        x_cbc_block(g_exp + i, g_src + i);
    }

    g_pos = 0;
    f.size = size;
    VP_POST(g_filter.start_frame(&g_ctx, &f) == VOD_OK);
    VP_POST(g_started == &f);

    for (at = 0; at < size; at += n) {
        n = at == 0 && first ? first : step;
        if (n > size - at) {
            n = size - at;
        }

        VP_POST(g_filter.write(&g_ctx, g_src + at, n) == VOD_OK);
    }

    compare();
    VP_POST(g_key_ok || size < 32);
}

void
h_frame(void)
{
    static const unsigned    sizes[] = { 300, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100 };
    hls_encryption_params_t  params;
    unsigned                 i;

    VP_LOAD_INPUT();
    cbc_keys();

    for (i = 0; i < 300; i++) {
        g_src[i] = in.d[(i * 7) % 64];
    }

    params.iv = g_iv;
    params.key = g_key;
    g_ctx.request_context = &g_rc;
    g_filter.start_frame = vp_start;
    g_filter.write = vp_next_write;

    VP_POST(frame_encrypt_filter_init(&g_filter, &g_ctx, &params) == VOD_OK);

    /* the parameters are not needed after this */
    for (i = 0; i < 16; i++) {
        g_iv[i] = 0;
    }

    for (i = 0; i < 12; i++) {
        frame(sizes[i], 1000, 0);
        frame(sizes[i], 13, 0);
        frame(sizes[i], 16, 5);
    }

    frame(100, 1, 0);
    frame(100, 40, 16);
    VP_COVER(1);
}
#endif


#ifdef U_SAMPLE
static sample_aes_avc_filter_state_t  g_state;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    return &g_state;
}

static void
sample_init(void)
{
    unsigned  i;

    vp_enc_reset();
    for (i = 0; i < 16; i++) {
        g_key[i] = 3 * i + 1;
        g_iv[i] = 5 * i + 2;
    }

    g_ctx.request_context = &g_rc;
    g_filter.write = vp_next_write;
    VP_POST(sample_aes_avc_filter_init(&g_filter, &g_ctx, g_key, g_iv) == VOD_OK);
}

static unsigned  x_zeros;

static void
x_put(u_char c)
{
    if (x_zeros >= 2 && c <= 3) {
        g_exp[g_exps++] = 3;
        x_zeros = 0;
    }

    g_exp[g_exps++] = c;
    x_zeros = c == 0 ? x_zeros + 1 : 0;
}

static void
nal(int type, unsigned size, unsigned step, unsigned first)
{
    u_char    raw[600];
    unsigned  i, at, n;

    for (i = 0; i < size; i++) {
        raw[i] = g_src[i];
    }

    g_exps = 0;
    if ((type == 1 || type == 5) && size > 48) {

        for (i = 0; i < 16; i++) {
            x_chain[i] = 5 * i + 2;
        }

        for (i = 32; size - i > 16 && i < size; i += 160) {
            x_cbc_block(raw + i, g_src + i);
        }

        x_zeros = 0;
        for (i = 0; i < size; i++) {
            x_put(raw[i]);
        }

    } else {
        for (i = 0; i < size; i++) {
            g_exp[g_exps++] = raw[i];
        }
    }

    g_pos = 0;
    VP_POST(sample_aes_avc_start_nal_unit(&g_ctx, type, size) == VOD_OK);

    for (at = 0; at < size; at += n) {
        n = at == 0 && first ? first : step;
        if (n > size - at) {
            n = size - at;
        }

        VP_POST(sample_aes_avc_filter_write_nal_body(&g_ctx, g_src + at, n) == VOD_OK);
    }

    compare();
}

#ifndef U_ANY
void
h_sample(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    sample_init();

    /* all different within a block period, some runs of zeros */
    for (i = 0; i < 600; i++) {
        g_src[i] = (i * 11 + i / 64) | 0x10;
    }

    g_src[20] = g_src[21] = g_src[22] = g_src[23] = 0;
    g_src[30] = g_src[31] = 0;
    g_src[49] = g_src[50] = 0;
    g_src[51] = 1;
    g_src[100] = g_src[101] = 0;
    g_src[102] = 4;
    g_src[110] = g_src[111] = 0;
    g_src[112] = 3;

#ifdef U_ZERO
    /* the first encrypted block ends in 00 00 00 03 02 00 */
    for (i = 10; i < 16; i++) {
        g_src[32 + (i + 5) % 16] = (u_char) (0x5a + i) ^ (u_char) (5 * ((i + 5) % 16) + 2)
                                   ^ (i == 13 ? 3 : i == 14 ? 2 : 0);
    }
    g_src[48] = 0;
    g_src[49] = 0;
    g_src[50] = 2;
    nal(1, 100, 1000, 0);
    nal(5, 100, 9, 0);
#elif defined U_CHUNKS
    nal(1, 353, 7, 0);
    nal(5, 353, 16, 40);
    nal(1, 209, 1, 0);
    nal(5, 353, 33, 47);
    nal(1, 230, 100, 192);
#else
    nal(1, 48, 1000, 0);
    nal(5, 48, 1000, 0);
    nal(6, 100, 1000, 0);
    nal(7, 100, 30, 0);
    nal(2, 100, 30, 0);
    nal(5, 49, 1000, 0);
    nal(1, 64, 1000, 0);
    nal(1, 65, 1000, 0);
    nal(1, 207, 1000, 0);
    nal(1, 208, 1000, 0);
    nal(5, 209, 1000, 0);
    nal(5, 368, 1000, 0);
    nal(1, 369, 1000, 0);
    nal(1, 20, 1000, 0);
    nal(1, 529, 1000, 0);
#endif
    VP_COVER(1);
}
#else

/* emulation prevention of the output, for all contents */
void
h_sample_any(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    sample_init();

    g_exps = 0;
    x_zeros = 0;
    for (i = 0; i < EN; i++) {
        x_put(in.d[i]);
    }

    g_pos = 0;
    VP_POST(sample_aes_avc_start_nal_unit(&g_ctx, 1, 100) == VOD_OK);
    VP_POST(sample_aes_avc_filter_write_nal_body(&g_ctx, in.d, EN - 2) == VOD_OK);
    VP_POST(sample_aes_avc_filter_write_nal_body(&g_ctx, in.d + EN - 2, 2) == VOD_OK);

    VP_POST(g_pos == g_exps);
    for (i = 0; i < 2 * EN; i++) {
        VP_POST(i >= g_exps || g_out[i] == g_exp[i]);
    }

    VP_COVER(g_exps == EN + EN / 3);
}
#endif
#endif


#ifdef U_CBC
static aes_cbc_encrypt_context_t  g_state;
static u_char                     g_dest[128];
static unsigned                   g_allocs;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    if (g_allocs++ == 0) {
        return &g_state;
    }

    VP_POST(size <= sizeof(g_dest));
    return g_dest;
}

static u_char  g_src[200];
static u_char  g_exp[240];

static unsigned
expected(unsigned total)
{
    u_char    b[16];
    unsigned  i, n;

    x_iv(in.iv);
    for (i = 0; i + 16 <= total; i += 16) {
        x_cbc_block(g_exp + i, g_src + i);
    }

    for (n = 0; n < 16; n++) {
        b[n] = i + n < total ? g_src[i + n] : 16 - (total - i);
    }

    x_cbc_block(g_exp + i, b);
    return i + 16;
}

static void
cbc(const unsigned *sizes)
{
    aes_cbc_encrypt_context_t  *c;
    vod_str_t                   src, dst;
    unsigned                    i, k, at, total, n, got;

    total = 0;
    for (i = 0; sizes[i] != 0; i++) {
        total += sizes[i];
    }

    n = expected(total);

    /* pieces, given to the callback */
    cbc_keys();
    g_allocs = 0;
    g_bsize = 96;
    c = NULL;
    VP_POST(aes_cbc_encrypt_init(&c, &g_rc, vp_write, NULL, NULL, g_key, g_iv) == VOD_OK);
    VP_POST(c == &g_state && g_key_ok && g_mode == 2);

    at = 0;
    for (i = 0; sizes[i] != 0; i++) {
        VP_POST(aes_cbc_encrypt_write(c, g_src + at, sizes[i]) == VOD_OK);
        at += sizes[i];
    }
    VP_POST(aes_cbc_encrypt_write(c, NULL, 0) == VOD_OK);

    vp_collect();
    VP_POST(g_outs == n && !g_log_fail);
    for (i = 0; i < n; i++) {
        VP_POST(g_out[i] == g_exp[i]);
    }
    for (i = 0; i < g_logs; i++) {
        VP_POST(g_log_n[i] > 0);
    }

    /* returned as strings */
    cbc_keys();
    g_allocs = 0;
    VP_POST(aes_cbc_encrypt_init(&c, &g_rc, vp_write, NULL, NULL, g_key, g_iv) == VOD_OK);

    at = 0;
    got = 0;
    for (i = 0; sizes[i] != 0; i++) {
        src.data = g_src + at;
        src.len = sizes[i];
        at += sizes[i];
        VP_POST(aes_cbc_encrypt(c, &dst, &src, sizes[i + 1] == 0) == VOD_OK);
        for (k = 0; k < dst.len; k++) {
            VP_POST(dst.data[k] == g_exp[got]);
            got++;
        }
    }
    VP_POST(got == n && g_logs == 0);
}

void
h_cbc(void)
{
    static const unsigned  sizes[][6] = {
        { 16, 0 }, { 1, 0 }, { 15, 0 }, { 17, 0 }, { 32, 0 }, { 5, 11, 0 },
        { 5, 12, 0 }, { 3, 4, 5, 6, 0 }, { 31, 1, 1, 0 }, { 16, 16, 7, 0 },
        { 10, 80, 33, 0 }, { 95, 0 },
    };
    unsigned               i;
    aes_cbc_encrypt_context_t  *c;

    VP_LOAD_INPUT();

    for (i = 0; i < 200; i++) {
        g_src[i] = in.d[(i * 7) % 64];
    }

    for (i = 0; i < 12; i++) {
        cbc(sizes[i]);
    }

    /* a buffer which is too small, no buffer */
    cbc_keys();
    g_allocs = 0;
    VP_POST(aes_cbc_encrypt_init(&c, &g_rc, vp_write, NULL, NULL, g_key, g_iv) == VOD_OK);
    g_bsize = 32;
    VP_POST(aes_cbc_encrypt_write(c, g_src, 40) == VOD_UNEXPECTED);
    VP_POST(g_logs == 0);
    g_pools = LMAX;
    VP_POST(aes_cbc_encrypt_write(c, g_src, 1) == VOD_ALLOC_FAILED);
    VP_COVER(1);
}
#endif
