/* contracts on the AES counter mode of the packager, and on its output buffer */

#include "vp.h"
#include "nginx-pckg-module/src/media/common.h"

#define PCKG_OUT  160
#define PCKG_BUF  64
#include "pckg_enc.h"

#include "nginx-pckg-module/src/media/write_buffer.c"
#include "nginx-pckg-module/src/media/mp4/mp4_aes_ctr.c"
#include "vp_stubs.h"

ngx_pool_cleanup_t *
ngx_pool_cleanup_add(ngx_pool_t *p, size_t size)
{
    static ngx_pool_cleanup_t  cln;

    return &cln;
}

VP_DECLARE_INPUT(struct {
    u_char      iv[8];
    u_char      key[16];
    u_char      d[160];
    uint64_t    counter;
    uint8_t     fill;
})

static mp4_aes_ctr_state_t   g_ctr;
static write_buffer_state_t  g_wb;

static uint64_t
be64(const u_char *p)
{
    return ((uint64_t) p[0] << 56) | ((uint64_t) p[1] << 48)
           | ((uint64_t) p[2] << 40) | ((uint64_t) p[3] << 32)
           | ((uint64_t) p[4] << 24) | ((uint64_t) p[5] << 16)
           | ((uint64_t) p[6] << 8) | p[7];
}


#ifdef U_INCR
/* the counter of a block is the previous one plus 1, as a 64 bit big endian number */
static u_char    g_counter[8 + 8];
static uint64_t  g_value;

void mp4_aes_ctr_increment_be64_c(u_char *counter)
__CPROVER_requires(counter == g_counter + 4 && be64(counter) == g_value)
__CPROVER_assigns(__CPROVER_object_upto(counter, 8))
__CPROVER_ensures(be64(counter) == g_value + 1)
;

void
h_incr(void)
{
    unsigned  i;
    uint64_t  v;

    VP_LOAD_INPUT();
    v = in.counter;
    g_value = v;

    for (i = 0; i < 8; i++) {
        g_counter[4 + i] = v >> (56 - 8 * i);
    }

    mp4_aes_ctr_increment_be64(g_counter + 4);
    VP_POST(be64(g_counter + 4) == v + 1);
    VP_COVER(v == 0xffffffffffffffffull);
}
#endif


static void
ctr_init(void)
{
    unsigned  i;

    vp_enc_reset();
    for (i = 0; i < 16; i++) {
        g_key[i] = in.key[i];
    }

    g_ctr.cipher = NULL;
    VP_POST(mp4_aes_ctr_init(&g_ctr, &g_rc, g_key) == VOD_OK);
    VP_POST(g_mode == 1 && g_key_ok && g_ctr.cipher != NULL);
    mp4_aes_ctr_set_iv(&g_ctr, in.iv);

    /* no key stream left: as above, replaced by equal positions */
    VP_POST(g_ctr.encrypted_pos == g_ctr.encrypted_end);
    g_ctr.encrypted_pos = g_ctr.encrypted_end = g_ctr.encrypted_counter;
}

/* byte i of the key stream of an iv */
static u_char
ks(const u_char *iv, uint32_t i)
{
    u_char    b[16];
    uint32_t  blk = i / 16;
    unsigned  k;

    for (k = 0; k < 8; k++) {
        b[k] = iv[k];
        b[8 + k] = k < 4 ? 0 : blk >> (56 - 8 * k);
    }

    return vp_e(b, i % 16);
}


#ifdef U_PROCESS
#ifdef U_LONG
#define BIG  1072
#else
#define BIG  150
#endif
static u_char  g_src[BIG + 16], g_dst[BIG + 16];

static void
process(const uint32_t *sizes)
{
    uint32_t  i, n, at;

    ctr_init();
    at = 0;

    for (i = 0; sizes[i] != 0; i++) {
        n = sizes[i];
        VP_POST(mp4_aes_ctr_process(&g_ctr, g_dst + at, g_src + at, n) == VOD_OK);
        at += n;
    }

    for (i = 0; i < at; i++) {
        VP_POST(g_dst[i] == (u_char) (g_src[i] ^ ks(in.iv, i)));
    }

    /* nothing is written behind */
    VP_POST(g_dst[at] == 0x77);

    for (i = 0; i <= at; i++) {
        g_dst[i] = 0x77;
    }
}

static const uint32_t  g_sizes[][8] = {
#ifdef U_LONG
    { 5, 1020, 30, 0 },
#else
    { 1, 15, 16, 17, 40, 3, 0 }, { 16, 32, 5, 5, 5, 1, 0 }, { 47, 2, 31, 0 },
#endif
};

void
h_process(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < sizeof(g_src); i++) {
        g_src[i] = in.d[i % 160];
        g_dst[i] = 0x77;
    }

    for (i = 0; i < sizeof(g_sizes) / sizeof(g_sizes[0]); i++) {
        process(g_sizes[i]);
    }

    VP_COVER(1);
}
#endif


static u_char  g_none[64];

/* no buffer yet: the three positions are equal (and not NULL, whose
   difference is not folded) */
static void
wb_empty(void)
{
    VP_POST(g_wb.start_pos == NULL && g_wb.cur_pos == NULL && g_wb.end_pos == NULL);
    g_wb.start_pos = g_wb.cur_pos = g_wb.end_pos = g_none;
}

static void
wb_init(size_t bsize, bool_t reuse)
{
    g_bsize = bsize;
    write_buffer_init(&g_wb, &g_rc, vp_write, NULL, reuse);
    wb_empty();
}


#ifdef U_WRITE
static void
write_one(size_t bsize, unsigned prefix, unsigned a, unsigned b)
{
    u_char    *p;
    unsigned   i;

    ctr_init();
    wb_init(bsize, FALSE);

    VP_POST(write_buffer_write(&g_wb, in.d, prefix) == VOD_OK);
    VP_POST(mp4_aes_ctr_write_encrypted(&g_ctr, &g_wb, in.d + prefix, a) == VOD_OK);
    VP_POST(mp4_aes_ctr_write_encrypted(&g_ctr, &g_wb, in.d + prefix + a, b) == VOD_OK);
    VP_POST(write_buffer_flush(&g_wb, FALSE) == VOD_OK);

    vp_collect();
    VP_POST(g_outs == prefix + a + b && !g_log_fail);

    for (i = 0; i < g_outs; i++) {
        p = in.d + i;
        VP_POST(g_out[i] == (i < prefix ? *p : (u_char) (*p ^ ks(in.iv, i - prefix))));
    }
}

void
h_write(void)
{
    VP_LOAD_INPUT();

    write_one(32, 0, 15, 18);
    write_one(32, 7, 60, 1);
    write_one(32, 16, 16, 33);
    write_one(24, 20, 1, 31);
    write_one(24, 9, 0, 24);
    write_one(17, 1, 17, 17);

    VP_COVER(1);
}
#endif


#ifdef U_WB
/* any sequence of writes and reservations comes out in order, in whole */
static void
wb_one(size_t bsize, bool_t reuse, unsigned a, unsigned b, unsigned c)
{
    u_char    *p;
    size_t     left;
    unsigned   i, at;

    vp_enc_reset();
    wb_init(bsize, reuse);

    VP_POST(write_buffer_write(&g_wb, in.d, a) == VOD_OK);
    at = a;

    p = NULL;
    VP_POST(write_buffer_get_bytes(&g_wb, b, NULL, &p) == VOD_OK);
    for (i = 0; i < b; i++) {
        p[i] = in.d[at++];
    }

    left = 0;
    VP_POST(write_buffer_get_bytes(&g_wb, b, &left, &p) == VOD_OK);
    VP_POST(left >= b && left <= bsize && p == g_wb.cur_pos && p + left == g_wb.end_pos);
    for (i = 0; i < b; i++) {
        p[i] = in.d[at++];
    }
    g_wb.cur_pos += b;

    VP_POST(write_buffer_write(&g_wb, in.d + at, c) == VOD_OK);
    at += c;

    if (g_wb.end_pos != NULL) {
        VP_POST(g_wb.cur_pos >= g_wb.start_pos && g_wb.cur_pos <= g_wb.end_pos);
    }

    /* more than a buffer is refused */
    VP_POST(write_buffer_flush(&g_wb, FALSE) == VOD_OK);

    if (!reuse) {
        VP_POST(g_wb.cur_pos == NULL && g_wb.start_pos == NULL);
        vp_collect();
        VP_POST(g_outs == at && !g_log_fail);
        for (i = 0; i < g_outs; i++) {
            VP_POST(g_out[i] == in.d[i]);
        }
        for (i = 0; i < g_logs; i++) {
            VP_POST(g_log_n[i] > 0);
        }

    } else {
        VP_POST(g_pools <= 1);
    }
}

static unsigned  g_rat;

/* with reuse, a piece is consumed by the time the callback returns */
static vod_status_t
vp_write_now(void *ctx, u_char *p, uint32_t n)
{
    uint32_t  i;

    for (i = 0; i < n; i++) {
        VP_POST(p[i] == in.d[g_rat]);
        g_rat++;
    }

    return VOD_OK;
}

static vod_status_t
vp_write_err(void *ctx, u_char *p, uint32_t n)
{
    return VOD_UNEXPECTED;
}

void
h_wb(void)
{
    static const unsigned  a[] = { 0, 7, 16, 40 };
    static const unsigned  b[] = { 5, 16 };
    unsigned               i, k, l;
    size_t                 sz;
    u_char                *p;

    VP_LOAD_INPUT();

    for (i = 0; i < 4; i++) {
        for (k = 0; k < 2; k++) {
            for (l = 0; l < 4; l++) {
                wb_one(16, FALSE, a[i], b[k], a[l]);
                wb_one(16, TRUE, a[i], b[k], a[l]);
            }
        }
    }

    for (i = 0; i < 4; i++) {
        vp_enc_reset();
        g_bsize = 16;
        g_rat = 0;
        write_buffer_init(&g_wb, &g_rc, vp_write_now, NULL, TRUE);
        wb_empty();
        VP_POST(write_buffer_write(&g_wb, in.d, a[i]) == VOD_OK);
        VP_POST(write_buffer_write(&g_wb, in.d + a[i], 33) == VOD_OK);
        VP_POST(write_buffer_flush(&g_wb, FALSE) == VOD_OK);
        VP_POST(g_rat == a[i] + 33 && g_pools == 1);
    }

    /* refused: more than a buffer, a failing callback, no memory */
    vp_enc_reset();
    wb_init(16, FALSE);
    VP_POST(write_buffer_get_bytes(&g_wb, 17, &sz, &p) == VOD_UNEXPECTED);

    vp_enc_reset();
    g_bsize = 16;
    write_buffer_init(&g_wb, &g_rc, vp_write_err, NULL, FALSE);
    wb_empty();
    VP_POST(write_buffer_write(&g_wb, in.d, 16) == VOD_OK);
    VP_POST(write_buffer_write(&g_wb, in.d, 1) == VOD_UNEXPECTED);
    VP_POST(write_buffer_get_bytes(&g_wb, 1, NULL, &p) == VOD_UNEXPECTED);

    vp_enc_reset();
    g_pools = LMAX;
    wb_init(16, FALSE);
    VP_POST(write_buffer_write(&g_wb, in.d, 1) == VOD_ALLOC_FAILED);

    vp_enc_reset();
    g_pools = LMAX;
    wb_init(16, FALSE);
    VP_POST(write_buffer_get_bytes(&g_wb, 1, NULL, &p) == VOD_ALLOC_FAILED);

    VP_COVER(1);
}
#endif
