/*
 * Stand-ins shared by the encryption units: an injective block function in
 * place of AES (OpenSSL is external: its ECB and CBC modes are assumed as
 * documented), and a buffer pool handing out small buffers, so that every
 * buffer boundary is met.
 */
#ifndef PCKG_ENC_H
#define PCKG_ENC_H

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;

#include <openssl/evp.h>

#ifndef VP_REPLAY
/* keeps concrete bytes concrete; of a large area only the head is modelled */
void *
memset(void *dst, int c, size_t n)
{
    size_t  i;

    for (i = 0; i < n && i < 64; i++) {
        ((u_char *) dst)[i] = c;
    }

    return dst;
}
#endif

static int       g_cipher;              /* the context */
static int       g_ecb, g_cbc;
static int       g_mode;                /* 0: not set up, 1: ecb, 2: cbc */
static u_char    g_chain[16];
static u_char    g_part[16];
static unsigned  g_part_n;
static unsigned  g_inits;
static u_char    g_key[16];
static u_char    g_iv[16];
static int       g_key_ok;

/* the block function */
static u_char
vp_e(const u_char *b, unsigned i)
{
    return b[(i + 5) % 16] ^ (0x5a + i);
}

EVP_CIPHER_CTX *
EVP_CIPHER_CTX_new(void)
{
    return (EVP_CIPHER_CTX *) &g_cipher;
}

void
EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *ctx)
{
}

const EVP_CIPHER *
EVP_aes_128_ecb(void)
{
    return (const EVP_CIPHER *) &g_ecb;
}

const EVP_CIPHER *
EVP_aes_128_cbc(void)
{
    return (const EVP_CIPHER *) &g_cbc;
}

int
EVP_EncryptInit_ex(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *cipher, ENGINE *impl,
    const unsigned char *key, const unsigned char *iv)
{
    unsigned  i;

    if (cipher == (const EVP_CIPHER *) &g_ecb) {
        g_mode = 1;

    } else if (cipher == (const EVP_CIPHER *) &g_cbc) {
        g_mode = 2;
    }

    if (key != NULL) {
        g_key_ok = 1;
        for (i = 0; i < 16; i++) {
            if (key[i] != g_key[i]) {
                g_key_ok = 0;
            }
        }
    }

    if (iv != NULL) {
        for (i = 0; i < 16; i++) {
            g_chain[i] = iv[i];
        }
    }

    g_part_n = 0;
    g_inits++;
    return 1;
}

int
EVP_EncryptUpdate(EVP_CIPHER_CTX *ctx, unsigned char *out, int *outl,
    const unsigned char *in_, int inl)
{
    u_char    b[16];
    int       k, n;
    unsigned  i;

    n = 0;

    for (k = 0; k < inl; k++) {

        g_part[g_part_n++] = in_[k];

        if (g_part_n < 16) {
            continue;
        }

        for (i = 0; i < 16; i++) {
            b[i] = g_mode == 2 ? g_part[i] ^ g_chain[i] : g_part[i];
        }

        for (i = 0; i < 16; i++) {
            out[n + i] = vp_e(b, i);
        }

        for (i = 0; i < 16; i++) {
            g_chain[i] = out[n + i];
        }

        n += 16;
        g_part_n = 0;
    }

    *outl = n;
    return 1;
}

int
EVP_EncryptFinal_ex(EVP_CIPHER_CTX *ctx, unsigned char *out, int *outl)
{
    u_char    pad[16];
    unsigned  i, n;

    n = 16 - g_part_n;
    for (i = 0; i < n; i++) {
        pad[i] = n;
    }

    return EVP_EncryptUpdate(ctx, out, outl, pad, n);
}


/* the expected CBC encryption, written independently of the stub's state */
static u_char    x_chain[16];

static void
x_cbc_block(u_char *out, const u_char *src)
{
    u_char    b[16];
    unsigned  i;

    for (i = 0; i < 16; i++) {
        b[i] = src[i] ^ x_chain[i];
    }

    for (i = 0; i < 16; i++) {
        out[i] = vp_e(b, i);
    }

    for (i = 0; i < 16; i++) {
        x_chain[i] = out[i];
    }
}

static void
x_iv(const u_char *iv)
{
    unsigned  i;

    for (i = 0; i < 16; i++) {
        x_chain[i] = iv[i];
    }
}


/* output: pieces handed to the write callback; they must stay as they are */
#define LMAX  24

static u_char   *g_log_p[LMAX];
static size_t    g_log_n[LMAX];
static unsigned  g_logs;
static int       g_log_fail;

static vod_status_t
vp_write(void *ctx, u_char *p, uint32_t n)
{
    if (g_logs < LMAX) {
        g_log_p[g_logs] = p;
        g_log_n[g_logs] = n;
        g_logs++;

    } else {
        g_log_fail = 1;
    }

    return VOD_OK;
}

/* the concatenation of the pieces */
static u_char    g_out[PCKG_OUT];
static unsigned  g_outs;

static void
vp_collect(void)
{
    unsigned  i, k;

    g_outs = 0;
    for (i = 0; i < g_logs; i++) {
        for (k = 0; k < g_log_n[i]; k++) {
            if (g_outs < PCKG_OUT) {
                g_out[g_outs++] = g_log_p[i][k];
            }
        }
    }
}


/* the pool: LMAX buffers of g_bsize bytes */
static u_char    g_pool[LMAX + 1][PCKG_BUF + 32];
static unsigned  g_pools;
static size_t    g_bsize;

void *
buffer_pool_alloc(request_context_t *rc, buffer_pool_t *pool, size_t *size)
{
    if (g_pools >= LMAX) {
        return NULL;
    }

    *size = g_bsize;
    return g_pool[g_pools++] + 16;
}

static ngx_log_t          g_nolog;
static request_context_t  g_rc;

static void
vp_enc_reset(void)
{
    g_rc.log = &g_nolog;
    g_rc.pool = NULL;
    g_rc.output_buffer_pool = NULL;
    g_rc.simulation_only = 0;
    g_mode = 0;
    g_part_n = 0;
    g_inits = 0;
    g_key_ok = 0;
    g_logs = 0;
    g_log_fail = 0;
    g_pools = 0;
}

#endif
