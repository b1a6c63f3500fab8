/* minimal stand-ins for the nginx core, for a native demonstration */
#include <ngx_config.h>
#include <ngx_core.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

void ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...) { }
static ngx_log_t   nst_log;
static ngx_pool_t  nst_pool;
void *ngx_palloc(ngx_pool_t *p, size_t n) { return malloc(n ? n : 1); }
void *ngx_pnalloc(ngx_pool_t *p, size_t n) { return malloc(n ? n : 1); }
void *ngx_pcalloc(ngx_pool_t *p, size_t n) { return calloc(1, n ? n : 1); }
void *ngx_alloc(size_t n, ngx_log_t *l) { return malloc(n ? n : 1); }
void *ngx_calloc(size_t n, ngx_log_t *l) { return calloc(1, n ? n : 1); }
ngx_int_t ngx_pfree(ngx_pool_t *p, void *d) { return NGX_DECLINED; }
ngx_chain_t *ngx_alloc_chain_link(ngx_pool_t *p) { return malloc(sizeof(ngx_chain_t)); }
#ifndef NST_TEMP_SIZE
#define NST_TEMP_SIZE(n) (n)
#endif
ngx_buf_t *ngx_create_temp_buf(ngx_pool_t *p, size_t n)
{
    ngx_buf_t  *b = calloc(1, sizeof(*b));

    n = NST_TEMP_SIZE(n);
    b->start = b->pos = b->last = malloc(n ? n : 1);
    b->end = b->start + n;
    b->temporary = 1;
    return b;
}

static int nst_bad;
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\n", __LINE__, #x); nst_bad = 1; } } while (0)
