/*
 * Stand-ins for the nginx core (its .c files are not installed here; only
 * headers are).  These are the trusted/external functions of every unit:
 * they are listed as assumptions in the evidence.
 */
#ifndef VP_STUBS_H
#define VP_STUBS_H

#include "vp.h"

#ifndef VP_OWN_LOG
void
ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...)
{
}
#endif

static ngx_log_t    vp_log;      /* log_level 0: nothing is formatted */
static ngx_pool_t   vp_pool;

#ifndef VP_OWN_PALLOC
void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    return vp_alloc(size);
}

void *
ngx_pnalloc(ngx_pool_t *pool, size_t size)
{
    return vp_alloc(size);
}

void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    void  *p = vp_alloc(size);

    if (p != NULL) {
        memset(p, 0, size);
    }

    return p;
}

void *
ngx_alloc(size_t size, ngx_log_t *log)
{
    return vp_alloc(size);
}

void *
ngx_calloc(size_t size, ngx_log_t *log)
{
    void  *p = vp_alloc(size);

    if (p != NULL) {
        memset(p, 0, size);
    }

    return p;
}

ngx_int_t
ngx_pfree(ngx_pool_t *pool, void *p)
{
    return NGX_DECLINED;
}
#endif

#ifndef VP_OWN_CHAIN
ngx_chain_t *
ngx_alloc_chain_link(ngx_pool_t *pool)
{
    return vp_alloc(sizeof(ngx_chain_t));
}
#endif

#ifndef VP_OWN_TEMP_BUF
ngx_buf_t *
ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t  *b = ngx_pcalloc(pool, sizeof(ngx_buf_t));

    if (b == NULL) {
        return NULL;
    }

    b->start = ngx_palloc(pool, size);
    if (b->start == NULL) {
        return NULL;
    }

    b->pos = b->start;
    b->last = b->start;
    b->end = b->last + size;
    b->temporary = 1;
    return b;
}
#endif

#endif
