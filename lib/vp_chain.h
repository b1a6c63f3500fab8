/*
 * A buffer chain of up to VPC_N nodes over VPC_T bytes, of a concrete shape
 * given by the harness (contents symbolic, from in.data).  All bytes live in one array; node i holds the logical bytes
 * [end[i-1], end[i]) and the nodes are laid out in *descending* address
 * order, so a read past a node's ->last never yields the right byte and a
 * read past the first node's ->last leaves the object.
 */
#ifndef VPC_N
#define VPC_N   3
#endif
#ifndef VPC_T
#define VPC_T   8
#endif


VP_SPEC_BEGIN

static ngx_chain_t  vpc_cl[VPC_N];
static ngx_buf_t    vpc_bf[VPC_N];
static u_char       vpc_mem[VPC_T];
static size_t       vpc_len;
static size_t       vpc_end[VPC_N];
static size_t       vpc_n;

static ngx_chain_t *
vpc_build(const uint8_t *data, unsigned n, const uint8_t *end)
{
    unsigned  i, prev;

    memcpy(vpc_mem, data, VPC_T);
    vpc_n = n;

    prev = 0;
    for (i = 0; i < n; i++) {
        vpc_end[i] = end[i];

        vpc_bf[i].start = vpc_mem + (VPC_T - end[i]);
        vpc_bf[i].pos = vpc_bf[i].start;
        vpc_bf[i].last = vpc_mem + (VPC_T - prev);
        vpc_bf[i].end = vpc_bf[i].last;
        vpc_cl[i].buf = &vpc_bf[i];
        vpc_cl[i].next = i + 1 < n ? &vpc_cl[i + 1] : NULL;
        prev = end[i];
    }

    vpc_len = prev;

    return &vpc_cl[0];
}

/* logical byte k of the original chain, -1 past its end */
static int
vpc_byte(size_t k)
{
    unsigned  i;
    size_t    prev;

    prev = 0;
    for (i = 0; i < vpc_n; i++) {
        if (k < vpc_end[i]) {
            return vpc_mem[VPC_T - vpc_end[i] + (k - prev)];
        }

        prev = vpc_end[i];
    }

    return -1;
}

static void
vpc_put(size_t k, u_char v)
{
    unsigned  i;
    size_t    prev;

    prev = 0;
    for (i = 0; i < vpc_n; i++) {
        if (k < vpc_end[i]) {
            vpc_mem[VPC_T - vpc_end[i] + (k - prev)] = v;
            return;
        }

        prev = vpc_end[i];
    }
}

/* byte k of what is left of a chain starting at (cl, p); -1 past the end */
static int
vpc_at(ngx_chain_t *cl, u_char *p, size_t k)
{
    unsigned  i;
    size_t    left;

    for (i = 0; i < VPC_N; i++) {
        if (cl == NULL) {
            return -1;
        }

        left = cl->buf->last - p;
        if (k < left) {
            return p[k];
        }

        k -= left;
        cl = cl->next;
        p = cl ? cl->buf->pos : NULL;
    }

    return -1;
}

VP_SPEC_END
