/* contracts on buffer queues, queue streams, buffer chains and the LBA */

#include "vp.h"
#include <ngx_md5.h>

#define ngx_debug_point()  VP_ASSERT(!"debug point reached")

volatile ngx_cycle_t  *ngx_cycle;

#if defined U_LBA
#include <sys/mman.h>
static void *vp_mmap(size_t size);
typedef struct {
    struct { void *q[2]; size_t bin; void *free; uint32_t inited, used; } h;
    struct {
        void    *h;
        void    *link;
        u_char   d[8];
    } b[3];
} vp_block_t;
#define NBUF   3
#define BSIZE  24
static int vp_munmap(void *p, size_t size);
#define mmap(a, size, p, f, d, o)  vp_mmap(size)
#define munmap(p, size)            vp_munmap(p, size)
#include "ngx_lba.c"
#define VP_OWN_PALLOC
#elif defined U_CHAIN
#include "ngx_buf_chain.c"
#else
#include "ngx_buf_queue.c"
#include "ngx_buf_queue_stream.c"
#endif
#include "vp_stubs.h"


/* ------------------------------------------------------------------ */
#if defined U_GET || defined U_QUEUE || defined U_STREAM

#define NN   5                          /* nodes */
#define NB   5                          /* payload bytes per node */

typedef struct {
    ngx_buf_queue_node_t  n;
    u_char                d[NB];
} vp_node_t;

#define ASIZE  (sizeof(ngx_buf_queue_node_t) + NB)

static vp_node_t        g_nd[NN];
static ngx_buf_queue_t  g_q;
static size_t           g_mem;
static int              g_lba;
static unsigned         g_allocs, g_freed_n;
static int              g_freed[NN + 1], g_bad;
static ngx_buf_queue_node_t  *g_fresh;

size_t ngx_lba_buf_size(ngx_lba_t *lba) { return ASIZE; }

void *
ngx_lba_alloc(ngx_lba_t *lba)
{
    g_allocs++;
    return g_fresh;
}

void
ngx_lba_free(ngx_lba_t *lba, void *buf)
{
    unsigned  i;

    for (i = 0; i < NN; i++) {
        if (buf == &g_nd[i]) {
            if (g_freed[i]) { g_bad = 1; }
            g_freed[i] = 1;
            g_freed_n++;
            return;
        }
    }

    g_bad = 1;
}

static struct { unsigned n; const u_char *p[4]; size_t len[4]; } g_md5;

void ngx_md5_init(ngx_md5_t *ctx) { g_md5.n = 0; }

void
ngx_md5_update(ngx_md5_t *ctx, const void *data, size_t size)
{
    if (g_md5.n < 4) {
        g_md5.p[g_md5.n] = data;
        g_md5.len[g_md5.n] = size;
    }
    g_md5.n++;
}

void ngx_md5_final(u_char result[16], ngx_md5_t *ctx) { result[0] = 77; }

#endif


/* ------------------------------------------------------------------ */
#ifdef U_GET

/* loop free (built without NGX_DEBUG): every list length, every size */

VP_DECLARE_INPUT(struct {
    uint8_t   used, free, more, alloc;
    uint64_t  mem, alloc_size, nbuf, free_left;
})

static int
P_result(u_char *rv)
{
    if (in.free) {
        return rv == (u_char *) &g_nd[1] + sizeof(ngx_buf_queue_node_t);
    }

    return rv == (in.mem >= in.alloc_size && in.alloc
        ? (u_char *) &g_nd[2] + sizeof(ngx_buf_queue_node_t) : NULL);
}

static int
P_linked_at_tail(u_char *rv)
{
    ngx_buf_queue_node_t  *n = rv == NULL ? NULL
        : in.free ? &g_nd[1].n : &g_nd[2].n;

    if (n == NULL) {
        return g_q.used_tail == (in.used ? &g_nd[0].n.next : &g_q.used_head)
            && *g_q.used_tail == NULL
            && g_q.used_head == (in.used ? &g_nd[0].n : NULL);
    }

    return n->next == NULL && g_q.used_tail == &n->next
        && (in.used ? g_q.used_head == &g_nd[0].n && g_nd[0].n.next == n
            : g_q.used_head == n);
}

static int
P_accounting(u_char *rv)
{
    int  fresh = rv != NULL && !in.free;

    return g_mem == in.mem - (fresh ? in.alloc_size : 0)
        && g_q.nbuffers == in.nbuf + (fresh ? 1 : 0)
        && g_q.free_left == in.free_left + (in.free ? 1 : 0)
        && g_q.free == (in.free && in.more ? &g_nd[3].n : NULL);
}

u_char *ngx_buf_queue_get_c(ngx_buf_queue_t *q)
__CPROVER_requires(q == &g_q && g_q.mem_left == &g_mem && g_mem == in.mem)
__CPROVER_requires(g_q.used_head == (in.used ? &g_nd[0].n : NULL)
    && g_q.used_tail == (in.used ? &g_nd[0].n.next : &g_q.used_head)
    && g_nd[0].n.next == NULL)
__CPROVER_requires(g_q.free == (in.free ? &g_nd[1].n : NULL)
    && g_nd[1].n.next == (in.more ? &g_nd[3].n : NULL))
__CPROVER_requires(g_q.alloc_size == in.alloc_size && g_q.nbuffers == in.nbuf
    && g_q.free_left == in.free_left && g_allocs == 0)
__CPROVER_requires(g_fresh == (in.alloc ? &g_nd[2].n : NULL))
__CPROVER_assigns(g_q.used_head, g_q.used_tail, g_q.free, g_q.free_left,
    g_q.nbuffers, g_mem, g_nd[0].n.next, g_nd[1].n.next, g_nd[2].n.next,
    g_allocs)
__CPROVER_ensures(P_result(__CPROVER_return_value))
__CPROVER_ensures(P_linked_at_tail(__CPROVER_return_value))
__CPROVER_ensures(P_accounting(__CPROVER_return_value))
;

void
h_get(void)
{
    u_char  *rv;

    VP_LOAD_INPUT();
    g_mem = in.mem;
    g_allocs = 0;
    g_q.log = &vp_log;
    g_q.mem_left = &g_mem;
    g_q.used_head = in.used ? &g_nd[0].n : NULL;
    g_q.used_tail = in.used ? &g_nd[0].n.next : &g_q.used_head;
    g_nd[0].n.next = NULL;
    g_q.free = in.free ? &g_nd[1].n : NULL;
    g_nd[1].n.next = in.more ? &g_nd[3].n : NULL;
    g_q.alloc_size = in.alloc_size;
    g_q.nbuffers = in.nbuf;
    g_q.free_left = in.free_left;
    g_fresh = in.alloc ? &g_nd[2].n : NULL;

    rv = ngx_buf_queue_get(&g_q);

    VP_POST(P_result(rv));
    VP_POST(P_linked_at_tail(rv));
    VP_POST(P_accounting(rv));
    VP_COVER(rv != NULL && in.free);
    VP_COVER(rv != NULL && !in.free && in.used);
    VP_COVER(rv == NULL);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_QUEUE

/* lists of up to 4 used and 2 spare nodes, any limit position, any counts */

VP_DECLARE_INPUT(struct {
    uint64_t  mem;
    uint8_t   off;
})

/* used: nodes 0 .. k-1, spare: the f nodes from the end */
static void
setup(unsigned k, unsigned f, unsigned left, int attached)
{
    unsigned  i;

    ngx_buf_queue_init(&g_q, &vp_log, (ngx_lba_t *) &g_lba, left,
        attached ? &g_mem : NULL);
    VP_POST(g_q.used_head == NULL && g_q.used_tail == &g_q.used_head
        && g_q.free == NULL && g_q.nbuffers == 0 && g_q.free_left == left
        && g_q.used_size == NB && g_q.alloc_size == ASIZE);

    for (i = 0; i < k; i++) {
        g_nd[i].n.next = i + 1 < k ? &g_nd[i + 1].n : NULL;
    }
    if (k) {
        g_q.used_head = &g_nd[0].n;
        g_q.used_tail = &g_nd[k - 1].n.next;
    }
    for (i = 0; i < f; i++) {
        g_nd[NN - 1 - i].n.next = i + 1 < f ? &g_nd[NN - 2 - i].n : NULL;
    }
    g_q.free = f ? &g_nd[NN - 1].n : NULL;
    g_q.nbuffers = k + f;
    g_mem = in.mem;
    g_freed_n = 0;
    g_bad = 0;
    for (i = 0; i < NN; i++) {
        g_freed[i] = 0;
    }
}

static void
one_free(unsigned k, unsigned f, unsigned j, unsigned left, int attached)
{
    unsigned               i, n, gone;
    u_char                *limit;
    ngx_buf_queue_node_t  *p;

    setup(k, f, left, attached);

    /* within node j */
    limit = g_nd[j].d + in.off;

    ngx_buf_queue_free(&g_q, limit);

    VP_POST(!g_bad);
    VP_POST(g_q.used_head == &g_nd[j].n);
    VP_POST(g_q.used_tail == &g_nd[k - 1].n.next);

    /* the rest of the used list is intact */
    for (i = j; i < k; i++) {
        VP_POST(g_nd[i].n.next == (i + 1 < k ? &g_nd[i + 1].n : NULL));
        VP_POST(!g_freed[i]);
    }

    /* the first `left` ones are kept, the others given back, once each */
    gone = j > left ? j - left : 0;
    VP_POST(g_freed_n == gone);
    n = 0;
    for (p = g_q.free; p != NULL && n <= NN; p = p->next) {
        n++;
        for (i = 0; i < NN; i++) {
            if (p == &g_nd[i].n) {
                VP_POST(!g_freed[i] && (i < j || i >= NN - f));
            }
        }
    }
    VP_POST(n == f + j - gone);
    VP_POST(g_q.free_left == left - (j - gone));
    VP_POST(g_q.nbuffers == k + f - gone);
    VP_POST(g_mem == in.mem + (attached ? gone * ASIZE : 0));
}

static void
one_delete(unsigned k, unsigned f, int attached)
{
    unsigned  i;

    setup(k, f, 3, attached);
    ngx_buf_queue_delete(&g_q);

    VP_POST(!g_bad && g_freed_n == k + f);
    for (i = 0; i < NN; i++) {
        VP_POST(g_freed[i] == (i < k || i >= NN - f));
    }
    VP_POST(g_q.used_head == NULL && g_q.used_tail == &g_q.used_head
        && g_q.free == NULL && g_q.nbuffers == 0);
    VP_POST(g_q.free_left == 3 + f);
    VP_POST(g_mem == in.mem + (attached ? (k + f) * ASIZE : 0));
}

void
h_queue(void)
{
    unsigned     k, f, j, left;
    ngx_cycle_t  cycle;

    VP_LOAD_INPUT();
    VP_PRE(in.off < NB);
    cycle.log = &vp_log;
    ngx_cycle = &cycle;

    for (k = 1; k <= 3; k++) {
        for (f = 0; f <= 1; f++) {
            for (j = 0; j < k; j++) {
                for (left = 0; left <= 2; left++) {
                    one_free(k, f, j, left, (k + left) & 1);
                }
            }
        }
    }

    one_free(4, 1, 3, 1, 1);
    one_free(4, 0, 3, 2, 1);
    one_free(4, 0, 2, 0, 0);

    for (k = 0; k <= 3; k++) {
        for (f = 0; f <= 2; f++) {
            one_delete(k, f, (k + f) & 1);
        }
    }

    setup(2, 0, 1, 1);
    ngx_buf_queue_detach(&g_q);
    VP_POST(g_q.mem_left == NULL && g_q.log == &vp_log && g_q.nbuffers == 2);
    VP_COVER(1);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_STREAM

VP_DECLARE_INPUT(struct {
    uint8_t  d[3][NB], w[3 * NB];
})

#define TOTAL  (3 * NB)

static u_char  g_out[TOTAL + 1];

static ngx_buf_queue_stream_t  g_s;

static void
start(unsigned k, unsigned first, unsigned off)
{
    unsigned  i, j;

    g_q.alloc_size = ASIZE;
    g_q.used_size = NB;
    g_q.used_head = &g_nd[0].n;
    g_q.used_tail = &g_nd[k - 1].n.next;
    for (i = 0; i < k; i++) {
        g_nd[i].n.next = i + 1 < k ? &g_nd[i + 1].n : NULL;
        for (j = 0; j < NB; j++) {
            g_nd[i].d[j] = in.d[i][j];
        }
    }

    if (first == k - 1) {
        ngx_buf_queue_stream_init_tail(&g_s, &g_q, g_nd[first].d + off);
        VP_POST(g_s.node == &g_nd[first].n);
    } else if (first == 0) {
        ngx_buf_queue_stream_init_head(&g_s, &g_q);
        VP_POST(g_s.node == &g_nd[0].n && g_s.pos == g_nd[0].d);
        g_s.pos = g_nd[0].d + off;
    } else {
        g_s.buf_queue = &g_q;
        g_s.node = &g_nd[first].n;
        g_s.pos = g_nd[first].d + off;
    }
}

/* the position after moving by size: inside a node, never at its end */
static void
check_pos(unsigned p)
{
    VP_POST(g_s.node == &g_nd[p / NB].n);
    VP_POST(g_s.pos == g_nd[p / NB].d + p % NB);
}

static void
one(unsigned k, unsigned first, unsigned off, unsigned size)
{
    int          ok;
    u_char       res[16];
    unsigned     i, p, n;
    const void  *rv;

    p = first * NB + off;
    ok = size == 0 || p + size < k * NB;

    /* read */
    start(k, first, off);
    for (i = 0; i < TOTAL + 1; i++) { g_out[i] = 0xee; }
    rv = ngx_buf_queue_stream_read(&g_s, g_out, size);
    VP_POST(rv == (ok ? g_out : NULL));
    n = p + size > k * NB ? k * NB - p : size;
    for (i = 0; i < TOTAL + 1; i++) {
        VP_POST(g_out[i] == (i < n ? in.d[(p + i) / NB][(p + i) % NB] : 0xee));
    }
    if (ok) { check_pos(p + size); }

    /* skip */
    start(k, first, off);
    VP_POST(ngx_buf_queue_stream_skip(&g_s, size) == (ok ? NGX_OK : NGX_ERROR));
    if (ok) { check_pos(p + size); }

    /* write */
    start(k, first, off);
    rv = ngx_buf_queue_stream_write(&g_s, in.w, size);
    VP_POST(rv == (ok ? in.w : NULL));
    for (i = 0; i < k * NB; i++) {
        VP_POST(g_nd[i / NB].d[i % NB] == (i >= p && i < p + size
            ? in.w[i - p] : in.d[i / NB][i % NB]));
    }
    if (ok) { check_pos(p + size); }

    /* digest: the same bytes, in order */
    start(k, first, off);
    res[0] = 0;
    VP_POST(ngx_buf_queue_stream_md5(&g_s, size, res) == (ok ? NGX_OK : NGX_ERROR));
    if (ok) {
        check_pos(p + size);
        VP_POST(res[0] == 77);
        n = 0;
        for (i = 0; i < g_md5.n && i < 4; i++) {
            VP_POST(g_md5.p[i] == g_nd[(p + n) / NB].d + (p + n) % NB);
            n += g_md5.len[i];
        }
        VP_POST(g_md5.n <= 3 && n == size);
    }
}

void
h_stream(void)
{
    unsigned  k, first, off, size;

    VP_LOAD_INPUT();

    for (k = 1; k <= 3; k++) {
        for (first = 0; first < k; first++) {
            for (off = 0; off < NB; off += 2) {
                for (size = 0; size <= (k - first) * NB - off + 1; size++) {
                    if (first * NB + off + size <= TOTAL) {
                        one(k, first, off, size);
                    }
                }
            }
        }
    }
    VP_COVER(1);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_CHAIN

/* chains of 3 nodes of 0, 1 or 3 bytes, every size; contents symbolic */

VP_DECLARE_INPUT(struct {
    uint8_t  d[9], cmp[10];
})

static ngx_buf_chain_t  g_c[3];
static u_char           g_d[3][3], g_out[11];
static unsigned         g_n[3], g_total;
static const unsigned   g_sz[] = { 0, 1, 3 };

/* nodes are laid out backwards so that running over the end is noticed */
static void
build(unsigned a, unsigned b, unsigned c)
{
    unsigned  i, j, k;

    g_n[0] = a; g_n[1] = b; g_n[2] = c;
    k = 0;
    for (i = 0; i < 3; i++) {
        g_c[i].data = &g_d[2 - i][3 - g_n[i]];
        g_c[i].size = g_n[i];
        g_c[i].next = i < 2 ? &g_c[i + 1] : NULL;
        for (j = 0; j < g_n[i]; j++) {
            g_d[2 - i][3 - g_n[i] + j] = in.d[k++];
        }
    }
    g_total = k;
}

/* what is left of the chain is the original from byte `from` */
static void
check_rest(ngx_buf_chain_t *c, unsigned from)
{
    unsigned  i;

    for (; c != NULL; c = c->next) {
        for (i = 0; i < c->size; i++) {
            VP_POST(from < g_total && c->data[i] == in.d[from]);
            from++;
        }
    }
    VP_POST(from == g_total);
}

static void
one(unsigned a, unsigned b, unsigned c, unsigned size)
{
    int               same;
    void             *p;
    size_t            off;
    unsigned          i, node, at;
    ngx_buf_chain_t  *h;

    build(a, b, c);
    h = &g_c[0];
    for (i = 0; i < 11; i++) { g_out[i] = 0xee; }
    p = ngx_buf_chain_copy(&h, g_out, size);
    VP_POST(p == (size <= g_total ? g_out + size : NULL));
    for (i = 0; i < 11; i++) {
        VP_POST(g_out[i] == (i < size && i < g_total ? in.d[i] : 0xee));
    }
    if (p != NULL) { check_rest(h, size); }

    build(a, b, c);
    h = &g_c[0];
    VP_POST(ngx_buf_chain_skip(&h, size) == (size <= g_total ? NGX_OK : NGX_ERROR));
    if (size <= g_total) { check_rest(h, size); }

    build(a, b, c);
    same = size <= g_total;
    for (i = 0; i < size && i < g_total; i++) {
        if (in.cmp[i] != in.d[i]) { same = 0; }
    }
    VP_POST((ngx_buf_chain_compare(&g_c[0], in.cmp, size) == 0) == same);

    /* the node holding byte `size`, and its place in it */
    if (size < g_total) {
        node = size < a ? 0 : size < a + b ? 1 : 2;
        at = size - (node > 0 ? a : 0) - (node > 1 ? b : 0);
        off = size;
        h = ngx_buf_chain_seek(&g_c[0], &off);
        VP_POST(h == &g_c[node] && off == at);
    }

    /* cut at a node boundary */
    if (a && size == a) {
        VP_POST(ngx_buf_chain_get_tail(&g_c[0], size) == &g_c[0]);
        VP_POST(ngx_buf_chain_terminate(&g_c[0], size) == &g_c[0]);
        VP_POST(g_c[0].next == NULL);
    } else if (b && size == a + b) {
        VP_POST(ngx_buf_chain_get_tail(&g_c[0], size) == &g_c[1]);
        VP_POST(ngx_buf_chain_terminate(&g_c[0], size) == &g_c[1]);
        VP_POST(g_c[0].next == &g_c[1] && g_c[1].next == NULL);
    } else if (c && size == a + b + c) {
        VP_POST(ngx_buf_chain_terminate(&g_c[0], size) == &g_c[2]);
        VP_POST(g_c[1].next == &g_c[2] && g_c[2].next == NULL);
    }
}

void
h_chain(void)
{
    unsigned  a, b, c, size, sum;

    VP_LOAD_INPUT();

    for (a = 0; a < 3; a++) {
        for (b = 0; b < 3; b++) {
            for (c = 0; c < 3; c++) {
                sum = g_sz[a] + g_sz[b] + g_sz[c];
                for (size = 0; size <= sum + 1; size++) {
                    one(g_sz[a], g_sz[b], g_sz[c], size);
                }
            }
        }
    }
    VP_COVER(1);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_LBA

/*
 * One operation from every state of two blocks of 3 buffers that satisfies
 * the allocator's invariant: used / initialised counts, free list order.
 * Built with and without NGX_DEBUG (which changes ngx_queue_remove).
 */


VP_DECLARE_INPUT(struct { uint8_t x; })

#define NBLK  3

static vp_block_t  g_blk[NBLK];
#if VP_NATIVE
#define blk_off(p)  ((size_t) ((u_char *) (p) - (u_char *) g_blk))
#else
#define blk_off(p)  __CPROVER_POINTER_OFFSET(p)
#endif
static int         g_map[NBLK];         /* 1 mapped */
static int         g_own[NBLK][NBUF];   /* 1: held by the user */
static int         g_fail, g_bad;
static ngx_lba_t  *g_l;

static ngx_lba_t   g_lba;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    VP_POST(size <= sizeof(g_lba));
    return &g_lba;
}

static void *
vp_mmap(size_t size)
{
    unsigned  i;

    if (size != sizeof(vp_block_t) + 8) { g_bad = 1; }
    for (i = 0; i < NBLK && !g_fail; i++) {
        if (!g_map[i]) {
            g_map[i] = 1;
            return &g_blk[i];
        }
    }

    return MAP_FAILED;
}

static int
vp_munmap(void *p, size_t size)
{
    unsigned  i, j;

    if (size != sizeof(vp_block_t) + 8) { g_bad = 1; }
    for (i = 0; i < NBLK; i++) {
        if (blk_off(p) == i * sizeof(vp_block_t)) {
            if (!g_map[i]) { g_bad = 1; }
            g_map[i] = 0;
            for (j = 0; j < NBUF; j++) {
                if (g_own[i][j]) { g_bad = 1; }         /* still in use */
            }
            return 0;
        }
    }

    g_bad = 1;
    return 0;
}

static int
user_alloc(void)
{
    void      *p;
    unsigned   i, j;

    p = ngx_lba_alloc(g_l);
    if (p == NULL) {
        return 0;
    }

    for (i = 0; i < NBLK; i++) {
        for (j = 0; j < NBUF; j++) {
            if (blk_off(p) == i * sizeof(vp_block_t)
                + offsetof(vp_block_t, b) + j * BSIZE
                + sizeof(ngx_lba_buf_header_t))
            {
                VP_POST(g_map[i] && !g_own[i][j]);
                g_own[i][j] = 1;
                return 1;
            }
        }
    }

    VP_POST(!"buffer not in a block");
    return 1;
}

static void
user_free(unsigned i, unsigned j)
{
    g_own[i][j] = 0;
    ngx_lba_free(g_l, &g_blk[i].b[j].link);
}

/*
 * Black box: from the state left by a history, as many buffers as the mapped
 * blocks have room for must come out, all different, without new blocks.
 */
static void
check_all_available(void)
{
    unsigned  i, j, room;

    room = 0;
    for (i = 0; i < NBLK; i++) {
        for (j = 0; j < NBUF; j++) {
            if (g_map[i] && !g_own[i][j]) { room++; }
        }
    }

    g_fail = 1;
    for (i = 0; i < room; i++) {
        VP_POST(user_alloc());
    }
    VP_POST(!user_alloc());
}

/*
 * history: a = allocate, digit bd = free buffer d of block b (letters
 * A..C block 0, D..F block 1, G..I block 2)
 */
static void
one(const char *ops, unsigned bins)
{
    unsigned     i, j, k, used, live;
    ngx_pool_t   pool;
    ngx_cycle_t  cycle;

    cycle.log = &vp_log;
    ngx_cycle = &cycle;
    pool.log = &vp_log;

    for (i = 0; i < NBLK; i++) {
        g_map[i] = 0;
        for (j = 0; j < NBUF; j++) { g_own[i][j] = 0; }
    }
    g_fail = 0;
    g_bad = 0;

    g_l = ngx_lba_create(&pool, BSIZE - sizeof(ngx_lba_buf_header_t), bins);
    VP_POST(g_l != NULL);
    VP_POST(ngx_lba_buf_size(g_l) == BSIZE - sizeof(ngx_lba_buf_header_t));

    for (i = 0; ops[i]; i++) {
        if (ops[i] == 'a') {
            VP_POST(user_alloc());

        } else {
            k = ops[i] - 'A';
            user_free(k / NBUF, k % NBUF);
        }

        /* no block is held with no buffer in use, except one */
        live = 0;
        for (k = 0; k < NBLK; k++) {
            used = g_own[k][0] + g_own[k][1] + g_own[k][2];
            if (g_map[k] && !used) { live++; }
        }
        VP_POST(live <= 1);
    }

    check_all_available();
    VP_POST(!g_bad);
}

static const char  *g_ops[] = {
    "a", "aa", "aaa", "aaaa", "aaaaaaa", "aA", "aAa", "aaA", "aaB", "aaAB",
    "aaaA", "aaaB", "aaaC", "aaaABC", "aaaCBA", "aaaBa", "aaaABaa",
    "aaaaD", "aaaaA", "aaaaAB", "aaaaABC", "aaaaABCD", "aaaaDABC",
    "aaaaaDE", "aaaaaDAa", "aaaaaDEaA", "aaaaaaDEF", "aaaaaaAD", "aaaaaaADaa",
    "aaaaaaADBEaaaa", "aaaaaaABCDEF", "aaaaaaaGA", "aaaaaaaAGD", "aaaaaaaADG",
    "aaaaABCaaa", "aaaaDaD", "aAaAaA", "aaaABCaA", "aaaaaaADABaDa",
    "aaABaaAB", "aaaaAaBaCaD", "aaaaaABDa", "aaaaaABDEC",
};

#define NOPS  (sizeof(g_ops) / sizeof(g_ops[0]))

void
h_lba(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < NOPS; i++) {
        one(g_ops[i], 3);
        one(g_ops[i], 2);
        one(g_ops[i], 1);
        one(g_ops[i], 8);
    }
    VP_COVER(1);
}

#endif
