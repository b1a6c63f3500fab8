/*
 * The AVC parameter set and slice header parsers, against the syntax tables
 * of ITU-T H.264 7.3.2 / 7.3.3 / E.1.  The spec side writes a tape of syntax
 * elements (fixed width bits one by one, Exp-Golomb codes as one element);
 * the parser's reads are served from the tape (the bit reader has its own
 * contracts), and have to agree with it element by element.
 */

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;

#include "nginx-pckg-module/src/media/avc_hevc_parser.h"

#define TMAX  420

static u_char     g_kind[TMAX + 8];     /* 'b', 'u' or 0; the reader points here */
static uint32_t   g_val[TMAX];
static unsigned   g_n;

VP_DECLARE_INPUT(struct {
    uint32_t    v[40];
})

static unsigned   g_vi;

/* an arbitrary value */
static uint32_t
any(void)
{
    return in.v[g_vi++ % 40];
}

static void
w_u(unsigned n, uint32_t v)
{
    while (n > 0) {
        n--;
        g_kind[g_n] = 'b';
        g_val[g_n++] = (v >> n) & 1;
    }
}

static void
w_ue(uint32_t v)
{
    g_kind[g_n] = 'u';
    g_val[g_n++] = v;
}

static void
w_se(int32_t v)
{
    w_ue(v > 0 ? 2 * v - 1 : -2 * v);
}


/* the bit reader over the tape */
static uint32_t
vp_next(bit_reader_state_t *r, u_char kind)
{
    unsigned  i = r->stream.cur_pos - g_kind;

    if (i >= g_n) {
        r->stream.eof_reached = TRUE;
        return 0;
    }

    VP_ASSERT(g_kind[i] == kind);
    r->stream.cur_pos++;
    return g_val[i];
}

static int64_t
vp_get(bit_reader_state_t *r, int n)
{
    int64_t  v = 0;

    for (; n > 0; n--) {
        v = v << 1 | vp_next(r, 'b');
    }

    return v;
}

static int32_t
vp_se(bit_reader_state_t *r)
{
    uint32_t  v = vp_next(r, 'u');

    return v & 1 ? (int32_t) ((v + 1) / 2) : -(int32_t) (v / 2);
}

#define bit_read_stream_get_one(r)             ((int) vp_next(r, 'b'))
#define bit_read_stream_get(r, n)              ((int) vp_get(r, n))
#define bit_read_stream_get_long(r, n)         vp_get(r, n)
#define bit_read_stream_skip(r, n)             ((void) vp_get(r, n))
#define bit_read_stream_get_unsigned_exp(r)    vp_next(r, 'u')
#define bit_read_stream_get_signed_exp(r)      vp_se(r)
#undef  bit_read_stream_skip_signed_exp
#define bit_read_stream_skip_signed_exp(r)     ((void) vp_next(r, 'u'))
#define bit_read_stream_skip_unsigned_exp(r)   ((void) vp_next(r, 'u'))

#include "nginx-pckg-module/src/media/avc_hevc_parser.c"

/* trailing bits, over the tape; see pckg_bits.c for the real one */
static bool_t
vp_trailing(bit_reader_state_t *r)
{
    unsigned  i = r->stream.cur_pos - g_kind;

    if (r->stream.eof_reached || i >= g_n || g_kind[i] != 'b' || g_val[i] != 1) {
        return FALSE;
    }

    for (i++; i < g_n; i++) {
        if (g_kind[i] != 'b' || g_val[i]) {
            return FALSE;
        }
    }

    r->stream.cur_pos = g_kind + g_n;
    r->stream.eof_reached = TRUE;
    return TRUE;
}

#define avc_hevc_parser_rbsp_trailing_bits  vp_trailing

#if !defined VP_REPLAY
/* the only copy here is of int arrays: element-wise keeps constants */
static void
vp_icpy(int *d, const int *s, size_t n)
{
    size_t  i;

    for (i = 0; i < n / sizeof(int); i++) {
        d[i] = s[i];
    }
}
#undef  vod_memcpy
#define vod_memcpy(d, s, n)  vp_icpy(d, s, n)
#endif

/* the payload of a NAL unit, see pckg_bits.c for the real one */
static const u_char  *g_nal;
static uint32_t       g_nal_size, g_extra;
static unsigned       g_decoded;

/* the units handed to the decoder so far */
static unsigned        g_seen;
static const u_char   *g_spos[4];
static uint32_t        g_ssize[4];

static int            g_strip;

static vod_status_t
vp_decode(request_context_t *rc, bit_reader_state_t *r, const u_char *p, uint32_t size)
{
    g_nal = p;
    g_nal_size = size;
    g_decoded++;
    if (g_seen < 4) {
        g_spos[g_seen] = p;
        g_ssize[g_seen++] = size;
    }
    r->stream.cur_pos = g_strip ? g_kind : p;
    r->stream.end_pos = g_kind + g_n;
    r->stream.eof_reached = FALSE;
    r->cur_bit = -1;
    r->cur_byte = 0;
    return VOD_OK;
}

static const u_char  *g_es, *g_ee;

static uint32_t
vp_encode_bytes(const u_char *s, const u_char *e)
{
    g_es = s;
    g_ee = e;
    return g_extra;
}

#define avc_hevc_parser_emulation_prevention_decode        vp_decode
#define avc_hevc_parser_emulation_prevention_encode_bytes  vp_encode_bytes

#include "nginx-pckg-module/src/media/avc_parser.c"

#define VP_OWN_PALLOC

static avc_sps_t   g_sps[3];
static avc_pps_t   g_pps[3];
static unsigned    g_nsps, g_npps;
static int         g_oom, g_want_pps;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    if (g_oom) {
        return NULL;
    }

    return g_want_pps ? (void *) &g_pps[g_npps++] : (void *) &g_sps[g_nsps++];
}

void *ngx_pnalloc(ngx_pool_t *pool, size_t size) { return NULL; }
void *ngx_pcalloc(ngx_pool_t *pool, size_t size) { return NULL; }
void *ngx_alloc(size_t size, ngx_log_t *log) { return NULL; }
ngx_int_t ngx_pfree(ngx_pool_t *pool, void *p) { return NGX_DECLINED; }
void *ngx_calloc(size_t size, ngx_log_t *log) { return NULL; }

#include "vp_stubs.h"

static avc_hevc_parse_ctx_t  g_ctx;
static request_context_t     g_rc;
static avc_sps_t            *g_sps_elts[MAX_SPS_COUNT];
static avc_pps_t            *g_pps_elts[MAX_PPS_COUNT];

void *
ngx_array_push_n(ngx_array_t *a, ngx_uint_t n)
{
    void  *p;

    if (g_oom) {
        return NULL;
    }

    p = a == &g_ctx.sps ? (void *) &g_sps_elts[a->nelts] : (void *) &g_pps_elts[a->nelts];
    a->nelts += n;
    VP_ASSERT(a == &g_ctx.sps ? a->nelts <= MAX_SPS_COUNT : a->nelts <= MAX_PPS_COUNT);
    return p;
}

static bit_reader_state_t   g_r;

static void
vp_reset(void)
{
    g_n = 0;
    g_nsps = g_npps = 0;
    g_rc.log = &vp_log;
    g_rc.pool = &vp_pool;
    g_ctx.request_context = &g_rc;
    g_ctx.sps.elts = g_sps_elts;
    g_ctx.sps.nelts = 0;
    g_ctx.sps.size = sizeof(void *);
    g_ctx.sps.nalloc = MAX_SPS_COUNT;
    g_ctx.sps.pool = &vp_pool;
    g_ctx.pps = g_ctx.sps;
    g_ctx.pps.elts = g_pps_elts;
    g_ctx.pps.nalloc = MAX_PPS_COUNT;
    g_strip = 1;
    g_oom = 0;
    g_want_pps = 0;
    g_decoded = 0;
}

static void
vp_start(void)
{
    g_r.stream.cur_pos = g_kind;
    g_r.stream.end_pos = g_kind + g_n;
    g_r.stream.eof_reached = FALSE;
    g_r.cur_bit = -1;
    g_r.cur_byte = 0;
}


/* a list of deltas that leaves the scale at a non zero value until the end,
   or stops it after 3 */
static void
w_scaling_list(unsigned size, unsigned stop)
{
    unsigned  i;

    for (i = 0; i < size; i++) {
        if (stop && i == 3) {
            w_se(-11);                  /* 8 + 1 + 1 + 1 - 11 */
            return;
        }

        w_se(i == 0 && stop ? 1 : i < 3 && stop ? 1 : i == 20 ? -5 : 0);
    }
}


#if defined U_SPS

static unsigned  g_tc;

/* E.1.2 */
static void
w_hrd(unsigned n)
{
    unsigned  i;

    w_ue(n);
    w_u(4, any());
    w_u(4, any());
    for (i = 0; i <= n; i++) {
        w_ue(any());
        w_ue(any());
        w_u(1, any());
    }
    w_u(20, any());
}

/* E.1.1 */
static void
w_vui(unsigned s)
{
    unsigned  nal, vcl;

    w_u(1, s & 1);                      /* aspect_ratio_info_present_flag */
    if (s & 1) {
        w_u(8, s & 2 ? 255 : 5);
        if (s & 2) {
            w_u(32, any());
        }
    }

    w_u(1, s >> 2 & 1);                 /* overscan_info_present_flag */
    if (s & 4) {
        w_u(1, any());
    }

    w_u(1, s >> 3 & 1);                 /* video_signal_type_present_flag */
    g_tc = 0;
    if (s & 8) {
        w_u(4, any());
        w_u(1, s >> 4 & 1);             /* colour_description_present_flag */
        if (s & 16) {
            w_u(8, any());
            g_tc = any() & 0xff;
            w_u(8, g_tc);
            w_u(8, any());
        }
    }

    w_u(1, s >> 5 & 1);                 /* chroma_loc_info_present_flag */
    if (s & 32) {
        w_ue(any());
        w_ue(any());
    }

    w_u(1, s >> 6 & 1);                 /* timing_info_present_flag */
    if (s & 64) {
        w_u(32, any());
        w_u(32, any());
        w_u(1, any());
    }

    nal = s >> 7 & 1;
    w_u(1, nal);
    if (nal) {
        w_hrd(0);
    }

    vcl = s >> 8 & 1;
    w_u(1, vcl);
    if (vcl) {
        w_hrd(2);
    }

    if (nal || vcl) {
        w_u(1, any());
    }

    w_u(1, any());                      /* pic_struct_present_flag */

    w_u(1, s >> 9 & 1);                 /* bitstream_restriction_flag */
    if (s & 512) {
        w_u(1, any());
        w_ue(any());
        w_ue(any());
        w_ue(any());
        w_ue(any());
        w_ue(any());
        w_ue(any());
    }
}

typedef struct {
    uint8_t   profile, id, chroma, sep, matrix, poc, cycle, mbs_only, crop;
    int       vui;
} vp_shape_t;

static const vp_shape_t  shapes[] = {
    {  66,  0, 1, 0, 0, 0, 0, 1, 0, -1 },
    {  77,  1, 1, 0, 0, 2, 0, 0, 1, 0x000 },
    { 100,  0, 1, 0, 0, 1, 3, 1, 0, 0x3ff },
    { 100, 31, 1, 0, 1, 1, 0, 1, 1, 0x155 },
    { 244,  2, 3, 1, 1, 0, 0, 0, 0, 0x2aa },
    { 110,  0, 3, 0, 2, 0, 0, 1, 1, 0x009 },
    { 122,  0, 2, 0, 2, 2, 0, 1, 0, 0x018 },
    {  44,  3, 0, 0, 0, 0, 0, 1, 0, 0x083 },
    {  83,  0, 1, 0, 0, 0, 0, 1, 0, 0x100 },
    {  86,  0, 1, 0, 0, 0, 0, 1, 0, 0x200 },
    { 118,  0, 1, 0, 0, 0, 0, 1, 0, 0x040 },
    { 128,  0, 1, 0, 0, 0, 0, 1, 0, 0x020 },
    { 138,  0, 1, 0, 0, 0, 0, 1, 0, 0x004 },
    { 139,  0, 1, 0, 0, 0, 0, 1, 0, -1 },
    { 134,  0, 1, 0, 0, 0, 0, 1, 0, -1 },
    { 135,  0, 1, 0, 0, 0, 0, 1, 0, -1 },
    {  88,  0, 1, 0, 0, 0, 0, 1, 0, -1 },
};

static uint32_t  g_w, g_h, g_f, g_l, g_dz;

/* 7.3.2.1.1 */
static void
w_sps(const vp_shape_t *s)
{
    unsigned  i, high, n;

    g_tc = 0;
    w_u(8, s->profile);
    w_u(8, any());
    w_u(8, any());
    w_ue(s->id);

    high = s->profile == 100 || s->profile == 110 || s->profile == 122
        || s->profile == 244 || s->profile == 44 || s->profile == 83
        || s->profile == 86 || s->profile == 118 || s->profile == 128
        || s->profile == 138 || s->profile == 139 || s->profile == 134
        || s->profile == 135;

    if (high) {
        w_ue(s->chroma);
        if (s->chroma == 3) {
            w_u(1, s->sep);
        }

        w_ue(any());
        w_ue(any());
        w_u(1, any());
        w_u(1, s->matrix != 0);
        if (s->matrix) {
            n = s->chroma != 3 ? 8 : 12;
            for (i = 0; i < n; i++) {
                /* 1: a few lists, 2: the last one only */
                if (s->matrix == 1 ? (i % 3 != 1 || i == 7) : i == n - 1) {
                    w_u(1, 1);
                    w_scaling_list(i < 6 ? 16 : 64, i != 0 && i != n - 1);
                } else {
                    w_u(1, 0);
                }
            }
        }
    }

    g_f = any() & 0xf;
    w_ue(g_f);                          /* log2_max_frame_num_minus4 */
    w_ue(s->poc);
    g_l = any() & 0xf;
    g_dz = any() & 1;
    if (s->poc == 0) {
        w_ue(g_l);

    } else if (s->poc == 1) {
        w_u(1, g_dz);
        w_ue(any());
        w_ue(any());
        w_ue(s->cycle);
        for (i = 0; i < s->cycle; i++) {
            w_ue(any());
        }
    }

    w_ue(any());
    w_u(1, any());
    g_w = any() & 0xffff;
    g_h = any() & 0xffff;
    w_ue(g_w);
    w_ue(g_h);
    w_u(1, s->mbs_only);
    if (!s->mbs_only) {
        w_u(1, any());
    }
    w_u(1, any());
    w_u(1, s->crop);
    if (s->crop) {
        w_ue(any());
        w_ue(any());
        w_ue(any());
        w_ue(any());
    }
    w_u(1, s->vui >= 0);
    if (s->vui >= 0) {
        w_vui(s->vui);
    }
}


static void
vp_sps(const vp_shape_t *s, unsigned tail)
{
    avc_sps_t     *sps;
    vod_status_t   rc;

    vp_reset();
    w_sps(s);

    if (tail == 0) {                    /* rbsp_trailing_bits */
        w_u(1, 1);
        w_u(3, 0);

    } else if (tail == 1) {             /* no stop bit */
        w_u(4, 0);

    } else if (tail == 2) {             /* cut short */
        g_n--;

    } else if (tail == 3) {             /* not the end */
        w_u(3, 5);

    } else {
        w_u(1, 1);
        g_oom = 1;
    }

    vp_start();
    rc = avc_parser_seq_parameter_set_rbsp(&g_ctx, &g_r);

    if (tail > 0) {
        VP_POST(rc == (tail == 4 ? VOD_ALLOC_FAILED : VOD_BAD_DATA));
        return;
    }

    VP_POST(rc == VOD_OK);
    VP_POST(g_ctx.sps.nelts == s->id + 1u);

    sps = g_sps_elts[s->id];
    VP_POST(sps == &g_sps[0]);
    VP_POST(g_n < 8 || g_r.stream.cur_pos == g_kind + g_n);

    VP_POST(sps->pic_width_in_mbs == (int) g_w + 1);
    VP_POST(sps->pic_height_in_map_units == (int) g_h + 1);
    VP_POST(sps->transfer_characteristics == g_tc);
    VP_POST(sps->frame_mbs_only_flag == s->mbs_only);
    VP_POST(sps->pic_order_cnt_type == s->poc);
    VP_POST(sps->log2_max_frame_num == g_f + 4);
    VP_POST(sps->log2_max_pic_order_cnt_lsb == (s->poc == 0 ? g_l + 4 : 0));
    VP_POST(sps->delta_pic_order_always_zero_flag == (s->poc == 1 ? g_dz : 0));
    VP_POST(sps->chroma_format_idc == s->chroma);
    VP_POST(sps->separate_colour_plane_flag == s->sep);
    VP_POST(sps->chroma_array_type == (s->sep ? 0 : s->chroma));

    VP_POST(avc_parser_get_transfer_characteristics(&g_ctx) == g_tc);
}


void
h_sps(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < sizeof(shapes) / sizeof(shapes[0]); i++) {
        vp_sps(&shapes[i], 0);
    }

    for (i = 1; i <= 4; i++) {
        vp_sps(&shapes[i], i);
    }

    /* the id selects the slot: out of range ids are refused */
    vp_reset();
    w_u(24, 66 << 16);
    w_ue(32);
    w_u(1, 1);
    vp_start();
    VP_POST(avc_parser_seq_parameter_set_rbsp(&g_ctx, &g_r) == VOD_BAD_DATA);
    VP_POST(g_ctx.sps.nelts == 0);
    VP_COVER(1);
}

#endif


#if defined U_PPS

typedef struct {
    uint8_t   id, sps_id, groups, type, tail, t8, matrix, chroma;
} vp_shape_t;

/* tail 0: ends after redundant_pic_cnt_present_flag, 1: carries the FRExt part */
static const vp_shape_t  shapes[] = {
    {   0, 0, 0, 0, 0, 0, 0, 1 },
    {   1, 2, 1, 0, 0, 0, 0, 1 },
    {   0, 0, 2, 1, 1, 0, 0, 1 },
    {   3, 0, 3, 2, 1, 1, 0, 1 },
    {   0, 1, 1, 3, 1, 0, 1, 1 },
    {   0, 0, 1, 4, 1, 1, 1, 1 },
    { 255, 0, 7, 5, 1, 1, 1, 3 },
    {   0, 0, 2, 6, 0, 0, 0, 1 },
    {   0, 0, 1, 6, 1, 1, 2, 1 },
    {   0, 0, 4, 6, 1, 1, 2, 3 },
    {   0, 0, 0, 0, 2, 1, 0, 1 },
    {   0, 0, 0, 0, 3, 1, 0, 1 },
};

static void
vp_pps(const vp_shape_t *s)
{
    unsigned       i, n, bits;
    uint32_t       ec, bf, cr, r0, r1, wp, wb, db, rp;
    vod_status_t   rc;
    avc_pps_t     *pps;

    vp_reset();
    g_want_pps = 1;

    for (i = 0; i < 3; i++) {
        g_sps_elts[i] = &g_sps[i];
    }
    g_ctx.sps.nelts = 3;
    g_sps[s->sps_id].chroma_format_idc = s->chroma;

    /* 7.3.2.2 */
    w_ue(s->id);
    w_ue(s->sps_id);
    ec = any() & 1;
    w_u(1, ec);
    bf = any() & 1;
    w_u(1, bf);
    w_ue(s->groups);
    cr = 0;
    if (s->groups > 0) {
        w_ue(s->type);
        if (s->type == 0) {
            for (i = 0; i <= s->groups; i++) {
                w_ue(any());
            }
        } else if (s->type == 2) {
            for (i = 0; i < s->groups; i++) {
                w_ue(any());
                w_ue(any());
            }
        } else if (s->type >= 3 && s->type <= 5) {
            w_u(1, any());
            cr = any() & 0x7fffff;
            w_ue(cr++);
        } else if (s->type == 6) {
            bits = s->groups + 1 > 4 ? 3 : s->groups + 1 > 2 ? 2 : 1;
            w_ue(4);
            for (i = 0; i <= 4; i++) {
                w_u(bits, any());
            }
        }
    }
    r0 = any() & 31;
    r1 = any() & 31;
    w_ue(r0);
    w_ue(r1);
    wp = any() & 1;
    w_u(1, wp);
    wb = any() & 3;
    w_u(2, wb);
    w_ue(any());
    w_ue(any());
    w_ue(any());
    db = any() & 1;
    w_u(1, db);
    w_u(1, any());
    rp = any() & 1;
    w_u(1, rp);

    if (s->tail == 1) {
        w_u(1, s->t8);
        w_u(1, s->matrix != 0);
        if (s->matrix) {
            n = 6 + (s->chroma != 3 ? 2 : 6) * s->t8;
            for (i = 0; i < n; i++) {
                w_u(1, i == n - 1 || i == 2);
                if (i == n - 1 || i == 2) {
                    w_scaling_list(i < 6 ? 16 : 64, s->matrix == 1);
                }
            }
        }
        w_ue(any());
    }

    if (s->tail == 2) {                 /* cut short */
        g_n--;
    } else {
        w_u(1, 1);
        w_u(2, 0);
    }

    if (s->tail == 3) {                 /* no such sps */
        g_sps_elts[s->sps_id] = NULL;
    }

    vp_start();
    rc = avc_parser_pic_parameter_set_rbsp(&g_ctx, &g_r);

    if (s->tail > 1) {
        VP_POST(rc == VOD_BAD_DATA);
        return;
    }

    VP_POST(rc == VOD_OK);
    VP_POST(g_ctx.pps.nelts == s->id + 1u);
    pps = g_pps_elts[s->id];
    VP_POST(pps == &g_pps[0] && pps->sps == &g_sps[s->sps_id]);
    VP_POST(pps->slice_group_change_rate == (int) cr);
    VP_POST(pps->num_ref_idx[0] == (int) r0 + 1 && pps->num_ref_idx[1] == (int) r1 + 1);
    VP_POST(pps->num_slice_groups_minus1 == s->groups);
    VP_POST(s->groups == 0 || pps->slice_group_map_type == s->type);
    VP_POST(pps->weighted_bipred_idc == wb && pps->weighted_pred_flag == wp);
    VP_POST(pps->deblocking_filter_control_present_flag == db);
    VP_POST(pps->redundant_pic_cnt_present_flag == rp);
    VP_POST(pps->entropy_coding_mode_flag == ec);
    VP_POST(pps->bottom_field_pic_order_in_frame_present_flag == bf);
    if (s->tail == 1) {
        VP_POST(g_r.stream.cur_pos == g_kind + g_n);
    }
}


void
h_pps(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    for (i = 0; i < sizeof(shapes) / sizeof(shapes[0]); i++) {
        vp_pps(&shapes[i]);
    }

    /* ids out of range */
    for (i = 0; i < 5; i++) {
        vp_reset();
        g_want_pps = 1;
        g_ctx.sps.nelts = 3;
        w_ue(i == 0 ? 256 : i == 2 ? 0xffffffff : 0);
        w_ue(i == 1 ? 3 : i == 3 ? 0x80000000 : i == 4 ? 259 : 0);
        w_u(32, 0);
        vp_start();
        VP_POST(avc_parser_pic_parameter_set_rbsp(&g_ctx, &g_r) == VOD_BAD_DATA);
        VP_POST((i != 0 && i != 2) || g_ctx.pps.nelts == 0);
    }

    /* a rate that is not a positive number would divide by zero later */
    for (i = 0; i < 3; i++) {
        vp_reset();
        g_want_pps = 1;
        g_ctx.sps.nelts = 1;
        g_sps_elts[0] = &g_sps[0];
        w_ue(0);
        w_ue(0);
        w_u(2, 0);
        w_ue(1);
        w_ue(3 + i);
        w_u(1, 0);
        w_ue(i == 0 ? 0xffffffff : i == 1 ? 0x7fffffff : 0xfffffffe);
        w_ue(0);
        w_ue(0);
        w_u(3, 0);
        w_ue(0);
        w_ue(0);
        w_ue(0);
        w_u(3, 0);
        w_u(3, 4);
        vp_start();
        VP_POST(avc_parser_pic_parameter_set_rbsp(&g_ctx, &g_r) == VOD_BAD_DATA);
    }

    VP_COVER(1);
}

#endif


#if defined U_EXTRA

/* avcC: 5 bytes, 5 bits of count, units of 16 bit size, count, units */
static u_char  g_x[40];

static void
vp_extra(unsigned n1, unsigned n2, unsigned size, unsigned type, unsigned cut)
{
    unsigned       i, n = 5, units = 0;
    u_char        *pos[4];
    uint32_t       len, min;
    vod_str_t      x;
    vod_status_t   rc;

    vp_reset();
    g_seen = 0;

    for (i = 0; i < 4; i++) {
        g_x[i] = any();
    }
    len = any() & 3;
    g_x[4] = 0xfc | len;

    g_x[n++] = 0xe0 | n1;
    for (i = 0; i < n1 + n2; i++) {
        if (i == n1) {
            g_x[n++] = n2;
        }
        g_x[n++] = 0;
        g_x[n++] = size + i;
        pos[units++] = &g_x[n];
        g_x[n] = 0x60 | type;
        n += size + i;
    }
    if (n2 == 0) {
        g_x[n++] = 0;
    }

    x.data = g_x;
    x.len = n - cut;
    min = 77;
    rc = avc_parser_parse_extra_data(&g_ctx, &x, &len, &min);

    if (cut || size == 0) {
        VP_POST(rc == VOD_BAD_DATA);
        return;
    }

    VP_POST(len == (g_x[4] & 3) + 1u && min == len + 1);

    if (type == AVC_NAL_SPS || type == AVC_NAL_PPS) {
        /* the empty payload is not a parameter set; the first unit decides */
        VP_POST(rc == VOD_BAD_DATA);
        VP_POST(g_seen == 1);
        VP_POST(g_ctx.sps.nelts == (type == AVC_NAL_SPS));
        VP_POST(g_ctx.pps.nelts == (type == AVC_NAL_PPS));
        units = 1;

    } else {
        VP_POST(rc == VOD_OK);
        VP_POST(g_seen == n1 + n2);
    }

    for (i = 0; i < units; i++) {
        VP_POST(g_spos[i] == pos[i] + 1);
        VP_POST(g_ssize[i] == size + i - 1);
    }
}


void
h_extra(void)
{
    vod_str_t  x;

    VP_LOAD_INPUT();
    vp_extra(1, 1, 3, 6, 0);
    vp_extra(1, 2, 1, 9, 0);
    vp_extra(0, 2, 4, 6, 0);
    vp_extra(3, 0, 2, 6, 0);
    vp_extra(0, 0, 2, 6, 0);
    vp_extra(1, 1, 5, AVC_NAL_SPS, 0);
    vp_extra(1, 1, 5, AVC_NAL_PPS, 0);
    vp_extra(1, 1, 3, 6, 1);
    vp_extra(1, 1, 3, 6, 4);
    vp_extra(1, 1, 3, 6, 5);
    vp_extra(1, 1, 3, 6, 6);
    vp_extra(1, 1, 3, 6, 7);
    vp_extra(2, 0, 3, 6, 1);
    vp_extra(0, 1, 0, 6, 0);
    vp_extra(1, 0, 0, 6, 0);

    x.data = g_x;
    x.len = 4;
    VP_POST(avc_parser_parse_extra_data(&g_ctx, &x, NULL, NULL) == VOD_BAD_DATA);
    VP_COVER(1);
}

#endif


#if defined U_SLICE

static u_char  g_in[4];

/* the shape of a header: what the sequence and the picture say, and the
   choices of the slice; every other element is arbitrary */
typedef struct {
    unsigned  nal, ref, type, sep, mbs_only, field, poc, dz, bottom, redundant,
              over, n0, n1, mod, wp, wb, mark, cabac, deblock, ddf, chroma, map;
} vp_shape_t;

static vp_shape_t  g_s;

/* a spread of shapes: every pair of choices occurs */
static void
vp_shape(unsigned i)
{
    static const uint8_t  nals[] = { 1, 5, 1, 20, 1, 5 };

    g_s.nal = nals[i % 6];
    g_s.ref = (i % 3) != 2;
    g_s.type = i % 10;
    g_s.sep = (i % 7) == 2;
    g_s.mbs_only = (i >> 1) & 1;
    g_s.field = (i >> 2) & 1;
    g_s.poc = (i / 2) % 3;
    g_s.dz = (i >> 3) & 1;
    g_s.bottom = (i % 5) > 1;
    g_s.redundant = (i % 4) == 1;
    g_s.over = (i % 7) > 2;
    g_s.n0 = 1 + i % 3;
    g_s.n1 = 1 + (i + 1) % 2;
    g_s.mod = i % 4;
    g_s.wp = (i % 8) > 2;
    g_s.wb = i % 3;
    g_s.mark = i % 5;
    g_s.cabac = (i % 9) > 3;
    g_s.deblock = (i % 11) > 4;
    g_s.ddf = i % 3;
    g_s.chroma = (i % 13) == 4 ? 0 : 1;
    g_s.map = (i % 5) == 3 ? 3 + i % 3 : (i % 5) == 1 ? 2 : 0;
}

/* 7.3.3.1, 7.3.3.2 (G.7.3.3.1.1 for nal types 20 and 21) */
static void
w_modification(unsigned mvc)
{
    w_u(1, g_s.mod != 0);
    if (g_s.mod == 0) {
        return;
    }

    w_ue(g_s.mod & 1);
    w_ue(any());
    if (g_s.mod > 1) {
        w_ue(2);
        w_ue(any());
    }
    if (g_s.mod > 2 && mvc) {
        w_ue(4);
        w_ue(any());
        w_ue(5);
        w_ue(any());
    }
    w_ue(3);
}

static void
w_weights(unsigned n)
{
    unsigned  i;

    for (i = 0; i < n; i++) {
        w_u(1, i & 1);
        if (i & 1) {
            w_ue(any());
            w_ue(any());
        }
        if (g_s.chroma) {
            w_u(1, !(i & 1));
            if (!(i & 1)) {
                w_ue(any());
                w_ue(any());
                w_ue(any());
                w_ue(any());
            }
        }
    }
}

#define SL_P   0
#define SL_B   1
#define SL_I   2
#define SL_SP  3
#define SL_SI  4

static void
w_slice(void)
{
    unsigned  t = g_s.type % 5, n0, n1, idr = g_s.nal == 5, field = 0;

    w_ue(any());                        /* first_mb_in_slice */
    w_ue(g_s.type);
    w_ue(1);                            /* pic_parameter_set_id */
    if (g_s.sep) {
        w_u(2, any());
    }
    w_u(7, any());                      /* frame_num */
    if (!g_s.mbs_only) {
        field = g_s.field;
        w_u(1, field);
        if (field) {
            w_u(1, any());
        }
    }
    if (idr) {
        w_ue(any());
    }
    if (g_s.poc == 0) {
        w_u(6, any());
        if (g_s.bottom && !field) {
            w_ue(any());
        }
    }
    if (g_s.poc == 1 && !g_s.dz) {
        w_ue(any());
        if (g_s.bottom && !field) {
            w_ue(any());
        }
    }
    if (g_s.redundant) {
        w_ue(any());
    }
    if (t == SL_B) {
        w_u(1, any());
    }

    n0 = 2;                             /* the defaults of the picture */
    n1 = 3;
    if (t == SL_P || t == SL_SP || t == SL_B) {
        w_u(1, g_s.over);
        if (g_s.over) {
            n0 = g_s.n0;
            w_ue(n0 - 1);
            if (t == SL_B) {
                n1 = g_s.n1;
                w_ue(n1 - 1);
            }
        }
    }

    if (t != SL_I && t != SL_SI) {
        w_modification(g_s.nal == 20);
    }
    if (t == SL_B) {
        w_modification(g_s.nal == 20);
    }

    if ((g_s.wp && (t == SL_P || t == SL_SP)) || (g_s.wb == 1 && t == SL_B)) {
        w_ue(any());
        if (g_s.chroma) {
            w_ue(any());
        }
        w_weights(n0);
        if (t == SL_B) {
            w_weights(n1);
        }
    }

    if (g_s.ref) {
        if (idr) {
            w_u(2, any());
        } else {
            w_u(1, g_s.mark != 0);
            if (g_s.mark) {
                if (g_s.mark > 1) {
                    w_ue(1);
                    w_ue(any());
                    w_ue(3);
                    w_ue(any());
                    w_ue(any());
                }
                if (g_s.mark > 2) {
                    w_ue(2);
                    w_ue(any());
                    w_ue(5);
                }
                if (g_s.mark > 3) {
                    w_ue(4);
                    w_ue(any());
                    w_ue(6);
                    w_ue(any());
                }
                w_ue(0);
            }
        }
    }

    if (g_s.cabac && t != SL_I && t != SL_SI) {
        w_ue(any());
    }
    w_ue(any());                        /* slice_qp_delta */
    if (t == SL_SP || t == SL_SI) {
        if (t == SL_SP) {
            w_u(1, any());
        }
        w_ue(any());
    }
    if (g_s.deblock) {
        w_ue(g_s.ddf);
        if (g_s.ddf != 1) {
            w_ue(any());
            w_ue(any());
        }
    }
    if (g_s.map >= 3) {
        /* 11 x 6 map units, rate 10: Ceil(Log2(66 / 10 + 1)) = 3 */
        w_u(3, any());
    }
}


static void
vp_slice(unsigned i, unsigned how)
{
    uint32_t       size;
    unsigned       n;
    vod_status_t   rc;
    avc_sps_t     *sps = &g_sps[0];
    avc_pps_t     *pps = &g_pps[1];

    vp_reset();
    vp_shape(i);

    g_pps_elts[0] = NULL;
    g_pps_elts[1] = pps;
    g_ctx.pps.nelts = 2;

    pps->sps = sps;
    pps->slice_group_change_rate = 10;
    pps->num_ref_idx[0] = 2;
    pps->num_ref_idx[1] = 3;
    pps->slice_group_map_type = g_s.map;
    pps->num_slice_groups_minus1 = g_s.map ? 1 : 0;
    pps->weighted_bipred_idc = g_s.wb;
    pps->weighted_pred_flag = g_s.wp;
    pps->deblocking_filter_control_present_flag = g_s.deblock;
    pps->redundant_pic_cnt_present_flag = g_s.redundant;
    pps->entropy_coding_mode_flag = g_s.cabac;
    pps->bottom_field_pic_order_in_frame_present_flag = g_s.bottom;

    sps->pic_height_in_map_units = 6;
    sps->pic_width_in_mbs = 11;
    sps->transfer_characteristics = 0;
    sps->frame_mbs_only_flag = g_s.mbs_only;
    sps->pic_order_cnt_type = g_s.poc;
    sps->delta_pic_order_always_zero_flag = g_s.dz;
    sps->log2_max_pic_order_cnt_lsb = 6;
    sps->log2_max_frame_num = 7;
    sps->chroma_array_type = g_s.chroma;
    sps->chroma_format_idc = g_s.chroma;
    sps->separate_colour_plane_flag = g_s.sep;

    w_slice();
    n = g_n;

    if (how == 1) {
        g_n--;                          /* cut short */

    } else if (how == 2) {
        pps->sps = sps;
        g_pps_elts[1] = NULL;           /* no such picture parameter set */

    } else if (how == 3) {
        g_ctx.pps.nelts = 1;

    } else {
        w_u(3, 5);                      /* slice data */
    }

    g_in[0] = g_s.nal | (g_s.ref ? 1 + i % 3 : 0) << 5;
    g_extra = in.v[0] & 0xff;
    size = 0;
    g_es = g_ee = NULL;
    rc = avc_parser_get_slice_header_size(&g_ctx, g_in, 4, &size);

    VP_POST(g_decoded == 1 && g_nal == g_in + 1 && g_nal_size == 3);

    if (how > 0) {
        VP_POST(rc == VOD_BAD_DATA);
        return;
    }

    VP_POST(rc == VOD_OK);
    VP_POST(size == 1 + n + g_extra);
    VP_POST(g_es == g_kind && g_ee == g_kind + n);
}


void
h_slice(void)
{
    unsigned  i;
    uint32_t  size;
    bool_t    b;

    VP_LOAD_INPUT();

    for (i = LO; i < HI; i++) {
        vp_slice(i, 0);
    }

    vp_slice(LO + 3, 1);
    vp_slice(LO + 4, 2);
    vp_slice(LO + 5, 3);

    /* a slice type that does not exist */
    vp_reset();
    w_ue(any());
    w_ue(10 + (in.v[2] & 0x3f));
    w_u(32, 0);
    VP_POST(avc_parser_get_slice_header_size(&g_ctx, g_in, 4, &size) == VOD_BAD_DATA);

    /* which units are slices */
    b = 2;
    i = in.v[3] & 0xff;
    if ((i & 0x1f) >= 2 && (i & 0x1f) <= 4) {
        VP_POST(avc_parser_is_slice(&g_ctx, i, &b) == VOD_BAD_DATA);
    } else {
        VP_POST(avc_parser_is_slice(&g_ctx, i, &b) == VOD_OK);
        VP_POST(b == ((i & 0x1f) == 1 || (i & 0x1f) == 5));
    }

    VP_COVER(1);
}

#endif
