/*
 * MPEG-TS packaging: the functions that write one header, for all inputs.
 */

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;

#include "nginx-pckg-module/src/media/common.h"
#include "nginx-pckg-module/src/media/media_format.h"

#define VP_OWN_PALLOC
#define VP_OWN_TEMP_BUF

#include "nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/write_buffer_queue.c"
#include "nginx-pckg-module/src/media/mpegts/adts_encoder_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/id3_defs.c"
#include "nginx-pckg-module/src/media/mpegts/id3_encoder_filter.c"
#include "vp_stubs.h"

VP_DECLARE_INPUT(struct {
    uint64_t  pts;
    uint64_t  dts;
    unsigned  fb;
    unsigned  pid;
    unsigned  sid;
    unsigned  cc;
    int       media_type;
    int       pcr;
    int       aligned;
    unsigned  index;
    unsigned  object_type;
    unsigned  rate;
    unsigned  channels;
    unsigned  size;
    u_char    bytes[188];
})

uint32_t
codec_config_get_audio_frame_size(media_info_t *media_info)
{
    return 1024;
}

void *
buffer_pool_alloc(request_context_t *rc, buffer_pool_t *pool, size_t *size)
{
    return NULL;
}

static u_char  g_psi[2 * 188 + 8];

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    if (size == 376) {
        return g_psi;
    }
    return malloc(size);
}

static u_char                g_pk[188];
static mpegts_stream_info_t  g_si;
static output_frame_t        g_f;
static u_char               *g_len;
static ngx_log_t             g_nolog;
static request_context_t     g_rc;

/* ISO 13818-1, 2.4.3.7: time stamps */
static uint64_t
x_stamp(const u_char *p)
{
    return ((uint64_t) (p[0] >> 1 & 7) << 30) | ((uint64_t) p[1] << 22)
           | ((uint64_t) (p[2] >> 1) << 15) | ((uint64_t) p[3] << 7) | (p[4] >> 1);
}

static int
x_stamp_is(const u_char *p, unsigned fb, uint64_t v)
{
    return x_stamp(p) == (v & 0x1ffffffffULL) && p[0] >> 4 == fb && (p[0] & 1) && (p[2] & 1) && (p[4] & 1);
}

static int
x_pcr_is(const u_char *p, uint64_t v)
{
    return (((uint64_t) p[0] << 25) | (p[1] << 17) | (p[2] << 9) | (p[3] << 1) | (p[4] >> 7)) == (v & 0x1ffffffffULL)
           && (p[4] & 0x7f) == 0x7e && p[5] == 0;
}

u_char *mpegts_write_pts_c(u_char *p, unsigned fb, uint64_t pts)
__CPROVER_requires(p == g_pk + 4 && fb < 16)
__CPROVER_assigns(__CPROVER_object_upto(p, 5))
__CPROVER_ensures(__CPROVER_return_value == p + 5 && x_stamp_is(p, fb, pts))
;

u_char *mpegts_write_pcr_c(u_char *p, uint64_t pcr)
__CPROVER_requires(p == g_pk + 4)
__CPROVER_assigns(__CPROVER_object_upto(p, 6))
__CPROVER_ensures(__CPROVER_return_value == p + 6 && x_pcr_is(p, pcr))
;

static int
x_packet_header(const u_char *p, unsigned pid, unsigned cc)
{
    return p[0] == 0x47 && p[1] == pid >> 8 && p[2] == (pid & 255) && p[3] == (0x10 | (cc & 15));
}

u_char *mpegts_write_packet_header_c(u_char *p, unsigned pid, unsigned cc)
__CPROVER_requires(p == g_pk && pid < 0x2000)
__CPROVER_assigns(__CPROVER_object_upto(p, 4))
__CPROVER_ensures(__CPROVER_return_value == p + 4 && x_packet_header(p, pid, cc))
;

#ifdef U_STAMPS
void
h_stamps(void)
{
    u_char  *p;

    VP_LOAD_INPUT();
    VP_PRE(in.fb < 16);
    p = mpegts_write_pts(g_pk + 4, in.fb, in.pts);
    VP_POST(p == g_pk + 9 && x_stamp_is(g_pk + 4, in.fb, in.pts));
    VP_COVER(in.pts > 0x1ffffffffULL);
}
#endif

#ifdef U_PCR
void
h_pcr(void)
{
    u_char  *p;

    VP_LOAD_INPUT();
    p = mpegts_write_pcr(g_pk + 4, in.pts);
    VP_POST(p == g_pk + 10 && x_pcr_is(g_pk + 4, in.pts));
    VP_COVER(in.pts > 0x1ffffffffULL);
}
#endif

#ifdef U_HEADER
void
h_header(void)
{
    u_char  *p;

    VP_LOAD_INPUT();
    VP_PRE(in.pid < 0x2000);
    p = mpegts_write_packet_header(g_pk, in.pid, in.cc);
    VP_POST(p == g_pk + 4 && x_packet_header(g_pk, in.pid, in.cc));
    VP_COVER(in.cc > 300);
}
#endif

/* the PES header, with the adaptation field if the stream carries the PCR */
static int
x_pes(const u_char *pk, u_char *end, u_char *len, int aligned, unsigned b1, unsigned b3)
{
    int            video = g_si.media_type == MEDIA_TYPE_VIDEO;
    const u_char  *p = pk + 4;

    if (pk[1] != (b1 | 0x40) || pk[3] != (g_si.pcr ? b3 | 0x20 : b3)) {
        return 0;
    }

    if (g_si.pcr) {
        if (p[0] != 7 || p[1] != 0x10 || !x_pcr_is(p + 2, g_f.dts + 4590)) {
            return 0;
        }
        p += 8;
    }

    return p[0] == 0 && p[1] == 0 && p[2] == 1 && p[3] == (u_char) g_si.sid
           && len == p + 4
           && p[6] == (aligned ? 0x84 : 0x80)
           && p[7] == (video ? 0xc0 : 0x80)
           && p[8] == (video ? 10 : 5)
           && x_stamp_is(p + 9, video ? 3 : 2, g_f.pts + 9090)
           && (!video || x_stamp_is(p + 14, 1, g_f.dts + 9090))
           && end == p + (video ? 19 : 14);
}

u_char *mpegts_write_pes_header_c(u_char *pk, mpegts_stream_info_t *si, output_frame_t *f, u_char **len, bool_t aligned)
__CPROVER_requires(pk == g_pk && si == &g_si && f == &g_f && len == &g_len && pk[1] == 1 && pk[3] == 0x17)
__CPROVER_assigns(__CPROVER_object_whole(g_pk), g_len)
__CPROVER_ensures(x_pes(pk, __CPROVER_return_value, g_len, aligned, 1, 0x17))
__CPROVER_ensures(pk[0] == in.bytes[0] && pk[2] == in.bytes[2])
/* and it has the size that room was made for */
__CPROVER_ensures((size_t) (__CPROVER_return_value - pk) == 4 + mpegts_get_pes_header_size(si))
;

#ifdef U_PES
void
h_pes(void)
{
    u_char  *p;

    VP_LOAD_INPUT();
    g_si.media_type = in.media_type;
    g_si.pid = in.pid;
    g_si.sid = in.sid;
    g_si.pcr = in.pcr;
    g_f.pts = in.pts;
    g_f.dts = in.dts;
    g_pk[0] = in.bytes[0];
    g_pk[1] = 1;
    g_pk[2] = in.bytes[2];
    g_pk[3] = 0x17;
    p = mpegts_write_pes_header(g_pk, &g_si, &g_f, &g_len, in.aligned);
    VP_POST(x_pes(g_pk, p, g_len, in.aligned, 1, 0x17));
    VP_POST((size_t) (p - g_pk) == 4 + mpegts_get_pes_header_size(&g_si));
    VP_COVER(in.pcr && in.media_type == MEDIA_TYPE_VIDEO);
}
#endif

/* stuffing: the data moves to the end, the adaptation field fills the gap */
#ifdef U_STUFF
static u_char  g_to[188];
static u_char  g_old[188];

/* n bytes of stuffing; af: there is an adaptation field (PCR) already */
static void
stuff_case(unsigned n, int af, int copy)
{
    unsigned  i, at;
    u_char   *r;

    for (i = 0; i < 188; i++) {
        g_pk[i] = in.bytes[i];
    }

    g_pk[3] = af ? 0x35 : 0x15;
    if (af) {
        g_pk[4] = 7;
        g_pk[5] = 0x10;
    }

    for (i = 0; i < 188; i++) {
        g_old[i] = g_pk[i];
    }

    if (copy) {
        for (i = 0; i < 188; i++) {
            g_to[i] = 0xaa;
        }
        mpegts_copy_and_stuff(g_to, g_pk, g_pk + 188 - n, n);
        r = g_to;
    } else {
        mpegts_add_stuffing(g_pk, g_pk + 188 - n, n);
        r = g_pk;
    }

    VP_POST(r[0] == g_old[0] && r[1] == g_old[1] && r[2] == g_old[2] && r[3] == 0x35);
    at = 4;
    if (af) {
        VP_POST(r[4] == 7 + n);
        for (i = 5; i < 12; i++) {
            VP_POST(r[i] == g_old[i]);
        }
        at = 12;
        for (i = 12; i < 12 + n; i++) {
            VP_POST(r[i] == 0xff);
        }
    } else {
        VP_POST(r[4] == n - 1);
        if (n > 1) {
            VP_POST(r[5] == 0);
        }
        for (i = 6; i < 4 + n; i++) {
            VP_POST(r[i] == 0xff);
        }
    }

    for (; at + n < 188; at++) {
        VP_POST(r[at + n] == g_old[at]);
    }
}

#ifndef VP_REPLAY
void *
memmove(void *dst, const void *src, size_t n)
{
    static u_char  tmp[188];
    size_t         i;

    for (i = 0; i < n; i++) {
        tmp[i] = ((const u_char *) src)[i];
    }

    for (i = 0; i < n; i++) {
        ((u_char *) dst)[i] = tmp[i];
    }

    return dst;
}

void *
memset(void *dst, int c, size_t n)
{
    size_t  i;

    for (i = 0; i < n; i++) {
        ((u_char *) dst)[i] = c;
    }

    return dst;
}
#endif

void
h_stuff(void)
{
    unsigned  n;

    VP_LOAD_INPUT();
    for (n = SMIN; n <= SMAX && n <= (AF ? 176 : 184); n++) {
        stuff_case(n, AF, COPY);
    }
    VP_COVER(1);
}
#endif

/* PAT and PMT */
#ifdef U_PSI
static uint32_t
x_crc(const u_char *p, unsigned n)
{
    uint32_t  c = 0xffffffff;
    unsigned  i, k;

    for (i = 0; i < n; i++) {
        c ^= (uint32_t) p[i] << 24;
        for (k = 0; k < 8; k++) {
            c = c & 0x80000000 ? (c << 1) ^ 0x04c11db7 : c << 1;
        }
    }

    return c;
}

static media_info_t  g_mi;
static u_char        g_extra[200];

#define N_STREAMS  6

typedef struct {
    int       media;            /* none: id3 */
    unsigned  codec;
    unsigned  type;             /* stream type */
    unsigned  info;             /* bytes of descriptors */
    unsigned  pid, sid;
    int       object;
    unsigned  extra;
} x_stream_t;

static void
psi_case(const x_stream_t *x, unsigned n, int sample_aes, int refused)
{
    mpegts_encoder_init_streams_state_t  s;
    hls_encryption_params_t              enc;
    mpegts_encoder_state_t               e;
    media_filter_t                       filter;
    write_buffer_queue_t                 queue;
    vod_str_t                            h;
    vod_status_t                         rc;
    unsigned                             i, k, at, len;
    u_char                              *p;

    g_nolog.log_level = 0;
    g_rc.log = &g_nolog;
    g_rc.pool = NULL;
    g_rc.simulation_only = 0;
    enc.type = sample_aes ? HLS_ENC_SAMPLE_AES : HLS_ENC_NONE;
    for (i = 0; i < sizeof(g_psi); i++) {
        g_psi[i] = 0xcc;
    }

    rc = mpegts_encoder_init_streams(&g_rc, &enc, &s, in.index);
    VP_POST(rc == VOD_OK);
    if (rc != VOD_OK) {
        return;
    }

    for (i = 0; i < n; i++) {
        g_mi.media_type = x[i].media;
        g_mi.codec_id = x[i].codec;
        g_mi.extra_data.data = g_extra;
        g_mi.extra_data.len = x[i].extra;
        g_mi.u.audio.codec_config.object_type = x[i].object;
        rc = mpegts_encoder_init(&filter, &e, &s, x[i].media != MEDIA_TYPE_NONE ? &g_mi : NULL, &queue, 0, 0);
        if (refused && i == n - 1) {
            VP_POST(rc == VOD_BAD_DATA);
            VP_POST(g_psi[376] == 0xcc && g_psi[377] == 0xcc);
            return;
        }
        VP_POST(rc == VOD_OK);
        VP_POST(e.stream_info.pid == x[i].pid && e.stream_info.sid == x[i].sid);
        VP_POST(!e.stream_info.pcr == !!i);
        VP_POST(e.cc == (x[i].media != MEDIA_TYPE_NONE ? 0 : (in.index & 15)));
        if (rc != VOD_OK) {
            return;
        }
    }

    h.len = 0;
    mpegts_encoder_finalize_streams(&s, &h);
    VP_POST(h.len == 376 && h.data == g_psi);

    /* PAT: program 1, PMT at 0xfff */
    p = g_psi;
    VP_POST(p[0] == 0x47 && p[1] == 0x40 && p[2] == 0 && p[3] == (0x10 | (in.index & 15)) && p[4] == 0);
    VP_POST(p[5] == 0 && p[6] == 0xb0 && p[7] == 13);
    VP_POST(p[13] == 0 && p[14] == 1 && (p[15] & 0x1f) == 0x0f && p[16] == 0xff);
    VP_POST(x_crc(p + 5, 16) == 0);
    for (i = 21; i < 188; i++) {
        VP_POST(p[i] == 0xff);
    }

    /* PMT */
    p = g_psi + 188;
    VP_POST(p[0] == 0x47 && p[1] == 0x4f && p[2] == 0xff && p[3] == (0x10 | (in.index & 15)) && p[4] == 0);
    VP_POST(p[5] == 2 && (p[6] & 0xfc) == 0xb0);
    len = ((p[6] & 3) << 8) | p[7];
    VP_POST(8 + len <= 188);
    if (8 + len > 188) {
        return;
    }
    VP_POST(p[8] == 0 && p[9] == 1 && (p[10] & 1) && p[11] == 0 && p[12] == 0);
    VP_POST((p[13] & 0x1f) == 1 && p[14] == 0);             /* PCR: the first stream */
    at = 17 + (((p[15] & 3) << 8) | p[16]);

    for (i = 0; i < n; i++) {
        VP_POST(p[at] == x[i].type);
        VP_POST((p[at + 1] >> 5) == 7 && (((p[at + 1] & 0x1f) << 8) | p[at + 2]) == x[i].pid);
        VP_POST((p[at + 3] & 0xfc) == 0xf0 && (((p[at + 3] & 3) << 8) | p[at + 4]) == x[i].info);
        /* whole descriptors */
        for (k = 0; k < x[i].info; k += 2 + p[at + 5 + k + 1]);
        VP_POST(k == x[i].info);
        if (sample_aes && x[i].media == MEDIA_TYPE_AUDIO) {
            k = at + 5 + 6;
            VP_POST(p[k] == 5 && p[k + 2] == 'a' && p[k + 3] == 'p' && p[k + 4] == 'a' && p[k + 5] == 'd');
            k += 6;
            VP_POST(p[k] == 'z' && p[k + 6] == 1 && p[k + 7] == x[i].info - 6 - 6 - 8);
            if (x[i].extra) {
                VP_POST(p[k + 8] == g_extra[0] && p[k + 7 + x[i].extra] == g_extra[x[i].extra - 1]);
            }
        }
        at += 5 + x[i].info;
    }

    VP_POST(at == 8 + len - 4);
    VP_POST(x_crc(p + 5, 3 + len) == 0);
    for (i = 8 + len; i < 188; i++) {
        VP_POST(p[i] == 0xff);
    }
    VP_POST(g_psi[376] == 0xcc);
}

#define V  MEDIA_TYPE_VIDEO
#define A  MEDIA_TYPE_AUDIO

static const x_stream_t  g_x0[] = {
    { V, VOD_CODEC_ID_AVC, 0x1b, 0, 0x100, 0xe0 }, { V, VOD_CODEC_ID_HEVC, 0x24, 6, 0x101, 0xe1 },
    { A, VOD_CODEC_ID_AAC, 0x0f, 0, 0x102, 0xc0 }, { A, VOD_CODEC_ID_MP3, 0x03, 0, 0x103, 0xc1 },
    { A, VOD_CODEC_ID_AC3, 0x81, 0, 0x104, 0xc2 }, { A, VOD_CODEC_ID_EAC3, 0x81, 0, 0x105, 0xc3 },
    { A, VOD_CODEC_ID_DTS, 0x82, 0, 0x106, 0xc4 }, { MEDIA_TYPE_NONE, 0, 0x15, 15, 0x107, 0xbd } };
static const x_stream_t  g_x2[] = { { A, VOD_CODEC_ID_AAC, 0x0f, 0, 0x101, 0xc0 }, { MEDIA_TYPE_NONE, 0, 0x15, 15, 0x102, 0xbd } };
static const x_stream_t  g_x3[] = { { V, VOD_CODEC_ID_AVC, 0x1b, 0, 0x100, 0xe0 }, { MEDIA_TYPE_NONE, 0, 0x15, 15, 0x102, 0xbd } };
static const x_stream_t  g_x4[] = {
    { V, VOD_CODEC_ID_AVC, 0xdb, 6, 0x100, 0xe0 }, { A, VOD_CODEC_ID_AAC, 0xcf, 6 + 6 + 8 + 2, 0x101, 0xc0, 2, 2 },
    { A, VOD_CODEC_ID_AC3, 0xc1, 6 + 6 + 8 + 10, 0x102, 0xc1 }, { A, VOD_CODEC_ID_EAC3, 0xc2, 6 + 6 + 8 + 5, 0x103, 0xc2, 0, 5 } };

/* no more room: what fits exactly, and one byte more */
static const x_stream_t  g_x5[] = {
    { V, VOD_CODEC_ID_AVC, 0xdb, 6, 0x100, 0xe0 }, { A, VOD_CODEC_ID_AAC, 0xcf, 6 + 6 + 8 + 108, 0x101, 0xc0, 2, 108 } };
static const x_stream_t  g_x6[] = {
    { V, VOD_CODEC_ID_AVC, 0xdb, 6, 0x100, 0xe0 }, { A, VOD_CODEC_ID_AAC, 0xcf, 6 + 6 + 8 + 114, 0x101, 0xc0, 2, 114 } };

void
h_psi(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    for (i = 0; i < sizeof(g_extra); i++) {
        g_extra[i] = 3 * i + 1;
    }
    psi_case(g_x0, 8, 0, 0);
    psi_case(g_x2, 2, 0, 0);
    psi_case(g_x3, 2, 0, 0);
    psi_case(g_x4, 4, 1, 0);
    psi_case(g_x5, 2, 1, 0);
    psi_case(g_x6, 2, 1, 1);
    VP_COVER(in.index > 100);
}
#endif

/* ADTS and ID3 headers */
#if defined U_ADTS || defined U_ID3
static u_char    g_out[32];
static unsigned  g_outs, g_writes, g_starts, g_size;

static vod_status_t
x_start(media_filter_context_t *ctx, output_frame_t *f)
{
    g_starts++;
    g_size = f->size;
    return VOD_OK;
}

static vod_status_t
x_write(media_filter_context_t *ctx, const u_char *p, uint32_t n)
{
    unsigned  i;

    g_writes++;
    g_outs = n;
    for (i = 0; i < n && i < 32; i++) {
        g_out[i] = p[i];
    }
    return VOD_OK;
}
#endif

#ifdef U_ADTS
static adts_encoder_state_t  g_adts;
static media_info_t          g_mi;

void
h_adts(void)
{
    media_filter_context_t  ctx;
    media_filter_t          filter;
    unsigned                i, n;
    u_char                 *p = g_out;

    VP_LOAD_INPUT();
    VP_PRE(in.object_type >= 1 && in.object_type <= 4 && in.rate < 16 && in.channels < 8 && in.size <= 8191 - 7);
    g_nolog.log_level = 0;
    g_rc.log = &g_nolog;
    g_rc.simulation_only = 0;
    ctx.request_context = &g_rc;
    filter.start_frame = x_start;
    filter.write = x_write;
    VP_POST(adts_encoder_init(&filter, &ctx) == VOD_OK);
    g_mi.u.audio.codec_config.object_type = in.object_type;
    g_mi.u.audio.codec_config.sample_rate_index = in.rate;
    g_mi.u.audio.codec_config.channel_config = in.channels;
    VP_POST(adts_encoder_set_media_info(&ctx, &g_mi) == VOD_OK);

    /* also after other frames */
    for (i = 0; i < 2; i++) {
        g_f.size = i ? in.size : 8000 - in.size;
        VP_PRE(in.size <= 8000);
        g_f.header_size = 0;
        n = g_f.size + 7;
        g_starts = g_writes = 0;
        VP_POST(filter.start_frame(&ctx, &g_f) == VOD_OK);
        VP_POST(g_starts == 1 && g_writes == 1 && g_outs == 7 && g_size == n);
        VP_POST(p[0] == 0xff && p[1] == 0xf1);
        VP_POST(p[2] == (((in.object_type - 1) << 6) | (in.rate << 2) | (in.channels >> 2)));
        VP_POST(p[3] == (u_char) ((in.channels << 6) | (n >> 11)));
        VP_POST(p[4] == (u_char) (n >> 3));
        VP_POST(p[5] == (u_char) ((n << 5) | 0x1f));
        VP_POST(p[6] == 0xfc);
    }
    VP_COVER(in.size > 2048);
}
#endif

#ifdef U_ID3
static id3_encoder_state_t  g_id3;

static unsigned
x_safe(const u_char *p)
{
    return (p[0] << 21) | (p[1] << 14) | (p[2] << 7) | p[3];
}

void
h_id3(void)
{
    media_filter_context_t  ctx;
    media_filter_t          filter;
    u_char                 *p = g_out;

    VP_LOAD_INPUT();
    VP_PRE(in.size < 0x0fffff00);
    filter.start_frame = x_start;
    filter.write = x_write;
    id3_encoder_init(&g_id3, &filter, &ctx);
    g_f.size = in.size;
    g_starts = g_writes = 0;
    VP_POST(filter.start_frame(&ctx, &g_f) == VOD_OK);
    VP_POST(g_starts == 1 && g_writes == 1 && g_outs == 21 && g_size == in.size + 21);
    VP_POST(p[0] == 'I' && p[1] == 'D' && p[2] == '3' && p[3] == 4 && p[4] == 0 && p[5] == 0);
    VP_POST(!((p[6] | p[7] | p[8] | p[9] | p[14] | p[15] | p[16] | p[17]) & 0x80));
    VP_POST(x_safe(p + 6) == in.size + 11);
    VP_POST(p[10] == 'T' && p[11] == 'E' && p[12] == 'X' && p[13] == 'T' && p[18] == 0 && p[19] == 0 && p[20] == 3);
    VP_POST(x_safe(p + 14) == in.size + 1);
    VP_COVER(in.size > 0x200000);
}
#endif
