/*
 * MPEG-TS segments of the packager.  The whole muxer runs (frame sources,
 * annex B / ADTS / ID3 encoders, joiner or buffer, TS encoder, output queue)
 * and what the output callback gets is demultiplexed on the spot, packet by
 * packet, by an independent reader written from ISO 13818-1.
 */

#include "vp.h"

volatile ngx_cycle_t  *ngx_cycle;

#include "nginx-pckg-module/src/media/common.h"
#include "nginx-pckg-module/src/media/media_format.h"

/*
 * How the extraction writes comparisons of pointers of different buffers, of
 * null pointers, and of pointers past the end of a buffer.
 */
#ifdef VP_REPLAY
#define VP_GE(p, q)      ((p) >= (q))
#else
#define VP_GE(p, q)      ((p) == (q) || (__CPROVER_same_object(p, q) && (p) >= (q)))
#endif
#define VP_LEFT(end, p)  ((size_t) ((end) - (p)))

#define VP_OWN_PALLOC
#define VP_OWN_TEMP_BUF

#include "mpegts_encoder_filter.c"
#undef THIS_FILTER
#undef get_context
#include "write_buffer_queue.c"
#ifndef TS_ENC_ONLY
#include "nginx-pckg-module/src/media/mpegts/mp4_to_annexb_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/mpegts/adts_encoder_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/mpegts/frame_joiner_filter.c"
#undef THIS_FILTER
#undef get_context
#include "buffer_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/id3_defs.c"
#include "nginx-pckg-module/src/media/mpegts/id3_encoder_filter.c"
#undef THIS_FILTER
#undef get_context
#include "nginx-pckg-module/src/media/frames_source_memory.c"
#include "mpegts_muxer.c"
#endif
#include "vp_stubs.h"

#ifndef POOL
#define POOL  188
#endif
#ifndef CHUNK
#define CHUNK  190
#endif

VP_DECLARE_INPUT(struct {
    uint64_t    t;
})

#ifndef VP_REPLAY
void *
memset(void *dst, int c, size_t n)
{
    size_t  i;

    for (i = 0; i < n; i++) {
        ((u_char *) dst)[i] = c;
    }

    return dst;
}

void *
memmove(void *dst, const void *src, size_t n)
{
    static u_char  tmp[400];
    size_t         i;

    for (i = 0; i < n; i++) {
        tmp[i] = ((const u_char *) src)[i];
    }

    for (i = 0; i < n; i++) {
        ((u_char *) dst)[i] = tmp[i];
    }

    return dst;
}
#endif

#ifdef VP_REPLAY
void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    return malloc(size);
}

void *
buffer_pool_alloc(request_context_t *rc, buffer_pool_t *pool, size_t *size)
{
    *size = POOL;
    return malloc(POOL);
}

static void
vp_release(void)
{
}

static void
x_pads(void)
{
}

#else

/* blocks of the types asked for: their fields stay apart */
#define BLOCKS(type, name, n)                                                \
    static type      name[n];                                                \
    static unsigned  name ## _n;

#define TAKE(name, max)  (name ## _n < (max) ? &name[name ## _n++] : NULL)

static struct {
    u_char  b[376];
}                                   g_psi;
/* room behind, as the code computes pointers that far */
#define PAST  40

static struct { u_char b[188 + PAST]; }    g_temp0, g_temp1, g_temp2, g_temp3;
static unsigned                     g_temp_n;

BLOCKS(buffer_header_t, b_link, 52)
static struct { u_char b[POOL + PAST]; }
    g_pool0, g_pool1, g_pool2, g_pool3, g_pool4, g_pool5, g_pool6, g_pool7,
    g_pool8, g_pool9, g_pool10, g_pool11, g_pool12, g_pool13, g_pool14, g_pool15,
    g_pool16, g_pool17, g_pool18, g_pool19, g_pool20, g_pool21, g_pool22, g_pool23,
    g_pool24, g_pool25, g_pool26, g_pool27, g_pool28, g_pool29, g_pool30, g_pool31,
    g_pool32, g_pool33, g_pool34, g_pool35, g_pool36, g_pool37, g_pool38, g_pool39,
    g_pool40, g_pool41, g_pool42, g_pool43, g_pool44, g_pool45, g_pool46, g_pool47,
    g_pool48, g_pool49, g_pool50, g_pool51;
static unsigned  g_pools;

#ifndef TS_ENC_ONLY
#define STREAMS  4
static mpegts_muxer_state_t         b_mux;
static mpegts_muxer_stream_state_t  b_streams[STREAMS];
static struct {
    id3_context_t  c;
    id3_track_t    t;
    media_info_t   m;
}                                   b_id3;
static frames_source_memory_state_t b_mem;
BLOCKS(mp4_to_annexb_state_t, b_annexb, STREAMS)
BLOCKS(adts_encoder_state_t, b_adts, STREAMS)
BLOCKS(frame_joiner_t, b_join, STREAMS)
BLOCKS(buffer_filter_t, b_buf, STREAMS)
static struct { u_char b[DEFAULT_PES_PAYLOAD_SIZE]; }  b_data0, b_data1;
static unsigned                     b_data_n;
#endif

static void
vp_release(void)
{
    b_link_n = g_pools = g_temp_n = 0;
#ifndef TS_ENC_ONLY
    b_annexb_n = b_adts_n = b_join_n = b_buf_n = b_data_n = 0;
#endif
}

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    switch (size) {

    case sizeof(g_psi):
        return &g_psi;

    case 188:
        switch (g_temp_n++) {
        case 0: return &g_temp0;
        case 1: return &g_temp1;
        case 2: return &g_temp2;
        case 3: return &g_temp3;
        }
        return NULL;

    case sizeof(buffer_header_t):
        return TAKE(b_link, 52);

#ifndef TS_ENC_ONLY
    case sizeof(b_mux):
        return &b_mux;

    case 1 * sizeof(b_streams[0]):
    case 2 * sizeof(b_streams[0]):
    case 3 * sizeof(b_streams[0]):
    case 4 * sizeof(b_streams[0]):
        return b_streams;

    case sizeof(b_id3):
        return &b_id3;

    case sizeof(b_mem):
        return &b_mem;

    case sizeof(mp4_to_annexb_state_t):
        return TAKE(b_annexb, STREAMS);

    case sizeof(adts_encoder_state_t):
        return TAKE(b_adts, STREAMS);

    case sizeof(frame_joiner_t):
        return TAKE(b_join, STREAMS);

    case sizeof(buffer_filter_t):
        return TAKE(b_buf, STREAMS);

    case DEFAULT_PES_PAYLOAD_SIZE:
        return b_data_n++ == 0 ? (void *) &b_data0 : &b_data1;
#endif
    }

    VP_POST(0);
    return NULL;
}

void *
buffer_pool_alloc(request_context_t *rc, buffer_pool_t *pool, size_t *size)
{
    *size = POOL;
#define P(i)  case i: return &g_pool ## i;
    switch (g_pools++) {
    P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7)
    P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15)
    P(16) P(17) P(18) P(19) P(20) P(21) P(22) P(23)
    P(24) P(25) P(26) P(27) P(28) P(29) P(30) P(31)
    P(32) P(33) P(34) P(35) P(36) P(37) P(38) P(39)
    P(40) P(41) P(42) P(43) P(44) P(45) P(46) P(47)
    P(48) P(49) P(50) P(51)
    }
    return NULL;
}

/* nothing was written past the end of a packet or buffer */
static void
x_pads(void)
{
    unsigned  i;

    for (i = 0; i < PAST; i++) {
        VP_POST(g_temp0.b[188 + i] == 0 && g_temp1.b[188 + i] == 0);
        VP_POST(g_temp2.b[188 + i] == 0 && g_temp3.b[188 + i] == 0);
#define Q(n)  VP_POST(g_pool ## n.b[POOL + i] == 0);
        Q(0) Q(1) Q(2) Q(3) Q(4) Q(5) Q(6) Q(7)
        Q(8) Q(9) Q(10) Q(11) Q(12) Q(13) Q(14) Q(15)
        Q(16) Q(17) Q(18) Q(19) Q(20) Q(21) Q(22) Q(23)
        Q(24) Q(25) Q(26) Q(27) Q(28) Q(29) Q(30) Q(31)
        Q(32) Q(33) Q(34) Q(35) Q(36) Q(37) Q(38) Q(39)
        Q(40) Q(41) Q(42) Q(43) Q(44) Q(45) Q(46) Q(47)
        Q(48) Q(49) Q(50) Q(51)
    }
}
#endif

uint32_t
codec_config_get_audio_frame_size(media_info_t *media_info)
{
    return 1024;
}

/* SAMPLE-AES is checked elsewhere */
vod_status_t
sample_aes_avc_filter_init(media_filter_t *filter, media_filter_context_t *context, u_char *key, u_char *iv)
{
    return VOD_UNEXPECTED;
}

vod_status_t
sample_aes_avc_start_nal_unit(media_filter_context_t *context, int unit_type, uint32_t unit_size)
{
    return VOD_UNEXPECTED;
}

vod_status_t
sample_aes_avc_filter_write_nal_body(media_filter_context_t *context, const u_char *buffer, uint32_t size)
{
    return VOD_UNEXPECTED;
}

vod_status_t
frame_encrypt_filter_init(media_filter_t *filter, media_filter_context_t *context, hls_encryption_params_t *encryption_params)
{
    return VOD_UNEXPECTED;
}

vod_status_t
eac3_encrypt_filter_init(media_filter_t *filter, media_filter_context_t *context)
{
    return VOD_UNEXPECTED;
}

static ngx_log_t          g_nolog;
static request_context_t  g_rc;

/* ---- what is expected of each elementary stream ---- */

#define TRACKS  3
#define FRAMES  12

typedef struct {
    unsigned  size;                     /* of the frame; video: of its first unit */
    unsigned  size2;                    /* video: of the second unit, 0: none */
    unsigned  duration, delay;
    int       key;
} frame_t;

typedef struct {
    int        type;                    /* 'v', 'h': avc, hevc; 'a': aac; 'm': mp3; 'i': id3 */
    unsigned   sid, pid;
    int        pcr;
    unsigned   frames;
    uint64_t   dts;                     /* of the first frame */

    /* what arrived */
    unsigned   frame, pos;              /* the frame that the next byte belongs to */
    unsigned   cc;
    unsigned   pes;                     /* started */
    unsigned   pes_left;
    int        bounded;
    uint64_t   pes_pts, pes_dts;
    int        fresh;                   /* no frame began in the PES so far */
} track_t;

static track_t        g_tr[TRACKS];
static const frame_t *g_fr[TRACKS];
static unsigned       g_trs;
static int            g_bad;            /* the first thing wrong */
static unsigned       g_total;

static const u_char   g_extra[] = { 0, 0, 0, 1, 0x67, 0x42, 0, 0, 0, 1, 0x68, 0xce };
static const u_char   g_aud[] = { 0, 0, 0, 1, 9, 0xf0 };
static const u_char   g_aud_h[] = { 0, 0, 0, 1, 0x46, 1, 0x50 };
static const u_char   g_text[] = "hello world, this is a text that goes into the tag";

/* a byte of unit u of a frame */
static u_char
x_raw(int type, unsigned k, unsigned u, unsigned j)
{
    if (type == 'v' || type == 'h') {
        return j == 0 ? (type == 'v' ? 0x41 : 0x02) : (u_char) (7 * j + 31 * k + 3 * u);
    }

    return (u_char) (11 * j + 17 * k + 5);
}

/* how a frame is carried: its size and bytes */
static unsigned
x_size(int type, unsigned size, unsigned size2, int key)
{
    unsigned  n;

    switch (type) {
    case 'v':
    case 'h':
        n = type == 'v' ? sizeof(g_aud) : sizeof(g_aud_h);
        return n + (key ? sizeof(g_extra) : 0) + 4 + size + (size2 ? 4 + size2 : 0);
    case 'a':
        return size + 7;
    case 'i':
        return size + 21;
    }

    return size;
}

static u_char
x_es(int type, unsigned size, unsigned size2, int key, unsigned k, unsigned at)
{
    unsigned       n, a, b;
    const u_char  *aud;

    switch (type) {
    case 'v':
    case 'h':
        aud = type == 'v' ? g_aud : g_aud_h;
        n = type == 'v' ? sizeof(g_aud) : sizeof(g_aud_h);
        if (at < n) {
            return aud[at];
        }
        at -= n;
        if (key) {
            if (at < sizeof(g_extra)) {
                return g_extra[at];
            }
            at -= sizeof(g_extra);
        }
        if (at < 4) {
            return at == 3;
        }
        at -= 4;
        if (at < size) {
            return x_raw(type, k, 0, at);
        }
        at -= size;
        if (size2) {
            if (at < 3) {
                return at == 2;
            }
            at -= 3;
            if (at < size2) {
                return x_raw(type, k, 1, at);
            }
        }
        return 0;

    case 'a':
        n = size + 7;
        switch (at) {
        case 0: return 0xff;
        case 1: return 0xf1;
        case 2: return 0x50;
        case 3: return 0x80 | n >> 11;
        case 4: return n >> 3;
        case 5: return (n << 5) | 0x1f;
        case 6: return 0xfc;
        }
        return x_raw(type, k, 0, at - 7);

    case 'i':
        a = size + 1;
        b = size + 11;
        switch (at) {
        case 0: return 'I';
        case 1: return 'D';
        case 2: return '3';
        case 3: return 4;
        case 8: return b >> 7;
        case 9: return b & 127;
        case 10: case 13: return 'T';
        case 11: return 'E';
        case 12: return 'X';
        case 16: return a >> 7;
        case 17: return a & 127;
        case 20: return 3;
        }
        return at < 20 ? 0 : g_text[at - 21];
    }

    return x_raw(type, k, 0, at);
}

#define BAD(n, x)  do { if (x) { if (!g_bad) { g_bad = n; } return; } } while (0)

static uint64_t
x_stamp(const u_char *p)
{
    return ((uint64_t) (p[0] >> 1 & 7) << 30) | ((uint64_t) p[1] << 22)
           | ((uint64_t) (p[2] >> 1) << 15) | ((uint64_t) p[3] << 7) | (p[4] >> 1);
}

/* the time a frame is decoded */
static uint64_t
x_dts(unsigned i, unsigned k)
{
    uint64_t  dts = g_tr[i].dts;
    unsigned  j;

    for (j = 0; j < k; j++) {
        dts += g_fr[i][j].duration;
    }

    return dts;
}

#define TS33(x)  ((x) & 0x1ffffffffULL)

static void
x_pes_header(unsigned n, const u_char *p, int has_pcr, uint64_t pcr)
{
    unsigned   len, hlen, k;
    track_t   *t = &g_tr[n];
    int        video = t->type == 'v' || t->type == 'h';

    BAD(2, p[0] != 0 || p[1] != 0 || p[2] != 1 || p[3] != t->sid);
    len = (p[4] << 8) | p[5];
    BAD(3, (p[6] & 0xf0) != 0x80);
    BAD(4, p[7] != (video ? 0xc0 : 0x80));
    hlen = p[8];
    BAD(5, hlen != (video ? 10 : 5));
    BAD(6, p[9] >> 4 != (video ? 3 : 2) || !(p[9] & 1) || !(p[11] & 1) || !(p[13] & 1));
    t->pes_pts = x_stamp(p + 9);
    if (video) {
        BAD(7, p[14] >> 4 != 1 || !(p[14] & 1) || !(p[16] & 1) || !(p[18] & 1));
        t->pes_dts = x_stamp(p + 14);
    }

    t->bounded = len != 0;
    BAD(8, !t->bounded && !video);
    if (t->bounded) {
        BAD(9, len < 3 + hlen);
        t->pes_left = len - 3 - hlen;
    }

    t->fresh = 1;
    k = t->frame + (t->pos != 0);       /* the frame to begin */
    /* aligned: the first byte of the PES begins a frame */
    BAD(10, (p[6] & 4) && t->pos != 0);
    BAD(11, has_pcr != t->pcr);
    if (has_pcr && video) {
        BAD(12, k < t->frames && pcr != TS33(x_dts(n, k) + 4590));
    } else if (has_pcr) {
        /* audio: frames that begin in the packet may precede the one whose start wrote the header */
        for (; k < t->frames; k++) {
            if (pcr == TS33(x_dts(n, k) + 4590)) {
                has_pcr = 0;
            }
        }
        BAD(13, has_pcr);
    }
}

static void
x_payload(unsigned n, const u_char *p, unsigned at)
{
    track_t        *t = &g_tr[n];
    int             type = t->type;
    unsigned        k = t->frame, pos = t->pos, frames = t->frames, left = t->pes_left;
    const frame_t  *f = g_fr[n];
    unsigned        total = 0, size = 0, size2 = 0;
    int             key = 0, bounded = t->bounded;

    if (k < frames) {
        size = f[k].size;
        size2 = f[k].size2;
        key = f[k].key;
        total = x_size(type, size, size2, key);
    }

    for (; at < 188; at++) {

        BAD(20, k == frames);
        BAD(21, p[at] != x_es(type, size, size2, key, k, pos));

        if (pos == 0) {
            if (t->fresh) {
                BAD(22, t->pes_pts != TS33(x_dts(n, k) + f[k].delay + 9090));
                BAD(24, (type == 'v' || type == 'h') && t->pes_dts != TS33(x_dts(n, k) + 9090));
                t->fresh = 0;
            } else {
                /* a video PES holds one frame */
                BAD(25, type == 'v' || type == 'h');
            }
        }

        if (bounded) {
            BAD(26, left == 0);
            left--;
        }

        if (++pos == total) {
            pos = 0;
            if (++k < frames) {
                size = f[k].size;
                size2 = f[k].size2;
                key = f[k].key;
                total = x_size(type, size, size2, key);
            }
        }
    }

    t->frame = k;
    t->pos = pos;
    t->pes_left = left;
}

static void
x_packet(const u_char *p)
{
    unsigned   pid, i, n, at, af, flags;
    uint64_t   pcr;
    int        has_pcr;
    u_char     b1 = p[1], b3 = p[3];

    BAD(30, p[0] != 0x47 || (b1 & 0xa0) || (b3 & 0xc0));
    pid = ((b1 & 0x1f) << 8) | p[2];

    for (n = 0; n < g_trs && g_tr[n].pid != pid; n++);
    BAD(31, n == g_trs);

    BAD(32, (b3 & 0x0f) != (g_tr[n].cc & 0x0f));
    g_tr[n].cc++;

    BAD(33, !(b3 & 0x10));
    at = 4;
    has_pcr = 0;
    pcr = 0;

    if (b3 & 0x20) {
        af = p[4];
        BAD(34, af > 183);
        at = 5 + af;
        i = 5;
        if (af > 0) {
            flags = p[5];
            BAD(35, flags & ~0x50);
            i = 6;
            if (flags & 0x10) {
                BAD(36, af < 7);
                has_pcr = 1;
                pcr = ((uint64_t) p[6] << 25) | (p[7] << 17) | (p[8] << 9) | (p[9] << 1) | (p[10] >> 7);
                BAD(37, (p[10] & 0x7e) != 0x7e || (p[10] & 1) || p[11]);
                i = 12;
            }
        }
        for (; i < at; i++) {
            BAD(38, p[i] != 0xff);
        }
    }

    if (b1 & 0x40) {
        BAD(1, g_tr[n].pes && g_tr[n].bounded && g_tr[n].pes_left);
        i = g_tr[n].type == 'v' || g_tr[n].type == 'h' ? 19 : 14;
        BAD(39, at + i > 188);
        x_pes_header(n, p + at, has_pcr, pcr);
        if (g_bad) {
            return;
        }
        at += i;
        g_tr[n].pes++;

    } else {
        BAD(40, has_pcr);
        BAD(41, at < 188 && g_tr[n].pes == 0);
    }

    if (at < 188) {
        x_payload(n, p, at);
    }
}

static vod_status_t
vp_out(void *ctx, u_char *p, uint32_t n)
{
    uint32_t  i;

    g_total += n;
    if (n % 188 && !g_bad) {
        g_bad = 97;
    }

    for (i = 0; i + 188 <= n; i += 188) {
        if (!g_bad) {
            x_packet(p + i);
        }
    }

    /* what was handed over must not be written to any more */
    for (i = 0; i < n; i++) {
        if (i % 188 < 4 || i % 188 > 16) {
            p[i] = 0xee;
        }
    }

    return VOD_OK;
}

static void
x_end(void)
{
    unsigned  i;

    VP_POST(g_bad == 0);
    x_pads();
    for (i = 0; i < g_trs; i++) {
        VP_POST(!g_tr[i].bounded || g_tr[i].pes_left == 0);
        VP_POST(g_tr[i].frame == g_tr[i].frames && g_tr[i].pos == 0);
        /* the next segment starts over */
        VP_POST(g_tr[i].type == 'i' || (g_tr[i].cc & 15) == 0);
    }
}

/* ---- segments ---- */

#ifndef TS_ENC_ONLY

typedef struct {
    unsigned       track;
    unsigned       frame;
    unsigned       pos, left;
    unsigned       step;
    int            again;
    int            stall;
} source_t;

static media_info_t           g_mi[TRACKS];
static media_segment_track_t  g_mt[TRACKS];
static input_frame_t          g_if[TRACKS][FRAMES];
static vod_list_part_t        g_part2[TRACKS];
static media_segment_t        g_seg;
static source_t               g_source[TRACKS];
static u_char                 g_chunk[CHUNK];

static vod_status_t
src_start(void *ctx, input_frame_t *frame)
{
    source_t  *s = ctx;

    s->frame++;
    s->pos = 0;
    s->left = frame->size;
    s->stall = s->again;
    return VOD_OK;
}

static u_char
src_byte(int type, unsigned size, unsigned size2, unsigned k, unsigned at)
{
    if (type == 'v' || type == 'h') {
        if (at < 4) {
            return size >> 8 * (3 - at);
        }
        at -= 4;
        if (at < size) {
            return x_raw(type, k, 0, at);
        }
        at -= size;
        if (at < 4) {
            return size2 >> 8 * (3 - at);
        }
        return x_raw(type, k, 1, at - 4);
    }

    return x_raw(type, k, 0, at);
}

static vod_status_t
src_read(void *ctx, u_char **buffer, uint32_t *size, bool_t *done)
{
    source_t       *s = ctx;
    unsigned        i, n, k, pos, size1, size2;
    int             type;
    const frame_t  *f;

    if (s->stall) {
        s->stall = 0;
        return VOD_AGAIN;
    }

    s->stall = s->again;
    n = s->left < s->step ? s->left : s->step;
    k = s->frame - 1;
    pos = s->pos;
    type = g_tr[s->track].type;
    f = &g_fr[s->track][k];
    size1 = f->size;
    size2 = f->size2;
    for (i = 0; i < n; i++) {
        g_chunk[i] = src_byte(type, size1, size2, k, pos + i);
    }

    *buffer = g_chunk;
    *size = n;
    s->pos += n;
    s->left -= n;
    *done = s->left == 0;
    return VOD_OK;
}

static frames_source_t  g_src = { src_start, src_read };

static unsigned  g_video_n, g_audio_n, g_pid;

static void
seg_start(unsigned index)
{
    g_nolog.log_level = 0;
    g_rc.log = &g_nolog;
    g_rc.pool = NULL;
    g_rc.output_buffer_pool = NULL;
    g_rc.simulation_only = 0;
    vp_release();
    g_trs = 0;
    g_bad = 0;
    g_total = 0;
    g_video_n = g_audio_n = 0;
    g_pid = 0x100;
    g_seg.segment_index = index;
    g_seg.tracks = g_mt;
    g_seg.tracks_end = g_mt;
    g_seg.track_count = 0;
    g_seg.metadata.len = 0;
}

static track_t *
seg_expect(int type, uint64_t dts, const frame_t *f, unsigned n)
{
    track_t  *t = &g_tr[g_trs];
    int       video = type == 'v' || type == 'h';

    t->type = type;
    if (type == 'i' && g_pid < 0x102) {
        g_pid = 0x102;
    } else if (!video && g_pid < 0x101) {
        g_pid = 0x101;
    }
    t->pid = g_pid++;
    t->pcr = g_trs == 0;
    t->sid = video ? 0xe0 + g_video_n++ : type == 'i' ? 0xbd : 0xc0 + g_audio_n++;
    t->frames = n;
    t->dts = dts;
    t->frame = t->pos = t->cc = t->pes = t->pes_left = 0;
    t->bounded = t->fresh = 0;
    g_fr[g_trs] = f;
    return t;
}

/* the second list part, if any, begins with frame `cut' */
static void
seg_track(int type, uint64_t dts, const frame_t *f, unsigned n, unsigned cut, unsigned step, int again)
{
    unsigned       i = g_trs, k;
    track_t       *t = seg_expect(type, dts, f, n);
    media_info_t  *m = &g_mi[i];
    int            video = type == 'v' || type == 'h';

    m->media_type = video ? MEDIA_TYPE_VIDEO : MEDIA_TYPE_AUDIO;
    m->codec_id = type == 'v' ? VOD_CODEC_ID_AVC : type == 'h' ? VOD_CODEC_ID_HEVC
                  : type == 'a' ? VOD_CODEC_ID_AAC : VOD_CODEC_ID_MP3;
    m->parsed_extra_data.data = (u_char *) g_extra;
    m->parsed_extra_data.len = sizeof(g_extra);
    if (video) {
        m->u.video.nal_packet_size_length = 4;
    } else {
        m->u.audio.codec_config.object_type = 2;
        m->u.audio.codec_config.sample_rate_index = 4;
        m->u.audio.codec_config.channel_config = 2;
    }

    for (k = 0; k < n; k++) {
        g_if[i][k].size = video ? 4 + f[k].size + (f[k].size2 ? 4 + f[k].size2 : 0) : f[k].size;
        g_if[i][k].key_frame = f[k].key;
        g_if[i][k].duration = f[k].duration;
        g_if[i][k].pts_delay = f[k].delay;
    }

    g_source[i].track = i;
    g_source[i].frame = 0;
    g_source[i].step = step;
    g_source[i].again = again;
    g_source[i].stall = 0;
    g_mt[i].media_info = m;
    g_mt[i].enc = NULL;
    g_mt[i].frames.part.elts = g_if[i];
    g_mt[i].frames.part.nelts = cut ? cut : n;
    g_mt[i].frames.part.next = NULL;
    if (cut) {
        g_mt[i].frames.part.next = &g_part2[i];
        g_part2[i].elts = g_if[i] + cut;
        g_part2[i].nelts = n - cut;
        g_part2[i].next = NULL;
    }
    g_mt[i].frame_count = n;
    g_mt[i].start_dts = t->dts;
    g_mt[i].frames_source = &g_src;
    g_mt[i].frames_source_context = &g_source[i];
    g_seg.tracks_end++;
    g_seg.track_count++;
    g_trs++;
}

static frame_t  g_tag;

static void
seg_id3(unsigned n)
{
    track_t  *t;

    g_seg.metadata.data = (u_char *) g_text;
    g_seg.metadata.len = n;
    g_tag.size = n;
    g_tag.delay = 0;
    t = seg_expect('i', g_mt[0].start_dts, &g_tag, 1);
    t->cc = g_seg.segment_index & 15;
    g_trs++;
}

static void
seg_run(int interleave, int align, int reuse)
{
    mpegts_muxer_conf_t      conf;
    hls_encryption_params_t  enc;
    mpegts_muxer_state_t    *s;
    size_t                   size = 0;
    vod_str_t                header;
    vod_status_t             rc;
    unsigned                 i;

    conf.interleave_frames = interleave;
    conf.align_frames = align;
    enc.type = HLS_ENC_NONE;

    VP_POST(g_bad == 0);
    rc = mpegts_muxer_init_segment(&g_rc, &conf, &enc, &g_seg, vp_out, NULL, reuse, &size, &header, &s);
    VP_POST(rc == VOD_OK && s != NULL);
    if (rc != VOD_OK || s == NULL) {
        return;
    }

    for (i = 0; i < 2000; i++) {
        rc = mpegts_muxer_process(s);
        if (rc != VOD_AGAIN) {
            break;
        }
    }

    VP_POST(rc == VOD_OK);
    x_end();
    /* the length announced is the length sent */
    VP_POST(header.len == 376);
    VP_POST(size == g_total + 376);
}

#endif


/* ---- cases ---- */

#ifndef DTS
#define DTS  0x1fffff000ULL              /* wraps around */
#endif

#ifdef U_MUX

static const frame_t  f_video[2][12] = {

/* every frame in packets of its own: full, 1, 2 and nearly all bytes of stuffing */
    { { 129, 0, 3000, 3000, 1 }, { 146, 0, 3000, 0, 0 }, { 145, 0, 6000, 6000, 0 }, { 1, 0, 1, 0, 0 },
      { 148, 0, 3000, 0, 0 }, { 100, 227, 3000, 0, 0 }, { 330, 0, 3000, 0, 0 }, { 329, 0, 3000, 0, 0 },
      { 20, 30, 3000, 90000, 1 }, { 509, 0, 3000, 0, 0 } },

/* frames that end at all distances from the end of the packet */
    { { 147, 0, 3000, 3000, 0 }, { 148, 0, 3000, 0, 0 }, { 302, 0, 6000, 6000, 0 }, { 148, 0, 1, 0, 0 },
      { 148, 0, 3000, 0, 0 }, { 172, 0, 3000, 0, 0 }, { 64, 0, 3000, 0, 0 }, { 31, 0, 3000, 0, 1 },
      { 80, 200, 3000, 0, 0 }, { 8, 0, 3000, 0, 0 }, { 330, 0, 3000, 0, 0 }, { 147, 0, 3000, 0, 0 } }
};

static const unsigned  f_video_n[2] = { 10, 12 };

static const frame_t  f_audio[4][12] = {
    /* without a header */
    { { 162, 0, 63000 }, { 163, 0, 64000 }, { 322, 0, 64000 }, { 163, 0, 64000 }, { 163, 0, 64000 }, { 182, 0, 2090 },
      { 79, 0, 64000 }, { 64, 0, 64000 }, { 329, 0, 64000 }, { 177, 0, 64000 }, { 345, 0, 2090 }, { 162, 0, 64000 } },
    { { 170, 0, 63000 }, { 171, 0, 64000 }, { 338, 0, 64000 }, { 171, 0, 64000 }, { 171, 0, 2090 }, { 182, 0, 64000 },
      { 87, 0, 64000 }, { 72, 0, 64000 }, { 348, 0, 64000 }, { 174, 0, 2090 }, { 353, 0, 64000 }, { 170, 0, 64000 } },
    /* with an ADTS header */
    { { 155, 0, 63000 }, { 156, 0, 64000 }, { 315, 0, 64000 }, { 156, 0, 2090 }, { 156, 0, 64000 }, { 175, 0, 64000 },
      { 72, 0, 64000 }, { 57, 0, 64000 }, { 322, 0, 2090 }, { 170, 0, 64000 }, { 338, 0, 64000 }, { 155, 0, 64000 } },
    { { 163, 0, 63000 }, { 164, 0, 64000 }, { 331, 0, 2090 }, { 164, 0, 64000 }, { 164, 0, 64000 }, { 175, 0, 64000 },
      { 80, 0, 64000 }, { 65, 0, 2090 }, { 341, 0, 64000 }, { 167, 0, 64000 }, { 346, 0, 64000 }, { 163, 0, 64000 } }
};

/* short ones: many per PES */
static const frame_t  f_short[12] = {
    { 30, 0, 2089 }, { 1, 0, 2090 }, { 60, 0, 2090 }, { 62, 0, 2090 }, { 100, 0, 2090 }, { 25, 0, 2090 },
    { 90, 0, 2090 }, { 7, 0, 2090 }, { 5, 0, 2090 }, { 110, 0, 2090 }, { 61, 0, 2090 }, { 44, 0, 2090 } };

#ifdef U_VIDEO
void
h_mux(void)
{
    VP_LOAD_INPUT();
    seg_start(5);

    seg_track(KIND, DTS, f_video[SIZES], f_video_n[SIZES], 4, STEP, AGAIN);
    seg_run(IL, AL, REUSE);
    VP_COVER(1);
}
#endif

#ifdef U_AUDIO
void
h_mux(void)
{
    VP_LOAD_INPUT();
    seg_start(0);
#if VIDEO
    seg_track('v', 90000, f_video[SIZES & 1], 3, 0, 190, 0);
#endif
    seg_track(KIND, VIDEO ? 91000 : DTS, SIZES == 4 ? f_short : f_audio[SIZES], 12, 7, STEP, AGAIN);
#if ID3
    seg_id3(ID3);
#endif
    seg_run(IL, AL, REUSE);
    VP_COVER(1);
}
#endif

#ifdef U_TWO
/* two audio tracks, and with VIDEO the second takes turns with it */
void
h_mux(void)
{
    VP_LOAD_INPUT();
    seg_start(15);
#if VIDEO
    seg_track('v', 90000, f_video[1] + 4, 4, 0, 190, 0);
#endif
    seg_track('m', 90001, f_short, 6, 0, 190, 0);
    seg_track('a', 90500, f_short + 6, 6, 0, 190, 0);
    seg_run(IL, AL, REUSE);
    VP_COVER(1);
}
#endif

#endif
