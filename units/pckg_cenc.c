/*
 * Common encryption of fMP4 segments: 'cenc' (counter mode, subsamples) and
 * 'cbcs' (CBC, pattern), against ISO 23001-7.  The callees (write buffer,
 * counter mode, slice parser) stand at the level of their contracts, which
 * have units of their own; the segment arrives cut at every position.
 */

#include "vp.h"
#include "nginx-pckg-module/src/media/common.h"

#define PCKG_OUT  700
#define PCKG_BUF  16
#define VP_OWN_PALLOC
#include "pckg_enc.h"

#include "nginx-pckg-module/src/media/dynamic_buffer.c"
#ifdef U_CBCS
#include "nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c"
#else
#include "nginx-pckg-module/src/media/mp4/mp4_cenc_encrypt.c"
#endif
#include "vp_stubs.h"

VP_DECLARE_INPUT(struct {
    u_char      iv[16];
    u_char      key[16];
    u_char      d[64];
})

ngx_pool_cleanup_t *
ngx_pool_cleanup_add(ngx_pool_t *p, size_t size)
{
    static ngx_pool_cleanup_t  cln;

    return &cln;
}


/* the write buffer: one long piece; a reservation is used as reserved */
static u_char   *g_guard;
static unsigned  g_flushes;
static u_char    g_obuf[PCKG_OUT + 64];

static void
guard_check(void)
{
    if (g_guard != NULL) {
        VP_POST(*g_guard == 0x77);
        g_guard = NULL;
    }
}

void
write_buffer_init(write_buffer_state_t *state, request_context_t *rc,
    write_callback_t cb, void *ctx, bool_t reuse)
{
    VP_POST(!reuse);
    state->start_pos = state->cur_pos = g_obuf;
    state->end_pos = g_obuf + PCKG_OUT;
    g_guard = NULL;
    g_flushes = 0;
}

vod_status_t
write_buffer_flush(write_buffer_state_t *state, bool_t reallocate)
{
    guard_check();
    VP_POST(!reallocate);
    g_flushes++;
    return VOD_OK;
}

vod_status_t
write_buffer_get_bytes(write_buffer_state_t *state, size_t min_size,
    size_t *size, u_char **buffer)
{
    guard_check();
    *buffer = state->cur_pos;
    g_guard = state->cur_pos + min_size;
    *g_guard = 0x77;

    if (size != NULL) {
        *size = min_size;

    } else {
        state->cur_pos += min_size;
    }

    return VOD_OK;
}

vod_status_t
write_buffer_write(write_buffer_state_t *state, const u_char *p, size_t n)
{
    size_t  i;

    guard_check();
    for (i = 0; i < n; i++) {
        *state->cur_pos++ = p[i];
    }

    return VOD_OK;
}


/* the segment */
#define SMAX  (PCKG_OUT - 60)
static u_char                 g_src[SMAX + 32];
static u_char                 g_exp[SMAX + 32];
static unsigned               g_len;
static input_frame_t          g_frames[8];
static unsigned               g_frame_n;
static vod_list_part_t        g_part2;
static media_info_t           g_info;
static media_enc_t            g_enc;
static media_segment_track_t  g_track;
static media_segment_t        g_segment;
static segment_writer_t       g_writer;

static u_char
payload(void)
{
    return in.d[(g_len * 7) % 64];
}

static u_char
nal_len_byte(unsigned size, unsigned lsize, unsigned i)
{
    return (size >> (8 * (lsize - 1 - i))) & 0xff;
}

/* the frames, in two parts */
static void
segment(unsigned first)
{
    unsigned  i;

    if (first > g_frame_n) {
        first = g_frame_n;
    }

    g_track.frames.part.elts = g_frames;
    g_track.frames.part.nelts = first;
    g_track.frames.part.next = g_frame_n > first ? &g_part2 : NULL;
    g_part2.elts = g_frames + first;
    g_part2.nelts = g_frame_n - first;
    g_part2.next = NULL;
    g_track.frame_count = g_frame_n;
    g_track.media_info = &g_info;
    g_track.enc = &g_enc;
    g_segment.tracks = &g_track;
    g_segment.tracks_end = &g_track + 1;
    g_segment.track_count = 1;

    for (i = 0; i < 16; i++) {
        g_key[i] = in.key[i];
        g_enc.key[i] = in.key[i];
#ifdef U_CBCS
        g_enc.iv[i] = in.iv[i];
#endif
    }
}


#ifndef U_CBCS

/* counter mode: the key stream depends on the iv and the position */
static u_char    g_ctr_iv[8];
static unsigned  g_ctr_pos;

static u_char
ks(const u_char *iv, unsigned i)
{
    return iv[i % 8] ^ (u_char) (i * 3 + 1);
}

vod_status_t
mp4_aes_ctr_init(mp4_aes_ctr_state_t *state, request_context_t *rc, u_char *key)
{
    VP_POST(key == g_enc.key);
    return VOD_OK;
}

void
mp4_aes_ctr_set_iv(mp4_aes_ctr_state_t *state, u_char *iv)
{
    unsigned  i;

    for (i = 0; i < 8; i++) {
        g_ctr_iv[i] = iv[i];
    }

    g_ctr_pos = 0;
}

static uint64_t
be64(const u_char *p)
{
    return ((uint64_t) p[0] << 56) | ((uint64_t) p[1] << 48)
           | ((uint64_t) p[2] << 40) | ((uint64_t) p[3] << 32)
           | ((uint64_t) p[4] << 24) | ((uint64_t) p[5] << 16)
           | ((uint64_t) p[6] << 8) | p[7];
}

static void
put64(u_char *p, uint64_t v)
{
    unsigned  i;

    for (i = 0; i < 8; i++) {
        p[i] = v >> (56 - 8 * i);
    }
}

void
mp4_aes_ctr_increment_be64(u_char *counter)
{
    put64(counter, be64(counter) + 1);
}

vod_status_t
mp4_aes_ctr_write_encrypted(mp4_aes_ctr_state_t *state,
    write_buffer_state_t *wb, u_char *p, uint32_t n)
{
    uint32_t  i;

    guard_check();
    for (i = 0; i < n; i++) {
        *wb->cur_pos++ = p[i] ^ ks(g_ctr_iv, g_ctr_pos);
        g_ctr_pos++;
    }

    return VOD_OK;
}

static mp4_cenc_encrypt_video_state_t  g_state;
static u_char                          g_slot0[200], g_slot1[200], g_slot2[200], g_slot3[200];
static u_char                         *g_slots[4] = { g_slot0, g_slot1, g_slot2, g_slot3 };
static unsigned                        g_slot;
static size_t                          g_slot_size[4];

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    unsigned  k;

    if (size == sizeof(g_state) || size == sizeof(g_state.base)) {
        return &g_state;
    }

    VP_POST(g_slot < 4 && size < 200);
    k = g_slot++;
    g_slot_size[k] = size;
    g_slots[k][size] = 0x55;
    return g_slots[k];
}

/* nothing is written behind an allocation */
static void
slots_check(void)
{
    unsigned  i;

    for (i = 0; i < g_slot; i++) {
        VP_POST(g_slots[i][g_slot_size[i]] == 0x55);
    }
}


/* expected description */
static uint64_t  g_iv0;
static unsigned  g_subs[8];             /* per frame: number of subsamples */
static unsigned  g_clear[8][8];
static unsigned  g_encr[8][8];

static u_char    x_iv8[8];
static unsigned  x_pos;

static unsigned  g_heads, g_built;
static u_char    g_header[4];

static vod_status_t
vp_build_header(mp4_cenc_encrypt_video_state_t *state, vod_str_t *header,
    size_t *total)
{
    /* the description is complete by now */
    g_built++;
    header->data = g_header;
    header->len = 4;
    return VOD_OK;
}

static vod_status_t
vp_write_head(void *context, u_char *p, uint32_t n)
{
    VP_POST(g_built == 1 && p == g_header && n == 4 && g_flushes == 1);
    g_heads++;
    return VOD_OK;
}

static vod_status_t
vp_write_tail(void *context, u_char *p, uint32_t n)
{
    return VOD_OK;
}

static void
cenc_begin(uint32_t codec, unsigned lsize)
{
    unsigned  i;

    vp_enc_reset();
    g_slot = 0;

    g_info.codec_id = codec;
    g_info.timescale = 1000;
    g_info.u.video.nal_packet_size_length = lsize;
    g_track.start_dts = 123450;

    for (i = 0; i < 16; i++) {
#ifdef U_CONC
        g_enc.iv[i] = i == 0 ? 0x12 : i < 6 ? 0xff : 0xe2;
#else
        g_enc.iv[i] = in.iv[i];
#endif
    }

    g_iv0 = be64(g_enc.iv) + 123450 * 60 / 1000;

    g_len = 0;
    g_frame_n = 0;
    g_built = 0;
    g_heads = 0;
}

static void
x_frame(void)
{
    put64(x_iv8, g_iv0 + g_frame_n);
    x_pos = 0;
    g_frames[g_frame_n].size = 0;
    g_subs[g_frame_n] = 0;
    g_frame_n++;
}

static void
x_byte(u_char c, int encrypted)
{
    g_src[g_len] = c;
    g_exp[g_len] = encrypted ? c ^ ks(x_iv8, x_pos++) : c;
    g_len++;
    g_frames[g_frame_n - 1].size++;
}

/* a nal unit of size bytes (type included) in the current frame */
static void
x_nal(unsigned lsize, u_char type, unsigned size, int encrypted)
{
    unsigned  i, f, s;

    for (i = 0; i < lsize; i++) {
        x_byte(nal_len_byte(size, lsize, i), 0);
    }

    x_byte(type, 0);

    for (i = 1; i < size; i++) {
        x_byte(payload(), encrypted);
    }

    f = g_frame_n - 1;
    s = g_subs[f]++;
    g_clear[f][s] = encrypted ? lsize + 1 : lsize + size;
    g_encr[f][s] = encrypted ? size - 1 : 0;
}

static void
x_output(void)
{
    unsigned  i;

    VP_POST(g_state.base.write_buffer.cur_pos == g_obuf + g_len);
    for (i = 0; i < g_len; i++) {
        VP_POST(g_obuf[i] == g_exp[i]);
    }
}

/* auxiliary data and sample sizes */
static void
x_aux(int sizes)
{
    u_char    *p = g_state.auxiliary_data.start;
    unsigned   f, s, same;

    for (f = 0; f < g_frame_n; f++) {
        VP_POST(be64(p) == g_iv0 + f);
        p += 8;
        VP_POST(p[0] * 256 + p[1] == g_subs[f]);
        p += 2;
        for (s = 0; s < g_subs[f]; s++) {
            VP_POST(p[0] * 256 + p[1] == g_clear[f][s]);
            VP_POST(((p[2] * 256 + p[3]) * 256 + p[4]) * 256 + p[5] == g_encr[f][s]);
            p += 6;
        }
    }

    VP_POST(g_state.auxiliary_data.pos == p);
    VP_POST(g_state.saiz_sample_count == g_frame_n);

    same = 1;
    for (f = 0; f < g_frame_n; f++) {
        if (g_subs[f] != g_subs[0]) {
            same = 0;
        }

        if (sizes) {
            VP_POST(g_state.auxiliary_sample_sizes[f] == 10 + 6 * g_subs[f]);
        }
    }

    if (sizes) {
        VP_POST(g_state.default_auxiliary_sample_size == (same ? 10 + 6 * g_subs[0] : 0));
        VP_POST(g_state.base.saiz_atom_size == 17 + (same ? 0 : g_frame_n));

    } else {
        VP_POST(g_state.default_auxiliary_sample_size == 16);
        VP_POST(g_state.base.saiz_atom_size == 17);
    }

    VP_POST(g_state.base.saio_atom_size == 20);
}

static vod_status_t
x_open(unsigned first, bool_t single)
{
    vod_str_t     header;
    size_t        total;
    vod_status_t  rc;

    segment(first);

    g_writer.write_tail = vp_write_tail;
    g_writer.write_head = vp_write_head;
    g_writer.context = NULL;

    rc = mp4_cenc_encrypt_video_get_fragment_writer(&g_writer, &g_rc, &g_segment,
             single, vp_build_header, NULL, &header, &total);
    g_state.base.segment_writer.write_head = vp_write_head;
    return rc;
}

/* the segment arrives in pieces: first, then step bytes at a time */
static vod_status_t
x_feed(unsigned first, unsigned step)
{
    unsigned      at, n;
    vod_status_t  rc;

    for (at = 0; at < g_len; at += n) {
        n = at == 0 ? first : step;
        if (n > g_len - at) {
            n = g_len - at;
        }

        if (n == 0) {
            n = step < g_len - at ? step : g_len - at;
        }

        rc = g_writer.write_tail(g_writer.context, g_src + at, n);
        if (rc != VOD_OK) {
            return rc;
        }
    }

    return VOD_OK;
}

static void
x_saiz(void)
{
    u_char    b[64], *p;
    unsigned  i, same;

    same = g_state.default_auxiliary_sample_size != 0;
    p = mp4_cenc_encrypt_video_write_saiz_saio(&g_state, b, 0x1234567);
    VP_POST(p - b == (long) (g_state.base.saiz_atom_size + 20));
    VP_POST(b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 17 + (same ? 0 : g_frame_n));
    VP_POST(b[4] == 's' && b[5] == 'a' && b[6] == 'i' && b[7] == 'z');
    VP_POST(b[8] == 0 && b[9] == 0 && b[10] == 0 && b[11] == 0);
    VP_POST(b[12] == g_state.default_auxiliary_sample_size);
    VP_POST(b[13] == 0 && b[14] == 0 && b[15] == 0 && b[16] == g_frame_n);
    p = b + 17;
    if (!same) {
        for (i = 0; i < g_frame_n; i++) {
            VP_POST(*p == 10 + 6 * g_subs[i]);
            p++;
        }
    }
    VP_POST(p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 20);
    VP_POST(p[4] == 's' && p[5] == 'a' && p[6] == 'i' && p[7] == 'o');
    VP_POST(p[8] == 0 && p[9] == 0 && p[10] == 0 && p[11] == 0);
    VP_POST(p[12] == 0 && p[13] == 0 && p[14] == 0 && p[15] == 1);
    VP_POST(p[16] == 0x01 && p[17] == 0x23 && p[18] == 0x45 && p[19] == 0x67);
}


#if defined U_VIDEO || defined U_VIDEO_CUT
static void
avc_segment(unsigned shape, unsigned lsize)
{
    cenc_begin(VOD_CODEC_ID_AVC, lsize);

    switch (shape) {

    case 0:                             /* several nal units per frame, of all kinds */
        x_frame();
        x_nal(lsize, 0x67, 4, 0);
        x_nal(lsize, 0x68, 1, 0);
        x_nal(lsize, 0x65, 7, 1);
        x_frame();
        x_nal(lsize, 0x41, 1, 1);
        x_nal(lsize, 0x01, 5, 1);
        x_frame();
        x_nal(lsize, 0x06, 3, 0);
        x_nal(lsize, 0x0a, 1, 0);
        break;

    case 1:                             /* the same number of subsamples */
        x_frame();
        x_nal(lsize, 0x65, 6, 1);
        x_frame();
        x_nal(lsize, 0x62, 2, 1);
        x_frame();
        x_nal(lsize, 0x09, 2, 0);
        break;

    case 2:                             /* empty frames */
        x_frame();
        x_frame();
        x_nal(lsize, 0x64, 3, 1);
        x_nal(lsize, 0x63, 3, 1);
        x_frame();
        x_frame();
        x_nal(lsize, 0x60, 3, 0);
        break;

    case 3:                             /* a unit of more than 255 bytes */
        x_frame();
        x_nal(lsize, 0x65, 260, 1);
        x_nal(lsize, 0x66, 300, 0);
        break;

    case 4:
        x_frame();
        x_nal(lsize, 0x41, 4, 1);
        x_nal(lsize, 0x41, 3, 1);
        x_nal(lsize, 0x41, 2, 1);
        x_nal(lsize, 0x6d, 2, 0);
        x_nal(lsize, 0x7f, 2, 0);
        x_nal(lsize, 0x45, 2, 1);
        break;
    }
}

static void
hevc_segment(unsigned lsize)
{
    cenc_begin(VOD_CODEC_ID_HEVC, lsize);
    x_frame();
    x_nal(lsize, 32 << 1, 3, 0);
    x_nal(lsize, 35 << 1, 2, 0);
    x_nal(lsize, 19 << 1, 5, 1);
    x_nal(lsize, (39 << 1) | 1, 5, 0);
    x_frame();
    x_nal(lsize, 1 << 1, 5, 1);
    x_frame();
    x_nal(lsize, 31 << 1, 2, 1);
    x_nal(lsize, 0, 2, 1);
}

static void
x_video(unsigned part, unsigned first, unsigned step)
{
    VP_POST(x_open(part, FALSE) == VOD_OK);
    VP_POST(g_built == 0 && g_writer.write_head == NULL);
    VP_POST(x_feed(first, step) == VOD_OK);
    VP_POST(g_flushes == 1 && g_built == 1 && g_heads == 1);
    x_output();
    x_aux(1);
    x_saiz();
    slots_check();
}

void
h_video(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
#ifdef U_VIDEO
    avc_segment(0, 4);
    x_video(2, 1000, 1000);
    avc_segment(0, 4);
    x_video(1, 1, 1);
    avc_segment(1, 4);
    x_video(8, 3, 4);
    avc_segment(1, 1);
    x_video(2, 1, 1);
    avc_segment(2, 3);
    x_video(1, 5, 2);
    avc_segment(2, 4);
    x_video(3, 1000, 1000);
    avc_segment(3, 2);
    x_video(1, 100, 300);
    avc_segment(3, 4);
    x_video(1, 7, 1000);
    avc_segment(4, 2);
    x_video(1, 5, 3);
    hevc_segment(4);
    x_video(2, 1000, 1000);
    hevc_segment(3);
    x_video(2, 6, 1);
#else
    for (i = 1; i < 26; i++) {
        avc_segment(0, 4);
        x_video(2, i, 1000);
    }
#endif
    VP_COVER(1);
}
#endif


#ifdef U_REFUSE
/* what does not fit is refused */
static void
refused(unsigned cut)
{
    VP_POST(x_open(1, FALSE) == VOD_OK);
    VP_POST(x_feed(cut, 1000) == VOD_BAD_DATA);
    VP_POST(g_heads == 0);
}

void
h_refuse(void)
{
    VP_LOAD_INPUT();

    /* a unit larger than its frame */
    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_frames[0].size--;
    refused(1000);
    refused(3);

    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_src[0] = 0xff;
    refused(1000);

    /* an empty unit */
    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_src[3] = 0;
    refused(1000);
    refused(4);

    /* no room for another unit in the frame */
    cenc_begin(VOD_CODEC_ID_AVC, 2);
    x_frame();
    x_nal(2, 0x65, 7, 1);
    g_frames[0].size += 2;
    refused(1000);

    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_frames[0].size = 4;
    refused(1000);

    /* more than the frames */
    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_len++;
    VP_POST(x_open(1, FALSE) == VOD_OK);
    VP_POST(x_feed(1000, 1000) == VOD_BAD_DATA);

    /* the length size, the codec */
    cenc_begin(VOD_CODEC_ID_AVC, 5);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    VP_POST(x_open(1, FALSE) == VOD_BAD_DATA);

    cenc_begin(VOD_CODEC_ID_AVC, 0);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    VP_POST(x_open(1, FALSE) == VOD_BAD_DATA);

    cenc_begin(VOD_CODEC_ID_AV1, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    VP_POST(x_open(1, FALSE) == VOD_BAD_REQUEST);

    /* no frames: the header is built at once */
    cenc_begin(VOD_CODEC_ID_AVC, 4);
    VP_POST(x_open(0, FALSE) == VOD_OK);
    VP_POST(g_built == 1 && g_state.saiz_sample_count == 0 && g_state.auxiliary_data.pos == g_state.auxiliary_data.start);
    VP_COVER(1);
}
#endif


#ifdef U_SNPF
static void
snpf_segment(unsigned lsize, int empty)
{
    cenc_begin(VOD_CODEC_ID_AVC, lsize);
    if (empty) {
        x_frame();
    }
    x_frame();
    x_nal(lsize, 0x65, 8, 1);
    x_frame();
    x_nal(lsize, 0x41, 1, 1);
    if (empty) {
        x_frame();
    }
    x_frame();
    x_nal(lsize, 0x06, 3, 1);
    x_frame();
    x_nal(lsize, 0x41, 20, 1);
}

static void
x_snpf(unsigned part, unsigned first, unsigned step)
{
    VP_POST(x_open(part, TRUE) == VOD_OK);

    /* the header is known beforehand */
    VP_POST(g_built == 1 && g_writer.write_head == NULL);
    x_aux(0);
    VP_POST(x_feed(first, step) == VOD_OK);
    VP_POST(g_flushes == 1 && g_built == 1 && g_heads == 0);
    x_output();
    slots_check();
}

void
h_snpf(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    snpf_segment(4, 0);
    x_snpf(2, 1000, 1000);
    snpf_segment(4, 1);
    x_snpf(2, 1000, 1000);
    snpf_segment(3, 1);
    x_snpf(1, 1, 1);
    snpf_segment(1, 0);
    x_snpf(1, 1, 2);

    for (i = 1; i < 20; i++) {
        snpf_segment(4, 0);
        x_snpf(2, i, 1000);
    }

    /* a frame without room for the type */
    cenc_begin(VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(4, 0x65, 7, 1);
    g_frames[0].size = 4;
    VP_POST(x_open(1, TRUE) == VOD_OK);
    VP_POST(x_feed(1000, 1000) == VOD_BAD_DATA);
    VP_COVER(1);
}
#endif


#ifdef U_AUDIO
static void
x_audio(unsigned part, unsigned first, unsigned step)
{
    static const unsigned  sizes[] = { 17, 1, 0, 16, 30 };
    u_char                 b[64], *p;
    unsigned               i, k;

    cenc_begin(VOD_CODEC_ID_AAC, 0);
    for (i = 0; i < 5; i++) {
        x_frame();
        for (k = 0; k < sizes[i]; k++) {
            x_byte(payload(), 1);
        }
    }

    segment(part);
    g_writer.write_tail = vp_write_tail;
    g_writer.write_head = vp_write_head;
    VP_POST(mp4_cenc_encrypt_audio_get_fragment_writer(&g_writer, &g_rc, &g_segment) == VOD_OK);

    VP_POST(mp4_cenc_encrypt_audio_get_auxiliary_data_size(&g_state.base) == 40);
    b[40] = 0x33;
    p = mp4_cenc_encrypt_audio_write_auxiliary_data(&g_state.base, b);
    VP_POST(p == b + 40 && b[40] == 0x33);
    for (i = 0; i < 5; i++) {
        VP_POST(be64(b + 8 * i) == g_iv0 + i);
    }

    p = mp4_cenc_encrypt_audio_write_saiz_saio(&g_state.base, b, 0x1234567);
    VP_POST(p == b + 37);
    VP_POST(b[3] == 17 && b[4] == 's' && b[5] == 'a' && b[6] == 'i' && b[7] == 'z');
    VP_POST(b[12] == 8 && b[13] == 0 && b[14] == 0 && b[15] == 0 && b[16] == 5);
    VP_POST(b[20] == 20 && b[21] == 's' && b[22] == 'a' && b[23] == 'i' && b[24] == 'o');
    VP_POST(b[29] == 0 && b[30] == 0 && b[31] == 0 && b[32] == 1);
    VP_POST(b[33] == 0x01 && b[34] == 0x23 && b[35] == 0x45 && b[36] == 0x67);

    VP_POST(x_feed(first, step) == VOD_OK);
    VP_POST(g_flushes == 1 && g_heads == 0);
    x_output();
}

void
h_audio(void)
{
    VP_LOAD_INPUT();
    x_audio(2, 1000, 1000);
    x_audio(1, 1, 1);
    x_audio(3, 17, 1000);
    x_audio(3, 18, 3);
    x_audio(8, 5, 20);

    /* more than the frames */
    g_len++;
    segment(1);
    VP_POST(mp4_cenc_encrypt_audio_get_fragment_writer(&g_writer, &g_rc, &g_segment) == VOD_OK);
    VP_POST(x_feed(1000, 1000) == VOD_BAD_DATA);
    VP_COVER(1);
}
#endif

#else /* U_CBCS */

static struct {
    mp4_cbcs_encrypt_state_t  state;
    segment_writer_t          writers[4];
} g_state;

static mp4_cbcs_encrypt_video_stream_state_t  g_video;
static mp4_cbcs_encrypt_stream_state_t        g_audio;
static mp4_cbcs_encrypt_skip_stream_state_t   g_skip;

void *
ngx_palloc(ngx_pool_t *pool, size_t size)
{
    if (size == sizeof(g_video)) {
        return &g_video;
    }

    if (size == sizeof(g_audio)) {
        return &g_audio;
    }

    if (size == sizeof(g_skip)) {
        return &g_skip;
    }

    VP_POST(size <= sizeof(g_state) && size >= sizeof(g_state.state));
    return &g_state;
}

uint64_t
media_segment_track_get_total_size(media_segment_track_t *track)
{
    return 12;
}

/* the slice parser: a header of g_hdr bytes, out of what it is given */
static unsigned       g_hdr;
static unsigned       g_lsize;
static const u_char  *g_nal;            /* the unit, in g_src */
static unsigned       g_nal_size;
static int            g_hevc;

vod_status_t
avc_hevc_parser_init_ctx(request_context_t *rc, void **result)
{
    *result = &g_hdr;
    return VOD_OK;
}

vod_status_t
avc_parser_parse_extra_data(void *ctx, vod_str_t *extra_data, uint32_t *len,
    uint32_t *min)
{
    VP_POST(ctx == &g_hdr && extra_data == &g_info.extra_data && !g_hevc);
    *len = g_lsize;
    *min = g_lsize + 1;
    return VOD_OK;
}

vod_status_t
hevc_parser_parse_extra_data(void *ctx, vod_str_t *extra_data, uint32_t *len,
    uint32_t *min)
{
    VP_POST(ctx == &g_hdr && extra_data == &g_info.extra_data && g_hevc);
    *len = g_lsize;
    *min = g_lsize + 2;
    return VOD_OK;
}

vod_status_t
avc_parser_is_slice(void *ctx, uint8_t nal_type, bool_t *is_slice)
{
    VP_POST(!g_hevc);
    *is_slice = (nal_type & 0x1f) == 1 || (nal_type & 0x1f) == 5;
    return VOD_OK;
}

vod_status_t
hevc_parser_is_slice(void *ctx, uint8_t nal_type, bool_t *is_slice)
{
    VP_POST(g_hevc);
    *is_slice = (nal_type >> 1) < 10;
    return VOD_OK;
}

static unsigned  g_nals, g_nal_at[8], g_nal_sizes[8], g_hdrs[8], g_nal_cur;

static vod_status_t
get_header(const u_char *p, uint32_t size, uint32_t *result)
{
    unsigned  i, n;

    /* the parser gets the start of the unit */
    n = g_nal_sizes[g_nal_cur] < 128 ? g_nal_sizes[g_nal_cur] : 128;
    VP_POST(size == n);
    for (i = 0; i < n; i++) {
        VP_POST(p[i] == g_src[g_nal_at[g_nal_cur] + i]);
    }

    *result = g_hdrs[g_nal_cur];
    g_nal_cur++;
    return VOD_OK;
}

vod_status_t
avc_parser_get_slice_header_size(void *ctx, const u_char *p, uint32_t size,
    uint32_t *result)
{
    VP_POST(ctx == &g_hdr);
    return get_header(p, size, result);
}

vod_status_t
hevc_parser_get_slice_header_size(void *ctx, const u_char *p, uint32_t size,
    uint32_t *result)
{
    VP_POST(ctx == &g_hdr);
    return get_header(p, size, result);
}


static void
cbcs_begin(uint32_t type, uint32_t codec, unsigned lsize)
{
    vp_enc_reset();
    g_info.media_type = type;
    g_info.codec_id = codec;
    g_hevc = codec == VOD_CODEC_ID_HEVC;
    g_lsize = lsize;
    g_len = 0;
    g_frame_n = 0;
    g_nals = 0;
    g_nal_cur = 0;
}

static void
x_frame(void)
{
    g_frames[g_frame_n].size = 0;
    g_frame_n++;
}

static void
x_byte(u_char c)
{
    g_src[g_len] = c;
    g_exp[g_len] = c;
    g_len++;
    g_frames[g_frame_n - 1].size++;
}

/* a unit; hdr: size of the slice header with the type, 0: not a slice */
static void
x_nal(u_char type, unsigned size, unsigned hdr)
{
    unsigned  i, start;

    for (i = 0; i < g_lsize; i++) {
        x_byte(nal_len_byte(size, g_lsize, i));
    }

    start = g_len;
    x_byte(type);
    for (i = 1; i < size; i++) {
        x_byte(payload());
    }

    if (hdr == 0 || size - 1 < 17) {
        return;
    }

    g_nal_at[g_nals] = start;
    g_nal_sizes[g_nals] = size;
    g_hdrs[g_nals++] = hdr;

    x_iv(in.iv);
    for (i = hdr; i + 16 <= size; i += 160) {
        x_cbc_block(g_exp + start + i, g_src + start + i);
    }
}

static segment_writer_t  *g_writers;

static void
x_run(unsigned part, unsigned first, unsigned step)
{
    unsigned  i, at, n;

    segment(part);
    g_writer.write_tail = NULL;
    g_writer.context = NULL;
    VP_POST(mp4_cbcs_encrypt_get_writers(&g_rc, &g_segment, &g_writer, &g_writers) == VOD_OK);
    VP_POST(g_writers == g_state.writers && g_writers[0].write_head == NULL);
    VP_POST(g_state.state.flush_left == 1);

    for (at = 0; at < g_len; at += n) {
        n = at == 0 ? first : step;
        if (n > g_len - at) {
            n = g_len - at;
        }

        VP_POST(g_writers[0].write_tail(g_writers[0].context, g_src + at, n) == VOD_OK);
    }

    VP_POST(g_flushes == 1);
    VP_POST(g_state.state.write_buffer.cur_pos == g_obuf + g_len);
    for (i = 0; i < g_len; i++) {
        VP_POST(g_obuf[i] == g_exp[i]);
    }
    VP_POST(g_nal_cur == g_nals && g_part_n == 0);
    VP_POST(g_key_ok || g_inits == 0);
}


#ifdef U_CVIDEO
static void
x_one(unsigned lsize, unsigned size, unsigned hdr, unsigned first, unsigned step)
{
    cbcs_begin(MEDIA_TYPE_VIDEO, VOD_CODEC_ID_AVC, lsize);
    x_frame();
    x_nal(0x65, size, hdr);
    x_run(1, first, step);
}

static void
x_mixed(unsigned first, unsigned step)
{
    cbcs_begin(MEDIA_TYPE_VIDEO, VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_frame();
    x_nal(0x67, 5, 0);
    x_nal(0x65, 40, 6);
    x_nal(0x41, 12, 3);
    x_frame();
    x_nal(0x06, 40, 0);
    x_frame();
    x_nal(0x01, 60, 30);
    x_nal(0x01, 18, 2);
    x_nal(0x0a, 1, 0);
    x_frame();
    x_run(3, first, step);
}

void
h_cvideo(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
#if CV == 0
    /* sizes around the blocks and the pattern */
    x_one(4, 17, 2, 1000, 1000);
    x_one(4, 18, 2, 1000, 1000);
    x_one(2, 18, 3, 1000, 1000);
    x_one(4, 33, 17, 1000, 1000);
    x_one(3, 34, 2, 1000, 1000);
    x_one(4, 164, 5, 1000, 1000);
    x_one(4, 165, 5, 1000, 1000);
    x_one(4, 180, 5, 1000, 1000);
    x_one(4, 181, 5, 1000, 1000);
    x_one(4, 182, 5, 1000, 1000);
    x_one(4, 340, 5, 1000, 1000);
    x_one(4, 341, 5, 1000, 1000);
    x_one(4, 501, 5, 1000, 1000);
#elif CV == 1
    /* the header against the 128 bytes buffered for it */
    x_one(4, 127, 112, 1000, 1000);
    x_one(4, 128, 112, 1000, 1000);
    x_one(4, 128, 113, 1000, 1000);
    x_one(4, 129, 113, 1000, 1000);
    x_one(4, 200, 112, 1000, 1000);
    x_one(4, 200, 113, 1000, 1000);
    x_one(4, 200, 127, 1000, 1000);
    x_one(4, 200, 128, 1000, 1000);
    x_one(4, 143, 128, 1000, 1000);
    x_one(4, 144, 128, 1000, 1000);
    x_one(4, 330, 120, 1000, 1000);
    x_one(4, 330, 120, 135, 7);
#elif CV == 2
    /* cuts */
    x_one(4, 185, 5, 1, 1);
    x_one(1, 200, 30, 3, 9);
    x_one(4, 345, 5, 170, 16);
    x_one(4, 345, 20, 180, 5);
    x_one(4, 345, 5, 133, 200);
    x_one(4, 345, 5, 165, 200);
#elif CV == 4
    x_mixed(1000, 1000);
    x_mixed(1, 1);
    x_mixed(10, 7);

    cbcs_begin(MEDIA_TYPE_VIDEO, VOD_CODEC_ID_HEVC, 4);
    x_frame();
    x_nal(32 << 1, 20, 0);
    x_nal(1 << 1, 40, 4);
    x_frame();
    x_nal(19 << 1, 40, 0);
    x_run(1, 1000, 1000);
#else
    for (i = 1; i < 40; i++) {
        x_one(4, 40, 6, i, 1000);
    }
#endif
    VP_COVER(1);
}
#endif


#ifdef U_CREFUSE
static void
refused(unsigned first)
{
    vod_status_t  rc;

    segment(1);
    VP_POST(mp4_cbcs_encrypt_get_writers(&g_rc, &g_segment, &g_writer, &g_writers) == VOD_OK);
    rc = g_writers[0].write_tail(g_writers[0].context, g_src, first < g_len ? first : g_len);
    if (first < g_len) {
        VP_POST(rc == VOD_OK);
        rc = g_writers[0].write_tail(g_writers[0].context, g_src + first, g_len - first);
    }

    VP_POST(rc == VOD_BAD_DATA && g_flushes == 0);
}

static void
simple(void)
{
    cbcs_begin(MEDIA_TYPE_VIDEO, VOD_CODEC_ID_AVC, 4);
    x_frame();
    x_nal(0x65, 7, 0);
}

void
h_crefuse(void)
{
    VP_LOAD_INPUT();

    simple();
    g_frames[0].size--;
    refused(1000);
    refused(3);

    simple();
    g_src[0] = 0xff;
    refused(1000);

    simple();
    g_src[3] = 0;
    refused(1000);

    simple();
    g_frames[0].size += 4;
    refused(1000);

    simple();
    g_frames[0].size = 4;
    refused(1000);

    /* a length size out of range, an unknown codec */
    simple();
    g_lsize = 5;
    segment(1);
    VP_POST(mp4_cbcs_encrypt_get_writers(&g_rc, &g_segment, &g_writer, &g_writers) == VOD_BAD_DATA);

    simple();
    g_info.codec_id = VOD_CODEC_ID_AV1;
    segment(1);
    VP_POST(mp4_cbcs_encrypt_get_writers(&g_rc, &g_segment, &g_writer, &g_writers) == VOD_BAD_REQUEST);
    VP_COVER(1);
}
#endif


#ifdef U_CAUDIO
static void
x_audio(unsigned part, unsigned first, unsigned step)
{
    static const unsigned  sizes[] = { 0, 33, 15, 16, 0, 1, 64, 0 };
    unsigned               i, k, at;

    cbcs_begin(MEDIA_TYPE_AUDIO, VOD_CODEC_ID_AAC, 0);
    for (i = 0; i < 8; i++) {
        x_frame();
        at = g_len;
        for (k = 0; k < sizes[i]; k++) {
            x_byte(payload());
        }

        x_iv(in.iv);
        for (k = 0; k + 16 <= sizes[i]; k += 16) {
            x_cbc_block(g_exp + at + k, g_src + at + k);
        }
    }

    x_run(part, first, step);
}

void
h_caudio(void)
{
    static media_segment_track_t  tracks[3];
    static media_info_t           text;
    unsigned                      i;

    VP_LOAD_INPUT();
    x_audio(3, 1000, 1000);
    x_audio(1, 1, 1);
    x_audio(8, 33, 1000);
    x_audio(2, 32, 31);
    x_audio(3, 7, 20);

    /* three tracks, one of them without frames: the output is flushed once, at the end */
    cbcs_begin(MEDIA_TYPE_AUDIO, VOD_CODEC_ID_AAC, 0);
    x_frame();
    for (i = 0; i < 5; i++) {
        x_byte(payload());
    }

    segment(1);
    text.media_type = MEDIA_TYPE_SUBTITLE;
    tracks[0] = g_track;
    tracks[0].frames.part.nelts = 0;
    tracks[1] = g_track;
    tracks[2].media_info = &text;
    g_segment.tracks = tracks;
    g_segment.track_count = 3;
    VP_POST(mp4_cbcs_encrypt_get_writers(&g_rc, &g_segment, &g_writer, &g_writers) == VOD_OK);
    VP_POST(g_state.state.flush_left == 2);
    VP_POST(g_writers[2].write_tail(g_writers[2].context, g_src, 7) == VOD_OK);
    VP_POST(g_flushes == 0);
    VP_POST(g_writers[2].write_tail(g_writers[2].context, g_src, 5) == VOD_OK);
    VP_POST(g_flushes == 0);
    VP_POST(g_writers[1].write_tail(g_writers[1].context, g_src, 5) == VOD_OK);
    VP_POST(g_flushes == 1);
    for (i = 0; i < 17; i++) {
        VP_POST(g_obuf[i] == (i < 7 ? g_src[i] : i < 12 ? g_src[i - 7] : g_src[i - 12]));
    }
    VP_COVER(1);
}
#endif

#endif
