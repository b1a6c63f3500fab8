From 5c4a89ed1f0c6212c3d8b5bbd24dae0e3c105c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 01/10] fix: mpegts: check the payload size of a PES packet
 that declares an empty payload

---
 nginx-mpegts-module/src/ngx_ts_stream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nginx-mpegts-module/src/ngx_ts_stream.c b/nginx-mpegts-module/src/ngx_ts_stream.c
index 69717dd..5425a60 100644
--- a/nginx-mpegts-module/src/ngx_ts_stream.c
+++ b/nginx-mpegts-module/src/ngx_ts_stream.c
@@ -888,7 +888,7 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
     size_t              size;
     uint16_t            len, flags, v16;
     uint64_t            pts, dts;
-    ngx_uint_t          ptsf;
+    ngx_uint_t          ptsf, bounded;
     ngx_ts_byte_read_t  br, pr;
 
     ngx_log_debug0(NGX_LOG_DEBUG_CORE, ts->log, 0, "ts pes");
@@ -959,6 +959,7 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
     }
 
     ptsf = 0;
+    bounded = len != 0;
 
     if (sid != 0xbc     /* program_stream_map */
         && sid != 0xbf  /* private_stream_2 */
@@ -1081,7 +1082,7 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
         br.cl->buf->pos = br.p;
     }
 
-    if (len) {
+    if (bounded) {
         size = ngx_ts_byte_left(&br);
         if (size != len) {
             ngx_log_error(NGX_LOG_WARN, ts->log, 0,
-- 
2.43.0


From 6f4bd4170af065fd36d23e8235c06b307a805999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 02/10] fix: persist: do not free a pool allocation when
 decompression fails

---
 nginx-common/src/ngx_persist_read.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nginx-common/src/ngx_persist_read.c b/nginx-common/src/ngx_persist_read.c
index b43840a..46bbe2a 100644
--- a/nginx-common/src/ngx_persist_read.c
+++ b/nginx-common/src/ngx_persist_read.c
@@ -141,7 +141,11 @@ ngx_persist_read_inflate(ngx_str_t *buf, size_t max_size,
         ngx_log_error(NGX_LOG_ERR, rs->log, 0,
             "ngx_persist_read_inflate: "
             "uncompress failed %d", rc);
-        ngx_free(p);
+
+        if (pool == NULL) {
+            ngx_free(p);
+        }
+
         return NGX_BAD_DATA;
     }
 
-- 
2.43.0


From fc672dc10a7a1c5414c7ff12eb11dc77face514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 03/10] fix: pckg: count every emulation prevention byte of a
 run of zeros

---
 nginx-pckg-module/src/media/avc_hevc_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-pckg-module/src/media/avc_hevc_parser.c b/nginx-pckg-module/src/media/avc_hevc_parser.c
index 5421151..3b2a177 100644
--- a/nginx-pckg-module/src/media/avc_hevc_parser.c
+++ b/nginx-pckg-module/src/media/avc_hevc_parser.c
@@ -82,7 +82,7 @@ avc_hevc_parser_emulation_prevention_encode_bytes(
         if (cur_pos[0] == 0 && cur_pos[1] == 0 && cur_pos[2] <= 3)
         {
             result++;
-            cur_pos += 2;
+            cur_pos++;      // the third byte can start another sequence
         }
     }
 
-- 
2.43.0


From 84e03f7f0fd1ce35cce152ed2d49c07b47f4189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 04/10] fix: pckg: refuse an AVC picture parameter set with a
 zero slice group change rate

---
 nginx-pckg-module/src/media/avc_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nginx-pckg-module/src/media/avc_parser.c b/nginx-pckg-module/src/media/avc_parser.c
index c9c9e00..112da98 100644
--- a/nginx-pckg-module/src/media/avc_parser.c
+++ b/nginx-pckg-module/src/media/avc_parser.c
@@ -392,6 +392,12 @@ avc_parser_pic_parameter_set_rbsp(
         {
             bit_read_stream_get_one(reader);                    // slice_group_change_direction_flag
             pps->slice_group_change_rate = bit_read_stream_get_unsigned_exp(reader) + 1;
+            if (pps->slice_group_change_rate <= 0)
+            {
+                vod_log_error(VOD_LOG_ERR, ctx->request_context->log, 0,
+                    "avc_parser_pic_parameter_set_rbsp: invalid slice group change rate");
+                return VOD_BAD_DATA;
+            }
         }
         else if (pps->slice_group_map_type == 6)
         {
-- 
2.43.0


From d0198e710a263f81aab3532e54a0f0f45b76c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 05/10] fix: pckg: finish a cbcs packet that ends with the
 input buffer

---
 nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
index 5941aeb..6a54c4f 100644
--- a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
+++ b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
@@ -449,7 +449,7 @@ mp4_cbcs_encrypt_video_write_buffer(void* context, u_char* buffer, uint32_t size
             if (!is_slice || stream_state->packet_size_left < MIN_ENCRYPTED_PACKET_SIZE)
             {
                 stream_state->cur_state = STATE_PACKET_COPY;
-                continue;
+                goto packet_copy;
             }
 
             // TODO: parse in-stream SPS/PPS
@@ -500,7 +500,7 @@ mp4_cbcs_encrypt_video_write_buffer(void* context, u_char* buffer, uint32_t size
 
                 stream_state->packet_size_left -= slice_header_buf_size - 1;
                 stream_state->cur_state = STATE_PACKET_COPY;
-                break;
+                goto packet_copy;
             }
 
             // write the slice header
@@ -596,6 +596,7 @@ mp4_cbcs_encrypt_video_write_buffer(void* context, u_char* buffer, uint32_t size
             // fall through
 
         case STATE_PACKET_COPY:
+        packet_copy:
             // write clear bytes
             size_left = buffer_end - cur_pos;
             write_size = stream_state->packet_size_left - stream_state->next_block_size_left;
-- 
2.43.0


From d1ecea8f6d4da22049786c735386656381d763cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:26 +0000
Subject: [PATCH 06/10] fix: rtmp: refuse a message that becomes shorter than
 what has arrived

---
 nginx-rtmp-module/src/ngx_rtmp_handler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_handler.c b/nginx-rtmp-module/src/ngx_rtmp_handler.c
index aa05be8..2957ea6 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_handler.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_handler.c
@@ -517,6 +517,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 ngx_rtmp_finalize_session(s);
                 return;
             }
+
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_ERR, c->log, 0,
+                              "RTMP message size %uD less than received %uD",
+                              h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
         }
 
         size = b->last - b->pos;
-- 
2.43.0


From 20cf46aed7ad004fad8b10930e6a940c68a3d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:26 +0000
Subject: [PATCH 07/10] fix: rtmp: limit the nesting of AMF objects and arrays

---
 nginx-rtmp-module/src/ngx_rtmp_amf.c | 10 ++++++++--
 nginx-rtmp-module/src/ngx_rtmp_amf.h |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_amf.c b/nginx-rtmp-module/src/ngx_rtmp_amf.c
index a000adf..c514b3b 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_amf.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_amf.c
@@ -418,21 +418,27 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
                 /* fall through */
 
             case NGX_RTMP_AMF_OBJECT:
-                if (ngx_rtmp_amf_read_object(ctx, data,
+                if (++ctx->depth > NGX_RTMP_AMF_MAX_DEPTH
+                    || ngx_rtmp_amf_read_object(ctx, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
                     return NGX_ERROR;
                 }
+
+                ctx->depth--;
                 break;
 
             case NGX_RTMP_AMF_ARRAY:
-                if (ngx_rtmp_amf_read_array(ctx, data,
+                if (++ctx->depth > NGX_RTMP_AMF_MAX_DEPTH
+                    || ngx_rtmp_amf_read_array(ctx, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
                     return NGX_ERROR;
                 }
+
+                ctx->depth--;
                 break;
 
             case NGX_RTMP_AMF_VARIANT_:
diff --git a/nginx-rtmp-module/src/ngx_rtmp_amf.h b/nginx-rtmp-module/src/ngx_rtmp_amf.h
index 767996a..d55e95b 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_amf.h
+++ b/nginx-rtmp-module/src/ngx_rtmp_amf.h
@@ -37,6 +37,9 @@
 #define NGX_RTMP_AMF_VARIANT            (NGX_RTMP_AMF_VARIANT_               \
                                         |NGX_RTMP_AMF_TYPELESS)
 
+/* max nesting of objects and arrays */
+#define NGX_RTMP_AMF_MAX_DEPTH          64
+
 
 typedef struct {
     ngx_int_t                           type;
@@ -55,6 +58,7 @@ typedef struct {
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
+    ngx_uint_t                          depth;
 } ngx_rtmp_amf_ctx_t;
 
 
-- 
2.43.0


From 3fbfd966e317f3c9be94b2b09d0ef02c817e26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:26 +0000
Subject: [PATCH 08/10] fix: rtmp: refuse an aggregate message inside an
 aggregate

---
 nginx-rtmp-module/src/ngx_rtmp_receive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_receive.c b/nginx-rtmp-module/src/ngx_rtmp_receive.c
index 7ae80ac..7cd0617 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_receive.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_receive.c
@@ -308,6 +308,12 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                        (ngx_int_t) ch.type, ch.mlen, ch.timestamp,
                        timestamp - base_time, ch.msid);
 
+        if (ch.type == NGX_RTMP_MSG_AGGREGATE) {
+            ngx_log_error(NGX_LOG_ERR, s->connection->log, 0,
+                          "RTMP aggregate inside an aggregate");
+            return NGX_ERROR;
+        }
+
         /* limit chain */
 
         len = 0;
-- 
2.43.0


From 14ff1d2a2273c12cf5a8d49c7a2a5a73dd44e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 09/10] fix: rtmp: count queued messages when the queue wraps
 around

---
 nginx-rtmp-module/src/ngx_rtmp_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_handler.c b/nginx-rtmp-module/src/ngx_rtmp_handler.c
index 2957ea6..42045d2 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_handler.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_handler.c
@@ -825,7 +825,7 @@ ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_chain_t *out,
 {
     ngx_uint_t                      nmsg;
 
-    nmsg = (s->out_last - s->out_pos) % s->out_queue + 1;
+    nmsg = (s->out_last + s->out_queue - s->out_pos) % s->out_queue + 1;
 
     if (priority > 3) {
         priority = 3;
-- 
2.43.0


From fd4eeb30554f23e86da7a2a65f2fe7cce0e39b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:21 +0000
Subject: [PATCH 10/10] fix: mpegts: close packets that hold a PES header and
 no data

With align_frames off, a frame whose encoder has no header (mp3, ac-3) and
that does not fill its packet left the packet open with the PES header in
it.  The next frame then pushed its PES header in front of the first one,
making it part of the elementary stream.
---
 nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
index a0ea94b..f3a777e 100644
--- a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
+++ b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
@@ -825,7 +825,7 @@ mpegts_encoder_start_frame(media_filter_context_t* context, output_frame_t* fram
     }
 
     state->flushed_frame_bytes = 0;
-    state->header_size = frame->header_size;
+    state->header_size = vod_max(frame->header_size, 1);
 
     state->send_queue_offset = state->last_queue_offset;
 
@@ -1245,7 +1245,7 @@ mpegts_encoder_simulated_start_frame(media_filter_context_t* context, output_fra
     }
 
     state->flushed_frame_bytes = 0;
-    state->header_size = frame->header_size;
+    state->header_size = vod_max(frame->header_size, 1);
 
     state->temp_packet_size += mpegts_get_pes_header_size(&state->stream_info);
 
-- 
2.43.0

