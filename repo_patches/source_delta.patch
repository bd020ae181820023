From 73481c7f1d60677cee092a26c2015a3242382eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 001/104] fix: keep data already read when the peer lowers its
 chunk size

ngx_rtmp_recv copies bytes read past the end of a chunk into the next
input buffer. After ngx_rtmp_set_chunk_size made the buffers smaller, the
bytes read with the old buffer size could exceed the new buffer, and the
copy wrote past its end.
---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..edd9d06 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -246,6 +246,18 @@ ngx_rtmp_recv(ngx_event_t *rev)
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "reusing formerly read data: %d", old_size);
 
+            /* chunk size was reduced, data already read exceeds new buffer */
+            if (old_size > (size_t) (b->end - b->start)) {
+                b->start = ngx_palloc(s->in_pool, old_size);
+                if (b->start == NULL) {
+                    ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                            "in buf alloc failed");
+                    ngx_rtmp_finalize_session(s);
+                    return;
+                }
+                b->end = b->start + old_size;
+            }
+
             b->pos = b->start;
             b->last = ngx_movemem(b->pos, old_pos, old_size);
 
-- 
2.43.0


From 5359f84b35bf2271ec80757e4413faedd9d2df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 002/104] fix: do not truncate AMF messages longer than the
 chunk size

ngx_rtmp_create_amf and the meta reconstruction passed the frame chain as
both the first and the last link of the AMF writer, so once a message
needed a second chunk the frame kept only its last link: the peer got the
tail of the message and the leading buffers leaked.
---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 9 +++++++--
 modules/nginx-rtmp-module/ngx_rtmp_send.c         | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..31ba0b7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -997,6 +997,7 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *ctx;
     ngx_rtmp_core_srv_conf_t       *cscf;
     ngx_int_t                       rc;
+    ngx_chain_t                    *last;
 
     static struct {
         double                      width;
@@ -1093,6 +1094,9 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
     ctx->meta = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, NULL, 1);
+    if (ctx->meta == NULL) {
+        return NGX_ERROR;
+    }
 
     v.width = ctx->width;
     v.height = ctx->height;
@@ -1105,9 +1109,10 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
     ngx_memcpy(v.profile, ctx->profile, sizeof(ctx->profile));
     ngx_memcpy(v.level, ctx->level, sizeof(ctx->level));
 
-    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &ctx->meta->chain, out_elts,
+    last = ctx->meta->chain;
+    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &last, out_elts,
                              sizeof(out_elts) / sizeof(out_elts[0]));
-    if (rc != NGX_OK || ctx->meta == NULL) {
+    if (rc != NGX_OK) {
         return NGX_ERROR;
     }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..6467ad1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -420,6 +420,7 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                   rc;
     ngx_rtmp_core_srv_conf_t   *cscf;
     ngx_rtmp_frame_t           *frame;
+    ngx_chain_t                *last;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "create: amf nelts=%ui", nelts);
@@ -429,7 +430,8 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     frame = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, NULL, 1);
     frame->hdr = *h;
 
-    rc = ngx_rtmp_append_amf(s, &frame->chain, &frame->chain, elts, nelts);
+    last = frame->chain;
+    rc = ngx_rtmp_append_amf(s, &frame->chain, &last, elts, nelts);
 
     if (rc != NGX_OK) {
         ngx_rtmp_shared_free_frame(frame);
-- 
2.43.0


From 2d7cb4394970f09fd346c1e3e5cea3c8450acf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 003/104] fix: do not attach a closed session to a stream

closeStream or deleteStream before play or publish marked the session
closed, so a later play or publish joined the stream but the close at
disconnect was skipped and the stream kept pointing to the freed session.
Playing and publishing on one session linked its context into two lists
with the same result.
---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..9af8370 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -224,8 +224,10 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
 ngx_int_t
 ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
-    if (s->published) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been published");
+    if (s->published || s->played || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "session has been %s", s->published ? "published"
+                : (s->played ? "played" : "closed"));
         return NGX_OK;
     }
 
@@ -243,8 +245,10 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 ngx_int_t
 ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
-    if (s->played) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been played");
+    if (s->published || s->played || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "session has been %s", s->published ? "published"
+                : (s->played ? "played" : "closed"));
         return NGX_OK;
     }
 
@@ -269,7 +273,10 @@ ngx_rtmp_close_stream_filter(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp close stream filter");
 
-    s->closed = 1;
+    /* nothing published or played yet, close again when it will be */
+    if (s->live_stream) {
+        s->closed = 1;
+    }
 
     ngx_live_delete_ctx(s);
     if (s->live_stream && s->live_stream->play_ctx == NULL
-- 
2.43.0


From 5f6a9b37f502b9f72940c02e7ca0ff77d440ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 004/104] fix: set multi-value response headers with nginx 1.23
 and later

Since nginx 1.23 headers_out.cache_control is a linked ngx_table_elt_t, not
an ngx_array_t. Treating it as an array overwrote the neighbouring fields of
headers_out, and every HTTP-FLV or HTTP-TS response crashed the worker.
---
 .../http/ngx_http_set_header.c                | 49 ++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_set_header.c b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
index ffef7aa..0d0e17e 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_set_header.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
@@ -29,7 +29,8 @@ static ngx_int_t ngx_http_set_header_out_other(ngx_http_request_t *r,
 /* for header has quick link like ngx_table_elt_t* in ngx_http_headers_out_t */
 static ngx_int_t ngx_http_set_header_out_builtin(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value);
-/* for header has quick link like ngx_array_t in ngx_http_headers_out_t */
+/* for header has quick link to several values in ngx_http_headers_out_t,
+ * an ngx_array_t before nginx 1.23, a linked ngx_table_elt_t since then */
 static ngx_int_t ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value);
 /* for header has quick link like ngx_table_elt_t* and
@@ -164,6 +165,50 @@ ngx_http_set_header_out_builtin(ngx_http_request_t *r,
     return NGX_OK;
 }
 
+#if (nginx_version >= 1023000)
+
+static ngx_int_t
+ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
+    ngx_http_header_val_t *hv, ngx_str_t *value)
+{
+    ngx_table_elt_t  *h, *ho, **ph;
+
+    ph = (ngx_table_elt_t **) ((char *) &r->headers_out + hv->offset);
+
+    if (*ph) {
+        for (h = (*ph)->next; h; h = h->next) { /* clear old value */
+            h->hash = 0;
+            h->value.len = 0;
+        }
+
+        (*ph)->value = *value;
+
+        if (value->len == 0) {
+            (*ph)->hash = 0;
+        } else {
+            (*ph)->hash = hv->hash;
+        }
+
+        return NGX_OK;
+    }
+
+    /* header does not set */
+    ho = ngx_list_push(&r->headers_out.headers);
+    if (ho == NULL) {
+        return NGX_ERROR;
+    }
+
+    ho->value = *value;
+    ho->hash = hv->hash;
+    ho->key = hv->key;
+    ho->next = NULL;
+    *ph = ho;
+
+    return NGX_OK;
+}
+
+#else
+
 static ngx_int_t
 ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
@@ -219,6 +264,8 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     return NGX_OK;
 }
 
+#endif
+
 static ngx_int_t
 ngx_http_set_header_out_content_type(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
-- 
2.43.0


From 7933c42aa82ef5a55558ec5a1b45fc817d5d3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 005/104] fix: do not crash when sending to a peer which has
 not sent connect

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..994b20d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -88,20 +88,22 @@ ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_core_app_conf_t   *cacf;
     ngx_chain_t                *ll, **ln;
-    ngx_uint_t                  n;
+    ngx_uint_t                  n, merge_frame;
 
     // merge frame not send completely
     if (s->out_chain) {
         return NGX_OK;
     }
 
+    // peer may not have sent connect yet
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+    merge_frame = cacf ? cacf->merge_frame : 1;
 
     ngx_rtmp_free_merge_frame(s);
 
     ln = &s->out_chain;
 
-    for (n = 0; n < cacf->merge_frame && s->out_pos != s->out_last; ++n) {
+    for (n = 0; n < merge_frame && s->out_pos != s->out_last; ++n) {
         // save frame chain with rtmp chunk or flv tag
         s->merge[n] = s->prepare_handler(s);
 
-- 
2.43.0


From 2f85ccf63a9c692569501c3a62c5c173af305d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 006/104] fix: do not rewrite the timestamps of frames shared
 by all players of a GOP cache

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 91 ++++++++++++-------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..5bf0271 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -162,18 +162,30 @@ ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 static ngx_int_t
 ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 {
- ngx_uint_t                      nmsg;
+    ngx_uint_t                      nmsg;
     ngx_rtmp_live_chunk_stream_t   *cs;
     ngx_uint_t                      csidx;
     ngx_rtmp_live_ctx_t            *lctx;
     ngx_rtmp_gop_ctx_t             *ctx;
-    uint32_t                        delta;
+    ngx_rtmp_frame_t               *out;
+    uint32_t                        delta, timestamp;
     ngx_rtmp_gop_app_conf_t        *gacf;
+    ngx_rtmp_core_srv_conf_t       *cscf;
 
     if (frame == NULL) {
         return NGX_OK;
     }
 
+    nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
+
+    if (nmsg >= s->out_queue) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "link frame nmsg(%ui) >= out_queue(%O)", nmsg, s->out_queue);
+        return NGX_AGAIN;
+    }
+
+    timestamp = frame->hdr.timestamp;
+
     gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
     if (gacf->fix_timestamp) {
         lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
@@ -181,41 +193,60 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
         cs  = &lctx->cs[csidx];
 
-        delta = frame->hdr.timestamp > cs->last_timestamp ?
-            frame->hdr.timestamp - cs->last_timestamp :
-            cs->last_timestamp - frame->hdr.timestamp;
+        if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
+            timestamp = 0;
 
-        if (delta > gacf->fix_timestamp) {
-            delta = 0;
-        }
+        } else if (frame->av_header) {
+            /* a cached header can be much older than the next frame */
+            if (gacf->zero_start || cs->timestamp != 0) {
+                timestamp = cs->timestamp;
+            }
 
-        if (!gacf->zero_start && cs->timestamp == 0) {
-            cs->timestamp = frame->hdr.timestamp;
-        } else if (frame->hdr.timestamp > cs->last_timestamp) {
-            cs->timestamp += delta;
-        } else if (cs->timestamp >= delta) {
-            cs->timestamp -= delta;
-        }
+        } else {
+            delta = frame->hdr.timestamp > cs->last_timestamp ?
+                frame->hdr.timestamp - cs->last_timestamp :
+                cs->last_timestamp - frame->hdr.timestamp;
 
-        cs->last_timestamp = frame->hdr.timestamp;
+            if (delta > gacf->fix_timestamp) {
+                delta = 0;
+            }
 
-        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-            "gop: link_frame| type %d, delta %d,"
-            " timestamp %uD, fixed timestamp %uD",
-            frame->hdr.type, delta, frame->hdr.timestamp, cs->timestamp);
+            if (!gacf->zero_start && cs->timestamp == 0) {
+                cs->timestamp = frame->hdr.timestamp;
+            } else if (frame->hdr.timestamp > cs->last_timestamp) {
+                cs->timestamp += delta;
+            } else if (cs->timestamp >= delta) {
+                cs->timestamp -= delta;
+            }
 
-        frame->hdr.timestamp = cs->timestamp;
-        if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
-            frame->hdr.timestamp = 0;
+            cs->last_timestamp = frame->hdr.timestamp;
+
+            timestamp = cs->timestamp;
         }
+
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+            "gop: link_frame| type %d,"
+            " timestamp %uD, fixed timestamp %uD",
+            frame->hdr.type, frame->hdr.timestamp, timestamp);
     }
 
-    nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
+    /* frame is shared by publisher's cache and all players */
+    if (timestamp != frame->hdr.timestamp) {
+        cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
-    if (nmsg >= s->out_queue) {
-        ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                "link frame nmsg(%ui) >= out_queue(%O)", nmsg, s->out_queue);
-        return NGX_AGAIN;
+        out = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, frame->chain, 0);
+        if (out == NULL) {
+            return NGX_AGAIN;
+        }
+
+        out->hdr = frame->hdr;
+        out->hdr.timestamp = timestamp;
+        out->av_header = frame->av_header;
+        out->keyframe = frame->keyframe;
+        out->mandatory = frame->mandatory;
+    } else {
+        out = frame;
+        ngx_rtmp_shared_acquire_frame(out);
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
@@ -228,11 +259,9 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ctx->latest_avc_header = frame;
     }
 
-    s->out[s->out_last] = frame;
+    s->out[s->out_last] = out;
     s->out_last = ngx_rtmp_gop_next(s, s->out_last);
 
-    ngx_rtmp_shared_acquire_frame(frame);
-
     return NGX_OK;
 }
 
-- 
2.43.0


From 86ab79daadd9c5dc18042f4c64a08c2fa23205cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 007/104] fix: start GOP cache state anew for every publish

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 52 +++++++++++++++----
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 5bf0271..80cde0d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -12,6 +12,8 @@
 
 static ngx_rtmp_close_stream_pt         next_close_stream;
 
+static ngx_uint_t                       ngx_rtmp_gop_id;
+
 
 static void *ngx_rtmp_gop_create_app_conf(ngx_conf_t *cf);
 static char *ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
@@ -32,6 +34,11 @@ typedef struct {
     /* 0 for not send, 1 for sending, 2 for sent */
     ngx_flag_t                  send_gop;
 
+    /* publisher: identity of cache
+     * player: identity of the cache it is sending
+     */
+    ngx_uint_t                  id;
+
     ngx_rtmp_frame_t           *keyframe;
 
     ngx_rtmp_frame_t           *aac_header;
@@ -44,8 +51,8 @@ typedef struct {
 
     uint32_t                    first_timestamp;
 
-    /* only for publisher, must at last of ngx_rtmp_gop_ctx_t */
-    ngx_rtmp_frame_t           *cache[];
+    /* only for publisher */
+    ngx_rtmp_frame_t          **cache;
 } ngx_rtmp_gop_ctx_t;
 
 typedef struct {
@@ -320,6 +327,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
     {
         if (ctx->cache[pos]->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
+            ctx->cache[pos] = NULL;
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
             continue;
         }
@@ -448,14 +456,23 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
     if (ctx == NULL) {
-        ctx = ngx_pcalloc(s->pool, sizeof(ngx_rtmp_gop_ctx_t)
-                          + s->out_queue * sizeof(ngx_rtmp_frame_t *));
+        ctx = ngx_pcalloc(s->pool, sizeof(ngx_rtmp_gop_ctx_t));
         if (ctx == NULL) {
             return NGX_ERROR;
         }
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_gop_module);
     }
 
+    if (ctx->cache == NULL) {
+        ngx_memzero(ctx, sizeof(ngx_rtmp_gop_ctx_t));
+        ctx->cache = ngx_pcalloc(s->pool,
+                                 s->out_queue * sizeof(ngx_rtmp_frame_t *));
+        if (ctx->cache == NULL) {
+            return NGX_ERROR;
+        }
+        ctx->id = ++ngx_rtmp_gop_id;
+    }
+
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -583,7 +600,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ssctx->gop_pos;
     frame = sctx->cache[pos];
-    while (frame && pos != ssctx->gop_last) {
+    while (frame && pos != sctx->gop_last) {
         if (!gacf->send_all &&
             frame->hdr.timestamp - ssctx->first_timestamp >= gacf->cache_time)
         {
@@ -599,7 +616,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         frame = sctx->cache[pos];
     }
 
-    if (frame == NULL || pos == ssctx->gop_last) { /* send all frame in cache */
+    if (frame == NULL || pos == sctx->gop_last) { /* send all frame in cache */
         ssctx->send_gop = 3;
     }
 
@@ -623,7 +640,8 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     sctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
-    if (sctx == NULL) { /* publisher doesn't publish av frame */
+    if (sctx == NULL || sctx->cache == NULL) {
+        /* publisher doesn't publish av frame */
         return NGX_DECLINED;
     }
 
@@ -636,6 +654,12 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_rtmp_gop_module);
     }
 
+    /* publisher changed, start again from the cache of new publisher */
+    if (ssctx->id != sctx->id) {
+        ngx_memzero(ssctx, sizeof(ngx_rtmp_gop_ctx_t));
+        ssctx->id = sctx->id;
+    }
+
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
@@ -646,6 +670,10 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
+    if (sctx->cache[pos] == NULL) { /* only av header in cache */
+        return NGX_OK;
+    }
+
     /* new frame is video key frame */
     if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
@@ -720,16 +748,14 @@ static ngx_int_t
 ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 {
     ngx_rtmp_gop_ctx_t         *ctx;
-    ngx_rtmp_live_ctx_t        *lctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
     if (ctx == NULL) {
         goto next;
     }
 
-    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
-
-    if (!lctx->publishing) {
+    if (ctx->cache == NULL) { /* player */
+        ctx->id = 0;
         goto next;
     }
 
@@ -747,6 +773,10 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
     }
 
+    /* the session can publish or play again */
+    ngx_pfree(s->pool, ctx->cache);
+    ngx_memzero(ctx, sizeof(ngx_rtmp_gop_ctx_t));
+
 next:
     return next_close_stream(s, v);
 }
-- 
2.43.0


From d2223d2402cffae56464ce328aa6e5ff0ec07a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 008/104] fix: keep headers and free frames when low_latency
 skips to a new keyframe

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 80cde0d..5250276 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -626,6 +626,37 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+/*
+ * drop the coded frames which wait in player's out queue,
+ * metadata, codec headers and all other messages stay in the queue
+ */
+static void
+ngx_rtmp_gop_drop_frames(ngx_rtmp_session_t *ss)
+{
+    ngx_rtmp_frame_t           *frame;
+    size_t                      pos, last;
+
+    last = ss->out_pos;
+
+    for (pos = ss->out_pos; pos != ss->out_last;
+            pos = ngx_rtmp_gop_next(ss, pos))
+    {
+        frame = ss->out[pos];
+
+        if ((frame->hdr.type == NGX_RTMP_MSG_AUDIO ||
+             frame->hdr.type == NGX_RTMP_MSG_VIDEO) && !frame->av_header)
+        {
+            ngx_rtmp_shared_free_frame(frame);
+            continue;
+        }
+
+        ss->out[last] = frame;
+        last = ngx_rtmp_gop_next(ss, last);
+    }
+
+    ss->out_last = last;
+}
+
 ngx_int_t
 ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -678,7 +709,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
-            ss->out_pos = ss->out_last;
+            ngx_rtmp_gop_drop_frames(ss);
             ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                     "gop, low latency, chase to new keyframe");
 
-- 
2.43.0


From c7bbe7c6f94b6edd6ada4bc4f14b0f74997a5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 009/104] fix: do not post the close event of a destroyed HTTP
 session

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..abaabec 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -397,7 +397,7 @@ ngx_rtmp_finalize_session(ngx_rtmp_session_t *s)
     ngx_event_t        *e;
     ngx_connection_t   *c;
 
-    if (s->finalized) {
+    if (s->finalized || s->destroyed) {
         return;
     }
 
@@ -459,6 +459,10 @@ ngx_rtmp_finalize_fake_session(ngx_rtmp_session_t *s)
 
     ngx_rtmp_fire_event(s, NGX_RTMP_DISCONNECT, NULL, NULL);
 
+    if (s->close.posted) {
+        ngx_delete_posted_event(&s->close);
+    }
+
     ngx_rtmp_close_session(s);
 }
 
-- 
2.43.0


From b3e0bd2baf4331071a4555461dd88acb8ef6f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 010/104] fix: do not count the server's own ping as an answer
 from the peer

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index edd9d06..4fc5b85 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -180,12 +180,13 @@ ngx_rtmp_ping(ngx_event_t *pev)
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
             "ping: schedule %Mms", cscf->ping_timeout);
 
+    s->ping_active = 1;
+
     if (ngx_rtmp_send_ping_request(s, (uint32_t)ngx_current_msec) != NGX_OK) {
         ngx_rtmp_finalize_session(s);
         return;
     }
 
-    s->ping_active = 1;
     ngx_add_timer(pev, cscf->ping_timeout);
 }
 
@@ -771,7 +772,10 @@ ngx_rtmp_send(ngx_event_t *wev)
         }
 
         s->out_bytes += n;
-        s->ping_reset = 1;
+        /* only the peer itself can answer a ping */
+        if (!s->ping_active) {
+            s->ping_reset = 1;
+        }
         ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
         if (s->live_stream) {
             ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
-- 
2.43.0


From 3072ddfcd1ebdede2dc46d8763e67f75abad35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 011/104] fix: a publisher that is not the only one does not
 end the stream when it leaves

---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 688180f..e1c8ab7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -524,6 +524,7 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_rtmp_session_t             *ss;
     ngx_rtmp_live_ctx_t            *ctx, **cctx, *pctx;
     ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_uint_t                      heard;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
     if (lacf == NULL) {
@@ -544,12 +545,15 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "live: leave '%s'", ctx->stream->name);
 
-    if (s->publishing) {
-        ngx_map_delete(&s->live_stream->pubctx, (intptr_t) ctx->pubpri);
-    }
+    heard = 0;
+
+    if (ctx->publishing) {
+        heard = (ngx_map_rbegin(&ctx->stream->pubctx) == &ctx->node);
+        ngx_map_delete(&ctx->stream->pubctx, (intptr_t) ctx->pubpri);
 
-    if (ctx->stream->publishing && ctx->publishing) {
-        ctx->stream->publishing = 0;
+        if (ctx->idle_evt.timer_set) {
+            ngx_del_timer(&ctx->idle_evt);
+        }
     }
 
     for (cctx = &ctx->stream->ctx; *cctx; cctx = &(*cctx)->next) {
@@ -559,14 +563,35 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         }
     }
 
-    if (ctx->publishing || ctx->stream->active) {
-        ngx_rtmp_live_stop(s);
+    if (ctx->publishing && ngx_map_begin(&ctx->stream->pubctx) != NULL) {
+
+        /* the stream goes on, with the next publisher if this one was heard */
+        if (heard) {
+            for (pctx = ctx->stream->ctx; pctx; pctx = pctx->next) {
+                if (pctx->publishing == 0) {
+                    pctx->cs[0].active = 0;
+                    pctx->cs[0].dropped = 0;
+                    pctx->cs[1].active = 0;
+                    pctx->cs[1].dropped = 0;
+                }
+            }
+        }
+
+    } else {
+        if (ctx->publishing) {
+            ctx->stream->publishing = 0;
+            ctx->active = ctx->stream->active;
+        }
+
+        if (ctx->publishing || ctx->stream->active) {
+            ngx_rtmp_live_stop(s);
+        }
     }
 
     if (ctx->publishing) {
         ngx_rtmp_send_status(s, "NetStream.Unpublish.Success",
                              "status", "Stop publishing");
-        if (!lacf->idle_streams) {
+        if (!lacf->idle_streams && ngx_map_begin(&ctx->stream->pubctx) == NULL) {
             for (pctx = ctx->stream->ctx; pctx; pctx = pctx->next) {
                 if (pctx->publishing == 0) {
                     ss = pctx->session;
-- 
2.43.0


From 143d1b8eaaa72114a2e8af3d6148a55187424512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 012/104] fix: a joining player gets the cached GOP of the
 publisher which is heard

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index e1c8ab7..b9806c7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -1047,8 +1047,8 @@ static ngx_int_t
 ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
     ngx_rtmp_live_app_conf_t   *lacf;
-    ngx_rtmp_live_ctx_t        *ctx;
-    ngx_rtmp_session_t         *ps;
+    ngx_rtmp_live_ctx_t        *ctx, *pctx;
+    ngx_map_node_t             *node;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
 
@@ -1080,9 +1080,12 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         ngx_rtmp_send_sample_access(s);
     }
 
-    if (s->live_stream->publish_ctx && s->live_stream->publish_ctx->session) {
-        ps = s->live_stream->publish_ctx->session;
-        ngx_rtmp_gop_send(ps, s);
+    /* the publisher which is heard, others may have joined after it */
+    node = s->live_stream ? ngx_map_rbegin(&s->live_stream->pubctx) : NULL;
+    if (node) {
+        pctx = (ngx_rtmp_live_ctx_t *)
+               ((u_char *) node - offsetof(ngx_rtmp_live_ctx_t, node));
+        ngx_rtmp_gop_send(pctx->session, s);
     }
 
 next:
-- 
2.43.0


From ce94f81d42f4aa5d0b4eb54126666c277db07838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 013/104] fix: HTTP-TS muxer uses the codec headers in force,
 of the session it muxes

---
 .../mpegts/ngx_mpegts_live_module.c           | 87 +++++++++----------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bac711..8bb43cf 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -549,11 +549,7 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
-
-    if (ctx->aac_codec) {
-        return NGX_OK;
-    }
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (codec_ctx == NULL || codec_ctx->aac_header == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -561,16 +557,18 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->aac_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_aac_codec_t));
     if (ctx->aac_codec == NULL) {
-        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+        ctx->aac_codec = ngx_pcalloc(s->pool,
+                                     sizeof(ngx_mpegts_live_aac_codec_t));
+        if (ctx->aac_codec == NULL) {
+            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: aac_codec| alloc mpegts aac_codec failed");
-        return NGX_ERROR;
+            return NGX_ERROR;
+        }
     }
 
-    ctx->aac_codec->aac_header = ngx_rtmp_shared_alloc_frame(1024,
-                                    codec_ctx->aac_header->chain, 0);
-
+    /* the header can change in mid-stream */
+    ctx->aac_codec->aac_header = codec_ctx->aac_header;
     ctx->aac_codec->sample_rate = codec_ctx->sample_rate;
 
     return NGX_OK;
@@ -584,11 +582,7 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
-
-    if (ctx->avc_codec) {
-        return NGX_OK;
-    }
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -596,17 +590,20 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->avc_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_avc_codec_t));
     if (ctx->avc_codec == NULL) {
-        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+        ctx->avc_codec = ngx_pcalloc(s->pool,
+                                     sizeof(ngx_mpegts_live_avc_codec_t));
+        if (ctx->avc_codec == NULL) {
+            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: avc_codec| alloc mpegts avc_codec failed");
-        return NGX_ERROR;
+            return NGX_ERROR;
+        }
     }
 
+    /* the header can change in mid-stream */
     ctx->avc_codec->video_codec_id = codec_ctx->video_codec_id;
     ctx->avc_codec->avc_nal_bytes = codec_ctx->avc_nal_bytes;
-    ctx->avc_codec->avc_header = ngx_rtmp_shared_alloc_frame(1024,
-                                 codec_ctx->avc_header->chain, 0);
+    ctx->avc_codec->avc_header = codec_ctx->avc_header;
 
     return NGX_OK;
 }
@@ -861,15 +858,13 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
-        rc = ngx_mpegts_live_init_avc_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                       "rtmp-mpegts: h265_handler| init avc_codec failed");
-            return NGX_OK;
-        } else if (rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_avc_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                   "rtmp-mpegts: h265_handler| init avc_codec failed");
+        return NGX_OK;
+    } else if (rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     /* H265 is supported */
@@ -1191,15 +1186,13 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
-        rc = ngx_mpegts_live_init_avc_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                       "mpegts-mux: h264_handler| init avc_codec failed");
-            return NGX_OK;
-        } else if (rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_avc_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                   "mpegts-mux: h264_handler| init avc_codec failed");
+        return NGX_OK;
+    } else if (rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     /* H264 is supported */
@@ -1473,15 +1466,13 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->aac_codec == NULL) {
-        rc = ngx_mpegts_live_init_aac_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                    "rtmp-mpegts: aac_handler| init aac_codec failed");
-            return NGX_OK;
-        } else if(rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_aac_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                "rtmp-mpegts: aac_handler| init aac_codec failed");
+        return NGX_OK;
+    } else if(rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     if (ngx_rtmp_is_codec_header(in)) {
-- 
2.43.0


From 33a231ce5b77f3e1eda6d43af2d4cd9307fbfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 014/104] fix: crash when the publisher leaves before an
 HTTP-TS response has started

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 ++---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..7f861f5 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -95,7 +95,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     ngx_keyval_t            *h;
     ngx_chain_t              out;
     ngx_mpegts_http_ctx_t   *ctx;
-    ngx_rtmp_session_t      *s, *ps;
+    ngx_rtmp_session_t      *s;
 
     if (r->header_sent) {
         return NGX_OK;
@@ -103,7 +103,6 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_mpegts_http_module);
     s = ctx->session;
-    ps = s->live_stream->publish_ctx->session;
 
     r->headers_out.status = NGX_HTTP_OK;
     r->keepalive = 0; /* set Connection to closed */
@@ -127,7 +126,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     out.buf->last = ngx_cpymem(out.buf->pos,
         ngx_rtmp_mpegts_pat, 188);
 
-    ngx_rtmp_mpegts_gen_pmt(ps->vcodec, ps->acodec, s->log, out.buf->last);
+    ngx_rtmp_mpegts_gen_pmt(s->vcodec, s->acodec, s->log, out.buf->last);
     out.buf->last += 188;
 
     out.buf->flush = 1;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 8bb43cf..1bee31f 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1685,6 +1685,11 @@ ngx_mpegts_live_avframe(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 
     for (cctx = s->live_stream->mpegts_ctx; cctx; cctx = cctx->next) {
         ss = cctx->session;
+
+        /* for the program tables, the publisher may be gone when they are sent */
+        ss->vcodec = s->vcodec;
+        ss->acodec = s->acodec;
+
         ngx_mpegts_gop_send(s, ss);
 
         if (!s->connection->write->active) {
-- 
2.43.0


From f0499a5a7de6682ed7cc73ac618cf62e7cf6602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 015/104] fix: start HTTP-TS cache state anew for every publish

---
 .../mpegts/ngx_mpegts_gop_module.c            | 59 +++++++++++++++----
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 0491679..3717f5c 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -16,6 +16,8 @@ static ngx_rtmp_close_stream_pt         next_close_stream;
 static ngx_mpegts_video_pt next_mpegts_video;
 static ngx_mpegts_audio_pt next_mpegts_audio;
 
+static ngx_uint_t          ngx_mpegts_gop_id;
+
 static void *ngx_mpegts_gop_create_app_conf(ngx_conf_t *cf);
 static char *ngx_mpegts_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
        void *child);
@@ -35,6 +37,11 @@ typedef struct {
     /* 0 for not send, 1 for sending, 2 for sent */
     ngx_flag_t                  send_gop;
 
+    /* publisher: identity of cache
+     * player: identity of the cache it is sending
+     */
+    ngx_uint_t                  id;
+
     ngx_mpegts_frame_t         *keyframe;
 
     ngx_uint_t                  meta_version;
@@ -44,8 +51,8 @@ typedef struct {
 
     ngx_uint_t                  base_type;
 
-    /* only for publisher, must at last of ngx_mpegts_gop_ctx_t */
-    ngx_mpegts_frame_t         *cache[];
+    /* only for publisher */
+    ngx_mpegts_frame_t        **cache;
 } ngx_mpegts_gop_ctx_t;
 
 typedef struct {
@@ -338,14 +345,23 @@ ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
     if (ctx == NULL) {
-        ctx = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_gop_ctx_t)
-                          + s->out_queue * sizeof(ngx_mpegts_frame_t *));
+        ctx = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_gop_ctx_t));
         if (ctx == NULL) {
             return NGX_ERROR;
         }
         ngx_rtmp_set_ctx(s, ctx, ngx_mpegts_gop_module);
     }
 
+    if (ctx->cache == NULL) {
+        ngx_memzero(ctx, sizeof(ngx_mpegts_gop_ctx_t));
+        ctx->cache = ngx_pcalloc(s->pool,
+                                 s->out_queue * sizeof(ngx_mpegts_frame_t *));
+        if (ctx->cache == NULL) {
+            return NGX_ERROR;
+        }
+        ctx->id = ++ngx_mpegts_gop_id;
+    }
+
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -495,7 +511,8 @@ ngx_mpegts_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     sctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
-    if (sctx == NULL) { /* publisher doesn't publish av frame */
+    /* publisher doesn't publish av frame */
+    if (sctx == NULL || sctx->cache == NULL) {
         return NGX_DECLINED;
     }
 
@@ -508,6 +525,13 @@ ngx_mpegts_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_mpegts_gop_module);
     }
 
+    /* another publish has begun, position in the old cache is meaningless */
+    if (ssctx->id != sctx->id) {
+        ssctx->id = sctx->id;
+        ssctx->send_gop = 0;
+        ssctx->gop_pos = 0;
+    }
+
     if (ngx_mpegts_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
@@ -636,7 +660,8 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
     }
 
     sctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
-    if (sctx == NULL) { /* publisher doesn't publish av frame */
+    /* publisher doesn't publish av frame */
+    if (sctx == NULL || sctx->cache == NULL) {
         return NGX_DECLINED;
     }
 
@@ -649,6 +674,13 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         ngx_rtmp_set_ctx(ss, ssctx, ngx_mpegts_gop_module);
     }
 
+    /* another publish has begun, position in the old cache is meaningless */
+    if (ssctx->id != sctx->id) {
+        ssctx->id = sctx->id;
+        ssctx->send_gop = 0;
+        ssctx->gop_pos = 0;
+    }
+
     if (ngx_mpegts_gop_offset_frames(s, ss, time_offset, duration) == NGX_AGAIN)
     {
         return NGX_OK;
@@ -685,16 +717,17 @@ ngx_mpegts_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
-    if (!s->published) {
-        goto next;
-    }
-
     /* free cache in publisher */
-    while (ctx->gop_pos != ctx->gop_last) {
-        ngx_rtmp_shared_free_mpegts_frame(ctx->cache[ctx->gop_pos]);
-        ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
+    if (ctx->cache) {
+        while (ctx->gop_pos != ctx->gop_last) {
+            ngx_rtmp_shared_free_mpegts_frame(ctx->cache[ctx->gop_pos]);
+            ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
+        }
+        ngx_pfree(s->pool, ctx->cache);
     }
 
+    ngx_memzero(ctx, sizeof(ngx_mpegts_gop_ctx_t));
+
 next:
     return next_close_stream(s, v);
 }
-- 
2.43.0


From 245ef2619f1424cc72b4a3de9a4332e2f6618f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 016/104] fix: HTTP-TS continuity counters go on across
 publishers, refused and lower-priority publishers do not feed it

---
 .../mpegts/ngx_mpegts_live_module.c           | 32 ++++++++++++++-----
 modules/nginx-rtmp-module/ngx_rtmp.h          |  3 ++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bee31f..6d88d2b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -68,11 +68,9 @@ struct ngx_mpegts_live_ctx_s {
 
     /* video packet */
     ngx_mpegts_live_avc_codec_t  *avc_codec;
-    ngx_uint_t                    video_cc;
 
     /* audio packet */
     ngx_mpegts_live_aac_codec_t  *aac_codec;
-    ngx_uint_t                    audio_cc;
     uint64_t                      aframe_pts;
     ngx_uint_t                    aframe_num;
     ngx_msec_t                    aframe_base;
@@ -657,7 +655,7 @@ ngx_mpegts_live_flush_audio(ngx_rtmp_session_t *s)
 
     frame->dts = ctx->aframe_pts;
     frame->pts = ctx->aframe_pts;
-    frame->cc = ctx->audio_cc;
+    frame->cc = s->live_stream->mpegts_audio_cc;
     frame->pid = 0x101;
     frame->sid = 0xc0;
     frame->type = NGX_MPEGTS_MSG_AUDIO;
@@ -671,7 +669,7 @@ ngx_mpegts_live_flush_audio(ngx_rtmp_session_t *s)
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                       "rtmp-mpegts: flush_audio| flush failed");
     } else {
-        ctx->audio_cc = frame->cc;
+        s->live_stream->mpegts_audio_cc = frame->cc;
         ngx_mpegts_live_audio_filter(s, frame);
     }
 
@@ -1113,7 +1111,7 @@ NAL_TRAIL_N:
     }
 
     /* continuity counter */
-    frame->cc = ctx->video_cc;
+    frame->cc = s->live_stream->mpegts_video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
     /* pts = dts + composition time */
     frame->pts = frame->dts + cts * 90;
@@ -1143,7 +1141,7 @@ NAL_TRAIL_N:
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                       "rtmp-mpegts: h264_handler| video frame failed");
     } else {
-        ctx->video_cc = frame->cc;
+        s->live_stream->mpegts_video_cc = frame->cc;
         ngx_mpegts_live_video_filter(s, frame);
     }
 
@@ -1348,7 +1346,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_ERROR;
     }
 
-    frame->cc = ctx->video_cc;
+    frame->cc = s->live_stream->mpegts_video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
     frame->pts = frame->dts + (cts * 90);
     frame->pid = 0x100;
@@ -1370,7 +1368,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                     "mpegts-mux: h264_handler| video frame failed");
     } else {
-        ctx->video_cc = frame->cc;
+        s->live_stream->mpegts_video_cc = frame->cc;
         ngx_mpegts_live_video_filter(s, frame);
     }
 
@@ -1611,6 +1609,9 @@ ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_frame_t          frame;
     ngx_rtmp_codec_ctx_t     *codec_ctx;
     ngx_rtmp_core_app_conf_t *cacf;
+    ngx_rtmp_live_app_conf_t *lacf;
+    ngx_rtmp_live_ctx_t      *pctx;
+    ngx_map_node_t           *node;
 
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
@@ -1632,6 +1633,21 @@ ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* only the publisher which is heard */
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+    if (lacf->live) {
+        node = s->live_stream ? ngx_map_rbegin(&s->live_stream->pubctx) : NULL;
+        if (node == NULL) {
+            return NGX_OK;
+        }
+
+        pctx = (ngx_rtmp_live_ctx_t *)
+               ((u_char *) node - offsetof(ngx_rtmp_live_ctx_t, node));
+        if (pctx->session != s) {
+            return NGX_OK;
+        }
+    }
+
     ngx_memzero(&frame, sizeof(frame));
 
     frame.hdr = *h;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 3ee5b1f..5b18144 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -465,6 +465,9 @@ struct ngx_live_stream_s {
     ngx_map_t                   pubctx;
     ngx_rtmp_live_ctx_t        *ctx;
     ngx_mpegts_live_ctx_t      *mpegts_ctx;
+    /* continuity counters go on when the publisher changes */
+    ngx_uint_t                  mpegts_video_cc;
+    ngx_uint_t                  mpegts_audio_cc;
     ngx_hls_live_ctx_t         *hls_ctx;
     ngx_rtmp_bandwidth_t        bw_in;
     ngx_rtmp_bandwidth_t        bw_in_audio;
-- 
2.43.0


From 506668a9e585072a80aedbb9e79cca8fdc03577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 017/104] fix: sys_stat leaked its whole JSON tree on every
 request

---
 modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
index 96e36d9..1c088ae 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
@@ -182,17 +182,23 @@ ngx_rtmp_sys_stat_handler(ngx_http_request_t *r)
     ngx_live_stat(live_stream);
 
     json_out = (u_char *) cJSON_Print(root);
+    cJSON_Delete(root);
+    if (json_out == NULL) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
 
     len = ngx_strlen(json_out);
 
     out = ngx_alloc_chain_link(r->pool);
     if (out == NULL) {
+        free(json_out);
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
     out->next = NULL;
 
     b = ngx_create_temp_buf(r->pool, len + 1);
     if (b == NULL) {
+        free(json_out);
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
     out->buf = b;
-- 
2.43.0


From a04204202318976e34fb1ef032a25ca21ffec825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 018/104] fix: crash in dash when a stream has only one of
 audio and video at its first fragment

---
 .../dash/ngx_rtmp_dash_module.c               | 68 ++++++++++---------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index b494606..c977eac 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -61,6 +61,8 @@ typedef struct {
     unsigned                            opened:1;
     unsigned                            has_video:1;
     unsigned                            has_audio:1;
+    unsigned                            video_init:1;
+    unsigned                            audio_init:1;
 
     ngx_file_t                          video_file;
     ngx_file_t                          audio_file;
@@ -239,9 +241,7 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
-    if (ctx->id == 0) {
-        ngx_rtmp_dash_write_init_segments(s);
-    }
+    ngx_rtmp_dash_write_init_segments(s);
 
     fd = ngx_open_file(ctx->playlist_bak.data, NGX_FILE_WRONLY,
                        NGX_FILE_TRUNCATE, NGX_FILE_DEFAULT_ACCESS);
@@ -446,33 +446,26 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 
 
 static ngx_int_t
-ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
+ngx_rtmp_dash_write_init_segment(ngx_rtmp_session_t *s,
+    ngx_rtmp_mp4_track_type_t ttype, char type)
 {
     ngx_fd_t               fd;
     ngx_int_t              rc;
     ngx_buf_t              b;
     ngx_rtmp_dash_ctx_t   *ctx;
-    ngx_rtmp_codec_ctx_t  *codec_ctx;
 
     static u_char          buffer[NGX_RTMP_DASH_BUFSIZE];
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_dash_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
-
-    if (ctx == NULL || codec_ctx == NULL) {
-        return NGX_ERROR;
-    }
 
-    /* init video */
-
-    *ngx_sprintf(ctx->stream.data + ctx->stream.len, "init.m4v") = 0;
+    *ngx_sprintf(ctx->stream.data + ctx->stream.len, "init.m4%c", type) = 0;
 
     fd = ngx_open_file(ctx->stream.data, NGX_FILE_RDWR, NGX_FILE_TRUNCATE,
                        NGX_FILE_DEFAULT_ACCESS);
 
     if (fd == NGX_INVALID_FILE) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                      "dash: error creating video init file");
+                      "dash: error creating init file");
         return NGX_ERROR;
     }
 
@@ -481,41 +474,52 @@ ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
     b.pos = b.last = b.start;
 
     ngx_rtmp_mp4_write_ftyp(&b);
-    ngx_rtmp_mp4_write_moov(s, &b, NGX_RTMP_MP4_VIDEO_TRACK);
+    ngx_rtmp_mp4_write_moov(s, &b, ttype);
 
     rc = ngx_write_fd(fd, b.start, (size_t) (b.last - b.start));
     if (rc == NGX_ERROR) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                      "dash: writing video init failed");
+                      "dash: writing init failed");
     }
 
     ngx_close_file(fd);
 
-    /* init audio */
+    return NGX_OK;
+}
 
-    *ngx_sprintf(ctx->stream.data + ctx->stream.len, "init.m4a") = 0;
 
-    fd = ngx_open_file(ctx->stream.data, NGX_FILE_RDWR, NGX_FILE_TRUNCATE,
-                       NGX_FILE_DEFAULT_ACCESS);
+static ngx_int_t
+ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_dash_ctx_t   *ctx;
+    ngx_rtmp_codec_ctx_t  *codec_ctx;
 
-    if (fd == NGX_INVALID_FILE) {
-        ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                      "dash: error creating dash audio init file");
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_dash_module);
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+
+    if (ctx == NULL || codec_ctx == NULL) {
         return NGX_ERROR;
     }
 
-    b.pos = b.last = b.start;
-
-    ngx_rtmp_mp4_write_ftyp(&b);
-    ngx_rtmp_mp4_write_moov(s, &b, NGX_RTMP_MP4_AUDIO_TRACK);
+    /* init segments are written once their track has been seen */
 
-    rc = ngx_write_fd(fd, b.start, (size_t) (b.last - b.start));
-    if (rc == NGX_ERROR) {
-        ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                      "dash: writing audio init failed");
+    if (ctx->has_video && !ctx->video_init && codec_ctx->avc_header) {
+        if (ngx_rtmp_dash_write_init_segment(s, NGX_RTMP_MP4_VIDEO_TRACK, 'v')
+            != NGX_OK)
+        {
+            return NGX_ERROR;
+        }
+        ctx->video_init = 1;
     }
 
-    ngx_close_file(fd);
+    if (ctx->has_audio && !ctx->audio_init && codec_ctx->aac_header) {
+        if (ngx_rtmp_dash_write_init_segment(s, NGX_RTMP_MP4_AUDIO_TRACK, 'a')
+            != NGX_OK)
+        {
+            return NGX_ERROR;
+        }
+        ctx->audio_init = 1;
+    }
 
     return NGX_OK;
 }
-- 
2.43.0


From 44d9443984c50da1f83ca9116daf0db74c927732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 019/104] fix: dash looped forever when its raw file is shorter
 than the data counted for it

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index c977eac..eccccc3 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -606,7 +606,7 @@ ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
     while (left > 0) {
 
         n = ngx_read_fd(t->fd, buffer, ngx_min(sizeof(buffer), left));
-        if (n == NGX_ERROR) {
+        if (n == NGX_ERROR || n == 0) {
             break;
         }
 
-- 
2.43.0


From b3b8bbc6209c7f7beb1a5daea34e2528b699725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 020/104] fix: an HTTP-FLV or HTTP-TS client that closes along
 with its request was never noticed

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 5 +++++
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..9b623be 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -693,6 +693,11 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_http_flv_live_write_handler;
 
+    /* the client may have closed along with its request */
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 7f861f5..aaf48e7 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -546,6 +546,11 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_mpegts_http_write_handler;
 
+    /* the client may have closed along with its request */
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
-- 
2.43.0


From 4ff41538d29d88347a54d0e7917599273be6d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 021/104] fix: dash stripped the codec header from messages
 other handlers still have to read (TS playback, recording)

---
 .../dash/ngx_rtmp_dash_module.c               | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index eccccc3..bfbd7df 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1114,6 +1114,7 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
+    ngx_int_t                  rc;
 
     dacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_dash_module);
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_dash_module);
@@ -1146,11 +1147,15 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx->has_audio = 1;
 
-    /* skip RTMP & AAC headers */
+    /* skip RTMP & AAC headers; other handlers get the same chain */
 
     in->buf->pos += 2;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->audio, 0, h->timestamp, 0);
+    rc = ngx_rtmp_dash_append(s, in, &ctx->audio, 0, h->timestamp, 0);
+
+    in->buf->pos -= 2;
+
+    return rc;
 }
 
 
@@ -1164,6 +1169,7 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
+    ngx_int_t                  rc;
 
     dacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_dash_module);
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_dash_module);
@@ -1203,12 +1209,16 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx->has_video = 1;
 
-    /* skip RTMP & H264 headers */
+    /* skip RTMP & H264 headers; other handlers get the same chain */
 
     in->buf->pos += 5;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->video, ftype == 1, h->timestamp,
-                                delay);
+    rc = ngx_rtmp_dash_append(s, in, &ctx->video, ftype == 1, h->timestamp,
+                              delay);
+
+    in->buf->pos -= 5;
+
+    return rc;
 }
 
 
-- 
2.43.0


From 01f89198897c9ee3f8b01b896fe2facda3eb80ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 022/104] fix: a publisher that is refused (or not yet
 admitted) truncated the recording of the active one

---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 24 +++++++++++++++++++
 .../nginx-rtmp-module/ngx_rtmp_live_module.h  |  4 ++++
 .../ngx_rtmp_record_module.c                  | 23 ++++++++++++++++--
 .../ngx_rtmp_record_module.h                  |  1 +
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index b9806c7..5e9223e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -380,6 +380,30 @@ ngx_rtmp_live_stop(ngx_rtmp_session_t *s)
 }
 
 
+ngx_int_t
+ngx_rtmp_live_heard(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_rtmp_live_ctx_t            *pctx;
+    ngx_map_node_t                 *node;
+
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+    if (lacf == NULL || !lacf->live) {
+        return 1;
+    }
+
+    node = s->live_stream ? ngx_map_rbegin(&s->live_stream->pubctx) : NULL;
+    if (node == NULL) {
+        return 0;
+    }
+
+    pctx = (ngx_rtmp_live_ctx_t *)
+           ((u_char *) node - offsetof(ngx_rtmp_live_ctx_t, node));
+
+    return pctx->session == s;
+}
+
+
 static ngx_int_t
 ngx_rtmp_live_stream_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v)
 {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
index cd9896a..7c3abbc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
@@ -60,6 +60,10 @@ typedef struct {
 } ngx_rtmp_live_app_conf_t;
 
 
+/* whether s is the publisher which feeds its stream at the moment */
+ngx_int_t ngx_rtmp_live_heard(ngx_rtmp_session_t *s);
+
+
 extern ngx_module_t  ngx_rtmp_live_module;
 
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..fec5470 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -10,6 +10,7 @@
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
 #include "ngx_rtmp_record_module.h"
+#include "ngx_rtmp_live_module.h"
 
 
 ngx_rtmp_record_done_pt             ngx_rtmp_record_done;
@@ -691,6 +692,8 @@ ngx_rtmp_record_stop(ngx_rtmp_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: stop");
 
+    ctx->started = 0;
+
     rctx = ctx->rec.elts;
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
         ngx_rtmp_record_node_close(s, rctx);
@@ -739,7 +742,8 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         }
     }
 
-    ngx_rtmp_record_start(s);
+    /* files are opened once the publisher is admitted and heard */
+    ctx->started = 0;
 
 next:
     return next_publish(s, v);
@@ -756,7 +760,9 @@ ngx_rtmp_record_stream_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: stream_begin");
 
-    ngx_rtmp_record_start(s);
+    if (ngx_rtmp_live_heard(s)) {
+        ngx_rtmp_record_start(s);
+    }
 
 next:
     return next_stream_begin(s, v);
@@ -1005,6 +1011,19 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* a refused publisher must not touch the files of the active one */
+    if (!ngx_rtmp_live_heard(s)) {
+        if (ctx->started) {
+            ngx_rtmp_record_stop(s);
+        }
+        return NGX_OK;
+    }
+
+    if (!ctx->started) {
+        ngx_rtmp_record_start(s);
+        ctx->started = 1;
+    }
+
     rctx = ctx->rec.elts;
 
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
index 6450dcb..58fb2cd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
@@ -60,6 +60,7 @@ typedef struct {
     ngx_array_t                         rec; /* ngx_rtmp_record_rec_ctx_t */
     u_char                              name[NGX_RTMP_MAX_NAME];
     u_char                              args[NGX_RTMP_MAX_ARGS];
+    unsigned                            started:1;
 } ngx_rtmp_record_ctx_t;
 
 
-- 
2.43.0


From 24d7daf98a22a6a7835b1c73b50859361d6781cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 023/104] fix: a recorder went on writing to a descriptor it
 had closed after a write error

---
 .../ngx_rtmp_record_module.c                  | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index fec5470..32d7aa1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -881,6 +881,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
 {
     u_char                      hdr[11], *p, *ph;
     uint32_t                    timestamp, tag_size;
+    off_t                       start;
     ngx_rtmp_record_app_conf_t *rracf;
 
     rracf = rctx->conf;
@@ -926,14 +927,12 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
 
     tag_size = (ph - hdr) + h->mlen;
 
+    start = rctx->file.offset;
+
     if (ngx_write_file(&rctx->file, hdr, ph - hdr, rctx->file.offset)
         == NGX_ERROR)
     {
-        ngx_rtmp_record_notify_error(s, rctx);
-
-        ngx_close_file(rctx->file.fd);
-
-        return NGX_ERROR;
+        goto failed;
     }
 
     /* write tag body
@@ -951,7 +950,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
-            return NGX_ERROR;
+            goto failed;
         }
     }
 
@@ -968,7 +967,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
-        return NGX_ERROR;
+        goto failed;
     }
 
     rctx->nframes += inc_nframes;
@@ -981,6 +980,19 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     }
 
     return NGX_OK;
+
+failed:
+    ngx_rtmp_record_notify_error(s, rctx);
+
+    /* keep whole tags only */
+    if (ftruncate(rctx->file.fd, start) == -1) {
+        ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                      "record: %V failed to truncate", &rracf->id);
+    }
+
+    ngx_rtmp_record_node_close(s, rctx);
+
+    return NGX_ERROR;
 }
 
 
@@ -1106,15 +1118,23 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
 
     if (!rctx->initialized) {
 
-        rctx->initialized = 1;
         rctx->epoch = h->timestamp - rctx->time_shift;
 
         if (rctx->file.offset == 0 &&
             ngx_rtmp_record_write_header(&rctx->file) != NGX_OK)
         {
+            ngx_rtmp_record_notify_error(s, rctx);
+
+            if (ftruncate(rctx->file.fd, 0) == -1) {
+                ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                              "record: %V failed to truncate", &rracf->id);
+            }
+
             ngx_rtmp_record_node_close(s, rctx);
             return NGX_OK;
         }
+
+        rctx->initialized = 1;
     }
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
-- 
2.43.0


From c43e53d1f8161b13f907c6f2217af794dc9c24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 024/104] fix: a recorder went on without its file when a codec
 header reached record_max_size

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 32d7aa1..21073c1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1160,6 +1160,11 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->aac_header_sent = 1;
+
+            /* the header may have hit the size limit */
+            if (rctx->file.fd == NGX_INVALID_FILE) {
+                return NGX_OK;
+            }
         }
 
         /* AVC header */
@@ -1182,6 +1187,10 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->avc_header_sent = 1;
+
+            if (rctx->file.fd == NGX_INVALID_FILE) {
+                return NGX_OK;
+            }
         }
     }
 
-- 
2.43.0


From e4cc7b4af1ad3008f7d3a9155cdbc7fb7ebea073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 025/104] fix: a recording that starts with an old AVC header
 never got the one that replaced it before the first keyframe

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 21073c1..1c890ea 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1167,7 +1167,14 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
         }
 
-        /* AVC header */
+        /* AVC header, replaced before the first keyframe */
+        if (h->type == NGX_RTMP_MSG_VIDEO && !rctx->video_key_sent &&
+            codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264 &&
+            ngx_rtmp_is_codec_header(in))
+        {
+            rctx->avc_header_sent = 0;
+        }
+
         if (!rctx->avc_header_sent && codec_ctx->avc_header &&
            (rracf->flags & (NGX_RTMP_RECORD_VIDEO|
                             NGX_RTMP_RECORD_KEYFRAMES)))
-- 
2.43.0


From 5a0b7f9e11a5e2883520e040ef41c41d60e89135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 026/104] fix: appending to a recording whose last tag is torn
 (crash, full disk) made it unreadable

---
 .../ngx_rtmp_record_module.c                  | 69 +++++++++++++++++--
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 1c890ea..4d5835e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -431,6 +431,49 @@ ngx_rtmp_record_notify_error(ngx_rtmp_session_t *s,
 }
 
 
+/* finds the end of the last whole tag, for files whose tail was torn */
+static off_t
+ngx_rtmp_record_last_tag(ngx_file_t *file, off_t file_size,
+                         uint32_t *timestamp)
+{
+    u_char                      buf[11], size[4];
+    off_t                       end;
+    uint32_t                    mlen;
+
+    *timestamp = 0;
+
+    if (file_size < 13 || ngx_read_file(file, buf, 3, 0) != 3 ||
+        ngx_memcmp(buf, "FLV", 3) != 0)
+    {
+        return 0;
+    }
+
+    end = 13;
+
+    while (end + 15 <= file_size) {
+        if (ngx_read_file(file, buf, 11, end) != 11) {
+            break;
+        }
+
+        mlen = (uint32_t) buf[1] << 16 | (uint32_t) buf[2] << 8 | buf[3];
+
+        if (end + 15 + (off_t) mlen > file_size ||
+            ngx_read_file(file, size, 4, end + 11 + mlen) != 4 ||
+            ((uint32_t) size[0] << 24 | (uint32_t) size[1] << 16 |
+             (uint32_t) size[2] << 8 | size[3]) != mlen + 11)
+        {
+            break;
+        }
+
+        *timestamp = (uint32_t) buf[7] << 24 | (uint32_t) buf[4] << 16 |
+                     (uint32_t) buf[5] << 8 | buf[6];
+        end += 15 + mlen;
+    }
+
+    return end;
+}
+
+
 static ngx_int_t
 ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
                           ngx_rtmp_record_rec_ctx_t *rctx)
@@ -440,7 +483,7 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
     ngx_str_t                   path;
     ngx_int_t                   mode, create_mode;
     u_char                      buf[8], *p;
-    off_t                       file_size;
+    off_t                       file_size, end;
     uint32_t                    tag_size, mlen, timestamp;
 
     rracf = rctx->conf;
@@ -527,13 +570,13 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         }
 
         if (file_size < 4) {
-            goto done;
+            goto repair;
         }
 
         if (ngx_read_file(&rctx->file, buf, 4, file_size - 4) != 4) {
             ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                           "record: %V tag size read failed", &rracf->id);
-            goto done;
+            goto repair;
         }
 
         p = (u_char *) &tag_size;
@@ -543,15 +586,14 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         p[3] = buf[0];
 
         if (tag_size == 0 || tag_size + 4 > file_size) {
-            file_size = 0;
-            goto done;
+            goto repair;
         }
 
         if (ngx_read_file(&rctx->file, buf, 8, file_size - tag_size - 4) != 8)
         {
             ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                           "record: %V tag read failed", &rracf->id);
-            goto done;
+            goto repair;
         }
 
         p = (u_char *) &mlen;
@@ -564,7 +606,7 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
             ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                           "record: %V tag size mismatch: "
                           "tag_size=%uD, mlen=%uD", &rracf->id, tag_size, mlen);
-            goto done;
+            goto repair;
         }
 
         p = (u_char *) &timestamp;
@@ -573,6 +615,19 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         p[1] = buf[5];
         p[2] = buf[4];
 
+        goto done;
+
+repair:
+        /* appending behind a torn tag would make the file unreadable */
+        end = ngx_rtmp_record_last_tag(&rctx->file, file_size, &timestamp);
+
+        if (end != file_size && ftruncate(rctx->file.fd, end) == -1) {
+            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                          "record: %V failed to truncate", &rracf->id);
+        }
+
+        file_size = end;
+
 done:
         rctx->file.offset = file_size;
         rctx->time_shift = timestamp;
-- 
2.43.0


From 992e352ebf9ee4deb44b9e0b1637db0a7bc3407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 027/104] fix: the index of every DASH segment pointed past its
 fragment (first_offset held the duration)

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index 98efe14..aedc3f1 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -1111,7 +1111,7 @@ ngx_rtmp_mp4_write_sidx(ngx_buf_t *b, ngx_uint_t reference_size,
     ngx_rtmp_mp4_field_32(b, earliest_pres_time);
 
     /* first offset */
-    ngx_rtmp_mp4_field_32(b, duration); /*TODO*/
+    ngx_rtmp_mp4_field_32(b, 0);
 
     /* reserved */
     ngx_rtmp_mp4_field_16(b, 0);
-- 
2.43.0


From 8abb66f8afc3e2a33292c4eac61f632eebdb8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 028/104] fix: a failed or short write of DASH files ended the
 publisher or left incomplete files listed

---
 .../dash/ngx_rtmp_dash_module.c               | 121 +++++++++++++-----
 1 file changed, 91 insertions(+), 30 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index bfbd7df..d3be4ae 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -36,6 +36,7 @@ typedef struct {
 typedef struct {
     ngx_uint_t                          id;
     ngx_uint_t                          opened;
+    ngx_uint_t                          failed;
     ngx_uint_t                          mdat_size;
     ngx_uint_t                          sample_count;
     ngx_uint_t                          sample_mask;
@@ -214,14 +215,47 @@ ngx_rtmp_dash_rename_file(u_char *src, u_char *dst)
 }
 
 
+/*
+ * a write may be cut short by a full disk or a signal: whatever is not
+ * written completely must not be taken for written
+ */
+
+static ngx_int_t
+ngx_rtmp_dash_write(ngx_rtmp_session_t *s, ngx_fd_t fd, u_char *buf,
+    size_t size)
+{
+    ssize_t                    n;
+
+    while (size > 0) {
+
+        n = ngx_write_fd(fd, buf, size);
+
+        if (n == -1 && ngx_errno == NGX_EINTR) {
+            continue;
+        }
+
+        if (n <= 0) {
+            ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                          "dash: " ngx_write_fd_n " failed");
+            return NGX_ERROR;
+        }
+
+        buf += n;
+        size -= n;
+    }
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 {
     char                      *sep;
     u_char                    *p, *last;
-    ssize_t                    n;
     ngx_fd_t                   fd;
     struct tm                  tm;
+    ngx_int_t                  rc;
     ngx_str_t                  noname, *name;
     ngx_uint_t                 i;
     ngx_rtmp_dash_ctx_t       *ctx;
@@ -241,7 +275,9 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
-    ngx_rtmp_dash_write_init_segments(s);
+    if (ngx_rtmp_dash_write_init_segments(s) != NGX_OK) {
+        return NGX_ERROR;
+    }
 
     fd = ngx_open_file(ctx->playlist_bak.data, NGX_FILE_WRONLY,
                        NGX_FILE_TRUNCATE, NGX_FILE_DEFAULT_ACCESS);
@@ -365,7 +401,7 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
      *     2 * minBufferTime + max_fragment_length + 1
      */
 
-    n = ngx_write_fd(fd, buffer, p - buffer);
+    rc = ngx_rtmp_dash_write(s, fd, buffer, p - buffer);
 
     ngx_str_null(&noname);
 
@@ -396,7 +432,9 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 
         p = ngx_slprintf(p, last, NGX_RTMP_DASH_MANIFEST_VIDEO_FOOTER);
 
-        n = ngx_write_fd(fd, buffer, p - buffer);
+        if (rc == NGX_OK) {
+            rc = ngx_rtmp_dash_write(s, fd, buffer, p - buffer);
+        }
     }
 
     if (ctx->has_audio) {
@@ -417,13 +455,18 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 
         p = ngx_slprintf(p, last, NGX_RTMP_DASH_MANIFEST_AUDIO_FOOTER);
 
-        n = ngx_write_fd(fd, buffer, p - buffer);
+        if (rc == NGX_OK) {
+            rc = ngx_rtmp_dash_write(s, fd, buffer, p - buffer);
+        }
     }
 
     p = ngx_slprintf(buffer, last, NGX_RTMP_DASH_MANIFEST_FOOTER);
-    n = ngx_write_fd(fd, buffer, p - buffer);
 
-    if (n < 0) {
+    if (rc == NGX_OK) {
+        rc = ngx_rtmp_dash_write(s, fd, buffer, p - buffer);
+    }
+
+    if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "dash: write failed: '%V'", &ctx->playlist_bak);
         ngx_close_file(fd);
@@ -476,15 +519,11 @@ ngx_rtmp_dash_write_init_segment(ngx_rtmp_session_t *s,
     ngx_rtmp_mp4_write_ftyp(&b);
     ngx_rtmp_mp4_write_moov(s, &b, ttype);
 
-    rc = ngx_write_fd(fd, b.start, (size_t) (b.last - b.start));
-    if (rc == NGX_ERROR) {
-        ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                      "dash: writing init failed");
-    }
+    rc = ngx_rtmp_dash_write(s, fd, b.start, (size_t) (b.last - b.start));
 
     ngx_close_file(fd);
 
-    return NGX_OK;
+    return rc;
 }
 
 
@@ -525,21 +564,29 @@ ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
 }
 
 
-static void
+static ngx_int_t
 ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
 {
     u_char                    *pos, *pos1;
     size_t                     left;
     ssize_t                    n;
     ngx_fd_t                   fd;
+    ngx_int_t                  rc;
     ngx_buf_t                  b;
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_dash_frag_t      *f;
 
     static u_char              buffer[NGX_RTMP_DASH_BUFSIZE];
 
+    rc = NGX_ERROR;
+
     if (!t->opened) {
-        return;
+        return rc;
+    }
+
+    if (t->failed) {
+        fd = NGX_INVALID_FILE;
+        goto done;
     }
 
     ngx_log_debug3(NGX_LOG_DEBUG_RTMP, s->log, 0,
@@ -583,7 +630,9 @@ ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
         goto done;
     }
 
-    if (ngx_write_fd(fd, b.pos, (size_t) (b.last - b.pos)) == NGX_ERROR) {
+    if (ngx_rtmp_dash_write(s, fd, b.pos, (size_t) (b.last - b.pos))
+        != NGX_OK)
+    {
         goto done;
     }
 
@@ -607,17 +656,18 @@ ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
 
         n = ngx_read_fd(t->fd, buffer, ngx_min(sizeof(buffer), left));
         if (n == NGX_ERROR || n == 0) {
-            break;
+            goto done;
         }
 
-        n = ngx_write_fd(fd, buffer, (size_t) n);
-        if (n == NGX_ERROR) {
-            break;
+        if (ngx_rtmp_dash_write(s, fd, buffer, (size_t) n) != NGX_OK) {
+            goto done;
         }
 
         left -= n;
     }
 
+    rc = NGX_OK;
+
 done:
 
     if (fd != NGX_INVALID_FILE) {
@@ -628,12 +678,15 @@ done:
 
     t->fd = NGX_INVALID_FILE;
     t->opened = 0;
+
+    return rc;
 }
 
 
 static ngx_int_t
 ngx_rtmp_dash_close_fragments(ngx_rtmp_session_t *s)
 {
+    ngx_int_t             rc;
     ngx_rtmp_dash_ctx_t  *ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_dash_module);
@@ -644,12 +697,18 @@ ngx_rtmp_dash_close_fragments(ngx_rtmp_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "dash: close fragments");
 
-    ngx_rtmp_dash_close_fragment(s, &ctx->video);
-    ngx_rtmp_dash_close_fragment(s, &ctx->audio);
+    rc = ngx_rtmp_dash_close_fragment(s, &ctx->video);
 
-    ngx_rtmp_dash_next_frag(s);
+    if (ngx_rtmp_dash_close_fragment(s, &ctx->audio) != NGX_OK) {
+        rc = NGX_ERROR;
+    }
+
+    /* a fragment that could not be written is not listed */
 
-    ngx_rtmp_dash_write_playlist(s);
+    if (rc == NGX_OK) {
+        ngx_rtmp_dash_next_frag(s);
+        ngx_rtmp_dash_write_playlist(s);
+    }
 
     ctx->id++;
     ctx->opened = 0;
@@ -690,6 +749,7 @@ ngx_rtmp_dash_open_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t,
     t->earliest_pres_time = 0;
     t->latest_pres_time = 0;
     t->mdat_size = 0;
+    t->failed = 0;
     t->opened = 1;
 
     if (type == 'v') {
@@ -1077,12 +1137,13 @@ ngx_rtmp_dash_append(ngx_rtmp_session_t *s, ngx_chain_t *in,
 
     t->latest_pres_time = timestamp;
 
-    if (t->sample_count < NGX_RTMP_DASH_MAX_SAMPLES) {
-
-        if (ngx_write_fd(t->fd, buffer, size) == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
-                          "dash: " ngx_write_fd_n " failed");
-            return NGX_ERROR;
+    if (t->opened && !t->failed
+        && t->sample_count < NGX_RTMP_DASH_MAX_SAMPLES)
+    {
+        if (ngx_rtmp_dash_write(s, t->fd, buffer, size) != NGX_OK) {
+            /* the fragment is lost, not the stream */
+            t->failed = 1;
+            return NGX_OK;
         }
 
         smpl = &t->samples[t->sample_count];
-- 
2.43.0


From 66c7d5c3a9c0149e28c2613526f4a0c2fa0a48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 029/104] fix: dash dropped whatever a fragment held beyond
 1024 samples

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index d3be4ae..1c81777 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1091,6 +1091,12 @@ ngx_rtmp_dash_update_fragments(ngx_rtmp_session_t *s, ngx_int_t boundary,
         boundary = 1;
     }
 
+    if (ctx->audio.sample_count >= NGX_RTMP_DASH_MAX_SAMPLES
+        || ctx->video.sample_count >= NGX_RTMP_DASH_MAX_SAMPLES)
+    {
+        boundary = 1;
+    }
+
     if (!ctx->opened) {
         boundary = 1;
     }
-- 
2.43.0


From 528e9d305588cf78a2f326ab617b5821693095e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 030/104] fix: a refused publisher wrote into the DASH segments
 of the active one

---
 .../nginx-rtmp-module/dash/ngx_rtmp_dash_module.c    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 1c81777..7c82d0b 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1193,6 +1193,12 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* not admitted yet, refused, or another publisher has taken over */
+
+    if (!ngx_rtmp_live_heard(s)) {
+        return NGX_OK;
+    }
+
     /* Only AAC is supported */
 
     if (codec_ctx->audio_codec_id != NGX_RTMP_AUDIO_AAC ||
@@ -1248,6 +1254,12 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* not admitted yet, refused, or another publisher has taken over */
+
+    if (!ngx_rtmp_live_heard(s)) {
+        return NGX_OK;
+    }
+
     /* Only H264 is supported */
 
     if (codec_ctx->video_codec_id != NGX_RTMP_VIDEO_H264) {
-- 
2.43.0


From 24f53dfbe1ac16c26ccb01d539f935d687771fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 031/104] fix: HLS listed segments and published playlists that
 a failed or short write left incomplete

---
 .../hls/ngx_rtmp_hls_module.c                 | 63 ++++++++++++++-----
 .../nginx-rtmp-module/hls/ngx_rtmp_mpegts.c   | 58 ++++++++++++-----
 .../nginx-rtmp-module/hls/ngx_rtmp_mpegts.h   |  1 +
 3 files changed, 93 insertions(+), 29 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 35f1c6e..a9621a9 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -50,6 +50,7 @@ typedef struct {
 
 typedef struct {
     unsigned                            opened:1;
+    unsigned                            lost:1; /* media since last frag */
 
     ngx_rtmp_mpegts_file_t              file;
 
@@ -386,13 +387,37 @@ ngx_rtmp_hls_rename_file(u_char *src, u_char *dst)
 }
 
 
+static ngx_int_t
+ngx_rtmp_hls_write(ngx_fd_t fd, u_char *buf, size_t size)
+{
+    ssize_t  n;
+
+    while (size > 0) {
+
+        n = ngx_write_fd(fd, buf, size);
+
+        if (n == -1 && ngx_errno == NGX_EINTR) {
+            continue;
+        }
+
+        if (n <= 0) {
+            return NGX_ERROR;
+        }
+
+        buf += n;
+        size -= n;
+    }
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_rtmp_hls_write_variant_playlist(ngx_rtmp_session_t *s)
 {
     static u_char             buffer[1024];
 
     u_char                   *p, *last;
-    ssize_t                   rc;
     ngx_fd_t                  fd;
     ngx_str_t                *arg;
     ngx_uint_t                n, k;
@@ -416,9 +441,10 @@ ngx_rtmp_hls_write_variant_playlist(ngx_rtmp_session_t *s)
 
 #define NGX_RTMP_HLS_VAR_HEADER "#EXTM3U\n#EXT-X-VERSION:3\n"
 
-    rc = ngx_write_fd(fd, NGX_RTMP_HLS_VAR_HEADER,
-                      sizeof(NGX_RTMP_HLS_VAR_HEADER) - 1);
-    if (rc < 0) {
+    if (ngx_rtmp_hls_write(fd, (u_char *) NGX_RTMP_HLS_VAR_HEADER,
+                           sizeof(NGX_RTMP_HLS_VAR_HEADER) - 1)
+        != NGX_OK)
+    {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "hls: " ngx_write_fd_n " failed: '%V'",
                       &ctx->var_playlist_bak);
@@ -453,8 +479,7 @@ ngx_rtmp_hls_write_variant_playlist(ngx_rtmp_session_t *s)
 
         p = ngx_slprintf(p, last, "%s", ".m3u8\n");
 
-        rc = ngx_write_fd(fd, buffer, p - buffer);
-        if (rc < 0) {
+        if (ngx_rtmp_hls_write(fd, buffer, p - buffer) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                           "hls: " ngx_write_fd_n " failed '%V'",
                           &ctx->var_playlist_bak);
@@ -486,7 +511,6 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
     ngx_fd_t                        fd;
     u_char                         *p, *end;
     ngx_rtmp_hls_ctx_t             *ctx;
-    ssize_t                         n;
     ngx_rtmp_hls_app_conf_t        *hacf;
     ngx_rtmp_hls_frag_t            *f;
     ngx_uint_t                      i, max_frag;
@@ -531,8 +555,7 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
         p = ngx_slprintf(p, end, "#EXT-X-PLAYLIST-TYPE: EVENT\n");
     }
 
-    n = ngx_write_fd(fd, buffer, p - buffer);
-    if (n < 0) {
+    if (ngx_rtmp_hls_write(fd, buffer, p - buffer) != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "hls: " ngx_write_fd_n " failed: '%V'",
                       &ctx->playlist_bak);
@@ -584,8 +607,7 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
                        "discont=%i",
                        ctx->frag, i + 1, ctx->nfrags, f->duration, f->discont);
 
-        n = ngx_write_fd(fd, buffer, p - buffer);
-        if (n < 0) {
+        if (ngx_rtmp_hls_write(fd, buffer, p - buffer) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                           "hls: " ngx_write_fd_n " failed '%V'",
                           &ctx->playlist_bak);
@@ -971,10 +993,17 @@ ngx_rtmp_hls_close_fragment(ngx_rtmp_session_t *s)
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: close fragment n=%uL", ctx->frag);
 
-    ngx_rtmp_mpegts_close_file(&ctx->file);
-
     ctx->opened = 0;
 
+    if (ngx_rtmp_mpegts_close_file(&ctx->file) != NGX_OK) {
+
+        /* never list an incomplete fragment, the next one reuses its place */
+
+        ctx->lost = 1;
+
+        return NGX_ERROR;
+    }
+
     ngx_rtmp_hls_next_frag(s);
 
     ngx_rtmp_hls_write_playlist(s);
@@ -1030,6 +1059,7 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             if (RAND_bytes(ctx->key, 16) < 0) {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                               "hls: failed to create key");
+                ctx->key_frags = 0;
                 return NGX_ERROR;
             }
 
@@ -1042,14 +1072,16 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
                 ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                               "hls: failed to open key file '%s'",
                               ctx->keyfile.data);
+                ctx->key_frags = 0;
                 return NGX_ERROR;
             }
 
-            if (ngx_write_fd(fd, ctx->key, 16) != 16) {
+            if (ngx_rtmp_hls_write(fd, ctx->key, 16) != NGX_OK) {
                 ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                               "hls: failed to write key file '%s'",
                               ctx->keyfile.data);
                 ngx_close_file(fd);
+                ctx->key_frags = 0;
                 return NGX_ERROR;
             }
 
@@ -1102,11 +1134,12 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
     ngx_memzero(f, sizeof(*f));
 
     f->active = 1;
-    f->discont = discont;
+    f->discont = (discont || ctx->lost);
     f->id = id;
     f->key_id = ctx->key_id;
 
     ctx->frag_ts = ts;
+    ctx->lost = 0;
 
     /* start fragment with audio to make iPhone happy */
 
diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
index 110dfca..3037f51 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
@@ -211,6 +211,45 @@ ngx_rtmp_mpegts_gen_pmt(ngx_int_t vcodec, ngx_int_t acodec,
 }
 
 
+/*
+ * a write may fail or be cut short (full disk, I/O error): the file is of
+ * no use then, since nothing after the gap can be parsed or decrypted
+ */
+
+static ngx_int_t
+ngx_rtmp_mpegts_write_fd(ngx_rtmp_mpegts_file_t *file, u_char *in,
+    size_t in_size)
+{
+    ssize_t   rc;
+
+    if (file->failed) {
+        return NGX_ERROR;
+    }
+
+    while (in_size > 0) {
+
+        rc = ngx_write_fd(file->fd, in, in_size);
+
+        if (rc == -1 && ngx_errno == NGX_EINTR) {
+            continue;
+        }
+
+        if (rc <= 0) {
+            ngx_log_error(NGX_LOG_ERR, file->log, ngx_errno,
+                          "hls: error writing fragment file");
+            file->failed = 1;
+            return NGX_ERROR;
+        }
+
+        file->file_size += rc;
+        in += rc;
+        in_size -= rc;
+    }
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_rtmp_mpegts_write_file(ngx_rtmp_mpegts_file_t *file, u_char *in,
     size_t in_size)
@@ -226,12 +265,7 @@ ngx_rtmp_mpegts_write_file(ngx_rtmp_mpegts_file_t *file, u_char *in,
                        "mpegts: write %uz bytes", in_size);
 
         if (file->whandle == NULL) {
-            rc = ngx_write_fd(file->fd, in, in_size);
-            if (rc < 0) {
-                return NGX_ERROR;
-            }
-
-            file->file_size += rc;
+            return ngx_rtmp_mpegts_write_fd(file, in, in_size);
         } else {
             rc = file->whandle(file, in, in_size);
             if (rc < 0) {
@@ -281,8 +315,7 @@ ngx_rtmp_mpegts_write_file(ngx_rtmp_mpegts_file_t *file, u_char *in,
             break;
         }
 
-        rc = ngx_write_fd(file->fd, buf, out - buf + n);
-        if (rc < 0) {
+        if (ngx_rtmp_mpegts_write_fd(file, buf, out - buf + n) != NGX_OK) {
             return NGX_ERROR;
         }
 
@@ -523,6 +556,7 @@ ngx_rtmp_mpegts_open_file(ngx_rtmp_mpegts_file_t *file, u_char *path,
     }
 
     file->size = 0;
+    file->failed = 0;
 
     if (ngx_rtmp_mpegts_write_header(file) != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, log, ngx_errno,
@@ -539,20 +573,16 @@ ngx_int_t
 ngx_rtmp_mpegts_close_file(ngx_rtmp_mpegts_file_t *file)
 {
     u_char   buf[16];
-    ssize_t  rc;
 
     if (file->encrypt) {
         ngx_memset(file->buf + file->size, 16 - file->size, 16 - file->size);
 
         AES_cbc_encrypt(file->buf, buf, 16, &file->key, file->iv, AES_ENCRYPT);
 
-        rc = ngx_write_fd(file->fd, buf, 16);
-        if (rc < 0) {
-            return NGX_ERROR;
-        }
+        ngx_rtmp_mpegts_write_fd(file, buf, 16);
     }
 
     ngx_close_file(file->fd);
 
-    return NGX_OK;
+    return file->failed ? NGX_ERROR : NGX_OK;
 }
diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.h b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.h
index a4a16a6..28ee931 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.h
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.h
@@ -25,6 +25,7 @@ struct ngx_rtmp_mpegts_file_s {
     ngx_log_t  *log;
     off_t       file_size;
     unsigned    encrypt:1;
+    unsigned    failed:1;
     unsigned    size:4;
     u_char      buf[16];
     u_char      iv[16];
-- 
2.43.0


From b4f82b6994b80f8ac1bd230df8b6eca40e57ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 032/104] fix: HLS lost the audio still buffered when its
 publisher left

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index a9621a9..c062ef3 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1669,6 +1669,8 @@ ngx_rtmp_hls_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: close stream");
 
+    ngx_rtmp_hls_flush_audio(s);
+
     ngx_rtmp_hls_close_fragment(s);
 
 next:
-- 
2.43.0


From 90877b91975ee7f3a3f713f78b2fc3cc6ffeeeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 033/104] fix: HLS wrote a truncated audio frame when its
 buffer filled up before the first fragment

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index c062ef3..138ac17 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1939,6 +1939,13 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         ngx_rtmp_hls_flush_audio(s);
     }
 
+    if (b->last + size > b->end) {
+
+        /* no fragment to flush to yet: keep the most recent audio */
+
+        b->pos = b->last = b->start;
+    }
+
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: audio pts=%uL", pts);
 
-- 
2.43.0


From 2ad39762adc3b77b7ae23376e6e9223895587ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 034/104] fix: HLS gave segments an absurd duration when a
 timestamp fell just before the segment's start

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 138ac17..f0299ba 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1766,7 +1766,10 @@ ngx_rtmp_hls_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             force = 1;
 
         } else {
-            f->duration = (ts - ctx->frag_ts) / 90000.;
+            if (d > 0) {
+                f->duration = d / 90000.;
+            }
+
             discont = 0;
         }
     }
-- 
2.43.0


From 70b45e976100ab6f9b956b4849a1a5b0736efdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 035/104] fix: HLS overwrote a segment still listed when two
 segments got the same timestamp or system name

---
 .../nginx-rtmp-module/hls/ngx_rtmp_hls_module.c   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index f0299ba..8cae91c 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1018,7 +1018,7 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
 {
     uint64_t                  id;
     ngx_fd_t                  fd;
-    ngx_uint_t                g;
+    ngx_uint_t                g, i;
     ngx_rtmp_hls_ctx_t       *ctx;
     ngx_rtmp_hls_frag_t      *f;
     ngx_rtmp_hls_app_conf_t  *hacf;
@@ -1043,11 +1043,24 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
 
     id = ngx_rtmp_hls_get_fragment_id(s, ts);
 
+    g = 1;
+
     if (hacf->granularity) {
         g = (ngx_uint_t) hacf->granularity;
         id = (uint64_t) (id / g) * g;
     }
 
+    /* never reuse the name of a fragment which is still listed */
+
+    for (i = 0; i < ctx->nfrags; ) {
+        if (ngx_rtmp_hls_get_frag(s, i)->id == id) {
+            id += g;
+            i = 0;
+        } else {
+            i++;
+        }
+    }
+
     ngx_sprintf(ctx->stream.data + ctx->stream.len, "%uL.ts%Z", id);
 
     if (hacf->keys) {
-- 
2.43.0


From da1da766cd284d68dd2752b910d6d6afbe125bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 036/104] fix: a refused publisher wrote into the HLS segments
 of the active one

---
 .../hls/ngx_rtmp_hls_module.c                 | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 8cae91c..f2d5cdf 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -9,6 +9,7 @@
 #include <ngx_rtmp.h>
 #include <ngx_rtmp_cmd_module.h>
 #include <ngx_rtmp_codec_module.h>
+#include "ngx_rtmp_live_module.h"
 #include "ngx_rtmp_mpegts.h"
 
 
@@ -25,6 +26,7 @@ static void * ngx_rtmp_hls_create_app_conf(ngx_conf_t *cf);
 static char * ngx_rtmp_hls_merge_app_conf(ngx_conf_t *cf,
        void *parent, void *child);
 static ngx_int_t ngx_rtmp_hls_flush_audio(ngx_rtmp_session_t *s);
+static void ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s);
 static ngx_int_t ngx_rtmp_hls_ensure_directory(ngx_rtmp_session_t *s,
        ngx_str_t *path);
 
@@ -51,6 +53,7 @@ typedef struct {
 typedef struct {
     unsigned                            opened:1;
     unsigned                            lost:1; /* media since last frag */
+    unsigned                            restored:1;
 
     ngx_rtmp_mpegts_file_t              file;
 
@@ -1041,6 +1044,13 @@ ngx_rtmp_hls_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
         return NGX_ERROR;
     }
 
+    /* by now whoever published this stream before has closed its playlist */
+
+    if (hacf->continuous && !ctx->restored) {
+        ctx->restored = 1;
+        ngx_rtmp_hls_restore_stream(s);
+    }
+
     id = ngx_rtmp_hls_get_fragment_id(s, ts);
 
     g = 1;
@@ -1656,10 +1666,6 @@ ngx_rtmp_hls_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
                    &ctx->playlist, &ctx->playlist_bak,
                    &ctx->stream, &ctx->keyfile);
 
-    if (hacf->continuous) {
-        ngx_rtmp_hls_restore_stream(s);
-    }
-
 next:
     return next_publish(s, v);
 }
@@ -1898,6 +1904,12 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* not admitted yet, refused, or another publisher has taken over */
+
+    if (!ngx_rtmp_live_heard(s)) {
+        return NGX_OK;
+    }
+
     if ((codec_ctx->audio_codec_id != NGX_RTMP_AUDIO_AAC ||
         codec_ctx->aac_header == NULL || ngx_rtmp_is_codec_header(in)) &&
         codec_ctx->audio_codec_id != NGX_RTMP_AUDIO_MP3)
@@ -2109,6 +2121,12 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* not admitted yet, refused, or another publisher has taken over */
+
+    if (!ngx_rtmp_live_heard(s)) {
+        return NGX_OK;
+    }
+
     /* Only H264 is supported */
     if (codec_ctx->video_codec_id != NGX_RTMP_VIDEO_H264 &&
         codec_ctx->video_codec_id != cacf->hevc_codec)
-- 
2.43.0


From 874474a00ed458c675f244c44481da0d6ad30854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 037/104] fix: live_record wrote wrong presentation times for
 video once the stream ran for 13 hours

---
 modules/nginx-rtmp-module/ngx_live_record.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 3ff27e2..da04885 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1088,7 +1088,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = (h->timestamp + cts) * 90;
+    frame.pts = ((uint64_t) h->timestamp + cts) * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
-- 
2.43.0


From d53c5f4d97cbcd6e0619f506cd2c8909c870be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 038/104] fix: live_record took the monotonic clock for wall
 clock time: wrong times in the index, no new file per interval

---
 modules/nginx-rtmp-module/ngx_live_record.c | 32 +++++++++++++++------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index da04885..b4fcb55 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -181,6 +181,22 @@ ngx_live_record_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 }
 
 
+/*
+ * the times in the index, like those in the file names, are wall clock times;
+ * ngx_current_msec is not, it may count from boot
+ */
+
+static ngx_msec_t
+ngx_live_record_now(void)
+{
+    ngx_time_t                     *tp;
+
+    tp = ngx_timeofday();
+
+    return (ngx_msec_t) tp->sec * 1000 + tp->msec;
+}
+
+
 static ssize_t
 ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
 {
@@ -751,13 +767,13 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_now();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ctx->publish_epoch;
+        ctx->starttime = ctx->publish_epoch;
+        ctx->endtime = ctx->publish_epoch;
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
@@ -914,13 +930,13 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_now();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ctx->publish_epoch;
+        ctx->starttime = ctx->publish_epoch;
+        ctx->endtime = ctx->publish_epoch;
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
-- 
2.43.0


From f50b60f02ae6b21aab701c09365a7c7919733fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 039/104] fix: live_record recorded refused publishers into the
 files of the active one

---
 modules/nginx-rtmp-module/ngx_live_record.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index b4fcb55..b9e5e21 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -8,6 +8,7 @@
 #include "ngx_rtmp.h"
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
+#include "ngx_rtmp_live_module.h"
 #include "ngx_live_record.h"
 
 
@@ -1139,6 +1140,12 @@ ngx_live_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* not admitted yet, refused, or another publisher has taken over */
+
+    if (!ngx_rtmp_live_heard(s)) {
+        return NGX_OK;
+    }
+
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (h->type == NGX_RTMP_MSG_AUDIO) {
-- 
2.43.0


From 7400ff1f93b6585307e238670b707e501e31361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 040/104] fix: live_record crashed or wrote to a closed
 descriptor when its index or file could not be opened

---
 modules/nginx-rtmp-module/ngx_live_record.c | 68 +++++++++++----------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index b9e5e21..9e0e7f8 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -432,20 +432,42 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record: failed to open index '%V'", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     if (lseek(ctx->index.fd, 0, SEEK_END) == (off_t) -1) {
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record, %V seek failed", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     return ngx_live_record_open_file(s);
 }
 
 
+/*
+ * nothing can be recorded for now: the next frame tries again
+ */
+
+static void
+ngx_live_record_abort(ngx_live_record_ctx_t *ctx)
+{
+    if (ctx->index.fd != -1) {
+        ngx_close_file(ctx->index.fd);
+        ctx->index.fd = -1;
+    }
+
+    if (ctx->file.fd != -1) {
+        ngx_close_file(ctx->file.fd);
+        ctx->file.fd = -1;
+    }
+
+    ctx->ts.wbuf.last = ctx->ts.wbuf.pos;
+    ctx->last_time = 0;
+}
+
+
 static void
 ngx_live_record_close_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx)
 {
@@ -480,17 +502,7 @@ ngx_live_record_reopen_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
 
     // open new index and file
     if (ngx_live_record_open_index(s) == NGX_ERROR) {
-        ctx->last_time = 0;
-
-        if (ctx->index.fd != -1) {
-            ngx_close_file(ctx->index.fd);
-        }
-
-        if (ctx->file.fd != -1) {
-            ngx_close_file(ctx->file.fd);
-        }
-
-        return;
+        ngx_live_record_abort(ctx);
     }
 }
 
@@ -778,16 +790,7 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
-            ctx->last_time = 0;
-
-            if (ctx->index.fd != -1) {
-                ngx_close_file(ctx->index.fd);
-            }
-
-            if (ctx->file.fd != -1) {
-                ngx_close_file(ctx->file.fd);
-            }
-
+            ngx_live_record_abort(ctx);
             return NGX_OK;
         }
     }
@@ -859,6 +862,10 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         }
     }
 
+    if (ctx->last_time == 0) { // reopen failed
+        return NGX_OK;
+    }
+
     /* write frame */
     ngx_memzero(&frame, sizeof(frame));
 
@@ -941,16 +948,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
-            ctx->last_time = 0;
-
-            if (ctx->index.fd != -1) {
-                ngx_close_file(ctx->index.fd);
-            }
-
-            if (ctx->file.fd != -1) {
-                ngx_close_file(ctx->file.fd);
-            }
-
+            ngx_live_record_abort(ctx);
             return NGX_OK;
         }
     }
@@ -1100,6 +1098,10 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         }
     }
 
+    if (ctx->last_time == 0) { // reopen failed
+        return NGX_OK;
+    }
+
     /* write frame */
     ngx_memzero(&frame, sizeof(frame));
 
-- 
2.43.0


From fa7bb1657f06c5a8c847823864bc1bf33a94c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 041/104] fix: a failed or short write or a crash left
 live_record's files misaligned and its index with broken entries

---
 modules/nginx-rtmp-module/ngx_live_record.c | 137 ++++++++++++++++++--
 1 file changed, 125 insertions(+), 12 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 9e0e7f8..51d6658 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -198,20 +198,53 @@ ngx_live_record_now(void)
 }
 
 
+/*
+ * write all of buf at *size, or nothing: what a failed or short write has
+ * left behind is cut off again
+ */
+
+static ssize_t
+ngx_live_record_append(ngx_fd_t fd, off_t *size, u_char *buf, size_t len,
+        ngx_log_t *log)
+{
+    ssize_t                         n;
+    size_t                          done;
+
+    for (done = 0; done < len; done += n) {
+        n = ngx_write_fd(fd, buf + done, len - done);
+
+        if (n == -1 && ngx_errno == NGX_EINTR) {
+            n = 0;
+            continue;
+        }
+
+        if (n <= 0) {
+            ngx_log_error(NGX_LOG_ERR, log, ngx_errno, "write record error");
+
+            if (ftruncate(fd, *size) == -1 || lseek(fd, *size, SEEK_SET) == -1)
+            {
+                ngx_log_error(NGX_LOG_ERR, log, ngx_errno,
+                        "cut off record error");
+            }
+
+            return NGX_ERROR;
+        }
+    }
+
+    *size += len;
+
+    return len;
+}
+
+
 static ssize_t
 ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
 {
     ssize_t                         rc;
 
-    rc = ngx_write_fd(file->fd, file->wbuf.pos,
-            file->wbuf.last - file->wbuf.pos);
-    if (rc < 0) {
-        ngx_log_error(NGX_LOG_ERR, file->log, ngx_errno,
-                "flush record buf error");
-        return rc;
-    }
+    rc = ngx_live_record_append(file->fd, &file->file_size, file->wbuf.pos,
+            file->wbuf.last - file->wbuf.pos, file->log);
 
-    file->file_size += rc;
     file->wbuf.last = file->wbuf.pos;
 
     return rc;
@@ -229,6 +262,17 @@ ngx_live_record_write_buf(ngx_rtmp_mpegts_file_t *file, u_char *in,
     end = in + in_size;
     n = 0;
 
+    /* keep whole packets together */
+
+    if (file->wbuf.last != file->wbuf.pos
+        && (size_t) (file->wbuf.end - file->wbuf.last) < in_size)
+    {
+        rc = ngx_live_record_flush(file);
+        if (rc < 0) {
+            return rc;
+        }
+    }
+
     for (p = in; p != end; /* void */ ) {
         len = ngx_min(file->wbuf.end - file->wbuf.last, end - p);
         file->wbuf.last = ngx_cpymem(file->wbuf.last, p, len);
@@ -316,6 +360,21 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
+    /* a crash may have left an incomplete packet behind */
+
+    if (file_size % 188) {
+        file_size -= file_size % 188;
+
+        if (ftruncate(ctx->file.fd, file_size) == -1
+            || lseek(ctx->file.fd, file_size, SEEK_SET) == -1)
+        {
+            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                    "record: %V truncate failed", &ctx->file.name);
+
+            return NGX_ERROR;
+        }
+    }
+
     if (ctx->ts.wbuf.start == NULL) {
         ctx->ts.wbuf.start = ngx_pcalloc(s->pool, lracf->buffer);
         if (ctx->ts.wbuf.start == NULL) {
@@ -342,7 +401,10 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
 
             return NGX_ERROR;
         }
-        ngx_live_record_flush(&ctx->ts);
+
+        if (ngx_live_record_flush(&ctx->ts) < 0) {
+            return NGX_ERROR;
+        }
     }
 
     ctx->startsize = ctx->ts.file_size;
@@ -360,6 +422,11 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
 
     ngx_live_record_flush(&ctx->ts);
 
+    if (ctx->ts.file_size == ctx->startsize) { // nothing could be written
+        ctx->starttime = curr_time;
+        return;
+    }
+
     ctx->endsize = ctx->ts.file_size - 1;
 
     p = ngx_snprintf(buf, sizeof(buf) - 1,
@@ -368,9 +435,13 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
             ctx->starttime, ctx->endtime);
     *p = 0;
 
-    if (ngx_write_fd(ctx->index.fd, buf, p - buf) < 0) {
-        ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+    if (ngx_live_record_append(ctx->index.fd, &ctx->index.offset, buf, p - buf,
+                               s->log) < 0)
+    {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "record, write %V failed: %s", &ctx->index.name, buf);
+
+        return; // the next entry covers this part, too
     }
 
     ctx->startsize = ctx->ts.file_size;
@@ -378,6 +449,48 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
 }
 
 
+/*
+ * seek to the end of the last complete entry: a crash may have left an
+ * incomplete one behind
+ */
+
+static ngx_int_t
+ngx_live_record_seek_index(ngx_live_record_ctx_t *ctx)
+{
+    off_t                           size, start;
+    ssize_t                         n;
+    u_char                          buf[1024];
+
+    size = lseek(ctx->index.fd, 0, SEEK_END);
+    if (size == (off_t) -1) {
+        return NGX_ERROR;
+    }
+
+    start = size > (off_t) sizeof(buf) ? size - (off_t) sizeof(buf) : 0;
+
+    n = pread(ctx->index.fd, buf, size - start, start);
+    if (n != size - start) {
+        return NGX_ERROR;
+    }
+
+    while (n > 0 && buf[n - 1] != '\n') {
+        n--;
+    }
+
+    if (start + n != size && ftruncate(ctx->index.fd, start + n) == -1) {
+        return NGX_ERROR;
+    }
+
+    if (lseek(ctx->index.fd, start + n, SEEK_SET) == (off_t) -1) {
+        return NGX_ERROR;
+    }
+
+    ctx->index.offset = start + n;
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_live_record_open_index(ngx_rtmp_session_t *s)
 {
@@ -435,7 +548,7 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
-    if (lseek(ctx->index.fd, 0, SEEK_END) == (off_t) -1) {
+    if (ngx_live_record_seek_index(ctx) != NGX_OK) {
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record, %V seek failed", &ctx->index.name);
 
-- 
2.43.0


From 936771b9734d747fefda7674dd28486363bb3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 042/104] fix: malformed or deeply nested AMF data crashed the
 server

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 26 +++++++++++++++++++++---
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  4 ++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..16bd3c4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -306,8 +306,8 @@ ngx_rtmp_amf_is_compatible_type(uint8_t t1, uint8_t t2)
 }
 
 
-ngx_int_t
-ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
+static ngx_int_t
+ngx_rtmp_amf_read_elts(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         size_t nelts)
 {
     void                       *data;
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && (elts->type & NGX_RTMP_AMF_OPTIONAL)) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
@@ -472,6 +472,26 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
 }
 
 
+ngx_int_t
+ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
+        size_t nelts)
+{
+    ngx_int_t                   rc;
+
+    /* nested objects and arrays are read recursively */
+
+    if (ctx->depth >= NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
+    ++ctx->depth;
+    rc = ngx_rtmp_amf_read_elts(ctx, elts, nelts);
+    --ctx->depth;
+
+    return rc;
+}
+
+
 static ngx_int_t
 ngx_rtmp_amf_write_object(ngx_rtmp_amf_ctx_t *ctx,
         ngx_rtmp_amf_elt_t *elts, size_t nelts)
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..80b7dee 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -37,6 +37,9 @@
 #define NGX_RTMP_AMF_VARIANT            (NGX_RTMP_AMF_VARIANT_\
                                         |NGX_RTMP_AMF_TYPELESS)
 
+/* deepest nesting accepted from a peer */
+#define NGX_RTMP_AMF_MAX_DEPTH          64
+
 
 typedef struct {
     ngx_int_t                           type;
@@ -55,6 +58,7 @@ typedef struct {
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
+    ngx_uint_t                          depth;
 } ngx_rtmp_amf_ctx_t;
 
 
-- 
2.43.0


From dba2e26abd0f18619231b71261d5efecdb574852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 043/104] fix: malformed AVC and HEVC headers overran the stack
 or hung the server

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 31ba0b7..1911d1d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -441,7 +441,7 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
 
     count = 0;
     rbsp_bytes = 0;
-    for (i = 0; i < nal_unit_len; ++i) {
+    for (i = 0; i < nal_unit_len && br->pos + i < br->last; ++i) {
         if (count == 2) { /* already 0x0000 */
             if (br->pos[i] < 0x03) {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -449,7 +449,9 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
                 return NGX_ERROR;
             }
 
-            if (br->pos[i] == 0x03 && br->pos[i + 1] > 0x03) {
+            if (br->pos[i] == 0x03 && br->pos + i + 1 < br->last
+                && br->pos[i + 1] > 0x03)
+            {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "four bytes sequence error");
                 return NGX_ERROR;
@@ -579,6 +581,14 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
     u_char                  buf[4096];
     ngx_int_t               rbsp_bytes;
 
+    if (nal_unit_len > (ngx_uint_t) (pbr->last - pbr->pos)) {
+        nal_unit_len = pbr->last - pbr->pos;
+    }
+
+    if (nal_unit_len > sizeof(buf)) {
+        nal_unit_len = sizeof(buf);
+    }
+
     ngx_rtmp_bit_init_reader(&br, pbr->pos, pbr->pos + nal_unit_len);
     rbsp_bytes = ngx_rtmp_codec_parse_hevc_nal_to_rbsp(s, buf, &br, NAL_SPS,
                                                        nal_unit_len);
@@ -750,7 +760,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
      */
     num_arrays = (ngx_uint_t) ngx_rtmp_bit_read_8(&br);
 
-    for (i = 0; i < num_arrays; ++i) {
+    for (i = 0; i < num_arrays && !br.err; ++i) {
         /*
          * array_completeness                       1 bit
          * reserved                                 1 bit
@@ -760,7 +770,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         nal_unit_type = (ngx_uint_t) (ngx_rtmp_bit_read_8(&br) & 0x3f);
         num_nalus = (ngx_uint_t) ngx_rtmp_bit_read_16(&br);
 
-        for (j = 0; j < num_nalus; ++j) {
+        for (j = 0; j < num_nalus && !br.err; ++j) {
             /*
              * nalUnitLength                        2 bytes
              */
@@ -906,7 +916,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         /* num ref frames in pic order */
         num_ref_frames = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
 
-        for (n = 0; n < num_ref_frames; n++) {
+        for (n = 0; n < num_ref_frames && !br.err; n++) {
 
             /* offset for ref frame */
             ngx_rtmp_bit_read_golomb(&br);
-- 
2.43.0


From cf2d090994755c0586d041e970ec12b85b7d8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 044/104] fix: publish or play before connect, or with an
 over-long stream name, crashed the server

---
 .../http/ngx_http_flv_live_module.c           |  4 +--
 modules/nginx-rtmp-module/ngx_live.c          |  4 +++
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.c   | 35 +++++++++++++++----
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.h   |  2 +-
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 9b623be..a63ad37 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -113,13 +113,13 @@ ngx_http_flv_live_send_header(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_http_flv_live_module);
     s = ctx->session;
-    if (s && s->live_stream->bw_in_audio.bytes) {
+    if (s && s->live_stream && s->live_stream->bw_in_audio.bytes) {
         has_audio = 1;
     } else {
         has_audio = 0;
     }
 
-    if (s && s->live_stream->bw_in_video.bytes) {
+    if (s && s->live_stream && s->live_stream->bw_in_video.bytes) {
         has_video = 1;
     } else {
         has_video = 0;
diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..8df9a00 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -303,6 +303,10 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
+
     ++(*psrv)->n_stream;
 
     return *pst;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index 9af8370..ea5e363 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -182,7 +182,7 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     }
 }
 
-void
+ngx_int_t
 ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing)
 {
@@ -214,11 +214,16 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return NGX_ERROR;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
 
     ngx_rtmp_notify_stream_start(s);
+
+    return NGX_OK;
 }
 
 ngx_int_t
@@ -233,12 +238,20 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp publish filter");
 
-    s->published = 1;
-
     if (!s->relay) { /* relay pull */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+        if (s->app_conf == NULL) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                    "publish before connect");
+            return NGX_ERROR;
+        }
+
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
+    s->published = 1;
+
     return ngx_rtmp_publish(s, v);
 }
 
@@ -254,12 +267,20 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp play filter");
 
-    s->played = 1;
-
     if (!s->relay) { /* relay push */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+        if (s->app_conf == NULL) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                    "play before connect");
+            return NGX_ERROR;
+        }
+
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
+    s->played = 1;
+
     return ngx_rtmp_play(s, v);
 }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
index 5bc3c03..1c1114f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
@@ -103,7 +103,7 @@ typedef struct {
 void ngx_rtmp_cmd_fill_args(u_char name[NGX_RTMP_MAX_NAME],
         u_char args[NGX_RTMP_MAX_ARGS]);
 void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s);
-void ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
+ngx_int_t ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing);
 
 ngx_int_t ngx_rtmp_publish_filter(ngx_rtmp_session_t *s,
-- 
2.43.0


From 8409280c314931d2c4489a0631c5be4481c9d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 045/104] fix: media and metadata from a peer that does not
 publish crashed the server

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 ++++
 modules/nginx-rtmp-module/ngx_rtmp_handler.c      | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 1911d1d..1049b32 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1276,6 +1276,10 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
           in_inf, sizeof(in_inf) },
     };
 
+    if (s->app_conf == NULL) { /* not connected */
+        return NGX_OK;
+    }
+
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_codec_module);
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 4fc5b85..f81afcc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -877,6 +877,14 @@ ngx_rtmp_receive_message(ngx_rtmp_session_t *s,
         return NGX_OK;
     }
 
+    /* media is accepted from active publishers only */
+
+    if ((h->type == NGX_RTMP_MSG_AUDIO || h->type == NGX_RTMP_MSG_VIDEO)
+        && (s->live_stream == NULL || !s->publishing || s->closed))
+    {
+        return NGX_OK;
+    }
+
     evhs = &cmcf->events[h->type];
     evh = evhs->elts;
 
-- 
2.43.0


From 4057020502924042991796ef20698fa8c2e42e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 046/104] fix: hls and live_record crashed or spun on malformed
 or headerless video, live_record overran its audio buffer

---
 .../nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 17 +++++++++++------
 modules/nginx-rtmp-module/ngx_live_record.c     | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index f2d5cdf..c31adff 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2106,6 +2106,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
     static u_char                   buffer[NGX_RTMP_HLS_BUFSIZE];
     ngx_rtmp_core_app_conf_t       *cacf;
+    u_char                         *np, start[3];
+    ngx_chain_t                    *nin;
 
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
@@ -2246,18 +2248,21 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             }
         } else {
             if (src_nal_type == 0) {
-                if (ngx_rtmp_hls_copy(s, out.last, &p, 3, &in) != NGX_OK) {
+                np = p;
+                nin = in;
+                if (ngx_rtmp_hls_copy(s, start, &p, 3, &in) != NGX_OK) {
                     ngx_log_error(NGX_LOG_ERR, s->log, 0,
                                     "rtmp-hls: video| buffer error");
                     return NGX_ERROR;
                 }
-                if (out.last[0] == 0x00 && out.last[1] == 0x00 &&
-                    out.last[2] == 0x01)
+                if (len > 4 && start[0] == 0x00 && start[1] == 0x00 &&
+                    start[2] == 0x01)
                 {
                     ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in);
                     len -= 4;
                 } else {
-                    p -= 3;
+                    p = np;
+                    in = nin;
                 }
             }
 
@@ -2330,8 +2335,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         if (ngx_rtmp_hls_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                        "rtmp-hls: video| copy nal, failed copy, len %d, in %d",
-                        len - 1, in->buf->last - in->buf->pos);
+                        "rtmp-hls: video| copy nal, failed copy, len %uD",
+                        len - 1);
             return NGX_ERROR;
         }
 
diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 51d6658..dc81d9b 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -951,6 +951,12 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     /* copy payload */
     while (in) {
+        if (out.end - out.last < in->buf->last - p) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                          "record: not enough buffer for audio frame");
+            return NGX_OK;
+        }
+
         if (in->buf->last - p) {
             out.last = ngx_cpymem(out.last, p, in->buf->last - p);
         }
@@ -1025,6 +1031,12 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
+    /* the size of NAL lengths is not known without the header */
+
+    if (codec_ctx->avc_header == NULL || codec_ctx->avc_nal_bytes == 0) {
+        return NGX_OK;
+    }
+
     p = in->buf->pos;
     if (ngx_live_record_copy(s, &fmt, &p, 1, &in) != NGX_OK) {
         return NGX_ERROR;
@@ -1262,6 +1274,9 @@ ngx_live_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx == NULL) {
+        return NGX_OK;
+    }
 
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         switch (codec_ctx->audio_codec_id) {
-- 
2.43.0


From db0d23a0c1d4fe16656e8cebfd36efaacb91a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 047/104] fix: an HTTP response header larger than its buffer
 hung the server

---
 modules/nginx-client-module/ngx_http_client.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 3a94803..d63cd8e 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -734,6 +734,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, http server sent too big header");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process header read error");
@@ -805,6 +812,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, http server sent too big header");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process status line read error");
-- 
2.43.0


From ed5c35b676e389bac986a2068fbcef1d7700a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 048/104] fix: an HLS+ request without a Host header crashed
 the server

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..69768c3 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -292,6 +292,10 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
+    if (r->headers_in.host == NULL) { /* HTTP/1.0 */
+        return NGX_HTTP_BAD_REQUEST;
+    }
+
     host = r->headers_in.host->value;
 
     rc = ngx_http_discard_request_body(r);
@@ -399,6 +403,10 @@ ngx_hls_http_redirect_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
+    if (r->headers_in.host == NULL) { /* HTTP/1.0 */
+        return NGX_HTTP_BAD_REQUEST;
+    }
+
     host = r->headers_in.host->value;
 
     rc = ngx_http_discard_request_body(r);
-- 
2.43.0


From 51e7870f2f026f039b073721cc6e87627680e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 049/104] fix: a chunked HTTP response arriving after its
 header crashed the server

---
 modules/nginx-client-module/ngx_http_client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index d63cd8e..f714e96 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1239,6 +1239,10 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
     hccf = (ngx_http_client_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
                                                    ngx_http_client_module);
 
+    if (cl == NULL) { /* nothing but the header so far */
+        return NGX_AGAIN;
+    }
+
     for (ll = &ctx->in; *ll; ll = &(*ll)->next);
 
     while (1) {
@@ -1328,6 +1332,8 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
             return NGX_DONE;
         }
 
+        ngx_put_chainbufs(cl);
+
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http client, invalid chunked response");
 
-- 
2.43.0


From 31251b722479974bf51e0526317772688514e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 050/104] fix: tell clients refused by on_publish/on_play why

The status was queued and the session finalized at once, which drops the
queue, and the type of the refused session was never set.
---
 modules/nginx-rtmp-module/ngx_rtmp.h          |  2 ++
 modules/nginx-rtmp-module/ngx_rtmp_init.c     | 25 +++++++++++++++++++
 .../ngx_rtmp_notify_module.c                  | 10 ++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 5b18144..02c98c7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -795,6 +795,8 @@ void ngx_rtmp_set_combined_log(ngx_rtmp_session_t *s, void *d,
     ngx_log_handler_pt h);
 void ngx_rtmp_init_session(ngx_rtmp_session_t *s, ngx_connection_t *c);
 void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s);
+/* finalize after what is posted already, such as the sending of a status */
+void ngx_rtmp_finalize_session_posted(ngx_rtmp_session_t *s);
 void ngx_rtmp_finalize_fake_session(ngx_rtmp_session_t *s);
 void ngx_rtmp_handshake(ngx_rtmp_session_t *s);
 void ngx_rtmp_client_handshake(ngx_rtmp_session_t *s, unsigned async);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index abaabec..fef92f3 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -445,6 +445,31 @@ ngx_rtmp_finalize_session(ngx_rtmp_session_t *s)
 }
 
 
+static void
+ngx_rtmp_finalize_session_handler(ngx_event_t *ev)
+{
+    ngx_rtmp_finalize_session(ev->data);
+}
+
+
+void
+ngx_rtmp_finalize_session_posted(ngx_rtmp_session_t *s)
+{
+    ngx_event_t        *e;
+
+    if (s->finalized || s->destroyed || s->close.posted) {
+        return;
+    }
+
+    e = &s->close;
+    e->data = s;
+    e->handler = ngx_rtmp_finalize_session_handler;
+    e->log = s->log;
+
+    ngx_post_event(e, &ngx_posted_events);
+}
+
+
 // session combined with http request or http client request
 void
 ngx_rtmp_finalize_fake_session(ngx_rtmp_session_t *s)
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f7456ca..9a9bae2 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1282,15 +1282,21 @@ next:
     return;
 
 error:
-    if (octx->type == NGX_RTMP_OCLP_PUBLISH) {
+    s->finalize_reason = NGX_LIVE_OCLP_NOTIFY_ERR;
+
+    if (nctx->type == NGX_RTMP_OCLP_PUBLISH) {
         ngx_rtmp_send_status(s, "NetStream.Publish.Forbidden", "status",
                 "Publish stream Forbidden");
+        /* a finalized session sends nothing anymore */
+        ngx_rtmp_finalize_session_posted(s);
+        return;
     } else if (s->live_type == NGX_RTMP_LIVE) {
         s->status = 403;
         ngx_rtmp_send_status(s, "NetStream.Play.Forbidden", "status",
                 "Play stream Forbidden");
+        ngx_rtmp_finalize_session_posted(s);
+        return;
     }
-    s->finalize_reason = NGX_LIVE_OCLP_NOTIFY_ERR;
     ngx_rtmp_finalize_session(s);
 }
 
-- 
2.43.0


From 772453738b947470e9ada31b92777871c8f2d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 051/104] fix: on_meta update timer survives its session

A second metadata notify of a session overwrote the first one, whose update
timer went on after the session was destroyed. Also use the event a netcall
belongs to for its start and done when several are configured.
---
 .../ngx_rtmp_notify_module.c                  | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 9a9bae2..158d6a6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -160,7 +160,8 @@ typedef struct {
 typedef struct {
     ngx_netcall_ctx_t          *nctx;
     ngx_netcall_ctx_t          *rctx;
-    ngx_netcall_ctx_t          *mctx; // metadata notify's netcall ctx
+    // metadata notify's netcall ctx, one per event
+    ngx_netcall_ctx_t          *mctx[NGX_RTMP_MAX_OCLP];
 
     ngx_rtmp_notify_event_t    *event;
     ngx_uint_t                  type;
@@ -1224,6 +1225,7 @@ ngx_rtmp_notify_common_done(ngx_rtmp_session_t *s, ngx_netcall_ctx_t *nctx)
     if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE) {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
         event = oacf->events[nctx->type].elts;
+        event += nctx->idx;
 
         ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
                                  NGX_RTMP_OCLP_DONE);
@@ -1334,10 +1336,10 @@ error:
 }
 
 static ngx_int_t
-ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
+ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type,
+    ngx_rtmp_notify_event_t *event, ngx_uint_t idx)
 {
     ngx_rtmp_notify_app_conf_t   *oacf;
-    ngx_rtmp_notify_event_t      *event;
     ngx_rtmp_notify_ctx_t        *ctx;
     ngx_netcall_ctx_t          *nctx;
 
@@ -1357,10 +1359,17 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_notify_module);
     }
 
-    event = oacf->events[type].elts;
+    /* the codec headers of a session may change, stop updates of old ones */
+    if (ctx->mctx[idx]) {
+        ngx_netcall_destroy(ctx->mctx[idx]);
+        ctx->mctx[idx] = NULL;
+    }
 
     nctx = ngx_netcall_create_ctx(type, &event->groupid,
-            event->stage, event->timeout, event->update, 0);
+            event->stage, event->timeout, event->update, idx);
+    if (nctx == NULL) {
+        return NGX_ERROR;
+    }
     nctx->ev.log = s->log;
 
     ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
@@ -1368,7 +1377,7 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     nctx->handler = ngx_rtmp_notify_meta_start_handle;
     nctx->data = s;
 
-    ctx->mctx = nctx;
+    ctx->mctx[idx] = nctx;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "meta %s start create %V",
             ngx_rtmp_notify_app_type[nctx->type], &nctx->url);
@@ -1382,13 +1391,17 @@ static void
 ngx_rtmp_notify_meta_done(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_notify_ctx_t        *ctx;
+    ngx_uint_t                    i;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
     if (ctx == NULL) {
         return;
     }
 
-    ngx_rtmp_notify_common_done(s, ctx->mctx);
+    for (i = 0; i < NGX_RTMP_MAX_OCLP; ++i) {
+        ngx_rtmp_notify_common_done(s, ctx->mctx[i]);
+        ctx->mctx[i] = NULL;
+    }
 }
 
 static ngx_int_t
@@ -1643,8 +1656,9 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
     ngx_rtmp_session_t         *s;
     ngx_live_relay_app_conf_t  *lracf;
     ngx_live_relay_ctx_t       *ctx;
+    ngx_rtmp_notify_app_conf_t   *oacf;
     ngx_rtmp_notify_ctx_t        *octx;
-    ngx_rtmp_notify_event_t      *event;
+    ngx_rtmp_notify_event_t      *event, *events;
     ngx_netcall_ctx_t          *nctx;
 
     s = ev->data;
@@ -1687,8 +1701,11 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
     // this timer control start netcall until relay create success
     ngx_add_timer(&ctx->reconnect, lracf->relay_reconnect);
 
+    oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
+    events = oacf->events[octx->type].elts;
+
     nctx = ngx_netcall_create_ctx(octx->type, &event->groupid, event->stage,
-            event->timeout, event->update, 0);
+            event->timeout, event->update, event - events);
     if (nctx == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0, "notify relay, create nctx failed");
         ngx_rtmp_finalize_session(s);
@@ -2166,7 +2183,7 @@ ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
         event = oacf->events[NGX_RTMP_OCLP_META].elts;
         for (i = 0; i < oacf->events[NGX_RTMP_OCLP_META].nelts; ++i, ++event) {
             // ngx_rtmp_notify_relay_start(s, event, NGX_RTMP_OCLP_META, 0);
-            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META);
+            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META, event, i);
         }
     }
 
-- 
2.43.0


From a2c8d0998bdeb45052edb5b0769c036cb7b40f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 052/104] fix: HTTP-TS players are served before on_play admits
 them

The mpegts live module joined the stream when it saw the play, which is
before the notify module; join when the live module is reached, as others do.
---
 .../mpegts/ngx_mpegts_live_module.c           | 21 +------------------
 .../mpegts/ngx_mpegts_live_module.h           |  4 ++++
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 13 +++++++++---
 3 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 6d88d2b..2d131c0 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -18,7 +18,6 @@ ngx_mpegts_video_pt ngx_mpegts_video;
 ngx_mpegts_audio_pt ngx_mpegts_audio;
 
 static ngx_rtmp_publish_pt         next_publish;
-static ngx_rtmp_play_pt            next_play;
 static ngx_rtmp_close_stream_pt    next_close_stream;
 
 #define NGX_MPEGTS_BUF_SIZE   1316
@@ -1750,7 +1749,7 @@ ngx_mpegts_live_ctx_init(ngx_rtmp_session_t *s)
     return NGX_OK;
 }
 
-static ngx_int_t
+ngx_int_t
 ngx_mpegts_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 {
     ngx_mpegts_live_ctx_t        *ctx;
@@ -1814,21 +1813,6 @@ ngx_mpegts_live_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
     return next_publish(s, v);
 }
 
-static ngx_int_t
-ngx_mpegts_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
-{
-    if (s->live_type != NGX_MPEGTS_LIVE) {
-        goto next;
-    }
-
-    if (ngx_mpegts_live_join(s, v->name, 0) == NGX_ERROR) {
-        return NGX_ERROR;
-    }
-
-next:
-    return next_play(s, v);
-}
-
 static ngx_int_t
 ngx_mpegts_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 {
@@ -1889,9 +1873,6 @@ ngx_mpegts_live_postconfiguration(ngx_conf_t *cf)
     next_publish = ngx_rtmp_publish;
     ngx_rtmp_publish = ngx_mpegts_live_publish;
 
-    next_play = ngx_rtmp_play;
-    ngx_rtmp_play = ngx_mpegts_live_play;
-
     next_close_stream = ngx_rtmp_close_stream;
     ngx_rtmp_close_stream = ngx_mpegts_live_close_stream;
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
index 11c27d4..3bff46e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.h
@@ -24,6 +24,10 @@ ngx_mpegts_live_video_filter(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 ngx_int_t
 ngx_mpegts_live_audio_filter(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 
+/* join the stream as HTTP-TS player, called when the play is admitted */
+ngx_int_t
+ngx_mpegts_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher);
+
 extern u_char ngx_rtmp_mpegts_pat[];
 
 #endif
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 5e9223e..9500912 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -7,6 +7,7 @@
 #include <ngx_config.h>
 #include <ngx_core.h>
 #include "ngx_rtmp_live_module.h"
+#include "ngx_mpegts_live_module.h"
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
 
@@ -1074,11 +1075,17 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
     ngx_rtmp_live_ctx_t        *ctx, *pctx;
     ngx_map_node_t             *node;
 
+    if (s->live_type == NGX_MPEGTS_LIVE) {
+        if (ngx_mpegts_live_join(s, v->name, 0) == NGX_ERROR) {
+            return NGX_ERROR;
+        }
+
+        goto next;
+    }
+
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
 
-    if (lacf == NULL || !lacf->live ||
-        s->live_type == NGX_HLS_LIVE || s->live_type == NGX_MPEGTS_LIVE)
-    {
+    if (lacf == NULL || !lacf->live || s->live_type == NGX_HLS_LIVE) {
         goto next;
     }
 
-- 
2.43.0


From 5313de136a0f806263b8203e1e19170d99487196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 053/104] fix: http client never gives up on a silent server

The read handlers ignored rev->timedout, so header_timeout had no effect, and
the body of a request nobody waits for was awaited without a timer: a callback
server which hung kept its connection and the request for ever.
---
 modules/nginx-client-module/ngx_http_client.c | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index f714e96..720c955 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -560,8 +560,17 @@ ngx_http_client_discarded_body(ngx_http_request_t *r)
     ngx_http_client_ctx_t      *ctx;
     ngx_chain_t                *cl;
     ngx_int_t                   rc;
+    ngx_event_t                *rev;
 
     ctx = r->ctx[0];
+    rev = r->connection->read;
+
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, discard body timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
 
     rc = ngx_http_client_read_body(r, &cl);
 
@@ -572,6 +581,10 @@ ngx_http_client_discarded_body(ngx_http_request_t *r)
 
     // if detach, all http response receive, set keepalive
     if (rc == NGX_DONE) {
+        if (rev->timer_set) {
+            NGX_DEL_TIMER(rev, r->connection->number);
+        }
+
         ngx_http_client_finalize_request(r, 0);
         return;
     }
@@ -582,6 +595,12 @@ ngx_http_client_discarded_body(ngx_http_request_t *r)
         ngx_put_chainbufs(ctx->in);
         ctx->in = NULL;
     }
+
+    // nobody waits for the rest, do not wait for it forever
+    if (ctx->request == NULL && !rev->timer_set) {
+        NGX_ADD_TIMER(rev, ctx->header_timeout,
+                      offsetof(ngx_connection_t, number));
+    }
 }
 
 
@@ -626,6 +645,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
 
     b = ctx->buffer;
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, process header timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process header");
 
@@ -803,6 +829,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
 
     b = ctx->buffer;
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, process status line timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process status line");
 
@@ -895,6 +928,13 @@ ngx_http_client_wait_response_handler(ngx_client_session_t *s)
 
     b = ctx->buffer;
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait response timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process response handler");
 
-- 
2.43.0


From b7c63acedde5ac96a426650117f606773efb43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 054/104] fix: HLS+ requests outlive their session

A request held a pointer to its session and the session to its (last)
request: an expired session left the request with a dangling pointer, two
requests at once overwrote each other. Requests now are linked to the session
and detached on either side's end.
---
 .../mpegts/ngx_hls_http_module.c              | 207 +++++++++++-------
 .../mpegts/ngx_hls_live_module.c              |   5 +-
 .../mpegts/ngx_hls_live_module.h              |   3 +
 3 files changed, 136 insertions(+), 79 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 69768c3..8e177ea 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -45,8 +45,12 @@ typedef struct {
     ngx_str_t                   stream;
     ngx_str_t                   serverid;
     ngx_str_t                   sid;
+    ngx_http_request_t         *request;
     ngx_rtmp_session_t         *session;
+    ngx_queue_t                 queue; /* in requests of the session */
+    unsigned                    parked:1; /* waits for the first playlist */
     ngx_msec_t                  timeout;
+    ngx_uint_t                  out_queue;
     ngx_uint_t                  content_pos;
     ngx_chain_t                *m3u8;
     ngx_uint_t                  out_pos;
@@ -221,7 +225,7 @@ ngx_hls_http_ctx_init(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     }
 
     if (cscf && cscf->serverid.len) {
-        serverid->data = ngx_pcalloc(r->connection->pool, cscf->serverid.len);
+        serverid->data = ngx_pcalloc(r->pool, cscf->serverid.len);
         if (serverid->data == NULL) {
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "hls-http: ctx_init| pcalloc failed.");
@@ -233,7 +237,7 @@ ngx_hls_http_ctx_init(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         *serverid = *domain;
     }
 
-    buf = ngx_create_temp_buf(r->connection->pool,
+    buf = ngx_create_temp_buf(r->pool,
                               serverid->len + 1 + app->len + name->len + 1);
     buf->last = ngx_slprintf(buf->start, buf->end,
         "%V/%V/%V", serverid, app, name);
@@ -350,7 +354,7 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
         m3u8_url.len += 1 + r->args.len;
     }
 
-    m3u8_url.data = ngx_pcalloc(r->connection->pool, m3u8_url.len);
+    m3u8_url.data = ngx_pcalloc(r->pool, m3u8_url.len);
 
     p = ngx_snprintf(m3u8_url.data, m3u8_url.len, "%V://%V%V?%s=%s",
                 &scheme, &host, &uri, NGX_HLS_LIVE_ARG_SESSION, sstr);
@@ -359,7 +363,7 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
         ngx_slprintf(p, m3u8_url.data + m3u8_url.len, "&%V", &r->args);
     }
 
-    m3u8 = ngx_create_temp_buf(r->connection->pool, 64 * 1024);
+    m3u8 = ngx_create_temp_buf(r->pool, 64 * 1024);
     m3u8->memory = 1;
     m3u8->flush = 1;
     out.buf = m3u8;
@@ -461,7 +465,7 @@ ngx_hls_http_redirect_handler(ngx_http_request_t *r,
         m3u8_url.len += 1 + r->args.len;
     }
 
-    m3u8_url.data = ngx_pcalloc(r->connection->pool, m3u8_url.len);
+    m3u8_url.data = ngx_pcalloc(r->pool, m3u8_url.len);
 
     p = ngx_snprintf(m3u8_url.data, m3u8_url.len, "%V://%V%V?%s=%s",
                 &scheme, &host, &uri, NGX_HLS_LIVE_ARG_SESSION, sstr);
@@ -489,11 +493,14 @@ ngx_hls_http_redirect_handler(ngx_http_request_t *r,
 }
 
 
+static void ngx_hls_http_cleanup(void *data);
+
 static ngx_hls_http_ctx_t *
 ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 {
     ngx_hls_http_ctx_t         *ctx;
     ngx_rtmp_core_srv_conf_t   *cscf;
+    ngx_http_cleanup_t         *cln;
     u_char                     *p;
 
     cscf = addr_conf->default_server->ctx->
@@ -501,7 +508,7 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
     if (ctx == NULL) {
-        p = ngx_pcalloc(r->connection->pool, sizeof(ngx_hls_http_ctx_t));
+        p = ngx_pcalloc(r->pool, sizeof(ngx_hls_http_ctx_t));
 
         if (p == NULL) {
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
@@ -511,6 +518,13 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 
         ctx = (ngx_hls_http_ctx_t *)p;
 
+        cln = ngx_http_cleanup_add(r, 0);
+        if (cln == NULL) {
+            return NULL;
+        }
+        cln->handler = ngx_hls_http_cleanup;
+        cln->data = ctx;
+
         ngx_http_set_ctx(r, ctx, ngx_hls_http_module);
     }
 
@@ -531,42 +545,63 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 }
 
 
-static void
-ngx_hls_http_cleanup(void *data)
+/* a session is served by any number of requests and may end before them */
+static ngx_int_t
+ngx_hls_http_attach(ngx_http_request_t *r, ngx_rtmp_session_t *s)
 {
-    ngx_http_request_t   *r;
     ngx_hls_http_ctx_t   *ctx;
-    ngx_chain_t          *cl;
+    ngx_hls_live_ctx_t   *lctx;
 
-    r = data;
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
 
-    if (!ctx) {
+    if (lctx == NULL) {
+        return NGX_ERROR;
+    }
+
+    ctx->request = r;
+    ctx->session = s;
+    ctx->out_queue = s->out_queue;
+    ctx->timeout = s->timeout;
+
+    ngx_queue_insert_tail(&lctx->requests, &ctx->queue);
+
+    return NGX_OK;
+}
+
+
+static void
+ngx_hls_http_detach(ngx_hls_http_ctx_t *ctx)
+{
+    if (ctx->session == NULL) {
         return;
     }
 
-    if (ctx->out_chain == NULL) {
+    ngx_queue_remove(&ctx->queue);
+    ctx->session = NULL;
+}
+
+
+static void
+ngx_hls_http_cleanup(void *data)
+{
+    ngx_hls_http_ctx_t   *ctx;
+    ngx_chain_t          *cl;
+
+    ctx = data;
+
+    cl = ctx->out_chain;
+    while (cl) {
+        ctx->out_chain = cl->next;
+        ngx_put_chainbuf(cl);
         cl = ctx->out_chain;
-        while (cl) {
-            ctx->out_chain = cl->next;
-            ngx_put_chainbuf(cl);
-            cl = ctx->out_chain;
-        }
     }
 
     ctx->content_pos = 0;
 
-    if (ctx->session) {
-        ctx->session->request = NULL;
-        ctx->session->connection = NULL;
-    }
-
-    ngx_log_error(NGX_LOG_DEBUG, r->connection->log, 0,
-            "hls-http: cleanup_handler| http cleanup");
+    ngx_hls_http_detach(ctx);
 
     if (ctx->frag) {
-        ngx_log_error(NGX_LOG_DEBUG, r->connection->log, 0,
-            "hls-http: cleanup_handler| free frag[%p]", ctx->frag);
         ngx_hls_live_free_frag(ctx->frag);
         ctx->frag = NULL;
     }
@@ -785,13 +820,13 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
         ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
     }
 
-    s->request = r;
-
-    ctx->session = s;
+    if (ngx_hls_http_attach(r, s) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
 
     if (!ctx->m3u8) {
-        ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
-        ctx->m3u8->buf = ngx_create_temp_buf(r->connection->pool, 1024*512);
+        ctx->m3u8 = ngx_pcalloc(r->pool, sizeof(ngx_chain_t));
+        ctx->m3u8->buf = ngx_create_temp_buf(r->pool, 1024*512);
     }
 
     out = ctx->m3u8;
@@ -830,6 +865,7 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
     return rc;
 
 again:
+    ctx->parked = 1;
     r->count++;
 
     return NGX_DONE;
@@ -887,14 +923,12 @@ static ngx_chain_t *
 ngx_hls_http_prepare_out_chain(ngx_http_request_t *r, ngx_int_t nframes)
 {
     ngx_hls_http_ctx_t   *ctx;
-     ngx_hls_live_frag_t *frag;
-    ngx_rtmp_session_t   *s;
+    ngx_hls_live_frag_t  *frag;
     ngx_chain_t          *out, *cl, **ll;
     ngx_mpegts_frame_t   *frame;
     ngx_int_t             i = 0;
 
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    s = ctx->session;
     frag = ctx->frag;
 
     out = NULL;
@@ -913,7 +947,7 @@ ngx_hls_http_prepare_out_chain(ngx_http_request_t *r, ngx_int_t nframes)
         }
 
         *ll = NULL;
-        ctx->content_pos = ngx_hls_live_next(s, ctx->content_pos);
+        ctx->content_pos = ngx_hls_live_next(ctx, ctx->content_pos);
         i++;
     }
 
@@ -940,7 +974,7 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
     s = ctx->session;
 
     if (wev->timedout) {
-        ngx_log_error(NGX_LOG_INFO, s->log, NGX_ETIMEDOUT,
+        ngx_log_error(NGX_LOG_INFO, r->connection->log, NGX_ETIMEDOUT,
                 "hls_http: write_handler| client timed out");
         r->connection->timedout = 1;
         if (r->header_sent) {
@@ -975,14 +1009,14 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
         sent = r->connection->sent - present;
 
         ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, sent);
-        if (s->live_stream) {
+        if (s && s->live_stream) {
             ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, sent);
         }
 
         if (rc == NGX_AGAIN) {
-            ngx_add_timer(wev, s->timeout);
+            ngx_add_timer(wev, ctx->timeout);
             if (ngx_handle_write_event(wev, 0) != NGX_OK) {
-                ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "hls_http: write_handler| handle write event failed");
                 ngx_http_finalize_request(r, NGX_ERROR);
             }
@@ -990,7 +1024,7 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
         }
 
         if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+            ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                     "hls_http: write_handler| send error");
             ngx_http_finalize_request(r, NGX_ERROR);
 
@@ -1042,8 +1076,9 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
             "hls-http: ts_handler| hls session %V not found", &ctx->sid);
         return NGX_DECLINED;
     }
-    ctx->session = s;
-    s->request = r;
+    if (ngx_hls_http_attach(r, s) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
 
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
@@ -1063,6 +1098,7 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     }
 
     ctx->frag = frag;
+    ngx_rtmp_shared_acquire_frag(frag);
 
     r->headers_out.content_length_n = frag->length;
     r->headers_out.last_modified_time = frag->last_modified_time;
@@ -1075,8 +1111,6 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
 
-    ngx_rtmp_shared_acquire_frag(frag);
-
     if (1) {
         r->write_event_handler = ngx_hls_http_write_handler;
 
@@ -1103,7 +1137,6 @@ ngx_hls_http_handler(ngx_http_request_t *r)
 {
     ngx_hls_http_loc_conf_t    *hlcf;
     ngx_int_t                   rc;
-    ngx_http_cleanup_t         *cln;
     ngx_str_t                   sstr;
     ngx_hls_http_ctx_t         *ctx;
 
@@ -1133,12 +1166,6 @@ ngx_hls_http_handler(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
     if (!ctx) {
-        cln = ngx_http_cleanup_add(r, 0);
-        if (cln == NULL) {
-            return NGX_HTTP_INTERNAL_SERVER_ERROR;
-        }
-        cln->handler = ngx_hls_http_cleanup;
-        cln->data = r;
         r->read_event_handler = ngx_http_test_reading;
     }
 
@@ -1165,24 +1192,18 @@ ngx_hls_http_handler(ngx_http_request_t *r)
 }
 
 static ngx_int_t
-ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+ngx_hls_http_send_m3u8(ngx_rtmp_session_t *s, ngx_http_request_t *r)
 {
-    ngx_http_request_t                 *r;
     ngx_int_t                           rc;
     ngx_hls_http_ctx_t                 *ctx;
     ngx_buf_t                          *buf;
     ngx_chain_t                        *out;
 
-    r = s->request;
-    if (!r) {
-        return NGX_ERROR;
-    }
-
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
 
     if (!ctx->m3u8) {
-        ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
-        ctx->m3u8->buf = ngx_create_temp_buf(r->connection->pool, 1024*512);
+        ctx->m3u8 = ngx_pcalloc(r->pool, sizeof(ngx_chain_t));
+        ctx->m3u8->buf = ngx_create_temp_buf(r->pool, 1024*512);
     }
 
     out = ctx->m3u8;
@@ -1200,20 +1221,45 @@ ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
     s->out_bytes += r->headers_out.content_length_n;
 
     rc = ngx_hls_http_send_header(r, NGX_HTTP_OK, ngx_m3u8_headers);
-    if (rc != NGX_OK) {
+    if (rc == NGX_ERROR || rc > NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
             "hls-http: m3u8| send http header failed");
         return rc;
     }
 
     rc = ngx_http_output_filter(r, out);
-    if (rc != NGX_OK) {
+    if (rc == NGX_ERROR) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
             "hls-http: m3u8| send http content failed");
         return rc;
     }
 
-    ngx_http_finalize_request(r, NGX_HTTP_OK);
+    return NGX_HTTP_OK;
+}
+
+static ngx_int_t
+ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+{
+    ngx_hls_live_ctx_t   *lctx;
+    ngx_hls_http_ctx_t   *ctx;
+    ngx_queue_t          *q, *next;
+
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
+
+    for (q = ngx_queue_head(&lctx->requests);
+         q != ngx_queue_sentinel(&lctx->requests); q = next)
+    {
+        next = ngx_queue_next(q);
+        ctx = ngx_queue_data(q, ngx_hls_http_ctx_t, queue);
+
+        if (!ctx->parked) {
+            continue;
+        }
+
+        ctx->parked = 0;
+        ngx_http_finalize_request(ctx->request,
+                                  ngx_hls_http_send_m3u8(s, ctx->request));
+    }
 
     return NGX_OK;
 }
@@ -1222,26 +1268,31 @@ static ngx_int_t
 ngx_hls_http_close(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
     ngx_http_request_t   *r;
+    ngx_hls_live_ctx_t   *lctx;
     ngx_hls_http_ctx_t   *ctx;
+    ngx_queue_t          *q;
 
-    r = s->request;
-    if (!r) {
-        return NGX_OK;
-    }
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
 
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    if (!ctx) {
-        return NGX_OK;
-    }
+    while (!ngx_queue_empty(&lctx->requests)) {
+        q = ngx_queue_head(&lctx->requests);
+        ctx = ngx_queue_data(q, ngx_hls_http_ctx_t, queue);
+        r = ctx->request;
 
-    s->request = NULL;
-    s->connection = NULL;
-    ctx->session = NULL;
+        ngx_hls_http_detach(ctx);
+
+        if (!ctx->parked) {
+            /* a fragment being sent is kept by its reference */
+            continue;
+        }
 
-    ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
-        "hls-http: close| finalize http request");
+        ctx->parked = 0;
 
-    ngx_http_finalize_request(r, NGX_HTTP_GONE);
+        ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
+            "hls-http: close| finalize http request");
+
+        ngx_http_finalize_request(r, NGX_HTTP_GONE);
+    }
 
     return NGX_OK;
 }
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index efab067..6eea85f 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -692,6 +692,7 @@ ngx_hls_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
     }
 
     ctx->session = s;
+    ngx_queue_init(&ctx->requests);
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0,
                    "mpegts-live: join| join '%s'", name);
@@ -971,6 +972,7 @@ ngx_hls_live_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
     ngx_rtmp_session_t        *ss;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_hls_live_app_conf_t   *hacf;
+    ngx_hls_live_ctx_t        *next;
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
     hacf = ngx_rtmp_get_module_app_conf(s, ngx_hls_live_module);
@@ -980,7 +982,8 @@ ngx_hls_live_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
             frame->dts/90, frame->type, frame->key);
 
     live_stream = s->live_stream;
-    for (ctx = live_stream->hls_ctx; ctx; ctx = ctx->next) {
+    for (ctx = live_stream->hls_ctx; ctx; ctx = next) {
+        next = ctx->next;
         ss = ctx->session;
 
         switch (ngx_mpegts_gop_link(s, ss, hacf->playlen, hacf->playlen)) {
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
index b019c88..2670e31 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
@@ -78,9 +78,12 @@ struct ngx_hls_live_ctx_s {
     ngx_msec_t              last_time;
     time_t                  playlist_modified_time;
     ngx_buf_t              *playlist;
+    ngx_queue_t             requests; /* http requests being served */
     ngx_hls_live_ctx_t     *next;
 };
 
+extern ngx_module_t ngx_hls_live_module;
+
 ngx_int_t ngx_hls_live_write_playlist(ngx_rtmp_session_t *s, ngx_buf_t *out,
     time_t *last_modified_time);
 ngx_hls_live_frag_t* ngx_hls_live_find_frag(ngx_rtmp_session_t *s,
-- 
2.43.0


From e666d5f9a87ddce222dabf330809d6627758097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 055/104] fix: HLS+ fragment length is ignored with AAC and its
 duration underflows

---
 .../mpegts/ngx_hls_http_module.c              |  3 ++-
 .../mpegts/ngx_hls_live_module.c              | 19 +++++++------------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 8e177ea..77c7e36 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -821,7 +821,8 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
     }
 
     if (ngx_hls_http_attach(r, s) != NGX_OK) {
-        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+        ngx_rtmp_finalize_fake_session(s);
+        return NGX_HTTP_NOT_FOUND;
     }
 
     if (!ctx->m3u8) {
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 6eea85f..ea99609 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -850,7 +850,9 @@ ngx_hls_live_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
                 discont = 0;
 //            }
         } else {
-            frag->duration = (ts - ctx->frag_ts) / 90000.;
+            if (d / 90000. > frag->duration) {
+                frag->duration = d / 90000.;
+            }
             discont = 0;
         }
     }
@@ -914,9 +916,6 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
     ngx_hls_live_ctx_t   *ctx;
     ngx_mpegts_frame_t   *frame;
     ngx_int_t             boundary;
-    ngx_buf_t            *b;
-
-    b = NULL;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_hls_live_module);
 
@@ -935,10 +934,7 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
         if (frame->type == NGX_MPEGTS_MSG_AUDIO) {
             boundary = codec_ctx->avc_header == NULL;
         } else if (frame->type == NGX_MPEGTS_MSG_VIDEO) {
-            b = ctx->aframe;
-            boundary = frame->key &&
-                (codec_ctx->aac_header == NULL || !ctx->opened ||
-                (b && b->last > b->pos));
+            boundary = frame->key;
         } else {
             return NGX_ERROR;
         }
@@ -948,12 +944,11 @@ ngx_hls_live_update(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *codec_ctx)
 
         ngx_hls_live_update_fragment(s, frame->pts, boundary);
 
-        if (!ctx->opened) {
-            break;
+        /* nothing before the first boundary can be played */
+        if (ctx->opened) {
+            ngx_hls_live_write_frame(s, frame);
         }
 
-        ngx_hls_live_write_frame(s, frame);
-
         ngx_rtmp_shared_free_mpegts_frame(frame);
 
         ++s->out_pos;
-- 
2.43.0


From e3796e9ea74f9e887d02540e1c4b686cdd13fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 056/104] fix: HLS+ serves another segment for an old segment
 number

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index ea99609..06b3518 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -303,8 +303,9 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
 
     hacf = ngx_rtmp_get_module_app_conf(s, ngx_hls_live_module);
 
-    if (frag_id > ctx->nfrag + ctx->nfrags ||
-        ctx->nfrag + ctx->nfrags - frag_id > hacf->winfrags * 2 + 1)
+    /* the last one is still being written */
+    if (frag_id >= ctx->nfrag + ctx->nfrags ||
+        ctx->nfrag + ctx->nfrags - frag_id > hacf->winfrags * 2)
     {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
             "hls-live: find_frag| invalid frag id[%d], curr id [%d]",
@@ -313,6 +314,9 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
     }
 
     frag = ctx->frags[frag_id % (hacf->winfrags * 2 + 1)];
+    if (frag == NULL || frag->id != frag_id) {
+        return NULL;
+    }
 
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
         "hls-live: find_frag| find frag %p [%d] [frag %d] length %ui",
-- 
2.43.0


From 61a15e8cd8672094d750214b618157fab68e06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 057/104] fix: metadata in mid-stream forgets the codecs of the
 stream

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 1049b32..911f886 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1310,11 +1310,18 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ctx->duration = (ngx_uint_t) v.duration;
     ctx->frame_rate = v.frame_rate;
     ctx->video_data_rate = (ngx_uint_t) v.video_data_rate;
-    ctx->video_codec_id = (ngx_uint_t) v.video_codec_id_n;
     ctx->audio_data_rate = (ngx_uint_t) v.audio_data_rate;
-    ctx->audio_codec_id = (v.audio_codec_id_n == -1
+
+    /* the media itself knows better than its description */
+    if (ctx->video_codec_id == 0) {
+        ctx->video_codec_id = (ngx_uint_t) v.video_codec_id_n;
+    }
+    if (ctx->audio_codec_id == 0) {
+        ctx->audio_codec_id = (v.audio_codec_id_n == -1
             ? 0 : v.audio_codec_id_n == 0
             ? NGX_RTMP_AUDIO_UNCOMPRESSED : (ngx_uint_t) v.audio_codec_id_n);
+    }
+
     ngx_memcpy(ctx->profile, v.profile, sizeof(v.profile));
     ngx_memcpy(ctx->level, v.level, sizeof(v.level));
 
-- 
2.43.0


From 730c02fe9b325ce681ae9e63b4737ecb9d7f4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 058/104] fix: HLS+ segment mixes the media of two publishes

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c |  6 ++++++
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h |  2 ++
 .../nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c   | 10 ++++++++++
 .../nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h   |  3 +++
 4 files changed, 21 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 06b3518..30d967e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -985,6 +985,12 @@ ngx_hls_live_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
         next = ctx->next;
         ss = ctx->session;
 
+        /* another publish starts another fragment */
+        if (ctx->cache_id != ngx_mpegts_gop_cache_id(s)) {
+            ctx->cache_id = ngx_mpegts_gop_cache_id(s);
+            ngx_hls_live_close_fragment(ss);
+        }
+
         switch (ngx_mpegts_gop_link(s, ss, hacf->playlen, hacf->playlen)) {
         case NGX_DECLINED:
             continue;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
index 2670e31..cee8c5d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
@@ -50,6 +50,8 @@ struct ngx_hls_live_ctx_s {
     unsigned                opened:1;
     unsigned                playing:1;
 
+    ngx_uint_t              cache_id; /* publish the fragment is made of */
+
     ngx_buf_t              *patpmt;
     ngx_rtmp_session_t     *session;
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 3717f5c..210b34b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -646,6 +646,16 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
     return NGX_AGAIN;
 }
 
+ngx_uint_t
+ngx_mpegts_gop_cache_id(ngx_rtmp_session_t *s)
+{
+    ngx_mpegts_gop_ctx_t         *ctx;
+
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_gop_module);
+
+    return ctx ? ctx->id : 0;
+}
+
 ngx_int_t
 ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
     ngx_msec_t time_offset, ngx_msec_t duration)
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
index 3b1ca53..827fc0b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
@@ -15,5 +15,8 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
     ngx_msec_t time_offset, ngx_msec_t duration);
 ngx_int_t
 ngx_mpegts_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss);
+/* identity of the publish being cached */
+ngx_uint_t
+ngx_mpegts_gop_cache_id(ngx_rtmp_session_t *s);
 
 #endif
-- 
2.43.0


From b35d8c1eb27273061529805c94592faa8f87c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 059/104] fix: HLS+ fragment overflows its frame array

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 30d967e..379e816 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -858,6 +858,11 @@ ngx_hls_live_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
                 frag->duration = d / 90000.;
             }
             discont = 0;
+
+            /* no room for another frame */
+            if (frag->content_last + 1 >= (ngx_uint_t) s->out_queue) {
+                force = 1;
+            }
         }
     }
 
-- 
2.43.0


From a59d16f69fcaa68709c11ee78761daa88f50f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 060/104] fix: mpegts cache is dropped by reordered frames

---
 .../mpegts/ngx_mpegts_gop_module.c            | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 210b34b..6da70fc 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -24,6 +24,10 @@ static char *ngx_mpegts_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
 
 static ngx_int_t ngx_mpegts_gop_postconfiguration(ngx_conf_t *cf);
 
+/* pts is not monotonic, frames may be reordered */
+#define ngx_mpegts_gop_diff(a, b) ((int64_t) ((a) - (b)))
+#define NGX_MPEGTS_GOP_REORDER    90000
+
 #define ngx_mpegts_gop_next(s, pos) ((pos + 1) % s->out_queue)
 #define ngx_mpegts_gop_prev(s, pos) (pos == 0 ? s->out_queue - 1 : pos - 1)
 
@@ -229,6 +233,7 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
     size_t                       pos;
     ngx_uint_t                   nmsg;
     ngx_msec_t                   cache_time;
+    int64_t                      d;
 
     pos = ctx->gop_pos;
 
@@ -244,7 +249,8 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
 
     /* only audio in cache */
     if (ctx->keyframe == NULL) {
-        if (frame->pts - ctx->cache[ctx->gop_pos]->pts > cache_time * 90) {
+        d = ngx_mpegts_gop_diff(frame->pts, ctx->cache[ctx->gop_pos]->pts);
+        if (d > (int64_t) cache_time * 90 || d < -NGX_MPEGTS_GOP_REORDER) {
             ngx_rtmp_shared_free_mpegts_frame(f);
             ctx->cache[ctx->gop_pos] = NULL;
             ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
@@ -270,8 +276,9 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
         return;
     }
 
-    if (frame->type == NGX_MPEGTS_MSG_VIDEO && frame->pts
-            - next_keyframe->pts < cache_time * 90)
+    d = ngx_mpegts_gop_diff(frame->pts, next_keyframe->pts);
+    if (frame->type == NGX_MPEGTS_MSG_VIDEO && d < (int64_t) cache_time * 90
+            && d >= -NGX_MPEGTS_GOP_REORDER)
     {
         return;
     }
@@ -446,7 +453,8 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     keyframe = sctx->keyframe;
     while (ss->roll_back && keyframe &&
-        ((sctx->current_timestamp - keyframe->pts) > ss->roll_back * 90))
+        ngx_mpegts_gop_diff(sctx->current_timestamp, keyframe->pts)
+            > (int64_t) ss->roll_back * 90)
     {
         ngx_log_error(NGX_LOG_INFO, s->log, 0,
             "rtmp-gop: send_gop| curr %D - k %D, %D",
@@ -472,7 +480,8 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         if (!gacf->send_all && frame->type == ssctx->base_type &&
-            frame->pts - ssctx->first_timestamp >= gacf->one_off_send * 90)
+            ngx_mpegts_gop_diff(frame->pts, ssctx->first_timestamp)
+                >= (int64_t) gacf->one_off_send * 90)
         {
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                 "gone %D, type %d, first %D, curr %D, send %D",
@@ -598,7 +607,8 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
 
     keyframe = sctx->keyframe;
     while (time_offset && keyframe &&
-        ((sctx->current_timestamp - keyframe->pts) > time_offset * 90))
+        ngx_mpegts_gop_diff(sctx->current_timestamp, keyframe->pts)
+            > (int64_t) time_offset * 90)
     {
         ngx_log_error(NGX_LOG_DEBUG, ss->log, 0,
             "mpegts-gop: offset_frames| curr %D - k %D = %D, %D",
@@ -624,7 +634,8 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         }
 
         if (frame->type == ssctx->base_type &&
-            frame->pts - ssctx->first_timestamp >= duration * 90)
+            ngx_mpegts_gop_diff(frame->pts, ssctx->first_timestamp)
+                >= (int64_t) duration * 90)
         {
             ngx_log_error(NGX_LOG_INFO, ss->log, 0, "gone %D, first %D, curr %D",
                 frame->pts, ssctx->first_timestamp, sctx->current_timestamp);
-- 
2.43.0


From de14d8e3396aa0e118fafc8ecffb776f00abe36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 061/104] fix: a publisher in a worker which pulls its stream
 is not heard in the others

While players wait in several workers, all but the owner of the stream hold
an inner pull.  A publisher that connects to one of these became second to
the pull: it was neither played nor pushed to the owner.  It takes the place
of the pull now, unless the owner has a publisher.  When it leaves, its
players pull from the owner again.
---
 modules/nginx-rtmp-module/ngx_live_relay.c    |  6 +-
 modules/nginx-rtmp-module/ngx_live_relay.h    |  8 +++
 .../nginx-rtmp-module/ngx_live_relay_inner.c  | 64 ++++++++++++++++++-
 3 files changed, 74 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 148c9ff..a17784d 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -206,8 +206,10 @@ ngx_live_relay_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
     ngx_live_relay_ctx_t       *ctx;
 
-    // second publish will not trigger push
-    if (s->live_stream->publish_ctx->next != NULL) {
+    // second publish will not trigger push, unless all others are inner pull
+    if (s->live_stream->publish_ctx->next != NULL
+            && (s->relay || ngx_live_relay_inner_replace_pull(s) != NGX_OK))
+    {
         goto next;
     }
 
diff --git a/modules/nginx-rtmp-module/ngx_live_relay.h b/modules/nginx-rtmp-module/ngx_live_relay.h
index b52405b..0ee57c4 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.h
+++ b/modules/nginx-rtmp-module/ngx_live_relay.h
@@ -79,6 +79,14 @@ ngx_int_t ngx_live_relay_create_rtmp(ngx_rtmp_session_t *rs,
 ngx_int_t ngx_live_relay_create(ngx_rtmp_session_t *rs,
         ngx_live_relay_t *relay);
 
+/*
+ * A publisher takes the place of the pull from another worker.
+ *
+ * return NGX_OK if there is nothing but such pulls and their owner has no
+ * publisher, they are closed then, NGX_DECLINED otherwise
+ */
+ngx_int_t ngx_live_relay_inner_replace_pull(ngx_rtmp_session_t *s);
+
 ngx_int_t ngx_live_relay_play_local(ngx_rtmp_session_t *rs);
 
 ngx_int_t ngx_live_relay_publish_local(ngx_rtmp_session_t *rs);
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 235b3f1..04aec13 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -6,6 +6,7 @@
 #include <ngx_config.h>
 #include <ngx_core.h>
 #include "ngx_live_relay.h"
+#include "ngx_rtmp_live_module.h"
 #include "ngx_stream_zone_module.h"
 #include "ngx_multiport.h"
 
@@ -276,6 +277,54 @@ ngx_live_relay_inner_relay(ngx_rtmp_session_t *s, unsigned publishing)
 }
 
 
+static void
+ngx_live_relay_inner_giveup(ngx_rtmp_core_ctx_t *cctx)
+{
+    ngx_live_relay_ctx_t               *ctx;
+
+    for (/* void */; cctx; cctx = cctx->next) {
+        ctx = ngx_rtmp_get_module_ctx(cctx->session, ngx_live_relay_module);
+        if (ctx == NULL || ctx->tag != &ngx_live_relay_inner_module) {
+            continue;
+        }
+
+        ctx->giveup = 1;
+        cctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
+        ngx_rtmp_finalize_session(cctx->session);
+    }
+}
+
+
+ngx_int_t
+ngx_live_relay_inner_replace_pull(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_core_ctx_t                *cctx;
+    ngx_live_relay_ctx_t               *ctx;
+    ngx_rtmp_live_ctx_t                *lctx;
+
+    for (cctx = s->live_stream->publish_ctx; cctx; cctx = cctx->next) {
+        if (cctx->session == s) {
+            continue;
+        }
+
+        ctx = ngx_rtmp_get_module_ctx(cctx->session, ngx_live_relay_module);
+        if (ctx == NULL || ctx->tag != &ngx_live_relay_inner_module) {
+            return NGX_DECLINED;
+        }
+
+        // owner has a publisher
+        lctx = ngx_rtmp_get_module_ctx(cctx->session, ngx_rtmp_live_module);
+        if (lctx && lctx->active) {
+            return NGX_DECLINED;
+        }
+    }
+
+    ngx_live_relay_inner_giveup(s->live_stream->publish_ctx);
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_live_relay_inner_push(ngx_rtmp_session_t *s)
 {
@@ -363,6 +412,15 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_module);
     if (ctx == NULL) {
+        // last normal publisher close, players left need to pull from owner
+        if (s->live_stream->publish_ctx == NULL
+                && s->live_stream->pslot != -1
+                && s->live_stream->pslot != ngx_process_slot)
+        {
+            ngx_live_relay_inner_giveup(s->live_stream->play_ctx);
+            s->live_stream->pslot = -1;
+        }
+
         goto next;
     }
 
@@ -370,8 +428,10 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
         goto next;
     }
 
-    // inner relay close
-    s->live_stream->pslot = -1;
+    // inner relay close, if it gives way to a publisher, stream is pushed now
+    if (!ctx->giveup) {
+        s->live_stream->pslot = -1;
+    }
 
 next:
     return next_pull_close(s);
-- 
2.43.0


From 7e2f1c7239923be52d9c12f66473556f2afe4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 062/104] fix: max_connections was never enforced

The limit module hung its check on a connect event which nothing fires, so
every connection was admitted, and disconnects still counted down. Fire the
event when a connection is set up, count only sessions which were counted in,
and keep the counters per process slot, so what a killed worker held is given
back when its successor starts.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c     |   5 +
 .../nginx-rtmp-module/ngx_rtmp_limit_module.c | 115 ++++++++++++------
 2 files changed, 86 insertions(+), 34 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index fef92f3..8122709 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -206,6 +206,11 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
 
     s->interprocess = unix_socket;
 
+    if (ngx_rtmp_fire_event(s, NGX_RTMP_CONNECT, NULL, NULL) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
+        return;
+    }
+
     if (addr_conf->proxy_protocol) {
         ngx_rtmp_proxy_protocol(s);
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
index dae8143..592d615 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
@@ -18,6 +18,16 @@ typedef struct {
 static ngx_str_t    shm_name = ngx_string("rtmp_limit");
 
 
+/*
+ * connections are counted per process slot, so that those of a worker
+ * which died are not counted for ever
+ */
+typedef struct {
+    uint32_t        nconn[NGX_MAX_PROCESSES];
+} ngx_rtmp_limit_shm_t;
+
+
+static ngx_int_t ngx_rtmp_limit_init_process(ngx_cycle_t *cycle);
 static ngx_int_t ngx_rtmp_limit_postconfiguration(ngx_conf_t *cf);
 static void *ngx_rtmp_limit_create_main_conf(ngx_conf_t *cf);
 
@@ -54,7 +64,7 @@ ngx_module_t  ngx_rtmp_limit_module = {
     NGX_RTMP_MODULE,                        /* module type */
     NULL,                                   /* init master */
     NULL,                                   /* init module */
-    NULL,                                   /* init process */
+    ngx_rtmp_limit_init_process,            /* init process */
     NULL,                                   /* init thread */
     NULL,                                   /* exit thread */
     NULL,                                   /* exit process */
@@ -79,41 +89,81 @@ ngx_rtmp_limit_create_main_conf(ngx_conf_t *cf)
 }
 
 
+static ngx_int_t
+ngx_rtmp_limit_init_process(ngx_cycle_t *cycle)
+{
+    ngx_rtmp_conf_ctx_t        *ctx;
+    ngx_rtmp_limit_main_conf_t *lmcf;
+    ngx_slab_pool_t            *shpool;
+    ngx_rtmp_limit_shm_t       *shm;
+
+    ctx = (ngx_rtmp_conf_ctx_t *) ngx_get_conf(cycle->conf_ctx,
+                                               ngx_rtmp_module);
+    if (ctx == NULL) {
+        return NGX_OK;
+    }
+
+    lmcf = ctx->main_conf[ngx_rtmp_limit_module.ctx_index];
+    if (lmcf->max_conn == NGX_CONF_UNSET) {
+        return NGX_OK;
+    }
+
+    shpool = (ngx_slab_pool_t *) lmcf->shm_zone->shm.addr;
+    shm = lmcf->shm_zone->data;
+
+    ngx_shmtx_lock(&shpool->mutex);
+    shm->nconn[ngx_process_slot] = 0;
+    ngx_shmtx_unlock(&shpool->mutex);
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_chain_t *in)
 {
     ngx_rtmp_limit_main_conf_t *lmcf;
     ngx_slab_pool_t            *shpool;
-    ngx_shm_zone_t             *shm_zone;
-    uint32_t                   *nconn, n;
-    ngx_int_t                   rc;
+    ngx_rtmp_limit_shm_t       *shm;
+    uint32_t                    n;
+    ngx_uint_t                  i;
 
     lmcf = ngx_rtmp_get_module_main_conf(s, ngx_rtmp_limit_module);
-    if (lmcf->max_conn == NGX_CONF_UNSET) {
+    if (lmcf->max_conn == NGX_CONF_UNSET || s->interprocess) {
         return NGX_OK;
     }
 
-    shm_zone = lmcf->shm_zone;
-    shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
-    nconn = shm_zone->data;
+    shpool = (ngx_slab_pool_t *) lmcf->shm_zone->shm.addr;
+    shm = lmcf->shm_zone->data;
+    n = 1;
 
     ngx_shmtx_lock(&shpool->mutex);
-    n = ++*nconn;
-    ngx_shmtx_unlock(&shpool->mutex);
 
-    rc = n > (ngx_uint_t) lmcf->max_conn ? NGX_ERROR : NGX_OK;
+    for (i = 0; i < NGX_MAX_PROCESSES; i++) {
+        n += shm->nconn[i];
+    }
 
-    ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                   "limit: inc conection counter: %uD", n);
+    if (n <= (ngx_uint_t) lmcf->max_conn) {
+        shm->nconn[ngx_process_slot]++;
+    }
+
+    ngx_shmtx_unlock(&shpool->mutex);
 
-    if (rc != NGX_OK) {
+    if (n > (ngx_uint_t) lmcf->max_conn) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                       "limit: too many connections: %uD > %i",
                       n, lmcf->max_conn);
+        return NGX_ERROR;
     }
 
-    return rc;
+    /* the session is counted */
+    ngx_rtmp_set_ctx(s, lmcf, ngx_rtmp_limit_module);
+
+    ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
+                   "limit: inc conection counter: %uD", n);
+
+    return NGX_OK;
 }
 
 
@@ -123,25 +173,24 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 {
     ngx_rtmp_limit_main_conf_t *lmcf;
     ngx_slab_pool_t            *shpool;
-    ngx_shm_zone_t             *shm_zone;
-    uint32_t                   *nconn, n;
+    ngx_rtmp_limit_shm_t       *shm;
 
-    lmcf = ngx_rtmp_get_module_main_conf(s, ngx_rtmp_limit_module);
-    if (lmcf->max_conn == NGX_CONF_UNSET) {
+    lmcf = ngx_rtmp_get_module_ctx(s, ngx_rtmp_limit_module);
+    if (lmcf == NULL) {
         return NGX_OK;
     }
 
-    shm_zone = lmcf->shm_zone;
-    shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
-    nconn = shm_zone->data;
+    ngx_rtmp_set_ctx(s, NULL, ngx_rtmp_limit_module);
+
+    shpool = (ngx_slab_pool_t *) lmcf->shm_zone->shm.addr;
+    shm = lmcf->shm_zone->data;
 
     ngx_shmtx_lock(&shpool->mutex);
-    n = --*nconn;
+    shm->nconn[ngx_process_slot]--;
     ngx_shmtx_unlock(&shpool->mutex);
 
-    (void) n;
-    ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                   "limit: dec conection counter: %uD", n);
+    ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
+                   "limit: dec conection counter");
 
     return NGX_OK;
 }
@@ -150,8 +199,8 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 static ngx_int_t
 ngx_rtmp_limit_shm_init(ngx_shm_zone_t *shm_zone, void *data)
 {
-    ngx_slab_pool_t    *shpool;
-    uint32_t           *nconn;
+    ngx_slab_pool_t        *shpool;
+    ngx_rtmp_limit_shm_t   *shm;
 
     if (data) {
         shm_zone->data = data;
@@ -160,14 +209,12 @@ ngx_rtmp_limit_shm_init(ngx_shm_zone_t *shm_zone, void *data)
 
     shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
 
-    nconn = ngx_slab_alloc(shpool, 4);
-    if (nconn == NULL) {
+    shm = ngx_slab_calloc(shpool, sizeof(ngx_rtmp_limit_shm_t));
+    if (shm == NULL) {
         return NGX_ERROR;
     }
 
-    *nconn = 0;
-
-    shm_zone->data = nconn;
+    shm_zone->data = shm;
 
     return NGX_OK;
 }
@@ -193,7 +240,7 @@ ngx_rtmp_limit_postconfiguration(ngx_conf_t *cf)
         return NGX_OK;
     }
 
-    lmcf->shm_zone = ngx_shared_memory_add(cf, &shm_name, ngx_pagesize * 2,
+    lmcf->shm_zone = ngx_shared_memory_add(cf, &shm_name, ngx_pagesize * 8,
                                            &ngx_rtmp_limit_module);
     if (lmcf->shm_zone == NULL) {
         return NGX_ERROR;
-- 
2.43.0


From 4f597709197a3af60757b9d1efde4b5f43888b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 063/104] fix: access rules for IPv6 addresses

The session kept only the first 16 bytes of the peer's address, so rules for
IPv6 addresses never matched and read past it.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 8122709..623a7b1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 1437c80b238c2d2c62b5b4d296613b485697b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 064/104] fix: access rules see the proxy instead of the client

With proxy_protocol the session kept the address of the proxy, which access
rules, logs and callbacks then went by.
---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..52a624d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -179,6 +179,10 @@ skip:
         c->addr_text.data = text;
         c->addr_text.len = len;
 
+        /* access rules, logs and callbacks go by the client's address */
+        s->sockaddr = c->sockaddr;
+        s->remote_addr_text = c->addr_text;
+
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, c->log, 0,
                        "proxy_protocol: remote_addr:'%V'", &c->addr_text);
     }
-- 
2.43.0


From 648a65e3c11128dc28458629563ea20cb34f58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 065/104] fix: players over MPEG-TS and HLS are missing in the
 statistics

---
 modules/nginx-rtmp-module/ngx_live_stat.c     | 34 +++++++++++++++++++
 .../nginx-rtmp-module/ngx_rtmp_stat_module.c  | 22 ++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_stat.c b/modules/nginx-rtmp-module/ngx_live_stat.c
index 4758c5d..e25bb7c 100644
--- a/modules/nginx-rtmp-module/ngx_live_stat.c
+++ b/modules/nginx-rtmp-module/ngx_live_stat.c
@@ -119,6 +119,7 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
     ngx_live_stream_t              *stream;
     ngx_rtmp_codec_ctx_t           *codec;
     ngx_rtmp_live_ctx_t            *ctx;
+    ngx_rtmp_core_ctx_t            *cctx;
     ngx_rtmp_session_t             *s;
     size_t                          n;
     ngx_uint_t                      nclients, total_nclients;
@@ -227,6 +228,39 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
                 }
             }
 
+            /* players over MPEG-TS and HLS do not join the live stream */
+            for (cctx = stream->play_ctx; cctx; cctx = cctx->next) {
+                s = cctx->session;
+                if (s->live_type != NGX_MPEGTS_LIVE
+                    && s->live_type != NGX_HLS_LIVE)
+                {
+                    continue;
+                }
+
+                client_item = cJSON_CreateObject();
+                cJSON_AddItemToArray(client_array, client_item);
+
+                ngx_live_stat_client(client_item, s);
+
+                cJSON_AddNumberToObject(client_item, "timestamp",
+                    s->current_time);
+                cJSON_AddBoolToObject(client_item, "publishing",
+                    (cJSON_bool) s->publishing);
+                cJSON_AddBoolToObject(client_item, "relay",
+                    (cJSON_bool) s->relay);
+                cJSON_AddBoolToObject(client_item, "interprocess",
+                    (cJSON_bool) s->interprocess);
+                cJSON_AddStringToObject(client_item, "protocol",
+                    ngx_live_protocol_string[s->live_type]);
+
+                if (s->live_type == NGX_HLS_LIVE) {
+                    nhlsclients++;
+
+                } else {
+                    ntsclients++;
+                }
+            }
+
             if (codec) {
                 meta = cJSON_AddObjectToObject(stream_item, "meta");
                 video = cJSON_AddObjectToObject(meta, "video");
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
index 7a5aed0..34ef335 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
@@ -418,6 +418,7 @@ ngx_rtmp_stat_live(ngx_http_request_t *r, ngx_chain_t ***lll,
     ngx_live_stream_t              *stream;
     ngx_rtmp_codec_ctx_t           *codec;
     ngx_rtmp_live_ctx_t            *ctx;
+    ngx_rtmp_core_ctx_t            *cctx;
     ngx_rtmp_session_t             *s;
     size_t                          n;
     ngx_uint_t                      nclients, total_nclients;
@@ -506,6 +507,27 @@ ngx_rtmp_stat_live(ngx_http_request_t *r, ngx_chain_t ***lll,
                     codec = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
                 }
             }
+
+            /* players over MPEG-TS and HLS do not join the live stream */
+            for (cctx = stream->play_ctx; cctx; cctx = cctx->next) {
+                s = cctx->session;
+                if (s->live_type != NGX_MPEGTS_LIVE
+                    && s->live_type != NGX_HLS_LIVE)
+                {
+                    continue;
+                }
+
+                ++nclients;
+
+                if (slcf->stat & NGX_RTMP_STAT_CLIENTS) {
+                    NGX_RTMP_STAT_L("<client>");
+
+                    ngx_rtmp_stat_client(r, lll, s);
+
+                    NGX_RTMP_STAT_L("</client>\r\n");
+                }
+            }
+
             total_nclients += nclients;
 
             if (codec) {
-- 
2.43.0


From 7e2623b6718a7e3318505b37d0f9acd0b5950049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 066/104] fix: bytes of partially sent chains are not counted
 as sent

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index f81afcc..77247ec 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -750,6 +750,13 @@ ngx_rtmp_send(ngx_event_t *wev)
 
         n = c->sent - sent;
 
+        /* a part of the chain may have been sent */
+        s->out_bytes += n;
+        ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
+        if (s->live_stream) {
+            ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
+        }
+
         if (chain == NGX_CHAIN_ERROR) { /* NGX_ERROR */
             c->error = 1;
             s->finalize_reason = NGX_LIVE_RTMP_SEND_ERR;
@@ -771,15 +778,10 @@ ngx_rtmp_send(ngx_event_t *wev)
             return;
         }
 
-        s->out_bytes += n;
         /* only the peer itself can answer a ping */
         if (!s->ping_active) {
             s->ping_reset = 1;
         }
-        ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
-        if (s->live_stream) {
-            ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
-        }
 
         if (ngx_rtmp_prepare_merge_frame(s) == NGX_ERROR) {
             ngx_rtmp_finalize_session(s);
-- 
2.43.0


From 8da5cf56284d99793b705f1f36c0fda6545e7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 067/104] fix: arguments or names of 256 bytes and more of HTTP
 players are read past their end

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 4 ++--
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c    | 2 +-
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index a63ad37..c43f7c2 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -468,7 +468,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_http_flv_live_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http flv live, url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -532,7 +532,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 77c7e36..ca1fa8d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -681,7 +681,7 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_memcpy(v->session, ctx->sid.data, ctx->sid.len);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index aaf48e7..18ac0e9 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -294,7 +294,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_mpegts_http_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "mpegts-http: http_parse| url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -358,7 +358,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
-- 
2.43.0


From 6f3c3163a1304b145fd78ee3064add590214c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 068/104] fix: a long stream overruns its field in the context
 of the access log

---
 modules/nginx-rtmp-module/ngx_rtmp_log_module.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
index 80c978f..241493c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
@@ -91,7 +91,7 @@ typedef struct {
     unsigned                    publish:1;
     ngx_uint_t                  last_bytes;
     u_char                      name[NGX_RTMP_MAX_NAME];
-    u_char                      stream[NGX_RTMP_MAX_NAME];
+    u_char                      stream[NGX_LIVE_STREAM_LEN];
     u_char                      args[NGX_RTMP_MAX_ARGS];
     ngx_array_t                 timers; /* ngx_rtmp_log_timer_ctx_t */
 } ngx_rtmp_log_ctx_t;
@@ -334,7 +334,7 @@ static size_t
 ngx_rtmp_log_var_context_cstring_getlen(ngx_rtmp_session_t *s,
     ngx_rtmp_log_op_t *op)
 {
-    return ngx_max(NGX_RTMP_MAX_NAME, NGX_RTMP_MAX_ARGS);
+    return ngx_max(NGX_RTMP_MAX_NAME, NGX_LIVE_STREAM_LEN);
 }
 
 
@@ -1052,7 +1052,8 @@ ngx_rtmp_log_set_names(ngx_rtmp_session_t *s, u_char *name, u_char *args)
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_log_module);
     }
 
-    ngx_memcpy(ctx->stream, s->stream.data, s->stream.len);
+    *ngx_cpymem(ctx->stream, s->stream.data,
+                ngx_min(s->stream.len, NGX_LIVE_STREAM_LEN - 1)) = 0;
     ngx_memcpy(ctx->name, name, NGX_RTMP_MAX_NAME);
     ngx_memcpy(ctx->args, args, NGX_RTMP_MAX_ARGS);
 
-- 
2.43.0


From b9280186879019d311583d992c8783827e79e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 069/104] fix: a long name or session in an HLS+ URL overruns
 the stack

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index ca1fa8d..76e8ad8 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -541,6 +541,14 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     ngx_http_arg(r, NGX_HLS_LIVE_ARG_SESSION, NGX_HLS_LIVE_ARG_SESSION_LENGTH,
         &ctx->sid);
 
+    if (ctx->name.len >= NGX_RTMP_MAX_NAME
+        || ctx->sid.len >= NGX_RTMP_MAX_SESSION)
+    {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+            "hls-http: create_ctx| name or session too long, uri %V", &r->uri);
+        return NULL;
+    }
+
     return ctx;
 }
 
-- 
2.43.0


From f3a4a28ca7039c604fa665e212f063cc388a0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 070/104] fix: the first users of a domain with several
 addresses may get an empty one

---
 .../ngx_dynamic_resolver.c                    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 6f1592f..b1e4aa8 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -272,23 +272,23 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
         domain->addrs[i].socklen = addrs[i].socklen;
         domain->addrs[i].priority = addrs[i].priority;
         domain->addrs[i].weight = addrs[i].weight;
+    }
 
-        n = ngx_random() % domain->naddrs;
+    n = ngx_random() % domain->naddrs;
 
-        while (domain->ctx) {
-            ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
-                    "dynamic resolver, resolver '%V' successd",
-                    &domain->domain);
-            ctx = domain->ctx;
-            domain->ctx = ctx->next;
+    while (domain->ctx) {
+        ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
+                "dynamic resolver, resolver '%V' successd",
+                &domain->domain);
+        ctx = domain->ctx;
+        domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr,
-                   domain->addrs[n].socklen);
-            ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
+        ctx->h(ctx->data, &domain->addrs[n].sockaddr,
+               domain->addrs[n].socklen);
+        ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
-            ++n;
-            n %= domain->naddrs;
-        }
+        ++n;
+        n %= domain->naddrs;
     }
 }
 
-- 
2.43.0


From 0e98902d49830d71e1e456a32110303f5322a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 071/104] fix: IPv6 and unix addresses overrun the socket
 address they are stored in

---
 .../ngx_dynamic_resolver.c                    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index b1e4aa8..c97ac3a 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -33,7 +33,7 @@ struct ngx_dynamic_resolver_ctx_s {
 };
 
 typedef struct {
-    struct sockaddr                     sockaddr;
+    ngx_sockaddr_t                      sockaddr;
     socklen_t                           socklen;
     u_short                             priority;
     u_short                             weight;
@@ -283,7 +283,7 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
         ctx = domain->ctx;
         domain->ctx = ctx->next;
 
-        ctx->h(ctx->data, &domain->addrs[n].sockaddr,
+        ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
                domain->addrs[n].socklen);
         ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
@@ -344,7 +344,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
     ngx_dynamic_resolver_conf_t    *drcf;
     ngx_dynamic_resolver_domain_t  *d;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -354,7 +354,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_error(NGX_LOG_DEBUG_CORE, cycle->log, 0,
@@ -416,7 +416,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
     ngx_dynamic_resolver_domain_t **pd, *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -426,7 +426,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
@@ -489,7 +489,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
     ngx_dynamic_resolver_domain_t  *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx, n;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -499,13 +499,13 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is ipv4/ipv6/unix address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
                 "dynamic resolver async, domain is ipv4/ipv6/unix address");
 
-        h(data, &sa, len);
+        h(data, &sa.sockaddr, len);
 
         return;
     }
@@ -582,7 +582,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
 
     /* call callback */
     n = ngx_random() % d->naddrs;
-    h(data, &d->addrs[n].sockaddr, d->addrs[n].socklen);
+    h(data, &d->addrs[n].sockaddr.sockaddr, d->addrs[n].socklen);
 
     return;
 
-- 
2.43.0


From 9e5319f19769b5138d9eec65bd52c645016029d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 072/104] fix: the address of a client connection is copied
 past the room there is for it

---
 modules/nginx-client-module/ngx_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index e14e8b9..2cd7c25 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -927,7 +927,7 @@ ngx_client_create(ngx_str_t *peer, ngx_str_t *local, ngx_flag_t udp,
     if (s->server.data == NULL) {
         goto clear;
     }
-    ngx_memcpy(s->server.data, peer->data, peer->len);
+    ngx_memcpy(s->server.data, peer->data, s->server.len);
 
     if (p != last) { /* has port */
         if (*p != ':') {
-- 
2.43.0


From 225ca1c0b1ac48382059e31b46d2755e18e90ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 073/104] fix: a client session closed while its name is being
 resolved is used afterwards

---
 modules/nginx-client-module/ngx_client.c | 35 ++++++++++++++++++++++++
 modules/nginx-client-module/ngx_client.h |  1 +
 2 files changed, 36 insertions(+)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index 2cd7c25..682478a 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -700,6 +700,27 @@ ngx_client_read_handler(ngx_event_t *ev)
 }
 
 
+static ngx_int_t
+ngx_client_resolved(ngx_client_session_t *s)
+{
+    ngx_pool_t                 *pool;
+
+    s->resolving = 0;
+
+    if (!s->closed) {
+        return NGX_OK;
+    }
+
+    /* closed while resolving, session has been kept for resolver only */
+    if (!s->close.posted) {
+        pool = s->pool;
+        NGX_DESTROY_POOL(pool); /* s alloc from pool */
+    }
+
+    return NGX_DECLINED;
+}
+
+
 static void
 ngx_client_connect_server(void *data, struct sockaddr *sa, socklen_t socklen)
 {
@@ -710,6 +731,10 @@ ngx_client_connect_server(void *data, struct sockaddr *sa, socklen_t socklen)
 
     s = data;
 
+    if (ngx_client_resolved(s) != NGX_OK) {
+        return;
+    }
+
     if (sa == NULL) {
         ngx_log_error(NGX_LOG_ERR, &s->log, 0,
                 "nginx client resolver peer %v failed", &s->server);
@@ -816,6 +841,10 @@ ngx_client_resolver_server(void *data, ngx_resolver_addr_t *addrs,
 
     s = data;
 
+    if (ngx_client_resolved(s) != NGX_OK) {
+        return;
+    }
+
     if (naddrs == 0) {
         ngx_log_error(NGX_LOG_ERR, &s->log, ngx_errno,
                 "nginx client resolver failed");
@@ -1003,6 +1032,8 @@ ngx_client_connect(ngx_client_session_t *s)
             &s->server);
 
     /* start connect */
+    s->resolving = 1;
+
     if (s->dynamic_resolver) {
         ngx_dynamic_resolver_start_resolver(&s->server,
                 ngx_client_connect_server, s);
@@ -1297,6 +1328,10 @@ ngx_client_close_handler(ngx_event_t *ev)
 
     ngx_client_close_connection(s);
 
+    if (s->resolving) { /* resolver still has s, destroy when it answers */
+        return;
+    }
+
     pool = s->pool;
     NGX_DESTROY_POOL(pool); /* s alloc from pool */
 }
diff --git a/modules/nginx-client-module/ngx_client.h b/modules/nginx-client-module/ngx_client.h
index 7b67b7b..e0a5296 100644
--- a/modules/nginx-client-module/ngx_client.h
+++ b/modules/nginx-client-module/ngx_client.h
@@ -61,6 +61,7 @@ struct ngx_client_session_s {
 
     unsigned                    connected:1; /* client connected to server */
     unsigned                    closed:1;    /* client has been closed */
+    unsigned                    resolving:1; /* wait for resolver */
 
     ngx_event_t                 close;       /* for async close */
 
-- 
2.43.0


From ae64021b8cd102858fcaf1802ec56a2ae32a1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 074/104] fix: a rejected dynamic configuration has already
 switched the static pulls, one without rtmp leaves them with freed memory

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c | 102 +++++++++++++------
 1 file changed, 69 insertions(+), 33 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index fd92cad..f86717c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -10,6 +10,7 @@
 
 
 static void *ngx_rtmp_dynamic_create_conf(ngx_conf_t *cf);
+static char *ngx_rtmp_dynamic_init_conf(ngx_conf_t *cf, void *conf);
 static void *ngx_rtmp_dynamic_core_create_main_conf(ngx_conf_t *cf);
 static char *ngx_rtmp_dynamic_core_init_main_conf(ngx_conf_t *cf, void *conf);
 static void *ngx_rtmp_dynamic_core_create_srv_conf(ngx_conf_t *cf);
@@ -25,6 +26,8 @@ static char *ngx_rtmp_dynamic_core_server_name(ngx_conf_t *cf,
        ngx_command_t *cmd, void *conf);
 static char *ngx_rtmp_dynamic_core_application(ngx_conf_t *cf,
        ngx_command_t *cmd, void *conf);
+static ngx_int_t ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
+       void *conf);
 
 
 typedef struct {
@@ -98,7 +101,7 @@ static ngx_command_t  ngx_rtmp_dynamic_dcommands[] = {
 static ngx_dynamic_core_module_t  ngx_rtmp_dynamic_module_dctx = {
     ngx_string("rtmp_dynamic"),
     ngx_rtmp_dynamic_create_conf,
-    NULL
+    ngx_rtmp_dynamic_init_conf
 };
 
 ngx_module_t  ngx_rtmp_dynamic_module = {
@@ -252,6 +255,10 @@ ngx_rtmp_dynamic_core_init_main_conf(ngx_conf_t *cf, void *conf)
     ngx_conf_init_uint_value(rdcmcf->server_names_hash_bucket_size,
                              ngx_cacheline_size);
 
+    if (ngx_rtmp_dynamic_core_init_virtual_servers(cf, rdcmcf) != NGX_OK) {
+        return NGX_CONF_ERROR;
+    }
+
     return NGX_CONF_OK;
 }
 
@@ -318,8 +325,7 @@ ngx_rtmp_dynamic_core_find_application(ngx_rtmp_session_t *s,
 }
 
 static ngx_int_t
-ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
-        ngx_rtmp_dynamic_conf_t *hdcf)
+ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf, void *conf)
 {
     ngx_rtmp_dynamic_core_main_conf_t      *rdcmcf;
     ngx_rtmp_dynamic_core_srv_conf_t      **rdcscfp;
@@ -334,7 +340,7 @@ ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
     regex = 0;
 #endif
 
-    rdcmcf = hdcf->main_conf[ngx_rtmp_dynamic_core_module.ctx_index];
+    rdcmcf = conf;
 
     ngx_memzero(&ha, sizeof(ngx_hash_keys_arrays_t));
 
@@ -813,25 +819,21 @@ failed:
     return NGX_CONF_ERROR;
 }
 
-static char *
-ngx_rtmp_dynamic_block(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
+static ngx_int_t
+ngx_rtmp_dynamic_create_main_conf(ngx_conf_t *cf,
+        ngx_rtmp_dynamic_conf_t *rdccf)
 {
-    ngx_rtmp_dynamic_conf_t                *rdccf;
     ngx_rtmp_dynamic_module_t              *module;
-    ngx_conf_t                              pcf;
     ngx_uint_t                              i, ci;
-    char                                   *rv = NULL;
-
-    rdccf = conf;
 
     /* create main_conf ctx */
     rdccf->main_conf = ngx_pcalloc(cf->pool, sizeof(void *)
                                    * ngx_rtmp_max_module);
     if (rdccf->main_conf == NULL) {
-        return NGX_CONF_ERROR;
+        return NGX_ERROR;
     }
 
-    /* create http dynamic conf for all http module */
+    /* create rtmp dynamic conf for all rtmp module */
     for (i = 0; cf->cycle->modules[i]; ++i) {
         if (cf->cycle->modules[i]->type != NGX_RTMP_MODULE) {
             continue;
@@ -848,11 +850,27 @@ ngx_rtmp_dynamic_block(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
         if (module->create_main_conf) {
             rdccf->main_conf[ci] = module->create_main_conf(cf);
             if (rdccf->main_conf[ci] == NULL) {
-                return NGX_CONF_ERROR;
+                return NGX_ERROR;
             }
         }
     }
 
+    return NGX_OK;
+}
+
+static char *
+ngx_rtmp_dynamic_block(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
+{
+    ngx_rtmp_dynamic_conf_t                *rdccf;
+    ngx_conf_t                              pcf;
+    ngx_int_t                               rc;
+
+    rdccf = conf;
+
+    if (ngx_rtmp_dynamic_create_main_conf(cf, rdccf) != NGX_OK) {
+        return NGX_CONF_ERROR;
+    }
+
     /* save conf for recovery */
     pcf = *cf;
 
@@ -860,8 +878,34 @@ ngx_rtmp_dynamic_block(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
     cf->module_type = NGX_RTMP_MODULE;
     cf->cmd_type = NGX_RTMP_MAIN_CONF;
 
-    if (ngx_dynamic_conf_parse(cf, 0) != NGX_OK) {
-        goto failed;
+    rc = ngx_dynamic_conf_parse(cf, 0);
+
+    *cf = pcf;
+
+    return rc == NGX_OK ? NGX_CONF_OK : NGX_CONF_ERROR;
+}
+
+/* called when the whole file has been parsed successfully */
+static char *
+ngx_rtmp_dynamic_init_conf(ngx_conf_t *cf, void *conf)
+{
+    ngx_rtmp_dynamic_conf_t                *rdccf;
+    ngx_rtmp_dynamic_module_t              *module;
+    ngx_uint_t                              i, ci;
+    char                                   *rv;
+
+    rdccf = conf;
+
+    if (ngx_get_conf(cf->cycle->conf_ctx, ngx_rtmp_module) == NULL) {
+        /* rtmp not configured */
+        return NGX_CONF_OK;
+    }
+
+    /* no rtmp block is the same as an empty one */
+    if (rdccf->main_conf == NULL
+        && ngx_rtmp_dynamic_create_main_conf(cf, rdccf) != NGX_OK)
+    {
+        return NGX_CONF_ERROR;
     }
 
     for (i = 0; cf->cycle->modules[i]; ++i) {
@@ -879,28 +923,20 @@ ngx_rtmp_dynamic_block(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
 
         if (module->init_main_conf) {
             rv = module->init_main_conf(cf, rdccf->main_conf[ci]);
-            if (rv != NGX_CONF_OK) {
-                goto failed;
+            if (rv == NGX_CONF_OK) {
+                continue;
             }
-        }
-    }
-
-    if (ngx_rtmp_dynamic_core_init_virtual_servers(cf, rdccf) != NGX_OK) {
-        goto failed;
-    }
-
-    *cf = pcf;
-
-    return NGX_CONF_OK;
 
-failed:
-    *cf = pcf;
+            if (rv != NGX_CONF_ERROR) {
+                ngx_log_error(NGX_LOG_EMERG, cf->log, 0, "rtmp dynamic, %s",
+                              rv);
+            }
 
-    if (rv) {
-        return rv;
+            return NGX_CONF_ERROR;
+        }
     }
 
-    return NGX_CONF_ERROR;
+    return NGX_CONF_OK;
 }
 
 
-- 
2.43.0


From b24d8e503b8a3b0d2dee9cc771641f61a755f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 075/104] fix: a rejected dynamic configuration leaves stale
 links between static pulls

---
 modules/nginx-rtmp-module/ngx_live_relay_static.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_static.c b/modules/nginx-rtmp-module/ngx_live_relay_static.c
index 6b63504..bc8be56 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_static.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_static.c
@@ -429,8 +429,9 @@ ngx_live_relay_static_init_main_dconf(ngx_conf_t *cf, void *conf)
             srelay->session = old->session;
 
             // link swap static pull
+            old->next = NULL;
             *sll = old;
-            sll = &(*sll)->next;
+            sll = &old->next;
         }
     }
 
-- 
2.43.0


From a1656ef57f6e0741ced0bcdc8717d7f549b70bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 076/104] fix: a dynamic rtmp block without servers crashes the
 next session

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index f86717c..262aa2e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -356,7 +356,7 @@ ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf, void *conf)
     }
 
     rdcscfp = rdcmcf->servers.elts;
-    rdcmcf->default_server = rdcscfp[0];
+    rdcmcf->default_server = rdcmcf->servers.nelts ? rdcscfp[0] : NULL;
 
     for (s = 0; s < rdcmcf->servers.nelts; ++s) {
 
@@ -972,6 +972,9 @@ ngx_rtmp_get_module_srv_dconf(ngx_rtmp_session_t *s, ngx_module_t *m)
     case NGX_ERROR:
         return NULL;
     case NGX_DECLINED:  /* virtual server not found */
+        if (rdcmcf->default_server == NULL) {
+            return NULL;
+        }
         return rdcmcf->default_server->srv_conf[m->ctx_index];
     default:
         return rdcscf->srv_conf[m->ctx_index];
-- 
2.43.0


From 4aaffb99e700d7533360eac3a0b4e94055a1477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 077/104] fix: looking up a serverid by domain crashes without
 a dynamic rtmp block and finds nothing with one

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index 262aa2e..0b506c5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -1015,7 +1015,7 @@ ngx_rmtp_get_serverid_by_domain(ngx_str_t *serverid, ngx_str_t *domain)
     ngx_rtmp_core_srv_dconf_t              *rcsdcf;
 
     rdcf = ngx_get_dconf(&ngx_rtmp_dynamic_module);
-    if (rdcf == NULL || rdcf->main_conf) {
+    if (rdcf == NULL || rdcf->main_conf == NULL) {
         goto notfound;
     }
 
@@ -1024,6 +1024,7 @@ ngx_rmtp_get_serverid_by_domain(ngx_str_t *serverid, ngx_str_t *domain)
         goto notfound;
     }
 
+    rdcscf = NULL;
     ngx_rtmp_dynamic_core_find_virtual_server(domain, rdcmcf, &rdcscf);
     if (rdcscf && rdcscf->srv_conf) {
         rcsdcf = rdcscf->srv_conf[ngx_rtmp_core_module.ctx_index];
-- 
2.43.0


From 9212b04a4c57ef2bda21662726fa0a2d61379cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 078/104] fix: every reload of the dynamic configuration leaks
 its temporary pool

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c    | 4 ++--
 modules/nginx-toolkit-module/ngx_dynamic_conf.c | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index 0b506c5..5f3817c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -373,14 +373,14 @@ ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf, void *conf)
             rc = ngx_hash_add_key(&ha, &name[n].name, name[n].server,
                                   NGX_HASH_WILDCARD_KEY);
             if (rc == NGX_ERROR) {
-                return NGX_ERROR;
+                goto failed;
             }
 
             if (rc == NGX_DECLINED) {
                 ngx_log_error(NGX_LOG_EMERG, cf->log, 0,
                         "invalid server name or wildcard \"%V\"",
                         &name[n].name);
-                return NGX_ERROR;
+                goto failed;
             }
 
             if (rc == NGX_BUSY) {
diff --git a/modules/nginx-toolkit-module/ngx_dynamic_conf.c b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
index fd8f15b..5007cbf 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_conf.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
@@ -784,6 +784,8 @@ ngx_dynamic_conf_load_conf(ngx_fd_t fd, ngx_dynamic_conf_conf_t *dccf)
         }
     }
 
+    ngx_destroy_pool(cf.temp_pool);
+
     /* load conf ok, switch conf to new conf */
     if (dccf->conf[dccf->used]) {
         pool = dccf->conf[dccf->used]->pool;
-- 
2.43.0


From 6bd292f2e77168f1f8c9bd8f39485944ec8a23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 079/104] fix: static pulls start before their configuration is
 in force and crash when their domain is not the serverid

---
 .../nginx-rtmp-module/ngx_live_relay_static.c | 42 +++++++++++++++----
 modules/nginx-rtmp-module/ngx_rtmp_init.c     | 11 ++++-
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_static.c b/modules/nginx-rtmp-module/ngx_live_relay_static.c
index bc8be56..9ac04ef 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_static.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_static.c
@@ -44,6 +44,8 @@ typedef struct {
     unsigned                            used;
     ngx_str_t                           pull_port;
 
+    ngx_event_t                         start;
+
     ngx_live_relay_static_relay_t      *free;
     unsigned                            nalloc;
     unsigned                            nfree;
@@ -194,7 +196,7 @@ ngx_live_relay_static_relay(ngx_rtmp_session_t *s,
     r->session = rs;
 
     rs->publishing = 1;
-    rs->live_stream = ngx_live_create_stream(&rs->domain, &rs->stream);
+    rs->live_stream = ngx_live_create_stream(&rs->serverid, &rs->stream);
     ngx_live_create_ctx(rs, 1);
 
     sctx = ngx_pcalloc(rs->pool, sizeof(ngx_live_relay_static_ctx_t));
@@ -279,6 +281,25 @@ next:
 }
 
 
+static void
+ngx_live_relay_static_start(ngx_event_t *ev)
+{
+    ngx_live_relay_static_main_conf_t  *rsmcf;
+    ngx_live_relay_static_relay_t      *srelay;
+    ngx_map_node_t                     *node;
+
+    rsmcf = ev->data;
+
+    node = ngx_map_begin(&rsmcf->pulls[rsmcf->used]);
+    for (; node; node = ngx_map_next(node)) {
+        srelay = (ngx_live_relay_static_relay_t *) node;
+        if (srelay->session == NULL) {
+            ngx_live_relay_static_relay(NULL, srelay);
+        }
+    }
+}
+
+
 static ngx_live_relay_static_relay_t *
 ngx_live_relay_get_static_relay(ngx_live_relay_static_main_conf_t *rsmcf)
 {
@@ -451,21 +472,28 @@ ngx_live_relay_static_init_main_dconf(ngx_conf_t *cf, void *conf)
         node = ngx_map_next(node);
         ngx_live_relay_put_static_relay(rsmcf, srelay);
 
-        rctx = ngx_rtmp_get_module_ctx(srelay->session, ngx_live_relay_module);
-        rctx->giveup = 1;
-        srelay->session->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
-        ngx_rtmp_finalize_session(srelay->session);
+        if (srelay->session) {
+            rctx = ngx_rtmp_get_module_ctx(srelay->session,
+                                           ngx_live_relay_module);
+            rctx->giveup = 1;
+            srelay->session->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
+            ngx_rtmp_finalize_session(srelay->session);
+        }
 
         ngx_map_delete(&rsmcf->pulls[rsmcf->used],
                        (intptr_t) &srelay->relay->stream);
     }
 
-    // new static relay
+    // new static relay will be started when conf is switched to new conf
+    rsmcf->start.log = ngx_cycle->log;
+    rsmcf->start.data = rsmcf;
+    rsmcf->start.handler = ngx_live_relay_static_start;
+
     node = ngx_map_begin(&rsmcf->pulls[used]);
     for (; node; node = ngx_map_next(node)) {
         srelay = (ngx_live_relay_static_relay_t *) node;
         if (srelay->session == NULL) {
-            ngx_live_relay_static_relay(NULL, srelay);
+            ngx_post_event(&rsmcf->start, &ngx_posted_events);
         } else {
             ctx = ngx_rtmp_get_module_ctx(srelay->session,
                                           ngx_live_relay_static_module);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 623a7b1..077177b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -655,8 +655,6 @@ ngx_rtmp_create_static_session(ngx_live_relay_t *relay,
     NGX_RTMP_RELAY_SESSION_COPY_PARA(pargs, pargs);
     NGX_RTMP_RELAY_SESSION_COPY_PARA(page_url, referer);
     NGX_RTMP_RELAY_SESSION_COPY_PARA(flashver, user_agent);
-
-    NGX_RTMP_RELAY_SESSION_COPY_PARA(stream, stream);
 #undef NGX_RTMP_RELAY_SESSION_COPY_PARA
 
     rs->tc_url.len = sizeof("rtmp://") - 1 + relay->domain.len
@@ -675,6 +673,15 @@ ngx_rtmp_create_static_session(ngx_live_relay_t *relay,
     }
     cscf = ngx_rtmp_get_module_srv_conf(rs, ngx_rtmp_core_module);
 
+    /* serverid/app/name */
+    rs->stream.len = rs->serverid.len + 1 + rs->app.len + 1 + rs->name.len;
+    rs->stream.data = ngx_palloc(rs->pool, rs->stream.len);
+    if (rs->stream.data == NULL) {
+        goto destroy;
+    }
+    ngx_snprintf(rs->stream.data, rs->stream.len, "%V/%V/%V",
+            &rs->serverid, &rs->app, &rs->name);
+
     rs->live_server = ngx_live_create_server(&rs->serverid);
 
     cacfp = cscf->applications.elts;
-- 
2.43.0


From 5a8e49fd57ec694ddf8aea45827ae9d8feab74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 080/104] fix: a static pull removed by a reload that comes
 late is tried once more with freed memory

---
 modules/nginx-rtmp-module/ngx_live_relay_static.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_static.c b/modules/nginx-rtmp-module/ngx_live_relay_static.c
index 9ac04ef..9d0897f 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_static.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_static.c
@@ -142,6 +142,10 @@ ngx_live_relay_static_handler(ngx_event_t *ev)
     s = ev->data;
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_module);
 
+    if (ctx->giveup) { // removed from conf, session is being closed
+        return;
+    }
+
     if (!ctx->failed_delay && ev->timedout) { // connect timeout
         ngx_log_error(NGX_LOG_ERR, s->log, NGX_ETIMEDOUT,
                 "static relay, relay timeout");
-- 
2.43.0


From 434edd871415ef6d929f31710fc6b21c30109638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 081/104] fix: a broadcast sends the end of its response only
 once, however slowly the client reads

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index ffac1a5..7d35735 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -21,6 +21,7 @@ typedef struct {
     ngx_int_t                           workerid;
     ngx_http_request_t                 *sr;
     ngx_flag_t                          has_rewrite;
+    ngx_flag_t                          last;
 } ngx_http_broadcast_ctx_t;
 
 
@@ -294,6 +295,11 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
         return rc;
     }
 
+    if (ctx->last) { /* the end of the response must be sent only once */
+        return ngx_http_next_body_filter(r, NULL);
+    }
+    ctx->last = 1;
+
     if (hbcf->suffix.len) {
         b = ngx_create_temp_buf(r->pool, hbcf->suffix.len);
 
-- 
2.43.0


From f94eff32014a67ef855f8d87f7f4baaee02b2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 082/104] fix: the inner proxy sends the end of its response
 only once

---
 .../nginx-multiport-module/ngx_http_inner_proxy_module.c    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
index 2991b0e..f981e53 100644
--- a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
+++ b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
@@ -17,6 +17,7 @@ typedef struct {
 typedef struct {
     ngx_str_t                           port;
     ngx_flag_t                          last;
+    ngx_flag_t                          sent;
 } ngx_http_inner_proxy_ctx_t;
 
 
@@ -162,6 +163,11 @@ ngx_http_inner_proxy_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             return NGX_OK;
         }
 
+        if (ctx->sent) { /* the end of the response must be sent only once */
+            return ngx_http_next_body_filter(r, NULL);
+        }
+        ctx->sent = 1;
+
         b = ngx_pcalloc(r->pool, sizeof(ngx_buf_t));
 
         if (b == NULL) {
-- 
2.43.0


From 6471ecb864e2880fc9ed697bd00f85f9ee418682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 083/104] fix: headers added to an answer of the inner proxy
 are not lost

---
 .../nginx-multiport-module/ngx_http_inner_proxy_module.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
index f981e53..a94ff23 100644
--- a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
+++ b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
@@ -141,6 +141,15 @@ ngx_http_inner_proxy_header_filter(ngx_http_request_t *r)
 
     r->main->headers_out = r->headers_out;
 
+    /* lists with one part only: last points into the list itself */
+    if (r->headers_out.headers.last == &r->headers_out.headers.part) {
+        r->main->headers_out.headers.last = &r->main->headers_out.headers.part;
+    }
+    if (r->headers_out.trailers.last == &r->headers_out.trailers.part) {
+        r->main->headers_out.trailers.last =
+                                         &r->main->headers_out.trailers.part;
+    }
+
     return ngx_http_next_header_filter(r->main);
 }
 
-- 
2.43.0


From 4f5f38c83cf9b4c3cd15255936829022fcd5d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 084/104] fix: the body of a worker's answer other than 200 is
 consumed, so that a broadcast ends

---
 .../nginx-multiport-module/ngx_http_broadcast_module.c   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 7d35735..fb08175 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -225,7 +225,7 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
     ngx_core_conf_t            *ccf;
     ngx_int_t                   rc;
     ngx_buf_t                  *b;
-    ngx_chain_t                 cl;
+    ngx_chain_t                 cl, *l;
 
     hbcf = ngx_http_get_module_loc_conf(r->main, ngx_http_broadcast_module);
 
@@ -241,6 +241,13 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "broadcast subrequest send non 200 response: %i",
                     r->headers_out.status);
+
+            /* consume the body, or its sender waits for it to be sent */
+            for (l = in; l; l = l->next) {
+                l->buf->pos = l->buf->last;
+                l->buf->file_pos = l->buf->file_last;
+            }
+
             return NGX_OK;
         }
 
-- 
2.43.0


From 71df23027deae30a3c1d3ce06998cd80040f89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 085/104] fix: the command tables of the broadcast end, and its
 rewrite prefix is inherited

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index fb08175..6b3ea55 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -58,7 +58,9 @@ static ngx_command_t  ngx_http_broadcast_commands[] = {
       ngx_conf_set_str_slot,
       NGX_HTTP_LOC_CONF_OFFSET,
       offsetof(ngx_http_broadcast_conf_t, suffix),
-      NULL }
+      NULL },
+
+      ngx_null_command
 };
 
 
@@ -119,7 +121,7 @@ ngx_http_broadcast_merge_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_str_value(conf->multiport, prev->multiport, "");
     ngx_conf_merge_str_value(conf->uri, prev->uri, "");
     ngx_conf_merge_str_value(conf->prefix, prev->prefix, "");
-    ngx_conf_merge_str_value(conf->prefix, prev->new_prefix, "");
+    ngx_conf_merge_str_value(conf->new_prefix, prev->new_prefix, "");
     ngx_conf_merge_str_value(conf->suffix, prev->suffix, "");
 
     return NGX_CONF_OK;
-- 
2.43.0


From 1221ee2c82aeeabe5808af3166b948cfc9699e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 086/104] fix: a broadcast is broken off when a worker dies in
 the middle of its answer

---
 .../ngx_http_broadcast_module.c               | 53 +++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 6b3ea55..e11d798 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -24,6 +24,11 @@ typedef struct {
     ngx_flag_t                          last;
 } ngx_http_broadcast_ctx_t;
 
+typedef struct {
+    ngx_flag_t                          started;
+    ngx_flag_t                          ended;
+} ngx_http_broadcast_sub_t;
+
 
 static ngx_int_t ngx_http_broadcast_filter_init(ngx_conf_t *cf);
 
@@ -186,6 +191,22 @@ next:
 }
 
 
+static ngx_int_t
+ngx_http_broadcast_subrequest_done(ngx_http_request_t *r, void *data,
+        ngx_int_t rc)
+{
+    ngx_http_broadcast_sub_t   *sub = data;
+
+    if (sub->started && !sub->ended && !r->buffered) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                "broadcast subrequest ended in the middle of its response");
+        return NGX_ERROR;
+    }
+
+    return rc;
+}
+
+
 static ngx_int_t
 ngx_http_broadcast_send_subrequest(ngx_http_request_t *r, ngx_int_t pslot)
 {
@@ -193,7 +214,8 @@ ngx_http_broadcast_send_subrequest(ngx_http_request_t *r, ngx_int_t pslot)
     ngx_str_t                   uri;
     ngx_str_t                   port;
     ngx_http_request_t         *sr;
-    ngx_int_t                   rc;
+    ngx_http_post_subrequest_t *psr;
+    ngx_http_broadcast_sub_t   *sub;
 
     ngx_log_debug1(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "broadcast send subrequest to %i", pslot);
@@ -212,11 +234,24 @@ ngx_http_broadcast_send_subrequest(ngx_http_request_t *r, ngx_int_t pslot)
     uri.data = ngx_pcalloc(r->pool, uri.len);
     ngx_snprintf(uri.data, uri.len, "%V/%V", &hbcf->uri, &port);
 
-    rc = ngx_http_subrequest(r, &uri, &r->args, &sr, NULL, 0);
+    sub = ngx_pcalloc(r->pool, sizeof(ngx_http_broadcast_sub_t));
+    psr = ngx_palloc(r->pool, sizeof(ngx_http_post_subrequest_t));
+    if (sub == NULL || psr == NULL) {
+        return NGX_ERROR;
+    }
+
+    psr->handler = ngx_http_broadcast_subrequest_done;
+    psr->data = sub;
+
+    if (ngx_http_subrequest(r, &uri, &r->args, &sr, psr, 0) != NGX_OK) {
+        return NGX_ERROR;
+    }
+
     sr->method = r->method;
     sr->method_name = r->method_name;
+    ngx_http_set_ctx(sr, sub, ngx_http_broadcast_module);
 
-    return rc;
+    return NGX_OK;
 }
 
 static ngx_int_t
@@ -224,6 +259,7 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
 {
     ngx_http_broadcast_conf_t  *hbcf;
     ngx_http_broadcast_ctx_t   *ctx;
+    ngx_http_broadcast_sub_t   *sub;
     ngx_core_conf_t            *ccf;
     ngx_int_t                   rc;
     ngx_buf_t                  *b;
@@ -260,6 +296,17 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             return NGX_OK;
         }
 
+        sub = ngx_http_get_module_ctx(r, ngx_http_broadcast_module);
+        if (sub) {
+            sub->started = 1;
+
+            for (l = in; l; l = l->next) {
+                if (l->buf->last_in_chain) {
+                    sub->ended = 1;
+                }
+            }
+        }
+
         if (!in || !in->buf || in->buf->last == in->buf->pos) {
             return ngx_http_next_body_filter(r, in);
         }
-- 
2.43.0


From e335b34477b71bdebb06e5a9ff52162f9987ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 087/104] fix: the inner proxy breaks its response off when the
 other worker dies in the middle of it

---
 .../ngx_http_inner_proxy_module.c                     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
index a94ff23..f82ead5 100644
--- a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
+++ b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
@@ -169,6 +169,12 @@ ngx_http_inner_proxy_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
 
     if (r == r->main) {
         if (ctx->last == 0) {
+            if (r->postponed == NULL && !r->header_only) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "inner proxy ended in the middle of its response");
+                return NGX_ERROR;
+            }
+
             return NGX_OK;
         }
 
@@ -261,7 +267,12 @@ ngx_http_inner_proxy_request(ngx_http_request_t *r, ngx_int_t pslot)
 
     ngx_log_debug1(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "inner proxy send request to %V", &ctx->port);
+
     rc = ngx_http_subrequest(r, &uri, &r->args, &sr, NULL, 0);
+    if (rc != NGX_OK) {
+        return rc;
+    }
+
     sr->method = r->method;
     sr->method_name = r->method_name;
 
-- 
2.43.0


From d1bf63d7db3feca7971d93f82e432f0ebb42f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 088/104] fix: nginx-ts-module: a request body that arrives at
 once is never answered

The body handler was only run by a later read event, so a body (or a part of
it) that was already there when the request was accepted was never read; a
body read completely in the first call, or whose last chunk brought no data,
was not answered either.  Recycled body buffers were read again.
---
 modules/nginx-ts-module/src/ngx_http_ts_module.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-ts-module/src/ngx_http_ts_module.c b/modules/nginx-ts-module/src/ngx_http_ts_module.c
index 316cf61..14c5061 100644
--- a/modules/nginx-ts-module/src/ngx_http_ts_module.c
+++ b/modules/nginx-ts-module/src/ngx_http_ts_module.c
@@ -172,9 +172,15 @@ ngx_http_ts_init(ngx_http_request_t *r)
         return;
     }
 
+    rb->bufs = NULL;
+
     if (r->reading_body) {
         r->read_event_handler = ngx_http_ts_read_event_handler;
+        ngx_http_ts_read_event_handler(r);
+        return;
     }
+
+    ngx_http_finalize_request(r, NGX_HTTP_NO_CONTENT);
 }
 
 
@@ -203,6 +209,10 @@ ngx_http_ts_read_event_handler(ngx_http_request_t *r)
         }
 
         if (rb->bufs == NULL) {
+            if (rc == NGX_OK) {
+                ngx_http_finalize_request(r, NGX_HTTP_NO_CONTENT);
+            }
+
             return;
         }
 
-- 
2.43.0


From 32c4a12d75b79de1a3f03b266032ac48e6b68eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 089/104] fix: nginx-ts-module: a PES is given the clock
 reference of the packet after it

---
 modules/nginx-ts-module/src/ngx_ts_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.c b/modules/nginx-ts-module/src/ngx_ts_stream.c
index b778040..a7c87cc 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.c
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.c
@@ -735,7 +735,7 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
         es->rand = h->rand;
     }
 
-    if (h->pcrf && prog->pcr_pid == es->pid) {
+    if (b && h->pcrf && prog->pcr_pid == es->pid) {
         prog->pcr = h->pcr;
     }
 
-- 
2.43.0


From 2d136d387ccc78201ead8202d128ff125e5cd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 090/104] fix: nginx-ts-module: endless loop on an empty buffer
 at the end of a PES

---
 modules/nginx-ts-module/src/ngx_ts_stream.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.c b/modules/nginx-ts-module/src/ngx_ts_stream.c
index a7c87cc..da9bb52 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.c
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.c
@@ -1340,7 +1340,10 @@ ngx_ts_packetize(ngx_ts_stream_t *ts, ngx_ts_header_t *h, ngx_chain_t *in)
             ip += n;
 
             if (ip == in->buf->last) {
-                in = in->next;
+                do {
+                    in = in->next;
+                } while (in && in->buf->pos == in->buf->last);
+
                 if (in == NULL) {
                     ngx_memset(p, '\xff', b->end - p);
                     break;
-- 
2.43.0


From dedf492e2ef2c4089e375a6e1bb6b8196dcb066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 091/104] fix: nginx-ts-module: HLS durations are wrong when
 the 33-bit timestamps wrap

---
 modules/nginx-ts-module/src/ngx_ts_hls.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index 8ce47e7..b39051d 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -17,6 +17,7 @@ static ngx_int_t ngx_ts_hls_pes_handler(ngx_ts_hls_t *hls,
     ngx_ts_program_t *prog, ngx_ts_es_t *es, ngx_chain_t *bufs);
 static void ngx_ts_hls_update_bandwidth(ngx_ts_hls_t *hls,
     ngx_ts_hls_variant_t *var, ngx_chain_t *bufs, uint64_t dts);
+static int64_t ngx_ts_hls_diff(uint64_t a, uint64_t b);
 static ngx_int_t ngx_ts_hls_close_segment(ngx_ts_hls_t *hls,
     ngx_ts_hls_variant_t *var, ngx_ts_es_t *es);
 static ngx_int_t ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls,
@@ -112,7 +113,7 @@ ngx_ts_hls_cleanup(void *data)
         for (i = 0; i < var->prog->nes; i++) {
             es = &var->prog->es[i];
 
-            d = es->dts - var->seg_dts;
+            d = ngx_ts_hls_diff(es->dts, var->seg_dts);
             if (maxd < d) {
                 maxd = d;
             }
@@ -351,7 +352,7 @@ ngx_ts_hls_update_bandwidth(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
         bufs = bufs->next;
     }
 
-    d = dts - var->bandwidth_dts;
+    d = ngx_ts_hls_diff(dts, var->bandwidth_dts);
     analyze = (int64_t) hls->conf->analyze * 90;
 
     if (d >= analyze) {
@@ -364,6 +365,19 @@ ngx_ts_hls_update_bandwidth(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
 }
 
 
+/* timestamps have 33 bits and wrap */
+
+static int64_t
+ngx_ts_hls_diff(uint64_t a, uint64_t b)
+{
+    int64_t  d;
+
+    d = (a - b) & 0x1ffffffffULL;
+
+    return d & 0x100000000LL ? d - 0x200000000LL : d;
+}
+
+
 static ngx_int_t
 ngx_ts_hls_close_segment(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
     ngx_ts_es_t *es)
@@ -380,7 +394,7 @@ ngx_ts_hls_close_segment(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
         return NGX_OK;
     }
 
-    d = es->dts - var->seg_dts;
+    d = ngx_ts_hls_diff(es->dts, var->seg_dts);
 
     min_seg = (int64_t) hls->conf->min_seg * 90;
     max_seg = (int64_t) hls->conf->max_seg * 90;
-- 
2.43.0


From c1ec813edd3134caf10bcefadf8d470ba046c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 092/104] fix: nginx-ts-module: HLS segments of no duration are
 left out of the playlist

The sequence numbers of the segments after them are then wrong.
---
 modules/nginx-ts-module/src/ngx_ts_hls.c | 45 +++++++++++-------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index b39051d..0f4b6aa 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -420,7 +420,7 @@ ngx_ts_hls_close_segment(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
 
     seg = &var->segs[var->seg % var->nsegs];
     seg->id = var->seg++;
-    seg->duration = d;
+    seg->duration = d > 0 ? d : 0;
     seg->size = var->file.offset;
 
     if (ngx_close_file(var->file.fd) == NGX_FILE_ERROR) {
@@ -448,7 +448,7 @@ ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var)
     u_char                *p, *data;
     uint64_t               maxd;
     ngx_int_t              rc;
-    ngx_uint_t             i, ms, td;
+    ngx_uint_t             i, n, ms, td;
     ngx_ts_stream_t       *ts;
     ngx_ts_hls_segment_t  *seg;
 
@@ -464,22 +464,21 @@ ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var)
           + 2 * NGX_INT_T_LEN;
 
     maxd = 0;
+    n = ngx_min(var->seg, var->nsegs);
 
-    for (i = 0; i < var->nsegs; i++) {
-        seg = &var->segs[(var->seg + i) % var->nsegs];
+    for (i = 0; i < n; i++) {
+        seg = &var->segs[(var->seg - n + i) % var->nsegs];
 
-        if (seg->duration) {
-            if (maxd < seg->duration) {
-                maxd = seg->duration;
-            }
+        if (maxd < seg->duration) {
+            maxd = seg->duration;
+        }
 
-            len += sizeof("#EXTINF:.xxx,\n"
-                          ".ts\n") - 1
-                   + 2 * NGX_INT_T_LEN;
+        len += sizeof("#EXTINF:.xxx,\n"
+                      ".ts\n") - 1
+               + 2 * NGX_INT_T_LEN;
 
-            if (hls->nvars > 1) {
-                len += NGX_INT_T_LEN + 1;
-            }
+        if (hls->nvars > 1) {
+            len += NGX_INT_T_LEN + 1;
         }
     }
 
@@ -502,19 +501,17 @@ ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var)
                        "#EXT-X-MEDIA-SEQUENCE:%ui\n"
                        "#EXT-X-TARGETDURATION:%ui\n\n", ms, td);
 
-    for (i = 0; i < var->nsegs; i++) {
-        seg = &var->segs[(var->seg + i) % var->nsegs];
+    for (i = 0; i < n; i++) {
+        seg = &var->segs[(var->seg - n + i) % var->nsegs];
 
-        if (seg->duration) {
-            p = ngx_sprintf(p, "#EXTINF:%.3f,\n", seg->duration / 90000.);
+        p = ngx_sprintf(p, "#EXTINF:%.3f,\n", seg->duration / 90000.);
 
-            if (hls->nvars > 1) {
-                p = ngx_sprintf(p, "%ui.%ui.ts\n",
-                                (ngx_uint_t) var->prog->number, seg->id);
+        if (hls->nvars > 1) {
+            p = ngx_sprintf(p, "%ui.%ui.ts\n",
+                            (ngx_uint_t) var->prog->number, seg->id);
 
-            } else {
-                p = ngx_sprintf(p, "%ui.ts\n", seg->id);
-            }
+        } else {
+            p = ngx_sprintf(p, "%ui.ts\n", seg->id);
         }
     }
 
-- 
2.43.0


From d3e85eb6133cfb8efb8614dcf15fec521b734655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 093/104] fix: nginx-ts-module: HLS target duration is less
 than a listed segment

---
 modules/nginx-ts-module/src/ngx_ts_hls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index 0f4b6aa..2a81d85 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -496,6 +496,10 @@ ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var)
     ms = var->seg <= var->nsegs ? 0 : var->seg - var->nsegs;
     td = (hls->conf->max_seg + 999) / 1000;
 
+    if (td < (maxd + 89999) / 90000) {
+        td = (maxd + 89999) / 90000;
+    }
+
     p = ngx_sprintf(p, "#EXTM3U\n"
                        "#EXT-X-VERSION:3\n"
                        "#EXT-X-MEDIA-SEQUENCE:%ui\n"
-- 
2.43.0


From 0ecef7ee8bcd3a7db85f8400365dad5ef51deda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 094/104] fix: nginx-ts-module: HLS lists a segment that was
 never opened

When the stream ends between two segments, or before the first one, and an
elementary stream that never brought anything counts as timestamp 0.
---
 modules/nginx-ts-module/src/ngx_ts_hls.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index 2a81d85..be3e7cd 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -98,21 +98,33 @@ ngx_ts_hls_cleanup(void *data)
     for (n = 0; n < hls->nvars; n++) {
         var = &hls->vars[n];
 
-        if (var->file.fd != NGX_INVALID_FILE) {
-            if (ngx_close_file(var->file.fd) == NGX_FILE_ERROR) {
-                ngx_log_error(NGX_LOG_ALERT, ts->log, ngx_errno,
-                              ngx_close_file_n " \"%s\" failed",
-                              var->file.name.data);
+        if (var->file.fd == NGX_INVALID_FILE) {
+            /* no unfinished segment */
+
+            if (var->seg) {
+                (void) ngx_ts_hls_update_playlist(hls, var);
             }
 
-            var->file.fd = NGX_INVALID_FILE;
+            continue;
+        }
+
+        if (ngx_close_file(var->file.fd) == NGX_FILE_ERROR) {
+            ngx_log_error(NGX_LOG_ALERT, ts->log, ngx_errno,
+                          ngx_close_file_n " \"%s\" failed",
+                          var->file.name.data);
         }
 
+        var->file.fd = NGX_INVALID_FILE;
+
         maxd = 0;
 
         for (i = 0; i < var->prog->nes; i++) {
             es = &var->prog->es[i];
 
+            if (!es->ptsf) {
+                continue;
+            }
+
             d = ngx_ts_hls_diff(es->dts, var->seg_dts);
             if (maxd < d) {
                 maxd = d;
-- 
2.43.0


From dffab636b23bf4d9ef6bef6f270df50bebfb50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:57 +0000
Subject: [PATCH 095/104] fix: codec header that comes in several chunks parsed
 as a whole

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 911f886..831c06a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -211,7 +211,10 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_codec_ctx_t               *ctx;
     ngx_rtmp_frame_t                  **header;
     uint8_t                             fmt;
-    u_char                              frametype;
+    u_char                              frametype, buf[4096];
+    ngx_chain_t                         flat, *cl;
+    ngx_buf_t                           fbuf;
+    size_t                              size;
     static ngx_uint_t                   sample_rates[] =
                                         { 5512, 11025, 22050, 44100 };
 
@@ -268,18 +271,33 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
     header = NULL;
 
+    /* a header may come in several chunks, it is parsed as a whole */
+
+    ngx_memzero(&fbuf, sizeof(ngx_buf_t));
+    fbuf.pos = buf;
+    fbuf.last = buf;
+
+    for (cl = in; cl; cl = cl->next) {
+        size = ngx_min(cl->buf->last - cl->buf->pos,
+                       buf + sizeof(buf) - fbuf.last);
+        fbuf.last = ngx_cpymem(fbuf.last, cl->buf->pos, size);
+    }
+
+    flat.buf = &fbuf;
+    flat.next = NULL;
+
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         if (ctx->audio_codec_id == NGX_RTMP_AUDIO_AAC) {
             header = &ctx->aac_header;
-            ngx_rtmp_codec_parse_aac_header(s, in);
+            ngx_rtmp_codec_parse_aac_header(s, &flat);
         }
     } else {
         if (ctx->video_codec_id == NGX_RTMP_VIDEO_H264) {
             header = &ctx->avc_header;
-            ngx_rtmp_codec_parse_avc_header(s, in);
+            ngx_rtmp_codec_parse_avc_header(s, &flat);
         } else if (ctx->video_codec_id == cacf->hevc_codec) {
             header = &ctx->avc_header;
-            ngx_rtmp_codec_parse_hevc_header(s, in);
+            ngx_rtmp_codec_parse_hevc_header(s, &flat);
         }
     }
 
-- 
2.43.0


From 1d705fcd8e3c0885a27e44ee6171eb32905ad571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 096/104] fix: HLS+ parsed a stream name with '-' or '.'
 wrongly in its URLs

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 76e8ad8..223596e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -194,14 +194,15 @@ ngx_hls_http_ctx_init(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     p++;
     name->data = p;
     if (ngx_strncmp(&e[-5], ".m3u8", 5) == 0) {
-        p = ngx_strlchr(p, e, '.');
+        p = e - 5;
     } else if (ngx_strncmp(&e[-3], ".ts", 3) == 0) {
-        p = ngx_strlchr(p, e, '-');
+        /* the name may hold any '-' itself */
+        for (p = e - 1; p > name->data && *p != '-'; p--);
     } else {
         p = NULL;
     }
 
-    if (p == NULL) {
+    if (p == NULL || p < name->data) {
         name->data = NULL;
         name->len = 0;
 
-- 
2.43.0


From 3cf72d6d653c51773e35e71db7a5219d3637bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 097/104] fix: callback URLs carried what a peer chose
 unescaped: requests split, arguments injected, names cut

---
 .../ngx_rtmp_notify_module.c                  | 98 +++++++++++--------
 1 file changed, 59 insertions(+), 39 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 158d6a6..d5b124f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1089,67 +1089,87 @@ ngx_rtmp_notify_init_process(ngx_cycle_t *cycle)
 
 }
 
+/* "&key=value", the value comes from a peer */
+static u_char *
+ngx_rtmp_notify_escape_arg(u_char *p, u_char *last, const char *key,
+    ngx_str_t *value)
+{
+    size_t                      n;
+
+    p = ngx_slprintf(p, last, "&%s=", key);
+
+    n = 2 * ngx_escape_uri(NULL, value->data, value->len, NGX_ESCAPE_ARGS);
+    if ((size_t) (last - p) < value->len + n) {
+        return p;
+    }
+
+    return (u_char *) ngx_escape_uri(p, value->data, value->len,
+                                     NGX_ESCAPE_ARGS);
+}
+
+
+/* arguments of a peer are passed on as they are, as far as they are a URL */
+static u_char *
+ngx_rtmp_notify_copy_args(u_char *p, u_char *last, ngx_str_t *args)
+{
+    size_t                      i;
+
+    p = ngx_slprintf(p, last, "&");
+
+    for (i = 0; i < args->len; ++i) {
+        if (args->data[i] <= ' ' || args->data[i] == '#'
+            || args->data[i] == 0x7f)
+        {
+            p = ngx_slprintf(p, last, "%%%02Xi", (ngx_uint_t) args->data[i]);
+        } else {
+            p = ngx_slprintf(p, last, "%c", args->data[i]);
+        }
+    }
+
+    return p;
+}
+
+
 static void
 ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     ngx_rtmp_notify_event_t *event, ngx_netcall_ctx_t *nctx, ngx_uint_t stage)
 {
     ngx_request_url_t           ru;
-    size_t                      len;
-    u_char                     *p, *buf;
+    u_char                     *p, *last;
     ngx_live_record_ctx_t      *lrctx;
-    unsigned                    fill = 0;
     ngx_str_t                   args;
 
     ngx_memzero(&ru, sizeof(ngx_request_url_t));
     ngx_parse_request_url(&ru, &event->url);
 
-    len = NGX_NETCALL_MAX_URL_LEN;
-    buf = url->data;
-    p = ngx_snprintf(buf, len , "%V", &event->url);
-    if (fill) {
-        *p++ = '/';
-    }
-    len -= p - buf;
-    buf = p;
-
-    if (ru.args.len) { // url already has args
-        p = ngx_snprintf(buf, len,
-                "&call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    } else {
-        p = ngx_snprintf(buf, len,
-                "?call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    }
-    len -= p - buf;
-    buf = p;
+    last = url->data + NGX_NETCALL_MAX_URL_LEN;
+
+    p = ngx_slprintf(url->data, last, "%V%ccall=%s&act=%s", &event->url,
+                     ru.args.len ? '&' : '?', // url may already have args
+                     ngx_rtmp_notify_app_type[nctx->type],
+                     ngx_rtmp_notify_stage[stage]);
+
+    p = ngx_rtmp_notify_escape_arg(p, last, "domain", &s->domain);
+    p = ngx_rtmp_notify_escape_arg(p, last, "app", &s->app);
+    p = ngx_rtmp_notify_escape_arg(p, last, "name", &s->name);
+    p = ngx_slprintf(p, last, "&clientid=%D", s->number);
 
     if (nctx->type == NGX_RTMP_OCLP_RECORD && stage != NGX_RTMP_OCLP_START) {
         lrctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
-        p = ngx_snprintf(buf, len, "&begintime=%M&endtime=%M&index=%V&file=%V",
-                lrctx->begintime, lrctx->endtime, &lrctx->index.name,
-                &lrctx->file.name);
-
-        len -= p - buf;
-        buf = p;
+        p = ngx_slprintf(p, last, "&begintime=%M&endtime=%M",
+                         lrctx->begintime, lrctx->endtime);
+        p = ngx_rtmp_notify_escape_arg(p, last, "index", &lrctx->index.name);
+        p = ngx_rtmp_notify_escape_arg(p, last, "file", &lrctx->file.name);
     }
 
     if (event->groupid.len) {
-        p = ngx_snprintf(buf, len, "&groupid=%V", &event->groupid);
-        len -= p - buf;
-        buf = p;
+        p = ngx_slprintf(p, last, "&groupid=%V", &event->groupid);
     }
 
     if (event->args.len) {
         ngx_rtmp_fetch_variable(s, s->pool, &event->args, &args);
         if (args.len > 0) {
-            p = ngx_snprintf(buf, len, "&%V", &args);
-            len -= p - buf;
-            buf = p;
+            p = ngx_rtmp_notify_copy_args(p, last, &args);
         }
     }
 
-- 
2.43.0


From 45d2ee9ec8bdfe885d1783392e0ba96376a54281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 098/104] fix: an HTTP-FLV pull did not escape the stream name
 in its request

---
 modules/nginx-rtmp-module/ngx_live_relay_httpflv.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
index 8053bb7..b69e42d 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
@@ -536,7 +536,9 @@ ngx_live_relay_httpflv_send_request(ngx_rtmp_session_t *s,
     // request url
     // http:// + url + ':' + port + '/' + app + '/' + name + ['?' + pargs]
     len = 7 + url->url.host.len + 1 + sizeof("65535") - 1
-        + 1 + ctx->app.len + 1 + ctx->name.len;
+        + 1 + ctx->app.len + 1 + ctx->name.len
+        + 2 * ngx_escape_uri(NULL, ctx->name.data, ctx->name.len,
+                             NGX_ESCAPE_URI);
     if (ctx->pargs.len) {
         len = len + 1 + ctx->pargs.len;
     }
@@ -548,12 +550,12 @@ ngx_live_relay_httpflv_send_request(ngx_rtmp_session_t *s,
         return NGX_ERROR;
     }
 
+    p = ngx_snprintf(request_url.data, len, "http://%V:%d/%V/",
+            &url->url.host, url->port, &ctx->app);
+    p = (u_char *) ngx_escape_uri(p, ctx->name.data, ctx->name.len,
+                                  NGX_ESCAPE_URI);
     if (ctx->pargs.len) {
-        p = ngx_snprintf(request_url.data, len, "http://%V:%d/%V/%V?%V",
-                &url->url.host, url->port, &ctx->app, &ctx->name, &ctx->pargs);
-    } else {
-        p = ngx_snprintf(request_url.data, len, "http://%V:%d/%V/%V",
-                &url->url.host, url->port, &ctx->app, &ctx->name);
+        p = ngx_slprintf(p, request_url.data + len, "?%V", &ctx->pargs);
     }
     request_url.len = p - request_url.data;
 
-- 
2.43.0


From 56b39a0bc983c63c1a902989099a25bf19fbdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 099/104] fix: live_record followed '..' in an application or
 stream name out of its directory

---
 modules/nginx-rtmp-module/ngx_live_record.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index dc81d9b..41e58f4 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -505,6 +505,16 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
+    /* both come from the publisher and become part of the path */
+
+    if (ngx_strnstr(s->app.data, "..", s->app.len)
+        || ngx_strnstr(s->name.data, "..", s->name.len))
+    {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "record: bad stream name: '%V/%V'", &s->app, &s->name);
+        return NGX_ERROR;
+    }
+
     len = lracf->path.len + sizeof("/") - 1 + s->serverid.len + sizeof("/") - 1
         + s->app.len + sizeof("/") - 1 + s->name.len + sizeof("/") - 1
         + sizeof("index/YYYYMMDD/") - 1 + s->name.len
-- 
2.43.0


From 39818f18dffb957543b400b9f0172de02cf88acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 100/104] fix: control characters in peer-chosen values forged
 lines of the access log

---
 modules/nginx-rtmp-module/ngx_rtmp_log_module.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
index 241493c..225181f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
@@ -1106,7 +1106,7 @@ static void
 ngx_rtmp_log_pre_write(ngx_rtmp_session_t *s, ngx_rtmp_log_t *log)
 {
     ngx_rtmp_log_op_t          *op;
-    u_char                      line[MAX_ACCESS_LOG_LINE_LEN], *p;
+    u_char                      line[MAX_ACCESS_LOG_LINE_LEN], *p, *v;
     size_t                      len;
     ngx_uint_t                  n;
 
@@ -1135,7 +1135,19 @@ ngx_rtmp_log_pre_write(ngx_rtmp_session_t *s, ngx_rtmp_log_t *log)
     p = line;
     op = log->format->ops->elts;
     for (n = 0; n < log->format->ops->nelts; ++n, ++op) {
+        v = p;
         p = op->getdata(s, p, op);
+
+        if (op->getdata == ngx_rtmp_log_var_default_getdata) {
+            continue;
+        }
+
+        /* a value chosen by a peer must not end the line */
+        for ( /* void */ ; v < p; ++v) {
+            if (*v < 0x20 || *v == 0x7f) {
+                *v = '?';
+            }
+        }
     }
 
     ngx_linefeed(p);
-- 
2.43.0


From 257f09d0b606ad823893aac06cde377f7a0c8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:02 +0000
Subject: [PATCH 101/104] fix: hls_key_path registered its cleanup path twice
 when an application holds a recorder, nginx did not start

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index c31adff..0ed9fee 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2679,7 +2679,6 @@ ngx_rtmp_hls_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_str_value(conf->base_url, prev->base_url, "");
     ngx_conf_merge_value(conf->granularity, prev->granularity, 0);
     ngx_conf_merge_value(conf->keys, prev->keys, 0);
-    ngx_conf_merge_str_value(conf->key_path, prev->key_path, "");
     ngx_conf_merge_str_value(conf->key_url, prev->key_url, "");
     ngx_conf_merge_uint_value(conf->frags_per_key, prev->frags_per_key, 0);
 
-- 
2.43.0


From a78e062ad8254c153a363544b9ca4b133b6c63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:36 +0000
Subject: [PATCH 102/104] fix: an HLS+ session kept referring to the pool of
 the request that created it

---
 .../mpegts/ngx_hls_http_module.c               | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 223596e..3ddc4f9 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -640,8 +640,20 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
 #undef NGX_HLS_HTTP_SET_VAL
 
+#define NGX_HLS_HTTP_COPY(_dst, _src)                                          \
+    p = ngx_pstrdup(s->pool, &(_src));                                         \
+    if (p == NULL) {                                                           \
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;                                 \
+    }                                                                          \
+    (_dst).len = (_src).len;                                                   \
+    (_dst).data = p
+
+    /* the session outlives the request, it must not refer to its pool */
+
     if (ngx_http_arg(r, (u_char *) "flashver", 8, &s->flashver) != NGX_OK) {
         s->flashver = hlcf->flashver;
+    } else {
+        NGX_HLS_HTTP_COPY(s->flashver, s->flashver);
     }
 
     /* tc_url */
@@ -656,7 +668,7 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
     tcurl_len += r->headers_in.server.len + 1 + s->app.len;
 
     s->tc_url.len = tcurl_len;
-    s->tc_url.data = ngx_pcalloc(r->pool, tcurl_len);
+    s->tc_url.data = ngx_pcalloc(s->pool, tcurl_len);
     if (s->tc_url.data == NULL) {
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
@@ -678,11 +690,13 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     /* page_url */
     if (r->headers_in.referer) {
-        s->page_url = r->headers_in.referer->value;
+        NGX_HLS_HTTP_COPY(s->page_url, r->headers_in.referer->value);
     } else {
         s->page_url = hlcf->page_url;
     }
 
+#undef NGX_HLS_HTTP_COPY
+
     s->acodecs = 0x0DF7;
     s->vcodecs = 0xFC;
 
-- 
2.43.0


From 02f42374e85f9a300d64314efff651bf777dabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 103/104] fix: an on_record answer after the publisher left
 crashed the worker; refused recordings leaked their callback

---
 modules/nginx-rtmp-module/ngx_live_record.c        |  6 ++++--
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 13 +++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 41e58f4..8f775ae 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1423,12 +1423,14 @@ ngx_live_record_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
+    /* even if nothing is recorded, an answer may still be waited for */
+
+    ngx_live_record_done(s);
+
     if (ctx->open == 0) {
         goto next;
     }
 
-    ngx_live_record_done(s);
-
     ngx_live_record_close_index(s, ctx);
     ctx->open = 0;
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index d5b124f..956d03a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1965,6 +1965,10 @@ ngx_rtmp_notify_record_start(ngx_rtmp_session_t *s)
 
     nctx = ngx_netcall_create_ctx(NGX_RTMP_OCLP_RECORD, &event->groupid,
             event->stage, event->timeout, event->update, 0);
+    if (nctx == NULL) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0, "create record nctx failed");
+        goto next;
+    }
 
     ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
                              NGX_RTMP_OCLP_START);
@@ -1972,7 +1976,6 @@ ngx_rtmp_notify_record_start(ngx_rtmp_session_t *s)
     nctx->data = s;
 
     octx->rctx = nctx;
-    octx->type = NGX_RTMP_OCLP_RECORD;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "notify record start create %V",
             &nctx->url);
@@ -2038,6 +2041,7 @@ ngx_rtmp_notify_record_done(ngx_rtmp_session_t *s)
     ngx_netcall_ctx_t          *nctx;
     ngx_rtmp_notify_ctx_t        *octx;
     ngx_rtmp_notify_event_t      *event;
+    ngx_live_record_ctx_t        *ctx;
 
     octx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
     if (octx == NULL || octx->rctx == NULL) {
@@ -2045,8 +2049,13 @@ ngx_rtmp_notify_record_done(ngx_rtmp_session_t *s)
     }
 
     nctx = octx->rctx;
+    octx->rctx = NULL;
 
-    if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE) {
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
+
+    if (ctx->open
+        && (nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE)
+    {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
         event = oacf->events[nctx->type].elts;
 
-- 
2.43.0


From c5b3b3b8e9272a4cd599bba6e5bede9d5bfa1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:08 +0000
Subject: [PATCH 104/104] fix: a relay asked for twice after a failure delay
 left the first callback behind, which crashed the worker

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 956d03a..8dfe079 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1718,6 +1718,8 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
 
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_relay_module);
 
+    ctx->failed_delay = 0; // the delay is over, next timeout is a real one
+
     // this timer control start netcall until relay create success
     ngx_add_timer(&ctx->reconnect, lracf->relay_reconnect);
 
-- 
2.43.0

