From 22c134026e990912e48b2d1090046e879867928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 001/108] fix: bit writer lost bit 4 of six-bit pieces (mask
 0x2f instead of 0x3f)

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From b08785a59f7daf9f317c2c5dd914093ed45a62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 002/108] fix: flv demuxer read the sub-header of tags too
 short to hold one

---
 src/avformat/sps_avformat_flvdec.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..fe1588d 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -133,6 +133,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
             stream_type, pkt_type, flags, previous_size, data_size);
 
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
+        if (data_size < 2) {
+            sp_error("flv audio tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
         // sample_size = flags & 0x02    // (0. 8       1. 16)
@@ -147,6 +151,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         data_size   -=   2;
         pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
+        if (data_size < 1) {
+            sp_error("flv video tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
         flags       = rd->read_int8();
 
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
@@ -160,6 +168,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("flv video tag too short %d", data_size);
+                return ERROR_FLV_TAG;
+            }
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 212ee41969cd5b1d362610b965e9de43efdbf726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 003/108] fix: video info frames were cached as the video
 sequence header

---
 src/avformat/sps_avformat_packet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..dc41d46 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -102,6 +102,11 @@ bool AVPacket::is_video_sequence_header() const {
     if (!is_video()) {
         return false;
     }
+    // info/command frames (frame type 5) carry no packet type
+    if (((flags >> 4) & 0x0F) == 5) {
+        return false;
+    }
+
     return pkt_type.pkt_type == AV_VIDEO_TYPE_SEQUENCE_HEADER;
 }
 
-- 
2.43.0


From 49173a490180a04bb5db7f39d26db99c51ff4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 004/108] fix: order of subscribers changed when one expired,
 corrupting the set

---
 src/sys/sps_sys_sync.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/sys/sps_sys_sync.hpp b/src/sys/sps_sys_sync.hpp
index 88ad2cf..a06fa8b 100644
--- a/src/sys/sps_sys_sync.hpp
+++ b/src/sys/sps_sys_sync.hpp
@@ -89,16 +89,9 @@ class Subscriber {
     PCondition cond;
 };
 
+// the order of two weak pointers must not change when one expires
 template <class T>
-struct WeakPtrLessThan {
-    bool operator()(const std::weak_ptr<T>& lhs,
-                   const std::weak_ptr<T>& rhs) const {
-        auto lptr = lhs.lock(), rptr = rhs.lock();
-        if (!rptr) return false;  // nothing after expired pointer
-        if (!lptr) return true;   // every not expired after expired pointer
-        return lptr.get() < rptr.get();
-    }
-};
+using WeakPtrLessThan = std::owner_less<std::weak_ptr<T>>;
 
 template <class T>
 class Publisher {
-- 
2.43.0


From a8c267cb8599c9c255ac900dcc6b0d67fa34d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 005/108] fix: raw ts cache never noticed unit starts and kept
 the whole stream

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index dc41d46..ba180df 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -126,7 +126,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..511659a 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,8 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{(int) (ts_type |
+                    (payload_unit_start_indicator ? 0x80000000u : 0))},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From e59be63b9376482e86d1d289de54b14263e1f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 006/108] fix: url extension was taken across path segments

---
 src/io/url/sps_io_url.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..fb7b4e0 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -109,7 +109,9 @@ error_t RequestUrl::parse_url(const std::string& url) {
     } while (true);
 
     auto n = path.rfind(".");
-    if (n != std::string::npos) {
+    auto slash = path.rfind("/");
+    // only the last path segment has an extension
+    if (n != std::string::npos && (slash == std::string::npos || n > slash)) {
         ext = path.substr(n+1);
     }
 
-- 
2.43.0


From 502b5456510511f2a6dd9edf05fb57e1ad97de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 007/108] fix: query piece without = was merged into the next
 name

---
 src/io/url/sps_io_url.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index fb7b4e0..653f444 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -82,31 +82,23 @@ error_t RequestUrl::parse_url(const std::string& url) {
                             u.field_data[UF_QUERY].len);
     }
 
-    auto off_pre = 0;
+    size_t off_pre = 0;
 
-    do {
-        auto off_key = params.find_first_of('=', off_pre);
-        if (off_key == std::string::npos) break;
-
-        std::string key = params.substr(off_pre, off_key - off_pre), value;
-        off_pre         = off_key + 1;
-        auto off_value  = params.find_first_of('&', off_pre);
-
-        if (off_value == std::string::npos) {
-            value   =  params.substr(off_pre);
-            pp.push_back(RequestHeader(key, value));
-            sp_debug("%lu, &:%u, [%s]=[%s], final:%u", off_key, -1,
-                     key.c_str(), value.c_str(), off_pre);
-            break;
+    while (off_pre < params.size()) {
+        auto off_end = params.find_first_of('&', off_pre);
+        if (off_end == std::string::npos) {
+            off_end = params.size();
         }
 
-        value = params.substr(off_pre, off_value - off_pre);
-        off_pre = off_value + 1;
-
-        sp_debug("%lu, &:%lu, [%s]=[%s], final:%u", off_key, off_value,
-                 key.c_str(), value.c_str(), off_pre);
-        pp.push_back(RequestParam(key, value));
-    } while (true);
+        // a piece without '=' is not a pair
+        auto off_key = params.find_first_of('=', off_pre);
+        if (off_key != std::string::npos && off_key < off_end) {
+            pp.push_back(RequestParam(
+                    params.substr(off_pre, off_key - off_pre),
+                    params.substr(off_key + 1, off_end - off_key - 1)));
+        }
+        off_pre = off_end + 1;
+    }
 
     auto n = path.rfind(".");
     auto slash = path.rfind("/");
-- 
2.43.0


From ae7140c9fa8f1223c3fbc0b23986bd434011bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 008/108] fix: url without a path had an empty request target

---
 src/io/url/sps_io_url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 653f444..cb485af 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -111,7 +111,7 @@ error_t RequestUrl::parse_url(const std::string& url) {
         method = "GET";
     }
 
-    this->url = path + (params.empty() ? "" : "?" + params);
+    this->url = (path.empty() ? "/" : path) + (params.empty() ? "" : "?" + params);
     if (schema == "file") {
         this->url    = url.substr(sizeof("file://"));
         this->path   = url;
-- 
2.43.0


From 729195ea3d06fa6c0f34b1fb8a186cd450a98deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 009/108] fix: malformed http headers were accepted

---
 src/module/http/sps_http_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..200af86 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -189,6 +189,12 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
         sp_error("parse execute zero %.*s", len, b);
     }
 
+    if (HTTP_PARSER_ERRNO(&ctx->http) != HPE_OK) {
+        sp_error("parse http header fail %s",
+                 http_errno_name(HTTP_PARSER_ERRNO(&ctx->http)));
+        return -1;
+    }
+
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
         ctx->parse_request();
     } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
-- 
2.43.0


From d322f55ac7db21c666683f553640f3b7a3b92e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:32 +0000
Subject: [PATCH 010/108] fix: http header names and the chunked coding are
 case-insensitive

---
 src/io/url/sps_io_url.cpp           | 7 ++++---
 src/module/http/sps_http_parser.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index cb485af..f1a8e50 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_io_url.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sps_log.hpp>
 
@@ -162,14 +163,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (strcasecmp(it->key.c_str(), key.c_str()) == 0) {
             headers.erase(it);
             return;
         }
@@ -184,7 +185,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int RequestUrl::get_content_length() {
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 200af86..d37b408 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -22,6 +22,8 @@ SOFTWARE.
 *****************************************************************************/
 
 #include <sps_http_parser.hpp>
+
+#include <strings.h>
 #include <log/sps_log.hpp>
 
 namespace sps {
@@ -53,7 +55,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +68,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             (*vs).push_back(h.value);
         }
     }
-- 
2.43.0


From f2a248dde86c96acb233e02a89c6f7abf12b705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 011/108] fix: http content length was truncated to 32 bits

---
 src/io/url/sps_io_url.cpp                        | 4 ++--
 src/io/url/sps_io_url.hpp                        | 2 +-
 src/module/http/sps_http_parser.cpp              | 2 +-
 src/module/http/sps_http_parser.hpp              | 4 ++--
 src/module/http/sps_http_phase_handler.cpp       | 4 ++--
 src/module/http/sps_http_proxy_phase_handler.cpp | 8 ++++----
 src/module/http/sps_http_socket.cpp              | 4 ++--
 src/module/http/sps_http_socket.hpp              | 8 ++++----
 8 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index f1a8e50..5cf9d4b 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -188,13 +188,13 @@ bool RequestUrl::is_chunked() {
     return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return atoll(cl.c_str());
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..a5792f9 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -79,7 +79,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index d37b408..b3f1775 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -37,7 +37,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..9ca5d28 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -73,7 +73,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..63ad815 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -49,10 +49,10 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %lld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
-             req->is_chunked(), req->get_content_length());
+             req->is_chunked(), (long long) req->get_content_length());
 
     return SPS_PHASE_CONTINUE;
 }
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..153a53f 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,12 +70,12 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
-                 http_rsp->headers.size(), http_rsp->content_length, ret);
+        sp_error("write head status: %d, %lu, %lld, %d.", http_rsp->status_code,
+                 http_rsp->headers.size(), (long long) http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
-             http_rsp->headers.size(), http_rsp->content_length);
+    sp_debug("write head status %d, %lu, %lld.", http_rsp->status_code,
+             http_rsp->headers.size(), (long long) http_rsp->content_length);
 
     char   buf[1024];
     int    len  = sizeof(buf);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..7af1445 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -36,7 +36,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -161,7 +161,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..a49f477 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -50,7 +50,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 0083cf723b21dc9669cbdf6dad1f34c4b3a7ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 012/108] fix: empty http request body was read past its end

---
 src/module/http/sps_http_socket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 7af1445..de14fce 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -40,6 +40,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
+    this->is_eof         = !chunked && cl == 0;
 }
 
 error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
-- 
2.43.0


From 56f994583a71ccaa4c0d325d1b449aa58f6735dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 013/108] fix: malformed http chunk sizes were taken as the
 last chunk

---
 src/io/url/sps_io_url_http.cpp      | 13 ++++++++++++-
 src/module/http/sps_http_socket.cpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..51e4939 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -168,7 +168,18 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+
+    char* end = nullptr;
+    errno     = 0;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (!isxdigit((unsigned char) tmp_buf[0]) || errno == ERANGE ||
+            (*end != '\0' && *end != ';' && *end != ' ' && *end != '\t')) {
+        sp_error("invalid chunked length %s", tmp_buf);
+        nb_chunked_left = nb_chunked_size = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index de14fce..b5b2fd3 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -119,7 +119,18 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+
+    char* end = nullptr;
+    errno     = 0;
+    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, &end, 16);
+
+    if (!isxdigit((unsigned char) tmp_buf[0]) || errno == ERANGE ||
+            (*end != '\0' && *end != ';' && *end != ' ' && *end != '\t')) {
+        sp_error("invalid chunked length %s", tmp_buf);
+        nb_chunked_left = nb_chunked_size = 0;
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
-- 
2.43.0


From 5719737de0d014a4fcf94f39f9bf0e84b6a9993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 014/108] fix: relayed http responses repeated the framing
 headers

---
 src/module/http/sps_http_socket.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index b5b2fd3..b3eff58 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sstream>
 
@@ -200,11 +201,18 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        // the framing headers are those written above
+        if (strcasecmp(h.key.c_str(), "Content-Length") == 0 &&
+                (content_sent || chunked)) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0 &&
+                (content_sent || chunked)) {
+            continue;
+        }
+
+        if (strcasecmp(h.key.c_str(), "Server") == 0) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 346db5018ef7f708546b25458ebb38dff45663ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 015/108] fix: merging two host sets dropped the default host

---
 src/module/host/sps_host_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..8b49f7e 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -236,6 +236,10 @@ error_t HostModulesRouter::merge(HostModulesRouter *router) {
         wildcard_hosts[it.first] = it.second;
     }
 
+    if (router->default_host) {
+        default_host = router->default_host;
+    }
+
     return SUCCESS;
 }
 
-- 
2.43.0


From 09cc551cafa8bdf60abf5f3edd101b1eab2914fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 016/108] fix: location options were not terminated

---
 src/module/host/sps_host_loc_module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/host/sps_host_loc_module.hpp b/src/module/host/sps_host_loc_module.hpp
index 3baa0ac..c6ac8dc 100644
--- a/src/module/host/sps_host_loc_module.hpp
+++ b/src/module/host/sps_host_loc_module.hpp
@@ -39,6 +39,7 @@ struct LocationConfCtx : public HostConfCtx {
 #define OFFSET(x) offsetof(LocationConfCtx, x)
 static const ConfigOption loc_options[] = {
         HOST_OPTIONS,
+        {nullptr}
 };
 #undef OFFSET
 
-- 
2.43.0


From 30fda203183fe714e6d0b243b709d825ba646b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 017/108] fix: comment lines holding ; { or } were refused

---
 src/module/sps_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..d2fd7ef 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -235,6 +235,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             return ERROR_CONFIG_PARSE_INVALID;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {  // comment line
+            lt = COMMENT;
+            return SUCCESS;
+        }
+
         char last = tmp_arg[tmp_arg.size() - 1];
 
         switch (last) {
-- 
2.43.0


From ab331b44273e8ab7c37c7a40f6190244816b6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 018/108] fix: directive on the line of a closing brace was
 dropped silently

---
 src/module/sps_module.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index d2fd7ef..b134d64 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -276,8 +276,13 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
-    if (args.size() == 1 && lt == SUBMODULE_END) {
-        return SUCCESS;
+    if (lt == SUBMODULE_END) {
+        if (args.size() == 1 && args[0] == "}") {
+            return SUCCESS;
+        }
+
+        sp_error("Fatal no end flag before } %s", line.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
     }
 
     if (args.size() == 1) {
-- 
2.43.0


From 569e70220401f3eb3af338ab83fe3498162a390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 019/108] fix: block name joined with its opening brace was
 lost

---
 src/module/sps_module.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index b134d64..ec59f17 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -304,11 +304,9 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         }
     }
 
-    if (lt != SUBMODULE_START && lt != SUBMODULE_END) {
-        if (*args.rbegin() != ";") {
-            arg += (arg.empty() ? std::string("") : std::string(" ")) +
-                   args.rbegin()->substr(0, args.rbegin()->size() - 1);
-        }
+    if (args.rbegin()->size() > 1) {  // value joined with its ; or {
+        arg += (arg.empty() ? std::string("") : std::string(" ")) +
+               args.rbegin()->substr(0, args.rbegin()->size() - 1);
     }
 
     sp_debug("parse line (%s)->(%s) size:%lu", cmd.c_str(),
-- 
2.43.0


From 0f9b0fa4f49bd91548b99525921f47df76bf59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 020/108] fix: unknown configuration block ended the process

---
 src/module/sps_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index ec59f17..b2bd792 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -344,7 +344,7 @@ PIModule ModuleFactoryRegister::create(const std::string &name,
     auto f = this->get(name);
     if (!f) {
         sp_error("unknown sub module name:%s", name.c_str());
-        exit(1);
+        return nullptr;
     }
     return (*f)->create(name, arg, std::move(parent));
 }
-- 
2.43.0


From 57bd7f866759db21faf537a6450cab22b82ee6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 021/108] fix: file urls did not name their file

---
 src/io/url/sps_io_url.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 5cf9d4b..9dfdcc6 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -43,8 +43,28 @@ error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
 }
 
 error_t RequestUrl::parse_url(const std::string& url) {
+    static const std::string file_prefix = "file://";
     struct http_parser_url u;
 
+    if (url.compare(0, file_prefix.size(), file_prefix) == 0) {
+        schema     = "file";
+        path       = url.substr(file_prefix.size());
+        this->url  = path;
+        port       = -1;
+
+        auto dot   = path.rfind(".");
+        auto slash = path.rfind("/");
+        if (dot != std::string::npos &&
+            (slash == std::string::npos || dot > slash)) {
+            ext = path.substr(dot + 1);
+        }
+
+        if (method.empty()) {
+            method = "GET";
+        }
+        return SUCCESS;
+    }
+
     if (http_parser_parse_url(url.c_str(), url.size(), 0, &u) != 0) {
         sp_error("parser url failed:%s", url.c_str());
         return -1;
@@ -63,8 +83,6 @@ error_t RequestUrl::parse_url(const std::string& url) {
         port = 443;
     } else if (schema == "rtmp") {
             port = 1935;
-    } else if (schema == "file") {
-        port = 0; // ignore it
     } else {
         sp_warn("not found default port for schema:%s", schema.c_str());
         port = 0;  // unknown port
@@ -113,13 +131,6 @@ error_t RequestUrl::parse_url(const std::string& url) {
     }
 
     this->url = (path.empty() ? "/" : path) + (params.empty() ? "" : "?" + params);
-    if (schema == "file") {
-        this->url    = url.substr(sizeof("file://"));
-        this->path   = url;
-        this->params = "";
-        this->port   = -1;
-    }
-
     sp_debug("url:%s -> [%s] [%s:%d] [%s] [%s] [%s] [%s]",
              url.c_str(), schema.c_str(), host.c_str(), port, path.c_str(),
              ext.c_str(), params.c_str(),
-- 
2.43.0


From f598e5797c2ce961e19f7c872f2e2f183277d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 022/108] fix: last line of a memory source kept its newline

---
 src/io/sps_io_memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index ce0e5ec..d11dfd3 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -81,7 +81,7 @@ error_t MemoryReaderWriter::read_line(std::string &line) {
     while (pos < len && buf[pos++] != '\n') {
     }
 
-    int tlen = (pos < len) ? (pos-start-1) : (pos-start);
+    int tlen = (buf[pos-1] == '\n') ? (pos-start-1) : (pos-start);
 
     line = std::string(buf + start, tlen);
 
-- 
2.43.0


From e13d2d8d8f5c13e290b309a2007a78229e275f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 023/108] fix: exact memory read logged the uninitialised
 target as a string

---
 src/io/sps_io_memory.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index d11dfd3..4bb9937 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -102,7 +102,6 @@ error_t MemoryReaderWriter::read_fully(void *buf,
         return ERROR_IO_EOF;
     }
 
-    sp_debug("%s", buf);
     memcpy((char*) buf, this->buf + pos, n);
 
     pos += n;
-- 
2.43.0


From a20988904b5a388ad14f8a4c1b63f37629ce4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 024/108] fix: successive memory writes overwrote each other

---
 src/io/sps_io_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index 4bb9937..19a2571 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -124,6 +124,7 @@ error_t MemoryReaderWriter::write(void *buf, size_t size) {
     }
 
     memcpy(this->buf + pos, buf, size);
+    pos += size;
     return SUCCESS;
 }
 
-- 
2.43.0


From 765acec3e77811724f8aa6aa8fea8cdefb88c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 025/108] fix: file read at the end returned success with no
 bytes

---
 src/io/url/sps_io_url_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b230a07..d088633 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -90,6 +90,9 @@ error_t FileURLProtocol::read(void *buf, size_t size, size_t &nread) {
     fh.read((char*) buf, size);
 
     nread = fh.gcount();
+    if (nread == 0 && size > 0) {
+        return ERROR_IO_EOF;
+    }
     return SUCCESS;
 }
 
-- 
2.43.0


From a8bc575aa6f8458028387f952eb86aedc8825f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 026/108] fix: lost file writes were reported as success

---
 src/io/url/sps_io_url_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index d088633..025728d 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -114,7 +114,7 @@ int FileURLProtocol::cur_line_num() {
 
 error_t FileURLProtocol::write(void *buf, size_t size) {
     fh.write((char*) buf, size);
-    if (fh.bad()) {
+    if (fh.fail()) {
         return ERROR_FILE_WRITE;
     }
     return SUCCESS;
-- 
2.43.0


From 10eaaf9526bbf692bf6a6daeb7c80717bf0d4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:47 +0000
Subject: [PATCH 027/108] fix: exact file read did not report its count

---
 src/io/url/sps_io_url_file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index 025728d..92cc701 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -75,6 +75,7 @@ void FileURLProtocol::close() {
 
 error_t FileURLProtocol::read_fully(void *buf, size_t size, ssize_t *nread) {
     fh.read((char*) buf, size);
+    if (nread) *nread = fh.gcount();
     return fh.fail() ? ERROR_IO_EOF : SUCCESS;
 }
 
-- 
2.43.0


From 0902922938b969eeaefd3c25ca2e97b4e022373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 028/108] fix: srt stream id values holding = were cut

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..5fc6f13 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -60,7 +60,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
             start = p+1;
 
             param.key = param.value = "";  // clear value
-        } else if (*p == '=') {
+        } else if (*p == '=' && param.key.empty()) {
             param.key = std::string(start, p-start);
             start = p+1;
         }
-- 
2.43.0


From 799f6ae59141ebe93d1353cbd6a6963b5ddb5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 029/108] fix: last field of an srt stream id was ignored

---
 src/module/srt/sps_srt_server_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 5fc6f13..5920016 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -67,6 +67,10 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         ++p;
     }
 
+    // the last field needs no ,
+    param.value = std::string(start, end-start);
+    params.push_back(param);
+
     std::string url = "";
     std::string mode = "";
     for(auto& p : params) {
-- 
2.43.0


From 31ceb1d6e8771bca12f1a0583a13adb99acfbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 030/108] fix: srt stream id with a full url got a second
 schema

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 5920016..06f19da 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -81,7 +81,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From 0499644a19e652359770bd65778db54e70ec4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 031/108] fix: log lines were used as a format string

---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..3de97b1 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    fputs(buf, stdout);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From 005723198a12fda0d4f4159d7a34a968bad22070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 032/108] fix: formats matched every extension starting with
 theirs

---
 src/avformat/sps_avformat_dec.cpp | 4 +---
 src/avformat/sps_avformat_enc.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_dec.cpp b/src/avformat/sps_avformat_dec.cpp
index 0c41c93..2f43972 100644
--- a/src/avformat/sps_avformat_dec.cpp
+++ b/src/avformat/sps_avformat_dec.cpp
@@ -35,9 +35,7 @@ IAVInputFormat::IAVInputFormat(const char *name, const char *ext) {
 }
 
 bool IAVInputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return  memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVDemuxer IAVInputFormat::create2(PIReader p) {
diff --git a/src/avformat/sps_avformat_enc.cpp b/src/avformat/sps_avformat_enc.cpp
index 1a1032c..941169e 100644
--- a/src/avformat/sps_avformat_enc.cpp
+++ b/src/avformat/sps_avformat_enc.cpp
@@ -41,9 +41,7 @@ IAVOutputFormat::IAVOutputFormat(const char *name, const char *ext) {
 }
 
 bool IAVOutputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVMuxer IAVOutputFormat::create2(PIWriter pw, PRequestUrl& url) {
-- 
2.43.0


From 65b092be01d3835217c90e5b4960645e0fee30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:10 +0000
Subject: [PATCH 033/108] fix: muxer for an unknown extension crashed when it
 was discarded

---
 src/avformat/sps_avformat_ffmpeg_dec.cpp | 2 +-
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_dec.cpp b/src/avformat/sps_avformat_ffmpeg_dec.cpp
index ac2f90a..1875421 100644
--- a/src/avformat/sps_avformat_ffmpeg_dec.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_dec.cpp
@@ -183,7 +183,7 @@ error_t FFmpegAVDemuxer::init_ffmpeg_ctx() {
 void FFmpegAVDemuxer::free_ffmpeg_ctx() {
     // https://ffmpeg.org/pipermail/libav-user/2012-December/003257.html
     // avio_ctx_buffer manage by pb
-    if (pb->buffer) av_freep(&pb->buffer);
+    if (pb && pb->buffer) av_freep(&pb->buffer);
     if (pb) avio_context_free(&pb);
     if (ctx) avformat_free_context(ctx);
 }
diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index a2f588b..62b3df6 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -256,7 +256,7 @@ error_t FFmpegAVMuxer::init_ffmpeg_ctx() {
 }
 
 void FFmpegAVMuxer::free_ffmpeg_ctx() {
-    if (pb->buffer) av_free(pb->buffer);
+    if (pb && pb->buffer) av_free(pb->buffer);
     if (pb) avio_context_free(&pb);
     if (ctx) avformat_free_context(ctx);
 }
-- 
2.43.0


From 4098f91a0993f91ddc880f8df0c65d24ad35cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:31 +0000
Subject: [PATCH 034/108] fix: nalu before a four byte start code got an extra
 zero byte

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..f1f2e03 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -192,6 +192,7 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
 
     while (bc.acquire(4) == SUCCESS) {
         size_t nalu_size = 0;
+        size_t zero_size = 0;  // trailing zero bytes after the nalu
 
         if (is_avc) {
             nalu_size = bc.read_bits((nalu_length_size_minus_one + 1) * 8);
@@ -208,6 +209,13 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                 sp_debug("not found next nalu, push full");
             }
             bc.skip_read_bytes(start_pos - bc.pos() + 3);
+
+            // zero bytes before the next start code (00 00 00 01) or at the
+            // end are not part of the nalu, which never ends with 00
+            while (nalu_size > 0 && bc.pos()[nalu_size - 1] == 0) {
+                --nalu_size;
+                ++zero_size;
+            }
         }
 
         if (bc.acquire(nalu_size) != SUCCESS) {
@@ -218,7 +226,7 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
         if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
             return ret;
         }
-        bc.skip_read_bytes(nalu_size);
+        bc.skip_read_bytes(nalu_size + zero_size);
     }
 
     return SUCCESS;
-- 
2.43.0


From 9f661893f70f3e3c2ffd20a513e534712307e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:54 +0000
Subject: [PATCH 035/108] fix: h264 packets mixed up the length size of input
 and output

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index f1f2e03..e71a70d 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -190,7 +190,7 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
     BitContext bc(buf, sz);
     uint8_t* tail = bc.pos() + bc.size();
 
-    while (bc.acquire(4) == SUCCESS) {
+    while (bc.acquire(is_avc ? nalu_length_size_minus_one + 1 : 4) == SUCCESS) {
         size_t nalu_size = 0;
         size_t zero_size = 0;  // trailing zero bytes after the nalu
 
@@ -233,8 +233,9 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
 }
 
 error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
-    H264NAL* sps    = nullptr;
-    H264NAL* pps    = nullptr;
+    const int out_length_size_minus_one = 3;  // of the packets, not the input
+    H264NAL*  sps   = nullptr;
+    H264NAL*  pps   = nullptr;
 
     for (auto& n : ctx->nalu_list) {
         if (n.is_sps()) {
@@ -264,7 +265,6 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         uint8_t frame_type = 0x01 << 4;
         flag |= frame_type;
 
-        nalu_length_size_minus_one = 3;
         auto pkt = AVPacket::create_empty_cap(AVMessageType::AV_MESSAGE_DATA,
                          AV_STREAM_TYPE_VIDEO,
                          AVPacketType{AV_VIDEO_TYPE_SEQUENCE_HEADER},
@@ -279,7 +279,7 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         bc.write_int8(sps->nalu_buf[1]);  // avc profile
         bc.write_int8(0x00);  // avc compatibility
         bc.write_int8(sps->nalu_buf[3]);  // avc level
-        bc.write_int8(nalu_length_size_minus_one);  // avc level
+        bc.write_int8(out_length_size_minus_one);
 
         bc.write_int8(1);  // 1 sps num
         bc.write_int16(sps->nalu_size);
@@ -304,10 +304,6 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
             continue;
         }
 
-        if (nalu_length_size_minus_one < 0) {
-            nalu_length_size_minus_one = 3;
-        }
-
         uint8_t flag = H264;
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
         if (n.is_idr() || n.is_slice()) {
@@ -321,7 +317,7 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         }
 
         // size + nalu start code + nalu
-        size_t pkt_sz = nalu_length_size_minus_one + 1 + 0 + n.nalu_size;
+        size_t pkt_sz = out_length_size_minus_one + 1 + 0 + n.nalu_size;
         auto pkt = AVPacket::create_empty_cap(AVMessageType::AV_MESSAGE_DATA,
                                               AV_STREAM_TYPE_VIDEO,
                                               AVPacketType{AV_VIDEO_TYPE_DATA},
@@ -332,7 +328,7 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
                                               H264);
 
         BitContext bc(pkt->buffer(), pkt->cap());
-        bc.write_bits(n.nalu_size, 8 * (nalu_length_size_minus_one+1));
+        bc.write_bits(n.nalu_size, 8 * (out_length_size_minus_one+1));
         // bc.write_int32(0x01);  // nalu start code
         bc.write_bytes(n.nalu_buf, n.nalu_size);
 
-- 
2.43.0


From 04fb7582ba09d47426263a0fde77501b1414deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 036/108] fix: bit buffer accepted requests of 512 MiB and more

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 365424f..ed11831 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -57,7 +57,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
-- 
2.43.0


From 2d4682b3f1ef75cf7a4ad4d2036e5a1d13d7e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 037/108] fix: avc configuration records were parsed as length
 delimited data

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index e71a70d..120284d 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -146,27 +146,42 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
 
         int sps_num = bc.read_bits(5);
         for (int i = 0; i < sps_num; ++i) {
-            int nalu_size = bc.read_int16() + 2;
+            if ((ret = bc.acquire(2)) != SUCCESS) {
+                sp_error("fail acquire nalu length, ret %d", ret);
+                return ERROR_H264_DECODER;
+            }
+
+            int nalu_size = bc.read_int16();
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
                 return ERROR_H264_DECODER;
             }
 
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
                 return ret;
             }
             bc.skip_read_bytes(nalu_size);
         }
 
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            sp_error("fail acquire pps num, ret %d", ret);
+            return ERROR_H264_DECODER;
+        }
+
         int pps_num = bc.read_int8();
         for (int i = 0; i < pps_num; ++i) {
-            int nalu_size = bc.read_int16() + 2;
+            if ((ret = bc.acquire(2)) != SUCCESS) {
+                sp_error("fail acquire nalu length, ret %d", ret);
+                return ERROR_H264_DECODER;
+            }
+
+            int nalu_size = bc.read_int16();
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
                 return ERROR_H264_DECODER;
             }
 
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
                 return ret;
             }
             bc.skip_read_bytes(nalu_size);
-- 
2.43.0


From f5f3dd1e78f2b5d94dd987b7fb34df213be39d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 038/108] fix: parameter sets too long for the configuration
 record were cut

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 120284d..aaa72c8 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -270,8 +270,10 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         int pkt_sz = 5 + 1 + (sps ? 2 + (0 + sps->nalu_size) : 0) +
                          1 + (pps ? 2 + (0 + pps->nalu_size) : 0);
 
-        if (sps->nalu_size < 4) {
-            sp_error("sps size %lu", sps->nalu_size);
+        if (sps->nalu_size < 4 || sps->nalu_size > 0xffff ||
+            (pps && pps->nalu_size > 0xffff)) {
+            sp_error("sps size %lu, pps size %lu", sps->nalu_size,
+                     pps ? pps->nalu_size : 0);
             return ERROR_H264_ENCODER;
         }
 
-- 
2.43.0


From b78605a5059283d823d1c200b8708d2f0409eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 039/108] fix: h264 configuration lost the profile
 compatibility flags

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index aaa72c8..6330cba 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -294,7 +294,7 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         BitContext bc(pkt->buffer(), pkt->cap());
         bc.write_int8(0x01);  // avc version
         bc.write_int8(sps->nalu_buf[1]);  // avc profile
-        bc.write_int8(0x00);  // avc compatibility
+        bc.write_int8(sps->nalu_buf[2]);  // avc compatibility
         bc.write_int8(sps->nalu_buf[3]);  // avc level
         bc.write_int8(out_length_size_minus_one);
 
-- 
2.43.0


From b421c800a6b6b0d78eff7577e51ac6b9a62cc64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 040/108] fix: empty raw nalu was read when logging its refusal

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 6330cba..389913b 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -384,7 +384,8 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = nalus.append(in_buf, in_size);
 
     if (ret != SUCCESS) {
-        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret, in_buf[0]);
+        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret,
+                 in_size > 0 ? in_buf[0] : 0);
         return ret;
     }
 
-- 
2.43.0


From b8f740a3f9b213bf8ece1d3e9cd45f70dd9b2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 041/108] fix: h264 configuration had no pps when sps and pps
 came apart

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 19 +++++++++++++++++--
 src/avcodec/sps_avcodec_h264_parser.hpp |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 389913b..c92766f 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -251,15 +251,30 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
     const int out_length_size_minus_one = 3;  // of the packets, not the input
     H264NAL*  sps   = nullptr;
     H264NAL*  pps   = nullptr;
+    bool      found = false;
 
     for (auto& n : ctx->nalu_list) {
         if (n.is_sps()) {
-            sps = &n;
+            last_sps.assign((char*) n.nalu_buf, n.nalu_size);
+            found = true;
         } else if (n.is_pps()) {
-            pps = &n;
+            last_pps.assign((char*) n.nalu_buf, n.nalu_size);
+            found = true;
         }
     }
 
+    // sps and pps may come apart (rtp), every configuration carries both
+    H264NAL sps_nal, pps_nal;
+    if (found && !last_sps.empty()) {
+        sps_nal.parse_nal((uint8_t*) &last_sps[0], last_sps.size());
+        sps = &sps_nal;
+    }
+
+    if (found && !last_pps.empty()) {
+        pps_nal.parse_nal((uint8_t*) &last_pps[0], last_pps.size());
+        pps = &pps_nal;
+    }
+
     if (sps) {
         // avc version(8bit), avc profile id(8bit) + avc compatibility(8bit) +
         // avc level(8bit) + reserved(6bit) + nalu_length_size_minus_one (2bit, 2) +
diff --git a/src/avcodec/sps_avcodec_h264_parser.hpp b/src/avcodec/sps_avcodec_h264_parser.hpp
index cef05df..e802972 100644
--- a/src/avcodec/sps_avcodec_h264_parser.hpp
+++ b/src/avcodec/sps_avcodec_h264_parser.hpp
@@ -25,6 +25,7 @@ SOFTWARE.
 #define SPS_AVCODEC_H264_PARSER_HPP
 
 #include <memory>
+#include <string>
 #include <vector>
 
 #include <sps_util_typedef.hpp>
@@ -148,6 +149,8 @@ class NALUParser {
  private:
     bool is_avc;  // default
     int8_t nalu_length_size_minus_one;
+    std::string last_sps;
+    std::string last_pps;
 };
 typedef std::unique_ptr<NALUParser> PNALUParser;
 
-- 
2.43.0


From 9713db02b818fdfd60e86f0904ebe64bd27fffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 042/108] fix: adts headers were assigned instead of compared

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From e86580430873dadf2acdd7e1a7b9aa08f9da5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:29 +0000
Subject: [PATCH 043/108] fix: adts crc was read past the end of the buffer

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..d4e3c22 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac size < 9");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
-- 
2.43.0


From e5172ff1202cabe2e3f849cb35db48a9cb198dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:38 +0000
Subject: [PATCH 044/108] fix: adts frame length was not checked against the
 data

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index d4e3c22..71cc115 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -168,7 +168,8 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             pkts.push_back(pkt);
         }
 
-        if (tmp_header.aac_frame_length <= 0) {
+        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || bc.acquire(buf_size) != SUCCESS) {
             sp_error("aac frame length %d", tmp_header.aac_frame_length);
             return ERROR_AAC_DECODER;
         }
@@ -176,7 +177,6 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
         auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
-        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From b93934e897c5adea952ccd09d1331fe5e06cef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 045/108] fix: ts video frame size was the pes length modulo
 65536

---
 src/avformat/sps_avformat_tsdec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 511659a..d755092 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -156,11 +156,11 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
     std::list<PAVPacket> pkts;
 
     sp_debug("h264 pes stream type %x, size %u", pes->stream_type,
-             pes->pes_packet_length);
+             pes->pes_packets->size());
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 0f80fc35f8179feb1df11c3f6a98eab391b45164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 046/108] fix: ts continuity counter had to start at 0 and
 losses were never recovered from

---
 src/avformat/sps_avformat_ts.cpp | 39 ++++++++++++++++++++++----------
 src/avformat/sps_avformat_ts.hpp |  2 +-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..c9053b2 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -365,7 +365,7 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
     pes_ctx           = std::make_unique<TsPesContext>(ctx, stream_type);
     this->stream_type = stream_type;
     this->pcr_pid     = pcr_pid;
-    this->continuity_counter = 0x0f;
+    this->continuity_counter = 0;
 
     name = get_stream_name(stream_type);
 }
@@ -373,20 +373,35 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
 error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
 
-    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
-        sp_error("[%s] pes packet is null", name);
-        return ERROR_TS_PACKET_DECODE;
+    bool discontinuity = pkt->adaptation_field &&
+            pkt->adaptation_field->flags.discontinuity_indicator;
+
+    if (has_continuity_counter && !discontinuity) {
+        if (pkt->continuity_counter == continuity_counter) {
+            sp_debug("[%s] duplicate packet cc %x", name, continuity_counter);
+            return SUCCESS;
+        }
+
+        if (pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
+            sp_error("[%s] ts pid %x, last cc %x, now %x",
+                     name,
+                     pid,
+                     continuity_counter,
+                     pkt->continuity_counter);
+
+            // packets lost, drop the unit under way and go on with the next
+            pes_ctx->pes_packets.reset();
+        }
     }
 
-    if (pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
-        sp_error("[%s] ts pid %x, last cc %x, now %x",
-                 name,
-                 pid,
-                 continuity_counter,
-                 pkt->continuity_counter);
-        return ERROR_TS_PACKET_CC_CONTINUE;
+    // the first counter may be any
+    has_continuity_counter = true;
+    continuity_counter     = pkt->continuity_counter;
+
+    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
+        sp_warn("[%s] ignore pes without start", name);
+        return SUCCESS;
     }
-    continuity_counter = pkt->continuity_counter;
 
     if (pkt->payload_unit_start_indicator == 0) {
         return pes_ctx->dump(rd, pkt->payload_unit_start_indicator);
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index 0165e0a..8c9fad5 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -455,7 +455,7 @@ class TsPesProgram : public TsProgram {
     int stream_type;
     int pcr_pid;
     uint8_t continuity_counter;
-
+    bool    has_continuity_counter = false;
     const char* name;
 };
 
-- 
2.43.0


From 6702d1df046bbc4b0674cd5db78fad3f6a99705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:33 +0000
Subject: [PATCH 047/108] fix: ts tables were read without their pointer field
 and past the packet

---
 src/avformat/sps_avformat_ts.cpp | 67 +++++++++++++++++++++++++++++---
 src/avformat/sps_avformat_ts.hpp |  7 ++++
 2 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index c9053b2..676a098 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -62,17 +62,74 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 
 // work as ffmpeg parse_section_header
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
-    auto ret = rd.acquire(8);
+    error_t ret = SUCCESS;
+
+    if (pkt->payload_unit_start_indicator) {
+        if ((ret = rd.acquire(1)) != SUCCESS) {
+            sp_error("no enough size ret %d", ret);
+            return ret;
+        }
+
+        pointer_field = rd.read_int8();
 
+        if ((ret = rd.acquire(pointer_field)) != SUCCESS) {
+            sp_error("no enough size %d ret %d", pointer_field, ret);
+            return ret;
+        }
+
+        // the end of the section before
+        if (!section.empty()) {
+            section.append((char*) rd.pos(), pointer_field);
+            ret = decode_sections(pkt);
+        }
+
+        rd.skip_read_bytes(pointer_field);
+        section.clear();
+    } else if (section.empty()) {
+        return SUCCESS;  // its start is missing
+    }
+
+    section.append((char*) rd.pos(), rd.size());
+    rd.skip_read_bytes(rd.size());
+
+    error_t next_ret = decode_sections(pkt);
+    return ret != SUCCESS ? ret : next_ret;
+}
+
+// a section may take several packets, a packet may have several sections
+error_t TsPsiProgram::decode_sections(TsPacket *pkt) {
+    error_t ret = SUCCESS;
+
+    while (section.size() >= 3 && (uint8_t) section[0] != 0xff) {
+        size_t len = 3 + ((((uint8_t) section[1] & 0x0f) << 8) |
+                (uint8_t) section[2]);
+
+        if (section.size() < len) {
+            return ret;
+        }
+
+        BitContext rd((uint8_t*) &section[0], len);
+        error_t section_ret = decode_section(pkt, rd);
+        if (section_ret != SUCCESS) {
+            ret = section_ret;
+        }
+
+        section.erase(0, len);
+    }
+
+    if (section.size() >= 3) {
+        section.clear();  // stuffing
+    }
+    return ret;
+}
+
+error_t TsPsiProgram::decode_section(TsPacket *pkt, BitContext& rd) {
+    auto ret = rd.acquire(8);
     if (ret != SUCCESS) {
         sp_error("no enough size ret %d", ret);
         return ret;
     }
 
-    if (pkt->payload_unit_start_indicator) {
-        pointer_field = rd.read_int8();
-    }
-
     // section header
     table_id = rd.read_int8();
 
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index 8c9fad5..ae336c2 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -27,6 +27,7 @@ SOFTWARE.
 #include <list>
 #include <map>
 #include <memory>
+#include <string>
 
 #include <sps_cache_buffer.hpp>
 #include <sps_io_bits.hpp>
@@ -130,6 +131,12 @@ class TsPsiProgram : public TsProgram {
  protected:
     virtual error_t psi_decode(TsPacket* pkt, BitContext& rd) = 0;
 
+ private:
+    error_t decode_sections(TsPacket* pkt);
+    error_t decode_section(TsPacket* pkt, BitContext& rd);
+
+    std::string section;  // not complete yet
+
  public:
     uint8_t pointer_field;
     /*
-- 
2.43.0


From c92dcf05ac24a75950397b8e350b89d1636716a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 048/108] fix: ts tables with short loops were read past their
 end

---
 src/avformat/sps_avformat_ts.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 676a098..6a601df 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -155,9 +155,14 @@ error_t TsPsiProgram::decode_section(TsPacket *pkt, BitContext& rd) {
             flags1.section_length, flags1.transport_stream_id);
 
     ret = psi_decode(pkt, rd);
-
+    if (ret != SUCCESS) {
+        return ret;
+    }
+    if ((ret = rd.acquire(4)) != SUCCESS) {
+        sp_error("no enough size for crc ret %d", ret);
+        return ret;
+    }
     crc_32 = rd.read_int32();
-
     return ret;
 }
 
@@ -166,9 +171,11 @@ TsSdtProgram::TsSdtProgram(int pid, TsContext *ctx) : TsPsiProgram(pid, ctx) {
 
 error_t TsSdtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
-
+    if ((ret = rd.acquire(1)) != SUCCESS) {
+        sp_error("not enough size ret %d", ret);
+        return ret;
+    }
     reserved_future_use = rd.read_int8();
-
     return ret; // TODO FIXME
 }
 
@@ -190,7 +197,7 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
             return ret;
         }
 
-        while (left_length > 0) {
+        while (left_length >= 4) {
             PmtInfo info;
             info.program_number  = rd.read_int16();
             info.reserved        = rd.read_bits(3);
@@ -257,6 +264,10 @@ error_t TsPmtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     pes_infos.clear();
 
     while (left_length > 0) {
+        if ((ret = rd.acquire(5)) != SUCCESS) {
+            sp_error("not enough size ret %d", ret);
+            return ret;
+        }
         auto info = std::make_shared<PesInfo>();
 
         info->header.stream_type = rd.read_int8();
-- 
2.43.0


From b85a881c0b35f72857010db674f3760ff1f6f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 049/108] fix: ts pat repeats dropped the pmt under way and
 program 0 was taken as a program

---
 src/avformat/sps_avformat_ts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 6a601df..b48d23a 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -210,6 +210,11 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
 
     for (auto& pmt : pmt_infos) {
         sp_debug("pmt pid %d", pmt.program_map_pid);
+        // program 0 is the network pid, pat may send more than once
+        auto old = ctx->get_program(pmt.program_map_pid);
+        if (pmt.program_number == 0 || (old && old->is_section())) {
+            continue;
+        }
         ctx->add_program(pmt.program_map_pid, std::make_shared<TsPmtProgram>(
                 (int) pmt.program_map_pid, ctx
                 ));
-- 
2.43.0


From 6ed69d1c7d54b2961581a52fa7ed579190c53b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 050/108] fix: ts sections of other tables and not yet valid
 ones were applied

---
 src/avformat/sps_avformat_ts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index b48d23a..7aa84ff 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -154,6 +154,12 @@ error_t TsPsiProgram::decode_section(TsPacket *pkt, BitContext& rd) {
             pid, flags1.section_syntax_indicator, flags1.const_value0, flags1.reserved,
             flags1.section_length, flags1.transport_stream_id);
 
+    // other tables may share the pid, next version not valid yet
+    if ((program_type == TS_PROGRAM_PAT && table_id != 0x00) ||
+            (program_type == TS_PROGRAM_PMT && table_id != 0x02) ||
+            !flags2.current_next_indicator) {
+        return SUCCESS;
+    }
     ret = psi_decode(pkt, rd);
     if (ret != SUCCESS) {
         return ret;
-- 
2.43.0


From 23e888641601df248eb2eb0698e66d37aa7971ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:04 +0000
Subject: [PATCH 051/108] fix: ts table packets without payload were parsed

---
 src/avformat/sps_avformat_ts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 7aa84ff..a072e21 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -858,7 +858,7 @@ error_t TsContext::decode(uint8_t* p, size_t len) {
     }
 
     // has no payload
-    if ((pkt.adaptation_filed_control & 0x01) == 0 && !program->is_section()) {
+    if ((pkt.adaptation_filed_control & 0x01) == 0) {
         return ret;
     }
 
-- 
2.43.0


From 1a6aa61154a8be5101f1d74394b9187e7dc404fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:32 +0000
Subject: [PATCH 052/108] fix: ts adaptation field flags were read past the
 field

---
 src/avformat/sps_avformat_ts.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index a072e21..dc065b5 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -929,6 +929,16 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
     flags.transport_private_data_flag = rd.read_bits(1);
     flags.adaptation_field_extension_flag = rd.read_bits(1);
 
+    // fixed size fields shall be within the adaptation field
+    int fixed_length = 1 + (flags.PCR_flag ? 6 : 0) + (flags.OPCR_flag ? 6 : 0)
+            + (flags.splicing_point_flag ? 1 : 0)
+            + (flags.adaptation_field_extension_flag ? 1 : 0);
+    if (fixed_length > adaption_field_length) {
+        sp_error("adaption_field_length %d < %d", adaption_field_length,
+                 fixed_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
     if (flags.PCR_flag) {
         pcr.program_clock_reference_base = rd.read_bits(33);
         pcr.pcr_reserved = rd.read_bits(6);
@@ -946,9 +956,11 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
 
     if (flags.adaptation_field_extension_flag) {
         transport_private_data_length = rd.read_int8();
-
-        if ((ret = rd.acquire(transport_private_data_length)) != SUCCESS) {
-            return ret;
+        if (fixed_length + transport_private_data_length >
+                adaption_field_length) {
+            sp_error("adaption_field_length %d < %d", adaption_field_length,
+                     fixed_length + transport_private_data_length);
+            return ERROR_TS_PACKET_DECODE;
         }
 
         transport_private_data = std::make_unique<uint8_t[]>(
-- 
2.43.0


From a766e3509005674fc9eee345cf33541ff0ebed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 053/108] fix: rtp header extension length was taken as bytes

---
 src/avformat/sps_avformat_rtp.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..40cfd24 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // length counts 32-bit words
+    uint32_t extension_size = (uint32_t) extension_info.length * 4;
+
+    if ((ret = bc.acquire(extension_size)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
-                 extension_info.length);
+                 extension_size);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_size);
+    bc.read_bytes(extension_info.header_extension.get(), extension_size);
 
     return ret;
 }
-- 
2.43.0


From 0271cb0f66baf7115404dde92fd97fdbde747520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 054/108] fix: rtp padding was taken as payload

---
 src/avformat/sps_avformat_rtpdec.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..508c9f9 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -55,6 +55,17 @@ error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkt
         return ERROR_RTP_PAYLOAD_TYPE;
     }
 
+    // the last byte of the padding is its length
+    if (rtp_header.fix_header.padding) {
+        uint8_t padding = bc.size() > 0 ? bc.pos()[bc.size() - 1] : 0;
+        if (padding == 0 || padding > bc.size()) {
+            sp_error("rtp padding %d, size %lu", padding, bc.size());
+            return ERROR_RTP_NOT_SUPPORT;
+        }
+        BitContext payload(bc.pos(), bc.size() - padding);
+        return decode(rtp_header, payload, pkts);
+    }
+
     return decode(rtp_header, bc, pkts);
 }
 
-- 
2.43.0


From 17406a13c4597d4766d0b0af5d2c67f354614a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 055/108] fix: rtp aac codec was refused

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 508c9f9..7354cbc 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -88,6 +88,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From c019bbf19bdf886f561183ea9f2431eb7d6f8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 056/108] fix: rtp transport stream with the marker set was not
 recognised

---
 src/avformat/sps_avformat_rtpdec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 7354cbc..89b0861 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -139,7 +139,8 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        // the first bit is the marker
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From 6800a04301e50d1302536c273609039e21bc0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 057/108] fix: rtp fragments were read and stored past their
 buffers

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..e9a6ab9 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -161,6 +161,10 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     }
 
     if (fu.indicator.tp == FU_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            sp_error("[rtp@h264] fu-b no don ret %d", ret);
+            return ret;
+        }
         bc.skip_read_bytes(2); // don
     }
     // start nalu
@@ -194,6 +198,11 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] nalu too large %u", pkt->size());
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
-- 
2.43.0


From 1613b77c058e5f17a0886415939236e0d16cadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 058/108] fix: rtp lost fragments broke the units after them

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 28 +++++++++----------
 .../sps_avformat_rtpdec_h264_hevc.hpp         |  1 +
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index e9a6ab9..7f679a3 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -172,17 +172,9 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
         if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
+            sp_warn("[rtp@h264] fu not ended, drop %u", pkt->size());
         }
+
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
         uint8_t nal_header = (int32_t) (fu.indicator.f << 7) | (fu.indicator.nri << 5) | fu.header.tp;
@@ -212,16 +204,14 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu ending");
 
         NaluRtpDecoder dc;
-        BitContext nbc(pkt->buffer(), pkt->size());
+        // free the pkt
+        auto nalu = std::move(pkt);
+        BitContext nbc(nalu->buffer(), nalu->size());
         ret = dc.decode(tp, header, nbc, pkts);
-
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
@@ -278,6 +268,14 @@ error_t H264RtpDecoder::decode(RtpPayloadHeader& header, BitContext& bc, std::li
     }
 
     uint8_t nalu_type = bc.pos()[0] & 0x1f;
+    // some lost, the nalu under way is not complete
+    if (pkt && header.fix_header.sequence_num != (uint16_t) (rtp_seq + 1)) {
+        sp_warn("[rtp@h264] lost from %u to %u", rtp_seq,
+                (uint32_t) header.fix_header.sequence_num);
+        pkt.reset();
+    }
+    rtp_seq = header.fix_header.sequence_num;
+
     auto dc = create_decoder(bc, nalu_type);
 
     if (!dc) {
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aa4cfd4..798f7c1 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -150,6 +150,7 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
  private:
     PCharBuffer pkt;
     int64_t rtp_timestamp;
+    uint16_t rtp_seq = 0;
 };
 
 }  // namespace sps
-- 
2.43.0


From 459fbfd3bb5fbcae0932a2fed110411639ccfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 059/108] fix: rtp aggregated units were cut at wrong places

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 7f679a3..84cad80 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,23 +90,31 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
-    if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
+    // stap nal header, don
+    int head_len = tp == STAP_B ? 1 + 2 : 1;
+    if ((ret = bc.acquire(head_len)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(head_len);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
 
+        int size = bc.read_int16();
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
-- 
2.43.0


From c4a0332e109f11d41731da55a7e68d2b31a43310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 060/108] fix: rtp multi-time aggregated units were cut at
 wrong places

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 84cad80..ccf0a4a 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -126,18 +126,21 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
+    // mtap nal header, donb decoding order number base
+    if ((ret = bc.acquire(1 + 2)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(1 + 2);
+
 
     while (bc.size() > 0) {
         //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
+        auto nalu_size = bc.read_int16();
         auto nalu_dond = bc.read_int8();
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
@@ -146,11 +149,16 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        RtpPayloadHeader nalu_header;
+        nalu_header.fix_header.timestamp =
+                header.fix_header.timestamp + nalu_ts_offset;
+        BitContext nbc(bc.pos(), nalu_size);
+        ret = dc.decode(tp, nalu_header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(nalu_size);
     }
     return ret;
 }
-- 
2.43.0


From 7b0c2174d8dcd67216dab9fd14e1fc7dd1ceac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 061/108] fix: rtp parameter sets were forgotten after each
 unit

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 20 +++++++++----------
 .../sps_avformat_rtpdec_h264_hevc.hpp         | 20 ++++++++++++++++++-
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index ccf0a4a..f135627 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -74,8 +74,7 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
      * objectionable.
      */
     AVCodecContext ctx(get_time() * 90, header.fix_header.timestamp, 90);
-    H264AVCodecParser h264_codec;
-    auto ret = h264_codec.encode_raw_nalu(&ctx, bc.pos(), bc.size(), pkts);
+    auto ret = parser.encode_raw_nalu(&ctx, bc.pos(), bc.size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("[rtp@h264] nalu-decode ret %d", ret);
@@ -107,7 +106,7 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         BitContext nbc(bc.pos(), size);
         ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
@@ -148,7 +147,7 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         RtpPayloadHeader nalu_header;
         nalu_header.fix_header.timestamp =
                 header.fix_header.timestamp + nalu_ts_offset;
@@ -163,7 +162,8 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, int64_t ts) : pkt(pkt) {
+FuRtpDecoder::FuRtpDecoder(H264AVCodecParser& parser, PCharBuffer &pkt, int64_t ts) :
+        IRtpH264Decoder(parser), pkt(pkt) {
     this->pre_rtp_timestamp = ts;
 }
 
@@ -219,7 +219,7 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     if (fu.is_end()) {
         sp_debug("fu ending");
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         // free the pkt
         auto nalu = std::move(pkt);
         BitContext nbc(nalu->buffer(), nalu->size());
@@ -242,21 +242,21 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
      */
     if (ZERO_RESERVED < nal_unit_type
         && nal_unit_type < STAP_A) {
-        return std::make_shared<NaluRtpDecoder>();
+        return std::make_shared<NaluRtpDecoder>(parser);
     }
 
     switch (nal_unit_type) {
         case STAP_B:
         case STAP_A:
-            return  std::make_shared<StapRtpDecoder>();
+            return  std::make_shared<StapRtpDecoder>(parser);
             break;
         case MTAP16:
         case MTAP24:
-            return  std::make_shared<MtapRtpDecoder>();
+            return  std::make_shared<MtapRtpDecoder>(parser);
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(pkt, rtp_timestamp);
+            return  std::make_shared<FuRtpDecoder>(parser, pkt, rtp_timestamp);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index 798f7c1..46b6174 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -100,14 +100,24 @@ class FuDecoder {
 
 // h264 rtp decoder
 class IRtpH264Decoder {
+ public:
+    explicit IRtpH264Decoder(H264AVCodecParser& parser) : parser(parser) {}
+    virtual ~IRtpH264Decoder() = default;
+
  public:
     virtual error_t decode(int tp, RtpPayloadHeader& header,
             BitContext& bc, std::list<PAVPacket>& pkts) = 0;
+
+ protected:
+    H264AVCodecParser& parser;  // keeps sps, pps
 };
 typedef std::shared_ptr<IRtpH264Decoder> PIRtpH264Decoder;
 
 // raw nalu decode
 class NaluRtpDecoder : public IRtpH264Decoder {
+ public:
+    using IRtpH264Decoder::IRtpH264Decoder;
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
             BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -115,6 +125,9 @@ class NaluRtpDecoder : public IRtpH264Decoder {
 
 // stap-a/b decode
 class StapRtpDecoder : public IRtpH264Decoder {
+ public:
+    using IRtpH264Decoder::IRtpH264Decoder;
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -122,6 +135,9 @@ class StapRtpDecoder : public IRtpH264Decoder {
 
 // mtap-a/b decode
 class MtapRtpDecoder : public IRtpH264Decoder {
+ public:
+    using IRtpH264Decoder::IRtpH264Decoder;
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -130,7 +146,8 @@ class MtapRtpDecoder : public IRtpH264Decoder {
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(PCharBuffer& pkt, int64_t rtp_timestamp);
+    FuRtpDecoder(H264AVCodecParser& parser, PCharBuffer& pkt,
+                 int64_t rtp_timestamp);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -151,6 +168,7 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
     PCharBuffer pkt;
     int64_t rtp_timestamp;
     uint16_t rtp_seq = 0;
+    H264AVCodecParser parser;
 };
 
 }  // namespace sps
-- 
2.43.0


From 3da99b6b12feae45baa3e8934d5ea423be7a924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 062/108] fix: rtcp source descriptions were stored outside
 their list

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 40 +++++++++++++++++------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..027d11f 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -128,23 +128,43 @@ std::string RtcpRRDecoder::debug() {
 }
 
 error_t RtcpSDES::decode(BitContext &bc) {
-    error_t ret = bc.acquire(6);
+    error_t ret = bc.acquire(4);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    size_t left = bc.size();
     ssrc = bc.read_int32();
-    item_type = bc.read_int8();
-    item_length = bc.read_int8();
 
-    if ((ret = bc.acquire(item_length)) != SUCCESS) {
-        return ret;
-    }
+    // items end with a zero, then padded to 4 bytes
+    while ((ret = bc.acquire(1)) == SUCCESS) {
+        uint8_t type = bc.read_int8();
+
+        if (type == 0) {
+            size_t padding = (4 - (left - bc.size()) % 4) % 4;
+            if ((ret = bc.acquire(padding)) != SUCCESS) {
+                return ret;
+            }
+            bc.skip_read_bytes(padding);
+            return ret;
+        }
+
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            return ret;
+        }
 
-    item_value = CharBuffer::create_buf(item_length);
-    item_value->append(bc.pos(), item_length);
-    bc.skip_read_bytes(item_length);
+        item_type   = type;
+        item_length = bc.read_int8();
+
+        if ((ret = bc.acquire(item_length)) != SUCCESS) {
+            return ret;
+        }
+
+        item_value = CharBuffer::create_buf(item_length);
+        item_value->append(bc.pos(), item_length);
+        bc.skip_read_bytes(item_length);
+    }
 
     return ret;
 }
@@ -155,7 +175,7 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
+        auto it = std::prev(sdes.end());
 
         if ((ret = it->decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
-- 
2.43.0


From 72d6975865f0238a9df66dce556698d157fe81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:00 +0000
Subject: [PATCH 063/108] fix: rtp datagrams below 12 bytes were joined with
 the next one

---
 src/avformat/sps_avformat_rtpdec.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 89b0861..134a978 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -124,13 +124,19 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
         }
 
         RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        // one datagram, rtcp may have less than 12 bytes
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        if (len < 2) {
+            continue;
+        }
+
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-- 
2.43.0


From 0e9664e47d1d6b692bca4872427791e560d88504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 064/108] fix: rtmp publish type was ignored

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index ff78553..43edea9 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -401,7 +401,7 @@ error_t PublishRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ret;
     }
 
-    if (amf_object.o_num > 5) {
+    if (amf_object.o_num > 4) {
         AVal stream;
         if ((ret = get_amf_prop(amf_object.o_props + 4,
                 &stream)) != SUCCESS) {
-- 
2.43.0


From 6e2aeaec95a00c8686c8b1d78ba3b41c52e8e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 065/108] fix: rtmp log of a bad message read past it

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 43edea9..d7f18a8 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -194,7 +194,8 @@ error_t AmfRtmpPacket::decode(WrapRtmpPacket &pkt) {
         ret = ERROR_RTMP_AMF_DECODE;
         sp_error("decode amf failed type: %d,  %.*s, %X, %X",
                  packet.m_packetType, packet.m_nBodySize, packet.m_body,
-                 *packet.m_body, *(packet.m_body + 1));
+                 packet.m_nBodySize > 0 ? packet.m_body[0] : 0,
+                 packet.m_nBodySize > 1 ? packet.m_body[1] : 0);
         return ret;
     }
 
-- 
2.43.0


From a1aabdbf446157ea3a63a043d34d2a14e98edd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 066/108] fix: rtmp connect without an object used memory that
 was never set

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index d7f18a8..5cfb03f 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -38,19 +38,20 @@ namespace sps {
 
 
 error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
     if (prop->p_type != AMF_OBJECT && prop->p_type != AMF_NULL) {
         return ERROR_RTMP_AMF_PROP_TYPE;
     }
-    *obj = &prop->p_vu.p_object;
+    // null has no object, p_vu is not set
+    *obj = prop->p_type == AMF_NULL ? nullptr : &prop->p_vu.p_object;
     return SUCCESS;
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -62,7 +63,7 @@ error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, double *num) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -335,6 +336,10 @@ error_t ConnectRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ERROR_RTMP_AMF_CMD_CONVERT;
     }
 
+    if (!object) {
+        sp_error("amf connect has no object");
+        return ERROR_RTMP_AMF_CMD_CONVERT;
+    }
     if ((ret = get_amf_string(object, "app", &app)) != SUCCESS) {
         sp_error("amf connect has empty app");
         return ret;
-- 
2.43.0


From ae3dde1195dccc1c01fffcf49c1e9207595f2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 067/108] fix: rtmp amf3 command messages were not understood

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 5cfb03f..6eb20a1 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -186,7 +186,9 @@ error_t AmfRtmpPacket::decode(WrapRtmpPacket &pkt) {
     sp_debug("amf type: %d", pkt.packet.m_packetType);
 
     if (RtmpPacketDecoder::is_amf3_command(pkt.packet.m_packetType)) {
-        ret = AMF3_Decode(&amf_object, packet.m_body, packet.m_nBodySize, 0);
+        // as librtmp, one byte of format and then amf0 values
+        ret = packet.m_nBodySize < 1 ? -1 : AMF_Decode(&amf_object,
+                packet.m_body + 1, packet.m_nBodySize - 1, 0);
     } else {
         ret = AMF_Decode(&amf_object, packet.m_body, packet.m_nBodySize, 0);
     }
-- 
2.43.0


From 5ccebd4fee00511cb93dd79bd7e4b7fe3666cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 068/108] fix: TLS exact-length reads place every piece after
 the previous one

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..891bc2d 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -399,7 +399,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((char*) buf + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From 4d9f8d47fc6b746aa82155bb55fc60d86d71a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 069/108] fix: SRT exact-length reads place every piece after
 the previous one

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..ec1a698 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -689,7 +689,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read((char*) buf + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From 1d1fd08d75263e380d96b46e5a24169ff3f0b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:31 +0000
Subject: [PATCH 070/108] fix: the UDP server tells its clients apart by their
 address

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 927 ++++++++++++++--------------
 1 file changed, 466 insertions(+), 461 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..ecc3133 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,462 +1,467 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
-    }
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = 0;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    peer_addr.sin_port          =   htons(peer_port);
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        char ip[INET_ADDRSTRLEN];
+        if (inet_ntop(AF_INET, &pi->ipi_addr, ip, sizeof(ip)) != nullptr) {
+            dst_ip = ip;
+        }
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = 0;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From 52e5bdc5c591df22c347c418025da9c0ea809cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 071/108] fix: Socket::read_fully reports how many bytes it
 read

---
 src/io/sps_io_socket.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index 655e1ca..f61b179 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -81,14 +81,17 @@ error_t Socket::read_fully(void* buf, size_t size, ssize_t* nread) {
     ssize_t n   = 0;
     size_t  nr  = 0;
 
-    do {
+    while (n < (ssize_t) size) {
         if ((ret = this->read((char*)buf+n, size-n, nr)) != SUCCESS) {
-            return ret;
+            break;
         }
-
         n += nr;
         nr = 0;
-    } while (n < size);
+    }
+
+    if (nread) {
+        *nread = n;
+    }
 
     return ret;
 }
-- 
2.43.0


From 27c63f75b57ae95bde061fc2f57a18bb89b3ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 072/108] fix: UDP sockets send to the peer address they were
 given

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index ecc3133..4c7ffdf 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -110,7 +110,8 @@ StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port,
     this->connected = false;
 
     peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    peer_addr.sin_addr.s_addr   =   peer_ip.empty() ? htonl(INADDR_ANY) :
+                                    inet_addr(dns_resolve(peer_ip).c_str());
     peer_addr.sin_port          =   htons(peer_port);
 
     int opt = 1;
-- 
2.43.0


From 6df4af9ae5d0e54d60966c76b33a86d7c917971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 073/108] fix: the UDP server receives datagrams of any size

---
 src/sys/st/io/sps_sys_st_io_udp.hpp | 408 ++++++++++++++--------------
 1 file changed, 204 insertions(+), 204 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.hpp b/src/sys/st/io/sps_sys_st_io_udp.hpp
index 9bb622b..563cfaa 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.hpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.hpp
@@ -1,204 +1,204 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-#ifndef SPS_SYS_ST_IO_UDP_HPP
-#define SPS_SYS_ST_IO_UDP_HPP
-
-#include <sps_io_socket.hpp>
-#include <sps_sys_co.hpp>
-#include <sps_sys_sync.hpp>
-#include <sps_sys_st_io_tcp.hpp>
-#include <arpa/inet.h>
-#include <netinet/in.h>
-#include <netdb.h>
-#include <sys/socket.h>
-
-namespace sps {
-
-class UdpFd;
-typedef std::shared_ptr<UdpFd> PUdpFd;
-class UdpFd {
- public:
-    static error_t create_fd(PUdpFd& fd);
-    static error_t create_fd(int bind_port, PUdpFd& fd,
-                             bool reuse_addr = false,
-                             bool reuse_port = false);
-
- public:
-    explicit UdpFd(st_netfd_t udp_fd);
-    ~UdpFd();
-
-    st_netfd_t get_fd();
-
- private:
-    st_netfd_t udp_fd;
-};
-
-class StUdpClientSocket : public IReaderWriter {
- public:
-    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
-
- public:
-    // reader
-    void    set_recv_timeout(utime_t tm) override;
-    utime_t get_recv_timeout() override;
-
-    error_t connect();
-    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
-
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
-                 std::string& dst_ip, int& dst_port);
-
- public:
-    // writer
-    void set_send_timeout(utime_t tm) override;
-    utime_t get_send_timeout() override;
-    error_t write(void* buf, size_t size) override;
-
- private:
-    utime_t rtm;
-    utime_t stm;
-    // The recv/send data in bytes
-    int64_t rbytes;
-    int64_t sbytes;
-    // The underlayer st fd.
-    PUdpFd fd;
-
-    // peer address
-    std::string peer_ip;
-    int         peer_port;
-    sockaddr_in peer_addr;
-    bool        connected;
-
-    char control_buf[0x100];
-};
-
-typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
-
-class UdpBuffer {
- public:
-    UdpBuffer(uint8_t* buf, size_t len);
-    ~UdpBuffer();
-
- private:
-    UdpBuffer(const UdpBuffer& buffer);
-
- public:
-    uint8_t* buffer();
-    size_t   size();
-
- private:
-    uint8_t* buf;
-    size_t   len;
-};
-
-typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
-
-/**
- * udp session wrap
- * read from udp server
- * sent by udp fd
- */
-class StUdpSessionClientSocket : public StUdpClientSocket {
- public:
-    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
-    ~StUdpSessionClientSocket() override;
-
- public:
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    error_t push(uint8_t* buf, size_t len);
-
- private:
-    std::list<PUdpBuffer> buffer_lists;
-    PCondition cond;
-    int buffer_max_list_size;
-    int buffer_list_size;
-};
-typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
-
-class IUdpSocketManager;
-class UdpSessionSocket : public Socket {
- public:
-    UdpSessionSocket(IUdpSocketManager* manger);
-    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
-                     const std::string& dip, int dp);
-    ~UdpSessionSocket() override;
-
- private:
-    IUdpSocketManager* manager;
-};
-
-class IUdpSocketManager {
- public:
-    virtual void on_destroy(UdpSessionSocket* session) = 0;
-};
-
-class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
-                          public std::enable_shared_from_this<StUdpServerSocket> {
- public:
-    StUdpServerSocket() = default;
-    ~StUdpServerSocket();
-
- public:
-    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
-    PSocket accept() override;
-    error_t handler() override;
-
- public:
-    void on_destroy(UdpSessionSocket* session) override;
-
- private:
-    std::string generate_key(const std::string& cip, int cport,
-                             const std::string& dip, int dport);
-    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
-                                               std::string& sip, int sport,
-                                               bool &is_new);
-    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
-
- private:
-    bool     running     = false;
-    uint8_t* buffer      = nullptr;
-    int      buffer_size = 4096;
-    std::string ip;
-    int         port;
-    bool        reuse_port;
-    PUdpFd      server_fd;
-    PStUdpClientSocket server_socket;
-
- private:
-    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
-    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
-    PCondition new_cond;
-};
-
-}  // namespace sps
-
-#endif  // SPS_SYS_ST_IO_UDP_HPP
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+#ifndef SPS_SYS_ST_IO_UDP_HPP
+#define SPS_SYS_ST_IO_UDP_HPP
+
+#include <sps_io_socket.hpp>
+#include <sps_sys_co.hpp>
+#include <sps_sys_sync.hpp>
+#include <sps_sys_st_io_tcp.hpp>
+#include <arpa/inet.h>
+#include <netinet/in.h>
+#include <netdb.h>
+#include <sys/socket.h>
+
+namespace sps {
+
+class UdpFd;
+typedef std::shared_ptr<UdpFd> PUdpFd;
+class UdpFd {
+ public:
+    static error_t create_fd(PUdpFd& fd);
+    static error_t create_fd(int bind_port, PUdpFd& fd,
+                             bool reuse_addr = false,
+                             bool reuse_port = false);
+
+ public:
+    explicit UdpFd(st_netfd_t udp_fd);
+    ~UdpFd();
+
+    st_netfd_t get_fd();
+
+ private:
+    st_netfd_t udp_fd;
+};
+
+class StUdpClientSocket : public IReaderWriter {
+ public:
+    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
+
+ public:
+    // reader
+    void    set_recv_timeout(utime_t tm) override;
+    utime_t get_recv_timeout() override;
+
+    error_t connect();
+    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
+
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
+                 std::string& dst_ip, int& dst_port);
+
+ public:
+    // writer
+    void set_send_timeout(utime_t tm) override;
+    utime_t get_send_timeout() override;
+    error_t write(void* buf, size_t size) override;
+
+ private:
+    utime_t rtm;
+    utime_t stm;
+    // The recv/send data in bytes
+    int64_t rbytes;
+    int64_t sbytes;
+    // The underlayer st fd.
+    PUdpFd fd;
+
+    // peer address
+    std::string peer_ip;
+    int         peer_port;
+    sockaddr_in peer_addr;
+    bool        connected;
+
+    char control_buf[0x100];
+};
+
+typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
+
+class UdpBuffer {
+ public:
+    UdpBuffer(uint8_t* buf, size_t len);
+    ~UdpBuffer();
+
+ private:
+    UdpBuffer(const UdpBuffer& buffer);
+
+ public:
+    uint8_t* buffer();
+    size_t   size();
+
+ private:
+    uint8_t* buf;
+    size_t   len;
+};
+
+typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
+
+/**
+ * udp session wrap
+ * read from udp server
+ * sent by udp fd
+ */
+class StUdpSessionClientSocket : public StUdpClientSocket {
+ public:
+    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
+    ~StUdpSessionClientSocket() override;
+
+ public:
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    error_t push(uint8_t* buf, size_t len);
+
+ private:
+    std::list<PUdpBuffer> buffer_lists;
+    PCondition cond;
+    int buffer_max_list_size;
+    int buffer_list_size;
+};
+typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
+
+class IUdpSocketManager;
+class UdpSessionSocket : public Socket {
+ public:
+    UdpSessionSocket(IUdpSocketManager* manger);
+    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
+                     const std::string& dip, int dp);
+    ~UdpSessionSocket() override;
+
+ private:
+    IUdpSocketManager* manager;
+};
+
+class IUdpSocketManager {
+ public:
+    virtual void on_destroy(UdpSessionSocket* session) = 0;
+};
+
+class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
+                          public std::enable_shared_from_this<StUdpServerSocket> {
+ public:
+    StUdpServerSocket() = default;
+    ~StUdpServerSocket();
+
+ public:
+    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
+    PSocket accept() override;
+    error_t handler() override;
+
+ public:
+    void on_destroy(UdpSessionSocket* session) override;
+
+ private:
+    std::string generate_key(const std::string& cip, int cport,
+                             const std::string& dip, int dport);
+    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
+                                               std::string& sip, int sport,
+                                               bool &is_new);
+    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
+
+ private:
+    bool     running     = false;
+    uint8_t* buffer      = nullptr;
+    int      buffer_size = 65536;
+    std::string ip;
+    int         port;
+    bool        reuse_port;
+    PUdpFd      server_fd;
+    PStUdpClientSocket server_socket;
+
+ private:
+    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
+    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
+    PCondition new_cond;
+};
+
+}  // namespace sps
+
+#endif  // SPS_SYS_ST_IO_UDP_HPP
-- 
2.43.0


From 9c129d5ea8a7fce62422d95efb2694c8eac220a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 074/108] fix: a failed accept no longer dereferences a null
 descriptor

---
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..c1f3fca 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -356,6 +356,11 @@ PSocket StTcpServerSocket::accept() {
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
 
+    if (cfd == nullptr) {
+        sp_error("fail accept, errno %d", errno);
+        return nullptr;
+    }
+
     std::string cip;
     int         cport = 0;
     addr2string(&addr, cip, cport);
-- 
2.43.0


From 710e046d74e273500a20c10f0056246a294c12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:55 +0000
Subject: [PATCH 075/108] fix: the server survives a failed accept

---
 src/module/server/sps_server.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..c795112 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -82,6 +82,14 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            // out of descriptors or aborted by peer, let the others go on
+            sp_error("failed accept");
+            st_usleep(10 * 1000);
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
-- 
2.43.0


From 67e126d86e93cd83cec31318a35621ab27794174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:58 +0000
Subject: [PATCH 076/108] fix: the HTTP client's request carries each header
 once, and a valid Accept

---
 src/io/url/sps_io_url_http.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 51e4939..9274140 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -23,6 +23,8 @@ SOFTWARE.
 
 #include <sps_io_url_http.hpp>
 
+#include <strings.h>
+
 #include <sps_http_parser.hpp>
 #include <sps_io_socket.hpp>
 #include <sps_log.hpp>
@@ -42,14 +44,29 @@ std::string http_request(const std::string& method, const std::string& url,
     ss  << method << " " << url << " HTTP/1.1" << CRCN
         << "Host: " << host << CRCN;
 
+    bool has_accept = false;
+    bool has_length = false;
+
     if (headers) {
-        for (auto& h : *headers)
-            if (h.key != "Host")
-                ss << h.key << ": " << h.value << CRCN;
+        for (auto& h : *headers) {
+            if (strcasecmp(h.key.c_str(), "Host") == 0) {
+                continue;
+            }
+
+            has_accept |= strcasecmp(h.key.c_str(), "Accept") == 0;
+            has_length |= strcasecmp(h.key.c_str(), "Content-Length") == 0 ||
+                          strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0;
+            ss << h.key << ": " << h.value << CRCN;
+        }
     }
 
-    ss << "Accept: */" << CRCN;
-    ss << "Content-Length: " << data.size() << CRCN;
+    if (!has_accept) {
+        ss << "Accept: */*" << CRCN;
+    }
+
+    if (!has_length) {
+        ss << "Content-Length: " << data.size() << CRCN;
+    }
     ss << CRCN;
 
     return ss.str();
-- 
2.43.0


From f49fc6eecc6fcc0c41fda3dbde2ebfa052355955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:58 +0000
Subject: [PATCH 077/108] fix: the HTTP client ends responses that have no body
 at once

---
 src/io/url/sps_io_url_http.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 9274140..6e03191 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -103,10 +103,15 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
         sp_error("failed parser %d %s:%d, %s.", ret,
                  socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
-        return ret;
+        return ret == SUCCESS ? ERROR_HTTP_HEADER_PARSE : ret;
     }
 
-    PHttpResponse http_rsp = rsp = parser.get_response();
+    rsp = parser.get_response();
+
+    // responses without a body, whatever their headers say
+    is_eof = url->method == "HEAD" || rsp->status_code / 100 == 1 ||
+             rsp->status_code == 204 || rsp->status_code == 304 ||
+             (!rsp->chunked && rsp->content_length == 0);
 
     init(socket, ip, url->get_port(), "", -1);
 
-- 
2.43.0


From 95550372c26e366990dff3161883829a737f16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:02 +0000
Subject: [PATCH 078/108] fix: empty lines alone are not an HTTP header

---
 src/module/http/sps_http_parser.cpp | 12 +++++++++++-
 src/module/http/sps_http_parser.hpp |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index b3f1775..1961816 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -184,6 +184,7 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
 
 int HttpParser::parse_header(const char *b, int len, HttpType ht) {
     http_parser_init(&ctx->http, (http_parser_type) ht);
+    ctx->headers_complete = false;
 
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
@@ -197,6 +198,12 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
         return -1;
     }
 
+    // such as empty lines only
+    if (!ctx->headers_complete) {
+        sp_error("parse http header incomplete %.*s", len, b);
+        return -1;
+    }
+
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
         ctx->parse_request();
     } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
@@ -260,7 +267,10 @@ int HttpParser::on_header_value(http_parser* hp, const char *at,
     return SUCCESS;
 }
 
-int HttpParser::on_headers_complete(http_parser* ) {
+int HttpParser::on_headers_complete(http_parser* hp) {
+    auto p = static_cast<HttpParser *>(hp->data);
+
+    p->ctx->headers_complete = true;
     return SUCCESS;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 9ca5d28..8765a1c 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -70,6 +70,7 @@ class HttpParserContext {
     std::list<RequestHeader> headers;
     std::string              url;
     std::string              body;
+    bool                     headers_complete = false;
 
  public:
     // http parse的结果
-- 
2.43.0


From 21dcc4adef6c4f2da274fdbeb47823a5f39a5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:09 +0000
Subject: [PATCH 079/108] fix: the proxy answers 502 when the upstream cannot
 be used

---
 src/module/http/sps_http_proxy_phase_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index 153a53f..df8e800 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -62,6 +62,9 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     if ((ret = url_protocol->open(proxy_req, DEFAULT)) != SUCCESS) {
         sp_error("Failed open url protocol %s. %s:%d, ret:%d.",
                  proxy_req->url.c_str(), proxy_req->ip.c_str(), proxy_req->port, ret);
+        HttpResponseSocket bad_gateway(c.socket, ctx.req->ip, ctx.req->port);
+        bad_gateway.init(502, nullptr, 0, false);
+        bad_gateway.write_header();
         return ret;
     }
 
-- 
2.43.0


From 6cc21129c84f09ec6f976b8821cc3d891f5551a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:09 +0000
Subject: [PATCH 080/108] fix: the proxy sends the request body to the upstream

---
 src/io/url/sps_io_url.hpp                     |  2 ++
 src/io/url/sps_io_url_http.cpp                | 36 +++++++++++++++++++
 .../http/sps_http_proxy_phase_handler.cpp     |  4 +++
 3 files changed, 42 insertions(+)

diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index a5792f9..b800201 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include <memory>
 #include <string>
 
+#include <sps_io.hpp>
 #include <sps_util_typedef.hpp>
 
 namespace sps {
@@ -101,6 +102,7 @@ class RequestUrl {
  public:
     utime_t tm = 10 * 1000 * 1000;
     std::string ip;
+    PIReader    body;   // request body to send, framed as the headers say
 };
 
 typedef std::shared_ptr<RequestUrl> PRequestUrl;
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 6e03191..827af96 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -72,6 +72,36 @@ std::string http_request(const std::string& method, const std::string& url,
     return ss.str();
 }
 
+static error_t http_request_body(PSocket& socket, PRequestUrl& url) {
+    error_t ret     = SUCCESS;
+    bool    chunked = url->is_chunked();
+    size_t  nr      = 0;
+    char    buf[4096];
+
+    while ((ret = url->body->read(buf, sizeof(buf), nr)) == SUCCESS) {
+        if (nr == 0) {
+            continue;
+        }
+
+        std::string data(buf, nr);
+        if (chunked) {
+            std::stringstream ss;
+            ss << std::hex << nr << CRCN << data << CRCN;
+            data = ss.str();
+        }
+
+        if ((ret = socket->write((char*) data.c_str(), data.size())) != SUCCESS) {
+            return ret;
+        }
+    }
+
+    if (ret != ERROR_HTTP_RES_EOF) {
+        return ret;
+    }
+
+    return chunked ? socket->write((char*) "0\r\n\r\n", 5) : SUCCESS;
+}
+
 // TODO(byrcoder): FIX ME
 error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     error_t     ret = SUCCESS;
@@ -96,6 +126,12 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
+    if (url->body && (ret = http_request_body(socket, url)) != SUCCESS) {
+        sp_error("failed write body %d %s:%d.",  ret,
+                 socket->get_peer_ip().c_str(), socket->get_peer_port());
+        return ret;
+    }
+
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index df8e800..c6fd641 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -53,6 +53,10 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
                               ctx.req->is_chunked(), ctx.req->get_content_length());
     ctx.host->get_proxy_info(proxy_req->ip, proxy_req->port);
 
+    if (ctx.req->is_chunked() || ctx.req->get_content_length() > 0) {
+        proxy_req->body = sock;
+    }
+
     auto     url_protocol  = protocols.create(proxy_req);
     if (!url_protocol) {
         sp_error("not found protocol %s for proxy", proxy_req->schema.c_str());
-- 
2.43.0


From 5123bbfed043465baa286712a804df80e917f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:09 +0000
Subject: [PATCH 081/108] fix: the body of a request for an unknown host is not
 taken for the next request

---
 src/module/http/sps_http_phase_handler.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 63ad815..c324be2 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,6 +77,24 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
+
+    // the body of the request is not the next request
+    auto req = dynamic_cast<HttpContext*>(ctx.get_context().get())->req;
+    if (ret == SUCCESS &&
+            (req->is_chunked() || req->get_content_length() > 0)) {
+        HttpRequestSocket body(socket, req->ip, req->port, req->is_chunked(),
+                               req->get_content_length());
+        char   buf[1024];
+        size_t nr = 0;
+
+        while ((ret = body.read(buf, sizeof(buf), nr)) == SUCCESS) {
+        }
+
+        if (ret != ERROR_HTTP_RES_EOF) {
+            return ret;
+        }
+    }
+
     return SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
 
-- 
2.43.0


From b4c67bb6031b5df55475befec7b4a203967177e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:08 +0000
Subject: [PATCH 082/108] fix: several http blocks each install their own
 servers only

---
 src/module/http/sps_http_module.cpp | 2 --
 src/module/http/sps_http_module.hpp | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/module/http/sps_http_module.cpp b/src/module/http/sps_http_module.cpp
index 0c8a168..39a6ddc 100644
--- a/src/module/http/sps_http_module.cpp
+++ b/src/module/http/sps_http_module.cpp
@@ -31,8 +31,6 @@ SOFTWARE.
 
 namespace sps {
 
-std::list<PServerModule> HttpModule::http_servers;
-
 error_t HttpModule::post_sub_module(PIModule sub) {
     if (sub->is_module("server")) {
         auto s = std::dynamic_pointer_cast<ServerModule>(sub);
diff --git a/src/module/http/sps_http_module.hpp b/src/module/http/sps_http_module.hpp
index 1855ae1..3014f5a 100644
--- a/src/module/http/sps_http_module.hpp
+++ b/src/module/http/sps_http_module.hpp
@@ -52,8 +52,8 @@ typedef std::shared_ptr<HttpModule> PHttpModule;
 
 class HttpModule : public IModule {
  public:
-    // merge http servers with same listen port
-    static std::list<PServerModule> http_servers;
+    // servers of this http block
+    std::list<PServerModule> http_servers;
 
  public:
     MODULE_CONSTRUCT(Http, http_options);
-- 
2.43.0


From 96d16610b474d320751b2a8cd340d9786dfa88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:08 +0000
Subject: [PATCH 083/108] fix: the hosts of a second server with the same port
 are served

---
 src/module/server/sps_server_module.cpp | 22 ++++++++++++++++++++--
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..a6708d8 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -23,6 +23,8 @@ SOFTWARE.
 
 #include <sps_server_module.hpp>
 
+#include <algorithm>
+
 #include <sps_host_global_module.hpp>
 #include <sps_log.hpp>
 
@@ -53,6 +55,7 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+    sm->router = hr;
     return ret;
 }
 
@@ -214,8 +217,23 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        // a global host is already served here
+        if (std::find(host_modules.begin(), host_modules.end(), h)
+                != host_modules.end()) {
+            continue;
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail merge host %s ret %d",
+                      h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..f87332a 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -113,6 +113,7 @@ class ServerModule : public IModule {
  private:
     PIConnHandlerFactory socket_handler;
     PServer              server;
+    PHostModulesRouter   router;  // router used by the running server
 };
 
 MODULE_FACTORY(Server)
-- 
2.43.0


From bffd5efd9345e303bc3bfb51efa4671e17c2f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:50 +0000
Subject: [PATCH 084/108] fix: refused publishers and viewers get a complete
 answer

---
 src/module/http/sps_http_stream_phase_handler.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..657883c 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,18 +50,18 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
-        ret = rsp->write_header();
+        rsp->init(403, nullptr, 0, false);
+        error_t wret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
-                ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ret;
+                ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, wret);
+        return ret;  // the rest of the stream is not another request, close
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
-        ret = rsp->write_header();
+        rsp->init(404, nullptr, 0, false);
+        error_t wret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
+                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, wret);
         return ret;
     }
 
-- 
2.43.0


From 545719078c6fa6cf91f256e89c69e52567e6d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 085/108] fix: an edge pull over a protocol without a response
 object does not crash

---
 src/module/stream/sps_stream_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..b8b3b0f 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -58,7 +58,7 @@ error_t StreamEdge::handler() {
     }
 
     ret = io->open(url, TCP);
-    if (ret != SUCCESS || !io->response()->success()) {
+    if (ret != SUCCESS || (io->response() && !io->response()->success())) {
         sp_error("Fail Init upstream %s-%s-%s %d %s", url->get_host(), url->get_url(), url->get_params(),
                  ret, io->response() ? io->response()->error().c_str() : "");
         goto fail;
-- 
2.43.0


From 5a5cd5039a229807ea04b964763efd40a2930c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 086/108] fix: an edge pull of an unknown format fails instead
 of crashing

---
 src/module/stream/sps_stream_edge.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index b8b3b0f..7da5424 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,13 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
+
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 92859a008ff4682db81e1f74c7c19aba448e3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 087/108] fix: a packet without a usable time does not end the
 server

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 62b3df6..513e987 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -107,19 +107,11 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
     av_packet_rescale_ts(&out_pkt, *pkt->get_time_base(), ctx->streams[pkt->packet()->stream_index]->time_base);
     out_pkt.pos = -1;
 
-    // TODO fix rtmp
-    if (out_pkt.dts < 0 || out_pkt.pts < 0) {
-        sp_info("out_pkt (dts pts) (%lld, %lld) -> (%lld, %lld), "
-                "tb (%d, %d) -> (%d, %d)",
-                out_pkt.dts, out_pkt.pts, pkt->packet()->dts, pkt->packet()->pts,
-                pkt->get_time_base()->den, pkt->get_time_base()->num,
-                ctx->streams[pkt->packet()->stream_index]->time_base.den,
-                ctx->streams[pkt->packet()->stream_index]->time_base.num);
-
-        out_pkt.dts = pkt->packet()->dts;
-        out_pkt.pts = pkt->packet()->pts;
-
-        exit(0);
+    // no player can place a packet without a time, negative times are up to the muxer
+    if (out_pkt.dts == AV_NOPTS_VALUE || out_pkt.pts == AV_NOPTS_VALUE) {
+        sp_warn("ignore packet index %d without time", pkt->packet()->stream_index);
+        av_packet_unref(&out_pkt);
+        return SUCCESS;
     }
 
     ret = av_write_frame(ctx, &out_pkt);
-- 
2.43.0


From d1627df32980d27a00ee5b9b4ef299f54b5364c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:40 +0000
Subject: [PATCH 088/108] fix: viewers can not choose formats that open files
 or urls on the server

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 513e987..94344d9 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -166,6 +166,12 @@ error_t FFmpegAVMuxer::init() {
         return ERROR_FFMPEG_OPEN;
     }
 
+    // such formats open files or urls by themselves, they can not be written to a viewer
+    if (out_format->flags & AVFMT_NOFILE) {
+        sp_error("Fail init ffmpeg url %s, format %s opens its own output", full_url.c_str(), out_format->name);
+        return ERROR_FFMPEG_OPEN;
+    }
+
     auto avio_buffer = (uint8_t*) av_malloc(FFMPEG_MAX_SIZE);
     pb               = avio_alloc_context(avio_buffer, FFMPEG_MAX_SIZE, 1,
                                           this, nullptr, write_data, nullptr);
-- 
2.43.0


From f5c06b7354aa3b86f725fec96f6a32018ebaaefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:00 +0000
Subject: [PATCH 089/108] fix: the end of a publication frees its FFmpeg
 demuxer

---
 src/avformat/sps_avformat_ffmpeg_dec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_dec.cpp b/src/avformat/sps_avformat_ffmpeg_dec.cpp
index 1875421..2cc2fd6 100644
--- a/src/avformat/sps_avformat_ffmpeg_dec.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_dec.cpp
@@ -183,9 +183,10 @@ error_t FFmpegAVDemuxer::init_ffmpeg_ctx() {
 void FFmpegAVDemuxer::free_ffmpeg_ctx() {
     // https://ffmpeg.org/pipermail/libav-user/2012-December/003257.html
     // avio_ctx_buffer manage by pb
+    // the demuxer itself is closed as well, while its input is there
+    if (ctx) avformat_close_input(&ctx);
     if (pb && pb->buffer) av_freep(&pb->buffer);
     if (pb) avio_context_free(&pb);
-    if (ctx) avformat_free_context(ctx);
 }
 
 FFmpegAVInputFormat::FFmpegAVInputFormat() : IAVInputFormat("ffmpeg", ".*") {
-- 
2.43.0


From 00a936bfb97190cb7db7ad7b97faa215590d9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 090/108] fix: a viewer is not cut off by packets from before
 its first one

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 11 +++++++++++
 src/avformat/sps_avformat_ffmpeg_enc.hpp |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index 94344d9..f31e335 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -114,6 +114,16 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
         return SUCCESS;
     }
 
+    // the output starts with the first packet, muxers refuse packets from before it
+    int64_t dts = av_rescale_q(pkt->packet()->dts, *pkt->get_time_base(), AV_TIME_BASE_Q);
+    if (first_dts == AV_NOPTS_VALUE) {
+        first_dts = dts;
+    } else if (dts < first_dts) {
+        sp_warn("ignore packet index %d before the first one", pkt->packet()->stream_index);
+        av_packet_unref(&out_pkt);
+        return SUCCESS;
+    }
+
     ret = av_write_frame(ctx, &out_pkt);
     av_packet_unref(&out_pkt);
     if (ret < 0) {
@@ -250,6 +260,7 @@ error_t FFmpegAVMuxer::on_av_stream(AVStream* new_stream) {
 error_t FFmpegAVMuxer::init_ffmpeg_ctx() {
     pb  = nullptr;
     ctx = nullptr;
+    first_dts = AV_NOPTS_VALUE;
     return SUCCESS;
 }
 
diff --git a/src/avformat/sps_avformat_ffmpeg_enc.hpp b/src/avformat/sps_avformat_ffmpeg_enc.hpp
index bc34abc..eb08228 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.hpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.hpp
@@ -68,6 +68,7 @@ class FFmpegAVMuxer : public IAVMuxer {
     AVIOContext      *pb;
     // ffmpeg timestamp
     int64_t          cur_timestamp;
+    int64_t          first_dts;
     std::vector<int> stream_mapping;
 
 #ifdef FFMPEG_ENCODE_DEBUG
-- 
2.43.0


From be4a52f63d212e382e3c119397cc0bd310957682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:38 +0000
Subject: [PATCH 091/108] fix: use the certificate of the https server for
 clients whose host has none

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 891bc2d..122110d 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -208,8 +208,11 @@ error_t StSSLSocket::accept() {
     // TODO: imp sni
     if (cert_searcher) {
         SSL_CTX_set_tlsext_servername_callback(ctx, StSSLSocket::ssl_servername_callback);
-    } else {
-        if ((ret = do_ssl_verify(config)) != SUCCESS) {
+    }
+
+    // certificate of the server, replaced by the one of the requested host
+    if (!cert_searcher || !config.crt_file.empty()) {
+        if ((ret = do_ssl_verify(config)) != SUCCESS && !cert_searcher) {
             return ret;
         }
     }
-- 
2.43.0


From d8b96d01a116c7956eaeabb147919fb04beb1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:08 +0000
Subject: [PATCH 092/108] fix: a client stalling in its tls handshake kept the
 https server from accepting others

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 41 +++++++++++++++++++++++------
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 19 +++++++++++++
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 122110d..32dc0e4 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -540,25 +540,50 @@ void StSSLServerSocket::push_socket(PSocket sock) {
     condition->signal();
 }
 
+StSSLHandshake::StSSLHandshake(StSSLServerSocket &ssl, PSocket sock) : ssl(ssl) {
+    this->sock = std::move(sock);
+}
+
+error_t StSSLHandshake::handler() {
+    error_t ret      = SUCCESS;
+    auto    ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+
+    if ((ret = ssl_sock->init()) != SUCCESS) {
+        sp_error("ssl accept ret %d", ret);
+        return ret;
+    }
+
+    ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
+            sock->get_peer_port()));
+    return ret;
+}
+
+void StSSLHandshake::on_stop() {
+    ssl.handshakes.erase(shared_from_this());
+}
+
 StSSLAcceptor::StSSLAcceptor(StSSLServerSocket &ssl) : ssl(ssl) {
 }
 
 error_t StSSLAcceptor::handler() {
-    error_t ret = SUCCESS;
-
     do {
         auto sock = ssl.ssock->accept();
-        auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
+        if (!sock) {
+            sp_error("failed ssl accept");
+            st_usleep(10 * 1000);
             continue;
         }
 
-        ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port()));
+        // one client must not delay the handshake of the others
+        auto handshake = std::make_shared<StSSLHandshake>(ssl, sock);
+
+        if (ICoFactory::get_instance().start(handshake) != SUCCESS) {
+            sp_error("failed start ssl handshake");
+            continue;
+        }
 
+        ssl.handshakes.insert(handshake);
     } while (true);
 
     return SUCCESS;
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..7ab6928 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -31,6 +31,7 @@ SOFTWARE.
 #include <openssl/ssl.h>
 
 #include <memory>
+#include <set>
 
 #include <sps_sys_co.hpp>
 #include <sps_sys_sync.hpp>
@@ -122,12 +123,14 @@ class StSSLSocket : public IReaderWriter {
 };
 
 class StSSLAcceptor;
+class StSSLHandshake;
 /**
  * ssl server wrapped
  */
 class StSSLServerSocket : public IServerSocket {
  public:
     friend class StSSLAcceptor;
+    friend class StSSLHandshake;
  public:
     StSSLServerSocket(PIServerSocket ssock);
 
@@ -148,6 +151,22 @@ class StSSLServerSocket : public IServerSocket {
     std::shared_ptr<StSSLAcceptor>  acceptor;
     SSLConfig                       config;
     PISSLCertSearch                 cert_searcher;
+    std::set<std::shared_ptr<StSSLHandshake>> handshakes;
+};
+
+// the tls handshake of one client
+class StSSLHandshake : public ICoHandler,
+                       public std::enable_shared_from_this<StSSLHandshake> {
+ public:
+    StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
+
+ public:
+    error_t handler() override;
+    void    on_stop() override;
+
+ private:
+    StSSLServerSocket& ssl;
+    PSocket            sock;
 };
 
 // do tls handshake with async no blocking
-- 
2.43.0


From f57dab3705be7d81806ea5a238fce95224050cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:38 +0000
Subject: [PATCH 093/108] fix: a failed tls handshake or read of one connection
 broke the reads of the others

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ++++++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 32dc0e4..9fbb0bb 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -347,6 +347,9 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    // errors left behind by other connections
+    ERR_clear_error();
+
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -420,6 +423,9 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
     error_t ret = SUCCESS;
 
     do {
+        // errors left behind by other connections
+        ERR_clear_error();
+
         // read decode buffer
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 7ab6928..b4c94fd 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include <memory>
-- 
2.43.0


From d8fd647d96fe2af55e5926fef19c0e50a9ee7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 094/108] fix: a connection that came while the srt listener
 was not polled was not accepted until the next one

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index ec1a698..abedf66 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -330,12 +330,21 @@ failed:
 SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime_t timeout) {
     std::string err;
     SRTSOCKET ret = SRT_INVALID_SOCK;
+    // srt reports no connection that came before the listener was added to the epoll,
+    // so look for one again soon
+    const utime_t recheck = 100 * 1000;
 
     while ((ret = srt_accept(fd, addr, addrlen)) == SRT_INVALID_SOCK) {
         int eno = 0;
 
         if (st_srt_again(eno)) {
-            ret = st_srt_epoll(fd, ST_SRT_ACCEPT, timeout, err);
+            utime_t wait = std::min(timeout, recheck);
+            ret = SrtStDispatch::get_instance()->st_srt_epoll(fd, ST_SRT_ACCEPT, wait, err);
+
+            if (ret == ERROR_SRT_SOCKET_TIMEOUT && timeout > wait) {
+                timeout -= timeout == ST_UTIME_NO_TIMEOUT ? 0 : wait;
+                continue;
+            }
 
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
-- 
2.43.0


From e016c7f125c166da49375470cec8ecd3c47aef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 095/108] fix: rtcp report blocks were decoded without their
 source, four bytes short

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 027d11f..776bfbe 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From 3c3731a569c7103279bd76ac41739033a04c453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 096/108] fix: the port of an srt peer was reported with its
 bytes swapped

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index abedf66..557f8fe 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -802,7 +802,7 @@ PSocket StSrtServerSocket::accept() {
         buf[0] = '\0';  // 防止内存写乱
     }
 
-    return std::make_shared<Socket>(srt_socket, std::string(buf), addr.sin_port);
+    return std::make_shared<Socket>(srt_socket, std::string(buf), ntohs(addr.sin_port));
 }
 
 }
-- 
2.43.0


From cd73098977ae5bd549391df202ff6749fe4803d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 097/108] fix: an RTMP session goes on with the chunk sizes and
 bytes of its handshake and connect

---
 src/module/rtmp/sps_rtmp_server_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/rtmp/sps_rtmp_server_handler.cpp b/src/module/rtmp/sps_rtmp_server_handler.cpp
index 957f46d..d721c1b 100644
--- a/src/module/rtmp/sps_rtmp_server_handler.cpp
+++ b/src/module/rtmp/sps_rtmp_server_handler.cpp
@@ -48,9 +48,10 @@ RtmpPrepareHandler::RtmpPrepareHandler()
 }
 
 error_t RtmpPrepareHandler::handler(IConnection &c) {
-    auto     hook =  std::make_shared<RtmpHook>(c.socket);;
     error_t  ret  = SUCCESS;
     auto     ctx  = std::make_shared<RtmpContext>(nullptr, c.socket);
+    // chunk sizes, chunk streams and bytes already read go on in the stream
+    auto     hook = ctx->hk;
     RtmpServerHandshake shk(hook.get());
 
     // handshake
-- 
2.43.0


From 985b23a48cf5268c4983b01ee5974beb17210962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 098/108] fix: RTMP players get frames larger than the write
 buffer of ffmpeg

---
 src/io/url/sps_io_url_rtmp_ffmpeg.cpp | 31 ++++++++++++---------------
 src/io/url/sps_io_url_rtmp_ffmpeg.hpp |  2 ++
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/io/url/sps_io_url_rtmp_ffmpeg.cpp b/src/io/url/sps_io_url_rtmp_ffmpeg.cpp
index c6130a4..ae8591c 100644
--- a/src/io/url/sps_io_url_rtmp_ffmpeg.cpp
+++ b/src/io/url/sps_io_url_rtmp_ffmpeg.cpp
@@ -188,36 +188,31 @@ error_t FFmpegRtmpUrlProtocol::write(void *buf, size_t size) {
     uint32_t data_size;  // 3bytes
     uint32_t stream_id;  // 3bytes
 
-    char* p  = (char*) buf;
-    int   pz = size;
+    // a tag may come in pieces, when it is larger than the buffer of ffmpeg
+    flv_write_buf.append((char*) buf, size);
+
+    size_t pos = 0;
     if (!flv_head_read) {
-        if (size < FLV_HEAD_SIZE) {
-            sp_error("Fail flv must wrote flv head 11");
-            return ERROR_FLV_TAG;
+        if (flv_write_buf.size() < FLV_HEAD_SIZE) {
+            return SUCCESS;
         }
 
-        sp_info("flv header %s", to_hex((char*) p, FLV_HEAD_SIZE).c_str());
-        p    += FLV_HEAD_SIZE;
-        pz   -= FLV_HEAD_SIZE;
+        sp_info("flv header %s", to_hex(flv_write_buf.data(), FLV_HEAD_SIZE).c_str());
+        pos           = FLV_HEAD_SIZE;
         flv_head_read = true;
-
-        if (size == 0) {
-            return SUCCESS;
-        }
     }
 
-    auto rd = BytesReader::create_reader((uint8_t*) p, pz);
+    while (flv_write_buf.size() - pos >= FLV_TAG_SIZE) {
+        int  pz = flv_write_buf.size() - pos;
+        auto rd = BytesReader::create_reader((uint8_t*) &flv_write_buf[pos], pz);
 
-    while(rd->size() > 0) {
         if ((ret = parser_flv_head(rd, &tag_type, &data_size, &timestamp, &stream_id)) != SUCCESS) {
             sp_error("Fail flv parse size %d", pz);
             return ret;
         }
 
         if (rd->size() < data_size + 4) {
-            sp_error("Fatal flv tag need size pre_size %u, timestamp %u, tag_type %d, data_size %u(%d)",
-                     previous_size, timestamp, tag_type, data_size, pz);
-            return ERROR_FLV_TAG;
+            break;
         }
 
         WrapRtmpPacket packet(false);
@@ -245,10 +240,12 @@ error_t FFmpegRtmpUrlProtocol::write(void *buf, size_t size) {
             sp_error("failed RTMP SEND packet ret %d", ret);
             return ret;
         }
+        pos += FLV_TAG_SIZE + data_size + 4;
         sp_debug("parse flv tag head pre_size %u, timestamp %u, tag_type %d, data_size %u(%d)",
                 previous_size, timestamp, tag_type, data_size, pz);
     }
 
+    flv_write_buf.erase(0, pos);
     return ret;
 }
 
diff --git a/src/io/url/sps_io_url_rtmp_ffmpeg.hpp b/src/io/url/sps_io_url_rtmp_ffmpeg.hpp
index 0953950..2d09b91 100644
--- a/src/io/url/sps_io_url_rtmp_ffmpeg.hpp
+++ b/src/io/url/sps_io_url_rtmp_ffmpeg.hpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #ifndef SPS_IO_URL_RTMP_FFMPEG_HPP
 #define SPS_IO_URL_RTMP_FFMPEG_HPP
 
+#include <string>
 #include <memory>
 
 #include <sps_avformat_librtmp.hpp>
@@ -61,6 +62,7 @@ class FFmpegRtmpUrlProtocol : public IURLProtocol {
     uint32_t       pkt_offset = 0;  // flv head + pkt data offset
     bool           flv_head_read = false;
     uint32_t       previous_size = 0;
+    std::string    flv_write_buf;   // of an incomplete tag
 };
 
 }  // namespace sps
-- 
2.43.0


From a5eaf7d0e3b618aa0d847220ceac165133200cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 099/108] fix: the RTMP pong carries the timestamp of its ping

---
 src/avformat/sps_avformat_librtmp.cpp | 4 ++--
 src/avformat/sps_avformat_librtmp.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index ececd13..af9442b 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -409,8 +409,8 @@ error_t RtmpHook::send_connect_result(double txn) {
     return ret;
 }
 
-error_t RtmpHook::send_pong(uint32_t /** stream_id **/) {
-    if (RTMP_SendCtrl(rtmp, 7, 0, 0) == FALSE) {
+error_t RtmpHook::send_pong(uint32_t timestamp) {
+    if (RTMP_SendCtrl(rtmp, 7, timestamp, 0) == FALSE) {
         sp_error("fail send rtmp pong ret %d", error);
         return error;
     }
diff --git a/src/avformat/sps_avformat_librtmp.hpp b/src/avformat/sps_avformat_librtmp.hpp
index 42bacf8..5685f3c 100644
--- a/src/avformat/sps_avformat_librtmp.hpp
+++ b/src/avformat/sps_avformat_librtmp.hpp
@@ -235,7 +235,7 @@ class RtmpHook {
 
     error_t send_ping(uint32_t /** stream_id **/);
 
-    error_t send_pong(uint32_t /** stream_id **/);
+    error_t send_pong(uint32_t timestamp);
 
     error_t ack();
 
-- 
2.43.0


From 79bd0413311e0e67502b855e0a1c6140dd7d65e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 100/108] fix: short RTMP bandwidth messages are ignored

---
 src/avformat/sps_avformat_librtmp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index af9442b..cf9242d 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -169,11 +169,15 @@ error_t RtmpHook::on_recv_packet(RTMPPacket &packet) {
             break;
         }
         case RTMP_PACKET_TYPE_SERVER_BW:
-            rtmp->m_nServerBW = (int) AMF_DecodeInt32(packet.m_body);
+            if (packet.m_nBodySize >= 4) {
+                rtmp->m_nServerBW = (int) AMF_DecodeInt32(packet.m_body);
+            }
             break;
         case RTMP_PACKET_TYPE_CLIENT_BW:
-            rtmp->m_nClientBW = (int) AMF_DecodeInt32(packet.m_body);
-            next_acked = rtmp->m_nClientBW;
+            if (packet.m_nBodySize >= 4) {
+                rtmp->m_nClientBW = (int) AMF_DecodeInt32(packet.m_body);
+                next_acked = rtmp->m_nClientBW;
+            }
             break;
     }
 
-- 
2.43.0


From 7da117b3385e9ad82366a502a1c9dfaa9d30e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 101/108] fix: a failed RTMP read or write is never reported as
 success

---
 src/avformat/sps_avformat_librtmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index cf9242d..7926975 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -530,7 +530,7 @@ error_t RtmpHook::recv_packet(WrapRtmpPacket &pkt) {
 
     do {
         if (RTMP_ReadPacket(rtmp, &packet) != TRUE) {
-            ret           = error;
+            ret           = error != SUCCESS ? error : ERROR_RTMP_NOT_CONNECT;
             packet.m_body = nullptr;
             sp_error("rtmp recv failed ret: %d", ret);
             return ret;
@@ -561,7 +561,7 @@ error_t RtmpHook::send_packet(WrapRtmpPacket &packet, bool queue) {
 error_t RtmpHook::send_packet(RTMPPacket &pkt, bool queue) {
     if (RTMP_SendPacket(rtmp, &pkt, queue ? 1 : 0) != TRUE) {
         sp_error("send packet failed error %d", error);
-        return error;
+        return error != SUCCESS ? error : ERROR_RTMP_NOT_CONNECT;
     }
     return on_send_packet(pkt);
 }
-- 
2.43.0


From abac17492990484ac9981e19b8125b3039f96f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 102/108] fix: the RTMP muxer writes the composition time and
 the AVC packet type

---
 src/avformat/sps_avformat_rtmpenc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_rtmpenc.cpp b/src/avformat/sps_avformat_rtmpenc.cpp
index b7d9652..4fad863 100644
--- a/src/avformat/sps_avformat_rtmpenc.cpp
+++ b/src/avformat/sps_avformat_rtmpenc.cpp
@@ -116,15 +116,15 @@ error_t RtmpAVMuxer::write_packet(PAVPacket& buffer) {
         }
 
         if (frame_type != 0x50) {
+            // 24 bits, big endian
             int32_t cts = buffer->pts - buffer->dts;
-            // if cts < 0 convert to int32_t
-            cts         = (cts + 0xff800000) ^ 0xff800000;
 
-            *(--pkt.m_body) = cts & 0x0f;
-            *(--pkt.m_body) = cts & 0xf0;
-            *(--pkt.m_body) = cts & 0x0f00;
+            *(--pkt.m_body) = cts & 0xff;
+            *(--pkt.m_body) = (cts >> 8) & 0xff;
+            *(--pkt.m_body) = (cts >> 16) & 0xff;
 
-            *(--pkt.m_body) = buffer->is_video_sequence_header() ? 0 : 1;
+            // 0. avc sequence header 1. avc data 2. avc end data
+            *(--pkt.m_body) = buffer->pkt_type.pkt_type;
             pkt.m_nBodySize += 4;
         }
 
-- 
2.43.0


From d9a1e627e3ed75f846f840943b23da7888922093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:27 +0000
Subject: [PATCH 103/108] fix: an RTMP audio message of one byte is too short

---
 src/avformat/sps_avformat_rtmpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtmpdec.cpp b/src/avformat/sps_avformat_rtmpdec.cpp
index f4eb84c..3fcdbcf 100644
--- a/src/avformat/sps_avformat_rtmpdec.cpp
+++ b/src/avformat/sps_avformat_rtmpdec.cpp
@@ -135,7 +135,7 @@ error_t RtmpDemuxer::read_packet(PAVPacket& buffer) {
                                       dts, pts, flag, codecid);
             break;
         } else if (packet.is_audio()) {
-            if ((ret = stream.acquire(1)) != SUCCESS) {
+            if ((ret = stream.acquire(2)) != SUCCESS) {
                 sp_error("fail too short rtmp audio %lu, ret %d",
                           packet.size(), ret);
                 return ret;
-- 
2.43.0


From af385b933efa170aff7fe84fd48a883dbcf302e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 104/108] fix: the url of an RTMP connection was used after it
 was freed

---
 src/avformat/sps_avformat_librtmp.cpp | 5 ++++-
 src/avformat/sps_avformat_librtmp.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index 7926975..0d43e83 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -570,7 +570,10 @@ error_t RtmpHook::client_connect(const std::string &url,
         const std::string &params, bool publish) {
     error_t ret = SUCCESS;
 
-    if (RTMP_SetupURL(rtmp, (char *) (url + " " + params).c_str()) == FALSE) {
+    // librtmp keeps pointing into it
+    link_url = url + " " + params;
+
+    if (RTMP_SetupURL(rtmp, &link_url[0]) == FALSE) {
         sp_error("fail set url %s.", url.c_str());
         return ERROR_RTMP_CONNECT;
     }
diff --git a/src/avformat/sps_avformat_librtmp.hpp b/src/avformat/sps_avformat_librtmp.hpp
index 5685f3c..673075f 100644
--- a/src/avformat/sps_avformat_librtmp.hpp
+++ b/src/avformat/sps_avformat_librtmp.hpp
@@ -273,6 +273,7 @@ class RtmpHook {
     PIReaderWriter skt;
     RTMP *rtmp;
     RTMP_HOOK hook{0};
+    std::string link_url;
     error_t error;
     int transaction_id = 0;
     int next_acked;
-- 
2.43.0


From 90c047566f96657e39f11816d2be1223222c44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 105/108] fix: RTMP sources can be pulled by builds with ffmpeg

---
 src/io/url/sps_io_url_rtmp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/url/sps_io_url_rtmp.cpp b/src/io/url/sps_io_url_rtmp.cpp
index b148c89..f526cc9 100644
--- a/src/io/url/sps_io_url_rtmp.cpp
+++ b/src/io/url/sps_io_url_rtmp.cpp
@@ -26,6 +26,7 @@ SOFTWARE.
 //
 
 #include <sps_io_url_rtmp.hpp>
+#include <sps_io_url_rtmp_ffmpeg.hpp>
 
 #include <string>
 #include <utility>
@@ -103,7 +104,12 @@ RtmpURLProtocolFactory::RtmpURLProtocolFactory()
 }
 
 PIURLProtocol RtmpURLProtocolFactory::create(PRequestUrl url) {
+#ifdef FFMPEG_ENABLED
+    // the demuxer reads bytes
+    return std::make_shared<FFmpegRtmpUrlProtocol>();
+#else
     return std::make_shared<RtmpUrlProtocol>();
+#endif
 }
 
 }  // namespace sps
-- 
2.43.0


From 55d8e2a56ec97fba9fa61b9db04f3e5d1ee2a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:07 +0000
Subject: [PATCH 106/108] fix: ts tables survive duplicated and lost packets

A duplicated continuation packet was appended twice to the section under
way and a lost one left a hole in it, so a damaged PAT or PMT was decoded
(and the demuxer failed). Follow the continuity counter as pes does: ignore
the duplicate, wait for the next section after a loss.
---
 src/avformat/sps_avformat_ts.cpp | 14 ++++++++++++++
 src/avformat/sps_avformat_ts.hpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index dc065b5..93dfa59 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -64,6 +64,20 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
     error_t ret = SUCCESS;
 
+    bool discontinuity = pkt->adaptation_field &&
+            pkt->adaptation_field->flags.discontinuity_indicator;
+
+    if (has_continuity_counter && !discontinuity &&
+            pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
+        if (!pkt->payload_unit_start_indicator &&
+                pkt->continuity_counter == continuity_counter) {
+            return SUCCESS;  // duplicate packet
+        }
+        section.clear();  // packets lost, wait for the next section
+    }
+    has_continuity_counter = true;
+    continuity_counter     = pkt->continuity_counter;
+
     if (pkt->payload_unit_start_indicator) {
         if ((ret = rd.acquire(1)) != SUCCESS) {
             sp_error("no enough size ret %d", ret);
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index ae336c2..f7264e0 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -136,6 +136,8 @@ class TsPsiProgram : public TsProgram {
     error_t decode_section(TsPacket* pkt, BitContext& rd);
 
     std::string section;  // not complete yet
+    uint8_t     continuity_counter     = 0;
+    bool        has_continuity_counter = false;
 
  public:
     uint8_t pointer_field;
-- 
2.43.0


From 427259901093fcf2c896e136ff843dd85b78f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 107/108] fix: give the UDP sources their line endings back

The repair of the UDP server had changed them in every line.
---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 934 ++++++++++++++--------------
 src/sys/st/io/sps_sys_st_io_udp.hpp | 408 ++++++------
 2 files changed, 671 insertions(+), 671 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 4c7ffdf..a1d37a4 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,468 +1,468 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   peer_ip.empty() ? htonl(INADDR_ANY) :
-                                    inet_addr(dns_resolve(peer_ip).c_str());
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        char ip[INET_ADDRSTRLEN];
-        if (inet_ntop(AF_INET, &pi->ipi_addr, ip, sizeof(ip)) != nullptr) {
-            dst_ip = ip;
-        }
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = 0;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_addr.s_addr   =   peer_ip.empty() ? htonl(INADDR_ANY) :
+                                    inet_addr(dns_resolve(peer_ip).c_str());
+    peer_addr.sin_port          =   htons(peer_port);
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        char ip[INET_ADDRSTRLEN];
+        if (inet_ntop(AF_INET, &pi->ipi_addr, ip, sizeof(ip)) != nullptr) {
+            dst_ip = ip;
+        }
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = 0;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
diff --git a/src/sys/st/io/sps_sys_st_io_udp.hpp b/src/sys/st/io/sps_sys_st_io_udp.hpp
index 563cfaa..217221d 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.hpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.hpp
@@ -1,204 +1,204 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-#ifndef SPS_SYS_ST_IO_UDP_HPP
-#define SPS_SYS_ST_IO_UDP_HPP
-
-#include <sps_io_socket.hpp>
-#include <sps_sys_co.hpp>
-#include <sps_sys_sync.hpp>
-#include <sps_sys_st_io_tcp.hpp>
-#include <arpa/inet.h>
-#include <netinet/in.h>
-#include <netdb.h>
-#include <sys/socket.h>
-
-namespace sps {
-
-class UdpFd;
-typedef std::shared_ptr<UdpFd> PUdpFd;
-class UdpFd {
- public:
-    static error_t create_fd(PUdpFd& fd);
-    static error_t create_fd(int bind_port, PUdpFd& fd,
-                             bool reuse_addr = false,
-                             bool reuse_port = false);
-
- public:
-    explicit UdpFd(st_netfd_t udp_fd);
-    ~UdpFd();
-
-    st_netfd_t get_fd();
-
- private:
-    st_netfd_t udp_fd;
-};
-
-class StUdpClientSocket : public IReaderWriter {
- public:
-    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
-
- public:
-    // reader
-    void    set_recv_timeout(utime_t tm) override;
-    utime_t get_recv_timeout() override;
-
-    error_t connect();
-    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
-
-    // udp addresss
-    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
-                 std::string& dst_ip, int& dst_port);
-
- public:
-    // writer
-    void set_send_timeout(utime_t tm) override;
-    utime_t get_send_timeout() override;
-    error_t write(void* buf, size_t size) override;
-
- private:
-    utime_t rtm;
-    utime_t stm;
-    // The recv/send data in bytes
-    int64_t rbytes;
-    int64_t sbytes;
-    // The underlayer st fd.
-    PUdpFd fd;
-
-    // peer address
-    std::string peer_ip;
-    int         peer_port;
-    sockaddr_in peer_addr;
-    bool        connected;
-
-    char control_buf[0x100];
-};
-
-typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
-
-class UdpBuffer {
- public:
-    UdpBuffer(uint8_t* buf, size_t len);
-    ~UdpBuffer();
-
- private:
-    UdpBuffer(const UdpBuffer& buffer);
-
- public:
-    uint8_t* buffer();
-    size_t   size();
-
- private:
-    uint8_t* buf;
-    size_t   len;
-};
-
-typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
-
-/**
- * udp session wrap
- * read from udp server
- * sent by udp fd
- */
-class StUdpSessionClientSocket : public StUdpClientSocket {
- public:
-    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
-    ~StUdpSessionClientSocket() override;
-
- public:
-    error_t read(void* buf, size_t size, size_t& nread) override;
-
- public:
-    error_t push(uint8_t* buf, size_t len);
-
- private:
-    std::list<PUdpBuffer> buffer_lists;
-    PCondition cond;
-    int buffer_max_list_size;
-    int buffer_list_size;
-};
-typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
-
-class IUdpSocketManager;
-class UdpSessionSocket : public Socket {
- public:
-    UdpSessionSocket(IUdpSocketManager* manger);
-    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
-                     const std::string& dip, int dp);
-    ~UdpSessionSocket() override;
-
- private:
-    IUdpSocketManager* manager;
-};
-
-class IUdpSocketManager {
- public:
-    virtual void on_destroy(UdpSessionSocket* session) = 0;
-};
-
-class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
-                          public std::enable_shared_from_this<StUdpServerSocket> {
- public:
-    StUdpServerSocket() = default;
-    ~StUdpServerSocket();
-
- public:
-    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
-    PSocket accept() override;
-    error_t handler() override;
-
- public:
-    void on_destroy(UdpSessionSocket* session) override;
-
- private:
-    std::string generate_key(const std::string& cip, int cport,
-                             const std::string& dip, int dport);
-    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
-                                               std::string& sip, int sport,
-                                               bool &is_new);
-    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
-
- private:
-    bool     running     = false;
-    uint8_t* buffer      = nullptr;
-    int      buffer_size = 65536;
-    std::string ip;
-    int         port;
-    bool        reuse_port;
-    PUdpFd      server_fd;
-    PStUdpClientSocket server_socket;
-
- private:
-    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
-    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
-    PCondition new_cond;
-};
-
-}  // namespace sps
-
-#endif  // SPS_SYS_ST_IO_UDP_HPP
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+#ifndef SPS_SYS_ST_IO_UDP_HPP
+#define SPS_SYS_ST_IO_UDP_HPP
+
+#include <sps_io_socket.hpp>
+#include <sps_sys_co.hpp>
+#include <sps_sys_sync.hpp>
+#include <sps_sys_st_io_tcp.hpp>
+#include <arpa/inet.h>
+#include <netinet/in.h>
+#include <netdb.h>
+#include <sys/socket.h>
+
+namespace sps {
+
+class UdpFd;
+typedef std::shared_ptr<UdpFd> PUdpFd;
+class UdpFd {
+ public:
+    static error_t create_fd(PUdpFd& fd);
+    static error_t create_fd(int bind_port, PUdpFd& fd,
+                             bool reuse_addr = false,
+                             bool reuse_port = false);
+
+ public:
+    explicit UdpFd(st_netfd_t udp_fd);
+    ~UdpFd();
+
+    st_netfd_t get_fd();
+
+ private:
+    st_netfd_t udp_fd;
+};
+
+class StUdpClientSocket : public IReaderWriter {
+ public:
+    explicit StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd);
+
+ public:
+    // reader
+    void    set_recv_timeout(utime_t tm) override;
+    utime_t get_recv_timeout() override;
+
+    error_t connect();
+    error_t read_fully(void* buf, size_t size, ssize_t* nread) override;
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port);
+
+    // udp addresss
+    error_t read(void* buf, size_t size, size_t& nread, std::string& peer_ip, int& peer_port,
+                 std::string& dst_ip, int& dst_port);
+
+ public:
+    // writer
+    void set_send_timeout(utime_t tm) override;
+    utime_t get_send_timeout() override;
+    error_t write(void* buf, size_t size) override;
+
+ private:
+    utime_t rtm;
+    utime_t stm;
+    // The recv/send data in bytes
+    int64_t rbytes;
+    int64_t sbytes;
+    // The underlayer st fd.
+    PUdpFd fd;
+
+    // peer address
+    std::string peer_ip;
+    int         peer_port;
+    sockaddr_in peer_addr;
+    bool        connected;
+
+    char control_buf[0x100];
+};
+
+typedef std::shared_ptr<StUdpClientSocket> PStUdpClientSocket;
+
+class UdpBuffer {
+ public:
+    UdpBuffer(uint8_t* buf, size_t len);
+    ~UdpBuffer();
+
+ private:
+    UdpBuffer(const UdpBuffer& buffer);
+
+ public:
+    uint8_t* buffer();
+    size_t   size();
+
+ private:
+    uint8_t* buf;
+    size_t   len;
+};
+
+typedef std::shared_ptr<UdpBuffer> PUdpBuffer;
+
+/**
+ * udp session wrap
+ * read from udp server
+ * sent by udp fd
+ */
+class StUdpSessionClientSocket : public StUdpClientSocket {
+ public:
+    StUdpSessionClientSocket(const std::string& cip, int cport, PUdpFd fd);
+    ~StUdpSessionClientSocket() override;
+
+ public:
+    error_t read(void* buf, size_t size, size_t& nread) override;
+
+ public:
+    error_t push(uint8_t* buf, size_t len);
+
+ private:
+    std::list<PUdpBuffer> buffer_lists;
+    PCondition cond;
+    int buffer_max_list_size;
+    int buffer_list_size;
+};
+typedef std::shared_ptr<StUdpSessionClientSocket> PStUdpSessionClientSocket;
+
+class IUdpSocketManager;
+class UdpSessionSocket : public Socket {
+ public:
+    UdpSessionSocket(IUdpSocketManager* manger);
+    UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw, const std::string& ip, int p,
+                     const std::string& dip, int dp);
+    ~UdpSessionSocket() override;
+
+ private:
+    IUdpSocketManager* manager;
+};
+
+class IUdpSocketManager {
+ public:
+    virtual void on_destroy(UdpSessionSocket* session) = 0;
+};
+
+class StUdpServerSocket : public IServerSocket, public IUdpSocketManager, public ICoHandler,
+                          public std::enable_shared_from_this<StUdpServerSocket> {
+ public:
+    StUdpServerSocket() = default;
+    ~StUdpServerSocket();
+
+ public:
+    error_t listen(std::string sip, int sport, bool reuse_sport, int back_log) override;
+    PSocket accept() override;
+    error_t handler() override;
+
+ public:
+    void on_destroy(UdpSessionSocket* session) override;
+
+ private:
+    std::string generate_key(const std::string& cip, int cport,
+                             const std::string& dip, int dport);
+    PStUdpSessionClientSocket search_or_create(std::string& cip, int cport,
+                                               std::string& sip, int sport,
+                                               bool &is_new);
+    void remove(const std::string& cip, int cport, const std::string& sip, int sport);
+
+ private:
+    bool     running     = false;
+    uint8_t* buffer      = nullptr;
+    int      buffer_size = 65536;
+    std::string ip;
+    int         port;
+    bool        reuse_port;
+    PUdpFd      server_fd;
+    PStUdpClientSocket server_socket;
+
+ private:
+    std::map<std::string, std::weak_ptr<StUdpSessionClientSocket>> sessions;
+    std::list<std::shared_ptr<UdpSessionSocket>> new_clients;
+    PCondition new_cond;
+};
+
+}  // namespace sps
+
+#endif  // SPS_SYS_ST_IO_UDP_HPP
-- 
2.43.0


From 62cd23e8390b6ccc4db24799516ca318eae434d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 108/108] fix: a client silent in its tls handshake held its
 connection past the receive timeout

---
 src/module/server/sps_server.cpp    | 2 ++
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 4 ++++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index c795112..72818e2 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -62,6 +62,8 @@ void Server::init_ssl(const std::string& crt_file, const std::string& key_file,
         SSLConfig config;
         config.crt_file = crt_file;
         config.key_file = key_file;
+        config.recv_timeout = recv_timeout;
+        config.send_timeout = send_timeout;
         ssl->init_config(config, std::move(searcher));
     }
 }
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 9fbb0bb..0e2301a 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -554,6 +554,10 @@ error_t StSSLHandshake::handler() {
     error_t ret      = SUCCESS;
     auto    ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
+    // a silent client must not hold its connection for ever
+    ssl_sock->set_recv_timeout(ssl.config.recv_timeout);
+    ssl_sock->set_send_timeout(ssl.config.send_timeout);
+
     if ((ret = ssl_sock->init()) != SUCCESS) {
         sp_error("ssl accept ret %d", ret);
         return ret;
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index b4c94fd..631255e 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -55,6 +55,8 @@ struct SSLConfig {
     std::string crt_file;
     std::string key_file;
     std::string server_host;
+    utime_t     recv_timeout = -1;  // of every step of the handshake
+    utime_t     send_timeout = -1;
 };
 
 /**
-- 
2.43.0

