From 760b40ff173e0533451f6b503fbc3d0895595671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 1/6] fix: bind variables that follow a '**' to the segments
 they cover

A variable after a '**' was located by its index in the template, although
the '**' may have matched any number of segments: for /v1/**/{kind=books}
the path /v1/a/b/books bound kind to 'b'. Locate such variables relative to
the end of the path.
---
 src/http_template.cc                         | 13 ++++++++++++-
 src/include/grpc_transcoding/http_template.h |  2 +-
 src/include/grpc_transcoding/path_matcher.h  | 12 ++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..55bfeaf 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -326,8 +326,19 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    // The position of the first '**', if any.
+    size_t wildcard = 0;
+    while (wildcard < segments_.size() &&
+           segments_[wildcard] != HttpTemplate::kWildCardPathKey) {
+      ++wildcard;
+    }
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      if (static_cast<size_t>(var.start_segment) > wildcard) {
+        // '**' matches any number of segments, so a variable after it has a
+        // fixed position only relative to the end.
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+        var.end_segment = (var.end_segment - segments_.size() - 1);
+      } else if (var.has_wildcard_path) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..a1043b0 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,7 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. For a variable after a '**' both are negative.
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..72a4b5d 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -183,20 +183,24 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     // the end such that end_segment = -1 will match all subsequent segments.
     VariableBinding binding;
     binding.field_path = var.field_path;
-    // Calculate the absolute index of the ending segment in case it's negative.
+    // Calculate the absolute index of the starting and ending segments in case
+    // they are negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From a04f6ae5c08b76ee8390262bc9a9fd319a167de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 2/6] fix: apply the request options to every message of a
 stream

RequestStreamTranslator copied only the message type and the body field
path into the RequestInfo of each element, so that
reject_binding_body_field_collisions and case_insensitive_enum_parsing
were ignored for streaming requests.
---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From c5ea6a986ad04bedf58c91ee742577030054bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 3/6] fix: leave no stale text in the message that ends a
 newline-delimited stream

---
 src/response_to_json_translator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..39273ee 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,9 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // Newline-delimited streams have no closing delimiter.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From f079d73f539a3865f70c1237b378ca0de3c58c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 4/6] fix: compare 64-bit body values with bindings as 64-bit
 values

---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..04ebb2b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 9965151bf1467106cabf0312becdb018901cb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 5/6] fix: compare double body values with bindings without
 narrowing them to float

---
 src/request_weaver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 04ebb2b..8f2dff6 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,9 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+bool AlmostEquals(double a, double b) {
+  return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From 18e175767cd6609c07d68a17db4ede8be3b2b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 6/6] fix: ignore a binding with an empty field path

---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 8f2dff6..d35053e 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -324,7 +324,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0

