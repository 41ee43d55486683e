From 402a6bc34be6ec22ace6d2ecf3e928c8b702b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 01/11] fix: bind variables that follow a "**" relative to the
 end of the path

---
 src/http_template.cc                         | 14 +++++++++++++-
 src/include/grpc_transcoding/http_template.h |  3 ++-
 src/include/grpc_transcoding/path_matcher.h  | 13 +++++++++----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..58b3e16 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -326,8 +326,20 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    // The index of the '**' segment (there is at most one in a valid template).
+    int wildcard_segment = 0;
+    const int num_segments = static_cast<int>(segments_.size());
+    while (wildcard_segment < num_segments &&
+           segments_[wildcard_segment] != HttpTemplate::kWildCardPathKey) {
+      wildcard_segment++;
+    }
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      if (var.start_segment > wildcard_segment) {
+        // The variable stands after a '**', so both ends of its range are
+        // only known relative to the end of the path.
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+        var.end_segment = (var.end_segment - segments_.size() - 1);
+      } else if (var.has_wildcard_path) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..563571d 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,8 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. The same applies to start_segment if the variable stands
+    // after a "**".
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..ba40831 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -181,22 +181,27 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     //
     // In case of matching "**" - end_segment is negative and is relative to
     // the end such that end_segment = -1 will match all subsequent segments.
+    // For a variable after "**" start_segment is relative to the end as well.
     VariableBinding binding;
     binding.field_path = var.field_path;
-    // Calculate the absolute index of the ending segment in case it's negative.
+    // Calculate the absolute indexes of the starting and ending segments in
+    // case they are negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match by checking if the variable contains a **.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From 7e61d8f33e1f509c0c7a52e551a1c07366708877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 02/11] fix: do not treat '*' or '**' in a request path as a
 wildcard

---
 src/path_matcher_node.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..391c3f2 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,11 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A request segment that happens to be spelled like a wildcard is still just
+    // text: it must not select the wildcard children as if it was a literal.
+    if (*current != HttpTemplate::kWildCardPathPartKey &&
+        *current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


From 40daeab5605140322ddb6b77270a1eb8219a48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 03/11] fix: keep HTTP method and custom verb apart when
 matching

---
 src/include/grpc_transcoding/path_matcher.h | 8 ++++----
 src/path_matcher_node.cc                    | 9 ++++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index ba40831..196da8b 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -342,7 +342,7 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts, http_method + ":" + verb);
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -377,7 +377,7 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts, http_method + ":" + verb);
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -430,8 +430,8 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
-                        root_ptr_.get())) {
+  if (!InsertPathToNode(path_info, method_data.get(),
+                        http_method + ":" + ht->verb(), root_ptr_.get())) {
     return false;
   }
   // Add the method_data to the methods_ vector for cleanup
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 391c3f2..207b7a6 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -244,8 +244,15 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
+  // The key may carry a custom verb ("METHOD:verb"). The wild card stands for
+  // any HTTP method, but not for any verb.
+  HttpMethod wild_card_key = HttpMethod_WILD_CARD;
+  const size_t verb_pos = key.rfind(':');
+  if (verb_pos != HttpMethod::npos) {
+    wild_card_key += key.substr(verb_pos);
+  }
   const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+      Find2KeysOrNull(result_map_, key, wild_card_key);
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From d911093f1df9b872cb8546aded7c4777fdedbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 04/11] fix: return no stale text at the end of a
 newline-delimited stream

At the end of a newline-delimited response stream NextMessage() returned true
without setting *message. A caller that reuses its string, as the example in
the header does, got the last message a second time.
---
 src/response_to_json_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..cb7baf8 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,10 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // There is no closing text in the newline-delimited case. Don't leave the
+      // caller with the previous message.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From 6e08b643eea609ade345498b271fa7e628629bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 05/11] fix: report a response message the JSON conversion does
 not read to its end

BinaryToJsonStream() stops without an error at a zero or end-group tag. The
bytes left in the message were then read as the header of the next frame, so a
damaged message was returned as good output and its rest could pass as further
messages.
---
 src/response_to_json_translator.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index cb7baf8..91dd48c 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -137,6 +137,18 @@ bool ResponseToJsonTranslator::TranslateMessage(
     return false;
   }
 
+  // The translation ends early, without an error, at bytes that cannot start a
+  // field. What it left unread is not the next message's frame.
+  const void* data = nullptr;
+  int size = 0;
+  while (proto_in->Next(&data, &size)) {
+    if (size > 0) {
+      status_ = absl::Status(absl::StatusCode::kInternal,
+                             "Failed to decode the response message.");
+      return false;
+    }
+  }
+
   // Append a newline delimiter after the message if needed.
   if (streaming_ && options_.stream_newline_delimited) {
     if (!WriteChar(&json_stream, '\n')) {
-- 
2.43.0


From 7ba055d904c7ebfff6a1a24ef5e9cf229619b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 06/11] fix: compare 64-bit values in full when checking for
 binding collisions

---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..04ebb2b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 9fa09275123995d1fe255145bff0a293c6b2fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 07/11] fix: compare doubles as doubles when checking for
 binding collisions

---
 src/request_weaver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 04ebb2b..fc9fe7e 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,10 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+bool AlmostEquals(double a, double b) {
+  // a == b covers the infinities, whose difference is not a number.
+  return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From 91c10801fbf87ec4fd5f3eb0c5ca9ecc444b528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 08/11] fix: ignore a binding whose field path is empty

---
 src/request_weaver.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index fc9fe7e..24c2e9c 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -321,6 +321,10 @@ RequestWeaver* RequestWeaver::RenderBytes(absl::string_view name,
 
 void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
                          std::string value) {
+  if (field_path.empty()) {
+    return;
+  }
+
   WeaveInfo* current = &root_;
 
   // Find or create the path from the root to the leaf message, where the value
@@ -329,9 +333,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-  if (!field_path.empty()) {
-    current->bindings.emplace_back(field_path.back(), std::move(value));
-  }
+  current->bindings.emplace_back(field_path.back(), std::move(value));
 }
 
 void RequestWeaver::WeaveTree(RequestWeaver::WeaveInfo* info) {
-- 
2.43.0


From 05abb1ebb4b8ae8166ebb31d818aa37226554b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 09/11] fix: recognize fields the body calls by their JSON
 names when weaving

---
 src/request_weaver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 24c2e9c..aa93617 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -46,6 +46,13 @@ bool AlmostEquals(double a, double b) {
   return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
 }
 
+// Whether the name of a value in the body refers to the field. As anywhere in
+// JSON, it can be the field's name or its JSON name.
+bool IsNameOfField(absl::string_view name, const pb::Field& field) {
+  return name == field.name() ||
+         (!field.json_name().empty() && name == field.json_name());
+}
+
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
                                   const pbconv::DataPiece& value) {
@@ -360,7 +367,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
-    if (name == it->first->name()) {
+    if (IsNameOfField(name, *it->first)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
@@ -383,7 +390,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-    if (field_name == msg.first->name()) {
+    if (IsNameOfField(field_name, *msg.first)) {
       return &msg.second;
     }
   }
-- 
2.43.0


From 0d8075e1cac2626353e18233a1bb09886fab1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 10/11] fix: apply all options of a request to each message of
 a stream

---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From dedead19353530e16f520c9bf226037056172b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 11/11] fix: hand out no messages after a request turned out to
 be invalid

---
 src/json_request_translator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 0b3276e..cb9f63b 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -63,6 +63,11 @@ class LazyRequestTranslator : public MessageStream {
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
+    if (!status_.ok()) {
+      // Finished with an error; what is left in the translated stream may be
+      // the remains of an invalid message.
+      return false;
+    }
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-- 
2.43.0

