From c22eb3e6d2e1b0f35c66b92060cc46e589c5dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 01/25] fix: parsing hexadecimal read outside its table for
 bytes above 127

HexTable was indexed with a plain char, which is signed here, so a header
value with such a byte read memory before the table.
---
 src/common/hex_conversion.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..7e32833 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
@@ -56,12 +56,14 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
 static void RemoveSurroundingWhitespace(const char*& i,
                                         const char*& last) noexcept {
   // Remove any leading spaces
-  while (i != last && static_cast<bool>(std::isspace(*i))) {
+  while (i != last &&
+         static_cast<bool>(std::isspace(static_cast<unsigned char>(*i)))) {
     ++i;
   }
 
   // Remove any trailing spaces
-  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {
+  while (i != last && static_cast<bool>(std::isspace(
+                          static_cast<unsigned char>(*(last - 1))))) {
     --last;
   }
 }
-- 
2.43.0


From c8f55e28bcc1b4f60620b70f9d54b58dcfab26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 02/25] fix: an empty ChainedStream showed a fragment of
 uninitialized size

A stream closed with nothing written has no fragments, but iterating over it
called back once with the head block's unset size.
---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..0c40af4 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From 2bbcf9dda73eeed2105332c065408ba4da450758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 03/25] fix: ReportRequest::num_fragments left out the header
 and metrics fragments

BufferChain documents it as the number of fragments in the chain, which is
what ForEachFragment shows; a transporter sizing an array by it overran.
---
 src/recorder/serialization/report_request.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..3e80096 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -8,6 +8,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
                              int num_dropped_spans)
     : header_{std::move(header)} {
   num_bytes_ = static_cast<int>(header_->size());
+  num_fragments_ = 1;
   if (num_dropped_spans == 0) {
     return;
   }
@@ -16,6 +17,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From af7fbcc089992f962c8452e465bff6480d4d2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 04/25] fix: a failed write after partial progress lost the cut
 off span uncounted

---
 .../stream_recorder/connection_stream.cpp     | 50 ++++++++++++++-----
 .../stream_recorder/connection_stream.h       |  4 ++
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..e02ad7d 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -76,16 +76,18 @@ bool ConnectionStream::Flush(Writer writer) {
     return FlushShutdown(writer);
   }
   span_stream_.Allot();
-  if (span_remnant_ == nullptr) {
-    auto result = writer({&header_stream_, &span_stream_});
-    span_remnant_ = span_stream_.ConsumeRemnant();
-    return result;
-  }
-  auto result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_ = span_stream_.ConsumeRemnant();
+  // The writer may have written part of the data before it fails, so the
+  // remnant has to be brought up to date in either case.
+  bool result;
+  try {
+    result = span_remnant_ == nullptr
+                 ? writer({&header_stream_, &span_stream_})
+                 : writer({&header_stream_, span_remnant_.get(), &span_stream_});
+  } catch (...) {
+    UpdateRemnant();
+    throw;
   }
+  UpdateRemnant();
   return result;
 }
 
@@ -129,12 +131,34 @@ bool ConnectionStream::FlushShutdown(Writer writer) {
   if (span_remnant_ == nullptr) {
     return writer({&header_stream_, &terminal_stream_});
   }
-  auto result =
-      writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
-  if (span_remnant_->empty()) {
+  bool result;
+  try {
+    result = writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
+  } catch (...) {
+    ReleaseSentRemnant();
+    throw;
+  }
+  ReleaseSentRemnant();
+  return result;
+}
+
+//--------------------------------------------------------------------------------------------------
+// ReleaseSentRemnant
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::ReleaseSentRemnant() noexcept {
+  if (span_remnant_ != nullptr && span_remnant_->empty()) {
     span_stream_.metrics().OnSpansSent(1);
     span_remnant_.reset();
   }
-  return result;
+}
+
+//--------------------------------------------------------------------------------------------------
+// UpdateRemnant
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::UpdateRemnant() noexcept {
+  ReleaseSentRemnant();
+  if (span_remnant_ == nullptr) {
+    span_remnant_ = span_stream_.ConsumeRemnant();
+  }
 }
 }  // namespace lightstep
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 4e80b4c..0667d2b 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -79,5 +79,9 @@ class ConnectionStream {
   void InitializeStream();
 
   bool FlushShutdown(Writer writer);
+
+  void ReleaseSentRemnant() noexcept;
+
+  void UpdateRemnant() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From 23177b725df3551a394e80b9e5cc70a57d941118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 05/25] fix: an exception of any type thrown by the logger sink
 reached the caller

---
 src/common/logger.cpp | 2 +-
 src/common/logger.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 2e381a2..68d31a7 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -28,7 +28,7 @@ static void LogDefault(LogLevel log_level,
   }
   oss << message << '\n';
   std::cerr << oss.str();
-} catch (const std::exception& /*e*/) {
+} catch (...) {
   // Ignore errors.
 }
 
diff --git a/src/common/logger.h b/src/common/logger.h
index 23afe30..d585a59 100644
--- a/src/common/logger.h
+++ b/src/common/logger.h
@@ -26,7 +26,7 @@ class Logger {
     if (static_cast<int>(level) >= static_cast<int>(level_)) {
       logger_sink_(level, message);
     }
-  } catch (const std::exception& /*e*/) {
+  } catch (...) {
     // Ignore exceptions.
   }
 
@@ -42,7 +42,7 @@ class Logger {
     std::ostringstream oss;
     Concatenate(oss, tx...);
     Log(level, opentracing::string_view{oss.str()});
-  } catch (const std::exception& /*e*/) {
+  } catch (...) {
     // Ignore exceptions.
   }
 
-- 
2.43.0


From d6229e8213a3b6168baee4b8a595be3f8140a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 06/25] fix: do not let a span's coded stream touch the stream
 after it was recorded

The coded stream's destructor accesses the underlying chained stream, which
the recorder owns and may have freed once the span was recorded.
---
 src/tracer/span.cpp | 30 +++++++++++++++++-------------
 src/tracer/span.h   |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..8fbb966 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,16 +24,17 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_{new google::protobuf::io::CodedOutputStream{
+          chained_stream_.get()}},
       tracer_{std::move(tracer)} {
-  WriteOperationName(coded_stream_, operation_name);
+  WriteOperationName(*coded_stream_, operation_name);
 
   // Set the start timestamps.
   std::chrono::system_clock::time_point start_timestamp;
   std::tie(start_timestamp, start_steady_) = ComputeStartTimestamps(
       tracer_->recorder(), options.start_system_timestamp,
       options.start_steady_timestamp);
-  WriteStartTimestamp(coded_stream_, start_timestamp);
+  WriteStartTimestamp(*coded_stream_, start_timestamp);
 
   // Set any span references.
   trace_flags_ = 0;
@@ -63,7 +64,7 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
 
   // Set tags.
   for (auto& tag : options.tags) {
-    WriteTag(coded_stream_, tag.first, tag.second);
+    WriteTag(*coded_stream_, tag.first, tag.second);
 
     // If sampling_priority is set, it overrides whatever sampling decision was
     // derived from the referenced spans.
@@ -101,7 +102,7 @@ void Span::SetOperationName(opentracing::string_view name) noexcept try {
   if (is_finished_) {
     return;
   }
-  WriteOperationName(coded_stream_, name);
+  WriteOperationName(*coded_stream_, name);
 } catch (const std::exception& e) {
   tracer_->logger().Error("SetOperationName failed: ", e.what());
 }
@@ -115,7 +116,7 @@ void Span::SetTag(opentracing::string_view key,
   if (is_finished_) {
     return;
   }
-  WriteTag(coded_stream_, key, value);
+  WriteTag(*coded_stream_, key, value);
   if (key == SamplingPriorityKey) {
     trace_flags_ =
         SetTraceFlag<SampledFlagMask>(trace_flags_, is_sampled(value));
@@ -168,7 +169,7 @@ void Span::Log(std::initializer_list<
   if (is_finished_) {
     return;
   }
-  WriteLog(coded_stream_, timestamp, fields.begin(), fields.end());
+  WriteLog(*coded_stream_, timestamp, fields.begin(), fields.end());
 } catch (const std::exception& e) {
   tracer_->logger().Error("Log failed: ", e.what());
 }
@@ -214,7 +215,7 @@ bool Span::SetSpanReference(
   }
   trace_id_high = referenced_context->trace_id_high();
   trace_id = referenced_context->trace_id_low();
-  WriteSpanReference(coded_stream_, reference.first, trace_id,
+  WriteSpanReference(*coded_stream_, reference.first, trace_id,
                      referenced_context->span_id());
   trace_flags_ |= referenced_context->trace_flags();
   AppendTraceState(trace_state_, referenced_context->trace_state());
@@ -247,23 +248,26 @@ void Span::FinishImpl(
 
   // Set timing information.
   auto duration = finish_timestamp - start_steady_;
-  WriteDuration(coded_stream_, duration);
+  WriteDuration(*coded_stream_, duration);
 
   // Set logs
   for (auto& log_record : options.log_records) {
     try {
-      WriteLog(coded_stream_, log_record.timestamp, log_record.fields.data(),
+      WriteLog(*coded_stream_, log_record.timestamp, log_record.fields.data(),
                log_record.fields.data() + log_record.fields.size());
     } catch (const std::exception& e) {
       tracer_->logger().Error("Dropping log record: ", e.what());
     }
   }
 
-  WriteSpanContext(coded_stream_, trace_id_, span_id_, baggage_.as_vector());
+  WriteSpanContext(*coded_stream_, trace_id_, span_id_, baggage_.as_vector());
 
   // Record the span
-  tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  tracer_->recorder().WriteFooter(*coded_stream_);
+
+  // The coded stream must not outlive our ownership of the chained stream: its
+  // destructor may access the underlying stream.
+  coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..5b9a174 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,7 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From e929a108a1cf395adddee2b8e261eba465241787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 07/25] fix: setting a baggage item again on a legacy span
 replaces its value

---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..2c6e93b 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[lowercase_key] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From a2df11da396f95831c47d831f50dc7b74683dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 08/25] fix: numbers after an escaped control character in JSON
 values were hexadecimal

---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From f610e10899404d7168123360952b53bd0f0994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 09/25] fix: base64 decoding read outside its table for bytes
 above 127

---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From 78e127ed24ba7d86324f6e91b55f0d166bcdea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 10/25] fix: a throwing transporter left the legacy manual
 recorder's report in progress forever

---
 src/recorder/legacy_manual_recorder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..5a6b286 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -88,6 +88,11 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
   dropped_spans_ += saved_pending_spans_;
   active_request_.Clear();
+  if (IsReportInProgress()) {
+    // The report was never handed over, so there will be no callback for it.
+    ++flushed_seqno_;
+    dropped_spans_ += saved_dropped_spans_;
+  }
   return false;
 }
 
-- 
2.43.0


From 3da20ab915aca105c06b7026397d0a2677f99eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 11/25] fix: a repeated trace id or span id header counted as
 the missing other one

---
 src/tracer/propagation/multiheader_propagator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index 12632e1..b2dc196 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -3,7 +3,6 @@
 #include "common/hex_conversion.h"
 #include "common/utility.h"
 
-const int FieldCount = 2;
 const opentracing::string_view FalseStr = "false";
 const opentracing::string_view OneStr = "1";
 const opentracing::string_view ZeroStr = "0";
@@ -117,7 +116,8 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
     uint64_t& trace_id_low, uint64_t& span_id, bool& sampled,
     BaggageProtobufMap& baggage, const KeyCompare& key_compare) const {
   sampled = true;
-  int count = 0;
+  int trace_id_count = 0;
+  int span_id_count = 0;
   auto result =
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
@@ -128,7 +128,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
               return opentracing::make_unexpected(
                   opentracing::span_context_corrupted_error);
             }
-            ++count;
+            ++trace_id_count;
           } else if (key_compare(key, span_id_key_)) {
             auto span_id_maybe = HexToUint64(value);
             if (!span_id_maybe) {
@@ -136,7 +136,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
                   opentracing::span_context_corrupted_error);
             }
             span_id = *span_id_maybe;
-            ++count;
+            ++span_id_count;
           } else if (key_compare(key, sampled_key_)) {
             sampled = !(value == FalseStr || value == ZeroStr);
           } else if (key.length() > baggage_prefix_.size() &&
@@ -159,10 +159,10 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
-  if (count == 0) {
+  if (trace_id_count == 0 && span_id_count == 0) {
     return false;
   }
-  if (count > 0 && count != FieldCount) {
+  if (trace_id_count != 1 || span_id_count != 1) {
     return opentracing::make_unexpected(
         opentracing::span_context_corrupted_error);
   }
-- 
2.43.0


From 278039e7130b4ce670a80dda7d69111999ae36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 12/25] fix: what one extractor left behind ended up in the
 context of the next

---
 src/tracer/propagation/propagation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tracer/propagation/propagation.cpp b/src/tracer/propagation/propagation.cpp
index 57fa67f..38e0811 100644
--- a/src/tracer/propagation/propagation.cpp
+++ b/src/tracer/propagation/propagation.cpp
@@ -22,6 +22,9 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
     TraceContext& trace_context, std::string& trace_state,
     BaggageProtobufMap& baggage) {
   for (auto& propagator : propagation_options.extract_propagators) {
+    // Start clean: an extractor that found nothing may have left parts behind.
+    trace_context = TraceContext{};
+    trace_state.clear();
     baggage.clear();
     auto result = propagator->ExtractSpanContext(
         carrier, case_sensitive, trace_context, trace_state, baggage);
-- 
2.43.0


From 5eb6a3114a8f7c87b5b47e7791b9e634a3541379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 13/25] fix: a short form cloud trace header kept the span id
 of an earlier header

---
 src/tracer/propagation/cloud_trace_propagator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 1daecd6..8c972a2 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -123,6 +123,9 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
     return error_maybe;
   }
 
+  // a short form header has no span id
+  trace_context.parent_id = 0;
+
   offset += Num128BitHexDigits;
   if (s.size() - offset < 2) {
     // only a short form trace ID has been given (not a "trace id/span id")
-- 
2.43.0


From f99ee6d8ef9c2f0925c247e856d67309ccac4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 14/25] fix: cloud trace span ids of more than 20 digits were
 cut off and accepted

---
 src/tracer/propagation/cloud_trace_propagator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 8c972a2..fc371f2 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -148,6 +148,11 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
     ++offset;
   }
   parent_id[i] = '\0';
+  if (offset < s.length() && std::isdigit(s[offset]) != 0) {
+    // more digits than any 64-bit number has
+    return opentracing::make_unexpected(
+        std::make_error_code(std::errc::result_out_of_range));
+  }
 
   // parent-id
   errno = 0;
-- 
2.43.0


From ceefb53295d01690471857a1164d156bb176cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 15/25] fix: a satellite connection whose socket fails during
 shutdown ends instead of reconnecting

---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..52e62a6 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -278,6 +278,11 @@ void SatelliteConnection::OnWritable(FileDescriptor file_descriptor,
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::OnSocketError() noexcept try {
   FreeSocket();
+  if (is_shutting_down_) {
+    // if the socket fails during shutdown, don't try to reconnect
+    was_shutdown_ = true;
+    return;
+  }
   Connect();
 } catch (const std::exception& e) {
   streamer_.logger().Error("OnSocketError failed: ", e.what());
-- 
2.43.0


From 09841f05bf8278eec937054ee49ca5fe55c52f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 16/25] fix: a satellite connection without a socket ends at
 once on shutdown and opens none afterwards

---
 .../stream_recorder/satellite_connection.cpp  | 26 ++++++++++++++++---
 .../stream_recorder/satellite_connection.h    |  2 ++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 52e62a6..41a63c8 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -79,8 +79,16 @@ bool SatelliteConnection::Flush() noexcept try {
 // InitiateShutdown
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::InitiateShutdown() noexcept {
-  InitiateReconnect();
+  if (is_shutting_down_) {
+    return;
+  }
   is_shutting_down_ = true;
+  if (socket_.file_descriptor() == InvalidSocket) {
+    // There's no connection that would have to be closed.
+    was_shutdown_ = true;
+    return;
+  }
+  CloseStream();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -94,6 +102,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (was_shutdown_) {
+    // The satellite's address became known or a retry came due only after the
+    // connection was shut down.
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
@@ -163,12 +176,19 @@ void SatelliteConnection::ScheduleReconnect() {
 //--------------------------------------------------------------------------------------------------
 // InitiateReconnect
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::InitiateReconnect() noexcept try {
+void SatelliteConnection::InitiateReconnect() noexcept {
   if (is_shutting_down_) {
     // If we're shutting down, then we've already scheduled a reconnect so do
     // nothing.
     return;
   }
+  CloseStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// CloseStream
+//--------------------------------------------------------------------------------------------------
+void SatelliteConnection::CloseStream() noexcept try {
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
@@ -176,7 +196,7 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
-  streamer_.logger().Error("InitiateReconnect failed: ", e.what());
+  streamer_.logger().Error("CloseStream failed: ", e.what());
   return HandleFailure();
 }
 
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index abbf717..2c8fc8f 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -71,6 +71,8 @@ class SatelliteConnection : private Noncopyable {
 
   void InitiateReconnect() noexcept;
 
+  void CloseStream() noexcept;
+
   void Reconnect() noexcept;
 
   void GracefulShutdownTimeout() noexcept;
-- 
2.43.0


From 64ca23c677520787994efe0a6f5ea61be0fc459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 17/25] fix: a failed flush at the end of a connection's life
 doesn't cut off the next connection

---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 41a63c8..45356d1 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -193,6 +193,11 @@ void SatelliteConnection::CloseStream() noexcept try {
   if (writable_) {
     Flush();
   }
+  if (socket_.file_descriptor() == InvalidSocket) {
+    // The flush failed and HandleFailure has already taken care of the
+    // connection.
+    return;
+  }
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
-- 
2.43.0


From 5babdc5bbc40de75c183483eb83899fa622e5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 18/25] fix: a DNS query that is never answered times out

---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..e6dfcf7 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,13 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  // Without a timer, a query that's never answered wouldn't time out.
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up ares timer: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 15bf1c0db5b800e73c235e47d7523e18e6fba8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 19/25] fix: a DNS socket is watched until the resolving
 library is done with it

---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index e6dfcf7..b663f6c 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -141,7 +141,9 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  // ares wants the socket to be watched until its state changes, however many
+  // packets arrive.
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From 3024b24e68f8e0c240e59354d11ed22f68228cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:56 +0000
Subject: [PATCH 20/25] fix: account for what a stream leaves unsent when its
 connection is destroyed

A connection that is destroyed, as around a fork, with its header not fully
written took the drop count it was about to announce with it, and a span cut
off by that was not counted as dropped.
---
 .../stream_recorder/connection_stream.cpp     | 30 +++++++++++++------
 .../stream_recorder/connection_stream.h       |  4 +++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index e02ad7d..fef7db0 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -47,19 +47,16 @@ ConnectionStream::ConnectionStream(Fragment host_header_fragment,
   InitializeStream();
 }
 
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ConnectionStream::~ConnectionStream() noexcept { AbandonStream(); }
+
 //--------------------------------------------------------------------------------------------------
 // Reset
 //--------------------------------------------------------------------------------------------------
 void ConnectionStream::Reset() {
-  if (!header_stream_.empty()) {
-    // We weren't able to upload the metrics so add the counters back
-    span_stream_.metrics().UnconsumeDroppedSpans(
-        embedded_metrics_message_.num_dropped_spans());
-  }
-  if (span_remnant_ != nullptr && !span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansDropped(1);
-  }
-  span_remnant_.reset();
+  AbandonStream();
   InitializeStream();
 }
 
@@ -116,6 +113,21 @@ void ConnectionStream::InitializeStream() {
       EndOfLineFragment};
 }
 
+//--------------------------------------------------------------------------------------------------
+// AbandonStream
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::AbandonStream() noexcept {
+  if (!header_stream_.empty()) {
+    // We weren't able to upload the metrics so add the counters back
+    span_stream_.metrics().UnconsumeDroppedSpans(
+        embedded_metrics_message_.num_dropped_spans());
+  }
+  if (span_remnant_ != nullptr && !span_remnant_->empty()) {
+    span_stream_.metrics().OnSpansDropped(1);
+  }
+  span_remnant_.reset();
+}
+
 //--------------------------------------------------------------------------------------------------
 // first_chunk_position
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 0667d2b..e5f78b4 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -27,6 +27,8 @@ class ConnectionStream {
   ConnectionStream(Fragment host_header_fragment,
                    Fragment header_common_fragment, SpanStream& span_stream);
 
+  ~ConnectionStream() noexcept;
+
   /**
    * Reset so as to begin a new streaming session.
    */
@@ -78,6 +80,8 @@ class ConnectionStream {
 
   void InitializeStream();
 
+  void AbandonStream() noexcept;
+
   bool FlushShutdown(Writer writer);
 
   void ReleaseSentRemnant() noexcept;
-- 
2.43.0


From b8f3eaf15344b27039892f32f1074e434dbeda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 21/25] fix: start as active again after a fork

A recorder that had been shut down opens new connections after a fork, but
shutting down reported success at once without closing them, since whether the
old ones were active was carried over; a child also shut down because its
parent had been asked to.
---
 src/recorder/stream_recorder/stream_recorder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..0c5b4e1 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -149,6 +149,9 @@ bool StreamRecorder::ShutdownWithTimeout(
 void StreamRecorder::PrepareForFork() noexcept {
   // We don't want parent and child processes to share sockets so close any open
   // connections.
+  //
+  // New ones are made after the fork, so whether the old ones were shut down
+  // isn't carried over.
   stream_recorder_impl_.reset(nullptr);
 }
 
@@ -156,6 +159,7 @@ void StreamRecorder::PrepareForFork() noexcept {
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
 void StreamRecorder::OnForkedParent() noexcept {
+  last_is_active_ = true;
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
@@ -169,6 +173,8 @@ void StreamRecorder::OnForkedChild() noexcept {
   span_buffer_.Clear();
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
+  shutdown_counter_ = 0;
+  last_is_active_ = true;
 
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
-- 
2.43.0


From c9a17d9bf4f94044c209d51d854a25c34cdd3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 22/25] fix: apply ssl_root_certificates given in a JSON
 configuration

---
 src/tracer/json_options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 1702dd7..2ccc4ec 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -95,6 +95,8 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
         std::chrono::microseconds{tracer_configuration.report_timeout()};
   }
 
+  options.ssl_root_certificates = tracer_configuration.ssl_root_certificates();
+
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
   options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
-- 
2.43.0


From f6aba14bd5f3a0c7e1d21897ef23f76882992822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 23/25] fix: keep the default satellite endpoints when a JSON
 configuration names none

---
 src/tracer/json_options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 2ccc4ec..f776ab5 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -99,7 +99,9 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
-  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  if (!tracer_configuration.satellite_endpoints().empty()) {
+    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  }
 
   options.verbose = tracer_configuration.verbose();
 
-- 
2.43.0


From 4ae792cfa270595564ab5cb0b61be06218b0ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 24/25] fix: ignore propagation_modes when
 use_single_key_propagation is set, as documented

---
 src/tracer/propagation/propagation_options.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracer/propagation/propagation_options.cpp b/src/tracer/propagation/propagation_options.cpp
index f36073d..8d4168f 100644
--- a/src/tracer/propagation/propagation_options.cpp
+++ b/src/tracer/propagation/propagation_options.cpp
@@ -92,10 +92,10 @@ PropagationOptions MakePropagationOptions(
     const LightStepTracerOptions& options) {
   std::vector<PropagationMode> propagation_modes;
   PropagationOptions result;
-  if (!options.propagation_modes.empty()) {
-    propagation_modes = options.propagation_modes;
-  } else if (options.use_single_key_propagation) {
+  if (options.use_single_key_propagation) {
     propagation_modes = {PropagationMode::envoy};
+  } else if (!options.propagation_modes.empty()) {
+    propagation_modes = options.propagation_modes;
   } else {
     propagation_modes = {PropagationMode::lightstep};
   }
-- 
2.43.0


From cac925e4ed09f51d44f7885cd0b24eb6390cab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 25/25] fix: use the default reporting period when it is set to
 zero, as documented

---
 src/tracer/tracer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracer/tracer.cpp b/src/tracer/tracer.cpp
index a79a7f5..fc572f5 100644
--- a/src/tracer/tracer.cpp
+++ b/src/tracer/tracer.cpp
@@ -214,6 +214,11 @@ std::shared_ptr<LightStepTracer> MakeLightStepTracer(
       options.tags.emplace(component_name_key, options.component_name);
     }
 
+    if (options.reporting_period ==
+        std::chrono::steady_clock::duration::zero()) {
+      options.reporting_period = LightStepTracerOptions{}.reporting_period;
+    }
+
     if (options.ssl_root_certificates.empty()) {
       // If default ssl root certificates were embedded in the library, then
       // default_ssl_roots_pem will be set to them; otherwise, it will be the
-- 
2.43.0

