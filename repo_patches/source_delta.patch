From f33ccfe4d9705911d7904ec6e0a805ac6f4861c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 01/13] fix: keep summary quantiles within the configured rank
 error

CKMSQuantiles mixed up sample indices with ranks: the allowable error was
computed from the number of retained samples, delta was derived from an
index, and compress() could merge the smallest sample. Depending on the
insertion order the reported value was off by many times the configured
error. Track true ranks, bound the uncertainty of each sample by the
smallest error allowed within its rank interval and keep the minimum.
---
 .../prometheus/detail/ckms_quantiles.h        |  2 +-
 core/src/detail/ckms_quantiles.cc             | 52 +++++++++++--------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/core/include/prometheus/detail/ckms_quantiles.h b/core/include/prometheus/detail/ckms_quantiles.h
index 771e816..c37a465 100644
--- a/core/include/prometheus/detail/ckms_quantiles.h
+++ b/core/include/prometheus/detail/ckms_quantiles.h
@@ -40,7 +40,7 @@ class PROMETHEUS_CPP_CORE_EXPORT CKMSQuantiles {
   void reset();
 
  private:
-  double allowableError(int rank);
+  double allowableError(double min_rank, double max_rank) const;
   bool insertBatch();
   void compress();
 
diff --git a/core/src/detail/ckms_quantiles.cc b/core/src/detail/ckms_quantiles.cc
index 7ab6f1f..7226cb2 100644
--- a/core/src/detail/ckms_quantiles.cc
+++ b/core/src/detail/ckms_quantiles.cc
@@ -39,8 +39,8 @@ double CKMSQuantiles::get(double q) {
   }
 
   int rankMin = 0;
-  const auto desired = static_cast<int>(q * count_);
-  const auto bound = desired + (allowableError(desired) / 2);
+  const auto desired = q * count_;
+  const auto bound = desired + (allowableError(desired, desired) / 2);
 
   auto it = sample_.begin();
   decltype(it) prev;
@@ -66,22 +66,26 @@ void CKMSQuantiles::reset() {
   buffer_count_ = 0;
 }
 
-double CKMSQuantiles::allowableError(int rank) {
-  auto size = sample_.size();
-  double minError = size + 1;
+// Smallest error that is allowed for any rank within [min_rank, max_rank].
+double CKMSQuantiles::allowableError(double min_rank, double max_rank) const {
+  const auto count = static_cast<double>(count_);
+  double minError = count + 1;
 
   for (const auto& q : quantiles_.get()) {
+    const auto desired = q.quantile * count;
+
     double error;
-    if (rank <= q.quantile * size) {
-      error = q.u * (size - rank);
+    if (max_rank < desired) {
+      error = q.u * (count - max_rank);
+    } else if (min_rank > desired) {
+      error = q.v * min_rank;
     } else {
-      error = q.v * rank;
+      error = 2.0 * q.error * count;
     }
     if (error < minError) {
       minError = error;
     }
   }
-
   return minError;
 }
 
@@ -113,10 +117,10 @@ bool CKMSQuantiles::insertBatch() {
     }
 
     int delta;
-    if (idx - 1 == 0 || idx + 1 == sample_.size()) {
+    if (idx == 0 || idx == sample_.size()) {
       delta = 0;
     } else {
-      delta = static_cast<int>(std::floor(allowableError(idx + 1))) + 1;
+      delta = sample_[idx].g + sample_[idx].delta - 1;
     }
 
     sample_.emplace(sample_.begin() + idx, v, 1, delta);
@@ -129,24 +133,28 @@ bool CKMSQuantiles::insertBatch() {
 }
 
 void CKMSQuantiles::compress() {
-  if (sample_.size() < 2) {
+  if (sample_.size() < 3) {
     return;
   }
 
-  std::size_t idx = 0;
-  std::size_t prev;
-  std::size_t next = idx++;
+  // The smallest item is never merged, it's required to answer low ranks.
+  int rankMin = sample_.front().g;
+  std::size_t prev = 1;
 
-  while (idx < sample_.size()) {
-    prev = next;
-    next = idx++;
+  for (std::size_t next = 2; next < sample_.size(); ++next) {
+    const auto merged = sample_[prev].g + sample_[next].g;
+    const auto rankMax = rankMin + merged + sample_[next].delta;
 
-    if (sample_[prev].g + sample_[next].g + sample_[next].delta <=
-        allowableError(idx - 1)) {
-      sample_[next].g += sample_[prev].g;
-      sample_.erase(sample_.begin() + prev);
+    if (rankMax - rankMin <= allowableError(rankMin, rankMax)) {
+      sample_[next].g = merged;
+    } else {
+      rankMin += sample_[prev].g;
+      ++prev;
     }
+    sample_[prev] = sample_[next];
   }
+
+  sample_.erase(sample_.begin() + prev + 1, sample_.end());
 }
 
 }  // namespace detail
-- 
2.43.0


From 7f188b1675a010d24e4f970fd41e05294d881c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 02/13] fix: escape backslash and line feed in HELP lines

A help text that contains a line feed ended the HELP comment early and
made the remainder be parsed as samples, which breaks the whole scrape.
---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..b69e293 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write a help text, which only requires escaping of backslash and line feed
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From 86de5cd71137aab5d428a785cb6954b317193d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 03/13] fix: serialize independent of the stream's format flags
 and width

Flags like std::hex, std::fixed or std::showpos and a pending field width
of the passed stream leaked into the exposition format.
---
 core/src/text_serializer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index b69e293..b72f2af 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -226,6 +226,8 @@ void TextSerializer::Serialize(std::ostream& out,
                                const std::vector<MetricFamily>& metrics) const {
   auto saved_locale = out.getloc();
   auto saved_precision = out.precision();
+  auto saved_flags = out.flags(std::ios_base::dec | std::ios_base::skipws);
+  auto saved_width = out.width(0);
 
   out.imbue(std::locale::classic());
   out.precision(std::numeric_limits<double>::max_digits10 - 1);
@@ -236,5 +238,7 @@ void TextSerializer::Serialize(std::ostream& out,
 
   out.imbue(saved_locale);
   out.precision(saved_precision);
+  out.flags(saved_flags);
+  out.width(saved_width);
 }
 }  // namespace prometheus
-- 
2.43.0


From 784613028b5fb38f9fe9c11eff33c75c105d3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 04/13] fix: reject base64 input with a symbol following the
 first padding

Input like "AA=A" was accepted and decoded as if it were "AA==".
---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From 159a8118cb6a1f5e1e4e32448cea4ec066451bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 05/13] fix: encode dot-segments in grouping keys

A job name or label value of "." or ".." was removed from the URL by the
path normalization of the HTTP client, so that metrics were pushed to (or
deleted from) a different grouping key.
---
 push/src/detail/label_encoder.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..32c789f 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -25,12 +25,18 @@ bool needsEncoding(char c) {
   }
   return true;
 }
+// Dot-segments would be removed when the URL is normalized, see RFC 3986
+// section 5.2.4.
+bool isDotSegment(const std::string& value) {
+  return value == "." || value == "..";
+}
 }  // namespace
 
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (isDotSegment(label.second) ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From a5c00e00fc463e53ac573191a5ade2b7853b47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 06/13] fix: reject bucket boundaries with NaN in between

All comparisons with NaN are false, so that boundaries like {3, NaN, 1}
were regarded as strictly sorted.
---
 core/src/histogram.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index e437738..2b7e668 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -2,7 +2,6 @@
 
 #include <algorithm>
 #include <cstddef>
-#include <functional>
 #include <iterator>
 #include <limits>
 #include <memory>
@@ -15,9 +14,11 @@ namespace {
 
 template <class ForwardIterator>
 bool is_strict_sorted(ForwardIterator first, ForwardIterator last) {
-  return std::adjacent_find(first, last,
-                            std::greater_equal<typename std::iterator_traits<
-                                ForwardIterator>::value_type>()) == last;
+  using Value = typename std::iterator_traits<ForwardIterator>::value_type;
+  // negated in order to detect NaN
+  return std::adjacent_find(first, last, [](const Value& a, const Value& b) {
+           return !(a < b);
+         }) == last;
 }
 
 }  // namespace
-- 
2.43.0


From 5019ff6ef463c944eaa068de034c1215c0c235fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 07/13] fix: count observed NaN in the +Inf bucket only

NaN is not less than or equal to any boundary, but was counted in the
first (and so in every) bucket of the histogram.
---
 core/src/histogram.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index 2b7e668..9a0139b 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -42,7 +42,11 @@ void Histogram::Observe(const double value) {
   const auto bucket_index = static_cast<std::size_t>(
       std::distance(bucket_boundaries_.begin(),
                     std::lower_bound(bucket_boundaries_.begin(),
-                                     bucket_boundaries_.end(), value)));
+                                     bucket_boundaries_.end(), value,
+                                     [](const double bound, const double v) {
+                                       // NaN doesn't fit into any bucket
+                                       return !(v <= bound);
+                                     })));
 
   std::lock_guard<std::mutex> lock(mutex_);
   sum_.Increment(value);
-- 
2.43.0


From d27c441e0602291153a0e6a39adc312e707aa558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 08/13] fix: report a single +Inf bucket for an explicit +Inf
 boundary

A histogram whose last boundary is +Inf reported two buckets with the
same upper bound, i.e. the same series twice with different values.
---
 core/src/histogram.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/histogram.cc b/core/src/histogram.cc
index 9a0139b..2548476 100644
--- a/core/src/histogram.cc
+++ b/core/src/histogram.cc
@@ -86,6 +86,10 @@ ClientMetric Histogram::Collect() const {
   metric.histogram.bucket.reserve(bucket_counts_.size());
   for (std::size_t i{0}; i < bucket_counts_.size(); ++i) {
     cumulative_count += bucket_counts_[i].Value();
+    if (i < bucket_boundaries_.size() &&
+        bucket_boundaries_[i] == std::numeric_limits<double>::infinity()) {
+      continue;  // same bucket as the implicit one
+    }
     auto bucket = ClientMetric::Bucket{};
     bucket.cumulative_count = cumulative_count;
     bucket.upper_bound = (i == bucket_boundaries_.size()
-- 
2.43.0


From f36eead415bcd5f73eb43d57d816ec4ad30dce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 09/13] fix: keep replaced auth handlers alive

Replacing the authentication of an endpoint destroyed the previous handler
while requests could still be executing it (heap-use-after-free).
---
 pull/src/endpoint.cc | 13 ++++++-------
 pull/src/endpoint.h  |  3 ++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index bd98cef..4d788ff 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -21,7 +21,7 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
 
 Endpoint::~Endpoint() {
   server_.removeHandler(uri_);
-  if (auth_handler_) {
+  if (!auth_handlers_.empty()) {
     server_.removeAuthHandler(uri_);
   }
 }
@@ -34,12 +34,11 @@ void Endpoint::RegisterCollectable(
 void Endpoint::RegisterAuth(
     std::function<bool(const std::string&, const std::string&)> authCB,
     const std::string& realm) {
-  // split creating, assigning, and storing to avoid a race-condition when
-  // being called the second time and the handler is replaced
-  auto new_handler =
-      detail::make_unique<BasicAuthHandler>(std::move(authCB), realm);
-  server_.addAuthHandler(uri_, new_handler.get());
-  auth_handler_ = std::move(new_handler);
+  // keep replaced handlers alive, they may still be used by requests which are
+  // in progress
+  auth_handlers_.push_back(
+      detail::make_unique<BasicAuthHandler>(std::move(authCB), realm));
+  server_.addAuthHandler(uri_, auth_handlers_.back().get());
 }
 
 void Endpoint::RemoveCollectable(
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index 81bb48f..af3a554 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -3,6 +3,7 @@
 #include <functional>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "CivetServer.h"
 #include "basic_auth.h"
@@ -37,7 +38,7 @@ class Endpoint {
   // registry for "meta" metrics about the endpoint itself
   std::shared_ptr<Registry> endpoint_registry_;
   std::unique_ptr<MetricsHandler> metrics_handler_;
-  std::unique_ptr<BasicAuthHandler> auth_handler_;
+  std::vector<std::unique_ptr<BasicAuthHandler>> auth_handlers_;
 };
 
 }  // namespace detail
-- 
2.43.0


From 96730c363ad0de8978236b687e605626e968fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 10/13] fix: stop the server before destroying the endpoints

Requests could still be executing the auth handler of an endpoint while it
was being destroyed (heap-use-after-free).
---
 pull/src/exposer.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pull/src/exposer.cc b/pull/src/exposer.cc
index 5ee3ade..2a6d886 100644
--- a/pull/src/exposer.cc
+++ b/pull/src/exposer.cc
@@ -23,7 +23,14 @@ Exposer::Exposer(std::vector<std::string> options,
     : server_(detail::make_unique<CivetServer>(std::move(options), callbacks)) {
 }
 
-Exposer::~Exposer() = default;
+Exposer::~Exposer() {
+  // Complete the scrapes in progress and stop the server before destroying the
+  // handlers, which may still be used by requests being authorized.
+  for (auto& endpoint : endpoints_) {
+    server_->removeHandler(endpoint->GetURI());
+  }
+  server_->close();
+}
 
 void Exposer::RegisterCollectable(const std::weak_ptr<Collectable>& collectable,
                                   const std::string& uri) {
-- 
2.43.0


From 76511c95715302e1c41b1c12daadff3a9be3a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 11/13] fix: offer gzip only to clients which accept it

"Accept-Encoding: gzip;q=0" explicitly refuses gzip, and codings whose names
merely contain "gzip" do not offer it. Both were answered with a compressed
body; "GZIP" was not.
---
 pull/src/handler.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..b45b81a 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -1,9 +1,10 @@
 #include "handler.h"
 
 #include <algorithm>
+#include <cctype>
 #include <chrono>
-#include <cstring>
 #include <iterator>
+#include <sstream>
 #include <string>
 
 #ifdef HAVE_ZLIB
@@ -54,7 +55,29 @@ static bool IsEncodingAccepted(struct mg_connection* conn,
   if (!accept_encoding) {
     return false;
   }
-  return std::strstr(accept_encoding, encoding) != nullptr;
+
+  // A comma separated list of codings, each with an optional weight. Zero means
+  // "not acceptable", see RFC 9110 section 12.5.3.
+  std::string accepted;
+  for (auto c = accept_encoding; *c != '\0'; ++c) {
+    if (*c != ' ' && *c != '\t') {
+      accepted +=
+          static_cast<char>(std::tolower(static_cast<unsigned char>(*c)));
+    }
+  }
+
+  std::istringstream codings{accepted};
+  std::string coding;
+  while (std::getline(codings, coding, ',')) {
+    const auto name_length = std::min(coding.find(';'), coding.size());
+    if (coding.compare(0, name_length, encoding) == 0) {
+      const auto weight = coding.find(";q=", name_length);
+      return weight == std::string::npos ||
+             coding.find_first_of("123456789", weight) != std::string::npos;
+    }
+  }
+
+  return false;
 }
 
 static std::vector<Byte> GZipCompress(const std::string& input) {
-- 
2.43.0


From b1384c15c618c1dde4976b1f8051911f4259e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 12/13] fix: rotate outdated summaries in bounded time

With max_age 0 every use of a summary rotated its window for ever, and after a
long pause a short window was rotated millions of times.
---
 core/src/detail/time_window_quantiles.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/src/detail/time_window_quantiles.cc b/core/src/detail/time_window_quantiles.cc
index 57f1e1c..6231bc7 100644
--- a/core/src/detail/time_window_quantiles.cc
+++ b/core/src/detail/time_window_quantiles.cc
@@ -28,7 +28,20 @@ void TimeWindowQuantiles::insert(double value) {
 }
 
 CKMSQuantiles& TimeWindowQuantiles::rotate() const {
-  auto delta = Clock::now() - last_rotation_;
+  const auto now = Clock::now();
+  auto delta = now - last_rotation_;
+
+  // Everything is outdated. Don't rotate step by step, this takes arbitrarily
+  // long (forever if max_age is zero).
+  const auto buckets = static_cast<Clock::rep>(ckms_quantiles_.size());
+  if (delta > rotation_interval_ * buckets) {
+    for (auto& bucket : ckms_quantiles_) {
+      bucket.reset();
+    }
+    last_rotation_ = now;
+    return ckms_quantiles_[current_bucket_];
+  }
+
   while (delta > rotation_interval_) {
     ckms_quantiles_[current_bucket_].reset();
 
-- 
2.43.0


From 29722bb71672f412a341f7a7de9c6580582b47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 13/13] fix: escape quotes and backslashes in the realm of the
 challenge

---
 pull/src/basic_auth.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pull/src/basic_auth.cc b/pull/src/basic_auth.cc
index 1d11906..fc7dd31 100644
--- a/pull/src/basic_auth.cc
+++ b/pull/src/basic_auth.cc
@@ -63,8 +63,17 @@ bool BasicAuthHandler::AuthorizeInner(CivetServer*, mg_connection* conn) {
 }
 
 void BasicAuthHandler::WriteUnauthorizedResponse(mg_connection* conn) {
+  // The realm is a quoted string, see RFC 9110 section 5.6.4.
+  std::string realm;
+  for (auto c : realm_) {
+    if (c == '"' || c == '\\') {
+      realm += '\\';
+    }
+    realm += c;
+  }
+
   mg_printf(conn, "HTTP/1.1 401 Unauthorized\r\n");
-  mg_printf(conn, "WWW-Authenticate: Basic realm=\"%s\"\r\n", realm_.c_str());
+  mg_printf(conn, "WWW-Authenticate: Basic realm=\"%s\"\r\n", realm.c_str());
   mg_printf(conn, "Connection: close\r\n");
   mg_printf(conn, "Content-Length: 0\r\n");
   // end headers
-- 
2.43.0

