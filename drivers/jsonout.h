// Minimal output helpers: doubles as 16 hex digits of their bits, strings as
// hex, counts as decimal strings. lib/ converts them for TLC.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "prometheus/client_metric.h"
#include "prometheus/metric_family.h"

inline std::string hexs(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o = "\"";
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o + "\"";
}
inline std::string bits(double v) {
  std::uint64_t u;
  std::memcpy(&u, &v, 8);
  char b[24];
  std::snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long)u);
  return b;
}
inline std::string u64(std::uint64_t v) { return "\"" + std::to_string(v) + "\""; }
inline double unbits(const std::string& h) {
  std::uint64_t u = std::stoull(h, nullptr, 16);
  double v;
  std::memcpy(&v, &u, 8);
  return v;
}
inline std::string unhex(const std::string& h) {
  std::string o;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2)
    o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return o;
}

inline std::string jmetric(const prometheus::ClientMetric& m, prometheus::MetricType t) {
  using prometheus::MetricType;
  std::string o = "{";
  switch (t) {
    case MetricType::Counter:
      return o + "\"v\":" + bits(m.counter.value) + "}";
    case MetricType::Gauge:
      return o + "\"v\":" + bits(m.gauge.value) + "}";
    case MetricType::Info:
      return o + "\"v\":" + bits(m.info.value) + "}";
    case MetricType::Untyped:
      return o + "\"v\":" + bits(m.untyped.value) + "}";
    case MetricType::Histogram: {
      o += "\"n\":" + u64(m.histogram.sample_count) + ",\"sum\":" + bits(m.histogram.sample_sum) + ",\"b\":[";
      bool first = true;
      for (auto& b : m.histogram.bucket) {
        if (!first) o += ",";
        first = false;
        o += "[" + bits(b.upper_bound) + "," + u64(b.cumulative_count) + "]";
      }
      return o + "]}";
    }
    case MetricType::Summary: {
      o += "\"n\":" + u64(m.summary.sample_count) + ",\"sum\":" + bits(m.summary.sample_sum) + ",\"q\":[";
      bool first = true;
      for (auto& q : m.summary.quantile) {
        if (!first) o += ",";
        first = false;
        o += "[" + bits(q.quantile) + "," + bits(q.value) + "]";
      }
      return o + "]}";
    }
  }
  return "{}";
}
inline const char* tyname(prometheus::MetricType t) {
  using prometheus::MetricType;
  switch (t) {
    case MetricType::Counter: return "counter";
    case MetricType::Gauge: return "gauge";
    case MetricType::Info: return "info";
    case MetricType::Untyped: return "untyped";
    case MetricType::Histogram: return "histogram";
    case MetricType::Summary: return "summary";
  }
  return "?";
}
inline std::string jfams(const std::vector<prometheus::MetricFamily>& fs) {
  std::string o = "[";
  for (std::size_t i = 0; i < fs.size(); i++) {
    auto& f = fs[i];
    if (i) o += ",";
    o += "{\"name\":" + hexs(f.name) + ",\"help\":" + hexs(f.help) + ",\"ty\":\"" + tyname(f.type) + "\",\"m\":[";
    for (std::size_t j = 0; j < f.metric.size(); j++) {
      auto& m = f.metric[j];
      if (j) o += ",";
      o += "{\"lab\":[";
      for (std::size_t k = 0; k < m.label.size(); k++) {
        if (k) o += ",";
        o += "[" + hexs(m.label[k].name) + "," + hexs(m.label[k].value) + "]";
      }
      o += "],\"ts\":\"" + std::to_string(m.timestamp_ms) + "\",\"c\":" + jmetric(m, f.type) + "}";
    }
    o += "]}";
  }
  return o + "]";
}
