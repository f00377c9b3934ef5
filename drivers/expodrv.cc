// Serializes given metric families to streams in many formatting states.
//   begin <id>
//   fam name=<hex> help=<hex> ty=<type>
//   met [lab=..] ts=<int> [v=<bits>] [n=<u64> sum=<bits>] [b=<bits>:<u64>,..] [q=<bits>:<bits>,..]
//   ser <tries>: each try is locale:global:precision:flags:width:fill
// prints {"texts":[hex..],"state":[[[..],[..]],..]}
#include <iostream>
#include <locale>

#include "prometheus/text_serializer.h"
#include "world.h"

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
};
struct OddPut : std::num_put<char> {
  iter_type do_put(iter_type o, std::ios_base&, char_type, double) const override { *o++ = '?'; return o; }
  iter_type do_put(iter_type o, std::ios_base&, char_type, unsigned long) const override { *o++ = '#'; return o; }
  iter_type do_put(iter_type o, std::ios_base&, char_type, long) const override { *o++ = '!'; return o; }
};
static std::locale loc(int i) {
  static std::locale l[] = {std::locale::classic(), std::locale(std::locale::classic(), new Comma),
                            std::locale(std::locale::classic(), new OddPut)};
  return l[i];
}

static const std::ios_base::fmtflags FLAGS[] = {
    std::ios_base::dec,     std::ios_base::hex,       std::ios_base::oct,       std::ios_base::scientific,
    std::ios_base::fixed,   std::ios_base::showpos,   std::ios_base::showpoint, std::ios_base::uppercase,
    std::ios_base::left,    std::ios_base::internal,  std::ios_base::showbase,  std::ios_base::boolalpha,
    std::ios_base::skipws,  std::ios_base::right};

static MetricType type_of(const std::string& s) {
  return s == "untyped" ? MetricType::Untyped : mty(parse_ty(s));
}

int main() {
  std::string line;
  std::vector<MetricFamily> fams;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op, t;
    is >> op;
    if (op == "begin") {
      fams.clear();
      std::cout << line << "\n" << std::flush;
      continue;
    }
    if (op == "ser") {
      std::vector<std::string> texts;
      std::string state;
      while (is >> t) {
        long p[6];
        std::stringstream ss(t);
        for (auto& x : p) {
          std::string y;
          std::getline(ss, y, ':');
          x = std::stol(y);
        }
        auto fl = std::ios_base::fmtflags();
        for (std::size_t i = 0; i < sizeof FLAGS / sizeof *FLAGS; ++i)
          if (p[3] >> i & 1) fl |= FLAGS[i];
        std::locale::global(loc(p[1]));
        std::string text;
        TextSerializer ser;
        if (p[0] == 9) {  // the overload that returns a string
          text = ser.Serialize(fams);
          std::locale::global(std::locale::classic());
        } else {
          std::ostringstream os;
          os.imbue(loc(p[0]));
          os.precision(p[2]);
          os.flags(fl);
          os.width(p[4]);
          os.fill((char)p[5]);
          auto snap = [&os, &p] {
            return "[" + std::to_string(os.precision()) + "," + std::to_string((int)os.flags()) + "," +
                   std::to_string(os.width()) + "," + std::to_string((int)os.fill()) + "," +
                   std::to_string(os.getloc() == loc(p[0])) + "," + std::to_string((int)os.rdstate()) + "," +
                   std::to_string(std::locale() == loc(p[1])) + "]";
          };
          auto before = snap();
          ser.Serialize(os, fams);
          auto after = snap();
          std::locale::global(std::locale::classic());
          text = os.str();
          state += (state.empty() ? "[" : ",[") + before + "," + after + "]";
        }
        bool known = false;
        for (auto& x : texts) known = known || x == text;
        if (!known) texts.push_back(text);
      }
      std::string o = "{\"texts\":[";
      for (std::size_t i = 0; i < texts.size(); ++i) o += (i ? "," : "") + hexs(texts[i]);
      std::cout << o << "],\"state\":[" << state << "]}\n" << std::flush;
      continue;
    }
    ClientMetric m;
    MetricFamily f;
    while (is >> t) {
      auto p = t.find('=');
      std::string k = t.substr(0, p), v = t.substr(p + 1);
      if (k == "name") f.name = unhex(v);
      if (k == "help") f.help = unhex(v);
      if (k == "ty") f.type = type_of(v);
      std::vector<std::pair<std::string, std::string>> kv;
      if (k == "lab" || k == "b" || k == "q") {
        std::stringstream ss(v);
        std::string x;
        while (std::getline(ss, x, ',')) kv.push_back({x.substr(0, x.find(':')), x.substr(x.find(':') + 1)});
      }
      if (k == "lab") for (auto& x : kv) m.label.push_back({unhex(x.first), unhex(x.second)});
      if (k == "ts") m.timestamp_ms = std::stoll(v);
      if (k == "v") m.counter.value = m.gauge.value = m.untyped.value = m.info.value = unbits(v);
      if (k == "n") m.histogram.sample_count = m.summary.sample_count = std::stoull(v);
      if (k == "sum") m.histogram.sample_sum = m.summary.sample_sum = unbits(v);
      if (k == "b") for (auto& x : kv) { ClientMetric::Bucket b; b.upper_bound = unbits(x.first); b.cumulative_count = std::stoull(x.second); m.histogram.bucket.push_back(b); }
      if (k == "q") for (auto& x : kv) { ClientMetric::Quantile q; q.quantile = unbits(x.first); q.value = unbits(x.second); m.summary.quantile.push_back(q); }
    }
    if (op == "fam") fams.push_back(f);
    else fams.back().metric.push_back(m);
    std::cout << "{\"skip\":1}\n";
  }
}
