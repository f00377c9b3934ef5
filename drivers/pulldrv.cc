// Hosts an Exposer. Reads commands "<actor> <callno> <op> [args]" from stdin
// and executes each on its actor's thread; prints one JSON line per event in
// the order in which they happen:
//   {"ret":n,...}   call n returned
//   {"cs":id,"g":g} Collect() of collectable id begins   {"ce":id,"g":g} ends
//   {"as":cb,"u":hex,"p":hex,"g":g} authentication callback begins  {"ae":cb,"g":g}
//   {"gone":id}     collectable id is destroyed
#include <prometheus/collectable.h>
#include <prometheus/exposer.h>
#include <prometheus/metric_family.h>
#include <unistd.h>

#include <time.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <vector>

#include "jsonout.h"

using namespace prometheus;

// The clocks of the standard library: a coarse monotonic clock, and a wall
// clock that is set back all the time.
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return time_point(milliseconds((t.tv_sec * 1000L + t.tv_nsec / 1000000) & ~15L));
}
system_clock::time_point system_clock::now() noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  static std::atomic<long> back{0};
  return time_point(duration_cast<duration>(seconds(t.tv_sec - ++back)));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

static std::mutex out_mutex;
static void emit(const std::string& s) {
  std::string l = s + "\n";
  std::lock_guard<std::mutex> lock(out_mutex);
  if (write(1, l.data(), l.size())) {}
}

// gates: work named g goes on after a permit for g, or when all gates are open
static std::mutex gate_mutex;
static std::condition_variable gate_cv;
static std::map<std::string, long> permits;
static bool all_open = false;
static void pass(const std::string& g) {
  std::unique_lock<std::mutex> lock(gate_mutex);
  gate_cv.wait(lock, [&] { return all_open || permits[g] > 0; });
  if (!all_open) --permits[g];
}

static std::string filler(char kind, std::size_t n) {
  std::string s;
  s.reserve(n);
  if (kind == 'a') {
    s.assign(n, 'a');
  } else {
    static const std::string block = [] {
      std::string t;
      uint32_t x = 12345;
      for (int i = 0; i < 70000; ++i) {
        x = x * 1664525u + 1013904223u;
        t += char('0' + (x >> 24) % 64);
        if (t.back() == '\\') t.back() = 'z';
      }
      return t;
    }();
    while (s.size() < n) s.append(block, 0, std::min(block.size(), n - s.size()));
  }
  return s;
}

struct Col : Collectable {
  long id, n, size;
  char kind;
  std::atomic<long> version{1};
  std::atomic<long> users{0};
  bool gated;
  std::vector<MetricFamily> Collect() const override {
    static std::atomic<long> serial{0};
    long g = ++serial;
    ++const_cast<Col*>(this)->users;
    emit("{\"cs\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    if (gated) pass("c" + std::to_string(id));
    std::vector<MetricFamily> r;
    for (long j = 0; j < n; ++j) {
      MetricFamily f;
      f.name = "c" + std::to_string(id) + "_" + std::to_string(j);
      f.help = filler(kind, size);
      f.type = MetricType::Gauge;
      ClientMetric m;
      m.gauge.value = version;
      f.metric.push_back(m);
      r.push_back(std::move(f));
    }
    emit("{\"ce\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    --const_cast<Col*>(this)->users;
    return r;
  }
  ~Col() override {
    emit("{\"gone\":" + std::to_string(id) + ",\"users\":" + std::to_string(users) + "}");
  }
};

static std::mutex world_mutex;
static std::map<long, std::vector<std::shared_ptr<Col>>> cols;  // its owners
static std::map<long, std::weak_ptr<Collectable>> weak;
static std::unique_ptr<Exposer> exposers[1024];

static std::map<std::string, std::string> args(std::istream& is) {
  std::map<std::string, std::string> a;
  std::string t;
  while (is >> t) {
    auto p = t.find('=');
    a[t.substr(0, p)] = p == std::string::npos ? "" : t.substr(p + 1);
  }
  return a;
}

static std::string exec(const std::string& op, std::map<std::string, std::string>& a) {
  auto num = [&a](const char* k, long d) { return a.count(k) ? std::stol(a[k]) : d; };
  auto& exposer = exposers[num("x", 0)];
  if (op == "construct") {      // exposers at given addresses, with either constructor
    std::string at = unhex(a["at"]);
    if (num("form", 0) == 0) exposer.reset(new Exposer(at, num("threads", 1)));
    else if (num("form", 0) == 1) exposer.reset(new Exposer(at));
    else exposer.reset(new Exposer({"num_threads", std::to_string(num("threads", 1)), "listening_ports", at}));
    return "";
  }
  if (op == "ports") {
    std::string r;
    for (int p : exposer->GetListeningPorts()) r += (r.empty() ? "" : ",") + std::to_string(p);
    return "\"ports\":[" + r + "]";
  }
  if (op == "new") {
    std::vector<std::string> o{"listening_ports", "127.0.0.1:" + std::to_string(num("port", 0)), "num_threads", std::to_string(num("threads", 1))};
    if (num("keep", 0)) { o.push_back("enable_keep_alive"); o.push_back("yes"); o.push_back("keep_alive_timeout_ms"); o.push_back("3000"); }
    exposer.reset(new Exposer(o));
    return "\"port\":" + std::to_string(exposer->GetListeningPorts().at(0));
  }
  if (op == "destroy") { exposer.reset(); return ""; }
  if (op == "col") {
    auto c = std::make_shared<Col>();
    c->id = num("id", 0);
    c->n = num("n", 1);
    c->size = num("size", 3);
    c->kind = a.count("kind") ? a["kind"][0] : 'a';
    c->gated = num("gated", 0);
    std::lock_guard<std::mutex> l(world_mutex);
    cols[c->id].assign(1 + c->id % 2, c);
    weak[c->id] = c;
    return "";
  }
  if (op == "drop") {
    std::vector<std::shared_ptr<Col>> c;
    {
      std::lock_guard<std::mutex> l(world_mutex);
      c.swap(cols[num("id", 0)]);
    }
    return "";
  }
  if (op == "bump") {
    std::lock_guard<std::mutex> l(world_mutex);
    ++cols.at(num("id", 0)).at(0)->version;
    return "";
  }
  if (op == "reg" || op == "rem") {
    std::weak_ptr<Collectable> w;
    {
      std::lock_guard<std::mutex> l(world_mutex);
      w = weak.at(num("id", 0));
    }
    if (a.count("uri")) {
      if (op == "reg") exposer->RegisterCollectable(w, unhex(a["uri"]));
      else exposer->RemoveCollectable(w, unhex(a["uri"]));
    } else {
      if (op == "reg") exposer->RegisterCollectable(w);
      else exposer->RemoveCollectable(w);
    }
    return "";
  }
  if (op == "auth") {
    long cb = num("cb", 0);
    bool gated = num("gated", 0);
    // accepted credentials: list of hex user:hex password
    std::set<std::pair<std::string, std::string>> ok;
    std::stringstream ss(a["ok"]);
    std::string x;
    while (std::getline(ss, x, ',')) {
      auto q = x.find(':');
      ok.insert({unhex(x.substr(0, q)), unhex(x.substr(q + 1))});
    }
    auto live = std::make_shared<std::atomic<int>>(1);   // detects use of a destroyed callback
    auto f = [cb, gated, ok, live](const std::string& u, const std::string& p) {
      static std::atomic<long> serial{0};
      long g = ++serial;
      emit("{\"as\":" + std::to_string(cb) + ",\"g\":" + std::to_string(g) + ",\"u\":" + hexs(u) + ",\"p\":" + hexs(p) + "}");
      if (gated) pass("a" + std::to_string(cb));
      bool r = *live == 1 && ok.count({u, p}) != 0;
      emit("{\"ae\":" + std::to_string(cb) + ",\"g\":" + std::to_string(g) + "}");
      return r;
    };
    std::string realm = unhex(a["realm"]);
    if (num("noname", 0)) exposer->RegisterAuth(f);
    else if (a.count("uri")) exposer->RegisterAuth(f, realm, unhex(a["uri"]));
    else exposer->RegisterAuth(f, realm);
    return "";
  }
  if (op == "permit" || op == "openall" || op == "closeall") {
    std::lock_guard<std::mutex> l(gate_mutex);
    if (op == "permit") ++permits[a["g"]];
    else { all_open = op == "openall"; permits.clear(); }
    gate_cv.notify_all();
    return "";
  }
  if (op == "sync") return "";
  throw std::logic_error("bad op " + op);
}

struct Actor {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::string> q;
  bool done = false;
  std::thread t;
  void run() {
    for (;;) {
      std::string line;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return done || !q.empty(); });
        if (q.empty()) return;
        line = q.front();
        q.pop_front();
      }
      std::istringstream is(line);
      long n;
      std::string op;
      is >> n >> op;
      auto a = args(is);
      std::string r;
      try {
        r = exec(op, a);
      } catch (const std::exception& e) {
        r = "\"ex\":" + hexs(e.what());
      }
      emit("{\"ret\":" + std::to_string(n) + (r.empty() ? "" : ",") + r + "}");
    }
  }
};

int main() {
  std::map<std::string, std::unique_ptr<Actor>> actors;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto p = line.find(' ');
    std::string name = line.substr(0, p);
    auto& a = actors[name];
    if (!a) {
      a.reset(new Actor);
      a->t = std::thread([&a] { a->run(); });
    }
    std::lock_guard<std::mutex> l(a->m);
    a->q.push_back(line.substr(p + 1));
    a->cv.notify_all();
  }
  {
    std::lock_guard<std::mutex> l(gate_mutex);
    all_open = true;
    gate_cv.notify_all();
  }
  for (auto& a : actors) {
    {
      std::lock_guard<std::mutex> l(a.second->m);
      a.second->done = true;
      a.second->cv.notify_all();
    }
    a.second->t.join();
  }
  for (auto& e : exposers) e.reset();
  cols.clear();
  emit("{\"bye\":1}");
  return 0;
}
