// Hosts Gateways. Reads commands "<actor> <callno> <op> [args]" from stdin and
// executes each on its actor's thread; prints one JSON line per event to the
// descriptor that was its standard output when it started:
//   {"ret":n,...}  call n returned      {"begun":n}  an asynchronous operation was issued
//   {"cs":id,"g":s} Collect() of collectable id begins   {"ce":id,"g":s} ends
//   {"gone":id}    collectable id is destroyed
#include <curl/curl.h>
#include <fcntl.h>
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>
#include <prometheus/metric_family.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <vector>

#include "jsonout.h"

using namespace prometheus;

static int out_fd = 1;
static std::mutex out_mutex;
static void emit(const std::string& s) {
  std::string l = s + "\n";
  std::lock_guard<std::mutex> lock(out_mutex);
  if (write(out_fd, l.data(), l.size())) {}
}

// gates: work named g goes on after a permit for g, or when all gates are open
static std::mutex gate_mutex;
static std::condition_variable gate_cv;
static std::map<std::string, long> permits;
static bool all_open = true;
static void pass(const std::string& g) {
  std::unique_lock<std::mutex> lock(gate_mutex);
  gate_cv.wait(lock, [&] { return all_open || permits[g] > 0; });
  if (!all_open) --permits[g];
}

static std::atomic<long> serial{0};

struct Col : Collectable {
  long id, n, size;
  bool gated, serials;   // serials: each collection reports a number of its own
  std::atomic<long> version{1};
  std::atomic<long> users{0};
  std::vector<MetricFamily> Collect() const override {
    long g = ++serial;
    ++const_cast<Col*>(this)->users;
    emit("{\"cs\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    if (gated) pass("c" + std::to_string(id));
    std::vector<MetricFamily> r;
    for (long j = 0; j < n; ++j) {
      MetricFamily f;
      f.name = "c" + std::to_string(id) + "_" + std::to_string(j);
      f.help = std::string(size, 'a');
      if (size >= 100) f.help[size / 2] = 0;
      f.type = MetricType::Gauge;
      ClientMetric m;
      m.gauge.value = serials ? g : version.load();
      f.metric.push_back(m);
      r.push_back(std::move(f));
    }
    emit("{\"ce\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    --const_cast<Col*>(this)->users;
    return r;
  }
  ~Col() override { emit("{\"gone\":" + std::to_string(id) + ",\"users\":" + std::to_string(users) + "}"); }
};

static std::mutex world_mutex;
static std::map<long, std::vector<std::shared_ptr<Col>>> cols;  // its owners
static std::map<long, std::weak_ptr<Collectable>> weak;
static std::map<long, std::unique_ptr<Gateway>> gateways;

static std::map<std::string, std::string> args(std::istream& is) {
  std::map<std::string, std::string> a;
  std::string t;
  while (is >> t) {
    auto p = t.find('=');
    a[t.substr(0, p)] = p == std::string::npos ? "" : t.substr(p + 1);
  }
  return a;
}

static Labels labels(const std::string& s) {
  Labels l;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, ',')) {
    auto q = x.find(':');
    l.insert({unhex(x.substr(0, q)), unhex(x.substr(q + 1))});
  }
  return l;
}

static std::string exec(const std::string& op, std::map<std::string, std::string>& a, long n) {
  auto num = [&a](const char* k, long d) { return a.count(k) ? std::stol(a[k]) : d; };
  auto gw = [&]() -> Gateway& {
    std::lock_guard<std::mutex> l(world_mutex);
    return *gateways.at(num("gw", 1));
  };
  if (op == "gw") {
    std::unique_ptr<Gateway> g;
    auto job = unhex(a["job"]);
    auto lab = labels(a["labels"]);
    std::function<void(CURL*)> setup;
    if (a.count("ua")) {
      auto ua = std::make_shared<std::string>(unhex(a["ua"]));
      setup = [ua](CURL* c) { curl_easy_setopt(c, CURLOPT_USERAGENT, ua->c_str()); };
    }
    if (a["kind"] == "url") {
      g.reset(new Gateway(unhex(a["url"]), setup, job, lab));
    } else if (a["kind"] == "setup") {
      g.reset(new Gateway(unhex(a["host"]), a["port"], setup, job, lab));
    } else if (a["kind"] == "cred") {
      g.reset(new Gateway(unhex(a["host"]), a["port"], job, lab, unhex(a["user"]), unhex(a["pass"]), std::chrono::seconds(num("secs", 0))));
    } else {
      g.reset(new Gateway(unhex(a["host"]), a["port"], job, lab));
    }
    std::lock_guard<std::mutex> l(world_mutex);
    gateways[num("gw", 1)] = std::move(g);
    return "";
  }
  if (op == "end") {
    std::unique_ptr<Gateway> g;
    {
      std::lock_guard<std::mutex> l(world_mutex);
      g = std::move(gateways.at(num("gw", 1)));
      gateways.erase(num("gw", 1));
    }
    g.reset();
    return "";
  }
  if (op == "col") {
    auto c = std::make_shared<Col>();
    c->id = num("id", 0);
    c->n = num("n", 1);
    c->size = num("size", 3);
    c->gated = num("gated", 0);
    c->serials = num("serials", 0);
    std::lock_guard<std::mutex> l(world_mutex);
    cols[c->id].assign(1 + c->id % 2, c);
    weak[c->id] = c;
    return "";
  }
  if (op == "drop") {
    std::vector<std::shared_ptr<Col>> c;
    {
      std::lock_guard<std::mutex> l(world_mutex);
      c.swap(cols[num("id", 0)]);
    }
    return "";
  }
  if (op == "bump") {
    std::lock_guard<std::mutex> l(world_mutex);
    ++cols.at(num("id", 0)).at(0)->version;
    return "";
  }
  if (op == "reg") {
    std::weak_ptr<Collectable> w;
    {
      std::lock_guard<std::mutex> l(world_mutex);
      w = weak.at(num("id", 0));
    }
    if (a.count("labels")) {
      auto l = labels(a["labels"]);
      gw().RegisterCollectable(w, &l);
    } else {
      gw().RegisterCollectable(w);
    }
    return "";
  }
  if (op == "header") return std::string("\"res\":") + (gw().AddHttpHeader(unhex(a["h"])) ? "true" : "false");
  if (op == "push" || op == "pushadd" || op == "del" || op == "delinst") {
    auto& g = gw();
    int res;
    if (num("async", 0)) {
      std::future<int> f = op == "push" ? g.AsyncPush() : op == "pushadd" ? g.AsyncPushAdd() : op == "del" ? g.AsyncDelete() : g.AsyncDeleteForInstance();
      emit("{\"begun\":" + std::to_string(n) + "}");
      res = f.get();
    } else {
      res = op == "push" ? g.Push() : op == "pushadd" ? g.PushAdd() : op == "del" ? g.Delete() : g.DeleteForInstance();
    }
    return "\"res\":" + std::to_string(res);
  }
  if (op == "permit" || op == "openall" || op == "closeall") {
    std::lock_guard<std::mutex> l(gate_mutex);
    if (op == "permit") ++permits[a["g"]];
    else { all_open = op == "openall"; permits.clear(); }
    gate_cv.notify_all();
    return "";
  }
  if (op == "sync") return "";
  throw std::logic_error("bad op " + op);
}

struct Actor {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::string> q;
  bool done = false;
  std::thread t;
  void run() {
    for (;;) {
      std::string line;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return done || !q.empty(); });
        if (q.empty()) return;
        line = q.front();
        q.pop_front();
      }
      std::istringstream is(line);
      long n;
      std::string op;
      is >> n >> op;
      auto a = args(is);
      std::string r;
      try {
        r = exec(op, a, n);
      } catch (const std::exception& e) {
        r = "\"ex\":" + hexs(e.what());
      }
      emit("{\"ret\":" + std::to_string(n) + (r.empty() ? "" : ",") + r + "}");
    }
  }
};

int main() {
  // answers of the server end up in the standard output
  out_fd = dup(1);
  int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  curl_global_init(CURL_GLOBAL_ALL);
  std::map<std::string, std::unique_ptr<Actor>> actors;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto p = line.find(' ');
    std::string name = line.substr(0, p);
    auto& a = actors[name];
    if (!a) {
      a.reset(new Actor);
      a->t = std::thread([&a] { a->run(); });
    }
    std::lock_guard<std::mutex> l(a->m);
    a->q.push_back(line.substr(p + 1));
    a->cv.notify_all();
  }
  {
    std::lock_guard<std::mutex> l(gate_mutex);
    all_open = true;
    gate_cv.notify_all();
  }
  for (auto& a : actors) {
    {
      std::lock_guard<std::mutex> l(a.second->m);
      a.second->done = true;
      a.second->cv.notify_all();
    }
    a.second->t.join();
  }
  gateways.clear();
  cols.clear();
  emit("{\"bye\":1}");
  return 0;
}
