// The operations of the concurrent driver for the exposer, with a stand-in for
// the HTTP server library: requests are calls of the program's threads. The
// stand-in keeps civetweb's rules (1.15): a table of handlers under a lock; a
// request holds its handler, whose removal or change waits for the request;
// authorization handlers are not held; closing waits for all requests.
#include <CivetServer.h>
#include <prometheus/collectable.h>
#include <prometheus/exposer.h>
#include <prometheus/metric_family.h>
#include <pthread.h>
#include <strings.h>

#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "conc.h"
#include "jsonout.h"

using namespace prometheus;

bool conc_watch_stacks = true;

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000LL)); }
}}}

// ------------------------------------------------------------- the stand-in
struct mg_connection {
  std::map<std::string, std::string> headers;
  std::string out;
  mg_request_info info;
};
struct Entry { CivetHandler* h; long refs; };
struct Server {
  pthread_mutex_t m;
  pthread_cond_t c;
  std::map<std::string, Entry> handlers;
  std::map<std::string, CivetAuthHandler*> auths;
  CivetServer* cpp = nullptr;
  long active = 0;
  bool up = false;
};
static Server* srv;
static void lock() { pthread_mutex_lock(&srv->m); }
static void unlock() { pthread_mutex_unlock(&srv->m); }
struct Unobserved {                // like rt::Ignore, restores what was before
  int n = rt::ignore;
  Unobserved() { ++rt::ignore; }
  ~Unobserved() { rt::ignore = n; }
};
// waits (under the lock) until nothing uses the handler of the path
static void wait_unused(const std::string& uri) {
  for (;;) {
    bool busy;
    {
      Unobserved u;
      auto it = srv->handlers.find(uri);
      busy = it != srv->handlers.end() && it->second.refs > 0;
    }
    if (!busy) return;
    pthread_cond_wait(&srv->c, &srv->m);
  }
}

static void start(CivetServer* s) {
  lock();
  { Unobserved u; srv->up = true; srv->cpp = s; }
  unlock();
}
CivetServer::CivetServer(const char** o, const CivetCallbacks*, const void* u) : context((mg_context*)this), UserContext(u), userCloseHandler(nullptr) { (void)o; start(this); }
CivetServer::CivetServer(const std::vector<std::string>& o, const CivetCallbacks*, const void* u) : context((mg_context*)this), UserContext(u), userCloseHandler(nullptr) { (void)o; start(this); }
CivetServer::~CivetServer() { close(); }
void CivetServer::close() {
  if (!context) return;
  lock();
  { Unobserved u; srv->up = false; }
  for (;;) {
    long n;
    { Unobserved u; n = srv->active; }
    if (n == 0) break;
    pthread_cond_wait(&srv->c, &srv->m);
  }
  { Unobserved u; srv->handlers.clear(); srv->auths.clear(); }
  unlock();
  context = nullptr;
}
static std::string* copy(const std::string& s) {
  volatile char c = 0;
  for (char x : s) c = x;           // observed
  (void)c;
  Unobserved u;
  return new std::string(s.data(), s.size());
}
void CivetServer::addHandler(const std::string& uri, CivetHandler* h) {
  std::string* k = copy(uri);
  lock();
  wait_unused(*k);
  { Unobserved u; if (srv->up) srv->handlers[*k] = Entry{h, 0}; }
  unlock();
  Unobserved u;
  delete k;
}
void CivetServer::removeHandler(const std::string& uri) {
  std::string* k = copy(uri);
  lock();
  wait_unused(*k);
  { Unobserved u; srv->handlers.erase(*k); }
  unlock();
  Unobserved u;
  delete k;
}
void CivetServer::addAuthHandler(const std::string& uri, CivetAuthHandler* h) {
  std::string* k = copy(uri);
  lock();
  { Unobserved u; if (srv->up) srv->auths[*k] = h; }
  unlock();
  Unobserved u;
  delete k;
}
void CivetServer::removeAuthHandler(const std::string& uri) {
  std::string* k = copy(uri);
  lock();
  { Unobserved u; srv->auths.erase(*k); }
  unlock();
  Unobserved u;
  delete k;
}
std::vector<int> CivetServer::getListeningPorts() { return {8080}; }
std::vector<mg_server_port> CivetServer::getListeningPortsFull() { mg_server_port p{}; p.port = 8080; return {p}; }
const char* CivetServer::getHeader(mg_connection* c, const std::string& n) { return mg_get_header(c, n.c_str()); }
const char* CivetServer::getMethod(mg_connection*) { return "GET"; }
CivetCallbacks::CivetCallbacks() { memset((mg_callbacks*)this, 0, sizeof(mg_callbacks)); }
#define HANDLER(N)                                                        \
  bool CivetHandler::N(CivetServer*, mg_connection*) { return false; }    \
  bool CivetHandler::N(CivetServer* s, mg_connection* c, int* status) {   \
    if (status) *status = -1;                                             \
    return N(s, c);                                                       \
  }
HANDLER(handleGet) HANDLER(handlePost) HANDLER(handleHead) HANDLER(handlePut) HANDLER(handleDelete) HANDLER(handleOptions) HANDLER(handlePatch)

extern "C" {
const char* mg_get_header(const mg_connection* c, const char* n) {
  Unobserved u;
  for (auto& h : c->headers) if (!strcasecmp(h.first.c_str(), n)) return h.second.c_str();
  return nullptr;
}
int mg_printf(mg_connection* c, const char* f, ...) {
  Unobserved u;
  va_list a;
  va_start(a, f);
  char b[4096];
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  c->out.append(b, std::min<int>(n, sizeof b - 1));
  return n;
}
int mg_write(mg_connection* c, const void* p, size_t n) {
  const char* q = (const char*)p;
  volatile char x = 0;
  for (size_t i = 0; i < n; i += 64) x = q[i];   // observed
  (void)x;
  rt_point();
  Unobserved u;
  c->out.append(q, n);
  return (int)n;
}
int mg_send_chunk(mg_connection*, const char*, unsigned int) { Unobserved u; rt_event("{\"ev\":\"unsupported\"}"); return 0; }
const mg_request_info* mg_get_request_info(const mg_connection* c) { return &c->info; }
void mg_set_user_connection_data(const mg_connection* c, void* p) { const_cast<mg_connection*>(c)->info.conn_data = p; }
void* mg_get_user_connection_data(const mg_connection* c) { return c->info.conn_data; }
void mg_lock_connection(mg_connection*) {}
void mg_unlock_connection(mg_connection*) {}
}

// a request: what a worker of the server does
static std::string request(const std::string& path, const std::string& auth, bool gz) {
  mg_connection* c;
  std::string* k;
  {
    Unobserved u;
    c = new mg_connection;
    memset(&c->info, 0, sizeof c->info);
    c->info.request_method = "GET";
    k = new std::string(path);
    c->info.local_uri = c->info.request_uri = k->c_str();
    c->info.num_headers = 0;
    c->headers["Host"] = "localhost";
    if (!auth.empty()) c->headers["Authorization"] = auth;
    if (gz) c->headers["Accept-Encoding"] = "gzip";
  }
  CivetHandler* h = nullptr;
  CivetAuthHandler* a = nullptr;
  CivetServer* s = nullptr;
  bool up;
  lock();
  {
    Unobserved u;
    up = srv->up;
    s = srv->cpp;
    if (up) {
      ++srv->active;
      auto it = srv->handlers.find(*k);
      if (it != srv->handlers.end()) { h = it->second.h; ++it->second.refs; }
    }
  }
  unlock();
  if (up) {
    lock();
    {
      Unobserved u;
      auto it = srv->auths.find(*k);
      if (it != srv->auths.end()) a = it->second;
    }
    unlock();
    bool go = !a || a->authorize(s, c);
    if (go) {
      bool done = h && h->handleGet(s, c);
      if (!done) { Unobserved u; c->out += "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"; }
    }
    lock();
    {
      Unobserved u;
      --srv->active;
      if (h) --srv->handlers[*k].refs;
    }
    pthread_cond_broadcast(&srv->c);
    unlock();
  }
  Unobserved u;
  std::string out = c->out;
  delete c;
  delete k;
  return out;
}

// --------------------------------------------------------------- operations
struct Col : Collectable {
  long id, n, live = 1;
  Col(long i, long k) : id(i), n(k) {}
  std::vector<MetricFamily> Collect() const override {
    {
      Unobserved u;
      rt_event("{\"ev\":\"cs\",\"id\":" + std::to_string(id) + "}");
    }
    std::vector<MetricFamily> r;
    for (long j = 0; j < n; ++j) {
      MetricFamily f;
      f.name = "c" + std::to_string(id) + "_" + std::to_string(j);
      f.help = "aaa";
      f.type = MetricType::Gauge;
      ClientMetric m;
      m.gauge.value = double(live);
      f.metric.push_back(m);
      r.push_back(std::move(f));
    }
    Unobserved u;
    rt_event("{\"ev\":\"ce\",\"id\":" + std::to_string(id) + "}");
    return r;
  }
  ~Col() override {
    live = 0;
    Unobserved u;
    rt_event("{\"ev\":\"gone\",\"id\":" + std::to_string(id) + "}");
  }
};

struct World {
  std::unique_ptr<Exposer> exposer;
  std::map<long, std::shared_ptr<Col>> cols;
  std::map<long, std::weak_ptr<Collectable>> weak;
};
static World* w;

void conc_new_world() {
  Unobserved u;
  srv = new Server;
  memset(&srv->m, 0, sizeof srv->m);
  memset(&srv->c, 0, sizeof srv->c);
  w = new World;
}
void conc_drop_world() {
  w->exposer.reset();
  for (auto& c : w->cols) c.second.reset();
  Unobserved u;
  delete w;
  delete srv;
}

static std::map<std::string, std::string> args(std::istream& is) {
  std::map<std::string, std::string> a;
  std::string t;
  while (is >> t) {
    auto p = t.find('=');
    a[t.substr(0, p)] = p == std::string::npos ? "" : t.substr(p + 1);
  }
  return a;
}

#define LIB(...) rt::ignore -= 1; __VA_ARGS__; rt::ignore += 1
static std::string exec(const std::string& line) {
  std::istringstream is(line);
  std::string op;
  is >> op;
  auto a = args(is);
  auto num = [&a](const char* k, long d) { return a.count(k) ? std::stol(a[k]) : d; };
  auto uri = [&] { return "/x" + std::to_string(num("uri", 1)); };
  if (op == "new") {
    LIB(w->exposer.reset(new Exposer(std::string("127.0.0.1:0"), 2)));
    return "";
  }
  if (op == "destroy") {
    Exposer* e = w->exposer.release();
    LIB(delete e);
    return "";
  }
  if (op == "col") {
    LIB(std::shared_ptr<Col> c(new Col(num("id", 0), num("n", 1))));
    w->weak[c->id] = c;
    w->cols[c->id] = std::move(c);
    return "";
  }
  if (op == "drop") {
    std::shared_ptr<Col> c = std::move(w->cols.at(num("id", 0)));
    LIB(c.reset());
    return "";
  }
  if (op == "reg" || op == "rem") {
    auto& p = w->weak.at(num("id", 0));
    std::string path = uri();
    LIB(std::string q(path); std::weak_ptr<Collectable> x(p);
        if (op == "reg") w->exposer->RegisterCollectable(x, q); else w->exposer->RemoveCollectable(x, q));
    return "";
  }
  if (op == "auth") {
    long cb = num("cb", 0);
    std::set<long> good;
    std::stringstream ss(a["ok"]);
    std::string x;
    while (std::getline(ss, x, ',')) good.insert(std::stol(x));
    std::string path = uri();
    // observed: the callback's state lives and dies with the library's copy
    LIB(auto live = std::make_shared<long>(cb);
        auto f = [live, good](const std::string& u, const std::string&) {
          bool r;
          std::string n;
          {
            Unobserved o;
            n = u.substr(1);
          }
          long id = *live;
          {
            Unobserved o;
            rt_event("{\"ev\":\"as\",\"cb\":" + std::to_string(id) + ",\"u\":" + n + "}");
            r = good.count(std::stol(n)) != 0;
            rt_event("{\"ev\":\"ae\",\"cb\":" + std::to_string(id) + "}");
          }
          return r && *live == id;
        };
        std::string q(path); w->exposer->RegisterAuth(std::move(f), "r", q));
    return "";
  }
  if (op == "get") {
    std::string au = a.count("auth") ? "Basic " + a["auth"] : "";
    std::string path = uri();
    bool gz = a.count("gz");
    LIB(std::string r = request(path, au, gz));
    return "\"raw\":" + hexs(r);
  }
  throw std::logic_error("bad op " + op);
}

std::string conc_exec(long, const std::string& line) {
  Unobserved u;
  try {
    std::string r = exec(line);
    return "{\"ex\":\"\"" + (r.empty() ? r : "," + r) + "}";
  } catch (const std::exception& e) {
    rt::ignore = u.n + 1;
    return std::string("{\"ex\":") + hexs(e.what()) + "}";
  }
}
