// The operations of the concurrent driver for the gateway client, with a
// stand-in for libcurl: a request is an event of the history; its body, URL and
// headers are read where libcurl would read them, and answered as planned.
#include <curl/curl.h>
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>
#include <prometheus/metric_family.h>

#include <cstdarg>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "conc.h"
#include "jsonout.h"

using namespace prometheus;

bool conc_watch_stacks = true;

struct Unobserved {                // like rt::Ignore, restores what was before
  int n = rt::ignore;
  Unobserved() { ++rt::ignore; }
  ~Unobserved() { rt::ignore = n; }
};

struct World {
  std::unique_ptr<Gateway> gw;
  std::map<long, std::shared_ptr<Collectable>> cols;
  std::map<long, std::weak_ptr<Collectable>> weak;
  std::vector<std::string> outs;
  long serial = 0, arrived = 0;
};
static World* w;

// ------------------------------------------------------------- the stand-in
struct Easy {
  std::string url, custom, user, pass, owned;
  const char* body = nullptr;
  long size = -1;
  curl_slist* headers = nullptr;
  int method = 0;      // 0 GET 1 POST 2 PUT 3 HEAD
  long code = 0;
  long unsupported = 0;
  std::string ua;
};
static std::string* text(const char* p) {   // reads a string of the library
  volatile char c = 0;
  size_t n = 0;
  while ((c = p[n])) ++n;
  Unobserved u;
  return new std::string(p, n);
}
static std::string take(std::string* s) {
  std::string r(s->data(), s->size());
  Unobserved u;
  delete s;
  return r;
}
static std::string base64(const std::string& s) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    r += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
    r += i + 2 < s.size() ? t[v & 63] : '=';
  }
  return r;
}

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL* curl_easy_init(void) { return new Easy; }
void curl_easy_cleanup(CURL* h) { delete (Easy*)h; }
void curl_easy_reset(CURL* h) {
  Easy& e = *(Easy*)h;
  e = Easy();
}
#undef curl_easy_setopt
#undef curl_easy_getinfo
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
  Easy& e = *(Easy*)h;
  va_list a;
  va_start(a, o);
  switch ((int)o) {
    case CURLOPT_URL: e.url = take(text(va_arg(a, const char*))); break;
    case CURLOPT_HTTPHEADER: e.headers = va_arg(a, curl_slist*); break;
    case CURLOPT_USERPWD: {
      const char* p = va_arg(a, const char*);
      std::string s = p ? take(text(p)) : std::string();
      auto q = s.find(':');
      e.user = s.substr(0, q);
      e.pass = q == std::string::npos ? "" : s.substr(q + 1);
      break;
    }
    case CURLOPT_USERNAME: e.user = take(text(va_arg(a, const char*))); break;
    case CURLOPT_PASSWORD: e.pass = take(text(va_arg(a, const char*))); break;
    case CURLOPT_USERAGENT: e.ua = take(text(va_arg(a, const char*))); break;
    case CURLOPT_CUSTOMREQUEST: {
      const char* p = va_arg(a, const char*);
      e.custom = p ? take(text(p)) : std::string();
      break;
    }
    case CURLOPT_POSTFIELDS: e.body = va_arg(a, const char*); e.method = 1; break;
    case CURLOPT_COPYPOSTFIELDS: {
      const char* p = va_arg(a, const char*);
      e.owned = e.size >= 0 ? std::string(p, e.size) : take(text(p));
      e.body = e.owned.data();
      e.method = 1;
      break;
    }
    case CURLOPT_POSTFIELDSIZE: e.size = va_arg(a, long); break;
    case CURLOPT_POSTFIELDSIZE_LARGE: e.size = (long)va_arg(a, curl_off_t); break;
    case CURLOPT_POST: e.method = va_arg(a, long) ? 1 : 0; break;
    case CURLOPT_HTTPGET: if (va_arg(a, long)) e.method = 0; break;
    case CURLOPT_NOBODY:
      if (va_arg(a, long)) e.method = 3;
      else if (e.method == 3) e.method = 0;
      break;
    case CURLOPT_HTTPAUTH: case CURLOPT_TIMEOUT: case CURLOPT_TIMEOUT_MS: case CURLOPT_CONNECTTIMEOUT: case CURLOPT_CONNECTTIMEOUT_MS:
    case CURLOPT_NOSIGNAL: case CURLOPT_VERBOSE: case CURLOPT_TCP_NODELAY: case CURLOPT_TCP_KEEPALIVE: case CURLOPT_ERRORBUFFER:
    case CURLOPT_WRITEFUNCTION: case CURLOPT_WRITEDATA: case CURLOPT_HEADERFUNCTION: case CURLOPT_HEADERDATA: case CURLOPT_PRIVATE:
    case CURLOPT_NOPROGRESS: case CURLOPT_FORBID_REUSE: case CURLOPT_FRESH_CONNECT: case CURLOPT_SSL_VERIFYPEER: case CURLOPT_SSL_VERIFYHOST:
      break;
    default: e.unsupported = o;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  Easy& e = *(Easy*)h;
  va_list a;
  va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = e.code;
  else e.unsupported = i;
  va_end(a);
  return CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
char* curl_easy_escape(CURL*, const char* s, int n) {
  Unobserved u;
  std::string r, t = n ? std::string(s, n) : std::string(s);
  for (unsigned char c : t) {
    char b[4];
    if (isalnum(c) || strchr("-._~", c)) r += char(c);
    else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
  }
  return strdup(r.c_str());
}
char* curl_escape(const char* s, int n) { return curl_easy_escape(nullptr, s, n); }
void curl_free(void* p) { free(p); }
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  std::string* t = text(s);
  size_t n = t->size();
  char* d = new char[n + 1];
  memcpy(d, t->data(), n);
  d[n] = 0;
  { Unobserved u; delete t; }
  curl_slist* x = new curl_slist;
  x->data = d;
  x->next = nullptr;
  if (!l) return x;
  curl_slist* p = l;
  while (p->next) p = p->next;
  p->next = x;
  return l;
}
void curl_slist_free_all(curl_slist* l) {
  while (l) {
    curl_slist* n = l->next;
    delete[] l->data;
    delete l;
    l = n;
  }
}
CURLcode curl_easy_perform(CURL* h) {
  Easy& e = *(Easy*)h;
  e.code = 0;
  // the header
  std::string ev = e.custom.empty() ? (e.method == 0 ? "GET" : e.method == 1 ? "POST" : e.method == 2 ? "PUT" : "HEAD") : e.custom;
  ev = "\"m\":\"" + ev + "\",\"url\":" + hexs(e.url) + ",\"user\":" + hexs(e.user) + ",\"pass\":" + hexs(e.pass) + ",\"hdrs\":[";
  const char* sep = "";
  for (curl_slist* l = e.headers; l; l = l->next) { ev += sep + hexs(take(text(l->data))); sep = ","; }
  ev += "]";
  rt_point();
  // the body
  std::string b;
  if (e.method == 1 && e.body) {
    if (e.size >= 0) {
      long half = e.size / 2;
      b.append(e.body, half);
      rt_point();
      b.append(e.body + half, e.size - half);
    } else {
      b = take(text(e.body));
    }
  }
  ev += ",\"body\":" + hexs(b);
  long q, code;
  std::string out;
  {
    Unobserved u;
    q = ++w->arrived;
    out = q <= (long)w->outs.size() ? w->outs[q - 1] : std::string("ok");
    code = out == "ok" ? 200 : out == "fail" ? 400 + q : 0;
    if (e.unsupported) rt_event("{\"ev\":\"unsupported\",\"o\":" + std::to_string(e.unsupported) + "}");
    rt_event("{\"ev\":\"req\",\"q\":" + std::to_string(q) + "," + ev + "}");
    rt_event("{\"ev\":\"ans\",\"q\":" + std::to_string(q) + ",\"out\":" + (code ? "{\"k\":\"status\",\"s\":" + std::to_string(code) + "}" : "{\"k\":\"fault\",\"s\":0}") + "}");
  }
  e.code = code;
  return code ? CURLE_OK : CURLE_COULDNT_CONNECT;
}
}

// --------------------------------------------------------------- operations
struct Col : Collectable {
  long id, n, live = 1;
  Col(long i, long k) : id(i), n(k) {}
  std::vector<MetricFamily> Collect() const override {
    long g;
    {
      Unobserved u;
      g = ++w->serial;
      rt_event("{\"ev\":\"cs\",\"id\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    }
    std::vector<MetricFamily> r;
    for (long j = 0; j < n; ++j) {
      MetricFamily f;
      f.name = "c" + std::to_string(id) + "_" + std::to_string(j);
      f.help = "aaa";
      f.type = MetricType::Gauge;
      ClientMetric m;
      m.gauge.value = double(g) * double(live);
      f.metric.push_back(m);
      r.push_back(std::move(f));
    }
    Unobserved u;
    rt_event("{\"ev\":\"ce\",\"id\":" + std::to_string(id) + ",\"g\":" + std::to_string(g) + "}");
    return r;
  }
  ~Col() override {
    live = 0;
    Unobserved u;
    rt_event("{\"ev\":\"gone\",\"id\":" + std::to_string(id) + "}");
  }
};

void conc_new_world() {
  Unobserved u;
  w = new World;
}
void conc_drop_world() {
  w->gw.reset();
  for (auto& c : w->cols) c.second.reset();
  Unobserved u;
  delete w;
}

static std::map<std::string, std::string> args(std::istream& is) {
  std::map<std::string, std::string> a;
  std::string t;
  while (is >> t) {
    auto p = t.find('=');
    a[t.substr(0, p)] = p == std::string::npos ? "" : t.substr(p + 1);
  }
  return a;
}
static Labels labels(const std::string& s) {
  Labels l;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, ',')) {
    auto q = x.find(':');
    l.insert({unhex(x.substr(0, q)), unhex(x.substr(q + 1))});
  }
  return l;
}

#define LIB(...) rt::ignore -= 1; __VA_ARGS__; rt::ignore += 1
static std::string exec(const std::string& line) {
  std::istringstream is(line);
  std::string op;
  is >> op;
  auto a = args(is);
  auto num = [&a](const char* k, long d) { return a.count(k) ? std::stol(a[k]) : d; };
  if (op == "gw") {
    auto job = unhex(a["job"]);
    auto lab = labels(a["labels"]);
    auto user = unhex(a["user"]), pass = unhex(a["pass"]);
    LIB(w->gw.reset(new Gateway("127.0.0.1", "9091", job, lab, user, pass)));
    return "";
  }
  if (op == "end") {
    Gateway* g = w->gw.release();
    LIB(delete g);
    return "";
  }
  if (op == "outs") {
    std::stringstream ss(a["o"]);
    std::string x;
    while (std::getline(ss, x, ',')) w->outs.push_back(x);
    return "";
  }
  if (op == "col") {
    LIB(std::shared_ptr<Collectable> c(new Col(num("id", 0), num("n", 1))));
    w->weak[num("id", 0)] = c;
    w->cols[num("id", 0)] = std::move(c);
    return "";
  }
  if (op == "drop") {
    std::shared_ptr<Collectable> c = std::move(w->cols.at(num("id", 0)));
    LIB(c.reset());
    return "";
  }
  if (op == "reg") {
    auto& p = w->weak.at(num("id", 0));
    auto l = labels(a["labels"]);
    LIB(std::weak_ptr<Collectable> x(p); w->gw->RegisterCollectable(x, &l));
    return "";
  }
  if (op == "header") {
    std::string h = unhex(a["h"]);
    LIB(std::string t(h); bool b = w->gw->AddHttpHeader(t));
    return std::string("\"res\":") + (b ? "1" : "0");
  }
  Gateway& g = *w->gw;
  int res;
  if (num("async", 0)) {
    LIB({
      std::future<int> f = op == "push" ? g.AsyncPush() : op == "pushadd" ? g.AsyncPushAdd() : op == "del" ? g.AsyncDelete() : g.AsyncDeleteForInstance();
      rt_point();
      res = f.get();
    });
  } else {
    LIB(res = op == "push" ? g.Push() : op == "pushadd" ? g.PushAdd() : op == "del" ? g.Delete() : g.DeleteForInstance());
  }
  return "\"res\":" + std::to_string(res);
}

std::string conc_exec(long, const std::string& line) {
  Unobserved u;
  try {
    std::string r = exec(line);
    return "{\"ex\":\"\"" + (r.empty() ? r : "," + r) + "}";
  } catch (const std::exception& e) {
    rt::ignore = u.n + 1;
    return std::string("{\"ex\":") + hexs(e.what()) + "}";
  }
}
