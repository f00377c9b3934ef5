// A world of registries, families and metrics that is driven by textual calls
// through the public API only. Used by the sequential and the concurrent driver.
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>

#include "jsonout.h"
#include "prometheus/counter.h"
#include "prometheus/family.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"
#include "prometheus/check_names.h"

using namespace prometheus;

enum Ty { CT, GA, HI, IN, SU };
inline Ty parse_ty(const std::string& s) {
  switch (s[0]) {
    case 'c': return CT;
    case 'g': return GA;
    case 'h': return HI;
    case 'i': return IN;
    default: return SU;
  }
}

struct CtorArgs {
  double v = 0;
  std::vector<double> b;
  Summary::Quantiles q;
  long max_age_ms = 60000;
  int buckets = 5;
};

struct Call {
  std::string op;
  Ty ty = CT;
  long r = 0, f = 0, o = 0;
  bool merge = true;
  std::string name, help;
  bool sethelp = true;
  Labels lab;
  CtorArgs a;
  bool hasv = false, move = false;
  double v = 0;
  std::vector<double> inc;
  long id = 0;  // id to give to a new object
};

// op fields key=value; lists separated by ','
inline Call parse_call(const std::string& line) {
  Call c;
  std::istringstream is(line);
  is >> c.op;
  std::string t;
  auto doubles = [](const std::string& s) {
    std::vector<double> v;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, ',')) v.push_back(unbits(x));
    return v;
  };
  while (is >> t) {
    auto p = t.find('=');
    std::string k = t.substr(0, p), v = t.substr(p + 1);
    if (k == "ty") c.ty = parse_ty(v);
    else if (k == "r") c.r = std::stol(v);
    else if (k == "f") c.f = std::stol(v);
    else if (k == "o") c.o = std::stol(v);
    else if (k == "id") c.id = std::stol(v);
    else if (k == "beh") c.merge = v == "merge";
    else if (k == "name") c.name = unhex(v);
    else if (k == "help") c.help = unhex(v);
    else if (k == "v") { c.v = unbits(v); c.hasv = true; }
    else if (k == "inc") c.inc = doubles(v);
    else if (k == "lab") {
      std::stringstream ss(v);
      std::string x;
      while (std::getline(ss, x, ',')) {
        auto q = x.find(':');
        c.lab[unhex(x.substr(0, q))] = unhex(x.substr(q + 1));
      }
    } else if (k == "av") c.a.v = unbits(v);
    else if (k == "ab") c.a.b = doubles(v);
    else if (k == "amove") c.move = v == "1";
    else if (k == "aq") {
      auto d = doubles(v);
      for (std::size_t i = 0; i + 1 < d.size(); i += 2) c.a.q.push_back({d[i], d[i + 1]});
    } else if (k == "aage") c.a.max_age_ms = std::stol(v);
    else if (k == "abuckets") c.a.buckets = std::stoi(v);
  }
  return c;
}

struct Fam {
  Ty ty;
  void* p;
};
struct Obj {
  Ty ty;
  void* p;
};

struct World {
  std::map<long, std::unique_ptr<Registry>> regs;
  std::map<long, Fam> fams;
  std::map<long, Obj> objs;
  std::map<void*, long> famid, objid;
  std::map<long, std::shared_ptr<void>> owned;
  std::map<long, std::vector<long>> famobjs;  // objects of a family
  std::map<long, long> famreg;
  long nextid = 1;

  long fam_id(void* p, Ty ty, long r) {
    auto it = famid.find(p);
    if (it != famid.end()) return it->second;
    long id = nextid++;
    famid[p] = id;
    fams[id] = {ty, p};
    famreg[id] = r;
    return id;
  }
  long obj_id(void* p, Ty ty, long f) {
    auto it = objid.find(p);
    if (it != objid.end()) return it->second;
    long id = nextid++;
    objid[p] = id;
    objs[id] = {ty, p};
    famobjs[f].push_back(id);
    return id;
  }
  void forget_obj(long id) {
    auto it = objs.find(id);
    if (it == objs.end()) return;
    objid.erase(it->second.p);
    objs.erase(it);
  }
  void forget_fam(long id) {
    auto it = fams.find(id);
    if (it == fams.end()) return;
    famid.erase(it->second.p);
    fams.erase(it);
    for (auto o : famobjs[id]) forget_obj(o);
    famobjs.erase(id);
  }
};

template <typename T>
struct Make;
template <>
struct Make<Counter> {
  static Counter& in(Family<Counter>& f, const Labels& l, const CtorArgs&) { return f.Add(l); }
  static Counter* alone(const CtorArgs&, bool) { return new Counter(); }
};
template <>
struct Make<Gauge> {
  static Gauge& in(Family<Gauge>& f, const Labels& l, const CtorArgs& a) { return a.v == 0 ? f.Add(l) : f.Add(l, a.v); }
  static Gauge* alone(const CtorArgs& a, bool) { return a.v == 0 ? new Gauge() : new Gauge(a.v); }
};
template <>
struct Make<Histogram> {
  static Histogram& in(Family<Histogram>& f, const Labels& l, const CtorArgs& a) { return f.Add(l, a.b); }
  static Histogram* alone(const CtorArgs& a, bool mv) {
    auto b = a.b;
    return mv ? new Histogram(std::move(b)) : new Histogram(b);
  }
};
template <>
struct Make<Info> {
  static Info& in(Family<Info>& f, const Labels& l, const CtorArgs&) { return f.Add(l); }
  static Info* alone(const CtorArgs&, bool) { return new Info(); }
};
template <>
struct Make<Summary> {
  static Summary& in(Family<Summary>& f, const Labels& l, const CtorArgs& a) {
    return f.Add(l, a.q, std::chrono::milliseconds(a.max_age_ms), a.buckets);
  }
  static Summary* alone(const CtorArgs& a, bool mv) {
    auto q = a.q;
    return mv ? new Summary(std::move(q), std::chrono::milliseconds(a.max_age_ms), a.buckets)
              : new Summary(q, std::chrono::milliseconds(a.max_age_ms), a.buckets);
  }
};

template <typename T>
struct TyOf;
template <> struct TyOf<Counter> { static const Ty ty = CT; };
template <> struct TyOf<Gauge> { static const Ty ty = GA; };
template <> struct TyOf<Histogram> { static const Ty ty = HI; };
template <> struct TyOf<Info> { static const Ty ty = IN; };
template <> struct TyOf<Summary> { static const Ty ty = SU; };

#define DISPATCH(TY, F, ...)                      \
  ((TY) == CT   ? F<Counter>(__VA_ARGS__)         \
   : (TY) == GA ? F<Gauge>(__VA_ARGS__)           \
   : (TY) == HI ? F<Histogram>(__VA_ARGS__)       \
   : (TY) == IN ? F<Info>(__VA_ARGS__)            \
                : F<Summary>(__VA_ARGS__))

template <typename T> detail::Builder<T> mkbuilder();
template <> inline detail::Builder<Counter> mkbuilder<Counter>() { return BuildCounter(); }
template <> inline detail::Builder<Gauge> mkbuilder<Gauge>() { return BuildGauge(); }
template <> inline detail::Builder<Histogram> mkbuilder<Histogram>() { return BuildHistogram(); }
template <> inline detail::Builder<Info> mkbuilder<Info>() { return BuildInfo(); }
template <> inline detail::Builder<Summary> mkbuilder<Summary>() { return BuildSummary(); }

template <typename T>
void* do_build(Registry& r, const Call& c) {
  return &mkbuilder<T>().Name(c.name).Help(c.help).Labels(c.lab).Register(r);
}
template <typename T>
void* do_newfam(const Call& c, std::shared_ptr<void>* own) {
  auto p = std::make_shared<Family<T>>(c.name, c.help, c.lab);
  *own = p;
  return p.get();
}
template <typename T>
void* do_add(void* f, const Call& c) { return &Make<T>::in(*(Family<T>*)f, c.lab, c.a); }
template <typename T>
void* do_newobj(const Call& c, std::shared_ptr<void>* own) {
  std::shared_ptr<T> p(Make<T>::alone(c.a, c.move));
  *own = p;
  return p.get();
}
template <typename T>
bool do_fremove(void* f, void* o) { ((Family<T>*)f)->Remove((T*)o); return true; }
template <typename T>
bool do_has(void* f, const Call& c) { return ((Family<T>*)f)->Has(c.lab); }
template <typename T>
std::vector<MetricFamily> do_fcollect(void* f) { return ((Family<T>*)f)->Collect(); }
template <typename T>
bool do_rremove(Registry& r, void* f) { return r.Remove(*(Family<T>*)f); }
template <typename T>
std::string do_finfo(void* f) {
  auto& fam = *(Family<T>*)f;
  std::string o = "\"name\":" + hexs(fam.GetName()) + ",\"lab\":[";
  bool first = true;
  for (auto& l : fam.GetConstantLabels()) {
    if (!first) o += ",";
    first = false;
    o += "[" + hexs(l.first) + "," + hexs(l.second) + "]";
  }
  return o + "]";
}
template <typename T>
ClientMetric do_ocollect(void* o) { return ((T*)o)->Collect(); }
inline MetricType mty(Ty t) {
  return t == CT ? MetricType::Counter : t == GA ? MetricType::Gauge : t == HI ? MetricType::Histogram
         : t == IN ? MetricType::Info : MetricType::Summary;
}
