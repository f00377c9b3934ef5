// Executes call sequences read from stdin against the real library and prints
// one JSON result per call. "begin <id>" starts a new world.
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <ctime>
#include <iostream>

#include "world.h"

// virtual steady clock, advanced by the op "adv"
static long long g_now_ns = 1000000000LL;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now_ns)); }
}}}

// virtual wall clock, used while a gauge is set to the current time
static bool g_wall_on = false, g_wall_used = false;
static long long g_wall_ns = 0;
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!g_wall_on || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI)) return (int)syscall(SYS_clock_gettime, id, t);
  g_wall_used = true;
  t->tv_sec = g_wall_ns / 1000000000;
  t->tv_nsec = g_wall_ns % 1000000000;
  return 0;
}
time_t time(time_t* r) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME_COARSE, &t);
  if (r) *r = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval* v, void*) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
int timespec_get(struct timespec* t, int base) noexcept {
  clock_gettime(CLOCK_REALTIME, t);
  return base;
}
}

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point(duration(t.tv_sec * 1000000000LL + t.tv_nsec));
}
}}}

struct Skip {};
static std::map<long, long> g_ret;  // call number -> id of the object it returned
static long ref(long call) {
  auto it = g_ret.find(call);
  if (it == g_ret.end()) throw Skip();
  return it->second;
}

static std::string exec(World& w, Call c) {
  static const std::string objops = " inc dec set settime reset value ocollect obs obsm bulk ";
  static const std::string famops = " add fremove has finfo fcollect rremove ";
  auto is = [&c](const std::string& set) { return set.find(" " + c.op + " ") != std::string::npos; };
  if (is(famops)) {
    c.f = ref(c.f);
    if (!w.fams.count(c.f)) throw Skip();
  }
  if (is(objops) || (c.op == "fremove" && c.o)) {
    c.o = ref(c.o);
    if (!w.objs.count(c.o)) throw Skip();
  }
  auto ok = [](const std::string& s) { return s.empty() ? std::string("{\"ex\":\"\"}") : "{\"ex\":\"\"," + s + "}"; };
  if (c.op == "newreg") {
    w.regs[c.r].reset(new Registry(c.merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw));
    return ok("");
  }
  if (c.op == "delreg") {
    w.regs.erase(c.r);
    return ok("");
  }
  if (c.op == "build") {
    void* p = DISPATCH(c.ty, do_build, *w.regs.at(c.r), c);
    return ok("\"id\":" + std::to_string(w.fam_id(p, c.ty, c.r)));
  }
  if (c.op == "newfam") {
    std::shared_ptr<void> own;
    void* p = DISPATCH(c.ty, do_newfam, c, &own);
    long id = w.fam_id(p, c.ty, 0);
    w.owned[id] = own;
    return ok("\"id\":" + std::to_string(id));
  }
  if (c.op == "add") {
    Fam f = w.fams.at(c.f);
    void* p = DISPATCH(f.ty, do_add, f.p, c);
    return ok("\"id\":" + std::to_string(w.obj_id(p, f.ty, c.f)));
  }
  if (c.op == "newobj") {
    std::shared_ptr<void> own;
    void* p = DISPATCH(c.ty, do_newobj, c, &own);
    long id = w.obj_id(p, c.ty, 0);
    w.owned[id] = own;
    return ok("\"id\":" + std::to_string(id));
  }
  if (c.op == "fremove") {
    Fam f = w.fams.at(c.f);
    void* p = c.o ? w.objs.at(c.o).p : nullptr;
    DISPATCH(f.ty, do_fremove, f.p, p);
    if (c.o) {
      auto& v = w.famobjs[c.f];
      for (auto x : v) if (x == c.o) { w.forget_obj(c.o); break; }
    }
    return ok("");
  }
  if (c.op == "has") {
    Fam f = w.fams.at(c.f);
    return ok(std::string("\"res\":") + (DISPATCH(f.ty, do_has, f.p, c) ? "true" : "false"));
  }
  if (c.op == "finfo") {
    Fam f = w.fams.at(c.f);
    return ok(DISPATCH(f.ty, do_finfo, f.p));
  }
  if (c.op == "fcollect") {
    Fam f = w.fams.at(c.f);
    return ok("\"res\":" + jfams(DISPATCH(f.ty, do_fcollect, f.p)));
  }
  if (c.op == "rcollect") return ok("\"res\":" + jfams(w.regs.at(c.r)->Collect()));
  if (c.op == "rremove") {
    Fam f = w.fams.at(c.f);
    bool b = DISPATCH(f.ty, do_rremove, *w.regs.at(c.r), f.p);
    if (b) w.forget_fam(c.f);
    return ok(std::string("\"res\":") + (b ? "true" : "false"));
  }
  if (c.op == "adv") {
    g_now_ns += (long long)c.v;
    return ok("");
  }
  Obj o = w.objs.at(c.o);
  if (c.op == "inc") {
    if (o.ty == CT) { auto& x = *(Counter*)o.p; if (c.hasv) x.Increment(c.v); else x.Increment(); }
    else { auto& x = *(Gauge*)o.p; if (c.hasv) x.Increment(c.v); else x.Increment(); }
    return ok("");
  }
  if (c.op == "dec") { auto& x = *(Gauge*)o.p; if (c.hasv) x.Decrement(c.v); else x.Decrement(); return ok(""); }
  if (c.op == "set") { ((Gauge*)o.p)->Set(c.v); return ok(""); }
  if (c.op == "settime") {
    long long a = std::time(nullptr);
    if (c.hasv) {
      g_wall_ns = (long long)(c.v * 1000) * 1000000LL + (c.inc.empty() ? 0 : (long long)c.inc[0]);
      g_wall_used = false;
      g_wall_on = true;
    }
    ((Gauge*)o.p)->SetToCurrentTime();
    g_wall_on = false;
    if (c.hasv && g_wall_used) return ok("\"t0\":" + u64(g_wall_ns / 1000000000) + ",\"t1\":" + u64(g_wall_ns / 1000000000));
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    long long b = ts.tv_sec;
    return ok("\"t0\":" + u64(a) + ",\"t1\":" + u64(b));
  }
  if (c.op == "reset") { if (o.ty == CT) ((Counter*)o.p)->Reset(); else ((Histogram*)o.p)->Reset(); return ok(""); }
  if (c.op == "value") return ok("\"res\":" + bits(o.ty == CT ? ((Counter*)o.p)->Value() : ((Gauge*)o.p)->Value()));
  if (c.op == "ocollect") return ok("\"res\":" + jmetric(DISPATCH(o.ty, do_ocollect, o.p), mty(o.ty)));
  if (c.op == "obs") { if (o.ty == HI) ((Histogram*)o.p)->Observe(c.v); else ((Summary*)o.p)->Observe(c.v); return ok(""); }
  if (c.op == "obsm") {  // observes each value of a list
    for (double x : c.inc) if (o.ty == HI) ((Histogram*)o.p)->Observe(x); else ((Summary*)o.p)->Observe(x);
    return ok("");
  }
  if (c.op == "bulk") { ((Histogram*)o.p)->ObserveMultiple(c.inc, c.v); return ok(""); }
  throw std::logic_error("bad op " + c.op);
}

int main() {
  std::string line;
  long callno = 0;
  auto w = std::unique_ptr<World>(new World);
  while (std::getline(std::cin, line)) {
    if (line.compare(0, 5, "begin") == 0) {
      w.reset(new World);
      g_ret.clear();
      callno = 0;
      std::cout << line << "\n" << std::flush;
      continue;
    }
    Call c = parse_call(line);
    std::string res;
    ++callno;
    try {
      res = exec(*w, c);
      auto p = res.find("\"id\":");
      if (p != std::string::npos && (c.op == "build" || c.op == "newfam" || c.op == "add" || c.op == "newobj"))
        g_ret[callno] = std::stol(res.substr(p + 5));
    } catch (const Skip&) {
      res = "{\"skip\":1}";
    } catch (const std::invalid_argument&) {
      res = "{\"ex\":\"invalid_argument\"}";
    } catch (const std::length_error&) {
      res = "{\"ex\":\"length_error\"}";
    } catch (const std::out_of_range& e) {  // id unknown to the driver
      res = "{\"ex\":\"noid\"}";
    } catch (const std::exception& e) {
      res = "{\"ex\":\"other\"}";
    } catch (...) {
      res = "{\"ex\":\"other\"}";
    }
    res.insert(1, "\"f\":" + std::to_string(g_ret.count(c.f) ? g_ret[c.f] : 0) +
                      ",\"o\":" + std::to_string(g_ret.count(c.o) ? g_ret[c.o] : 0) + ",");
    std::cout << res << "\n" << std::flush;
  }
}
