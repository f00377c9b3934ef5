// The operations of the concurrent driver. Compiled with the same access
// instrumentation as the library because it instantiates the library's header
// templates; the driver's own bookkeeping runs under rt::Ignore.
#include "conc.h"

#include <chrono>

#include "world.h"

// the steady clock moves only by "adv" calls
static long long g_now = 1000000000LL;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  rt::Ignore ig;
  return time_point(duration(g_now));
}
}}}

void rt_fail_alloc(long n);
bool conc_watch_stacks = false;

static World* w;
static std::map<long, long>* g_ret;   // call number -> object id

void conc_new_world() {
  rt::Ignore ig;
  w = new World;
  g_now = 1000000000LL;
  g_ret = new std::map<long, long>;
}
void conc_drop_world() {
  // registries are library objects: destroyed with observation on
  std::map<long, std::unique_ptr<Registry>> regs;
  std::map<long, std::shared_ptr<void>> owned;
  {
    rt::Ignore ig;
    regs.swap(w->regs);
    owned.swap(w->owned);
    delete w;
    delete g_ret;
  }
  for (auto& r : regs) r.second.reset();
  for (auto& o : owned) o.second.reset();
  rt::Ignore ig;
  regs.clear();
  owned.clear();
}

static std::string ok(const std::string& s) { return s.empty() ? std::string("{\"ex\":\"\"}") : "{\"ex\":\"\"," + s + "}"; }

// returns the text of the result; everything but the library call itself is
// done under Ignore
static std::string exec(Call& c, Obj o, Fam f, Registry* r) {
#define LIB(expr) --rt::ignore; expr; ++rt::ignore
  struct Restore {
    int n = rt::ignore;
    ~Restore() { rt::ignore = n; }
  } restore;
  if (c.op == "newreg") {
    LIB(auto* p = new Registry(c.merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw));
    w->regs[c.r].reset(p);
    return ok("");
  }
  if (c.op == "build") {
    LIB(void* p = DISPATCH(c.ty, do_build, *r, c));
    return ok("\"id\":" + std::to_string(w->fam_id(p, c.ty, c.r)));
  }
  if (c.op == "newfam") {
    std::shared_ptr<void> own;
    LIB(void* p = DISPATCH(c.ty, do_newfam, c, &own));
    long id = w->fam_id(p, c.ty, 0);
    w->owned[id] = own;
    return ok("\"id\":" + std::to_string(id));
  }
  if (c.op == "add") {
    LIB(void* p = DISPATCH(f.ty, do_add, f.p, c));
    return ok("\"id\":" + std::to_string(w->obj_id(p, f.ty, c.f)));
  }
  if (c.op == "newobj") {
    std::shared_ptr<void> own;
    LIB(void* p = DISPATCH(c.ty, do_newobj, c, &own));
    long id = w->obj_id(p, c.ty, 0);
    w->owned[id] = own;
    return ok("\"id\":" + std::to_string(id));
  }
  if (c.op == "fremove") {
    LIB(DISPATCH(f.ty, do_fremove, f.p, o.p));
    return ok("");
  }
  if (c.op == "has") {
    LIB(bool b = DISPATCH(f.ty, do_has, f.p, c));
    return ok(std::string("\"res\":") + (b ? "true" : "false"));
  }
  if (c.op == "fcollect") {
    LIB(auto v = DISPATCH(f.ty, do_fcollect, f.p));
    return ok("\"res\":" + jfams(v));
  }
  if (c.op == "rcollect") {
    LIB(auto v = r->Collect());
    return ok("\"res\":" + jfams(v));
  }
  if (c.op == "rremove") {
    LIB(bool b = DISPATCH(f.ty, do_rremove, *r, f.p));
    return ok(std::string("\"res\":") + (b ? "true" : "false"));
  }
  if (c.op == "inc") {
    if (o.ty == CT) { auto& x = *(Counter*)o.p; LIB(if (c.hasv) x.Increment(c.v); else x.Increment()); }
    else { auto& x = *(Gauge*)o.p; LIB(if (c.hasv) x.Increment(c.v); else x.Increment()); }
    return ok("");
  }
  if (c.op == "dec") { auto& x = *(Gauge*)o.p; LIB(if (c.hasv) x.Decrement(c.v); else x.Decrement()); return ok(""); }
  if (c.op == "set") { LIB(((Gauge*)o.p)->Set(c.v)); return ok(""); }
  if (c.op == "reset") {
    LIB(if (o.ty == CT) ((Counter*)o.p)->Reset(); else ((Histogram*)o.p)->Reset());
    return ok("");
  }
  if (c.op == "value") {
    LIB(double v = o.ty == CT ? ((Counter*)o.p)->Value() : ((Gauge*)o.p)->Value());
    return ok("\"res\":" + bits(v));
  }
  if (c.op == "ocollect") {
    LIB(auto m = DISPATCH(o.ty, do_ocollect, o.p));
    return ok("\"res\":" + jmetric(m, mty(o.ty)));
  }
  if (c.op == "obs") {
    LIB(if (o.ty == HI) ((Histogram*)o.p)->Observe(c.v); else ((Summary*)o.p)->Observe(c.v));
    return ok("");
  }
  if (c.op == "adv") { g_now += (long long)c.v; return ok(""); }
  if (c.op == "bulk") { LIB(((Histogram*)o.p)->ObserveMultiple(c.inc, c.v)); return ok(""); }
  throw std::logic_error("bad op " + c.op);
}

std::string conc_exec(long i, const std::string& line) {
  rt::Ignore ig;
  std::string res;
  long fid = 0, oid = 0;
  try {
    Call c = parse_call(line);
    Fam f{CT, nullptr};
    Obj o{CT, nullptr};
    Registry* r = nullptr;
    if (c.f) {
      auto it = g_ret->find(c.f);
      if (it == g_ret->end()) return "{\"skip\":1}";
      fid = it->second;
      f = w->fams.at(fid);
    }
    if (c.o) {
      auto it = g_ret->find(c.o);
      if (it == g_ret->end()) return "{\"skip\":1}";
      oid = it->second;
      o = w->objs.at(oid);
    }
    if (c.r && c.op != "newreg" && w->regs.count(c.r)) r = w->regs.at(c.r).get();
    if (c.id) rt_fail_alloc(c.id);
    res = exec(c, o, f, r);
    auto p = res.find("\"id\":");
    if (p != std::string::npos && (c.op == "build" || c.op == "newfam" || c.op == "add" || c.op == "newobj"))
      (*g_ret)[i] = std::stol(res.substr(p + 5));
  } catch (const std::invalid_argument&) {
    res = "{\"ex\":\"invalid_argument\"}";
  } catch (const std::length_error&) {
    res = "{\"ex\":\"length_error\"}";
  } catch (const std::bad_alloc&) {
    res = "{\"ex\":\"bad_alloc\"}";
  } catch (const std::exception&) {
    res = "{\"ex\":\"other\"}";
  }
  rt_fail_alloc(0);
  res.insert(1, "\"f\":" + std::to_string(fid) + ",\"o\":" + std::to_string(oid) + ",");
  return res;
}
