// C05: with multi-thread access, each thread works on a variant of its own.
#include "common.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
// runs what it is given, one thing at a time, in a thread of its own
struct Worker {
  std::mutex m; std::condition_variable c; std::function<void()> job; bool has = false, stop = false; std::thread t;
  Worker() : t([this]() { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [this]() { return has || stop; }); if (stop) return; job(); has = false; c.notify_all(); } }) {}
  ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; } c.notify_all(); t.join(); }
  void run(const std::function<void()>& f) { std::unique_lock<std::mutex> l(m); job = f; has = true; c.notify_all(); c.wait(l, [this]() { return !has; }); }
};
struct Val { double p0; bool open; unsigned long count; };
static const std::string N[] = {"InitialVariant", "A", "B"};
struct World {
  Network n = mkNet("N"); std::unique_ptr<Worker> w[3]; std::string work[3]; std::map<std::string, Val> val; bool multi = false; int threads;
  explicit World(int k) : threads(k) {
    VoltageLevel& v = mkVl(mkSub(n, "S"), "V", false); VoltageLevel& u = mkVl(n.getSubstation("S"), "U", false); mkBus(v, "B1"); mkBus(v, "B2"); mkBus(u, "C"); VoltageLevel& nb = mkVl(n.getSubstation("S"), "NB", true); mkBbs(nb, "S0", 0); mkBbs(nb, "S1", 1); mkBSw(v, "SW", "B1", "B2"); mkLoadB(v, "L", "B1"); mkLineB(n, "L1", "V", "B1", "U", "C"); mkLineB(n, "L2", "V", "B2", "U", "C");
    v.newShuntCompensator().setId("SH").setBus("B2").setConnectableBus("B2").setSectionCount(1UL).newLinearModel().setBPerSection(0.5).setMaximumSectionCount(3UL).add().add();
    val["InitialVariant"] = {10.0, false, 1UL}; n.getVariantManager().cloneVariant(N[0], {N[1], N[2]}); val["A"] = val["B"] = val[N[0]]; for (int i = 1; i < k; ++i) w[i].reset(new Worker()); work[0] = N[0];
  }
  void in(int t, const std::function<void()>& f) { if (t == 0) f(); else w[t]->run(f); }
  std::string& working(int t) { return work[multi ? t : 0]; }
  bool att(int t, const std::function<void()>& f) { bool ok = true; in(t, [&]() { try { f(); } catch (const PowsyblException&) { ok = false; } }); return ok; }
  // what each thread sees
  void check() {
    for (int t = 0; t < threads; ++t) in(t, [&]() {
      auto& vm = n.getVariantManager(); std::set<std::string> ids; for (auto& x : val) ids.insert(x.first); sx_assert_msg(vm.getVariantIds() == ids && vm.isVariantMultiThreadAccessAllowed() == multi, "every thread sees the same variants"); const std::string& me = working(t); Load& l = n.getLoad("L"); Switch& s = n.getSwitch("SW");
      if (me.empty()) { sx_assert_msg(throwsE<PowsyblException>([&]() { vm.getWorkingVariantId(); }) && throwsE<PowsyblException>([&]() { l.getP0(); }) && throwsE<PowsyblException>([&]() { s.isOpen(); }) && throwsE<PowsyblException>([&]() { l.getTerminal().getBusView().getBus(); }), "a thread without a working variant reads nothing"); return; }
      const Val& v = val.at(me); sx_assert_msg(vm.getWorkingVariantId() == me, "the working variant of a thread is the one it chose"); sx_assert_msg(l.getP0() == v.p0 && s.isOpen() == v.open && n.getShuntCompensator("SH").getSectionCount() == v.count, "a thread reads the values of its working variant");
      size_t b = 0; for (const Bus& x : n.getVoltageLevel("V").getBusView().getBuses()) { ++b; sx_assert_msg(x.isInMainConnectedComponent(), "components of the working variant"); } sx_assert_msg(b == (v.open ? 2UL : 1UL), "buses of the working variant");
    });
  }
};
static void step(World& w, int i) {
  auto& vm = w.n.getVariantManager(); int t = static_cast<int>(sx_choose("thread", w.threads)); std::string me = w.working(t);
  switch (sx_choose("op", 9)) {
    case 0: { std::string x = N[sx_choose("variant", 3)]; bool ok = w.att(t, [&]() { vm.setWorkingVariant(x); }); sx_assert_msg(ok == (w.val.count(x) > 0), "an existing variant can be chosen"); if (ok) w.working(t) = x; break; }
    case 1: { double x = sx_double("p0"); sx_assume(x == x); bool ok = w.att(t, [&]() { w.n.getLoad("L").setP0(x); }); sx_assert_msg(ok == !me.empty(), "a thread writes iff it has a working variant"); if (ok) { w.val[me].p0 = x; sx_reach("written"); } else sx_reach("no variant"); break; }
    case 2: { bool ok = w.att(t, [&]() { Switch& s = w.n.getSwitch("SW"); s.setOpen(!s.isOpen()); }); sx_assert_msg(ok == !me.empty(), "a thread switches iff it has a working variant"); if (ok) w.val[me].open = !w.val[me].open; break; }
    case 3: { std::string x = N[1 + sx_choose("removed", 2)]; for (int k = 0; k < w.threads; ++k) if (k != t && w.multi && w.working(k) == x) return; bool ok = w.att(t, [&]() { vm.removeVariant(x); }); sx_assert_msg(ok == (w.val.count(x) > 0), "an existing variant can be removed"); w.val.erase(x); if (w.working(t) == x) { w.working(t) = ""; sx_reach("own variant removed"); } break; }
    case 4: { static const int F[] = {0, 1, 0, 1, 2, 2}, T[] = {2, 2, 1, 1, 1, 2}; unsigned long q = sx_choose("clone", sx_bound(3, 6)); std::string x = N[F[q]], y = N[T[q]]; bool over = sx_thorough() ? sx_bool("overwrite") : true; bool ok = w.att(t, [&]() { vm.cloneVariant(x, y, over); }); sx_assert_msg(ok == (w.val.count(x) && (over || !w.val.count(y))), "a variant is cloned iff it exists and the target may be written"); if (ok) { Val v = w.val[x]; w.val[y] = v; sx_reach("cloned"); } break; }
    case 7: {   // what is not of a variant: done, or refused without a trace
      std::string id; bool there = false; unsigned long k = sx_choose("structure", sx_bound(2, 5)); static const char* const ID[] = {"XN", "X", "XB", "XS", "XL"}; id = ID[k]; there = static_cast<bool>(w.n.find(id)); auto ids = idsOf(w.n); VoltageLevel& v = w.n.getVoltageLevel("V"); VoltageLevel& nb = w.n.getVoltageLevel("NB");
      bool ok = w.att(t, [&]() { if (k == 1) { if (there) w.n.getLoad(id).remove(); else mkLoadB(v, id, "B1"); } else if (k == 2) { if (there) v.getBusBreakerView().removeBus(id); else mkBus(v, id); } else if (k == 3) { if (there) v.getBusBreakerView().removeSwitch(id); else mkBSw(v, id, "B1", "B2", true); } else if (k == 4) { if (there) w.n.getLine(id).remove(); else mkLineB(w.n, id, "V", "B1", "U", "C"); } else { if (there) nb.getNodeBreakerView().removeSwitch(id); else mkSw(nb, id, 0, 1, true); } });
      if (!me.empty()) sx_assert_msg(ok, "a thread that has a working variant changes the structure"); if (ok) { if (there) ids.erase(id); else ids.insert(id); sx_reach("structure"); } else sx_reach("structure refused"); sx_assert_msg(idsOf(w.n) == ids, "done or refused without a trace"); w.in(t, [&]() { VariantManager& m = w.n.getVariantManager(); std::string back = w.working(t); m.setWorkingVariant(N[0]); consistent(w.n); if (!back.empty()) m.setWorkingVariant(back); }); if (me.empty()) w.working(t) = N[0]; break; }
    case 5: { bool on = sx_bool("multi"); if (on != w.multi) { std::string mine = me; bool ok = w.att(t, [&]() { vm.allowVariantMultiThreadAccess(on); }); sx_assert(ok); w.multi = on; for (int k = 0; k < w.threads; ++k) w.work[k] = ""; w.working(t) = mine.empty() && !on ? N[0] : mine; sx_reach(on ? "on" : "off"); } else sx_assert(w.att(t, [&]() { vm.allowVariantMultiThreadAccess(on); })); break; }
    case 6: { unsigned long c = sx_thorough() ? sx_choose("count", 4) : 2; bool ok = w.att(t, [&]() { w.n.getShuntCompensator("SH").setSectionCount(c); }); sx_assert_msg(ok == !me.empty(), "a thread sets a count iff it has a working variant"); if (ok) w.val[me].count = c; break; }
    default: { unsigned long c = 1 + sx_choose("maximum", sx_bound(1, 3)); bool ok = w.att(t, [&]() { w.n.getShuntCompensator("SH").getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(c); }); bool want = !me.empty(); for (auto& x : w.val) want = want && x.second.count <= c; sx_assert_msg(ok == want, "what every variant shares is checked against every variant, in a thread that has one"); w.att(t, [&]() { w.n.getShuntCompensator("SH").getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(3UL); }); break; }
  }
  (void)i; w.check();
}
SX_HARNESS(schedules) { World w(2); w.n.getVariantManager().allowVariantMultiThreadAccess(true); w.multi = true; for (int i = 0, k = sx_bound(3, 4); i < k; ++i) step(w, i); sx_reach("end"); }
SX_HARNESS(three) { World w(3); w.n.getVariantManager().allowVariantMultiThreadAccess(true); w.multi = true; for (int t = 1; t < 3; ++t) { std::string x = N[sx_choose("first", 3)]; w.in(t, [&]() { w.n.getVariantManager().setWorkingVariant(x); }); w.work[t] = x; } w.check(); for (int i = 0, k = sx_bound(2, 3); i < k; ++i) step(w, i); sx_reach("end"); }
