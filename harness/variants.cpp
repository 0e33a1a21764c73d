// C04/C05: variants.
#include "common.hpp"
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
using extensions::LoadDetail; using extensions::SlackTerminal;
// every attribute that has one value per variant, seen as a double
struct VAttr { std::string name; int kind; std::function<double(Network&)> get; std::function<void(Network&, double)> set; };   // kind 0: double, k > 0: k integer values
static std::vector<VAttr> attributes() {
  std::vector<VAttr> v;
#define D(NAME, O, G, S) v.push_back({NAME, 0, [](Network& n) -> double { auto& o = O; return o.G(); }, [](Network& n, double x) { auto& o = O; o.S(x); }});
#define K(NAME, N, O, G, S, T) v.push_back({NAME, N, [](Network& n) -> double { auto& o = O; return static_cast<double>(static_cast<long>(o.G())); }, [](Network& n, double x) { auto& o = O; o.S(static_cast<T>(static_cast<long>(x))); }});
  D("load p0", n.getLoad("LOADN"), getP0, setP0) D("load q0", n.getLoad("LOADN"), getQ0, setQ0)
  D("gen targetP", n.getGenerator("GENN"), getTargetP, setTargetP) D("gen targetQ", n.getGenerator("GENN"), getTargetQ, setTargetQ) D("gen targetV", n.getGenerator("GENN"), getTargetV, setTargetV) K("gen regulating", 2, n.getGenerator("GENN"), isVoltageRegulatorOn, setVoltageRegulatorOn, bool)
  D("battery p0", n.getBattery("BATN"), getP0, setP0) D("battery q0", n.getBattery("BATN"), getQ0, setQ0)
  K("shunt sections", 3, n.getShuntCompensator("SHN"), getSectionCount, setSectionCount, unsigned long) D("shunt targetV", n.getShuntCompensator("SHN"), getTargetV, setTargetV) D("shunt deadband", n.getShuntCompensator("SHN"), getTargetDeadband, setTargetDeadband) K("shunt regulating", 2, n.getShuntCompensator("SHN"), isVoltageRegulatorOn, setVoltageRegulatorOn, bool)
  K("linear shunt sections", 4, n.getShuntCompensator("SHB"), getSectionCount, setSectionCount, unsigned long)
  D("svc voltage", n.getStaticVarCompensator("SVC"), getVoltageSetpoint, setVoltageSetpoint) D("svc q", n.getStaticVarCompensator("SVC"), getReactivePowerSetpoint, setReactivePowerSetpoint) K("svc mode", 3, n.getStaticVarCompensator("SVC"), getRegulationMode, setRegulationMode, StaticVarCompensator::RegulationMode)
  D("vsc voltage", n.getVscConverterStation("VSC2"), getVoltageSetpoint, setVoltageSetpoint) D("vsc q", n.getVscConverterStation("VSC2"), getReactivePowerSetpoint, setReactivePowerSetpoint) K("vsc regulating", 2, n.getVscConverterStation("VSC1"), isVoltageRegulatorOn, setVoltageRegulatorOn, bool) D("vsc1 voltage", n.getVscConverterStation("VSC1"), getVoltageSetpoint, setVoltageSetpoint)
  D("dl p0", n.getDanglingLine("DL"), getP0, setP0) D("dl q0", n.getDanglingLine("DL"), getQ0, setQ0)
#define G n.getDanglingLine("DL").getGeneration().get()
  D("dl gen p", G, getTargetP, setTargetP) D("dl gen q", G, getTargetQ, setTargetQ) D("dl gen v", G, getTargetV, setTargetV) K("dl gen regulating", 2, G, isVoltageRegulationOn, setVoltageRegulationOn, bool)
#undef G
  K("hvdc mode", 2, n.getHvdcLine("HVSC"), getConvertersMode, setConvertersMode, HvdcLine::ConvertersMode) D("hvdc p", n.getHvdcLine("HVSC"), getActivePowerSetpoint, setActivePowerSetpoint)
#define R n.getTwoWindingsTransformer("TWT").getRatioTapChanger()
#define PH n.getTwoWindingsTransformer("TWT").getPhaseTapChanger()
  v.push_back({"rtc tap", 3, [](Network& n) -> double { return static_cast<double>(R.getTapPosition() + 1); }, [](Network& n, double x) { R.setTapPosition(static_cast<long>(x) - 1); }});
  K("rtc regulating", 2, R, isRegulating, setRegulating, bool) D("rtc targetV", R, getTargetV, setTargetV) D("rtc deadband", R, getTargetDeadband, setTargetDeadband)
  v.push_back({"ptc tap", 2, [](Network& n) -> double { return static_cast<double>(PH.getTapPosition() - 2); }, [](Network& n, double x) { PH.setTapPosition(static_cast<long>(x) + 2); }});
  K("ptc regulating", 2, PH, isRegulating, setRegulating, bool) D("ptc value", PH, getRegulationValue, setRegulationValue) D("ptc deadband", PH, getTargetDeadband, setTargetDeadband)
#undef R
#undef PH
#define R3 n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger()
  K("leg rtc tap", 2, R3, getTapPosition, setTapPosition, long) D("leg rtc targetV", R3, getTargetV, setTargetV)
#undef R3
  K("switch open", 2, n.getSwitch("B_LOADN"), isOpen, setOpen, bool) K("switch retained", 2, n.getSwitch("B_LOADN"), isRetained, setRetained, bool) K("bus switch open", 2, n.getSwitch("SWB"), isOpen, setOpen, bool)
  D("load P", n.getLoad("LOADB").getTerminal(), getP, setP) D("load Q", n.getLoad("LOADB").getTerminal(), getQ, setQ) D("line P1", n.getLine("LINE").getTerminal1(), getP, setP) D("line Q2", n.getLine("LINE").getTerminal2(), getQ, setQ) D("node P", n.getLoad("LOADN").getTerminal(), getP, setP) D("node Q", n.getGenerator("GENN").getTerminal(), getQ, setQ) D("3wt P3", n.getThreeWindingsTransformer("T3").getLeg3().getTerminal(), getP, setP)
  auto conn = [&v](const std::string& name, const std::function<Terminal&(Network&)>& t) { v.push_back({name, 2, [t](Network& n) -> double { return t(n).isConnected(); }, [t](Network& n, double x) { if (x != 0) t(n).connect(); else t(n).disconnect(); }}); };
  conn("load connected", [](Network& n) -> Terminal& { return n.getLoad("LOADC").getTerminal(); }); conn("line connected", [](Network& n) -> Terminal& { return n.getLine("LINE").getTerminal1(); });
  auto bus = [&v](const std::string& name, const std::function<Terminal&(Network&)>& t, const std::string& b1, const std::string& b2) { v.push_back({name, 2, [t, b1, b2](Network& n) -> double { auto b = t(n).getBusBreakerView().getConnectableBus(); return b ? (b.get().getId() == b1 ? 0 : b.get().getId() == b2 ? 1 : -1) : -2; }, [t, b1, b2](Network& n, double x) { t(n).getBusBreakerView().setConnectableBus(x != 0 ? b2 : b1); }}); };
  bus("load bus", [](Network& n) -> Terminal& { return n.getLoad("LOADB").getTerminal(); }, "B1", "B2"); bus("line bus", [](Network& n) -> Terminal& { return n.getLine("LINE").getTerminal2(); }, "D1", "D2");
  D("bus v", n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get(), getV, setV) D("bus angle", n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get(), getAngle, setAngle)
  D("node bus v", n.getBusbarSection("BBS1").getTerminal().getBusBreakerView().getBus().get(), getV, setV) D("node bus angle", n.getBusbarSection("BBS1").getTerminal().getBusBreakerView().getBus().get(), getAngle, setAngle)
#define LD n.getLoad("LOADC").getExtension<LoadDetail>()
  D("detail fixed p", LD, getFixedActivePower, setFixedActivePower) D("detail fixed q", LD, getFixedReactivePower, setFixedReactivePower) D("detail variable p", LD, getVariableActivePower, setVariableActivePower) D("detail variable q", LD, getVariableReactivePower, setVariableReactivePower)
#undef LD
  v.push_back({"slack terminal", 3, [](Network& n) -> double { auto t = n.getVoltageLevel("VB").getExtension<SlackTerminal>().getTerminal(); return !t ? 0 : &t.get() == &n.getLoad("LOADB").getTerminal() ? 1 : &t.get() == &n.getGenerator("GENB").getTerminal() ? 2 : -1; },
    [](Network& n, double x) { auto& s = n.getVoltageLevel("VB").getExtension<SlackTerminal>(); if (x == 1) s.setTerminal(ref<Terminal>(n.getLoad("LOADB").getTerminal())); else if (x == 2) s.setTerminal(ref<Terminal>(n.getGenerator("GENB").getTerminal())); else s.setTerminal(stdcxx::ref<Terminal>()); }});
  return v;
}
static const std::vector<VAttr>& attrs() { static std::vector<VAttr>* a = nullptr; if (a == nullptr) { a = new std::vector<VAttr>(attributes()); } return *a; }
static void mkVariantsNet(Network& n) {
  buildFull(n);
  n.getLoad("LOADC").newExtension<extensions::LoadDetailAdder>().withFixedActivePower(1.0).withFixedReactivePower(2.0).withVariableActivePower(3.0).withVariableReactivePower(4.0).add();
  n.getVoltageLevel("VB").newExtension<extensions::SlackTerminalAdder>().withTerminal(n.getLoad("LOADB").getTerminal()).add();
}
typedef std::vector<double> Snap;

static void snap(Network& n, Snap& s) { s.clear(); for (auto& a : attrs()) s.push_back(a.get(n)); }
// the model: what each variant holds
struct Model {
  std::map<std::string, Snap> v; std::string working;   // working empty: not set
  void check(Network& n) const {
    VariantManager& m = n.getVariantManager();
    std::set<std::string> ids; for (auto& x : v) ids.insert(x.first);
    sx_assert_msg(m.getVariantIds() == ids, "the variants are the ones created and not removed");
    if (working.empty()) sx_assert_msg(throws([&] { m.getWorkingVariantId(); }) && throws([&] { n.getLoad("LOADN").getP0(); }), "no working variant after it was removed"); else sx_assert(m.getWorkingVariantId() == working);
    for (auto& x : v) {
      m.setWorkingVariant(x.first);
      for (size_t i = 0; i < attrs().size(); ++i) { double got = attrs()[i].get(n); if (!same(got, x.second[i])) { __sx_api_note(("attribute " + attrs()[i].name + " in variant " + x.first).c_str()); sx_fail("an attribute of a variant does not have the value last set in it"); } }
    }
    if (!working.empty()) m.setWorkingVariant(working); else if (true) { /* reset: remove a scratch variant while it is the working one */ m.cloneVariant(VariantManager::getInitialVariantId(), "__x"); m.setWorkingVariant("__x"); m.removeVariant("__x"); }
  }
};
static Model model(Network& n) { Model m; m.working = "InitialVariant"; snap(n, m.v["InitialVariant"]); return m; }
static void set(Network& n, Model& m, size_t a, double x) {
  const VAttr& at = attrs()[a]; __sx_api_note(("set " + at.name).c_str());
  bool ok = true; try { at.set(n, x); } catch (const std::exception&) { ok = false; }
  if (ok) { m.v[m.working][a] = x; sx_reach("set"); }
}
static double value(size_t a, const char* name) { const VAttr& at = attrs()[a]; return at.kind == 0 ? sx_double(name) : static_cast<double>(sx_choose(name, at.kind)); }
static void clone(Network& n, Model& m, const std::string& s, const std::string& t, bool over = false) {
  bool ok = true; try { n.getVariantManager().cloneVariant(s, t, over); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == (m.v.count(s) && (over || !m.v.count(t))), "cloning succeeds iff the source exists and the target is new or may be overwritten");
  if (ok) { Snap c = m.v[s]; m.v[t] = c; }
}
static void remove(Network& n, Model& m, const std::string& t) {
  bool ok = true; try { n.getVariantManager().removeVariant(t); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == (m.v.count(t) && t != "InitialVariant"), "a variant is removed iff it exists and is not the initial one");
  if (ok) { m.v.erase(t); if (m.working == t) m.working.clear(); }
}
static void work(Network& n, Model& m, const std::string& t) {
  bool ok = true; try { n.getVariantManager().setWorkingVariant(t); } catch (const PowsyblException&) { ok = false; }
  sx_assert(ok == (m.v.count(t) > 0)); if (ok) m.working = t;
}
static std::string existing(const Model& m, const char* name) { std::vector<std::string> v; for (auto& x : m.v) v.push_back(x.first); return v[sx_choose(name, v.size())]; }
// different states of the indices: extended, removed in the middle, recycled, reduced and extended again
static void prefix(Network& n, Model& m) {
  switch (sx_choose("prefix", sx_bound(2, 4))) {
    case 2: clone(n, m, "InitialVariant", "A"); break;
    case 0: clone(n, m, "InitialVariant", "A"); clone(n, m, "A", "B"); remove(n, m, "A"); break;                                  // an unused index
    case 1: clone(n, m, "InitialVariant", "A"); clone(n, m, "A", "B"); remove(n, m, "A"); clone(n, m, "B", "C"); break;           // a recycled index
    case 3: clone(n, m, "InitialVariant", "A"); clone(n, m, "A", "B"); remove(n, m, "B"); clone(n, m, "A", "C"); break;           // reduced, then extended
  }
}
// an attribute set in one variant (any value) changes that variant only, before and after any operation on variants
SX_HARNESS(isolation) {
  Network n = mkNet("full"); mkVariantsNet(n); Model m = model(n);
  prefix(n, m);
  size_t a = sx_choose("attribute", attrs().size());
  work(n, m, existing(m, "working"));
  set(n, m, a, value(a, "first"));
  m.check(n);
  std::string src = existing(m, "source");
  switch (sx_choose("operation", 3)) {
    case 0: clone(n, m, src, "N"); break;
    case 1: { std::string dst = existing(m, "target"); sx_assume(dst != src); clone(n, m, src, dst, true); break; }
    case 2: sx_assume(src != m.working); remove(n, m, src); break;
  }
  m.check(n);
  work(n, m, existing(m, "second working"));
  double x = value(a, "second"); if (!sx_thorough()) sx_assume(x >= 0 && x <= 50);   // valid for every attribute
  set(n, m, a, x);
  m.check(n);
}
// every history of operations on variants, all attributes changed in each
static void fill(Network& n, Model& m, int k) {
  const auto& at = attrs();
  for (size_t i = 0; i < at.size(); ++i) { double x = at[i].kind == 0 ? 1.0 + k + 0.25 * static_cast<double>(i % 3) : static_cast<double>((k + i) % at[i].kind); bool ok = true; try { at[i].set(n, x); } catch (const std::exception&) { ok = false; } if (ok) m.v[m.working][i] = x; }
  // the value of a bus of a node/breaker voltage level and a connection depend on the switches: read them back
  snap(n, m.v[m.working]);
}
SX_HARNESS(histories) {
  Network n = mkNet("full"); mkVariantsNet(n); Model m = model(n);
  static const std::string N[] = {"InitialVariant", "A", "B", "C"};
  clone(n, m, N[0], N[1]); clone(n, m, N[0], N[2]);
  int count = 0; static const int S[] = {0, 1, 3, 2}, T[] = {3, 1, 2}; int ns = sx_bound(2, 4), nt = sx_bound(2, 3);
  for (int i = 0, k = sx_bound(3, 3); i < k; ++i) {
    switch (sx_choose("operation", 5)) {
      case 0: { std::string s = N[S[sx_choose("source", ns)]], t = N[T[sx_choose("target", nt)]]; clone(n, m, s, t, m.v.count(t) && sx_bool("overwrite")); if (m.v.count(t)) { work(n, m, t); fill(n, m, ++count); } break; }
      case 1: remove(n, m, N[sx_choose("removed", 4)]); break;
      case 2: work(n, m, N[sx_choose("working", 4)]); if (!m.working.empty()) fill(n, m, ++count); break;
      case 3: {   // a list of targets: all are created or nothing changes
        std::string s = N[S[sx_choose("source", ns)]], t = N[T[sx_choose("target 1", nt)]], u = N[T[sx_choose("target 2", nt)]]; bool over = (m.v.count(t) || m.v.count(u)) && sx_bool("overwrite");
        bool ok = true; try { n.getVariantManager().cloneVariant(s, {t, u}, over); } catch (const PowsyblException&) { ok = false; }
        if (t != u) sx_assert_msg(ok == (m.v.count(s) && (over || (!m.v.count(t) && !m.v.count(u)))), "cloning a list succeeds iff every target is new or may be overwritten");
        if (ok) { Snap c = m.v[s]; m.v[t] = c; m.v[u] = c; sx_reach("list cloned"); } else sx_reach("list refused");
        break; }
      case 4: n.getVariantManager().allowVariantMultiThreadAccess(sx_bool("thread local")); if (m.working.empty() && !n.getVariantManager().isVariantMultiThreadAccessAllowed()) work(n, m, N[0]); break;
    }
    m.check(n);
  }
  sx_reach("end");
}
// objects created when several variants exist hold the requested values in all of them, and are then independent
SX_HARNESS(creation) {
  Network n = mkNet("full"); mkVariantsNet(n); Model m = model(n); prefix(n, m);
  work(n, m, existing(m, "working"));
  double p0 = sx_double("p0"), q0 = sx_double("q0"), t = sx_double("target"); sx_assume(p0 == p0 && q0 == q0 && t > 0 && t - t == 0);
  VoltageLevel& vb = n.getVoltageLevel("VB"); Substation& s = n.getSubstation("S1");
  bool on = sx_bool("on");
  std::function<void()> change; std::function<bool()> changed, unchanged;
  switch (sx_choose("kind", 9)) {
    case 0: { Load& l = vb.newLoad().setId("X").setBus("B1").setConnectableBus("B1").setP0(p0).setQ0(q0).add(); unchanged = [&] { return l.getP0() == p0 && l.getQ0() == q0 && l.getTerminal().isConnected() && isnan_(l.getTerminal().getP()) && isnan_(l.getTerminal().getQ()); }; change = [&] { l.setP0(1.0).setQ0(2.0); l.getTerminal().disconnect(); l.getTerminal().setP(5.0).setQ(6.0); }; changed = [&] { return l.getP0() == 1.0 && l.getQ0() == 2.0 && !l.getTerminal().isConnected() && l.getTerminal().getP() == 5.0 && l.getTerminal().getQ() == 6.0; }; sx_assume(!(p0 == 1.0)); break; }
    case 1: { Generator& g = vb.newGenerator().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0.0).setMaxP(1.0).setTargetP(p0).setTargetQ(q0).setTargetV(t).setVoltageRegulatorOn(on).add(); unchanged = [&] { return g.getTargetP() == p0 && g.getTargetQ() == q0 && g.getTargetV() == t && g.isVoltageRegulatorOn() == on; }; change = [&] { g.setTargetP(1.0).setTargetQ(2.0).setTargetV(3.0).setVoltageRegulatorOn(!on); }; changed = [&] { return g.getTargetP() == 1.0 && g.getTargetQ() == 2.0 && g.getTargetV() == 3.0 && g.isVoltageRegulatorOn() != on; }; break; }
    case 2: { ShuntCompensator& c = vb.newShuntCompensator().setId("X").setBus("B1").setConnectableBus("B1").setSectionCount(1UL).setTargetV(t).setTargetDeadband(t).setVoltageRegulatorOn(on).newLinearModel().setBPerSection(1.0).setMaximumSectionCount(3UL).add().add(); unchanged = [&] { return c.getSectionCount() == 1UL && c.getTargetV() == t && c.getTargetDeadband() == t && c.isVoltageRegulatorOn() == on; }; change = [&] { c.setSectionCount(2UL).setTargetV(7.0).setTargetDeadband(8.0).setVoltageRegulatorOn(!on); }; changed = [&] { return c.getSectionCount() == 2UL && c.getTargetV() == 7.0 && c.getTargetDeadband() == 8.0 && c.isVoltageRegulatorOn() != on; }; break; }
    case 3: { auto& c = vb.newStaticVarCompensator().setId("X").setBus("B1").setConnectableBus("B1").setBmin(0.0).setBmax(1.0).setVoltageSetpoint(t).setReactivePowerSetpoint(q0).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE).add(); unchanged = [&] { return c.getVoltageSetpoint() == t && c.getReactivePowerSetpoint() == q0 && c.getRegulationMode() == StaticVarCompensator::RegulationMode::VOLTAGE; }; change = [&] { c.setVoltageSetpoint(1.0).setReactivePowerSetpoint(2.0).setRegulationMode(StaticVarCompensator::RegulationMode::OFF); }; changed = [&] { return c.getVoltageSetpoint() == 1.0 && c.getReactivePowerSetpoint() == 2.0 && c.getRegulationMode() == StaticVarCompensator::RegulationMode::OFF; }; break; }
    case 4: { auto& c = vb.newVscConverterStation().setId("X").setBus("B1").setConnectableBus("B1").setLossFactor(1.0).setVoltageSetpoint(t).setReactivePowerSetpoint(q0).setVoltageRegulatorOn(on).add(); unchanged = [&] { return c.getVoltageSetpoint() == t && c.getReactivePowerSetpoint() == q0 && c.isVoltageRegulatorOn() == on; }; change = [&] { c.setVoltageSetpoint(1.0).setReactivePowerSetpoint(2.0).setVoltageRegulatorOn(!on); }; changed = [&] { return c.getVoltageSetpoint() == 1.0 && c.getReactivePowerSetpoint() == 2.0 && c.isVoltageRegulatorOn() != on; }; break; }
    case 5: { auto& c = vb.newDanglingLine().setId("X").setBus("B1").setConnectableBus("B1").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setP0(p0).setQ0(q0).newGeneration().setMinP(0.0).setMaxP(1.0).setTargetP(p0).setTargetQ(q0).setTargetV(t).setVoltageRegulationOn(on).add().add(); auto* g = &c.getGeneration().get(); unchanged = [&c, g, p0, q0, t, on] { return c.getP0() == p0 && c.getQ0() == q0 && g->getTargetP() == p0 && g->getTargetQ() == q0 && g->getTargetV() == t && g->isVoltageRegulationOn() == on; }; change = [&c, g, on] { c.setP0(1.0).setQ0(2.0); g->setTargetP(3.0).setTargetQ(4.0).setTargetV(5.0).setVoltageRegulationOn(!on); }; changed = [&c, g, on] { return c.getP0() == 1.0 && c.getQ0() == 2.0 && g->getTargetP() == 3.0 && g->getTargetQ() == 4.0 && g->getTargetV() == 5.0 && g->isVoltageRegulationOn() != on; }; break; }
    case 6: { auto& c = vb.newBattery().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0.0).setMaxP(1.0).setP0(p0).setQ0(q0).add(); unchanged = [&] { return c.getP0() == p0 && c.getQ0() == q0; }; change = [&] { c.setP0(1.0).setQ0(2.0); }; changed = [&] { return c.getP0() == 1.0 && c.getQ0() == 2.0; }; break; }
    case 7: { auto& x = mkTwtB(s, "X", "VB", "B1", "VB", "B2"); auto* r = &x.newRatioTapChanger().setLowTapPosition(0L).setTapPosition(1L).setLoadTapChangingCapabilities(true).setRegulating(on).setTargetV(t).setTargetDeadband(t).setRegulationTerminal(ref<Terminal>(x.getTerminal1())).beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
      unchanged = [r, t, on] { return r->getTapPosition() == 1 && r->getTargetV() == t && r->getTargetDeadband() == t && r->isRegulating() == on; }; change = [r, on] { r->setTapPosition(0L).setTargetV(2.0).setTargetDeadband(3.0).setRegulating(!on); }; changed = [r, on] { return r->getTapPosition() == 0 && r->getTargetV() == 2.0 && r->getTargetDeadband() == 3.0 && r->isRegulating() != on; }; break; }
    case 8: { auto& x = mkTwtB(s, "X", "VB", "B1", "VB", "B2"); auto* r = &x.newPhaseTapChanger().setLowTapPosition(0L).setTapPosition(1L).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulating(on).setRegulationValue(t).setTargetDeadband(t).setRegulationTerminal(ref<Terminal>(x.getTerminal1())).beginStep().setAlpha(1.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setAlpha(1.0).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
      unchanged = [r, t, on] { return r->getTapPosition() == 1 && r->getRegulationValue() == t && r->getTargetDeadband() == t && r->isRegulating() == on; }; change = [r, on] { r->setTapPosition(0L).setRegulationValue(2.0).setTargetDeadband(3.0).setRegulating(!on); }; changed = [r, on] { return r->getTapPosition() == 0 && r->getRegulationValue() == 2.0 && r->getTargetDeadband() == 3.0 && r->isRegulating() != on; }; break; }
  }
  std::string w = m.working;
  for (auto& x : m.v) { work(n, m, x.first); sx_assert_msg(unchanged(), "a created object has the requested values in every variant"); }
  std::string c = existing(m, "changed"); work(n, m, c); change();
  for (auto& x : m.v) { work(n, m, x.first); if (x.first == c) sx_assert_msg(changed(), "a value set in the working variant is not read back"); else sx_assert_msg(unchanged(), "a value set in a variant changed another variant"); }
  clone(n, m, c, "Z"); work(n, m, "Z"); sx_assert_msg(changed(), "a clone does not hold the values of its source");
  m.check(n);
  sx_reach("end");
}
// removing an object while several variants exist, then using the variants
SX_HARNESS(removal) {
  Network n = fullNetwork(); VariantManager& v = n.getVariantManager();
  v.cloneVariant("InitialVariant", "A"); if (sx_bool("hole")) { v.cloneVariant("A", "B"); v.removeVariant("A"); v.cloneVariant("B", "D"); v.cloneVariant("B", "E"); v.removeVariant("D"); }
  std::vector<std::string> ids; for (auto& i : idsOf(n)) { if (dynamic_cast<Connectable*>(&n.get<Identifiable>(i)) || dynamic_cast<HvdcLine*>(&n.get<Identifiable>(i))) ids.push_back(i); }
  std::string id = ids[sx_choose("object", ids.size())]; Identifiable& o = n.get<Identifiable>(id);
  auto names = v.getVariantIds(); std::vector<std::string> vs(names.begin(), names.end());
  v.setWorkingVariant(vs[sx_choose("working", vs.size())]);
  try { if (auto* c = dynamic_cast<Connectable*>(&o)) c->remove(); else dynamic_cast<HvdcLine&>(o).remove(); sx_reach("removed"); } catch (const ValidationException&) { sx_reach("refused"); }
  for (auto& x : vs) { v.setWorkingVariant(x); consistent(n); dump(n); for (Bus& b : n.getBusView().getBuses()) b.getConnectedComponent(); }
  v.cloneVariant(vs[0], "Z"); for (auto& x : vs) if (x != "InitialVariant") v.removeVariant(x);
  v.setWorkingVariant("Z"); consistent(n); dump(n);
}
// a bus is removed iff no terminal uses it, in any variant
SX_HARNESS(buses) {
  Network n = mkNet("N"); VoltageLevel& vl = mkVl(mkSub(n, "S"), "V", false); for (auto* b : {"B1", "B2", "B3"}) mkBus(vl, b); mkLoadB(vl, "L", "B1"); mkLoadB(vl, "M", "B1");
  VariantManager& v = n.getVariantManager(); v.cloneVariant("InitialVariant", "A"); v.cloneVariant("A", "B"); if (sx_bool("hole")) v.removeVariant("A");
  auto names = v.getVariantIds(); std::vector<std::string> vs(names.begin(), names.end()); static const std::string B[] = {"B1", "B2", "B3"};
  std::set<std::string> used; std::map<std::string, std::string> at;
  for (auto& x : vs) { v.setWorkingVariant(x); for (auto* l : {"L", "M"}) { auto& b = B[*l == 'L' ? sx_choose("bus", 3) : x == vs.back() || sx_thorough() ? sx_choose("bus", sx_bound(2, 3)) : 0]; Terminal& t = n.getLoad(l).getTerminal(); t.getBusBreakerView().setConnectableBus(b); if (*l == 'L' && sx_bool("disconnected")) t.disconnect(); used.insert(b); at[x + l] = b; } }
  v.setWorkingVariant(vs[sx_choose("working", vs.size())]);
  if (sx_bool("all")) { if (!throws([&] { vl.getBusBreakerView().removeAllBuses(); })) sx_fail("a bus that terminals use was removed"); }
  else {
    auto& b = B[sx_choose("removed", 3)]; bool done = !throws([&] { vl.getBusBreakerView().removeBus(b); });
    sx_assert_msg(done == (used.count(b) == 0), "a bus is removed iff no terminal uses it in any variant"); sx_reach(done ? "removed" : "refused");
  }
  for (auto& x : vs) { v.setWorkingVariant(x); for (auto* l : {"L", "M"}) { auto c = n.getLoad(l).getTerminal().getBusBreakerView().getConnectableBus(); sx_assert(c && c.get().getId() == at[x + l] && &n.getBusBreakerView().getBus(at[x + l]).get() == &c.get()); } consistent(n); }
}
// a moved network keeps its variants, whatever indices are in use
SX_HARNESS(move) {
  Network n0 = mkNet("full"); mkVariantsNet(n0); Model m = model(n0); prefix(n0, m);
  work(n0, m, existing(m, "working")); fill(n0, m, 3);
  n0.getVariantManager().allowVariantMultiThreadAccess(sx_bool("thread local"));
  Network n(std::move(n0));
  m.check(n);
  clone(n, m, existing(m, "source"), "N"); work(n, m, "N"); fill(n, m, 5); m.check(n);
  remove(n, m, "N"); work(n, m, "InitialVariant"); m.check(n);
  sx_reach("end");
}
// the working variant of a network does not depend on the one of another network
SX_HARNESS(two_networks) {
  Network a = mkNet("a"), b = mkNet("b");
  for (Network* n : {&a, &b}) { VoltageLevel& vl = mkVl(mkSub(*n, "S"), "V", false); mkBus(vl, "B"); mkLoadB(vl, "L", "B"); n->getVariantManager().cloneVariant("InitialVariant", "A"); n->getVariantManager().cloneVariant("InitialVariant", "B"); }
  a.getVariantManager().allowVariantMultiThreadAccess(sx_bool("a thread local")); b.getVariantManager().allowVariantMultiThreadAccess(sx_bool("b thread local"));
  static const std::string N[] = {"InitialVariant", "A", "B"};
  std::string w[2] = {"InitialVariant", "InitialVariant"}; std::map<std::string, double> val[2]; for (int i = 0; i < 2; ++i) for (auto& x : N) val[i][x] = 10.0;
  Network* ns[2] = {&a, &b};
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    int j = sx_bool("network"); Network& n = *ns[j];
    switch (sx_choose("operation", 3)) {
      case 0: w[j] = N[sx_choose("variant", 3)]; n.getVariantManager().setWorkingVariant(w[j]); break;
      case 1: { double x = sx_double("p0"); sx_assume(x == x); if (!w[j].empty()) { n.getLoad("L").setP0(x); val[j][w[j]] = x; } break; }
      case 2: { if (!val[j].count("B")) break; n.getVariantManager().removeVariant("B"); n.getVariantManager().cloneVariant("A", "B"); val[j]["B"] = val[j]["A"]; if (w[j] == "B") w[j] = ""; break; }
    }
    for (int q = 0; q < 2; ++q) { if (w[q].empty()) sx_assert(throws([&] { ns[q]->getVariantManager().getWorkingVariantId(); })); else { sx_assert_msg(ns[q]->getVariantManager().getWorkingVariantId() == w[q], "the working variant of a network changed with the one of another network"); sx_assert(ns[q]->getLoad("L").getP0() == val[q][w[q]]); } }
  }
  sx_reach("end");
}
