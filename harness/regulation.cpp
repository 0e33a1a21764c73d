// C19: regulating terminals.
#include "describe.hpp"
#include "rules.hpp"
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
using powsybl::iidm::extensions::SlackTerminal;
static const char* const REG[] = {"GENN", "GENB", "SVC", "SHN", "SHB", "TWT.rtc", "TWT.ptc", "T3.leg2.rtc"};
static RatioTapChanger& rtc(Network& n, unsigned long r) { return r == 5 ? n.getTwoWindingsTransformer("TWT").getRatioTapChanger() : n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger(); }
static PhaseTapChanger& ptc(Network& n) { return n.getTwoWindingsTransformer("TWT").getPhaseTapChanger(); }
static std::string keyOf(unsigned long r) { return std::string(REG[r]) + (r < 5 ? ".regterm" : ".term"); }
static Terminal& own(Network& n, unsigned long r) { return n.get<Injection>(REG[r]).getTerminal(); }
static stdcxx::Reference<Terminal> get(Network& n, unsigned long r) {
  switch (r) { case 0: case 1: return ref(n.getGenerator(REG[r]).getRegulatingTerminal()); case 2: return ref(n.getStaticVarCompensator("SVC").getRegulatingTerminal()); case 3: case 4: return ref(n.getShuntCompensator(REG[r]).getRegulatingTerminal()); case 6: return ptc(n).getRegulationTerminal(); default: return rtc(n, r).getRegulationTerminal(); }
}
static void set(Network& n, unsigned long r, const stdcxx::Reference<Terminal>& t) {
  switch (r) { case 0: case 1: n.getGenerator(REG[r]).setRegulatingTerminal(t); break; case 2: n.getStaticVarCompensator("SVC").setRegulatingTerminal(t); break; case 3: case 4: n.getShuntCompensator(REG[r]).setRegulatingTerminal(t); break; case 6: ptc(n).setRegulationTerminal(t); break; default: rtc(n, r).setRegulationTerminal(t); }
}
static bool on(Network& n, unsigned long r) { return r == 6 ? ptc(n).isRegulating() : rtc(n, r).isRegulating(); }
static void turn(Network& n, unsigned long r, bool b) { if (r == 6) ptc(n).setRegulating(b); else rtc(n, r).setRegulating(b); }
static const char* const OWNER[] = {"LOADB", "LINE", "T3", "BBS1", "GENB", "TWT", "TIE", "LCC2", "DL", "BATN"};
static Terminal& target(Network& n, unsigned long w) {
  switch (w) { case 1: return n.getLine("LINE").getTerminal2(); case 2: return n.getThreeWindingsTransformer("T3").getLeg3().getTerminal(); case 5: return n.getTwoWindingsTransformer("TWT").getTerminal1(); case 6: return n.getLine("TIE").getTerminal1(); default: return n.get<Injection>(OWNER[w]).getTerminal(); }
}
static bool att(const std::function<void()>& f) { try { f(); return true; } catch (const ValidationException&) { return false; } }
SX_HARNESS(setting) {
  Network n = anyNetwork(), other = mkNet("other"); VoltageLevel& ov = mkVl(mkSub(other, "OS"), "OV", false); mkBus(ov, "OB"); Load& ol = mkLoadB(ov, "LOADB", "OB"); unsigned long r = sx_choose("regulator", 8);
  n.getTwoWindingsTransformer("TWT").getRatioTapChanger().setRegulating(false); bool ltc = true; if (r == 5 || r == 7) { ltc = sx_bool("load tap changing"); rtc(n, r).setLoadTapChangingCapabilities(ltc); }
  for (int i = 0, k = sx_bound(2, 3); i < k; ++i) {
    if (r >= 5) { bool b = sx_bool("regulating"); bool term = static_cast<bool>(get(n, r)); Desc d = describe(n); bool done = att([&]() { turn(n, r, b); }); sx_assert_msg(done == (!b || term || (r != 6 && !ltc)), "a tap changer regulates iff it has what it needs"); if (!done) sameDesc(d, describe(n)); }
    unsigned long t = sx_choose("terminal", 8); stdcxx::Reference<Terminal> x = t == 0 ? stdcxx::Reference<Terminal>() : t == 1 ? ref(ol.getTerminal()) : ref(target(n, t - 2)); bool reg = r >= 5 && on(n, r); bool ok = t != 1 && (t != 0 || r < 5 || !reg || (r != 6 && !ltc)); auto old = get(n, r); Desc before = describe(n);
    bool done = att([&]() { set(n, r, x); }); sx_assert_msg(done == ok, "a regulating terminal is accepted iff it belongs to the network and is not needed"); std::string k1 = keyOf(r); sameDesc(before, describe(n), [&](const std::string& s) { return done && s == k1; });
    auto now = get(n, r); if (!done) sx_assert(now == old); else if (t == 0 && r < 5) sx_assert_msg(now == own(n, r), "no terminal stands for the own terminal"); else sx_assert_msg(now == x, "the terminal given"); sx_reach(done ? "accepted" : "refused");
  }
}
SX_HARNESS(adding) {
  Network n = anyNetwork(), other = mkNet("other"); VoltageLevel& ov = mkVl(mkSub(other, "OS"), "OV", false); mkBus(ov, "OB"); Load& ol = mkLoadB(ov, "LOADB", "OB"); VoltageLevel& v = n.getVoltageLevel("VB"); auto& t2 = n.getTwoWindingsTransformer("TWT"); auto& leg = n.getThreeWindingsTransformer("T3").getLeg3();
  t2.getRatioTapChanger().setRegulating(false); unsigned long r = sx_choose("regulator", 6), t = sx_choose("terminal", 6); bool reg = sx_bool("regulating"), ltc = r == 3 || r == 5 ? sx_bool("load tap changing") : true; stdcxx::Reference<Terminal> x = t == 0 ? stdcxx::Reference<Terminal>() : t == 1 ? ref(ol.getTerminal()) : ref(target(n, t - 2)); Desc before = describe(n);
  auto ratio = [&](RatioTapChangerHolder& h) { h.newRatioTapChanger().setLowTapPosition(0L).setTapPosition(0L).setLoadTapChangingCapabilities(ltc).setRegulating(reg).setTargetV(225.0).setTargetDeadband(2.0).setRegulationTerminal(x).beginStep().setRho(0.9).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().add(); };
  bool done = att([&]() {
    if (r == 0) v.newGenerator().setId("NEW").setBus("B1").setConnectableBus("B1").setMinP(0.0).setMaxP(100.0).setTargetP(50.0).setTargetQ(10.0).setTargetV(400.0).setVoltageRegulatorOn(reg).setRegulatingTerminal(x).add();
    else if (r == 1) v.newStaticVarCompensator().setId("NEW").setBus("B2").setConnectableBus("B2").setBmin(-0.5).setBmax(0.5).setVoltageSetpoint(230.0).setReactivePowerSetpoint(10.0).setRegulationMode(reg ? StaticVarCompensator::RegulationMode::VOLTAGE : StaticVarCompensator::RegulationMode::OFF).setRegulatingTerminal(x).add();
    else if (r == 2) v.newShuntCompensator().setId("NEW").setBus("B1").setConnectableBus("B1").setSectionCount(2UL).setVoltageRegulatorOn(reg).setTargetV(1.0).setTargetDeadband(1.0).setRegulatingTerminal(x).newLinearModel().setBPerSection(0.5).setMaximumSectionCount(4UL).add().add();
    else if (r == 3) ratio(t2); else if (r == 5) ratio(leg);
    else t2.newPhaseTapChanger().setLowTapPosition(0L).setTapPosition(0L).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulationValue(150.0).setTargetDeadband(1.0).setRegulating(reg).setRegulationTerminal(x).beginStep().setAlpha(-10.0).setRho(0.8).setR(1.5).setX(2.5).setG(3.5).setB(4.5).endStep().add();
  });
  sx_assert_msg(done == (t != 1 && (t != 0 || !reg || r < 3 || (r != 4 && !ltc))), "an equipment is accepted iff its regulating terminal belongs to the network and is there when needed"); if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); return; }
  auto now = r == 0 ? ref(n.getGenerator("NEW").getRegulatingTerminal()) : r == 1 ? ref(n.getStaticVarCompensator("NEW").getRegulatingTerminal()) : r == 2 ? ref(n.getShuntCompensator("NEW").getRegulatingTerminal()) : r == 3 ? t2.getRatioTapChanger().getRegulationTerminal() : r == 4 ? t2.getPhaseTapChanger().getRegulationTerminal() : leg.getRatioTapChanger().getRegulationTerminal();
  if (t == 0 && r < 3) sx_assert_msg(now == n.get<Injection>("NEW").getTerminal(), "no terminal stands for the own terminal"); else sx_assert_msg(now == x, "the terminal given"); sx_reach("accepted");
}
// removing the equipment that owns regulating terminals
SX_HARNESS(removing) {
  static const unsigned long W[] = {0, 1, 2, 3, 4, 5, 6, 8, 9};
  Network n = anyNetwork(); unsigned long w = W[sx_choose("target", 9)], a = sx_choose("regulator", 8), b = sx_choose("other regulator", sx_bound(3, 8)); Terminal& t = target(n, w); std::string owner = OWNER[w];
  n.getTwoWindingsTransformer("TWT").getRatioTapChanger().setRegulating(false); set(n, a, ref(t)); set(n, b, ref(t)); auto& vm = n.getVariantManager(); vm.cloneVariant(VariantManager::getInitialVariantId(), "V"); bool inV = a >= 5 && sx_bool("regulating in the other variant"), inI = a >= 5 && sx_bool("regulating");
  if (a >= 5) { vm.setWorkingVariant("V"); turn(n, a, inV); vm.setWorkingVariant(VariantManager::getInitialVariantId()); turn(n, a, inI); }
  auto mine = [&](const std::string& id) { return id == owner || (id.compare(0, owner.size(), owner) == 0 && (id[owner.size()] == '.' || id[owner.size()] == '#')); };
  std::set<unsigned long> hit; for (unsigned long r = 0; r < 8; ++r) { auto x = get(n, r); if (x && x.get().getConnectable().get().getId() == owner) hit.insert(r); }
  Desc before = describe(n); n.get<Connectable>(owner).remove();
  std::set<const Terminal*> all; for (const Connectable& c : n.getConnectables()) for (const Terminal& x : c.getTerminals()) all.insert(&x);
  for (unsigned long r = 0; r < 8; ++r) { if (mine(REG[r])) continue; auto now = get(n, r); sx_assert_msg(r >= 5 || now, "an injection always has a regulating terminal"); sx_assert_msg(!now || all.count(&now.get()), "a regulating terminal is a terminal of the network");
    if (hit.count(r) && r >= 5) for (int v = 0; v < 2; ++v) { vm.setWorkingVariant(v ? VariantManager::getInitialVariantId() : std::string("V")); sx_assert_msg(now || !on(n, r), "a tap changer without a terminal does not regulate"); } }
  for (int v = 0; v < 2; ++v) { vm.setWorkingVariant(v ? VariantManager::getInitialVariantId() : std::string("V")); rules(n); }
  sameDesc(before, describe(n), [&](const std::string& k) { if (mine(k) || k.find(".bus.") != std::string::npos) return true; for (unsigned long r : hit) if (k == keyOf(r) || k == std::string(REG[r]) + ".reg") return true; return false; });
  sx_reach(inV ? (inI ? "regulating in both" : "regulating in the other variant") : "removed");
}
// the terminals extensions refer to
SX_HARNESS(slack) {
  Network n = anyNetwork(); auto& vm = n.getVariantManager(); VoltageLevel& v = n.getVoltageLevel("VB"); Load& l = mkLoadB(v, "LX", "B1"); static const char* const T[] = {"LOADB", "GENB", "LX"}; vm.cloneVariant(VariantManager::getInitialVariantId(), "V");
  const std::string ids[] = {VariantManager::getInitialVariantId(), "V"}; (void)l; std::string st[2]; bool some = false;
  for (int i = 0; i < 2; ++i) { unsigned long k = sx_choose("slack", 4); if (k == 3) continue; st[i] = T[k]; some = true; vm.setWorkingVariant(ids[i]); SlackTerminal::reset(v, ref(n.get<Injection>(st[i]).getTerminal())); }
  // a slack terminal set first in one variant only
  auto e = v.findExtension<SlackTerminal>(); sx_assert(static_cast<bool>(e) == some); for (int i = 0; e && i < 2; ++i) { vm.setWorkingVariant(ids[i]); auto x = e.get().getTerminal(); st[i] = x ? x.get().getConnectable().get().getId() : ""; }
  std::string gone = T[sx_choose("removed", 3)]; vm.setWorkingVariant(ids[sx_choose("working", 2)]); n.get<Connectable>(gone).remove(); e = v.findExtension<SlackTerminal>(); bool left = false;
  for (int i = 0; i < 2; ++i) { std::string want = st[i] == gone ? "" : st[i]; left = left || !want.empty(); if (!e) { sx_assert_msg(want.empty(), "the slack terminals left are kept"); continue; } vm.setWorkingVariant(ids[i]); auto x = e.get().getTerminal(); sx_assert_msg(static_cast<bool>(x) == !want.empty(), "a slack terminal is kept iff its equipment is"); if (x) sx_assert_msg(x == n.get<Injection>(want).getTerminal(), "the slack terminal"); }
  sx_reach(st[0] == gone && st[1] != gone ? "in one variant" : left ? "kept" : "none left");
}
SX_HARNESS(remote) {
  Network n = anyNetwork(); unsigned long w = sx_choose("target", 4); Terminal& t = target(n, w); Generator& g = n.getGenerator("GENN"); g.newExtension<extensions::iidm::RemoteReactivePowerControlAdder>().withTargetQ(10.0).withRegulatingTerminal(t).withEnabled(true).add();
  unsigned long r = sx_choose("removed", 4); const Terminal* p = &t; n.get<Connectable>(OWNER[r]).remove(); auto e = g.findExtension<extensions::iidm::RemoteReactivePowerControl>();
  if (r != w) { sx_assert_msg(e && &e.get().getRegulatingTerminal() == p, "another terminal is removed"); sx_reach("another"); return; }
  __sx_api_known("remote_reactive_power_control_of_a_removed_terminal"); sx_assert_msg(!e || &e.get().getRegulatingTerminal() != p, "a remote reactive power control refers to a terminal of the network"); sx_reach("same");
}
