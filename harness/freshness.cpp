// C10: calculated views always reflect the current state, in every variant.
#include "topo.hpp"
struct W { Network n; int fresh = 0; W() : n(mkNet("N")) {} };
static void build(Network& n) {
  Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", true); VoltageLevel& b = mkVl(s, "B", false); VoltageLevel& c = mkVl(s, "C", false);
  mkBbs(a, "A0", 0); mkBbs(a, "A1", 1); mkSw(a, "AC", 0, 1, false, SwitchKind::BREAKER, true); mkSw(a, "AS", 0, 2); mkSw(a, "AT", 1, 3); mkIc(a, 1, 4); mkSw(a, "AU", 0, 5);
  mkBus(b, "B0"); mkBus(b, "B1"); mkBus(b, "B2"); mkBSw(b, "BC", "B0", "B1"); mkBus(c, "C0");
  n.newLine().setId("L1").setVoltageLevel1("A").setNode1(2).setVoltageLevel2("B").setBus2("B0").setConnectableBus2("B0").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add();
  mkLineB(n, "L2", "B", "B1", "C", "C0"); mkLoadN(a, "LA", 3); mkLoadB(b, "LB", "B0"); mkLoadB(b, "LB1", "B1");
  a.newVscConverterStation().setId("H1").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).setNode(5).add(); b.newVscConverterStation().setId("H2").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).setBus("B2").setConnectableBus("B2").add();
}
static void edit(W& w) {
  Network& n = w.n; VoltageLevel& a = n.getVoltageLevel("A"); VoltageLevel& b = n.getVoltageLevel("B"); std::string id = "X" + std::to_string(w.fresh++);
  auto& av = a.getNodeBreakerView(); auto& bv = b.getBusBreakerView();
  switch (sx_choose("edit", 29)) {
    case 0: { auto x = n.find<Switch>("AC"); if (x) x.get().setOpen(!x.get().isOpen()); break; }
    case 1: { auto x = n.find<Switch>("AC"); if (x) x.get().setRetained(!x.get().isRetained()); break; }
    case 2: { auto x = n.find<Switch>("AS"); if (x) x.get().setOpen(!x.get().isOpen()); break; }
    case 3: { auto x = n.find<Switch>("BC"); if (x) x.get().setOpen(!x.get().isOpen()); break; }
    case 4: mkSw(a, id, 0, 3); break;
    case 5: mkSw(a, id, 4, 10 + w.fresh, false); break;
    case 6: { auto x = n.find<Switch>("AC"); if (x) av.removeSwitch("AC"); break; }
    case 7: { auto x = n.find<Switch>("AS"); if (x) av.removeSwitch("AS"); break; }
    case 8: mkIc(a, 2, 1); break;
    case 9: try { av.removeInternalConnections(2, 1); } catch (const PowsyblException&) {} break;
    case 10: mkBSw(b, id, "B0", "B1"); break;
    case 11: mkBus(b, id); mkBSw(b, id + "s", id, "B1"); break;
    case 12: { auto x = n.find<Switch>("BC"); if (x) bv.removeSwitch("BC"); break; }
    case 13: bv.removeAllSwitches(); break;
    case 14: { auto x = n.find<Connectable>("H2"); if (x) { try { x.get().remove(); bv.removeBus("B2"); } catch (const PowsyblException&) {} } break; }
    case 15: { auto x = n.find<Line>("L2"); if (x) x.get().remove(); else mkLineB(n, "L2", "B", "B1", "C", "C0"); break; }
    case 16: { auto x = n.find<HvdcLine>("H"); if (x) x.get().remove(); else if (n.find("H2") && n.find("H1")) n.newHvdcLine().setId("H").setR(1.0).setNominalV(1.0).setMaxP(1.0).setActivePowerSetpoint(1.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("H1").setConverterStationId2("H2").add(); break; }
    case 17: { auto& t = n.getLoad("LB").getTerminal(); if (t.isConnected()) t.disconnect(); else t.connect(); } break;
    case 18: if (n.find("L1")) { auto& t = n.getLine("L1").getTerminal2(); if (t.isConnected()) t.disconnect(); else t.connect(); } break;
    case 19: if (n.find("L1")) n.getLine("L1").getTerminal2().getBusBreakerView().setConnectableBus(n.getLine("L1").getTerminal2().getBusBreakerView().getConnectableBus().get().getId() == "B1" ? "B0" : "B1"); break;
    case 20: if (n.find("B2") && n.find("LB1")) n.getLoad("LB1").getTerminal().getBusBreakerView().setConnectableBus("B2"); break;
    case 21: mkLineB(n, id, "B", "B1", "C", "C0"); break;
    case 22: { VoltageLevel& v = mkVl(n.getSubstation("S"), "V" + id, false); mkBus(v, "B" + id); mkTwtB(n.getSubstation("S"), id, "V" + id, "B" + id, "C", "C0"); break; }
    case 24: { auto x = n.find<Load>("LA"); if (x) x.get().remove(); else mkLoadN(a, "LA", 3); break; }
    case 25: { auto x = n.find<BusbarSection>("A0"); if (x) x.get().remove(); else mkBbs(a, "A0", 0); break; }
    case 26: { auto x = n.find<Load>("LB1"); if (x) x.get().remove(); else mkLoadB(b, "LB1", "B0"); break; }
    case 27: { auto x = n.find<HvdcConverterStation>("H1"); if (x) { try { x.get().remove(); } catch (const PowsyblException&) {} } break; }
    case 28: { auto x = n.find<Line>("L1"); if (x) { x.get().remove(); av.removeInternalConnections(1, 4); } else mkLoadN(a, id, 2); break; }
    case 23: if (n.find("L1")) { auto& t = n.getLine("L1").getTerminal1(); if (t.isConnected()) t.disconnect(); else t.connect(); } break;
  }
}
// the topology is right, and the buses that were there before and are no more are not found any more
typedef std::set<std::string> Seen;
static void checkAll(Network& n, Seen& seen) {
  checkTopology(n); Seen bus, breaker;
  for (Bus& b : n.getBusView().getBuses()) bus.insert(b.getId());
  for (Bus& b : n.getBusBreakerView().getBuses()) breaker.insert(b.getId());
  for (auto& id : seen) {
    if (!bus.count(id)) { sx_assert_msg(!n.getBusView().getBus(id), "a bus that is no more is found in the bus view"); for (VoltageLevel& v : n.getVoltageLevels()) sx_assert(!v.getBusView().getBus(id)); }
    if (!breaker.count(id)) { sx_assert_msg(!n.getBusBreakerView().getBus(id), "a bus that is no more is found in the bus/breaker view"); for (VoltageLevel& v : n.getVoltageLevels()) sx_assert(!v.getBusBreakerView().getBus(id)); }
  }
  seen.insert(bus.begin(), bus.end()); seen.insert(breaker.begin(), breaker.end());
}
// dangling buses: an object obtained before an edit either refuses to answer or the view does not return it any more
static void histories(int edits, bool variants) {
  W w; build(w.n); Network& n = w.n; VariantManager& v = n.getVariantManager(); std::vector<std::string> names(1, "InitialVariant");
  if (variants) { v.cloneVariant("InitialVariant", "V"); names.push_back("V"); }
  Seen seen; auto all = [&] { for (auto& x : names) { v.setWorkingVariant(x); checkAll(n, seen); } };
  all();
  for (int i = 0; i < edits; ++i) {
    v.setWorkingVariant(names[sx_choose("variant", names.size())]);
    edit(w); all();
    if (variants && i == 0 && sx_bool("clone")) { v.cloneVariant(names[sx_choose("cloned", 2)], names.size() == 2 ? "W" : "V", true); if (names.size() == 2) names.push_back("W"); all(); }
  }
  sx_reach("end");
}
SX_HARNESS(edits) { histories(sx_bound(2, 3), false); }
SX_HARNESS(edits_in_variants) { histories(sx_bound(2, 2), true); }
// a move keeps the views usable and right
SX_HARNESS(move) {
  W w; build(w.n); bool computed = sx_bool("computed"); if (computed) checkTopology(w.n); if (sx_bool("edited")) edit(w);
  W x; x.n.~Network(); new (&x.n) Network(std::move(w.n)); x.fresh = w.fresh;
  checkTopology(x.n); edit(x); checkTopology(x.n); sx_reach("end");
}
