// C08: connected and synchronous components.
#include "topo.hpp"
// buses linked by lines, two windings transformers, three windings transformers and HVDC lines; each end may be open
SX_HARNESS(branches) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); int count = 4;
  for (int i = 0; i < count; ++i) { std::string v = std::to_string(i); VoltageLevel& vl = mkVl(s, "V" + v, false); mkBus(vl, "B" + v); 
    // a dangling line makes the bus exist in the bus view
    if (sx_bool("alone")) vl.newDanglingLine().setId("DL" + v).setBus("B" + v).setConnectableBus("B" + v).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setP0(0.0).setQ0(0.0).add(); }
  static const int E[6][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}, {1, 3}};
  for (int i = 0; i < 4; ++i) {
    int a = E[i][0], b = E[i][1], k = sx_choose("link", 5); std::string id = "E" + std::to_string(i), va = "V" + std::to_string(a), ba = "B" + std::to_string(a), vb = "V" + std::to_string(b), bb = "B" + std::to_string(b);
    if (k == 1) mkLineB(n, id, va, ba, vb, bb);
    if (k == 2) mkLineB(n, id, va, ba, vb, bb).getTerminal(i % 2 ? Branch::Side::ONE : Branch::Side::TWO).disconnect();
    if (k == 3) mkTwtB(s, id, va, ba, vb, bb);
    if (k == 4) { n.getVoltageLevel(va).newLccConverterStation().setId(id + "a").setLossFactor(1.0).setPowerFactor(0.5).setBus(ba).setConnectableBus(ba).add(); n.getVoltageLevel(vb).newVscConverterStation().setId(id + "b").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).setBus(bb).setConnectableBus(bb).add(); n.newHvdcLine().setId(id).setR(1.0).setNominalV(1.0).setMaxP(1.0).setActivePowerSetpoint(1.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1(id + "a").setConverterStationId2(id + "b").add(); }
  }
  checkTopology(n); sx_reach("end");
}
// any wiring of lines between five buses
SX_HARNESS(graphs) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); int count = sx_bound(5, 6);
  for (int i = 0; i < count; ++i) { std::string v = std::to_string(i); VoltageLevel& vl = mkVl(s, "V" + v, false); mkBus(vl, "B" + v); vl.newDanglingLine().setId("DL" + v).setBus("B" + v).setConnectableBus("B" + v).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setP0(0.0).setQ0(0.0).add(); }
  for (int i = 0; i < count; ++i) for (int j = i + 1; j < count; ++j) if (sx_bool("line")) { std::string a = std::to_string(i), b = std::to_string(j); mkLineB(n, "L" + a + b, "V" + a, "B" + a, "V" + b, "B" + b); }
  checkTopology(n); sx_reach("end");
}
// three windings transformers with open legs
SX_HARNESS(three_windings) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S");
  for (int i = 0; i < 5; ++i) { std::string v = std::to_string(i); VoltageLevel& vl = mkVl(s, "V" + v, false); mkBus(vl, "B" + v); if (i < 4) vl.newDanglingLine().setId("DL" + v).setBus("B" + v).setConnectableBus("B" + v).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setP0(0.0).setQ0(0.0).add(); }
  for (int k = 0; k < 2; ++k) {
    int o = sx_choose("buses", 4); auto v = [&](int i) { return std::to_string((o + i + k) % 5); };
    ThreeWindingsTransformer& t = mk3wtB(s, "T" + std::to_string(k), "V" + v(0), "B" + v(0), "V" + v(1), "B" + v(1), "V" + v(k + 1), "B" + v(k + 1));
    if (sx_bool("leg 1 open")) t.getLeg1().getTerminal().disconnect(); if (sx_bool("leg 2 open")) t.getLeg2().getTerminal().disconnect(); if (sx_bool("leg 3 open")) t.getLeg3().getTerminal().disconnect();
  }
  checkTopology(n); sx_reach("end");
}
// buses of both topologies; the bus/breaker buses of one bus share its component
SX_HARNESS(mixed) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", true); VoltageLevel& b = mkVl(s, "B", false); VoltageLevel& c = mkVl(s, "C", true);
  mkBbs(a, "A0", 0); mkBbs(a, "A1", 1); mkSw(a, "AC", 0, 1, sx_bool("A coupler"), SwitchKind::BREAKER, sx_bool("retained")); mkSw(a, "AS0", 0, 2, sx_bool("A feeder 0")); mkSw(a, "AS1", 1, 3, sx_bool("A feeder 1")); mkSw(a, "AS2", 1, 4, sx_bool("A station"));
  mkBus(b, "B0"); mkBus(b, "B1"); mkBSw(b, "BC", "B0", "B1", sx_bool("B coupler"));
  mkBbs(c, "C0", 0); mkSw(c, "CS", 0, 1, sx_bool("C feeder")); mkSw(c, "CT", 0, 2, sx_bool("C station"));
  auto l1 = n.newLine(); l1.setId("L1").setVoltageLevel1("A").setNode1(2).setVoltageLevel2("B").setBus2("B0").setConnectableBus2("B0").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); l1.add();
  auto l2 = n.newLine(); l2.setId("L2").setVoltageLevel1("B").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("C").setNode2(1).setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); l2.add();
  mkLoadN(a, "LA", 3);
  a.newVscConverterStation().setId("H1").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).setNode(4).add(); c.newVscConverterStation().setId("H2").setLossFactor(1.0).setVoltageSetpoint(1.0).setVoltageRegulatorOn(true).setNode(2).add();
  if (sx_bool("hvdc")) n.newHvdcLine().setId("H").setR(1.0).setNominalV(1.0).setMaxP(1.0).setActivePowerSetpoint(1.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("H1").setConverterStationId2("H2").add();
  checkTopology(n); sx_reach("end");
}
