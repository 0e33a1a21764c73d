// C06: calculated buses of the node/breaker and bus/breaker topologies.
#include "topo.hpp"
enum { NONE, BBS, LOAD, LINE, HVDC, GEN, DL, TWT };
struct World { Network n; VoltageLevel* vl; VoltageLevel* other; int count = 0; explicit World(bool nb) : n(mkNet("N")) { Substation& s = mkSub(n, "S"); vl = &mkVl(s, "V", nb); other = &mkVl(s, "O", false); mkBus(*other, "OB"); } };
struct Loc { bool nb; unsigned long node; std::string b, bus; template <typename A> A& operator()(A& a) const { if (nb) a.setNode(node); else a.setBus(b).setConnectableBus(bus); return a; } };
static void attach(World& w, int kind, long node, const std::string& bus, bool connected) {
  std::string id = "E" + std::to_string(w.count++); bool nb = bus.empty(); std::string b = connected ? bus : "";
  Loc loc{nb, static_cast<unsigned long>(node), b, bus};
  switch (kind) {
    case BBS: mkBbs(*w.vl, id, node); break;
    case LOAD: { auto a = w.vl->newLoad(); a.setId(id).setP0(1.0).setQ0(1.0); loc(a).add(); break; }
    case GEN: { auto a = w.vl->newGenerator(); a.setId(id).setMinP(0.0).setMaxP(1.0).setTargetP(0.5).setTargetQ(0.0).setVoltageRegulatorOn(false); loc(a).add(); break; }
    case HVDC: { auto a = w.vl->newLccConverterStation(); a.setId(id).setLossFactor(1.0).setPowerFactor(0.5); loc(a).add(); break; }
    case DL: { auto a = w.vl->newDanglingLine(); a.setId(id).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setP0(0.0).setQ0(0.0); loc(a).add(); break; }
    case LINE: { auto a = w.n.newLine(); a.setId(id).setVoltageLevel1("V").setVoltageLevel2("O").setBus2("OB").setConnectableBus2("OB").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); if (nb) a.setNode1(node); else a.setBus1(b).setConnectableBus1(bus); a.add(); break; }
    case TWT: { auto a = w.n.getSubstation("S").newTwoWindingsTransformer(); a.setId(id).setVoltageLevel1("V").setVoltageLevel2("O").setBus2("OB").setConnectableBus2("OB").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(1.0); if (nb) a.setNode1(node); else a.setBus1(b).setConnectableBus1(bus); a.add(); break; }
    default: break;
  }
}
static void edge(World& w, int kind, unsigned long a, unsigned long b) {
  std::string id = "W" + std::to_string(w.count++);
  switch (kind) {
    case 1: mkSw(*w.vl, id, a, b, false); break;
    case 2: mkSw(*w.vl, id, a, b, true); break;
    case 3: mkSw(*w.vl, id, a, b, false, SwitchKind::DISCONNECTOR, true); break;
    case 4: mkIc(*w.vl, a, b); break;
    case 5: mkSw(*w.vl, id, a, b, true, SwitchKind::LOAD_BREAK_SWITCH, true); break;
    default: break;
  }
}
static void finish(World& w) { checkTopology(w.n); sx_reach(w.vl->getBusView().getBuses().empty() ? "no bus" : "bus"); }
static const unsigned long NUM[2][5] = {{0, 1, 2, 3, 4}, {6, 2, 9, 0, 4}};
// three nodes, two parallel edges: any equipment on each node, any edge
SX_HARNESS(nodes3) {
  World w(true); const unsigned long* N = NUM[sx_choose("numbering", sx_bound(1, 2))];
  static const int K[] = {NONE, BBS, LOAD, LINE, HVDC};
  int types = sx_bound(4, 5);
  for (int i = 0; i < 3; ++i) attach(w, K[sx_choose("equipment", types)], N[i], "", true);
  edge(w, sx_choose("edge 0-1", 6), N[0], N[1]); edge(w, sx_choose("edge 1-2", 6), N[1], N[2]); edge(w, sx_choose("edge 2-0", 6), N[2], N[0]); if (sx_bool("parallel")) edge(w, 1 + sx_choose("second edge 1-0", sx_bound(2, 5)), N[1], N[0]);
  finish(w);
}
// four and five nodes
static void graph(int nodes, int edges, int kinds) {
  World w(true);
  static const int P[6][5] = {{BBS, LOAD, LINE, BBS, NONE}, {BBS, NONE, NONE, LOAD, GEN}, {LINE, LOAD, DL, NONE, TWT}, {BBS, BBS, NONE, TWT, LOAD}, {LOAD, GEN, LOAD, BBS, NONE}, {NONE, HVDC, BBS, DL, LINE}};
  int pat = sx_choose("pattern", 6); const int* p = P[pat]; const unsigned long* N = NUM[sx_thorough() ? sx_choose("numbering", 2) : pat % 2];
  for (int i = 0; i < nodes; ++i) attach(w, p[i], N[i], "", true);
  static const int E[10][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}, {1, 3}, {3, 4}, {0, 4}, {1, 4}, {2, 4}};
  for (int i = 0; i < edges; ++i) if (E[i][0] < nodes && E[i][1] < nodes) edge(w, sx_choose("edge", kinds), N[E[i][0]], N[E[i][1]]);
  finish(w);
}
SX_HARNESS(nodes4) { graph(4, 6, sx_bound(4, 5)); }
SX_HARNESS(nodes5) { graph(5, sx_bound(7, 10), 3); }
// equipment without a bus: two groups that are buses, a feeder and a dead end linked to them by any switches, added in any order
SX_HARNESS(connectable) {
  World w(true); static const unsigned long O[3][6] = {{0, 1, 2, 3, 4, 5}, {2, 3, 0, 1, 5, 4}, {4, 5, 2, 3, 0, 1}};
  const unsigned long* N = O[sx_choose("numbering", sx_bound(2, 3))];
  for (int g = 0; g < 4; g += 2) { attach(w, BBS, N[g], "", true); attach(w, LOAD, N[g + 1], "", true); edge(w, 4, N[g], N[g + 1]); }
  attach(w, LOAD, N[4], "", true); if (sx_bool("feeder at the end")) attach(w, GEN, N[5], "", true);
  static const int E[5][2] = {{4, 0}, {4, 2}, {4, 5}, {5, 1}, {5, 3}}; static const int K[] = {0, 2, 1};
  int first = sx_choose("first", 5), step = sx_bool("reversed") ? 4 : 1;
  for (int i = 0, k = first; i < 5; ++i, k = (k + step) % 5) edge(w, K[sx_choose("edge", sx_bound(2, 3))], N[E[k][0]], N[E[k][1]]);
  finish(w);
}
// every kind of equipment decides the validity of a bus
SX_HARNESS(validity) {
  World w(true); bool bb = sx_bool("busbar"); if (bb) attach(w, BBS, 0, "", true); else w.count++;
  for (int i = 1; i <= 3; ++i) { attach(w, sx_choose("equipment", 8), i, "", true); mkSw(*w.vl, "S" + std::to_string(i), 0, i, sx_bool("open")); }
  finish(w);
}
// bus/breaker: buses, one removed, any switches, any equipment
SX_HARNESS(buses) {
  World w(false); int count = sx_bound(3, 4);
  int gone = sx_choose("removed bus", count + 2) - 1;
  std::vector<std::string> b; for (int i = 0; i <= count; ++i) { mkBus(*w.vl, "B" + std::to_string(i)); }
  for (int i = 0; i <= count; ++i) if (i == gone) w.vl->getBusBreakerView().removeBus("B" + std::to_string(i)); else b.push_back("B" + std::to_string(i));
  if (gone >= 0 && sx_bool("added again")) { mkBus(*w.vl, "B9"); }
  for (int i = 0; i < count; ++i) switch (sx_choose("equipment", 4)) { case 1: attach(w, LOAD, 0, b[i], true); break; case 2: attach(w, LINE, 0, b[i], true); break; case 3: attach(w, LINE, 0, b[i], false); break; default: break; }
  for (int i = 0; i < count; ++i) for (int j = i + 1; j < count; ++j) { int k = sx_choose("switch", 3); if (k != 0) mkBSw(*w.vl, "W" + std::to_string(i) + std::to_string(j), b[i], b[j], k == 2); }
  finish(w);
}
SX_HARNESS(bus_validity) {
  World w(false); mkBus(*w.vl, "B0"); mkBus(*w.vl, "B1"); mkBSw(*w.vl, "W", "B0", "B1", sx_bool("open"));
  static const int K[] = {NONE, LOAD, LINE, HVDC, GEN, DL, TWT};
  for (int i = 0; i < 3; ++i) attach(w, K[sx_choose("equipment", 7)], 0, i == 1 ? "B1" : "B0", sx_bool("connected"));
  finish(w);
}
// the state of the switches is free, the structure is the one of a substation with every kind of equipment
SX_HARNESS(full) {
  Network n = fullNetwork();
  static const char* S[] = {"COUPLER", "B_LOADN", "B_TWT", "D_GENN", "B_VSC1", "SWB", "D_DL", "B_GENN", "D_LOADN", "B_SHN"};
  for (int i = 0, k = sx_bound(7, 10); i < k; ++i) n.getSwitch(S[i]).setOpen(sx_bool(S[i]));
  n.getSwitch("COUPLER").setRetained(sx_bool("retained"));
  checkTopology(n);
}
// the lowest index of a bus may exceed the number of buses
SX_HARNESS(many_buses) {
  World w(false); const int count = 70;
  for (int i = 0; i < count; ++i) mkBus(*w.vl, "B" + std::to_string(i));
  int gone = sx_choose("removed", count);
  for (int i = 0; i < gone; ++i) w.vl->getBusBreakerView().removeBus("B" + std::to_string(i));
  attach(w, LINE, 0, "B" + std::to_string(gone), true); attach(w, LINE, 0, "B69", true); if (gone < 68) mkBSw(*w.vl, "W", "B69", "B68", sx_bool("open"));
  finish(w);
}
