// C12: removing an object removes exactly it and what it contains, or is refused without a trace.
#include "common.hpp"
static std::set<std::string> containedIn(VoltageLevel& vl) {
  std::set<std::string> r; r.insert(vl.getId());
  for (const Connectable& c : vl.getConnectables()) r.insert(c.getId());
  for (const Switch& s : vl.getSwitches()) r.insert(s.getId());
  if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) for (const Bus& b : vl.getBusBreakerView().getBuses()) r.insert(b.getId());
  return r;
}
static bool multi(const Connectable& c) { return c.getTerminals().size() > 1; }
// the nodes of a voltage level are the ones something is linked to
static void usedNodes(Network& n) {
  for (VoltageLevel& vl : n.getVoltageLevels()) if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
    auto& v = vl.getNodeBreakerView(); std::set<unsigned long> used, got;
    for (Switch& s : v.getSwitches()) { used.insert(v.getNode1(s.getId())); used.insert(v.getNode2(s.getId())); }
    for (const auto& ic : v.getInternalConnections()) { used.insert(ic.getNode1()); used.insert(ic.getNode2()); }
    for (Connectable& c : vl.getConnectables()) for (Terminal& t : c.getTerminals()) if (&t.getVoltageLevel() == &vl) used.insert(t.getNodeBreakerView().getNode());
    for (unsigned long k : v.getNodes()) got.insert(k);
    sx_assert_msg(used == got, "a node nothing uses any more is removed, and no other");
  }
}
// one removal; the expected outcome is computed from the links read before it
static void removeOne(Network& n, const std::string& id) {
  auto ids = idsOf(n); std::string before = dump(n);
  std::set<std::string> gone; bool allowed = true;
  Identifiable& o = n.get<Identifiable>(id);
  std::function<void()> doit;
  if (auto* c = dynamic_cast<Connectable*>(&o)) {
    gone.insert(id); auto* h = dynamic_cast<HvdcConverterStation*>(c); allowed = !(h && h->getHvdcLine());
    doit = [&] { c->remove(); };
  } else if (auto* h = dynamic_cast<HvdcLine*>(&o)) { gone.insert(id); doit = [h] { h->remove(); };
  } else if (auto* vl = dynamic_cast<VoltageLevel*>(&o)) {
    gone = containedIn(*vl);
    for (const Connectable& c : vl->getConnectables()) { auto* h = dynamic_cast<const HvdcConverterStation*>(&c); if (multi(c) || (h && h->getHvdcLine())) allowed = false; }
    doit = [vl] { vl->remove(); };
  } else if (auto* s = dynamic_cast<Substation*>(&o)) {
    gone.insert(id);
    for (VoltageLevel& vl : s->getVoltageLevels()) {
      for (auto& x : containedIn(vl)) gone.insert(x);
      for (Connectable& c : vl.getConnectables()) {
        for (Terminal& t : c.getTerminals()) if (&t.getVoltageLevel().getSubstation() != s) allowed = false;
        auto* h = dynamic_cast<HvdcConverterStation*>(&c);
        if (h && h->getHvdcLine()) { gone.insert(h->getHvdcLine().get().getId()); for (auto* st : {&h->getHvdcLine().get().getConverterStation1().get(), &h->getHvdcLine().get().getConverterStation2().get()}) if (&st->getTerminal().getVoltageLevel().getSubstation() != s) allowed = false; }
      }
    }
    doit = [s] { s->remove(); };
  } else if (auto* sw = dynamic_cast<Switch*>(&o)) {
    gone.insert(id); VoltageLevel& vl = sw->getVoltageLevel(); bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
    doit = [&vl, nb, id] { if (nb) vl.getNodeBreakerView().removeSwitch(id); else vl.getBusBreakerView().removeSwitch(id); };
  } else {
    Bus& b = dynamic_cast<Bus&>(o); gone.insert(id); VoltageLevel& vl = b.getVoltageLevel();
    for (Connectable& c : vl.getConnectables()) for (Terminal& t : c.getTerminals()) if (&t.getVoltageLevel() == &vl && &t.getBusBreakerView().getConnectableBus().get() == &b) allowed = false;
    for (Switch& x : vl.getSwitches()) if (&vl.getBusBreakerView().getBus1(x.getId()).get() == &b || &vl.getBusBreakerView().getBus2(x.getId()).get() == &b) allowed = false;
    doit = [&vl, id] { vl.getBusBreakerView().removeBus(id); };
  }
  bool done = true;
  try { doit(); } catch (const std::exception&) { done = false; }
  sx_assert_msg(done == allowed, "an object is removed iff nothing depends on it");
  if (done) {
    sx_reach("removed");
    std::set<std::string> want; for (auto& i : ids) if (!gone.count(i)) want.insert(i);
    sx_assert_msg(idsOf(n) == want, "exactly the object and what it contains are removed");
    for (auto& g : gone) sx_assert(!n.find(g));
    usedNodes(n);
  } else { sx_reach("refused"); sx_assert_msg(idsOf(n) == ids && dump(n) == before, "a refused removal left a trace"); }
  consistent(n);
  dump(n); for (Bus& b : n.getBusView().getBuses()) b.getConnectedComponent();
}
// every single object of the full network
SX_HARNESS(single) {
  Network n = anyNetwork(); mkLoadN(n.getVoltageLevel("VN"), "ALONE", 90); mkBbs(n.getVoltageLevel("VN"), "BBSALONE", 45); consistent(n);
  std::vector<std::string> v; for (auto& i : idsOf(n)) if (i != "full") v.push_back(i);
  if (sx_bool("views computed")) for (Bus& b : n.getBusView().getBuses()) { b.getConnectedComponent(); b.getSynchronousComponent(); }
  removeOne(n, v[sx_choose("object", v.size())]);
}
// containers whose branches have been removed first
SX_HARNESS(containers) {
  Network n = anyNetwork();
  for (const char* l : {"LINE", "TIE", "LNN"}) if (sx_bool(l)) n.getLine(l).remove();
  if (sx_bool("TWT")) n.getTwoWindingsTransformer("TWT").remove();
  if (sx_bool("T3")) n.getThreeWindingsTransformer("T3").remove();
  if (sx_bool("HVSC")) n.getHvdcLine("HVSC").remove();
  if (sx_bool("HLCC")) n.getHvdcLine("HLCC").remove();
  static const char* O[] = {"VN", "VB", "VC", "VD", "S1", "S2"};
  int first = sx_choose("first", 6), second = 5 - sx_choose("second", sx_bound(3, 6));
  removeOne(n, O[first]);
  if (n.find(O[second])) removeOne(n, O[second]);
}
// histories of removals in a small network
static void small(Network& n) {
  Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", true); VoltageLevel& b = mkVl(s, "B", false);
  mkBbs(a, "BB", 0); mkSw(a, "SA", 0, 1); mkIc(a, 1, 2); mkLoadN(a, "LA", 2); mkIc(a, 0, 5);
  mkBus(b, "B1"); mkBus(b, "B2"); mkBus(b, "B3"); mkBSw(b, "S12", "B1", "B2"); mkBSw(b, "S23", "B2", "B3"); mkBSw(b, "S13", "B1", "B3"); mkLoadB(b, "LB", "B1");
  s.newTwoWindingsTransformer().setId("T").setVoltageLevel1("A").setNode1(5).setVoltageLevel2("B").setBus2("B2").setConnectableBus2("B2").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(1.0).add();
}
SX_HARNESS(histories) {
  Network n = mkNet("N"); small(n); consistent(n);
  for (int i = 0, k = sx_bound(3, 5); i < k; ++i) {
    std::vector<std::string> v; for (auto& x : idsOf(n)) if (x != "N") v.push_back(x);
    if (v.empty()) return;
    removeOne(n, v[sx_choose("object", v.size())]);
  }
}
// removeAll* of the bus/breaker view after switches were removed in any order
SX_HARNESS(remove_all) {
  Network n = mkNet("N"); small(n); VoltageLevel& b = n.getVoltageLevel("B"); auto& v = b.getBusBreakerView();
  n.getTwoWindingsTransformer("T").remove(); bool load = sx_bool("load"); if (!load) n.getLoad("LB").remove();
  static const char* S[] = {"S12", "S23", "S13"}; std::set<std::string> left(S, S + 3);
  for (int i = 0, k = sx_choose("removed one by one", 4); i < k; ++i) { std::string x = S[sx_choose("switch", 3)]; sx_assume(left.count(x)); v.removeSwitch(x); left.erase(x); }
  if (sx_bool("all switches")) { v.removeAllSwitches(); left.clear(); }
  consistent(n);
  std::string before = dump(n); auto ids = idsOf(n);
  bool ok = true; try { v.removeAllBuses(); } catch (const PowsyblException&) { ok = false; }
  sx_assert(ok == (left.empty() && !load));
  if (!ok) sx_assert(dump(n) == before && idsOf(n) == ids); else { sx_assert(!n.find("B1") && !n.find("B2") && !n.find("B3")); sx_reach("removed"); }
  consistent(n);
  if (ok) { mkBus(b, "B1"); mkBus(b, "B7"); mkBSw(b, "S17", "B1", "B7"); consistent(n); b.remove(); consistent(n); }
}

// internal connections: a removal between two nodes removes all of them, in either order, and nothing else
SX_HARNESS(internal_connections) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", true); mkBbs(a, "BB", 0); mkLoadN(a, "LA", 1); mkLoadN(a, "LB", 2); mkSw(a, "SA", 1, 2); auto& v = a.getNodeBreakerView();
  std::vector<std::pair<unsigned long, unsigned long>> m; int k = sx_bound(2, 3);
  for (int i = 0; i < k; ++i) { unsigned long x = sx_choose("node1", 4), y = sx_choose("node2", 4); sx_assume(x != y); mkIc(a, x, y); m.push_back({x, y}); }
  unsigned long x = sx_choose("removed1", 4), y = sx_choose("removed2", 4); sx_assume(x != y);
  bool any = false; std::multiset<std::pair<unsigned long, unsigned long>> left; for (auto& e : m) { if ((e.first == x && e.second == y) || (e.first == y && e.second == x)) any = true; else left.insert(e); }
  bool ok = true; try { v.removeInternalConnections(x, y); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == any, "internal connections are removed iff there are some");
  std::multiset<std::pair<unsigned long, unsigned long>> now; for (const auto& ic : v.getInternalConnections()) now.insert({ic.getNode1(), ic.getNode2()});
  sx_assert_msg(now == left && v.getInternalConnectionCount() == left.size(), "exactly the internal connections between the two nodes are removed");
  sx_assert(v.getSwitchCount() == 1 && v.getNode1("SA") == 1 && v.getNode2("SA") == 2 && v.getTerminal(0) && v.getTerminal(1) && v.getTerminal(2));
  bool n3 = false; for (auto& e : left) n3 |= e.first == 3 || e.second == 3; bool got = false; for (unsigned long q : v.getNodes()) got |= q == 3; sx_assert_msg(n3 == got, "a node nothing uses any more is removed, and no other");
  consistent(n); if (ok) sx_reach("removed"); else sx_reach("refused");
}
