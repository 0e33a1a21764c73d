// C09: connecting and disconnecting terminals.
#include "topo.hpp"
#include "describe.hpp"
struct E { unsigned long a, b; int kind; bool open; std::string id; }; // kind: 0 breaker, 1 disconnector, 2 load break switch, 3 internal connection
static void walk(const std::vector<E>& es, unsigned long v, const std::set<unsigned long>& bars, std::set<unsigned long>& seen, std::vector<int>& path, std::vector<std::vector<int>>& out) {
  for (size_t i = 0; i < es.size(); ++i) {
    const E& e = es[i]; if (e.a != v && e.b != v) continue;
    unsigned long w = e.a == v ? e.b : e.a;
    if (seen.count(w) || (e.kind == 1 && e.open)) continue;
    path.push_back(static_cast<int>(i));
    if (bars.count(w)) out.push_back(path);
    else { seen.insert(w); walk(es, w, bars, seen, path, out); seen.erase(w); }
    path.pop_back();
  }
}
static std::vector<bool> positions(VoltageLevel& vl, const std::vector<E>& es) { std::vector<bool> r; for (auto& e : es) r.push_back(e.kind != 3 && vl.getNodeBreakerView().getSwitch(e.id).get().isOpen()); return r; }
// the terminal on node v, the switches as they are
static void operate(Network& n, VoltageLevel& vl, Terminal& t, unsigned long v, std::vector<E> es, const std::set<unsigned long>& bars, bool connect) {
  std::vector<bool> before = positions(vl, es); for (size_t i = 0; i < es.size(); ++i) es[i].open = before[i];
  std::vector<std::vector<int>> paths; std::vector<int> p; std::set<unsigned long> seen{v}; walk(es, v, bars, seen, p, paths);
  bool was = t.isConnected(), r = connect ? t.connect() : t.disconnect();
  std::vector<bool> after = positions(vl, es);
  std::vector<int> changed; for (size_t i = 0; i < es.size(); ++i) if (before[i] != after[i]) changed.push_back(static_cast<int>(i));
  for (int i : changed) sx_assert_msg(es[i].kind == 0 && after[i] != connect, "only breakers are operated, in the direction asked");
  if (was == connect) { sx_assert_msg(!r && changed.empty(), "a terminal already in the state asked for: nothing done"); sx_reach("nothing to do"); }
  else if (connect) {
    size_t len = 99; for (auto& q : paths) len = std::min(len, q.size());
    bool found = paths.empty() ? changed.empty() : false; bool closes = false;
    for (auto& q : paths) if (q.size() == len) { std::vector<int> need; for (int i : q) if (es[i].kind == 0 && before[i]) need.push_back(i); std::sort(need.begin(), need.end()); if (need == changed) { found = true; closes = !need.empty(); bool usable = true; for (int i : q) if (es[i].kind != 3 && after[i]) usable = false; if (usable) { bool feeder = t.getConnectable().get().getType() != ConnectableType::BUSBAR_SECTION; if (feeder) sx_assert_msg(t.isConnected(), "a terminal linked to a busbar section is connected"); } } }
    sx_assert_msg(found, "the breakers of one shortest path to a busbar section are closed, and no other");
    sx_assert_msg(r == closes, "the answer says whether a breaker was closed"); if (r) sx_reach("connected"); else sx_reach("not connected");
  } else {
    bool all = !paths.empty(); for (auto& q : paths) { bool br = false; for (int i : q) if (es[i].kind == 0) br = true; if (!br) all = false; }
    sx_assert_msg(r == all, "a terminal can be disconnected iff every path to a busbar section has a breaker");
    if (r) { for (auto& q : paths) { bool cut = false; for (int i : q) if (es[i].kind == 0 && after[i]) cut = true; sx_assert_msg(cut, "every path to a busbar section is cut"); }
      for (int i : changed) { bool first = false; for (auto& q : paths) { for (int j : q) if (es[j].kind == 0) { if (j == i) first = true; break; } } sx_assert_msg(first, "only the breakers next to the terminal are opened"); }
      sx_reach("disconnected"); }
    else { if (paths.empty()) sx_assert_msg(changed.empty(), "nothing is opened without a path"); sx_reach("not disconnected"); }
  }
  checkTopology(n);
}
static void equip(Network& n, VoltageLevel& vl, std::vector<E>& es, const std::set<unsigned long>& bars) {
  for (unsigned long b : bars) mkBbs(vl, "BB" + std::to_string(b), b);
  mkLoadN(vl, "L", 2); (void)n;
  for (E& e : es) { if (e.kind == 3) mkIc(vl, e.a, e.b); else mkSw(vl, e.id, e.a, e.b, e.open, e.kind == 0 ? SwitchKind::BREAKER : e.kind == 1 ? SwitchKind::DISCONNECTOR : SwitchKind::LOAD_BREAK_SWITCH); }
}
static E edge(int k, unsigned long a, unsigned long b, size_t i) { return E{a, b, k / 2, k % 2 == 1, "SW" + std::to_string(i)}; } // k: 0..6
// a feeder, two busbar sections, any switch or none between them
SX_HARNESS(feeder) {
  Network n = mkNet("N"); VoltageLevel& vl = mkVl(mkSub(n, "S"), "A", true); std::set<unsigned long> bars{0, 3}; std::vector<E> es;
  static const unsigned long P[5][2] = {{2, 1}, {1, 0}, {1, 3}, {2, 0}, {0, 3}};
  for (int i = 0; i < 5; ++i) { int k = i < 4 || sx_thorough() ? static_cast<int>(sx_choose("link", 8)) : static_cast<int>(sx_choose("link", 2)) * 7; if (k < 7) es.push_back(edge(k, P[i][0], P[i][1], es.size())); }
  equip(n, vl, es, bars);
  operate(n, vl, n.getLoad("L").getTerminal(), 2, es, bars, sx_bool("connect"));
}
// longer paths, parallel breakers: every state of the breakers of a feeder with a by-pass; two operations in sequence
SX_HARNESS(sequence) {
  Network n = mkNet("N"); VoltageLevel& vl = mkVl(mkSub(n, "S"), "A", true); std::set<unsigned long> bars{0, 5}; std::vector<E> es;
  static const unsigned long P[8][2] = {{2, 1}, {1, 4}, {4, 0}, {4, 5}, {2, 4}, {0, 5}, {1, 3}, {3, 0}};
  int count = sx_bound(7, 8);
  for (int i = 0; i < count; ++i) { int kind = i == 2 || i == 3 ? 1 : i == 6 ? 2 : i == 7 ? 3 : 0; es.push_back(E{P[i][0], P[i][1], kind, kind != 3 && sx_bool("open"), "SW" + std::to_string(i)}); }
  equip(n, vl, es, bars); if (sx_bool("line")) { VoltageLevel& b = mkVl(n.getSubstation("S"), "B", false); mkBus(b, "B0"); auto l = n.newLine(); l.setId("LI").setVoltageLevel1("A").setNode1(3).setVoltageLevel2("B").setBus2("B0").setConnectableBus2("B0").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); l.add(); }
  for (int k = 0; k < sx_bound(2, 3); ++k) { int w = static_cast<int>(sx_choose("operation", 4)); if (w < 2) operate(n, vl, n.getLoad("L").getTerminal(), 2, es, bars, w == 0); else operate(n, vl, n.getBusbarSection("BB5").getTerminal(), 5, es, bars, w == 2); }
}
// terminals of every equipment on buses: each is connected and disconnected alone, in its variant alone
SX_HARNESS(on_buses) {
  Network n = mkNet("full"); buildFull(n); std::vector<Terminal*> ts; for (Connectable& c : n.getConnectables()) for (Terminal& t : c.getTerminals()) if (t.getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) ts.push_back(&t);
  size_t i = sx_choose("terminal", static_cast<int64_t>(ts.size())), j = sx_choose("other terminal", static_cast<int64_t>(ts.size()));
  n.getVariantManager().cloneVariant("InitialVariant", "v"); if (sx_bool("in clone")) n.getVariantManager().setWorkingVariant("v");
  std::vector<bool> st; for (Terminal* t : ts) st.push_back(t->isConnected());
  for (int k = 0; k < 3; ++k) {
    size_t w = k == 1 ? j : i; bool c = sx_bool("connect"), r = c ? ts[w]->connect() : ts[w]->disconnect();
    sx_assert_msg(r == (st[w] != c), "the answer says whether the terminal changed"); st[w] = c; if (r) sx_reach(c ? "connected" : "disconnected");
    for (size_t q = 0; q < ts.size(); ++q) { sx_assert_msg(ts[q]->isConnected() == st[q], "one terminal is operated"); sx_assert(static_cast<bool>(ts[q]->getBusBreakerView().getBus()) == st[q] && ts[q]->getBusBreakerView().getConnectableBus()); }
  }
  checkTopology(n, false);
}
