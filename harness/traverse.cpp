// C28: traversing the topology from a terminal or a node.
#include "common.hpp"
struct Asker : public VoltageLevel::TopologyTraverser {
  std::map<const void*, bool> ans; int refusals; const Terminal* first = nullptr;
  explicit Asker(int k) : refusals(k) {}
  bool decide(const void* p, const std::string& name) {
    auto it = ans.find(p); if (it != ans.end()) return it->second;
    bool yes = true; if (refusals > 0 && sx_choose(("refuse " + name).c_str(), 2)) { yes = false; --refusals; }
    ans[p] = yes; return yes;
  }
  bool traverse(Terminal& t, bool connected) override {
    if (!first) first = &t;
    if (t.getVoltageLevel().getTopologyKind() == TopologyKind::BUS_BREAKER) sx_assert_msg(connected == t.isConnected(), "the traverser is told whether the terminal is connected");
    return decide(&t, t.getConnectable().get().getId() + "@" + t.getVoltageLevel().getId());
  }
  bool traverse(Switch& s) override { sx_assert_msg(first != nullptr, "a traversal starts by the terminal"); return decide(&s, s.getId()); }
};
struct Pos { const VoltageLevel* vl; std::string at; bool operator<(const Pos& o) const { return vl != o.vl ? vl < o.vl : at < o.at; } };
struct Link { const Switch* sw; Pos to; };
struct Map {
  std::map<Pos, std::vector<const Terminal*>> terms; std::map<const Terminal*, Pos> of; std::map<Pos, std::vector<Link>> links; std::map<const Terminal*, std::vector<const Terminal*>> ends; std::map<const void*, std::string> names;
  explicit Map(Network& n) {
    for (VoltageLevel& vl : n.getVoltageLevels()) {
      auto link = [&](const Switch* s, const std::string& a, const std::string& b) { links[Pos{&vl, a}].push_back(Link{s, Pos{&vl, b}}); links[Pos{&vl, b}].push_back(Link{s, Pos{&vl, a}}); };
      if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
        auto& v = vl.getNodeBreakerView();
        for (Switch& s : v.getSwitches()) { link(&s, std::to_string(v.getNode1(s.getId())), std::to_string(v.getNode2(s.getId()))); names[&s] = s.getId(); }
        for (const auto& ic : v.getInternalConnections()) link(nullptr, std::to_string(ic.getNode1()), std::to_string(ic.getNode2()));
      } else for (Switch& s : vl.getBusBreakerView().getSwitches()) { link(&s, vl.getBusBreakerView().getBus1(s.getId()).get().getId(), vl.getBusBreakerView().getBus2(s.getId()).get().getId()); names[&s] = s.getId(); }
      for (Connectable& c : vl.getConnectables()) {
        bool through = c.getType() == ConnectableType::LINE || c.getType() == ConnectableType::TWO_WINDINGS_TRANSFORMER || c.getType() == ConnectableType::THREE_WINDINGS_TRANSFORMER;
        for (Terminal& t : c.getTerminals()) {
          names[&t] = c.getId(); if (&t.getVoltageLevel() != &vl || of.count(&t)) continue;
          Pos p{&vl, vl.getTopologyKind() == TopologyKind::NODE_BREAKER ? std::to_string(t.getNodeBreakerView().getNode()) : t.getBusBreakerView().getConnectableBus().get().getId()};
          terms[p].push_back(&t); of[&t] = p;
          if (through) for (Terminal& o : c.getTerminals()) if (&o != &t) ends[&t].push_back(&o);
        }
      }
    }
  }
};
static void check(Network& n, Terminal& start, Asker& a) {
  Map m(n);
  start.traverse(a);
  sx_assert_msg(a.first == &start, "a traversal starts by the terminal");
  std::set<const void*> allowed; std::vector<const Terminal*> todo; std::set<Pos> reached; std::vector<Pos> queue;
  std::vector<std::pair<Pos, const void*>> due;   // switches that must be proposed unless their other side is reached otherwise
  auto has = [&](const void* p) { return a.ans.count(p) != 0; };
  std::function<void(const Pos&)> reach = [&](const Pos& p) { if (reached.insert(p).second) queue.push_back(p); };
  auto propose = [&](const Terminal* t, bool must) {
    if (must) sx_assert_msg(has(t), "a terminal that can be reached is not proposed to the traverser");
    if (allowed.insert(t).second && has(t) && a.ans[t]) todo.push_back(t);
  };
  propose(&start, true);
  const Pos from = m.of.at(&start);
  while (!todo.empty() || !queue.empty()) {
    if (!todo.empty()) {
      const Terminal* t = todo.back(); todo.pop_back(); reach(m.of.at(t));
      for (const Terminal* o : m.ends[t]) propose(o, true);
      continue;
    }
    Pos p = queue.back(); queue.pop_back(); bool nb = p.vl->getTopologyKind() == TopologyKind::NODE_BREAKER;
    if (!nb) for (const Terminal* t : m.terms[p]) propose(t, !(p < from) && !(from < p));
    for (const Link& l : m.links[p]) {
      if (l.sw) { allowed.insert(l.sw); if (!has(l.sw)) { if (nb) due.push_back({l.to, l.sw}); continue; } if (!a.ans[l.sw]) continue; }
      auto it = m.terms.find(l.to);
      if (it == m.terms.end() || it->second.empty()) reach(l.to);
      else for (const Terminal* t : it->second) propose(t, nb);
    }
  }
  for (auto& x : due) sx_assert_msg(reached.count(x.first) != 0, "a switch that leads further is not proposed to the traverser");
  for (auto& x : a.ans) { if (!allowed.count(x.first)) __sx_api_note(m.names[x.first].c_str()); sx_assert_msg(allowed.count(x.first) != 0, "what is proposed to the traverser is next to something it accepted"); }
  if (!a.ans[&start]) { sx_assert(a.ans.size() == 1); sx_reach("refused at once"); }
}
// from every terminal of a network of every kind of equipment; up to two (three: thorough) of the elements proposed is refused
SX_HARNESS(full) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  std::vector<Terminal*> ts; for (Connectable& c : n.getConnectables()) for (Terminal& t : c.getTerminals()) ts.push_back(&t);
  Asker a(sx_bound(2, 3)); check(n, *ts[sx_choose("start", static_cast<int64_t>(ts.size()))], a);
  if (a.ans.size() > 20) sx_reach("everything");
}
// two voltage levels joined by a line, a transformer or both; three symbolic edges between four nodes; all the answers are symbolic
SX_HARNESS(nodes) {
  Network n = mkNet("net"); Substation& s = mkSub(n, "S"); VoltageLevel& v = mkVl(s, "V", true); VoltageLevel& w = mkVl(s, "W", true);
  static const int AT[3][4] = {{1, 2, 0, 3}, {2, 0, 3, 0}, {1, 3, 3, 2}};   // 1: busbar section, 2: load, 3: line to W
  int at = static_cast<int>(sx_choose("equipment", 3)), lines = 0;
  mkBbs(w, "BW", 0); mkSw(w, "SW", 0, 1); mkIc(w, 0, 2);
  for (unsigned long k = 0; k < 4; ++k) switch (AT[at][k]) {
    case 1: mkBbs(v, "E" + std::to_string(k), k); break;
    case 2: mkLoadN(v, "E" + std::to_string(k), k); break;
    case 3: ++lines; mkLineN(n, "E" + std::to_string(k), "V", k, "W", static_cast<unsigned long>(lines)); break;
    default: break;
  }
  static const int PAIR[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  int last = 0, inner = sx_thorough() ? 8 : static_cast<int>(sx_choose("internal connection", 4));
  for (int i = 0; i < 3; ++i) {
    int p = static_cast<int>(sx_choose("edge", 6)); sx_assume(p >= last); last = p;
    if (inner == 8 ? sx_choose("kind", 2) != 0 : inner == i) mkIc(v, PAIR[p][0], PAIR[p][1]); else mkSw(v, "K" + std::to_string(i), PAIR[p][0], PAIR[p][1], i == 1);
  }
  std::vector<Terminal*> ts; for (Connectable& c : n.getConnectables()) for (Terminal& t : c.getTerminals()) ts.push_back(&t);
  Asker a(sx_bound(1, 99)); check(n, *ts[sx_choose("start", static_cast<int64_t>(ts.size()))], a);
  if (a.ans.size() > 6) sx_reach("many");
}
// the same from a node: the traverser is asked for each edge to a node not reached yet
SX_HARNESS(from_node) {
  Network n = mkNet("net"); Substation& s = mkSub(n, "S"); VoltageLevel& v = mkVl(s, "V", true);
  static const int PAIR[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  struct E { unsigned long a, b; const Switch* sw; }; std::vector<E> es; int last = 0;
  mkBbs(v, "B0", 0); mkLoadN(v, "L2", 2); mkIc(v, 1, 3); es.push_back({1, 3, nullptr});
  for (int i = 0; i < sx_bound(2, 4); ++i) {
    int p = static_cast<int>(sx_choose("edge", 6)); sx_assume(p >= last); last = p;
    unsigned long x = PAIR[p][0], y = PAIR[p][1]; if (sx_choose("turned", 2)) std::swap(x, y);
    if (sx_choose("kind", 2)) { mkIc(v, x, y); es.push_back({x, y, nullptr}); } else es.push_back({x, y, &mkSw(v, "K" + std::to_string(i), x, y, i == 1)});
  }
  // a node must exist in the graph
  std::set<unsigned long> nodes; for (unsigned long k : v.getNodeBreakerView().getNodes()) nodes.insert(k);
  unsigned long start = static_cast<unsigned long>(sx_choose("start", 4)); sx_assume(nodes.count(start) != 0);
  std::set<unsigned long> seen{start}; std::map<std::pair<unsigned long, unsigned long>, std::set<const Switch*>> refused; int asked = 0;
  v.getNodeBreakerView().traverse(start, [&](unsigned long n1, const stdcxx::Reference<Switch>& sw, unsigned long n2) {
    ++asked;
    const Switch* p = sw ? &sw.get() : nullptr; bool found = false;
    for (auto& e : es) if (e.sw == p && ((e.a == n1 && e.b == n2) || (e.a == n2 && e.b == n1))) found = true;
    sx_assert_msg(found, "the traverser is given an edge and its two nodes");
    sx_assert_msg(seen.count(n1) && !seen.count(n2), "a traversal goes from a node reached to another one");
    bool yes = sx_choose("go", 2) != 0; if (yes) seen.insert(n2); else { refused[{n1, n2}].insert(p); refused[{n2, n1}].insert(p); }
    return yes;
  });
  for (auto& e : es) if (seen.count(e.a) != seen.count(e.b)) { bool r = refused[{e.a, e.b}].count(e.sw) != 0; sx_assert_msg(r, "an edge that leads further is proposed to the traverser"); }
  sx_reach("from a node"); if (seen.size() == 4) sx_reach("all the nodes");
}
