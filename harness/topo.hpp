// Oracle of the calculated topology: everything is recomputed from switches, connections and terminals.
#ifndef TOPO_HPP
#define TOPO_HPP
#include "common.hpp"
struct TopoBus { std::set<const Terminal*> terms; std::string id; VoltageLevel* vl; Bus* bus; };   // a bus of the bus view
struct Topo { std::vector<TopoBus> buses; std::map<const Terminal*, int> of; std::map<const Bus*, int> busBreaker; };   // terminal -> bus of the bus view; bus of the bus/breaker view -> bus of the bus view (or -1)
static inline bool isBranchLike(const Terminal& t) { switch (t.getConnectable().get().getType()) { case ConnectableType::LINE: case ConnectableType::TWO_WINDINGS_TRANSFORMER: case ConnectableType::THREE_WINDINGS_TRANSFORMER: case ConnectableType::HVDC_CONVERTER_STATION: case ConnectableType::DANGLING_LINE: return true; default: return false; } }
static inline std::set<const Terminal*> termsOf(const Bus& b) { std::set<const Terminal*> s; unsigned long k = 0; for (const Terminal& t : b.getConnectedTerminals()) { s.insert(&t); ++k; } sx_assert(k == s.size() && b.getConnectedTerminalCount() == k); return s; }
static inline void checkNodeBreaker(VoltageLevel& vl, Topo& topo) {
  auto& nv = vl.getNodeBreakerView();
  struct Edge { unsigned long a, b; bool open, retained, sw; std::string id; };
  std::vector<Edge> edges; std::map<unsigned long, int> idx; std::vector<unsigned long> nodes; unsigned long top = 0;
  for (unsigned long k : nv.getNodes()) { idx[k] = nodes.size(); nodes.push_back(k); top = std::max(top, k); }
  for (Switch& s : nv.getSwitches()) edges.push_back({nv.getNode1(s.getId()), nv.getNode2(s.getId()), s.isOpen(), s.isRetained(), true, s.getId()});
  for (const auto& ic : nv.getInternalConnections()) edges.push_back({ic.getNode1(), ic.getNode2(), false, false, false, ""});
  UF a(nodes.size()), b(nodes.size()), any(nodes.size()); std::vector<bool> wired(nodes.size(), false);
  for (auto& e : edges) { int x = idx.at(e.a), y = idx.at(e.b); wired[x] = wired[y] = true; any.uni(x, y); if (!e.open) { a.uni(x, y); if (!e.retained) b.uni(x, y); } }
  struct Comp { std::set<const Terminal*> terms; unsigned long min; int branch = 0, feeder = 0, bbs = 0; };
  auto comps = [&](UF& u) { std::map<int, Comp> m; for (size_t i = 0; i < nodes.size(); ++i) if (wired[i]) { int r = u.find(i); if (!m.count(r)) m[r].min = nodes[i]; m[r].min = std::min(m[r].min, nodes[i]); auto t = nv.getTerminal(nodes[i]); if (t) { m[r].terms.insert(&t.get()); if (t.get().getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) ++m[r].bbs; else { ++m[r].feeder; if (isBranchLike(t.get())) ++m[r].branch; } } } return m; };
  auto ca = comps(a), cb = comps(b);
  std::map<int, int> busOf;   // root in a -> topo bus
  std::map<std::string, std::set<const Terminal*>> want, got;
  for (auto& c : ca) if ((c.second.bbs >= 1 && c.second.feeder >= 1) || (c.second.branch >= 1 && c.second.feeder >= 2)) {
    std::string id = vl.getId() + "_" + std::to_string(c.second.min);
    want[id] = c.second.terms;
    auto r = vl.getBusView().getBus(id); sx_assert_msg(static_cast<bool>(r), "the bus view has no bus for a group of nodes connected by closed switches");
    busOf[c.first] = topo.buses.size(); topo.buses.push_back({c.second.terms, id, &vl, &r.get()});
  }
  for (Bus& x : vl.getBusView().getBuses()) { sx_assert(!got.count(x.getId()) && &x.getVoltageLevel() == &vl && &vl.getBusView().getBus(x.getId()).get() == &x); got[x.getId()] = termsOf(x); }
  sx_assert_msg(want == got, "the buses of the bus view are the groups of nodes connected by closed switches");
  want.clear(); got.clear(); std::map<int, Bus*> bb;
  for (auto& c : cb) { std::string id = vl.getId() + "_" + std::to_string(c.second.min); want[id] = c.second.terms; auto r = vl.getBusBreakerView().getBus(id); sx_assert(static_cast<bool>(r)); bb[c.first] = &r.get(); }
  for (Bus& x : vl.getBusBreakerView().getBuses()) { sx_assert(!got.count(x.getId()) && &x.getVoltageLevel() == &vl && &vl.getBusBreakerView().getBus(x.getId()).get() == &x); got[x.getId()] = termsOf(x); }
  sx_assert_msg(want == got, "the buses of the bus/breaker view are the groups of nodes connected by closed, not retained switches");
  for (auto& c : cb) { int r = a.find(c.first); topo.busBreaker[bb[c.first]] = busOf.count(r) ? busOf[r] : -1; }
  std::set<std::string> rs, rg;
  for (auto& e : edges) if (e.sw) {
    if (e.retained) { rs.insert(e.id); sx_assert(&vl.getBusBreakerView().getBus1(e.id).get() == bb[b.find(idx[e.a])] && &vl.getBusBreakerView().getBus2(e.id).get() == bb[b.find(idx[e.b])] && vl.getBusBreakerView().getSwitch(e.id).get().getId() == e.id); }
    else sx_assert(throws([&] { vl.getBusBreakerView().getBus1(e.id); }) && throws([&] { vl.getBusBreakerView().getSwitch(e.id); }));
  }
  for (Switch& s : vl.getBusBreakerView().getSwitches()) rg.insert(s.getId());
  sx_assert(rs == rg && vl.getBusBreakerView().getSwitchCount() == rs.size());
  for (size_t i = 0; i < nodes.size(); ++i) {
    auto r = nv.getTerminal(nodes[i]); if (!r) continue; Terminal& t = r.get();
    int root = a.find(i); bool has = wired[i] && busOf.count(root);
    auto bv = t.getBusView().getBus(), cbv = t.getBusView().getConnectableBus();
    sx_assert(static_cast<bool>(bv) == has && t.isConnected() == has);
    if (has) { topo.of[&t] = busOf[root]; sx_assert(&bv.get() == topo.buses[busOf[root]].bus && &cbv.get() == &bv.get()); }
    else {
      std::set<const Bus*> near; for (size_t j = 0; j < nodes.size(); ++j) if (any.find(j) == any.find(i) && busOf.count(a.find(j))) near.insert(topo.buses[busOf[a.find(j)]].bus);
      if (!near.empty()) sx_assert_msg(cbv && near.count(&cbv.get()), "the connectable bus is a bus reachable through the switches");
      else sx_assert(static_cast<bool>(cbv) == !busOf.empty());
    }
    auto bbv = t.getBusBreakerView().getBus();
    sx_assert(static_cast<bool>(bbv) == wired[i]); if (wired[i]) sx_assert(&bbv.get() == bb[b.find(i)] && &t.getBusBreakerView().getConnectableBus().get() == bb[b.find(i)]);
    if (t.getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION) { auto m = vl.getBusView().getMergedBus(t.getConnectable().get().getId()); sx_assert(static_cast<bool>(m) == has); if (has) sx_assert(&m.get() == &bv.get()); }
  }
}
static inline void checkBusBreaker(VoltageLevel& vl, Topo& topo) {
  auto& bv = vl.getBusBreakerView(); std::vector<Bus*> buses; std::map<const Bus*, int> idx;
  for (Bus& b : bv.getBuses()) { idx[&b] = buses.size(); buses.push_back(&b); }
  UF u(buses.size());
  for (Switch& s : bv.getSwitches()) if (!s.isOpen()) u.uni(idx.at(&bv.getBus1(s.getId()).get()), idx.at(&bv.getBus2(s.getId()).get()));
  std::vector<std::set<const Terminal*>> at(buses.size());
  std::vector<Terminal*> terms;
  for (Connectable& c : vl.getConnectables()) for (Terminal& t : c.getTerminals()) if (&t.getVoltageLevel() == &vl) {
    terms.push_back(&t); auto cb = t.getBusBreakerView().getConnectableBus(), b = t.getBusBreakerView().getBus();
    sx_assert(cb && idx.count(&cb.get()) && static_cast<bool>(b) == t.isConnected()); if (b) { sx_assert(&b.get() == &cb.get()); at[idx[&b.get()]].insert(&t); }
  }
  for (size_t i = 0; i < buses.size(); ++i) sx_assert_msg(termsOf(*buses[i]) == at[i], "the terminals of a configured bus are the ones connected to it");
  std::map<int, std::set<const Terminal*>> comp; std::map<int, bool> valid;
  for (size_t i = 0; i < buses.size(); ++i) { int r = u.find(i); comp[r].insert(at[i].begin(), at[i].end()); for (auto* t : at[i]) if (isBranchLike(*t)) valid[r] = true; }
  std::map<int, int> busOf; std::map<int, Bus*> merged;
  for (size_t i = 0; i < buses.size(); ++i) {
    int r = u.find(i); auto m = vl.getBusView().getMergedBus(buses[i]->getId());
    sx_assert_msg(static_cast<bool>(m) == valid[r], "a merged bus exists iff a branch is connected to it"); if (!m) { topo.busBreaker[buses[i]] = -1; continue; }
    if (!merged.count(r)) { merged[r] = &m.get(); busOf[r] = topo.buses.size(); sx_assert_msg(termsOf(m.get()) == comp[r], "a merged bus has the terminals connected to its buses"); topo.buses.push_back({comp[r], m.get().getId(), &vl, &m.get()}); }
    sx_assert_msg(merged[r] == &m.get(), "buses linked by closed switches have one merged bus");
    topo.busBreaker[buses[i]] = busOf[r];
  }
  std::set<Bus*> distinct; for (auto& m : merged) sx_assert_msg(distinct.insert(m.second).second, "buses not linked by closed switches have different merged buses");
  std::set<std::string> ids, want;
  for (Bus& b : vl.getBusView().getBuses()) { sx_assert(distinct.count(&b) && ids.insert(b.getId()).second && &vl.getBusView().getBus(b.getId()).get() == &b && &b.getVoltageLevel() == &vl); }
  for (size_t i = 0; i < distinct.size(); ++i) want.insert(vl.getId() + "_" + std::to_string(i));
  sx_assert(ids == want);
  for (Terminal* t : terms) {
    int r = u.find(idx[&t->getBusBreakerView().getConnectableBus().get()]);
    auto b = t->getBusView().getBus(), c = t->getBusView().getConnectableBus();
    sx_assert(static_cast<bool>(b) == (t->isConnected() && merged.count(r)) && static_cast<bool>(c) == (merged.count(r) > 0));
    if (b) { sx_assert(&b.get() == merged[r]); topo.of[t] = busOf[r]; }
    if (c) sx_assert(&c.get() == merged[r]);
  }
}
static inline void checkComponents(Network& n, Topo& topo, bool dc) {
  UF u(topo.buses.size());
  auto join = [&](const Terminal& a, const Terminal& b) { if (topo.of.count(&a) && topo.of.count(&b)) u.uni(topo.of[&a], topo.of[&b]); };
  for (Line& l : n.getLines()) join(l.getTerminal1(), l.getTerminal2());
  for (TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) join(t.getTerminal1(), t.getTerminal2());
  for (ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) { join(t.getLeg1().getTerminal(), t.getLeg2().getTerminal()); join(t.getLeg1().getTerminal(), t.getLeg3().getTerminal()); join(t.getLeg2().getTerminal(), t.getLeg3().getTerminal()); }
  if (dc) for (HvdcLine& h : n.getHvdcLines()) join(h.getConverterStation1().get().getTerminal(), h.getConverterStation2().get().getTerminal());
  std::map<int, std::set<const Bus*>> comp; for (size_t i = 0; i < topo.buses.size(); ++i) comp[u.find(i)].insert(topo.buses[i].bus);
  std::map<int, unsigned long> num; std::vector<unsigned long> sizes(comp.size(), 0);
  auto get = [&](Bus& b) { return dc ? b.getConnectedComponent() : b.getSynchronousComponent(); };
  for (size_t i = 0; i < topo.buses.size(); ++i) {
    int r = u.find(i); Bus& b = *topo.buses[i].bus; auto c = get(b); sx_assert_msg(static_cast<bool>(c), "every bus of the bus view belongs to a component");
    if (!num.count(r)) { num[r] = c.get().getNum(); sx_assert(c.get().getNum() < comp.size() && sizes[c.get().getNum()] == 0); sizes[c.get().getNum()] = comp[r].size(); std::set<const Bus*> g; for (Bus& x : c.get().getBuses()) g.insert(&x); sx_assert_msg(g == comp[r], "the buses of a component are the buses linked by branches"); }
    sx_assert_msg(c.get().getNum() == num[r] && c.get().getSize() == comp[r].size(), "buses linked by branches belong to one component");
    sx_assert((dc ? b.isInMainConnectedComponent() : b.isInMainSynchronousComponent()) == (num[r] == 0));
  }
  for (size_t i = 1; i < sizes.size(); ++i) sx_assert_msg(sizes[i - 1] >= sizes[i], "components are numbered by decreasing size");
  for (auto& x : topo.busBreaker) { auto c = get(const_cast<Bus&>(*x.first)); sx_assert_msg(static_cast<bool>(c) == (x.second >= 0), "a bus belongs to a component iff its bus of the bus view does"); if (c) sx_assert(c.get().getNum() == num[u.find(x.second)]); }
  unsigned long k = 0; if (dc) { for (Component& c : n.getBusView().getConnectedComponents()) sx_assert(c.getNum() == k++); } else { for (Component& c : n.getBusView().getSynchronousComponents()) sx_assert(c.getNum() == k++); }
  sx_assert(k == comp.size());
}
// the whole calculated topology of the current variant
static inline void checkTopology(Network& n, bool components = true) {
  Topo topo;
  for (VoltageLevel& vl : n.getVoltageLevels()) { if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) checkNodeBreaker(vl, topo); else checkBusBreaker(vl, topo); }
  std::set<const Bus*> all, got; for (auto& b : topo.buses) { all.insert(b.bus); sx_assert_msg(n.getBusView().getBus(b.id) && &n.getBusView().getBus(b.id).get() == b.bus, "the network finds every bus of the bus view"); }
  for (Bus& b : n.getBusView().getBuses()) got.insert(&b);
  sx_assert(all == got);
  all.clear(); got.clear(); for (auto& b : topo.busBreaker) { all.insert(b.first); auto r = n.getBusBreakerView().getBus(b.first->getId()); sx_assert_msg(r && &r.get() == b.first, "the network finds every bus of the bus/breaker view"); }
  for (Bus& b : n.getBusBreakerView().getBuses()) got.insert(&b);
  sx_assert(all == got);
  if (components) { checkComponents(n, topo, true); checkComponents(n, topo, false); }
}
#endif
