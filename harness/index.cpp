// C03: identifiers and aliases; enumerations agree with lookups.
#include "common.hpp"
struct Model {
  struct Obj { std::set<std::string> plain; std::map<std::string, std::string> typed; };
  std::map<std::string, Obj> objs;
  bool owns(const std::string& id, const std::string& a) const { auto it = objs.find(id); if (it == objs.end()) return false; if (it->second.plain.count(a)) return true; for (auto& t : it->second.typed) if (t.second == a) return true; return false; }
  std::string resolve(const std::string& s) const { if (objs.count(s)) return s; for (auto& o : objs) if (owns(o.first, s)) return o.first; return ""; }
  std::string unique(const std::string& s) const { if (resolve(s).empty()) return s; for (int i = 0;; ++i) { std::string r = s + "#" + std::to_string(i); if (resolve(r).empty()) return r; } }
};
static const std::vector<std::string> U = {"X", "Y", "Z", "X#0", "Y#0", "Z#0", "X#1"};
static void compare(Network& n, const Model& m) {
  for (auto& s : U) {
    std::string r = m.resolve(s);
    auto f = n.find(s);
    sx_assert_msg(static_cast<bool>(f) == !r.empty(), "an identifier or alias resolves iff an object owns it");
    if (f) sx_assert_msg(f.get().getId() == r, "an identifier or alias resolves to its owner");
    sx_assert(throws([&] { n.getLoad(s); }) == r.empty());
  }
  sx_assert(n.getLoadCount() == m.objs.size());
  for (auto& o : m.objs) {
    Identifiable& i = n.getLoad(o.first);
    std::set<std::string> expected = o.second.plain, got; unsigned long k = 0;
    for (auto& t : o.second.typed) { expected.insert(t.second); sx_assert(i.getAliasFromType(t.first) && *i.getAliasFromType(t.first) == t.second && i.getAliasType(t.second) == t.first); }
    for (const std::string& a : i.getAliases()) { got.insert(a); ++k; }
    sx_assert(got == expected && k == expected.size() && i.hasAliases() == !expected.empty());
    for (const char* t : {"T1", "T2"}) sx_assert(static_cast<bool>(i.getAliasFromType(t)) == (o.second.typed.count(t) > 0));
  }
}
// every name is free, for an identifier and for an alias, iff nobody owns it
static void probe(Network& n, const std::vector<std::string>& names, const std::set<std::string>& taken) {
  VoltageLevel* vl = nullptr; for (VoltageLevel& v : n.getVoltageLevels()) if (v.getId() == "V" || v.getId() == "VC") vl = &v;
  sx_assume(vl != nullptr); std::string bus; for (Bus& b : vl->getBusBreakerView().getBuses()) { bus = b.getId(); break; }
  for (auto& s : names) {
    bool ok = true; try { mkLoadB(*vl, s, bus).remove(); } catch (const PowsyblException&) { ok = false; }
    sx_assert_msg(ok == !taken.count(s), "a name can be given to a new object iff it is free");
    Load& l = mkLoadB(*vl, "PROBE", bus); ok = true; try { l.addAlias(s); sx_assert(&n.get<Identifiable>(s) == &l); } catch (const PowsyblException&) { ok = false; }
    sx_assert_msg(ok == !taken.count(s), "a name can be given as an alias iff it is free");
    if (ok) { l.removeAlias(s); sx_assert(!n.find(s)); }
    l.remove();
  }
}
static void history(int steps, bool moves) {
  std::unique_ptr<Network> n(new Network("N", "test")); Model m;
  { Substation& s = mkSub(*n, "S"); VoltageLevel& vl = mkVl(s, "V", false); mkBus(vl, "B"); }
  auto create = [&](const std::string& id, bool uni) { n->getVoltageLevel("V").newLoad().setId(id).setEnsureIdUnicity(uni).setBus("B").setP0(0.0).setQ0(0.0).add(); };
  create("X", false); m.objs["X"]; create("Y", false); m.objs["Y"];
  static const char* S[] = {"X", "Y", "Z"}; static const char* A[] = {"X", "Z", "Y"}; static const char* R[] = {"X", "Z", "X#0", "Y"};
  for (int i = 0; i < steps; ++i) {
    bool ok = true, want = true;
    switch (sx_choose("op", moves ? 5 : 4)) {
      case 0: {
        std::string id = A[sx_choose("id", sx_bound(2, 3))]; bool uni = sx_bool("unicity");
        want = uni || m.resolve(id).empty();
        try { create(id, uni); } catch (const PowsyblException&) { ok = false; }
        sx_assert(ok == want);
        if (ok) m.objs[m.unique(id)];
        break;
      }
      case 1: {
        sx_assume(!m.objs.empty());
        std::string o = S[sx_choose("object", 2)], a = A[sx_choose("alias", sx_bound(2, 3))]; int ty = sx_choose("type", 3); static const char* T[] = {"", "T1", "T2"}; bool uni = ty < 2 ? sx_bool("unicity") : false;
        sx_assume(m.objs.count(o) > 0);
        if (uni) a = m.unique(a);
        std::string r = m.resolve(a);
        want = !(ty && m.objs[o].typed.count(T[ty])) && (r.empty() || r == o);
        try { std::string in = uni ? a.substr(0, 1) : a; if (ty) n->getLoad(o).addAlias(in, std::string(T[ty]), uni); else n->getLoad(o).addAlias(in, uni); } catch (const PowsyblException&) { ok = false; }
        sx_assert_msg(ok == want, "an alias is accepted iff it is free");
        if (ok && r.empty()) { if (ty) m.objs[o].typed[T[ty]] = a; else m.objs[o].plain.insert(a); }
        break;
      }
      case 2: {
        std::string o = S[sx_choose("object", 2)], a = R[sx_choose("alias", sx_bound(3, 4))];
        sx_assume(m.objs.count(o) > 0);
        want = m.owns(o, a);
        try { n->getLoad(o).removeAlias(a); } catch (const PowsyblException&) { ok = false; }
        sx_assert_msg(ok == want, "an alias is removed iff the object owns it");
        if (ok) { m.objs[o].plain.erase(a); for (auto it = m.objs[o].typed.begin(); it != m.objs[o].typed.end(); ++it) if (it->second == a) { m.objs[o].typed.erase(it); break; } }
        break;
      }
      case 3: {
        std::string o = S[sx_choose("object", 3)];
        sx_assume(m.objs.count(o) > 0);
        n->getLoad(o).remove(); m.objs.erase(o); sx_reach("removed");
        break;
      }
      default: { std::unique_ptr<Network> k(new Network(std::move(*n))); n = std::move(k); sx_reach("moved"); }
    }
    compare(*n, m);
  }
  std::set<std::string> taken; for (auto& s : U) if (!m.resolve(s).empty()) taken.insert(s);
  probe(*n, U, taken);
}
SX_HARNESS(histories) { history(sx_bound(3, 4), false); }
SX_HARNESS(histories_with_move) { history(sx_bound(2, 3), true); }

// a network that has been moved is the same network: every lookup, link, variant and edit works on the new object
SX_HARNESS(moved_network) {
  std::unique_ptr<Network> a(new Network("full", "test")); a->setCaseDate(stdcxx::DateTime::parse("2021-01-01T00:00:00.000+00:00"));
  buildFull(*a);
  a->getLoad("LOADB").addAlias("AL", "T"); a->getLoad("LOADB").setProperty("k", "v"); a->getSubstation("S1").addAlias("AS"); a->addAlias("AN");
  bool variants = sx_bool("variants");
  if (variants) { a->getVariantManager().cloneVariant("InitialVariant", "v1"); a->getVariantManager().setWorkingVariant("v1"); a->getLoad("LOADB").setP0(77.0); }
  if (sx_bool("views computed")) { for (Bus& b : a->getBusView().getBuses()) b.getConnectedComponent(); }
  std::string before = dump(*a); auto ids = idsOf(*a);
  std::unique_ptr<Network> b(new Network(std::move(*a)));
  if (sx_bool("old one destroyed")) a.reset();
  sx_assert(idsOf(*b) == ids);
  consistent(*b);
  sx_assert(dump(*b) == before);
  sx_assert(&b->get<Identifiable>("AL") == &b->getLoad("LOADB") && b->find("AS") && b->find("AN"));
  sx_assert(throws([&] { b->getLoad("LOADC").addAlias("AL"); }));
  b->getLoad("LOADB").removeAlias("AL"); sx_assert(!b->find("AL"));
  if (variants) { sx_assert(b->getVariantManager().getWorkingVariantId() == "v1" && b->getLoad("LOADB").getP0() == 77.0); b->getVariantManager().setWorkingVariant("InitialVariant"); sx_assert(b->getLoad("LOADB").getP0() == 10.0); }
  b->getVariantManager().cloneVariant("InitialVariant", "v2"); b->getVariantManager().setWorkingVariant("v2");
  b->getSwitch("COUPLER").setOpen(true); b->getSwitch("SWB").setOpen(true);
  unsigned long k = 0; for (Bus& x : b->getBusView().getBuses()) { sx_assert(&x.getNetwork() == b.get() && x.getConnectedComponent()); ++k; } sx_assert(k > 2);
  for (Bus& x : b->getBusBreakerView().getBuses()) sx_assert(&x.getNetwork() == b.get());
  mkLoadB(b->getVoltageLevel("VB"), "L2", "B2"); mkSub(*b, "S9");
  b->getLoad("L2").remove(); b->getSubstation("S9").remove(); b->getVariantManager().removeVariant("v2"); b->getVariantManager().setWorkingVariant("InitialVariant");
  b->getHvdcLine("HVSC").remove(); b->getLine("LINE").remove(); b->getThreeWindingsTransformer("T3").remove();
  consistent(*b);
}

// every kind of object: its aliases live exactly as long as it
SX_HARNESS(aliases_of_all) {
  Network n = fullNetwork();
  std::vector<std::string> v; for (auto& i : idsOf(n)) v.push_back(i);
  std::string id = v[sx_choose("object", v.size())]; Identifiable& o = n.get<Identifiable>(id);
  const std::vector<std::string> A = {"a1", "a2", "a3", "a4"}; std::set<std::string> own;
  for (int i = 0; i < 4; ++i) if (sx_bool(A[i].c_str())) { if (i % 2) o.addAlias(A[i], "t" + A[i]); else o.addAlias(A[i]); own.insert(A[i]); }
  int removed = sx_choose("removed alias", 5);
  if (removed < 4) { bool ok = true; try { o.removeAlias(A[removed]); } catch (const PowsyblException&) { ok = false; } sx_assert(ok == (own.erase(A[removed]) > 0)); }
  auto check = [&](const std::set<std::string>& w) { for (auto& a : A) { auto f = n.find(a); sx_assert_msg(static_cast<bool>(f) == (w.count(a) > 0), "an alias resolves iff an object owns it"); if (f) sx_assert(&f.get() == &o); } };
  check(own); consistent(n);
  bool gone = true;
  try {
    if (auto* c = dynamic_cast<Connectable*>(&o)) c->remove(); else if (auto* h = dynamic_cast<HvdcLine*>(&o)) h->remove(); else if (auto* x = dynamic_cast<VoltageLevel*>(&o)) x->remove(); else if (auto* s = dynamic_cast<Substation*>(&o)) s->remove();
    else if (auto* w = dynamic_cast<Switch*>(&o)) { VoltageLevel& l = w->getVoltageLevel(); if (l.getTopologyKind() == TopologyKind::NODE_BREAKER) l.getNodeBreakerView().removeSwitch(id); else l.getBusBreakerView().removeSwitch(id); }
    else if (auto* b = dynamic_cast<Bus*>(&o)) b->getVoltageLevel().getBusBreakerView().removeBus(id); else gone = false;
  } catch (const std::exception&) { gone = false; }
  if (gone) { own.clear(); sx_reach("removed"); } else sx_reach("kept");
  check(own); probe(n, A, own); consistent(n);
}
