// C02: creating an equipment either yields a complete, consistent equipment, or raises an error and changes nothing.
#include "common.hpp"
struct Loc { int node; const char* bus; const char* cbus; bool ok; bool connected; };
static const Loc BB[] = {{-1, "B1", "B1", true, true}, {-1, nullptr, nullptr, false, false}, {-1, "NOBUS", nullptr, false, false}, {-1, "B1", "B2", false, false}, {40, nullptr, nullptr, false, false},
                         {-1, "B2", nullptr, true, true}, {40, "B1", nullptr, false, false}, {-1, nullptr, "B1", true, false}, {-1, nullptr, "NOBUS", false, false}, {-1, "D1", "D1", false, false}, {-1, "VB_0", nullptr, false, false}};
static const Loc NB[] = {{40, nullptr, nullptr, true, false}, {-1, nullptr, nullptr, false, false}, {3, nullptr, nullptr, false, false}, {-1, "VN_0", "VN_0", false, false}, {40, "B1", nullptr, false, false}, {2, nullptr, nullptr, true, true}, {0, nullptr, nullptr, false, false}, {-1, nullptr, "B1", false, false}};
struct Id { const char* id; bool unicity; bool ok; const char* real; };
static const Id IDS[] = {{"NEW", false, true, "NEW"}, {"LOADB", false, false, ""}, {"VB", false, false, ""}, {"SWB", false, false, ""}, {"ALIAS", false, false, ""}, {"", false, false, ""}, {"LOADB", true, true, "LOADB#0"}, {"ALIAS", true, true, "ALIAS#0"}, {"LOADB#0", true, true, "LOADB#0"}, {"B1", false, false, ""}, {"full", false, false, ""}};
template <typename A> static A& locate(A& a, const Loc& l, const Id& i) {
  a.setId(i.id).setEnsureIdUnicity(i.unicity);
  if (l.node >= 0) a.setNode(static_cast<unsigned long>(l.node));
  if (l.bus) a.setBus(l.bus);
  if (l.cbus) a.setConnectableBus(l.cbus);
  return a;
}
static Connectable& create(VoltageLevel& vl, int kind, const Loc& l, const Id& i) {
  switch (kind) {
    case 0: { auto a = vl.newLoad(); return locate(a, l, i).setP0(1.0).setQ0(2.0).add(); }
    case 1: { auto a = vl.newGenerator(); return locate(a, l, i).setMinP(0.0).setMaxP(1.0).setTargetP(0.5).setTargetV(400.0).setVoltageRegulatorOn(true).add(); }
    case 2: { auto a = vl.newBattery(); return locate(a, l, i).setP0(1.0).setQ0(2.0).setMinP(0.0).setMaxP(1.0).add(); }
    case 3: { auto a = vl.newShuntCompensator(); return locate(a, l, i).setSectionCount(1UL).newLinearModel().setBPerSection(1.0).setMaximumSectionCount(2UL).add().add(); }
    case 4: { auto a = vl.newStaticVarCompensator(); return locate(a, l, i).setBmin(0.0).setBmax(1.0).setRegulationMode(StaticVarCompensator::RegulationMode::OFF).add(); }
    case 5: { auto a = vl.newVscConverterStation(); return locate(a, l, i).setLossFactor(1.0).setReactivePowerSetpoint(1.0).setVoltageRegulatorOn(false).add(); }
    case 6: { auto a = vl.newLccConverterStation(); return locate(a, l, i).setLossFactor(1.0).setPowerFactor(0.5).add(); }
    default: { auto a = vl.newDanglingLine(); return locate(a, l, i).setP0(1.0).setQ0(1.0).setR(1.0).setX(1.0).setG(1.0).setB(1.0).add(); }
  }
}
static void injection(bool nb) {
  Network n = anyNetwork(); n.getLoad("LOADC").addAlias("ALIAS");
  VoltageLevel& vl = n.getVoltageLevel(nb ? "VN" : "VB");
  int kind = sx_choose("kind", 8);
  int li = sx_choose("location", nb ? 8 : 11), ii = sx_choose("id", 11);
  const Loc& l = nb ? NB[li] : BB[li]; const Id& i = IDS[ii];
  std::string before = dump(n); auto ids = idsOf(n); unsigned long cc = vl.getConnectableCount(), nc = n.getConnectableCount();
  Connectable* c = nullptr;
  try { c = &create(vl, kind, l, i); } catch (const PowsyblException&) {}
  if (!c) {
    sx_reach("refused");
    sx_assert_msg(!(l.ok && i.ok), "a valid equipment was refused");
    sx_assert_msg(dump(n) == before && idsOf(n) == ids && vl.getConnectableCount() == cc && n.getConnectableCount() == nc, "a refused creation left a trace");
    static const Id good{"NEW", false, true, "NEW"};
    create(vl, kind, nb ? NB[0] : BB[0], good);
    sx_assert(vl.getConnectableCount() == cc + 1 && n.find("NEW"));
    return;
  }
  sx_reach("created");
  sx_assert_msg(l.ok && i.ok, "an invalid equipment was created");
  sx_assert(c->getId() == i.real && n.find(i.real) && &n.get<Identifiable>(i.real) == c);
  sx_assert(vl.getConnectableCount() == cc + 1 && n.getConnectableCount() == nc + 1 && idsOf(n).size() == ids.size() + 1);
  Terminal& t = c->getTerminals()[0];
  sx_assert(&t.getVoltageLevel() == &vl && &t.getConnectable().get() == c && t.isConnected() == l.connected);
  if (nb) sx_assert(t.getNodeBreakerView().getNode() == static_cast<unsigned long>(l.node) && &vl.getNodeBreakerView().getTerminal(l.node).get() == &t);
  else { std::string b = l.bus ? l.bus : l.cbus; sx_assert(t.getBusBreakerView().getConnectableBus().get().getId() == b && static_cast<bool>(t.getBusBreakerView().getBus()) == l.connected); }
  c->remove();
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing an equipment left a trace");
}
SX_HARNESS(injection_bus) { injection(false); }
SX_HARNESS(injection_node) { injection(true); }

// branches: two or three ends
static const Loc E[] = {{-1, "B1", "B1", true, true}, {-1, nullptr, nullptr, false, false}, {-1, "NOBUS", nullptr, false, false}, {40, nullptr, nullptr, false, false}, {-1, nullptr, "B2", true, false}, {-1, "B1", "B2", false, false}};
static const Loc EN[] = {{40, nullptr, nullptr, true, false}, {41, nullptr, nullptr, true, false}, {3, nullptr, nullptr, false, false}, {-1, "B1", nullptr, false, false}, {-1, nullptr, nullptr, false, false}};
struct End { const char* vl; Loc l; bool nb; };
static End chooseEnd(const char* nm) {
  switch (sx_choose(nm, 3)) { case 0: { std::string s = std::string(nm) + "bus"; return End{"VB", E[sx_choose(s.c_str(), 6)], false}; } case 1: { std::string s = std::string(nm) + "node"; return End{"VN", EN[sx_choose(s.c_str(), 5)], true}; } default: return End{"NOVL", E[0], false}; }
}
template <typename A> static void ends(A& a, const End& e1, const End& e2) {
  a.setId("NEW").setVoltageLevel1(e1.vl).setVoltageLevel2(e2.vl);
  if (e1.l.node >= 0) a.setNode1(e1.l.node); if (e1.l.bus) a.setBus1(e1.l.bus); if (e1.l.cbus) a.setConnectableBus1(e1.l.cbus);
  if (e2.l.node >= 0) a.setNode2(e2.l.node); if (e2.l.bus) a.setBus2(e2.l.bus); if (e2.l.cbus) a.setConnectableBus2(e2.l.cbus);
}

static void branch(int kind) {
  Network n = anyNetwork();
  End e1 = chooseEnd("side1"), e2 = chooseEnd("side2");
  int ii = sx_choose("id", 4); const Id& id = IDS[ii == 3 ? 6 : ii];
  auto okEnd = [](const End& e) { return std::string(e.vl) != "NOVL" && e.l.ok; };
  bool okEnds = okEnd(e1) && okEnd(e2) && !(e1.nb && e2.nb && e1.l.node == e2.l.node);
  bool ok = okEnds && id.ok;
  std::string before = dump(n); auto ids = idsOf(n);
  auto mk = [&](const End& a, const End& c, const Id& i) -> Branch& {
    if (kind == 0) { auto x = n.newLine(); ends(x, a, c); return x.setId(i.id).setEnsureIdUnicity(i.unicity).setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add(); }
    if (kind == 1) { auto x = n.getSubstation("S1").newTwoWindingsTransformer(); ends(x, a, c); return x.setId(i.id).setEnsureIdUnicity(i.unicity).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(1.0).add(); }
    auto x = n.newTieLine(); ends(x, a, c); return x.setId(i.id).setEnsureIdUnicity(i.unicity).setUcteXnodeCode("X").newHalfLine1().setId("HH1").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add().newHalfLine2().setId("HH2").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add().add();
  };
  Branch* b = nullptr;
  try { b = &mk(e1, e2, id); } catch (const PowsyblException&) {}
  if (!b) {
    sx_reach("refused");
    sx_assert_msg(!ok, "a valid branch was refused");
    sx_assert_msg(dump(n) == before && idsOf(n) == ids, "a refused creation left a trace");
    Branch& g = mk(End{"VN", EN[0], true}, End{"VN", EN[1], true}, IDS[0]);   // the nodes and the id named in the refused creation are still free
    sx_assert(n.find("NEW") && g.getTerminal1().getNodeBreakerView().getNode() == 40UL && g.getTerminal2().getNodeBreakerView().getNode() == 41UL);
    return;
  }
  sx_reach("created");
  sx_assert_msg(ok, "an invalid branch was created");
  sx_assert(b->getId() == id.real && idsOf(n).size() == ids.size() + 1);
  const End* e[] = {&e1, &e2};
  for (int k = 0; k < 2; ++k) {
    Terminal& t = k ? b->getTerminal2() : b->getTerminal1();
    sx_assert(t.getVoltageLevel().getId() == e[k]->vl && &t.getConnectable().get() == b && t.isConnected() == e[k]->l.connected);
    if (e[k]->nb) sx_assert(&t.getVoltageLevel().getNodeBreakerView().getTerminal(e[k]->l.node).get() == &t);
    else { std::string bus = e[k]->l.bus ? e[k]->l.bus : e[k]->l.cbus; sx_assert(t.getBusBreakerView().getConnectableBus().get().getId() == bus); }
  }
  b->remove();
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing a branch left a trace");
}
SX_HARNESS(line) { branch(0); }
SX_HARNESS(two_windings_transformer) { branch(1); }
SX_HARNESS(tie_line) { branch(2); }

SX_HARNESS(three_windings_transformer) {
  Network n = anyNetwork(); Substation& s = n.getSubstation("S1");
  struct L { const char* vl; int node; const char* bus; const char* cbus; bool ok, connected; };
  static const L legs[] = {{"VB", -1, "B1", "B1", true, true}, {"VN", 40, nullptr, nullptr, true, false}, {"VN", 41, nullptr, nullptr, true, false}, {"VN", 3, nullptr, nullptr, false, false}, {"VC", -1, nullptr, "C1", true, false}, {"VB", -1, "C1", "C1", false, false}, {"VD", -1, "D1", "D1", false, false}, {"NOVL", -1, "B1", "B1", false, false}};
  int k[3] = {static_cast<int>(sx_choose("leg1", 8)), static_cast<int>(sx_choose("leg2", 8)), static_cast<int>(sx_choose("leg3", 8))};
  int ii = sx_choose("id", 2); const Id& id = IDS[ii];
  bool ok = id.ok;
  for (int i = 0; i < 3; ++i) { ok = ok && legs[k[i]].ok; for (int j = 0; j < i; ++j) if (k[i] == k[j] && legs[k[i]].node >= 0) ok = false; }
  std::string before = dump(n); auto ids = idsOf(n);
  auto mk = [&](const L& a, const L& b, const L& c, const Id& x) -> ThreeWindingsTransformer& {
    auto t = s.newThreeWindingsTransformer(); t.setId(x.id).setRatedU0(1.0);
    auto leg = [](ThreeWindingsTransformerAdder::LegAdder l, const L& d) { l.setVoltageLevel(d.vl).setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU(1.0); if (d.node >= 0) l.setNode(d.node); if (d.bus) l.setBus(d.bus); if (d.cbus) l.setConnectableBus(d.cbus); l.add(); };
    leg(t.newLeg1(), a); leg(t.newLeg2(), b); leg(t.newLeg3(), c);
    return t.add();
  };
  ThreeWindingsTransformer* t = nullptr;
  try { t = &mk(legs[k[0]], legs[k[1]], legs[k[2]], id); } catch (const PowsyblException&) {}
  if (!t) {
    sx_reach("refused");
    sx_assert_msg(!ok, "a valid transformer was refused");
    sx_assert_msg(dump(n) == before && idsOf(n) == ids, "a refused creation left a trace");
    mk(legs[0], legs[1], legs[2], IDS[0]);
    return;
  }
  sx_reach("created");
  sx_assert_msg(ok, "an invalid transformer was created");
  for (int i = 0; i < 3; ++i) {
    Terminal& x = t->getTerminals()[i]; const L& l = legs[k[i]];
    sx_assert(x.getVoltageLevel().getId() == l.vl && x.isConnected() == l.connected);
    if (l.node >= 0) sx_assert(&x.getVoltageLevel().getNodeBreakerView().getTerminal(l.node).get() == &x);
  }
  t->remove();
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing a transformer left a trace");
}

SX_HARNESS(hvdc_line) {
  Network n = mkNet(); Substation& s = mkSub(n, "S"); VoltageLevel& vl = mkVl(s, "VL", false); mkBus(vl, "B");
  for (const char* c : {"V1", "V2"}) vl.newVscConverterStation().setId(c).setBus("B").setConnectableBus("B").setLossFactor(1.0).setReactivePowerSetpoint(1.0).setVoltageRegulatorOn(false).add();
  mkLoadB(vl, "LD", "B");
  static const char* ST[] = {"V1", "V2", "NONE", "LD", ""};
  int a = sx_choose("station1", 5), b = sx_choose("station2", 5); sx_assume(!(a == b && a < 2)); int ii = sx_choose("id", 3);
  static const char* I[] = {"NEW", "LD", ""};
  double r = sx_double("r"), p = sx_double("p"), v = sx_double("nominalV"), mp = sx_double("maxP"); bool mode = sx_bool("mode set");
  std::string before = dump(n); auto ids = idsOf(n);
  bool ok = a < 2 && b < 2 && ii == 0 && mode && !isnan_(r) && !isnan_(p) && p >= 0 && v > 0 && mp >= 0;
  auto x = n.newHvdcLine(); x.setId(I[ii]).setR(r).setMaxP(mp).setActivePowerSetpoint(p).setNominalV(v).setConverterStationId1(ST[a]).setConverterStationId2(ST[b]);
  if (mode) x.setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER);
  HvdcLine* l = nullptr;
  try { l = &x.add(); } catch (const PowsyblException&) {}
  sx_assert_msg((l != nullptr) == ok, "accepted iff valid");
  if (!l) {
    sx_reach("refused");
    sx_assert_msg(dump(n) == before && idsOf(n) == ids, "a refused creation left a trace");
    sx_assert(!n.getVscConverterStation("V1").getHvdcLine() && !n.getVscConverterStation("V2").getHvdcLine());
    n.getVscConverterStation("V1").remove();
    return;
  }
  sx_reach("created");
  sx_assert(&n.getVscConverterStation(ST[a]).getHvdcLine().get() == l && &n.getVscConverterStation(ST[b]).getHvdcLine().get() == l && l->getConverterStation1().get().getId() == ST[a]);
  sx_assert(same(l->getR(), r) && same(l->getMaxP(), mp) && same(l->getNominalV(), v) && same(l->getActivePowerSetpoint(), p));
  sx_assert(throws([&] { n.getVscConverterStation("V1").remove(); }) && n.find("V1"));
  l->remove();
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing an HVDC line left a trace");
  n.getVscConverterStation("V1").remove();
}

// containers and topology elements
SX_HARNESS(containers) {
  Network n = anyNetwork(); n.getLoad("LOADC").addAlias("ALIAS");
  std::string before = dump(n); auto ids = idsOf(n);
  int kind = sx_choose("kind", 6), ii = sx_choose("id", 7); const Id& id = IDS[ii];
  bool ok = id.ok, created = false, occupied = false, either = false;
  auto nodesOf = [&n] { std::vector<unsigned long> r; for (unsigned long k : n.getVoltageLevel("VN").getNodeBreakerView().getNodes()) r.push_back(k); return r; }; auto nodes = nodesOf();
  VoltageLevel& vb = n.getVoltageLevel("VB"); VoltageLevel& vn = n.getVoltageLevel("VN");
  try {
    switch (kind) {
      case 0: created = n.newSubstation().setId(id.id).setEnsureIdUnicity(id.unicity).add().getId() == id.real; break;
      case 1: {
        double v = sx_double("nominalV"), lo = sx_double("low"), hi = sx_double("high"); bool topo = sx_bool("topology set");
        ok = ok && v > 0 && !(lo < 0) && !(hi < 0) && !(lo > hi) && topo;
        auto a = n.getSubstation("S2").newVoltageLevel(); a.setId(id.id).setEnsureIdUnicity(id.unicity).setNominalV(v).setLowVoltageLimit(lo).setHighVoltageLimit(hi);
        if (topo) a.setTopologyKind(TopologyKind::BUS_BREAKER);
        VoltageLevel& c = a.add(); created = c.getId() == id.real && same(c.getNominalV(), v) && same(c.getLowVoltageLimit(), lo) && same(c.getHighVoltageLimit(), hi) && &n.getVoltageLevel(id.real) == &c;
        break;
      }
      case 2: created = vb.getBusBreakerView().newBus().setId(id.id).setEnsureIdUnicity(id.unicity).add().getId() == id.real && vb.getBusBreakerView().getBus(id.real); break;
      case 3: {
        static const char* B[] = {"B1", "B2", "NOBUS", "D1", ""}; int a = sx_choose("bus1", 5), b = sx_choose("bus2", 5); either = a == b;
        ok = ok && a < 2 && b < 2;
        Switch& c = vb.getBusBreakerView().newSwitch().setId(id.id).setEnsureIdUnicity(id.unicity).setBus1(B[a]).setBus2(B[b]).setOpen(true).add();
        created = c.getId() == id.real && &vb.getBusBreakerView().getSwitch(id.real).get() == &c && vb.getBusBreakerView().getBus1(id.real).get().getId() == B[a] && vb.getBusBreakerView().getBus2(id.real).get().getId() == B[b] && c.isOpen();
        break;
      }
      case 4: {
        static const int N[] = {0, 3, 40, -1}; int a = sx_choose("node1", 4), b = sx_choose("node2", 4); bool k = sx_bool("kind set"), retained = sx_bool("retained"); either = a == b;
        ok = ok && N[a] >= 0 && N[b] >= 0 && k;
        auto x = vn.getNodeBreakerView().newSwitch(); x.setId(id.id).setEnsureIdUnicity(id.unicity).setRetained(retained).setOpen(true);
        if (N[a] >= 0) x.setNode1(N[a]); if (N[b] >= 0) x.setNode2(N[b]); if (k) x.setKind(SwitchKind::DISCONNECTOR);
        Switch& c = x.add();
        created = c.getId() == id.real && vn.getNodeBreakerView().getNode1(id.real) == static_cast<unsigned long>(N[a]) && vn.getNodeBreakerView().getNode2(id.real) == static_cast<unsigned long>(N[b]) && c.isRetained() == retained && c.getKind() == SwitchKind::DISCONNECTOR;
        break;
      }
      default: {
        static const int N[] = {0, 3, 40, 2, -1}; int a = sx_choose("node", 5);
        occupied = N[a] == 0 || N[a] == 3;
        ok = ok && N[a] >= 2 && N[a] != 3;
        auto x = vn.getNodeBreakerView().newBusbarSection(); x.setId(id.id).setEnsureIdUnicity(id.unicity); if (N[a] >= 0) x.setNode(N[a]);
        BusbarSection& c = x.add();
        created = c.getId() == id.real && &vn.getNodeBreakerView().getBusbarSection(id.real).get() == &c && &vn.getNodeBreakerView().getTerminal(N[a]).get() == &c.getTerminal();
        break;
      }
    }
    sx_assert_msg(created, "the created object does not have the requested attributes");
  } catch (const PowsyblException&) {}
  sx_assert_msg(created == ok || (either && !created), "created iff valid"); // a switch from a node or bus to itself may be refused
  if (!created) {
    sx_reach("refused");
    sx_assert_msg(nodesOf() == nodes || occupied, "a refused creation left a node behind");
    if (occupied && id.ok && kind == 5) { auto more = ids; more.insert(id.real); auto now = idsOf(n); sx_assert(now == ids || now == more); __sx_api_known("busbar_section_on_an_occupied_node"); }
    sx_assert_msg(idsOf(n) == ids && dump(n) == before, "a refused creation left a trace"); return;
  }
  sx_reach("created");
  sx_assert(idsOf(n).size() == ids.size() + 1);
  switch (kind) {
    case 0: n.getSubstation(id.real).remove(); break;
    case 1: n.getVoltageLevel(id.real).remove(); break;
    case 2: vb.getBusBreakerView().removeBus(id.real); break;
    case 3: vb.getBusBreakerView().removeSwitch(id.real); break;
    case 4: vn.getNodeBreakerView().removeSwitch(id.real); break;
    default: n.getBusbarSection(id.real).remove(); break;
  }
  sx_assert_msg(nodesOf() == nodes, "creating and removing left a node behind");
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing left a trace");
}

// an adder given arbitrary values accepts them exactly when every rule holds, and the created object holds them
static double D(const char* n) { return sx_double(n); }
static bool ok1(double v) { return v == v; }
static bool pos1(double v) { return v > 0; }
SX_HARNESS(adder_values) {
  Network n = anyNetwork(); VoltageLevel& vb = n.getVoltageLevel("VB");
  std::string before = dump(n); auto ids = idsOf(n);
  Connectable* c = nullptr; bool ok = false, eq = true;
  std::vector<double> v;
  auto val = [&](const char* nm) { v.push_back(D(nm)); return v.back(); };
  try {
    switch (sx_choose("kind", 12)) {
      case 0: { double p = val("p0"), q = val("q0"); ok = ok1(p) && ok1(q); Load& l = vb.newLoad().setId("NEW").setBus("B1").setP0(p).setQ0(q).add(); c = &l; eq = same(l.getP0(), p) && same(l.getQ0(), q); break; }
      case 1: {
        double a = val("minP"), b = val("maxP"), p = val("targetP"), q = val("targetQ"), u = val("targetV"), s = val("ratedS"); bool on = sx_bool("on"), set = sx_bool("on set");
        ok = ok1(a) && ok1(b) && a <= b && ok1(p) && set && (on ? pos1(u) : ok1(q)) && !(s <= 0);
        auto x = vb.newGenerator(); x.setId("NEW").setBus("B1").setMinP(a).setMaxP(b).setTargetP(p).setTargetQ(q).setTargetV(u).setRatedS(s); if (set) x.setVoltageRegulatorOn(on);
        Generator& g = x.add(); c = &g; eq = same(g.getMinP(), a) && same(g.getMaxP(), b) && same(g.getTargetP(), p) && same(g.getTargetQ(), q) && same(g.getTargetV(), u) && same(g.getRatedS(), s) && g.isVoltageRegulatorOn() == on && &g.getRegulatingTerminal() == &g.getTerminal();
        break;
      }
      case 2: { double a = val("minP"), b = val("maxP"), p = val("p0"), q = val("q0"); ok = ok1(a) && ok1(b) && a <= b && ok1(p) && ok1(q); Battery& g = vb.newBattery().setId("NEW").setBus("B1").setMinP(a).setMaxP(b).setP0(p).setQ0(q).add(); c = &g; eq = same(g.getMinP(), a) && same(g.getMaxP(), b) && same(g.getP0(), p) && same(g.getQ0(), q); break; }
      case 3: {
        double b = val("b"), g = val("g"), u = val("targetV"), d = val("deadband"); bool on = sx_bool("on"); unsigned long sc = sx_int("sections", 0, 4), mx = sx_int("maximum", 0, 3);
        ok = ok1(b) && mx > 0 && sc <= mx && (!on || pos1(u)) && !(d < 0) && (!on || ok1(d));
        ShuntCompensator& s = vb.newShuntCompensator().setId("NEW").setBus("B1").setSectionCount(sc).setVoltageRegulatorOn(on).setTargetV(u).setTargetDeadband(d).newLinearModel().setBPerSection(b).setGPerSection(g).setMaximumSectionCount(mx).add().add();
        c = &s; auto& m = s.getModel<ShuntCompensatorLinearModel>(); eq = same(m.getBPerSection(), b) && same(m.getGPerSection(), g) && s.getSectionCount() == sc && s.getMaximumSectionCount() == mx && same(s.getTargetV(), u) && same(s.getTargetDeadband(), d) && s.isVoltageRegulatorOn() == on;
        break;
      }
      case 4: {
        double a = val("bmin"), b = val("bmax"), u = val("V"), q = val("Q"); auto m = static_cast<StaticVarCompensator::RegulationMode>(sx_choose("mode", 3));
        ok = ok1(a) && ok1(b) && (m != StaticVarCompensator::RegulationMode::VOLTAGE || ok1(u)) && (m != StaticVarCompensator::RegulationMode::REACTIVE_POWER || ok1(q));
        auto& s = vb.newStaticVarCompensator().setId("NEW").setBus("B1").setBmin(a).setBmax(b).setVoltageSetpoint(u).setReactivePowerSetpoint(q).setRegulationMode(m).add();
        c = &s; eq = same(s.getBmin(), a) && same(s.getBmax(), b) && same(s.getVoltageSetpoint(), u) && same(s.getReactivePowerSetpoint(), q) && s.getRegulationMode() == m; break;
      }
      case 5: { double l = val("loss"), u = val("V"), q = val("Q"); bool on = sx_bool("on"); ok = l >= 0 && l <= 100 && (on ? pos1(u) : ok1(q)); auto& s = vb.newVscConverterStation().setId("NEW").setBus("B1").setLossFactor(l).setVoltageSetpoint(u).setReactivePowerSetpoint(q).setVoltageRegulatorOn(on).add(); c = &s; eq = same(s.getLossFactor(), l) && same(s.getVoltageSetpoint(), u) && same(s.getReactivePowerSetpoint(), q) && s.isVoltageRegulatorOn() == on; break; }
      case 6: { double l = val("loss"), f = val("factor"); ok = l >= 0 && l <= 100 && f >= -1 && f <= 1; auto& s = vb.newLccConverterStation().setId("NEW").setBus("B1").setLossFactor(l).setPowerFactor(f).add(); c = &s; eq = same(s.getLossFactor(), l) && same(s.getPowerFactor(), f); break; }
      case 7: { double p = val("p0"), q = val("q0"), r = val("r"), x = val("x"), g = val("g"), b = val("b"); ok = ok1(p) && ok1(q) && ok1(r) && ok1(x) && ok1(g) && ok1(b); auto& d = vb.newDanglingLine().setId("NEW").setBus("B1").setP0(p).setQ0(q).setR(r).setX(x).setG(g).setB(b).add(); c = &d; eq = same(d.getP0(), p) && same(d.getQ0(), q) && same(d.getR(), r) && same(d.getX(), x) && same(d.getG(), g) && same(d.getB(), b); break; }
      case 8: { double r = val("r"), x = val("x"), g1 = val("g1"), b1 = val("b1"), g2 = val("g2"), b2 = val("b2"); ok = ok1(r) && ok1(x) && ok1(g1) && ok1(b1) && ok1(g2) && ok1(b2); auto& l = n.newLine().setId("NEW").setVoltageLevel1("VB").setBus1("B1").setVoltageLevel2("VD").setBus2("D1").setR(r).setX(x).setG1(g1).setB1(b1).setG2(g2).setB2(b2).add(); c = &l; eq = same(l.getR(), r) && same(l.getX(), x) && same(l.getG1(), g1) && same(l.getB1(), b1) && same(l.getG2(), g2) && same(l.getB2(), b2); break; }
      case 9: { double r = val("r"), x = val("x"), g = val("g"), b = val("b"), u1 = val("ratedU1"), u2 = val("ratedU2"), s = val("ratedS"); ok = ok1(r) && ok1(x) && ok1(g) && ok1(b) && ok1(u1) && ok1(u2) && !(s <= 0); auto& l = n.getSubstation("S1").newTwoWindingsTransformer().setId("NEW").setVoltageLevel1("VB").setBus1("B1").setVoltageLevel2("VC").setBus2("C1").setR(r).setX(x).setG(g).setB(b).setRatedU1(u1).setRatedU2(u2).setRatedS(s).add(); c = &l; eq = same(l.getR(), r) && same(l.getX(), x) && same(l.getG(), g) && same(l.getB(), b) && same(l.getRatedU1(), u1) && same(l.getRatedU2(), u2) && same(l.getRatedS(), s); break; }
      case 10: {
        int k = sx_choose("leg", 3); double r = val("r"), x = val("x"), g = val("g"), b = val("b"), u = val("ratedU"), s = val("ratedS"), u0 = val("ratedU0");
        ok = ok1(r) && ok1(x) && ok1(g) && ok1(b) && ok1(u) && !(s <= 0);
        auto t = n.getSubstation("S1").newThreeWindingsTransformer(); t.setId("NEW").setRatedU0(u0);
        auto leg = [&](ThreeWindingsTransformerAdder::LegAdder l, int i) { l.setVoltageLevel("VB").setBus("B1"); if (i == k) l.setR(r).setX(x).setG(g).setB(b).setRatedU(u).setRatedS(s); else l.setR(1.0).setX(2.0).setG(3.0).setB(4.0).setRatedU(7.0); l.add(); };
        leg(t.newLeg1(), 0); leg(t.newLeg2(), 1); leg(t.newLeg3(), 2);
        auto& w = t.add(); c = &w; auto& l = k == 0 ? w.getLeg1() : k == 1 ? w.getLeg2() : w.getLeg3();
        eq = same(l.getR(), r) && same(l.getX(), x) && same(l.getG(), g) && same(l.getB(), b) && same(l.getRatedU(), u) && same(l.getRatedS(), s) && same(w.getRatedU0(), isnan_(u0) ? (k == 0 ? u : 7.0) : u0);
        break;
      }
      default: {
        double a = val("minP"), b = val("maxP"), p = val("targetP"), q = val("targetQ"), u = val("targetV"); bool on = sx_bool("on");
        sx_assume(ok1(a) && ok1(b));
        ok = a <= b && ok1(p) && (on ? pos1(u) : ok1(q));
        auto& d = vb.newDanglingLine().setId("NEW").setBus("B1").setP0(1.0).setQ0(1.0).setR(1.0).setX(1.0).setG(1.0).setB(1.0).newGeneration().setMinP(a).setMaxP(b).setTargetP(p).setTargetQ(q).setTargetV(u).setVoltageRegulationOn(on).add().add();
        c = &d; auto& g = d.getGeneration().get(); eq = same(g.getMinP(), a) && same(g.getMaxP(), b) && same(g.getTargetP(), p) && same(g.getTargetQ(), q) && same(g.getTargetV(), u) && g.isVoltageRegulationOn() == on;
      }
    }
  } catch (const PowsyblException&) {}
  sx_assert_msg((c != nullptr) == ok, "accepted exactly when every rule holds");
  if (!c) { sx_reach("refused"); sx_assert_msg(dump(n) == before && idsOf(n) == ids, "a refused creation left a trace"); return; }
  sx_reach("created");
  sx_assert_msg(eq, "the created equipment does not hold the given values");
  c->remove();
  sx_assert_msg(dump(n) == before && idsOf(n) == ids, "creating and removing an equipment left a trace");
}

// what an adder was told last is what counts, under any of its names
SX_HARNESS(setters) {
  Network n = mkNet("full"); buildFull(n); VoltageLevel& vb = n.getVoltageLevel("VB"); int ops = static_cast<int>(sx_bound(2, 3));
  if (sx_choose("of a", 2)) {
    double p = sx_double("p"), q = sx_double("q"), u = sx_double("u"); sx_assume(ok1(p) && ok1(q) && pos1(u));
    auto x = vb.newGenerator(); x.setId("NEW").setBus("B1").setMinP(1.0).setMaxP(2.0).setVoltageRegulatorOn(sx_bool("on")).setTargetP(p).setTargetQ(q).setTargetV(u);
    for (int k = 0; k < ops; ++k) { double v = sx_double("value"); sx_assume(pos1(v));
      switch (sx_choose("set", 6)) { case 0: x.setTargetP(v); p = v; break; case 1: x.setActivePowerSetpoint(v); p = v; break; case 2: x.setTargetQ(v); q = v; break; case 3: x.setReactivePowerSetpoint(v); q = v; break; case 4: x.setTargetV(v); u = v; break; default: x.setVoltageSetpoint(v); u = v; } }
    Generator& g = x.add(); sx_assert_msg(same(g.getTargetP(), p) && same(g.getTargetQ(), q) && same(g.getTargetV(), u) && same(g.getActivePowerSetpoint(), p) && same(g.getReactivePowerSetpoint(), q) && same(g.getVoltageSetpoint(), u), "the last value given is held under both names"); sx_reach("generator");
    for (int k = 0; k < 2; ++k) { double v = sx_double("value"); sx_assume(pos1(v));
      switch (sx_choose("set", 6)) { case 0: g.setTargetP(v); p = v; break; case 1: g.setActivePowerSetpoint(v); p = v; break; case 2: g.setTargetQ(v); q = v; break; case 3: g.setReactivePowerSetpoint(v); q = v; break; case 4: g.setTargetV(v); u = v; break; default: g.setVoltageSetpoint(v); u = v; }
      sx_assert_msg(same(g.getTargetP(), p) && same(g.getTargetQ(), q) && same(g.getTargetV(), u) && same(g.getActivePowerSetpoint(), p) && same(g.getReactivePowerSetpoint(), q) && same(g.getVoltageSetpoint(), u), "a value set is the one held, under both names"); }
  } else {
    auto x = n.newSubstation(); x.setId("NEW"); std::set<std::string> tags; static const char* const T[] = {"t", "u", "v"}; std::string tso; int country = -1;
    for (int k = 0; k <= ops; ++k) switch (sx_choose("set", 6)) {
      case 0: { int t = sx_choose("tag", 3); x.addGeographicalTag(T[t]); tags.insert(T[t]); break; }
      case 1: x.setGeographicalTags({}); tags.clear(); break;
      case 2: { int t = sx_choose("tag", 3); x.setGeographicalTags({T[t], "w"}); tags = {T[t], "w"}; break; }
      case 3: { int t = sx_choose("tag", 3); x.setTso(T[t]); tso = T[t]; break; }
      case 4: x.setCountry(Country::FR); country = static_cast<int>(Country::FR); break;
      default: x.setCountry(Country::BE); country = static_cast<int>(Country::BE); }
    Substation& s = x.add(); auto all = [&] { std::set<std::string> seen; size_t m = 0; for (const std::string& t : s.getGeographicalTags()) { seen.insert(t); ++m; } sx_assert_msg(m == tags.size() && seen == tags, "a substation has the tags it was given"); sx_assert_msg(s.getTso() == tso && static_cast<bool>(s.getCountry()) == (country >= 0) && (country < 0 || static_cast<int>(*s.getCountry()) == country), "the last value given is held"); };
    all(); sx_reach("substation"); for (int k = 1; k < ops; ++k) { switch (sx_choose("change", 4)) { case 0: { int t = sx_choose("tag", 3); s.addGeographicalTag(T[t]); tags.insert(T[t]); break; } case 1: s.setTso("other"); tso = "other"; break; case 2: s.setCountry(Country::ES); country = static_cast<int>(Country::ES); break; default: s.setTso(""); tso = ""; } all(); }
  }
}
