// C24: what buses, voltage levels and substations list, sum and visit is exactly what is connected to them.
#include "common.hpp"
#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/util/Networks.hpp>
typedef std::multiset<std::string> MS; typedef std::multiset<const Terminal*> TS; typedef ConnectableType CT;
static std::vector<const Terminal*> terms(const Network& n) { std::vector<const Terminal*> r; for (const Connectable& c : n.getConnectables()) for (const Terminal& t : c.getTerminals()) r.push_back(&t); return r; }
static const Connectable& eq(const Terminal* t) { return t->getConnectable().get(); }
struct Terms : AbstractTerminalTopologyVisitor { TS seen; void visitTerminal(const Terminal& t) override { seen.insert(&t); } };
// every visit, as the kind of callback, the equipment and the side
struct Kinds : TopologyVisitor {
  MS seen; void add(const char* k, const Identifiable& o, int s) { seen.insert(std::string(k) + " " + o.getId() + " " + std::to_string(s)); }
  void visitBattery(const Battery& o) override { add("battery", o, 1); } void visitBusbarSection(const BusbarSection& o) override { add("busbar", o, 1); } void visitDanglingLine(const DanglingLine& o) override { add("dangling", o, 1); }
  void visitGenerator(const Generator& o) override { add("generator", o, 1); } void visitHvdcConverterStation(const HvdcConverterStation& o) override { add("station", o, 1); } void visitLoad(const Load& o) override { add("load", o, 1); }
  void visitShuntCompensator(const ShuntCompensator& o) override { add("shunt", o, 1); } void visitStaticVarCompensator(const StaticVarCompensator& o) override { add("svc", o, 1); }
  void visitLine(const Line& o, const Branch::Side& s) override { add("line", o, s == Branch::Side::ONE ? 1 : 2); } void visitTwoWindingsTransformer(const TwoWindingsTransformer& o, const Branch::Side& s) override { add("twt", o, s == Branch::Side::ONE ? 1 : 2); }
  void visitThreeWindingsTransformer(const ThreeWindingsTransformer& o, const ThreeWindingsTransformer::Side& s) override { add("t3", o, s == ThreeWindingsTransformer::Side::ONE ? 1 : s == ThreeWindingsTransformer::Side::TWO ? 2 : 3); }
};
static std::string visit(const Terminal* t) {
  static const std::map<CT, const char*> K = {{CT::BATTERY, "battery"}, {CT::BUSBAR_SECTION, "busbar"}, {CT::DANGLING_LINE, "dangling"}, {CT::GENERATOR, "generator"}, {CT::HVDC_CONVERTER_STATION, "station"}, {CT::LOAD, "load"}, {CT::SHUNT_COMPENSATOR, "shunt"}, {CT::STATIC_VAR_COMPENSATOR, "svc"}, {CT::LINE, "line"}, {CT::TWO_WINDINGS_TRANSFORMER, "twt"}, {CT::THREE_WINDINGS_TRANSFORMER, "t3"}};
  int k = 0, i = 0; for (const Terminal& x : eq(t).getTerminals()) { ++i; if (&x == t) k = i; } return std::string(K.at(eq(t).getType())) + " " + eq(t).getId() + " " + std::to_string(k);
}
template <typename T> static MS ofType(const TS& ts) { MS r; for (auto* t : ts) if (dynamic_cast<const T*>(&eq(t))) r.insert(eq(t).getId()); return r; }
template <typename R> static MS ids(R&& r) { MS m; for (const auto& o : r) m.insert(o.getId()); return m; }
template <typename R> static TS tset(R&& r) { TS m; for (const Terminal& o : r) m.insert(&o); return m; }
static void visits(const TS& want, const std::function<void(TopologyVisitor&)>& f) { Terms a; Kinds b; f(a); f(b); sx_assert_msg(a.seen == want, "the terminals visited are those expected"); MS w; for (auto* t : want) w.insert(visit(t)); sx_assert_msg(b.seen == w, "each equipment is visited as what it is, by its side"); }
static double sum(const TS& ts, bool q) {
  if (ts.empty()) return NAN; double s = 0;
  for (auto* t : ts) { CT k = eq(t).getType(); bool in = k == CT::GENERATOR || k == CT::BATTERY || k == CT::LOAD || k == CT::HVDC_CONVERTER_STATION || (q && (k == CT::SHUNT_COMPENSATOR || k == CT::STATIC_VAR_COMPENSATOR)); if (!in) continue; double v = q ? t->getQ() : t->getP(); if (v == v) s += v; }
  return s;
}
static void bus(Bus& b, const TS& in, const TS& connectable, bool sums) {
  const Bus& c = b; sx_assert(b.getConnectedTerminalCount() == in.size() && tset(b.getConnectedTerminals()) == in && tset(c.getConnectedTerminals()) == in);
#define L(T, G) sx_assert_msg(ids(b.G()) == ofType<T>(in) && ids(c.G()) == ofType<T>(in), "a bus lists exactly the equipment connected to it");
  L(Battery, getBatteries) L(DanglingLine, getDanglingLines) L(Generator, getGenerators) L(LccConverterStation, getLccConverterStations) L(Line, getLines) L(Load, getLoads) L(ShuntCompensator, getShuntCompensators) L(StaticVarCompensator, getStaticVarCompensators)
  L(ThreeWindingsTransformer, getThreeWindingsTransformers) L(TwoWindingsTransformer, getTwoWindingsTransformers) L(VscConverterStation, getVscConverterStations)
#undef L
  visits(in, [&](TopologyVisitor& v) { b.visitConnectedEquipments(v); }); visits(connectable, [&](TopologyVisitor& v) { b.visitConnectedOrConnectableEquipments(v); });
  if (sums) { sx_assert_msg(same(c.getP(), sum(in, false)), "the active power of a bus is the sum of those of its injections"); sx_assert_msg(same(c.getQ(), sum(in, true)), "the reactive power of a bus is the sum of those of its injections"); }
}
static void buses(Network& n, bool sums = true) {
  auto all = terms(n); size_t seen[2] = {0, 0}, on[2] = {0, 0};
  for (VoltageLevel& v : n.getVoltageLevels()) {
    bool bb = v.getTopologyKind() == TopologyKind::BUS_BREAKER;
    for (Bus& b : v.getBusBreakerView().getBuses()) { TS in, able; for (auto* t : all) if (&t->getVoltageLevel() == &v) { auto x = t->getBusBreakerView().getBus(); if (x && &x.get() == &b) in.insert(t); if (bb && &t->getBusBreakerView().getConnectableBus().get() == &b) able.insert(t); } bus(b, in, bb ? able : in, sums); seen[0] += in.size(); }
    for (Bus& b : v.getBusView().getBuses()) { TS in, able; for (auto* t : all) if (&t->getVoltageLevel() == &v) { auto x = t->getBusView().getBus(); if (x && &x.get() == &b) in.insert(t); if (bb) { auto m = v.getBusView().getMergedBus(t->getBusBreakerView().getConnectableBus().get().getId()); if (m && &m.get() == &b) able.insert(t); } } bus(b, in, bb ? able : in, sums); seen[1] += in.size(); }
  }
  for (auto* t : all) { if (t->getBusBreakerView().getBus()) ++on[0]; if (t->getBusView().getBus()) ++on[1]; }
  sx_assert_msg(seen[0] == on[0] && seen[1] == on[1], "every terminal on a bus is listed by it");
}
static const char* const SW[] = {"COUPLER", "SWB", "B_LOADN", "D_GENN", "B_SHN", "B_TWT", "B_VSC1", "D_DL"};
static const char* const EQ[] = {"LOADB", "LINE", "TIE", "SVC", "LCC1", "T3", "GENB", "SHB", "VSC2", "LCC2", "LOADC", "TWT", "GENN", "LNN"};
static void flip(Network& n, unsigned long e) { auto ts = n.get<Connectable>(EQ[e]).getTerminals(); Terminal& t = ts[ts.size() - 1]; if (t.isConnected()) t.disconnect(); else t.connect(); }
SX_HARNESS(connected) {
  Network n = anyNetwork(); for (int i = 0, k = sx_bound(4, 7); i < k; ++i) if (sx_bool(SW[i])) n.getSwitch(SW[i]).setOpen(!n.getSwitch(SW[i]).isOpen());
  unsigned long e = sx_choose("equipment", 15); if (e < 14) flip(n, e); unsigned long f = sx_choose("other equipment", sx_bound(4, 15)); if (f < 14) flip(n, f); double x = 1; for (auto* t : terms(n)) { Terminal& w = const_cast<Terminal&>(*t); CT k = eq(t).getType(); if (k == CT::BUSBAR_SECTION) continue; x *= 2; if (k != CT::SHUNT_COMPENSATOR) w.setP(x); w.setQ(-x); }
  buses(n); sx_reach("end");
}
// powers: one of any value, the others unknown or zero
SX_HARNESS(sums) {
  Network n = anyNetwork(); bool zero = sx_bool("zero"); unsigned long e = sx_choose("equipment", 12); double p = sx_double("p"), q = sx_double("q");
  for (auto* t : terms(n)) { Terminal& w = const_cast<Terminal&>(*t); CT k = eq(t).getType(); if (k == CT::BUSBAR_SECTION) continue; bool me = eq(t).getId() == EQ[e]; if (k != CT::SHUNT_COMPENSATOR) w.setP(me ? p : zero ? 0.0 : NAN); w.setQ(me ? q : zero ? 0.0 : NAN); }
  n.getSwitch("SWB").setOpen(sx_bool("open")); buses(n); sx_reach(p == p ? "known" : "unknown");
}
// containers, of equipment that is connected or not, several times in a voltage level or not
template <typename T, typename C, typename R> static void kind(const TS& in, const VoltageLevel& v, R&& r, C count) { MS want = ofType<T>(in), w(want); std::set<std::string> u(w.begin(), w.end()); MS once(u.begin(), u.end()); sx_assert_msg(ids(r) == once && count == once.size(), "a voltage level lists exactly the equipment it has"); sx_assert(ids(v.getConnectables<T>()) == once && v.getConnectableCount<T>() == once.size()); }
SX_HARNESS(containers) {
  Network n = anyNetwork(); VoltageLevel& vb = n.getVoltageLevel("VB"); if (sx_bool("loop")) mkLineB(n, "LOOP", "VB", "B1", "VB", sx_bool("same bus") ? "B1" : "B2"); if (sx_bool("transformer")) mkTwtB(n.getSubstation("S1"), "T2", "VC", "C1", "VB", "B2"); if (sx_bool("other")) mkTwtB(n.getSubstation("S2"), "T9", "VD", "D1", "VD", "D2"); (void)vb;
  unsigned long r = sx_choose("removed", 15); if (r < 14) try { n.get<Connectable>(EQ[r]).remove(); } catch (const PowsyblException&) { } unsigned long e = sx_choose("flipped", sx_bound(3, 15)); if (e < 14 && e != r) flip(n, e);
  auto all = terms(n);
  for (VoltageLevel& v : n.getVoltageLevels()) { TS in; for (auto* t : all) if (&t->getVoltageLevel() == &v) in.insert(t);
#define L(T, G, C) kind<T>(in, v, v.G(), v.C()); kind<T>(in, v, static_cast<const VoltageLevel&>(v).G(), v.C());
    L(Battery, getBatteries, getBatteryCount) L(DanglingLine, getDanglingLines, getDanglingLineCount) L(Generator, getGenerators, getGeneratorCount) L(LccConverterStation, getLccConverterStations, getLccConverterStationCount) L(Load, getLoads, getLoadCount) L(ShuntCompensator, getShuntCompensators, getShuntCompensatorCount) L(StaticVarCompensator, getStaticVarCompensators, getStaticVarCompensatorCount) L(VscConverterStation, getVscConverterStations, getVscConverterStationCount)
#undef L
    kind<Connectable>(in, v, v.getConnectables(), v.getConnectableCount()); kind<Branch>(in, v, v.getConnectables<Branch>(), v.getConnectableCount<Branch>()); kind<Injection>(in, v, v.getConnectables<Injection>(), v.getConnectableCount<Injection>()); kind<ThreeWindingsTransformer>(in, v, v.getConnectables<ThreeWindingsTransformer>(), v.getConnectableCount<ThreeWindingsTransformer>());
    visits(in, [&](TopologyVisitor& x) { v.visitEquipments(x); });
    for (const Connectable& c : n.getConnectables()) { bool mine = false; for (const Terminal& t : c.getTerminals()) mine = mine || &t.getVoltageLevel() == &v; bool got = false; try { auto x = v.getConnectable<Connectable>(c.getId()); got = x && &x.get() == &c; } catch (const PowsyblException&) { } sx_assert_msg(got == mine, "a voltage level finds exactly the equipment it has"); }
    sx_assert(!v.getConnectable<Connectable>("NONE"));
  }
  for (Substation& s : n.getSubstations()) { MS t2, t3, vs; for (const TwoWindingsTransformer& t : n.getTwoWindingsTransformers()) if (&t.getTerminal1().getVoltageLevel().getSubstation() == &s) t2.insert(t.getId()); for (const ThreeWindingsTransformer& t : n.getThreeWindingsTransformers()) if (&t.getLeg1().getTerminal().getVoltageLevel().getSubstation() == &s) t3.insert(t.getId()); for (const VoltageLevel& v : n.getVoltageLevels()) if (&v.getSubstation() == &s) vs.insert(v.getId());
    sx_assert_msg(ids(s.getTwoWindingsTransformers()) == t2 && s.getTwoWindingsTransformerCount() == t2.size() && ids(s.getThreeWindingsTransformers()) == t3 && s.getThreeWindingsTransformerCount() == t3.size() && ids(s.getVoltageLevels()) == vs, "a substation lists exactly what it has"); }
  buses(n, false); sx_reach(n.find("LOOP") ? "loop" : "end");
}
// countries
SX_HARNESS(countries) {
  Network n = mkNet("N"); static const Country C[] = {Country::FR, Country::BE}; int s[4];
  for (int i = 0; i < 4; ++i) { s[i] = sx_choose("country", 3); auto a = n.newSubstation(); a.setId("S" + std::to_string(i)); if (s[i] < 2) a.setCountry(C[s[i]]); a.add(); }
  int r = sx_choose("removed", 5); if (r < 4) { n.getSubstation("S" + std::to_string(r)).remove(); s[r] = 2; } int k = sx_choose("changed", 4); if (k != r) { s[k] = sx_choose("new country", 3); n.getSubstation("S" + std::to_string(k)).setCountry(s[k] < 2 ? stdcxx::optional<Country>(C[s[k]]) : stdcxx::optional<Country>()); }
  std::set<Country> want; for (int x : s) if (x < 2) want.insert(C[x]); sx_assert_msg(n.getCountries() == want && n.getCountryCount() == want.size(), "the countries of a network are those of its substations");
  sx_reach(want.empty() ? "none" : "some");
}
// nodes of a bus
SX_HARNESS(nodes) {
  Network n = mkNet("N"); VoltageLevel& v = mkVl(mkSub(n, "S"), "V", true); const int N = 5; UF u(N); bool used[N] = {}, has[N] = {}; static const int E[][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {0, 4}, {1, 3}};
  mkBbs(v, "BBS", 0); used[0] = has[0] = true; for (int i = 1; i < N; ++i) { int k = sx_choose("equipment", 3); if (k == 1) mkBbs(v, "X" + std::to_string(i), i); if (k == 2) { v.newLoad().setId("X" + std::to_string(i)).setNode(i).setP0(0.0).setQ0(0.0).add(); mkIc(v, i, i + 10); } if (k) used[i] = has[i] = true; }
  for (int e = 0, k = sx_bound(4, 6); e < k; ++e) { int a = E[e][0], b = E[e][1]; switch (sx_choose("edge", sx_bound(3, 4))) { case 1: mkSw(v, "W" + std::to_string(e), a, b, false); u.uni(a, b); break; case 2: mkSw(v, "W" + std::to_string(e), a, b, true); break; case 3: mkIc(v, a, b); u.uni(a, b); break; default: continue; } used[a] = used[b] = true; }
  auto m = Networks::getNodesByBus(v); std::map<std::string, std::set<unsigned long>> want;
  for (int i = 0; i < N; ++i) if (used[i]) for (int j = 0; j < N; ++j) if (has[j] && u.find(i) == u.find(j)) { auto b = v.getNodeBreakerView().getTerminal(j).get().getBusView().getBus(); if (b) { want[b.get().getId()].insert(i); const Terminal* t = &v.getNodeBreakerView().getTerminal(j).get(); bool load = eq(t).getType() == CT::LOAD; if (load) want[b.get().getId()].insert(j + 10); } }
  sx_assert_msg(m == want, "the nodes of a bus are those linked to it without an open switch");
  for (int i = 0; i < N; ++i) if (used[i]) { auto t = Networks::getEquivalentTerminal(v, i); bool any = false; for (int j = 0; j < N; ++j) any = any || (j != i && has[j] && u.find(i) == u.find(j)); sx_assert_msg(static_cast<bool>(t) == any, "a node has an equivalent terminal iff one is linked to it"); if (t) { int j = t.get().getNodeBreakerView().getNode(); sx_assert_msg(j < N && has[j] && u.find(j) == u.find(i), "the equivalent terminal is linked to the node"); } }
  Network o = fullNetwork(); sx_assert(throwsE<PowsyblException>([&]() { Networks::getNodesByBus(o.getVoltageLevel("VB")); })); sx_reach(want.empty() ? "none" : "bus");
}
