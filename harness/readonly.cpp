// C29: a network seen as constant is the same network.
#include "topo.hpp"
#include "describe.hpp"
#include <powsybl/iidm/util/Identifiables.hpp>
typedef std::function<std::vector<const void*>()> Get;
static bool constantFirst = true;
static void cmp(const Get& k, const Get& m, const char* what) {
  auto run = [](const Get& g) { try { return g(); } catch (const std::exception&) { return std::vector<const void*>{reinterpret_cast<const void*>(1)}; } };
  std::vector<const void*> x, y; if (constantFirst) { x = run(k); y = run(m); } else { y = run(m); x = run(k); }
  if (x != y) { __sx_api_note(what); sx_fail("a constant network gives other objects"); }
}
#define OBJ(e) cmp([&]() { return std::vector<const void*>{&(K.e)}; }, [&]() { return std::vector<const void*>{&(M.e)}; }, #e)
#define REF(e) cmp([&]() { auto r = K.e; return std::vector<const void*>{r ? &r.get() : nullptr}; }, [&]() { auto r = M.e; return std::vector<const void*>{r ? &r.get() : nullptr}; }, #e)
#define LST(e) cmp([&]() { std::vector<const void*> v; for (auto& x : K.e) v.push_back(&x); return v; }, [&]() { std::vector<const void*> v; for (auto& x : M.e) v.push_back(&x); return v; }, #e)
static void named(const Network& K, Network& M, const std::string& id) {
  OBJ(getBattery(id)); OBJ(getBranch(id)); OBJ(getBusbarSection(id)); OBJ(getDanglingLine(id)); OBJ(getGenerator(id)); OBJ(getHvdcConverterStation(id)); OBJ(getHvdcLine(id)); OBJ(getIdentifiable(id)); OBJ(getLccConverterStation(id)); OBJ(getLine(id)); OBJ(getLoad(id));
  OBJ(getShuntCompensator(id)); OBJ(getStaticVarCompensator(id)); OBJ(getSubstation(id)); OBJ(getSwitch(id)); OBJ(getThreeWindingsTransformer(id)); OBJ(getTwoWindingsTransformer(id)); OBJ(getVoltageLevel(id)); OBJ(getVscConverterStation(id));
  REF(find(id)); REF(find<Load>(id)); REF(find<Branch>(id)); REF(find<Bus>(id)); OBJ(get<Generator>(id)); OBJ(get<Identifiable>(id)); REF(getBusBreakerView().getBus(id)); REF(getBusView().getBus(id));
}
static void lists(const Network& K, Network& M) {
  LST(getBatteries()); LST(getBranches()); LST(getBusbarSections()); LST(getConnectables()); LST(getConnectables<Load>()); LST(getDanglingLines()); LST(getGenerators()); LST(getHvdcConverterStations()); LST(getHvdcLines()); LST(getIdentifiables()); LST(getLccConverterStations()); LST(getLines()); LST(getLoads());
  LST(getShuntCompensators()); LST(getStaticVarCompensators()); LST(getSubstations()); LST(getSwitches()); LST(getThreeWindingsTransformers()); LST(getTwoWindingsTransformers()); LST(getVoltageLevels()); LST(getVscConverterStations());
  LST(getBusBreakerView().getBuses()); LST(getBusBreakerView().getSwitches()); LST(getBusView().getBuses()); LST(getBusView().getConnectedComponents()); LST(getBusView().getSynchronousComponents());
  OBJ(getNetwork()); OBJ(getVariantManager());
  unsigned long k = 0; for (const VoltageLevel& vl : K.getVoltageLevels()) k += vl.getBusBreakerView().getSwitchCount(); sx_assert_msg(K.getBusBreakerView().getSwitchCount() == k, "the number of switches of the bus/breaker view is that of its voltage levels");
  k = 0; for (const Switch& s : K.getBusBreakerView().getSwitches()) { (void)s; ++k; } sx_assert(K.getBusBreakerView().getSwitchCount() == k);
}
static void bus(const Bus& K, Bus& M) {
  OBJ(getNetwork()); OBJ(getVoltageLevel()); LST(getBatteries()); LST(getConnectedTerminals()); LST(getDanglingLines()); LST(getGenerators()); LST(getLccConverterStations()); LST(getLines()); LST(getLoads()); LST(getShuntCompensators()); LST(getStaticVarCompensators()); LST(getThreeWindingsTransformers()); LST(getTwoWindingsTransformers()); LST(getVscConverterStations());
  REF(getConnectedComponent()); REF(getSynchronousComponent());
  // the main component is the one that has number 0
  auto c = K.getConnectedComponent(); sx_assert(K.isInMainConnectedComponent() == (c && c.get().getNum() == 0)); auto s = K.getSynchronousComponent(); sx_assert(K.isInMainSynchronousComponent() == (s && s.get().getNum() == 0));
}
static void voltageLevel(const VoltageLevel& K, VoltageLevel& M, Network& n) {
  OBJ(getNetwork()); OBJ(getSubstation()); LST(getBatteries()); LST(getConnectables()); LST(getConnectables<Line>()); LST(getDanglingLines()); LST(getGenerators()); LST(getLccConverterStations()); LST(getLoads()); LST(getShuntCompensators()); LST(getStaticVarCompensators()); LST(getSwitches()); LST(getVscConverterStations());
  OBJ(getBusBreakerView()); OBJ(getBusView()); LST(getBusBreakerView().getBuses()); LST(getBusBreakerView().getSwitches()); LST(getBusView().getBuses());
  for (Bus& b : M.getBusBreakerView().getBuses()) { std::string id = b.getId(); REF(getBusBreakerView().getBus(id)); REF(getBusView().getMergedBus(id)); }
  for (Bus& b : M.getBusView().getBuses()) { std::string id = b.getId(); REF(getBusView().getBus(id)); bus(b, b); }
  for (Switch& s : n.getSwitches()) { std::string id = s.getId(); REF(getBusBreakerView().getBus1(id)); REF(getBusBreakerView().getBus2(id)); REF(getBusBreakerView().getSwitch(id)); }
  for (Connectable& c : n.getConnectables()) { std::string id = c.getId(); REF(getConnectable<Connectable>(id)); REF(getConnectable<Load>(id)); }
  if (K.getTopologyKind() != TopologyKind::NODE_BREAKER) return;
  OBJ(getNodeBreakerView()); LST(getNodeBreakerView().getBusbarSections()); LST(getNodeBreakerView().getSwitches());
  for (Switch& s : n.getSwitches()) { std::string id = s.getId(); REF(getNodeBreakerView().getSwitch(id)); REF(getNodeBreakerView().getTerminal1(id)); REF(getNodeBreakerView().getTerminal2(id)); }
  for (unsigned long k = 0; k < 18; ++k) { REF(getNodeBreakerView().getTerminal(k)); REF(getNodeBreakerView().getOptionalTerminal(k)); }
  REF(getNodeBreakerView().getBusbarSection("BBS1")); REF(getNodeBreakerView().getBusbarSection("LOADN")); REF(getBusView().getMergedBus("BBS2"));
}
static void terminalOf(const Terminal& K, Terminal& M) {
  OBJ(getBusBreakerView()); OBJ(getBusView()); REF(getConnectable()); OBJ(getVoltageLevel()); REF(getBusBreakerView().getBus()); REF(getBusBreakerView().getConnectableBus()); REF(getBusView().getBus()); REF(getBusView().getConnectableBus());
  if (K.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) OBJ(getNodeBreakerView());
  // angle and voltage are those of the bus
  auto b = K.getBusBreakerView().getBus(); sx_assert(same(K.getV(), b ? b.get().getV() : NaN)); sx_assert(same(K.getAngle(), b ? b.get().getAngle() : NaN));
}
template <typename H> static void ratio(const H& K, H& M) {
  REF(getOptionalRatioTapChanger()); OBJ(getRatioTapChanger()); if (!K.hasRatioTapChanger()) return; 
  OBJ(getRatioTapChanger().getCurrentStep()); REF(getRatioTapChanger().getRegulationTerminal()); for (long k = -2; k < 5; ++k) OBJ(getRatioTapChanger().getStep(k));
}
template <typename H> static void phase(const H& K, H& M) {
  REF(getOptionalPhaseTapChanger()); OBJ(getPhaseTapChanger()); if (!K.hasPhaseTapChanger()) return;
  OBJ(getPhaseTapChanger().getCurrentStep()); REF(getPhaseTapChanger().getRegulationTerminal()); for (long k = -2; k < 5; ++k) OBJ(getPhaseTapChanger().getStep(k));
}
static void flows(const FlowsLimitsHolder& K, FlowsLimitsHolder& M) {
  REF(getActivePowerLimits()); REF(getApparentPowerLimits()); REF(getCurrentLimits()); LST(getOperationalLimits());
}
static void branch(const Branch& K, Branch& M, Network& n) {
  OBJ(getTerminal1()); OBJ(getTerminal2()); for (auto side : {Branch::Side::ONE, Branch::Side::TWO}) { OBJ(getTerminal(side)); REF(getActivePowerLimits(side)); REF(getApparentPowerLimits(side)); REF(getCurrentLimits(side)); for (auto t : {LimitType::ACTIVE_POWER, LimitType::APPARENT_POWER, LimitType::CURRENT}) REF(getLimits(t, side)); }
  REF(getActivePowerLimits1()); REF(getActivePowerLimits2()); REF(getApparentPowerLimits1()); REF(getApparentPowerLimits2()); REF(getCurrentLimits1()); REF(getCurrentLimits2());
  // each getter gives the limits of its kind and side
  auto P = [](const LoadingLimits* l) { return l; };
  for (int s = 0; s < 2; ++s) {
    auto side = s ? Branch::Side::TWO : Branch::Side::ONE;
    auto a = K.getActivePowerLimits(side); auto b = K.getApparentPowerLimits(side); auto c = K.getCurrentLimits(side); auto a2 = s ? K.getActivePowerLimits2() : K.getActivePowerLimits1(); auto b2 = s ? K.getApparentPowerLimits2() : K.getApparentPowerLimits1(); auto c2 = s ? K.getCurrentLimits2() : K.getCurrentLimits1();
    sx_assert(static_cast<bool>(a) == static_cast<bool>(a2) && static_cast<bool>(b) == static_cast<bool>(b2) && static_cast<bool>(c) == static_cast<bool>(c2));
    if (a) sx_assert(&a.get() == &a2.get() && P(&K.getLimits(LimitType::ACTIVE_POWER, side).get()) == P(&a.get()));
    if (b) sx_assert(&b.get() == &b2.get() && P(&K.getLimits(LimitType::APPARENT_POWER, side).get()) == P(&b.get()));
    if (c) sx_assert(&c.get() == &c2.get() && P(&K.getLimits(LimitType::CURRENT, side).get()) == P(&c.get()));
  }
  for (VoltageLevel& vl : n.getVoltageLevels()) {
    std::string id = vl.getId(); OBJ(getTerminal(id));
    bool one = &K.getTerminal1().getVoltageLevel() == &vl, two = &K.getTerminal2().getVoltageLevel() == &vl;
    const Terminal* t = nullptr; try { t = &K.getTerminal(id); } catch (const PowsyblException&) { }
    sx_assert_msg(t == (one == two ? nullptr : one ? &K.getTerminal1() : &K.getTerminal2()), "the terminal in a voltage level, if there is only one");
  }
}
#define AS(T, x) if (T* p##T = dynamic_cast<T*>(&x)) { T& M = *p##T; const T& K = M;
static void object(Identifiable& i, Network& n) {
  { Identifiable& M = i; const Identifiable& K = i; OBJ(getNetwork()); sx_assert(&K.getNetwork() == &n); }
  AS(Connectable, i) { OBJ(getNetwork()); for (Terminal& t : M.getTerminals()) terminalOf(t, t); } }
  AS(Branch, i) branch(K, M, n); }
  AS(Injection, i) OBJ(getTerminal()); }
  AS(VoltageLevel, i) voltageLevel(K, M, n); }
  AS(Substation, i) LST(getVoltageLevels()); LST(getTwoWindingsTransformers()); LST(getThreeWindingsTransformers()); }
  AS(Switch, i) OBJ(getVoltageLevel()); }
  AS(Bus, i) bus(K, M); }
  AS(TieLine, i) OBJ(getHalf1()); OBJ(getHalf2()); OBJ(getHalf(Branch::Side::ONE)); OBJ(getHalf(Branch::Side::TWO)); OBJ(getHalf1().getBoundary()); OBJ(getHalf1().getBoundary().getConnectable()); OBJ(getHalf1().getBoundary().getVoltageLevel()); OBJ(getHalf2().getBoundary()); OBJ(getHalf2().getBoundary().getConnectable()); OBJ(getHalf2().getBoundary().getVoltageLevel());
    sx_assert(K.getHalf1().getBoundary().getSide() == Branch::Side::ONE && K.getHalf2().getBoundary().getSide() == Branch::Side::TWO && &K.getHalf1().getBoundary().getConnectable() == &K);
    sx_assert(&K.getHalf1().getBoundary().getVoltageLevel() == &K.getTerminal1().getVoltageLevel() && &K.getHalf2().getBoundary().getVoltageLevel() == &K.getTerminal2().getVoltageLevel()); }
  AS(DanglingLine, i) OBJ(getBoundary()); OBJ(getBoundary().getConnectable()); OBJ(getBoundary().getVoltageLevel()); REF(getGeneration()); if (K.getGeneration()) OBJ(getGeneration().get().getReactiveLimits<ReactiveLimits>()); REF(getActivePowerLimits()); REF(getCurrentLimits()); REF(getApparentPowerLimits());
    flows(M, M); sx_assert(&K.getBoundary().getConnectable() == &K && &K.getBoundary().getVoltageLevel() == &K.getTerminal().getVoltageLevel() && !K.getBoundary().getSide()); }
  AS(TwoWindingsTransformer, i) REF(getSubstation()); ratio(K, M); phase(K, M); }
  AS(ThreeWindingsTransformer, i) OBJ(getLeg1()); OBJ(getLeg2()); OBJ(getLeg3()); OBJ(getSubstation()); LST(getLegs()); for (auto s : {ThreeWindingsTransformer::Side::ONE, ThreeWindingsTransformer::Side::TWO, ThreeWindingsTransformer::Side::THREE}) OBJ(getTerminal(s));
    for (ThreeWindingsTransformer::Leg& l : M.getLegs()) { ThreeWindingsTransformer::Leg& M = l; const ThreeWindingsTransformer::Leg& K = l; OBJ(getTerminal()); OBJ(getNetwork()); ratio(K, M); phase(K, M); flows(M, M); REF(getActivePowerLimits()); } }
  AS(HvdcLine, i) REF(getConverterStation1()); REF(getConverterStation2()); REF(getConverterStation(HvdcLine::Side::ONE)); REF(getConverterStation(HvdcLine::Side::TWO)); }
  AS(HvdcConverterStation, i) REF(getHvdcLine()); { const Network& K = n; Network& M = n; const HvdcConverterStation& s = *pHvdcConverterStation; REF(findHvdcLine(s)); OBJ(getHvdcLine(s)); } }
  AS(Generator, i) OBJ(getRegulatingTerminal()); OBJ(getReactiveLimits<ReactiveLimits>()); }
  AS(Battery, i) OBJ(getReactiveLimits<ReactiveLimits>()); }
  AS(VscConverterStation, i) OBJ(getReactiveLimits<ReactiveLimits>()); OBJ(getReactiveLimits<MinMaxReactiveLimits>()); }
  AS(ShuntCompensator, i) OBJ(getRegulatingTerminal()); OBJ(getModel()); OBJ(getModel<ShuntCompensatorLinearModel>()); }
  AS(StaticVarCompensator, i) OBJ(getRegulatingTerminal()); }
}
static void situation(Network& n) { constantFirst = sx_choose("constant first", 2) != 0; if (sx_choose("situation", 2)) unsettle(n); if (sx_choose("limits", 2)) { Branch& b = n.getBranch("TWT"); b.newActivePowerLimits2().setPermanentLimit(1.0).add(); b.newCurrentLimits1().setPermanentLimit(2.0).add(); b.newApparentPowerLimits1().setPermanentLimit(3.0).add(); n.getLine("TIE").newActivePowerLimits1().setPermanentLimit(1.0).add(); } if (sx_choose("switch", 2)) n.getSwitch("COUPLER").setOpen(!n.getSwitch("COUPLER").isOpen()); }
// every object of a network, and an identifier that nothing has
SX_HARNESS(objects) {
  Network n = mkNet("full"); buildFull(n); mkSw(n.getVoltageLevel("VN"), "REV", 1, 0, true); mkBSw(n.getVoltageLevel("VB"), "SWREV", "B2", "B1", true); situation(n);
  std::vector<std::string> ids; for (Identifiable& i : n.getIdentifiables()) ids.push_back(i.getId()); ids.push_back("nothing"); for (Bus& b : n.getBusView().getBuses()) ids.push_back(b.getId());
  std::string id = ids[sx_choose("object", static_cast<int64_t>(ids.size()))]; __sx_api_note(id.c_str());
  Desc before = describe(n);
  named(n, n, id); auto x = n.find(id); if (x) { object(x.get(), n); sx_reach("object"); } else sx_reach("no object");
  sameDesc(before, describe(n));
}
SX_HARNESS(lists) {
  Network n = mkNet("full"); buildFull(n); mkSw(n.getVoltageLevel("VN"), "REV", 1, 0, true); mkBSw(n.getVoltageLevel("VB"), "SWREV", "B2", "B1", true); situation(n); Desc before = describe(n);
  lists(n, n); for (const Component& c : n.getBusView().getConnectedComponents()) { const Component& K = c; Component& M = const_cast<Component&>(c); LST(getBuses()); unsigned long k = 0; for (const Bus& b : K.getBuses()) { ++k; sx_assert(&b.getConnectedComponent().get() == &c); } sx_assert(k == K.getSize()); }
  sameDesc(before, describe(n)); sx_reach("lists");
}
