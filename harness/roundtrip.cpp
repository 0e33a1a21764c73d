// C13: a network written to XML and read back is the same network.
#include "xmlnet.hpp"
#include <fstream>
#include <unistd.h>
#include <boost/filesystem/path.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
using converter::ExportOptions; using converter::ImportOptions;
static std::string write(const Network& n, const ExportOptions& o = ExportOptions()) { std::ostringstream os; Network::writeXml("none.xml", os, n, o); return os.str(); }
static Network readX(const std::string& x) { std::istringstream is(x); return Network::readXml("none.xml", is, ImportOptions()); }
struct RAttr { std::string name; int kind; std::function<double(Network&)> get; std::function<void(Network&, double)> set; };
static std::vector<RAttr> attributes() {
  std::vector<RAttr> v;
#define D(O, F) v.push_back({#O " " #F, 0, [](Network& n) -> double { auto& o = O; return o.get##F(); }, [](Network& n, double x) { auto& o = O; o.set##F(x); }});
#define K(N, O, G, S, T) v.push_back({#O " " #G, N, [](Network& n) -> double { auto& o = O; return static_cast<double>(static_cast<long>(o.G())); }, [](Network& n, double x) { auto& o = O; o.S(static_cast<T>(static_cast<long>(x))); }});
#define X0 n.getLoad("LOADN")
  D(X0, P0) D(X0, Q0)
#define X1 n.getGenerator("GENB")
  D(X1, MinP) D(X1, MaxP) D(X1, TargetP) D(X1, TargetQ) D(X1, TargetV) D(X1, RatedS) K(2, X1, isVoltageRegulatorOn, setVoltageRegulatorOn, bool) K(6, X1, getEnergySource, setEnergySource, EnergySource)
#define X2 n.getBattery("BATN")
  D(X2, P0) D(X2, Q0) D(X2, MinP) D(X2, MaxP)
#define X3 n.getShuntCompensator("SHN")
  D(X3, TargetV) D(X3, TargetDeadband) K(2, X3, isVoltageRegulatorOn, setVoltageRegulatorOn, bool) K(3, X3, getSectionCount, setSectionCount, unsigned long)
#define X4 n.getShuntCompensator("SHB")
  D(X4, TargetV) D(X4, TargetDeadband) K(5, X4, getSectionCount, setSectionCount, unsigned long) D(X4.getModel<ShuntCompensatorLinearModel>(), BPerSection) D(X4.getModel<ShuntCompensatorLinearModel>(), GPerSection)
#define X5 n.getStaticVarCompensator("SVC")
  D(X5, Bmin) D(X5, Bmax) D(X5, VoltageSetpoint) D(X5, ReactivePowerSetpoint) K(3, X5, getRegulationMode, setRegulationMode, StaticVarCompensator::RegulationMode)
#define X6 n.getVscConverterStation("VSC1")
  D(X6, LossFactor) D(X6, VoltageSetpoint) D(X6, ReactivePowerSetpoint) K(2, X6, isVoltageRegulatorOn, setVoltageRegulatorOn, bool)
#define X7 n.getLccConverterStation("LCC1")
  D(X7, LossFactor) D(X7, PowerFactor)
#define X8 n.getDanglingLine("DL")
  D(X8, R) D(X8, X) D(X8, G) D(X8, B) D(X8, P0) D(X8, Q0)
#define X9 n.getDanglingLine("DL").getGeneration().get()
  D(X9, MinP) D(X9, MaxP) D(X9, TargetP) D(X9, TargetQ) D(X9, TargetV) K(2, X9, isVoltageRegulationOn, setVoltageRegulationOn, bool)
#define X10 n.getHvdcLine("HVSC")
  D(X10, R) D(X10, NominalV) D(X10, MaxP) D(X10, ActivePowerSetpoint) K(2, X10, getConvertersMode, setConvertersMode, HvdcLine::ConvertersMode)
#define X11 n.getLine("LINE")
  D(X11, R) D(X11, X) D(X11, G1) D(X11, B1) D(X11, G2) D(X11, B2)
#define X12 dynamic_cast<TieLine&>(n.getLine("TIE")).getHalf1()
  D(X12, R) D(X12, X) D(X12, G1) D(X12, B1) D(X12, G2) D(X12, B2)
#define X13 dynamic_cast<TieLine&>(n.getLine("TIE")).getHalf2()
  D(X13, R) D(X13, X) D(X13, G1) D(X13, B1) D(X13, G2) D(X13, B2)
#define X14 n.getTwoWindingsTransformer("TWT")
  D(X14, R) D(X14, X) D(X14, G) D(X14, B) D(X14, RatedU1) D(X14, RatedU2) D(X14, RatedS)
#define X15 n.getTwoWindingsTransformer("TWT").getRatioTapChanger()
  D(X15, TargetV) D(X15, TargetDeadband) K(2, X15, isRegulating, setRegulating, bool) K(2, X15, hasLoadTapChangingCapabilities, setLoadTapChangingCapabilities, bool) K(2, X15, getTapPosition, setTapPosition, long)
  D(X15.getStep(0), Rho) D(X15.getStep(0), R) D(X15.getStep(0), X) D(X15.getStep(0), G) D(X15.getStep(1), B)
#define X16 n.getTwoWindingsTransformer("TWT").getPhaseTapChanger()
  D(X16, RegulationValue) D(X16, TargetDeadband) K(3, X16, getRegulationMode, setRegulationMode, PhaseTapChanger::RegulationMode) K(4, X16, getTapPosition, setTapPosition, long) K(5, X16, getLowTapPosition, setLowTapPosition, long)
  D(X16.getStep(2), Alpha) D(X16.getStep(2), Rho) D(X16.getStep(2), R) D(X16.getStep(3), X) D(X16.getStep(3), G) D(X16.getStep(3), B)
#define X17 n.getThreeWindingsTransformer("T3").getLeg1()
  D(X17, R) D(X17, X) D(X17, G) D(X17, B) D(X17, RatedU) D(X17, RatedS)
#define X18 n.getThreeWindingsTransformer("T3").getLeg2()
  D(X18, R) D(X18, X) D(X18, G) D(X18, B) D(X18, RatedU) D(X18, RatedS)
#define X19 n.getThreeWindingsTransformer("T3").getLeg3()
  D(X19, R) D(X19, X) D(X19, G) D(X19, B) D(X19, RatedU) D(X19, RatedS) D(X19.getTerminal(), P) D(X19.getTerminal(), Q)
#define X20 n.getVoltageLevel("VN")
  D(X20, NominalV) D(X20, LowVoltageLimit) D(X20, HighVoltageLimit)
#define X21 n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get()
  D(X21, V) D(X21, Angle)
#define X22 n.getVoltageLevel("VN").getBusView().getBus("VN_0").get()
  D(X22, V) D(X22, Angle)
  D(n.getLine("LINE").getCurrentLimits1().get(), PermanentLimit) D(n.getLine("LINE").getTerminal1(), P) D(n.getLine("LINE").getTerminal2(), Q) D(n.getLine("TIE").getTerminal2(), P) D(n.getTwoWindingsTransformer("TWT").getTerminal1(), Q) D(n.getLoad("LOADC").getTerminal(), P) D(n.getBattery("BATN").getTerminal(), Q) D(n.getDanglingLine("DL").getTerminal(), P) D(n.getVscConverterStation("VSC2").getTerminal(), Q) D(n.getLccConverterStation("LCC2").getTerminal(), P) D(n.getStaticVarCompensator("SVC").getTerminal(), Q) D(n.getShuntCompensator("SHB").getTerminal(), P) D(n.getGenerator("GENN").getTerminal(), Q)
  K(2, n.getSwitch("COUPLER"), isOpen, setOpen, bool) K(2, n.getSwitch("B_LOADN"), isRetained, setRetained, bool) K(2, n.getSwitch("SWB"), isOpen, setOpen, bool)
  for (const char* id : {"S1", "VN", "VB", "COUPLER", "SWB", "BBS1", "LOADN", "GENB", "BATN", "SHN", "SHB", "SVC", "VSC1", "LCC1", "DL", "HVSC", "LINE", "TIE", "TWT", "T3", "B1"}) {
    std::string i(id); v.push_back({"fictitious " + i, 2, [i](Network& n) -> double { return n.get<Identifiable>(i).isFictitious(); }, [i](Network& n, double x) { n.get<Identifiable>(i).setFictitious(x != 0); }});
  }
  auto conn = [&v](const char* id, int side) { std::string i(id); v.push_back({"connected " + i, 2, [i, side](Network& n) -> double { int k = 0; for (Terminal& t : dynamic_cast<Connectable&>(n.get<Identifiable>(i)).getTerminals()) if (++k == side) return t.isConnected(); return -1; },
    [i, side](Network& n, double x) { int k = 0; for (Terminal& t : dynamic_cast<Connectable&>(n.get<Identifiable>(i)).getTerminals()) if (++k == side) { if (x != 0) t.connect(); else t.disconnect(); } }}); };
  conn("LOADB", 1); conn("GENB", 1); conn("SHB", 1); conn("SVC", 1); conn("LCC1", 1); conn("VSC2", 1); conn("LINE", 1); conn("LINE", 2); conn("TIE", 1); conn("TIE", 2); conn("TWT", 2); conn("T3", 1); conn("T3", 2); conn("T3", 3); conn("LOADN", 1);
  return v;
}
#undef D
#undef K
SX_HARNESS(attributes) {
  static std::vector<RAttr>* as = nullptr; if (!as) as = new std::vector<RAttr>(attributes());
  Network n = mkNet("full"); extend(n); if (sx_choose("situation", 2)) unsettle(n);
  const RAttr& a = (*as)[sx_choose("attribute", static_cast<int64_t>(as->size()))]; __sx_api_note(a.name.c_str());
  double x = a.kind ? static_cast<double>(sx_choose("value", a.kind)) : sx_double("value");
  if (a.name.find("getStep") != std::string::npos) sx_assume(!std::isnan(x)); // mandatory in the format
  try { a.set(n, x); } catch (const PowsyblException&) { return; }
  sx_text(true);
  std::string xml = write(n);
  Network m = readX(xml);
  sx_text(false);
  sx_assert(same(a.get(m), a.get(n)));
  sameDesc(describe(n), describe(m));
  consistent(m);
  sx_reach("round trip");
}
// writes, reads, compares; the original is unchanged
static Network trip(Network& n) {
  Desc before = describe(n);
  std::string xml = write(n);
  sameDesc(before, describe(n));
  Network m = readX(xml);
  sameDesc(before, describe(m));
  consistent(m);
  return m;
}
// values that are given only at creation: one of them is unconstrained, the others take distinct defaults
// (or, with chosen < 0, all of them are unconstrained numbers)
struct Vals { int chosen, k; double x; double operator()(double d) { if (chosen < 0) { double v = sx_double(("v" + std::to_string(k++)).c_str()); sx_assume(!std::isnan(v)); return v; } return k++ == chosen ? x : d; } };
static void create(Network& n, int kind, Vals& v) {
  VoltageLevel& vb = n.getVoltageLevel("VB"); VoltageLevel& vn = n.getVoltageLevel("VN"); Substation& s = n.getSubstation("S1");
  switch (kind) {
    case 0: vb.newLoad().setId("X").setBus("B1").setConnectableBus("B1").setP0(v(1)).setQ0(v(2)).add(); break;
    case 1: { auto& g = vb.newGenerator().setId("X").setBus("B1").setConnectableBus("B1").setMinP(v(-1)).setMaxP(v(2)).setTargetP(v(3)).setTargetQ(v(4)).setTargetV(v(5)).setRatedS(v(6)).setVoltageRegulatorOn(true).add(); g.newMinMaxReactiveLimits().setMinQ(v(-7)).setMaxQ(v(8)).add(); break; }
    case 2: { auto& g = vb.newBattery().setId("X").setBus("B1").setConnectableBus("B1").setMinP(v(-1)).setMaxP(v(2)).setP0(v(1)).setQ0(v(4)).add();
      g.newReactiveCapabilityCurve().beginPoint().setP(v(1)).setMinQ(v(-2)).setMaxQ(v(3)).endPoint().beginPoint().setP(v(4)).setMinQ(v(-5)).setMaxQ(v(6)).endPoint().beginPoint().setP(v(7)).setMinQ(v(-8)).setMaxQ(v(9)).endPoint().add(); break; }
    case 3: vb.newShuntCompensator().setId("X").setBus("B1").setConnectableBus("B1").setSectionCount(1UL).setTargetV(v(1)).setTargetDeadband(v(2)).newNonLinearModel().beginSection().setB(v(3)).setG(v(4)).endSection().beginSection().setB(v(5)).setG(v(6)).endSection().add().add(); break;
    case 4: vb.newShuntCompensator().setId("X").setBus("B1").setConnectableBus("B1").setSectionCount(1UL).newLinearModel().setMaximumSectionCount(3UL).setBPerSection(v(3)).setGPerSection(v(4)).add().add(); break;
    case 5: vb.newStaticVarCompensator().setId("X").setBus("B1").setConnectableBus("B1").setBmin(v(-1)).setBmax(v(1)).setVoltageSetpoint(v(2)).setReactivePowerSetpoint(v(3)).setRegulationMode(StaticVarCompensator::RegulationMode::REACTIVE_POWER).add(); break;
    case 6: { vb.newLccConverterStation().setId("Y").setBus("B1").setConnectableBus("B1").setLossFactor(v(1)).setPowerFactor(v(0.5)).add(); vn.newVscConverterStation().setId("Z").setNode(30).setLossFactor(v(1)).setVoltageSetpoint(v(2)).setReactivePowerSetpoint(v(3)).setVoltageRegulatorOn(true).add();
      n.newHvdcLine().setId("X").setR(v(4)).setMaxP(v(5)).setActivePowerSetpoint(v(6)).setNominalV(v(7)).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("Z").setConverterStationId2("Y").add(); break; }
    case 7: { auto& d = vn.newDanglingLine().setId("X").setNode(30).setR(v(1)).setX(v(2)).setG(v(3)).setB(v(4)).setP0(v(5)).setQ0(v(6)).newGeneration().setMinP(v(-7)).setMaxP(v(8)).setTargetP(v(9)).setTargetQ(v(10)).setTargetV(v(11)).setVoltageRegulationOn(true).add().add();
      d.newCurrentLimits().setPermanentLimit(v(12)).beginTemporaryLimit().setName("a").setAcceptableDuration(60UL).setValue(v(14)).endTemporaryLimit().beginTemporaryLimit().setName("b").setAcceptableDuration(30UL).setValue(v(15)).setFictitious(true).endTemporaryLimit().add();
      d.getGeneration().get().newMinMaxReactiveLimits().setMinQ(v(-7)).setMaxQ(v(8)).add(); break; }
    case 8: { auto& l = n.newLine().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setR(v(1)).setX(v(2)).setG1(v(3)).setB1(v(4)).setG2(v(5)).setB2(v(6)).add();
      l.newActivePowerLimits1().setPermanentLimit(v(7)).add(); l.newActivePowerLimits2().setPermanentLimit(v(8)).add(); l.newApparentPowerLimits1().setPermanentLimit(v(9)).add(); l.newApparentPowerLimits2().setPermanentLimit(v(10)).add(); l.newCurrentLimits1().setPermanentLimit(v(11)).add(); l.newCurrentLimits2().setPermanentLimit(v(12)).beginTemporaryLimit().setName("a").setAcceptableDuration(60UL).setValue(v(14)).endTemporaryLimit().add(); break; }
    case 9: n.newTieLine().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setUcteXnodeCode("U").newHalfLine1().setId("X1").setR(v(1)).setX(v(2)).setG1(v(3)).setB1(v(4)).setG2(v(5)).setB2(v(6)).add().newHalfLine2().setId("X2").setFictitious(true).setR(v(7)).setX(v(8)).setG1(v(9)).setB1(v(10)).setG2(v(11)).setB2(v(12)).add().add(); break;
    case 10: { auto& t = s.newTwoWindingsTransformer().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setR(v(1)).setX(v(2)).setG(v(3)).setB(v(4)).setRatedU1(v(5)).setRatedU2(v(6)).setRatedS(v(7)).add();
      t.newRatioTapChanger().setLowTapPosition(-4L).setTapPosition(-3L).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(v(8)).setTargetDeadband(v(9)).setRegulationTerminal(ref<Terminal>(n.getLine("LINE").getTerminal2())).beginStep().setRho(v(10)).setR(v(11)).setX(v(12)).setG(v(13)).setB(v(14)).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
      t.newPhaseTapChanger().setLowTapPosition(4L).setTapPosition(4L).setRegulationMode(PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL).setRegulating(true).setRegulationValue(v(15)).setTargetDeadband(v(16)).setRegulationTerminal(ref<Terminal>(n.getThreeWindingsTransformer("T3").getLeg2().getTerminal())).beginStep().setAlpha(v(17)).setRho(v(18)).setR(v(19)).setX(v(20)).setG(v(21)).setB(v(22)).endStep().add(); break; }
    case 11: { auto& t = s.newThreeWindingsTransformer().setId("X").setRatedU0(v(1)).newLeg1().setVoltageLevel("VB").setBus("B1").setConnectableBus("B1").setR(v(2)).setX(v(3)).setG(v(4)).setB(v(5)).setRatedU(v(6)).setRatedS(v(7)).add()
      .newLeg2().setVoltageLevel("VN").setNode(31).setR(v(8)).setX(v(9)).setG(v(10)).setB(v(11)).setRatedU(v(12)).setRatedS(v(13)).add().newLeg3().setVoltageLevel("VC").setConnectableBus("C1").setR(v(14)).setX(v(15)).setG(v(16)).setB(v(17)).setRatedU(v(18)).setRatedS(v(19)).add().add();
      t.getLeg3().newApparentPowerLimits().setPermanentLimit(v(20)).add(); break; }
    default: { VoltageLevel& x = s.newVoltageLevel().setId("X").setNominalV(v(10)).setLowVoltageLimit(v(9)).setHighVoltageLimit(v(11)).setTopologyKind(TopologyKind::BUS_BREAKER).add(); Bus& b = mkBus(x, "XB"); b.setV(v(1)); b.setAngle(v(2)); break; }
  }
}
SX_HARNESS(created) {
  static const int COUNT[] = {2, 8, 13, 6, 2, 4, 9, 16, 13, 12, 22, 20, 5};
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  int kind = sx_choose("kind", 13); Vals v{static_cast<int>(sx_choose("attribute", 24)), 0, 0.0}; sx_assume(v.chosen < COUNT[kind]);
  v.x = sx_double("value");
  if ((kind == 10) && v.chosen >= 9) sx_assume(!std::isnan(v.x)); // tap changer steps
  if ((kind == 8 && v.chosen >= 6 && v.chosen <= 10) || (kind == 11 && v.chosen == 19)) sx_assume(!std::isnan(v.x)); // a limit set without any limit
  if (kind == 3) sx_assume(!std::isnan(v.x));
  sx_text(true);
  try { create(n, kind, v); } catch (const PowsyblException&) { return; }
  sx_assert(v.k == COUNT[kind]);
  trip(n);
  sx_reach("round trip");
}
// all values of an object at once
SX_HARNESS(created_together) {
  Network n = mkNet("full"); buildFull(n); Vals v{-1, 0, 0.0};
  sx_text(true);
  try { create(n, sx_choose("kind", 13), v); } catch (const PowsyblException&) { return; }
  trip(n);
  sx_reach("round trip");
}
// all attributes of an object set one after the other
SX_HARNESS(attributes_together) {
  static std::vector<RAttr>* as = nullptr; static std::vector<std::vector<int>>* groups = nullptr;
  if (!as) { as = new std::vector<RAttr>(attributes()); groups = new std::vector<std::vector<int>>(); std::string last;
    for (size_t i = 0; i < as->size(); ++i) { std::string g = (*as)[i].name; if (g.compare(0, 10, "fictitious") == 0 || g.compare(0, 9, "connected") == 0) continue; auto k = g.find_first_of(" ."); if (g[0] == 'X') g = g.substr(0, k); else g = "x"; if (g != last) groups->push_back({}); last = g; groups->back().push_back(static_cast<int>(i)); } }
  Network n = mkNet("full"); extend(n); if (sx_choose("situation", 2)) unsettle(n);
  sx_text(true);
  try {
    for (int i : (*groups)[sx_choose("object", static_cast<int64_t>(groups->size()))]) {
      const RAttr& a = (*as)[i]; __sx_api_note(a.name.c_str());
      double x; if (a.kind) x = static_cast<double>(sx_choose(a.name.c_str(), a.kind > 3 ? 3 : a.kind)); else { x = sx_double(a.name.c_str()); sx_assume(!std::isnan(x)); }
      a.set(n, x);
    }
  } catch (const PowsyblException&) { return; }
  trip(n);
  sx_reach("round trip");
}
// each optional part of an equipment, present or absent independently of the others
template <typename A> static void limitsOf(A&& adder, double value, int kind) {
  adder.setPermanentLimit(value);
  if (kind != 1) adder.beginTemporaryLimit().setName("t").setAcceptableDuration(60UL + static_cast<unsigned long>(kind)).setValue(value + 1).setFictitious(kind == 2).endTemporaryLimit();
  adder.add();
}
template <typename B> static void limits2(B& b, int mask) {
  if (mask & 1) limitsOf(b.newActivePowerLimits1(), 11.0, 0);
  if (mask & 2) limitsOf(b.newActivePowerLimits2(), 12.0, 1);
  if (mask & 4) limitsOf(b.newApparentPowerLimits1(), 13.0, 2);
  if (mask & 8) limitsOf(b.newApparentPowerLimits2(), 14.0, 0);
  if (mask & 16) limitsOf(b.newCurrentLimits1(), 15.0, 1);
  if (mask & 32) limitsOf(b.newCurrentLimits2(), 16.0, 2);
}
template <typename H> static void changers(H& h, int mask, double shift) {
  if (mask & 1) h.newRatioTapChanger().setLowTapPosition(-1L).setTapPosition(0L).setLoadTapChangingCapabilities(false).beginStep().setRho(1.0 + shift).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.5).setR(0.0).setX(0.0).setG(0.0).setB(shift).endStep().add();
  if (mask & 2) h.newPhaseTapChanger().setLowTapPosition(1L).setTapPosition(1L).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP).beginStep().setAlpha(2.0 + shift).setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
}
template <typename H> static void reactive(H& h, int kind) {
  if (kind == 1) h.newMinMaxReactiveLimits().setMinQ(-3.0).setMaxQ(4.0).add();
  if (kind == 2) h.newReactiveCapabilityCurve().beginPoint().setP(1.0).setMinQ(-1.0).setMaxQ(2.0).endPoint().beginPoint().setP(3.0).setMinQ(-4.0).setMaxQ(5.0).endPoint().add();
}
SX_HARNESS(parts) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  VoltageLevel& vb = n.getVoltageLevel("VB"); VoltageLevel& vn = n.getVoltageLevel("VN"); Substation& s = n.getSubstation("S1");
  switch (sx_choose("kind", 6)) {
    case 0: limits2(n.newLine().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setR(1.0).setX(2.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add(), static_cast<int>(sx_choose("parts", 64))); break;
    case 1: limits2(n.newTieLine().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setUcteXnodeCode("U").newHalfLine1().setId("X1").setR(1.0).setX(2.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add().newHalfLine2().setId("X2").setR(1.0).setX(2.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add().add(), static_cast<int>(sx_choose("parts", 64))); break;
    case 2: { auto& t = s.newTwoWindingsTransformer().setId("X").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VN").setNode2(31).setR(1.0).setX(2.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(2.0).add();
      limits2(t, static_cast<int>(sx_choose("parts", 64))); changers(t, static_cast<int>(sx_choose("changers", 4)), 0.0); break; }
    case 3: { auto& t = s.newThreeWindingsTransformer().setId("X").newLeg1().setVoltageLevel("VB").setBus("B1").setConnectableBus("B1").setR(1.0).setX(2.0).setG(0.0).setB(0.0).setRatedU(1.0).add()
        .newLeg2().setVoltageLevel("VN").setNode(31).setR(1.0).setX(2.0).setG(0.0).setB(0.0).setRatedU(2.0).add().newLeg3().setVoltageLevel("VC").setConnectableBus("C1").setR(1.0).setX(2.0).setG(0.0).setB(0.0).setRatedU(3.0).add().add();
      int one = static_cast<int>(sx_choose("leg", 3)), its = static_cast<int>(sx_choose("parts", 32)), others = sx_choose("others", 2) ? 31 : 0;
      for (int i = 0; i < 3; ++i) {
        auto& leg = i == 0 ? t.getLeg1() : i == 1 ? t.getLeg2() : t.getLeg3(); int mask = i == one ? its : others;
        if (mask & 1) limitsOf(leg.newActivePowerLimits(), 21.0 + i, 0);
        if (mask & 2) limitsOf(leg.newApparentPowerLimits(), 31.0 + i, 1);
        if (mask & 4) limitsOf(leg.newCurrentLimits(), 41.0 + i, 2);
        if (!(mask & 8) || !(mask & 16)) changers(leg, (mask >> 3) & 3, 0.25 * (i + 1)); else changers(leg, 1 + (i & 1), 0.25 * (i + 1));
      }
      break; }
    case 4: { int g = static_cast<int>(sx_choose("generation", 4));
      auto a = vn.newDanglingLine(); a.setId("X").setNode(30).setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(5.0).setQ0(6.0); if (sx_choose("code", 2)) a.setUcteXnodeCode("UX");
      if (g) a.newGeneration().setMinP(-7.0).setMaxP(8.0).setTargetP(9.0).setTargetQ(10.0).setTargetV(11.0).setVoltageRegulationOn(false).add();
      DanglingLine& d = a.add();
      int mask = static_cast<int>(sx_choose("parts", 8));
      if (mask & 1) limitsOf(d.newActivePowerLimits(), 11.0, 0);
      if (mask & 2) limitsOf(d.newApparentPowerLimits(), 12.0, 1);
      if (mask & 4) limitsOf(d.newCurrentLimits(), 13.0, 2);
      if (g > 1) reactive(d.getGeneration().get(), g - 1);
      break; }
    default: {
      int r = static_cast<int>(sx_choose("reactive", 3));
      switch (sx_choose("holder", 3)) {
        case 0: { auto& g = vb.newGenerator().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0.0).setMaxP(1.0).setTargetP(0.5).setTargetQ(0.5).setVoltageRegulatorOn(false).add(); reactive(g, r); break; }
        case 1: { auto& g = vb.newBattery().setId("X").setBus("B1").setConnectableBus("B1").setMinP(0.0).setMaxP(1.0).setP0(0.5).setQ0(0.5).add(); reactive(g, r); break; }
        default: { auto& g = vb.newVscConverterStation().setId("X").setBus("B1").setConnectableBus("B1").setLossFactor(1.0).setReactivePowerSetpoint(1.0).setVoltageRegulatorOn(false).add(); reactive(g, r); break; }
      }
    }
  }
  trip(n);
  sx_reach("round trip");
}
// texts
static const char* const TEXTS[] = {"a", "caf\xc3\xa9", "a<b>&c\"d'e", " lead", "trail ", "a  b", "]]>", "&amp;", "a\tb", "a\nb", "a\rb", "\xf0\x9d\x84\x9e", "%1%", "<!--", "", "9"};
SX_HARNESS(texts) {
  std::string t = TEXTS[sx_choose("text", 16)]; int place = sx_choose("place", 30);
  auto T = [&](int k, const char* d) -> std::string { return k == place ? t : d; };
  try {
    Network n(T(0, "net"), T(1, "fmt")); n.setCaseDate(stdcxx::DateTime::parse("2021-01-01T00:00:00.000+00:00")); n.addAlias("na", T(2, ""));
    Substation& s = n.newSubstation().setId(T(3, "S")).setName(T(4, "")).setTso(T(5, "tso")).setCountry(Country::FR).add();
    if (!T(6, "tag").empty()) s.addGeographicalTag(T(6, "tag"));
    VoltageLevel& vb = s.newVoltageLevel().setId(T(7, "VB")).setName(T(8, "")).setNominalV(1.0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& vn = mkVl(s, T(9, "VN"), true);
    vb.getBusBreakerView().newBus().setId(T(10, "B1")).setName(T(11, "")).add(); mkBus(vb, "B2");
    vb.getBusBreakerView().newSwitch().setId(T(12, "SW")).setName(T(13, "")).setBus1(T(10, "B1")).setBus2("B2").add();
    mkBbs(vn, T(14, "BBS"), 0); vn.getNodeBreakerView().newSwitch().setId(T(15, "SWN")).setName(T(16, "")).setKind(SwitchKind::BREAKER).setNode1(0).setNode2(1).add();
    Load& l = vb.newLoad().setId(T(17, "L")).setName(T(18, "")).setBus(T(10, "B1")).setConnectableBus(T(10, "B1")).setP0(1.0).setQ0(1.0).add();
    if (!T(19, "").empty() || place == 19) l.addAlias(T(19, ""));
    l.addAlias("la", T(20, "t")); l.setProperty(T(21, "k"), T(22, "v"));
    Generator& g = mkGenB(vb, T(23, "G"), "B2"); g.setRegulatingTerminal(ref<Terminal>(l.getTerminal()));
    DanglingLine& d = vn.newDanglingLine().setId("D").setNode(1).setR(1.0).setX(1.0).setG(1.0).setB(1.0).setP0(1.0).setQ0(1.0).setUcteXnodeCode(T(24, "U")).add();
    d.newCurrentLimits().setPermanentLimit(1.0).beginTemporaryLimit().setName(T(25, "l")).setAcceptableDuration(6UL).setValue(2.0).endTemporaryLimit().add();
    n.newTieLine().setId(T(26, "T")).setVoltageLevel1(T(7, "VB")).setBus1(T(10, "B1")).setConnectableBus1(T(10, "B1")).setVoltageLevel2(T(7, "VB")).setBus2("B2").setConnectableBus2("B2").setUcteXnodeCode("c")
      .newHalfLine1().setId(T(27, "H1")).setName(T(28, "")).setR(1.0).setX(2.0).setG1(3.0).setB1(4.0).setG2(5.0).setB2(6.0).add().newHalfLine2().setId("H2").setR(1.0).setX(2.0).setG1(3.0).setB1(4.0).setG2(5.0).setB2(6.0).add().add();
    n.setProperty("np", T(29, "nv"));
    trip(n);
    sx_reach("round trip");
  } catch (const PowsyblException&) { sx_assert(t.empty()); }
}
// every enumerated attribute, regulating terminal, date
SX_HARNESS(choices) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  VoltageLevel& vb = n.getVoltageLevel("VB"); VoltageLevel& vn = n.getVoltageLevel("VN");
  std::vector<Terminal*> ts; for (Connectable& c : n.getConnectables()) for (Terminal& t : c.getTerminals()) ts.push_back(&t);
  auto T = [&]() { return stdcxx::ref(*ts[sx_choose("terminal", static_cast<int64_t>(ts.size()))]); };
  switch (sx_choose("what", 12)) {
    case 0: n.getSubstation("S1").setCountry(static_cast<Country>(sx_choose("country", 250))); break;
    case 1: vb.newLoad().setId("X").setBus("B1").setConnectableBus("B1").setP0(1.0).setQ0(1.0).setLoadType(static_cast<LoadType>(sx_choose("type", 3))).setFictitious(sx_bool("fictitious")).add(); break;
    case 2: vn.getNodeBreakerView().newSwitch().setId("X").setNode1(40).setNode2(41).setKind(static_cast<SwitchKind>(sx_choose("kind", 3))).setOpen(sx_bool("open")).setRetained(sx_bool("retained")).setFictitious(sx_bool("fictitious")).add(); break;
    case 3: n.getGenerator("GENB").setRegulatingTerminal(T()); break;
    case 4: n.getShuntCompensator("SHB").setRegulatingTerminal(T()); break;
    case 5: n.getStaticVarCompensator("SVC").setRegulatingTerminal(T()); break;
    case 6: n.getTwoWindingsTransformer("TWT").getRatioTapChanger().setRegulationTerminal(T()); break;
    case 7: n.getTwoWindingsTransformer("TWT").getPhaseTapChanger().setRegulationTerminal(T()); break;
    case 8: n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger().setRegulationTerminal(T()); break;
    case 9: { static const char* D[] = {"2021-01-01T00:00:00Z", "2021-02-28T23:59:59.999+00:00", "2020-02-29T12:34:56.123+05:30", "1999-12-31T23:00:00-08:00", "2021-06-15T01:02:03.000001+02:00", "1970-01-01T00:00:00.000Z", "2100-01-01T00:30:00.500-00:30"};
      const char* d = D[sx_choose("date", 7)]; n.setCaseDate(stdcxx::DateTime::parse(d)); n.setForecastDistance(static_cast<int>(sx_int("distance", 0, 2147483647))); 
      sx_text(true); Network m = trip(n); sx_assert(m.getCaseDate() == n.getCaseDate() && m.getForecastDistance() == n.getForecastDistance()); sx_reach("round trip"); return; }
    case 10: { VoltageLevel& v = mkVl(n.getSubstation("S1"), "X", sx_bool("kind")); v.setFictitious(sx_bool("fictitious")); break; }
    default: { unsigned long d = static_cast<unsigned long>(sx_int("duration", 0, 2147483647)); sx_assume(d != 0); sx_text(true); n.getDanglingLine("DL").newApparentPowerLimits().setPermanentLimit(1.0).beginTemporaryLimit().setName("x").setAcceptableDuration(d).setValue(2.0).setFictitious(sx_bool("fictitious")).endTemporaryLimit().add(); break; }
  }
  trip(n);
  sx_reach("round trip");
}
// numbers whose text is special
SX_HARNESS(special) {
  static const double S[] = {5e-324, -2.2250738585072009e-308, 2.2250738585072014e-308, 1.7976931348623157e308, INFINITY, -INFINITY, -0.0, 0.1, 1.0 / 3, 123456789.123456789, 1e22, 1e-5, 9007199254740993.0};
  double x = S[sx_choose("value", 13)];
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  Load& l = n.getLoad("LOADB"); l.setP0(x); l.getTerminal().setP(x); Line& k = n.getLine("LINE"); k.setR(x); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().setAngle(x);
  for (Generator& g : n.getGenerators()) g.setTargetQ(x);
  l.setQ0(-x); n.getHvdcLine("HVSC").setR(x > 0 ? x : -x);
  Network m = trip(n);
  sx_assert(std::signbit(m.getLoad("LOADB").getP0()) == std::signbit(x));
  sx_reach("round trip");
}
// the written state is the one of the working variant
SX_HARNESS(in_variants) {
  static std::vector<RAttr>* as = nullptr; if (!as) as = new std::vector<RAttr>(attributes());
  Network n = mkNet("full"); extend(n); if (sx_choose("situation", 2)) unsettle(n);
  const RAttr& a = (*as)[sx_choose("attribute", static_cast<int64_t>(as->size()))]; __sx_api_note(a.name.c_str());
  n.getVariantManager().cloneVariant("InitialVariant", {"v1", "v2"}); n.getVariantManager().setWorkingVariant("v1");
  double x = a.kind ? static_cast<double>(sx_choose("value", a.kind)) : 77.25, y = a.get(n);
  try { a.set(n, x); } catch (const PowsyblException&) { return; }
  static const char* V[] = {"InitialVariant", "v1", "v2"}; int w = sx_choose("working", 3);
  n.getVariantManager().setWorkingVariant(V[w]);
  double z = a.get(n);
  sx_assert(w != 1 || same(z, x) );
  (void) y;
  Network m = trip(n);
  sx_assert(same(a.get(m), z) && n.getVariantManager().getWorkingVariantId() == V[w] && m.getVariantManager().getVariantIds().size() == 1);
  sx_reach("round trip");
}
// through files
SX_HARNESS(files) {
  Network n = mkNet("full"); extend(n); if (sx_choose("situation", 2)) unsettle(n); char dir[] = "/tmp/sx-roundtrip-XXXXXX"; sx_assert(::mkdtemp(dir) != nullptr); std::string base = dir, file = base + "/n.xml"; Desc before = describe(n); unsigned long there = sx_choose("there", 3);
  if (there) { std::ofstream o(file.c_str(), std::ios::binary); o << (there == 1 ? std::string("x") : std::string(300000, 'x')); }
  struct Clean { std::string d, f; ~Clean() { ::unlink(f.c_str()); ::rmdir(d.c_str()); } } clean{base, file};
  auto slurp = [&]() { std::ifstream i(file.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); };
  switch (sx_choose("how", 3)) {
    case 0: { Network::writeXml(boost::filesystem::path(file), n); sameDesc(before, describe(n)); sx_assert_msg(slurp() == write(n), "the file is what is written to a stream"); Network m = Network::readXml(boost::filesystem::path(file)); sameDesc(before, describe(m)); consistent(m); sx_reach("file"); break; }
    case 1: { std::string x = slurp(); boost::filesystem::path p(base + "/none/n.xml"); sx_assert_msg(throwsE<PowsyblException>([&]() { Network::writeXml(p, n); }), "a file that cannot be written is reported"); sx_assert_msg(throwsE<PowsyblException>([&]() { Network::readXml(p); }), "a file that cannot be read is reported"); sameDesc(before, describe(n)); sx_assert(slurp() == x); sx_reach("no file"); break; }
    default: { ExportOptions o; o.setWithBranchSV(false); std::string w = write(n, o); Network::writeXml(boost::filesystem::path(file), n, o); sx_assert_msg(slurp() == w && w != write(n), "the options count"); sx_reach("options"); }
  }
}
