// C14: the export options and versions change only what they say.
#include "describe.hpp"
#include <powsybl/iidm/TopologyLevel.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
using converter::ExportOptions; using converter::ImportOptions;
typedef ExportOptions::IidmVersionIncompatibilityBehavior Behavior;
static std::string write(const Network& n, const ExportOptions& o) { std::ostringstream os; Network::writeXml("none.xml", os, n, o); return os.str(); }
static Network readX(const std::string& x) { std::istringstream is(x); return Network::readXml("none.xml", is, ImportOptions()); }
// --- versions -------------------------------------------------------------------------------------------------------
// a network that every version of the format can express
static void base10(Network& n) {
  Substation& s = n.newSubstation().setId("S").setName("sub").setCountry(Country::FR).setTso("T").addGeographicalTag("A").add();
  Substation& s2 = n.newSubstation().setId("S2").add();
  VoltageLevel& vn = s.newVoltageLevel().setId("VN").setNominalV(400.0).setLowVoltageLimit(380.0).setHighVoltageLimit(420.0).setTopologyKind(TopologyKind::NODE_BREAKER).add();
  VoltageLevel& vb = mkVl(s, "VB", false, 225.0); VoltageLevel& vc = mkVl(s, "VC", false, 20.0); VoltageLevel& vd = mkVl(s2, "VD", false, 400.0);
  mkBbs(vn, "BBS1", 0); mkSw(vn, "SW1", 0, 1); mkSw(vn, "SW2", 0, 2); mkIc(vn, 1, 5); mkSw(vn, "SW3", 0, 3); mkSw(vn, "SW4", 0, 4, false, SwitchKind::LOAD_BREAK_SWITCH, true);
  mkBus(vb, "B1"); mkBus(vb, "B2"); mkBSw(vb, "SWB", "B1", "B2"); mkBus(vc, "C1"); mkBus(vd, "D1"); mkBus(vd, "D2");
  vn.newLoad().setId("LOADN").setNode(1).setLoadType(LoadType::AUXILIARY).setP0(11.0).setQ0(12.0).add();
  vn.newDanglingLine().setId("DL").setNode(2).setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(50.0).setQ0(60.0).setUcteXnodeCode("XN1").add();
  vn.newBattery().setId("BATN").setNode(5).setP0(1.0).setQ0(2.0).setMinP(-5.0).setMaxP(5.0).add();
  mkLoadB(vb, "LOADB", "B1"); Generator& g = mkGenB(vb, "GENB", "B2"); g.setRatedS(9.0); mkLoadB(vd, "LOADD", "D1");
  g.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-10.0).setMaxQ(10.0).endPoint().beginPoint().setP(50.0).setMinQ(-5.0).setMaxQ(5.0).endPoint().add();
  vb.newShuntCompensator().setId("SHB").setBus("B1").setConnectableBus("B1").setSectionCount(2UL).newLinearModel().setBPerSection(0.5).setMaximumSectionCount(4UL).add().add();
  vb.newStaticVarCompensator().setId("SVC").setBus("B2").setConnectableBus("B2").setBmin(-0.5).setBmax(0.5).setVoltageSetpoint(230.0).setReactivePowerSetpoint(10.0).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE).add();
  vn.newVscConverterStation().setId("VSC1").setNode(3).setLossFactor(1.1).setReactivePowerSetpoint(123.0).setVoltageRegulatorOn(false).add();
  vd.newVscConverterStation().setId("VSC2").setBus("D1").setConnectableBus("D1").setLossFactor(1.2).setVoltageSetpoint(405.0).setVoltageRegulatorOn(true).add();
  n.newHvdcLine().setId("HVSC").setR(1.0).setMaxP(300.0).setActivePowerSetpoint(280.0).setNominalV(320.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("VSC1").setConverterStationId2("VSC2").add();
  TwoWindingsTransformer& t = s.newTwoWindingsTransformer().setId("TWT").setVoltageLevel1("VN").setNode1(4).setVoltageLevel2("VB").setBus2("B1").setConnectableBus2("B1").setR(1.0).setX(10.0).setG(0.01).setB(0.02).setRatedU1(400.0).setRatedU2(225.0).add();
  t.newRatioTapChanger().setLowTapPosition(-1L).setTapPosition(0L).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(225.0).setTargetDeadband(2.0).setRegulationTerminal(ref<Terminal>(t.getTerminal2())).beginStep().setRho(0.9).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().add();
  t.newPhaseTapChanger().setLowTapPosition(2L).setTapPosition(3L).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulationValue(150.0).setTargetDeadband(1.0).setRegulating(false).setRegulationTerminal(ref<Terminal>(t.getTerminal1())).beginStep().setAlpha(-10.0).setRho(0.8).setR(1.5).setX(2.5).setG(3.5).setB(4.5).endStep().beginStep().setAlpha(10.0).setRho(1.2).setR(5.0).setX(6.0).setG(7.0).setB(8.0).endStep().add();
  ThreeWindingsTransformer& t3 = s.newThreeWindingsTransformer().setId("T3").setRatedU0(225.0).newLeg1().setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").setR(1.0).setX(2.0).setG(0.1).setB(0.2).setRatedU(225.0).add()
    .newLeg2().setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").setR(3.0).setX(4.0).setG(0.0).setB(0.0).setRatedU(20.0).add().newLeg3().setVoltageLevel("VC").setConnectableBus("C1").setR(5.0).setX(6.0).setG(0.0).setB(0.0).setRatedU(20.0).add().add();
  for (auto* l : {&t3.getLeg2(), &t3.getLeg3()}) { l->newRatioTapChanger().setLowTapPosition(0L).setTapPosition(1L).setLoadTapChangingCapabilities(true).setRegulating(false).setTargetV(20.0).setTargetDeadband(1.0).setRegulationTerminal(ref<Terminal>(l->getTerminal())).beginStep().setRho(0.95).setR(1.0).setX(1.0).setG(1.0).setB(1.0).endStep().beginStep().setRho(1.05).setR(2.0).setX(2.0).setG(2.0).setB(2.0).endStep().add(); l->newCurrentLimits().setPermanentLimit(7.0).add(); }
  Line& line = mkLineB(n, "LINE", "VB", "B2", "VD", "D1");
  line.newCurrentLimits1().setPermanentLimit(50.0).beginTemporaryLimit().setName("20'").setAcceptableDuration(1200UL).setValue(60.0).endTemporaryLimit().beginTemporaryLimit().setName("N/A").setAcceptableDuration(60UL).setValue(1e3).setFictitious(true).endTemporaryLimit().add();
  t.newCurrentLimits2().setPermanentLimit(3.0).add();
  n.newTieLine().setId("TIE").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VD").setConnectableBus2("D2").setUcteXnodeCode("XN2").newHalfLine1().setId("H1").setR(1.0).setX(2.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add().newHalfLine2().setId("H2").setR(3.0).setX(4.0).setG1(0.5).setB1(0.6).setG2(0.7).setB2(0.8).add().add();
  n.getLoad("LOADN").setProperty("k", "v"); n.getSwitch("SW4").setFictitious(true); n.getSwitch("SWB").setFictitious(true);
  n.getLoad("LOADB").getTerminal().setP(5.5).setQ(6.5); line.getTerminal2().setP(7.5); n.getShuntCompensator("SHB").getTerminal().setQ(8.5); n.getHvdcLine("HVSC").getConverterStation2().get().getTerminal().setP(3.5).setQ(4.5); t3.getLeg2().getTerminal().setQ(9.5);
  for (VoltageLevel& v : n.getVoltageLevels()) for (Bus& b : v.getBusView().getBuses()) b.setV(300.5).setAngle(-1.5);
}
// what versions older than min cannot express
struct Feature { const char* name; int min; bool refused; std::function<void(Network&)> set; std::function<void(Network&)> fallback; };
static const std::vector<Feature>& features() {
  static std::vector<Feature>* f = nullptr;
  if (f) return *f;
  f = new std::vector<Feature>;
  auto add = [](const char* n, int min, bool refused, std::function<void(Network&)> set, std::function<void(Network&)> fallback = nullptr) { f->push_back(Feature{n, min, refused, set, fallback}); };
#define N [](Network& n)
  add("fictitious load", 2, false, N { n.getLoad("LOADB").setFictitious(true); });
  add("fictitious substation, line", 2, false, N { n.getSubstation("S2").setFictitious(true); n.getLine("LINE").setFictitious(true); n.getVoltageLevel("VC").setFictitious(true); n.getHvdcLine("HVSC").setFictitious(true); n.getBusbarSection("BBS1").setFictitious(true); });
  add("fictitious shunt", 2, false, N { n.getShuntCompensator("SHB").setFictitious(true); });
  add("fictitious transformers", 2, false, N { n.getTwoWindingsTransformer("TWT").setFictitious(true); n.getThreeWindingsTransformer("T3").setFictitious(true); n.getLine("TIE").setFictitious(true); });
  add("aliases", 3, false, N { n.getLoad("LOADB").addAlias("al"); n.getSubstation("S").addAlias("as"); n.getShuntCompensator("SHB").addAlias("ash"); n.getThreeWindingsTransformer("T3").addAlias("at"); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().addAlias("ab"); n.getLine("TIE").addAlias("ati"); n.getHvdcLine("HVSC").addAlias("ah"); });
  add("alias types", 4, false, N { n.getLoad("LOADD").addAlias("ald", "typ"); n.getShuntCompensator("SHB").addAlias("ashd", "typs"); n.getDanglingLine("DL").addAlias("ad", "typd"); }, nullptr);
  add("network alias", 3, true, N { n.addAlias("an"); });
  add("network alias type", 4, true, N { n.addAlias("ant", "tt"); });
  add("line active limits 1", 5, true, N { n.getLine("LINE").newActivePowerLimits1().setPermanentLimit(21.0).add(); });
  add("line active limits 2", 5, true, N { n.getLine("LINE").newActivePowerLimits2().setPermanentLimit(22.0).add(); });
  add("line apparent limits 1", 5, true, N { n.getLine("LINE").newApparentPowerLimits1().setPermanentLimit(23.0).add(); });
  add("line apparent limits 2", 5, true, N { n.getLine("LINE").newApparentPowerLimits2().setPermanentLimit(24.0).add(); });
  add("tie active limits 1", 5, true, N { n.getLine("TIE").newActivePowerLimits1().setPermanentLimit(21.0).add(); });
  add("tie active limits 2", 5, true, N { n.getLine("TIE").newActivePowerLimits2().setPermanentLimit(22.0).add(); });
  add("tie apparent limits 1", 5, true, N { n.getLine("TIE").newApparentPowerLimits1().setPermanentLimit(23.0).add(); });
  add("tie apparent limits 2", 5, true, N { n.getLine("TIE").newApparentPowerLimits2().setPermanentLimit(24.0).add(); });
  add("TWT active limits 1", 5, true, N { n.getTwoWindingsTransformer("TWT").newActivePowerLimits1().setPermanentLimit(21.0).add(); });
  add("TWT active limits 2", 5, true, N { n.getTwoWindingsTransformer("TWT").newActivePowerLimits2().setPermanentLimit(22.0).add(); });
  add("TWT apparent limits 1", 5, true, N { n.getTwoWindingsTransformer("TWT").newApparentPowerLimits1().setPermanentLimit(23.0).add(); });
  add("TWT apparent limits 2", 5, true, N { n.getTwoWindingsTransformer("TWT").newApparentPowerLimits2().setPermanentLimit(24.0).add(); });
  add("T3 active limits", 5, true, N { n.getThreeWindingsTransformer("T3").getLeg1().newActivePowerLimits().setPermanentLimit(25.0).add(); n.getThreeWindingsTransformer("T3").getLeg3().newActivePowerLimits().setPermanentLimit(27.0).add(); });
  add("T3 apparent limits", 5, true, N { n.getThreeWindingsTransformer("T3").getLeg2().newApparentPowerLimits().setPermanentLimit(26.0).add(); });
  add("DL active limits", 5, true, N { n.getDanglingLine("DL").newActivePowerLimits().setPermanentLimit(28.0).add(); });
  add("DL apparent limits", 5, true, N { n.getDanglingLine("DL").newApparentPowerLimits().setPermanentLimit(29.0).add(); });
  add("shunt target V", 2, true, N { n.getShuntCompensator("SHB").setTargetV(230.0); });
  add("shunt deadband", 2, true, N { n.getShuntCompensator("SHB").setTargetDeadband(3.0); });
  add("shunt regulation", 2, true, N { n.getShuntCompensator("SHB").setTargetV(231.0).setTargetDeadband(4.0).setVoltageRegulatorOn(true); });
  add("shunt regulating terminal", 2, true, N { n.getShuntCompensator("SHB").setRegulatingTerminal(ref<Terminal>(n.getLine("LINE").getTerminal1())); });
  add("non linear shunt", 3, true, N { n.getVoltageLevel("VB").newShuntCompensator().setId("SHX").setBus("B2").setConnectableBus("B2").setSectionCount(2UL).newNonLinearModel().beginSection().setB(1.0).setG(2.0).endSection().beginSection().setB(3.0).setG(4.0).endSection().add().add(); },
    N { n.getVoltageLevel("VB").newShuntCompensator().setId("SHX").setBus("B2").setConnectableBus("B2").setSectionCount(1UL).newLinearModel().setBPerSection(3.0).setMaximumSectionCount(1UL).add().add(); });
  add("shunt conductance", 3, false, N { n.getShuntCompensator("SHB").getModel<ShuntCompensatorLinearModel>().setGPerSection(0.75); });
  add("dangling line generation", 3, true, N { auto& d = n.getVoltageLevel("VB").newDanglingLine().setId("DX").setBus("B1").setConnectableBus("B1").setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(5.0).setQ0(6.0).newGeneration().setMinP(0.0).setMaxP(10.0).setTargetP(4.0).setTargetQ(2.0).setTargetV(390.0).setVoltageRegulationOn(true).add().add(); d.getGeneration().get().newMinMaxReactiveLimits().setMinQ(-1.0).setMaxQ(1.0).add(); },
    N { n.getVoltageLevel("VB").newDanglingLine().setId("DX").setBus("B1").setConnectableBus("B1").setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(1.0).setQ0(4.0).add(); });
  add("T3 conductance 2", 1, true, N { n.getThreeWindingsTransformer("T3").getLeg2().setG(0.3); });
  add("T3 susceptance 2", 1, true, N { n.getThreeWindingsTransformer("T3").getLeg2().setB(0.4); });
  add("T3 conductance 3", 1, true, N { n.getThreeWindingsTransformer("T3").getLeg3().setG(0.5); });
  add("T3 susceptance 3", 1, true, N { n.getThreeWindingsTransformer("T3").getLeg3().setB(0.6); });
  add("T3 rated U0", 1, true, N { n.getVoltageLevel("VC").getSubstation().newThreeWindingsTransformer().setId("TX").setRatedU0(1.0).newLeg1().setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").setR(1.0).setX(2.0).setG(0.1).setB(0.2).setRatedU(225.0).add().newLeg2().setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").setR(3.0).setX(4.0).setG(0.0).setB(0.0).setRatedU(20.0).add().newLeg3().setVoltageLevel("VC").setConnectableBus("C1").setR(5.0).setX(6.0).setG(0.0).setB(0.0).setRatedU(20.0).add().add(); },
    N { n.getVoltageLevel("VC").getSubstation().newThreeWindingsTransformer().setId("TX").setRatedU0(225.0).newLeg1().setVoltageLevel("VB").setBus("B2").setConnectableBus("B2").setR(1.0).setX(2.0).setG(0.1).setB(0.2).setRatedU(225.0).add().newLeg2().setVoltageLevel("VC").setBus("C1").setConnectableBus("C1").setR(3.0).setX(4.0).setG(0.0).setB(0.0).setRatedU(20.0).add().newLeg3().setVoltageLevel("VC").setConnectableBus("C1").setR(5.0).setX(6.0).setG(0.0).setB(0.0).setRatedU(20.0).add().add(); });
  add("T3 rated S", 2, false, N { n.getThreeWindingsTransformer("T3").getLeg1().setRatedS(61.0); n.getThreeWindingsTransformer("T3").getLeg2().setRatedS(62.0); n.getThreeWindingsTransformer("T3").getLeg3().setRatedS(63.0); });
  add("TWT rated S", 2, false, N { n.getTwoWindingsTransformer("TWT").setRatedS(200.0); });
  add("T3 ratio tap changer 1", 1, true, N { n.getThreeWindingsTransformer("T3").getLeg1().newRatioTapChanger().setLowTapPosition(1L).setTapPosition(1L).setLoadTapChangingCapabilities(false).setTargetDeadband(1.0).setRegulating(false).beginStep().setRho(0.5).setR(1.0).setX(1.0).setG(1.0).setB(1.0).endStep().add(); });
  auto ptc = [](ThreeWindingsTransformer::Leg& l) { l.newPhaseTapChanger().setLowTapPosition(1L).setTapPosition(1L).setTargetDeadband(1.0).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP).setRegulating(false).beginStep().setAlpha(2.0).setRho(0.5).setR(1.0).setX(1.0).setG(1.0).setB(1.0).endStep().add(); };
  add("T3 phase tap changer 1", 1, true, [ptc](Network& n) { ptc(n.getThreeWindingsTransformer("T3").getLeg1()); });
  add("T3 phase tap changer 2", 1, true, [ptc](Network& n) { ptc(n.getThreeWindingsTransformer("T3").getLeg2()); });
  add("T3 phase tap changer 3", 1, true, [ptc](Network& n) { ptc(n.getThreeWindingsTransformer("T3").getLeg3()); });
  add("SVC regulating terminal", 1, true, N { n.getStaticVarCompensator("SVC").setRegulatingTerminal(ref<Terminal>(n.getLoad("LOADB").getTerminal())); });
  add("fictitious half line", 3, false, N { n.newTieLine().setId("TIX").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VD").setConnectableBus2("D2").setUcteXnodeCode("XN3").newHalfLine1().setId("HX1").setFictitious(true).setR(1.0).setX(2.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add().newHalfLine2().setId("HX2").setR(3.0).setX(4.0).setG1(0.5).setB1(0.6).setG2(0.7).setB2(0.8).add().add(); },
    N { n.newTieLine().setId("TIX").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VD").setConnectableBus2("D2").setUcteXnodeCode("XN3").newHalfLine1().setId("HX1").setR(1.0).setX(2.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add().newHalfLine2().setId("HX2").setR(3.0).setX(4.0).setG1(0.5).setB1(0.6).setG2(0.7).setB2(0.8).add().add(); });
  add("generator regulating terminal", 0, true, N { n.getGenerator("GENB").setRegulatingTerminal(ref<Terminal>(n.getLine("LINE").getTerminal2())); });
#undef N
  return *f;
}
static const char* const VERSIONS[] = {"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"};
static void version_(const std::set<int>& on, int v, bool log) {
  const auto& fs = features();
  Network n = mkNet("base"), e = mkNet("base"); base10(n); base10(e);
  bool refused = false;
  for (int i : on) {
    fs[i].set(n);
    if (v >= fs[i].min) fs[i].set(e);
    else { if (fs[i].fallback) fs[i].fallback(e); refused |= fs[i].refused; }
    __sx_api_note(fs[i].name);
  }
  if (v == 3) for (int i : on) { // untyped aliases in 1.3
    if (std::string(fs[i].name) == "alias types") { e.getLoad("LOADD").addAlias("ald"); e.getShuntCompensator("SHB").addAlias("ashd"); e.getDanglingLine("DL").addAlias("ad"); }
    if (std::string(fs[i].name) == "network alias type") { e.addAlias("ant"); refused = on.size() > 1 ? refused : false; }
  }
  if (v == 3) { refused = false; for (int i : on) refused |= fs[i].refused && fs[i].min > v && std::string(fs[i].name) != "network alias type"; }
  Desc before = describe(n);
  ExportOptions o; o.setVersion(VERSIONS[v]); o.setIidmVersionIncompatibilityBehavior(log ? Behavior::LOG_ERROR : Behavior::THROW_EXCEPTION);
  std::string x; bool threw = false;
  try { x = write(n, o); } catch (const PowsyblException&) { threw = true; }
  sameDesc(before, describe(n));
  sx_assert(threw == (refused && !log));
  if (threw) { sx_reach("refused"); return; }
  Network m = readX(x);
  sameDesc(describe(e), describe(m));
  consistent(m);
  sx_reach("written");
}
SX_HARNESS(versions) {
  int k = static_cast<int>(features().size()), v = sx_choose("version", 6); bool log = sx_bool("log");
  version_({static_cast<int>(sx_choose("feature", k))}, v, log);
}
SX_HARNESS(version_pairs) { // on both sides of the versions that matter (every version and behaviour: thorough)
  int k = static_cast<int>(features().size()); int a = sx_choose("feature", k - 1), b = a + 1 + static_cast<int>(sx_choose("second feature", k - 1 - a));
  int v; bool log = true;
  if (sx_thorough()) { v = sx_choose("version", 6); log = sx_bool("log"); }
  else { v = (sx_bool("first") ? features()[a].min : features()[b].min) - 1; if (v < 0) return; }
  version_({a, b}, v, log);
}
SX_HARNESS(version_sets) { // all features but one; each feature from an index on
  int k = static_cast<int>(features().size()), v = sx_choose("version", 6); bool log = sx_bool("log"), from = sx_bool("from"); int a = sx_choose("feature", k);
  std::set<int> on; for (int i = 0; i < k; ++i) if (from ? i >= a : i != a) on.insert(i);
  version_(on, v, log);
}
// --- topology levels -------------------------------------------------------------------------------------------------
static std::string bid(const stdcxx::Reference<Bus>& b) { return b ? b.get().getId() : "-"; }
SX_HARNESS(levels) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  static const char* SW[] = {"COUPLER", "B_LOADN", "D_LOADN", "B_SHN", "D_TWT", "B_VSC1", "SWB"};
  for (const char* s : SW) n.getSwitch(s).setOpen(sx_bool(s));
  if (sx_thorough()) { n.getSwitch("D_LOADN").setRetained(sx_bool("retained 1")); n.getSwitch("B_TWT").setRetained(sx_bool("retained 2")); n.getSwitch("D_VSC1").setRetained(sx_bool("retained 3")); }
  else { bool r = sx_bool("retained"); n.getSwitch("D_LOADN").setRetained(r); n.getSwitch("B_TWT").setRetained(r); }
  if (!sx_bool("isolated bus")) mkBSw(n.getVoltageLevel("VD"), "SWD", "D1", "D2");
  int k = 0;
  bool branchLevel = sx_bool("bus/branch"), bbs = sx_bool("regulating on a busbar section");
  for (VoltageLevel& v : n.getVoltageLevels()) { if (branchLevel) for (Bus& b : v.getBusView().getBuses()) { ++k; b.setV(300.0 + k).setAngle(-1.0 * k); } else for (Bus& b : v.getBusBreakerView().getBuses()) { ++k; b.setV(300.0 + k).setAngle(-1.0 * k); } }
  n.getVoltageLevel("VN").addAlias("vna"); n.getVoltageLevel("VN").setProperty("k", "v"); n.getGenerator("GENB").setRegulatingTerminal(ref<Terminal>(n.getLoad("LOADN").getTerminal()));
  if (bbs) n.getStaticVarCompensator("SVC").setRegulatingTerminal(ref<Terminal>(n.getBusbarSection("BBS1").getTerminal()));
  ExportOptions o; o.setTopologyLevel(branchLevel ? TopologyLevel::BUS_BRANCH : TopologyLevel::BUS_BREAKER);
  std::string x;
  try { x = write(n, o); } catch (const PowsyblException&) { sx_assert(bbs); sx_reach("refused"); return; }
  sx_assert(!bbs);
  bool noBus = false;
  for (Connectable& c : n.getConnectables()) if (c.getType() != ConnectableType::BUSBAR_SECTION) for (Terminal& t : c.getTerminals()) if (!(branchLevel ? t.getBusView().getConnectableBus() : t.getBusBreakerView().getConnectableBus())) noBus = true;
  if (noBus) __sx_api_known("equipment_without_a_calculated_bus_at_bus_branch_level");
  Network m = readX(x);
  DOpt op; op.topo = false; op.buses = false;
  sameDesc(describe(n, op), describe(m, op));
  consistent(m);
  sx_assert(m.getBusbarSectionCount() == 0);
  for (VoltageLevel& v : n.getVoltageLevels()) {
    VoltageLevel& w = m.getVoltageLevel(v.getId());
    sx_assert(w.getTopologyKind() == TopologyKind::BUS_BREAKER);
    std::set<std::string> want, got;
    auto add = [&](Bus& b) { want.insert(b.getId()); const auto& c = w.getBusBreakerView().getBus(b.getId()); sx_assert(c && same(c.get().getV(), b.getV()) && same(c.get().getAngle(), b.getAngle())); };
    if (branchLevel) for (Bus& b : v.getBusView().getBuses()) add(b); else for (Bus& b : v.getBusBreakerView().getBuses()) add(b);
    for (Bus& b : w.getBusBreakerView().getBuses()) got.insert(b.getId());
    sx_assert(want == got);
    std::set<std::string> sw, sx;
    if (!branchLevel) for (Switch& s : v.getBusBreakerView().getSwitches()) { sw.insert(s.getId());
      sx_assert(bid(v.getBusBreakerView().getBus1(s.getId())) == bid(w.getBusBreakerView().getBus1(s.getId())) && bid(v.getBusBreakerView().getBus2(s.getId())) == bid(w.getBusBreakerView().getBus2(s.getId())));
      sx_assert(w.getBusBreakerView().getSwitch(s.getId()).get().isOpen() == s.isOpen() && w.getBusBreakerView().getSwitch(s.getId()).get().isFictitious() == s.isFictitious()); }
    for (Switch& s : w.getSwitches()) sx.insert(s.getId());
    sx_assert(sw == sx);
  }
  for (Connectable& c : n.getConnectables()) {
    if (c.getType() == ConnectableType::BUSBAR_SECTION) continue;
    std::vector<Terminal*> ts; for (Terminal& t : dynamic_cast<Connectable&>(m.get<Identifiable>(c.getId())).getTerminals()) ts.push_back(&t);
    size_t i = 0;
    for (Terminal& t : c.getTerminals()) {
      Terminal& u = *ts.at(i++);
      if (branchLevel) sx_assert(bid(t.getBusView().getBus()) == bid(u.getBusBreakerView().getBus()) && bid(t.getBusView().getConnectableBus()) == bid(u.getBusBreakerView().getConnectableBus()));
      else sx_assert(bid(t.getBusBreakerView().getBus()) == bid(u.getBusBreakerView().getBus()) && bid(t.getBusBreakerView().getConnectableBus()) == bid(u.getBusBreakerView().getConnectableBus()));
    }
  }
  sx_reach(branchLevel ? "bus branch" : "written");
}
SX_HARNESS(branch_sv) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n); int i = 0;
  for (Connectable& c : n.getConnectables()) { if (c.getType() == ConnectableType::BUSBAR_SECTION) continue; for (Terminal& x : c.getTerminals()) { ++i; x.setQ(200.0 + i); if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) x.setP(100.0 + i); } }
  ExportOptions o; bool sv = sx_bool("branch sv"); o.setWithBranchSV(sv); o.setIndent(sx_bool("indent")); o.setVersion(VERSIONS[5 - sx_choose("old", 2)]); o.setIidmVersionIncompatibilityBehavior(Behavior::LOG_ERROR);
  bool old = o.getVersion() == "1.4";
  Network m = readX(write(n, o));
  DOpt op; op.branchPQ = sv;
  sameDesc(describe(n, op), describe(m, op), [&](const std::string& k) { return old && (k.find(".al") != std::string::npos || k.find(".sl") != std::string::npos || k.find("leg3.al") != std::string::npos); });
  for (Branch& b : m.getBranches()) if (!sv) for (Terminal& t : b.getTerminals()) sx_assert(isnan_(t.getP()) && isnan_(t.getQ()));
  for (ThreeWindingsTransformer& b : m.getThreeWindingsTransformers()) if (!sv) for (Terminal& t : b.getTerminals()) sx_assert(isnan_(t.getP()) && isnan_(t.getQ()));
  consistent(m); sx_reach("written");
}
