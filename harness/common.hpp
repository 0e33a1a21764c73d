// Shared builders and oracles. Everything here uses the public API of the library only.
#ifndef COMMON_HPP
#define COMMON_HPP
#include "sx.h"
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/Country.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/DanglingLineGeneration.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HalfLine.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/InternalConnection.hpp>
#include <powsybl/iidm/InternalConnectionAdder.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/LimitType.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerStep.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerStep.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/Terminal.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TopologyKind.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/ValidationException.hpp>
#include <powsybl/iidm/Variant.hpp>
#include <powsybl/iidm/VariantManager.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/stdcxx/DateTime.hpp>

using namespace powsybl;
using namespace powsybl::iidm;
using stdcxx::ref;
using stdcxx::cref;

static const double NaN = std::numeric_limits<double>::quiet_NaN();
static inline bool isnan_(double v) { return v != v; }
static inline bool same(double a, double b) { return a == b || (a != a && b != b); }
static inline bool finite_(double v) { return v - v == 0.0; }

// --- small builders -------------------------------------------------------------------------------------------------
static inline Network mkNet(const std::string& id = "net") {
    Network n(id, "test");
    n.setCaseDate(stdcxx::DateTime::parse("2021-01-01T00:00:00.000+00:00"));
    return n;
}
static inline Substation& mkSub(Network& n, const std::string& id) { return n.newSubstation().setId(id).setCountry(Country::FR).add(); }
static inline VoltageLevel& mkVl(Substation& s, const std::string& id, bool nb, double nominal = 400.0) {
    return s.newVoltageLevel().setId(id).setNominalV(nominal).setTopologyKind(nb ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER).add();
}
static inline Switch& mkSw(VoltageLevel& vl, const std::string& id, unsigned long a, unsigned long b, bool open = false, SwitchKind k = SwitchKind::BREAKER, bool retained = false) {
    return vl.getNodeBreakerView().newSwitch().setId(id).setKind(k).setOpen(open).setRetained(retained).setNode1(a).setNode2(b).add();
}
static inline void mkIc(VoltageLevel& vl, unsigned long a, unsigned long b) { vl.getNodeBreakerView().newInternalConnection().setNode1(a).setNode2(b).add(); }
static inline BusbarSection& mkBbs(VoltageLevel& vl, const std::string& id, unsigned long node) { return vl.getNodeBreakerView().newBusbarSection().setId(id).setNode(node).add(); }
static inline Bus& mkBus(VoltageLevel& vl, const std::string& id) { return vl.getBusBreakerView().newBus().setId(id).add(); }
static inline Switch& mkBSw(VoltageLevel& vl, const std::string& id, const std::string& a, const std::string& b, bool open = false) {
    return vl.getBusBreakerView().newSwitch().setId(id).setBus1(a).setBus2(b).setOpen(open).add();
}
static inline Load& mkLoadN(VoltageLevel& vl, const std::string& id, unsigned long node) { return vl.newLoad().setId(id).setNode(node).setP0(10.0).setQ0(5.0).add(); }
static inline Load& mkLoadB(VoltageLevel& vl, const std::string& id, const std::string& bus) { return vl.newLoad().setId(id).setBus(bus).setConnectableBus(bus).setP0(10.0).setQ0(5.0).add(); }
static inline Generator& mkGenB(VoltageLevel& vl, const std::string& id, const std::string& bus) {
    return vl.newGenerator().setId(id).setBus(bus).setConnectableBus(bus).setMinP(0.0).setMaxP(100.0).setTargetP(50.0).setTargetQ(10.0).setTargetV(400.0).setVoltageRegulatorOn(true).add();
}
static inline Line& mkLineB(Network& n, const std::string& id, const std::string& vl1, const std::string& b1, const std::string& vl2, const std::string& b2) {
    return n.newLine().setId(id).setVoltageLevel1(vl1).setBus1(b1).setConnectableBus1(b1).setVoltageLevel2(vl2).setBus2(b2).setConnectableBus2(b2)
        .setR(1.0).setX(10.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add();
}
static inline Line& mkLineN(Network& n, const std::string& id, const std::string& vl1, unsigned long n1, const std::string& vl2, unsigned long n2) {
    return n.newLine().setId(id).setVoltageLevel1(vl1).setNode1(n1).setVoltageLevel2(vl2).setNode2(n2).setR(1.0).setX(10.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add();
}
static inline TwoWindingsTransformer& mkTwtB(Substation& s, const std::string& id, const std::string& vl1, const std::string& b1, const std::string& vl2, const std::string& b2) {
    return s.newTwoWindingsTransformer().setId(id).setVoltageLevel1(vl1).setBus1(b1).setConnectableBus1(b1).setVoltageLevel2(vl2).setBus2(b2).setConnectableBus2(b2)
        .setR(1.0).setX(10.0).setG(0.01).setB(0.02).setRatedU1(400.0).setRatedU2(225.0).add();
}
static inline ThreeWindingsTransformer& mk3wtB(Substation& s, const std::string& id, const std::string& vl1, const std::string& b1, const std::string& vl2, const std::string& b2, const std::string& vl3, const std::string& b3) {
    return s.newThreeWindingsTransformer().setId(id).setRatedU0(400.0)
        .newLeg1().setVoltageLevel(vl1).setBus(b1).setConnectableBus(b1).setR(1.0).setX(2.0).setG(0.1).setB(0.2).setRatedU(400.0).add()
        .newLeg2().setVoltageLevel(vl2).setBus(b2).setConnectableBus(b2).setR(3.0).setX(4.0).setG(0.3).setB(0.4).setRatedU(225.0).add()
        .newLeg3().setVoltageLevel(vl3).setBus(b3).setConnectableBus(b3).setR(5.0).setX(6.0).setG(0.5).setB(0.6).setRatedU(20.0).add()
        .add();
}

// A network with every kind of equipment: node/breaker VN, bus/breaker VB, VC (substation S1), VD (substation S2)
static inline void buildFull(Network& n) {
    Substation& s1 = n.newSubstation().setId("S1").setName("sub 1").setCountry(Country::FR).setTso("RTE").addGeographicalTag("A").add();
    Substation& s2 = n.newSubstation().setId("S2").setCountry(Country::BE).add();
    VoltageLevel& vn = s1.newVoltageLevel().setId("VN").setNominalV(400.0).setLowVoltageLimit(380.0).setHighVoltageLimit(420.0).setTopologyKind(TopologyKind::NODE_BREAKER).add();
    VoltageLevel& vb = mkVl(s1, "VB", false, 225.0);
    VoltageLevel& vc = mkVl(s1, "VC", false, 20.0);
    VoltageLevel& vd = mkVl(s2, "VD", false, 400.0);
    mkBbs(vn, "BBS1", 0); mkBbs(vn, "BBS2", 1);
    mkSw(vn, "COUPLER", 0, 1, false, SwitchKind::BREAKER, true);
    auto feeder = [&](const std::string& id, unsigned long k, unsigned long bbs, bool open) {
        mkSw(vn, "D_" + id, bbs, k, false, SwitchKind::DISCONNECTOR); mkSw(vn, "B_" + id, k, k + 1, open, SwitchKind::BREAKER);
    };
    feeder("LOADN", 2, 0, false); feeder("GENN", 4, 0, false); feeder("SHN", 6, 1, true); feeder("TWT", 8, 1, false); feeder("DL", 10, 1, false); feeder("VSC1", 12, 0, false);
    mkIc(vn, 1, 14); mkIc(vn, 0, 15);
    vn.newLoad().setId("LOADN").setNode(3).setLoadType(LoadType::AUXILIARY).setP0(11.0).setQ0(12.0).add();
    Generator& gn = vn.newGenerator().setId("GENN").setNode(5).setEnergySource(EnergySource::HYDRO).setMinP(-10.0).setMaxP(100.0).setTargetP(40.0).setTargetQ(30.0).setTargetV(401.0).setRatedS(120.0).setVoltageRegulatorOn(true).add();
    gn.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-10.0).setMaxQ(10.0).endPoint().beginPoint().setP(50.0).setMinQ(-5.0).setMaxQ(5.0).endPoint().beginPoint().setP(100.0).setMinQ(-2.0).setMaxQ(3.0).endPoint().add();
    vn.newShuntCompensator().setId("SHN").setNode(7).setSectionCount(1UL).setVoltageRegulatorOn(true).setTargetV(400.0).setTargetDeadband(5.0)
        .newNonLinearModel().beginSection().setB(1.0).setG(2.0).endSection().beginSection().setB(3.0).setG(4.0).endSection().add().add();
    DanglingLine& dl = vn.newDanglingLine().setId("DL").setNode(11).setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(5.0).setQ0(6.0).setUcteXnodeCode("XN1")
        .newGeneration().setMinP(0.0).setMaxP(10.0).setTargetP(4.0).setTargetQ(2.0).setTargetV(390.0).setVoltageRegulationOn(true).add().add();
    dl.newCurrentLimits().setPermanentLimit(100.0).beginTemporaryLimit().setName("20'").setAcceptableDuration(1200UL).setValue(120.0).endTemporaryLimit().add();
    vn.newBattery().setId("BATN").setNode(14).setP0(1.0).setQ0(2.0).setMinP(-5.0).setMaxP(5.0).add();
    vn.newVscConverterStation().setId("VSC1").setNode(13).setLossFactor(1.1).setReactivePowerSetpoint(123.0).setVoltageRegulatorOn(false).add()
        .newMinMaxReactiveLimits().setMinQ(-7.0).setMaxQ(8.0).add();
    mkBus(vb, "B1"); mkBus(vb, "B2"); mkBSw(vb, "SWB", "B1", "B2");
    mkBus(vc, "C1"); mkBus(vd, "D1"); mkBus(vd, "D2");
    mkLoadB(vb, "LOADB", "B1"); mkGenB(vb, "GENB", "B2"); mkLoadB(vc, "LOADC", "C1"); mkLoadB(vd, "LOADD", "D1"); mkGenB(vd, "GEND", "D1");
    vb.newShuntCompensator().setId("SHB").setBus("B1").setConnectableBus("B1").setSectionCount(2UL).newLinearModel().setBPerSection(0.5).setGPerSection(0.25).setMaximumSectionCount(4UL).add().add();
    vb.newStaticVarCompensator().setId("SVC").setBus("B2").setConnectableBus("B2").setBmin(-0.5).setBmax(0.5).setVoltageSetpoint(230.0).setReactivePowerSetpoint(10.0).setRegulationMode(StaticVarCompensator::RegulationMode::VOLTAGE).add();
    vd.newVscConverterStation().setId("VSC2").setBus("D1").setConnectableBus("D1").setLossFactor(1.2).setVoltageSetpoint(405.0).setVoltageRegulatorOn(true).add();
    vb.newLccConverterStation().setId("LCC1").setBus("B1").setConnectableBus("B1").setLossFactor(1.3).setPowerFactor(0.5).add();
    vd.newLccConverterStation().setId("LCC2").setConnectableBus("D2").setLossFactor(1.4).setPowerFactor(-0.5).add();
    n.newHvdcLine().setId("HVSC").setR(1.0).setMaxP(300.0).setActivePowerSetpoint(280.0).setNominalV(320.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1("VSC1").setConverterStationId2("VSC2").add();
    n.newHvdcLine().setId("HLCC").setR(2.0).setMaxP(200.0).setActivePowerSetpoint(80.0).setNominalV(300.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_RECTIFIER_SIDE_2_INVERTER).setConverterStationId1("LCC1").setConverterStationId2("LCC2").add();
    TwoWindingsTransformer& twt = s1.newTwoWindingsTransformer().setId("TWT").setVoltageLevel1("VN").setNode1(9).setVoltageLevel2("VB").setBus2("B1").setConnectableBus2("B1").setR(1.0).setX(10.0).setG(0.01).setB(0.02).setRatedU1(400.0).setRatedU2(225.0).setRatedS(200.0).add();
    twt.newRatioTapChanger().setLowTapPosition(-1L).setTapPosition(0L).setLoadTapChangingCapabilities(true).setRegulating(true).setTargetV(225.0).setTargetDeadband(2.0).setRegulationTerminal(ref<Terminal>(twt.getTerminal2()))
        .beginStep().setRho(0.9).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().beginStep().setRho(1.0).setR(0.0).setX(0.0).setG(0.0).setB(0.0).endStep().beginStep().setRho(1.1).setR(-1.0).setX(-2.0).setG(-3.0).setB(-4.0).endStep().add();
    twt.newPhaseTapChanger().setLowTapPosition(2L).setTapPosition(3L).setRegulationMode(PhaseTapChanger::RegulationMode::CURRENT_LIMITER).setRegulationValue(150.0).setTargetDeadband(1.0).setRegulating(false).setRegulationTerminal(ref<Terminal>(twt.getTerminal1()))
        .beginStep().setAlpha(-10.0).setRho(0.8).setR(1.5).setX(2.5).setG(3.5).setB(4.5).endStep().beginStep().setAlpha(10.0).setRho(1.2).setR(5.0).setX(6.0).setG(7.0).setB(8.0).endStep().add();
    ThreeWindingsTransformer& t3 = mk3wtB(s1, "T3", "VB", "B2", "VC", "C1", "VC", "C1");
    t3.getLeg2().newRatioTapChanger().setLowTapPosition(0L).setTapPosition(1L).setLoadTapChangingCapabilities(true).setRegulating(false).setTargetV(20.0).setTargetDeadband(1.0).setRegulationTerminal(ref<Terminal>(t3.getLeg2().getTerminal()))
        .beginStep().setRho(0.95).setR(1.0).setX(1.0).setG(1.0).setB(1.0).endStep().beginStep().setRho(1.05).setR(2.0).setX(2.0).setG(2.0).setB(2.0).endStep().add();
    t3.getLeg1().newCurrentLimits().setPermanentLimit(500.0).add();
    t3.getLeg3().newActivePowerLimits().setPermanentLimit(60.0).beginTemporaryLimit().setName("T").setAcceptableDuration(60UL).setValue(70.0).setFictitious(true).endTemporaryLimit().add();
    Line& line = mkLineB(n, "LINE", "VB", "B2", "VD", "D1");
    line.newCurrentLimits1().setPermanentLimit(50.0).beginTemporaryLimit().setName("20'").setAcceptableDuration(1200UL).setValue(60.0).endTemporaryLimit().beginTemporaryLimit().setName("N/A").setAcceptableDuration(60UL).setValue(1e3).setFictitious(true).endTemporaryLimit().add();
    line.newApparentPowerLimits2().setPermanentLimit(44.0).add();
    n.newTieLine().setId("TIE").setVoltageLevel1("VB").setBus1("B1").setConnectableBus1("B1").setVoltageLevel2("VD").setConnectableBus2("D2").setUcteXnodeCode("XN2")
        .newHalfLine1().setId("H1").setR(1.0).setX(2.0).setG1(0.1).setB1(0.2).setG2(0.3).setB2(0.4).add()
        .newHalfLine2().setId("H2").setR(3.0).setX(4.0).setG1(0.5).setB1(0.6).setG2(0.7).setB2(0.8).add().add();
    mkLineN(n, "LNN", "VN", 15, "VN", 16);
}
static inline Network fullNetwork() { Network n = mkNet("full"); buildFull(n); return n; }
// the same equipment in another situation: what regulates does not and the other way round, a part is disconnected, variants have come and gone and the network has been moved
static inline void unsettle(Network& n) {
    n.getTwoWindingsTransformer("TWT").getRatioTapChanger().setRegulating(false);
    auto& vm = n.getVariantManager(); vm.cloneVariant(VariantManager::getInitialVariantId(), "GONE"); vm.cloneVariant(VariantManager::getInitialVariantId(), "LEFT"); vm.removeVariant("GONE");
    n.getGenerator("GENN").setVoltageRegulatorOn(false); n.getGenerator("GENB").setVoltageRegulatorOn(false);
    n.getStaticVarCompensator("SVC").setRegulationMode(StaticVarCompensator::RegulationMode::OFF);
    n.getShuntCompensator("SHN").setVoltageRegulatorOn(false); n.getShuntCompensator("SHB").setTargetV(225.0).setTargetDeadband(1.0).setVoltageRegulatorOn(true);
    n.getVscConverterStation("VSC1").setVoltageSetpoint(400.0); n.getVscConverterStation("VSC1").setVoltageRegulatorOn(true);
    n.getVscConverterStation("VSC2").setReactivePowerSetpoint(3.0); n.getVscConverterStation("VSC2").setVoltageRegulatorOn(false);
    n.getDanglingLine("DL").getGeneration().get().setVoltageRegulationOn(false);
    n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger().setTapPosition(0);
    n.getLoad("LOADB").getTerminal().disconnect(); n.getGenerator("GEND").getTerminal().disconnect(); n.getLine("LINE").getTerminal2().disconnect(); n.getThreeWindingsTransformer("T3").getLeg3().getTerminal().disconnect(); n.getLine("TIE").getTerminal2().connect();
    n.getSwitch("B_LOADN").setOpen(true); n.getSwitch("SWB").setOpen(true);
    n.getLoad("LOADC").getTerminal().setP(1.5).setQ(-2.5); n.getLine("LINE").getTerminal1().setP(7.0).setQ(8.0);
}
static inline Network anyNetwork() { Network n = fullNetwork(); if (!sx_choose("situation", 2)) return n; unsettle(n); Network m(std::move(n)); return m; }

// --- observations ---------------------------------------------------------------------------------------------------
// everything the network exports, as one string (used to show that a refused operation changed nothing)
static inline std::string dump(const Network& n) { std::ostringstream os; Network::writeXml("x.xml", os, n); return os.str(); }

// every id in the index resolves to an object with that id and every object enumerated by kind is in the index
static inline std::set<std::string> idsOf(const Network& n) { std::set<std::string> r; for (const Identifiable& i : n.getIdentifiables()) { r.insert(i.getId()); } return r; }

// the enumerations, counters, lookups and links of a network agree with each other
template <typename R> static inline std::vector<std::string> idv(const R& r) { std::vector<std::string> v; for (const auto& i : r) v.push_back(i.getId()); return v; }
static inline std::set<std::string> setOf(const std::vector<std::string>& v) { return std::set<std::string>(v.begin(), v.end()); }
static inline void consistent(Network& n) {
    std::set<std::string> all = idsOf(n), seen;
    for (Identifiable& i : n.getIdentifiables()) {
        sx_assert(n.find(i.getId()) && &n.get<Identifiable>(i.getId()) == &i && &i.getNetwork() == &n);
        for (const std::string& a : i.getAliases()) sx_assert(n.find(a) && &n.find(a).get() == &i);
    }
#define KIND(RANGE, COUNT) { auto v = idv(n.RANGE()); sx_assert(v.size() == n.COUNT() && setOf(v).size() == v.size()); for (auto& i : v) { sx_assert(all.count(i)); sx_assert(seen.insert(i).second); } }
    KIND(getSubstations, getSubstationCount) KIND(getVoltageLevels, getVoltageLevelCount) KIND(getLines, getLineCount) KIND(getTwoWindingsTransformers, getTwoWindingsTransformerCount)
    KIND(getThreeWindingsTransformers, getThreeWindingsTransformerCount) KIND(getLoads, getLoadCount) KIND(getGenerators, getGeneratorCount) KIND(getBatteries, getBatteryCount)
    KIND(getShuntCompensators, getShuntCompensatorCount) KIND(getStaticVarCompensators, getStaticVarCompensatorCount) KIND(getDanglingLines, getDanglingLineCount)
    KIND(getBusbarSections, getBusbarSectionCount) KIND(getHvdcLines, getHvdcLineCount) KIND(getVscConverterStations, getVscConverterStationCount) KIND(getLccConverterStations, getLccConverterStationCount) KIND(getSwitches, getSwitchCount)
#undef KIND
    sx_assert(n.getHvdcConverterStationCount() == n.getVscConverterStationCount() + n.getLccConverterStationCount() && setOf(idv(n.getHvdcConverterStations())).size() == n.getHvdcConverterStationCount());
    sx_assert(n.getBranchCount() == n.getLineCount() + n.getTwoWindingsTransformerCount() && setOf(idv(n.getBranches())).size() == n.getBranchCount());
    std::set<std::string> conn = setOf(idv(n.getConnectables())), vlconn, vls, sw, twt, t3;
    sx_assert(conn.size() == n.getConnectableCount());
    for (Substation& s : n.getSubstations()) {
        for (VoltageLevel& vl : s.getVoltageLevels()) { sx_assert(&vl.getSubstation() == &s && vls.insert(vl.getId()).second); }
        for (const auto& i : idv(s.getTwoWindingsTransformers())) sx_assert(twt.insert(i).second);
        for (const auto& i : idv(s.getThreeWindingsTransformers())) sx_assert(t3.insert(i).second);
        sx_assert(idv(s.getTwoWindingsTransformers()).size() == s.getTwoWindingsTransformerCount() && idv(s.getThreeWindingsTransformers()).size() == s.getThreeWindingsTransformerCount());
    }
    sx_assert(vls.size() == n.getVoltageLevelCount() && twt.size() == n.getTwoWindingsTransformerCount() && t3.size() == n.getThreeWindingsTransformerCount());
    std::map<Terminal*, int> attached;
    for (VoltageLevel& vl : n.getVoltageLevels()) {
        auto v = idv(vl.getConnectables());
        sx_assert(v.size() == vl.getConnectableCount() && setOf(v).size() == v.size());
        vlconn.insert(v.begin(), v.end());
        sx_assert(idv(vl.getLoads()).size() == vl.getLoadCount() && idv(vl.getGenerators()).size() == vl.getGeneratorCount() && idv(vl.getBatteries()).size() == vl.getBatteryCount() && idv(vl.getDanglingLines()).size() == vl.getDanglingLineCount() && idv(vl.getShuntCompensators()).size() == vl.getShuntCompensatorCount());
        for (Switch& x : vl.getSwitches()) { sx_assert(&x.getVoltageLevel() == &vl && sw.insert(x.getId()).second); }
        if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) {
            for (Bus& b : vl.getBusBreakerView().getBuses()) { sx_assert(&b.getVoltageLevel() == &vl && seen.insert(b.getId()).second && &vl.getBusBreakerView().getBus(b.getId()).get() == &b); }
            for (Switch& x : vl.getBusBreakerView().getSwitches()) sx_assert(vl.getBusBreakerView().getBus1(x.getId()) && vl.getBusBreakerView().getBus2(x.getId()));
        } else {
            for (unsigned long k : vl.getNodeBreakerView().getNodes()) if (vl.getNodeBreakerView().hasAttachedEquipment(k)) if (vl.getNodeBreakerView().getTerminal(k)) { Terminal& t = vl.getNodeBreakerView().getTerminal(k).get(); attached[&t]++; sx_assert(t.getNodeBreakerView().getNode() == k); }
            for (Switch& x : vl.getNodeBreakerView().getSwitches()) { sx_assert(vl.getNodeBreakerView().hasAttachedEquipment(vl.getNodeBreakerView().getNode1(x.getId())) && vl.getNodeBreakerView().hasAttachedEquipment(vl.getNodeBreakerView().getNode2(x.getId()))); }
            sx_assert(idv(vl.getNodeBreakerView().getBusbarSections()).size() == vl.getNodeBreakerView().getBusbarSectionCount());
        }
    }
    sx_assert(vlconn == conn && sw.size() == n.getSwitchCount());
    unsigned long nodes = 0;
    for (Connectable& c : n.getConnectables()) {
        for (Terminal& t : c.getTerminals()) {
            sx_assert(&t.getConnectable().get() == &c && all.count(t.getVoltageLevel().getId()));
            if (t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) { ++nodes; sx_assert(attached[&t] == 1); }
            else sx_assert(t.getBusBreakerView().getConnectableBus() && all.count(t.getBusBreakerView().getConnectableBus().get().getId()));
        }
    }
    sx_assert(nodes == attached.size());
    for (HvdcLine& h : n.getHvdcLines()) { sx_assert(&h.getConverterStation1().get().getHvdcLine().get() == &h && &h.getConverterStation2().get().getHvdcLine().get() == &h && conn.count(h.getConverterStation1().get().getId()) && conn.count(h.getConverterStation2().get().getId())); }
    for (HvdcConverterStation& h : n.getHvdcConverterStations()) if (h.getHvdcLine()) sx_assert(all.count(h.getHvdcLine().get().getId()));
    seen.insert(n.getId());
    sx_assert(seen == all);
}

template <typename F> static inline bool throws(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template <typename E, typename F> static inline bool throwsE(F&& f) { try { f(); return false; } catch (const E&) { return true; } }

// union-find
struct UF { std::vector<int> p; explicit UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int find(int i) { while (p[i] != i) i = p[i]; return i; } void uni(int a, int b) { a = find(a); b = find(b); if (a < b) p[b] = a; else if (b < a) p[a] = b; } };
#endif
