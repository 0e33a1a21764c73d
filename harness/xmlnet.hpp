#pragma once
#include "describe.hpp"
// the extra features buildFull does not have
static void extend(Network& n) {
  buildFull(n);
  n.addAlias("netalias", "t0"); n.setProperty("np", "nv"); n.setForecastDistance(7);
  n.getSubstation("S1").setProperty("a", "1"); n.getSubstation("S1").addAlias("subalias");
  n.getLoad("LOADB").addAlias("la", "typ"); n.getLoad("LOADB").setProperty("k", "v"); n.getShuntCompensator("SHB").addAlias("sa", "st"); n.getShuntCompensator("SHB").addAlias("sb"); n.getShuntCompensator("SHB").setProperty("sk", "sv");
  n.getTwoWindingsTransformer("TWT").addAlias("ta"); n.getThreeWindingsTransformer("T3").addAlias("t3a", "q"); n.getHvdcLine("HVSC").addAlias("ha"); n.getHvdcLine("HVSC").setProperty("hk", "hv");
  n.getVoltageLevel("VB").addAlias("va"); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().addAlias("ba"); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().setProperty("bk", "bv"); n.getSwitch("COUPLER").addAlias("swa"); n.getSwitch("SWB").setProperty("swk", "swv"); n.getLine("TIE").addAlias("tia"); n.getLine("LINE").setProperty("lk", "lv");
  n.getBusbarSection("BBS1").setProperty("bbk", "bbv"); n.getDanglingLine("DL").addAlias("dla"); n.getBattery("BATN").setProperty("btk", "btv"); n.getVscConverterStation("VSC1").addAlias("vsca"); n.getLccConverterStation("LCC1").setProperty("lck", "lcv"); n.getStaticVarCompensator("SVC").addAlias("svca"); n.getGenerator("GENB").setProperty("gk", "gv");
  n.getGenerator("GENB").setRegulatingTerminal(ref<Terminal>(n.getLine("LINE").getTerminal2())); n.getStaticVarCompensator("SVC").setRegulatingTerminal(ref<Terminal>(n.getThreeWindingsTransformer("T3").getLeg3().getTerminal()));
  n.getShuntCompensator("SHN").setRegulatingTerminal(ref<Terminal>(n.getBusbarSection("BBS1").getTerminal()));
  DanglingLine& dl = n.getDanglingLine("DL"); dl.newActivePowerLimits().setPermanentLimit(12.0).add(); dl.newApparentPowerLimits().setPermanentLimit(13.0).beginTemporaryLimit().setName("x").setAcceptableDuration(1UL).setValue(15.0).endTemporaryLimit().add();
  dl.getGeneration().get().newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-1.0).setMaxQ(1.0).endPoint().beginPoint().setP(1.0).setMinQ(-2.0).setMaxQ(2.0).endPoint().add();
  TwoWindingsTransformer& t = n.getTwoWindingsTransformer("TWT"); t.newCurrentLimits1().setPermanentLimit(1.5).add(); t.newCurrentLimits2().setPermanentLimit(2.5).add(); t.newActivePowerLimits1().setPermanentLimit(3.5).add(); t.newActivePowerLimits2().setPermanentLimit(4.5).add(); t.newApparentPowerLimits1().setPermanentLimit(5.5).add(); t.newApparentPowerLimits2().setPermanentLimit(6.5).add();
  for (Line& l : n.getLines()) { if (l.getId() == "LNN") continue; l.newActivePowerLimits1().setPermanentLimit(21.0).add(); l.newActivePowerLimits2().setPermanentLimit(22.0).add(); l.newApparentPowerLimits1().setPermanentLimit(23.0).add(); l.newCurrentLimits2().setPermanentLimit(24.0).add(); }
  ThreeWindingsTransformer& t3 = n.getThreeWindingsTransformer("T3"); int k = 0;
  for (auto* leg : {&t3.getLeg1(), &t3.getLeg2(), &t3.getLeg3()}) {
    ++k; leg->newActivePowerLimits().setPermanentLimit(31.0 + k).add(); leg->newApparentPowerLimits().setPermanentLimit(41.0 + k).add(); leg->newCurrentLimits().setPermanentLimit(51.0 + k).add(); leg->setRatedS(60.0 + k);
    leg->newPhaseTapChanger().setLowTapPosition(k).setTapPosition(k).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP).setRegulating(false).beginStep().setAlpha(1.0 * k).setRho(1.0).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().add();
    if (k != 2) leg->newRatioTapChanger().setLowTapPosition(-k).setTapPosition(-k).setLoadTapChangingCapabilities(false).setRegulating(false).beginStep().setRho(0.5 * k).setR(1.0).setX(1.0).setG(1.0).setB(1.0).endStep().add();
  }
  int i = 0;
  for (Connectable& c : n.getConnectables()) { if (c.getType() == ConnectableType::BUSBAR_SECTION) continue; for (Terminal& x : c.getTerminals()) { ++i; x.setQ(200.0 + i); if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) x.setP(100.0 + i); } }
  for (VoltageLevel& v : n.getVoltageLevels()) for (Bus& b : v.getBusView().getBuses()) { ++i; b.setV(300.0 + i).setAngle(-1.0 * i); }
}
