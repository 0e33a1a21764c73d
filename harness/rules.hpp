// The rules of the classes, asserted on every object of a network.
#ifndef RULES_HPP
#define RULES_HPP
#include "common.hpp"
static inline void rule_(bool ok, const Identifiable& o, const char* what) { if (!ok) __sx_api_fail(("rule broken: " + o.getId() + ": " + what).c_str()); }
static inline bool isnum(double x) { return x == x; }
template <typename H> static inline void rReactive(const H& h, const Identifiable& o) {
  if (h.template getReactiveLimits<ReactiveLimits>().getKind() == ReactiveLimitsKind::MIN_MAX) { const auto& m = h.template getReactiveLimits<MinMaxReactiveLimits>(); rule_(!(m.getMinQ() > m.getMaxQ()), o, "minQ <= maxQ"); }
  else rule_(h.template getReactiveLimits<ReactiveCapabilityCurve>().getPointCount() >= 2, o, "two points");
}
template <typename L> static inline void rLimits(const L& l, const Identifiable& o) {
  if (!l) return;
  rule_(!(l.get().getPermanentLimit() <= 0), o, "permanent limit > 0");
  std::set<std::string> names;
  for (const auto& t : l.get().getTemporaryLimits()) { rule_(t.getValue() > 0, o, "temporary limit > 0"); rule_(names.insert(t.getName()).second, o, "unique limit names"); }
}
template <typename C> static inline unsigned long rTap(const C& c, const Identifiable& o) {
  rule_(c.getStepCount() > 0, o, "a step"); rule_(c.getTapPosition() >= c.getLowTapPosition() && c.getTapPosition() <= c.getHighTapPosition(), o, "tap position in range");
  rule_(c.getHighTapPosition() - c.getLowTapPosition() + 1 == static_cast<long>(c.getStepCount()), o, "tap range");
  rule_(!(c.getTargetDeadband() < 0), o, "deadband >= 0"); rule_(!c.isRegulating() || isnum(c.getTargetDeadband()), o, "deadband set");
  return c.isRegulating() ? 1 : 0;
}
static inline unsigned long rRtc(const RatioTapChanger& c, const Identifiable& o) {
  if (c.isRegulating() && c.hasLoadTapChangingCapabilities()) { rule_(c.getTargetV() > 0, o, "regulating: targetV > 0"); rule_(static_cast<bool>(c.getRegulationTerminal()), o, "regulating: terminal"); }
  return rTap(c, o);
}
static inline unsigned long rPtc(const PhaseTapChanger& c, const Identifiable& o) {
  if (c.isRegulating()) { rule_(c.getRegulationMode() != PhaseTapChanger::RegulationMode::FIXED_TAP, o, "regulating: mode"); rule_(isnum(c.getRegulationValue()), o, "regulating: value"); rule_(static_cast<bool>(c.getRegulationTerminal()), o, "regulating: terminal"); }
  return rTap(c, o);
}
static inline void rules(const Network& n) {
  rule_(n.getForecastDistance() >= 0, n, "forecast distance >= 0");
  for (const VoltageLevel& v : n.getVoltageLevels()) {
    rule_(v.getNominalV() > 0, v, "nominal V > 0"); rule_(!(v.getLowVoltageLimit() < 0) && !(v.getHighVoltageLimit() < 0) && !(v.getLowVoltageLimit() > v.getHighVoltageLimit()), v, "voltage limits");
    for (const Bus& b : v.getBusBreakerView().getBuses()) rule_(!(b.getV() < 0), b, "V >= 0");
    for (const Bus& b : v.getBusView().getBuses()) rule_(!(b.getV() < 0), b, "V >= 0");
  }
  for (const Load& o : n.getLoads()) rule_(isnum(o.getP0()) && isnum(o.getQ0()), o, "p0, q0");
  for (const Battery& o : n.getBatteries()) { rule_(isnum(o.getP0()) && isnum(o.getQ0()), o, "p0, q0"); rule_(o.getMinP() <= o.getMaxP(), o, "minP <= maxP"); rReactive(o, o); }
  for (const Generator& o : n.getGenerators()) {
    rule_(isnum(o.getTargetP()), o, "targetP"); rule_(o.getMinP() <= o.getMaxP(), o, "minP <= maxP"); rule_(!(o.getRatedS() <= 0), o, "ratedS"); rReactive(o, o);
    rule_(o.isVoltageRegulatorOn() ? o.getTargetV() > 0 : isnum(o.getTargetQ()), o, "voltage control");
    rule_(stdcxx::areSame(o.getRegulatingTerminal().getVoltageLevel().getNetwork(), n), o, "regulating terminal");
  }
  for (const ShuntCompensator& o : n.getShuntCompensators()) {
    rule_(o.getMaximumSectionCount() > 0 && o.getSectionCount() <= o.getMaximumSectionCount(), o, "sections"); rule_(!(o.getTargetDeadband() < 0), o, "deadband >= 0");
    rule_(!o.isVoltageRegulatorOn() || (o.getTargetV() > 0 && isnum(o.getTargetDeadband())), o, "voltage control");
    if (o.getModelType() == ShuntCompensatorModelType::LINEAR) rule_(isnum(o.getModel<ShuntCompensatorLinearModel>().getBPerSection()), o, "b per section");
    else for (const auto& s : o.getModel<ShuntCompensatorNonLinearModel>().getAllSections()) rule_(isnum(s.getB()), o, "b of a section");
    rule_(stdcxx::areSame(o.getRegulatingTerminal().getVoltageLevel().getNetwork(), n), o, "regulating terminal");
  }
  for (const StaticVarCompensator& o : n.getStaticVarCompensators()) {
    rule_(isnum(o.getBmin()) && isnum(o.getBmax()), o, "bMin, bMax");
    if (o.getRegulationMode() == StaticVarCompensator::RegulationMode::VOLTAGE) rule_(isnum(o.getVoltageSetpoint()), o, "voltage setpoint");
    if (o.getRegulationMode() == StaticVarCompensator::RegulationMode::REACTIVE_POWER) rule_(isnum(o.getReactivePowerSetpoint()), o, "reactive power setpoint");
    rule_(stdcxx::areSame(o.getRegulatingTerminal().getVoltageLevel().getNetwork(), n), o, "regulating terminal");
  }
  for (const VscConverterStation& o : n.getVscConverterStations()) { rule_(o.getLossFactor() >= 0 && o.getLossFactor() <= 100, o, "loss factor"); rule_(o.isVoltageRegulatorOn() ? o.getVoltageSetpoint() > 0 : isnum(o.getReactivePowerSetpoint()), o, "voltage control"); rReactive(o, o); }
  for (const LccConverterStation& o : n.getLccConverterStations()) { rule_(o.getLossFactor() >= 0 && o.getLossFactor() <= 100, o, "loss factor"); rule_(o.getPowerFactor() >= -1 && o.getPowerFactor() <= 1, o, "power factor"); }
  for (const HvdcLine& o : n.getHvdcLines()) { rule_(o.getMaxP() >= 0 && o.getActivePowerSetpoint() >= 0 && isnum(o.getR()) && o.getNominalV() > 0, o, "hvdc line"); rule_(o.getConverterStation1() && o.getConverterStation2(), o, "stations"); }
  for (const DanglingLine& o : n.getDanglingLines()) {
    rule_(isnum(o.getP0()) && isnum(o.getQ0()) && isnum(o.getR()) && isnum(o.getX()) && isnum(o.getG()) && isnum(o.getB()), o, "characteristics");
    if (o.getGeneration()) { const auto& g = o.getGeneration().get(); rule_(isnum(g.getTargetP()) && !(g.getMinP() > g.getMaxP()), o, "generation"); rule_(g.isVoltageRegulationOn() ? g.getTargetV() > 0 : isnum(g.getTargetQ()), o, "voltage control"); rReactive(g, o); }
    rLimits(o.getCurrentLimits(), o); rLimits(o.getActivePowerLimits(), o); rLimits(o.getApparentPowerLimits(), o);
  }
  for (const Line& o : n.getLines()) {
    if (const TieLine* t = dynamic_cast<const TieLine*>(&o)) for (int h = 0; h < 2; ++h) { const auto& l = h ? t->getHalf2() : t->getHalf1(); rule_(isnum(l.getR()) && isnum(l.getX()) && isnum(l.getG1()) && isnum(l.getB1()) && isnum(l.getG2()) && isnum(l.getB2()), o, "characteristics of a half"); }
    else rule_(isnum(o.getR()) && isnum(o.getX()) && isnum(o.getG1()) && isnum(o.getB1()) && isnum(o.getG2()) && isnum(o.getB2()), o, "characteristics");
    rLimits(o.getCurrentLimits1(), o); rLimits(o.getActivePowerLimits1(), o); rLimits(o.getApparentPowerLimits1(), o); rLimits(o.getCurrentLimits2(), o); rLimits(o.getActivePowerLimits2(), o); rLimits(o.getApparentPowerLimits2(), o);
  }
  for (const TwoWindingsTransformer& o : n.getTwoWindingsTransformers()) {
    rule_(isnum(o.getR()) && isnum(o.getX()) && isnum(o.getG()) && isnum(o.getB()) && isnum(o.getRatedU1()) && isnum(o.getRatedU2()) && !(o.getRatedS() <= 0), o, "characteristics");
    unsigned long k = 0; if (o.hasRatioTapChanger()) k += rRtc(o.getRatioTapChanger(), o); if (o.hasPhaseTapChanger()) k += rPtc(o.getPhaseTapChanger(), o);
    rule_(k <= 1, o, "one regulating tap changer");
    rLimits(o.getCurrentLimits1(), o); rLimits(o.getActivePowerLimits1(), o); rLimits(o.getApparentPowerLimits1(), o); rLimits(o.getCurrentLimits2(), o); rLimits(o.getActivePowerLimits2(), o); rLimits(o.getApparentPowerLimits2(), o);
  }
  for (const ThreeWindingsTransformer& o : n.getThreeWindingsTransformers()) {
    unsigned long k = 0; rule_(isnum(o.getRatedU0()), o, "rated u0");
    for (const ThreeWindingsTransformer::Leg& l : o.getLegs()) {
      rule_(isnum(l.getR()) && isnum(l.getX()) && isnum(l.getG()) && isnum(l.getB()) && isnum(l.getRatedU()) && !(l.getRatedS() <= 0), o, "leg");
      if (l.hasRatioTapChanger()) k += rRtc(l.getRatioTapChanger(), o); if (l.hasPhaseTapChanger()) k += rPtc(l.getPhaseTapChanger(), o);
      rLimits(l.getCurrentLimits(), o); rLimits(l.getActivePowerLimits(), o); rLimits(l.getApparentPowerLimits(), o);
    }
    rule_(k <= 1, o, "one regulating tap changer");
  }
}
#endif
