// Everything the public API shows of a network, as a list of (key, text or double). Independent of the XML serializer.
#ifndef DESCRIBE_HPP
#define DESCRIBE_HPP
#include "common.hpp"
#include <utility>
struct Item { std::string key, text; double value; bool num; long n; };
struct Desc {
  std::vector<Item> v; std::string pre;
  void s(const std::string& k, const std::string& t) { v.push_back(Item{pre + k, t, 0.0, false, 0}); }
  void i(const std::string& k, long t) { v.push_back(Item{pre + k, "", 0.0, false, t}); }
  void b(const std::string& k, bool t) { s(k, t ? "true" : "false"); }
  void d(const std::string& k, double t) { v.push_back(Item{pre + k, "", t, true, 0}); }
};
struct DOpt { bool branchPQ = true, allPQ = true, topo = true, names = true, buses = true, reg = true; };
static inline std::string tref(const Terminal& t) {
  const Connectable& c = t.getConnectable().get();
  std::string r = c.getId();
  int k = 0; for (const Terminal& x : c.getTerminals()) { if (&x == &t) r += "#" + std::to_string(k); ++k; }
  return r;
}
static inline void dIdent(Desc& r, const Identifiable& o, const DOpt& op) {
  if (op.names) r.s("name", o.getOptionalName());
  r.b("fictitious", o.isFictitious());
  std::set<std::string> al; for (const std::string& a : o.getAliases()) al.insert(a + "|" + o.getAliasType(a));
  for (const auto& a : al) r.s("alias", a);
  std::set<std::string> pr; for (const std::string& p : o.getPropertyNames()) pr.insert(p + "=" + o.getProperty(p));
  for (const auto& p : pr) r.s("property", p);
}
static inline void dTerm(Desc& r, const std::string& k, const Terminal& t, const DOpt& op, bool branch) {
  r.s(k + ".vl", t.getVoltageLevel().getId());
  if (op.topo) {
    if (t.getVoltageLevel().getTopologyKind() == TopologyKind::NODE_BREAKER) r.i(k + ".node", static_cast<long>(t.getNodeBreakerView().getNode()));
    else r.s(k + ".bus", t.getBusBreakerView().getConnectableBus() ? t.getBusBreakerView().getConnectableBus().get().getId() : "-");
    r.b(k + ".connected", t.isConnected());
  }
  if (op.allPQ && (op.branchPQ || !branch) && t.getConnectable().get().getType() != ConnectableType::BUSBAR_SECTION) { r.d(k + ".p", t.getP()); r.d(k + ".q", t.getQ()); }
}
template <typename L> static inline void dLimits(Desc& r, const std::string& k, const L& l) {
  if (!l) return;
  r.d(k + ".permanent", l.get().getPermanentLimit());
  int n = 0;
  for (const auto& t : l.get().getTemporaryLimits()) { std::string q = k + "." + std::to_string(++n); r.i(q + ".duration", static_cast<long>(t.getAcceptableDuration())); r.s(q, t.getName()); r.d(q + ".value", t.getValue()); r.b(q + ".fict", t.isFictitious()); }
}
static inline void dReactive(Desc& r, const ReactiveLimitsHolder& h) {
  if (h.getReactiveLimits<ReactiveLimits>().getKind() == ReactiveLimitsKind::MIN_MAX) { const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>(); r.d("minQ", m.getMinQ()); r.d("maxQ", m.getMaxQ()); }
  else for (const auto& p : h.getReactiveLimits<ReactiveCapabilityCurve>().getPoints()) { r.d("curve.p", p.getP()); r.d("curve.minQ", p.getMinQ()); r.d("curve.maxQ", p.getMaxQ()); }
}
static inline void dRtc(Desc& r, const std::string& k, const RatioTapChanger& c) {
  r.i(k + ".low", c.getLowTapPosition()); r.i(k + ".tap", c.getTapPosition()); r.i(k + ".n", c.getStepCount()); r.b(k + ".reg", c.isRegulating()); r.b(k + ".ltc", c.hasLoadTapChangingCapabilities());
  r.d(k + ".targetV", c.getTargetV()); r.d(k + ".deadband", c.getTargetDeadband()); r.s(k + ".term", c.getRegulationTerminal() ? tref(c.getRegulationTerminal().get()) : "-");
  for (long p = c.getLowTapPosition(); p <= c.getHighTapPosition(); ++p) { const auto& s = c.getStep(p); r.d(k + ".rho", s.getRho()); r.d(k + ".r", s.getR()); r.d(k + ".x", s.getX()); r.d(k + ".g", s.getG()); r.d(k + ".b", s.getB()); }
}
static inline void dPtc(Desc& r, const std::string& k, const PhaseTapChanger& c) {
  r.i(k + ".low", c.getLowTapPosition()); r.i(k + ".tap", c.getTapPosition()); r.i(k + ".n", c.getStepCount()); r.b(k + ".reg", c.isRegulating()); r.i(k + ".mode", static_cast<long>(c.getRegulationMode()));
  r.d(k + ".value", c.getRegulationValue()); r.d(k + ".deadband", c.getTargetDeadband()); r.s(k + ".term", c.getRegulationTerminal() ? tref(c.getRegulationTerminal().get()) : "-");
  for (long p = c.getLowTapPosition(); p <= c.getHighTapPosition(); ++p) { const auto& s = c.getStep(p); r.d(k + ".rho", s.getRho()); r.d(k + ".alpha", s.getAlpha()); r.d(k + ".r", s.getR()); r.d(k + ".x", s.getX()); r.d(k + ".g", s.getG()); r.d(k + ".b", s.getB()); }
}
static inline void dConn(Desc& r, const Connectable& c, const DOpt& op) {
  r.pre = c.getId() + "."; r.i("type", static_cast<long>(c.getType())); dIdent(r, c, op);
  int k = 0; bool br = c.getTerminals().size() > 1;
  for (const Terminal& t : c.getTerminals()) dTerm(r, "t" + std::to_string(++k), t, op, br);
  if (auto* o = dynamic_cast<const Load*>(&c)) { r.i("loadType", static_cast<long>(o->getLoadType())); r.d("p0", o->getP0()); r.d("q0", o->getQ0()); }
  if (auto* o = dynamic_cast<const Generator*>(&c)) {
    r.i("source", static_cast<long>(o->getEnergySource())); r.d("minP", o->getMinP()); r.d("maxP", o->getMaxP()); r.d("targetP", o->getTargetP()); r.d("targetQ", o->getTargetQ()); r.d("targetV", o->getTargetV()); r.d("ratedS", o->getRatedS());
    r.b("on", o->isVoltageRegulatorOn()); if (op.reg) r.s("regterm", tref(o->getRegulatingTerminal())); dReactive(r, *o);
  }
  if (auto* o = dynamic_cast<const Battery*>(&c)) { r.d("p0", o->getP0()); r.d("q0", o->getQ0()); r.d("minP", o->getMinP()); r.d("maxP", o->getMaxP()); dReactive(r, *o); }
  if (auto* o = dynamic_cast<const ShuntCompensator*>(&c)) {
    r.i("sections", static_cast<long>(o->getSectionCount())); r.i("maxSections", static_cast<long>(o->getMaximumSectionCount())); r.b("on", o->isVoltageRegulatorOn()); r.d("targetV", o->getTargetV()); r.d("deadband", o->getTargetDeadband());
    if (op.reg) r.s("regterm", tref(o->getRegulatingTerminal()));
    if (o->getModelType() == ShuntCompensatorModelType::LINEAR) { const auto& m = o->getModel<ShuntCompensatorLinearModel>(); r.d("bPer", m.getBPerSection()); r.d("gPer", m.getGPerSection()); }
    else for (const auto& s : o->getModel<ShuntCompensatorNonLinearModel>().getAllSections()) { r.d("b", s.getB()); r.d("g", s.getG()); }
  }
  if (auto* o = dynamic_cast<const StaticVarCompensator*>(&c)) {
    r.d("bmin", o->getBmin()); r.d("bmax", o->getBmax()); r.d("V", o->getVoltageSetpoint()); r.d("Q", o->getReactivePowerSetpoint()); r.i("mode", static_cast<long>(o->getRegulationMode()));
    if (op.reg) r.s("regterm", tref(o->getRegulatingTerminal()));
  }
  if (auto* o = dynamic_cast<const HvdcConverterStation*>(&c)) r.d("loss", o->getLossFactor());
  if (auto* o = dynamic_cast<const VscConverterStation*>(&c)) { r.b("on", o->isVoltageRegulatorOn()); r.d("V", o->getVoltageSetpoint()); r.d("Q", o->getReactivePowerSetpoint()); dReactive(r, *o); }
  if (auto* o = dynamic_cast<const LccConverterStation*>(&c)) r.d("pf", o->getPowerFactor());
  if (auto* o = dynamic_cast<const DanglingLine*>(&c)) {
    r.d("r", o->getR()); r.d("x", o->getX()); r.d("g", o->getG()); r.d("b", o->getB()); r.d("p0", o->getP0()); r.d("q0", o->getQ0()); r.s("ucte", o->getUcteXnodeCode());
    if (o->getGeneration()) { const auto& g = o->getGeneration().get(); r.d("g.minP", g.getMinP()); r.d("g.maxP", g.getMaxP()); r.d("g.P", g.getTargetP()); r.d("g.Q", g.getTargetQ()); r.d("g.V", g.getTargetV()); r.b("g.on", g.isVoltageRegulationOn()); dReactive(r, g); }
    dLimits(r, "cl", o->getCurrentLimits()); dLimits(r, "al", o->getActivePowerLimits()); dLimits(r, "sl", o->getApparentPowerLimits());
  }
  if (auto* o = dynamic_cast<const Branch*>(&c)) {
    dLimits(r, "cl1", o->getCurrentLimits1()); dLimits(r, "al1", o->getActivePowerLimits1()); dLimits(r, "sl1", o->getApparentPowerLimits1());
    dLimits(r, "cl2", o->getCurrentLimits2()); dLimits(r, "al2", o->getActivePowerLimits2()); dLimits(r, "sl2", o->getApparentPowerLimits2());
  }
  if (auto* o = dynamic_cast<const TieLine*>(&c)) {
    r.s("ucte", o->getUcteXnodeCode());
    for (int h = 1; h <= 2; ++h) { const auto& l = h == 1 ? o->getHalf1() : o->getHalf2(); std::string q = "h" + std::to_string(h) + "."; r.s(q + "id", l.getId()); if (op.names) r.s(q + "name", l.getName()); r.b(q + "fict", l.isFictitious()); r.d(q + "r", l.getR()); r.d(q + "x", l.getX()); r.d(q + "g1", l.getG1()); r.d(q + "b1", l.getB1()); r.d(q + "g2", l.getG2()); r.d(q + "b2", l.getB2()); }
  } else if (auto* l = dynamic_cast<const Line*>(&c)) { r.d("r", l->getR()); r.d("x", l->getX()); r.d("g1", l->getG1()); r.d("b1", l->getB1()); r.d("g2", l->getG2()); r.d("b2", l->getB2()); }
  if (auto* o = dynamic_cast<const TwoWindingsTransformer*>(&c)) {
    r.d("r", o->getR()); r.d("x", o->getX()); r.d("g", o->getG()); r.d("b", o->getB()); r.d("u1", o->getRatedU1()); r.d("u2", o->getRatedU2()); r.d("s", o->getRatedS());
    if (o->hasRatioTapChanger()) dRtc(r, "rtc", o->getRatioTapChanger());
    if (o->hasPhaseTapChanger()) dPtc(r, "ptc", o->getPhaseTapChanger());
  }
  if (auto* o = dynamic_cast<const ThreeWindingsTransformer*>(&c)) {
    r.d("u0", o->getRatedU0()); int n = 0;
    for (const ThreeWindingsTransformer::Leg& l : o->getLegs()) { std::string q = "leg" + std::to_string(++n) + "."; r.d(q + "r", l.getR()); r.d(q + "x", l.getX()); r.d(q + "g", l.getG()); r.d(q + "b", l.getB()); r.d(q + "u", l.getRatedU()); r.d(q + "s", l.getRatedS());
      dLimits(r, q + "cl", l.getCurrentLimits()); dLimits(r, q + "al", l.getActivePowerLimits()); dLimits(r, q + "sl", l.getApparentPowerLimits());
      if (l.hasRatioTapChanger()) dRtc(r, q + "rtc", l.getRatioTapChanger());
      if (l.hasPhaseTapChanger()) dPtc(r, q + "ptc", l.getPhaseTapChanger()); }
  }
}
template <typename R> static inline std::vector<const typename std::remove_reference<decltype(*std::declval<R>().begin())>::type*> byId(R&& range) {
  typedef typename std::remove_reference<decltype(*std::declval<R>().begin())>::type T;
  std::map<std::string, const T*> m; for (const auto& o : range) m[o.getId()] = &o;
  std::vector<const T*> v; for (auto& p : m) v.push_back(p.second);
  return v;
}
static inline Desc describe(const Network& n, const DOpt& op = DOpt()) {
  Desc r; r.s("id", n.getId()); r.s("format", n.getSourceFormat()); r.s("date", n.getCaseDate().toString()); r.i("forecast", n.getForecastDistance()); dIdent(r, n, op);
  for (const auto* s : byId(n.getSubstations())) {
    r.pre = s->getId() + "."; dIdent(r, *s, op); r.s("country", s->getCountry() ? Enum::toString(*s->getCountry()) : "-"); r.s("tso", s->getTso()); for (const auto& t : s->getGeographicalTags()) r.s("tag", t);
    for (const auto* v : byId(s->getVoltageLevels())) {
      r.pre = s->getId() + "/" + v->getId() + "."; dIdent(r, *v, op); r.d("nominal", v->getNominalV()); r.d("low", v->getLowVoltageLimit()); r.d("high", v->getHighVoltageLimit());
      if (!op.topo) continue;
      r.i("kind", static_cast<long>(v->getTopologyKind()));
      bool nb = v->getTopologyKind() == TopologyKind::NODE_BREAKER;
      if (nb) {
        std::multiset<std::string> ics; for (const auto& ic : v->getNodeBreakerView().getInternalConnections()) { unsigned long a = ic.getNode1(), b = ic.getNode2(); ics.insert(std::to_string(a < b ? a : b) + "-" + std::to_string(a < b ? b : a)); }
        for (const auto& t : ics) r.s("ic", t);
        if (op.buses) for (const auto* b : byId(v->getBusView().getBuses())) { r.d("bus." + b->getId() + ".v", b->getV()); r.d("bus." + b->getId() + ".a", b->getAngle()); }
      } else for (const auto* b : byId(v->getBusBreakerView().getBuses())) { Desc q; q.pre = r.pre + "bus." + b->getId() + "."; dIdent(q, *b, op); if (op.buses) { q.d("v", b->getV()); q.d("a", b->getAngle()); } r.v.insert(r.v.end(), q.v.begin(), q.v.end()); }
      for (const auto* w : byId(v->getSwitches())) {
        Desc q; q.pre = r.pre + "sw." + w->getId() + "."; dIdent(q, *w, op); q.b("open", w->isOpen()); 
        if (nb) { q.i("kind", static_cast<long>(w->getKind())); q.b("retained", w->isRetained()); q.i("n1", static_cast<long>(v->getNodeBreakerView().getNode1(w->getId()))); q.i("n2", static_cast<long>(v->getNodeBreakerView().getNode2(w->getId()))); }
        else { q.s("b1", v->getBusBreakerView().getBus1(w->getId()).get().getId()); q.s("b2", v->getBusBreakerView().getBus2(w->getId()).get().getId()); }
        r.v.insert(r.v.end(), q.v.begin(), q.v.end());
      }
    }
  }
  for (const auto* c : byId(n.getConnectables())) { if (!op.topo && c->getType() == ConnectableType::BUSBAR_SECTION) continue; dConn(r, *c, op); }
  for (const auto* h : byId(n.getHvdcLines())) { r.pre = h->getId() + "."; dIdent(r, *h, op); r.d("r", h->getR()); r.d("nominal", h->getNominalV()); r.d("maxP", h->getMaxP()); r.d("P", h->getActivePowerSetpoint()); r.i("mode", static_cast<long>(h->getConvertersMode())); r.s("s1", h->getConverterStation1().get().getId()); r.s("s2", h->getConverterStation2().get().getId()); }
  return r;
}
// equal, including every (symbolic) number; ignore: keys to skip
static inline void sameDesc(const Desc& a, const Desc& b, const std::function<bool(const std::string&)>& ignore = nullptr) {
  size_t i = 0, j = 0;
  for (;;) {
    while (ignore && i < a.v.size() && ignore(a.v[i].key)) ++i;
    while (ignore && j < b.v.size() && ignore(b.v[j].key)) ++j;
    if (i == a.v.size() && j == b.v.size()) return;
    if (i == a.v.size() || j == b.v.size() || a.v[i].key != b.v[j].key || a.v[i].text != b.v[j].text) {
      __sx_api_note(i < a.v.size() ? (a.v[i].key + "=" + a.v[i].text).c_str() : "(end)"); __sx_api_note(j < b.v.size() ? (b.v[j].key + "=" + b.v[j].text).c_str() : "(end)");
      sx_fail("the networks differ");
    }
    if (a.v[i].n != b.v[j].n || (a.v[i].num && !same(a.v[i].value, b.v[j].value))) { __sx_api_note(a.v[i].key.c_str()); sx_fail("an attribute differs"); }
    ++i; ++j;
  }
}
#endif
