// C01: a network never holds a value that its own rules refuse; an update that is refused changes nothing.
#include "common.hpp"
#include "rules.hpp"
typedef std::function<double()> Get; typedef std::function<void(double)> Set; typedef std::function<bool(double)> Ok;
static bool notnan(double v) { return v == v; }
static bool any(double) { return true; }
static bool pos(double v) { return v > 0; }
static bool nonneg(double v) { return v >= 0; }
static bool posOrNan(double v) { return v != v || v > 0; }
static bool nonnegOrNan(double v) { return v != v || v >= 0; }

static void one(Network& n, const Get& get, const Set& set, const Ok& ok) {
  double v = sx_double("v");
  double old = get();
  std::string before = dump(n);
  bool accepted = true;
  try { set(v); } catch (const ValidationException&) { accepted = false; }
  bool expected = ok(v);
  if (accepted) {
    sx_reach("accepted");
    sx_assert_msg(expected, "an invalid value was accepted");
    sx_assert_msg(same(get(), v), "the accepted value is not the one read back");
    set(old);
    sx_assert_msg(dump(n) == before, "setting a value and setting the old one back left a trace");
  } else {
    sx_reach("refused");
    sx_assert_msg(!expected, "a valid value was refused");
    sx_assert_msg(dump(n) == before, "a refused value left a trace");
  }
}
struct Attr { const char* name; Get get; Set set; Ok ok; };
#define A(obj, G, S, OK) Attr{#obj "." #G, [&n, &obj]() { return obj.G(); }, [&n, &obj](double value_) { obj.S(value_); }, OK}
static void pick(Network& n, const std::vector<Attr>& as) { const Attr& a = as[sx_choose("attribute", as.size())]; __sx_api_note(a.name); one(n, a.get, a.set, a.ok); }

SX_HARNESS(injections) {
  Network n = anyNetwork();
  Load& load = n.getLoad("LOADN"); Generator& gen = n.getGenerator("GENN"); Battery& bat = n.getBattery("BATN"); Ok gv = gen.isVoltageRegulatorOn() ? pos : any, gq = gen.isVoltageRegulatorOn() ? any : notnan;
  pick(n, {A(load, getP0, setP0, notnan), A(load, getQ0, setQ0, notnan),
    A(gen, getMinP, setMinP, [](double v) { return v <= 100.0; }), A(gen, getMaxP, setMaxP, [](double v) { return v >= -10.0; }),
    A(gen, getTargetP, setTargetP, notnan), A(gen, getActivePowerSetpoint, setActivePowerSetpoint, notnan), A(gen, getTargetQ, setTargetQ, gq), A(gen, getReactivePowerSetpoint, setReactivePowerSetpoint, gq),
    A(gen, getTargetV, setTargetV, gv), A(gen, getVoltageSetpoint, setVoltageSetpoint, gv), A(gen, getRatedS, setRatedS, posOrNan),
    A(bat, getP0, setP0, notnan), A(bat, getQ0, setQ0, notnan), A(bat, getMinP, setMinP, [](double v) { return v <= 5.0; }), A(bat, getMaxP, setMaxP, [](double v) { return v >= -5.0; })});
}
SX_HARNESS(compensators) {
  Network n = anyNetwork();
  StaticVarCompensator& svc = n.getStaticVarCompensator("SVC"); ShuntCompensator& shn = n.getShuntCompensator("SHN"); ShuntCompensator& shb = n.getShuntCompensator("SHB");
  auto& lin = shb.getModel<ShuntCompensatorLinearModel>();
  pick(n, {A(svc, getBmin, setBmin, notnan), A(svc, getBmax, setBmax, notnan), A(svc, getVoltageSetpoint, setVoltageSetpoint, svc.getRegulationMode() == StaticVarCompensator::RegulationMode::OFF ? any : notnan), A(svc, getReactivePowerSetpoint, setReactivePowerSetpoint, any),
    A(shn, getTargetV, setTargetV, shn.isVoltageRegulatorOn() ? pos : any), A(shn, getTargetDeadband, setTargetDeadband, shn.isVoltageRegulatorOn() ? nonneg : nonnegOrNan), A(shb, getTargetV, setTargetV, shb.isVoltageRegulatorOn() ? pos : any), A(shb, getTargetDeadband, setTargetDeadband, shb.isVoltageRegulatorOn() ? nonneg : nonnegOrNan),
    A(lin, getBPerSection, setBPerSection, notnan)});
}
SX_HARNESS(hvdc) {
  Network n = anyNetwork();
  HvdcLine& h = n.getHvdcLine("HVSC"); bool swap = n.getVscConverterStation("VSC1").isVoltageRegulatorOn(); VscConverterStation& on = n.getVscConverterStation(swap ? "VSC1" : "VSC2"); VscConverterStation& off = n.getVscConverterStation(swap ? "VSC2" : "VSC1"); LccConverterStation& lcc = n.getLccConverterStation("LCC1");
  auto loss = [](double v) { return v >= 0 && v <= 100; };
  pick(n, {A(h, getR, setR, notnan), A(h, getNominalV, setNominalV, pos), A(h, getMaxP, setMaxP, nonneg), A(h, getActivePowerSetpoint, setActivePowerSetpoint, nonneg),
    A(on, getVoltageSetpoint, setVoltageSetpoint, pos), A(on, getReactivePowerSetpoint, setReactivePowerSetpoint, any), A(on, getLossFactor, setLossFactor, loss),
    A(off, getVoltageSetpoint, setVoltageSetpoint, any), A(off, getReactivePowerSetpoint, setReactivePowerSetpoint, notnan),
    A(lcc, getPowerFactor, setPowerFactor, [](double v) { return v >= -1 && v <= 1; }), A(lcc, getLossFactor, setLossFactor, loss)});
}
SX_HARNESS(branches) {
  Network n = anyNetwork();
  Line& l = n.getLine("LINE"); TwoWindingsTransformer& t = n.getTwoWindingsTransformer("TWT"); auto& leg = n.getThreeWindingsTransformer("T3").getLeg2();
  pick(n, {A(l, getR, setR, notnan), A(l, getX, setX, notnan), A(l, getG1, setG1, notnan), A(l, getB1, setB1, notnan), A(l, getG2, setG2, notnan), A(l, getB2, setB2, notnan),
    A(t, getR, setR, notnan), A(t, getX, setX, notnan), A(t, getG, setG, notnan), A(t, getB, setB, notnan), A(t, getRatedU1, setRatedU1, notnan), A(t, getRatedU2, setRatedU2, notnan), A(t, getRatedS, setRatedS, posOrNan),
    A(leg, getR, setR, notnan), A(leg, getX, setX, notnan), A(leg, getG, setG, notnan), A(leg, getB, setB, notnan), A(leg, getRatedU, setRatedU, notnan), A(leg, getRatedS, setRatedS, posOrNan)});
}
SX_HARNESS(dangling) {
  Network n = anyNetwork();
  DanglingLine& d = n.getDanglingLine("DL"); auto& g = d.getGeneration().get();
  pick(n, {A(d, getR, setR, notnan), A(d, getX, setX, notnan), A(d, getG, setG, notnan), A(d, getB, setB, notnan), A(d, getP0, setP0, notnan), A(d, getQ0, setQ0, notnan),
    A(g, getMinP, setMinP, [](double v) { return v <= 10.0; }), A(g, getMaxP, setMaxP, [](double v) { return v >= 0.0; }), A(g, getTargetP, setTargetP, notnan), A(g, getTargetQ, setTargetQ, g.isVoltageRegulationOn() ? any : notnan), A(g, getTargetV, setTargetV, g.isVoltageRegulationOn() ? pos : any)});
}
SX_HARNESS(tapchangers) {
  Network n = anyNetwork();
  RatioTapChanger& r = n.getTwoWindingsTransformer("TWT").getRatioTapChanger(); RatioTapChanger& off = n.getThreeWindingsTransformer("T3").getLeg2().getRatioTapChanger();
  PhaseTapChanger& p = n.getTwoWindingsTransformer("TWT").getPhaseTapChanger();
  pick(n, {A(r, getTargetV, setTargetV, r.isRegulating() ? pos : any), A(r, getTargetDeadband, setTargetDeadband, r.isRegulating() ? nonneg : nonnegOrNan), A(off, getTargetV, setTargetV, any), A(off, getTargetDeadband, setTargetDeadband, nonnegOrNan),
    A(p, getRegulationValue, setRegulationValue, any), A(p, getTargetDeadband, setTargetDeadband, nonnegOrNan)});
}
SX_HARNESS(voltage) {
  Network n = anyNetwork();
  VoltageLevel& v = n.getVoltageLevel("VN"); Bus& b = n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get(); Bus& c = v.getBusBreakerView().getBus("VN_0").get(); Bus& m = n.getVoltageLevel("VB").getBusView().getBus("VB_0").get();
  auto& lim = n.getLine("LINE").getCurrentLimits1().get();
  pick(n, {A(v, getNominalV, setNominalV, pos), A(v, getLowVoltageLimit, setLowVoltageLimit, [](double x) { return x != x || (x >= 0 && x <= 420.0); }), A(v, getHighVoltageLimit, setHighVoltageLimit, [](double x) { return x != x || x >= 380.0; }),
    A(b, getV, setV, nonnegOrNan), A(b, getAngle, setAngle, any), A(c, getV, setV, nonnegOrNan), A(c, getAngle, setAngle, any), A(m, getV, setV, nonnegOrNan), A(m, getAngle, setAngle, any),
    A(lim, getPermanentLimit, setPermanentLimit, posOrNan)});
}
// --- sequences: after any history of accepted and refused updates the equipment satisfies its own rules ---------------
static bool att(const std::function<void()>& f) { try { f(); return true; } catch (const ValidationException&) { return false; } }
SX_HARNESS(seq_generator) {
  Network n = anyNetwork(); Generator& g = n.getGenerator("GENN");
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v = 0; bool b = false, ok, want = false;
    double minP = g.getMinP(), maxP = g.getMaxP(), tv = g.getTargetV(), tq = g.getTargetQ(); bool on = g.isVoltageRegulatorOn();
    switch (sx_choose("op", 5)) {
      case 0: v = sx_double("minP"); ok = att([&]() { g.setMinP(v); }); want = v <= maxP; if (ok) minP = v; break;
      case 1: v = sx_double("maxP"); ok = att([&]() { g.setMaxP(v); }); want = minP <= v; if (ok) maxP = v; break;
      case 2: v = sx_double("targetV"); ok = att([&]() { g.setTargetV(v); }); want = on ? v > 0 : tq == tq; if (ok) tv = v; break;
      case 3: v = sx_double("targetQ"); ok = att([&]() { g.setTargetQ(v); }); want = on ? tv > 0 : v == v; if (ok) tq = v; break;
      default: b = sx_bool("on"); ok = att([&]() { g.setVoltageRegulatorOn(b); }); want = b ? tv > 0 : tq == tq; if (ok) on = b; break;
    }
    sx_assert(ok == want);
    sx_assert(same(g.getMinP(), minP) && same(g.getMaxP(), maxP) && same(g.getTargetV(), tv) && same(g.getTargetQ(), tq) && g.isVoltageRegulatorOn() == on);
    sx_assert(g.getMinP() <= g.getMaxP());
    sx_assert(g.isVoltageRegulatorOn() ? g.getTargetV() > 0 : g.getTargetQ() == g.getTargetQ());
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(seq_vsc_dl) {
  Network n = anyNetwork(); VscConverterStation& s = n.getVscConverterStation("VSC1"); auto& g = n.getDanglingLine("DL").getGeneration().get();
  bool vsc = sx_choose("object", 2) == 0;
  auto getV = [&]() { return vsc ? s.getVoltageSetpoint() : g.getTargetV(); }; auto getQ = [&]() { return vsc ? s.getReactivePowerSetpoint() : g.getTargetQ(); }; auto getOn = [&]() { return vsc ? s.isVoltageRegulatorOn() : g.isVoltageRegulationOn(); };
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v = 0, tv = getV(), tq = getQ(); bool on = getOn(), ok, want, b;
    switch (sx_choose("op", 3)) {
      case 0: v = sx_double("V"); ok = att([&]() { if (vsc) s.setVoltageSetpoint(v); else g.setTargetV(v); }); want = on ? v > 0 : tq == tq; if (ok) tv = v; break;
      case 1: v = sx_double("Q"); ok = att([&]() { if (vsc) s.setReactivePowerSetpoint(v); else g.setTargetQ(v); }); want = on ? tv > 0 : v == v; if (ok) tq = v; break;
      default: b = sx_bool("on"); ok = att([&]() { if (vsc) s.setVoltageRegulatorOn(b); else g.setVoltageRegulationOn(b); }); want = b ? tv > 0 : tq == tq; if (ok) on = b; break;
    }
    sx_assert(ok == want);
    sx_assert(same(getV(), tv) && same(getQ(), tq) && getOn() == on);
    sx_assert(on ? getV() > 0 : getQ() == getQ());
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(seq_svc) {
  Network n = anyNetwork(); StaticVarCompensator& s = n.getStaticVarCompensator("SVC");
  typedef StaticVarCompensator::RegulationMode M;
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v, tv = s.getVoltageSetpoint(), tq = s.getReactivePowerSetpoint(); M m = s.getRegulationMode(); bool ok;
    switch (sx_choose("op", 3)) {
      case 0: v = sx_double("V"); ok = att([&]() { s.setVoltageSetpoint(v); }); sx_assert(ok == (m != M::VOLTAGE ? (m == M::OFF || tq == tq) : v == v)); if (ok) tv = v; break;
      case 1: v = sx_double("Q"); ok = att([&]() { s.setReactivePowerSetpoint(v); }); sx_assert(ok == (m != M::REACTIVE_POWER ? (m == M::OFF || tv == tv) : v == v)); if (ok) tq = v; break;
      default: { M w = static_cast<M>(sx_choose("mode", 3)); ok = att([&]() { s.setRegulationMode(w); }); sx_assert(ok == (w == M::VOLTAGE ? tv == tv : w == M::REACTIVE_POWER ? tq == tq : true)); if (ok) m = w; }
    }
    sx_assert(same(s.getVoltageSetpoint(), tv) && same(s.getReactivePowerSetpoint(), tq) && s.getRegulationMode() == m);
    sx_assert(m == M::VOLTAGE ? tv == tv : m == M::REACTIVE_POWER ? tq == tq : true);
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(seq_shunt) {
  Network n = anyNetwork(); ShuntCompensator& s = n.getShuntCompensator("SHN");
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v, tv = s.getTargetV(), db = s.getTargetDeadband(); bool on = s.isVoltageRegulatorOn(), ok, b;
    switch (sx_choose("op", 3)) {
      case 0: v = sx_double("V"); ok = att([&]() { s.setTargetV(v); }); sx_assert(ok == (!on || v > 0)); if (ok) tv = v; break;
      case 1: v = sx_double("deadband"); ok = att([&]() { s.setTargetDeadband(v); }); sx_assert(ok == (on ? v >= 0 : (v != v || v >= 0))); if (ok) db = v; break;
      default: b = sx_bool("on"); ok = att([&]() { s.setVoltageRegulatorOn(b); }); sx_assert(ok == (!b || (tv > 0 && db >= 0))); if (ok) on = b;
    }
    sx_assert(same(s.getTargetV(), tv) && same(s.getTargetDeadband(), db) && s.isVoltageRegulatorOn() == on);
    sx_assert(!on || (tv > 0 && db >= 0));
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(seq_limits) {
  Network n = anyNetwork(); VoltageLevel& v = n.getVoltageLevel("VN"); Battery& bat = n.getBattery("BATN");
  bool isBat = sx_choose("object", 2) == 1;
  for (int i = 0, k = sx_bound(3, 5); i < k; ++i) {
    double lo = isBat ? bat.getMinP() : v.getLowVoltageLimit(), hi = isBat ? bat.getMaxP() : v.getHighVoltageLimit(), w = sx_double("w"); bool ok, low = sx_choose("side", 2) == 0;
    if (isBat) { ok = att([&]() { if (low) bat.setMinP(w); else bat.setMaxP(w); }); sx_assert(ok == (low ? w <= hi : lo <= w)); }
    else { ok = att([&]() { if (low) v.setLowVoltageLimit(w); else v.setHighVoltageLimit(w); }); sx_assert(ok == (w != w || (w >= 0 && (low ? (hi != hi || w <= hi) : (lo != lo || lo <= w))))); }
    if (ok) { (low ? lo : hi) = w; sx_reach("accepted"); } else sx_reach("refused");
    sx_assert(same(isBat ? bat.getMinP() : v.getLowVoltageLimit(), lo) && same(isBat ? bat.getMaxP() : v.getHighVoltageLimit(), hi));
    sx_assert(!(lo > hi));
  }
}
SX_HARNESS(seq_ratio) {
  Network n = anyNetwork(); RatioTapChanger& r = n.getTwoWindingsTransformer("TWT").getRatioTapChanger();
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v, tv = r.getTargetV(), db = r.getTargetDeadband(); bool on = r.isRegulating(), ltc = r.hasLoadTapChangingCapabilities(), ok, b, want;
    switch (sx_choose("op", 4)) {
      case 0: v = sx_double("V"); want = !on || !ltc || v > 0; ok = att([&]() { r.setTargetV(v); }); if (ok) tv = v; break;
      case 1: v = sx_double("deadband"); want = on ? v >= 0 : (v != v || v >= 0); ok = att([&]() { r.setTargetDeadband(v); }); if (ok) db = v; break;
      case 2: b = sx_bool("on"); want = !b || (db >= 0 && (!ltc || tv > 0)); ok = att([&]() { r.setRegulating(b); }); if (ok) on = b; break;
      default: b = sx_bool("ltc"); want = !on || !b || tv > 0; ok = att([&]() { r.setLoadTapChangingCapabilities(b); }); if (ok) ltc = b;
    }
    sx_assert(ok == want);
    sx_assert(same(r.getTargetV(), tv) && same(r.getTargetDeadband(), db) && r.isRegulating() == on && r.hasLoadTapChangingCapabilities() == ltc);
    sx_assert(!on || (db >= 0 && (!ltc || tv > 0)));
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(seq_phase) {
  Network n = anyNetwork(); n.getTwoWindingsTransformer("TWT").getRatioTapChanger().setRegulating(false);
  PhaseTapChanger& p = n.getTwoWindingsTransformer("TWT").getPhaseTapChanger(); stdcxx::Reference<Terminal> none; stdcxx::Reference<Terminal> t1 = ref<Terminal>(n.getTwoWindingsTransformer("TWT").getTerminal1());
  typedef PhaseTapChanger::RegulationMode M;
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    double v, rv = p.getRegulationValue(), db = p.getTargetDeadband(); bool on = p.isRegulating(), ok, b, want, term = static_cast<bool>(p.getRegulationTerminal()); M m = p.getRegulationMode();
    switch (sx_choose("op", 5)) {
      case 0: v = sx_double("value"); want = !on || v == v; ok = att([&]() { p.setRegulationValue(v); }); if (ok) rv = v; break;
      case 1: v = sx_double("deadband"); want = on ? v >= 0 : (v != v || v >= 0); ok = att([&]() { p.setTargetDeadband(v); }); if (ok) db = v; break;
      case 2: b = sx_bool("on"); want = !b || (db >= 0 && m != M::FIXED_TAP && rv == rv && term); ok = att([&]() { p.setRegulating(b); }); if (ok) on = b; break;
      case 3: { M w = static_cast<M>(sx_choose("mode", 3)); want = !on || w != M::FIXED_TAP; ok = att([&]() { p.setRegulationMode(w); }); if (ok) m = w; break; }
      default: b = sx_bool("terminal"); want = !on || b; ok = att([&]() { p.setRegulationTerminal(b ? t1 : none); }); if (ok) term = b;
    }
    sx_assert_msg(ok == want, "phase tap changer: accepted and allowed differ");
    sx_assert(same(p.getRegulationValue(), rv) && same(p.getTargetDeadband(), db) && p.isRegulating() == on && p.getRegulationMode() == m && static_cast<bool>(p.getRegulationTerminal()) == term);
    sx_assert(!on || (db >= 0 && m != M::FIXED_TAP && rv == rv && term));
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
SX_HARNESS(single_regulating) {
  Network n = anyNetwork(); TwoWindingsTransformer& t = n.getTwoWindingsTransformer("TWT");
  t.getRatioTapChanger().setRegulating(false);
  for (int i = 0, k = sx_bound(3, 5); i < k; ++i) {
    bool ratio = sx_choose("which", 2) == 0, on = sx_bool("on"); bool other = ratio ? t.getPhaseTapChanger().isRegulating() : t.getRatioTapChanger().isRegulating(); bool was = ratio ? t.getRatioTapChanger().isRegulating() : t.getPhaseTapChanger().isRegulating();
    bool ok = att([&]() { if (ratio) t.getRatioTapChanger().setRegulating(on); else t.getPhaseTapChanger().setRegulating(on); });
    sx_assert_msg(ok == !(on && other), "two tap changers of one transformer regulate at the same time");
    sx_assert((ratio ? t.getRatioTapChanger().isRegulating() : t.getPhaseTapChanger().isRegulating()) == (ok ? on : was));
    if (ok) sx_reach("accepted"); else sx_reach("refused");
  }
}
// what all the variants share against what each has of its own
SX_HARNESS(in_variants) {
  Network n = anyNetwork(); TwoWindingsTransformer& t = n.getTwoWindingsTransformer("TWT"); ShuntCompensator& s = n.getShuntCompensator("SHB"); auto& vm = n.getVariantManager(); stdcxx::Reference<Terminal> none, t1 = ref<Terminal>(t.getTerminal1()); typedef PhaseTapChanger::RegulationMode M;
  const std::string ids[] = {VariantManager::getInitialVariantId(), "V"}; t.getRatioTapChanger().setRegulating(false); t.getPhaseTapChanger().setRegulationMode(M::CURRENT_LIMITER).setRegulationValue(1.0).setTargetDeadband(1.0).setRegulationTerminal(t1);
  if (sx_bool("a removed variant")) { vm.cloneVariant(ids[0], "W"); vm.cloneVariant(ids[0], ids[1]); vm.setWorkingVariant("W"); if (sx_choose("regulating", 2)) t.getRatioTapChanger().setRegulating(true); else t.getPhaseTapChanger().setRegulating(true); s.setSectionCount(4UL); vm.setWorkingVariant(ids[0]); vm.removeVariant("W"); } else vm.cloneVariant(ids[0], ids[1]);
  auto both = [&]() { for (int i = 0; i < 2; ++i) { vm.setWorkingVariant(ids[i]); rules(n); } };
  for (int i = 0, k = sx_bound(2, 3); i < k; ++i) {
    vm.setWorkingVariant(ids[sx_choose("variant", 2)]); std::string w = vm.getWorkingVariantId(); RatioTapChanger& r = t.getRatioTapChanger(); PhaseTapChanger& p = t.getPhaseTapChanger(); bool ok, want = true; bool ro[2], po[2]; unsigned long sc[2]; double tv[2];
    for (int j = 0; j < 2; ++j) { vm.setWorkingVariant(ids[j]); ro[j] = r.isRegulating(); po[j] = p.isRegulating(); sc[j] = s.getSectionCount(); tv[j] = r.getTargetV(); } vm.setWorkingVariant(w); int x = w == "V"; bool anyR = ro[0] || ro[1], anyP = po[0] || po[1], ltc = r.hasLoadTapChangingCapabilities(), rt = static_cast<bool>(r.getRegulationTerminal());
    switch (sx_choose("op", 10)) {
      case 0: { bool b = sx_bool("on"); ok = att([&]() { r.setRegulating(b); }); want = !b || (!po[x] && (!ltc || (tv[x] > 0 && rt))); break; }
      case 1: { bool b = sx_bool("on"); ok = att([&]() { p.setRegulating(b); }); want = !b || (!ro[x] && p.getRegulationMode() != M::FIXED_TAP && p.getRegulationTerminal()); break; }
      case 2: { bool b = sx_bool("ltc"); ok = att([&]() { r.setLoadTapChangingCapabilities(b); }); want = !b || ((!anyR || rt) && (!ro[0] || tv[0] > 0) && (!ro[1] || tv[1] > 0)); break; }
      case 3: { double v = sx_double("V"); ok = att([&]() { r.setTargetV(v); }); want = !ltc || !ro[x] || v > 0; break; }
      case 4: { bool b = sx_bool("terminal"); ok = att([&]() { r.setRegulationTerminal(b ? t1 : none); }); want = b || !ltc || !anyR; break; }
      case 5: { M m = static_cast<M>(sx_choose("mode", 3)); ok = att([&]() { p.setRegulationMode(m); }); want = m != M::FIXED_TAP || !anyP; break; }
      case 6: { bool b = sx_bool("terminal"); ok = att([&]() { p.setRegulationTerminal(b ? t1 : none); }); want = b || !anyP; break; }
      case 7: { bool b = sx_bool("regulating"), q = sx_bool("phase"); want = !b || (q ? !anyR : !anyP);
        if (q) ok = att([&]() { t.newPhaseTapChanger().setLowTapPosition(0L).setTapPosition(0L).setRegulationMode(M::CURRENT_LIMITER).setRegulationValue(150.0).setTargetDeadband(1.0).setRegulating(b).setRegulationTerminal(t1).beginStep().setAlpha(-10.0).setRho(0.8).setR(1.5).setX(2.5).setG(3.5).setB(4.5).endStep().add(); });
        else ok = att([&]() { t.newRatioTapChanger().setLowTapPosition(0L).setTapPosition(0L).setLoadTapChangingCapabilities(true).setRegulating(b).setTargetV(225.0).setTargetDeadband(2.0).setRegulationTerminal(t1).beginStep().setRho(0.9).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().add(); });
        break; }
      case 8: { unsigned long c = sx_choose("count", 7); ok = att([&]() { s.setSectionCount(c); }); want = c <= s.getMaximumSectionCount(); break; }
      default: { unsigned long m = sx_choose("maximum", 7); ok = att([&]() { s.getModel<ShuntCompensatorLinearModel>().setMaximumSectionCount(m); }); want = m > 0 && sc[0] <= m && sc[1] <= m; }
    }
    sx_assert_msg(ok == want, "an update is accepted iff every variant remains valid"); sx_reach(ok ? "accepted" : "refused"); both();
  }
}
