// C20: loading limits and overloads.
#include "describe.hpp"
struct TL { double value; unsigned long duration; std::string name; };
template <typename A> static void fill(A& a, double perm, const std::vector<TL>& ts) { a.setPermanentLimit(perm); for (auto& t : ts) a.beginTemporaryLimit().setName(t.name).setAcceptableDuration(t.duration).setValue(t.value).endTemporaryLimit(); }
static void addLimits(Branch& b, bool two, int type, double perm, const std::vector<TL>& ts) {
  if (type == 0) { auto a = two ? b.newActivePowerLimits2() : b.newActivePowerLimits1(); fill(a, perm, ts); a.add(); }
  else if (type == 1) { auto a = two ? b.newCurrentLimits2() : b.newCurrentLimits1(); fill(a, perm, ts); a.add(); }
  else { auto a = two ? b.newApparentPowerLimits2() : b.newApparentPowerLimits1(); fill(a, perm, ts); a.add(); }
}
static const LimitType TYPES[] = {LimitType::ACTIVE_POWER, LimitType::CURRENT, LimitType::APPARENT_POWER};
// what the flow i overloads, by the documentation: the first temporary limit, by decreasing duration, between the limit before it and itself
static void checkSide(const Branch& b, Branch::Side side, LimitType type, double i, bool has, double perm, std::vector<TL> ts, double red, bool byDefault) {
  std::sort(ts.begin(), ts.end(), [](const TL& x, const TL& y) { return x.duration > y.duration; });
  bool p = has && perm == perm && i == i && i >= perm * red;
  bool gp = side == Branch::Side::ONE ? (byDefault ? b.checkPermanentLimit1(type) : b.checkPermanentLimit1(red, type)) : (byDefault ? b.checkPermanentLimit2(type) : b.checkPermanentLimit2(red, type));
  sx_assert_msg(gp == p, "the permanent limit is exceeded iff the flow is not below it"); sx_assert((byDefault ? b.checkPermanentLimit(side, type) : b.checkPermanentLimit(side, red, type)) == p);
  int k = -1; double prev = perm; std::string prevName;
  if (has && perm == perm && i == i) for (size_t j = 0; j < ts.size(); ++j) { if (i >= prev * red && i < ts[j].value * red) { k = static_cast<int>(j); break; } prev = ts[j].value; prevName = ts[j].name; }
  for (int w = 0; w < 2; ++w) {
    std::unique_ptr<Branch::Overload> o;
    if (w == 0) o = byDefault ? b.checkTemporaryLimits(side, type) : b.checkTemporaryLimits(side, red, type);
    else if (side == Branch::Side::ONE) o = byDefault ? b.checkTemporaryLimits1(type) : b.checkTemporaryLimits1(red, type);
    else o = byDefault ? b.checkTemporaryLimits2(type) : b.checkTemporaryLimits2(red, type);
    sx_assert_msg(static_cast<bool>(o) == (k >= 0), "a temporary limit is reported iff the flow is between the limit before it and it");
    if (o) { sx_assert_msg(o->getTemporaryLimit().getAcceptableDuration() == ts[k].duration && o->getTemporaryLimit().getName() == ts[k].name && o->getPreviousLimitName() == prevName, "the temporary limit reported"); sx_assert(same(o->getTemporaryLimit().getValue(), ts[k].value)); sx_assert(same(o->getPreviousLimit(), prev)); }
  }
  sx_reach(k >= 0 ? "overload" : p ? "above all" : "no overload");
}
// any flow against any limits, one kind of limit on one side
SX_HARNESS(overload) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", false); VoltageLevel& v = mkVl(s, "B", false); mkBus(a, "A0"); mkBus(v, "B0");
  bool transformer = sx_bool("transformer"); Branch& b = transformer ? static_cast<Branch&>(mkTwtB(s, "L", "A", "A0", "B", "B0")) : static_cast<Branch&>(mkLineB(n, "L", "A", "A0", "B", "B0"));
  bool two = sx_bool("side 2"); double perm = sx_double("permanent"); sx_assume(!(perm <= 0)); 
  int k = static_cast<int>(sx_choose("temporary limits", sx_bound(4, 5))); std::vector<TL> ts; static const unsigned long D[] = {60, 1200, 0, 600};
  for (int i = 0; i < k; ++i) { double x = sx_double("value"); sx_assume(x > 0); ts.push_back({x, D[i], "T" + std::to_string(i)}); }
  addLimits(b, two, 0, perm, ts);
  double p = sx_double("flow"); b.getTerminal(two ? Branch::Side::TWO : Branch::Side::ONE).setP(p); b.getTerminal(two ? Branch::Side::ONE : Branch::Side::TWO).setP(1e6);
  double red = 1.0; bool dflt = sx_bool("default"); if (!dflt) { static const double R[] = {1.0, 0.5, 2.0}; red = R[k > sx_bound(1, 2) ? 0 : sx_choose("reduction", 3)]; }
  checkSide(b, two ? Branch::Side::TWO : Branch::Side::ONE, LimitType::ACTIVE_POWER, p, true, perm, ts, red, dflt);
  checkSide(b, two ? Branch::Side::ONE : Branch::Side::TWO, LimitType::ACTIVE_POWER, 1e6, false, NaN, {}, red, dflt);
  checkSide(b, two ? Branch::Side::TWO : Branch::Side::ONE, LimitType::CURRENT, b.getTerminal(two ? Branch::Side::TWO : Branch::Side::ONE).getI(), false, NaN, {}, red, dflt);
}
// both sides and every kind of limit at once
SX_HARNESS(sides) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "A", false); VoltageLevel& v = mkVl(s, "B", false); mkBus(a, "A0").setV(400.0); mkBus(v, "B0").setV(200.0);
  Branch& b = mkLineB(n, "L", "A", "A0", "B", "B0"); struct Set { bool has = false; double perm = NaN; std::vector<TL> ts; } sets[2][3];
  for (int d = 0; d < 2; ++d) for (int t = 0; t < 3; ++t) { Set& x = sets[d][t]; x.has = sx_bool("has"); if (!x.has) continue; x.perm = 100.0 * (t + 1) + d; x.ts = {{x.perm * 2, 600UL + 10 * t + d, "T"}, {x.perm * 4, 60UL + 10 * t + d, "U"}}; addLimits(b, d == 1, t, x.perm, x.ts); }
  static const double P[] = {0.0, 110.0, 250.0, 450.0, 2000.0, NaN}; 
  for (int d = 0; d < 2; ++d) { double p = P[sx_choose("flow", 6)]; b.getTerminal(d ? Branch::Side::TWO : Branch::Side::ONE).setP(p).setQ(d ? 10.0 : 0.0); }
  unsigned long dur = std::numeric_limits<unsigned long>::max(); bool over = false; double red = sx_thorough() ? 0.9 : 0.5; bool overR = false;
  for (int d = 0; d < 2; ++d) { auto side = d ? Branch::Side::TWO : Branch::Side::ONE; auto& t = b.getTerminal(side);
    for (int k = 0; k < 3; ++k) { Set& x = sets[d][k]; double i = k == 0 ? t.getP() : k == 1 ? t.getI() : std::sqrt(t.getP() * t.getP() + t.getQ() * t.getQ()); checkSide(b, side, TYPES[k], i, x.has, x.perm, x.ts, 1.0, true); checkSide(b, side, TYPES[k], i, x.has, x.perm, x.ts, red, false);
      if (k == 1 && x.has && i == i) { if (i >= x.perm) over = true; if (i >= x.perm * red) overR = true; if (i >= x.perm && i < x.ts[0].value) dur = std::min(dur, x.ts[0].duration); else if (i >= x.ts[0].value && i < x.ts[1].value) dur = std::min(dur, x.ts[1].duration); } } }
  sx_assert_msg(b.isOverloaded() == over && b.isOverloaded(red) == overR, "overloaded iff the current limit of a side is exceeded"); sx_assert_msg(b.getOverloadDuration() == dur, "the overload duration is the shortest of both sides");
  sx_reach("end");
}
// accepted iff valid; refused: nothing changed; accepted: the limits of that kind at that place are replaced, nothing else
struct T { double v; int d; std::string name; bool unique, fict; };
template <typename A> static void run(A a, double perm, const std::vector<T>& ts) {
  a.setPermanentLimit(perm);
  for (auto& t : ts) { auto x = a.beginTemporaryLimit(); x.setName(t.name).setValue(t.v).setFictitious(t.fict); if (t.d >= 0) x.setAcceptableDuration(static_cast<unsigned long>(t.d)); if (t.unique) x.ensureNameUnicity(); x.endTemporaryLimit(); }
  a.add();
}
SX_HARNESS(adding) {
  Network n = mkNet("full"); buildFull(n); static const char* const PLACES[] = {"LINE", "TIE", "TWT", "DL", "T3"}; int place = static_cast<int>(sx_choose("place", 5)), sub = place == 3 ? 0 : static_cast<int>(sx_choose("side", place == 4 ? 3 : 2)), type = static_cast<int>(sx_choose("type", 3));
  double perm = sx_double("permanent"); std::vector<T> ts; bool simple = place != 0 && place != 4 && !sx_thorough(); int k = simple ? 1 : static_cast<int>(sx_choose("temporary limits", 3));
  static const char* const NAMES[] = {"a", "a#0", ""}; static const int DUR[] = {60, -1, 600};
  for (int i = 0; i < k; ++i) { T t; t.v = sx_double("value"); t.d = DUR[i == 0 ? sx_choose("duration", 2) : 2]; t.name = simple ? "a" : NAMES[sx_choose("name", 3)]; t.unique = !simple && i == 1 && sx_bool("unique"); t.fict = i == 0; ts.push_back(t); }
  bool ok = !(perm <= 0); std::map<int, std::pair<std::string, double>, std::greater<int>> want; std::map<int, bool> fict;
  for (auto& t : ts) {
    if (!(t.v > 0) || t.d < 0 || t.name.empty()) { ok = false; break; }
    std::string nm = t.name; auto used = [&](const std::string& x) { for (auto& w : want) if (w.second.first == x) return true; return false; };
    if (t.unique) { int q = 0; while (used(nm)) nm = t.name + "#" + std::to_string(q++); }
    if (used(nm)) ok = false;
    want[t.d] = {nm, t.v}; fict[t.d] = t.fict;
  }
  static const char* const TY[] = {"al", "cl", "sl"}; std::string key = std::string(PLACES[place]) + "." + (place == 4 ? "leg" + std::to_string(sub + 1) + "." + TY[type] : place == 3 ? std::string(TY[type]) : TY[type] + std::to_string(sub + 1)) + ".";
  Desc before = describe(n); bool done = true;
  try {
    if (place == 4) { auto& t3 = n.getThreeWindingsTransformer("T3"); ThreeWindingsTransformer::Leg& l = sub == 0 ? t3.getLeg1() : sub == 1 ? t3.getLeg2() : t3.getLeg3(); if (type == 0) run(l.newActivePowerLimits(), perm, ts); else if (type == 1) run(l.newCurrentLimits(), perm, ts); else run(l.newApparentPowerLimits(), perm, ts); }
    else if (place == 3) { DanglingLine& l = n.getDanglingLine("DL"); if (type == 0) run(l.newActivePowerLimits(), perm, ts); else if (type == 1) run(l.newCurrentLimits(), perm, ts); else run(l.newApparentPowerLimits(), perm, ts); }
    else { Branch& l = n.getBranch(PLACES[place]); if (type == 0) run(sub ? l.newActivePowerLimits2() : l.newActivePowerLimits1(), perm, ts); else if (type == 1) run(sub ? l.newCurrentLimits2() : l.newCurrentLimits1(), perm, ts); else run(sub ? l.newApparentPowerLimits2() : l.newApparentPowerLimits1(), perm, ts); }
  } catch (const ValidationException&) { done = false; }
  sx_assert_msg(done == ok, "limits are accepted iff valid");
  Desc after = describe(n);
  if (!done) { sameDesc(before, after); sx_reach("refused"); return; }
  sameDesc(before, after, [&](const std::string& x) { return x.compare(0, key.size(), key) == 0; });
  Desc w, g; for (auto& x : after.v) if (x.key.compare(0, key.size(), key) == 0) g.v.push_back(x);
  w.pre = key; w.d("permanent", perm); int c = 0; for (auto& t : want) { std::string q = std::to_string(++c); w.i(q + ".duration", t.first); w.s(q, t.second.first); w.d(q + ".value", t.second.second); w.b(q + ".fict", fict[t.first]); }
  sameDesc(w, g); sx_reach("added");
}
// the permanent limit is changed iff valid; lookups of temporary limits
SX_HARNESS(changing) {
  Network n = mkNet("full"); buildFull(n); double x = sx_double("permanent"); int w = static_cast<int>(sx_choose("limits", 4)); Desc before = describe(n); bool done = true;
  LoadingLimits* l = w == 0 ? static_cast<LoadingLimits*>(&n.getLine("LINE").getCurrentLimits1().get()) : w == 1 ? static_cast<LoadingLimits*>(&n.getLine("LINE").getApparentPowerLimits2().get()) : w == 2 ? static_cast<LoadingLimits*>(&n.getDanglingLine("DL").getCurrentLimits().get()) : static_cast<LoadingLimits*>(&n.getThreeWindingsTransformer("T3").getLeg3().getActivePowerLimits().get());
  try { l->setPermanentLimit(x); } catch (const ValidationException&) { done = false; }
  sx_assert_msg(done == !(x <= 0), "a permanent limit is accepted iff valid"); if (done) sx_assert(same(l->getPermanentLimit(), x));
  static const char* const K[] = {"LINE.cl1.permanent", "LINE.sl2.permanent", "DL.cl.permanent", "T3.leg3.al.permanent"}; std::string key = K[w];
  sameDesc(before, describe(n), [&](const std::string& k) { return done && k == key; });
  int64_t d = sx_int("duration", 0, 1300); bool known = false; double v = NaN; for (const auto& t : l->getTemporaryLimits()) if (t.getAcceptableDuration() == static_cast<unsigned long>(d)) { known = true; v = t.getValue(); }
  double got = l->getTemporaryLimitValue(static_cast<unsigned long>(d)); sx_assert_msg(known ? got == v : isnan_(got), "the temporary limit of a duration"); if (known) sx_assert(l->getTemporaryLimit(static_cast<unsigned long>(d)).getValue() == v);
  sx_reach(done ? "changed" : "refused");
}
// current through a terminal: S / (sqrt(3) U)
SX_HARNESS(current) {
  Network n = mkNet("full"); buildFull(n); Terminal& t = sx_bool("side 2") ? n.getLine("LINE").getTerminal2() : n.getLine("LINE").getTerminal1(); static const double V[] = {NaN, 1.0, 225.0, 400.0, 3000.0}, P[] = {NaN, 0.0, -120.0, 35.5, 1000.0};
  double v = V[sx_choose("v", 5)], p = P[sx_choose("p", 5)], q = P[sx_choose("q", 5)]; t.getBusBreakerView().getBus().get().setV(v); t.setP(p).setQ(q);
  double i = t.getI(), right = std::sqrt(p * p + q * q) * 1000.0 / (std::sqrt(3.0) * v), wrong = std::sqrt(p * p + q * q) * v / 1000.0 / std::sqrt(3.0);
  auto near = [](double x, double y) { return same(x, y) || std::fabs(x - y) <= 1e-9 * std::fabs(y); };
  if (!near(i, right)) { if (near(i, wrong)) __sx_api_known("terminal_current_multiplied_by_the_voltage"); sx_fail("the current of a terminal is S / (sqrt(3) U)"); }
  sx_reach("current");
}
// the limits of a holder: those given, one by kind; one is replaced, or removed, without a trace on the others
SX_HARNESS(collection) {
  Network n = mkNet("full"); buildFull(n); if (sx_choose("situation", 2)) unsettle(n);
  int place = static_cast<int>(sx_choose("place", 8)); static const char* const ID[] = {"LNN", "LNN", "TIE", "TIE", "DL", "T3", "T3", "T3"};
  Branch* b = place < 4 ? &n.getBranch(ID[place]) : nullptr; bool two = place % 2 == 1; FlowsLimitsHolder* h = place == 4 ? static_cast<FlowsLimitsHolder*>(&n.getDanglingLine("DL")) : nullptr;
  if (place > 4) { auto& t = n.getThreeWindingsTransformer("T3"); h = place == 5 ? &t.getLeg1() : place == 6 ? &t.getLeg2() : &t.getLeg3(); }
  auto get = [&](int k) -> LoadingLimits* {
    if (b) { auto side = two ? Branch::Side::TWO : Branch::Side::ONE; auto r = b->getLimits(TYPES[k], side); return r ? &r.get() : nullptr; }
    if (k == 0) { auto r = h->getActivePowerLimits(); return r ? &r.get() : nullptr; } if (k == 1) { auto r = h->getCurrentLimits(); return r ? &r.get() : nullptr; } auto r = h->getApparentPowerLimits(); return r ? &r.get() : nullptr;
  };
  auto add = [&](int k, double v) -> LoadingLimits* {
    if (k == 0) { auto a = b ? (two ? b->newActivePowerLimits2() : b->newActivePowerLimits1()) : h->newActivePowerLimits(); return &a.setPermanentLimit(v).add(); }
    if (k == 1) { auto a = b ? (two ? b->newCurrentLimits2() : b->newCurrentLimits1()) : h->newCurrentLimits(); return &a.setPermanentLimit(v).add(); }
    auto a = b ? (two ? b->newApparentPowerLimits2() : b->newApparentPowerLimits1()) : h->newApparentPowerLimits(); return &a.setPermanentLimit(v).add();
  };
  std::map<int, double> want; for (int k = 0; k < 3; ++k) if (LoadingLimits* l = get(k)) want[k] = l->getPermanentLimit();
  auto check = [&]() {
    std::set<const OperationalLimits*> all;
    for (int k = 0; k < 3; ++k) { LoadingLimits* l = get(k); sx_assert_msg((l != nullptr) == (want.count(k) != 0), "limits exist iff they were given and not removed"); if (l) { sx_assert(same(l->getPermanentLimit(), want[k])); sx_assert(l->getLimitType() == TYPES[k]); all.insert(l); } }
    if (h) { std::set<const OperationalLimits*> got; for (auto& l : h->getOperationalLimits()) got.insert(&l); sx_assert_msg(got == all, "the limits of a holder are listed"); }
  };
  check(); Desc before = describe(n);
  for (int i = 0; i < sx_bound(3, 4); ++i) {
    int k = static_cast<int>(sx_choose("kind", 3));
    if (sx_choose("remove", 2)) { LoadingLimits* l = get(k); sx_assume(l != nullptr); l->remove(); want.erase(k); sx_reach("removed"); }
    else { double v = 100.0 + i; LoadingLimits* l = add(k, v); want[k] = v; sx_assert(l == get(k)); sx_reach("added"); }
    check();
  }
  std::string pre = std::string(ID[place]) + "."; sameDesc(before, describe(n), [&](const std::string& x) { return x.compare(0, pre.size(), pre) == 0; });
}
