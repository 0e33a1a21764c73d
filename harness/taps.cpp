// C18: tap changers and shunt compensator sections.
#include "describe.hpp"
#include "rules.hpp"
struct St { double v[6]; }; // rho r x g b alpha
struct Ratio {
  typedef RatioTapChanger C; typedef RatioTapChangerStep S; typedef RatioTapChangerHolder H; typedef RatioTapChangerAdder A; static constexpr int N = 5;
  static A make(H& h) { return h.newRatioTapChanger(); } static C& get(H& h) { return h.getRatioTapChanger(); } static bool has(const H& h) { return h.hasRatioTapChanger(); } static bool opt(H& h) { return static_cast<bool>(h.getOptionalRatioTapChanger()) && static_cast<bool>(static_cast<const H&>(h).getOptionalRatioTapChanger()); }
  static void step(A& a, const St& s) { auto b = a.beginStep(); b.setRho(s.v[0]).setR(s.v[1]).setX(s.v[2]).setG(s.v[3]).setB(s.v[4]); b.endStep(); }
  static double alpha(const S&) { return 0; } static void setAlpha(S&, double) {}
  static void regulate(A& a, Terminal& t) { a.setLoadTapChangingCapabilities(true).setTargetV(225.0).setTargetDeadband(1.0).setRegulationTerminal(ref(t)).setRegulating(true); }
};
struct Phase {
  typedef PhaseTapChanger C; typedef PhaseTapChangerStep S; typedef PhaseTapChangerHolder H; typedef PhaseTapChangerAdder A; static constexpr int N = 6;
  static A make(H& h) { return h.newPhaseTapChanger(); } static C& get(H& h) { return h.getPhaseTapChanger(); } static bool has(const H& h) { return h.hasPhaseTapChanger(); } static bool opt(H& h) { return static_cast<bool>(h.getOptionalPhaseTapChanger()) && static_cast<bool>(static_cast<const H&>(h).getOptionalPhaseTapChanger()); }
  static void step(A& a, const St& s) { auto b = a.beginStep(); b.setRho(s.v[0]).setR(s.v[1]).setX(s.v[2]).setG(s.v[3]).setB(s.v[4]).setAlpha(s.v[5]); b.endStep(); }
  static double alpha(const S& s) { return s.getAlpha(); } static void setAlpha(S& s, double x) { s.setAlpha(x); }
  static void regulate(A& a, Terminal& t) { a.setRegulationMode(PhaseTapChanger::RegulationMode::ACTIVE_POWER_CONTROL).setRegulationValue(22.0).setTargetDeadband(1.0).setRegulationTerminal(ref(t)).setRegulating(true); }
};
template <typename T> static double val(const typename T::S& s, int i) { return i == 0 ? s.getRho() : i == 1 ? s.getR() : i == 2 ? s.getX() : i == 3 ? s.getG() : i == 4 ? s.getB() : T::alpha(s); }
template <typename T> static void put(typename T::S& s, int i, double x) { if (i == 0) s.setRho(x); else if (i == 1) s.setR(x); else if (i == 2) s.setX(x); else if (i == 3) s.setG(x); else if (i == 4) s.setB(x); else T::setAlpha(s, x); }
static const int64_t FAR = 1LL << 50;
// any position; one of [low, low + n) is made a constant (one path for each)
static int64_t place(const char* name, long low, long n) { int64_t p = sx_int(name, -FAR, FAR); for (long q = low; q < low + n; ++q) if (p == q) return q; return p; }
template <typename T> static void check(typename T::C& c, const std::vector<St>& st, long low, long tap, bool ask) {
  const typename T::C& cc = c; long n = static_cast<long>(st.size());
  sx_assert_msg(cc.getLowTapPosition() == low && cc.getHighTapPosition() == low + n - 1 && static_cast<long>(cc.getStepCount()) == n, "the range of tap positions"); sx_assert_msg(cc.getTapPosition() == tap, "the tap position");
  int64_t p = ask ? place("position", low, n) : low - 1; const typename T::S* a = nullptr; const typename T::S* b = nullptr; try { a = &cc.getStep(p); } catch (const ValidationException&) {} try { b = &c.getStep(p); } catch (const ValidationException&) {}
  bool in = p >= low && p < low + n; sx_assert_msg((a != nullptr) == in && a == b, "a step is given iff its position is in the range");
  if (in) for (int i = 0; i < T::N; ++i) sx_assert_msg(same(val<T>(*a, i), st[p - low].v[i]), "a step has the values of its position");
  const auto& cur = cc.getCurrentStep(); sx_assert(&cur == &c.getCurrentStep() && &cur == &cc.getStep(tap)); for (int i = 0; i < T::N; ++i) sx_assert_msg(same(val<T>(cur, i), st[tap - low].v[i]), "the current step is that of the tap position");
  long q = low; for (auto& x : cc.getAllSteps()) { sx_assert(x.first == q && &x.second.get() == &cc.getStep(q)); ++q; } sx_assert_msg(q == low + n, "all the steps"); q = low; for (auto& x : c.getAllSteps()) { sx_assert(x.first == q && &x.second.get() == &cc.getStep(q)); ++q; } sx_assert(q == low + n);
}
template <typename T> static typename T::H& holder(Network& n, int w) { auto& t3 = n.getThreeWindingsTransformer("T3"); if (w == 0) return n.getTwoWindingsTransformer("TWT"); return w == 1 ? t3.getLeg1() : w == 2 ? t3.getLeg2() : t3.getLeg3(); }
template <typename T> static std::string key(int w) { std::string k = T::N == 5 ? "rtc" : "ptc"; return w == 0 ? "TWT." + k : "T3.leg" + std::to_string(w) + "." + k; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
template <typename T> static void life(Network& n, int w) {
  auto& h = holder<T>(n, w); std::string k = key<T>(w); Desc before = describe(n); bool had = T::has(h); sx_assert(T::opt(h) == had);
  int cnt = static_cast<int>(sx_choose("steps", 4)); static const int64_t LOWS[] = {0, -4, 3, 1LL << 40}; bool noTap = sx_bool("no position"), noLow = !noTap && sx_bool("no low"); int64_t low = noTap || noLow ? 0 : LOWS[w == 0 || sx_thorough() ? sx_choose("low", sx_bound(3, 4)) : 1], tap = noTap ? 0 : place("tap", low, cnt); std::vector<St> st; bool ok = cnt > 0 && !noTap;
  int any = cnt == sx_bound(2, 3) && low == (noLow ? 1 : w ? -4 : 0) ? static_cast<int>(sx_choose("free value", T::N + 1)) - 1 : -1;
  for (int i = 0; i < cnt; ++i) { St s; for (int j = 0; j < 6; ++j) s.v[j] = 100.0 * i + j + 0.5; if (i == cnt - 1 && any >= 0) { s.v[any] = sx_double("step value"); if (!(s.v[any] == s.v[any])) ok = false; } st.push_back(s); }
  if (tap < low || tap >= low + cnt) ok = false; bool done = true;
  try { auto a = T::make(h); if (!noLow) a.setLowTapPosition(low); if (!noTap) a.setTapPosition(tap); for (auto& s : st) T::step(a, s); a.add(); } catch (const ValidationException&) { done = false; }
  sx_assert_msg(done == ok, "a tap changer is accepted iff its position is one of its complete steps");
  if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); return; }
  sameDesc(before, describe(n), [&](const std::string& x) { return starts(x, k); }); sx_assert(T::has(h) && T::opt(h)); typename T::C& c = T::get(h); unsigned long ask = any >= 0 ? 1 : sx_choose("ask", 3); check<T>(c, st, low, tap, ask == 0); sx_reach("added");
  // another position in another variant
  auto& vm = n.getVariantManager(); vm.cloneVariant(VariantManager::getInitialVariantId(), "V"); vm.setWorkingVariant("V"); int64_t t2 = place("other tap", low, cnt); bool in = t2 >= low && t2 < low + cnt; done = true;
  try { c.setTapPosition(t2); } catch (const ValidationException&) { done = false; } sx_assert_msg(done == in, "a position is accepted iff it is one of the steps"); if (!in) t2 = tap; else sx_reach("moved");
  static const int64_t NEW[] = {-5, 2, 0}; int64_t low2 = NEW[sx_choose("new low", sx_bound(2, 3))]; c.setLowTapPosition(low2); int j = cnt - 1; double x = sx_double("new value"); int f = any >= 0 ? any : 0; put<T>(c.getStep(low2 + j), f, x); st[j].v[f] = x;
  check<T>(c, st, low2, t2 + low2 - low, ask == 1); vm.setWorkingVariant(VariantManager::getInitialVariantId()); check<T>(c, st, low2, tap + low2 - low, ask == 2);
  c.remove(); sx_assert_msg(!T::has(h) && !T::opt(h), "removed"); bool refused = false; try { T::get(h); } catch (const PowsyblException&) { refused = true; } sx_assert(refused); sameDesc(before, describe(n), [&](const std::string& y) { return starts(y, k); });
  for (auto& y : describe(n).v) sx_assert_msg(!starts(y.key, k), "nothing is left of a removed tap changer"); sx_reach("removed");
}
SX_HARNESS(ratio) { Network n = sx_thorough() ? anyNetwork() : fullNetwork(); life<Ratio>(n, static_cast<int>(sx_choose("holder", 4))); }
SX_HARNESS(phase) { Network n = sx_thorough() ? anyNetwork() : fullNetwork(); life<Phase>(n, static_cast<int>(sx_choose("holder", 4))); }
// at most one tap changer of a transformer regulates, whatever is added, replaced, removed or switched
template <typename T> static bool op(Network& n, int w, int what, bool on) {
  auto& h = holder<T>(n, w); St s{{1.0, 0, 0, 0, 0, 0}};
  try {
    if (what == 0) { auto a = T::make(h); a.setLowTapPosition(0).setTapPosition(0); T::step(a, s); T::regulate(a, n.getTwoWindingsTransformer("TWT").getTerminal2()); a.setRegulating(on); a.add(); }
    else if (what == 1) { if (!T::has(h)) return true; T::get(h).setRegulating(on); }
    else if (T::has(h)) T::get(h).remove();
  } catch (const ValidationException&) { return false; }
  return true;
}
template <typename H> static int state(const H& h, bool r) { return r ? (h.hasRatioTapChanger() ? 1 + h.getRatioTapChanger().isRegulating() : 0) : (h.hasPhaseTapChanger() ? 1 + h.getPhaseTapChanger().isRegulating() : 0); }
SX_HARNESS(one_regulates) {
  Network n = fullNetwork(); bool three = sx_bool("three windings"); auto& t = n.getTwoWindingsTransformer("TWT"); auto& t3 = n.getThreeWindingsTransformer("T3"); t3.getLeg2().getRatioTapChanger().setTargetDeadband(1.0);
  { auto a = t3.getLeg1().newPhaseTapChanger(); Phase::step(a, St{{1, 0, 0, 0, 0, 0}}); a.setLowTapPosition(0).setTapPosition(0); Phase::regulate(a, t3.getLeg1().getTerminal()); a.setRegulating(false); a.add(); t.getRatioTapChanger().setRegulating(false); }
  auto all = [&]() { std::vector<int> s; if (!three) { s.push_back(state(t, true)); s.push_back(state(t, false)); } else for (int i = 1; i <= 3; ++i) { const auto& l = i == 1 ? t3.getLeg1() : i == 2 ? t3.getLeg2() : t3.getLeg3(); s.push_back(state(l, true)); s.push_back(state(l, false)); } return s; };
  for (int i = 0, k = three ? sx_bound(2, 3) : sx_bound(3, 4); i < k; ++i) {
    std::vector<int> s = all(); int w = three ? 1 + static_cast<int>(sx_choose("leg", 3)) : 0; bool r = sx_bool("ratio"); size_t me = three ? 2 * (w - 1) + (r ? 0 : 1) : (r ? 0 : 1); int what = static_cast<int>(sx_choose("op", 3)); bool on = what < 2 && sx_bool("on");
    bool other = false; for (size_t j = 0; j < s.size(); ++j) if (j != me && s[j] == 2) other = true; bool ok = !(on && other) || (what == 1 && s[me] == 0);
    bool done = r ? op<Ratio>(n, w, what, on) : op<Phase>(n, w, what, on); sx_assert_msg(done == ok, "a tap changer may regulate iff no other one of its transformer does");
    if (done) { if (what == 0) s[me] = 1 + on; else if (what == 1 && s[me]) s[me] = 1 + on; else if (what == 2) s[me] = 0; } sx_assert_msg(all() == s, "the tap changers of the transformer"); sx_reach(done ? "accepted" : "refused");
  }
}
// shunt compensators: b and g follow the sections in service
SX_HARNESS(linear) {
  Network n = anyNetwork(); VoltageLevel& v = n.getVoltageLevel("VB"); double b = sx_double("b"), g = sx_double("g"); bool noG = sx_bool("no g"), noMax = sx_bool("no maximum"), noCount = !noMax && sx_bool("no count"); int64_t m = noMax ? 0 : static_cast<int64_t>(sx_choose("maximum", sx_bound(4, 6))), c = noCount ? 0 : static_cast<int64_t>(sx_choose("count", sx_bound(5, 7))); Desc before = describe(n); bool done = true;
  try { auto a = v.newShuntCompensator(); a.setId("NEW").setBus("B1").setConnectableBus("B1"); if (!noCount) a.setSectionCount(static_cast<unsigned long>(c)); auto l = a.newLinearModel(); l.setBPerSection(b); if (!noG) l.setGPerSection(g); if (!noMax) l.setMaximumSectionCount(static_cast<unsigned long>(m)); l.add().add(); } catch (const ValidationException&) { done = false; }
  bool ok = b == b && !noMax && !noCount && m > 0 && c <= m; sx_assert_msg(done == ok, "a shunt compensator is accepted iff its sections are valid"); if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); return; }
  ShuntCompensator& s = n.getShuntCompensator("NEW"); const ShuntCompensator& cs = s; auto& l = s.getModel<ShuntCompensatorLinearModel>(); double gg = noG || g != g ? 0.0 : g; bool g0 = noG || g != g; sx_reach("added");
  for (int i = 0, e = sx_bound(1, 2); i <= e; ++i) {
    sx_assert(cs.getModelType() == ShuntCompensatorModelType::LINEAR && static_cast<int64_t>(s.getMaximumSectionCount()) == m && static_cast<int64_t>(s.getSectionCount()) == c && same(l.getBPerSection(), b));
    for (int64_t q = 0; q <= m; ++q) { sx_assert_msg(same(cs.getB(static_cast<unsigned long>(q)), b * static_cast<double>(q)), "b of a number of sections"); sx_assert_msg(g0 ? cs.getG(static_cast<unsigned long>(q)) == 0.0 : same(cs.getG(static_cast<unsigned long>(q)), gg * static_cast<double>(q)), "g of a number of sections"); if (q == c) sx_assert_msg(same(cs.getB(), b * static_cast<double>(q)) && (g0 ? cs.getG() == 0.0 : same(cs.getG(), gg * static_cast<double>(q))), "b and g of the sections in service"); }
    int64_t over = sx_int("over", 0, 8); bool threw = false; try { cs.getB(static_cast<unsigned long>(over)); } catch (const PowsyblException&) { threw = true; } bool threwG = false; try { cs.getG(static_cast<unsigned long>(over)); } catch (const PowsyblException&) { threwG = true; } sx_assert_msg(threw == (over > m) && threwG == threw, "sections beyond the maximum are refused");
    bool wrong = false; try { s.getModel<ShuntCompensatorNonLinearModel>(); } catch (const ValidationException&) { wrong = true; } sx_assert_msg(wrong, "a model is available as its own type only");
    if (i == e) break; done = true; unsigned long what = sx_choose("change", 4); int64_t x = what < 2 ? static_cast<int64_t>(sx_choose("new", sx_bound(6, 8))) : 0; double y = sx_double("value");
    try { if (what == 0) s.setSectionCount(static_cast<unsigned long>(x)); else if (what == 1) l.setMaximumSectionCount(static_cast<unsigned long>(x)); else if (what == 2) l.setBPerSection(y); else l.setGPerSection(y); } catch (const ValidationException&) { done = false; }
    ok = what == 0 ? x <= m : what == 1 ? x > 0 && c <= x : what == 2 ? y == y : true; sx_assert_msg(done == ok, "sections are changed iff valid"); if (done) { if (what == 0) c = x; else if (what == 1) m = x; else if (what == 2) b = y; else { gg = y; g0 = y != y; } sx_reach("changed"); }
  }
}
SX_HARNESS(nonlinear) {
  Network n = sx_thorough() ? anyNetwork() : fullNetwork(); VoltageLevel& v = n.getVoltageLevel("VB"); int k = static_cast<int>(sx_choose("sections", sx_bound(4, 5))); bool noCount = sx_bool("no count"); int64_t c = sx_int("count", 0, 5); std::vector<double> b, g; bool ok = k > 0 && !noCount && c <= k; Desc before = describe(n); bool done = true;
  for (int i = 0; i < k; ++i) { b.push_back(i + 1 == k ? sx_double("b") : 3.0 * i - 1); g.push_back(sx_bool("has g") ? i == 0 ? sx_double("g") : 5.0 * i + 2 : NaN); if (!(b[i] == b[i])) ok = false; }
  try { auto a = v.newShuntCompensator(); a.setId("NEW").setBus("B1").setConnectableBus("B1"); if (!noCount) a.setSectionCount(static_cast<unsigned long>(c)); auto l = a.newNonLinearModel(); for (int i = 0; i < k; ++i) { auto s = l.beginSection(); s.setB(b[i]); if (g[i] == g[i]) s.setG(g[i]); s.endSection(); } l.add().add(); } catch (const ValidationException&) { done = false; }
  sx_assert_msg(done == ok, "a shunt compensator is accepted iff its sections are valid"); if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); return; }
  ShuntCompensator& s = n.getShuntCompensator("NEW"); const ShuntCompensator& cs = s; auto& m = s.getModel<ShuntCompensatorNonLinearModel>(); for (int i = 0; i < k; ++i) if (!(g[i] == g[i])) g[i] = i ? g[i - 1] : 0.0; sx_reach("added");
  for (int i = 0; i < 2; ++i) {
    sx_assert(cs.getModelType() == ShuntCompensatorModelType::NON_LINEAR && static_cast<int>(s.getMaximumSectionCount()) == k && static_cast<int64_t>(s.getSectionCount()) == c);
    for (int64_t q = 0; q <= k; ++q) { double wb = q ? b[q - 1] : 0.0, wg = q ? g[q - 1] : 0.0; sx_assert_msg(same(cs.getB(static_cast<unsigned long>(q)), wb), "b of a number of sections"); sx_assert_msg(same(cs.getG(static_cast<unsigned long>(q)), wg), "g of a number of sections"); if (q == c) sx_assert_msg(same(cs.getB(), wb) && same(cs.getG(), wg), "b and g of the sections in service"); }
    int64_t over = sx_int("over", 0, 8); bool threw = false; try { cs.getB(static_cast<unsigned long>(over)); } catch (const PowsyblException&) { threw = true; } bool threwG = false; try { cs.getG(static_cast<unsigned long>(over)); } catch (const PowsyblException&) { threwG = true; } sx_assert_msg(threw == (over > k) && threwG == threw, "sections beyond the maximum are refused");
    int q = 0; for (const auto& x : static_cast<const ShuntCompensatorNonLinearModel&>(m).getAllSections()) { sx_assert(q < k); sx_assert_msg(same(x.getB(), b[q]) && same(x.getG(), g[q]), "the sections in order"); ++q; } sx_assert(q == k); if (i) break;
    done = true; unsigned long what = sx_choose("change", 3); int64_t x = sx_int("new", 0, 6); double y = sx_double("value"); size_t at = what ? sx_choose("section", static_cast<unsigned long>(k)) : 0; size_t z = 0; ok = what ? y == y : x <= k;
    try { if (what == 0) s.setSectionCount(static_cast<unsigned long>(x)); else for (auto& e : m.getAllSections()) if (z++ == at) { if (what == 1) e.setB(y); else e.setG(y); } } catch (const ValidationException&) { done = false; }
    sx_assert_msg(done == ok, "sections are changed iff valid"); if (done) { if (what == 0) c = x; else (what == 1 ? b : g)[at] = y; sx_reach("changed"); }
  }
}
