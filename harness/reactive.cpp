// C17: reactive limits.
#include "describe.hpp"
static const double BIG = std::numeric_limits<double>::max();
static ReactiveLimitsHolder& holder(Network& n, unsigned long w) {
  switch (w) { case 0: return n.getGenerator("GENN"); case 1: return n.getBattery("BATN"); case 2: return n.getVscConverterStation("VSC1"); default: return n.getDanglingLine("DL").getGeneration().get(); }
}
static const char* const IDS[] = {"GENN", "BATN", "VSC1", "DL"};
struct Pt { double p, lo, hi; };
static bool near(double x, double y) { return same(x, y) || std::fabs(x - y) <= 1e-9 * (1.0 + std::fabs(y)); }
template <typename T> static bool has(const ReactiveLimitsHolder& h) { try { h.getReactiveLimits<T>(); return true; } catch (const ValidationException&) { return false; } }
static void kind(const ReactiveLimitsHolder& h, bool curve) {
  sx_assert_msg(h.getReactiveLimits<ReactiveLimits>().getKind() == (curve ? ReactiveLimitsKind::CURVE : ReactiveLimitsKind::MIN_MAX), "the kind of the limits");
  sx_assert_msg(has<ReactiveCapabilityCurve>(h) == curve && has<MinMaxReactiveLimits>(h) == !curve, "limits are available as their own type and refused as another one");
}
static bool mine(const std::string& k, const std::string& id) { return k.compare(0, id.size() + 1, id + ".") == 0 && (k.find("curve") != std::string::npos || k.find("minQ") != std::string::npos || k.find("maxQ") != std::string::npos); }
// any points in any order: accepted iff complete, distinct, two or more; then exact at the points and constant outside
SX_HARNESS(points) {
  Network n = anyNetwork(); unsigned long w = sx_choose("holder", 4); ReactiveLimitsHolder& h = holder(n, w);
  int k = static_cast<int>(sx_choose("points", sx_bound(4, 5))); std::vector<Pt> pts; bool ok = k >= 2; Desc before = describe(n); bool done = true;
  int odd = static_cast<int>(sx_choose("incomplete", k + 1)) - 1, what = odd >= 0 ? static_cast<int>(sx_choose("missing", 3)) : 0;
  for (int i = 0; i < k; ++i) { Pt x{sx_double("p"), -10.0 * i - 1, 7.0 * i + 2}; if (i == odd) { if (what == 0) x.p = NaN; else if (what == 1) x.lo = sx_double("minQ"); else x.hi = sx_double("maxQ"); } if (i != odd) sx_assume(x.p == x.p); pts.push_back(x); }
  try {
    auto a = h.newReactiveCapabilityCurve();
    for (auto& x : pts) { auto q = a.beginPoint(); q.setP(x.p); q.setMinQ(x.lo); q.setMaxQ(x.hi); q.endPoint(); }
    a.add();
  } catch (const ValidationException&) { done = false; }
  for (int i = 0; i < k; ++i) { if (!(pts[i].p == pts[i].p) || !(pts[i].lo == pts[i].lo) || !(pts[i].hi == pts[i].hi)) ok = false; for (int j = 0; j < i; ++j) if (pts[i].p == pts[j].p) ok = false; }
  sx_assert_msg(done == ok, "a curve is accepted iff it has two or more complete points of distinct active powers");
  if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); return; }
  std::string id = IDS[w]; sameDesc(before, describe(n), [&](const std::string& x) { return mine(x, id); }); kind(h, true);
  std::sort(pts.begin(), pts.end(), [](const Pt& x, const Pt& y) { return x.p < y.p; });
  const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>(); sx_assert(c.getPointCount() == pts.size() && same(c.getMinP(), pts.front().p) && same(c.getMaxP(), pts.back().p));
  size_t i = 0; for (const auto& x : c.getPoints()) { sx_assert(i < pts.size()); sx_assert_msg(same(x.getP(), pts[i].p) && same(x.getMinQ(), pts[i].lo) && same(x.getMaxQ(), pts[i].hi), "points by increasing active power"); ++i; } sx_assert(i == pts.size());
  for (auto& x : pts) sx_assert_msg(same(c.getMinQ(x.p), x.lo) && same(c.getMaxQ(x.p), x.hi), "the limits at a point are those of the point");
  double p = sx_double("at");
  if (p < pts.front().p) { sx_reach("below"); sx_assert_msg(same(c.getMinQ(p), pts.front().lo) && same(c.getMaxQ(p), pts.front().hi), "below the first point: those of the first point"); }
  else if (p > pts.back().p) { sx_reach("above"); sx_assert_msg(same(c.getMinQ(p), pts.back().lo) && same(c.getMaxQ(p), pts.back().hi), "above the last point: those of the last point"); }
}
// between two points: on the segment that links them
SX_HARNESS(between) {
  Network n = anyNetwork(); unsigned long w = sx_choose("holder", 4); ReactiveLimitsHolder& h = holder(n, w);
  static const Pt SETS[3][4] = {{{0, -8, 8}, {16, -4, 24}, {32, -4, 0}, {64, 12, 64}}, {{-64, 0, 1}, {-32, -16, 33}, {0, 16, 1}, {8, 0, 0}}, {{-8, 5, 5}, {8, -3, 37}, {10, -3, 37}, {1034, 1021, -987}}};
  const Pt* s = SETS[sx_choose("points", 3)]; bool reversed = sx_bool("reversed"); auto a = h.newReactiveCapabilityCurve();
  for (int i = 0; i < 4; ++i) { const Pt& x = s[reversed ? 3 - i : i]; a.beginPoint().setP(x.p).setMinQ(x.lo).setMaxQ(x.hi).endPoint(); } a.add();
  const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
  unsigned long seg = sx_choose("segment", 3); double p; unsigned long f = sx_choose("where", 4); const Pt &l = s[seg], &r = s[seg + 1];
  if (f < 3) p = l.p + (r.p - l.p) * 0.25 * (f + 1); else { p = sx_double("p"); sx_assume(p > l.p && p < r.p); }
  double lo = l.lo + (r.lo - l.lo) / (r.p - l.p) * (p - l.p), hi = l.hi + (r.hi - l.hi) / (r.p - l.p) * (p - l.p);
  sx_assert_msg(near(c.getMinQ(p), lo), "the minimum between two points lies on their segment"); sx_assert_msg(near(c.getMaxQ(p), hi), "the maximum between two points lies on their segment"); sx_reach("between");
}
// the same for any segment, over the reals
SX_HARNESS(segment) {
  Network n = anyNetwork(); unsigned long w = sx_choose("holder", sx_bound(1, 4)); ReactiveLimitsHolder& h = holder(n, w); sx_real();
  double p0 = sx_real_var("p0", -5000, 5000, -12.5), d = sx_real_var("length", 1. / 1048576, 5000, 40.0), f = sx_real_var("where", 0, 1, 0.375), l0 = sx_real_var("minQ 0", -5000, 5000, -30.0), l1 = sx_real_var("minQ 1", -5000, 5000, -55.0), h0 = sx_real_var("maxQ 0", -5000, 5000, 61.0), h1 = sx_real_var("maxQ 1", -5000, 5000, 17.0);
  sx_assume(f > 0); sx_assume(f < 1); bool first = sx_bool("a point before"), last = sx_bool("a point after"), swap = sx_bool("reversed"); auto a = h.newReactiveCapabilityCurve(); auto add = [&](double p, double lo, double hi) { a.beginPoint().setP(p).setMinQ(lo).setMaxQ(hi).endPoint(); };
  if (first) add(-20000.0, 1.0, 2.0); if (swap) add(p0 + d, l1, h1); add(p0, l0, h0); if (!swap) add(p0 + d, l1, h1); if (last) add(20000.0, -3.0, 5.0); a.add();
  const ReactiveLimits& c = h.getReactiveLimits<ReactiveLimits>(); double p = p0 + f * d;
  sx_near(c.getMinQ(p), l0 + f * (l1 - l0), "the minimum between two points lies on their segment"); sx_near(c.getMaxQ(p), h0 + f * (h1 - h0), "the maximum between two points lies on their segment"); sx_reach("segment");
}
// minimum and maximum: accepted iff set and ordered, whatever the active power; each replaces what was there
SX_HARNESS(minmax) {
  Network n = anyNetwork(); unsigned long w = sx_choose("holder", 4); ReactiveLimitsHolder& h = holder(n, w); std::string id = IDS[w];
  if (sx_bool("curve before")) h.newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-1.0).setMaxQ(1.0).endPoint().beginPoint().setP(10.0).setMinQ(-2.0).setMaxQ(2.0).endPoint().add();
  for (int i = 0; i < sx_bound(2, 3); ++i) {
    double lo = sx_double("minQ"), hi = sx_double("maxQ"); Desc before = describe(n); bool done = true;
    try { h.newMinMaxReactiveLimits().setMinQ(lo).setMaxQ(hi).add(); } catch (const ValidationException&) { done = false; }
    sx_assert_msg(done == (lo <= hi), "minimum and maximum are accepted iff set and ordered");
    if (!done) { sameDesc(before, describe(n)); sx_reach("refused"); continue; }
    sameDesc(before, describe(n), [&](const std::string& x) { return mine(x, id); }); kind(h, false);
    double p = sx_double("at"); const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>(); const ReactiveLimits& b = m;
    sx_assert(same(m.getMinQ(), lo) && same(m.getMaxQ(), hi)); sx_assert_msg(same(b.getMinQ(p), lo) && same(b.getMaxQ(p), hi), "the limits do not depend on the active power"); sx_reach("accepted");
  }
}
// a new equipment has no limits; one attribute missing is refused
SX_HARNESS(defaults) {
  Network n = mkNet("N"); Substation& s = mkSub(n, "S"); VoltageLevel& v = mkVl(s, "V", false); mkBus(v, "B"); unsigned long w = sx_choose("holder", 4);
  if (w == 0) { mkGenB(v, "GENN", "B"); }
  else if (w == 1) v.newBattery().setId("BATN").setBus("B").setConnectableBus("B").setP0(1.0).setQ0(2.0).setMinP(-5.0).setMaxP(5.0).add();
  else if (w == 2) v.newVscConverterStation().setId("VSC1").setBus("B").setConnectableBus("B").setLossFactor(1.2).setVoltageSetpoint(405.0).setVoltageRegulatorOn(true).add();
  else v.newDanglingLine().setId("DL").setBus("B").setConnectableBus("B").setR(1.0).setX(2.0).setG(3.0).setB(4.0).setP0(5.0).setQ0(6.0).newGeneration().setMinP(0.0).setMaxP(10.0).setTargetP(4.0).setTargetQ(2.0).setTargetV(390.0).setVoltageRegulationOn(true).add().add();
  ReactiveLimitsHolder& h = holder(n, w); kind(h, false); double p = sx_double("at"); const ReactiveLimits& b = h.getReactiveLimits<ReactiveLimits>();
  sx_assert_msg(b.getMinQ(p) == -BIG && b.getMaxQ(p) == BIG, "a new equipment has no reactive limits");
  Desc before = describe(n); bool done = false; unsigned long miss = sx_choose("missing", 5);
  try {
    if (miss == 0) h.newMinMaxReactiveLimits().setMinQ(0.0).add(); else if (miss == 1) h.newMinMaxReactiveLimits().setMaxQ(0.0).add();
    else { auto a = h.newReactiveCapabilityCurve(); a.beginPoint().setP(0.0).setMinQ(-1.0).setMaxQ(1.0).endPoint(); auto q = a.beginPoint(); if (miss != 2) q.setP(10.0); if (miss != 3) q.setMinQ(-1.0); if (miss != 4) q.setMaxQ(1.0); q.endPoint(); a.add(); }
    done = true;
  } catch (const ValidationException&) {}
  sx_assert_msg(!done, "incomplete limits are refused"); sameDesc(before, describe(n)); sx_reach("end");
}
