// C23: values computed at the other end of a branch
#include "common.hpp"
#include <cmath>
#include <powsybl/iidm/util/SV.hpp>
#include <powsybl/iidm/util/LinkData.hpp>
#include <powsybl/stdcxx/math.hpp>

namespace {
struct Cx { double re, im; };
Cx add(Cx a, Cx b) { return {a.re + b.re, a.im + b.im}; }
Cx sub(Cx a, Cx b) { return {a.re - b.re, a.im - b.im}; }
Cx mul(Cx a, Cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
Cx conj(Cx a) { return {a.re, -a.im}; }
Cx inv(Cx a) { double n = a.re * a.re + a.im * a.im; return {a.re / n, -a.im / n}; }
const double RAD = stdcxx::toRadians;

struct Par { double r, x, g1, b1, g2, b2, rho, alpha; };   // alpha in radians
struct End { double p, q, u, a; };
struct Val { double p, q; Cx v; };
// the equivalent circuit: an ideal transformer (rho, alpha) at end 1, then a pi of (g1,b1), r+jx, (g2,b2)
Val other(const Par& z, const End& e, bool one) {
  Cx v{e.u * std::cos(e.a * RAD), e.u * std::sin(e.a * RAD)}, zs{z.r, z.x}, y1{z.g1, z.b1}, y2{z.g2, z.b2}, t{z.rho * std::cos(z.alpha), z.rho * std::sin(z.alpha)};
  if (one) {
    Cx v1 = mul(t, v), i1 = mul(conj({e.p, e.q}), inv(conj(v1)));          // behind the ideal transformer, power is kept
    Cx through = sub(i1, mul(y1, v1)), v2 = sub(v1, mul(through, zs)), i2 = sub(mul(y2, v2), through), s = mul(v2, conj(i2));
    return {s.re, s.im, v2};
  }
  Cx i2 = mul(conj({e.p, e.q}), inv(conj(v))), through = sub(i2, mul(y2, v)), v1 = sub(v, mul(through, zs)), i1 = sub(mul(y1, v1), through), s = mul(v1, conj(i1));
  return {s.re, s.im, mul(v1, inv(t))};
}
}


static const double DEG = 180.0 / 3.14159265358979323846;
static End anyEnd() { End e; e.p = sx_real_var("p", -2000, 2000, 301.5); e.q = sx_real_var("q", -2000, 2000, -57.25); e.u = sx_real_var("u", 1, 1000, 381.5); e.a = sx_real_var("a", -80, 80, 3.5); return e; }
static double anyR(const char* n = "r") { return sx_real_var(n, 0.01, 100, 1.75); }
static double anyX(const char* n = "x") { return sx_real_var(n, -100, 100, 11.5); }
static double anyY(const char* n, double d) { return sx_real_var(n, -0.1, 0.1, d); }
static void eq(const SV& o, const Val& w, bool one) {
  sx_assert_msg(o.getSide() == (one ? Branch::Side::TWO : Branch::Side::ONE), "the values are those of the opposite side");
  sx_near(o.getP(), w.p, "active power at the other end"); sx_near(o.getQ(), w.q, "reactive power at the other end");
  sx_near(o.getU(), std::hypot(w.v.re, w.v.im), "voltage at the other end"); sx_near(o.getA(), std::atan2(w.v.im, w.v.re) * DEG, "angle at the other end");
}
template <typename F> static void eq4(F f, const Val& w) {
  sx_near(f(0), w.p, "active power at the other end, alone"); sx_near(f(1), w.q, "reactive power at the other end, alone");
  sx_near(f(2), std::hypot(w.v.re, w.v.im), "voltage at the other end, alone"); sx_near(f(3), std::atan2(w.v.im, w.v.re) * DEG, "angle at the other end, alone");
}
#define FOUR(sv, ...) [&](int k_) { return k_ == 0 ? (sv).otherSideP(__VA_ARGS__) : k_ == 1 ? (sv).otherSideQ(__VA_ARGS__) : k_ == 2 ? (sv).otherSideU(__VA_ARGS__) : (sv).otherSideA(__VA_ARGS__); }
static SV mk(const End& e, bool one) { return SV(e.p, e.q, e.u, e.a, one ? Branch::Side::ONE : Branch::Side::TWO); }

// values given as numbers
SX_HARNESS(numbers) {
  sx_real(); bool one = sx_choose("side", 2) == 0; End e = anyEnd();
  Par z{anyR(), anyX(), anyY("g1", 1. / 1024), anyY("b1", 1. / 512), anyY("g2", 3. / 4096), anyY("b2", 5. / 4096), sx_real_var("rho", 0.1, 10, 1.125), sx_real_var("alpha", -1.5, 1.5, 0.25)};
  SV sv = mk(e, one); Val w = other(z, e, one);
  sx_assert_msg(sv.getSide() == (one ? Branch::Side::ONE : Branch::Side::TWO), "the side given"); sx_near(sv.getP(), e.p, "p"); sx_near(sv.getQ(), e.q, "q"); sx_near(sv.getU(), e.u, "u"); sx_near(sv.getA(), e.a, "a");
  eq(sv.otherSide(z.r, z.x, z.g1, z.b1, z.g2, z.b2, z.rho, z.alpha), w, one);
  eq4(FOUR(sv, z.r, z.x, z.g1, z.b1, z.g2, z.b2, z.rho, z.alpha), w);
  sx_reach(one ? "from one" : "from two");
}
// the admittance matrix: both ends may carry a ratio and a phase
SX_HARNESS(admittance) {
  sx_real(); bool zero = sx_choose("zero impedance", 2) == 1;
  double r = zero ? 0.0 : anyR(), x = zero ? 0.0 : anyX(), k1 = sx_real_var("k1", 0.1, 10, 1.125), a1 = sx_real_var("a1", -1.5, 1.5, 0.25), k2 = sx_real_var("k2", 0.1, 10, 0.875), a2 = sx_real_var("a2", -1.5, 1.5, -0.5);
  Cx y1{anyY("g1", 1. / 1024), anyY("b1", 1. / 512)}, y2{anyY("g2", 3. / 4096), anyY("b2", 5. / 4096)};
  LinkData::BranchAdmittanceMatrix m = LinkData::calculateBranchAdmittance(r, x, k1, a1, k2, a2, {y1.re, y1.im}, {y2.re, y2.im});
  // currents injected for voltages (v1, v2): behind the transformers the voltage is v/k e^-ja, the current i k e^-ja
  Cx t1{std::cos(a1) * k1, std::sin(a1) * k1}, t2{std::cos(a2) * k2, std::sin(a2) * k2};
  for (int col = 0; col < 2; ++col) {
    Cx v1 = col == 0 ? inv(t1) : Cx{0, 0}, v2 = col == 1 ? inv(t2) : Cx{0, 0}, through = zero ? Cx{0, 0} : mul(sub(v1, v2), inv({r, x}));
    Cx i1 = mul(add(through, mul(y1, v1)), inv(conj(t1))), i2 = mul(sub(mul(y2, v2), through), inv(conj(t2)));
    const std::complex<double>&p = col == 0 ? m.y11 : m.y12, &q = col == 0 ? m.y21 : m.y22;
    sx_near(p.real(), i1.re, "current at end 1"); sx_near(p.imag(), i1.im, "current at end 1 (imaginary)"); sx_near(q.real(), i2.re, "current at end 2"); sx_near(q.imag(), i2.im, "current at end 2 (imaginary)");
  }
  sx_reach(zero ? "zero" : "impedance");
}
SX_HARNESS(line) {
  sx_real(); Network n = fullNetwork(); bool one = sx_choose("side", 2) == 0; int k = (int)sx_choose("kind", 2); End e = anyEnd(); SV sv = mk(e, one); Par z{anyR(), anyX(), anyY("g1", 1. / 1024), anyY("b1", 1. / 512), anyY("g2", 3. / 4096), anyY("b2", 5. / 4096), 1.0, 0.0};
  if (k == 0) { Line& l = n.getLine("LINE"); l.setR(z.r).setX(z.x).setG1(z.g1).setB1(z.b1).setG2(z.g2).setB2(z.b2); eq(sv.otherSide(l), other(z, e, one), one); sx_reach("line"); }
  else { TieLine& t = dynamic_cast<TieLine&>(n.getLine("TIE")); TieLine::HalfLine& h = sx_choose("half", 2) ? t.getHalf2() : t.getHalf1(); h.setR(z.r).setX(z.x).setG1(z.g1).setB1(z.b1).setG2(z.g2).setB2(z.b2); eq4(FOUR(sv, h), other(z, e, one)); sx_reach("half"); }
}
// the characteristics of a tie line are the sums over its halves
SX_HARNESS(tie) {
  sx_real(); Network n = fullNetwork(); TieLine& t = dynamic_cast<TieLine&>(n.getLine("TIE")); const Line& l = t; End e = anyEnd(); bool one = sx_choose("side", 2) == 0;
  Par a{anyR("r 1"), anyX("x 1"), anyY("g1 1", 1. / 1024), anyY("b1 1", 1. / 512), anyY("g2 1", 3. / 4096), anyY("b2 1", 5. / 4096), 1, 0}, b{anyR("r 2"), anyX("x 2"), anyY("g1 2", 7. / 1024), anyY("b1 2", 9. / 512), anyY("g2 2", 11. / 4096), anyY("b2 2", 13. / 4096), 1, 0};
  t.getHalf1().setR(a.r).setX(a.x).setG1(a.g1).setB1(a.b1).setG2(a.g2).setB2(a.b2); t.getHalf(Branch::Side::TWO).setR(b.r).setX(b.x).setG1(b.g1).setB1(b.b1).setG2(b.g2).setB2(b.b2);
  sx_near(l.getR(), a.r + b.r, "resistance of a tie line"); sx_near(l.getX(), a.x + b.x, "reactance of a tie line"); sx_near(l.getG1(), a.g1 + b.g1, "conductance 1 of a tie line"); sx_near(l.getG2(), a.g2 + b.g2, "conductance 2 of a tie line"); sx_near(l.getB1(), a.b1 + b.b1, "susceptance 1 of a tie line"); sx_near(l.getB2(), a.b2 + b.b2, "susceptance 2 of a tie line");
  Par s{a.r + b.r, a.x + b.x, a.g1 + b.g1, a.b1 + b.b1, a.g2 + b.g2, a.b2 + b.b2, 1, 0}; eq(mk(e, one).otherSide(l), other(s, e, one), one); sx_reach("tie");
}
SX_HARNESS(dangling) {
  sx_real(); Network n = fullNetwork(); DanglingLine& l = n.getDanglingLine("DL"); bool one = sx_choose("side", 2) == 0; int k = (int)sx_choose("shunt", 3); End e = anyEnd(); SV sv = mk(e, one);
  double r = anyR(), x = anyX(), g = anyY("g", 1. / 1024), b = anyY("b", 1. / 512); l.setR(r).setX(x).setG(g).setB(b);
  Par z = k == 2 ? Par{r, x, g / 2, b / 2, g / 2, b / 2, 1, 0} : Par{r, x, g, b, 0, 0, 1, 0}; Val w = other(z, e, one);
  if (k == 0) { eq(sv.otherSide(l), w, one); eq4(FOUR(sv, l), w); sx_reach("whole"); } else { eq(sv.otherSide(l, k == 2), w, one); eq4(FOUR(sv, l, k == 2), w); sx_reach(k == 2 ? "split" : "not split"); }
}
// the steps of the two tap changers in use
SX_HARNESS(transformer) {
  sx_real(); Network n = fullNetwork(); TwoWindingsTransformer& t = n.getTwoWindingsTransformer("TWT"); bool one = sx_choose("side", 2) == 0; int kind = (int)sx_choose("changers", 4), k = (int)sx_choose("shunt", 3);
  // with both changers in use, the unknowns are free in three groups, the others at a generic value
  int grp = kind == 3 ? (int)sx_choose("free", 3) : -1; auto var = [&](int g, const char* nm, double lo, double hi, double d) { return grp < 0 || grp == g ? sx_real_var(nm, lo, hi, d) : sx_real_var(nm, d, d, d); };
  End e{sx_real_var("p", -2000, 2000, 301.5), sx_real_var("q", -2000, 2000, -57.25), var(2, "u", 1, 1000, 381.5), var(2, "a", -80, 80, 3.5)}; SV sv = mk(e, one);
  double r = var(0, "r", 0.01, 100, 1.75), x = var(0, "x", -100, 100, 11.5), g = var(1, "g", -0.1, 0.1, 1. / 1024), b = var(1, "b", -0.1, 0.1, 1. / 512), u1 = var(2, "u1", 1, 1000, 400), u2 = var(2, "u2", 1, 1000, 225); t.setR(r).setX(x).setG(g).setB(b).setRatedU1(u1).setRatedU2(u2);
  double rho = u2 / u1, al = 0;
  if (kind & 1) { RatioTapChanger& c = t.getRatioTapChanger(); int p = (int)sx_choose("ratio tap", 2); c.setTapPosition(p - 1); double sr = var(0, "step r", -90, 90, 1.5), sx = var(0, "step x", -90, 90, 2.5), sg = var(1, "step g", -90, 90, 3.5), sb = var(1, "step b", -90, 90, 4.5), sh = var(2, "step rho", 0.5, 2, 1.0625);
    auto& st = c.getCurrentStep(); st.setR(sr).setX(sx).setG(sg).setB(sb).setRho(sh); r *= 1 + sr / 100; x *= 1 + sx / 100; g *= 1 + sg / 100; b *= 1 + sb / 100; rho *= sh; } else t.getRatioTapChanger().remove();
  if (kind & 2) { PhaseTapChanger& c = t.getPhaseTapChanger(); int p = (int)sx_choose("phase tap", 2); c.setTapPosition(p + 2); double sr = var(0, "phase r", -90, 90, -1.5), sx = var(0, "phase x", -90, 90, -2.5), sg = var(1, "phase g", -90, 90, -3.5), sb = var(1, "phase b", -90, 90, -4.5), sh = var(2, "phase rho", 0.5, 2, 0.9375); al = var(2, "phase alpha", -60, 60, 12.5);
    auto& st = c.getCurrentStep(); st.setR(sr).setX(sx).setG(sg).setB(sb).setRho(sh).setAlpha(al); r *= 1 + sr / 100; x *= 1 + sx / 100; g *= 1 + sg / 100; b *= 1 + sb / 100; rho *= sh; } else t.getPhaseTapChanger().remove();
  Par z = k == 2 ? Par{r, x, g / 2, b / 2, g / 2, b / 2, rho, al * RAD} : Par{r, x, g, b, 0, 0, rho, al * RAD}; Val w = other(z, e, one);
  if (k == 0) eq(sv.otherSide(t), w, one); else eq(sv.otherSide(t, k == 2), w, one);
  sx_reach(kind == 3 ? "both changers" : kind == 1 ? "ratio" : kind == 2 ? "phase" : "none");
}
// boundaries of half lines and dangling lines: from the terminal and its bus
SX_HARNESS(boundary) {
  sx_real(); Network n = fullNetwork(); int k = (int)sx_choose("kind", 3); End e = anyEnd(); double r = anyR(), x = anyX();
  n.getBusBreakerView().getBus("D1").get();
  if (k == 0) { DanglingLine& l = n.getDanglingLine("DL"); double g = anyY("g", 1. / 1024), b = anyY("b", 1. / 512); l.setR(r).setX(x).setG(g).setB(b); Terminal& t = l.getTerminal(); t.setP(e.p).setQ(e.q); t.getBusView().getBus().get().setV(e.u).setAngle(e.a);
    const Boundary& bd = l.getBoundary(); Val w = other(Par{r, x, g / 2, b / 2, g / 2, b / 2, 1, 0}, e, true); eq4([&](int i) { return i == 0 ? bd.getP() : i == 1 ? bd.getQ() : i == 2 ? bd.getV() : bd.getAngle(); }, w);
    sx_assert_msg(!bd.getSide() && stdcxx::areSame(bd.getConnectable(), static_cast<const Connectable&>(l)) && bd.getVoltageLevel().getId() == "VN", "the boundary of a dangling line"); sx_reach("dangling"); }
  else { TieLine& tl = dynamic_cast<TieLine&>(n.getLine("TIE")); bool one = k == 1; Branch::Side s = one ? Branch::Side::ONE : Branch::Side::TWO; TieLine::HalfLine& h = tl.getHalf(s); Par z{r, x, anyY("g1", 1. / 1024), anyY("b1", 1. / 512), anyY("g2", 3. / 4096), anyY("b2", 5. / 4096), 1, 0};
    h.setR(z.r).setX(z.x).setG1(z.g1).setB1(z.b1).setG2(z.g2).setB2(z.b2); mkLineB(n, "MORE", "VD", "D2", "VD", "D1"); tl.getTerminal2().connect(); Terminal& t = tl.getTerminal(s); sx_assert(t.isConnected()); t.setP(e.p).setQ(e.q); t.getBusView().getBus().get().setV(e.u).setAngle(e.a);
    const Boundary& bd = h.getBoundary(); eq4([&](int i) { return i == 0 ? bd.getP() : i == 1 ? bd.getQ() : i == 2 ? bd.getV() : bd.getAngle(); }, other(z, e, one));
    sx_assert_msg(bd.getSide() && *bd.getSide() == s && bd.getConnectable().getId() == "TIE" && bd.getVoltageLevel().getId() == (one ? "VB" : "VD"), "the boundary of a half line"); sx_reach(one ? "half 1" : "half 2"); }
}
// without a bus there is no voltage, and nothing can be said of the boundary
SX_HARNESS(nobus) {
  Network n = fullNetwork(); int k = (int)sx_choose("kind", 2); double p = sx_choose("p", 2) ? NaN : 10.0, v = sx_choose("v", 2) ? NaN : 400.0; bool off = sx_choose("off", 2) == 1;
  if (k == 0) { Terminal& t = n.getDanglingLine("DL").getTerminal(); t.setP(p).setQ(3.0); t.getBusView().getBus().get().setV(v).setAngle(1.0); if (off) t.disconnect(); const Boundary& b = n.getDanglingLine("DL").getBoundary(); bool nan = p != p || v != v || off; sx_assert_msg(isnan_(b.getP()) == nan && isnan_(b.getV()) == nan, "known from the terminal and its bus only"); sx_reach(nan ? "unknown" : "known"); }
  else { TieLine& l = dynamic_cast<TieLine&>(n.getLine("TIE")); Terminal& t = l.getTerminal1(); t.setP(p).setQ(3.0); t.getBusView().getBus().get().setV(v).setAngle(1.0); if (off) t.disconnect(); const Boundary& b = l.getHalf1().getBoundary(); bool nan = p != p || v != v || off; sx_assert_msg(isnan_(b.getP()) == nan && isnan_(b.getV()) == nan, "known from the terminal and its bus only"); sx_reach(nan ? "unknown" : "known"); }
}
// the power of a bus is that of the equipment connected to it
SX_HARNESS(busPower) {
  sx_real(); Network n = fullNetwork(); static const char* const VL[] = {"VN", "VB", "VD"}; VoltageLevel& vl = n.getVoltageLevel(VL[sx_choose("voltage level", 3)]); int view = (int)sx_choose("view", 2); int off = (int)sx_choose("off", 7), un = (int)sx_choose("unknown", 7); int i = 0;
  std::vector<Terminal*> ts; for (Connectable& c : vl.getConnectables()) if (c.getType() != ConnectableType::BUSBAR_SECTION) for (Terminal& t : c.getTerminals()) if (t.getVoltageLevel().getId() == vl.getId()) ts.push_back(&t);
  struct V { Terminal* t; double p, q; bool np, nq; }; std::vector<V> vs; std::map<std::string, int> types;
  for (Terminal* t : ts) { ++i; ConnectableType ty = t->getConnectable().get().getType(); if (i == off) t->disconnect(); V v{t, 0, 0, true, true}; bool few = ty == ConnectableType::LINE || ty == ConnectableType::TWO_WINDINGS_TRANSFORMER || ty == ConnectableType::THREE_WINDINGS_TRANSFORMER; std::string id = t->getConnectable().get().getId();
    if (ty != ConnectableType::SHUNT_COMPENSATOR && i != un) { v.np = false; v.p = few ? 1000.0 * i : sx_real_var(("p " + id).c_str(), -1000, 1000, 10.0 * i); t->setP(v.p); }
    if (i != un + 1) { v.nq = false; v.q = few ? 500.0 * i : sx_real_var(("q " + id).c_str(), -1000, 1000, 7.0 * i); t->setQ(v.q); } vs.push_back(v); }
  auto check = [&](Bus& b) { double p = 0, q = 0; bool any = false;
    for (const V& v : vs) { if (!v.t->isConnected()) continue; stdcxx::Reference<Bus> at = view ? v.t->getBusView().getBus() : v.t->getBusBreakerView().getBus(); if (!at || at.get().getId() != b.getId()) continue; any = true;
      switch (v.t->getConnectable().get().getType()) { case ConnectableType::GENERATOR: case ConnectableType::BATTERY: case ConnectableType::LOAD: case ConnectableType::HVDC_CONVERTER_STATION: if (!v.np) p += v.p; if (!v.nq) q += v.q; break; case ConnectableType::SHUNT_COMPENSATOR: case ConnectableType::STATIC_VAR_COMPENSATOR: if (!v.nq) q += v.q; break; default: break; } }
    if (any) { sx_near(b.getP(), p, "active power of a bus"); sx_near(b.getQ(), q, "reactive power of a bus"); sx_reach(view ? "merged" : "bus"); } };
  if (view) for (Bus& b : vl.getBusView().getBuses()) check(b); else for (Bus& b : vl.getBusBreakerView().getBuses()) check(b);
}
