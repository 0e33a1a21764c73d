// Exact multivariate polynomials and fractions used to encode real arithmetic for the solver (QF_NRA).
#pragma once
#include <array>
#include <map>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_rational Q;
static const unsigned NV = 32;
typedef std::array<uint8_t, NV> Mono;
struct Poly {
  std::map<Mono, Q> t;
  Poly() {}
  explicit Poly(const Q& c) { if (c != 0) t[Mono{}] = c; }
  static Poly var(unsigned i) { Poly p; Mono m{}; m[i] = 1; p.t[m] = 1; return p; }
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first == Mono{}); }
  Q cst() const { return t.empty() ? Q(0) : t.begin()->second; }
  bool operator<(const Poly& o) const { return t < o.t; } bool operator==(const Poly& o) const { return t == o.t; }
};
static int g_cosOf[NV];  // >= 0: this variable is the sine whose cosine is that variable (s*s is replaced by 1-c*c)
static size_t g_polyMax = 60000; static bool g_polyBig = false;
static void pacc(Poly& r, const Mono& m, const Q& c) {
  for (unsigned i = 0; i < NV; ++i) if (m[i] >= 2 && g_cosOf[i] >= 0) { Mono a = m; a[i] -= 2; pacc(r, a, c); a[g_cosOf[i]] += 2; pacc(r, a, -c); return; }
  auto it = r.t.find(m); if (it == r.t.end()) r.t.emplace(m, c); else { it->second += c; if (it->second == 0) r.t.erase(it); }
}
static Poly padd(const Poly& a, const Poly& b, bool minus = false) { Poly r = a; for (auto& x : b.t) pacc(r, x.first, minus ? Q(-x.second) : x.second); return r; }
static Poly pneg(const Poly& a) { Poly r = a; for (auto& x : r.t) x.second = -x.second; return r; }
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r; if (a.t.size() * b.t.size() > 4000000 || g_polyBig) { g_polyBig = true; return r; }
  for (auto& x : a.t) for (auto& y : b.t) { Mono m; for (unsigned i = 0; i < NV; ++i) m[i] = (uint8_t)(x.first[i] + y.first[i]); pacc(r, m, x.second * y.second); }
  if (r.t.size() > g_polyMax) g_polyBig = true;
  return r;
}
static bool pdiv(const Poly& a, const Poly& f, Poly& q) {  // a == q*f ?
  if (f.zero()) return false;
  Poly rem = a; q = Poly(); auto lf = *f.t.rbegin(); unsigned n = 0;
  while (!rem.zero()) {
    if (++n > 2000) return false;
    auto lr = *rem.t.rbegin(); Mono m; for (unsigned i = 0; i < NV; ++i) { if (lr.first[i] < lf.first[i]) return false; m[i] = (uint8_t)(lr.first[i] - lf.first[i]); }
    Poly s; s.t[m] = lr.second / lf.second; q = padd(q, s); rem = padd(rem, pmul(s, f), true);
    if (!rem.zero() && !(rem.t.rbegin()->first < lr.first)) return false;
  }
  return true;
}
struct Frac {  // n / product of factors
  Poly n; std::map<Poly, unsigned> d;
};
static Poly ppow(const Poly& p, unsigned k) { Poly r(Q(1)); while (k--) r = pmul(r, p); return r; }
static Frac fcancel(Frac a) {
  for (auto it = a.d.begin(); it != a.d.end();) { Poly q; while (it->second && !g_polyBig && pdiv(a.n, it->first, q)) { a.n = q; --it->second; if (a.n.zero()) it->second = 0; } if (!it->second) it = a.d.erase(it); else ++it; }
  return a;
}
static Frac fadd(const Frac& a, const Frac& b, bool minus) {
  Frac r; r.d = a.d; for (auto& x : b.d) { auto& e = r.d[x.first]; e = std::max(e, x.second); }
  auto lift = [&](const Frac& f) { Poly p = f.n; for (auto& x : r.d) { auto it = f.d.find(x.first); unsigned have = it == f.d.end() ? 0 : it->second; if (x.second > have) p = pmul(p, ppow(x.first, x.second - have)); } return p; };
  r.n = padd(lift(a), lift(b), minus); return fcancel(r);
}
static Frac fmul_(const Frac& a, const Frac& b) { Frac r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto& x : b.d) r.d[x.first] += x.second; return fcancel(r); }
static Frac fneg_(Frac a) { a.n = pneg(a.n); return a; }
static Frac finv(const Frac& a) {  // a.n != 0
  Frac r; r.n = Poly(Q(1)); for (auto& x : a.d) r.n = pmul(r.n, ppow(x.first, x.second));
  // the numerator: its coefficient and monomial content apart
  Poly p = a.n; Mono g; g.fill(255); for (auto& x : p.t) for (unsigned i = 0; i < NV; ++i) g[i] = std::min(g[i], x.first[i]);
  Q lead = p.t.rbegin()->second; Poly q; for (auto& x : p.t) { Mono m; for (unsigned i = 0; i < NV; ++i) m[i] = (uint8_t)(x.first[i] - g[i]); q.t[m] = x.second / lead; }
  for (unsigned i = 0; i < NV; ++i) if (g[i]) r.d[Poly::var(i)] += g[i];
  // known factors of the rest
  for (auto& x : a.d) { Poly z; while (!q.isConst() && pdiv(q, x.first, z)) { q = z; r.d[x.first] += 1; } }
  if (q.isConst()) lead *= q.cst(); else r.d[q] += 1;
  for (auto& x : r.n.t) x.second /= lead;
  return fcancel(r);
}
