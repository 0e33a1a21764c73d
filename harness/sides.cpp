// C21: sides, legs, nodes and stations lead to their own terminals, and back.
#include "common.hpp"
#include <boost/range/adaptor/indirected.hpp>
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>
typedef ConnectableType CT; typedef ThreeWindingsTransformer T3;
static std::vector<Terminal*> terms(Network& n) { std::vector<Terminal*> r; for (Connectable& c : n.getConnectables()) for (Terminal& t : c.getTerminals()) r.push_back(&t); return r; }
// an end of a branch: voltage level and bus
static const char* const EV[] = {"VA", "VA", "VB", "VC"}; static const char* const EB[] = {"A1", "A2", "B1", ""};
template <typename A> static void end1(A& a, int e) { a.setVoltageLevel1(EV[e]); if (e == 3) a.setNode1(1); else a.setBus1(EB[e]).setConnectableBus1(EB[e]); }
template <typename A> static void end2(A& a, int e) { a.setVoltageLevel2(EV[e]); if (e == 3) a.setNode2(2); else a.setBus2(EB[e]).setConnectableBus2(EB[e]); }
template <typename A> static void leg(A&& a, int e, int k, double x) { a.setVoltageLevel(EV[e]); if (e == 3) a.setNode(k); else a.setBus(EB[e]).setConnectableBus(EB[e]); a.setR(x).setX(x).setG(x).setB(x).setRatedU(x).add(); }
static bool at(const Terminal& t, int e, unsigned long k) { if (t.getVoltageLevel().getId() != EV[e]) return false; return e == 3 ? t.getNodeBreakerView().getNode() == k : t.getBusBreakerView().getConnectableBus().get().getId() == EB[e]; }
static Network base() { Network n = mkNet(); Substation& s = mkSub(n, "S"); VoltageLevel& a = mkVl(s, "VA", false); mkBus(a, "A1"); mkBus(a, "A2"); mkBus(mkVl(s, "VB", false), "B1"); VoltageLevel& c = mkVl(s, "VC", true); mkBbs(c, "BBS", 0); mkLoadB(a, "LD", "A1"); mkLineB(n, "OTHER", "VA", "A2", "VB", "B1"); return n; }
SX_HARNESS(branches) {
  Network n = base(); int k = sx_choose("kind", 3), a = sx_choose("end 1", 4), b = sx_choose("end 2", 4); Branch* br;
  if (k == 0) { auto x = n.newLine(); x.setId("X").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0); end1(x, a); end2(x, b); br = &x.add(); }
  else if (k == 1) { auto x = n.newTieLine(); x.setId("X").setUcteXnodeCode("U").newHalfLine1().setId("h1").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add().newHalfLine2().setId("h2").setR(1.0).setX(1.0).setG1(0.0).setB1(0.0).setG2(0.0).setB2(0.0).add(); end1(x, a); end2(x, b); br = &x.add(); }
  else { auto x = n.getSubstation("S").newTwoWindingsTransformer(); x.setId("X").setR(1.0).setX(1.0).setG(0.0).setB(0.0).setRatedU1(1.0).setRatedU2(1.0); end1(x, a); end2(x, b); br = &x.add(); }
  const Branch& cb = *br; Terminal &t1 = br->getTerminal1(), &t2 = br->getTerminal2();
  sx_assert_msg(&t1 != &t2 && at(t1, a, 1) && at(t2, b, 2), "the terminals are where they were asked to be"); auto ts = br->getTerminals(); sx_assert(ts.size() == 2 && &ts[0].get() == &t1 && &ts[1].get() == &t2);
  sx_assert(&br->getTerminal(Branch::Side::ONE) == &t1 && &br->getTerminal(Branch::Side::TWO) == &t2 && &cb.getTerminal(Branch::Side::ONE) == &t1 && &cb.getTerminal(Branch::Side::TWO) == &t2 && &cb.getTerminal1() == &t1 && &cb.getTerminal2() == &t2);
  for (Terminal* t : terms(n)) { int s = 0; try { s = cb.getSide(*t) == Branch::Side::ONE ? 1 : 2; } catch (const AssertionError&) { } sx_assert_msg(s == (t == &t1 ? 1 : t == &t2 ? 2 : 0), "the side of a terminal"); sx_assert_msg((&t->getConnectable().get() == br) == (s != 0), "the equipment of a terminal"); }
  int off = sx_choose("disconnected", 3); if (off == 1) t1.disconnect(); if (off == 2) t2.disconnect();
  static const char* const Q[] = {"VA", "VB", "VC", "NONE", "A1", ""}; const char* q = Q[sx_choose("voltage level", 6)]; bool q1 = std::string(q) == EV[a], q2 = std::string(q) == EV[b]; const Terminal *g = nullptr, *h = nullptr;
  try { g = &br->getTerminal(q); } catch (const PowsyblException&) { } try { h = &cb.getTerminal(q); } catch (const PowsyblException&) { } sx_assert_msg(g == h && g == (q1 && !q2 ? &t1 : q2 && !q1 ? &t2 : nullptr), "the terminal in a voltage level"); sx_reach(g ? "found" : q1 ? "both" : "none");
  sx_assert_msg(&n.getBranch("X") == br && !n.find<ThreeWindingsTransformer>("X") && !n.find<Injection>("X"), "the network knows it as a branch"); if (k == 2) sx_assert(&dynamic_cast<TwoWindingsTransformer&>(*br).getSubstation().get() == &n.getSubstation("S")); else sx_assert(dynamic_cast<Line&>(*br).isTieLine() == (k == 1));
  // flows are those of their side
  double p = sx_double("p"), w = sx_double("q"); t2.setP(p); t1.setQ(w); sx_assert(same(br->getTerminal2().getP(), p) && isnan_(br->getTerminal1().getP()) && same(br->getTerminal(Branch::Side::ONE).getQ(), w) && isnan_(t2.getQ()));
}
SX_HARNESS(legs) {
  Network n = base(); int e[3]; auto x = n.getSubstation("S").newThreeWindingsTransformer(); x.setId("X"); for (int i = 0; i < 3; ++i) e[i] = sx_choose("end", 4);
  double v[3]; for (int i = 0; i < 3; ++i) v[i] = i + 1; int f = sx_choose("free", 3); v[f] = sx_double("value"); sx_assume(v[f] > 0 && v[f] < 1e300);
  leg(x.newLeg1(), e[0], 1, v[0]); leg(x.newLeg2(), e[1], 2, v[1]); leg(x.newLeg3(), e[2], 3, v[2]); T3& t = x.add(); const T3& c = t;
  T3::Leg* L[] = {&t.getLeg1(), &t.getLeg2(), &t.getLeg3()}; const T3::Leg* K[] = {&c.getLeg1(), &c.getLeg2(), &c.getLeg3()}; static const T3::Side S[] = {T3::Side::ONE, T3::Side::TWO, T3::Side::THREE};
  auto ts = t.getTerminals(); sx_assert(ts.size() == 3); int i = 0; for (T3::Leg& l : t.getLegs()) sx_assert(i < 3 && &l == L[i++]); sx_assert(i == 3);
  for (i = 0; i < 3; ++i) {
    Terminal& w = ts[i].get(); sx_assert_msg(L[i] == K[i] && at(w, e[i], i + 1), "the terminals are where they were asked to be"); sx_assert(&L[i]->getTerminal() == &w && &K[i]->getTerminal() == &w && &t.getTerminal(S[i]) == &w && &c.getTerminal(S[i]) == &w);
    sx_assert_msg(same(L[i]->getR(), v[i]) && same(L[i]->getX(), v[i]) && same(L[i]->getG(), v[i]) && same(L[i]->getB(), v[i]) && same(L[i]->getRatedU(), v[i]), "the values of a leg");
  }
  sx_assert(same(t.getRatedU0(), v[0])); sx_assert(&t.getSubstation() == &n.getSubstation("S"));
  for (Terminal* w : terms(n)) { int s = -1; try { T3::Side q = c.getSide(*w); s = q == T3::Side::ONE ? 0 : q == T3::Side::TWO ? 1 : 2; } catch (const AssertionError&) { } int want = -1; for (int j = 0; j < 3; ++j) if (&ts[j].get() == w) want = j; sx_assert_msg(s == want, "the side of a terminal"); }
  L[f]->setRatedU(7.0); for (i = 0; i < 3; ++i) sx_assert_msg(same(L[i]->getRatedU(), i == f ? 7.0 : v[i]), "a change of a leg is to that leg only"); sx_reach("end");
}
// terminals, switches and nodes of a node/breaker voltage level, through creations and removals
SX_HARNESS(nodes) {
  Network n = base(); VoltageLevel& v = n.getVoltageLevel("VC"); auto& nv = v.getNodeBreakerView(); const auto& cv = static_cast<const VoltageLevel&>(v).getNodeBreakerView();
  std::map<unsigned long, std::string> on; on[0] = "BBS"; std::map<std::string, std::pair<unsigned long, unsigned long>> sw; std::vector<std::pair<unsigned long, unsigned long>> ics; std::set<unsigned long> used = {0};
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) {
    unsigned long a = sx_choose("node", 4), b = a < 3 ? a + 1 : 0; std::string id = "X" + std::to_string(i); bool free = !on.count(a), ok = true;
    switch (sx_choose("operation", 6)) {
    case 0: try { v.newLoad().setId(id).setNode(a).setP0(0.0).setQ0(0.0).add(); } catch (const ValidationException&) { ok = false; } sx_assert_msg(ok == free, "an equipment is accepted exactly on a free node"); if (ok) on[a] = id; used.insert(a); sx_reach(ok ? "equipment" : "occupied"); break;
    case 1: mkSw(v, id, a, b, sx_bool("open")); sw[id] = {a, b}; used.insert(a); used.insert(b); break;
    case 2: mkIc(v, a, b); ics.push_back({a, b}); used.insert(a); used.insert(b); break;
    case 3: if (on.count(a) && on[a] != "BBS") { std::string x = on[a]; bool branch = x[0] == 'L'; if (branch) for (auto it = on.begin(); it != on.end();) if (it->second == x) it = on.erase(it); else ++it; else on.erase(a); n.get<Connectable>(x).remove(); sx_reach("removed"); } break;
    case 4: if (!sw.empty()) { std::string x = sw.begin()->first; nv.removeSwitch(x); sw.erase(x); } break;
    default: try { Line& l = mkLineN(n, "L" + id, "VC", a, "VC", b); on[a] = on[b] = l.getId(); } catch (const ValidationException&) { ok = false; } sx_assert_msg(ok == (free && !on.count(b)) || (ok && on[a] == "L" + id && free), "a line is accepted exactly on free nodes"); used.insert(a); used.insert(b); break;
    }
  }
  std::set<unsigned long> got; for (unsigned long x : nv.getNodes()) got.insert(x);
  for (auto& o : on) sx_assert(got.count(o.first)); for (auto& s : sw) sx_assert(got.count(s.second.first) && got.count(s.second.second)); for (unsigned long x : got) sx_assert_msg(used.count(x), "the nodes are those used");
  long top = -1; for (unsigned long x : got) top = std::max(top, static_cast<long>(x)); sx_assert(nv.getMaximumNodeIndex() >= top && nv.getMaximumNodeIndex() <= static_cast<long>(*used.rbegin()));
  auto is = [&](const stdcxx::CReference<Terminal>& t, unsigned long x) { sx_assert_msg(static_cast<bool>(t) == (on.count(x) > 0), "a node has a terminal iff an equipment is there"); if (t) sx_assert_msg(t.get().getConnectable().get().getId() == on[x] && t.get().getNodeBreakerView().getNode() == x && &t.get().getVoltageLevel() == &v, "the terminal at a node"); };
  for (unsigned long x = 0; x < 8; ++x) { is(cv.getOptionalTerminal(x), x); is(stdcxx::cref(nv.getOptionalTerminal(x)), x); sx_assert(nv.hasAttachedEquipment(x) == (got.count(x) > 0)); if (got.count(x)) { is(cv.getTerminal(x), x); is(stdcxx::cref(nv.getTerminal(x)), x); } else sx_assert(throwsE<PowsyblException>([&] { nv.getTerminal(x); })); }
  std::set<std::string> ids; for (Switch& s : nv.getSwitches()) ids.insert(s.getId()); sx_assert(ids.size() == sw.size() && nv.getSwitchCount() == sw.size());
  for (auto& s : sw) { sx_assert(ids.count(s.first)); sx_assert_msg(nv.getNode1(s.first) == s.second.first && nv.getNode2(s.first) == s.second.second, "the nodes of a switch"); is(cv.getTerminal1(s.first), s.second.first); is(stdcxx::cref(nv.getTerminal2(s.first)), s.second.second); is(stdcxx::cref(nv.getTerminal1(s.first)), s.second.first); is(cv.getTerminal2(s.first), s.second.second); sx_assert(&nv.getSwitch(s.first).get() == &n.getSwitch(s.first)); }
  sx_assert(throwsE<PowsyblException>([&] { nv.getNode1("NONE"); }) && throwsE<PowsyblException>([&] { nv.getTerminal2("NONE"); }));
  std::multiset<std::pair<unsigned long, unsigned long>> i1, i2; for (const auto& c : nv.getInternalConnections()) i1.insert({c.getNode1(), c.getNode2()}); for (auto& c : ics) i2.insert(c); sx_assert(i1 == i2 && nv.getInternalConnectionCount() == ics.size());
}
// an HVDC line and its stations
SX_HARNESS(stations) {
  Network n = base(); VoltageLevel& a = n.getVoltageLevel("VA"); static const char* const ID[] = {"C0", "C1", "C2", "C3"};
  for (int i = 0; i < 4; ++i) { if (i & 1) a.newLccConverterStation().setId(ID[i]).setLossFactor(1.0).setPowerFactor(0.5).setBus("A1").setConnectableBus("A1").add(); else a.newVscConverterStation().setId(ID[i]).setLossFactor(1.0).setVoltageRegulatorOn(false).setReactivePowerSetpoint(0.0).setBus("A2").setConnectableBus("A2").add(); }
  std::map<std::string, std::pair<int, int>> h;
  for (int i = 0, m = sx_bound(3, 4); i < m; ++i) { std::string id = "H" + std::to_string(sx_choose("line", 2)); auto x = n.find<HvdcLine>(id); int s = sx_choose("station", 4); bool busy = false; for (auto& y : h) busy = busy || y.second.first == s || y.second.second == s;
    if (sx_bool("station or line")) { bool gone = true; if (!n.find(ID[s])) continue; try { n.getHvdcConverterStation(ID[s]).remove(); } catch (const ValidationException&) { gone = false; } sx_assert_msg(gone == !busy, "a station is removed exactly when it has no line"); }
    else if (x) { x.get().remove(); h.erase(id); sx_reach("removed"); }
    else { int t = sx_choose("other", 4); for (auto& y : h) busy = busy || y.second.first == t || y.second.second == t; if (t == s || busy) continue; bool ok = true;
      try { n.newHvdcLine().setId(id).setR(1.0).setNominalV(1.0).setMaxP(1.0).setActivePowerSetpoint(1.0).setConvertersMode(HvdcLine::ConvertersMode::SIDE_1_INVERTER_SIDE_2_RECTIFIER).setConverterStationId1(ID[s]).setConverterStationId2(ID[t]).add(); } catch (const PowsyblException&) { ok = false; } sx_assert(ok == (n.find(ID[s]) && n.find(ID[t]))); if (ok) h[id] = {s, t}; }
  }
  sx_assert(n.getHvdcLineCount() == h.size()); const Network& cn = n;
  for (auto& y : h) { HvdcLine& l = n.getHvdcLine(y.first); const HvdcLine& c = l; auto* s1 = &n.getHvdcConverterStation(ID[y.second.first]); auto* s2 = &n.getHvdcConverterStation(ID[y.second.second]);
    sx_assert_msg(&l.getConverterStation1().get() == s1 && &l.getConverterStation2().get() == s2 && &c.getConverterStation1().get() == s1 && &c.getConverterStation2().get() == s2 && &l.getConverterStation(HvdcLine::Side::ONE).get() == s1 && &c.getConverterStation(HvdcLine::Side::TWO).get() == s2 && &l.getConverterStation(HvdcLine::Side::TWO).get() == s2 && &c.getConverterStation(HvdcLine::Side::ONE).get() == s1, "the stations of a line, by side"); sx_reach("linked"); }
  for (int i = 0; i < 4; ++i) { if (!n.find(ID[i])) { sx_reach("no station"); continue; } HvdcConverterStation& s = n.getHvdcConverterStation(ID[i]); HvdcLine* w = nullptr; for (auto& y : h) if (y.second.first == i || y.second.second == i) w = &n.getHvdcLine(y.first);
    auto g = s.getHvdcLine(); auto f = cn.findHvdcLine(s); auto f2 = n.findHvdcLine(s); sx_assert_msg(static_cast<bool>(g) == (w != nullptr) && static_cast<bool>(f) == (w != nullptr) && static_cast<bool>(f2) == (w != nullptr), "a station has a line iff one was made"); if (w) sx_assert(&g.get() == w && &f.get() == w && &f2.get() == w && &cn.getHvdcLine(s) == w); else sx_assert(throwsE<PowsyblException>([&] { cn.getHvdcLine(s); })); }
}
// the best terminal
static int rank(const Terminal& t) { switch (t.getConnectable().get().getType()) { case CT::BUSBAR_SECTION: return 0; case CT::LINE: case CT::TWO_WINDINGS_TRANSFORMER: return 2; case CT::THREE_WINDINGS_TRANSFORMER: return 3; default: return 1; } }
SX_HARNESS(finder) {
  Network n = anyNetwork(); static const char* const E[] = {"LOADB", "BBS1", "LINE", "TWT", "T3", "VSC1", "DL", "BBS2", "TIE", "LCC2", "GENN", "SHB"}; std::vector<Terminal*> l; std::vector<const Terminal*> cl;
  int k = sx_choose("terminals", sx_bound(4, 5)); for (int i = 0; i < k; ++i) { auto ts = n.get<Connectable>(E[sx_choose("equipment", sx_bound(8, 12))]).getTerminals(); size_t s = ts.size() > 1 && sx_bool("side") ? 1 : 0; l.push_back(&ts[s].get()); cl.push_back(l.back()); }
  const Terminal* want = nullptr; for (auto* t : l) if (!want || rank(*t) < rank(*want)) want = t;
  stdcxx::range<Terminal> r = l | boost::adaptors::indirected; stdcxx::const_range<Terminal> cr = cl | boost::adaptors::indirected; auto g = TerminalFinder::find(r); auto c = TerminalFinder::find(cr);
  sx_assert_msg(static_cast<bool>(g) == (k > 0) && static_cast<bool>(c) == (k > 0), "a terminal is found iff there is one"); if (k) sx_assert_msg(&g.get() == want && &c.get() == want, "the first of the best terminals");
  // any other order
  bool lo = sx_bool("order"); auto less = [&](const Terminal& a, const Terminal& b) { return lo ? rank(a) < rank(b) : rank(a) > rank(b) ; }; want = nullptr; for (auto* t : l) if (!want || less(*want, *t)) want = t; auto o = TerminalFinder::find(less, r); auto co = TerminalFinder::find(less, cr); sx_assert(static_cast<bool>(o) == (k > 0) && static_cast<bool>(co) == (k > 0)); if (k) sx_assert(&o.get() == want && &co.get() == want); sx_reach(k ? "found" : "none");
}
