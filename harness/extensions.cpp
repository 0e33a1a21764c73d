// C25: extensions hold what was given to them, refuse what they must, and survive XML.
#include "xmlnet.hpp"
#include <functional>
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/AbstractMultiVariantIdentifiableExtension.hpp>
#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#define X(n) <powsybl/iidm/extensions/n.hpp>
#include X(iidm/ActivePowerControl)
#include X(iidm/ActivePowerControlAdder)
#include X(iidm/CoordinatedReactiveControl)
#include X(iidm/CoordinatedReactiveControlAdder)
#include X(iidm/DiscreteMeasurement)
#include X(iidm/DiscreteMeasurementAdder)
#include X(iidm/DiscreteMeasurements)
#include X(iidm/DiscreteMeasurementsAdder)
#include X(iidm/HvdcAngleDroopActivePowerControl)
#include X(iidm/HvdcAngleDroopActivePowerControlAdder)
#include X(iidm/HvdcOperatorActivePowerRange)
#include X(iidm/HvdcOperatorActivePowerRangeAdder)
#include X(iidm/Measurement)
#include X(iidm/MeasurementAdder)
#include X(iidm/Measurements)
#include X(iidm/MeasurementsAdder)
#include X(iidm/RemoteReactivePowerControl)
#include X(iidm/RemoteReactivePowerControlAdder)
#include X(iidm/ThreeWindingsTransformerPhaseAngleClock)
#include X(iidm/ThreeWindingsTransformerPhaseAngleClockAdder)
#include X(iidm/TwoWindingsTransformerPhaseAngleClock)
#include X(iidm/TwoWindingsTransformerPhaseAngleClockAdder)
#include X(iidm/VoltagePerReactivePowerControl)
#include X(iidm/VoltagePerReactivePowerControlAdder)
#include X(sld/BranchStatus)
#include X(sld/BranchStatusAdder)
#include X(sld/BusbarSectionPosition)
#include X(sld/BusbarSectionPositionAdder)
#include X(sld/ConnectablePosition)
#include X(sld/ConnectablePositionAdder)
#include X(entsoe/EntsoeArea)
#include X(entsoe/EntsoeAreaAdder)
#include X(entsoe/MergedXnode)
#include X(entsoe/MergedXnodeAdder)
#include X(entsoe/Xnode)
#include X(entsoe/XnodeAdder)
using converter::ExportOptions; using converter::ImportOptions;
namespace ext = powsybl::iidm::extensions; namespace ei = ext::iidm; namespace es = ext::sld; namespace ee = ext::entsoe;
namespace powsybl { namespace iidm { namespace extensions {
namespace iidm { std::vector<std::unique_ptr<ExtensionProvider>> create(); } namespace sld { std::vector<std::unique_ptr<ExtensionProvider>> create(); } namespace entsoe { std::vector<std::unique_ptr<ExtensionProvider>> create(); }
}}}
static void registerAll() {
  static bool done = false; if (done) return; done = true; typedef converter::xml::ExtensionXmlSerializer S; auto& p = ExtensionProviders<S>::getInstance();
  for (auto f : {&ei::create, &es::create, &ee::create}) for (auto& x : f()) p.registerExtension(std::unique_ptr<S>(dynamic_cast<S*>(x.release())));
}
static std::string write(const Network& n, const ExportOptions& o = ExportOptions()) { std::ostringstream os; Network::writeXml("none.xml", os, n, o); return os.str(); }
static Network readX(const std::string& x, const ImportOptions& o = ImportOptions()) { std::istringstream is(x); return Network::readXml("none.xml", is, o); }
// values of the fields of an extension
struct V { double d[6]; unsigned long u[2]; bool b; std::string s; int e; const Terminal* t; };
static bool eq(const V& x, const V& y) { for (int i = 0; i < 6; ++i) if (!same(x.d[i], y.d[i])) return false; return x.u[0] == y.u[0] && x.u[1] == y.u[1] && x.b == y.b && x.s == y.s && x.e == y.e && x.t == y.t; }
static V zero() { return V{{0, 0, 0, 0, 0, 0}, {0, 0}, false, "", 0, nullptr}; }
struct Kind {
  const char* name; const char* id; int nd, nu; bool nb, ns; int ne; bool xml;
  std::function<bool(double)> dok; unsigned long umax;
  std::function<void(Extendable&, const V&)> create; std::function<V(Extendable&)> get; std::function<void(Extendable&, const V&, int)> set; // fields: 0..5 d, 6..7 u, 8 b, 9 s, 10 e
  std::function<bool(const Identifiable&)> on; std::function<bool(const Extendable&)> has; std::function<void(Extendable&)> remove;
};
template <typename E> static void presence(Kind& k) { k.has = [](const Extendable& x) { return static_cast<bool>(x.findExtension<E>()); }; k.remove = [](Extendable& x) { x.removeExtension<E>(); }; }
template <typename T> static bool is(const Identifiable& i) { return dynamic_cast<const T*>(&i) != nullptr; }
static const std::vector<Kind>& kinds() {
  static std::vector<Kind>* r = nullptr; if (r) return *r; r = new std::vector<Kind>();
  auto any = [](double) { return true; }; auto num = [](double x) { return !isnan_(x); };
  auto add = [&](Kind k) -> Kind& { r->push_back(k); return r->back(); };
#define GET(T) auto& y = x.getExtension<T>(); V v = zero()
#define SET(T) auto& y = x.getExtension<T>()
  { typedef ei::ActivePowerControl T; Kind k{"activePowerControl", "GENN", 1, 0, true, false, 0, true, any, 0, [](Extendable& x, const V& v) { x.newExtension<ei::ActivePowerControlAdder>().withParticipate(v.b).withDroop(v.d[0]).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getDroop(); v.b = y.isParticipate(); return v; }, [](Extendable& x, const V& v, int f) { SET(T); if (f == 0) y.setDroop(v.d[0]); else y.setParticipate(v.b); }, [](const Identifiable& i) { return is<Generator>(i) || is<Battery>(i); }}; presence<T>(k); add(k); k.id = "BATN"; add(k); }
  { typedef ei::CoordinatedReactiveControl T; Kind k{"coordinatedReactiveControl", "GENB", 1, 0, false, false, 0, true, num, 0, [](Extendable& x, const V& v) { x.newExtension<ei::CoordinatedReactiveControlAdder>().withQPercent(v.d[0]).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getQPercent(); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setQPercent(v.d[0]); }, is<Generator>}; presence<T>(k); add(k); }
  { typedef ei::HvdcAngleDroopActivePowerControl T; Kind k{"hvdcAngleDroopActivePowerControl", "HVSC", 2, 0, true, false, 0, true, num, 0, [](Extendable& x, const V& v) { x.newExtension<ei::HvdcAngleDroopActivePowerControlAdder>().withP0(v.d[0]).withDroop(v.d[1]).withEnabled(v.b).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getP0(); v.d[1] = y.getDroop(); v.b = y.isEnabled(); return v; }, [](Extendable& x, const V& v, int f) { SET(T); if (f == 0) y.setP0(v.d[0]); else if (f == 1) y.setDroop(v.d[1]); else y.setEnabled(v.b); }, is<HvdcLine>}; presence<T>(k); add(k); }
  { typedef ei::HvdcOperatorActivePowerRange T; Kind k{"hvdcOperatorActivePowerRange", "HLCC", 2, 0, false, false, 0, true, [](double x) { return !(x < 0); }, 0, [](Extendable& x, const V& v) { x.newExtension<ei::HvdcOperatorActivePowerRangeAdder>().withOprFromCS1toCS2(v.d[0]).withOprFromCS2toCS1(v.d[1]).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getOprFromCS1toCS2(); v.d[1] = y.getOprFromCS2toCS1(); return v; }, [](Extendable& x, const V& v, int f) { SET(T); if (f == 0) y.setOprFromCS1toCS2(v.d[0]); else y.setOprFromCS2toCS1(v.d[1]); }, is<HvdcLine>}; presence<T>(k); add(k); }
  { typedef ei::TwoWindingsTransformerPhaseAngleClock T; Kind k{"twoWindingsTransformerPhaseAngleClock", "TWT", 0, 1, false, false, 0, true, any, 11, [](Extendable& x, const V& v) { x.newExtension<ei::TwoWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClock(v.u[0]).add(); },
    [](Extendable& x) { GET(T); v.u[0] = y.getPhaseAngleClock(); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setPhaseAngleClock(v.u[0]); }, is<TwoWindingsTransformer>}; presence<T>(k); add(k); }
  { typedef ei::ThreeWindingsTransformerPhaseAngleClock T; Kind k{"threeWindingsTransformerPhaseAngleClock", "T3", 0, 2, false, false, 0, true, any, 11, [](Extendable& x, const V& v) { x.newExtension<ei::ThreeWindingsTransformerPhaseAngleClockAdder>().withPhaseAngleClockLeg2(v.u[0]).withPhaseAngleClockLeg3(v.u[1]).add(); },
    [](Extendable& x) { GET(T); v.u[0] = y.getPhaseAngleClockLeg2(); v.u[1] = y.getPhaseAngleClockLeg3(); return v; }, [](Extendable& x, const V& v, int f) { SET(T); if (f == 6) y.setPhaseAngleClockLeg2(v.u[0]); else y.setPhaseAngleClockLeg3(v.u[1]); }, is<ThreeWindingsTransformer>}; presence<T>(k); add(k); }
  { typedef ei::VoltagePerReactivePowerControl T; Kind k{"voltagePerReactivePowerControl", "SVC", 1, 0, false, false, 0, true, [](double x) { return x >= 0; }, 0, [](Extendable& x, const V& v) { x.newExtension<ei::VoltagePerReactivePowerControlAdder>().withSlope(v.d[0]).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getSlope(); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setSlope(v.d[0]); }, is<StaticVarCompensator>}; presence<T>(k); add(k); }
  { typedef es::BranchStatus T; Kind k{"branchStatus", "LINE", 0, 0, false, false, 3, true, any, 0, [](Extendable& x, const V& v) { x.newExtension<es::BranchStatusAdder>().withStatus(static_cast<T::Status>(v.e)).add(); },
    [](Extendable& x) { GET(T); v.e = static_cast<int>(y.getStatus()); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setStatus(static_cast<T::Status>(v.e)); }, is<Connectable>}; presence<T>(k); add(k); }
  { typedef es::BusbarSectionPosition T; Kind k{"busbarSectionPosition", "BBS2", 0, 2, false, false, 0, true, any, ~0UL, [](Extendable& x, const V& v) { x.newExtension<es::BusbarSectionPositionAdder>().withBusbarIndex(v.u[0]).withSectionIndex(v.u[1]).add(); },
    [](Extendable& x) { GET(T); v.u[0] = y.getBusbarIndex(); v.u[1] = y.getSectionIndex(); return v; }, [](Extendable& x, const V& v, int f) { SET(T); if (f == 6) y.setBusbarIndex(v.u[0]); else y.setSectionIndex(v.u[1]); }, is<BusbarSection>}; presence<T>(k); add(k); }
  { typedef ee::EntsoeArea T; Kind k{"entsoeArea", "S1", 0, 0, false, false, 43, true, any, 0, [](Extendable& x, const V& v) { x.newExtension<ee::EntsoeAreaAdder>().withCode(static_cast<ee::EntsoeGeographicalCode>(v.e)).add(); },
    [](Extendable& x) { GET(T); v.e = static_cast<int>(y.getCode()); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setCode(static_cast<ee::EntsoeGeographicalCode>(v.e)); }, is<Substation>}; presence<T>(k); add(k); }
  { typedef ee::MergedXnode T; Kind k{"mergedXnode", "TIE", 6, 0, false, true, 0, true, num, 0, [](Extendable& x, const V& v) { x.newExtension<ee::MergedXnodeAdder>().withRdp(v.d[0]).withXdp(v.d[1]).withXnodeP1(v.d[2]).withXnodeQ1(v.d[3]).withXnodeP2(v.d[4]).withXnodeQ2(v.d[5]).withLine1Name("").withLine2Name("").withCode(v.s).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getRdp(); v.d[1] = y.getXdp(); v.d[2] = y.getXnodeP1(); v.d[3] = y.getXnodeQ1(); v.d[4] = y.getXnodeP2(); v.d[5] = y.getXnodeQ2(); v.s = y.getCode(); return v; },
    [](Extendable& x, const V& v, int f) { SET(T); switch (f) { case 0: y.setRdp(v.d[0]); break; case 1: y.setXdp(v.d[1]); break; case 2: y.setXnodeP1(v.d[2]); break; case 3: y.setXnodeQ1(v.d[3]); break; case 4: y.setXnodeP2(v.d[4]); break; case 5: y.setXnodeQ2(v.d[5]); break; default: y.setCode(v.s); } }, is<Line>}; presence<T>(k); add(k); }
  { typedef ee::Xnode T; Kind k{"xnode", "DL", 0, 0, false, true, 0, true, any, 0, [](Extendable& x, const V& v) { x.newExtension<ee::XnodeAdder>().withCode(v.s).add(); },
    [](Extendable& x) { GET(T); v.s = y.getCode(); return v; }, [](Extendable& x, const V& v, int) { SET(T); y.setCode(v.s); }, is<DanglingLine>}; presence<T>(k); add(k); }
  { typedef ext::LoadDetail T; Kind k{"detail", "LOADC", 4, 0, false, false, 0, true, num, 0, [](Extendable& x, const V& v) { x.newExtension<ext::LoadDetailAdder>().withFixedActivePower(v.d[0]).withFixedReactivePower(v.d[1]).withVariableActivePower(v.d[2]).withVariableReactivePower(v.d[3]).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getFixedActivePower(); v.d[1] = y.getFixedReactivePower(); v.d[2] = y.getVariableActivePower(); v.d[3] = y.getVariableReactivePower(); return v; },
    [](Extendable& x, const V& v, int f) { SET(T); if (f == 0) y.setFixedActivePower(v.d[0]); else if (f == 1) y.setFixedReactivePower(v.d[1]); else if (f == 2) y.setVariableActivePower(v.d[2]); else y.setVariableReactivePower(v.d[3]); }, is<Load>}; presence<T>(k); add(k); }
  { typedef ei::RemoteReactivePowerControl T; Kind k{"generatorRemoteReactivePowerControl", "GEND", 1, 0, true, false, 0, false, any, 0, [](Extendable& x, const V& v) { x.newExtension<ei::RemoteReactivePowerControlAdder>().withTargetQ(v.d[0]).withEnabled(v.b).withRegulatingTerminal(dynamic_cast<Identifiable&>(x).getNetwork().getLine("LINE").getTerminal2()).add(); },
    [](Extendable& x) { GET(T); v.d[0] = y.getTargetQ(); v.b = y.isEnabled(); sx_assert(&y.getRegulatingTerminal() == &dynamic_cast<Identifiable&>(x).getNetwork().getLine("LINE").getTerminal2()); return v; }, nullptr, is<Generator>}; presence<T>(k); add(k); }
  return *r;
}
static const int NK = 15;
static bool divider(const Kind& k, int f) { return std::string(k.name) == "mergedXnode" && f < 2; }
static bool dgood(const Kind& k, int f, double x) { return divider(k, f) ? x >= 0 && x <= 1 : k.dok(x); }
static bool good(const Kind& k, const V& v) { for (int i = 0; i < k.nd; ++i) if (!dgood(k, i, v.d[i])) return false; for (int i = 0; i < k.nu; ++i) if (v.u[i] > k.umax) return false; return !k.ns || !v.s.empty(); }
static V some(const Kind& k, bool sym) { V v = zero(); static const char* const S[] = {"code", "", "a <&\"' \xc3\xa9", " x "};
  for (int i = 0; i < k.nd; ++i) { v.d[i] = sym ? sx_double("number") : 0.25 * (i + 1); } for (int i = 0; i < k.nu; ++i) v.u[i] = sym ? static_cast<unsigned long>(sx_int("index", 0, 1LL << 40)) : 3 + i; v.b = k.nb && (!sym || sx_bool("flag")); if (k.ns) v.s = S[sym ? sx_choose("text", 4) : 0]; if (k.ne) v.e = sym ? sx_choose("name", k.ne) : 1; return v; }
static void present(Extendable& x, const Kind& k, bool p, size_t others = 0) {
  sx_assert_msg(k.has(x) == p, "an extension is found by its type iff it was accepted"); sx_assert_msg(static_cast<bool>(x.getExtensionByName<Extension>(k.name)) == p, "an extension is found by its name iff it was accepted"); size_t c = 0; bool in = false; for (Extension& e : x.getExtensions()) { ++c; if (e.getName() == k.name) { in = true; sx_assert(&e.getExtendable().get() == &x && &e == &x.getExtensionByName<Extension>(k.name).get()); } } sx_assert(in == p && c == others + p);
}
// creation and changes of one extension
SX_HARNESS(values) {
  Network n = mkNet("full"); buildFull(n); sx_text(true); const Kind& k = kinds()[sx_choose("extension", NK)]; __sx_api_note(k.name); Identifiable& x = n.get<Identifiable>(k.id); present(x, k, false); bool sym = sx_bool("creation or change"); V v = some(k, sym), w = v;
  if (sym) { bool ok = true; try { k.create(x, v); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == good(k, v), "an extension is created exactly when its values are valid"); present(x, k, ok); if (!ok) { sx_reach("refused"); return; } }
  else {
    k.create(x, v); if (!k.set) return; int nf = k.nd + k.nu + k.nb + k.ns + (k.ne > 0), f = sx_choose("field", nf); bool ok = true, fine = true;
    if (f < k.nd) { w.d[f] = sx_double("number"); fine = dgood(k, f, w.d[f]); } else if (f < k.nd + k.nu) { f -= k.nd; w.u[f] = static_cast<unsigned long>(sx_int("index", 0, 1LL << 40)); fine = w.u[f] <= k.umax; f += 6; } else if (k.nb && f == k.nd + k.nu) { w.b = sx_bool("flag"); f = 8; } else if (k.ns) { w.s = sx_bool("empty") ? "" : "other"; fine = !w.s.empty(); f = 9; } else { w.e = sx_choose("name", k.ne); f = 10; }
    try { k.set(x, w, f); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == fine, "a change is accepted exactly when the value is valid"); if (!ok) { w = v; sx_reach("refused change"); } else sx_reach("changed"); present(x, k, true);
  }
  sx_assert_msg(eq(k.get(x), w), "the extension has the values given to it"); consistent(n);
  if (sx_bool("replaced")) { V z = some(k, false); k.create(x, z); present(x, k, true); sx_assert(eq(k.get(x), z)); sx_reach("replaced"); }
  k.remove(x); present(x, k, false); k.remove(x); Desc d = describe(n); sx_assert(throwsE<PowsyblException>([&] { k.get(x); }));
}
// an extension of every kind on every object of the network
SX_HARNESS(extendables) {
  Network n = mkNet("full"); buildFull(n); const Kind& k = kinds()[sx_choose("extension", NK)]; __sx_api_note(k.name); V v = some(k, false); size_t on = 0, off = 0;
  for (Identifiable& i : n.getIdentifiables()) { bool ok = true; try { k.create(i, v); } catch (const PowsyblException&) { ok = false; } catch (const AssertionError&) { ok = false; } sx_assert_msg(ok == k.on(i), "an extension goes on the objects it is for"); present(i, k, ok); if (ok) { sx_assert(eq(k.get(i), v)); ++on; } else ++off; }
  sx_assert(on && off); consistent(n); sx_reach("end");
}
// written and read back, with another extension on the same object
SX_HARNESS(written) {
  registerAll(); Network n = mkNet("full"); buildFull(n); sx_text(true); int c = sx_choose("extension", NK); const Kind& k = kinds()[c]; __sx_api_note(k.name); Identifiable& x = n.get<Identifiable>(k.id); V v = some(k, true); if (!good(k, v)) return; k.create(x, v);
  bool extra = sx_bool("position too") && is<Connectable>(x); if (extra) x.newExtension<es::ConnectablePositionAdder>().newFeeder().withName("f").withOrder(5UL).withDirection(es::ConnectablePosition::Direction::BOTTOM).add().add();
  Desc before = describe(n); std::string xml = write(n); sx_assert(eq(k.get(x), v)); Network m = readX(xml); sameDesc(before, describe(m));
  for (Identifiable& i : m.getIdentifiables()) { bool here = i.getId() == k.id && k.xml; present(i, k, here, extra && i.getId() == k.id); if (here) sx_assert_msg(eq(k.get(i), v), "an extension read back has the values written"); }
  if (extra) sx_assert(m.get<Identifiable>(k.id).getExtension<es::ConnectablePosition>().getFeeder().get().getOrder() == 5); sx_reach(k.xml ? "round trip" : "without serializer"); sx_text(false);
  ExportOptions o; o.setThrowExceptionIfExtensionNotFound(true); sx_assert_msg(throwsE<PowsyblException>([&] { write(n, o); }) == !k.xml, "an extension that cannot be written fails the export when asked to");
}
// extensions asked for
SX_HARNESS(filters) {
  registerAll(); Network n = mkNet("full"); buildFull(n); static const int K[] = {0, 8, 11, 13}; const auto& ks = kinds(); for (int i : K) ks[i].create(n.get<Identifiable>(ks[i].id), some(ks[i], false)); n.get<Identifiable>("LINE").newExtension<es::ConnectablePositionAdder>().newFeeder1().withName("f").withOrder(5UL).withDirection(es::ConnectablePosition::Direction::TOP).add().add();
  ExportOptions o; ImportOptions p; std::set<std::string> out, in; bool fo = sx_bool("all written"), fi = sx_bool("all read"); auto name = [&](int i) { return i < 4 ? std::string(ks[K[i]].name) : std::string("position"); };
  if (!fo) { for (int i = 0; i < 5; ++i) if (sx_bool("written")) out.insert(name(i)); o.setExtensions(out); fo = out.empty(); } if (!fi) { for (int i = 0; i < 5; ++i) if (sx_bool("read")) in.insert(name(i)); p.setExtensions(in); fi = in.empty(); }
  std::string xml = write(n, o); Network m = readX(xml, p); sameDesc(describe(n), describe(m));
  for (int i = 0; i < 5; ++i) { std::string s = name(i); bool want = (fo || out.count(s)) && (fi || in.count(s)); sx_assert_msg((xml.find(":" + s) != std::string::npos) == (fo || out.count(s)), "exactly the extensions asked for are written"); sx_assert_msg(static_cast<bool>(m.get<Identifiable>(i < 4 ? ks[K[i]].id : "LINE").getExtensionByName<Extension>(s)) == want, "exactly the extensions asked for are read"); sx_reach(want ? "kept" : "left out"); }
}
// feeders
SX_HARNESS(positions) {
  registerAll(); Network n = mkNet("full"); buildFull(n); sx_text(true); typedef es::ConnectablePosition CP; typedef es::ConnectablePositionAdder A; static const char* const NAMES[] = {"f", "", "a b"}; Connectable& x = n.get<Connectable>(sx_bool("line or load") ? "LINE" : "LOADB"); A a = x.newExtension<A>(); struct F { bool is; std::string name; unsigned long order; int dir; } f[4];
  for (int i = 0; i < 4; ++i) { f[i] = F{sx_bool("feeder"), "", 0, 0}; if (!f[i].is) continue; f[i].name = NAMES[sx_choose("name", 3)]; f[i].order = static_cast<unsigned long>(sx_int("order", 0, 1LL << 40)); f[i].dir = sx_choose("direction", 3); int miss = sx_thorough() ? sx_choose("missing", 3) : 0;
    auto y = i == 0 ? a.newFeeder() : i == 1 ? a.newFeeder1() : i == 2 ? a.newFeeder2() : a.newFeeder3(); y.withName(f[i].name); if (miss != 1) y.withOrder(f[i].order); if (miss != 2) y.withDirection(static_cast<CP::Direction>(f[i].dir)); bool ok = true; try { y.add(); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == (!f[i].name.empty() && !miss), "a feeder needs its values"); if (!ok) return; }
  bool ok = true, want = f[0].is ? !f[1].is && !f[2].is && !f[3].is : f[1].is && (f[2].is || !f[3].is); try { a.add(); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == want && static_cast<bool>(x.findExtension<CP>()) == ok, "one feeder or numbered ones in order"); if (!ok) { sx_reach("refused"); return; }
  if (sx_bool("changed")) { CP& c = x.getExtension<CP>(); auto r = f[0].is ? c.getFeeder() : c.getFeeder1(); F& g = f[f[0].is ? 0 : 1]; g.name = "new"; g.order = 7; g.dir = 1; r.get().setName("new").setOrder(7).setDirection(CP::Direction::BOTTOM); }
  std::string xml = write(n); Network m = readX(xml);
  for (Network* q : {&n, &m}) { const CP& c = q->get<Connectable>(x.getId()).getExtension<CP>(); stdcxx::CReference<CP::Feeder> r[] = {c.getFeeder(), c.getFeeder1(), c.getFeeder2(), c.getFeeder3()}; for (int i = 0; i < 4; ++i) { sx_assert(static_cast<bool>(r[i]) == f[i].is); if (f[i].is) sx_assert_msg(r[i].get().getName() == f[i].name && r[i].get().getOrder() == f[i].order && static_cast<int>(r[i].get().getDirection()) == f[i].dir, "the values of a feeder"); } } sx_reach("round trip");
}
// measurements
struct M { const ei::Measurement* p; std::string id; int type, side; double v, sd; bool valid; std::map<std::string, std::string> props; };
static bool eqm(const M& m, const ei::Measurement& x) { std::map<std::string, std::string> ps; for (const std::string& s : x.getPropertyNames()) ps[s] = x.getProperty(s); return x.getId() == m.id && static_cast<int>(x.getType()) == m.type && (x.getSide() ? static_cast<int>(*x.getSide()) : -1) == m.side && same(x.getValue(), m.v) && same(x.getStandardDeviation(), m.sd) && x.isValid() == m.valid && ps == m.props; }
static void checkM(const std::vector<M>& w, ei::Measurements& ms, bool addr) {
  const ei::Measurements& c = ms; size_t i = 0; for (const ei::Measurement& x : c.getMeasurements()) { sx_assert(i < w.size()); sx_assert_msg(eqm(w[i], x) && (!addr || w[i].p == &x), "the measurements are those added"); ++i; } sx_assert(i == w.size());
  for (const char* id : {"a", "b", "none"}) { const M* f = nullptr; for (auto& m : w) if (m.id == id) { f = &m; break; } auto r = c.getMeasurement(id); sx_assert_msg(static_cast<bool>(r) == (f != nullptr) && (!f || eqm(*f, r.get())), "a measurement is found by its id"); }
  for (int t : {0, 1, 7}) { auto r = c.getMeasurements(static_cast<ei::Measurement::Type>(t)); char junk[64]; for (char& j : junk) j = 3; __asm__ volatile("" : : "r"(junk) : "memory"); std::vector<const ei::Measurement*> g; for (const auto& x : r) g.push_back(&x); size_t k = 0; for (auto& m : w) if (m.type == t) { sx_assert(k < g.size() && eqm(m, *g[k])); ++k; } sx_assert_msg(k == g.size(), "the measurements of a type"); auto r2 = ms.getMeasurements(static_cast<ei::Measurement::Type>(t)); k = 0; for (auto& x : r2) { (void)x; ++k; } sx_assert(k == g.size()); }
}
SX_HARNESS(measurements) {
  registerAll(); Network n = mkNet("full"); buildFull(n); sx_text(true); bool inj = sx_bool("injection"); Identifiable& x = n.get<Identifiable>(inj ? "LOADB" : sx_bool("line") ? "LINE" : "T3"); x.newExtension<ei::MeasurementsAdder>().add(); auto& ms = x.getExtension<ei::Measurements>(); std::vector<M> w; static const int TYPES[] = {0, 1, 7}; static const char* const IDS[] = {"", "a", "b"}; static const double VAL[] = {1.5, NaN};
  bool deep = sx_bool("deep"); // a free first measurement, or a longer history
  for (int i = 0, k = deep ? sx_bound(3, 4) : sx_bound(1, 3); i < k; ++i) {
    int op = w.empty() ? 0 : sx_choose("operation", 6);
    if (op == 0 && deep && i == 0) { ei::Measurement& r = ms.newMeasurement().setId("a").setType(ei::Measurement::Type::OTHER).setValue(1.5).setStandardDeviation(0.25).setValid(sx_bool("valid")).putProperty("k", "v").add(); M m; m.p = &r; m.id = "a"; m.type = 7; m.side = -1; m.v = 1.5; m.sd = 0.25; m.valid = r.isValid(); m.props["k"] = "v"; sx_assert(eqm(m, r)); w.push_back(m); continue; }
    if (op == 0) { M m; m.id = IDS[sx_choose("id", 3)]; m.type = i ? TYPES[i % 3] : TYPES[sx_choose("type", 3)]; m.side = i ? (inj ? -1 : i % 3) : sx_choose("side", 4) - 1; m.v = i ? VAL[sx_choose("value", 2)] : sx_double("value"); m.sd = i ? 0.5 : sx_double("standard deviation"); m.valid = sx_bool("valid"); if (i == 0 && sx_bool("property")) m.props["k"] = "v";
      bool dup = false; if (!m.id.empty()) for (auto& y : w) dup = dup || y.id == m.id; bool want = !dup && !(m.valid && isnan_(m.v)) && (inj ? m.side < 0 : m.side >= 0 || m.type == 7), ok = true; auto a = ms.newMeasurement(); a.setId(m.id).setType(static_cast<ei::Measurement::Type>(m.type)).setValue(m.v).setStandardDeviation(m.sd).setValid(m.valid); if (m.side >= 0) a.setSide(static_cast<ei::Measurement::Side>(m.side)); for (auto& p : m.props) a.putProperty(p.first, p.second);
      try { m.p = nullptr; ei::Measurement& r = a.add(); m.p = &r; } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == want, "a measurement is accepted exactly when it is valid"); if (ok) { sx_assert_msg(eqm(m, *m.p), "the adder gives the measurement it added"); w.push_back(m); sx_reach("added"); } else sx_reach("refused"); continue; }
    size_t j = w.size() == 1 ? 0 : sx_choose("which", w.size()); M& m = w[j]; ei::Measurement* r = nullptr; size_t q = 0; for (const auto& y : static_cast<const ei::Measurements&>(ms).getMeasurements()) if (q++ == j) r = const_cast<ei::Measurement*>(&y); sx_assert(r);
    if (op == 1) { double v = VAL[sx_choose("value", 2)]; bool ok = true; try { r->setValue(v); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == !(m.valid && isnan_(v)), "a valid measurement keeps a value"); if (ok) m.v = v; else sx_reach("refused change"); }
    else if (op == 2) { bool b = sx_bool("valid"), ok = true; try { r->setValid(b); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == !(b && isnan_(m.v)), "a measurement without value is not valid"); if (ok) m.valid = b; }
    else if (op == 3) { r->putProperty("p", "q"); m.props["p"] = "q"; r->setStandardDeviation(2.0); m.sd = 2.0; }
    else if (op == 4) { r->removeProperty("k"); m.props.erase("k"); sx_assert(throwsE<PowsyblException>([&] { r->putProperty("", "v"); })); sx_assert(r->getProperty("none").empty()); }
    else { r->remove(); w.erase(w.begin() + j); sx_reach("removed"); }
    checkM(w, ms, true);
  }
  checkM(w, ms, true); std::string xml = write(n); Network m = readX(xml); auto r = m.get<Identifiable>(x.getId()).findExtension<ei::Measurements>(); sx_assert_msg(static_cast<bool>(r) == !w.empty(), "measurements are written when there are some"); if (r) { for (auto& y : w) y.p = nullptr; checkM(w, r.get(), false); sx_reach("round trip"); } else sx_reach("nothing written");
  ms.cleanIfEmpty(); sx_assert_msg(static_cast<bool>(x.findExtension<ei::Measurements>()) == !w.empty(), "empty measurements are removed");
}
struct D { const ei::DiscreteMeasurement* p; std::string id; int type, tap, vt; bool b; int i; std::string s; bool valid; std::map<std::string, std::string> props; bool undef() const { return vt == 2 && s.empty(); } };
static bool eqd(const D& m, const ei::DiscreteMeasurement& x) { std::map<std::string, std::string> ps; for (const std::string& s : x.getPropertyNames()) ps[s] = x.getProperty(s); if (!(x.getId() == m.id && static_cast<int>(x.getType()) == m.type && (x.getTapChanger() ? static_cast<int>(*x.getTapChanger()) : -1) == m.tap && static_cast<int>(x.getValueType()) == m.vt && x.isValid() == m.valid && ps == m.props)) return false;
  for (int t = 0; t < 3; ++t) if (t != m.vt) sx_assert_msg(throwsE<PowsyblException>([&] { if (t == 0) x.getValueAsBoolean(); else if (t == 1) x.getValueAsInt(); else x.getValueAsString(); }), "a value is of one type"); return m.vt == 0 ? x.getValueAsBoolean() == m.b : m.vt == 1 ? x.getValueAsInt() == m.i : x.getValueAsString() == m.s; }
static void checkD(const std::vector<D>& w, ei::DiscreteMeasurements& ms, bool addr) {
  const ei::DiscreteMeasurements& c = ms; size_t i = 0; for (const auto& x : c.getDiscreteMeasurements()) { sx_assert(i < w.size()); sx_assert_msg(eqd(w[i], x) && (!addr || w[i].p == &x), "the discrete measurements are those added"); ++i; } sx_assert(i == w.size());
  for (const char* id : {"a", "none"}) { const D* f = nullptr; for (auto& m : w) if (m.id == id) { f = &m; break; } auto r = c.getDiscreteMeasurement(id); sx_assert(static_cast<bool>(r) == (f != nullptr) && (!f || eqd(*f, r.get()))); }
  for (int t = 0; t < 4; ++t) { auto r = c.getDiscreteMeasurements(static_cast<ei::DiscreteMeasurement::Type>(t)); auto r2 = ms.getDiscreteMeasurements(static_cast<ei::DiscreteMeasurement::Type>(t)); size_t k = 0, k1 = 0, k2 = 0; for (const auto& x : r) { (void)x; ++k1; } for (auto& x : r2) { (void)x; ++k2; } for (auto& m : w) k += m.type == t; sx_assert_msg(k == k1 && k == k2, "the discrete measurements of a type"); }
}
SX_HARNESS(discrete) {
  registerAll(); Network n = mkNet("full"); buildFull(n); sx_text(true); static const char* const ON[] = {"TWT", "T3", "COUPLER", "LOADB"}; int o = sx_choose("on", 4); Identifiable& x = n.get<Identifiable>(ON[o]); x.newExtension<ei::DiscreteMeasurementsAdder>().add(); auto& ms = x.getExtension<ei::DiscreteMeasurements>(); std::vector<D> w; static const char* const IDS[] = {"", "a"}; static const char* const TXT[] = {"", "abc", "1 <"};
  auto val = [&](D& m, int k) { m.b = false; m.i = 0; m.s = ""; m.vt = k < 3 ? k : 2; if (k == 0) m.b = sx_bool("boolean"); if (k == 1) m.i = static_cast<int>(sx_int("int", -2147483647 - 1, 2147483647)); if (k == 2) m.s = TXT[sx_choose("text", 3)]; };
  bool deep = (o == 0 || sx_thorough()) && sx_bool("deep"); // a free first measurement, or a longer history
  for (int i = 0, k = deep ? sx_bound(3, 4) : sx_bound(1, 3); i < k; ++i) {
    int op = w.empty() ? 0 : sx_choose("operation", 5);
    if (op == 0 && deep && i == 0) { auto& r = ms.newDiscreteMeasurement().setId("a").setType(ei::DiscreteMeasurement::Type::OTHER).setValue(3).setValid(sx_bool("valid")).putProperty("k", "v").add(); D m; m.p = &r; m.id = "a"; m.type = 3; m.tap = -1; m.vt = 1; m.b = false; m.i = 3; m.valid = r.isValid(); m.props["k"] = "v"; sx_assert(eqd(m, r)); w.push_back(m); continue; }
    if (op == 0) { D m; m.id = IDS[sx_choose("id", 2)]; m.type = i ? 3 : sx_choose("type", 4); m.tap = i ? -1 : sx_choose("tap changer", 9) - 1; int v = sx_choose("value", 4); val(m, v); m.valid = sx_bool("valid"); if (v == 1) m.props["k"] = "v";
      bool dup = false; if (!m.id.empty()) for (auto& y : w) dup = dup || y.id == m.id; bool tok = m.type == 1 ? o == 2 : m.type != 0 || o < 2, cok = m.tap < 0 ? m.type != 0 : o == 0 ? m.tap < 2 : o == 1 && m.tap >= 2, want = !dup && tok && cok && !(m.valid && m.undef()), ok = true;
      auto a = ms.newDiscreteMeasurement(); a.setId(m.id).setType(static_cast<ei::DiscreteMeasurement::Type>(m.type)).setValid(m.valid); if (m.tap >= 0) a.setTapChanger(static_cast<ei::DiscreteMeasurement::TapChanger>(m.tap)); if (v == 0) a.setValue(m.b); else if (v == 1) a.setValue(m.i); else if (v == 2) a.setValue(m.s); for (auto& p : m.props) a.putProperty(p.first, p.second);
      try { m.p = nullptr; auto& r = a.add(); m.p = &r; } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == want, "a discrete measurement is accepted exactly when it is valid"); if (ok) { sx_assert_msg(eqd(m, *m.p), "the adder gives the discrete measurement it added"); w.push_back(m); sx_reach("added"); } else sx_reach("refused"); continue; }
    size_t j = w.size() == 1 ? 0 : sx_choose("which", w.size()); D& m = w[j]; ei::DiscreteMeasurement* r = nullptr; size_t q = 0; for (auto& y : ms.getDiscreteMeasurements()) if (q++ == j) r = &y; sx_assert(r);
    if (op == 1) { D z = m; int v = sx_choose("value", 4); val(z, v); if (v == 3) z.s = TXT[sx_choose("text", 3)]; bool ok = true; try { if (v == 0) r->setValue(z.b); else if (v == 1) r->setValue(z.i); else if (v == 2) r->setValue(z.s); else r->setValue(z.s.c_str()); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == !(m.valid && z.undef()), "a valid discrete measurement keeps a value"); if (ok) m = z; else sx_reach("refused change"); }
    else if (op == 2) { bool b = sx_bool("valid"), ok = true; try { r->setValid(b); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == !(b && m.undef()), "a discrete measurement without value is not valid"); if (ok) m.valid = b; }
    else if (op == 3) { r->putProperty("p", "q").removeProperty("k"); m.props["p"] = "q"; m.props.erase("k"); sx_assert(throwsE<PowsyblException>([&] { r->putProperty("", "v"); })); }
    else { r->remove(); w.erase(w.begin() + j); sx_reach("removed"); }
    checkD(w, ms, true);
  }
  checkD(w, ms, true); std::string xml = write(n); Network m = readX(xml); auto r = m.get<Identifiable>(x.getId()).findExtension<ei::DiscreteMeasurements>(); sx_assert_msg(static_cast<bool>(r) == !w.empty(), "discrete measurements are written when there are some"); if (r) { for (auto& y : w) y.p = nullptr; checkD(w, r.get(), false); sx_reach("round trip"); } else sx_reach("nothing written");
  ms.cleanIfEmpty(); sx_assert(static_cast<bool>(x.findExtension<ei::DiscreteMeasurements>()) == !w.empty());
}
// extensions of the user: names and types
struct Own : Extension { int v; Own(Extendable& e, int i) : Extension(e), v(i) {} void assertExtendable(const stdcxx::Reference<Extendable>& e) const override { if (e && !dynamic_cast<Load*>(&e.get()) && !dynamic_cast<Network*>(&e.get())) throw AssertionError("wrong extendable"); } };
#define OWN(T, N) struct T : Own { T(Extendable& e, int i) : Own(e, i) {} const std::string& getName() const override { static std::string s = N; return s; } const std::type_index& getType() const override { static std::type_index t = typeid(T); return t; } };
OWN(OwnA, "one") OWN(OwnB, "one") OWN(OwnC, "two")
SX_HARNESS(registry) {
  Network n = mkNet("full"); buildFull(n); Extendable& x = n.getLoad("LOADB"); int type[2] = {-1, -1}, val[2] = {0, 0}; // by name
  for (int i = 0, k = sx_bound(4, 5); i < k; ++i) {
    int t = sx_choose("type", 3), nm = t == 2; bool rm = sx_bool("remove");
    if (!rm) { if (t == 0) x.addExtension(stdcxx::make_unique<OwnA>(x, i)); else if (t == 1) x.addExtension(stdcxx::make_unique<OwnB>(x, i)); else x.addExtension(stdcxx::make_unique<OwnC>(x, i)); if (type[nm] >= 0 && type[nm] != t) sx_reach("another type"); type[nm] = t; val[nm] = i; }
    else { if (t == 0) x.removeExtension<OwnA>(); else if (t == 1) x.removeExtension<OwnB>(); else x.removeExtension<OwnC>(); if (type[nm] == t) { type[nm] = -1; sx_reach("removed"); } }
    auto a = x.findExtension<OwnA>(); auto b = x.findExtension<OwnB>(); auto c = x.findExtension<OwnC>(); sx_assert_msg(static_cast<bool>(a) == (type[0] == 0) && static_cast<bool>(b) == (type[0] == 1) && static_cast<bool>(c) == (type[1] == 2), "an extension is found by its type while it is there");
    if (a) sx_assert(a.get().v == val[0]); if (b) sx_assert(b.get().v == val[0]); if (c) sx_assert(c.get().v == val[1]);
    auto one = x.getExtensionByName<Own>("one"); auto two = x.getExtensionByName<Own>("two"); sx_assert(static_cast<bool>(one) == (type[0] >= 0) && static_cast<bool>(two) == (type[1] >= 0)); if (one) sx_assert(one.get().v == val[0]); sx_assert(static_cast<bool>(x.getExtensionByName<OwnB>("one")) == (type[0] == 1)); size_t m = 0; for (const Extension& e : x.getExtensions()) { (void)e; ++m; } sx_assert(m == static_cast<size_t>((type[0] >= 0) + (type[1] >= 0)));
  }
  Generator& g = n.getGenerator("GENB"); sx_assert(throwsE<AssertionError>([&] { g.addExtension(stdcxx::make_unique<OwnA>(g, 1)); }) && !g.findExtension<OwnA>());
}
// a network that has extensions is moved with them
struct OwnV : AbstractMultiVariantIdentifiableExtension { std::vector<int> v; OwnV(Extendable& e, int i) : AbstractMultiVariantIdentifiableExtension(e), v(getVariantManagerHolder().getVariantManager().getVariantArraySize(), i) {} void assertExtendable(const stdcxx::Reference<Extendable>& e) const override { if (e && !dynamic_cast<Network*>(&e.get())) throw AssertionError("wrong extendable"); } const std::string& getName() const override { static std::string s = "own"; return s; } const std::type_index& getType() const override { static std::type_index t = typeid(OwnV); return t; }
  void allocateVariantArrayElement(const std::set<unsigned long>& is, unsigned long s) override { for (auto i : is) v[i] = v[s]; } void deleteVariantArrayElement(unsigned long) override {} void extendVariantArraySize(unsigned long, unsigned long k, unsigned long s) override { v.resize(v.size() + k, v[s]); } void reduceVariantArraySize(unsigned long k) override { v.resize(v.size() - k); } int& at() { return v[getVariantIndex()]; } };
SX_HARNESS(moved) {
  Network n = mkNet("full"); buildFull(n); int w = sx_choose("extensions", 4); if (w & 1) n.addExtension(stdcxx::make_unique<OwnV>(n, 5)); if (w & 2) n.addExtension(stdcxx::make_unique<OwnA>(n, 6)); bool early = sx_bool("variant before"); if (early) { n.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "v"); n.getVariantManager().setWorkingVariant("v"); if (w & 1) n.getExtension<OwnV>().at() = 8; n.getVariantManager().setWorkingVariant(VariantManager::getInitialVariantId()); }
  Desc d = describe(n); Network m(std::move(n)); sameDesc(d, describe(m)); consistent(m); if (!early) m.getVariantManager().cloneVariant(VariantManager::getInitialVariantId(), "v");
  size_t c = 0; for (Extension& e : m.getExtensions()) { ++c; sx_assert_msg(&e.getExtendable().get() == static_cast<Extendable*>(&m), "an extension belongs to the network it was moved to"); } sx_assert(c == static_cast<size_t>((w & 1) + (w >> 1)) && static_cast<bool>(m.findExtension<OwnV>()) == ((w & 1) > 0) && static_cast<bool>(m.findExtension<OwnA>()) == (w > 1));
  if (w & 1) { sx_assert(m.getExtension<OwnV>().at() == 5); m.getExtension<OwnV>().at() = 7; m.getVariantManager().setWorkingVariant("v"); sx_assert(m.getExtension<OwnV>().at() == (early ? 8 : 5)); } if (w & 2) { m.removeExtension<OwnA>(); m.addExtension(stdcxx::make_unique<OwnA>(m, 9)); sx_assert(m.getExtension<OwnA>().v == 9); } sx_reach("end");
}

// adders not told everything they need
SX_HARNESS(missing) {
  registerAll(); Network n = mkNet("full"); buildFull(n); int kind = sx_choose("of", 12); bool a = sx_bool("first value given"), b = sx_bool("second value given"), ok = true, want = false; Desc before = describe(n); Identifiable* x = nullptr; std::function<bool()> held = [] { return true; };
  auto on = [&](const char* id) -> Identifiable& { x = &n.get<Identifiable>(id); return *x; };
  try { switch (kind) {
    case 0: { auto y = on("S1").newExtension<ee::EntsoeAreaAdder>(); if (a) y.withCode(ee::EntsoeGeographicalCode::BE); want = a; y.add(); held = [&] { return x->getExtension<ee::EntsoeArea>().getCode() == ee::EntsoeGeographicalCode::BE; }; break; }
    case 1: { auto y = on("T3").newExtension<ei::ThreeWindingsTransformerPhaseAngleClockAdder>(); if (a) y.withPhaseAngleClockLeg2(3); if (b) y.withPhaseAngleClockLeg3(4); want = a && b; y.add(); held = [&] { auto& e = x->getExtension<ei::ThreeWindingsTransformerPhaseAngleClock>(); return e.getPhaseAngleClockLeg2() == 3 && e.getPhaseAngleClockLeg3() == 4; }; break; }
    case 2: { auto y = on("TWT").newExtension<ei::TwoWindingsTransformerPhaseAngleClockAdder>(); if (a) y.withPhaseAngleClock(5); want = a; y.add(); held = [&] { return x->getExtension<ei::TwoWindingsTransformerPhaseAngleClock>().getPhaseAngleClock() == 5; }; break; }
    case 3: { auto y = on("LINE").newExtension<es::BranchStatusAdder>(); if (a) y.withStatus(es::BranchStatus::Status::FORCED_OUTAGE); want = a; y.add(); held = [&] { return x->getExtension<es::BranchStatus>().getStatus() == es::BranchStatus::Status::FORCED_OUTAGE; }; break; }
    case 4: { auto y = on("BBS1").newExtension<es::BusbarSectionPositionAdder>(); if (a) y.withBusbarIndex(1); if (b) y.withSectionIndex(2); want = a && b; y.add(); held = [&] { auto& e = x->getExtension<es::BusbarSectionPosition>(); return e.getBusbarIndex() == 1 && e.getSectionIndex() == 2; }; break; }
    case 5: { auto y = on("DL").newExtension<ee::XnodeAdder>(); if (a) y.withCode("c"); want = a; y.add(); held = [&] { return x->getExtension<ee::Xnode>().getCode() == "c"; }; break; }
    case 6: { auto y = on("TIE").newExtension<ee::MergedXnodeAdder>(); y.withRdp(0.5).withXdp(0.5).withXnodeP1(1).withXnodeQ1(2).withXnodeP2(3); if (a) y.withXnodeQ2(4); if (b) y.withCode("c"); want = a && b; y.withLine1Name("l1").withLine2Name("l2").add();
      held = [&] { auto& e = x->getExtension<ee::MergedXnode>(); bool was = e.getLine1Name() == "l1" && e.getLine2Name() == "l2"; e.setLine1Name("m1"); was = was && e.getLine1Name() == "m1" && e.getLine2Name() == "l2"; e.setLine2Name("m2"); return was && e.getLine1Name() == "m1" && e.getLine2Name() == "m2"; }; break; }
    case 7: { auto y = on("VB").newExtension<ext::SlackTerminalAdder>(); if (a) y.withTerminal(b ? n.getLoad("LOADB").getTerminal() : n.getLoad("LOADC").getTerminal()); want = a && b; y.add(); held = [&] { return &x->getExtension<ext::SlackTerminal>().getTerminal().get() == &n.getLoad("LOADB").getTerminal(); }; break; }
    case 8: { auto y = on("GENB").newExtension<ei::RemoteReactivePowerControlAdder>(); if (a) y.withRegulatingTerminal(n.getLoad("LOADB").getTerminal()); want = a; y.add(); held = [&] { auto& e = x->getExtension<ei::RemoteReactivePowerControl>(); const auto& c = e; return &e.getRegulatingTerminal() == &n.getLoad("LOADB").getTerminal() && &c.getRegulatingTerminal() == &e.getRegulatingTerminal(); }; break; }
    case 9: { auto y = on("LINE").newExtension<es::ConnectablePositionAdder>(); auto f = y.newFeeder1(); f.withName("f"); want = a && b; if (a) f.withOrder(1); if (b) f.withDirection(es::ConnectablePosition::Direction::TOP); f.add(); y.add(); held = [&] { auto& e = x->getExtension<es::ConnectablePosition>(); const auto& c = e; return e.getFeeder1() && e.getFeeder1().get().getOrder() == 1 && !e.getFeeder() && !e.getFeeder2() && !e.getFeeder3() && &c.getFeeder1().get() == &e.getFeeder1().get(); }; break; }
    case 10: { on("LINE").newExtension<ei::MeasurementsAdder>().add(); auto& ms = x->getExtension<ei::Measurements>(); auto y = ms.newMeasurement(); y.setId("i").setSide(ei::Measurement::Side::TWO); if (a) y.setType(ei::Measurement::Type::CURRENT); if (b) y.setValue(1.5); want = a && b; y.add(); held = [&] { auto r = x->getExtension<ei::Measurements>().getMeasurement("i"); return r && r.get().getType() == ei::Measurement::Type::CURRENT && r.get().getValue() == 1.5 && r.get().isValid(); }; break; }
    default: { on("TWT").newExtension<ei::DiscreteMeasurementsAdder>().add(); auto& ms = x->getExtension<ei::DiscreteMeasurements>(); auto y = ms.newDiscreteMeasurement(); y.setId("i").setTapChanger(ei::DiscreteMeasurement::TapChanger::RATIO_TAP_CHANGER); if (a) y.setType(ei::DiscreteMeasurement::Type::SHUNT_COMPENSATOR_SECTION); if (b) y.setValue("1"); want = a && b; y.add(); held = [&] { auto r = x->getExtension<ei::DiscreteMeasurements>().getDiscreteMeasurement("i"); return r && r.get().getType() == ei::DiscreteMeasurement::Type::SHUNT_COMPENSATOR_SECTION && r.get().getValueAsString() == "1"; }; }
  } } catch (const std::runtime_error&) { ok = false; }
  sx_assert_msg(ok == want, "an extension is made exactly when its adder has all it needs"); if (ok) { sx_assert_msg(held(), "and has what it was given"); sx_reach("made"); } else { size_t k = 0; for (auto& e : x->getExtensions()) { (void)e; ++k; } sx_assert_msg(k == (kind >= 10 ? 1U : 0U) && (kind != 10 || boost::empty(x->getExtension<ei::Measurements>().getMeasurements())) && (kind != 11 || boost::empty(x->getExtension<ei::DiscreteMeasurements>().getDiscreteMeasurements())), "nothing is left of it otherwise"); sx_reach("refused"); }
  if (kind == 10) sx_assert(throwsE<PowsyblException>([&] { x->getExtension<ei::Measurements>().newMeasurement().putProperty("", "v"); })); if (kind == 11) sx_assert(throwsE<PowsyblException>([&] { x->getExtension<ei::DiscreteMeasurements>().newDiscreteMeasurement().putProperty("", "v"); })); sameDesc(before, describe(n));
}
