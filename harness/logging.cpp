// C27: what is logged changes nothing, and goes to the nearest logger at an enabled level.
#include "describe.hpp"
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/util/Identifiables.hpp>
#include <powsybl/logging/ContainerLogger.hpp>
#include <powsybl/logging/LogMessage.hpp>
#include <powsybl/logging/Logger.hpp>
#include <powsybl/logging/LoggerFactory.hpp>
#include <powsybl/stdcxx/make_unique.hpp>
using converter::ExportOptions; using converter::ImportOptions; using logging::Level; using logging::Logger; using logging::LoggerFactory;
struct Log { int mask; int last; std::vector<std::pair<int, std::string>> all; };
struct Rec : Logger { Log* l; explicit Rec(Log* x) : l(x) {} bool on(int i) const { return (l->mask >> i & 1) != 0; } bool isTraceEnabled() const override { return on(0); } bool isDebugEnabled() const override { return on(1); } bool isInfoEnabled() const override { return on(2); } bool isWarnEnabled() const override { return on(3); } bool isErrorEnabled() const override { return on(4); } void log(const Level& v, const std::string& m) override { l->all.push_back(std::make_pair(static_cast<int>(v), m)); } };
static const char* const ROOTS[] = {"powsybl", "Identifiables", "powsybl::iidm::VariantManager", "a", "a::b", "a::b::c", "x"};
static void clean() { for (const char* r : ROOTS) LoggerFactory::getInstance().removeLogger(r); }
struct Own : Extension { std::string name; Own(Extendable& e, const std::string& n) : Extension(e), name(n) {} void assertExtendable(const stdcxx::Reference<Extendable>&) const override {} const std::string& getName() const override { return name; } const std::type_index& getType() const override { static std::type_index t = typeid(Own); return t; } };
// everything an operation shows: the state it leaves, what it gives and how it fails
static std::string show(const Network& n) { std::ostringstream os; Desc d = describe(n); for (auto& x : d.v) os << x.key << '=' << x.text << x.n << x.value << ';'; return os.str(); }
static std::string operation(int op, const std::string& id) {
  Network n = mkNet("net"); std::ostringstream os; Substation& s = mkSub(n, "S" + id);
  try { switch (op) {
    case 0: { VoltageLevel& v = mkVl(s, id, true); mkBbs(v, "b" + id, 0); mkLoadN(v, "l" + id, 1); mkSw(v, "s" + id, 0, 1); v.setFictitious(true); for (Bus& b : v.getBusView().getBuses()) os << b.getId() << ','; for (Bus& b : v.getBusBreakerView().getBuses()) os << b.getId() << ','; v.getNodeBreakerView().getSwitch("s" + id).get().setOpen(true); for (Bus& b : v.getBusView().getBuses()) os << b.getId() << ','; break; }
    case 1: { mkVl(s, "v", false); auto& m = n.getVariantManager(); m.cloneVariant(VariantManager::getInitialVariantId(), id); m.cloneVariant(VariantManager::getInitialVariantId(), {"p" + id, "q"}); m.removeVariant("p" + id); m.cloneVariant(id, "r"); m.cloneVariant(VariantManager::getInitialVariantId(), "q", true); m.removeVariant("r"); m.removeVariant("q"); for (const std::string& v : m.getVariantIds()) os << v << ','; os << m.getVariantArraySize(); break; }
    case 2: case 3: { VoltageLevel& a = mkVl(s, "va", false); VoltageLevel& b = mkVl(s, "vb", false); mkBus(a, "ba"); mkBus(b, "bb"); auto& t = mkTwtB(s, id, "va", "ba", "vb", "bb"); if (op == 3) t.newPhaseTapChanger().setLowTapPosition(0).setTapPosition(0).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP).setRegulating(false).beginStep().setAlpha(1.0).setRho(1.0).setR(0).setX(0).setG(0).setB(0).endStep().add(); auto& r = t.newRatioTapChanger().setLowTapPosition(0).setTapPosition(0).setLoadTapChangingCapabilities(false).setRegulating(op == 2).setTargetDeadband(1.0).beginStep().setRho(1.0).setR(0).setX(0).setG(0).setB(0).endStep().add(); os << r.isRegulating() << r.getTapPosition(); if (op == 2) r.setTargetV(-5.0); break; }
    case 4: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); Line& l = mkLineB(n, id, "va", "ba", "va", "ba"); l.newCurrentLimits1().setPermanentLimit(100.0).beginTemporaryLimit().setName("x").setAcceptableDuration(60).setValue(50.0).endTemporaryLimit().beginTemporaryLimit().setName("y").setAcceptableDuration(600).setValue(80.0).endTemporaryLimit().add(); os << l.getCurrentLimits1().get().getPermanentLimit(); break; }
    case 5: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); auto& t = s.newThreeWindingsTransformer().setId(id).newLeg1().setVoltageLevel("va").setBus("ba").setConnectableBus("ba").setR(1.0).setX(2.0).setG(0.1).setB(0.2).setRatedU(123.0).add().newLeg2().setVoltageLevel("va").setBus("ba").setConnectableBus("ba").setR(3.0).setX(4.0).setG(0).setB(0).setRatedU(225.0).add().newLeg3().setVoltageLevel("va").setBus("ba").setConnectableBus("ba").setR(5.0).setX(6.0).setG(0).setB(0).setRatedU(20.0).add().add(); os << t.getRatedU0(); break; }
    case 6: case 7: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); Load& l = mkLoadB(a, id, "ba"); l.setFictitious(true); if (op == 7) l.addExtension(stdcxx::make_unique<Own>(l, "e" + id)); auto& line = mkLineB(n, "line" + id, "va", "ba", "va", "ba"); if (op == 6) line.newActivePowerLimits1().setPermanentLimit(1.0).add(); ExportOptions o; o.setVersion(op == 6 ? "1.3" : "1.5"); o.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR); Network::writeXml("none.xml", os, n, o); std::istringstream is(os.str()); Network m = Network::readXml("none.xml", is, ImportOptions()); os << show(m); break; }
    case 8: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); n.newTieLine().setId(id).setVoltageLevel1("va").setBus1("ba").setConnectableBus1("ba").setVoltageLevel2("va").setBus2("ba").setConnectableBus2("ba").setUcteXnodeCode("x").newHalfLine1().setId("h1").setR(1.0).setX(2.0).setG1(0).setG2(0).setB1(0).setB2(0).add().newHalfLine2().setId("h2").setR(1.0).setX(2.0).setG1(0).setG2(0).setB1(0).setB2(0).add().add(); std::ostringstream x; Network::writeXml("none.xml", x, n, ExportOptions()); std::string t = x.str(); os << t; for (const char* k : {"xnodeP_1", "xnodeQ_1", "xnodeP_2", "xnodeQ_2"}) if (t.find(k) == std::string::npos) { size_t p = t.find("ucteXnodeCode"); t.insert(p, std::string(k) + "=\"12.5\" "); } std::istringstream is(t); Network m = Network::readXml("none.xml", is, ImportOptions()); os << show(m); break; }
    case 9: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); Generator& g = mkGenB(a, id, "ba"); g.newExtension<extensions::iidm::CoordinatedReactiveControlAdder>().withQPercent(150.0).add(); os << g.getExtension<extensions::iidm::CoordinatedReactiveControl>().getQPercent(); break; }
    case 10: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "b" + id); mkLoadB(a, id, "b" + id); mkBus(a, "c"); mkLineB(n, "line", "va", "b" + id, "va", "c"); for (Bus& b : n.getBusView().getBuses()) os << b.getId() << b.getConnectedComponent().get().getNum() << b.isInMainConnectedComponent() << b.getSynchronousComponent().get().getSize(); break; }
    case 11: os << Identifiables::getUniqueId(id, [&](const std::string& x) { return x == id || x == id + "#0"; }); break;
    default: { VoltageLevel& a = mkVl(s, "va", false); mkBus(a, "ba"); mkLoadB(a, id, "ba"); mkLoadB(a, id, "ba"); break; }
  } } catch (const PowsyblException& e) { os << "error: " << e.what(); } catch (const std::exception& e) { os << "failure: " << e.what(); }
  return os.str() + show(n);
}
SX_HARNESS(unchanged) {
  clean(); int op = sx_choose("operation", 13); std::string id = "g1"; static const char C[] = {'%', '1', '{', ':', ' ', '<', '|', '\\'}; id[sx_choose("position", 2)] = C[sx_choose("char", 8)]; if (sx_bool("percent")) id += "%1";
  std::string quiet = operation(op, id); Log log{static_cast<int>(sx_int("levels", 0, 31)), 0, {}}; LoggerFactory::getInstance().addLogger("powsybl", stdcxx::make_unique<Rec>(&log)); LoggerFactory::getInstance().addLogger("Identifiables", stdcxx::make_unique<Rec>(&log)); std::string said = operation(op, id); clean();
  sx_assert_msg(said == quiet, "an operation that is logged gives the same result"); for (auto& m : log.all) { sx_assert_msg((log.mask >> m.first & 1) != 0, "a message is logged at an enabled level"); sx_assert(!m.second.empty()); } sx_assert_msg((op == 12) == (quiet.find("error: ") != std::string::npos) && quiet.find("failure: ") == std::string::npos, "the operation succeeds"); sx_assert_msg(op == 12 || log.mask != 31 || !log.all.empty(), "an operation is logged"); if (!log.all.empty()) sx_reach("logged"); else sx_reach("not logged");
}
// the nearest logger
SX_HARNESS(nearest) {
  clean(); static const char* const NAMES[] = {"a", "a::b", "a::b::c", "x"}; Log logs[4]; int has = 0; for (int i = 0; i < 4; ++i) { logs[i].mask = 31; if (sx_bool("registered")) { has |= 1 << i; LoggerFactory::getInstance().addLogger(NAMES[i], stdcxx::make_unique<Rec>(&logs[i])); } } if (sx_bool("removed")) { int r = sx_choose("which", 4); has &= ~(1 << r); LoggerFactory::getInstance().removeLogger(NAMES[r]); }
  static const char* const Q[] = {"a", "a::b", "a::b::c", "a::b::c::d", "a::z", "x", "xa", "z", "", "::", "a::", "b"}; static const int W[][3] = {{0, -1, -1}, {1, 0, -1}, {2, 1, 0}, {2, 1, 0}, {0, -1, -1}, {3, -1, -1}, {-1, -1, -1}, {-1, -1, -1}, {-1, -1, -1}, {-1, -1, -1}, {0, -1, -1}, {-1, -1, -1}}; int q = sx_choose("query", 12), want = -1; for (int w : W[q]) if (want < 0 && w >= 0 && (has >> w & 1)) want = w;
  Logger& l = LoggerFactory::getLogger(Q[q]); Level v = static_cast<Level>(sx_choose("level", 5)); bool args = sx_bool("arguments"); std::string text = std::string("m") + (args ? '%' : static_cast<char>(sx_int("byte", 1, 255))) + "n"; if (want >= 0) logs[want].mask = sx_int("mask", 0, 31);
  auto say = [&] { switch (v) { case Level::TRACE: l.trace(text); break; case Level::DEBUG: l.debug(text); break; case Level::INFO: l.info(text); break; case Level::WARN: l.warn(text); break; default: l.error(text); } }; auto say1 = [&] { switch (v) { case Level::TRACE: l.trace("<%1%>", text); break; case Level::DEBUG: l.debug("<%1%>", text); break; case Level::INFO: l.info("<%1%>", text); break; case Level::WARN: l.warn("<%1%>", text); break; default: l.error("<%1%>", text); } }; if (args) say1(); else say();
  bool on = want >= 0 && (logs[want].mask >> static_cast<int>(v) & 1); for (int i = 0; i < 4; ++i) sx_assert_msg(logs[i].all.size() == (on && i == want ? 1u : 0u), "a message goes to the nearest logger, if its level is enabled"); if (on) { auto& a = logs[want].all; sx_assert_msg(a[0].first == static_cast<int>(v) && a[0].second == (args ? "<" + text + ">" : text), "a message is logged as it is"); sx_reach("said"); } else sx_reach("silent"); clean();
}
SX_HARNESS(kept) {
  logging::ContainerLogger c; std::vector<std::pair<Level, std::string>> w; for (int i = 0, k = sx_bound(4, 6); i < k; ++i) { Level v = static_cast<Level>(sx_choose("level", 5)); std::string t = std::to_string(i); switch (v) { case Level::TRACE: c.trace("%1%", t); break; case Level::DEBUG: c.debug("%1%", t); break; case Level::INFO: c.info(t); break; case Level::WARN: c.warn(t); break; default: c.error("%1%", t); } w.push_back(std::make_pair(v, t)); }
  sx_assert(c.size() == w.size()); size_t i = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) sx_assert_msg(it->getLevel() == w[i].first && it->getMessage() == w[i].second && &c.getLogMessage(i) == &*it, "messages are kept in order"); bool ok = false; try { c.getLogMessage(w.size()); } catch (const std::out_of_range&) { ok = true; } sx_assert(ok); sx_reach("end");
}
