// C16: an anonymised export reveals no identifier and is undone exactly by its mapping.
#include "xmlnet.hpp"
#include <unistd.h>
#include <boost/algorithm/string/split.hpp>
#include <fstream>
#include <powsybl/iidm/TopologyLevel.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
using converter::ExportOptions; using converter::ImportOptions; using converter::SimpleAnonymizer;
struct Scratch { // the mapping file
  std::string base;
  Scratch() : base("/tmp/sx-anonymize-" + std::to_string(getpid())) { std::remove((base + ".csv").c_str()); }
  ~Scratch() { std::remove((base + ".csv").c_str()); }
  std::string get() const { std::ifstream f(base + ".csv"); std::ostringstream o; o << f.rdbuf(); return o.str(); }
  void set(const std::string& s) const { std::ofstream f(base + ".csv"); f << s; }
};
static std::string write(const Network& n, const ExportOptions& o, const std::string& f = "none.xml") { std::ostringstream os; Network::writeXml(f, os, n, o); return os.str(); }
static Network readX(const std::string& x, const std::string& f = "none.xml") { std::istringstream is(x); return Network::readXml(f, is, ImportOptions()); }
// every attribute value and text of the file, and what each belongs to
static std::vector<std::pair<std::string, std::string>> contents(const std::string& x) {
  std::vector<std::pair<std::string, std::string>> r; size_t i = x.find("<", x.find("?>")); std::string elt;
  while (i != std::string::npos) {
    size_t e = x.find('>', i), j = i; if (x[i + 1] != '/') elt = x.substr(i + 1, x.find_first_of(" />", i) - i - 1);
    while ((j = x.find("=\"", j)) != std::string::npos && j < e) { size_t k = x.find('"', j + 2), b = x.rfind(' ', j); r.emplace_back(elt + "@" + x.substr(b + 1, j - b - 1), x.substr(j + 2, k - j - 2)); j = k; if (j > e) e = x.find('>', j); }
    i = x.find('<', e); std::string t = i == std::string::npos ? "" : x.substr(e + 1, i - e - 1);
    if (t.find_first_not_of(" \n") != std::string::npos) r.emplace_back(elt, t);
  }
  return r;
}
static std::set<std::string> secrets(const Network& n) {
  std::set<std::string> r;
  auto one = [&](const Identifiable& o) { r.insert(o.getId()); r.insert(o.getOptionalName()); for (const std::string& a : o.getAliases()) r.insert(a); };
  for (const Substation& s : n.getSubstations()) { one(s); r.insert(s.getTso()); for (const auto& t : s.getGeographicalTags()) r.insert(t); }
  for (const VoltageLevel& v : n.getVoltageLevels()) { one(v); for (const Bus& b : v.getBusBreakerView().getBuses()) r.insert(b.getId()); for (const Bus& b : v.getBusView().getBuses()) r.insert(b.getId()); if (v.getTopologyKind() == TopologyKind::BUS_BREAKER) for (const Bus& b : v.getBusBreakerView().getBuses()) one(b); }
  for (const Switch& s : n.getSwitches()) one(s);
  for (const Connectable& c : n.getConnectables()) one(c);
  for (const HvdcLine& l : n.getHvdcLines()) one(l);
  for (const Line& l : n.getLines()) if (l.isTieLine()) { const auto& t = dynamic_cast<const TieLine&>(l); for (const auto* h : {&t.getHalf1(), &t.getHalf2()}) { r.insert(h->getId()); r.insert(h->getName()); } }
  for (const std::string& a : n.getAliases()) r.insert(a);
  r.erase("");
  return r;
}
// exported with and without anonymisation: the same network is read; the anonymised file holds no secret
static void check(const Network& n, ExportOptions o, bool hidden = true) {
  Scratch f;
  const Desc before = describe(n); std::string plain;
  try { plain = write(n, o.setAnonymized(false)); } catch (const PowsyblException&) { sx_assert(throws([&]() { write(n, o.setAnonymized(true), f.base + ".xiidm"); })); sx_reach("refused"); return; }
  sx_assert(f.get().empty());
  const std::string x = write(n, o.setAnonymized(true), f.base + ".xiidm");
  sameDesc(before, describe(n));
  if (hidden) { std::set<std::string> s = secrets(n); std::istringstream is(f.get()); for (std::string l; std::getline(is, l);) s.erase(l.substr(l.rfind(';') + 1)); // a substitute may equal a text of the network
    for (const auto& c : contents(x)) { std::vector<std::string> parts; boost::algorithm::split(parts, c.second, [](char k) { return k == ','; }); for (const std::string& p : parts) if (s.count(p)) __sx_api_fail((c.first + " reveals '" + p + "'").c_str()); } }
  DOpt op;
  try { readX(plain); } catch (const PowsyblException&) { sx_assert(throws([&]() { readX(x, f.base + ".xiidm"); })); sx_reach("unreadable"); return; } // C14's finding
  Network a = readX(plain), b = readX(x, f.base + ".xiidm");
  sameDesc(describe(a, op), describe(b, op));
  sx_assert(write(b, o.setAnonymized(false)) == write(a, o));
  consistent(b);
  // without its mapping, or with another one, it is a usable network or an error
  std::string csv = f.get(); f.set("A;B\n" + csv.substr(0, csv.size() / 2)); try { Network c = readX(x, f.base + ".xiidm"); consistent(c); } catch (const std::exception&) { sx_reach("refused"); }
  sx_reach("anonymised");
}
SX_HARNESS(options) {
  Network n = mkNet("full"); extend(n); if (sx_choose("situation", 2)) unsettle(n);
  n.getSubstation("S1").setTso("tso1").addGeographicalTag("tag1").addGeographicalTag("tag2");
  VoltageLevel& vb = n.getVoltageLevel("VB"); VoltageLevel& vn = n.getVoltageLevel("VN");
  vb.getBusBreakerView().newBus().setId("XB").setName("nxb").add(); vb.getBusBreakerView().newSwitch().setId("XSW").setName("nxsw").setBus1("XB").setBus2("B1").add(); vn.getNodeBreakerView().newSwitch().setId("XSN").setName("nxsn").setKind(SwitchKind::BREAKER).setNode1(50).setNode2(51).add();
  vn.getNodeBreakerView().newBusbarSection().setId("XBB").setName("nxbb").setNode(50).add();
  vb.newLoad().setId("XL").setName("nxl").setBus("XB").setConnectableBus("XB").setP0(1.0).setQ0(2.0).add(); vb.newBattery().setId("XBT").setName("nxbt").setBus("XB").setConnectableBus("XB").setP0(1.0).setQ0(2.0).setMinP(0.0).setMaxP(2.0).add();
  vb.newGenerator().setId("XG").setName("nxg").setBus("XB").setConnectableBus("XB").setMinP(0.0).setMaxP(1.0).setTargetP(0.0).setTargetQ(0.0).setVoltageRegulatorOn(false).add();
  n.getSubstation("S1").newVoltageLevel().setId("XV").setName("nxv").setNominalV(1.0).setTopologyKind(TopologyKind::BUS_BREAKER).add(); n.newSubstation().setId("XS").setName("nxs").add();
  if (sx_bool("slack")) n.getVoltageLevel("VB").newExtension<powsybl::iidm::extensions::SlackTerminalAdder>().withTerminal(n.getLoad("LOADB").getTerminal()).add();
  for (const char* s : {"COUPLER", "SWB"}) n.getSwitch(s).setOpen(sx_bool(s));
  int level = sx_choose("level", 3), v = sx_choose("version", 6); ExportOptions o;
  o.setTopologyLevel(level == 0 ? TopologyLevel::NODE_BREAKER : level == 1 ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH);
  if (level) n.getShuntCompensator("SHN").setRegulatingTerminal(ref<Terminal>(n.getLoad("LOADB").getTerminal()));
  o.setVersion("1." + std::to_string(v)); o.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR); o.setWithBranchSV(sx_bool("branch sv")); if (sx_thorough()) o.setIndent(sx_bool("indent"));
  check(n, o);
}
static const char* const TEXTS[] = {"a", "A", "B", "AA", "caf\xc3\xa9", "a<b>&c\"d'e", " lead", "trail ", "a  b", "a;b", ";", ";;", "A;B", "\"x\"", "#", "a=b", "\xf0\x9d\x84\x9e", "%1%", "a\tb", "9"};
SX_HARNESS(texts) { // in two places
  std::string t = TEXTS[sx_choose("text", 20)], u = TEXTS[sx_choose("text 2", sx_thorough() ? 20 : 3)]; int place = sx_choose("place", 23), place2 = sx_choose("place 2", sx_thorough() ? 23 : 4);
  auto T = [&](int k, const char* d) -> std::string { return k == place ? t : k == place2 ? u : d; };
  try {
    Network n("net", "fmt"); n.setCaseDate(stdcxx::DateTime::parse("2021-01-01T00:00:00.000+00:00")); n.addAlias("na", "ty");
    Substation& s = n.newSubstation().setId(T(0, "S")).setName(T(8, "")).setTso(T(9, "tso")).setCountry(Country::FR).add();
    if (T(10, "tag").find(',') == std::string::npos) s.addGeographicalTag(T(10, "tag"));
    VoltageLevel& vb = s.newVoltageLevel().setId(T(1, "VB")).setName(T(11, "")).setNominalV(1.0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    VoltageLevel& vn = mkVl(s, T(12, "VN"), true);
    vb.getBusBreakerView().newBus().setId(T(2, "B1")).setName(T(13, "")).add(); mkBus(vb, "B2");
    vb.getBusBreakerView().newSwitch().setId(T(3, "SW")).setName(T(14, "")).setBus1(T(2, "B1")).setBus2("B2").add();
    mkBbs(vn, T(15, "BBS"), 0); vn.getNodeBreakerView().newSwitch().setId(T(16, "SWN")).setName(T(17, "")).setKind(SwitchKind::BREAKER).setNode1(0).setNode2(1).add();
    Load& l = vb.newLoad().setId(T(4, "L")).setName(T(18, "")).setBus(T(2, "B1")).setConnectableBus(T(2, "B1")).setP0(1.0).setQ0(1.0).add();
    l.addAlias(T(5, "la"), "t");
    Generator& g = mkGenB(vb, T(19, "G"), "B2"); g.setRegulatingTerminal(ref<Terminal>(l.getTerminal()));
    vn.newDanglingLine().setId("D").setNode(1).setR(1.0).setX(1.0).setG(1.0).setB(1.0).setP0(1.0).setQ0(1.0).add();
    n.newTieLine().setId(T(6, "T")).setVoltageLevel1(T(1, "VB")).setBus1(T(2, "B1")).setConnectableBus1(T(2, "B1")).setVoltageLevel2(T(1, "VB")).setBus2("B2").setConnectableBus2("B2").setUcteXnodeCode("c")
      .newHalfLine1().setId(T(20, "H1")).setName(T(21, "")).setR(1.0).setX(2.0).setG1(3.0).setB1(4.0).setG2(5.0).setB2(6.0).add().newHalfLine2().setId(T(7, "H2")).setName(T(22, "")).setR(1.0).setX(2.0).setG1(3.0).setB1(4.0).setG2(5.0).setB2(6.0).add().add();
    check(n, ExportOptions(), false);
  } catch (const PowsyblException& e) { if (std::string(e.what()).find("already") == std::string::npos) __sx_api_fail(e.what()); sx_reach("not unique"); }
}
// the mapping alone: as many texts as wanted, any repetition, written and read again
SX_HARNESS(mapping) {
  SimpleAnonymizer a; std::map<std::string, std::string> m; std::set<std::string> values;
  int before = static_cast<int>(sx_choose("others", sx_thorough() ? 30 : 5)) * (sx_thorough() ? 25 : 176); // one, two and three letters
  for (int i = 0; i < before; ++i) values.insert(m["o" + std::to_string(i)] = a.anonymizeString("o" + std::to_string(i)));
  for (int i = 0; i < sx_bound(2, 3); ++i) {
    std::string t = TEXTS[sx_choose("text", 20)]; std::string v = a.anonymizeString(t);
    if (m.count(t)) sx_assert(m[t] == v); else { sx_assert(values.insert(v).second); m[t] = v; }
  }
  sx_assert(a.getStringCount() == m.size());
  std::stringstream s; a.write(s); SimpleAnonymizer b; b.read(s);
  sx_assert(b.getStringCount() == m.size());
  for (const auto& e : m) { sx_assert(a.deanonymizeString(e.second) == e.first); sx_assert(b.deanonymizeString(e.second) == e.first); sx_assert(b.anonymizeString(e.first) == e.second); }
  sx_assert(a.anonymizeString("").empty() && a.deanonymizeString("").empty());
  sx_assert(throws([&]() { a.deanonymizeString("NOTHERE"); }));
  sx_reach("end");
}
