// C15: an XML input gives a usable network or an error, whatever it contains.
#include "describe.hpp"
#include "rules.hpp"
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
using converter::ExportOptions; using converter::ImportOptions;
static Network readX(const std::string& x) { std::istringstream is(x); return Network::readXml("none.xml", is, ImportOptions()); }
static void extend(Network& n) {
  buildFull(n);
  n.addAlias("netalias", "t0"); n.setProperty("np", "nv"); n.getSubstation("S1").setProperty("a", "1"); n.getSubstation("S1").addAlias("subalias"); n.getLoad("LOADB").addAlias("la", "typ"); n.getLoad("LOADB").setProperty("k", "v");
  n.getShuntCompensator("SHB").addAlias("sa", "st"); n.getShuntCompensator("SHB").setProperty("sk", "sv"); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().addAlias("ba"); n.getVoltageLevel("VB").getBusBreakerView().getBus("B1").get().setProperty("bk", "bv"); n.getHvdcLine("HVSC").addAlias("ha"); n.getLine("TIE").addAlias("tia"); n.getLine("LINE").setProperty("lk", "lv");
  n.getGenerator("GENB").setRegulatingTerminal(ref<Terminal>(n.getLine("LINE").getTerminal2())); n.getStaticVarCompensator("SVC").setRegulatingTerminal(ref<Terminal>(n.getThreeWindingsTransformer("T3").getLeg3().getTerminal())); n.getShuntCompensator("SHN").setRegulatingTerminal(ref<Terminal>(n.getLoad("LOADB").getTerminal()));
  DanglingLine& dl = n.getDanglingLine("DL"); dl.newActivePowerLimits().setPermanentLimit(12.0).add(); dl.getGeneration().get().newReactiveCapabilityCurve().beginPoint().setP(0.0).setMinQ(-1.0).setMaxQ(1.0).endPoint().beginPoint().setP(1.0).setMinQ(-2.0).setMaxQ(2.0).endPoint().add();
  ThreeWindingsTransformer& t3 = n.getThreeWindingsTransformer("T3");
  t3.getLeg1().newPhaseTapChanger().setLowTapPosition(1).setTapPosition(1).setRegulationMode(PhaseTapChanger::RegulationMode::FIXED_TAP).setRegulating(false).beginStep().setAlpha(1.0).setRho(1.0).setR(1.0).setX(2.0).setG(3.0).setB(4.0).endStep().add();
  for (VoltageLevel& v : n.getVoltageLevels()) for (Bus& b : v.getBusView().getBuses()) b.setV(300.0).setAngle(-1.0);
  for (Connectable& c : n.getConnectables()) { if (c.getType() == ConnectableType::BUSBAR_SECTION) continue; for (Terminal& x : c.getTerminals()) { x.setQ(200.0); if (c.getType() != ConnectableType::SHUNT_COMPENSATOR) x.setP(100.0); } }
}
struct Attr { size_t elt, b, nb, ne, vb, ve; std::string name; }; // ' name="value"' is [b, ve]
struct Elt { std::string name, key; size_t b, ne, te, eb, ee; bool empty; int parent; }; // start tag [b, te), end tag [eb, ee)
struct Doc { std::string x; std::vector<Elt> elts; std::vector<Attr> attrs; std::vector<size_t> ue, ua; int version; };
static Doc parse(const std::string& x) {
  Doc d; d.version = 0; d.x = x; std::vector<int> st; size_t i = x.find("<", x.find("?>"));
  while (i != std::string::npos) {
    if (x[i + 1] == '/') { Elt& e = d.elts[st.back()]; e.eb = i; e.ee = x.find('>', i) + 1; st.pop_back(); i = x.find('<', i + 1); continue; }
    Elt e; e.b = i; e.ne = x.find_first_of(" />", i); e.name = x.substr(i + 1, e.ne - i - 1); e.parent = st.empty() ? -1 : st.back(); e.empty = false; e.eb = e.ee = 0;
    size_t j = e.ne, id = d.elts.size();
    while (x[j] != '>' && x[j] != '/') {
      Attr a; a.elt = id; a.b = j; a.nb = x.find_first_not_of(' ', j); a.ne = x.find('=', j); a.name = x.substr(a.nb, a.ne - a.nb); a.vb = a.ne + 2; a.ve = x.find('"', a.vb); j = a.ve + 1;
      if (a.name.compare(0, 5, "xmlns") != 0) d.attrs.push_back(a);
      if (a.name == "topologyKind") e.name += "(" + x.substr(a.vb, a.ve - a.vb) + ")";
    }
    e.key = (st.empty() ? "" : d.elts[st.back()].key + "/") + e.name;
    if (x[j] == '/') { e.empty = true; e.te = e.ee = e.eb = j + 2; d.elts.push_back(e); }
    else { e.te = j + 1; d.elts.push_back(e); st.push_back(static_cast<int>(id)); }
    i = x.find('<', j);
  }
  // one of each (in any place: thorough)
  std::set<std::string> seen;
  for (size_t k = 0; k < d.elts.size(); ++k) if (sx_thorough() || seen.insert(d.elts[k].key).second) d.ue.push_back(k);
  seen.clear();
  for (size_t k = 0; k < d.attrs.size(); ++k) if (sx_thorough() || seen.insert(d.elts[d.attrs[k].elt].key + "@" + d.attrs[k].name).second) d.ua.push_back(k);
  return d;
}
static const Doc& doc(int version) {
  static Doc* d[6] = {};
  if (!d[version]) {
    Network n = mkNet("full"); extend(n);
    ExportOptions o; o.setVersion("1." + std::to_string(version)); o.setIidmVersionIncompatibilityBehavior(ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR);
    std::ostringstream os; Network::writeXml("none.xml", os, n, o); d[version] = new Doc(parse(os.str())); d[version]->version = version;
  }
  return *d[version];
}
static int version_() { return sx_thorough() ? static_cast<int>(sx_choose("version", 6)) : (sx_bool("old") ? 0 : 5); }
// an error, or a network whose parts agree, that can be written, read again and changed
static bool check(const std::string& x) {
  std::unique_ptr<Network> m;
  try { m.reset(new Network(readX(x))); } catch (const std::exception&) { sx_reach("refused"); return false; }
  consistent(*m); rules(*m);
  std::string y;
  try { std::ostringstream os; Network::writeXml("none.xml", os, *m); y = os.str(); } catch (const PowsyblException&) { return true; }
  for (VoltageLevel& v : m->getVoltageLevels()) for (Bus& b : v.getBusView().getBuses()) b.getV();
  for (Bus& b : m->getBusView().getBuses()) b.getConnectedComponent();
  sx_reach("read");
  return true;
}
static std::string replace(const std::string& x, size_t b, size_t e, const std::string& s) { return x.substr(0, b) + s + x.substr(e); }
static const char* const VALUES[] = {"", " ", "x", "-1", "0", "1", "1e999", "nan", "-inf", "99999999999999999999", "1.5", "1.5x", "0x7", "true", "TRUE", "VN", "LOADB", "B1", "LINE", "ONE", "THREE", "2147483648", "-9223372036854775809", "T3", "BBS1", "\xc3\xa9", "S1", "full", "D2", "5,4,,x", "2021-02-30T00:00:00Z"};
// the original is a number, and the reader reads it as such
static bool numeric(const Doc& d, const Attr& a) {
  std::string old = d.x.substr(a.vb, a.ve - a.vb); char* end = nullptr; std::strtod(old.c_str(), &end);
  return *end == 0 && !old.empty() && a.name != "value" && a.name != "name" && a.name != "nodes" && a.name != "nodeCount";
}
SX_HARNESS(attribute_values) {
  const Doc& d = doc(version_()); const Attr& a = d.attrs[d.ua[sx_choose("attribute", static_cast<int64_t>(d.ua.size()))]]; __sx_api_note((d.elts[a.elt].key + "@" + a.name).c_str());
  static const int SOME[] = {2, 3, 4, 11, 31}; // of an old file (quick)
  int k = !sx_thorough() && d.version == 0 ? SOME[sx_choose("value", 5)] : static_cast<int>(sx_choose("value", 32));
  if (k == 31) { check(replace(d.x, a.b, a.ve + 1, "")); return; }
  __sx_api_note(VALUES[k]);
  if (numeric(d, a) && (std::string(VALUES[k]) == "x" || std::string(VALUES[k]) == "1.5x" || std::string(VALUES[k]).empty() || k == 1 || k == 15)) { if (check(replace(d.x, a.vb, a.ve, VALUES[k]))) __sx_api_fail(("a text that is not a number was accepted: " + d.elts[a.elt].key + "@" + a.name).c_str()); return; }
  if (std::string(VALUES[k]) == "2147483648" && a.name.compare(0, 4, "node") == 0) return; // a huge but valid node index: memory
  check(replace(d.x, a.vb, a.ve, VALUES[k]));
}
// every number: an unconstrained double in place of each attribute
SX_HARNESS(attribute_numbers) {
  const Doc& d = doc(version_()); const Attr& a = d.attrs[d.ua[sx_choose("attribute", static_cast<int64_t>(d.ua.size()))]]; __sx_api_note((d.elts[a.elt].key + "@" + a.name).c_str());
  if (!numeric(d, a)) return;
  static const char* const INTS[] = {"node", "nodeCount", "node1", "node2", "node3", "forecastDistance", "sectionCount", "currentSectionCount", "maximumSectionCount", "lowTapPosition", "tapPosition", "acceptableDuration"};
  bool isInt = false; for (const char* t : INTS) isInt |= a.name == t;
  sx_text(true);
  std::ostringstream os; os.precision(17);
  if (isInt) os << static_cast<long>(sx_int("value", a.name.find("ap") != std::string::npos ? -3 : 0, 50));
  else if (d.elts[a.elt].name == "iidm:tieLine" || d.elts[a.elt].name == "iidm:bus") { // complex arithmetic on these in the reader (with those of its buses): chosen values
    static const double S[] = {0.0, -0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, INFINITY, -INFINITY, 1e-200}; os << S[sx_choose("special", 10)];
  } else { double v = sx_double("value"); sx_assume(!std::isnan(v)); os << v; }
  check(replace(d.x, a.vb, a.ve, os.str()));
}
static const char* const NAMES[] = {"foo", "load", "bus", "property", "alias", "substation", "voltageLevel", "terminalRef", "regulatingTerminal", "reactiveCapabilityCurve", "minMaxReactiveLimits", "currentLimits", "currentLimits1", "switch", "line", "extension", "step", "ratioTapChanger", "nodeBreakerTopology", "internalConnection"};
SX_HARNESS(elements) {
  const Doc& d = doc(version_()); const Elt& e = d.elts[d.ue[sx_choose("element", static_cast<int64_t>(d.ue.size()))]]; __sx_api_note(e.key.c_str());
  std::string all = d.x.substr(e.b, e.ee - e.b), ns = all.substr(1, all.find(':'));
  int k = sx_choose("what", 26);
  if (k < 20) { // renamed
    std::string body = e.empty ? all.substr(e.ne - e.b) : all.substr(e.ne - e.b, e.eb - e.ne), nm = ns + NAMES[k];
    check(replace(d.x, e.b, e.ee, "<" + nm + body + (e.empty ? "" : "</" + nm + ">")));
  } else switch (k) {
    case 20: check(replace(d.x, e.b, e.ee, "")); break;
    case 21: check(replace(d.x, e.b, e.ee, all + all)); break;
    case 22: if (!e.empty) check(replace(d.x, e.te, e.eb, "")); break; // without its children
    case 23: check(d.x.substr(0, e.b)); break; // truncated
    case 24: check(d.x.substr(0, e.ee)); break;
    default: check(replace(d.x, e.b, e.b, "text &#233; <!-- c --><![CDATA[x]]>")); break;
  }
}
SX_HARNESS(misplaced) { // a copy of an element inside another one
  const Doc& d = doc(sx_thorough() ? version_() : 5); int k = static_cast<int>(d.ue.size());
  const Elt& e = d.elts[d.ue[sx_choose("element", k)]]; const Elt& f = d.elts[d.ue[sx_choose("inside", k)]]; __sx_api_note((e.key + " in " + f.key).c_str());
  if (e.parent < 0) return;
  std::string all = d.x.substr(e.b, e.ee - e.b);
  if (f.empty) check(replace(d.x, f.te - 2, f.te, ">" + all + "</" + d.x.substr(f.b + 1, f.ne - f.b - 1) + ">"));
  else check(replace(d.x, f.te, f.te, all));
}
