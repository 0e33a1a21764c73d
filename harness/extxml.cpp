// C30: extensions nobody knows, or of versions nobody supports, are skipped or refused without harming the rest.
#include "xmlnet.hpp"
#include <functional>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/converter/xml/AbstractExtensionXmlSerializer.hpp>
#include <powsybl/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.hpp>
#include <powsybl/iidm/converter/xml/IidmXmlVersion.hpp>
#include <powsybl/iidm/converter/xml/NetworkXmlReaderContext.hpp>
#include <powsybl/iidm/converter/xml/NetworkXmlWriterContext.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>
using converter::ExportOptions; using converter::ImportOptions; namespace cx = powsybl::iidm::converter::xml; typedef cx::ExtensionXmlSerializer S;
static const char* const NAMES[] = {"k0", "k1", "k2", "k3"};
// an extension holding a number, and the ways to write it
template <int I> struct Ext : public Extension {
  double v; Ext(Extendable& x, double d) : Extension(x), v(d) {}
  const std::string& getName() const override { static std::string s = NAMES[I]; return s; }
  const std::type_index& getType() const override { static std::type_index t = typeid(Ext); return t; }
 private: void assertExtendable(const stdcxx::Reference<Extendable>&) const override {}
};
template <int I> static Extension& readExt(Extendable& x, cx::NetworkXmlReaderContext& c) { double v = c.getReader().getAttributeValue<double>("v"); x.addExtension(stdcxx::make_unique<Ext<I>>(x, v)); return x.getExtension<Ext<I>>(); }
template <int I> static void writeExt(const Extension& e, cx::NetworkXmlWriterContext& c) { c.getWriter().writeAttribute("v", dynamic_cast<const Ext<I>&>(e).v); }
template <int I> struct Plain : public cx::AbstractExtensionXmlSerializer {
  Plain(std::string prefix, std::string uri) : AbstractExtensionXmlSerializer(NAMES[I], "network", std::move(prefix), std::move(uri)) {}
  Extension& read(Extendable& x, cx::NetworkXmlReaderContext& c) const override { return readExt<I>(x, c); }
  void write(const Extension& e, cx::NetworkXmlWriterContext& c) const override { writeExt<I>(e, c); }
};
struct Versioned : public cx::AbstractVersionableExtensionXmlSerializer {
  Versioned(cx::VersionsCompatibility v, std::map<std::string, std::string> u) : AbstractVersionableExtensionXmlSerializer("k3", "network", "p3", std::move(v), std::move(u)) {}
  Extension& read(Extendable& x, cx::NetworkXmlReaderContext& c) const override { checkReadingCompatibility(c); return readExt<3>(x, c); }
  void write(const Extension& e, cx::NetworkXmlWriterContext& c) const override { writeExt<3>(e, c); }
};
static void reg(S* s) { ExtensionProviders<S>::getInstance().registerExtension(std::unique_ptr<S>(s)); }
static std::string write(const Network& n, const ExportOptions& o = ExportOptions()) { std::ostringstream os; Network::writeXml("none.xml", os, n, o); return os.str(); }
static Network readX(const std::string& x, const ImportOptions& o = ImportOptions()) { std::istringstream is(x); return Network::readXml("none.xml", is, o); }
static void small(Network& n) {
  Substation& s = n.newSubstation().setId("S").add(); VoltageLevel& v = s.newVoltageLevel().setId("V").setNominalV(10.0).setTopologyKind(TopologyKind::BUS_BREAKER).add(); v.getBusBreakerView().newBus().setId("B").add();
  v.newLoad().setId("L").setBus("B").setConnectableBus("B").setP0(1.0).setQ0(2.0).add(); v.newLoad().setId("M").setBus("B").setConnectableBus("B").setP0(3.0).setQ0(4.0).add();
}
template <int I> static void put(Extendable& x, double v) { x.addExtension(stdcxx::make_unique<Ext<I>>(x, v)); }
// what is written in the extension of an object, known or not, whatever it contains
SX_HARNESS(unknown) {
  reg(new Plain<0>("p0", "u0")); bool full = sx_choose("network", 2); Network n = mkNet("n"); if (full) buildFull(n); else small(n); Desc before = describe(n); static const char* const IDS[] = {"L", "S", "LINE", "TWT", "none"}; std::string xml = write(n);
  std::string id = sx_choose("of an object", 2) ? (full ? IDS[2 + sx_choose("object", 2)] : IDS[sx_choose("object", 2)]) : "none"; bool there = id != "none"; std::string body; bool alien = false, k0 = false, beta = false;
  int len = 1 + sx_choose("elements", static_cast<int>(sx_bound(2, 3)));
  for (int i = 0; i < len; ++i) switch (sx_choose("element", 8)) {
    case 0: body += "<x:alien xmlns:x=\"ux\" v=\"1\"/>"; alien = true; break;
    case 1: body += "<x:alien xmlns:x=\"ux\">some text</x:alien>"; alien = true; break;
    case 2: body += "<x:alien xmlns:x=\"ux\"><x:k0 v=\"bad\"/><x:load id=\"L\"><x:deep><x:deeper/></x:deep></x:load>text</x:alien>"; alien = true; break;
    case 3: body += "<x:beta xmlns:x=\"ux\" v=\"2\"><!-- c --><x:alien/></x:beta>"; beta = true; break;
    case 4: body += "<!-- <x:alien/> -->"; break;
    case 5: body += "\n  "; break;
    case 6: if (k0) return; body += "<p0:k0 v=\"4.5\"></p0:k0>"; k0 = true; break;
    default: if (k0) return; body += "<p0:k0 v=\"4.5\"/>"; k0 = true;
  }
  std::string end = "</iidm:network>"; size_t at = xml.rfind(end); sx_assert(at != std::string::npos); size_t root = xml.find("<iidm:network "); xml.insert(at, "<iidm:extension id=\"" + id + "\">" + body + "</iidm:extension>"); xml.insert(root + 14, "xmlns:p0=\"u0\" ");
  ImportOptions o; bool thrown = sx_bool("refuse unknown"); o.setThrowExceptionIfExtensionNotFound(thrown); int asked = sx_choose("asked for", 4); if (asked) o.addExtension(asked == 1 ? "k0" : asked == 2 ? "alien" : "beta"); if (asked == 3 && sx_bool("another")) { o.addExtension("k0"); asked = 4; }
  auto in = [&](const std::string& s) { return asked == 0 || (s == "k0" && (asked == 1 || asked == 4)) || (s == "alien" && asked == 2) || (s == "beta" && asked >= 3); }; sx_assert(o.isThrowExceptionIfExtensionNotFound() == thrown); for (const char* s : {"k0", "alien", "beta"}) sx_assert_msg(o.withExtension(s) == in(s), "the extensions asked for");
  bool bad = !there || (thrown && ((alien && in("alien")) || (beta && in("beta")))); bool ok = true; std::unique_ptr<Network> read;
  try { read = stdcxx::make_unique<Network>(readX(xml, o)); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == !bad, "an unknown extension is refused exactly when asked to"); if (!ok) { sx_reach("refused"); return; }
  Network& m = *read; sameDesc(before, describe(m));
  for (Identifiable& x : m.getIdentifiables()) { bool want = x.getId() == id && k0 && in("k0"); int k = 0; for (auto& e : x.getExtensions()) { ++k; sx_assert(e.getName() == "k0"); } sx_assert_msg(k == (want ? 1 : 0), "exactly the known extension is read"); if (want) { sx_assert(x.getExtension<Ext<0>>().v == 4.5); sx_reach("known"); } }
  if (alien || beta) sx_reach("skipped");
}
// an extension whose format has versions, for every set of versions it supports
static const char* const NETV[] = {"1.3", "1.4", "1.5"}; static const char* const EXTV[] = {"1.0", "1.1", "2.0"}; static const cx::IidmXmlVersion& nv(int i) { return cx::IidmXmlVersion::of(NETV[i], "."); }
SX_HARNESS(versions) {
  cx::VersionsCompatibility c; std::map<std::string, std::string> u; bool sup[3][3], has[3]; int last[3] = {-1, -1, -1}; bool uri[3];
  for (int j = 0; j < 3; ++j) { uri[j] = j == 0 || sx_bool("the version has a namespace"); if (uri[j]) u[EXTV[j]] = std::string("ue") + EXTV[j]; }
  int i = sx_choose("network version", 3);
  for (int i2 = 0; i2 < 3; ++i2) { int set = i2 == i || i2 == 2 || sx_thorough() ? sx_choose("versions for a network version", 8) : 1; has[i2] = set != 0; std::vector<std::string> l; for (int j = 0; j < 3; ++j) { sup[i2][j] = set >> j & 1; if (sup[i2][j]) { if (!uri[j]) return; l.push_back(EXTV[j]); last[i2] = j; } } if (has[i2]) c[NETV[i2]] = l; }
  auto* s = new Versioned(c, u); reg(s);
  sx_assert_msg(throwsE<PowsyblException>([&] { s->getVersion(nv(i)); }) == !has[i] && (!has[i] || s->getVersion(nv(i)) == EXTV[last[i]]), "the last version supported is the one used");
  sx_assert_msg(throwsE<PowsyblException>([&] { s->getVersion(); }) == !has[2] && (!has[2] || (s->getVersion() == EXTV[last[2]] && s->getNamespaceUri() == std::string("ue") + EXTV[last[2]])), "the current version is that of the current format");
  sx_assert(throwsE<PowsyblException>([&] { s->getVersion(cx::IidmXmlVersion::V1_0()); }));
  for (int j = 0; j < 4; ++j) { std::string v = j < 3 ? EXTV[j] : "3.0"; bool known = j < 3 && uri[j];
    sx_assert_msg(throwsE<PowsyblException>([&] { s->checkExtensionVersionSupported(v); }) == !known && throwsE<PowsyblException>([&] { s->getNamespaceUri(v); }) == !known && (!known || s->getNamespaceUri(v) == "ue" + v), "a version is known when it has a namespace");
    sx_assert_msg(throwsE<PowsyblException>([&] { s->checkWritingCompatibility(v, nv(i)); }) == !(known && sup[i][j]), "a version is written exactly in the formats it is for"); }
  // written in the version asked for, or the last one
  Network n = mkNet("n"); small(n); double v = sx_double("value"); sx_assume(v == v); put<3>(n.getLoad("L"), v); if (sx_bool("two")) put<3>(n.getSubstation("S"), 2.0); sx_text(true);
  ExportOptions o; o.setVersion(NETV[i]); int ask = sx_choose("version asked for", 5); bool only = sx_thorough() && sx_bool("listed"); if (only) o.addExtension("k3"); if (ask < 4) o.addExtensionVersion("k3", ask < 3 ? EXTV[ask] : "3.0");
  int used = ask == 4 ? last[i] : ask == 3 ? -1 : sup[i][ask] ? ask : -1; std::string xml; bool ok = true; try { xml = write(n, o); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == (used >= 0), "an extension is written exactly when its version fits the format"); if (!ok) { sx_reach("not written"); return; }
  for (int j = 0; j < 3; ++j) sx_assert_msg((xml.find(std::string("\"ue") + EXTV[j] + "\"") != std::string::npos) == (j == used), "the namespace is that of the version written");
  Network m = readX(xml); sameDesc(describe(n), describe(m)); sx_assert_msg(static_cast<bool>(m.getLoad("L").findExtension<Ext<3>>()) && same(m.getLoad("L").getExtension<Ext<3>>().v, v) && !m.getLoad("M").findExtension<Ext<3>>(), "read back as written"); sx_assert(static_cast<bool>(m.getSubstation("S").findExtension<Ext<3>>()) == static_cast<bool>(n.getSubstation("S").findExtension<Ext<3>>())); sx_reach("written");
  // read in a format it is not for
  int other = sx_choose("version read", 4); std::string w = std::string("\"ue") + EXTV[used] + "\"", x = other < 3 ? std::string("\"ue") + EXTV[other] + "\"" : "\"unknown\""; xml.replace(xml.find(w), w.size(), x); bool fits = other < 3 && sup[i][other];
  sx_assert_msg(throwsE<PowsyblException>([&] { readX(xml); }) == !fits, "an extension is read exactly when its version fits the format"); sx_reach(fits ? "another version" : "not read");
}
// formats with one version, prefixes and namespaces that may be those of another
SX_HARNESS(prefixes) {
  static const char* const P[] = {"pa", "pb", "pc"}; static const char* const U[] = {"ua", "ub", "uc"}; int p[3], u[3]; bool on[3], listed[3]; for (int i = 0; i < 3; ++i) { p[i] = i ? sx_choose("prefix", i + 1) : 0; u[i] = i ? sx_choose("namespace", i + 1) : 0; }
  reg(new Plain<0>(P[p[0]], U[u[0]])); reg(new Plain<1>(P[p[1]], U[u[1]])); reg(new Plain<2>(P[p[2]], U[u[2]])); Network n = mkNet("n"); small(n); put<3>(n.getLoad("M"), 9.0);
  for (int i = 0; i < 3; ++i) { on[i] = sx_bool("there"); if (!on[i]) continue; Extendable& x = (i == 1 || sx_thorough()) && sx_bool("on the load") ? static_cast<Extendable&>(n.getLoad("L")) : n.getSubstation("S"); if (i == 0) put<0>(x, 0.5); if (i == 1) put<1>(x, 1.5); if (i == 2) put<2>(x, 2.5); }
  ExportOptions o; bool all = sx_bool("all"); for (int i = 0; i < 3; ++i) { listed[i] = all || sx_bool("listed"); if (!all && listed[i]) o.addExtension(NAMES[i]); } if (!listed[0] && !listed[1] && !listed[2]) for (bool& l : listed) l = true;
  int ask = sx_choose("version asked for", 3); bool refused = false; try { if (ask) o.addExtensionVersion("k0", ask == 1 ? "1.0" : "1.1"); } catch (const PowsyblException&) { refused = true; } sx_assert_msg(refused == (ask && !listed[0]), "a version is asked for an extension that is listed"); if (refused) { sx_reach("no version"); ask = 0; }
  if (ask) sx_assert_msg(throwsE<PowsyblException>([&] { o.addExtensionVersion("k0", "1.0"); }) && o.getExtensionVersion("k0") == (ask == 1 ? "1.0" : "1.1"), "a version is asked for once"); else sx_assert(o.getExtensionVersion("k0").empty());
  bool clash = false; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) clash = clash || (on[i] && listed[i] && on[j] && listed[j] && (p[i] == p[j] || u[i] == u[j]));
  bool want = !clash && !(ask == 2 && on[0] && listed[0]), ok = true; std::string xml; try { xml = write(n, o); } catch (const PowsyblException&) { ok = false; }
  sx_assert_msg(ok == want, "written exactly when no two share a prefix or a namespace and the version is known"); if (!ok) { sx_reach(clash ? "clash" : "unknown version"); return; }
  Network m = readX(xml); sameDesc(describe(n), describe(m)); for (const char* id : {"L", "S", "M"}) for (int i = 0; i < 3; ++i) { bool was = static_cast<bool>(n.get<Identifiable>(id).getExtensionByName<Extension>(NAMES[i])); sx_assert_msg(static_cast<bool>(m.get<Identifiable>(id).getExtensionByName<Extension>(NAMES[i])) == (was && listed[i]), "what is written is read"); }
  sx_assert(xml.find("k3") == std::string::npos); sx_reach("written");
}
// providers are found by name, once registered, and never replaced
SX_HARNESS(providers) {
  auto& r = ExtensionProviders<S>::getInstance(); const auto& cr = r; std::set<std::string> have{"detail", "slackTerminal"}; const S* first[3] = {nullptr, nullptr, nullptr}; int ops = static_cast<int>(sx_bound(3, 5));
  for (int k = 0; k < ops; ++k) {
    int i = sx_choose("extension", 3); bool was = have.count(NAMES[i]) > 0, ok = true; S* s = i == 0 ? static_cast<S*>(new Plain<0>("a", "b")) : i == 1 ? static_cast<S*>(new Plain<1>("c", "d")) : new Plain<2>("e", "f"); sx_assert(s->getName() == NAMES[i] && s->getExtensionName() == NAMES[i] && s->getCategoryName() == "network" && s->getVersion() == "1.0" && s->getNamespaceUri() == s->getNamespaceUri("1.0"));
    try { reg(s); } catch (const PowsyblException&) { ok = false; } sx_assert_msg(ok == !was, "an extension is registered once"); sx_reach(ok ? "registered" : "refused"); if (ok) { have.insert(NAMES[i]); first[i] = s; }
    std::set<std::string> seen; for (const S& x : cr.getProviders()) sx_assert(seen.insert(x.getExtensionName()).second); for (S& x : r.getProviders()) sx_assert(seen.count(x.getExtensionName())); sx_assert_msg(seen == have, "all providers are listed");
    for (int j = 0; j < 3; ++j) { bool h = have.count(NAMES[j]) > 0; auto f = cr.findProvider(NAMES[j]); sx_assert_msg(static_cast<bool>(f) == h && (!h || &f.get() == first[j]), "a provider is found by its name"); sx_assert(throwsE<PowsyblException>([&] { cr.findProviderOrThrowException(NAMES[j]); }) == !h && (!h || &cr.findProviderOrThrowException(NAMES[j]) == first[j])); }
    sx_assert(!cr.findProvider("") && !cr.findProvider("k"));
  }
}
