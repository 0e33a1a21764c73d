// C31: what the XML writer writes, the XML reader reads; typed values are exact or refused.
#include "common.hpp"
#include <functional>
#include <limits>
#include <sstream>
#include <powsybl/xml/XmlStreamException.hpp>
#include <powsybl/xml/XmlStreamReader.hpp>
#include <powsybl/xml/XmlStreamWriter.hpp>
#include <powsybl/AssertionError.hpp>
using powsybl::xml::XmlStreamReader; using powsybl::xml::XmlStreamWriter; using powsybl::xml::XmlStreamException;
static bool yes(const char* n) { return sx_choose(n, 2) != 0; }
static std::string doc(const std::function<void(XmlStreamWriter&)>& f, bool indent = true, const std::string& enc = "UTF-8") { std::ostringstream os; { XmlStreamWriter w(os, indent); w.writeStartDocument(enc, "1.0"); w.writeStartElement("", "r"); f(w); w.writeEndElement(); w.writeEndDocument(); } return os.str(); }
struct Rd { std::istringstream is; XmlStreamReader r; explicit Rd(const std::string& s, const std::string& enc = "UTF-8") : is(s), r(is, enc) {} };
// a tree of elements
struct El { std::string prefix, name; std::map<std::string, std::string> attrs; std::string text; bool gap = false; std::vector<El> kids; };
static const char* const TEXTS[] = {"<&>\"'", "t", " x ", "\xc3\xa9", "a\tb\nc", "]]>", "&amp;"};
static void read(XmlStreamReader& r, const El& e) {
  sx_assert_msg(r.getLocalName() == e.name && r.getPrefix() == e.prefix, "an element has its name and prefix");
  for (const char* a : {"v", "w", "x"}) { auto it = e.attrs.find(a); bool has = it != e.attrs.end(); auto v = r.getOptionalAttributeValue<std::string>(a); sx_assert_msg(static_cast<bool>(v) == has && (!has || *v == it->second), "an attribute has its text");
    sx_assert_msg(throwsE<XmlStreamException>([&] { r.getAttributeValue(a); }) == !has && (!has || r.getAttributeValue(a) == it->second) && r.getOptionalAttributeValue(a, "default") == (has ? it->second : "default") && r.getOptionalAttributeValue(a, std::string("other")) == (has ? it->second : "other"), "or is missing"); }
  size_t k = 0; std::string text = r.readUntilEndElement(e.name, [&] { sx_assert_msg(k < e.kids.size(), "no other element"); read(r, e.kids[k]); ++k; });
  sx_assert_msg(k == e.kids.size(), "every element inside is met, in order"); sx_assert_msg(text == e.text, "the text of an element");
}
SX_HARNESS(documents) {
  bool indent = yes("indent"), bad = false; El root; root.name = "r"; std::vector<El*> open{&root}; int ops = static_cast<int>(sx_bound(4, 5)); static const char* const NM[] = {"a", "r"};
  std::string x = doc([&](XmlStreamWriter& w) {
    bool ns = false;
    auto put = [&](const char* n, const std::string& t) { w.writeAttribute(n, t); open.back()->attrs[n] = t; }; std::string tx = TEXTS[sx_choose("text", sx_bound(3, 7))];
    if (yes("prefixed")) { w.setPrefix("p", "uri"); ns = true; } int at = static_cast<int>(sx_choose("attributes", 3)); if (at) put("v", tx); if (at == 2) put("w", "");
    for (int i = 0; i < ops; ++i) switch (sx_choose("next", 3)) {
      case 0: { El k; k.name = NM[sx_choose("name", 2)]; k.prefix = ns && i != 1 ? "p" : ""; if (indent && !open.back()->text.empty()) { bad = true; return; } open.back()->kids.push_back(k); open.back()->gap = true; if (sx_choose("an empty one", 2)) { w.writeEmptyElement(k.prefix, k.name); } else { w.writeStartElement(k.prefix, k.name); open.push_back(&open.back()->kids.back()); if (i % 2 == at % 2) put(i < 2 ? "v" : "x", tx); } break; }
      case 1: if (open.size() < 2) { bad = true; return; } w.writeEndElement(); open.pop_back(); open.back()->gap = true; break;
      default: { El& e = *open.back(); if (indent && !e.kids.empty()) { bad = true; return; } std::string t = i ? tx : " x "; w.writeCharacters(t); e.text = e.gap ? t : e.text + t; e.gap = false; }
    }
    while (open.size() > 1) { w.writeEndElement(); open.pop_back(); }
  }, indent);
  if (bad) return; Rd d(x); read(d.r, root); sx_reach(root.kids.empty() ? "flat" : "nested");
  // without its end, it is refused
  size_t cut = x.rfind("</r>"); if (cut != std::string::npos && cut > x.find("<r") + 2) { Rd t(x.substr(0, cut + static_cast<size_t>(sx_thorough() ? sx_choose("cut", 4) : 1))); bool ok = true; try { std::function<void()> rec = [&] { std::string n = t.r.getLocalName(); t.r.readUntilEndElement(n, rec); }; rec(); } catch (const std::exception&) { ok = false; } sx_assert_msg(!ok, "a document without its end is refused"); sx_reach("truncated"); }
}
// numbers of any value
SX_HARNESS(values) {
  int kind = static_cast<int>(sx_choose("type", 5)), how = static_cast<int>(sx_choose("how", 3)); double d = 0, da = 0; int64_t i = 0, ia = 0; bool b = false, ba = false; sx_text(true);
  std::string x = doc([&](XmlStreamWriter& w) { switch (kind) {
    case 0: d = sx_double("double"); da = sx_choose("absent", 3); if (da == 2) da = std::nan(""); if (how == 0) w.writeAttribute("v", d); else if (how == 1) w.writeOptionalAttribute("v", d); else w.writeOptionalAttribute("v", d, da); break;
    case 1: i = sx_int("int", std::numeric_limits<int>::min(), std::numeric_limits<int>::max()); ia = sx_int("absent", -3, 3); if (how == 2) w.writeOptionalAttribute("v", static_cast<int>(i), static_cast<int>(ia)); else w.writeAttribute("v", static_cast<int>(i)); break;
    case 2: i = sx_int("long", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()); w.writeAttribute("v", static_cast<long>(i)); break;
    case 3: i = sx_int("unsigned long", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()); ia = sx_int("absent", 0, 3); if (how == 2) w.writeOptionalAttribute("v", static_cast<unsigned long>(i), static_cast<unsigned long>(ia)); else w.writeAttribute("v", static_cast<unsigned long>(i)); break;
    default: b = sx_bool("bool"); ba = sx_bool("absent"); if (how == 2) w.writeOptionalAttribute("v", b, ba); else w.writeAttribute("v", b); } });
  Rd r(x); XmlStreamReader& R = r.r; bool there = static_cast<bool>(R.getOptionalAttributeValue<std::string>("v")); bool want = kind == 0 ? d == d && (how != 2 || d != da) : how != 2 || (kind == 4 ? b != ba : kind == 2 || i != ia);
  sx_assert_msg(there == want, "a value is written unless it is the one that is not"); if (!there) { sx_reach("not written"); sx_assert(same(R.getOptionalAttributeValue("v", 2.5), 2.5) && R.getOptionalAttributeValue("v", 7) == 7 && R.getOptionalAttributeValue("v", 8UL) == 8UL && R.getOptionalAttributeValue("v", true) && !R.getOptionalAttributeValue("v", false)); for (auto f : {std::function<void()>([&] { R.getAttributeValue<double>("v"); }), std::function<void()>([&] { R.getAttributeValue<int>("v"); }), std::function<void()>([&] { R.getAttributeValue<unsigned long>("v"); }), std::function<void()>([&] { R.getAttributeValue<long>("v"); })}) sx_assert(throwsE<XmlStreamException>(f)); sx_assert(!R.getOptionalAttributeValue<double>("v") && !R.getOptionalAttributeValue<int>("v") && !R.getOptionalAttributeValue<unsigned long>("v") && !R.getOptionalAttributeValue<bool>("v")); return; }
  switch (kind) {
    case 0: sx_assert_msg(same(how ? *R.getOptionalAttributeValue<double>("v") : R.getAttributeValue<double>("v"), d) && same(R.getOptionalAttributeValue("v", 2.5), d), "a number is read as it was written"); break;
    case 1: sx_assert_msg((how ? *R.getOptionalAttributeValue<int>("v") : R.getAttributeValue<int>("v")) == i && R.getOptionalAttributeValue("v", 7) == i, "a number is read as it was written"); break;
    case 2: sx_assert_msg(R.getAttributeValue<long>("v") == i, "a number is read as it was written"); break;
    case 3: sx_assert_msg((how ? *R.getOptionalAttributeValue<unsigned long>("v") : R.getAttributeValue<unsigned long>("v")) == static_cast<unsigned long>(i) && R.getOptionalAttributeValue("v", 8UL) == static_cast<unsigned long>(i), "a number is read as it was written"); break;
    default: sx_assert_msg((how ? *R.getOptionalAttributeValue<bool>("v") : R.getAttributeValue<bool>("v")) == b && R.getOptionalAttributeValue("v", !b) == b, "a truth value is read as it was written"); }
  sx_reach("written");
}
// what a text means, by its grammar
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool integer(const std::string& s, bool sign, __int128& v) {
  size_t i = 0, n = s.size(); while (i < n && sp(s[i])) ++i; bool neg = false; if (i < n && (s[i] == '+' || (sign && s[i] == '-'))) neg = s[i++] == '-'; size_t b = i; v = 0;
  while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); if (v > (static_cast<__int128>(1) << 70)) v = static_cast<__int128>(1) << 70; } if (i == b) return false; while (i < n && sp(s[i])) ++i; if (neg) v = -v; return i == n;
}
static bool decimal(const std::string& s) {
  size_t i = 0, n = s.size(), d = 0; auto dig = [&] { while (i < n && s[i] >= '0' && s[i] <= '9') { ++i; ++d; } }; auto word = [&](const char* w) { size_t k = strlen(w); if (n - i < k) return false; for (size_t j = 0; j < k; ++j) if ((s[i + j] | 32) != w[j]) return false; i += k; return true; };
  while (i < n && sp(s[i])) ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
  if (word("infinity") || word("inf") || word("nan")) {} else { dig(); if (i < n && s[i] == '.') { ++i; dig(); } if (!d) return false; if (i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i; size_t was = d; dig(); if (d == was) return false; } }
  while (i < n && sp(s[i])) ++i; return i == n;
}
SX_HARNESS(texts) {
  static const char* const B[] = {"", "0", "-12", "+5", "1.5", "-.5e1", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1e308", "1e309", "4.9e-324", "1e-400", "inf", "nan", "true", "FALSE"};
  std::string s = B[sx_choose("text", 21)]; static const char C[] = " \t\n+-0179.eEx,'\"ntT_"; size_t nc = sizeof C - 1; size_t at = static_cast<size_t>(sx_choose("at", static_cast<int64_t>(s.size() + 1))); int op = static_cast<int>(sx_choose("edit", 4));
  if (op == 0 && at) return; if (op == 1) { if (at == s.size()) return; s[at] = C[sx_choose("byte", static_cast<int64_t>(nc))]; } if (op == 2) s.insert(at, 1, C[sx_choose("byte", static_cast<int64_t>(nc))]); if (op == 3) { if (at == s.size()) return; s.erase(at, 1); } if (s.find("0x") != std::string::npos || s.find("0X") != std::string::npos) return;
  Rd r(doc([&](XmlStreamWriter& w) { w.writeAttribute("v", s); })); XmlStreamReader& R = r.r; sx_assert_msg(R.getAttributeValue("v") == s, "a text is read as it was written");
  auto on = [&](const std::function<void()>& f) { try { f(); return true; } catch (const std::logic_error&) { return false; } catch (const std::runtime_error&) { return false; } }; __int128 v = 0; bool good;
  int i = 0, io = 0; long l = 0; unsigned long u = 0, uo = 0; double d = 0, o = 0; bool whole = integer(s, true, v);
  good = whole && v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max(); sx_assert_msg(on([&] { i = R.getAttributeValue<int>("v"); }) == good && on([&] { io = *R.getOptionalAttributeValue<int>("v"); }) == good && (!good || (i == v && io == v)), "an integer is the one written, or refused");
  good = whole && v >= std::numeric_limits<long>::min() && v <= std::numeric_limits<long>::max(); sx_assert_msg(on([&] { l = R.getAttributeValue<long>("v"); }) == good && (!good || l == v), "a long integer is the one written, or refused"); if (good) sx_reach("integer");
  good = integer(s, false, v) && v <= std::numeric_limits<unsigned long>::max(); sx_assert_msg(on([&] { u = R.getAttributeValue<unsigned long>("v"); }) == good && on([&] { uo = R.getOptionalAttributeValue("v", 3UL); }) == good && (!good || (u == static_cast<unsigned long>(v) && uo == u)), "an unsigned integer is the one written, or refused");
  good = decimal(s); if (good) { d = strtod(s.c_str(), nullptr); std::string low = s; for (char& c : low) c |= 32; if (std::isinf(d) && low.find("inf") == std::string::npos) good = false; } double e = d; sx_assert_msg(on([&] { d = R.getAttributeValue<double>("v"); }) == good && on([&] { o = *R.getOptionalAttributeValue<double>("v"); }) == good && (!good || (same(d, e) && same(o, e))), "a number is the one written, or refused"); sx_reach(good ? "number" : "no number");
  std::string low = s; for (char& c : low) if (c >= 'A' && c <= 'Z') c |= 32; bool t = low == "true"; sx_assert_msg(R.getAttributeValue<bool>("v") == t && *R.getOptionalAttributeValue<bool>("v") == t && R.getOptionalAttributeValue("v", !t) == t, "a truth value"); if (t) sx_reach("true");
}
// every character, in attributes and in texts, in several encodings
SX_HARNESS(characters) {
  int c = static_cast<int>(sx_choose("character", 132)); std::string s = "x"; static const char* const U[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x92\xa9", "\xc2\x85", "\xff"}; if (c < 127) s += static_cast<char>(c + 1); else s += U[c - 127]; s += "y"; static const char* const E[] = {"UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16"}; std::string enc = E[sx_choose("encoding", 4)]; bool in = yes("in a text"), indent = yes("indent");
  bool allowed = c >= 127 ? c != 131 : c + 1 >= 32 || c + 1 == 9 || c + 1 == 10 || c + 1 == 13; std::string back; bool ok = true;
  try { std::string x = doc([&](XmlStreamWriter& w) { if (in) w.writeCharacters(s); else w.writeAttribute("v", s); }, indent, enc); Rd r(x, enc); back = in ? r.r.readUntilEndElement("r") : r.r.getAttributeValue("v"); if (in) { Rd q(x, enc); sx_assert(q.r.readCharacters() == back && q.r.getText() == back); sx_assert(throwsE<XmlStreamException>([&] { q.r.getAttributeValue("v"); }) && throwsE<XmlStreamException>([&] { q.r.getPrefix(); })); } } catch (const powsybl::PowsyblException&) { ok = false; }
  sx_assert_msg(allowed ? ok && back == s : !ok || back == s || c == 131, "a text is read as it was written, or refused"); sx_reach(ok ? "same" : "refused");
}
// namespaces, comments, and what is done out of order
SX_HARNESS(places) {
  std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; int comments = static_cast<int>(sx_choose("comments", 3)); for (int i = 0; i < comments; ++i) x += "<!-- c -->"; bool dflt = yes("default namespace"), p = yes("prefix"), q = yes("inner prefix"), redef = yes("redefined"); bool inner = yes("comment inside");
  x += std::string("<r") + (dflt ? " xmlns=\"ud\"" : "") + (p ? " xmlns:p=\"up\"" : "") + ">" + (inner ? "\n <!-- <k/> --> " : "") + "<k" + (q ? " xmlns:q=\"uq\"" : "") + (redef ? " xmlns:p=\"other\"" : "") + "/><m/>text</r>";
  Rd d(x); XmlStreamReader& R = d.r; R.skipComments(); sx_assert_msg(R.getLocalName() == "r", "the comments are skipped, nothing else"); R.skipComments(); sx_assert(R.getLocalName() == "r");
  auto look = [&](bool pp, const std::string& up, bool qq) {
    sx_assert_msg(R.getDefaultNamespace() == (dflt ? "ud" : "") && R.getNamespace("") == R.getDefaultNamespace(), "the default namespace"); sx_assert_msg(throwsE<XmlStreamException>([&] { R.getNamespace("p"); }) == !pp && (!pp || R.getNamespace("p") == up) && throwsE<XmlStreamException>([&] { R.getNamespace("q"); }) == !qq && (!qq || R.getNamespace("q") == "uq"), "a prefix has its namespace where it is declared");
    sx_assert_msg(R.getNamespace("p", "d") == (pp ? up : "d") && R.getNamespaceOrDefault("p") == (pp ? up : R.getDefaultNamespace()) && R.getNamespaceOrDefault("q") == (qq ? "uq" : R.getDefaultNamespace()), "or the one given"); };
  look(p, "up", false); R.readUntilNextElement(); sx_assert_msg(R.getLocalName() == "k", "the next element"); look(p || redef, redef ? "other" : "up", q); R.readUntilNextElement(); sx_assert(R.getLocalName() == "m"); look(p, "up", false); sx_assert(throwsE<XmlStreamException>([&] { R.getText(); })); sx_assert(R.readCharacters() == "text"); R.readUntilNextElement(); sx_reach("read");
  std::ostringstream os; XmlStreamWriter w(os, true); w.writeStartDocument("UTF-8", "1.0"); sx_assert(throwsE<XmlStreamException>([&] { w.writeStartDocument("UTF-8", "1.0"); })); sx_assert(throwsE<XmlStreamException>([&] { XmlStreamWriter v(os, true); v.writeStartDocument("no such encoding", "1.0"); })); w.writeStartElement("", "r"); sx_assert(throwsE<XmlStreamException>([&] { w.setPrefix("", "u"); }));
  if (inner) { w.writeCharacters("x"); sx_assert_msg(throwsE<XmlStreamException>([&] { w.writeAttribute("v", "1"); }), "an attribute after a text is refused"); sx_reach("misplaced"); }
}
