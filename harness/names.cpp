// C26: texts for values (names, versions, options, dates, identifiers) are exact.
#include "common.hpp"
#include <powsybl/AssertionError.hpp>
#include <powsybl/iidm/ConnectableType.hpp>
#include <powsybl/iidm/IdBasedBusRef.hpp>
#include <powsybl/iidm/LimitType.hpp>
#include <powsybl/iidm/ShuntCompensatorModelType.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
#include <powsybl/iidm/converter/xml/IidmXmlVersion.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeGeographicalCode.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/util/Identifiables.hpp>
#include <powsybl/logging/Level.hpp>
#include <powsybl/stdcxx/DateTime.hpp>
#include <powsybl/stdcxx/Properties.hpp>
#include <powsybl/stdcxx/exception.hpp>
using converter::ExportOptions; using converter::ImportOptions; using converter::xml::IidmXmlVersion; using stdcxx::DateTime; namespace ex = powsybl::iidm::extensions;
// a text with one byte replaced by any other, removed, doubled, or left as it is
static std::string edited(std::string t) {
  size_t p = sx_choose("position", t.size() + 1);
  switch (sx_choose("edit", 4)) { case 0: if (p < t.size()) t[p] = static_cast<char>(sx_int("byte", 0, 255)); break; case 1: if (p < t.size()) t.erase(p, 1); break; case 2: t.insert(p, 1, static_cast<char>(sx_int("byte", 0, 255))); break; default: if (p) t = ""; break; } return t;
}
template <typename E> static void names(const std::vector<std::pair<E, const char*>>& w) {
  int op = sx_choose("what", 3);
  if (op == 0) { size_t i = sx_choose("value", w.size()); std::ostringstream os; os << w[i].first; sx_assert_msg(Enum::toString(w[i].first) == w[i].second && os.str() == w[i].second, "a value has its name"); sx_assert_msg(Enum::fromString<E>(w[i].second) == w[i].first, "a name has its value"); sx_assert(Enum::getNames<E>().size() == w.size()); sx_reach("name"); }
  else if (op == 1) { // values that do not exist
    long long v = sx_int("value", 0, sizeof(E) == 1 ? 255 : 4294967295LL); for (auto& x : w) sx_assume(v != static_cast<long long>(x.first)); sx_assert_msg(throwsE<AssertionError>([&] { Enum::toString(static_cast<E>(v)); }), "a value that does not exist has no name"); sx_reach("no name");
  } else { size_t few = w.size() > 12 && !sx_thorough() ? 12 : w.size(); std::string t = edited(w[w.size() * sx_choose("of", few) / few].second); int want = -1; for (size_t i = 0; i < w.size(); ++i) if (t == w[i].second) want = i; bool ok = true; E e = w[0].first; try { e = Enum::fromString<E>(t); } catch (const AssertionError&) { ok = false; } sx_assert_msg(ok == (want >= 0) && (!ok || e == w[want].first), "a text is the name of at most one value"); sx_reach(ok ? "text of a value" : "text of none"); }
}
#define N(x) std::make_pair(T::x, #x)
#define NAMES(type, ...) { typedef type T; names<T>({__VA_ARGS__}); }
SX_HARNESS(kinds) {
  switch (sx_choose("kind", 23)) {
    case 0: NAMES(TopologyKind, N(NODE_BREAKER), N(BUS_BREAKER)) break;
    case 1: NAMES(TopologyLevel, N(NODE_BREAKER), N(BUS_BREAKER), N(BUS_BRANCH)) break;
    case 2: NAMES(SwitchKind, N(BREAKER), N(DISCONNECTOR), N(LOAD_BREAK_SWITCH)) break;
    case 3: NAMES(LoadType, N(UNDEFINED), N(AUXILIARY), N(FICTITIOUS)) break;
    case 4: NAMES(EnergySource, N(HYDRO), N(NUCLEAR), N(WIND), N(THERMAL), N(SOLAR), N(OTHER)) break;
    case 5: NAMES(LimitType, N(ACTIVE_POWER), N(APPARENT_POWER), N(CURRENT), N(VOLTAGE)) break;
    case 6: NAMES(ConnectableType, N(BUSBAR_SECTION), N(LINE), N(TWO_WINDINGS_TRANSFORMER), N(THREE_WINDINGS_TRANSFORMER), N(GENERATOR), N(BATTERY), N(LOAD), N(SHUNT_COMPENSATOR), N(DANGLING_LINE), N(STATIC_VAR_COMPENSATOR), N(HVDC_CONVERTER_STATION)) break;
    case 7: NAMES(ShuntCompensatorModelType, N(LINEAR), N(NON_LINEAR)) break;
    case 8: NAMES(StaticVarCompensator::RegulationMode, N(VOLTAGE), N(REACTIVE_POWER), N(OFF)) break;
    case 9: NAMES(PhaseTapChanger::RegulationMode, N(CURRENT_LIMITER), N(ACTIVE_POWER_CONTROL), N(FIXED_TAP)) break;
    case 10: NAMES(HvdcLine::ConvertersMode, N(SIDE_1_RECTIFIER_SIDE_2_INVERTER), N(SIDE_1_INVERTER_SIDE_2_RECTIFIER)) break;
    case 11: NAMES(HvdcConverterStation::HvdcType, N(VSC), N(LCC)) break;
    case 12: NAMES(Branch::Side, N(ONE), N(TWO)) break;
    case 13: NAMES(ThreeWindingsTransformer::Side, N(ONE), N(TWO), N(THREE)) break;
    case 14: NAMES(ExportOptions::IidmVersionIncompatibilityBehavior, N(THROW_EXCEPTION), N(LOG_ERROR)) break;
    case 15: NAMES(ex::iidm::Measurement::Side, N(ONE), N(TWO), N(THREE)) break;
    case 16: NAMES(ex::iidm::Measurement::Type, N(ANGLE), N(ACTIVE_POWER), N(APPARENT_POWER), N(REACTIVE_POWER), N(CURRENT), N(VOLTAGE), N(FREQUENCY), N(OTHER)) break;
    case 17: NAMES(ex::iidm::DiscreteMeasurement::Type, N(TAP_POSITION), N(SWITCH_POSITION), N(SHUNT_COMPENSATOR_SECTION), N(OTHER)) break;
    case 18: NAMES(ex::iidm::DiscreteMeasurement::TapChanger, N(RATIO_TAP_CHANGER), N(PHASE_TAP_CHANGER), N(RATIO_TAP_CHANGER_1), N(PHASE_TAP_CHANGER_1), N(RATIO_TAP_CHANGER_2), N(PHASE_TAP_CHANGER_2), N(RATIO_TAP_CHANGER_3), N(PHASE_TAP_CHANGER_3)) break;
    case 19: NAMES(ex::iidm::DiscreteMeasurement::ValueType, N(BOOLEAN), N(INT), N(STRING)) break;
    case 20: NAMES(ex::sld::BranchStatus::Status, N(IN_OPERATION), N(PLANNED_OUTAGE), N(FORCED_OUTAGE)) break;
    case 21: NAMES(ex::sld::ConnectablePosition::Direction, N(TOP), N(BOTTOM), N(UNDEFINED)) break;
    default: NAMES(ex::entsoe::EntsoeGeographicalCode, N(AL), N(AT), N(BA), N(BE), N(BG), N(BY), N(CH), N(CZ), N(DE), N(D1), N(D2), N(D4), N(D7), N(D8), N(DK), N(ES), N(FR), N(GB), N(GR), N(HR), N(HU), N(IT), N(KS), N(LU), N(LT), N(MA), N(MD), N(ME), N(MK), N(NL), N(NO), N(PL), N(PT), N(RO), N(RS), N(RU), N(SE), N(SK), N(SI), N(TR), N(UA), N(UC), N(UX)) break;
  }
}
#define C(x, name) {Country::x, #x, name},
static const struct { Country c; const char* code; const char* name; } COUNTRIES[] = { C(AF, "AFGHANISTAN") C(AX, "ÅLAND ISLANDS") C(AL, "ALBANIA") C(DZ, "ALGERIA") C(AS, "AMERICAN SAMOA") C(AD, "ANDORRA") C(AO, "ANGOLA") C(AI, "ANGUILLA") C(AQ, "ANTARCTICA") C(AG, "ANTIGUA AND BARBUDA") C(AR, "ARGENTINA") C(AM, "ARMENIA") C(AW, "ARUBA") C(AU, "AUSTRALIA") C(AT, "AUSTRIA") C(AZ, "AZERBAIJAN") C(BS, "BAHAMAS") C(BH, "BAHRAIN") C(BD, "BANGLADESH") C(BB, "BARBADOS") C(BY, "BELARUS") C(BE, "BELGIUM") C(BZ, "BELIZE") C(BJ, "BENIN") C(BM, "BERMUDA") C(BT, "BHUTAN") C(BO, "BOLIVIA, PLURINATIONAL STATE OF") C(BQ, "BONAIRE, SINT EUSTATIUS AND SABA") C(BA, "BOSNIA AND HERZEGOVINA") C(BW, "BOTSWANA") C(BV, "BOUVET ISLAND") C(BR, "BRAZIL") C(IO, "BRITISH INDIAN OCEAN TERRITORY") C(BN, "BRUNEI DARUSSALAM") C(BG, "BULGARIA") C(BF, "BURKINA FASO") C(BI, "BURUNDI") C(KH, "CAMBODIA") C(CM, "CAMEROON") C(CA, "CANADA") C(CV, "CAPE VERDE") C(KY, "CAYMAN ISLANDS") C(CF, "CENTRAL AFRICAN REPUBLIC") C(TD, "CHAD") C(CL, "CHILE") C(CN, "CHINA") C(CX, "CHRISTMAS ISLAND") C(CC, "COCOS (KEELING) ISLANDS") C(CO, "COLOMBIA") C(KM, "COMOROS") C(CG, "CONGO") C(CD, "CONGO, THE DEMOCRATIC REPUBLIC OF THE") C(CK, "COOK ISLANDS") C(CR, "COSTA RICA") C(CI, "CÔTE D'IVOIRE") C(HR, "CROATIA") C(CU, "CUBA") C(CW, "CURAÇAO") C(CY, "CYPRUS") C(CZ, "CZECH REPUBLIC") C(DK, "DENMARK") C(DJ, "DJIBOUTI") C(DM, "DOMINICA") C(DO, "DOMINICAN REPUBLIC") C(EC, "ECUADOR") C(EG, "EGYPT") C(SV, "EL SALVADOR") C(GQ, "EQUATORIAL GUINEA") C(ER, "ERITREA") C(EE, "ESTONIA") C(ET, "ETHIOPIA") C(FK, "FALKLAND ISLANDS (MALVINAS)") C(FO, "FAROE ISLANDS") C(FJ, "FIJI") C(FI, "FINLAND") C(FR, "FRANCE") C(GF, "FRENCH GUIANA") C(PF, "FRENCH POLYNESIA") C(TF, "FRENCH SOUTHERN TERRITORIES") C(GA, "GABON") C(GM, "GAMBIA") C(GE, "GEORGIA") C(DE, "GERMANY") C(GH, "GHANA") C(GI, "GIBRALTAR") C(GR, "GREECE") C(GL, "GREENLAND") C(GD, "GRENADA") C(GP, "GUADELOUPE") C(GU, "GUAM") C(GT, "GUATEMALA") C(GG, "GUERNSEY") C(GN, "GUINEA") C(GW, "GUINEA-BISSAU") C(GY, "GUYANA") C(HT, "HAITI") C(HM, "HEARD ISLAND AND MCDONALD ISLANDS") C(VA, "HOLY SEE (VATICAN CITY STATE)") C(HN, "HONDURAS") C(HK, "HONG KONG") C(HU, "HUNGARY") C(IS, "ICELAND") C(IN, "INDIA") C(ID, "INDONESIA") C(IR, "IRAN, ISLAMIC REPUBLIC OF") C(IQ, "IRAQ") C(IE, "IRELAND") C(IM, "ISLE OF MAN") C(IL, "ISRAEL") C(IT, "ITALY") C(JM, "JAMAICA") C(JP, "JAPAN") C(JE, "JERSEY") C(JO, "JORDAN") C(KZ, "KAZAKHSTAN") C(KE, "KENYA") C(KI, "KIRIBATI") C(KP, "KOREA, DEMOCRATIC PEOPLE'S REPUBLIC OF") C(KR, "KOREA, REPUBLIC OF") C(XK, "KOSOVO") C(KW, "KUWAIT") C(KG, "KYRGYZSTAN") C(LA, "LAO PEOPLE'S DEMOCRATIC REPUBLIC") C(LV, "LATVIA") C(LB, "LEBANON") C(LS, "LESOTHO") C(LR, "LIBERIA") C(LY, "LIBYA") C(LI, "LIECHTENSTEIN") C(LT, "LITHUANIA") C(LU, "LUXEMBOURG") C(MO, "MACAO") C(MK, "MACEDONIA, THE FORMER YUGOSLAV REPUBLIC OF") C(MG, "MADAGASCAR") C(MW, "MALAWI") C(MY, "MALAYSIA") C(MV, "MALDIVES") C(ML, "MALI") C(MT, "MALTA") C(MH, "MARSHALL ISLANDS") C(MQ, "MARTINIQUE") C(MR, "MAURITANIA") C(MU, "MAURITIUS") C(YT, "MAYOTTE") C(MX, "MEXICO") C(FM, "MICRONESIA, FEDERATED STATES OF") C(MD, "MOLDOVA, REPUBLIC OF") C(MC, "MONACO") C(MN, "MONGOLIA") C(ME, "MONTENEGRO") C(MS, "MONTSERRAT") C(MA, "MOROCCO") C(MZ, "MOZAMBIQUE") C(MM, "MYANMAR") C(NA, "NAMIBIA") C(NR, "NAURU") C(NP, "NEPAL") C(NL, "NETHERLANDS") C(NC, "NEW CALEDONIA") C(NZ, "NEW ZEALAND") C(NI, "NICARAGUA") C(NE, "NIGER") C(NG, "NIGERIA") C(NU, "NIUE") C(NF, "NORFOLK ISLAND") C(MP, "NORTHERN MARIANA ISLANDS") C(NO, "NORWAY") C(OM, "OMAN") C(PK, "PAKISTAN") C(PW, "PALAU") C(PS, "PALESTINE, STATE OF") C(PA, "PANAMA") C(PG, "PAPUA NEW GUINEA") C(PY, "PARAGUAY") C(PE, "PERU") C(PH, "PHILIPPINES") C(PN, "PITCAIRN") C(PL, "POLAND") C(PT, "PORTUGAL") C(PR, "PUERTO RICO") C(QA, "QATAR") C(RE, "RÉUNION") C(RO, "ROMANIA") C(RU, "RUSSIAN FEDERATION") C(RW, "RWANDA") C(BL, "SAINT BARTHÉLEMY") C(SH, "SAINT HELENA, ASCENSION AND TRISTAN DA CUNHA") C(KN, "SAINT KITTS AND NEVIS") C(LC, "SAINT LUCIA") C(MF, "SAINT MARTIN (FRENCH PART)") C(PM, "SAINT PIERRE AND MIQUELON") C(VC, "SAINT VINCENT AND THE GRENADINES") C(WS, "SAMOA") C(SM, "SAN MARINO") C(ST, "SAO TOME AND PRINCIPE") C(SA, "SAUDI ARABIA") C(SN, "SENEGAL") C(RS, "SERBIA") C(SC, "SEYCHELLES") C(SL, "SIERRA LEONE") C(SG, "SINGAPORE") C(SX, "SINT MAARTEN (DUTCH PART)") C(SK, "SLOVAKIA") C(SI, "SLOVENIA") C(SB, "SOLOMON ISLANDS") C(SO, "SOMALIA") C(ZA, "SOUTH AFRICA") C(GS, "SOUTH GEORGIA AND THE SOUTH SANDWICH ISLANDS") C(SS, "SOUTH SUDAN") C(ES, "SPAIN") C(LK, "SRI LANKA") C(SD, "SUDAN") C(SR, "SURINAME") C(SJ, "SVALBARD AND JAN MAYEN") C(SZ, "SWAZILAND") C(SE, "SWEDEN") C(CH, "SWITZERLAND") C(SY, "SYRIAN ARAB REPUBLIC") C(TW, "TAIWAN, PROVINCE OF CHINA") C(TJ, "TAJIKISTAN") C(TZ, "TANZANIA, UNITED REPUBLIC OF") C(TH, "THAILAND") C(TL, "TIMOR-LESTE") C(TG, "TOGO") C(TK, "TOKELAU") C(TO, "TONGA") C(TT, "TRINIDAD AND TOBAGO") C(TN, "TUNISIA") C(TR, "TURKEY") C(TM, "TURKMENISTAN") C(TC, "TURKS AND CAICOS ISLANDS") C(TV, "TUVALU") C(UG, "UGANDA") C(UA, "UKRAINE") C(AE, "UNITED ARAB EMIRATES") C(GB, "UNITED KINGDOM") C(US, "UNITED STATES") C(UM, "UNITED STATES MINOR OUTLYING ISLANDS") C(UY, "URUGUAY") C(UZ, "UZBEKISTAN") C(VU, "VANUATU") C(VE, "VENEZUELA, BOLIVARIAN REPUBLIC OF") C(VN, "VIET NAM") C(VG, "VIRGIN ISLANDS, BRITISH") C(VI, "VIRGIN ISLANDS, U.S.") C(WF, "WALLIS AND FUTUNA") C(EH, "WESTERN SAHARA") C(YE, "YEMEN") C(ZM, "ZAMBIA") C(ZW, "ZIMBABWE")  };
static const size_t NC = sizeof(COUNTRIES) / sizeof(*COUNTRIES);
SX_HARNESS(countries) {
  std::vector<std::pair<Country, const char*>> w; for (auto& x : COUNTRIES) w.push_back(std::make_pair(x.c, x.code));
  if (sx_bool("names")) { names<Country>(w); return; }
  if (sx_bool("exists")) { size_t i = sx_choose("country", NC); sx_assert_msg(getCountryName(COUNTRIES[i].c) == COUNTRIES[i].name, "a country has its name"); sx_reach("country"); }
  else { long long v = sx_int("value", NC, 4294967295LL); sx_assert(throwsE<AssertionError>([&] { getCountryName(static_cast<Country>(v)); })); }
}
SX_HARNESS(levels) {
  static const logging::Level L[] = {logging::Level::TRACE, logging::Level::DEBUG, logging::Level::INFO, logging::Level::WARN, logging::Level::ERROR}; static const char* const LN[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"}; int l = sx_choose("level", 5); sx_assert(logging::getLevelName(L[l]) == LN[l]);
  TopologyKind k = sx_bool("kind") ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER; TopologyLevel t = static_cast<TopologyLevel>(sx_choose("topology", 3)), m = getMinTopologyLevel(k, t);
  sx_assert_msg(m == (k == TopologyKind::NODE_BREAKER ? t : t == TopologyLevel::BUS_BRANCH ? t : TopologyLevel::BUS_BREAKER), "a topology is not more detailed than its voltage level"); sx_assert(getTopologyKind(t) == (t == TopologyLevel::NODE_BREAKER ? TopologyKind::NODE_BREAKER : TopologyKind::BUS_BREAKER)); sx_reach("end");
}
SX_HARNESS(versions) {
  static const char* const V[] = {"1.0", "1.1", "1.2", "1.3", "1.4", "1.5"}; auto& all = IidmXmlVersion::all(); sx_assert(all.size() == 6); const IidmXmlVersion* c[] = {&IidmXmlVersion::V1_0(), &IidmXmlVersion::V1_1(), &IidmXmlVersion::V1_2(), &IidmXmlVersion::V1_3(), &IidmXmlVersion::V1_4(), &IidmXmlVersion::V1_5()}; int i = sx_choose("version", 6), j = sx_choose("other", 6); const IidmXmlVersion& a = *c[i]; const IidmXmlVersion& b = *c[j];
  sx_assert_msg((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "versions are ordered"); sx_assert(a.toString(".") == V[i] && &IidmXmlVersion::CURRENT_IIDM_XML_VERSION() == c[5]);
  std::string uri = i ? "http://www.powsybl.org/schema/iidm/1_" + std::to_string(i) : std::string("http://www.itesla_project.eu/schema/iidm/1_0"); sx_assert(a.getNamespaceUri() == uri && &IidmXmlVersion::fromNamespaceURI(uri) == &a && a.getXsd() == "iidm_V1_" + std::to_string(i) + ".xsd");
  if (j) return; bool ns = sx_bool("namespace"); std::string base = ns ? uri : V[i], t = edited(base); int want = -1; for (int k = 0; k < 6; ++k) if (t == (ns ? c[k]->getNamespaceUri() : V[k])) want = k; const IidmXmlVersion* r = nullptr; try { r = &(ns ? IidmXmlVersion::fromNamespaceURI(t) : IidmXmlVersion::of(t, ".")); } catch (const PowsyblException&) {} sx_assert_msg(r == (want < 0 ? nullptr : c[want]), "a version is recognized by exactly its text"); sx_reach(r ? "version" : "no version");
}
// options: from properties as from setters
SX_HARNESS(options) {
  stdcxx::Properties p; static const char* const B[] = {"true", "false", "TRUE", "True", "", "1", "truee", "tru"}; static const char* const K[] = {ExportOptions::ANONYMISED, ExportOptions::INDENT, ExportOptions::ONLY_MAIN_CC, ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, ExportOptions::WITH_BRANCH_STATE_VARIABLES}; bool v[] = {false, true, false, false, true};
  ExportOptions d; ImportOptions di; sx_assert(!d.isAnonymized() && d.isIndent() && !d.isOnlyMainCc() && !d.isThrowExceptionIfExtensionNotFound() && d.isWithBranchSV() && d.getTopologyLevel() == TopologyLevel::NODE_BREAKER && d.getIidmVersionIncompatibilityBehavior() == ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION && !di.isThrowExceptionIfExtensionNotFound() && d.withExtension("a") && di.withExtension("a"));
  int only = sx_choose("option", 10); bool iv = false; std::set<std::string> exts; std::string ver = "1.5"; TopologyLevel tl = TopologyLevel::NODE_BREAKER; auto bh = ExportOptions::IidmVersionIncompatibilityBehavior::THROW_EXCEPTION; bool bad = false;
  if (only < 5) { std::string t; if (sx_bool("any text")) { t = edited("true"); } else t = B[sx_choose("boolean", 8)]; std::string low = t; for (char& c : low) if (c >= 'A' && c <= 'Z') c += 32; v[only] = low == "true"; p.set(K[only], t); }
  else if (only == 5) { std::string t = Enum::toString(static_cast<TopologyLevel>(sx_choose("topology", 3))); if (sx_bool("edited")) t = edited(t); bad = t != "NODE_BREAKER" && t != "BUS_BREAKER" && t != "BUS_BRANCH"; if (!bad) tl = t == "NODE_BREAKER" ? TopologyLevel::NODE_BREAKER : t == "BUS_BREAKER" ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH; p.set(ExportOptions::TOPOLOGY_LEVEL, t); }
  else if (only == 6) { bool log = sx_bool("log"); std::string t = edited(log ? "LOG_ERROR" : "THROW_EXCEPTION"); bad = t != "LOG_ERROR" && t != "THROW_EXCEPTION"; if (t == "LOG_ERROR") bh = ExportOptions::IidmVersionIncompatibilityBehavior::LOG_ERROR; p.set(ExportOptions::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, t); }
  else if (only == 7) { ver = "1." + std::to_string(sx_choose("version", 6)); p.set(ExportOptions::VERSION, ver); }
  else if (only == 8) { char a = static_cast<char>(sx_int("separator", 0, 255)); std::string t = std::string("ab") + a + "c"; if (a == ',' || a == ':') { exts.insert("ab"); exts.insert("c"); sx_reach("list"); } else exts.insert(t); p.set(ExportOptions::EXTENSIONS_LIST, t); p.set(ImportOptions::EXTENSIONS_LIST, t); }
  else { bool old = sx_bool("old name"), both = sx_bool("both"); iv = sx_bool("strict"); v[3] = iv; if (old || both) p.set("throwExceptionIfExtensionNotFound", both ? (iv ? "false" : "true") : iv ? "true" : "false"); if (!old || both) { p.set(ExportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, iv ? "true" : "false"); p.set(ImportOptions::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, iv ? "true" : "false"); } }
  std::unique_ptr<ExportOptions> o; try { o.reset(new ExportOptions(p)); } catch (const AssertionError&) {} sx_assert_msg(static_cast<bool>(o) == !bad, "options are made of known values only"); if (bad) { sx_reach("refused"); return; } ImportOptions im(p);
  sx_assert_msg(o->isAnonymized() == v[0] && o->isIndent() == v[1] && o->isOnlyMainCc() == v[2] && o->isThrowExceptionIfExtensionNotFound() == v[3] && o->isWithBranchSV() == v[4], "an option has the value of its property"); sx_assert(im.isThrowExceptionIfExtensionNotFound() == iv && o->getTopologyLevel() == tl && o->getIidmVersionIncompatibilityBehavior() == bh && o->getVersion() == ver);
  for (const char* e : {"ab", "c", "ab,c", "", "z"}) { bool want = exts.empty() || exts.count(e); sx_assert_msg(o->withExtension(e) == want && im.withExtension(e) == want, "the extensions of the list"); }
  // one setter changes one option
  int s = sx_choose("setter", 7); bool b = sx_bool("value"); ExportOptions q(*o); if (s == 0) q.setAnonymized(v[0] = b); else if (s == 1) q.setIndent(v[1] = b); else if (s == 2) q.setOnlyMainCc(v[2] = b); else if (s == 3) q.setThrowExceptionIfExtensionNotFound(v[3] = b); else if (s == 4) q.setWithBranchSV(v[4] = b); else if (s == 5) q.setTopologyLevel(tl = b ? TopologyLevel::BUS_BREAKER : TopologyLevel::BUS_BRANCH); else q.setVersion(ver = b ? "1.1" : "1.2");
  sx_assert_msg(q.isAnonymized() == v[0] && q.isIndent() == v[1] && q.isOnlyMainCc() == v[2] && q.isThrowExceptionIfExtensionNotFound() == v[3] && q.isWithBranchSV() == v[4] && q.getTopologyLevel() == tl && q.getVersion() == ver && q.getIidmVersionIncompatibilityBehavior() == bh, "a setter changes its option only"); sx_reach("setter");
  std::map<std::string, std::string> vs; ExportOptions r; if (!exts.empty()) r.setExtensions(exts); for (int i = 0; i < 2; ++i) { std::string e = sx_bool("extension") ? "ab" : "z", w = sx_bool("extension version") ? "1.0" : "1.1"; bool ok = true; try { r.addExtensionVersion(e, w); } catch (const PowsyblException&) { ok = false; } bool want = (exts.empty() || exts.count(e)) && !vs.count(e); sx_assert(ok == want); if (ok) vs[e] = w; } for (const char* e : {"ab", "z"}) sx_assert_msg(r.getExtensionVersion(e) == (vs.count(e) ? vs[e] : std::string()), "the version of an extension");
}
SX_HARNESS(properties) {
  stdcxx::Properties p; std::map<std::string, std::string> w; static const char* const KEYS[] = {"a", "", "b"}; static const char* const VALS[] = {"", "x"};
  for (int i = 0, k = sx_bound(3, 4); i < k; ++i) { std::string key = KEYS[sx_choose("key", 3)]; int op = sx_choose("operation", 4); if (op < 2) { auto r = p.set(key, VALS[op]); sx_assert_msg(static_cast<bool>(r) == (w.count(key) > 0) && (!r || *r == w[key]), "set gives the previous value"); w[key] = VALS[op]; sx_reach("set"); } else if (op == 2) { p.remove(key); w.erase(key); } else { if (key == "a") { p.clear(); w.clear(); } else { stdcxx::Properties q(p); bool had = p.contains("z"); q.set("z", "z"); sx_assert(p.contains("z") == had); p = q; w["z"] = "z"; } }
    sx_assert(p.size() == w.size() && p.isEmpty() == w.empty()); for (const char* x : {"a", "", "b", "z"}) { sx_assert_msg(p.contains(x) == (w.count(x) > 0) && p.get(x, "none") == (w.count(x) ? w[x] : std::string("none")), "the value of a key"); bool ok = true; try { sx_assert(p.get(x) == w[x]); } catch (const stdcxx::PropertyNotFoundException&) { ok = false; } if (!p.contains(x)) w.erase(x); sx_assert(ok == p.contains(x)); } size_t c = 0; auto it = w.begin(); for (const std::string& x : p.getKeys()) { sx_assert(it != w.end() && it->first == x); ++it; ++c; } sx_assert(c == w.size()); c = 0; for (const auto& x : p) { sx_assert(w[x.first] == x.second); ++c; } sx_assert(c == w.size()); }
}
SX_HARNESS(unique) {
  static const char* const BASE[] = {"", "id", "autoId", "id#0"}; std::string base = BASE[sx_choose("base", 4)]; int k = sx_bound(8, 12); std::vector<bool> taken; for (int i = 0; i < k; ++i) taken.push_back(sx_bool("taken")); bool bt = sx_bool("base taken"); std::string stem = base.empty() ? "autoId" : base;
  auto has = [&](const std::string& s) { if (s == base) return bt; for (int i = 0; i < k; ++i) if (s == stem + "#" + std::to_string(i)) return static_cast<bool>(taken[i]); return false; };
  std::string r = Identifiables::getUniqueId(base, has); sx_assert_msg(!r.empty() && !has(r), "a unique identifier is not taken"); if (!base.empty() && !bt) { sx_assert_msg(r == base, "an identifier that is free is kept"); sx_reach("kept"); } else { int i = 0; while (i < k && taken[i]) ++i; sx_assert_msg(r == stem + "#" + std::to_string(i), "the first identifier that is free"); sx_reach("numbered"); }
}
// many identifiers are taken
SX_HARNESS(many) {
  static const char* const BASE[] = {"", "id"}; std::string base = BASE[sx_choose("base", 2)], stem = base.empty() ? "autoId" : base; int k = static_cast<int>(sx_choose("taken", sx_bound(150, 1100))); std::set<std::string> t{stem}; for (int i = 0; i < k; ++i) t.insert(stem + "#" + std::to_string(i)); std::string r = Identifiables::getUniqueId(base, [&](const std::string& s) { return t.count(s) > 0; }); sx_assert_msg(r == stem + "#" + std::to_string(k), "the first identifier that is free"); sx_reach("numbered");
}
// dates
static long long days(long long y, int m, int d) { y -= m <= 2; long long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe; }
static std::string two(int x) { std::string s = "00"; s[0] += x / 10; s[1] += x % 10; return s; }
SX_HARNESS(dates) {
  static const int Y[] = {1977, 2000, 1900, 2020, 2100}; static const int D[] = {1, 28, 29, 30, 31, 0, 32}; static const char* const FR[] = {"", ".123", ".000001", ".999999"}; static const int US[] = {0, 123000, 1, 999999}; static const char* const FRO[] = {"", ".123000", ".000001", ".999999"}; static const char* const TZ[] = {"Z", "+00:00", "+05:00", "-03:30", "+12:45", "-12:00", "+01"}; static const int TM[] = {0, 0, 300, -210, 765, -720, 60}; static const char* const TZO[] = {"+00:00", "+00:00", "+05:00", "-03:30", "+12:45", "-12:00", "+01:00"};
  int y = Y[sx_choose("year", 5)], mo = sx_choose("month", 14), d = D[sx_choose("day", 7)], time = sx_choose("time", 4), h = time == 1 ? 23 : time == 2 ? 12 : 0, mi = time == 1 ? 59 : time == 3 ? 1 : 0, s = time == 1 ? 59 : time == 3 ? 30 : 0, f = mo == 3 ? sx_choose("fraction", 4) : time, z = sx_choose("zone", 7);
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool ok = mo >= 1 && mo <= 12 && d >= 1 && d <= L[mo - 1] + (mo == 2 && leap), got = true;
  std::string head = std::to_string(y) + "-" + two(mo) + "-" + two(d) + "T" + two(h) + ":" + two(mi) + ":" + two(s), t = head + FR[f] + TZ[z]; std::unique_ptr<DateTime> r; try { r.reset(new DateTime(DateTime::parse(t))); } catch (const PowsyblException&) { got = false; } sx_assert_msg(got == ok, "a date is accepted when it exists"); if (!ok) { sx_reach("no such date"); return; }
  sx_assert_msg(r->toString() == head + FRO[f] + TZO[z], "a date is written as it was read"); sx_assert(DateTime::parse(r->toString()) == *r);
  // the same instant, seen from another zone
  long long minutes = days(y, mo, d) * 1440 + h * 60 + mi - TM[z]; for (int q : {0, 2, 3}) { long long l = minutes + TM[q], dd = l / 1440, rest = l % 1440, yy = y, mm = mo, day = 1; for (long long cy = y - 1; cy <= y + 1; ++cy) for (int cm = 1; cm <= 12; ++cm) if (days(cy, cm, 1) <= dd) { yy = cy; mm = cm; } day = dd - days(yy, mm, 1) + 1; DateTime o = DateTime::parse(std::to_string(yy) + "-" + two(mm) + "-" + two(day) + "T" + two(rest / 60) + ":" + two(rest % 60) + ":" + two(s) + FR[f] + TZ[q]); sx_assert_msg(o == *r && !(o != *r), "one instant in two zones"); std::ostringstream os; os << o; sx_assert(os.str() == o.toString()); } sx_assert(DateTime::parse(head + ".5" + TZ[z]) != *r); sx_reach("date");
  if (z || time) return; std::string g = t; int p = sx_choose("garbage", 3); g = p == 0 ? g + " x" : p == 1 ? "x" + g : ""; sx_assert_msg(throwsE<PowsyblException>([&] { DateTime::parse(g); }), "a date is all of its text");
}
// references to buses
SX_HARNESS(busref) {
  Network n = mkNet("full"); buildFull(n); bool sw = sx_bool("switch opened"); if (sw) n.getSwitch("SWB").setOpen(true); if (sx_bool("load disconnected")) { n.getLoad("LOADB").getTerminal().disconnect(); n.getLoad("LOADN").getTerminal().disconnect(); } std::vector<std::string> ids; for (const Identifiable& x : n.getIdentifiables()) ids.push_back(x.getId()); ids.push_back("none"); std::string id = ids[sx_choose("id", ids.size())]; int side = sx_choose("side", 3); int lv = sx_choose("level", 3); TopologyLevel l = static_cast<TopologyLevel>(lv);
  IdBasedBusRef r = side ? IdBasedBusRef(id, side == 1 ? Branch::Side::ONE : Branch::Side::TWO) : IdBasedBusRef(id); bool ok = true; const Bus* got = nullptr; std::string gid; try { auto b = r.resolve(n, l); if (b) { got = &b.get(); gid = got->getId(); } } catch (const PowsyblException&) { ok = false; }
  auto x = n.find(id); bool want = lv != 0; std::string wid; if (want && x) { const Terminal* t = nullptr; if (side) { auto b = n.find<Branch>(id); want = static_cast<bool>(b); if (b) t = side == 1 ? &b.get().getTerminal1() : &b.get().getTerminal2(); } else if (auto b = n.find<Bus>(id)) { if (lv == 1) wid = id; else { auto m = b.get().getVoltageLevel().getBusBreakerView().getBus(id); size_t k = 0; for (const Terminal& y : m.get().getConnectedTerminals()) { (void)y; ++k; } auto v = b.get().getVoltageLevel().getBusView().getMergedBus(id); if (k && v) { wid = v.get().getId(); sx_reach("merged"); } } } else if (auto i = n.find<Injection>(id)) t = &i.get().getTerminal(); else want = false;
    if (t) { auto b = lv == 1 ? t->getBusBreakerView().getBus() : t->getBusView().getBus(); if (b) wid = b.get().getId(); sx_reach("terminal"); } }
  sx_assert_msg(ok == want && (!ok || gid == wid), "a bus is found by reference"); sx_reach(ok ? "resolved" : "refused");
}

// a parameter is read under any of its names, the first one there, or else is its default
#include "iidm/converter/ConversionParameters.hpp"
#include "iidm/converter/Parameter.hpp"
SX_HARNESS(parameters) {
  using converter::ConversionParameters; using converter::Parameter; stdcxx::Properties p; static const char* const K[] = {"name", "other", "third", "unrelated"}; int kind = sx_choose("type", 4);
  static const char* const V[4][5] = {{"true", "TRUE", "false", "yes", ""}, {"true", "", "a b", ",", "x"}, {"a,b", "a:b", "a", "a,,b", "a:b,c"}, {"1.5", "-2", "1e10", "0", "7"}}; static const double DV[] = {1.5, -2, 1e10, 0, 7}; static const std::vector<std::vector<std::string>> LV = {{"a", "b"}, {"a", "b"}, {"a"}, {"a", "", "b"}, {"a", "b", "c"}};
  int at[4]; for (int i = 0; i < 4; ++i) { at[i] = sx_choose("value", 6) - 1; if (i == 3 && at[i] > 0) return; if (at[i] >= 0) p.set(K[i], V[kind][at[i]]); }
  int dflt = sx_choose("default", kind == 2 ? 5 : 3), more = sx_choose("additional names", 4); Parameter q("name", static_cast<Parameter::Type>(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : 3), "what it is", V[kind][dflt]); std::vector<int> order{0};
  if (more == 1) { q.addAdditionalNames({"other"}); order = {0, 1}; } else if (more == 2) { q.addAdditionalNames({"third", "other"}); order = {0, 2, 1}; } else if (more == 3) { q.addAdditionalNames({"other"}).addAdditionalNames({"third"}); order = {0, 1, 2}; }
  std::vector<std::string> nm; for (int i : order) nm.push_back(K[i]); sx_assert_msg(q.getNames() == nm && q.getName() == "name" && q.getDescription() == "what it is" && static_cast<int>(q.getType()) == kind, "a parameter has its names");
  int v = -1; for (int i : order) if (v < 0) v = at[i]; sx_reach(v < 0 ? "default" : "given"); if (v < 0) v = dflt;
  switch (kind) {
    case 0: sx_assert_msg(ConversionParameters::readBooleanParameter(p, q) == (v < 2), "the first value given, or the default"); sx_assert(q.getBooleanDefaultValue() == (dflt < 2)); break;
    case 1: sx_assert_msg(ConversionParameters::readStringParameter(p, q) == V[1][v], "the first value given, or the default"); sx_assert(q.getStringDefaultValue() == V[1][dflt]); break;
    case 2: sx_assert_msg(ConversionParameters::readStringListParameter(p, q) == LV[v], "the first value given, or the default"); sx_assert(q.getStringListDefaultValue() == LV[dflt]); break;
    default: sx_assert_msg(ConversionParameters::readDoubleParameter(p, q) == DV[v], "the first value given, or the default"); sx_assert(q.getDoubleDefaultValue() == DV[dflt]); }
}
