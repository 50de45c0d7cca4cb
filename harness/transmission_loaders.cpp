// C25 description parser, C26 transmission loaders, C27 transmissions loaded into a robot end to end
#define COMMA ,
#include "pbt.h"
#include <transmission_interface/transmission_parser.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/simple_transmission_loader.h>
#include <transmission_interface/differential_transmission_loader.h>
#include <transmission_interface/four_bar_linkage_transmission_loader.h>
#include <algorithm>
#include <array>
#include <memory>
#include <set>
using namespace transmission_interface; using pbt::Src;
namespace {
typedef std::vector<std::string> Names;
// ---- a small model of XML, written out with the freedom XML gives -----------
struct El { std::string tag; std::vector<std::pair<std::string, std::string>> at; std::string text; std::vector<El> kids;
  El(const std::string& t = "", const std::string& x = "") : tag(t), text(x) {}
  El& attr(const std::string& k, const std::string& v) { at.push_back({k, v}); return *this; }
  const std::string* get(const std::string& k) const { for (auto& a : at) if (a.first == k) return &a.second; return nullptr; }
  const El* first(const std::string& k) const { for (auto& e : kids) if (e.tag == k) return &e; return nullptr; } };
std::string esc(const std::string& t, Src& s, char quote)
{ std::string o; for (char c : t) { switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += s.boolean() ? "&gt;" : "&gt;"; break; case '"': o += quote == '"' ? "&quot;" : "\""; break; case '\'': o += quote == '\'' ? "&apos;" : "'"; break; default: if (quote == 0 && isalpha((unsigned char)c) && s.chance(1, 40)) { char b[16]; snprintf(b, 16, s.boolean() ? "&#x%x;" : "&#%d;", c); o += b; } else o += c; } } return o; }
std::string space(Src& s) { static const char* w[] = {"", " ", "\n", "\t  ", "\r\n    "}; return w[s.index(5)]; }
std::string filler(Src& s) { std::string o = space(s); if (s.chance(1, 8)) { static const char* c[] = {"<!-- comment -->", "<!---->", "<!-- <joint name=\"no\"> -->", "<!-- </transmission> -->"}; o += c[s.index(4)]; o += space(s); } return o; }
std::string render(const El& e, Src& s)
{
  std::string o = "<" + e.tag; for (auto& a : e.at) { char q = s.boolean() ? '\'' : '"'; o += (s.chance(1, 6) ? "\n  " : " ") + a.first + (s.chance(1, 8) ? " = " : "=") + q + esc(a.second, s, q) + q; }
  if (e.text.empty() && e.kids.empty() && s.boolean()) return o + (s.boolean() ? "/>" : " />");
  o += ">"; if (e.kids.empty()) { if (!e.text.empty()) o += (s.chance(1, 4) ? space(s) : "") + esc(e.text, s, 0) + (s.chance(1, 4) ? space(s) : ""); } else { for (auto& k : e.kids) o += filler(s) + render(k, s); o += filler(s); }
  return o + "</" + e.tag + ">";
}
std::string document(const El& root, Src& s) { std::string o; if (s.boolean()) o += "<?xml version=\"1.0\"?>"; o += filler(s); o += render(root, s); return o + filler(s); }
bool sameEl(const TiXmlElement* t, const El& e, std::string& why)
{
  if (e.tag != t->Value()) { why = std::string("element <") + t->Value() + "> for <" + e.tag + ">"; return false; }
  size_t n = 0; for (auto* a = t->FirstAttribute(); a; a = a->Next(), ++n) if (n >= e.at.size() || e.at[n].first != a->Name() || e.at[n].second != a->Value()) { why = "attributes of <" + e.tag + ">"; return false; }
  if (n != e.at.size()) { why = "attributes of <" + e.tag + ">"; return false; }
  if (e.kids.empty()) { std::string x = t->GetText() ? t->GetText() : ""; if (x != e.text) { why = "text '" + x + "' for '" + e.text + "' of <" + e.tag + ">"; return false; } }
  n = 0; for (auto* k = t->FirstChildElement(); k; k = k->NextSiblingElement(), ++n) { if (n >= e.kids.size()) { why = "extra elements in <" + e.tag + ">"; return false; } if (!sameEl(k, e.kids[n], why)) return false; }
  if (n != e.kids.size()) { why = "missing elements in <" + e.tag + ">"; return false; } return true;
}
// ---- what the parser is to make of a document --------------------------------
struct RefPart { std::string name, role; Names hw; const El* el; };
struct RefTrans { std::string name, type; std::vector<RefPart> joints, acts; };
bool refParts(const El& t, const char* tag, bool needHw, std::vector<RefPart>& out)
{
  for (auto& e : t.kids) if (e.tag == tag) { auto* n = e.get("name"); if (!n) return false; if (n->empty()) continue; RefPart p; p.name = *n; p.el = &e; if (auto* r = e.first("role")) p.role = r->text; for (auto& h : e.kids) if (h.tag == "hardwareInterface" && !h.text.empty()) p.hw.push_back(h.text); if (needHw && p.hw.empty()) continue; out.push_back(p); }
  return !out.empty();
}
std::vector<RefTrans> refParse(const El& root)
{
  std::vector<RefTrans> v; for (auto& t : root.kids) { if (t.tag != "transmission") continue; RefTrans r; auto* n = t.get("name"); if (!n || n->empty()) continue; r.name = *n; auto* ty = t.first("type"); if (!ty || ty->text.empty()) continue; r.type = ty->text; if (!refParts(t, "joint", true, r.joints) || !refParts(t, "actuator", false, r.acts)) continue; v.push_back(r); }
  return v;
}
std::string word(Src& s) { switch (s.weighted({6, 2, 1, 1})) { case 0: return s.ident(6); case 1: return "pkg/" + s.ident(5); case 2: { static const char* w[] = {"a&b", "<x>", "it's", "say \"hi\"", "two words", "\xc3\xa9t\xc3\xa9", "1.5", "]]>", "a;b", "&amp;"}; return w[s.index(10)]; } default: return s.ident(3) + "::" + s.ident(3); } }
El genPart(Src& s, const char* tag, bool faults)
{
  El e(tag); int f = faults && s.chance(1, 4) ? 1 + (int)s.index(3) : 0; if (f != 1) e.attr("name", f == 2 ? "" : word(s)); while (s.more(6)) { if (e.at.size() > 3) break; e.attr("x" + std::to_string(e.at.size()), word(s)); } if (s.boolean() && e.at.size() > 1) std::swap(e.at.front(), e.at.back());
  std::vector<El> k; size_t nh = f == 3 ? 0 : std::string(tag) == "joint" ? 1 + s.index(3) : s.index(3); for (size_t i = 0; i < nh; ++i) k.push_back(El("hardwareInterface", faults && s.chance(1, 4) ? "" : "hardware_interface/" + word(s)));
  if (s.boolean()) k.push_back(El("role", s.chance(1, 6) ? "" : word(s))); if (s.chance(1, 10)) k.push_back(El("role", word(s))); if (s.boolean()) k.push_back(El("mechanicalReduction", word(s))); if (s.boolean()) k.push_back(El("offset", word(s)));
  if (s.chance(1, 5)) { El x("extra"); x.attr("k", word(s)); x.kids.push_back(El("hardwareInterface", "hidden")); x.kids.push_back(El("role", "hidden")); k.push_back(x); } s.shuffle(k); e.kids = k; return e;
}
El genTransmission(Src& s, bool faults)
{
  El t("transmission"); int f = faults && s.chance(1, 3) ? 1 + (int)s.index(7) : 0; if (f != 1) t.attr("name", f == 2 ? "" : word(s)); if (s.chance(1, 6)) t.attr("type", word(s)); std::vector<El> k;
  if (f != 3) k.push_back(El("type", f == 4 ? "" : word(s))); if (s.chance(1, 12)) k.push_back(El("type", word(s)));
  size_t nj = f == 5 ? 0 : 1 + s.index(3), na = f == 6 ? 0 : 1 + s.index(3); for (size_t i = 0; i < nj; ++i) k.push_back(genPart(s, "joint", faults)); for (size_t i = 0; i < na; ++i) k.push_back(genPart(s, "actuator", faults));
  if (s.chance(1, 5)) { El x("nested"); x.kids.push_back(genPart(s, "joint", false)); k.push_back(x); } if (s.chance(1, 8)) k.push_back(El("Joint", "x")); s.shuffle(k); t.kids = k; return t;
}
El genRobot(Src& s, bool faults)
{
  El r(s.chance(1, 8) ? "model" : "robot"); if (s.boolean()) r.attr("name", word(s)); if (s.boolean()) r.attr("xmlns", "http://www.ros.org"); size_t n = s.index(5);
  for (size_t i = 0; i < n; ++i) { r.kids.push_back(genTransmission(s, faults)); if (s.chance(1, 4)) { El l("link"); l.attr("name", word(s)); r.kids.push_back(l); } if (s.chance(1, 5)) { El g("gazebo"); g.kids.push_back(genTransmission(s, false)); r.kids.push_back(g); } if (s.chance(1, 6)) r.kids.push_back(genPart(s, "joint", false)); if (s.chance(1, 10)) r.kids.push_back(El("Transmission", "x")); }
  return r;
}
// strict: no text of the document can be empty without looking empty (a character reference to NUL is no XML, but TinyXML takes it)
void wellFormed(const std::vector<TransmissionInfo>& v, bool strict)
{
  for (auto& t : v) { CHECK((!strict || (!t.name_.empty() && !t.type_.empty())) && !t.joints_.empty() && !t.actuators_.empty(), "a transmission without name, type, joints or actuators was returned");
    for (auto& j : t.joints_) { CHECK((!strict || !j.name_.empty()) && !j.hardware_interfaces_.empty(), "transmission '" << t.name_ << "' has a joint without name or hardware interface"); for (auto& h : j.hardware_interfaces_) CHECK(!strict || !h.empty(), "empty hardware interface"); CHECK(j.xml_element_.compare(0, 6, "<joint") == 0, "joint element is " << j.xml_element_); }
    for (auto& a : t.actuators_) { CHECK(!strict || !a.name_.empty(), "actuator without name"); CHECK(a.xml_element_.compare(0, 9, "<actuator") == 0, "actuator element is " << a.xml_element_); } }
}
bool sameInfos(const std::vector<TransmissionInfo>& a, const std::vector<TransmissionInfo>& b)
{
  if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].name_ != b[i].name_ || a[i].type_ != b[i].type_ || a[i].joints_.size() != b[i].joints_.size() || a[i].actuators_.size() != b[i].actuators_.size()) return false;
    for (size_t k = 0; k < a[i].joints_.size(); ++k) if (a[i].joints_[k].name_ != b[i].joints_[k].name_ || a[i].joints_[k].role_ != b[i].joints_[k].role_ || a[i].joints_[k].hardware_interfaces_ != b[i].joints_[k].hardware_interfaces_ || a[i].joints_[k].xml_element_ != b[i].joints_[k].xml_element_) return false;
    for (size_t k = 0; k < a[i].actuators_.size(); ++k) if (a[i].actuators_[k].name_ != b[i].actuators_[k].name_ || a[i].actuators_[k].hardware_interfaces_ != b[i].actuators_[k].hardware_interfaces_ || a[i].actuators_[k].xml_element_ != b[i].actuators_[k].xml_element_) return false; }
  return true;
}
// TinyXML itself reads behind a text that ends within a multi-byte character
std::string withinText(std::string t) { for (size_t i = t.size() < 6 ? 0 : t.size() - 6; i < t.size(); ++i) if ((unsigned char)t[i] >= 0xC0) t[i] = (char)0x80; for (auto& c : t) if ((unsigned char)c == 0xEF) c = (char)0xEE; return t; }
// any input: no crash, a failing answer exactly when there is no document, and only well-formed results
std::vector<TransmissionInfo> parseAny(const std::string& text, bool& ok)
{
  TiXmlDocument d; d.Parse(text.c_str()); bool doc = !d.Error() && d.RootElement();
  std::vector<TransmissionInfo> v, w; ok = TransmissionParser::parse(text, v); CHECK(ok == doc, "parse answered " << ok << " for " << (doc ? "a" : "no") << " document"); CHECK(ok || v.empty(), "transmissions returned from a text that is no document"); wellFormed(v, text.find("&#") == std::string::npos);
  bool ok2 = TransmissionParser::parse(text, w); CHECK(ok2 == ok && sameInfos(v, w), "parsing the same text twice gives different transmissions"); return v;
}
}

namespace { void compare(Src& s, const El& r, const std::vector<TransmissionInfo>& got)
{
  auto exp = refParse(r);
  Names g, e; for (auto& t : got) g.push_back(t.name_); for (auto& t : exp) e.push_back(t.name); CHECK(g == e, "transmissions " << pbt::show(g) << ", expected " << pbt::show(e)); wellFormed(got, true);
  for (size_t i = 0; i < got.size(); ++i) {
    auto& a = got[i]; auto& b = exp[i]; CHECK(a.type_ == b.type, "type of '" << a.name_ << "' is '" << a.type_ << "', expected '" << b.type << "'"); CHECK(a.joints_.size() == b.joints.size(), "'" << a.name_ << "' has " << a.joints_.size() << " joints, expected " << b.joints.size()); CHECK(a.actuators_.size() == b.acts.size(), "'" << a.name_ << "' has " << a.actuators_.size() << " actuators, expected " << b.acts.size());
    auto element = [&](const std::string& xml, const El& el) { TiXmlDocument d; d.Parse(xml.c_str()); CHECK(!d.Error() && d.RootElement(), "embedded element is no XML: " << xml); std::string why; CHECK(sameEl(d.RootElement(), el, why), "embedded element differs (" << why << "): " << xml); };
    for (size_t k = 0; k < b.joints.size(); ++k) { auto& x = a.joints_[k]; auto& y = b.joints[k]; CHECK(x.name_ == y.name && x.role_ == y.role && x.hardware_interfaces_ == y.hw, "joint '" << x.name_ << "' role '" << x.role_ << "' interfaces " << pbt::show(x.hardware_interfaces_) << ", expected '" << y.name << "' '" << y.role << "' " << pbt::show(y.hw)); element(x.xml_element_, *y.el); }
    for (size_t k = 0; k < b.acts.size(); ++k) { auto& x = a.actuators_[k]; auto& y = b.acts[k]; CHECK(x.name_ == y.name && x.hardware_interfaces_ == y.hw, "actuator '" << x.name_ << "' interfaces " << pbt::show(x.hardware_interfaces_) << ", expected '" << y.name << "' " << pbt::show(y.hw)); element(x.xml_element_, *y.el); }
  }
  size_t all = 0; for (auto& k : r.kids) all += k.tag == "transmission"; if (exp.size() < all) s.label("some refused"); if (exp.size() >= 2) s.label("two or more"); if (exp.size() >= 2 || (!exp.empty() && exp.size() < all)) s.nontrivial();
} }
PROPERTY(C25, generated, "two or more transmissions, or one refused beside an accepted one", 30000, 400000)
{
  bool faults = s.boolean(); El r = genRobot(s, faults); std::string text = document(r, s); NOTE(text);
  std::vector<TransmissionInfo> got; bool ok = TransmissionParser::parse(text, got); CHECK(ok, "a valid document was refused"); compare(s, r, got);
}
namespace {
void allOf(El& e, std::vector<El*>& v) { v.push_back(&e); for (auto& k : e.kids) allOf(k, v); }
void damage(El& r, Src& s)
{
  std::vector<El*> v; allOf(r, v); El* e = v[s.index(v.size())]; static const char* tags[] = {"transmission", "joint", "actuator", "type", "role", "hardwareInterface", "x", "Joint"};
  switch (s.index(8)) { case 0: e->tag = tags[s.index(8)]; break; case 1: e->text.clear(); break; case 2: if (!e->kids.empty()) e->kids.erase(e->kids.begin() + s.index(e->kids.size())); break; case 3: if (!e->kids.empty()) { El c = e->kids[s.index(e->kids.size())]; e->kids.insert(e->kids.begin() + s.index(e->kids.size() + 1), c); } break;
    case 4: if (!e->at.empty()) e->at.erase(e->at.begin() + s.index(e->at.size())); break; case 5: if (!e->at.empty()) e->at[s.index(e->at.size())].second.clear(); break; case 6: { El c = *v[s.index(v.size())]; e->kids.push_back(c); e->text.clear(); break; } default: s.shuffle(e->kids); }
}
}
PROPERTY(C25, restructured, "a transmission is left of several", 20000, 300000)
{
  El r = genRobot(s, false); size_t n = 1 + s.index(5); for (size_t i = 0; i < n; ++i) damage(r, s); std::string t = document(r, s); if (t.size() > 40000) s.discard(); NOTE(t); bool ok; auto v = parseAny(t, ok); CHECK(ok, "a valid document was refused"); compare(s, r, v);
}
PROPERTY(C25, mutated, "the mutated text still gives a transmission, or is no document any more", 20000, 400000)
{
  std::string t = document(genRobot(s, false), s); size_t n = 1 + s.index(3);
  for (size_t i = 0; i < n && !t.empty(); ++i) {
    size_t a = s.index(t.size()), l = 1 + s.index(s.boolean() ? 4 : 60);
    switch (s.index(6)) { case 0: t.erase(a, l); break; case 1: t.insert(a, t.substr(s.index(t.size()), l)); break; case 2: t[a] = (char)(1 + s.raw(253)); break; case 3: t.resize(a); break;
      case 4: { static const char* w[] = {"<", ">", "</", "/>", "\"", "'", "&", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "<transmission name=\"x\">", "</transmission>", "&#0;", "&#x;", "<joint>", "="}; t.insert(a, w[s.index(19)]); break; } default: { size_t b = s.index(t.size()); std::swap(t[a], t[b]); } }
  }
  t = withinText(t); NOTE(t); bool ok; auto v = parseAny(t, ok); if (!v.empty()) s.label("transmissions found"); if (!ok) s.label("no document"); if (!v.empty() || !ok) s.nontrivial();
}
PROPERTY(C25, bytes, "the text has an element", 30000, 600000)
{
  std::string t; size_t n = 0;
  while (n++ < 400 && s.more(20)) { static const char* w[] = {"<robot>", "</robot>", "<transmission name=\"t\">", "<transmission>", "</transmission>", "<type>T</type>", "<type/>", "<joint name=\"j\">", "<joint>", "</joint>", "<hardwareInterface>h</hardwareInterface>", "<hardwareInterface/>", "<role>r</role>", "<actuator name=\"a\">", "<actuator name=\"a\"/>", "</actuator>", "<!--", "-->", "<?xml version=\"1.0\"?>", "<", ">", "/", "=", "\"", "&", " ", "\n", "<![CDATA[", "]]>"}; if (s.chance(1, 4)) t += (char)(1 + s.raw(253)); else t += w[s.index(29)]; }
  t = withinText(t); NOTE(t); bool ok; auto v = parseAny(t, ok); if (!v.empty()) s.label("transmissions found"); if (!ok) s.label("no document"); else s.nontrivial();
}

// ---- transmissions and their descriptions -------------------------------------
namespace {
enum Kind { SIMPLE, DIFF, FOURBAR };
const char* typeName[] = {"transmission_interface/SimpleTransmission", "transmission_interface/DifferentialTransmission", "transmission_interface/FourBarLinkageTransmission"};
// number texts, with the value they stand for
std::string number(Src& s, double v)
{ char b[64]; switch (s.weighted({5, 3, 1, 1, 1, 1, 1, 1})) { case 0: snprintf(b, 64, "%g", v); break; case 1: snprintf(b, 64, "%.17g", v); break; case 2: snprintf(b, 64, "%e", v); break; case 3: snprintf(b, 64, "%+.9g", v); break; case 5: snprintf(b, 64, "%.10E", v); break;
  case 6: { snprintf(b, 64, "%.4f", v); std::string t = b; if (t.compare(0, 2, "0.") == 0) t.erase(0, 1); else if (t.compare(0, 3, "-0.") == 0) t.erase(1, 1); else { t = t.substr(0, t.find('.') + 1); } snprintf(b, 64, "%s", t.c_str()); break; } // .5 and 5.
  case 7: snprintf(b, 64, "%08.3f", v); break;
  default: snprintf(b, 64, "%.6f", v); } if (atof(b) == 0 && v != 0) snprintf(b, 64, "%.17g", v); return b; }
struct Desc { Kind kind; size_t n; std::vector<double> ar, jr, off; bool ignoreAbs = false; Names joints, acts, hw; std::string name; std::vector<El> jel, ael; // in role order
  std::unique_ptr<Transmission> make() const { if (kind == SIMPLE) return std::unique_ptr<Transmission>(new SimpleTransmission(ar[0], off[0])); if (kind == DIFF) return std::unique_ptr<Transmission>(new DifferentialTransmission(ar, jr, ignoreAbs, off)); return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(ar, jr, off)); } };
double ratio(Src& s) { double v = s.signedReal(1000); return std::fabs(v) < 1e-3 ? 2 : v; }
Desc genDesc(Src& s, const std::string& id)
{
  Desc d; d.kind = (Kind)s.index(3); d.n = d.kind == SIMPLE ? 1 : 2; d.name = "t" + id; d.ignoreAbs = d.kind == DIFF && s.chance(1, 3); bool one = d.kind != SIMPLE && s.chance(1, 6); size_t lone = s.index(2);
  for (size_t i = 0; i < d.n; ++i) {
    d.joints.push_back("j" + id + (char)('a' + i)); d.acts.push_back("a" + id + (char)('a' + i)); El j("joint"), a("actuator"); j.attr("name", d.joints[i]); a.attr("name", d.acts[i]);
    std::string t = number(s, ratio(s)); d.ar.push_back(std::strtod(t.c_str(), nullptr)); a.kids.push_back(El("mechanicalReduction", t)); d.off.push_back(0); if (s.boolean()) { t = number(s, s.signedReal(100)); d.off[i] = std::strtod(t.c_str(), nullptr); j.kids.push_back(El("offset", t)); }
    if (d.kind != SIMPLE) { d.jr.push_back(1); if (s.boolean()) { t = number(s, ratio(s)); d.jr[i] = std::strtod(t.c_str(), nullptr); j.kids.push_back(El("mechanicalReduction", t)); } j.kids.push_back(El("role", "joint" + std::to_string(i + 1))); a.kids.push_back(El("role", "actuator" + std::to_string(i + 1)));
      if (d.ignoreAbs || (one && d.kind == DIFF && i == lone)) { j.kids.push_back(El("ignoreTransmissionAbsoluteEncoder", s.boolean() ? "" : "true")); } }
    else { if (s.chance(1, 6)) j.kids.push_back(El("role", word(s))); if (s.chance(1, 6)) j.kids.push_back(El("mechanicalReduction", number(s, ratio(s)))); }
    if (s.chance(1, 6)) j.kids.push_back(El("limits", "1")); d.jel.push_back(j); d.ael.push_back(a);
  }
  return d;
}
void finish(Src& s, Desc& d) { for (auto& j : d.jel) { for (auto& h : d.hw) j.kids.push_back(El("hardwareInterface", h)); s.shuffle(j.kids); } for (auto& a : d.ael) s.shuffle(a.kids); }
El toEl(Src& s, const Desc& d) { El t("transmission"); t.attr("name", d.name); std::vector<El> k; k.push_back(El("type", typeName[d.kind])); for (auto& j : d.jel) k.push_back(j); for (auto& a : d.ael) k.push_back(a); s.shuffle(k); t.kids = k; return t; }
TransmissionInfo toInfo(Src& s, const Desc& d)
{
  TransmissionInfo i; i.name_ = d.name; i.type_ = typeName[d.kind]; std::vector<El> j = d.jel, a = d.ael; s.shuffle(j); s.shuffle(a);
  for (auto& e : j) { JointInfo x; x.name_ = *e.get("name"); x.xml_element_ = render(e, s); for (auto& k : e.kids) if (k.tag == "hardwareInterface") x.hardware_interfaces_.push_back(k.text); if (auto* r = e.first("role")) x.role_ = r->text; i.joints_.push_back(x); } for (auto& e : a) { ActuatorInfo x; x.name_ = *e.get("name"); x.xml_element_ = render(e, s); i.actuators_.push_back(x); } return i;
}
El* find(El& e, const char* t) { for (auto& k : e.kids) if (k.tag == t) return &k; return nullptr; }
void drop(El& e, const char* t) { for (size_t i = 0; i < e.kids.size();) if (e.kids[i].tag == t) e.kids.erase(e.kids.begin() + i); else ++i; }
const char* notNumbers[] = {"", "abc", "-", "e5", "1e999", "-1e999", ".", "+", "one", "--1", "x1"};
// breaks the description in one way; says what was done
std::string breakIt(Src& s, Desc& d)
{
  size_t i = s.index(d.n); std::string bad = notNumbers[s.index(11)]; auto zero = [&] { static const char* z[] = {"0", "0.0", "-0", "0e5", ".0"}; return z[s.index(5)]; };
  switch (s.index(d.kind == SIMPLE ? 7 : 12)) {
    case 0: drop(d.ael[i], "mechanicalReduction"); return "actuator without reduction";
    case 1: find(d.ael[i], "mechanicalReduction")->text = bad; return "actuator reduction '" + bad + "'";
    case 2: find(d.ael[i], "mechanicalReduction")->text = zero(); return "zero actuator reduction";
    case 3: drop(d.jel[i], "offset"); d.jel[i].kids.push_back(El("offset", bad)); return "offset '" + bad + "'";
    case 4: { El x = s.boolean() ? d.ael[0] : El("actuator"); x.at.clear(); x.attr("name", s.boolean() ? "more" : d.acts[i]); d.ael.push_back(x); return "one actuator too many"; }
    case 5: { El x = d.jel[0]; x.at.clear(); x.attr("name", s.boolean() ? "more" : d.joints[i]); d.jel.push_back(x); return "one joint too many"; }
    case 6: if (s.boolean()) { d.ael.pop_back(); return "one actuator missing"; } d.jel.pop_back(); return "one joint missing";
    case 7: drop(s.boolean() ? d.ael[i] : d.jel[i], "role"); return "role missing";
    case 8: { static const char* r[] = {"", "joint", "joint3", "actuator0", "Joint1", "actuator 1"}; std::string x = r[s.index(6)]; find(s.boolean() ? d.ael[i] : d.jel[i], "role")->text = x; return "role '" + x + "'"; }
    case 9: { bool a = s.boolean(); auto& v = a ? d.ael : d.jel; find(v[i], "role")->text = find(v[1 - i], "role")->text; return "roles equal"; }
    case 10: drop(d.jel[i], "mechanicalReduction"); d.jel[i].kids.push_back(El("mechanicalReduction", bad)); return "joint reduction '" + bad + "'";
    default: drop(d.jel[i], "mechanicalReduction"); d.jel[i].kids.push_back(El("mechanicalReduction", zero())); return "zero joint reduction";
  }
}
std::unique_ptr<TransmissionLoader> loaderFor(Kind k) { if (k == SIMPLE) return std::unique_ptr<TransmissionLoader>(new SimpleTransmissionLoader); if (k == DIFF) return std::unique_ptr<TransmissionLoader>(new DifferentialTransmissionLoader); return std::unique_ptr<TransmissionLoader>(new FourBarLinkageTransmissionLoader); }
struct Vals { double v[2][5]; ActuatorData a() { ActuatorData d; for (int i = 0; i < n; ++i) { d.position.push_back(&v[i][0]); d.velocity.push_back(&v[i][1]); d.effort.push_back(&v[i][2]); d.absolute_position.push_back(&v[i][3]); d.torque_sensor.push_back(&v[i][4]); } return d; }
  JointData j() { ActuatorData x = a(); JointData d; d.position = x.position; d.velocity = x.velocity; d.effort = x.effort; d.absolute_position = x.absolute_position; d.torque_sensor = x.torque_sensor; return d; } int n; Vals(int n_) : n(n_) { for (auto& r : v) for (auto& x : r) x = 0; } };
void sameMaps(Src& s, Transmission& t, Transmission& e, int n)
{
  CHECK(t.numActuators() == e.numActuators() && t.numJoints() == e.numJoints(), "numbers of actuators and joints");
  for (int r = 0; r < 3; ++r) {
    Vals in(n), o1(n), o2(n); for (int i = 0; i < n; ++i) for (auto& x : in.v[i]) x = s.signedReal(100); auto eq = [&](const char* w) { for (int i = 0; i < n; ++i) for (int q = 0; q < 5; ++q) CHECK(pbt::same(o1.v[i][q], o2.v[i][q]), w << ", side element " << i << " quantity " << q << ": " << o1.v[i][q] << ", a transmission with the described parameters gives " << o2.v[i][q]); };
    { auto i = in.a(); auto a = o1.j(), b = o2.j(); t.actuatorToJointPosition(i, a); e.actuatorToJointPosition(i, b); t.actuatorToJointVelocity(i, a); e.actuatorToJointVelocity(i, b); t.actuatorToJointEffort(i, a); e.actuatorToJointEffort(i, b); t.actuatorToJointAbsolutePosition(i, a); e.actuatorToJointAbsolutePosition(i, b); t.actuatorToJointTorqueSensor(i, a); e.actuatorToJointTorqueSensor(i, b); eq("actuator to joint"); }
    { auto i = in.j(); auto a = o1.a(), b = o2.a(); t.jointToActuatorPosition(i, a); e.jointToActuatorPosition(i, b); t.jointToActuatorVelocity(i, a); e.jointToActuatorVelocity(i, b); t.jointToActuatorEffort(i, a); e.jointToActuatorEffort(i, b); eq("joint to actuator"); }
  }
}
}
PROPERTY(C26, loaders, "a transmission of two joints, or a broken description", 30000, 400000)
{
  Desc d = genDesc(s, "x"); if (s.boolean()) d.hw.push_back("hardware_interface/EffortJointInterface"); std::string broken; Desc b = d; if (s.boolean()) { broken = breakIt(s, b); s.label(broken.substr(0, broken.find('\''))); } finish(s, b);
  TransmissionInfo info = toInfo(s, b); if (s.verbose) { s.note(std::string(typeName[d.kind]) + (broken.empty() ? "" : ", " + broken)); for (auto& j : info.joints_) s.note(j.xml_element_); for (auto& a : info.actuators_) s.note(a.xml_element_); }
  TransmissionSharedPtr t = loaderFor(d.kind)->load(info); CHECK((t != nullptr) == broken.empty(), (t ? "a transmission was made from a description with " : "no transmission was made from a valid description ") << broken);
  if (t) { auto e = d.make(); Transmission& tr = *t; Transmission& er = *e; CHECK(typeid(tr) == typeid(er), "a transmission of another type was made"); sameMaps(s, tr, er, (int)d.n); s.label(typeName[d.kind]); }
  if (d.n == 2 || !broken.empty()) s.nontrivial();
}
PROPERTY(C26, garbage, "an element was damaged", 15000, 200000)
{
  Desc d = genDesc(s, "x"); finish(s, d); TransmissionInfo info = toInfo(s, d); bool any = false;
  auto spoil = [&](std::string& t) { if (!s.boolean()) return; any = true; if (s.chance(1, 5)) { t = s.bytes(20); for (auto& c : t) if (!c || c == '\xef') c = '<'; return; } if (t.empty()) return; size_t a = s.index(t.size()); switch (s.index(4)) { case 0: t.resize(a); break; case 1: t.erase(a, 1 + s.index(8)); break; case 2: t[a] = (char)(1 + s.raw(237)); break; default: t.insert(a, t.substr(s.index(t.size()), 10)); } };
  for (auto& j : info.joints_) spoil(j.xml_element_); for (auto& a : info.actuators_) spoil(a.xml_element_);
  // an embedded element is one that TinyXML wrote out, so texts that are no element at all are left out
  auto repair = [](std::string& t) { TiXmlDocument d; d.Parse(t.c_str()); if (d.Error() || !d.RootElement()) t = "<joint/>"; else { std::ostringstream o; o << *d.RootElement(); t = o.str(); } }; for (auto& j : info.joints_) repair(j.xml_element_); for (auto& a : info.actuators_) repair(a.xml_element_); if (s.verbose) { for (auto& j : info.joints_) s.note(j.xml_element_); for (auto& a : info.actuators_) s.note(a.xml_element_); }
  TransmissionSharedPtr t; for (int k = 0; k < 3; ++k) { t = loaderFor((Kind)k)->load(info); if (k != d.kind) { if ((k == SIMPLE) != (d.kind == SIMPLE)) CHECK(!t, "a " << typeName[k] << " was made from parts of a " << typeName[d.kind]); continue; } if (t) { CHECK(t->numJoints() == d.n && t->numActuators() == d.n, "sizes"); s.label("still loads"); } else s.label("refused"); if (!any) CHECK(t, "valid description refused"); }
  if (any) s.nontrivial();
}

// ---- C27 ------------------------------------------------------------------------
namespace {
using namespace hardware_interface;
const double NaN = std::numeric_limits<double>::quiet_NaN();
enum If { ST, P, V, E, BP, BV, BE, NIF };
const char* ifName[] = {"hardware_interface/JointStateInterface", "hardware_interface/PositionJointInterface", "hardware_interface/VelocityJointInterface", "hardware_interface/EffortJointInterface", "hardware_interface/BiDirectionalPositionJointInterface", "hardware_interface/BiDirectionalVelocityJointInterface", "hardware_interface/BiDirectionalEffortJointInterface"};
int cmdOf(int f) { return f == ST ? -1 : (f - 1) % 3; }      // 0 position, 1 velocity, 2 effort
struct Act { std::string name; bool state = true, abs = false, tor = false, cmd[3] = {true, true, true}; double st[5] = {0, 0, 0, 0, 0}, c[3] = {0, 0, 0}; };
struct Loaded { Desc d; std::unique_ptr<Transmission> ref; bool cmd[3] = {false, false, false}, inv[3] = {false, false, false}, bi = false; };
void declarePlugins()
{
  static bool done = false; if (done) return; done = true; std::string f = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/transmission_interface/ros_control_plugins.xml"; TiXmlDocument doc(f); CHECK(doc.LoadFile(), "cannot read " << f);
  for (auto* c = doc.RootElement()->FirstChildElement("class"); c; c = c->NextSiblingElement("class")) { const char *n = c->Attribute("name"), *t = c->Attribute("type"), *b = c->Attribute("base_class_type"); CHECK(n && t && b, "plugin description without name, type or base class"); CHECK(pluginlib::shim::declareExported(b, n, t), "plugin " << n << " names class " << t << ", which is not exported"); }
}
struct World {
  Src& s; std::vector<std::unique_ptr<Act>> acts; RobotHW hw; RobotTransmissions rt; ActuatorStateInterface asi; PositionActuatorInterface pai; VelocityActuatorInterface vai; EffortActuatorInterface eai; bool hasSt, hasCmd[3];
  JointStateInterface ownSt; PositionJointInterface ownP; VelocityJointInterface ownV; EffortJointInterface ownE; bool own[4]; double ownData[4]; Names ownJoints;
  ActuatorToJointStateInterface ownA2J; JointToActuatorPositionInterface ownJ2A; bool ownRt[2]; std::unique_ptr<TransmissionInterfaceLoader> loader; std::vector<Loaded> loaded;
  World(Src& s_) : s(s_)
  {
    declarePlugins(); pbt::drawSpelling(s); size_t n = 2 + s.index(13); hasSt = !s.chance(1, 20); for (auto& h : hasCmd) h = !s.chance(1, 6); for (size_t i = 0; i < n; ++i) { acts.emplace_back(new Act); Act& a = *acts.back(); a.name = pbt::spelt("act", i); a.abs = s.boolean(); a.tor = s.boolean(); a.state = hasSt && !s.chance(1, 25); for (int k = 0; k < 3; ++k) a.cmd[k] = a.state && hasCmd[k] && !s.chance(1, 15);
      if (!a.state) continue; ActuatorStateHandle h = a.abs && a.tor ? ActuatorStateHandle(a.name, &a.st[0], &a.st[1], &a.st[2], &a.st[3], &a.st[4]) : a.abs ? ActuatorStateHandle(a.name, &a.st[0], &a.st[1], &a.st[2], &a.st[3]) : a.tor ? ActuatorStateHandle(a.name, &a.st[0], &a.st[1], &a.st[2], &a.st[4], true) : ActuatorStateHandle(a.name, &a.st[0], &a.st[1], &a.st[2]);
      asi.registerHandle(h); if (a.cmd[0]) pai.registerHandle(ActuatorHandle(h, &a.c[0])); if (a.cmd[1]) vai.registerHandle(ActuatorHandle(h, &a.c[1])); if (a.cmd[2]) eai.registerHandle(ActuatorHandle(h, &a.c[2])); }
    if (hasSt) hw.registerInterface(&asi); if (hasCmd[0]) hw.registerInterface(&pai); if (hasCmd[1]) hw.registerInterface(&vai); if (hasCmd[2]) hw.registerInterface(&eai);
    for (auto& o : own) o = s.chance(1, 4); ownData[0] = 11; ownData[1] = 12; ownData[2] = 13; ownData[3] = 14; JointStateHandle h("own", &ownData[0], &ownData[1], &ownData[2]); if (own[0]) { ownSt.registerHandle(h); hw.registerInterface(&ownSt); } if (own[1]) { ownP.registerHandle(JointHandle(h, &ownData[3])); hw.registerInterface(&ownP); } if (own[2]) { ownV.registerHandle(JointHandle(h, &ownData[3])); hw.registerInterface(&ownV); } if (own[3]) { ownE.registerHandle(JointHandle(h, &ownData[3])); hw.registerInterface(&ownE); }
    ownRt[0] = s.chance(1, 5); ownRt[1] = s.chance(1, 5); if (ownRt[0]) rt.registerInterface(&ownA2J); if (ownRt[1]) rt.registerInterface(&ownJ2A);
    loader.reset(new TransmissionInterfaceLoader(&hw, &rt));
  }
  Act* act(const std::string& n) { for (auto& a : acts) if (a->name == n) return a.get(); return nullptr; }
  // does the robot have what the interface needs for these actuators?
  bool served(int f, const Names& a) { for (auto& n : a) { Act* x = act(n); if (!x || !x->state) return false; if (f != ST && !x->cmd[cmdOf(f)]) return false; } return f == ST || hasCmd[cmdOf(f)]; }
  template <class I> I* there(bool expect, const char* what) { I* i = rt.get<I>(); CHECK((i != nullptr) == expect, what << (i ? " exists" : " does not exist") << " among the robot transmissions"); return i; }
  template <class I> void joints(bool ownIf, bool expect, std::set<std::string> names, const char* what) { I* i = hw.get<I>(); if (ownIf) names.insert("own"); CHECK((i != nullptr) == (expect || ownIf), what << (i ? " exists" : " does not exist")); if (!i) return; Names n = i->getNames(); CHECK(std::set<std::string>(n.begin(), n.end()) == names, what << " offers joints " << pbt::show(n) << ", expected " << pbt::show(names)); }
  template <class I, class H> H handle(const std::string& n) { return hw.get<I>()->getHandle(n); }
  void verify()
  {
    std::set<std::string> all, by[3]; bool inv[3] = {}, cmd[3] = {}, bi = false; for (auto& l : loaded) { all.insert(l.d.joints.begin(), l.d.joints.end()); bi |= l.bi; for (int k = 0; k < 3; ++k) { cmd[k] |= l.cmd[k]; inv[k] |= l.inv[k]; if (l.cmd[k]) by[k].insert(l.d.joints.begin(), l.d.joints.end()); } }
    joints<JointStateInterface>(own[0], !all.empty(), all, "the joint state interface"); joints<PositionJointInterface>(own[1], cmd[0], by[0], "the position joint interface"); joints<VelocityJointInterface>(own[2], cmd[1], by[1], "the velocity joint interface"); joints<EffortJointInterface>(own[3], cmd[2], by[2], "the effort joint interface");
    auto* a2j = there<ActuatorToJointStateInterface>(ownRt[0] || !loaded.empty(), "actuator to joint state"); auto* jp = there<JointToActuatorPositionInterface>(ownRt[1] || cmd[0], "joint to actuator position"); auto* jv = there<JointToActuatorVelocityInterface>(cmd[1], "joint to actuator velocity"); auto* je = there<JointToActuatorEffortInterface>(cmd[2], "joint to actuator effort");
    auto* j2a = there<JointToActuatorStateInterface>(bi, "joint to actuator state"); auto* ap = there<ActuatorToJointPositionInterface>(inv[0], "actuator to joint position"); auto* av = there<ActuatorToJointVelocityInterface>(inv[1], "actuator to joint velocity"); auto* ae = there<ActuatorToJointEffortInterface>(inv[2], "actuator to joint effort");
    if (ownRt[0]) CHECK(a2j == &ownA2J, "the robot's own state transmission interface was replaced"); if (ownRt[1]) CHECK(jp == &ownJ2A, "the robot's own position transmission interface was replaced"); if (own[0]) { CHECK(hw.get<JointStateInterface>() == &ownSt, "the robot's own joint state interface was replaced"); CHECK(handle<JointStateInterface COMMA JointStateHandle>("own").getPositionPtr() == &ownData[0], "the robot's own joint was replaced"); }
    auto names = [&](auto* i, auto want, const char* what) { if (!i) return; std::set<std::string> e; for (auto& l : loaded) if (want(l)) e.insert(l.d.name); Names n = i->getNames(); CHECK(std::set<std::string>(n.begin(), n.end()) == e, what << " has transmissions " << pbt::show(n) << ", expected " << pbt::show(e)); };
    names(a2j, [](Loaded&) { return true; }, "actuator to joint state"); names(jp, [](Loaded& l) { return l.cmd[0]; }, "joint to actuator position"); names(jv, [](Loaded& l) { return l.cmd[1]; }, "joint to actuator velocity"); names(je, [](Loaded& l) { return l.cmd[2]; }, "joint to actuator effort"); names(j2a, [](Loaded& l) { return l.bi; }, "joint to actuator state"); names(ap, [](Loaded& l) { return l.inv[0]; }, "actuator to joint position"); names(av, [](Loaded& l) { return l.inv[1]; }, "actuator to joint velocity"); names(ae, [](Loaded& l) { return l.inv[2]; }, "actuator to joint effort");
    // state, actuators to joints
    for (auto& a : acts) for (auto& x : a->st) x = s.signedReal(100); if (a2j) a2j->propagate();
    auto quantities = [&](const Loaded& l, Vals& in) { bool abs = true, tor = true; for (size_t i = 0; i < l.d.n; ++i) { Act* a = act(l.d.acts[i]); abs &= a->abs; tor &= a->tor; for (int q = 0; q < 5; ++q) in.v[i][q] = a->st[q]; } return std::make_pair(abs, tor); };
    auto stateCheck = [&](const JointStateHandle& h, Vals& o, size_t i, std::pair<bool, bool> q, const std::string& w) {
      CHECK(h.getPosition() == o.v[i][0] && h.getVelocity() == o.v[i][1] && h.getEffort() == o.v[i][2], w << ": state " << h.getPosition() << ", " << h.getVelocity() << ", " << h.getEffort() << ", expected " << o.v[i][0] << ", " << o.v[i][1] << ", " << o.v[i][2]);
      if (q.first) { CHECK(h.hasAbsolutePosition() && h.getAbsolutePosition() == o.v[i][3], w << ": absolute position, expected " << o.v[i][3]); } else if (h.hasAbsolutePosition()) CHECK(std::isnan(h.getAbsolutePosition()), w << ": absolute position although an actuator has none");
      if (q.second) { CHECK(h.hasTorqueSensor() && h.getTorqueSensor() == o.v[i][4], w << ": torque sensor, expected " << o.v[i][4]); } else if (h.hasTorqueSensor()) CHECK(std::isnan(h.getTorqueSensor()), w << ": torque sensor although an actuator has none"); };
    for (auto& l : loaded) { Vals in((int)l.d.n), o((int)l.d.n); auto q = quantities(l, in); auto a = in.a(); auto j = o.j(); l.ref->actuatorToJointPosition(a, j); l.ref->actuatorToJointVelocity(a, j); l.ref->actuatorToJointEffort(a, j); l.ref->actuatorToJointAbsolutePosition(a, j); l.ref->actuatorToJointTorqueSensor(a, j);
      for (size_t i = 0; i < l.d.n; ++i) { const std::string& n = l.d.joints[i]; stateCheck(handle<JointStateInterface COMMA JointStateHandle>(n), o, i, q, "joint " + n + " of " + l.d.name); if (l.cmd[0]) stateCheck(handle<PositionJointInterface COMMA JointHandle>(n), o, i, q, "position joint " + n); if (l.cmd[1]) stateCheck(handle<VelocityJointInterface COMMA JointHandle>(n), o, i, q, "velocity joint " + n); if (l.cmd[2]) stateCheck(handle<EffortJointInterface COMMA JointHandle>(n), o, i, q, "effort joint " + n); } }
    // commands, joints to actuators
    std::map<std::string, std::array<double, 3>> expc; for (auto& a : acts) for (int k = 0; k < 3; ++k) { a->c[k] = s.signedReal(10); expc[a->name][k] = a->c[k]; } std::map<std::string, std::array<double, 3>> jc;
    for (auto& l : loaded) for (int k = 0; k < 3; ++k) if (l.cmd[k]) { Vals in((int)l.d.n), o((int)l.d.n); for (size_t i = 0; i < l.d.n; ++i) { double c = s.signedReal(100); jc[l.d.joints[i]][k] = in.v[i][k] = c; JointHandle h = k == 0 ? handle<PositionJointInterface COMMA JointHandle>(l.d.joints[i]) : k == 1 ? handle<VelocityJointInterface COMMA JointHandle>(l.d.joints[i]) : handle<EffortJointInterface COMMA JointHandle>(l.d.joints[i]); h.setCommand(c); }
      auto j = in.j(); auto a = o.a(); if (k == 0) l.ref->jointToActuatorPosition(j, a); if (k == 1) l.ref->jointToActuatorVelocity(j, a); if (k == 2) l.ref->jointToActuatorEffort(j, a); for (size_t i = 0; i < l.d.n; ++i) expc[l.d.acts[i]][k] = o.v[i][k]; }
    if (jp) jp->propagate(); if (jv) jv->propagate(); if (je) je->propagate();
    for (auto& a : acts) for (int k = 0; k < 3; ++k) CHECK(a->c[k] == expc[a->name][k], "command " << k << " of actuator " << a->name << " is " << a->c[k] << ", expected " << expc[a->name][k]);
    // the other way round, for bidirectional interfaces
    auto& raw = loader->getData()->raw_joint_data_map;
    if (j2a) { std::map<std::string, std::array<double, 5>> e; for (auto& a : acts) for (int q = 0; q < 5; ++q) { a->st[q] = s.signedReal(10); e[a->name][q] = a->st[q]; } for (auto& l : loaded) { Vals in((int)l.d.n), o((int)l.d.n); for (size_t i = 0; i < l.d.n; ++i) { auto& r = raw.at(l.d.joints[i]); r.position = in.v[i][0] = s.signedReal(100); r.velocity = in.v[i][1] = s.signedReal(100); r.effort = in.v[i][2] = s.signedReal(100); } if (!l.bi) continue; auto j = in.j(); auto a = o.a(); l.ref->jointToActuatorPosition(j, a); l.ref->jointToActuatorVelocity(j, a); l.ref->jointToActuatorEffort(j, a); for (size_t i = 0; i < l.d.n; ++i) for (int q = 0; q < 3; ++q) e[l.d.acts[i]][q] = o.v[i][q]; }
      j2a->propagate(); for (auto& a : acts) for (int q = 0; q < 5; ++q) CHECK(a->st[q] == e[a->name][q], "state " << q << " of actuator " << a->name << " is " << a->st[q] << ", expected " << e[a->name][q] << " from its joints"); }
    for (auto& a : acts) for (auto& x : a->c) x = s.signedReal(100); for (auto& l : loaded) for (size_t i = 0; i < l.d.n; ++i) { auto& r = raw.at(l.d.joints[i]); r.position_cmd = r.velocity_cmd = r.effort_cmd = 7; } if (ap) ap->propagate(); if (av) av->propagate(); if (ae) ae->propagate();
    for (auto& l : loaded) { Vals in((int)l.d.n), o((int)l.d.n); for (size_t i = 0; i < l.d.n; ++i) for (int k = 0; k < 3; ++k) in.v[i][k] = act(l.d.acts[i])->c[k]; auto a = in.a(); auto j = o.j(); l.ref->actuatorToJointPosition(a, j); l.ref->actuatorToJointVelocity(a, j); l.ref->actuatorToJointEffort(a, j); for (size_t i = 0; i < l.d.n; ++i) { auto& r = raw.at(l.d.joints[i]); double g[3] = {r.position_cmd, r.velocity_cmd, r.effort_cmd}; for (int k = 0; k < 3; ++k) { double x = l.inv[k] ? o.v[i][k] : 7; CHECK(g[k] == x, "command " << k << " of joint " << l.d.joints[i] << " is " << g[k] << ", expected " << x << " from its actuators"); } } }
    for (int k = 0; k < 4; ++k) CHECK(ownData[k] == 11 + k, "data of the robot's own joint changed");
  }
};
}
PROPERTY(C27, end_to_end, "two or more transmissions loaded with command interfaces, or one refused after another was loaded", 8000, 120000)
{
  World w(s); size_t calls = 1 + s.index(4), id = 0; bool refusedAfter = false; size_t used = 0;
  NOTE("robot: actuators " << w.acts.size() << " state " << w.hasSt << " position " << w.hasCmd[0] << " velocity " << w.hasCmd[1] << " effort " << w.hasCmd[2] << " own joint interfaces " << w.own[0] << w.own[1] << w.own[2] << w.own[3] << " own transmission interfaces " << w.ownRt[0] << w.ownRt[1]);
  for (size_t c = 0; c < calls; ++c) {
    std::vector<Desc> ds; std::vector<El> els; std::vector<TransmissionInfo> infos; size_t n = 1 + s.index(3); std::vector<Loaded> add; bool expect = true; size_t parsed = 0; int how = (int)s.index(3); if (how == 2) n = 1;
    for (size_t k = 0; k < n; ++k) {
      Desc d = genDesc(s, pbt::spelt("k", (size_t)id++)); bool bad = false; size_t nh = 1 + s.index(3); bool unknownIf = false; std::vector<int> fs; for (size_t i = 0; i < nh; ++i) { if (s.chance(1, 12)) { d.hw.push_back("pkg/NoInterface"); unknownIf = true; } else { int f = (int)s.index(NIF); fs.push_back(f); d.hw.push_back(ifName[f]); } }
      for (size_t i = 0; i < d.n; ++i) { d.acts[i] = used < w.acts.size() ? w.acts[used++]->name : "missing" + std::to_string(id); d.ael[i].at[0].second = d.acts[i]; }
      std::string why; Desc b = d; if (s.chance(1, 6)) { why = breakIt(s, b); bad = true; } finish(s, b);
      El e = toEl(s, b); if (!bad && s.chance(1, 12)) { for (auto& x : e.kids) if (x.tag == "type") x.text = "pkg/NoTransmission"; bad = true; why = "unknown type"; }
      if (!bad && d.n == 2 && s.chance(1, 10)) { std::vector<El*> js; for (auto& x : e.kids) if (x.tag == "joint") js.push_back(&x); js[s.index(2)]->kids.push_back(El("hardwareInterface", "pkg/Other")); bad = true; why = "joints with different interfaces"; }
      { El one("robot"); one.kids.push_back(e); ds.push_back(d); els.push_back(e); if (refParse(one).empty()) { s.label("parser leaves a transmission out"); continue; } ++parsed; }
      Loaded l; l.d = d; bool any = false; for (int f : fs) if (w.served(f, d.acts)) { any = true; if (f != ST) l.cmd[cmdOf(f)] = true; if (f >= BP) { l.inv[cmdOf(f)] = true; l.bi = true; } }
      if (!bad && !any) { bad = true; why = "no interface the robot can serve"; } if (!bad) { l.ref = d.make(); if (expect) add.push_back(std::move(l)); } else { if (expect && (!w.loaded.empty() || !add.empty())) refusedAfter = true; expect = false; s.label("refused: " + why.substr(0, why.find('\''))); } (void)unknownIf;
    }
    bool ok; El robot("robot"); robot.kids = els; std::string text = document(robot, s); NOTE((how == 0 ? "load text, expected " : how == 1 ? "load list, expected " : "load one, expected ") << expect << ": " << text);
    if (parsed == 0 && how == 0) expect = false; if (parsed == 0 && how == 2) { s.label("nothing to load"); continue; }
    try { if (how == 0) ok = w.loader->load(text); else { CHECK(TransmissionParser::parse(text, infos) && infos.size() == parsed, "description not parsed"); ok = how == 1 ? w.loader->load(infos) : w.loader->load(infos[0]); } }
    catch (const std::exception& e) { FAIL("load let an exception escape: " << e.what()); }
    CHECK(ok == expect, "load answered " << ok << ", expected " << expect); for (auto& l : add) w.loaded.push_back(std::move(l)); w.verify();
  }
  if (w.loaded.size() >= 2) s.label("two or more transmissions"); bool bi = false, cmd = false; for (auto& l : w.loaded) { bi |= l.bi; cmd |= l.cmd[0] || l.cmd[1] || l.cmd[2]; } if (bi) s.label("bidirectional"); if ((w.loaded.size() >= 2 && cmd) || refusedAfter) s.nontrivial();
}

PROPERTY(C27, replaced, "the second transmission differs in its maps", 3000, 40000)
{
  World w(s); Desc a = genDesc(s, "x"), b = genDesc(s, "x"); std::vector<int> fs; size_t nf = 1 + s.index(3); for (size_t i = 0; i < nf; ++i) fs.push_back((int)s.index(NIF)); Act* x0 = w.acts[0].get(); Act* x1 = w.acts[1].get();
  for (auto* d : {&a, &b}) { for (int f : fs) d->hw.push_back(ifName[f]); for (size_t i = 0; i < d->n; ++i) { d->acts[i] = (i == 0 ? x0 : x1)->name; d->ael[i].at[0].second = d->acts[i]; } finish(s, *d); bool any = false; for (int f : fs) any |= w.served(f, d->acts); if (!any) s.discard(); }
  for (auto* d : {&a, &b}) { El r("robot"); r.kids.push_back(toEl(s, *d)); std::string t = document(r, s); NOTE(t); CHECK(w.loader->load(t), "load failed"); }
  // the later transmission is the one in use
  for (auto& x : w.acts) for (auto& v : x->st) v = s.signedReal(100); w.rt.get<ActuatorToJointStateInterface>()->propagate();
  auto maps = [&](const Desc& d, bool abs, bool tor, Vals& o) { Vals in((int)d.n); for (size_t i = 0; i < d.n; ++i) for (int q = 0; q < 5; ++q) in.v[i][q] = w.act(d.acts[i])->st[q]; auto t = d.make(); auto p = in.a(); auto j = o.j(); t->actuatorToJointPosition(p, j); t->actuatorToJointVelocity(p, j); t->actuatorToJointEffort(p, j); (void)abs; (void)tor; };
  Vals e((int)b.n), old((int)a.n); maps(b, false, false, e); maps(a, false, false, old); bool good = true, stale = true;
  for (size_t i = 0; i < b.n; ++i) { auto h = w.hw.get<JointStateInterface>()->getHandle(b.joints[i]); double g[3] = {h.getPosition(), h.getVelocity(), h.getEffort()}; for (int q = 0; q < 3; ++q) { good &= g[q] == e.v[i][q]; bool st = i < a.n ? g[q] == old.v[i][q] : std::isnan(g[q]); stale &= st; } }
  if (!good) { std::string m = "a transmission loaded again under its name with other parameters: its joint states still come from the former one"; if (stale && !w.ownRt[0]) s.known("replaced-transmission-state", m); else FAIL("joint states come neither from the later nor from the former transmission"); }
  for (int k = 0; k < 3; ++k) { bool c = false; for (int f : fs) c |= f != ST && cmdOf(f) == k && w.served(f, b.acts); if (!c) continue; Vals in((int)b.n), o((int)b.n); for (size_t i = 0; i < b.n; ++i) { double v = in.v[i][k] = s.signedReal(100); if (k == 0) w.hw.get<PositionJointInterface>()->getHandle(b.joints[i]).setCommand(v); if (k == 1) w.hw.get<VelocityJointInterface>()->getHandle(b.joints[i]).setCommand(v); if (k == 2) w.hw.get<EffortJointInterface>()->getHandle(b.joints[i]).setCommand(v); }
    auto t = b.make(); auto j = in.j(); auto p = o.a(); if (k == 0) { t->jointToActuatorPosition(j, p); w.rt.get<JointToActuatorPositionInterface>()->propagate(); } if (k == 1) { t->jointToActuatorVelocity(j, p); w.rt.get<JointToActuatorVelocityInterface>()->propagate(); } if (k == 2) { t->jointToActuatorEffort(j, p); w.rt.get<JointToActuatorEffortInterface>()->propagate(); }
    for (size_t i = 0; i < b.n; ++i) CHECK(w.act(b.acts[i])->c[k] == o.v[i][k], "command " << k << " of " << b.acts[i] << " is " << w.act(b.acts[i])->c[k] << ", the later transmission gives " << o.v[i][k]); }
  s.nontrivial();
}
PROPERTY(C27, own_joints, "a joint of the description is one the robot has itself", 3000, 40000)
{
  World w(s); Desc d = genDesc(s, "x"); size_t own = s.index(d.n); for (size_t i = 0; i < d.n; ++i) { d.acts[i] = w.acts[i]->name; d.ael[i].at[0].second = d.acts[i]; } bool o = w.own[0] || w.own[1] || w.own[2] || w.own[3]; d.joints[own] = "own"; d.jel[own].at[0].second = "own"; size_t nf = 1 + s.index(3); for (size_t i = 0; i < nf; ++i) d.hw.push_back(ifName[s.index(NIF)]); finish(s, d);
  El r("robot"); r.kids.push_back(toEl(s, d)); std::string t = document(r, s); NOTE(t); bool ok; try { ok = w.loader->load(t); } catch (const std::exception& e) { FAIL("load let an exception escape: " << e.what()); } s.label(ok ? "loaded" : "refused");
  // what the robot had is as it was
  if (w.own[0]) { auto h = w.hw.get<JointStateInterface>()->getHandle("own"); CHECK(h.getPositionPtr() == &w.ownData[0] && h.getVelocityPtr() == &w.ownData[1] && h.getEffortPtr() == &w.ownData[2], "the robot's own joint state was replaced"); }
  auto same = [&](auto* i, bool has, auto* own, const char* n) { if (!has) return; CHECK(i == own, "the robot's own " << n << " interface was replaced"); auto h = i->getHandle("own"); h.setCommand(14); CHECK(h.getCommandPtr() == &w.ownData[3] && h.getPositionPtr() == &w.ownData[0], "the robot's own joint was replaced in the " << n << " interface"); };
  same(w.hw.get<PositionJointInterface>(), w.own[1], &w.ownP, "position"); same(w.hw.get<VelocityJointInterface>(), w.own[2], &w.ownV, "velocity"); same(w.hw.get<EffortJointInterface>(), w.own[3], &w.ownE, "effort");
  for (auto& x : w.acts) for (auto& v : x->st) v = 1; if (auto* i = w.rt.get<ActuatorToJointStateInterface>()) i->propagate(); if (auto* i = w.rt.get<JointToActuatorPositionInterface>()) i->propagate(); for (int k = 0; k < 4; ++k) CHECK(w.ownData[k] == 11 + k, "data of the robot's own joint changed"); if (o) s.nontrivial();
}
