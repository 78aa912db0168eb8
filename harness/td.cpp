// T05-T07: transmission descriptions: parser, loaders, and transmissions connected to a robot end to end.
#include "vh.h"
#include <transmission_interface/bidirectional_effort_joint_interface_provider.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/differential_transmission_loader.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission_loader.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/simple_transmission_loader.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/transmission_parser.h>
#include <array>
#include <memory>
extern "C" void simBlock(const char*) {}
using namespace transmission_interface; namespace hi = hardware_interface;
using vh::H; using vh::Rng; typedef std::string S; typedef std::vector<S> VS; typedef std::vector<double> V;
static S esc(const S& s) { S o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; default: o += c; } return o; }
// A description, as a tree of what is written and how
struct Item { bool joint; int nameKind = 0; /*0 given 1 missing 2 empty*/ S name, role, reduction, offset; bool hasRole = false, hasReduction = false, hasOffset = false, ignoreAbs = false; VS ifs; std::vector<int> emptyIfs; VS extra; };
struct Trans { int nameKind = 0, typeKind = 0; S name, type; std::vector<Item> joints, acts; VS extra; };
static S ws(Rng& r) { static const char* w[] = {"", "", "\n", " ", "\n  \t", "<!-- comment -->"}; return w[r.below(6)]; }
static void shuffle(Rng& r, VS& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
static S attr(Rng& r, int kind, const S& name) { S x = r.chance(15) ? " other=\"a&amp;b\"" : "", q = r.chance(20) ? "'" : "\""; S n = kind == 1 ? "" : " name=" + q + (kind == 2 ? "" : esc(name)) + q; return r.chance(50) ? n + x : x + n; }
static S write(Rng& r, const Item& it) {
  // interfaces keep their order; everything else may appear anywhere
  VS others = it.extra; if (it.hasRole) others.push_back("<role>" + esc(it.role) + "</role>"); if (it.hasReduction) others.push_back("<mechanicalReduction>" + it.reduction + "</mechanicalReduction>"); if (it.hasOffset) others.push_back("<offset>" + it.offset + "</offset>"); if (it.ignoreAbs) others.push_back(r.chance(50) ? "<ignoreTransmissionAbsoluteEncoder/>" : "<ignoreTransmissionAbsoluteEncoder>true</ignoreTransmissionAbsoluteEncoder>");
  shuffle(r, others); VS all; size_t o = 0, k = 0; std::set<int> em(it.emptyIfs.begin(), it.emptyIfs.end());
  while (o < others.size() || k < it.ifs.size()) if (k >= it.ifs.size() || (o < others.size() && r.chance(50))) all.push_back(others[o++]); else { if (em.count((int)k)) all.push_back(r.chance(50) ? "<hardwareInterface/>" : "<hardwareInterface></hardwareInterface>"); all.push_back("<hardwareInterface>" + esc(it.ifs[k++]) + "</hardwareInterface>"); }
  if (it.ifs.empty() && !it.emptyIfs.empty()) all.push_back("<hardwareInterface/>");
  S tag = it.joint ? "joint" : "actuator", s = "<" + tag + attr(r, it.nameKind, it.name); if (all.empty() && r.chance(50)) return s + "/>"; s += ">"; for (auto& x : all) s += ws(r) + x; return s + ws(r) + "</" + tag + ">";
}
static S write(Rng& r, const Trans& t) {
  VS parts; std::vector<std::pair<int, const Item*>> order; S s = "<transmission" + attr(r, t.nameKind, t.name) + ">"; VS body; if (t.typeKind == 0) body.push_back("<type>" + esc(t.type) + "</type>"); else if (t.typeKind == 2) body.push_back(r.chance(50) ? "<type/>" : "<type></type>");
  for (auto& e : t.extra) body.push_back(e); shuffle(r, body); size_t b = 0, j = 0, a = 0; bool jf = r.chance(50);
  while (b < body.size() || j < t.joints.size() || a < t.acts.size()) { int c = (int)r.below(3); if (c == 0 && b < body.size()) s += ws(r) + body[b++]; else if (((c == 1) == jf) && j < t.joints.size()) s += ws(r) + write(r, t.joints[j++]); else if (a < t.acts.size()) s += ws(r) + write(r, t.acts[a++]); }
  return s + ws(r) + "</transmission>";
}
static S document(Rng& r, const std::vector<S>& ts) {
  static const char* junk[] = {"<link name=\"l1\"/>", "<joint name=\"outer\" type=\"fixed\"><parent link=\"a\"/></joint>", "<gazebo><transmission2 name=\"no\"/></gazebo>", "<!-- <transmission name=\"c\"/> -->", "text", "<actuator name=\"outer\"/>", "<plugin><transmission name=\"nested\"><type>x</type><joint name=\"j\"><hardwareInterface>h</hardwareInterface></joint><actuator name=\"a\"/></transmission></plugin>"};
  S s = r.chance(50) ? "<?xml version=\"1.0\"?>\n" : ""; s += ws(r); S root = r.chance(80) ? "robot" : "anything"; s += "<" + root + (r.chance(50) ? " name=\"bot\"" : "") + ">"; for (auto& t : ts) { if (r.chance(30)) s += junk[r.below(7)]; s += t; } if (r.chance(30)) s += junk[r.below(7)]; return s + "</" + root + ">" + ws(r);
}
static S name(Rng& r, const char* p, int n) { if (r.chance(8)) { static const char* odd[] = {"a&b", "<x>", "na\"me", "it's", "\xc3\xa9t\xc3\xa9", "with space", "%s%n", "a/b_c-d.e"}; return odd[r.below(8)]; } if (r.chance(1)) return S(p) + S(r.range(50, 3000), (char)('a' + n % 26)) + std::to_string(n); return p + std::to_string(n); }
static S sameXml(const TiXmlNode* a, const TiXmlNode* b) { // structural comparison, comments included
  if (!a || !b) return a == b ? "" : "missing node"; if (a->Type() != b->Type() || a->ValueStr() != b->ValueStr()) return "<" + a->ValueStr() + "> became <" + b->ValueStr() + ">";
  if (auto* e = a->ToElement()) { auto* f = b->ToElement(); auto *x = e->FirstAttribute(), *y = f->FirstAttribute(); for (; x && y; x = x->Next(), y = y->Next()) if (x->NameTStr() != y->NameTStr() || x->ValueStr() != y->ValueStr()) return "an attribute of <" + e->ValueStr() + "> differs"; if (x || y) return "attributes of <" + e->ValueStr() + "> differ"; }
  auto *c = a->FirstChild(), *d = b->FirstChild(); for (; c && d; c = c->NextSibling(), d = d->NextSibling()) { S s = sameXml(c, d); if (!s.empty()) return s; } return c || d ? "children of <" + a->ValueStr() + "> differ" : "";
}
static void T05() {
  H().rule = "distinct = distinct texts given to the parser";
  H().loop("documents", H().cases(40000, 1000000), [](Rng& r, long) {
    std::vector<Trans> ts; bool big = r.chance(2); int n = big ? r.range(8, 30) : r.range(0, 6);
    for (int i = 0; i < n; ++i) {
      Trans t; bool bad = r.chance(45); t.name = name(r, "trans", r.range(0, 5)); t.type = r.chance(80) ? "transmission_interface/SimpleTransmission" : name(r, "type", 1);
      if (bad && r.chance(25)) t.nameKind = r.range(1, 2); if (bad && r.chance(25)) t.typeKind = r.range(1, 2);
      for (int k = 0; k < 2; ++k) { int m = bad && r.chance(20) ? 0 : big && r.chance(20) ? r.range(4, 40) : r.range(1, 3); for (int x = 0; x < m; ++x) {
        Item it; it.joint = k == 0; it.name = name(r, k == 0 ? "joint" : "act", r.range(0, 6)); if (bad && r.chance(15)) it.nameKind = r.range(1, 2); it.hasRole = r.chance(50); if (it.hasRole && !r.chance(15)) it.role = name(r, "joint", r.range(1, 2));
        int ni = k == 0 ? (bad && r.chance(25) ? 0 : big && r.chance(20) ? r.range(4, 40) : r.range(1, 3)) : r.range(0, 2); for (int q = 0; q < ni; ++q) it.ifs.push_back(name(r, "iface", r.range(0, 3))); if (r.chance(15)) it.emptyIfs.push_back(r.range(0, 2));
        if (r.chance(50)) { it.hasReduction = true; it.reduction = std::to_string(r.range(-9, 9)); } if (r.chance(30)) { it.hasOffset = true; it.offset = "0.5"; } if (r.chance(20)) it.extra.push_back("<misc a='1' b=\"&lt;2\"><deep>x &amp; y</deep><!-- c --><e/></misc>");
        (k == 0 ? t.joints : t.acts).push_back(it);
      } }
      if (r.chance(20)) t.extra.push_back("<reduction>3</reduction>"); ts.push_back(t);
    }
    std::vector<S> txt; for (auto& t : ts) txt.push_back(write(r, t)); S doc = document(r, txt); H().seen(vh::hashStr(doc)); if (H().samples.size() < 2 && n == 2) H().sample(doc);
    // expectation
    std::vector<Trans> want;
    for (auto& t : ts) {
      Trans w = t; w.joints.clear(); w.acts.clear(); bool ok = t.nameKind == 0 && t.typeKind == 0;
      for (auto& j : t.joints) { if (j.nameKind == 1) ok = false; if (j.nameKind == 0 && !j.ifs.empty()) w.joints.push_back(j); } for (auto& a : t.acts) { if (a.nameKind == 1) ok = false; if (a.nameKind == 0) w.acts.push_back(a); }
      bool partly = w.joints.size() != t.joints.size() || w.acts.size() != t.acts.size();
      if (w.joints.empty() || w.acts.empty()) ok = false; if (ok) want.push_back(w); H().count(ok ? (partly ? "transmissions with some malformed parts" : "well-formed transmissions") : "malformed transmissions");
    }
    std::vector<TransmissionInfo> got; TransmissionInfo keep; int pre = r.chance(20) ? 1 : 0; if (pre) { keep.name_ = "kept"; got.push_back(keep); } bool ok = false;
    try { ok = TransmissionParser().parse(doc, got); } catch (const std::exception& e) { H().fail("throw", S("parse threw ") + e.what() + " for\n" + doc); return; }
    if (!ok) { H().fail("refused", "a document that is well-formed XML was refused:\n" + doc); return; }
    S e; if (pre) { if (got.empty() || got[0].name_ != "kept") e = "earlier results were lost"; else got.erase(got.begin()); }
    // The malformed single parts of an otherwise good transmission may make the transmission be skipped or be skipped alone; either way nothing malformed may come out.
    TiXmlDocument dd; dd.Parse(doc.c_str()); size_t g = 0; TiXmlElement* el = nullptr; size_t w = 0; (void)el;
    std::vector<TiXmlElement*> els; for (auto* x = dd.RootElement()->FirstChildElement("transmission"); x; x = x->NextSiblingElement("transmission")) els.push_back(x);
    for (size_t i = 0; i < ts.size() && e.empty(); ++i) {
      bool expected = w < want.size() && [&] { Trans& t = ts[i]; if (t.nameKind || t.typeKind) return false; size_t gj = 0, ga = 0; for (auto& j : t.joints) { if (j.nameKind == 1) return false; gj += j.nameKind == 0 && !j.ifs.empty(); } for (auto& a : t.acts) { if (a.nameKind == 1) return false; ga += a.nameKind == 0; } return gj && ga; }();
      if (!expected) continue; Trans& q = want[w++]; bool partly = q.joints.size() != ts[i].joints.size() || q.acts.size() != ts[i].acts.size();
      if (g >= got.size() || got[g].name_ != q.name) { if (partly) continue; e = "transmission '" + q.name + "' is missing"; break; }
      TransmissionInfo& t = got[g++]; if (t.type_ != q.type) e = "type of '" + q.name + "' is '" + t.type_ + "'";
      if (t.joints_.size() != q.joints.size()) e = "'" + q.name + "' has " + std::to_string(t.joints_.size()) + " joints"; else if (t.actuators_.size() != q.acts.size()) e = "'" + q.name + "' has " + std::to_string(t.actuators_.size()) + " actuators";
      std::vector<TiXmlElement*> je, ae; for (auto* x = els[i]->FirstChildElement("joint"); x; x = x->NextSiblingElement("joint")) je.push_back(x); for (auto* x = els[i]->FirstChildElement("actuator"); x; x = x->NextSiblingElement("actuator")) ae.push_back(x);
      size_t src = 0; for (size_t k = 0; k < q.joints.size() && e.empty(); ++k) { while (ts[i].joints[src].nameKind || ts[i].joints[src].ifs.empty()) ++src; auto& a = t.joints_[k]; auto& b = q.joints[k]; if (a.name_ != b.name) e = "joint name '" + a.name_ + "' instead of '" + b.name + "'"; else if (a.role_ != (b.hasRole ? b.role : "")) e = "role of joint '" + a.name_ + "' is '" + a.role_ + "'"; else if (a.hardware_interfaces_ != b.ifs) e = "hardware interfaces of joint '" + a.name_ + "' differ"; else { TiXmlElement x(""); std::stringstream ss; ss << a.xml_element_; ss >> x; S d = sameXml(je[src], &x); if (!d.empty()) e = "XML content of joint '" + a.name_ + "': " + d; } ++src; }
      src = 0; for (size_t k = 0; k < q.acts.size() && e.empty(); ++k) { while (ts[i].acts[src].nameKind) ++src; auto& a = t.actuators_[k]; auto& b = q.acts[k]; if (a.name_ != b.name) e = "actuator name '" + a.name_ + "' instead of '" + b.name + "'"; else if (a.hardware_interfaces_ != b.ifs) e = "hardware interfaces of actuator '" + a.name_ + "' differ"; else { TiXmlElement x(""); std::stringstream ss; ss << a.xml_element_; ss >> x; S d = sameXml(ae[src], &x); if (!d.empty()) e = "XML content of actuator '" + a.name_ + "': " + d; } ++src; }
    }
    if (e.empty() && g != got.size()) e = "unexpected transmission '" + got[g].name_ + "'";
    if (!e.empty()) H().fail("content", e + " in\n" + doc);
  });
  H().loop("texts", H().cases(40000, 2000000), [](Rng& r, long) { // arbitrary text: total, never yields something incomplete
    static const char* frag[] = {"<transmission name=\"t\">", "</transmission>", "<joint name=\"j\">", "</joint>", "<actuator name=\"a\">", "</actuator>", "<type>T</type>", "<hardwareInterface>h</hardwareInterface>", "<role>", "</role>", "<robot>", "</robot>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#65;", "&#xZZ;", "&", "<", ">", "\"", "name=", "<?xml version=\"1.0\"", "?>", "\xef\xbb\xbf", "\xff", "text", " ", "/>", "<type/>", "<hardwareInterface/>", "<actuator name=\"b\"/>", "<!DOCTYPE x>", "encoding=\"UTF-8\""};
    S doc; int style = (int)r.below(3);
    if (style == 0) { for (int i = r.range(0, 30); i > 0; --i) doc += frag[r.below(36)]; }
    else { std::vector<S> tx; for (int i = r.range(1, 3); i > 0; --i) { Trans t; t.name = "t" + std::to_string(i); t.type = "x"; Item j; j.joint = true; j.name = "j"; j.ifs = {"h"}; Item a; a.joint = false; a.name = "a"; t.joints.push_back(j); t.acts.push_back(a); tx.push_back(write(r, t)); } doc = document(r, tx);
      for (int i = r.range(1, 4); i > 0 && !doc.empty(); --i) switch (r.below(5)) { case 0: doc.erase(r.below(doc.size()), 1 + r.below(6)); break; case 1: doc.insert(r.below(doc.size()), frag[r.below(36)]); break; case 2: doc[r.below(doc.size())] = (char)r.below(256); break; case 3: doc.resize(r.below(doc.size())); break; default: { size_t a = r.below(doc.size()), l = 1 + r.below(60); doc.insert(r.below(doc.size()), doc.substr(a, l)); } } }
    H().seen(vh::hashStr(doc)); std::vector<TransmissionInfo> got; bool ok = false;
    try { ok = TransmissionParser().parse(doc, got); } catch (const std::exception& e) { H().fail("throw", S("parse threw ") + e.what() + " for\n" + doc); return; }
    TiXmlDocument d; d.Parse(doc.c_str()); bool xml = !d.Error() && d.RootElement(); H().count(xml ? "texts that are XML" : "texts that are not XML");
    if (ok != xml) H().fail(xml ? "refused" : "accepted", S(xml ? "an XML text was refused:\n" : "a text that is not XML (or has no root element) was accepted:\n") + doc);
    for (auto& t : got) { H().count("transmissions from arbitrary text"); S e; if (t.name_.empty()) e = "no name"; if (t.type_.empty()) e = "no type"; if (t.joints_.empty()) e = "no joints"; if (t.actuators_.empty()) e = "no actuators"; for (auto& j : t.joints_) { if (j.hardware_interfaces_.empty()) e = "a joint without hardware interfaces"; if (j.name_.empty()) e = "a joint without name"; } for (auto& a : t.actuators_) if (a.name_.empty()) e = "an actuator without name"; if (!e.empty()) H().fail("incomplete", "a transmission with " + e + " came out of\n" + doc); }
  });
  for (auto s : {"well-formed transmissions", "malformed transmissions", "transmissions with some malformed parts", "texts that are XML", "texts that are not XML", "transmissions from arbitrary text"}) H().require(s, 100);
}
// ---- T06
static const char* TYPES[] = {"transmission_interface/SimpleTransmission", "transmission_interface/DifferentialTransmission", "transmission_interface/FourBarLinkageTransmission"};
struct Want { bool ok = true; int kind = 0; V ar, jr, off; bool ign = false; };
static std::unique_ptr<Transmission> build(const Want& w) { if (w.kind == 0) return std::unique_ptr<Transmission>(new SimpleTransmission(w.ar[0], w.off[0])); if (w.kind == 1) return std::unique_ptr<Transmission>(new DifferentialTransmission(w.ar, w.jr, w.ign, w.off)); return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(w.ar, w.jr, w.off)); }
static S numText(Rng& r, double& v, bool nonzero) {
  for (;;) { char b[64]; switch (r.below(6)) { case 0: snprintf(b, 64, "%d", r.range(-60, 60)); break; case 1: snprintf(b, 64, "%.17g", r.uniform(-100, 100)); break; case 2: snprintf(b, 64, "%.3f", r.uniform(-10, 10)); break; case 3: snprintf(b, 64, "%.6e", r.uniform(-1, 1) * std::pow(10.0, r.range(-20, 20))); break; case 4: snprintf(b, 64, "+%d.", r.range(0, 30)); break; default: snprintf(b, 64, " %g\n", r.uniform(-2, 2)); } v = strtod(b, nullptr); if (!nonzero || v != 0) return b; }
}
static S badNum(Rng& r) { static const char* b[] = {"", "abc", "--5", "e5", "x1", "one", ".", "-", "(2)", "#3"}; return b[r.below(10)]; }
// generates a description of the given kind and what it means; faults make it unloadable
static Want describe(Rng& r, Trans& t, int kind, bool fault, S* what) {
  Want w; w.kind = kind; size_t n = kind ? 2 : 1; w.ar.assign(n, 0); w.jr.assign(n, 1); w.off.assign(n, 0); w.ign = kind == 1; t.type = TYPES[kind];
  std::vector<size_t> ja, aa; for (size_t i = 0; i < n; ++i) { ja.push_back(i); aa.push_back(i); } if (n == 2 && r.chance(50)) std::swap(ja[0], ja[1]); if (n == 2 && r.chance(50)) std::swap(aa[0], aa[1]);
  bool ignBoth = r.chance(40);
  for (size_t k = 0; k < n; ++k) {
    Item j; j.joint = true; size_t i = ja[k]; if (n == 2) { j.hasRole = true; j.role = "joint" + std::to_string(i + 1); if (r.chance(50)) { j.hasReduction = true; j.reduction = numText(r, w.jr[i], true); } } else if (r.chance(20)) { j.hasRole = true; j.role = "joint1"; }
    if (r.chance(50)) { j.hasOffset = true; j.offset = numText(r, w.off[i], false); } j.ignoreAbs = ignBoth || r.chance(20); if (kind == 1) w.ign &= j.ignoreAbs; t.joints.push_back(j);
    Item a; a.joint = false; i = aa[k]; if (n == 2) { a.hasRole = true; a.role = "actuator" + std::to_string(i + 1); } a.hasReduction = true; a.reduction = numText(r, w.ar[i], true); t.acts.push_back(a);
  }
  if (fault) {
    w.ok = false; Item& j = t.joints[r.below(n)]; Item& a = t.acts[r.below(n)];
    for (;;) { int f = (int)r.below(13); switch (f) {
      case 0: a.hasReduction = false; *what = "missing actuator reduction"; break; case 1: a.reduction = badNum(r); *what = "non-numeric actuator reduction"; break; case 2: j.hasOffset = true; j.offset = badNum(r); *what = "non-numeric offset"; break;
      case 3: if (n < 2) continue; j.hasReduction = true; j.reduction = badNum(r); *what = "non-numeric joint reduction"; break; case 4: if (n < 2) continue; j.hasRole = false; *what = "missing joint role"; break; case 5: if (n < 2) continue; a.hasRole = false; *what = "missing actuator role"; break;
      case 6: if (n < 2) continue; j.role = r.chance(30) ? "" : r.chance(50) ? "joint3" : "actuator1"; *what = "unknown joint role"; break; case 7: if (n < 2) continue; a.role = r.chance(30) ? "" : r.chance(50) ? "actuator" : "joint1"; *what = "unknown actuator role"; break;
      case 8: if (n < 2) continue; t.joints[0].role = t.joints[1].role; *what = "duplicate joint roles"; break; case 9: if (n < 2) continue; t.acts[0].role = t.acts[1].role; *what = "duplicate actuator roles"; break;
      case 10: { bool js = r.chance(50); auto& v = js ? t.joints : t.acts; if (r.chance(50) && v.size() > 1) v.pop_back(); else { Item x = v[0]; v.push_back(x); } *what = js ? "wrong number of joints" : "wrong number of actuators"; break; }
      case 11: a.reduction = r.chance(50) ? "0" : "-0.0"; *what = "zero actuator reduction"; break; default: if (n < 2) continue; j.hasReduction = true; j.reduction = r.chance(50) ? "0.000" : "-0"; *what = "zero joint reduction"; } break; }
  }
  return w;
}
static S pars(const TransmissionSharedPtr& t, int kind, V& ar, V& jr, V& off) {
  if (kind == 0) { auto* s = dynamic_cast<SimpleTransmission*>(t.get()); if (!s) return "wrong kind of transmission"; ar = {s->getActuatorReduction()}; off = {s->getJointOffset()}; jr = {1}; }
  else if (kind == 1) { auto* s = dynamic_cast<DifferentialTransmission*>(t.get()); if (!s) return "wrong kind of transmission"; ar = s->getActuatorReduction(); jr = s->getJointReduction(); off = s->getJointOffset(); }
  else { auto* s = dynamic_cast<FourBarLinkageTransmission*>(t.get()); if (!s) return "wrong kind of transmission"; ar = s->getActuatorReduction(); jr = s->getJointReduction(); off = s->getJointOffset(); }
  return "";
}
static S vs(const V& v) { S o = "("; for (double x : v) o += (o.size() > 1 ? ", " : "") + vh::num(x); return o + ")"; }
static void T06() {
  H().rule = "distinct = distinct descriptions given to a loader";
  auto loader = [](int k) -> TransmissionLoader* { static SimpleTransmissionLoader s; static DifferentialTransmissionLoader d; static FourBarLinkageTransmissionLoader f; return k == 0 ? (TransmissionLoader*)&s : k == 1 ? (TransmissionLoader*)&d : &f; };
  auto named = [](Trans& t) { t.name = "t"; int i = 0; for (auto& j : t.joints) { j.name = "j" + std::to_string(i++); j.ifs = {"h"}; } for (auto& a : t.acts) a.name = "a" + std::to_string(i++); };
  H().loop("descriptions", H().cases(40000, 1000000), [&](Rng& r, long) {
    Trans t; S what; int kind = (int)r.below(3); Want w = describe(r, t, kind, r.chance(45), &what); named(t); for (auto& j : t.joints) if (r.chance(10)) j.extra.push_back("<misc><offset>77</offset></misc>"); for (auto& a : t.acts) if (r.chance(10)) a.extra.push_back("<misc><role>x</role></misc>");
    S doc = "<robot>" + write(r, t) + "</robot>"; H().seen(vh::hashStr(doc)); std::vector<TransmissionInfo> in; if (H().samples.size() < 3 && w.ok) H().sample(doc);
    if (!TransmissionParser().parse(doc, in) || in.size() != 1) { H().count("descriptions the parser already refused"); return; }
    TransmissionSharedPtr p; try { p = loader(kind)->load(in[0]); } catch (const std::exception& e) { H().fail("throw", S("loading threw ") + e.what() + " for\n" + doc); return; }
    H().count(w.ok ? S("loadable ") + TYPES[kind] : "unloadable: " + what);
    if (!p) { if (w.ok) H().fail("refused", "a valid description yields no transmission:\n" + doc); return; }
    if (!w.ok) { H().fail("accepted:" + what, "a description with " + what + " yields a transmission:\n" + doc); return; }
    V ar, jr, off; S e = pars(p, kind, ar, jr, off); if (!e.empty()) { H().fail("kind", e + "\n" + doc); return; } if (kind == 0) w.jr = {1};
    auto eq = [](const V& a, const V& b) { return a == b; };
    if (!eq(ar, w.ar)) H().fail("actuator-reduction", "actuator reductions " + vs(ar) + " instead of " + vs(w.ar) + " for\n" + doc); if (!eq(jr, w.jr)) H().fail("joint-reduction", "joint reductions " + vs(jr) + " instead of " + vs(w.jr) + " for\n" + doc); if (!eq(off, w.off)) H().fail("offset", "offsets " + vs(off) + " instead of " + vs(w.off) + " for\n" + doc);
    if (kind == 1) { double x[2] = {3.25, -7.5}, y[2] = {0, 0}; ActuatorData a; JointData j; for (int i = 0; i < 2; ++i) { a.absolute_position.push_back(x + i); j.absolute_position.push_back(y + i); } p->actuatorToJointAbsolutePosition(a, j); bool raw = (y[0] == x[0] && y[1] == x[1]) || (y[0] == x[1] && y[1] == x[0]); // whether the encoders are passed through
      double z[2]; j.absolute_position = {z, z + 1}; build(w)->actuatorToJointAbsolutePosition(a, j); H().count(w.ign ? "ignore-encoder descriptions" : "normal-encoder descriptions"); if (raw != w.ign && (z[0] != y[0] || z[1] != y[1])) H().fail("ignore-abs", "the absolute-encoder option is " + S(w.ign ? "lost" : "set without being asked for") + " for\n" + doc); }
  });
  H().loop("mutated", H().cases(30000, 800000), [&](Rng& r, long) { // damaged descriptions: no crash, and no transmission of another kind or with refused values
    Trans t; S what; int kind = (int)r.below(3); describe(r, t, kind, r.chance(20), &what); named(t); S doc = "<robot>" + write(r, t) + "</robot>";
    static const char* frag[] = {"<role>", "</role>", "<offset/>", "<offset>1e400</offset>", "<mechanicalReduction>0</mechanicalReduction>", "<mechanicalReduction/>", "&#0;", "&#xFFFF;", "]]>", "<![CDATA[<role>]]>", "<!--", "-->", "<role><b/></role>", "<joint name=\"j9\"><hardwareInterface>h</hardwareInterface></joint>", "\xff", "\x01", "&amp;", "nan", "inf", "0x1p3", "1e-400", "\"", "'", "=", "<", ">"};
    for (int n = r.range(1, 3); n > 0 && !doc.empty(); --n) switch (r.below(5)) { case 0: doc.erase(r.below(doc.size()), 1 + r.below(6)); break; case 1: case 2: { size_t p = r.below(doc.size()); if (r.chance(70)) { p = doc.find('>', p); p = p == S::npos ? 0 : p + 1; } doc.insert(p, frag[r.below(26)]); break; } case 3: doc[r.below(doc.size())] = (char)r.below(256); break; default: { size_t a = r.below(doc.size()), l = 1 + r.below(60); doc.insert(r.below(doc.size()), doc.substr(a, l)); } }
    H().seen(vh::hashStr(doc)); std::vector<TransmissionInfo> in; TransmissionParser().parse(doc, in); if (in.empty()) H().count("damaged descriptions without transmissions");
    for (auto& info : in) for (int k = 0; k < 3; ++k) { TransmissionSharedPtr p; try { p = loader(k)->load(info); } catch (const std::exception& e) { H().fail("throw-mutated", S("loading threw ") + e.what() + " for\n" + doc); return; }
      H().count(p ? "damaged descriptions that still load" : "damaged descriptions that do not load"); size_t n = k ? 2 : 1; if (p && (info.joints_.size() != n || info.actuators_.size() != n)) H().fail("accepted-dimension", "a transmission with a wrong number of joints or actuators was loaded from\n" + doc);
      if (p) { V a, j, o; S e = pars(p, k, a, j, o); if (!e.empty()) H().fail("kind", e); for (double x : a) if (x == 0) H().fail("zero", "a zero reduction was accepted from\n" + doc); for (double x : j) if (x == 0) H().fail("zero", "a zero reduction was accepted from\n" + doc); } }
  });
  for (auto s : {"loadable transmission_interface/SimpleTransmission", "loadable transmission_interface/DifferentialTransmission", "loadable transmission_interface/FourBarLinkageTransmission", "unloadable: missing actuator reduction", "unloadable: non-numeric actuator reduction", "unloadable: non-numeric offset", "unloadable: non-numeric joint reduction", "unloadable: missing joint role", "unloadable: missing actuator role", "unloadable: unknown joint role", "unloadable: unknown actuator role", "unloadable: duplicate joint roles", "unloadable: duplicate actuator roles", "unloadable: wrong number of joints", "unloadable: wrong number of actuators", "unloadable: zero actuator reduction", "unloadable: zero joint reduction", "ignore-encoder descriptions", "normal-encoder descriptions", "damaged descriptions that do not load", "damaged descriptions that still load", "damaged descriptions without transmissions"}) H().require(s, 20);
}
// ---- T07
enum If { JS, PO, VE, EF, BP, BV, BE, UNK };
static const char* IFN[] = {"hardware_interface/JointStateInterface", "hardware_interface/PositionJointInterface", "hardware_interface/VelocityJointInterface", "hardware_interface/EffortJointInterface", "hardware_interface/BiDirectionalPositionJointInterface", "hardware_interface/BiDirectionalVelocityJointInterface", "hardware_interface/BiDirectionalEffortJointInterface", "some/UnknownInterface"};
struct Act { double d[8]; bool abs_ = false, tor_ = false, cmd[3] = {true, true, true}, state = true; }; // pos vel eff poscmd velcmd effcmd abs tor
struct Robot { // the robot under test with the model beside it
  std::map<S, Act> acts; hi::ActuatorStateInterface as; hi::PositionActuatorInterface pa; hi::VelocityActuatorInterface va; hi::EffortActuatorInterface ea; hi::RobotHW hw; RobotTransmissions rt; std::unique_ptr<TransmissionInterfaceLoader> loader;
  hi::JointStateInterface own; hi::PositionJointInterface ownPos; std::map<S, std::array<double, 4>> ownVars;
};
struct Loaded { Want w; bool reorderedJ = false, reorderedA = false; VS joints, acts; /*document order*/ std::vector<size_t> jr, ar; /*role index of each*/ bool fwd = false, inv = false, cmd[3] = {}, icmd[3] = {}, abs_ = false, tor_ = false; };
static std::vector<double*>& vec(ActuatorData& d, int q) { switch (q) { case 0: return d.position; case 1: return d.velocity; case 2: return d.effort; case 3: return d.absolute_position; default: return d.torque_sensor; } }
static std::vector<double*>& vec(JointData& d, int q) { switch (q) { case 0: return d.position; case 1: return d.velocity; case 2: return d.effort; case 3: return d.absolute_position; default: return d.torque_sensor; } }
static void mapOne(Transmission& t, bool a2j, int q, const V& in, V& out) {
  V i = in; ActuatorData a; JointData j; auto& vi = a2j ? vec(a, q) : vec(j, q); auto& vo = a2j ? vec(j, q) : vec(a, q); for (double& x : i) vi.push_back(&x); for (double& x : out) vo.push_back(&x);
  if (a2j) switch (q) { case 0: t.actuatorToJointPosition(a, j); break; case 1: t.actuatorToJointVelocity(a, j); break; case 2: t.actuatorToJointEffort(a, j); break; case 3: t.actuatorToJointAbsolutePosition(a, j); break; default: t.actuatorToJointTorqueSensor(a, j); }
  else switch (q) { case 0: t.jointToActuatorPosition(j, a); break; case 1: t.jointToActuatorVelocity(j, a); break; default: t.jointToActuatorEffort(j, a); }
}
typedef std::map<S, std::array<double, 8>> Vars;
static double* rawField(RawJointData& d, int k) { double* f[] = {&d.position, &d.velocity, &d.effort, &d.position_cmd, &d.velocity_cmd, &d.effort_cmd, &d.absolute_position, &d.torque_sensor}; return f[k]; }
// applies one transmission map to the model; byRole: data matched to reductions by role (documented), otherwise by document order
static void apply(const Loaded& l, bool a2j, int q, bool cmd, Vars& av, Vars& jv, bool byRole) {
  int f = q < 3 ? q + (cmd ? 3 : 0) : q + 3; size_t n = l.joints.size(); V in(n), out(n); auto ji = [&](size_t k) { return byRole ? l.jr[k] : k; }; auto ai = [&](size_t k) { return byRole ? l.ar[k] : k; };
  for (size_t k = 0; k < n; ++k) if (a2j) in[ai(k)] = av[l.acts[k]][f]; else in[ji(k)] = jv[l.joints[k]][f];
  mapOne(*build(l.w), a2j, q, in, out);
  for (size_t k = 0; k < n; ++k) if (a2j) jv[l.joints[k]][f] = out[ji(k)]; else av[l.acts[k]][f] = out[ai(k)];
}
enum Prop { P_AJS, P_JAP, P_JAV, P_JAE, P_JAS, P_AJP, P_AJV, P_AJE };
static const char* PN[] = {"ActuatorToJointState", "JointToActuatorPosition", "JointToActuatorVelocity", "JointToActuatorEffort", "JointToActuatorState", "ActuatorToJointPosition", "ActuatorToJointVelocity", "ActuatorToJointEffort"};
static bool applies(const Loaded& l, int p) { switch (p) { case P_AJS: return l.fwd; case P_JAS: return l.inv; case P_JAP: case P_JAV: case P_JAE: return l.cmd[p - P_JAP]; default: return l.icmd[p - P_AJP]; } }
static void applyAll(const Loaded& l, int p, Vars& av, Vars& jv, bool byRole) {
  if (!applies(l, p)) return;
  switch (p) { case P_AJS: for (int q = 0; q < 3; ++q) apply(l, true, q, false, av, jv, byRole); if (l.abs_) apply(l, true, 3, false, av, jv, byRole); if (l.tor_) apply(l, true, 4, false, av, jv, byRole); break; case P_JAS: for (int q = 0; q < 3; ++q) apply(l, false, q, false, av, jv, byRole); break;
    case P_JAP: case P_JAV: case P_JAE: apply(l, false, p - P_JAP, true, av, jv, byRole); break; default: apply(l, true, p - P_AJP, true, av, jv, byRole); }
}
template <class I> bool prop(RobotTransmissions& rt) { auto* i = rt.get<I>(); if (!i) return false; i->propagate(); return true; }
static bool propagate(RobotTransmissions& rt, int p) { switch (p) { case P_AJS: return prop<ActuatorToJointStateInterface>(rt); case P_JAP: return prop<JointToActuatorPositionInterface>(rt); case P_JAV: return prop<JointToActuatorVelocityInterface>(rt); case P_JAE: return prop<JointToActuatorEffortInterface>(rt); case P_JAS: return prop<JointToActuatorStateInterface>(rt); case P_AJP: return prop<ActuatorToJointPositionInterface>(rt); case P_AJV: return prop<ActuatorToJointVelocityInterface>(rt); default: return prop<ActuatorToJointEffortInterface>(rt); } }
static bool same(const std::array<double, 8>& a, const std::array<double, 8>& b, int& k) { for (k = 0; k < 8; ++k) if (!vh::sameBits(a[k], b[k]) && !(std::isnan(a[k]) && std::isnan(b[k]))) return false; return true; }
static bool differ(double a, double b) { return !vh::sameBits(a, b) && !(std::isnan(a) && std::isnan(b)); }
template <class I> bool offers(Robot& rb, const S& j) { I* i = rb.hw.get<I>(); if (!i) return false; VS n = i->getNames(); return std::find(n.begin(), n.end(), j) != n.end(); }
template <class I> hi::JointHandle jh(Robot& rb, const S& j) { return rb.hw.get<I>()->getHandle(j); }
static size_t nfail() { size_t n = H().violations.size(); return n - H().keys.count("role-order"); }
static void T07() {
  H().rule = "distinct = distinct robots: (kinds, interface subsets, role orders, faults and available actuator data of all described transmissions)";
  H().loop("robots", H().cases(12000, 400000), [](Rng& r, long) {
    Robot rb; int nt = r.chance(1) ? r.range(6, 14) : r.range(1, 4); uint64_t h = 7; std::vector<Trans> ts; std::vector<Want> wants; std::vector<std::vector<If>> ifs; std::vector<bool> build_ok, sets_ok, type_ok; VS txt; int aid = 0, jid = 0; bool faulty = r.chance(50), lackCmd = r.chance(30), lackState = r.chance(15), shareName = r.chance(20);
    int ownMode = r.chance(25) ? r.range(1, 3) : 0; // 1: own state interface with other joints 2: also own position joints 3: own state interface already has a described joint
    for (int i = 0; i < nt; ++i) {
      Trans t; S what; int kind = (int)r.below(3); bool f = faulty && r.chance(25); Want w = describe(r, t, kind, f, &what); t.name = "tr" + std::to_string(i); bool ut = faulty && r.chance(12); if (ut) t.type = r.chance(50) ? "no/SuchTransmission" : "SimpleTransmission";
      std::vector<If> x; int n = r.range(1, 3); if (r.chance(10)) n = 5; for (int k = 0; k < n; ++k) { If c = (If)r.below(r.chance(10) ? 8 : 7); if (std::find(x.begin(), x.end(), c) == x.end()) x.push_back(c); } if (faulty && r.chance(8)) x = {UNK};
      bool differ = faulty && t.joints.size() > 1 && r.chance(20); int ord = 0;
      for (auto& j : t.joints) { j.name = "j" + std::to_string(jid++); for (If c : x) j.ifs.push_back(IFN[c]); if (ord++) shuffle(r, j.ifs); } if (differ) { if (r.chance(50) && x.size() > 1) t.joints[1].ifs.pop_back(); else if (r.chance(50)) { auto& v = t.joints[1].ifs; S more = r.pick(VS(IFN, IFN + (sizeof(IFN) / sizeof(*IFN)))); if (r.chance(40) || std::find(v.begin(), v.end(), more) != v.end()) more = "hardware_interface/Other"; v.insert(v.begin() + r.below(v.size() + 1), more); H().count("joints with more interfaces than the first"); } else t.joints[1].ifs[0] = "hardware_interface/Other"; }
      for (auto& a : t.acts) a.name = (shareName ? "j" : "a") + std::to_string(aid++);
      sets_ok.push_back(!differ); type_ok.push_back(!ut); ts.push_back(t); wants.push_back(w); ifs.push_back(x); txt.push_back(write(r, t)); h = vh::mix(h, vh::hashStr(what) + kind * 7 + ut * 3 + differ); for (If c : x) h = vh::mix(h, c);
    }
    for (auto& t : ts) for (auto& a : t.acts) { Act& A = rb.acts[a.name]; for (double& x : A.d) x = r.anyFinite(); A.abs_ = r.chance(50); A.tor_ = r.chance(50); A.state = !(lackState && r.chance(30)); for (bool& c : A.cmd) c = !(lackCmd && r.chance(40)); h = vh::mix(h, A.abs_ + 2 * A.tor_ + 4 * A.state + 8 * A.cmd[0] + 16 * A.cmd[1] + 32 * A.cmd[2]); }
    h = vh::mix(h, ownMode); H().seen(h);
    for (auto& p : rb.acts) { Act& A = p.second; hi::ActuatorStateHandle sh = A.abs_ && A.tor_ ? hi::ActuatorStateHandle(p.first, A.d, A.d + 1, A.d + 2, A.d + 6, A.d + 7) : A.abs_ ? hi::ActuatorStateHandle(p.first, A.d, A.d + 1, A.d + 2, A.d + 6) : A.tor_ ? hi::ActuatorStateHandle(p.first, A.d, A.d + 1, A.d + 2, A.d + 7, true) : hi::ActuatorStateHandle(p.first, A.d, A.d + 1, A.d + 2);
      if (A.state) rb.as.registerHandle(sh); if (A.cmd[0]) rb.pa.registerHandle(hi::ActuatorHandle(sh, A.d + 3)); if (A.cmd[1]) rb.va.registerHandle(hi::ActuatorHandle(sh, A.d + 4)); if (A.cmd[2]) rb.ea.registerHandle(hi::ActuatorHandle(sh, A.d + 5)); }
    bool hasIf[4] = {!(lackState && r.chance(10)), !(lackCmd && r.chance(15)), !(lackCmd && r.chance(15)), !(lackCmd && r.chance(15))};
    if (hasIf[0]) rb.hw.registerInterface(&rb.as); if (hasIf[1]) rb.hw.registerInterface(&rb.pa); if (hasIf[2]) rb.hw.registerInterface(&rb.va); if (hasIf[3]) rb.hw.registerInterface(&rb.ea);
    S ownJoint = ownMode == 3 ? ts[0].joints[0].name : "own_joint"; if (ownMode) { auto& v = rb.ownVars[ownJoint]; v = {{1, 2, 3, 4}}; hi::JointStateHandle sh(ownJoint, &v[0], &v[1], &v[2]); rb.own.registerHandle(sh); rb.hw.registerInterface(&rb.own); if (ownMode == 2) { rb.ownPos.registerHandle(hi::JointHandle(sh, &v[3])); rb.hw.registerInterface(&rb.ownPos); } }
    try { rb.loader.reset(new TransmissionInterfaceLoader(&rb.hw, &rb.rt)); } catch (const std::exception& e) { H().fail("construct", e.what()); return; }
    std::vector<TransmissionInfo> infos; S doc = "<robot>"; for (auto& t : txt) doc += t; doc += "</robot>"; if (!TransmissionParser().parse(doc, infos) || infos.size() != ts.size()) { H().count("robots the parser refused"); return; }
    std::vector<Loaded> loaded; bool sawFail = false; Vars av, jv; S ctx = doc; if (H().samples.size() < 2) H().sample(doc);
    std::vector<S> refusedJoints;
    auto check = [&](const S& when) {
      // the robot offers exactly the joints that were connected, through exactly the interfaces that could be connected
      auto through = [&](const S& j, bool state, const bool* c) { bool g[4] = {offers<hi::JointStateInterface>(rb, j), offers<hi::PositionJointInterface>(rb, j), offers<hi::VelocityJointInterface>(rb, j), offers<hi::EffortJointInterface>(rb, j)}, w[4] = {state, c[0], c[1], c[2]};
        for (int k = 0; k < 4; ++k) if (g[k] != w[k]) H().fail(g[k] ? "offered" : "not-offered", when + ": joint " + j + (g[k] ? " is offered by " : " is not offered by ") + IFN[k] + " in\n" + doc); H().count("joints checked for their interfaces"); };
      static const bool none[3] = {false, false, false}; for (auto& l : loaded) for (auto& j : l.joints) if (!(ownMode == 3 && j == ownJoint)) through(j, true, l.cmd); for (auto& j : refusedJoints) through(j, false, none);
      auto& data = *rb.loader->getData(); // fresh values everywhere
      for (int round = 0; round < 2; ++round) for (int p = 0; p < 8; ++p) {
        for (auto& a : rb.acts) for (double& x : a.second.d) if (r.chance(70)) x = r.anyFinite();
        for (auto& l : loaded) for (auto& j : l.joints) { auto it = data.raw_joint_data_map.find(j); if (it == data.raw_joint_data_map.end()) { H().fail("raw", when + ": no joint data for " + j + " in\n" + doc); return; } for (int k = 0; k < 8; ++k) if (r.chance(70)) *rawField(it->second, k) = r.anyFinite(); }
        // joint commands through the robot's joint interfaces
        for (auto& l : loaded) for (auto& j : l.joints) { auto& raw = data.raw_joint_data_map[j]; double v = r.anyFinite();
          try { for (int q = 0; q < 3; ++q) if (l.cmd[q] && r.chance(60)) { hi::JointHandle hd = q == 0 ? jh<hi::PositionJointInterface>(rb, j) : q == 1 ? jh<hi::VelocityJointInterface>(rb, j) : jh<hi::EffortJointInterface>(rb, j); hd.setCommand(v); if (!vh::sameBits(*rawField(raw, 3 + q), v)) H().fail("command", when + ": a command to joint " + j + " is not in the joint's raw data, in\n" + doc); if (!(ownMode == 3 && j == ownJoint) && (differ(hd.getPosition(), raw.position) || differ(hd.getVelocity(), raw.velocity) || differ(hd.getEffort(), raw.effort))) H().fail("state", when + ": the state of command handle " + j + " is not the joint's state, in\n" + doc); H().count("commands through joint handles"); } } catch (const std::exception& e) { H().fail("no-handle", when + ": " + e.what() + " in\n" + doc); return; } }
        av.clear(); jv.clear(); for (auto& a : rb.acts) for (int k = 0; k < 8; ++k) av[a.first][k] = a.second.d[k]; for (auto& x : data.raw_joint_data_map) for (int k = 0; k < 8; ++k) jv[x.first][k] = *rawField(x.second, k);
        Vars av2 = av, jv2 = jv; bool any = false, re = false; for (auto& l : loaded) { any |= applies(l, p); if (applies(l, p)) { re |= l.reorderedJ || l.reorderedA; applyAll(l, p, av, jv, true); applyAll(l, p, av2, jv2, false); } }
        bool did = propagate(rb.rt, p); if (any && !did) { H().fail("no-interface", when + ": " + PN[p] + " is not offered, in\n" + doc); return; } if (any) { H().count(S("propagations of ") + PN[p]); if (loaded.size() > 1) H().count("propagations over several transmissions"); }
        auto cmp = [&](const Vars& a, const Vars& j, S& e) { int k; for (auto& x : rb.acts) { std::array<double, 8> g; for (int i = 0; i < 8; ++i) g[i] = x.second.d[i]; auto w = a.at(x.first); if (!same(w, g, k)) { e = "actuator " + x.first + " variable " + std::to_string(k) + " is " + vh::num(g[k]) + " instead of " + vh::num(w[k]); return false; } }
          for (auto& x : data.raw_joint_data_map) { std::array<double, 8> g; for (int i = 0; i < 8; ++i) g[i] = *rawField(x.second, i); auto w = j.at(x.first); if (!same(w, g, k)) { e = "joint " + x.first + " variable " + std::to_string(k) + " is " + vh::num(g[k]) + " instead of " + vh::num(w[k]); return false; } } return true; };
        S e, e2; if (!cmp(av, jv, e)) { if (re && cmp(av2, jv2, e2)) { H().fail("role-order", "a differential or four-bar transmission whose joints or actuators are not listed in role order is connected to the wrong joints or actuators: after " + S(PN[p]) + " propagation " + e + " in\n" + doc); continue; } H().fail("propagate:" + S(PN[p]), when + ": after " + PN[p] + " propagation " + e + " in\n" + doc); return; }
        for (auto& l : loaded) for (auto& j : l.joints) if (!(ownMode == 3 && j == ownJoint)) try { auto hd = rb.hw.get<hi::JointStateInterface>()->getHandle(j); auto& raw = data.raw_joint_data_map[j]; int k; std::array<double, 8> a = {{hd.getPosition(), hd.getVelocity(), hd.getEffort(), 0, 0, 0, 0, 0}}, b = {{raw.position, raw.velocity, raw.effort, 0, 0, 0, 0, 0}}; if (!same(a, b, k)) H().fail("state-handle", when + ": the joint state handle of " + j + " does not read the joint's state, in\n" + doc); H().count("joint states read"); } catch (const std::exception& e) { H().fail("no-state", when + ": " + e.what() + " in\n" + doc); return; }
      }
    };
    bool viaText = ownMode != 3 && r.chance(30), allOk = true; std::vector<size_t> todo; for (size_t i = 0; i < ts.size(); ++i) todo.push_back(i); std::vector<Loaded> news; std::vector<bool> oks;
    for (size_t i : todo) {
      Loaded l; l.w = wants[i]; for (size_t k = 0; k < ts[i].joints.size(); ++k) { l.joints.push_back(ts[i].joints[k].name); size_t ro = ts[i].joints.size() == 2 && ts[i].joints[k].role == "joint2" ? 1 : 0; l.jr.push_back(ro); if (ro != k) l.reorderedJ = true; } for (size_t k = 0; k < ts[i].acts.size(); ++k) { l.acts.push_back(ts[i].acts[k].name); size_t ro = ts[i].acts.size() == 2 && ts[i].acts[k].role == "actuator2" ? 1 : 0; l.ar.push_back(ro); if (ro != k) l.reorderedA = true; }
      bool ok = wants[i].ok && type_ok[i] && sets_ok[i], one = false; bool st = hasIf[0], c[3]; for (auto& a : l.acts) st &= rb.acts[a].state; for (int q = 0; q < 3; ++q) { c[q] = hasIf[1 + q]; for (auto& a : l.acts) c[q] &= rb.acts[a].cmd[q]; }
      l.abs_ = l.tor_ = true; for (auto& a : l.acts) { l.abs_ &= rb.acts[a].abs_; l.tor_ &= rb.acts[a].tor_; }
      bool ownHit = ownMode == 3 && std::find(l.joints.begin(), l.joints.end(), ownJoint) != l.joints.end();
      if (ok) for (If f : ifs[i]) { if (f == UNK) { H().count("unknown interfaces"); continue; } int q = f == JS ? -1 : (f - PO) % 3; if (!st || (q >= 0 && !c[q])) { H().count("interfaces with unavailable actuators"); continue; } one = true; l.fwd = true; if (q >= 0) { l.cmd[q] = true; if (f >= BP) { l.inv = true; l.icmd[q] = true; } } }
      ok &= one; (void)ownHit;
      oks.push_back(ok); news.push_back(l);
    }
    if (viaText) { // whole description at once: fails iff some transmission fails; those before it are loaded
      bool got = false, own = ownMode == 3; for (bool o : oks) allOk &= o; try { got = rb.loader->load(doc); } catch (const std::exception& e) { H().fail(ownMode ? "throw-own-joints" : "throw", S("load() threw ") + e.what() + " for\n" + doc); return; }
      (void)own; if (got != allOk) { H().fail(allOk ? "refused" : "accepted", S("load() of a whole description returned ") + (got ? "true" : "false") + " for\n" + doc); return; } H().count(allOk ? "whole descriptions loaded" : "whole descriptions refused");
      for (size_t i = 0; i < oks.size() && (oks[i]); ++i) loaded.push_back(news[i]); if (loaded.size() < oks.size()) refusedJoints = news[loaded.size()].joints; check("after loading the description");
    } else for (size_t i = 0; i < oks.size() && nfail() == 0; ++i) {
      bool got = false; bool ownHit = ownMode == 3 && std::find(news[i].joints.begin(), news[i].joints.end(), ownJoint) != news[i].joints.end(); try { got = rb.loader->load(infos[i]); } catch (const std::exception& e) { H().fail(ownMode ? "throw-own-joints" : "throw", S("load() threw ") + e.what() + " for transmission " + std::to_string(i) + " of\n" + doc); return; }
      if (!ownHit && got != oks[i]) { H().fail(oks[i] ? "refused" : "accepted", "transmission " + std::to_string(i) + (oks[i] ? " was refused in\n" : " was accepted in\n") + doc); return; }
      if (ownHit && got != oks[i]) { H().count("transmissions of own joints refused"); return; } // the robot supplies that joint's state itself: only robustness is required
      H().count(oks[i] ? "transmissions loaded" : "transmissions refused"); if (oks[i]) loaded.push_back(news[i]); else { sawFail = true; if (!ownHit) refusedJoints.insert(refusedJoints.end(), news[i].joints.begin(), news[i].joints.end()); } check("after transmission " + std::to_string(i)); if (sawFail && !loaded.empty()) H().count("checks of earlier transmissions after a failure");
    }
    if (r.chance(20)) { // descriptions without anything to load
      S txt = r.pick(VS{"", "<robot/>", "<robot></robot>", "<robot><joint name=\"x\"/></robot>", "<robot>", "no robot", "<robot><transmission/></robot>", "<robot><transmission name=\"x\"></transmission></robot>", "<robot><link name=\"a\"/><transmissions/></robot>"});
      try { if (rb.loader->load(txt)) H().fail("accepted", "load() reports success for a description without transmissions: " + txt); } catch (const std::exception& e) { H().fail("throw", S("load() threw ") + e.what() + " for " + txt); } H().count("descriptions without transmissions"); if (!loaded.empty()) check("after loading an empty description");
    }
    if (ownMode) { H().count("robots with own joints"); auto& v = rb.ownVars[ownJoint]; if (v[0] != 1 || v[1] != 2 || v[2] != 3 || (v[3] != 4)) H().fail("own-joint", "a variable of a joint the robot provides itself changed, in\n" + doc); }
  });
  for (auto s : {"transmissions loaded", "transmissions refused", "whole descriptions loaded", "whole descriptions refused", "unknown interfaces", "interfaces with unavailable actuators", "commands through joint handles", "joint states read", "propagations over several transmissions", "checks of earlier transmissions after a failure", "joints checked for their interfaces", "descriptions without transmissions", "robots with own joints"}) H().require(s, 20);
  for (auto p : PN) H().require(S("propagations of ") + p, 20);
}
int main(int argc, char** argv) {
  H().args(argc, argv);
  if (H().prop == "T05") T05(); else if (H().prop == "T06") T06(); else if (H().prop == "T07") T07(); else { fprintf(stderr, "HARNESS-ERROR: unknown property\n"); return 3; }
  return H().finish();
}
