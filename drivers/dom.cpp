// DOM op-script interpreter: executes operation histories on the real DOM and logs results and
// everything observable about every known node.
#ifndef STR
#define STR std::string
#endif
#include "vdrv.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/DocumentFragment.hpp>
#include <DOM/DocumentType.hpp>
#include <DOM/Entity.hpp>
#include <DOM/Notation.hpp>
#include <DOM/EntityReference.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/io/Stream.hpp>
#include <map>
#include <memory>
#include <algorithm>
using namespace Arabica;
typedef STR S;
typedef vdrv::Str<S> V;
typedef DOM::Node<S> N; typedef DOM::Document<S> Doc; typedef DOM::Element<S> El; typedef DOM::Attr<S> At;
typedef DOM::NodeList<S> NL; typedef DOM::NamedNodeMap<S> NM; typedef DOM::Text<S> Tx; typedef DOM::CharacterData<S> CD;
typedef DOM::DocumentType<S> DT;
typedef DOM::Traversal::TreeWalker<S> TW;

struct Interp {
  std::map<int, N> reg;                 // live handles
  std::map<DOM::Node_impl<S, default_string_adaptor<S>>*, int> id; // identity of every known node
  std::map<int, NL> lists;
  std::map<int, NM> maps;
  std::map<int, TW> walkers;
  std::map<int, std::string> last;      // last dump of each node
  struct F : DOM::Traversal::NodeFilter<S> {
    Interp* in; int mod; std::vector<char> res;
    Result acceptNode(const N& n) const { int i = in->idOf(n); char c = i < 0 ? 'A' : res[i % mod];
      if(in->filterThrows && i >= 0 && i == in->filterThrows) throw std::runtime_error("filter");
      return c=='R' ? FILTER_REJECT : c=='S' ? FILTER_SKIP : FILTER_ACCEPT; }
  };
  std::map<int, std::unique_ptr<F>> filters;
  int filterThrows = 0;
  bool autodump = true;
  bool sawUnknown = false;

  int idOf(const N& n) { if(!(bool)n) return -1; auto i = id.find(n.underlying_impl()); if(i == id.end()) { return -2; } return i->second; }
  std::string nm(const N& n) { int i = idOf(n); if(i == -1) return "-"; if(i == -2) { sawUnknown = true; return "?" + vdrv::num(n.getNodeType()); } return vdrv::num(i); }
  N& r(const std::string& s) { static thread_local N nul; if(s == "-") { nul = N(); return nul; }
    auto i = reg.find(atoi(s.c_str())); if(i == reg.end()) { std::cerr << "HARNESS bad register " << s << "\n"; vdrv::flush(); _exit(98); } return i->second; }
  void put(const std::string& s, const N& n) { int i = atoi(s.c_str()); reg[i] = n; id[n.underlying_impl()] = i; }
  static S i(const std::string& s) { return V::in(s); }
  static std::string o(const S& s) { return V::out(s); }

  std::vector<N> attrsSorted(const NM& m) {
    std::vector<N> a; unsigned n = m.getLength();
    for(unsigned k = 0; k < n; ++k) a.push_back(m.item(k));
    std::sort(a.begin(), a.end(), [](const N& x, const N& y) { return o(x.getNodeName()) < o(y.getNodeName()); });
    return a;
  }
  void regTree(const N& n, int& next, int& count) {
    if(idOf(n) == -2) { id[n.underlying_impl()] = next; reg[next] = n; ++next; ++count; }
    if(n.getNodeType() == N::ELEMENT_NODE) for(auto& a : attrsSorted(n.getAttributes())) regTree(a, next, count);
    if(n.getNodeType() == N::DOCUMENT_TYPE_NODE) { DT d(n);
      for(auto& a : attrsSorted(d.getEntities())) regTree(a, next, count);
      for(auto& a : attrsSorted(d.getNotations())) regTree(a, next, count); }
    for(N c = n.getFirstChild(); (bool)c; c = c.getNextSibling()) regTree(c, next, count);
  }
  std::string dumpNode(const N& n) {
    std::string s; int t = n.getNodeType();
    auto add = [&](const std::string& x) { s += '\x01'; s += x; };
    s += vdrv::num(t); add(o(n.getNodeName())); add(o(n.getNodeValue()));
    add(n.hasNamespaceURI() ? "{" + o(n.getNamespaceURI()) + "}" : o(n.getNamespaceURI()));
    add(o(n.getPrefix())); add(o(n.getLocalName()));
    add(nm(n.getParentNode())); add(nm(n.getPreviousSibling())); add(nm(n.getNextSibling()));
    add(nm(n.getFirstChild())); add(nm(n.getLastChild()));
    std::string k; NL cn = n.getChildNodes(); unsigned len = cn.getLength();
    for(unsigned j = 0; j < len; ++j) { if(j) k += ','; k += nm(cn.item(j)); }
    if(len) { if((bool)cn.item(len)) k += "!OVER"; }
    if(n.hasChildNodes() != (len > 0)) k += "!HASCHILD";
    std::string w; for(N c = n.getLastChild(); (bool)c; c = c.getPreviousSibling()) { w = nm(c) + (w.empty() ? "" : ",") + w; if(w.size() > 4000) break; }
    if(w != k) k += "!BACKWARD[" + w + "]";
    add(k);
    std::string a;
    if(t == N::ELEMENT_NODE) {
      NM m = n.getAttributes(); unsigned ml = m.getLength(); std::vector<std::string> v;
      for(unsigned j = 0; j < ml; ++j) v.push_back(nm(m.item(j)));
      std::sort(v.begin(), v.end(), [](const std::string& x, const std::string& y) { return atoi(x.c_str()) < atoi(y.c_str()); });
      for(auto& x : v) a += (a.empty() ? "" : ",") + x;
      if((bool)m.item(ml)) a += "!OVER";
      if(n.hasAttributes() != (ml > 0)) a += "!HASATTR";
      El e(n); if(e.getTagName() != n.getNodeName()) a += "!TAG";
    } else if(n.hasAttributes()) a += "!HASATTR";
    add(a);
    add(nm(n.getOwnerDocument()));
    std::string x;
    if(t == N::ATTRIBUTE_NODE) { At at(n); x = nm(at.getOwnerElement()) + (at.getSpecified() ? "S" : "d") +
        (at.getValue() == n.getNodeValue() ? "" : "!VALUE") + (at.getName() == n.getNodeName() ? "" : "!NAME"); }
    else if(t == N::DOCUMENT_NODE) { Doc d(n); x = nm(d.getDocumentElement()) + "/" + nm(d.getDoctype()); }
    else if(t == N::DOCUMENT_TYPE_NODE) { DT d(n); x = o(d.getName()) + "\x02" + o(d.getPublicId()) + "\x02" + o(d.getSystemId()) + "\x02";
      for(auto& q : attrsSorted(d.getEntities())) x += nm(q) + ","; x += "\x02"; for(auto& q : attrsSorted(d.getNotations())) x += nm(q) + ","; }
    else if(t == N::ENTITY_NODE) { DOM::Entity<S> e(n); x = o(e.getPublicId()) + "\x02" + o(e.getSystemId()) + "\x02" + o(e.getNotationName()); }
    else if(t == N::NOTATION_NODE) { DOM::Notation<S> e(n); x = o(e.getPublicId()) + "\x02" + o(e.getSystemId()); }
    else if(t == N::TEXT_NODE || t == N::CDATA_SECTION_NODE) { CD c(n);
      x = vdrv::num(c.getLength()) + (c.getData() == n.getNodeValue() ? "" : "!DATA"); }
    else if(t == N::COMMENT_NODE) { DOM::Comment<S> c(n); x = vdrv::num(c.getLength()) + (c.getData() == n.getNodeValue() ? "" : "!DATA"); }
    else if(t == N::PROCESSING_INSTRUCTION_NODE) { DOM::ProcessingInstruction<S> c(n); x = o(c.getTarget()) + "\x02" + o(c.getData()); }
    add(x);
    return s;
  }
  void dump() {
    for(auto& p : reg) {
      if(!(bool)p.second) continue;
      auto ii = id.find(p.second.underlying_impl()); if(ii == id.end() || ii->second != p.first) continue;
      std::string s = dumpNode(p.second); std::string& l = last[p.first];
      if(l != s) { l = s; vdrv::out({"D", vdrv::num(p.first), s}); }
    }
  }
  std::string all(const NL& l) { std::string s; unsigned n = l.getLength(); for(unsigned k = 0; k < n; ++k) s += (k ? "," : "") + nm(l.item(k));
    if((bool)l.item(n) || (bool)l.item(n + 7)) s += "!OVER"; return s; }

  Doc parse(const std::string& xml, std::string& err) {
    SAX2DOM::Parser<S> p; SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh);
    std::stringstream ss(xml); SAX::InputSource<S> is(ss);
    bool ok = p.parse(is);
    if(eh.errorsReported()) { err = eh.errors(); }
    if(!ok) err += "/parse returned false";
    return ok ? p.getDocument() : Doc();
  }
  struct Resolve : SAX::EntityResolver<S> { std::map<std::string, std::string> docs;
    SAX::InputSource<S> resolveEntity(const S& p, const S& s) override { auto d = docs.find(o(s)); if(d == docs.end()) return SAX::InputSource<S>();
      SAX::InputSource<S> src; src.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(d->second))); src.setPublicId(p); src.setSystemId(s); return src; } };
  Resolve res; SAX::CatchErrorHandler<S> eh; std::unique_ptr<SAX2DOM::Parser<S>> px;
  // the whole infoset below a node: items separated by \x02, fields by \x01
  std::string tree(const N& n) {
    int t = n.getNodeType(); std::string s = vdrv::num(t);
    auto add = [&](const std::string& x) { s += '\x01'; s += x; };
    add(o(n.getNamespaceURI())); add(o(n.getLocalName())); add(o(n.getNodeName())); add(o(n.getNodeValue()));
    if(t == N::ELEMENT_NODE) for(auto& a : attrsSorted(n.getAttributes())) { add(o(a.getNamespaceURI())); add(o(a.getLocalName())); add(o(a.getNodeName())); add(o(a.getNodeValue())); }
    if(t == N::DOCUMENT_TYPE_NODE) { DT d(n); add(o(d.getPublicId())); add(o(d.getSystemId()));
      for(auto& q : attrsSorted(d.getEntities())) { DOM::Entity<S> e(q); add("E"); add(o(q.getNodeName())); add(o(e.getPublicId())); add(o(e.getSystemId())); add(o(e.getNotationName()));
        std::string k; for(N c = q.getFirstChild(); (bool)c; c = c.getNextSibling()) k += c.getNodeType() == N::TEXT_NODE ? o(c.getNodeValue()) : "\x03"; add(k); }
      for(auto& q : attrsSorted(d.getNotations())) { DOM::Notation<S> e(q); add("N"); add(o(q.getNodeName())); add(o(e.getPublicId())); add(o(e.getSystemId())); add(""); add(""); } }
    s += '\x02';
    for(N c = n.getFirstChild(); (bool)c; c = c.getNextSibling()) s += tree(c);
    if(t == N::ELEMENT_NODE || t == N::DOCUMENT_NODE || t == N::DOCUMENT_FRAGMENT_NODE) s += "end\x02";
    return s; }
  CD cd(const N& n) { if(n.getNodeType() == N::COMMENT_NODE) return DOM::Comment<S>(n); return CD(n); }

  std::string op(const Line& f) {
    const std::string& c = f[0];
    auto a = [&](size_t k) -> std::string { return k < f.size() ? f[k] : std::string(); };
    auto I = [&](size_t k) { return atoi(a(k).c_str()); };
    if(c == "newdoc") { DOM::DOMImplementation<S> di = SimpleDOM::DOMImplementation<S>::getDOMImplementation();
      DT dt; if(a(4) != "-") dt = DT(r(a(4)));
      Doc d = (a(4) != "-") ? di.createDocument(i(a(2)), i(a(3)), dt) : di.createDocument(i(a(2)), i(a(3)), DT()); put(a(1), d); return "ok"; }
    if(c == "newdt") { DT d = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocumentType(i(a(2)), i(a(3)), i(a(4))); put(a(1), d); return "ok"; }
    if(c == "parse") { std::string err; Doc d = parse(a(2), err); if(!err.empty() || !(bool)d) return "E " + err; put(a(1), d); return "ok"; }
    if(c == "regall") { int nx = I(2), cnt = 0; regTree(r(a(1)), nx, cnt); return vdrv::num(cnt); }
    if(c == "sync") { int nx = I(1), cnt = 0; std::vector<N> v; for(auto& p : reg) v.push_back(p.second);
      for(auto& n : v) if((bool)n) regTree(n, nx, cnt); return vdrv::num(cnt); }
    if(c == "ce") { put(a(1), Doc(r(a(2))).createElement(i(a(3)))); return "ok"; }
    if(c == "cens") { put(a(1), Doc(r(a(2))).createElementNS(i(a(3)), i(a(4)))); return "ok"; }
    if(c == "ct") { put(a(1), Doc(r(a(2))).createTextNode(i(a(3)))); return "ok"; }
    if(c == "cc") { put(a(1), Doc(r(a(2))).createComment(i(a(3)))); return "ok"; }
    if(c == "cd") { put(a(1), Doc(r(a(2))).createCDATASection(i(a(3)))); return "ok"; }
    if(c == "cpi") { put(a(1), Doc(r(a(2))).createProcessingInstruction(i(a(3)), i(a(4)))); return "ok"; }
    if(c == "ca") { put(a(1), Doc(r(a(2))).createAttribute(i(a(3)))); return "ok"; }
    if(c == "cans") { put(a(1), Doc(r(a(2))).createAttributeNS(i(a(3)), i(a(4)))); return "ok"; }
    if(c == "cf") { put(a(1), Doc(r(a(2))).createDocumentFragment()); return "ok"; }
    if(c == "cer") { put(a(1), Doc(r(a(2))).createEntityReference(i(a(3)))); return "ok"; }
    if(c == "ins") return nm(r(a(1)).insertBefore(N(r(a(2))), N(r(a(3)))));
    if(c == "app") return nm(r(a(1)).appendChild(N(r(a(2)))));
    if(c == "rep") return nm(r(a(1)).replaceChild(N(r(a(2))), N(r(a(3)))));
    if(c == "rem") return nm(r(a(1)).removeChild(N(r(a(2)))));
    if(c == "clone") { put(a(1), r(a(2)).cloneNode(I(3))); return "ok"; }
    if(c == "import") { put(a(1), Doc(r(a(2))).importNode(r(a(3)), I(4))); return "ok"; }
    if(c == "norm") { r(a(1)).normalize(); return "ok"; }
    if(c == "setval") { r(a(1)).setNodeValue(i(a(2))); return "ok"; }
    if(c == "prefix") { r(a(1)).setPrefix(i(a(2))); return "ok"; }
    // attributes
    if(c == "ga") return "'" + o(El(r(a(1))).getAttribute(i(a(2))));
    if(c == "sa") { El(r(a(1))).setAttribute(i(a(2)), i(a(3))); return "ok"; }
    if(c == "ra") { El(r(a(1))).removeAttribute(i(a(2))); return "ok"; }
    if(c == "ha") return El(r(a(1))).hasAttribute(i(a(2))) ? "1" : "0";
    if(c == "gan") return nm(El(r(a(1))).getAttributeNode(i(a(2))));
    if(c == "san") return nm(El(r(a(1))).setAttributeNode(At(r(a(2)))));
    if(c == "ran") return nm(El(r(a(1))).removeAttributeNode(At(r(a(2)))));
    if(c == "gans") return "'" + o(El(r(a(1))).getAttributeNS(i(a(2)), i(a(3))));
    if(c == "sans") { El(r(a(1))).setAttributeNS(i(a(2)), i(a(3)), i(a(4))); return "ok"; }
    if(c == "rans") { El(r(a(1))).removeAttributeNS(i(a(2)), i(a(3))); return "ok"; }
    if(c == "hans") return El(r(a(1))).hasAttributeNS(i(a(2)), i(a(3))) ? "1" : "0";
    if(c == "ganns") return nm(El(r(a(1))).getAttributeNodeNS(i(a(2)), i(a(3))));
    if(c == "sanns") return nm(El(r(a(1))).setAttributeNodeNS(At(r(a(2)))));
    if(c == "attrs") { std::string s; auto m = r(a(1)).getAttributes(); std::vector<std::string> v;
      for(unsigned k = 0; k < m.getLength(); ++k) { At t(m.item(k)); v.push_back(o(t.getName()) + "\x01" + o(t.getValue()) + "\x01" + (t.getSpecified() ? "S" : "d") + "\x01" +
        o(t.getNamespaceURI()) + "\x01" + o(t.getLocalName()) + "\x01" + (t.getOwnerElement() == El(r(a(1))) ? "" : "!OWNER")); }
      std::sort(v.begin(), v.end()); for(auto& x : v) s += x + "\x02"; return "'" + s; }
    if(c == "attrset") { El(r(a(1))).getAttributeNode(i(a(2))).setValue(i(a(3))); return "ok"; }
    if(c == "attrrem") { El e(r(a(1))); e.removeAttributeNode(e.getAttributeNode(i(a(2)))); return "ok"; }
    if(c == "attrclone") { At t = At(El(r(a(1))).getAttributeNode(i(a(2))).cloneNode(I(3))); return o(t.getName()) + "=" + o(t.getValue()) + (t.getSpecified() ? "S" : "d") + ((bool)t.getOwnerElement() ? "!OWNED" : ""); }
    if(c == "attrimport") { At t = At(Doc(r(a(4))).importNode(El(r(a(1))).getAttributeNode(i(a(2))), I(3))); return o(t.getName()) + "=" + o(t.getValue()) + (t.getSpecified() ? "S" : "d") + ((bool)t.getOwnerElement() ? "!OWNED" : ""); }
    if(c == "kid") { N n = r(a(2)).getFirstChild(); for(int k = I(3); k > 0; --k) n = n.getNextSibling(); put(a(1), n); return o(n.getNodeName()); }
    if(c == "setattrval") { At(r(a(1))).setValue(i(a(2))); return "ok"; }
    if(c == "map") { maps[I(1)] = r(a(2)).getAttributes(); return "ok"; }
    if(c == "emap") { maps[I(1)] = DT(r(a(2))).getEntities(); return "ok"; }
    if(c == "nmap") { maps[I(1)] = DT(r(a(2))).getNotations(); return "ok"; }
    if(c == "mget") return nm(maps[I(1)].getNamedItem(i(a(2))));
    if(c == "mset") return nm(maps[I(1)].setNamedItem(r(a(2))));
    if(c == "mrem") return nm(maps[I(1)].removeNamedItem(i(a(2))));
    if(c == "mgetns") return nm(maps[I(1)].getNamedItemNS(i(a(2)), i(a(3))));
    if(c == "msetns") return nm(maps[I(1)].setNamedItemNS(r(a(2))));
    if(c == "mremns") return nm(maps[I(1)].removeNamedItemNS(i(a(2)), i(a(3))));
    if(c == "mall") { NM& m = maps[I(1)]; unsigned n = m.getLength(); std::vector<int> v; for(unsigned k = 0; k < n; ++k) v.push_back(idOf(m.item(k)));
      std::sort(v.begin(), v.end()); std::string s; for(int x : v) s += vdrv::num(x) + ","; if((bool)m.item(n)) s += "!OVER"; return s; }
    // character data
    if(c == "sub") return "'" + o(cd(r(a(1))).substringData(I(2), I(3)));
    if(c == "appd") { cd(r(a(1))).appendData(i(a(2))); return "ok"; }
    if(c == "insd") { cd(r(a(1))).insertData(I(2), i(a(3))); return "ok"; }
    if(c == "deld") { cd(r(a(1))).deleteData(I(2), I(3)); return "ok"; }
    if(c == "repd") { cd(r(a(1))).replaceData(I(2), I(3), i(a(4))); return "ok"; }
    if(c == "setd") { cd(r(a(1))).setData(i(a(2))); return "ok"; }
    if(c == "split") { put(a(1), Tx(r(a(2))).splitText(I(3))); return "ok"; }
    if(c == "pidata") { DOM::ProcessingInstruction<S>(r(a(1))).setData(i(a(2))); return "ok"; }
    // lists
    if(c == "gbt") { N& n = r(a(2)); lists[I(1)] = n.getNodeType() == N::DOCUMENT_NODE ? Doc(n).getElementsByTagName(i(a(3))) : El(n).getElementsByTagName(i(a(3))); return "ok"; }
    if(c == "gbtns") { N& n = r(a(2)); lists[I(1)] = n.getNodeType() == N::DOCUMENT_NODE ? Doc(n).getElementsByTagNameNS(i(a(3)), i(a(4))) : El(n).getElementsByTagNameNS(i(a(3)), i(a(4))); return "ok"; }
    if(c == "cn") { lists[I(1)] = r(a(2)).getChildNodes(); return "ok"; }
    if(c == "li") { return nm(lists[I(1)].item(I(2))); }
    if(c == "lireg") { N n = lists[I(1)].item(I(2)); int k = idOf(n); if(k >= 0) reg[k] = n; return nm(n); }
    if(c == "mireg") { N n = maps[I(1)].getNamedItem(i(a(2))); int k = idOf(n); if(k >= 0) reg[k] = n; return nm(n); }
    if(c == "ll") { return vdrv::num(lists[I(1)].getLength()); }
    if(c == "lall") { return all(lists[I(1)]); }
    if(c == "lassign") { lists[I(1)] = lists[I(2)]; return "ok"; }
    if(c == "ldrop") { lists.erase(I(1)); return "ok"; }
    if(c == "mdrop") { maps.erase(I(1)); return "ok"; }
    if(c == "byid") return nm(Doc(r(a(1))).getElementById(i(a(2))));
    // handles
    if(c == "drop") { reg.erase(I(1)); return "ok"; }
    if(c == "assign") { reg[I(1)] = reg[I(2)]; return "ok"; }      // both registers hold the same node afterwards
    if(c == "swap") { std::swap(reg[I(1)], reg[I(2)]); return "ok"; }
    if(c == "selfassign") { N& n = r(a(1)); N& m = r(a(1)); n = m; return nm(n); }
    if(c == "rehandle") { int cnt = 0; int nx = 0; // re-acquire handles to every known node reachable from one surviving handle
      N n = r(a(1)); if((bool)n.getOwnerDocument()) n = n.getOwnerDocument(); rehandle(n, cnt); (void)nx; return vdrv::num(cnt); }
    if(c == "forget") { for(size_t k = 1; k < f.size(); ++k) { int x = I(k); reg.erase(x); last.erase(x); for(auto it = id.begin(); it != id.end();) if(it->second == x) it = id.erase(it); else ++it; } return "ok"; }
    if(c == "purge") { int pid = I(2); N ch = r(a(2)); std::vector<int> known; subIds(ch, known); reg.erase(pid);
      std::map<int, N> keep; for(int x : known) { auto it = reg.find(x); if(it != reg.end()) { keep[x] = it->second; reg.erase(it); } }
      keep.clear();
      try { r(a(1)).purgeChild(ch); } catch(...) { reg[pid] = ch; throw; }
      for(int x : known) { last.erase(x); for(auto it = id.begin(); it != id.end();) if(it->second == x) it = id.erase(it); else ++it; }
      return (bool)ch ? "kept" : "ok"; }
    // tree walker
    if(c == "tw") { Doc d(r(a(2))); int k = I(1); walkers.erase(k); filters.erase(k);
      auto tr = d.createDocumentTraversal(); unsigned long w = strtoul(a(4).c_str(), 0, 10);
      if(a(5).empty()) walkers[k] = tr.createTreeWalker(N(r(a(3))), w, I(6));
      else { std::unique_ptr<F> ff(new F); ff->in = this; ff->mod = a(5).size(); for(char q : a(5)) ff->res.push_back(q);
        filters[k] = std::move(ff); walkers[k] = tr.createTreeWalker(N(r(a(3))), w, *filters[k], I(6)); }
      return nm(walkers[k].getRoot()) + "/" + nm(walkers[k].getCurrentNode()) + "/" + vdrv::num(walkers[k].getWhatToShow()); }
    if(c == "tset") { walkers[I(1)].setCurrentNode(r(a(2))); return nm(walkers[I(1)].getCurrentNode()); }
    if(c == "tcopy") { TW t2 = walkers[I(1)]; TW t3; t3 = t2; return nm(t3.getCurrentNode()); }
    if(c == "tdrop") { walkers.erase(I(1)); return "ok"; }
    if(c == "fthrow") { filterThrows = I(1); return "ok"; }
    if(c[0] == 'w' && c.size() == 2) { TW& t = walkers[I(1)]; N n;
      switch(c[1]) { case 'p': n = t.parentNode(); break; case 'f': n = t.firstChild(); break; case 'l': n = t.lastChild(); break;
        case 'b': n = t.previousSibling(); break; case 's': n = t.nextSibling(); break; case '-': n = t.previousNode(); break; case '+': n = t.nextNode(); break; }
      return nm(n) + "@" + nm(t.getCurrentNode()); }
    // serialisation
    if(c == "ser") { std::basic_ostringstream<Arabica::default_string_adaptor<S>::value_type> os; os << r(a(1)); return "'" + V::out(os.str()); }
    if(c == "reparse") { // serialise and parse back into register a(2)
      std::basic_ostringstream<Arabica::default_string_adaptor<S>::value_type> os; os << r(a(1)); std::string x = V::out(os.str());
      std::string err; Doc d = parse(x, err); vdrv::out({"X", x}); if(!err.empty() || !(bool)d) { reg[atoi(a(2).c_str())] = N(); return "E " + err; } put(a(2), d); return "ok"; }
    if(c == "tree") return (bool)r(a(1)) ? "'" + tree(r(a(1))) : std::string("none");
    if(c == "parsex") { // parse reg ge xml [sys xml]... with a parser (and resolver) used again and again
      res.docs.clear(); for(size_t k = 4; k + 1 < f.size(); k += 2) res.docs[f[k]] = f[k+1];
      if(!px) { px.reset(new SAX2DOM::Parser<S>); px->setErrorHandler(eh); px->setEntityResolver(res); }
      SAX::FeatureNames<S> fn; px->setFeature(fn.external_general, a(2) == "1");
      eh.reset(); std::stringstream ss(a(3)); SAX::InputSource<S> is(ss); is.setSystemId(i("http://base/doc.xml"));
      bool ok = px->parse(is);
      std::string e = eh.errorsReported() ? std::string(eh.errors()) : std::string();
      Doc d; if(ok) d = px->getDocument(); else if((bool)px->getDocument()) e += "/document after failure";
      if(!ok) return "E " + e; if(!e.empty()) return "E?" + e; put(a(1), d); return "ok"; }
    if(c == "isdoc") return vdrv::num(r(a(1)).isSupported(i(a(2)), i(a(3))));
    std::cerr << "HARNESS unknown op " << c << "\n"; vdrv::flush(); _exit(98);
  }
  void subIds(const N& n, std::vector<int>& v) { int k = idOf(n); if(k >= 0) v.push_back(k);
    if(n.getNodeType() == N::ELEMENT_NODE) for(auto& x : attrsSorted(n.getAttributes())) subIds(x, v);
    for(N c = n.getFirstChild(); (bool)c; c = c.getNextSibling()) subIds(c, v); }
  void rehandle(const N& n, int& cnt) {
    int k = idOf(n); if(k >= 0 && !reg.count(k)) { reg[k] = n; ++cnt; }
    if(n.getNodeType() == N::ELEMENT_NODE) for(auto& a : attrsSorted(n.getAttributes())) rehandle(a, cnt);
    if(n.getNodeType() == N::DOCUMENT_TYPE_NODE) { DT d(n); for(auto& a : attrsSorted(d.getEntities())) rehandle(a, cnt); for(auto& a : attrsSorted(d.getNotations())) rehandle(a, cnt); }
    for(N c = n.getFirstChild(); (bool)c; c = c.getNextSibling()) rehandle(c, cnt);
  }
};

void run_case(const Line& head, const Lines& body) {
  Interp in;
  bool dumping = true;
  for(const Line& l : body) {
    if(l[0] == "dumpoff") { dumping = false; continue; }
    if(l[0] == "dumpon") { dumping = true; continue; }
    if(l[0] == "dump") { in.dump(); continue; }
    std::string res;
    try { res = "R\t" + in.op(l); }
    catch(const DOM::DOMException& e) { res = "X\t" + vdrv::num(e.code()); }
    catch(const DOM::DOMBadCast& e) { res = std::string("X\tBadCast"); }
    catch(const std::exception& e) { res = std::string("X\tstd ") + e.what(); }
    vdrv::out({res.substr(0, 1), res.substr(2)});
    if(dumping) in.dump();
  }
}
