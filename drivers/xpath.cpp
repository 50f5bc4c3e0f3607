// XPath driver: builds documents, compiles and evaluates expressions, patterns and attribute value
// templates against them, and logs every result with its node identities.
#ifndef STR
#define STR std::string
#endif
#include "vdrv.hpp"
#include <SAX/InputSource.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/DocumentFragment.hpp>
#include <XPath/XPath.hpp>
#include <map>
#include <memory>
using namespace Arabica;
typedef STR S;
typedef vdrv::Str<S> V;
typedef default_string_adaptor<S> SA;
typedef DOM::Node<S> N; typedef DOM::Document<S> Doc; typedef DOM::Element<S> El; typedef DOM::Attr<S> At;
typedef XPath::XPath<S> XP; typedef XPath::XPathExpression<S> Ex; typedef XPath::XPathValue<S> Val;
typedef XPath::NodeSet<S> Set;

static S in(const std::string& s) { return V::in(s); }
static std::string o(const S& s) { return V::out(s); }
static bool isText(const N& n) { return n.getNodeType() == N::TEXT_NODE || n.getNodeType() == N::CDATA_SECTION_NODE; }

struct Run {
  std::map<std::string, N> roots;
  std::map<DOM::Node_impl<S, SA>*, std::string> ids;
  std::map<std::string, N> byId;
  std::vector<std::string> order;
  XP xp;
  XPath::StandardNamespaceContext<S> nsc;
  struct Vars : XPath::VariableResolver<S> { std::map<std::string, Val> v;
    Val resolveVariable(const S& u, const S& n) const { auto i = v.find(o(u) + "|" + o(n));
      if(i == v.end()) throw XPath::UnboundVariableException(SA::asStdString(n)); return i->second; } } vars;
  std::vector<Ex> kept;

  void reg(const N& n, const std::string& id) { ids[n.underlying_impl()] = id; byId[id] = n; order.push_back(id); }
  void number(const N& n, const std::string& pf, int& k) {
    std::string id = pf + vdrv::num(k++); reg(n, id);
    if(n.getNodeType() == N::ELEMENT_NODE) { DOM::NamedNodeMap<S> m = n.getAttributes(); unsigned l = m.getLength();
      for(unsigned j = 0; j < l; ++j) { N a = m.item(j); std::string q = o(a.getNodeName());
        reg(a, (q == "xmlns" || q.compare(0, 6, "xmlns:") == 0 ? "!" : "") + id + "@" + q); } }
    for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) {
      if(c.getNodeType() == N::DOCUMENT_TYPE_NODE) { ids[c.underlying_impl()] = "!doctype"; continue; }
      if(isText(c)) { if(c.getPreviousSibling() != 0 && isText(c.getPreviousSibling())) { ids[c.underlying_impl()] = "!text"; continue; }
      }
      number(c, pf, k); }
  }
  std::string nm(const N& n) {
    if(!(bool)n) return "null";
    if(n.getNodeType() == XPath::NAMESPACE_NODE_TYPE) return nm(n.getParentNode()) + "#" + o(n.getNodeName()) + "=" + o(n.getNodeValue());
    auto i = ids.find(n.underlying_impl()); return i == ids.end() ? "?" + vdrv::num(n.getNodeType()) : i->second; }
  N node(const std::string& id) {
    size_t h = id.find('#');
    if(h != std::string::npos) { // namespace node
      XPath::AxisEnumerator<S> e(node(id.substr(0, h)), XPath::NAMESPACE);
      while(*e != 0) { if(o(e->getNodeName()) == id.substr(h+1)) return *e; ++e; }
      return N(); }
    auto i = byId.find(id); return i == byId.end() ? N() : i->second; }
  static std::string num(double d) { if(d != d) return "nan"; char b[40]; snprintf(b, 40, "%.17g", d); return b; }

  void value(const char* tag, const Val& v) {
    std::string t = v.type() == XPath::BOOL ? "B" : v.type() == XPath::NUMBER ? "N" : v.type() == XPath::STRING ? "S" : v.type() == XPath::NODE_SET ? "NS" : "?";
    Line l = {tag, t, v.asBool() ? "1" : "0", num(v.asNumber()), o(v.asString())};
    if(t == "NS") { Set s = v.asNodeSet(); std::string ids;
      l.push_back(s.forward() ? "f" : s.reverse() ? "r" : "u");
      for(size_t k = 0; k < s.size(); ++k) ids += (k ? " " : "") + nm(s[k]);
      l.push_back(ids); ids.clear();
      Set d = s; d.to_document_order();
      for(size_t k = 0; k < d.size(); ++k) ids += (k ? " " : "") + nm(d[k]);
      l.push_back(ids);
      l.push_back(d.empty() ? "" : nm(s.top())); }
    vdrv::out(l);
  }
  template<class F> void guard(const char* tag, F f) {
    try { f(); }
    catch(const XPath::SyntaxException& e) { vdrv::out({tag, "X", "Syntax", e.what()}); }
    catch(const XPath::UnsupportedException& e) { vdrv::out({tag, "X", "Unsupported", e.what()}); }
    catch(const XPath::RuntimeException& e) { vdrv::out({tag, "X", "Runtime", e.what()}); }
    catch(const XPath::UnboundVariableException& e) { vdrv::out({tag, "X", "Variable", e.what()}); }
    catch(const XPath::UnboundNamespacePrefixException& e) { vdrv::out({tag, "X", "Prefix", e.what()}); }
    catch(const XPath::UndefinedFunctionException& e) { vdrv::out({tag, "X", "Function", e.what()}); }
    catch(const std::runtime_error& e) { vdrv::out({tag, "X", "runtime_error", e.what()}); }
    catch(const std::exception& e) { vdrv::out({tag, "X", "FOREIGN", e.what()}); }
  }
  void context(XPath::ExecutionContext<S>& c) { c.setVariableResolver(vars); }

  void cmd(const Line& l) {
    const std::string& c = l[0];
    auto a = [&](size_t k) -> const std::string& { static const std::string e; return k < l.size() ? l[k] : e; };
    if(c == "doc" || c == "frag") { // doc PREFIX xml [splitseed]
      std::istringstream is(a(2)); SAX::InputSource<S> src(is);
      SAX2DOM::Parser<S> p; SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh);
      p.parse(src);
      if(eh.errorsReported()) { vdrv::out({"doc", "E", eh.errors()}); return; }
      N root = p.getDocument();
      if(a(3) == "split") { std::vector<N> ts; std::vector<N> st(1, root);
        while(!st.empty()) { N n = st.back(); st.pop_back(); if(n.getNodeType() == N::TEXT_NODE) ts.push_back(n);
          for(N k = n.getFirstChild(); k != 0; k = k.getNextSibling()) st.push_back(k); }
        int q = 0; for(N& n : ts) { DOM::Text<S> t(n); if(t.getLength() > 1 && q++ % 2 == 0) t.splitText(t.getLength() / 2); } }
      if(c == "frag") { DOM::DocumentFragment<S> f = Doc(root).createDocumentFragment();
        El de = Doc(root).getDocumentElement();
        while(de.hasChildNodes()) f.appendChild(de.getFirstChild());
        roots["own" + a(1)] = root; root = f; }
      roots[a(1)] = root; int k = 0; number(root, a(1), k); vdrv::out({"doc", vdrv::num(k)}); return; }
    if(c == "ns") { nsc.addNamespaceDeclaration(in(a(2)), in(a(1))); xp.setNamespaceContext(nsc); return; }
    if(c == "var") { // var key type value
      XPath::XPathValue_impl<S>* v = 0;
      if(a(2) == "N") v = new XPath::NumericValue<S>(strtod(a(3).c_str(), 0));
      if(a(2) == "S") v = new XPath::StringValue<S>(in(a(3)));
      if(a(2) == "B") v = new XPath::BoolValue<S>(a(3) == "1");
      if(a(2) == "NS") { Set s; std::istringstream is(a(3)); std::string w; while(is >> w) s.push_back(node(w)); v = new XPath::NodeSetValue<S>(s); }
      vars.v[a(1)] = Val(v); xp.setVariableResolver(vars); return; }
    if(c == "ctl") { xp.resetNamespaceContext(); xp.resetVariableResolver(); return; }
    if(c == "comp") { // comp mode expr
      guard("c", [&]{ Ex e = mode(a(1), a(2)); vdrv::out({"c", "ok"}); }); return; }
    if(c == "ev") { // ev mode expr ctx...
      Ex e; bool ok = false;
      guard("v", [&]{ e = mode(a(1), a(2)); ok = true; });
      if(!ok) return;
      for(size_t k = 3; k < l.size(); ++k) guard("v", [&]{
        XPath::ExecutionContext<S> ec; context(ec); N n = node(l[k]);
        if(!(bool)n) { vdrv::out({"v", "NOCTX", l[k]}); return; }
        value("v", e.evaluate(n, ec)); });
      return; }
    if(c == "as") { // the four typed entry points and the one-shot calls must agree with evaluate
      guard("a", [&]{ Ex e = mode(a(1), a(2)); XPath::ExecutionContext<S> ec; context(ec); N n = node(a(3));
        Val v = e.evaluate(n, ec);
        std::string r;
        r += (e.evaluateAsBool(n, ec) == v.asBool()) ? "" : " asBool"; 
        r += (num(e.evaluateAsNumber(n, ec)) == num(v.asNumber())) ? "" : " asNumber";
        r += (e.evaluateAsString(n, ec) == v.asString()) ? "" : " asString";
        if(v.type() == XPath::NODE_SET) r += (e.evaluateAsNodeSet(n, ec).size() == v.asNodeSet().size()) ? "" : " asNodeSet";
        Val w = a(1) == "path" ? xp.evaluate(in(a(2)), n) : xp.evaluate_expr(in(a(2)), n);
        r += (w.asString() == v.asString() && w.type() == v.type()) ? "" : " oneshot";
        try { Val b = e.evaluate(n); // no context at all: no variables
          r += a(2).find('$') == std::string::npos && (b.type() != v.type() || b.asString() != v.asString()) ? " bare" : ""; }
        catch(const XPath::UnboundVariableException&) { r += a(2).find('$') == std::string::npos ? " bare unbound" : ""; }
        vdrv::out({"a", r}); });
      return; }
    if(c == "match") { // match pattern : every alternative, every node
      std::vector<XPath::MatchExpr<S>> ms; bool ok = false;
      guard("m", [&]{ ms = xp.compile_match(in(a(1))); ok = true; });
      if(!ok) return;
      for(XPath::MatchExpr<S>& m : ms) guard("m", [&]{ std::string ids;
        for(const std::string& id : order) { if(id[0] == '!') continue;
          XPath::ExecutionContext<S> ec; context(ec); N n = byId[id]; ec.setCurrentNode(n);
          if(m.evaluate(n, ec)) ids += (ids.empty() ? "" : " ") + id; }
        vdrv::out({"m", num(m.priority()), ids}); });
      return; }
    std::cerr << "HARNESS unknown command " << c << "\n"; vdrv::flush(); _exit(98);
  }
  Ex mode(const std::string& m, const std::string& e) {
    if(m == "path") return xp.compile(in(e));
    if(m == "expr") return xp.compile_expr(in(e));
    if(m == "avt") return xp.compile_attribute_value_template(in(e));
    if(m == "match") { xp.compile_match(in(e)); return Ex(); }
    std::cerr << "HARNESS mode\n"; vdrv::flush(); _exit(98);
  }
};
void run_case(const Line&, const Lines& body) { Run r; for(const Line& l : body) r.cmd(l); }
