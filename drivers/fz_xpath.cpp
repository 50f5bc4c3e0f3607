// Fuzz target: bytes as an XPath expression, a match pattern and an attribute value template.
#include "fuzz.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <XPath/XPath.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> N; typedef DOM::Document<S> Doc;
static const char* DOC = "<!DOCTYPE r [<!ENTITY e 'x'><!ATTLIST r d CDATA 'v'>]><r xmlns:n='urn:n' a='1' n:b='2'>t<a id='i1'>1<b c='3'/>&e;</a>"
  "<!--c--><?p q?><n:a xmlns='urn:d'><d>4.5</d><![CDATA[cd]]></n:a><a>-2</a> </r>";
struct World {
  Doc doc; std::vector<N> nodes; XPath::XPath<S> xp; XPath::StandardNamespaceContext<S> ns;
  struct Vars : XPath::VariableResolver<S> { const World& w; Vars(const World& w_) : w(w_) {}
    XPath::XPathValue<S> resolveVariable(const S& u, const S& n) const override {
      if(n == "n") return XPath::XPathValue<S>(new XPath::NumericValue<S>(1.5));
      if(n == "s") return XPath::XPathValue<S>(new XPath::StringValue<S>("1 two"));
      if(n == "b") return XPath::XPathValue<S>(new XPath::BoolValue<S>(true));
      if(n == "ns") { XPath::NodeSet<S> s; for(auto& x : w.nodes) s.push_back(x); return XPath::XPathValue<S>(new XPath::NodeSetValue<S>(s)); }
      throw XPath::UnboundVariableException(n); } } vars;
  void add(const N& n) { nodes.push_back(n);
    if(n.getNodeType() == N::ELEMENT_NODE) { DOM::NamedNodeMap<S> m = n.getAttributes(); for(unsigned i = 0; i < m.getLength(); ++i) nodes.push_back(m.item(i)); }
    for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) if(c.getNodeType() != N::DOCUMENT_TYPE_NODE) add(c); }
  World() : vars(*this) { SAX2DOM::Parser<S> p; std::istringstream is(DOC); SAX::InputSource<S> src(is); p.parse(src); doc = p.getDocument(); add(doc);
    ns.addNamespaceDeclaration("urn:n", "n"); ns.addNamespaceDeclaration("urn:d", "d");
    xp.setNamespaceContext(ns); xp.setVariableResolver(vars); }
};
// evaluation of nested predicates over all axes is as expensive as it is nested: leave out what would take too long by nature
static bool cheap(const S& e) { unsigned heavy = 0; for(size_t i = 0; i + 1 < e.size(); ++i) { if(e[i] == '/' && e[i+1] == '/') ++heavy; if(e[i] == ':' && e[i+1] == ':') ++heavy; if(e[i] == '[') ++heavy; if(e[i] == '$') ++heavy; } return heavy < 7; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static World& w = *new World;
  if(size < 2) return 0;
  S text((const char*)data + 1, size - 1); unsigned f = data[0];
  if(f & 1) {
    XPath::XPathExpression<S> e;
    if(fuzz::guard("expression", [&] { e = f & 8 ? w.xp.compile(text) : w.xp.compile_expr(text); }) && cheap(text))
      for(size_t i = f >> 4; i < w.nodes.size(); i += 5) fuzz::guard("evaluation", [&] {
        XPath::ExecutionContext<S> c; c.setVariableResolver(w.vars); XPath::XPathValue<S> v = e.evaluate(w.nodes[i], c);
        v.asBool(); v.asNumber(); v.asString();
        if(v.type() == XPath::NODE_SET) { XPath::NodeSet<S> s = v.asNodeSet(); s.to_document_order(); for(size_t j = 1; j < s.size(); ++j) if(s[j] == s[j-1]) abort(); } }); }
  if(f & 2) { 
    std::vector<XPath::MatchExpr<S> > m;
    if(fuzz::guard("pattern", [&] { m = w.xp.compile_match(text); }) && cheap(text)) {
      XPath::ExecutionContext<S> ctx; ctx.setVariableResolver(w.vars);
      for(auto& n : w.nodes) for(auto& x : m) fuzz::guard("match", [&] { x.evaluate(n, ctx); }); } }
  if(f & 4) fuzz::guard("attribute value template", [&] { XPath::XPathExpression<S> e = w.xp.compile_attribute_value_template(text); if(cheap(text)) e.evaluateAsString(w.nodes[f >> 4]); });
  // still usable
  if(w.xp.evaluate_expr("count(/r/a)", w.doc).asNumber() != 2) abort();
  return 0;
}
