// Fuzz target: bytes as an XML document through a reader, filters, the Writer, DOM building and everything done with a DOM.
#include "fuzz.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/SAXParseException.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/io/Stream.hpp>
#include <memory>
using namespace Arabica;
typedef std::string S;
typedef default_string_adaptor<S> SA;
typedef DOM::Node<S> N; typedef DOM::Document<S> Doc;
static SAX::FeatureNames<S> fn;

struct Handler : SAX::DefaultHandler<S> {
  long events, depth, opened; const SAX::Locator<S>* loc; bool resolve, started;
  Handler(long k, bool r) : events(k), depth(0), opened(0), loc(0), resolve(r), started(false) {}
  void ev() { if(loc) { loc->getLineNumber(); loc->getColumnNumber(); loc->getSystemId(); loc->getPublicId(); } if(events >= 0 && events-- == 0) throw 42; }
  void setDocumentLocator(const SAX::Locator<S>& l) override { loc = &l; }
  void startDocument() override { if(started) abort(); started = true; ev(); }
  void endDocument() override { if(!started) abort(); loc = 0; ev(); }
  void startElement(const S& u, const S& l, const S& q, const SAX::Attributes<S>& a) override {
    ++depth; for(int i = 0; i < a.getLength(); ++i) if(a.getIndex(a.getQName(i)) != i) abort(); ev(); }
  void endElement(const S&, const S&, const S&) override { if(--depth < 0) abort(); ev(); }
  void characters(const S&) override { ev(); }
  void processingInstruction(const S&, const S&) override { ev(); }
  void startEntity(const S&) override { ++opened; ev(); }
  void endEntity(const S&) override { --opened; ev(); }
  void comment(const S&) override { ev(); }
  void elementDecl(const S&, const S&) override { ev(); }
  void attributeDecl(const S&, const S&, const S&, const S&, const S&) override { ev(); }
  void internalEntityDecl(const S&, const S&) override { ev(); }
  void unparsedEntityDecl(const S&, const S&, const S&, const S&) override { ev(); }
  void notationDecl(const S&, const S&, const S&) override { ev(); }
  void warning(const SAX::SAXParseException<S>&) override { ev(); }
  void error(const SAX::SAXParseException<S>&) override { ev(); }
  void fatalError(const SAX::SAXParseException<S>& e) override { e.getLineNumber(); ev(); }
  SAX::InputSource<S> resolveEntity(const S& p, const S& s) override {
    ev(); SAX::InputSource<S> src(s);
    std::unique_ptr<std::istream> is(new std::istringstream(resolve ? "<!ENTITY f 'g'><e>&f;</e>" : "")); src.setByteStream(std::move(is)); return src; }
};
static void hook(SAX::XMLReaderInterface<S, SA>& r, Handler& h) {
  r.setContentHandler(h); r.setErrorHandler(h); r.setEntityResolver(h); r.setDTDHandler(h); r.setLexicalHandler(h); r.setDeclHandler(h); }

static unsigned walk(const N& n, unsigned depth) {
  unsigned k = 1; N last;
  if(n.getNodeType() == N::ELEMENT_NODE) { DOM::NamedNodeMap<S> m = n.getAttributes(); for(unsigned i = 0; i < m.getLength(); ++i) k += walk(m.item(i), depth+1); }
  for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) { if(c.getParentNode() != n || c.getPreviousSibling() != last) abort(); last = c; k += walk(c, depth+1); }
  return k; }

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if(size < 4) return 0;
  unsigned f0 = data[0], f1 = data[1], f2 = data[2]; const char* p = (const char*)data + 3; size_t n = size - 3;
  size_t k = 1 + (f0 & 7) * 173;
  // a reader with filters, used twice
  { SAX::XMLReader<S> r; std::ostringstream os, px;
    Handler h(f0 & 0x80 ? f1 : -1, f0 & 0x40);
    SAX::TextCoalescer<S> t(r); SAX::NamespaceTracker<S> nt(t); SAX::XMLBaseTracker<S> bt(nt);
    SAX::Writer<S> w(os, bt, f2 & 3); SAX::PYXWriter<S> x(px, w); SAX::WhitespaceStripper<S, SA> ws(x);
    SAX::XMLReaderInterface<S, SA>& top = f2 & 0x10 ? (SAX::XMLReaderInterface<S, SA>&)ws : f2 & 0x20 ? (SAX::XMLReaderInterface<S, SA>&)w : (SAX::XMLReaderInterface<S, SA>&)r;
    hook(top, h);
    fuzz::guard("features", [&] {
      r.setFeature(fn.namespaces, !(f2 & 4)); r.setFeature(fn.namespace_prefixes, f2 & 8);
#ifndef FZ_NO_EXTERNAL
      r.setFeature(fn.external_general, f2 & 0x40); r.setFeature(fn.external_parameter, f2 & 0x80);
#endif
    });
    for(int i = 0; i < 2; ++i) {
      fuzz::Source sb(p, n, k, f0 & 0x20 ? f1 : -1); std::istream is(&sb);
      SAX::InputSource<S> src(is); src.setSystemId("mem:/doc.xml");
      fuzz::guard("parse", [&] { top.parse(src); });
      h.depth = 0; h.events = -1; h.started = false; h.loc = 0; hook(top, h);
    } }
  if(f0 & 0xA0) return 0;
  // DOM
  SAX2DOM::Parser<S> dp; SAX::CatchErrorHandler<S> eh; Handler h(-1, f0 & 0x40); dp.setErrorHandler(eh); dp.setEntityResolver(h);
  fuzz::guard("features", [&] { dp.setFeature(fn.external_general, f2 & 0x40); dp.setFeature(fn.external_parameter, f2 & 0x80); });
  { fuzz::Source sb(p, n, k, -1); std::istream is(&sb); SAX::InputSource<S> src(is); src.setSystemId("mem:/doc.xml");
    fuzz::guard("DOM parse", [&] { dp.parse(src); }); }
  Doc d = dp.getDocument();
  if(!(bool)d || d.getDocumentElement() == 0) return 0;
  unsigned nodes = walk(d, 0);
  std::ostringstream os;
  if(fuzz::guard("DOM written", [&] { os << d; }) && !eh.errorsReported()) {
    SAX2DOM::Parser<S> dp2; SAX::CatchErrorHandler<S> eh2; dp2.setErrorHandler(eh2);
    std::istringstream is(os.str()); SAX::InputSource<S> src(is); fuzz::guard("DOM read back", [&] { dp2.parse(src); }); }
  fuzz::guard("DOM operations", [&] {
    N c = d.cloneNode(true); if(walk(c, 0) > nodes) abort();
  });
  fuzz::guard("DOM import", [&] {
    Doc e = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "r", 0);
    e.getDocumentElement().appendChild(e.importNode(d.getDocumentElement(), true)); walk(e, 0); });
  fuzz::guard("DOM traversal", [&] {
    DOM::Traversal::TreeWalker<S> w = DOM::Traversal::DocumentTraversal<S>(d.createDocumentTraversal()).createTreeWalker(d, DOM::Traversal::SHOW_ALL, true);
    unsigned m = 0; while(w.nextNode() != 0) ++m; while(w.previousNode() != 0) --m; if(m) abort(); });
  fuzz::guard("DOM moves", [&] { // every element to the end of the document element, where the tree allows it
    DOM::NodeList<S> l = d.getElementsByTagName("*"); unsigned len = l.getLength();
    for(unsigned i = 1; i < len && i < 40; ++i) try { d.getDocumentElement().appendChild(l.item(i)); } catch(const DOM::DOMException&) { }
    d.normalize(); walk(d, 0); });
  return 0;
}
