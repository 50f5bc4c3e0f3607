// Fuzz target: bytes as HTML, with features, broken streams, throwing handlers and reuse.
#include "fuzz.hpp"
#include <SAX/InputSource.hpp>
#include <SAX/SAXParseException.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/filter/Writer.hpp>
#include <Taggle/Taggle.hpp>
#include <vector>
using namespace Arabica;
typedef std::string S;

struct Handler : SAX::DefaultHandler<S> {
  long events; std::vector<S> open; unsigned roots; bool started, ended;
  Handler(long k) : events(k), roots(0), started(false), ended(false) {}
  void ev() { if(events >= 0 && events-- == 0) throw 42; if(!started || ended) abort(); }
  void startDocument() override { if(started) abort(); started = true; ev(); }
  void endDocument() override { ev(); if(!open.empty()) abort(); ended = true; }
  void startElement(const S&, const S&, const S& q, const SAX::Attributes<S>& a) override {
    if(open.empty() && roots++) abort();
    open.push_back(q); for(int i = 0; i < a.getLength(); ++i) if(a.getIndex(a.getQName(i)) != i) abort(); ev(); }
  void endElement(const S&, const S&, const S& q) override { if(open.empty() || open.back() != q) abort(); open.pop_back(); ev(); }
  void characters(const S&) override { ev(); if(open.empty()) abort(); }
  void comment(const S&) override { ev(); }
  void processingInstruction(const S&, const S&) override { ev(); }
};
static const char* FEATURES[] = { "ignoreBogons", "bogonsEmpty", "rootBogons", "defaultAttributes", "translateColons", "restartElements", "ignorableWhitespace", "cdataElements" };

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if(size < 4) return 0;
  unsigned f0 = data[0], f1 = data[1], f2 = data[2]; const char* p = (const char*)data + 3; size_t n = size - 3;
  SAX::Taggle<S> r;
  fuzz::guard("features", [&] { if(f0 & 0x40) for(int i = 0; i < 8; ++i) r.setFeature(std::string("http://www.ccil.org/~cowan/tagsoup/features/") +
    (i == 0 ? "ignore-bogons" : i == 1 ? "bogons-empty" : i == 2 ? "root-bogons" : i == 3 ? "default-attributes" : i == 4 ? "translate-colons" : i == 5 ? "restart-elements" : i == 6 ? "ignorable-whitespace" : "cdata-elements"), f2 & (1 << i)); });
  for(int i = 0; i < 2; ++i) {
    Handler h(f0 & 0x80 && !i ? f1 : -1);
    r.setContentHandler(h); r.setLexicalHandler(h); r.setErrorHandler(h);
    fuzz::Source sb(p, n, 1 + (f0 & 7) * 173, f0 & 0x20 && !i ? f1 : -1); std::istream is(&sb);
    SAX::InputSource<S> src(is);
    if(fuzz::guard("parse", [&] { r.parse(src); }) && !h.ended) abort(); }
  { std::ostringstream os; SAX::Writer<S> w(os, r, f1 & 3); fuzz::Source sb(p, n, 4096, -1); std::istream is(&sb); SAX::InputSource<S> src(is);
    fuzz::guard("written", [&] { w.parse(src); }); }
  return 0;
}
