// Fuzz target: bytes as a stylesheet, compiled and, where it is bound to end soon, executed.
#include "fuzz.hpp"
#include <SAX/InputSource.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <XSLT/XSLT.hpp>
#include <memory>
using namespace Arabica;
typedef std::string S;
static const char* DOC = "<r xmlns:n='urn:n' a='1' n:b='2'>t<a id='i1'>1<b c='3'/></a><!--c--><?p q?><n:a xmlns='urn:d'><d>4.5</d></n:a><a>-2</a> </r>";
static DOM::Document<S> parse(const char* t) { SAX2DOM::Parser<S> p; std::istringstream is(t); SAX::InputSource<S> src(is); p.parse(src); return p.getDocument(); }
static unsigned occurrences(const S& t, const char* w) { unsigned n = 0; for(size_t p = 0; (p = t.find(w, p)) != S::npos; ++p) ++n; return n; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static DOM::Document<S>& doc = *new DOM::Document<S>(parse(DOC));
  static XSLT::StylesheetCompiler<S>& comp = *new XSLT::StylesheetCompiler<S>;
  if(size < 2) return 0;
  S text((const char*)data + 1, size - 1);
  // files and hosts are not for fuzzers to open
  if(text.find("href") != S::npos || text.find("document(") != S::npos || text.find("SYSTEM") != S::npos || text.find("PUBLIC") != S::npos) return 0;
  std::unique_ptr<XSLT::Stylesheet<S> > s; std::istringstream is(text); SAX::InputSource<S> src(is);
  if(!fuzz::guard("compilation", [&] { s = comp.compile(src); })) return 0;
  if(!s) { if(comp.error().empty()) abort(); fuzz::count("compilation: refused with a diagnostic"); return 0; }
  fuzz::count("compilation: accepted");
  // templates which apply templates to what they choose can go on for ever, entities can hide them
  if(text.find("call-template") != S::npos || text.find("<!") != S::npos || text.find("&#") != S::npos) return 0;
  if(occurrences(text, "apply-templates") && occurrences(text, "select")) return 0;
  if(text.find("apply-imports") != S::npos) return 0;
  if(occurrences(text, "for-each") > 6 || occurrences(text, "//") + occurrences(text, "::") + occurrences(text, "[") > 12) return 0;
  std::ostringstream err; s->set_error_output(err);
  for(int i = 0; i < 2; ++i) {
    std::ostringstream os; XSLT::StreamSink<S> sink(os); s->set_output(sink); fuzz::guard("execution", [&] { s->execute(doc); }); }
  { XSLT::DOMSink<S> sink; s->set_output(sink); fuzz::guard("execution to DOM", [&] { s->execute(doc); }); }
  return 0;
}
