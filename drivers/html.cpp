// HTML driver: scripted sessions of one (reused) Taggle parser, logging every event it delivers, and the XML its
// output makes when written by SAX::Writer.
#include "vdrv.hpp"
#include <SAX/InputSource.hpp>
#include <SAX/SAXException.hpp>
#include <SAX/SAXParseException.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/filter/Writer.hpp>
#include <Taggle/Taggle.hpp>
#include <memory>
#include <map>
using namespace Arabica;
using vdrv::out; using vdrv::num;

static std::string unhex(const std::string& h) { std::string r; for(size_t i = 0; i+1 < h.size(); i += 2) r += char(std::stoi(h.substr(i,2), 0, 16)); return r; }

struct SlowBuf : std::streambuf {   // at most k bytes become available at a time, nothing can be put back beyond them
  std::string s; size_t pos, k; char cell[64];
  SlowBuf(const std::string& s_, size_t k_) : s(s_), pos(0), k(k_ ? k_ > 64 ? 64 : k_ : 1) {}
  int underflow() override { if(pos >= s.size()) return EOF;
    size_t n = std::min(k, s.size()-pos); std::copy(s.begin()+pos, s.begin()+pos+n, cell); setg(cell, cell, cell+n); pos += n; return (unsigned char)*gptr(); }
};
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };

template<class OS, class P, class L, class I, class S> void written(OS& os, P& parser, int k, L& log, I& src, const S&) {
  SAX::Writer<S> w(os, parser, k); w.setLexicalHandler(log); w.parse(src); }
#ifdef OWN_STRING
template<class OS, class P, class L, class I> void written(OS&, P& parser, int, L&, I& src, const Own&) { parser.parse(src); } // the writer wants std::basic_string
#endif

template<class S> struct Session {
  typedef vdrv::Str<S> X;
  typedef typename Arabica::default_string_adaptor<S>::value_type C;
  typedef SAX::InputSource<S> Source;
  typedef SAX::SAXParseException<S> PE;
  struct Log : SAX::DefaultHandler<S> {
    long countdown, depth; const SAX::Locator<S>* loc; bool mute;
    Log() : countdown(-1), depth(0), loc(0), mute(false) {}
    std::string o(const S& s) { return X::out(s); }
    void ev(const Line& l) { if(!mute) out(l); if(countdown >= 0 && countdown-- == 0) { out({"THROW"}); throw Boom(); } }
    void setDocumentLocator(const SAX::Locator<S>& l) override { loc = &l; }
    void startDocument() override { ev({"SD"}); }
    void endDocument() override { ev({"ED"}); }
    void startPrefixMapping(const S& p, const S& u) override { ev({"SP", o(p), o(u)}); }
    void endPrefixMapping(const S& p) override { ev({"EP", o(p)}); }
    void startElement(const S& u, const S& ln, const S& q, const SAX::Attributes<S>& a) override {
      Line l{"SE", o(u), o(ln), o(q)};
      for(int i = 0; i < a.getLength(); ++i) {
        l.push_back(o(a.getURI(i))); l.push_back(o(a.getLocalName(i))); l.push_back(o(a.getQName(i))); l.push_back(o(a.getType(i))); l.push_back(o(a.getValue(i)));
        if(a.getIndex(a.getQName(i)) != i) out({"ATTBAD", o(a.getQName(i))}); }
      ev(l); }
    void endElement(const S& u, const S& ln, const S& q) override { ev({"EE", o(u), o(ln), o(q)}); }
    void characters(const S& c) override { ev({"CH", o(c)}); }
    void ignorableWhitespace(const S& c) override { ev({"IW", o(c)}); }
    void processingInstruction(const S& t, const S& d) override { ev({"PI", o(t), o(d)}); }
    void skippedEntity(const S& n) override { ev({"SK", o(n)}); }
    void startDTD(const S& n, const S& p, const S& s) override { ev({"SDTD", o(n), o(p), o(s)}); }
    void endDTD() override { ev({"EDTD"}); }
    void startEntity(const S& n) override { ev({"SEN", o(n)}); }
    void endEntity(const S& n) override { ev({"EEN", o(n)}); }
    void startCDATA() override { ev({"SCD"}); }
    void endCDATA() override { ev({"ECD"}); }
    void comment(const S& t) override { ev({"CO", o(t)}); }
    void warning(const PE& e) override { ev({"WARN", e.what()}); }
    void error(const PE& e) override { ev({"ERR", e.what()}); }
    void fatalError(const PE& e) override { ev({"FATAL", e.what()}); }
    Source resolveEntity(const S& p, const S& s) override { ev({"RES", o(p), o(s)}); return Source(); }
  };
  std::map<std::string, std::string> docs;
  SAX::Taggle<S> parser; Log log;
  Session() { hook(parser); }
  template<class R> void hook(R& r) { r.setContentHandler(log); r.setLexicalHandler(log); r.setErrorHandler(log); r.setEntityResolver(log); }

  // how: stream | slow | file | write;  k: chunk size or indent
  void parse(const std::string& how, const std::string& doc, size_t k, const std::string& sys) {
    out({"P", how, doc}); vdrv::flush();
    std::string scratch;
    struct Un { std::string& p; ~Un() { if(!p.empty()) ::unlink(p.c_str()); } } un{scratch};
    const std::string& bytes = docs[doc];
    try {
      Source src; std::istringstream ss(bytes); SlowBuf sb(bytes, k); std::istream is(&sb);
      src.setSystemId(X::in(sys));
      if(how == "slow") src.setByteStream(is);
      else if(how == "file") {
        char t[] = "/tmp/vdrvXXXXXX"; int fd = mkstemp(t); if(fd < 0) { out({"HARNESS", "mkstemp"}); vdrv::flush(); _exit(98); }
        for(size_t o2 = 0; o2 < bytes.size(); ) { ssize_t n = ::write(fd, bytes.data()+o2, bytes.size()-o2); if(n <= 0) break; o2 += n; }
        close(fd); scratch = t; src.setSystemId(X::in(scratch)); }
      else if(how != "named") src.setByteStream(ss);
      if(how == "write") {
        std::basic_ostringstream<C> os; log.mute = true;
        written(os, parser, k, log, src, S());
        log.mute = false; hook(parser);
        out({"OUT", X::out(os.str())}); }
      else parser.parse(src);
      out({"RET"});
    }
    catch(const Boom&) { out({"EXC", "Boom"}); }
    catch(const SAX::SAXException& e) { out({"EXC", "SAX", e.what()}); }
    catch(const std::exception& e) { out({"EXC", "std", e.what()}); }
    log.countdown = -1; log.mute = false; hook(parser);
    out({"PEND"});
  }
};

template<class S> void go(const Lines& body) {
  typedef vdrv::Str<S> X;
  std::unique_ptr<Session<S>> s(new Session<S>);
  for(auto& l : body) {
    const std::string& c = l[0];
    if(c == "DOC") s->docs[l[1]] = unhex(l[2]);
    else if(c == "FRESH") { auto d = s->docs; s.reset(new Session<S>); s->docs = d; }
    else if(c == "FEAT") {
      try { s->parser.setFeature(X::in(l[1]), l[2] == "1"); out({"FEAT", l[1], s->parser.getFeature(X::in(l[1])) ? "1" : "0"}); }
      catch(const SAX::SAXException& e) { out({"FEATEXC", l[1], e.what()}); } }
    else if(c == "FDS") out({"FDS", vdrv::num(vdrv::fds())});
    else if(c == "THROW") s->log.countdown = std::stol(l[1]);
    else if(c == "PARSE") s->parse(l[1], l[2], std::stoul(l[3]), l.size() > 4 ? l[4] : "");
    else { out({"HARNESS", c}); vdrv::flush(); _exit(98); }
  }
}

void run_case(const Line& head, const Lines& body) {
#ifdef OWN_STRING
  if(head.size() > 2 && head[2] == "o") return go<Own>(body);
#endif
  if(head.size() > 2 && head[2] == "w") go<std::wstring>(body); else go<std::string>(body);
}
