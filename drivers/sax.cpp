// SAX driver: runs scripted sessions of one (reused) reader behind a chain of filters and logs
// every event it delivers, plus scripted attribute list / namespace context stack sessions.
#include "vdrv.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/SAXException.hpp>
#include <SAX/SAXParseException.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/TextOnly.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <memory>
#include <map>
using namespace Arabica;
using vdrv::out; using vdrv::num;

static std::string unhex(const std::string& h) { std::string r; for(size_t i = 0; i+1 < h.size(); i += 2) r += char(std::stoi(h.substr(i,2), 0, 16)); return r; }
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };

struct SlowBuf : std::streambuf {   // at most k bytes become available at a time
  std::string s; size_t pos, k;
  SlowBuf(const std::string& s_, size_t k_) : s(s_), pos(0), k(k_ ? k_ : 1) {}
  int underflow() override { if(pos >= s.size()) return EOF;
    size_t n = std::min(k, s.size()-pos); setg(&s[pos], &s[pos], &s[pos]+n); pos += n; return (unsigned char)*gptr(); }
};
struct BrokenBuf : std::streambuf {  // delivers some bytes then fails by throwing (=> badbit)
  std::string s; bool given;
  BrokenBuf(const std::string& s_) : s(s_), given(false) {}
  int underflow() override { if(given || s.empty()) throw std::runtime_error("broken"); given = true; setg(&s[0], &s[0], &s[0]+s.size()); return (unsigned char)*gptr(); }
};

template<class OS, class P, class S> SAX::XMLFilterImpl<S, default_string_adaptor<S>>* writer(OS& os, P& p, const std::string& f, const S&) {
  return f.size() > 2 ? new SAX::Writer<S>(os, p, vdrv::Str<S>::in(f.substr(2)), f[1]-'0') : new SAX::Writer<S>(os, p, f.size() > 1 ? f[1]-'0' : 2); }
#ifdef OWN_STRING
template<class OS, class P> SAX::XMLFilterImpl<Own, default_string_adaptor<Own>>* writer(OS&, P& p, const std::string&, const Own&) { return new SAX::XMLFilterImpl<Own, default_string_adaptor<Own>>(p); } // the writer wants std::basic_string
#endif

template<class S> struct Session {
  typedef vdrv::Str<S> X;
  typedef typename Arabica::default_string_adaptor<S>::value_type C;
  typedef default_string_adaptor<S> SA;
  typedef SAX::XMLReader<S> Reader;
  typedef SAX::XMLReaderInterface<S, SA> RI;
  typedef SAX::InputSource<S> Source;
  typedef SAX::SAXParseException<S> PE;
  typedef SAX::XMLFilterImpl<S, SA> Filter;

  struct Log : SAX::DefaultHandler<S> {
    Session& ss; const SAX::Locator<S>* loc; long countdown; int throwType; bool locs;
    SAX::NamespaceTracker<S>* nt; SAX::XMLBaseTracker<S>* bt; std::vector<S> prefixes;
    Log(Session& s) : ss(s), loc(0), countdown(-1), throwType(0), locs(false), nt(0), bt(0) {}
    std::string o(const S& s) { return X::out(s); }
    void tick() { if(countdown >= 0 && countdown-- == 0) { out({"THROW"}); if(throwType == 0) throw SAX::SAXException("thrown by handler"); if(throwType == 1) throw Boom(); throw 42; } }
    void ev(Line l) {
      if(locs && loc) { l.insert(l.begin(), num((long)loc->getLineNumber())+":"+num((long)loc->getColumnNumber())); l.insert(l.begin(), "@"); }
      out(l); tick();
    }
    void probe() {
      if(nt) { Line l{"NSQ"}; for(auto& p : prefixes) l.push_back(o(p)+"="+o(nt->getURI(p)));
        std::map<S,S> m = nt->inScopeNamespaces(); l.push_back("|"); for(auto& p : m) l.push_back(o(p.first)+"="+o(p.second)); out(l); }
      if(bt) out({"BASE", o(bt->currentBase()), o(bt->makeAbsolute(X::in("x/../y")))});
    }
    void setDocumentLocator(const SAX::Locator<S>& l) override { loc = &l; out({"LOC"}); }
    void startDocument() override { ev({"SD"}); }
    void endDocument() override { ev({"ED"}); }
    void startPrefixMapping(const S& p, const S& u) override { ev({"SP", o(p), o(u)}); }
    void endPrefixMapping(const S& p) override { ev({"EP", o(p)}); }
    void startElement(const S& u, const S& ln, const S& q, const SAX::Attributes<S>& a) override {
      Line l{"SE", o(u), o(ln), o(q)};
      for(int i = 0; i < a.getLength(); ++i) {
        l.push_back(o(a.getURI(i))); l.push_back(o(a.getLocalName(i))); l.push_back(o(a.getQName(i))); l.push_back(o(a.getType(i))); l.push_back(o(a.getValue(i)));
        if(a.getIndex(a.getQName(i)) != i || a.getValue(a.getQName(i)) != a.getValue(i) || a.getType(a.getQName(i)) != a.getType(i)) out({"ATTBAD", "qname", num(i)});
        if(!SA::empty(a.getLocalName(i)) && (a.getIndex(a.getURI(i), a.getLocalName(i)) != i || a.getValue(a.getURI(i), a.getLocalName(i)) != a.getValue(i) || a.getType(a.getURI(i), a.getLocalName(i)) != a.getType(i))) out({"ATTBAD", "name", num(i)});
      }
      if(a.getIndex(X::in("no:such")) != -1 || a.getIndex(X::in("no"), X::in("such")) != -1 || !SA::empty(a.getValue(X::in("no:such")))) out({"ATTBAD", "ghost"});
      ev(l); probe(); }
    void endElement(const S& u, const S& ln, const S& q) override { probe(); ev({"EE", o(u), o(ln), o(q)}); }
    void characters(const S& c) override { ev({"CH", o(c)}); }
    void ignorableWhitespace(const S& c) override { ev({"IW", o(c)}); }
    void processingInstruction(const S& t, const S& d) override { ev({"PI", o(t), o(d)}); }
    void skippedEntity(const S& n) override { ev({"SK", o(n)}); }
    void startDTD(const S& n, const S& p, const S& s) override { ev({"SDTD", o(n), o(p), o(s)}); }
    void endDTD() override { ev({"EDTD"}); }
    void startEntity(const S& n) override { ev({"SEN", o(n)}); }
    void endEntity(const S& n) override { ev({"EEN", o(n)}); }
    void startCDATA() override { ev({"SCD"}); }
    void endCDATA() override { ev({"ECD"}); }
    void comment(const S& t) override { ev({"CO", o(t)}); }
    void notationDecl(const S& n, const S& p, const S& s) override { ev({"ND", o(n), o(p), o(s)}); }
    void unparsedEntityDecl(const S& n, const S& p, const S& s, const S& nn) override { ev({"UE", o(n), o(p), o(s), o(nn)}); }
    void elementDecl(const S& n, const S& m) override { ev({"ELD", o(n), o(m)}); }
    void attributeDecl(const S& e, const S& a, const S& t, const S& d, const S& v) override { ev({"ATD", o(e), o(a), o(t), o(d), o(v)}); }
    void internalEntityDecl(const S& n, const S& v) override { ev({"IED", o(n), o(v)}); }
    void externalEntityDecl(const S& n, const S& p, const S& s) override { ev({"EED", o(n), o(p), o(s)}); }
    void err(const char* k, const PE& e) {
      out({k, num((long)e.getLineNumber()), num((long)e.getColumnNumber()), o(e.getPublicId()), o(e.getSystemId()), e.what()}); tick(); }
    void warning(const PE& e) override { err("WARN", e); }
    void error(const PE& e) override { err("ERR", e); }
    void fatalError(const PE& e) override { err("FATAL", e); }
    Source resolveEntity(const S& p, const S& s) override {
      out({"RES", o(p), o(s)}); tick();
      auto d = ss.docs.find(o(s));
      if(d == ss.docs.end()) return Source();
      std::unique_ptr<std::istream> st(new std::istringstream(d->second));
      Source src; src.setByteStream(std::move(st)); src.setPublicId(p); src.setSystemId(s); return src; }
  };

  std::map<std::string, std::string> docs;
  Log log; std::unique_ptr<Reader> reader; std::vector<std::unique_ptr<Filter>> chain;
  std::vector<std::pair<std::string, std::unique_ptr<std::basic_ostringstream<C>>>> outs;
  std::string handlers; bool resolver;
  Session() : log(*this), handlers("CLDTE"), resolver(false) { fresh({}); }
  RI& top() { return chain.empty() ? static_cast<RI&>(*reader) : static_cast<RI&>(*chain.back()); }

  void fresh(const Line& filters) {
    chain.clear(); outs.clear(); log.nt = 0; log.bt = 0; log.loc = 0;
    reader.reset(new Reader);
    for(auto& f : filters) {
      RI& p = top(); Filter* x = 0;
      if(f == "F") x = new Filter(p);
      else if(f == "T") x = new SAX::TextCoalescer<S>(p);
      else if(f == "O") x = new SAX::TextOnly<S>(p);
      else if(f == "S") x = new SAX::WhitespaceStripper<S, SA>(p);
      else if(f == "N") x = log.nt = new SAX::NamespaceTracker<S>(p);
      else if(f == "B") x = log.bt = new SAX::XMLBaseTracker<S>(p);
      else if(f[0] == 'W') { outs.emplace_back(f, std::unique_ptr<std::basic_ostringstream<C>>(new std::basic_ostringstream<C>)); 
        x = writer(*outs.back().second, p, f, S()); }
      else if(f == "X") { outs.emplace_back(f, std::unique_ptr<std::basic_ostringstream<C>>(new std::basic_ostringstream<C>)); x = new SAX::PYXWriter<S>(*outs.back().second, p); }
      else { out({"HARNESS", "filter " + f}); vdrv::flush(); _exit(98); }
      chain.emplace_back(x);
    }
    hook();
  }
  void hook() {
    RI& t = top();
    for(char h : handlers) switch(h) {
      case 'C': t.setContentHandler(log); break; case 'L': t.setLexicalHandler(log); break;
      case 'D': t.setDeclHandler(log); break; case 'T': t.setDTDHandler(log); break; case 'E': t.setErrorHandler(log); break; }
    if(resolver) t.setEntityResolver(log);
  }
  void feature(const std::string& n, bool v) {
    SAX::FeatureNames<S> fn; S name = n == "ns" ? fn.namespaces : n == "nsp" ? fn.namespace_prefixes : n == "ge" ? fn.external_general : n == "pe" ? fn.external_parameter : n == "val" ? fn.validation : X::in(n);
    try { top().setFeature(name, v); bool g = top().getFeature(name); out({"FEAT", n, g ? "1" : "0"}); }
    catch(const SAX::SAXException& e) { out({"FEATEXC", n, e.what()}); }
  }
  void parse(const std::string& how, const std::string& doc, const std::string& sys, size_t k) {
    out({"P", how, doc}); vdrv::flush();
    try {
      std::string scratch;
      const std::string& bytes = docs[doc];
      Source src;
      std::istringstream ss(bytes); std::unique_ptr<std::streambuf> sb; std::unique_ptr<std::istream> is;
      if(how == "stream") { src.setByteStream(ss); src.setSystemId(X::in(sys)); }
      else if(how == "owned") { src.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(bytes))); src.setSystemId(X::in(sys)); }
      else if(how == "slow" || how == "broken") { 
        if(how == "slow") sb.reset(new SlowBuf(bytes, k)); else sb.reset(new BrokenBuf(bytes));
        is.reset(new std::istream(sb.get())); src.setByteStream(*is); src.setSystemId(X::in(sys)); }
      else if(how == "file" || how == "uri") {
        char t[] = "/tmp/vdrvXXXXXX"; int fd = mkstemp(t); if(fd < 0) { out({"HARNESS", "mkstemp"}); vdrv::flush(); _exit(98); }
        for(size_t o2 = 0; o2 < bytes.size(); ) { ssize_t n = ::write(fd, bytes.data()+o2, bytes.size()-o2); if(n <= 0) break; o2 += n; }
        close(fd); scratch = t; src.setSystemId(X::in(how == "uri" ? "file://" + scratch : scratch)); }
      else if(how == "missing") src.setSystemId(X::in(sys));   // the reader has to find it
      else if(how == "both") { src.setByteStream(ss); src.setSystemId(X::in(sys)); }
      struct Un { std::string& p; ~Un() { if(!p.empty()) ::unlink(p.c_str()); } } un{scratch};
      top().parse(src);
      out({"RET"});
    }
    catch(const SAX::SAXException& e) { out({"EXC", "SAX", e.what()}); }
    catch(const Boom& e) { out({"EXC", "Boom", e.what()}); }
    catch(const std::exception& e) { out({"EXC", "std", e.what()}); }
    catch(int) { out({"EXC", "int"}); }
    log.countdown = -1;
    for(auto& p : outs) { out({"OUT", p.first, X::out(p.second->str())}); p.second->str(std::basic_string<C>()); p.second->clear(); }
    out({"PEND"});
  }
};

// --- attribute lists and namespace context stacks (C07)
template<class S> struct Lists {
  typedef vdrv::Str<S> X; typedef SAX::AttributesImpl<S> AI;
  static std::string o(const S& s) { return X::out(s); }
  static S i(const std::string& s) { return X::in(s); }
  AI a[2]; SAX::NamespaceSupport<S, default_string_adaptor<S> > ns;
  void dump(const std::string& tag, const SAX::Attributes<S>& a) {
    Line l{tag, num(a.getLength())};
    for(int k = 0; k < a.getLength(); ++k) { l.push_back(o(a.getURI(k))); l.push_back(o(a.getLocalName(k))); l.push_back(o(a.getQName(k))); l.push_back(o(a.getType(k))); l.push_back(o(a.getValue(k))); }
    out(l); }
  bool run(const Line& l) {
    const std::string& c = l[0];
    auto w = [&](size_t k) { return std::stoi(l[k]); };
    if(c == "a.add") { if(l.size() > 7 && l[7] == "attr") a[w(1)].addAttribute(typename AI::Attr(i(l[2]), i(l[3]), i(l[4]), i(l[5]), i(l[6]))); else a[w(1)].addAttribute(i(l[2]), i(l[3]), i(l[4]), i(l[5]), i(l[6])); }
    else if(c == "a.aor") { a[w(1)].addOrReplaceAttribute(i(l[2]), i(l[3]), i(l[4]), i(l[5]), i(l[6])); }
    else if(c == "a.set") a[w(1)].setAttribute(w(2), i(l[3]), i(l[4]), i(l[5]), i(l[6]), i(l[7]));
    else if(c == "a.rm") a[w(1)].removeAttribute(w(2));
    else if(c == "a.uri") a[w(1)].setURI(w(2), i(l[3]));
    else if(c == "a.local") a[w(1)].setLocalName(w(2), i(l[3]));
    else if(c == "a.qname") a[w(1)].setQName(w(2), i(l[3]));
    else if(c == "a.type") a[w(1)].setType(w(2), i(l[3]));
    else if(c == "a.value") a[w(1)].setValue(w(2), i(l[3]));
    else if(c == "a.clear") a[w(1)].clear();
    else if(c == "a.copy") { const SAX::Attributes<S>& src = a[w(2)]; if(l[3] == "set") { if(w(1) != w(2)) a[w(1)].setAttributes(src); } else if(l[3] == "assign") a[w(1)] = src; else if(l[3] == "impl") a[w(1)] = a[w(2)]; else { AI tmp(src); a[w(1)] = tmp; } }
    else if(c == "a.dump") dump("DUMP", a[w(1)]);
    else if(c == "a.eq") out({"EQ", a[0] == a[1] ? "1" : "0"});
    else if(c == "a.byq") { AI& x = a[w(1)]; S q = i(l[2]); out({"BYQ", num(x.getIndex(q)), o(x.getType(q)), o(x.getValue(q))}); }
    else if(c == "a.byn") { AI& x = a[w(1)]; S u = i(l[2]), n = i(l[3]); out({"BYN", num(x.getIndex(u, n)), o(x.getType(u, n)), o(x.getValue(u, n))}); }
    else if(c == "a.at") { AI& x = a[w(1)]; unsigned k = w(2); out({"AT", o(x.getURI(k)), o(x.getLocalName(k)), o(x.getQName(k)), o(x.getType(k)), o(x.getValue(k))}); }
    else if(c == "n.push") ns.pushContext();
    else if(c == "n.pop") ns.popContext();
    else if(c == "n.reset") ns.reset();
    else if(c == "n.decl") out({"DECL", ns.declarePrefix(i(l[1]), i(l[2])) ? "1" : "0"});
    else if(c == "n.uri") out({"URI", o(ns.getURI(i(l[1])))});
    else if(c == "n.prefix") out({"PREFIX", o(ns.getPrefix(i(l[1])))});
    else if(c == "n.prefixes") { Line r{"PREFIXES"}; auto v = l.size() > 1 ? ns.getPrefixes(i(l[1])) : ns.getPrefixes(); for(auto& p : v) r.push_back(o(p)); out(r); }
    else if(c == "n.declared") { Line r{"DECLARED"}; auto v = ns.getDeclaredPrefixes(); for(auto& p : v) r.push_back(o(p)); out(r); }
    else if(c == "n.name") { try { auto q = ns.processName(i(l[1]), l[2] == "1"); out({"NAME", o(q.namespaceUri()), o(q.localName()), o(q.rawName()), o(q.prefix())}); } catch(const SAX::SAXException& e) { out({"NAMEEXC"}); } }
    else return false;
    return true; }
};

template<class S> void go(const Lines& body) {
  Session<S> s; Lists<S> ls;
  for(auto& l : body) {
    const std::string& c = l[0];
    if(c[1] == '.') { if(!ls.run(l)) { out({"HARNESS", c}); vdrv::flush(); _exit(98); } continue; }
    if(c == "DOC") s.docs[l[1]] = unhex(l[2]);
    else if(c == "FILTERS") s.fresh(Line(l.begin()+1, l.end()));
    else if(c == "FEAT") s.feature(l[1], l[2] == "1");
    else if(c == "HANDLERS") s.handlers = l[1];
    else if(c == "HOOK") s.hook();
    else if(c == "RESOLVER") { s.resolver = true; s.hook(); }
    else if(c == "LOCS") s.log.locs = l[1] == "1";
    else if(c == "PROBE") { s.log.prefixes.clear(); for(size_t k = 1; k < l.size(); ++k) s.log.prefixes.push_back(vdrv::Str<S>::in(l[k])); }
    else if(c == "BASE") { if(s.log.bt) s.log.bt->setDocumentLocation(vdrv::Str<S>::in(l[1])); }
    else if(c == "FDS") out({"FDS", num(vdrv::fds())});
    else if(c == "THROW") { s.log.countdown = std::stol(l[1]); s.log.throwType = std::stoi(l[2]); }
    else if(c == "PARSE") s.parse(l[1], l[2], l.size() > 3 ? l[3] : "", l.size() > 4 ? std::stoul(l[4]) : 1);
    else { out({"HARNESS", c}); vdrv::flush(); _exit(98); }
  }
}

void run_case(const Line& head, const Lines& body) {
#ifdef OWN_STRING
  if(head.size() > 2 && head[2] == "o") return go<Own>(body);
#endif
  if(head.size() > 2 && head[2] == "w") go<std::wstring>(body); else go<std::string>(body);
}
