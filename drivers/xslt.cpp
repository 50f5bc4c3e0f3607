// XSLT driver: compiles stylesheets (from files in a scratch directory), executes them on documents
// into stream and DOM sinks, and logs outputs, messages and errors.
#ifndef STR
#define STR std::string
#endif
#include "vdrv.hpp"
#include <SAX/InputSource.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <XSLT/XSLT.hpp>
#include <sys/stat.h>
#include <map>
#include <memory>
using namespace Arabica;
typedef STR S;
typedef vdrv::Str<S> V;
typedef default_string_adaptor<S> SA;
typedef SA::value_type CH;
typedef DOM::Node<S> N; typedef DOM::Document<S> Doc; typedef DOM::Element<S> El; typedef DOM::Attr<S> At;
typedef XSLT::Stylesheet<S> Sheet; typedef XSLT::StylesheetCompiler<S> Comp;

static S in(const std::string& s) { return V::in(s); }
static std::string o(const S& s) { return V::out(s); }

struct Dir { std::string d; std::vector<std::string> files, dirs;
  Dir() { char t[] = "/tmp/vxslt.XXXXXX"; d = mkdtemp(t); }
  ~Dir() { for(auto& f : files) unlink(f.c_str()); for(size_t i = dirs.size(); i--;) rmdir(dirs[i].c_str()); rmdir(d.c_str()); }
  void put(const std::string& n, const std::string& t) { std::string f = d + "/" + n;
    size_t s = n.find('/'); if(s != std::string::npos) { std::string q = d + "/" + n.substr(0, s); if(mkdir(q.c_str(), 0700) == 0) dirs.push_back(q); }
    std::ofstream x(f, std::ios::binary); x << t; files.push_back(f); } };

template<class T> struct Stream;
template<> struct Stream<std::string> { typedef std::ostringstream type; static std::string s(type& t) { return t.str(); } };
template<> struct Stream<std::wstring> { typedef std::wostringstream type; static std::string s(type& t) { return vdrv::w2u(t.str()); } };
typedef Stream<std::basic_string<CH> > ST;

struct Run {
  std::unique_ptr<Dir> dir;
  Comp compiler;
  std::map<std::string, Doc> docs;
  std::map<std::string, std::shared_ptr<ST::type> > streams;
  std::map<std::string, std::shared_ptr<XSLT::StreamSink<S> > > sinks;
  std::map<std::string, std::shared_ptr<Sheet> > sheets;
  std::map<std::string, std::shared_ptr<ST::type> > errs;

  std::string strip(std::string s) { // scratch directory names are not part of results
    if(dir) for(size_t p; (p = s.find(dir->d)) != std::string::npos;) s.replace(p, dir->d.size(), "$DIR");
    return s; }
  void dump(const N& n, const char* tag) {
    switch(n.getNodeType()) {
    case N::ELEMENT_NODE: { vdrv::out({tag, "E", o(n.getNamespaceURI()), o(SA::empty(n.getNamespaceURI()) && SA::empty(n.getLocalName()) ? n.getNodeName() : n.getLocalName()), o(n.getNodeName())});
      DOM::NamedNodeMap<S> m = n.getAttributes();
      for(unsigned i = 0; i < m.getLength(); ++i) { N a = m.item(i); vdrv::out({tag, "A", o(a.getNamespaceURI()), o(SA::empty(a.getLocalName()) ? a.getNodeName() : a.getLocalName()), o(a.getNodeValue()), o(a.getNodeName())}); }
      for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) dump(c, tag);
      vdrv::out({tag, "/"}); break; }
    case N::TEXT_NODE: vdrv::out({tag, "T", o(n.getNodeValue())}); break;
    case N::CDATA_SECTION_NODE: vdrv::out({tag, "D", o(n.getNodeValue())}); break;
    case N::COMMENT_NODE: vdrv::out({tag, "C", o(n.getNodeValue())}); break;
    case N::PROCESSING_INSTRUCTION_NODE: vdrv::out({tag, "P", o(n.getNodeName()), o(n.getNodeValue())}); break;
    case N::DOCUMENT_TYPE_NODE: break;
    default: for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) dump(c, tag); }
  }
  template<class F> bool guard(F f) {
    try { f(); return true; }
    catch(const XPath::SyntaxException& e) { vdrv::out({"x", "Syntax", strip(e.what())}); }
    catch(const XPath::UnsupportedException& e) { vdrv::out({"x", "Unsupported", strip(e.what())}); }
    catch(const XPath::UnboundVariableException& e) { vdrv::out({"x", "UnboundVariable", strip(e.what())}); }
    catch(const XPath::UndefinedFunctionException& e) { vdrv::out({"x", "UndefinedFunction", strip(e.what())}); }
    catch(const SAX::SAXException& e) { vdrv::out({"x", "SAX", strip(e.what())}); }
    catch(const DOM::DOMException& e) { vdrv::out({"x", "DOM", strip(e.what())}); }
    catch(const std::runtime_error& e) { vdrv::out({"x", "runtime", strip(e.what())}); }
    return false; }
  Doc parse(const std::string& text) {
    SAX2DOM::Parser<S> p; SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh);
    std::istringstream is(text); SAX::InputSource<S> src(is); p.parse(src);
    if(eh.errorsReported()) { fprintf(stderr, "HARNESS bad document %s\n", eh.errors().c_str()); _exit(98); }
    return p.getDocument(); }
  static N nth(const N& n, int& k) { if(n.getNodeType() == N::ELEMENT_NODE && k-- == 0) return n;
    for(N c = n.getFirstChild(); c != 0; c = c.getNextSibling()) { N r = nth(c, k); if(r != 0) return r; } return N(); }

  void line(const Line& l) {
    const std::string& c = l[0];
    if(c == "file") { if(!dir) dir.reset(new Dir); dir->put(l[1], l[2]); }
    else if(c == "sheet") { // sheet ID path
      sheets.erase(l[1]);
      std::unique_ptr<Sheet> s;
      bool r = guard([&] { SAX::InputSource<S> src(in(dir->d + "/" + l[2])); s = compiler.compile(src); });
      vdrv::out({"s", l[1], !r ? "threw" : s ? "ok" : "refused", strip(compiler.error())});
      if(s) { errs[l[1]] = std::make_shared<ST::type>(); s->set_error_output(*errs[l[1]]); sheets[l[1]] = std::shared_ptr<Sheet>(s.release()); } }
    else if(c == "mem") { // mem ID text : stylesheet without a system id
      sheets.erase(l[1]);
      std::unique_ptr<Sheet> s; std::istringstream is(l[2]);
      bool r = guard([&] { SAX::InputSource<S> src(is); s = compiler.compile(src); });
      vdrv::out({"s", l[1], !r ? "threw" : s ? "ok" : "refused", strip(compiler.error())});
      if(s) { errs[l[1]] = std::make_shared<ST::type>(); s->set_error_output(*errs[l[1]]); sheets[l[1]] = std::shared_ptr<Sheet>(s.release()); } }
    else if(c == "drop") sheets.erase(l[1]);
    else if(c == "doc") docs[l[1]] = parse(l[2]);
    else if(c == "param") { auto s = get(l[1]); if(!s) return;
      if(l[3] == "B") s->set_parameter(in(l[2]), l[4] == "1"); else if(l[3] == "N") s->set_parameter(in(l[2]), atof(l[4].c_str()));
      else s->set_parameter(in(l[2]), in(l[4])); }
    else if(c == "exec") { auto s = get(l[1]); if(!s) { vdrv::out({"o", "none"}); return; } // exec SHEET DOC stream|dom
      errs[l[1]]->str(std::basic_string<CH>());
      if(l[3] == "stream") { ST::type os; bool ok; { XSLT::StreamSink<S> sink(os); s->set_output(sink); ok = guard([&] { s->execute(docs[l[2]]); }); }
        vdrv::out({"o", ok ? "ok" : "threw", ST::s(os), ST::s(*errs[l[1]])}); }
      else if(l[3] == "dom") { XSLT::DOMSink<S> sink; s->set_output(sink); bool ok = guard([&] { s->execute(docs[l[2]]); });
        if((bool)sink.node() && ok) dump(sink.node(), "d");
        vdrv::out({"o", ok ? "ok" : "threw", "", ST::s(*errs[l[1]])}); }
      else { // a stream sink that lives on between executions
        auto& st = streams[l[3]]; if(!st) { st = std::make_shared<ST::type>(); sinks[l[3]] = std::make_shared<XSLT::StreamSink<S> >(*st); }
        st->str(std::basic_string<CH>()); s->set_output(*sinks[l[3]]);
        bool ok = guard([&] { s->execute(docs[l[2]]); });
        vdrv::out({"o", ok ? "ok" : "threw", ST::s(*st), ST::s(*errs[l[1]])}); } }
    else if(c == "dump") dump(docs[l[1]], "t");
    else if(c == "set") { int k = atoi(l[2].c_str()); N n = nth(docs[l[1]], k); if(n != 0) ((El)n).setAttribute(in(l[3]), in(l[4])); }
    else if(c == "add") { int k = atoi(l[2].c_str()); N n = nth(docs[l[1]], k); if(n != 0) n.appendChild(docs[l[1]].createElementNS(S(), in(l[3]))); }
    else if(c == "del") { int k = atoi(l[2].c_str()); N n = nth(docs[l[1]], k); if(n != 0) n.getParentNode().removeChild(n); }
    else { fprintf(stderr, "HARNESS unknown command %s\n", c.c_str()); _exit(98); }
  }
  std::shared_ptr<Sheet> get(const std::string& id) { auto i = sheets.find(id); return i == sheets.end() ? std::shared_ptr<Sheet>() : i->second; }
};
void run_case(const Line&, const Lines& body) { Run r; for(auto& l : body) r.line(l); }
