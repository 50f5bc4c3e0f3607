// Driver: character conversion facets and streams, URIs, xml:base, XML character classes and names.
#include "vdrv.hpp"
#include <locale>
#include <memory>
#include <Arabica/StringAdaptor.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <io/convert_adaptor.hpp>
#include <io/convertstream.hpp>
#include <io/uri.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/XMLBaseSupport.hpp>
#include <XML/strings.hpp>
#include <XML/QName.hpp>
#include <XML/escaper.hpp>
#include <text/normalize_whitespace.hpp>
using vdrv::out; using vdrv::num;
using namespace Arabica;

template<class C> struct Hex;
template<> struct Hex<char> {
  static std::string in(const std::string& h) { std::string r; for(size_t i = 0; i+1 < h.size(); i += 2) r += char(std::stoi(h.substr(i,2), 0, 16)); return r; }
  static std::string out(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for(unsigned char c : s) { r += d[c>>4]; r += d[c&15]; } return r; } };
template<> struct Hex<wchar_t> {
  static std::wstring in(const std::string& h) { std::wstring r; for(size_t i = 0; i+7 < h.size(); i += 8) r += wchar_t(std::stoul(h.substr(i,8), 0, 16)); return r; }
  static std::string out(const std::wstring& s) { std::string r; char b[16]; for(wchar_t c : s) { sprintf(b, "%08x", unsigned(c)); r += b; } return r; } };

template<class I, class E, class F> struct FacetHolder {
  std::locale loc; const std::codecvt<I,E,std::mbstate_t>& f;
  FacetHolder() : loc(std::locale::classic(), static_cast<std::codecvt<I,E,std::mbstate_t>*>(new F)), f(std::use_facet<std::codecvt<I,E,std::mbstate_t> >(loc)) {} };

// drive a facet the way a stream does: source revealed in steps, destination of a fixed capacity
// (both in exactly sized heap blocks, so that any access outside them is seen)
template<class From, class To, class Call>
void pump(Call call, const std::basic_string<From>& src, const std::vector<size_t>& steps, size_t cap) {
  std::mbstate_t st = std::mbstate_t();
  std::basic_string<To> res; size_t pos = 0, avail = 0, si = 0, calls = 0; std::string fin = "ok";
  while(avail < src.size() || src.empty()) {
    avail = std::min(src.size(), avail + (steps.empty() ? src.size() : steps[si++ % steps.size()]));
    for(;;) {
      size_t n = avail - pos;
      std::unique_ptr<From[]> f(new From[n]); std::copy(src.begin()+pos, src.begin()+avail, f.get());
      std::unique_ptr<To[]> t(new To[cap]);
      const From* fn = f.get(); To* tn = t.get();
      std::codecvt_base::result r = call(st, f.get(), f.get()+n, fn, t.get(), t.get()+cap, tn);
      ++calls;
      size_t used = fn - f.get(), got = tn - t.get();
      if(used > n || got > cap) { out({"BADPOS", num(used), num(got)}); return; }
      res.append(t.get(), tn); pos += used;
      if(r == std::codecvt_base::error) { out({"R", "error", Hex<To>::out(res), num(pos), num(calls)}); return; }
      if(r == std::codecvt_base::noconv) { out({"R", "noconv", Hex<To>::out(res), num(pos), num(calls)}); return; }
      if(r == std::codecvt_base::ok) { fin = "ok"; break; }
      fin = "partial";
      if(!used && !got) break; // wants more input (or more room than the capacity we give)
      if(calls > 100000) { out({"R", "endless", "", num(pos), num(calls)}); return; }
    }
    if(src.empty()) break;
  }
  out({"R", fin, Hex<To>::out(res), num(pos), num(calls)});
}
template<class I, class E, class F> void facet(const Line& l) { // dir steps cap hex
  static FacetHolder<I,E,F> h; auto& f = h.f;
  std::vector<size_t> steps; { std::istringstream s(l[3]); size_t k; while(s >> k) steps.push_back(k); }
  size_t cap = std::stoul(l[4]);
  if(l[2] == "in")
    pump<E,I>([&](std::mbstate_t& st, const E* a, const E* b, const E*& c, I* d, I* e, I*& g) { return f.in(st,a,b,c,d,e,g); }, Hex<E>::in(l[5]), steps, cap);
  else
    pump<I,E>([&](std::mbstate_t& st, const I* a, const I* b, const I*& c, E* d, E* e, E*& g) { return f.out(st,a,b,c,d,e,g); }, Hex<I>::in(l[5]), steps, cap);
}
// streams.  SI: iconvertstream.str / SO: oconvertstream.str / AI: read through iconvert_adaptor / AO: write through oconvert_adaptor
template<class I, class E, class F> void stream(const Line& l) { // kind facet plan hex
  static FacetHolder<I,E,F> h;
  typedef std::char_traits<I> TI; typedef std::char_traits<E> TE;
  const std::string& kind = l[0];
  std::vector<size_t> plan; { std::istringstream s(l[2]); size_t k; while(s >> k) plan.push_back(k); }
  if(kind == "SI") {
    io::basic_iconvertstream<I,TI,E,TE> s; s.imbue(h.loc); s.str(Hex<E>::in(l[3]));
    std::basic_string<I> all; typename TI::int_type c;
    while(!TI::eq_int_type(c = s.get(), TI::eof())) all += TI::to_char_type(c);
    out({"S", Hex<I>::out(s.str()), Hex<I>::out(all)});
  } else if(kind == "SO") {
    io::basic_oconvertstream<I,TI,E,TE> s; s.imbue(h.loc);
    std::basic_string<I> src = Hex<I>::in(l[3]);
    size_t p = 0, i = 0;
    while(p < src.size()) { size_t n = plan.empty() ? src.size() : std::min(src.size()-p, plan[i++ % plan.size()]); s.write(src.data()+p, n); p += n; }
    std::basic_string<E> a = s.str();
    io::basic_oconvertstream<I,TI,E,TE> s2; s2.imbue(h.loc); s2.str(src);
    out({"S", Hex<E>::out(a), Hex<E>::out(s2.str())});
  } else if(kind == "AI") {
    std::basic_istringstream<E,TE> base(Hex<E>::in(l[3]));
    io::iconvert_adaptor<I,TI,E,TE> s(base); s.imbue(h.loc);
    std::basic_string<I> all; size_t i = 0;
    while(s) { size_t n = plan.empty() ? 4096 : plan[i++ % plan.size()];
      if(n == 0) { // read one, put it back, read it again
        typename TI::int_type c = s.get(); if(TI::eq_int_type(c, TI::eof())) break;
        s.unget(); if(!s) { out({"S", "unget failed"}); return; }
        typename TI::int_type c2 = s.get(); if(!TI::eq_int_type(c, c2)) { out({"S", "unget changed"}); return; }
        all += TI::to_char_type(c); continue; }
      std::vector<I> b(n); s.read(&b[0], n); all.append(&b[0], s.gcount()); }
    out({"S", Hex<I>::out(all), Hex<I>::out(all)});
  } else {
    std::basic_ostringstream<E,TE> base; std::basic_string<I> src = Hex<I>::in(l[3]);
    { io::oconvert_adaptor<I,TI,E,TE> s(base); s.imbue(h.loc);
      size_t p = 0, i = 0;
      while(p < src.size()) { size_t n = plan.empty() ? src.size() : plan[i++ % plan.size()];
        if(n == 0) { s.flush(); continue; }
        n = std::min(src.size()-p, n); s.write(src.data()+p, n); p += n; }
      s.flush();
      if(!s) { out({"S", "failed", Hex<E>::out(base.str())}); return; } }
    out({"S", Hex<E>::out(base.str()), Hex<E>::out(base.str())});
  }
}
template<class Fn> void byName(const std::string& n, Fn fn) { fn(n); }
#define FACETS(M) \
  M("utf8ucs2", wchar_t, char, convert::utf8ucs2codecvt) M("ucs2utf8", char, wchar_t, convert::ucs2utf8codecvt) \
  M("utf16be", wchar_t, char, convert::utf16beucs2codecvt) M("utf16le", wchar_t, char, convert::utf16leucs2codecvt) \
  M("utf16utf8", char, wchar_t, convert::utf16utf8codecvt) M("iso88591utf8", char, char, convert::iso88591utf8codecvt) \
  M("utf8iso88591", char, char, convert::utf8iso88591codecvt) M("base64", char, char, convert::base64codecvt) \
  M("rot13", char, char, convert::rot13codecvt)

static void uri(const io::URI& u) { out({"URI", u.scheme(), u.host(), u.port(), u.path(), u.is_absolute() ? "1" : "0", u.as_string()}); }

static void ranges(bool (*f)(wchar_t), const char* name, long lo, long hi) {
  Line l; l.push_back("CLS"); l.push_back(name); long start = -1;
  for(long c = lo; c <= hi+1; ++c) {
    bool b = c <= hi && f(wchar_t(c));
    if(b && start < 0) start = c;
    if(!b && start >= 0) { l.push_back(num(start) + "-" + num(c-1)); start = -1; } }
  out(l);
}
template<class S> void names(const std::string& t, const char* tag) {
  typedef default_string_adaptor<S> SA; typedef vdrv::Str<S> V;
  S s = V::in(t);
  std::string q = "-";
  std::map<S,S> ns; ns[V::in("p")] = V::in("urn:p"); ns[S()] = V::in("urn:d");
  for(int a = 0; a < 2; ++a) {
    try { XML::QualifiedName<S,SA> n = XML::QualifiedName<S,SA>::parseQName(s, a != 0, ns);
      q += V::out(n.prefix()) + "|" + V::out(n.localName()) + "|" + V::out(n.namespaceUri()) + "|" + V::out(n.rawName()) + "|" + V::out(n.clarkName()) + "-"; }
    catch(const std::runtime_error&) { q += "bad-"; } }
  std::basic_ostringstream<typename S::value_type> esc, aesc;
  std::for_each(s.begin(), s.end(), XML::text_escaper<typename S::value_type>(esc));
  std::for_each(s.begin(), s.end(), XML::attribute_escaper<typename S::value_type>(aesc));
  out({tag, XML::is_ncname<SA>(s) ? "1" : "0", XML::is_qname<SA>(s) ? "1" : "0", q,
       V::out(text::normalize_whitespace<S,SA>(s)), V::out(esc.str()), V::out(aesc.str())});
}

void run_case(const Line&, const Lines& body) {
  std::unique_ptr<SAX::XMLBaseSupport<std::string> > xb(new SAX::XMLBaseSupport<std::string>);
  for(const Line& l : body) {
    const std::string& op = l[0];
    if(op == "F") {
#define M(N,I,E,T) if(l[1] == N) { facet<I,E,T>(l); continue; }
      FACETS(M)
#undef M
    } else if(op == "SI" || op == "SO" || op == "AI" || op == "AO") {
#define M(N,I,E,T) if(l[1] == N) { stream<I,E,T>(l); continue; }
#define FS(M) M("utf8ucs2", wchar_t, char, convert::utf8ucs2codecvt) M("utf16be", wchar_t, char, convert::utf16beucs2codecvt) \
  M("utf16le", wchar_t, char, convert::utf16leucs2codecvt) M("iso88591utf8", char, char, convert::iso88591utf8codecvt) \
  M("utf8iso88591", char, char, convert::utf8iso88591codecvt) M("base64", char, char, convert::base64codecvt) M("rot13", char, char, convert::rot13codecvt)
      FS(M)
#undef M
    } else if(op == "SA") { // string adaptors, both directions
      typedef default_string_adaptor<std::string> A; typedef default_string_adaptor<std::wstring> W;
      std::string s = Hex<char>::in(l[1]); std::wstring w = Hex<wchar_t>::in(l[2]);
      out({"SA", Hex<wchar_t>::out(A::asStdWString(s)), Hex<char>::out(A::construct_from_utf16(w.c_str())),
           Hex<char>::out(A::construct_from_utf16(w.data(), int(w.size()))),
           Hex<wchar_t>::out(W::construct_from_utf8(s.c_str())), Hex<wchar_t>::out(W::construct_from_utf8(s.data(), int(s.size()))),
           Hex<char>::out(W::asStdString(w))});
    } else if(op == "U") { uri(io::URI(l[1])); }
    else if(op == "R") { io::URI b(l[1]); io::URI r(b, l[2]); uri(r); uri(io::URI(r, "")); io::URI again(r.as_string()); out({"EQ", again == r ? "1" : "0"}); }
    else if(op == "XLOC") xb->setDocumentLocation(l[1]);
    else if(op == "XS") { SAX::AttributesImpl<std::string> a;
      if(l.size() > 1) a.addAttribute("http://www.w3.org/XML/1998/namespace", "base", "xml:base", "CDATA", l[1]);
      xb->startElement(a); out({"B", xb->currentBase(), xb->makeAbsolute("x/y")}); }
    else if(op == "XE") { xb->endElement(); out({"B", xb->currentBase(), xb->makeAbsolute("../z")}); }
    else if(op == "CLS") { long lo = std::stol(l[1]), hi = std::stol(l[2]);
      ranges(XML::is_char, "char", lo, hi); ranges(XML::is_space, "space", lo, hi); ranges(XML::is_name_char, "name_char", lo, hi);
      ranges(XML::is_ncname_char, "ncname_char", lo, hi); ranges(XML::is_letter, "letter", lo, hi); ranges(XML::is_base_char, "base_char", lo, hi);
      ranges(XML::is_ideographic, "ideographic", lo, hi); ranges(XML::is_digit, "digit", lo, hi);
      ranges(XML::is_combining_char, "combining_char", lo, hi); ranges(XML::is_extender, "extender", lo, hi);
      ranges(XML::is_letter_or_digit, "letter_or_digit", lo, hi); }
    else if(op == "N") { names<std::string>(l[1], "NN"); names<std::wstring>(l[1], "NW"); }
    else { fprintf(stderr, "HARNESS bad op %s\n", op.c_str()); _exit(98); }
  }
}
