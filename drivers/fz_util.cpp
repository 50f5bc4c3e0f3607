// Fuzz target: URIs, name classes, whitespace, escaping, and the conversion facets on arbitrary data and splits.
#include "fuzz.hpp"
#include <locale>
#include <memory>
#include <vector>
#include <algorithm>
#include <iterator>
#include <Arabica/StringAdaptor.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <io/convert_adaptor.hpp>
#include <io/convertstream.hpp>
#include <io/uri.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/XMLBaseSupport.hpp>
#include <XML/strings.hpp>
#include <XML/QName.hpp>
#include <XML/escaper.hpp>
#include <text/normalize_whitespace.hpp>
using namespace Arabica;
template<class I, class E, class F> struct Holder {
  std::locale loc; const std::codecvt<I,E,std::mbstate_t>& f;
  Holder() : loc(std::locale::classic(), static_cast<std::codecvt<I,E,std::mbstate_t>*>(new F)), f(std::use_facet<std::codecvt<I,E,std::mbstate_t> >(loc)) {} };
template<class From, class To, class Call> void pump(Call call, const std::basic_string<From>& s, size_t step, size_t cap) {
  std::mbstate_t st = std::mbstate_t(); size_t pos = 0, avail = 0, stuck = 0;
  while(avail < s.size()) {
    avail = std::min(s.size(), avail + step);
    for(;;) {
      size_t n = avail - pos; std::unique_ptr<From[]> f(new From[n]); std::copy(s.begin()+pos, s.begin()+avail, f.get()); std::unique_ptr<To[]> t(new To[cap]);
      const From* fn = f.get(); To* tn = t.get();
      auto r = call(st, f.get(), f.get()+n, fn, t.get(), t.get()+cap, tn);
      size_t used = fn - f.get(), got = tn - t.get();
      if(used > n || got > cap) abort();
      pos += used; fuzz::count("facet calls");
      if(r == std::codecvt_base::error || r == std::codecvt_base::noconv) return;
      if(r == std::codecvt_base::ok || (!used && !got)) break; } } }
template<class I, class E, class F> void facet(const std::string& b, unsigned f) {
  static Holder<I,E,F>& h = *new Holder<I,E,F>; size_t step = 1 + (f & 7), cap = 1 + (f >> 4);
  std::basic_string<E> e(b.begin(), b.end()); std::basic_string<I> i;
  if(sizeof(I) == 1) i.assign(b.begin(), b.end()); else for(size_t k = 0; k + 1 < b.size(); k += 2) i += I((unsigned char)b[k] << 8 | (unsigned char)b[k+1]) + (f & 8 ? I(0x10000) * (k & 15) : 0);
  pump<E,I>([&](std::mbstate_t& st, const E* a, const E* z, const E*& c, I* d, I* g, I*& k) { return h.f.in(st,a,z,c,d,g,k); }, e, step, cap);
  pump<I,E>([&](std::mbstate_t& st, const I* a, const I* z, const I*& c, E* d, E* g, E*& k) { return h.f.out(st,a,z,c,d,g,k); }, i, step, cap);
  { std::mbstate_t st = std::mbstate_t(); size_t n = h.f.length(st, e.data(), e.data()+e.size(), cap); if(n > e.size()) abort(); } }
template<class I, class E, class F> void streams(const std::string& b) {
  typedef std::char_traits<I> TI; typedef std::char_traits<E> TE;
  static Holder<I,E,F>& h = *new Holder<I,E,F>;
  std::basic_string<E> e(b.begin(), b.end());
  std::basic_istringstream<E> is(e); io::iconvert_adaptor<I,TI,E,TE> a(is); a.imbue(h.loc);
  std::basic_string<I> out; size_t n = 0; I c; while(a.get(c)) { out += c; if(++n > 16 * b.size() + 64) abort(); }
  std::basic_ostringstream<E> os; io::oconvert_adaptor<I,TI,E,TE> o(os); o.imbue(h.loc); o << out; o.flush();
  fuzz::count("streams"); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if(size < 3) return 0;
  unsigned what = data[0] % 10, f = data[1]; std::string b((const char*)data + 2, size - 2);
  switch(what) {
  case 0: facet<char,char,convert::base64codecvt>(b, f); streams<char,char,convert::base64codecvt>(b); break;
  case 1: facet<char,char,convert::rot13codecvt>(b, f); streams<char,char,convert::rot13codecvt>(b); break;
  case 2: facet<char,char,convert::iso88591utf8codecvt>(b, f); streams<char,char,convert::iso88591utf8codecvt>(b); break;
  case 3: facet<char,char,convert::utf8iso88591codecvt>(b, f); streams<char,char,convert::utf8iso88591codecvt>(b); break;
  case 4: facet<wchar_t,char,convert::utf8ucs2codecvt>(b, f); streams<wchar_t,char,convert::utf8ucs2codecvt>(b); break;
  case 5: facet<wchar_t,char,convert::utf16beucs2codecvt>(b, f); streams<wchar_t,char,convert::utf16beucs2codecvt>(b); break;
  case 6: facet<wchar_t,char,convert::utf16leucs2codecvt>(b, f); streams<wchar_t,char,convert::utf16leucs2codecvt>(b); break;
  case 7: facet<char,wchar_t,convert::ucs2utf8codecvt>(b, f); break;
  case 8: { size_t cut = b.size() ? f % b.size() : 0; std::string base = b.substr(0, cut), rel = b.substr(cut);
    fuzz::guard("URI", [&] { io::URI u(base); u.as_string(); u.scheme(); u.host(); u.port(); u.path(); u.is_absolute(); io::URI v(u, rel); v.as_string(); io::URI w(v, base); w.as_string(); });
    fuzz::guard("xml:base", [&] { SAX::XMLBaseSupport<std::string> x; x.setDocumentLocation(base); SAX::AttributesImpl<std::string> a; a.addAttribute("http://www.w3.org/XML/1998/namespace", "base", "xml:base", "CDATA", rel);
      x.startElement(a); x.makeAbsolute(base); x.startElement(a); x.makeAbsolute(rel); x.endElement(); x.endElement(); }); break; }
  case 9: { typedef default_string_adaptor<std::string> SA; std::wstring wb; for(unsigned char ch : b) wb += wchar_t(ch * (f + 1));
    typedef default_string_adaptor<std::wstring> WA;
    XML::is_ncname<SA>(b); XML::is_qname<SA>(b); XML::is_qname<WA>(wb); XML::is_ncname<WA>(wb);
    std::map<std::string, std::string> ns; ns["p"] = "urn:p"; ns[""] = "urn:d";
    fuzz::guard("qualified name", [&] { XML::QualifiedName<std::string,SA> n = XML::QualifiedName<std::string,SA>::parseQName(b, f & 1, ns); n.clarkName(); n.rawName(); });
    text::normalize_whitespace<std::string, SA>(b); text::normalize_whitespace<std::wstring, WA>(wb);
    { std::ostringstream os; std::for_each(b.begin(), b.end(), XML::text_escaper<char>(os)); std::for_each(b.begin(), b.end(), XML::attribute_escaper<char>(os)); }
    SA::asStdWString(b); WA::asStdString(wb); fuzz::count("strings"); break; } }
  return 0;
}
