// A user supplied string class with as little interface as the library may ask for, and its adaptor.
#ifndef OWNSTRING_HPP
#define OWNSTRING_HPP
#include <string>
#include <vector>
#include <ostream>
#include <Arabica/StringAdaptor.hpp>

class Own {
public:
  Own() { }
  Own(const Own& o) : v_(o.v_) { }
  Own& operator=(const Own& o) { v_ = o.v_; return *this; }
  ~Own() { }
  bool operator==(const Own& o) const { return v_ == o.v_; }
  bool operator!=(const Own& o) const { return v_ != o.v_; }
  friend bool operator<(const Own& a, const Own& b) { return a.v_ < b.v_; }
  friend bool operator>(const Own& a, const Own& b) { return b.v_ < a.v_; }
private:
  std::vector<unsigned char> v_;       // not a std::string, no terminator
  friend class OwnAdaptor;
};

class OwnAdaptor : public Arabica::string_adaptor_tag {
  static Own own(const std::string& s) { Own o; o.v_.assign(s.begin(), s.end()); return o; }
  static const char* p(const Own& o) { return o.v_.empty() ? 0 : reinterpret_cast<const char*>(&o.v_[0]); }
  static char* p(Own& o) { return o.v_.empty() ? 0 : reinterpret_cast<char*>(&o.v_[0]); }
public:
  typedef Own string_type;
  typedef const char* const_iterator;
  typedef char* mutable_iterator;
  typedef std::reverse_iterator<const char*> const_reverse_iterator;
  typedef char value_type;
  typedef std::string::size_type size_type;
  static size_type npos() { return std::string::npos; }
  static const Own& empty_string() { static Own e; return e; }
  template<class It> static Own construct(It from, It to) { return own(std::string(from, to)); }
  static Own construct(const char* s) { return own(s ? s : ""); }
  static Own construct(const std::string& s) { return own(s); }
  static char convert_from_utf8(char c) { return c; }
  static Own construct_from_utf8(const char* s) { return own(s ? s : ""); }
  static Own construct_from_utf8(const char* s, int n) { return s ? own(std::string(s, n)) : Own(); }
  static Own construct_from_utf16(const wchar_t* s) { return own(Arabica::default_string_adaptor<std::string>::construct_from_utf16(s)); }
  static Own construct_from_utf16(const wchar_t* s, int n) { return own(Arabica::default_string_adaptor<std::string>::construct_from_utf16(s, n)); }
  static bool empty(const Own& s) { return s.v_.empty(); }
  static size_type find(const Own& s, const Own& w) { return asStdString(s).find(asStdString(w)); }
  static size_type find(const Own& s, char c) { return asStdString(s).find(c); }
  static size_type find(const Own& s, const Own& w, size_type f) { return asStdString(s).find(asStdString(w), f); }
  static size_type find(const Own& s, char c, size_type f) { return asStdString(s).find(c, f); }
  static Own substr(const Own& s, const size_type& o) { return own(asStdString(s).substr(o)); }
  static Own substr(const Own& s, const size_type& o, const size_type& n) { return own(asStdString(s).substr(o, n)); }
  static size_type length(const Own& s) { return s.v_.size(); }
  static void append(Own& s, const Own& a) { s = concat(s, a); }
  static void append(Own& s, const char& c) { s.v_.push_back(c); }
  static Own concat(const Own& s, const Own& a) { return own(asStdString(s) + asStdString(a)); }
  static Own concat(const Own& s, const char& c) { return own(asStdString(s) + c); }
  static void insert(Own& s, size_type o, const Own& a) { s = own(asStdString(s).insert(o, asStdString(a))); }
  static void replace(Own& s, size_type o, size_type n, const Own& a) { s = own(asStdString(s).replace(o, n, asStdString(a))); }
  static const_iterator begin(const Own& s) { return p(s); }
  static const_iterator end(const Own& s) { return p(s) + s.v_.size(); }
  static mutable_iterator begin(Own& s) { return p(s); }
  static mutable_iterator end(Own& s) { return p(s) + s.v_.size(); }
  static const_reverse_iterator rbegin(const Own& s) { return const_reverse_iterator(end(s)); }
  static std::string asStdString(const Own& s) { return std::string(s.v_.begin(), s.v_.end()); }
  static std::wstring asStdWString(const Own& s) { return Arabica::default_string_adaptor<std::string>::asStdWString(asStdString(s)); }
};
namespace Arabica { template<> class default_string_adaptor<Own> : public OwnAdaptor { }; }
inline std::ostream& operator<<(std::ostream& os, const Own& s) { return os << OwnAdaptor::asStdString(s); }
namespace vdrv {
template<class S> struct Str;
template<> struct Str<Own> {
  static Own in(const std::string& s) { return OwnAdaptor::construct(s); }
  static std::string out(const Own& s) { return OwnAdaptor::asStdString(s); }
  static std::string out(const std::string& s) { return s; } };
}
#endif
