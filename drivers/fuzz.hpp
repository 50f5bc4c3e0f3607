// Shared by the fuzz targets: counters for the evidence, and the exceptions a caller has been promised.
#ifndef FUZZ_HPP
#define FUZZ_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <SAX/SAXException.hpp>
namespace fuzz {
  inline std::map<std::string, unsigned long>& counts() { static std::map<std::string, unsigned long>* m = new std::map<std::string, unsigned long>; return *m; }
  inline void report() { for(auto& c : counts()) fprintf(stderr, "COUNT\t%s\t%lu\n", c.first.c_str(), c.second); }
  inline void count(const char* what) { static bool first = (atexit(report), true); (void)first; ++counts()[what]; }
  // anything but these escapes, and is a finding
  template<class F> bool guard(const char* what, F f) {
    try { f(); count(what); return true; }
    catch(const std::runtime_error&) { count((std::string(what) + " refused").c_str()); }
    catch(const int&) { count((std::string(what) + ": handler threw").c_str()); }
    return false; }
  // fails as streams do, in the middle of a buffer or between two
  struct Source : std::streambuf {
    const char* p; size_t n, k; long fail;
    Source(const char* p_, size_t n_, size_t k_, long fail_) : p(p_), n(n_), k(k_ ? k_ : 1), fail(fail_) {}
    int underflow() override {
      if(fail >= 0 && fail-- == 0) throw std::ios_base::failure("broken");
      if(!n) return EOF;
      size_t m = n < k ? n : k; char* q = const_cast<char*>(p); setg(q, q, q+m); p += m; n -= m; return (unsigned char)*gptr(); } };
}
#endif
