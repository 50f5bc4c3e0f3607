// Shared runtime of the batch drivers: case reader, event log writer, sanitizer hooks.
// A case file is a sequence of lines of TAB-separated fields (\\ \t \n \r \0 escaped):
//   CASE <id> ... / <any lines> / END
// A driver prints, per case:  C <id> / event lines / E <id>
#ifndef VDRV_HPP
#define VDRV_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <initializer_list>
#include <type_traits>
#include <unistd.h>
#include <dirent.h>
#if defined(__SANITIZE_ADDRESS__)
#define VDRV_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VDRV_ASAN 1
#endif
#endif
#ifdef VDRV_ASAN
#include <sanitizer/lsan_interface.h>
#endif

#ifdef OWN_STRING
#include "ownstring.hpp"
#endif

typedef std::vector<std::string> Line;
typedef std::vector<Line> Lines;

namespace vdrv {
inline std::string esc(const std::string& s) {
  std::string r; r.reserve(s.size());
  for(unsigned char c : s) switch(c) {
    case '\\': r += "\\\\"; break; case '\t': r += "\\t"; break; case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break; case 0: r += "\\0"; break; default: r += char(c); }
  return r;
}
inline Line split(const std::string& s) {
  Line r; std::string cur;
  for(size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if(c == '\t') { r.push_back(cur); cur.clear(); }
    else if(c == '\\' && i+1 < s.size()) { char d = s[++i];
      cur += d=='t'?'\t': d=='n'?'\n': d=='r'?'\r': d=='0'?'\0': d; }
    else cur += c;
  }
  r.push_back(cur); return r;
}
#ifdef VDRV_THREADS
inline std::string& buf() { static thread_local std::string b; return b; }   // every thread keeps its own log
inline void flush() { }
inline void flush1() {
#else
inline std::string& buf() { static std::string b; return b; }
inline void flush() {
#endif
  std::string& b = buf(); size_t o = 0;
  while(o < b.size()) { ssize_t n = ::write(1, b.data()+o, b.size()-o); if(n <= 0) _exit(97); o += n; }
  b.clear(); }
inline void out(const Line& l) { std::string& b = buf();
  for(size_t i = 0; i < l.size(); ++i) { if(i) b += '\t'; b += esc(l[i]); } b += '\n';
  if(b.size() > 1<<16) flush(); }
inline void out(std::initializer_list<std::string> l) { out(Line(l)); }
// how many files, sockets... are open
inline long fds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while(d && readdir(d)) ++n; if(d) closedir(d); return n; }
inline std::string num(long n) { return std::to_string(n); }

// UTF-8 <-> wide, independent of the library's own converters
inline std::wstring u2w(const std::string& s) {
  std::wstring r; size_t i = 0;
  while(i < s.size()) { unsigned c = (unsigned char)s[i]; unsigned n = c<0x80?1:c<0xe0?2:c<0xf0?3:4;
    if(c >= 0x80 && c < 0xc0) n = 1;
    unsigned v = n==1?c: n==2?c&0x1f: n==3?c&0xf: c&7;
    for(unsigned k = 1; k < n && i+k < s.size(); ++k) v = (v<<6)|((unsigned char)s[i+k]&0x3f);
    r += wchar_t(v); i += n; }
  return r;
}
inline std::string w2u(const std::wstring& s) {
  std::string r;
  for(wchar_t wc : s) { unsigned long c = wc;
    if(c < 0x80) r += char(c);
    else if(c < 0x800) { r += char(0xc0|(c>>6)); r += char(0x80|(c&0x3f)); }
    else if(c < 0x10000) { r += char(0xe0|(c>>12)); r += char(0x80|((c>>6)&0x3f)); r += char(0x80|(c&0x3f)); }
    else { r += char(0xf0|((c>>18)&7)); r += char(0x80|((c>>12)&0x3f)); r += char(0x80|((c>>6)&0x3f)); r += char(0x80|(c&0x3f)); } }
  return r;
}
template<class S> struct Str;
template<> struct Str<std::string> {
  static std::string in(const std::string& s) { return s; }
  static std::string out(const std::string& s) { return s; } };
template<> struct Str<std::wstring> {
  static std::wstring in(const std::string& s) { return u2w(s); }
  static std::string out(const std::wstring& s) { return w2u(s); } };
}

void run_case(const Line& head, const Lines& body);  // each driver defines this

#ifdef VDRV_THREADS
// THREADS cases mode: every thread runs every case, each in an order of its own, starting together; the logs are printed
// one thread after the other.  drv file threads rotation
#include <atomic>
#include <thread>
#include <mutex>
int main(int argc, char** argv) {
  if(argc < 4) return 96;
  const int T = atoi(argv[2]), rot = atoi(argv[3]);
  std::ifstream f(argv[1], std::ios::binary);
  if(!f) return 95;
  std::vector<std::pair<Line, Lines> > cases; std::string l;
  while(std::getline(f, l)) {
    Line x = vdrv::split(l);
    if(x[0] == "CASE") cases.push_back(std::make_pair(x, Lines()));
    else if(x[0] != "END") cases.back().second.push_back(x);
  }
  std::atomic<int> ready(0); std::mutex m; std::vector<std::string> logs(T); std::vector<std::thread> ts;
  for(int t = 0; t < T; ++t) ts.push_back(std::thread([&, t] {
    const size_t n = cases.size();
    ++ready; while(ready < T) { }
    for(size_t k = 0; k < n; ++k) {
      // half of the threads go through the cases together, the others start elsewhere
      const std::pair<Line, Lines>& c = cases[(k + rot + (t % 2 ? t * n / T : 0)) % n];
      vdrv::out({"C", c.first[1]});
      try { run_case(c.first, c.second); }
      catch(const std::exception& e) { vdrv::out({"FOREIGN", e.what()}); }
      catch(...) { vdrv::out({"FOREIGN", "unknown exception"}); }
      vdrv::out({"E", c.first[1]});
    }
    std::lock_guard<std::mutex> g(m); logs[t] = vdrv::buf(); }));
  for(std::thread& t : ts) t.join();
  for(int t = 0; t < T; ++t) { vdrv::out({"THREAD", vdrv::num(t)}); vdrv::buf() += logs[t]; }
  vdrv::out({"DONE", vdrv::num(cases.size())}); vdrv::flush1();
  _exit(0);
}
#else
int main(int argc, char** argv) {
  if(argc < 2) return 96;
  int leakEvery = argc > 2 ? atoi(argv[2]) : 0;
  std::ifstream f(argv[1], std::ios::binary);
  if(!f) return 95;
  std::string l; int n = 0;
  Line head; Lines body; std::string first, last;
  while(std::getline(f, l)) {
    Line x = vdrv::split(l);
    if(x[0] == "CASE") { head = x; body.clear(); if(first.empty()) first = x[1]; continue; }
    if(x[0] != "END") { body.push_back(x); continue; }
    vdrv::out({"C", head[1]}); vdrv::flush();
    try { run_case(head, body); }
    catch(const std::exception& e) { vdrv::out({"FOREIGN", e.what()}); }
    catch(...) { vdrv::out({"FOREIGN", "unknown exception"}); }
    last = head[1];
    vdrv::out({"E", head[1]});
    head.clear(); body.clear(); ++n;
#ifdef VDRV_ASAN
    if(leakEvery && n % leakEvery == 0) {
      vdrv::flush();
      if(__lsan_do_recoverable_leak_check()) { vdrv::out({"LEAK", first, last}); vdrv::flush(); }
      first.clear();
    }
#endif
  }
#ifdef VDRV_ASAN
  if(leakEvery && !first.empty()) { vdrv::flush();
    if(__lsan_do_recoverable_leak_check()) vdrv::out({"LEAK", first, last}); }
#endif
  vdrv::out({"DONE", vdrv::num(n)}); vdrv::flush();
  _exit(0);
}
#endif
#endif
