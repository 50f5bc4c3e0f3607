// Streams over sockets and registered URI resolvers.
#include "vdrv.hpp"
#include <io/socket_stream.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <SAX/InputSource.hpp>
#include <memory>
#include <map>
using namespace Arabica;
using vdrv::out; using vdrv::num;

static std::string unhex(const std::string& h) { std::string r; for(size_t i = 0; i+1 < h.size(); i += 2) r += char(std::stoi(h.substr(i,2), 0, 16)); return r; }
static std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
using vdrv::fds;

// resolvers: content by URI, counting the streams which are alive
static std::map<std::string, std::string>& content() { static std::map<std::string, std::string> m; return m; }
static int alive = 0, opened = 0;
struct Counted : std::istringstream { Counted(const std::string& s) : std::istringstream(s) { ++alive; ++opened; } ~Counted() { --alive; } };
static std::istream* mem1(const std::string& u) { out({"ASKED", "1", u}); auto i = content().find(u); return i == content().end() ? 0 : new Counted(i->second); }
static std::istream* mem2(const std::string& u) { out({"ASKED", "2", u}); auto i = content().find(u); return i == content().end() ? 0 : new Counted("2:" + i->second); }

static std::string slurp(std::istream& s, const std::string& how, size_t k) {
  std::string r;
  if(how == "get") { int c; while(r.size() < k && (c = s.get()) != EOF) r += char(c); }
  else if(how == "read") { std::vector<char> b(k ? k : 1); s.read(b.data(), k); r.assign(b.data(), s.gcount()); }
  else if(how == "line") { std::getline(s, r); r += s.eof() ? "" : "\n"; }
  else if(how == "some") { std::vector<char> b(k ? k : 1); if(s.peek() != EOF) { std::streamsize n = s.rdbuf()->in_avail(); n = std::min<std::streamsize>(n, k); s.read(b.data(), n); r.assign(b.data(), s.gcount()); } }
  else if(how == "all") { std::ostringstream o; o << s.rdbuf(); r = o.str(); }
  return r; }

void run_case(const Line& head, const Lines& body) {
  typedef default_string_adaptor<std::string> SA;
  std::unique_ptr<io::socketstream> so;
  long before = fds();
  content().clear();
  for(auto& l : body) {
    const std::string& c = l[0];
    if(c == "open") { if(l[3] == "ctor") so.reset(new io::socketstream(l[1].c_str(), std::stoi(l[2]))); else { if(!so) so.reset(new io::socketstream); if(l[3] == "again") so->clear(); so->open(l[1].c_str(), std::stoi(l[2])); } out({"OPEN", so->is_open() ? "1" : "0", so->good() ? "1" : "0"}); }
    else if(c == "w") { std::string b = unhex(l[2]); if(l[1] == "put") for(char x : b) so->put(x); else if(l[1] == "write") so->write(b.data(), b.size()); else *so << b; out({"W", so->good() ? "1" : "0"}); }
    else if(c == "flush") { so->flush(); out({"FLUSH", so->good() ? "1" : "0"}); }
    else if(c == "r") { std::string r = slurp(*so, l[1], std::stoul(l[2])); out({"R", hex(r), so->eof() ? "eof" : ""}); }
    else if(c == "gone") { std::string b(std::stoul(l[1]), 'x'); for(long k = 0; k < 25000 && so->good(); ++k, usleep(1000 * std::stol(l[2]))) { so->write(b.data(), b.size()); so->flush(); } out({"GONE", so->good() ? "1" : "0"}); }
    else if(c == "unget") { so->unget(); out({"UNGET", so->good() ? "1" : "0"}); so->clear(); }
    else if(c == "putback") { so->putback(unhex(l[1])[0]); out({"PUTBACK", so->good() ? "1" : "0"}); so->clear(); }
    else if(c == "peek") { int x = so->peek(); out({"PEEK", num(x)}); }
    else if(c == "close") { so->close(); out({"CLOSE", so->is_open() ? "1" : "0"}); }
    else if(c == "drop") { so.reset(); out({"DROP"}); }
    else if(c == "content") content()[l[1]] = unhex(l[2]);
    else if(c == "register") out({"REG", SAX::InputSourceResolver::registerResolver(l[1], l[2] == "2" ? mem2 : mem1) ? "1" : "0"});
    else if(c == "unregister") out({"UNREG", SAX::InputSourceResolver::unRegisterResolver(l[1]) ? "1" : "0"});
    else if(c == "resolve") {
      opened = 0;
      { SAX::InputSource<std::string> src(l[1]); std::istringstream own(unhex(l[2]));
        if(l.size() > 3 && l[3] == "stream") src.setByteStream(own);
        else if(l.size() > 3 && l[3] == "owned") src.setByteStream(std::unique_ptr<std::istream>(new Counted(unhex(l[2]))));
        SAX::InputSourceResolver r(src, SA());
        std::istream* s = r.resolve();
        if(s) { std::ostringstream o; o << s->rdbuf(); out({"GOT", hex(o.str())}); } else out({"GOT-NOTHING"}); }
      out({"STREAMS", num(opened), num(alive)}); }
    else { out({"HARNESS", c}); vdrv::flush(); _exit(98); }
    vdrv::flush();
  }
  so.reset();
  out({"FDS", num(fds() - before)});
}
