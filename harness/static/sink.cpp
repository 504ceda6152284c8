#include "sink.h"
#include <streambuf>
#include <new>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
#include <unistd.h>
namespace vk {
constinit int channels, debug_on, phase;
constinit bool notice_on;
static constinit char got[1 << 20], want[1 << 20], fails[1 << 16];
static constinit size_t ngot, nwant, nfails;
static constinit int events[16][3];
struct Sink : std::streambuf
{
  int overflow(int c) override { if (ngot < sizeof got) got[ngot++] = c; return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) overflow(s[i]); return n; }
};
std::ostream& sink()
{
  alignas(Sink) static char b[sizeof(Sink)];
  alignas(std::ostream) static char o[sizeof(std::ostream)];
  static bool done;
  if (!done)
  {
    done = true;
    static std::ios_base::Init init;
    new (o) std::ostream(new (b) Sink);
  }
  return *reinterpret_cast<std::ostream*>(o);
}
void expect(char const* label, int indent, char const* text)
{
  nwant += snprintf(want + nwant, sizeof want - nwant, "%s:%*s%s\n", label, indent, "", text);
}
void fail(char const* key, char const* detail) { nfails += snprintf(fails + nfails, sizeof fails - nfails, "FAIL %s\t%s\n", key, detail); }
void event(int k) { ++events[k][phase]; }
static void put(std::string const& s) { size_t n = 0; while (n < s.size()) { ssize_t r = ::write(1, s.data() + n, s.size() - n); if (r <= 0) break; n += r; } }
static std::vector<std::string> lines(char const* p, size_t n, bool squeeze)
{
  std::vector<std::string> r;
  std::string cur;
  for (size_t i = 0; i < n; ++i)
  {
    if (p[i] == '\n') { r.push_back(cur); cur.clear(); }
    else cur += p[i];
  }
  if (!cur.empty()) r.push_back(cur + "<no newline>");
  if (squeeze)
    for (auto& l : r)
    {
      auto c = l.find(": ");
      if (c == l.npos) continue;
      std::string label = l.substr(0, c);
      while (!label.empty() && label.back() == ' ') label.pop_back();
      l = label + ":" + l.substr(c + 2);
    }
  return r;
}
__attribute__((destructor(101))) static void done()
{
  auto g = lines(got, ngot, true), w = lines(want, nwant, false);
  size_t i = 0;
  while (i < g.size() && i < w.size() && g[i] == w[i]) ++i;
  std::string o(fails, nfails);
  if (i < g.size() || i < w.size())
    o += "FAIL lines\tline " + std::to_string(i) + " of " + std::to_string(w.size()) + "\\nexpected: " + (i < w.size() ? w[i] : "(end)") + "\\ngot:      " + (i < g.size() ? g[i] : "(end)") +
      "\\nbefore:   " + (i ? w[i - 1] : "") + "\\n";
  for (size_t k = 0; k < 16; ++k) for (int p = 0; p < 3; ++p)
    if (events[k][p]) o += "STAT events_" + std::to_string(k) + "_" + (p == 0 ? "before" : p == 1 ? "main" : "after") + " " + std::to_string(events[k][p]) + "\n";
  o += "\nLINES " + std::to_string(g.size()) + "\nDONE\n";
  put(o);
}
}
