// P01: char2str / buf2str.
#include "vk.h"
#include <libcwd/buf2str.h>
#include <libcwd/char2str.h>
#include <sstream>
#include <iomanip>
#include <string_view>
using namespace vk;

// Decode what was printed; returns false if it is not a valid sequence of escapes and printable characters.
static bool decode(std::string const& s, std::string& out, std::string& why)
{
  for (size_t i = 0; i < s.size(); ++i)
  {
    unsigned char c = s[i];
    if (c < 32 || c > 126) { why = "non-printable output byte"; return false; }
    if (c != '\\') { out += c; continue; }
    if (++i == s.size()) { why = "lone backslash"; return false; }
    switch (s[i])
    {
      case 'a': out += '\a'; break; case 'b': out += '\b'; break; case 't': out += '\t'; break; case 'n': out += '\n'; break;
      case 'v': out += '\v'; break; case 'f': out += '\f'; break; case 'r': out += '\r'; break; case 'e': out += '\x1b'; break;
      case '\\': out += '\\'; break;
      case 'x':
      {
        if (i + 2 >= s.size()) { why = "short hex escape"; return false; }
        int v = 0;
        for (int k = 1; k <= 2; ++k)
        {
          char h = s[i + k];
          int d = h >= '0' && h <= '9' ? h - '0' : h >= 'A' && h <= 'F' ? h - 'A' + 10 : h >= 'a' && h <= 'f' ? h - 'a' + 10 : -1;
          if (d < 0) { why = "bad hex escape"; return false; }
          v = v * 16 + d;
        }
        out += (char)v; i += 2; break;
      }
      default:
      {
        if (s[i] < '0' || s[i] > '7') { why = "unknown escape"; return false; }
        int v = 0, k = 0;
        for (; k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k, ++i) v = v * 8 + (s[i] - '0');
        --i;
        if (k != 3 || v > 255) { why = "bad octal escape"; return false; }
        out += (char)v;
      }
    }
  }
  return true;
}

static void check(std::string const& in, std::string const& printed, char const* what)
{
  std::string back, why;
  if (!decode(printed, back, why))
    report.fail(std::string(what) + ":" + why, "input " + esc(in) + " printed as " + esc(printed));
  else if (back != in)
    report.fail(std::string(what) + ":not the same bytes", "input " + esc(in) + " printed as " + esc(printed) + " decodes to " + esc(back));
  // Printable characters other than the backslash stand for themselves.
  bool plain = true;
  for (unsigned char c : in) if (c < 32 || c > 126 || c == '\\') plain = false;
  if (plain && printed != in)
    report.fail(std::string(what) + ":printable changed", "input " + esc(in) + " printed as " + esc(printed));
}

struct Strict : std::streambuf   // Counts what is written; no buffer.
{
  std::string s;
  int_type overflow(int_type c) override { s += (char)c; return c; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { s.append(p, n); return n; }
};

int main(int argc, char** argv)
{
  Rng r(arg_u64(argc, argv, 1, 1));
  uint64_t cases = arg_u64(argc, argv, 2, 1000);
  static char const named[] = "\a\b\t\n\v\f\r\x1b\\";
  static char const names[] = "abtnvfre\\";
  for (int c = 0; c < 256; ++c)
  {
    std::ostringstream o;
    o << libcwd::char2str((char)c);
    check(std::string(1, (char)c), o.str(), "char2str");
    if (char const* p = c ? std::strchr(named, c) : nullptr)
      if (o.str() != std::string("\\") + names[p - named])
        report.fail("char2str:named escape", "byte " + std::to_string(c) + " printed as " + esc(o.str()));
    report.eval("c" + std::to_string(c));
  }
  for (uint64_t i = 0; i < cases; ++i)
  {
    std::string b;
    size_t len = r.chance(5) ? r.below(5000) : r.below(40);
    int mode = r.below(4);
    for (size_t j = 0; j < len; ++j)
      b += mode == 0 ? (char)r.below(256) : mode == 1 ? (char)(32 + r.below(95)) : mode == 2 ? std::string("\0\\x0123abnrt\xff\x7f\x1b\n", 16)[r.below(16)]
        : (char)(r.chance(90) ? 'a' + r.below(26) : r.below(256));
    Exact e(b);
    Strict sb;
    std::ostream o(&sb);
    auto fl = std::ios_base::fmtflags(0);
    if (r.chance(50)) fl |= std::ios::hex; if (r.chance(50)) fl |= std::ios::showbase; if (r.chance(50)) fl |= std::ios::uppercase; if (r.chance(50)) fl |= std::ios::left;
    o.flags(fl); o.width(0);
    char fill = (char)(32 + r.below(90)); o.fill(fill);
    std::streamsize prec = r.below(20); o.precision(prec);
    if (r.chance(30) && b.find('\0') == std::string::npos) o << libcwd::buf2str(b);
    else if (r.chance(30)) o << libcwd::buf2str(std::string_view(e.p, e.n));
    else o << libcwd::buf2str(e.p, e.n);
    check(b, sb.s, "buf2str");
    if (o.flags() != fl || o.fill() != fill || o.precision() != prec || o.width() != 0)
      report.fail("stream state", "flags/fill/precision/width changed by printing " + esc(b));
    // Each byte is printed as it is printed alone.
    std::ostringstream sep;
    for (char c : b) sep << libcwd::char2str(c);
    if (sep.str() != sb.s) report.fail("buf2str differs from char2str", esc(b));
    report.eval(b, b.size() > 1);
    if (i % (cases / 3 + 1) == 5) report.sample(sb.s);
  }
  return report.done();
}
