// Reads the rcfile once or more and reports the state of every channel; the model is in vk/props/rcfile.py.
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include <iostream>
#include <new>
#include <pwd.h>

using namespace libcwd;

// The passwd entry of the user that the run pretends to be.
extern "C" struct passwd* getpwuid(uid_t)
{
  static struct passwd pw;
  char const* home = std::getenv("VK_PWHOME");
  if (!home) return nullptr;
  pw.pw_dir = const_cast<char*>(home);
  return &pw;
}

alignas(64) static char storage[64][(sizeof(Channel) + 63) / 64 * 64];

// Extends the keywords, as documented.
struct MyRc : RcFile
{
  bool unknown_keyword(std::string const& keyword, std::string const& value) override
  {
    if (keyword != "mine") return true;
    std::printf("K %s\n", vk::esc(value).c_str());
    return false;
  }
};
static MyRc my_rc;

// usage: object_on reads own label=count ... ; labels with a leading '-' are not in the list.
int main(int argc, char** argv)
{
  bool object_on = std::atoi(argv[1]);
  int reads = std::atoi(argv[2]);
  bool own = std::atoi(argv[3]);
  std::vector<Channel*> custom;
  int n = 0;
  struct Init { std::string label; int count; };
  std::vector<Init> init;
  for (int i = 4; i < argc; ++i)
  {
    std::string a = argv[i];
    size_t p = a.rfind('=');
    init.push_back({ a.substr(0, p), std::atoi(a.c_str() + p + 1) });
    std::string l = init.back().label;
    if (l[0] == '+' || l[0] == '-')
    {
      custom.push_back(new (storage[n++]) Channel(l.c_str() + 1, l[0] == '+'));
      init.back().label = l.substr(1);
    }
  }
  Debug(main_reached());
  auto strip = [](std::string l) { while (!l.empty() && l.back() == ' ') l.pop_back(); return l; };
  auto set = [&](Channel& c) {
    for (auto const& i : init)
      if (strip(c.get_label()) == i.label)
      {
        int now = c.is_on() ? -1 : 0;
        for (; now < i.count; ++now) c.off();
        for (; now > i.count; --now) c.on();
        break;
      }
  };
  ForAllDebugChannels(set(debugChannel));
  for (Channel* c : custom)
  {
    bool visible = false;
    ForAllDebugChannels(if (&debugChannel == c) visible = true);
    if (!visible) set(*c);
  }
  if (object_on)
    Debug(libcw_do.on());
  RcFile& rc = own ? my_rc : rcfile;
  bool was = rc.read_called();
  for (int i = 0; i < reads; ++i)
    rc.read();
  std::cerr.flush();
  std::printf("R %d %d\n", (int)was, (int)rc.read_called());
  std::printf("G %s\nX %s\n", vk::esc(rc.gdb_bin(), 100000).c_str(), vk::esc(rc.konsole_command(), 100000).c_str());
  std::printf("O %d %d\n", (int)libcw_do.is_on(_private_::ThreadSpecificData::instance()), (int)libcw_do.get_indent());
  auto show = [&](Channel& c, char k) {
    int count = 0;
    if (c.is_on()) count = -1;
    else { while (!c.is_on()) { c.on(); ++count; } --count; }
    std::printf("%c %s\t%d\n", k, strip(c.get_label()).c_str(), count);
  };
  ForAllDebugChannels(show(debugChannel, 'S'));
  for (Channel* c : custom)
  {
    bool visible = false;
    ForAllDebugChannels(if (&debugChannel == c) visible = true);
    if (!visible) show(*c, 'H');
  }
  std::printf("DONE\n");
  std::fflush(stdout);
  return 0;
}
