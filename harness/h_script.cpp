// Random histories of debug statements, executed by the real library in step with a reference model.
// args: mode seed first_run runs ops [max_label]
//   mode: f = format, n = nested/continued, s = strings, c = on/off, t = several threads taking turns
#include "script.h"

static libcwd::DebugObject second_do;

int main(int argc, char** argv)
{
  setenv("LIBCWD_RCFILE_NAME", "/dev/null", 0);
  char mode = argv[1][0];
  uint64_t seed = arg_u64(argc, argv, 2, 1), first = arg_u64(argc, argv, 3, 0), runs = arg_u64(argc, argv, 4, 10);
  int ops = arg_u64(argc, argv, 5, 200);
  unsigned maxlabel = arg_u64(argc, argv, 6, 16);
  libcwd::_private_::DebugChannels::instance();
  std::vector<libcwd::Channel*> chans;
  std::vector<std::string> labels;
  using libcwd::Channel;
  Channel* c0 = &libcwd::channels::dc::notice;
  chans.push_back(c0); labels.push_back("NOTICE");
  chans.push_back(&libcwd::channels::dc::system); labels.push_back("SYSTEM");
  unsigned width = 8;
  for (std::string l : {std::string("A"), std::string("lower"), std::string("X_LONGEST_LABEL!").substr(0, maxlabel), std::string("MIDDLE")})
  {
    // Channels must have static storage duration: they rely on being zero before construction.
    alignas(Channel) static unsigned char mem[8][sizeof(Channel)];
    chans.push_back(new (mem[chans.size()]) Channel(l.c_str()));
    labels.push_back(l);
    width = std::max<unsigned>(width, l.size());
  }
  // The main thread has dc::warning on only.
  static Hang in;
  std::cin.rdbuf(&in);
  for (uint64_t i = first; i < first + runs; ++i)
  {
    Runner r((Mode)mode, seed * 1000003 + i, ops, chans, labels, width);
    r.objs = {&libcwd::libcw_do, &second_do};
    r.run();
  }
  return report.done();
}
