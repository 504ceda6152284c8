// Calls attach_gdb() a number of times. The `gdb' that is started is a script that sends SIGUSR1, upon which this program
// does what the commands that are written to gdb.cmds tell gdb to do. Everything is judged by vk/props/process.py.
// args: read_rcfile attaches off_count threads silent_channels sigchld fork_delay (milliseconds that fork() takes longer to return in the parent)
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <unistd.h>

extern int libcwd_attach_gdb_hook;

static volatile sig_atomic_t signals;
static void attached(int) { signals = signals + 1; *(int volatile*)&libcwd_attach_gdb_hook = 0; }

extern "C" char __start_vkc0[], __stop_vkc0[], __start_vkc1[], __stop_vkc1[];
__attribute__((noinline, section("vkc0"))) void caller0(int volatile* p) { *p = 1; libcwd::attach_gdb(); *p = 2; }
__attribute__((noinline, section("vkc1"))) void caller1(int volatile* p) { *p = 1; libcwd::attach_gdb(); *p = 2; }

static int fork_delay;
static void delay_parent() { usleep(fork_delay * 1000); }

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string state()
{
  std::string s = libcwd::libcw_do.is_on(libcwd::_private_::ThreadSpecificData::instance()) ? "1" : "0";
  ForAllDebugChannels(s += debugChannel.is_on() ? '1' : '0');
  return s;
}

// Writes the lines in one go, so that those of the threads do not mix.
int main(int, char** argv)
{
  bool rc = std::atoi(argv[1]);
  int attaches = std::atoi(argv[2]), offs = std::atoi(argv[3]), nthreads = std::atoi(argv[4]), silent = std::atoi(argv[5]), chld = std::atoi(argv[6]);
  fork_delay = std::atoi(argv[7]);
  if (fork_delay) pthread_atfork(nullptr, delay_parent, nullptr);
  std::signal(SIGUSR1, attached);
  if (chld) std::signal(SIGCHLD, SIG_IGN);
  std::printf("PID %d\n", (int)getpid());
  std::fflush(stdout);
  std::ofstream("pid") << getpid() << std::endl;
  Debug(main_reached());
  std::ofstream out("out.txt", std::ios::app);
  static std::mutex mutex;
  Debug(libcw_do.set_ostream(&out, &mutex));
  Debug(libcw_do.on());
  if (rc) Debug(read_rcfile());
  if (silent) ForAllDebugChannels(while (debugChannel.is_on()) debugChannel.off());
  else ForAllDebugChannels(if (!debugChannel.is_on()) debugChannel.on());
  for (int i = 0; i < offs; ++i) Debug(libcw_do.off());
  std::atomic<bool> stop{false};
  std::atomic<long> written{0};
  std::vector<std::thread> threads;
  for (int i = 0; i < nthreads; ++i)
    threads.emplace_back([&] {
      Debug(libcw_do.on());
      Debug(if (!dc::notice.is_on()) dc::notice.on());
      while (!stop)
      {
        Dout(dc::notice, "line of a thread");
        ++written;
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
      }
    });
  for (int i = 0; i < attaches; ++i)
  {
    std::string before = state();
    long w = written;
    int volatile progress = 0;
    int had = signals;
    bool second = i & 1;
    out.flush();
    std::printf("BEGIN %d %lx %lx\n", i, (unsigned long)(second ? __start_vkc1 : __start_vkc0), (unsigned long)(second ? __stop_vkc1 : __stop_vkc0));
    std::fflush(stdout);
    double t = now();
    (second ? caller1 : caller0)(&progress);
    t = now() - t;
    // Where the breakpoint was set.
    unsigned long at = 0;
    {
      std::ifstream f("gdb.cmds");
      std::string line;
      while (std::getline(f, line))
        if (line.compare(0, 3, "b *") == 0) at = std::strtoul(line.c_str() + 3, nullptr, 16);
    }
    bool in = at > (unsigned long)(second ? __start_vkc1 : __start_vkc0) + 5 && at < (unsigned long)(second ? __stop_vkc1 : __stop_vkc0);
    int opcode = in ? *((unsigned char*)at - 5) : -1;
    std::printf("END %d in=%d opcode=%d signals=%d hook=%d same=%d wrote=%ld progress=%d t=%.3f\n", i, (int)in, opcode, (int)signals - had,
        *(int volatile*)&libcwd_attach_gdb_hook, (int)(before == state()), (long)written - w, progress, t);
    std::fflush(stdout);
  }
  stop = true;
  for (auto& t : threads) t.join();
  // Every off() needs exactly one on().
  int n = 0;
  while (!libcwd::libcw_do.is_on(libcwd::_private_::ThreadSpecificData::instance()) && n < 100) { Debug(libcw_do.on()); ++n; }
  std::printf("OFFS %d\n", n);
  Debug(if (!dc::notice.is_on()) dc::notice.on());
  Dout(dc::notice, "the last line");
  std::printf("DONE\n");
  std::fflush(stdout);
  out.flush();
  std::_Exit(0);
}
