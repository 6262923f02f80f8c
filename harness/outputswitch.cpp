// Threads that print while the destination of the output is switched.  See spec/OutputSwitch.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <atomic>
#include <barrier>
#include <mutex>
#include <thread>

namespace channels = libcwd::channels;
libcwd::DebugObject do1;

namespace {
using drv::J;
using libcwd::libcw_do;
thread_local int me;
thread_local int slow;
int jitter;
thread_local unsigned seed;

// A random small pause, to have all kinds of interleavings.
void pause_a_bit()
{
  seed = seed * 1103515245 + 12345;
  unsigned r = (seed >> 16) % 16;
  if (!jitter || r < 6) return;
  if (r < 12) sched_yield();
  else { struct timespec ts = {0, (long)((seed >> 8) % jitter) * 1000}; nanosleep(&ts, nullptr); }
}

struct Lock
{
  int k;
  std::mutex m;
  Lock(int k) : k(k) { }
  void lock()
  {
    drv::Ev("Want").f("t", me).f("k", k).done();
    pause_a_bit();
    m.lock();
    drv::Ev("Acq").f("t", me).f("k", k).done();
  }
  bool try_lock()
  {
    drv::Ev("Want").f("t", me).f("k", k).done();
    bool ok = m.try_lock();
    drv::Ev(ok ? "Acq" : "Busy").f("t", me).f("k", k).done();
    return ok;
  }
  void unlock()
  {
    pause_a_bit();
    drv::Ev("Rel").f("t", me).f("k", k).done();
    m.unlock();
  }
};

struct Out : std::streambuf
{
  int s;
  Out(int s) : s(s) { }
  void add(std::string const& x)
  {
    drv::Ev("W").f("t", me).f("s", s).f("x", x).done();
    if (slow) { struct timespec ts = {0, slow * 1000L}; nanosleep(&ts, nullptr); }
    pause_a_bit();
  }
  int overflow(int c) override { add(std::string(1, (char)c)); return c; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { if (n) add(std::string(p, n)); return n; }
};
Lock* locks[5];
std::ostream* streams[5];
libcwd::DebugObject& object(int o) { return o ? do1 : libcw_do; }

void one(J const& op)
{
  std::string const& w = op["op"].s;
  libcwd::DebugObject& d = object(op["o"].i());
  int r = 0;
  slow = op["slow"].i();
  drv::Ev("Inv").raw("op", drv::raw_str(op)).done();
  if (w == "say")
  {
    if (op["cerr"].b()) LibcwDout(libcwd::channels, d, dc::notice|cerr_cf, "t" << me << "n" << op["n"].i());
    else LibcwDout(libcwd::channels, d, dc::notice, "t" << me << "n" << op["n"].i());
  }
  else if (w == "sw") d.set_ostream(streams[op["s"].i()], locks[op["k"].i()]);
  else if (w == "swo") d.set_ostream(streams[op["s"].i()]);
  else if (w == "get")
  {
    std::ostream* os = d.get_ostream();
    r = -1;
    for (int i = 1; i <= 4; ++i) if (streams[i] == os) r = i;
  }
  else if (w == "has") r = d.has_mutex();
  else if (w == "app")
  {
    locks[op["k"].i()]->lock();
    *streams[op["s"].i()] << ("NOTICE  : t" + std::to_string(me) + "n" + std::to_string(op["n"].i()) + "\n");
    locks[op["k"].i()]->unlock();
  }
  drv::Ev("Res").f("t", me).f("r", r).done();
}

void prepare(int t, unsigned s)
{
  me = t;
  seed = s * 7919 + t * 104729 + 1;
  libcw_do.on();
  do1.on();
  channels::dc::notice.on();
  while (channels::dc::warning.is_on()) channels::dc::warning.off();    // About set_ostream() without a lock.
}

void run(J const& script)
{
  J const& cfg = script["cfg"];
  jitter = cfg["jitter"].i();
  std::cerr.rdbuf(new Out(9));
  std::cerr << std::nounitbuf;
  for (int i = 1; i <= 4; ++i) { locks[i] = new Lock(i); streams[i] = new std::ostream(new Out(i)); }
  int id = script["id"].i();
  if (!cfg["lock"].b())
  {
    libcw_do.set_ostream(streams[1]);
    prepare(1, id);
    for (J const& part : script["ops"].a) for (J const& op : part["progs"][0].a) one(op);
    _exit(0);
  }
  libcw_do.set_ostream(streams[1], locks[1]);
  do1.set_ostream(streams[2], locks[2]);
  J const& parts = script["ops"];
  int n = parts[0]["progs"].size();
  std::barrier start(n);
  std::vector<std::thread> ths;
  for (int t = 1; t <= n; ++t)
    ths.emplace_back([&, t] {
      prepare(t, id);
      for (J const& part : parts.a)
      {
        start.arrive_and_wait();
        for (J const& op : part["progs"][t - 1].a) one(op);
      }
    });
  for (auto& th : ths) th.join();
  _exit(0);
}

} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
