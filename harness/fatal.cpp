// Ends the process in all kinds of ways, also with several threads at the same time.  See spec/Fatal.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <atomic>
#include <barrier>
#include <cerrno>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

namespace channels = libcwd::channels;
libcwd::DebugObject do1;
libcwd::FatalChannel myfatal("MYFATAL", libcwd::fatal_maskbit);
libcwd::FatalChannel mine("MINE", libcwd::coredump_maskbit);

namespace {
using drv::J;
using libcwd::libcw_do;

std::mutex lock0, lock1;
thread_local int me;
std::atomic<bool> racing;

// The messages with which threads want to end the process and that were not delivered yet.
std::mutex owed_mutex;
std::set<std::string> owed;
std::atomic<int> busy;          // Threads that did not arrive at the end of their program, or at a message that ends the process.

// What is not flushed is lost at the end of the process.
struct Out : std::streambuf
{
  int n;
  std::string text;
  Out(int n) : n(n) { }
  int overflow(int c) override { text += (char)c; return c; }
  std::streamsize xsputn(char const* s, std::streamsize len) override { text.append(s, len); return len; }
  int sync() override
  {
    if (text.empty()) return 0;
    std::string lines;
    for (size_t at = 0; at < text.size();)
    {
      size_t end = text.find('\n', at);
      end = end == std::string::npos ? text.size() : end + 1;
      lines += (at ? "," : "") + drv::q(text.substr(at, end - at));
      at = end;
    }
    drv::Ev("Out").f("s", n).raw("lines", "[" + lines + "]").done();
    {
      std::lock_guard<std::mutex> lk(owed_mutex);
      for (auto i = owed.begin(); i != owed.end();)
      {
        size_t at = text.find(*i);
        bool got = at != std::string::npos && !isdigit(at + i->size() < text.size() ? text[at + i->size()] : ' ');
        i = got ? owed.erase(i) : std::next(i);
      }
    }
    text.clear();
    return 0;
  }
};
Out out0(0), out1(1), out2(2);
std::ostream os0(&out0), os1(&out1);

void ending(std::string const& st)
{
  drv::Ev("End").f("t", me).f("st", st).done();
  if (!racing) return;
  // Everybody gets the time to do more than they should.
  for (int i = 0; i < 3000; ++i)
  {
    {
      std::lock_guard<std::mutex> lk(owed_mutex);
      if (owed.empty() && busy == 0) break;
    }
    usleep(1000);
  }
  drv::Ev("Waited").done();
  usleep(3000);
}
void on_abort(int) { ending("sig6"); }

int error_value() { errno = ENOENT; return 0; }

libcwd::DebugObject& object(int o) { return o ? do1 : libcw_do; }

template<typename F> int nest(libcwd::DebugObject& d, int depth, F const& f)
{
  if (depth == 0) { f(); return 0; }
  LibcwDout(libcwd::channels, d, dc::notice, "outer" << nest(d, depth - 1, f));
  return 0;
}
int recurse(libcwd::DebugObject& d)
{
  LibcwDout(libcwd::channels, d, dc::notice, "again" << recurse(d));
  return 0;
}

bool has(J const& op, char const* flag) { for (J const& f : op["fl"].a) if (f.s == flag) return true; return false; }

void execute(J const& op)
{
  std::string const& w = op["op"].s;
  libcwd::DebugObject& d = object(op["o"].i());
  int n = op["n"].i();
  libcwd::control_flag_t m = 0;
  if (has(op, "nonewline")) m |= libcwd::nonewline_cf;
  if (has(op, "noprefix")) m |= libcwd::noprefix_cf;
  if (has(op, "nolabel")) m |= libcwd::nolabel_cf;
  if (has(op, "blank")) m |= libcwd::blank_label_cf;
  if (has(op, "error")) m |= libcwd::error_cf;
  if (has(op, "cerr")) m |= libcwd::cerr_cf;
  if (has(op, "flush")) m |= libcwd::flush_cf;
  libcwd::DebugObject::OnOffState dstate;
  libcwd::Channel::OnOffState cstate;
  errno = ENOENT;
  if (w == "say") LibcwDout(libcwd::channels, d, dc::notice|m, "t" << n);
  else if (w == "fatal")
    nest(d, op["depth"].i(), [&] {
      {
        std::lock_guard<std::mutex> lk(owed_mutex);
        owed.insert("t" + std::to_string(n));
      }
      --busy;
      errno = ENOENT;
      if (op["kind"].s == "core") LibcwDoutFatal(libcwd::channels, d, dc::core|m, "t" << n);
      else if (op["kind"].s == "ucore") LibcwDoutFatal(libcwd::channels, d, mine|m, "t" << n);
      else if (op["kind"].s == "ufatal") LibcwDoutFatal(libcwd::channels, d, myfatal|m, "t" << n);
      else LibcwDoutFatal(libcwd::channels, d, dc::fatal|m, "t" << n);
      ++busy;
    });
  else if (w == "off") d.off();
  else if (w == "on") d.on();
  else if (w == "coff") channels::dc::notice.off();
  else if (w == "con") channels::dc::notice.on();
  else if (w == "open") LibcwDout(libcwd::channels, d, dc::notice|continued_cf, "t" << n << ' ');
  else if (w == "fin") LibcwDout(libcwd::channels, d, dc::finish, "t" << n);
  else if (w == "cont") LibcwDout(libcwd::channels, d, dc::continued, "t" << n);
  else if (w == "pushmargin") d.push_margin();
  else if (w == "popmargin") d.pop_margin();
  else if (w == "pushmarker") d.push_marker();
  else if (w == "popmarker") d.pop_marker();
  else if (w == "longlabel") { alignas(libcwd::Channel) static thread_local char mem[sizeof(libcwd::Channel)]; new (mem) libcwd::Channel("SEVENTEEN_LETTERS"); }
  else if (w == "longfatal") { alignas(libcwd::FatalChannel) static thread_local char mem[sizeof(libcwd::FatalChannel)]; new (mem) libcwd::FatalChannel("SEVENTEEN_LETTERS", libcwd::fatal_maskbit); }
  else if (w == "restore") { d.force_on(dstate); d.off(); d.restore(dstate); }
  else if (w == "crestore") { channels::dc::notice.force_on(cstate, "NOTICE"); channels::dc::notice.off(); channels::dc::notice.restore(cstate); }
  else if (w == "fatalcont") LibcwDoutFatal(libcwd::channels, d, dc::core|continued_cf, "x" << n);
  else if (w == "recurse") recurse(d);
  else { fprintf(stderr, "unknown op %s\n", w.c_str()); _exit(97); }
}

struct Worker
{
  int t;
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool quit = false;
  std::thread th;       // Last: it uses the others.
  Worker(int t) : t(t), th([this] { loop(); }) { }
  void loop()
  {
    me = t;
    libcw_do.on();
    do1.on();
    channels::dc::notice.on();
    std::unique_lock<std::mutex> lk(m);
    while (!quit)
    {
      cv.wait(lk, [this] { return job || quit; });
      if (!job) break;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }
  void begin(std::function<void()> f) { std::lock_guard<std::mutex> lk(m); job = f; cv.notify_all(); }
  void wait() { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [this] { return !job; }); }
  void end() { { std::lock_guard<std::mutex> lk(m); quit = true; cv.notify_all(); } th.join(); }
};
std::map<int, std::unique_ptr<Worker>> workers;
Worker& worker(int t)
{
  auto& w = workers[t];
  if (!w) w = std::make_unique<Worker>(t);
  return *w;
}

void one(J const& op)
{
  drv::Ev("Inv").raw("op", drv::raw_str(op)).done();
  execute(op);
  drv::Ev("Res").f("t", op["t"].i()).done();
}

void run(J const& script)
{
  signal(SIGABRT, on_abort);
  std::cerr << std::nounitbuf;
  std::cerr.rdbuf(&out2);
  libcw_do.set_ostream(&os0, &lock0);
  do1.set_ostream(&os1, &lock1);
  for (J const& op : script["ops"].a)
  {
    if (op["op"].s == "par")
    {
      int n = 0;
      for (J const& prog : op["progs"].a) if (prog.size()) { ++n; worker(prog[0]["t"].i()).wait(); }
      if (!n) continue;
      auto start = std::make_shared<std::barrier<>>(n);
      busy = n;
      racing = true;
      for (J const& prog : op["progs"].a)
      {
        if (prog.size() == 0) continue;
        worker(prog[0]["t"].i()).begin([start, &prog] {
          start->arrive_and_wait();
          for (J const& op : prog.a)
          {
            if (op["op"].s == "end") { drv::Ev("Inv").raw("op", drv::raw_str(op)).done(); --busy; return; }
            // Misuse might not return.
            std::string const& w = op["op"].s;
            bool last = &op == &prog.a.back() && w != "fatal" && w != "say";
            if (last) --busy;
            one(op);
            if (last) ++busy;
          }
          --busy;
        });
      }
      for (J const& prog : op["progs"].a)
        if (prog.size())
        {
          int t = prog[0]["t"].i();
          worker(t).wait();
          if (prog.a.back()["op"].s == "end") { worker(t).end(); drv::Ev("Res").f("t", t).done(); workers.erase(t); }
        }
      racing = false;
      continue;
    }
    int t = op["t"].i();
    if (op["op"].s == "end")
    {
      worker(t).wait();
      drv::Ev("Inv").raw("op", drv::raw_str(op)).done();
      worker(t).end();
      drv::Ev("Res").f("t", t).done();
      workers.erase(t);
    }
    else { worker(t).begin([&] { one(op); }); worker(t).wait(); }
  }
  os0.flush();
  os1.flush();
  std::cerr.flush();
  _exit(0);
}

} // namespace

extern "C" [[noreturn]] void _Exit(int st) noexcept
{
  ending("exit" + std::to_string(st));
  _exit(st);
}

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
