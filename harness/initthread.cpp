// Replays scripts of init(), init_thread() and switching channels, by several threads.  See spec/InitThread.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <condition_variable>
#include <iomanip>
#include <mutex>
#include <sys/stat.h>
#include <thread>

namespace libcwd { extern std::mutex cout_mutex; }
namespace channels = libcwd::channels;
libcwd::Channel c1("AAA");
libcwd::Channel c2("LONGLABEL12");
alignas(libcwd::Channel) char late_mem[sizeof(libcwd::Channel)];

namespace {
using drv::J;
using libcwd::libcw_do;

std::mutex user_mutex;
std::mutex list_mutex;
std::vector<std::string> lines;
std::vector<std::string> locks;

struct Lines : std::streambuf
{
  std::string line;
  void put(char c)
  {
    if (c != '\n') { line += c; return; }
    std::lock_guard<std::mutex> lk(list_mutex);
    // Which lock does this thread hold?
    auto held = [](std::mutex& m) { if (!m.try_lock()) return true; m.unlock(); return false; };
    locks.push_back(held(user_mutex) ? (held(libcwd::cout_mutex) ? "both" : "user") : held(libcwd::cout_mutex) ? "cout" : "none");
    lines.push_back(line);
    line.clear();
  }
  int overflow(int c) override { put(c); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
};

std::string trimmed(char const* label)
{
  std::string s = label;
  s.erase(s.find_last_not_of(' ') + 1);
  return s;
}
std::map<std::string, libcwd::Channel*> chan;
void collect() { LibcwdForAllDebugChannels(libcwd::channels, chan[trimmed(debugChannel.get_label())] = &debugChannel); }

std::string thread_id()
{
  std::ostringstream os;
  os << std::hex << std::setw(12) << (size_t)pthread_self() << ' ';
  return os.str();
}

std::string query(int t)
{
  LIBCWD_TSD_DECLARATION;
  std::string on;
  LibcwdForAllDebugChannels(libcwd::channels, if (debugChannel.is_on()) on += (on.empty() ? "" : ",") + drv::q(trimmed(debugChannel.get_label())));
  return "{\"t\":" + std::to_string(t) + ",\"on\":[" + on + "],\"obj\":" + (libcw_do.is_on(LIBCWD_TSD) ? "true" : "false") + ",\"margin\":" +
         drv::q(std::string(libcw_do.margin().c_str(), libcw_do.margin().size())) + "}";
}

libcwd::thread_init_t mode(std::string const& m)
{
  return m == "rc" ? libcwd::from_rcfile : m == "copy" ? libcwd::copy_from_main : m == "off" ? libcwd::debug_off : libcwd::thread_init_default;
}

void init_thread(J const& op)
{
  if (op["mode"].s == "default")
  {
    if (op["name"].s.empty()) Debug(libcwd::init_thread()); else Debug(libcwd::init_thread(op["name"].s));
  }
  else
    Debug(libcwd::init_thread(op["name"].s, mode(op["mode"].s)));
}

// One operation, executed by the thread it belongs to.
void execute(J const& op)
{
  std::string const& w = op["op"].s;
  if (w == "init")
  {
    std::ofstream rc(".libcwdrc");
    rc << "silent = on\nchannels_default = off\nchannels_on = ";
    for (J const& c : op["on"].a) rc << c.s << ", ";
    rc << "\n";
    rc.close();
    Debug(libcwd::init());
  }
  else if (w == "start") init_thread(op);
  else if (w == "con") chan[op["c"].s]->on();
  else if (w == "coff") chan[op["c"].s]->off();
  else if (w == "don") Debug(libcw_do.on());
  else if (w == "doff") Debug(libcw_do.off());
  else if (w == "mutex") libcw_do.set_ostream(libcw_do.get_ostream(), &user_mutex);
  else if (w == "late") { new (late_mem) libcwd::Channel("VERYLONGLABEL016"); collect(); }
  else if (w == "print")
  {
    libcwd::Channel& c = *chan[op["c"].s];
    LibcwDout(libcwd::channels, libcw_do, c, "text");
  }
}

struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool stop = false;
  std::thread th;       // Last: it uses the others.
  Worker() : th([this] { loop(); }) { }
  void loop()
  {
    std::unique_lock<std::mutex> lk(m);
    for (;;)
    {
      cv.wait(lk, [this] { return job || stop; });
      if (stop) return;
      job();
      job = nullptr;
      cv.notify_all();
    }
  }
  void begin(std::function<void()> f) { std::lock_guard<std::mutex> lk(m); job = f; cv.notify_all(); }
  void wait() { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [this] { return !job; }); }
  void end() { { std::lock_guard<std::mutex> lk(m); stop = true; cv.notify_all(); } th.join(); }
};

void run(J const& script)
{
  static int nr;
  std::string top = "it" + std::to_string(getpid()) + "-" + std::to_string(++nr);
  mkdir(top.c_str(), 0755);
  if (chdir(top.c_str())) _exit(97);
  collect();
  Lines buf;
  std::ostream os(&buf);
  libcw_do.set_ostream(&os);
  std::map<int, std::unique_ptr<Worker>> workers;
  for (J const& op : script["ops"].a)
  {
    lines.clear();
    locks.clear();
    std::string const& w = op["op"].s;
    std::vector<int> ts;
    if (w == "many") for (J const& t : op["ts"].a) ts.push_back(t.i());
    else ts.push_back(op["t"].i());
    std::vector<std::string> ids(ts.size()), qs(ts.size());
    for (size_t i = 0; i < ts.size(); ++i)
    {
      if (ts[i] == 1) { execute(op); ids[i] = thread_id(); qs[i] = query(1); continue; }
      if (!workers.count(ts[i])) workers[ts[i]] = std::make_unique<Worker>();
    }
    if (w == "end")
    {
      workers[ts[0]]->end();
      workers.erase(ts[0]);
      qs.clear();
    }
    else if (ts[0] != 1)
    {
      for (size_t i = 0; i < ts.size(); ++i)
        workers[ts[i]]->begin([&, i] { ids[i] = thread_id(); if (w == "many") init_thread(op); else execute(op); qs[i] = query(ts[i]); });
      for (int t : ts) workers[t]->wait();
      // The main thread is never affected.
      qs.push_back(query(1));
    }
    auto list = [](std::vector<std::string> const& v, bool quote) { std::string r = "["; for (auto& s : v) r += (r.size() > 1 ? "," : "") + (quote ? drv::q(s) : s); return r + "]"; };
    drv::Ev("Op").raw("op", drv::raw_str(op)).raw("lines", list(lines, true)).raw("locks", list(locks, true)).f("has", libcw_do.has_mutex())
        .f("same", libcw_do.get_ostream() == &os).raw("ids", list(ids, true)).raw("q", list(qs, false)).done();
  }
  _exit(0);
}

} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
