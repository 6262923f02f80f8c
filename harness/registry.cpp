// Creates channels and debug objects, also by several threads at the same time, and looks at the registries.  See spec/Registry.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <barrier>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace channels = libcwd::channels;

namespace {
using drv::J;
using libcwd::libcw_do;

alignas(libcwd::Channel) char chan_mem[200][sizeof(libcwd::Channel)];
alignas(libcwd::DebugObject) char obj_mem[8][sizeof(libcwd::DebugObject)];
std::mutex os_mutex, reg_mutex;
std::map<libcwd::Channel const*, int> number;
std::map<int, libcwd::Channel*> chan;
int nobj = 1;
thread_local std::vector<std::string> lines;
thread_local std::string line;

struct Lines : std::streambuf
{
  void put(char c) { if (c != '\n') line += c; else { lines.push_back(line); line.clear(); } }
  int overflow(int c) override { put(c); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
};

int number_of(libcwd::Channel const* c)
{
  if (!c) return 0;
  std::lock_guard<std::mutex> lk(reg_mutex);
  auto i = number.find(c);
  return i == number.end() ? -1 : i->second;
}
void add(int k, libcwd::Channel* c) { std::lock_guard<std::mutex> lk(reg_mutex); number[c] = k; chan[k] = c; }

std::string list(std::vector<std::string> const& v) { std::string r = "["; for (auto& s : v) r += (r.size() > 1 ? "," : "") + drv::q(s); return r + "]"; }

std::string seen()
{
  std::string r;
  LibcwdForAllDebugChannels(libcwd::channels,
      r += (r.empty() ? "{\"k\":" : ",{\"k\":") + std::to_string(number_of(&debugChannel)) + ",\"on\":" + (debugChannel.is_on() ? "true" : "false") + "}");
  return "[" + r + "]";
}

int execute(J const& op)
{
  std::string const& w = op["op"].s;
  if (w == "new")
  {
    static std::atomic<int> used;
    // Like a global object of a library that is loaded.
    char* mem = chan_mem[used++];
    add(op["k"].i(), (libcwd::Channel*)mem);
    if (op["hidden"].b()) new (mem) libcwd::Channel(op["label"].s.c_str(), false); else new (mem) libcwd::Channel(op["label"].s.c_str());
  }
  else if (w == "con") chan[op["k"].i()]->on();
  else if (w == "coff") { reg_mutex.lock(); auto c = chan[op["k"].i()]; reg_mutex.unlock(); c->off(); }
  else if (w == "out") Debug(libcw_do.on());
  else if (w == "obj") { new (obj_mem[nobj]) libcwd::DebugObject; ++nobj; lines.clear(); }   // It may warn about its ostream having no lock.
  else if (w == "say") { libcwd::Channel& c = *chan[op["k"].i()]; LibcwDout(libcwd::channels, libcw_do, c, "x"); }
  else if (w == "list") libcwd::list_channels_on(libcw_do);
  else if (w == "find") return number_of(libcwd::find_channel(op["text"].s.c_str()));
  return 0;
}

void one(J const& op)
{
  lines.clear();
  int found = execute(op);
  std::string labels;
  for (auto& c : chan) labels += (labels.empty() ? "" : ",") + ("{\"k\":" + std::to_string(c.first) + ",\"label\":" + drv::q(c.second->get_label()) + "}");
  std::vector<int> times(nobj);
  int strange = 0;
  LibcwdForAllDebugObjects(libcwd::channels,
      if (&debugObject == &libcw_do) ++times[0];
      else { int i = ((char*)&debugObject - obj_mem[0]) / (long)sizeof(libcwd::DebugObject); if (i > 0 && i < nobj && (char*)&debugObject == obj_mem[i]) ++times[i]; else ++strange; }
  );
  std::string objs;
  for (int n : times) objs += (objs.empty() ? "" : ",") + std::to_string(n);
  if (strange) objs += ",-1";
  drv::Ev("Op").raw("op", drv::raw_str(op)).raw("lines", list(lines)).f("found", found).raw("seen", seen()).raw("labels", "[" + labels + "]")
      .f("fatal", std::string(channels::dc::fatal.get_label()) + channels::dc::core.get_label()).raw("objs", "[" + objs + "]").done();
}

struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  std::thread th;       // Last: it uses the others.
  Worker() : th([this] { loop(); }) { }
  void loop()
  {
    std::unique_lock<std::mutex> lk(m);
    for (;;)
    {
      cv.wait(lk, [this] { return (bool)job; });
      job();
      job = nullptr;
      cv.notify_all();
    }
  }
  void begin(std::function<void()> f) { std::lock_guard<std::mutex> lk(m); job = f; cv.notify_all(); }
  void wait() { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [this] { return !job; }); }
};
std::map<int, std::unique_ptr<Worker>> workers;
Worker& worker(int t)
{
  auto& w = workers[t];
  if (!w) w = std::make_unique<Worker>();
  return *w;
}

void run(J const& script)
{
  Lines buf;
  std::ostream os(&buf);
  libcw_do.set_ostream(&os, &os_mutex);
  libcwd::Channel* builtin[] = {&channels::dc::debug, &channels::dc::elfutils, &channels::dc::warning, &channels::dc::notice, &channels::dc::system};
  for (int i = 0; i < 5; ++i) add(i + 1, builtin[i]);
  for (J const& op : script["ops"].a)
  {
    if (op["op"].s == "par")
    {
      J const& progs = op["progs"];
      std::barrier start(progs.size());
      for (J const& prog : progs.a)
      {
        if (prog.size() == 0) { start.arrive_and_drop(); continue; }
        int t = prog[0]["t"].i();
        worker(t).begin([&start, &prog, t] {
          start.arrive_and_wait();
          for (J const& op : prog.a)
          {
            lines.clear();
            drv::Ev("Inv").raw("op", drv::raw_str(op)).done();
            int found = execute(op);
            std::string s = op["op"].s == "look" ? seen() : "[]";
            drv::Ev("Res").f("t", t).f("found", found).raw("lines", list(lines)).raw("seen", s).done();
          }
        });
      }
      for (J const& prog : progs.a) if (prog.size()) worker(prog[0]["t"].i()).wait();
      continue;
    }
    int t = op["t"].i();
    if (t == 1) one(op);
    else { worker(t).begin([&] { one(op); }); worker(t).wait(); }
  }
  _exit(0);
}

} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
