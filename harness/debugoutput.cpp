// Replays scripts of debug statements and state changes on the real library and records what reached the streams.
// See spec/DebugOutput.tla for the operations.
#include <libcwd/debug.h>
#include "drv.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <sys/mman.h>

namespace libcwd::channels::dc {
Channel aaa("AAA");
Channel longlabel("LONGLABEL12");
Channel bbbbb("BBBBB");
Channel offch("OFF");
} // namespace libcwd::channels::dc

libcwd::DebugObject do1;

namespace {

using drv::J;

// What is written is kept in shared memory, so that it survives the end of the process.
struct Log
{
  unsigned len, mark;
  char data[1 << 20];
};
struct Shared
{
  Log log[3]; // s0, s1, cerr
  unsigned unlocked, sections, reads;
  unsigned oplen;
  char op[1 << 14]; // The operation being executed.
};
Shared* sh;

bool use_locks;

// In a free run the threads are not told when to execute their operations.  What an operation does to the streams
// is kept with that operation, and the operations are reported in the order in which they had the lock.
bool free_run;
int jitter;
std::atomic<unsigned long> next_section(1);
thread_local struct Done
{
  unsigned long seq = 0;        // The first section of this operation.
  std::string s[3];
  unsigned unlocked = 0, sections = 0;
} done;
thread_local unsigned long noise = 0;

void delay(int chance)
{
  if (!jitter) return;
  noise = noise * 6364136223846793005UL + 1442695040888963407UL;
  unsigned r = noise >> 33;
  if (r % 100 >= (unsigned)chance) return;
  if (r / 100 % 3 == 0) std::this_thread::yield();
  else usleep(r / 300 % jitter);
}

struct HLock
{
  std::mutex m;
  std::atomic<std::thread::id> owner{};
  bool wrote = false;
  void lock() { delay(30); m.lock(); got(); delay(30); }
  bool try_lock() { if (!m.try_lock()) return false; got(); return true; }
  void got()
  {
    owner = std::this_thread::get_id();
    wrote = false;
    if (free_run && !done.seq) done.seq = next_section++;
  }
  void unlock()
  {
    if (wrote) ++(free_run ? done.sections : sh->sections);
    wrote = false;
    owner = std::thread::id{};
    m.unlock();
    delay(20);
  }
  bool mine() const { return owner.load() == std::this_thread::get_id(); }
  bool is_free() { if (mine()) return false; if (!m.try_lock()) return false; m.unlock(); return true; }
};
HLock lock0, lock1;

struct LogBuf : std::streambuf
{
  int n;
  LogBuf(int n) : n(n) { }
  void touch()
  {
    if (!use_locks) return;
    bool ok = false;
    if (n != 1 && lock0.mine()) { lock0.wrote = true; ok = true; }
    if (n != 0 && lock1.mine()) { lock1.wrote = true; ok = true; }
    if (!ok) ++(free_run ? done.unlocked : sh->unlocked);
    delay(10);
  }
  void add(char c)
  {
    if (free_run) { done.s[n] += c; return; }
    Log& l = sh->log[n]; if (l.len < sizeof l.data) l.data[l.len++] = c;
  }
  // Like a real device, writing may change errno.
  int_type overflow(int_type c) override { touch(); add(c); errno = EXDEV; return c; }
  std::streamsize xsputn(char const* s, std::streamsize len) override
  {
    if (len) touch();
    for (std::streamsize i = 0; i < len; ++i) add(s[i]);
    errno = EXDEV;
    return len;
  }
  int sync() override { touch(); add('^'); errno = EXDEV; return 0; }
};

// Standard input: an endless sequence of "x\n"; counts the lines read.
struct InBuf : std::streambuf
{
  char c = 'x';
  bool nl = false;
  int_type underflow() override { return traits_type::to_int_type(nl ? '\n' : 'x'); }
  int_type uflow() override
  {
    int_type r = underflow();
    if (nl) ++sh->reads;
    nl = !nl;
    return r;
  }
};

LogBuf b0(0), b1(1), bc(2);
std::ostream os0(&b0), os1(&b1);
InBuf inb;

libcwd::DebugObject& obj(int o) { return o == 0 ? libcwd::libcw_do : do1; }

libcwd::Channel* chan(std::string const& s)
{
  using namespace libcwd::channels;
  static std::map<std::string, libcwd::Channel*> const m = {
    {"AAA", &dc::aaa}, {"BBBBB", &dc::bbbbb}, {"OFF", &dc::offch}, {"LONGLABEL12", &dc::longlabel}, {"WARNING", &dc::warning},
    {"NOTICE", &dc::notice}, {"DEBUG", &dc::debug}, {"SYSTEM", &dc::system}, {"ELFUTILS", &dc::elfutils}};
  return m.at(s);
}

libcwd::control_flag_t flags(J const& fl)
{
  using namespace libcwd;
  static std::map<std::string, control_flag_t> const m = {
    {"nonewline", nonewline_cf}, {"noprefix", noprefix_cf}, {"nolabel", nolabel_cf}, {"bmargin", blank_margin_cf},
    {"blabel", blank_label_cf}, {"bmarker", blank_marker_cf}, {"cerr", cerr_cf}, {"flush", flush_cf}, {"wait", wait_cf}, {"error", error_cf}};
  control_flag_t r = 0;
  for (size_t i = 0; i < fl.size(); ++i) r |= m.at(fl[i].s);
  return r;
}

int errnum(std::string const& s)
{
  static std::map<std::string, int> const m = {{"ENOENT", ENOENT}, {"EINTR", EINTR}, {"EAGAIN", EAGAIN}, {"EPERM", EPERM}, {"ERANGE", ERANGE}, {"ENOMEM", ENOMEM}};
  auto i = m.find(s);
  return i == m.end() ? 0 : i->second;
}

std::string fields(J const& op)
{
  std::string r;
  for (auto& p : op.o) r += "," + drv::q(p.first) + ":" + drv::raw_str(p.second);
  return r;
}

std::string observed()
{
  if (free_run)
  {
    Done d = std::move(done);
    done = Done();
    return ",\"s0\":" + drv::q(d.s[0]) + ",\"s1\":" + drv::q(d.s[1]) + ",\"ce\":" + drv::q(d.s[2]) + ",\"un\":" + std::to_string(d.unlocked) +
           ",\"sec\":" + std::to_string(d.sections) + ",\"rd\":0";
  }
  char const* names[] = {"s0", "s1", "ce"};
  std::string r;
  for (int i = 0; i < 3; ++i)
  {
    Log& l = sh->log[i];
    r += ",\"" + std::string(names[i]) + "\":" + drv::q(std::string(l.data + l.mark, l.len - l.mark));
    l.mark = l.len;
    if (l.len > sizeof l.data / 2) l.len = l.mark = 0;
  }
  r += ",\"un\":" + std::to_string(sh->unlocked) + ",\"sec\":" + std::to_string(sh->sections) + ",\"rd\":" + std::to_string(sh->reads);
  sh->unlocked = sh->sections = sh->reads = 0;
  return r;
}

void announce(J const& op)
{
  std::string s = fields(op);
  if (s.size() > sizeof sh->op) _exit(97);
  memcpy(sh->op, s.data(), s.size());
  sh->oplen = s.size();
}

struct Event { unsigned long seq; std::string text; };
thread_local std::vector<Event> events;

void report(J const& op, std::string extra = "")
{
  if (free_run)
  {
    unsigned long seq = done.seq ? done.seq : events.empty() ? 0 : events.back().seq;
    bool free = !lock0.mine() && !lock1.mine();
    events.push_back({seq, "{\"e\":\"Op\"" + fields(op) + observed() + ",\"free\":" + (free ? "true" : "false") + extra + "}"});
    return;
  }
  bool free = !use_locks || (lock0.is_free() && lock1.is_free());
  drv::emit("{\"e\":\"Op\"" + fields(op) + observed() + ",\"free\":" + (free ? "true" : "false") + extra + "}");
  sh->oplen = 0;
}

// The script, executed by the thread that each operation belongs to.
J const* ops;
std::mutex m;
std::condition_variable cv;
size_t idx;
std::map<int, std::thread> workers;
thread_local int me = 1;

void worker(int t);

thread_local std::vector<J const*> my_ops;
thread_local size_t my_idx;
void free_loop(std::ostream* os, int depth);
void loop(std::ostream* os, int depth);

// The begin, data or end of a statement.
J part_of(J const& op, std::string const& what)
{
  J r;
  r.k = J::OBJ;
  for (auto& p : op.o)
  {
    if ((what == "P" && p.first != "t" && p.first != "s" && p.first != "op") || (what == "E" && p.first != "t" && p.first != "op")) continue;
    r.o.push_back(p);
    if (p.first == "op") r.o.back().second.s = what;
  }
  return r;
}

struct Data
{
  J const* op;
  bool* on;
};

std::ostream& operator<<(std::ostream& os, Data const& d)
{
  *d.on = true;
  errno = EISDIR;
  if ((*d.op)["op"].s == "D")
  {
    os << (*d.op)["s"].s;
    if (free_run)
    {
      // What the begin of a statement does to the streams, and what its end does, are different sections.
      report(part_of(*d.op, (*d.op)["k"].s), ",\"on\":true");
      report(part_of(*d.op, "P"));
    }
    return os;
  }
  // The begin of a statement; the following operations of this thread are executed by its data.
  report(*d.op, ",\"on\":true");
  if (free_run)
  {
    ++my_idx;
    free_loop(&os, 1);
    return os;
  }
  {
    std::lock_guard<std::mutex> lk(m);
    ++idx;
  }
  cv.notify_all();
  loop(&os, 1);
  return os;
}

// One statement.  op["k"] tells what.
void statement(J const& op, std::string const& kind, Data const& data)
{
  using namespace libcwd::channels;
  libcwd::DebugObject& o = obj(op["o"].i());
  libcwd::control_flag_t fl = flags(op["fl"]);
  J const& chs = op["chs"];
  int e = errnum(op["err"].s);
  if (kind == "C") { errno = e; if (fl) LibcwDout(libcwd::channels, o, dc::continued|fl, data); else LibcwDout(libcwd::channels, o, dc::continued, data); return; }
  if (kind == "F") { errno = e; if (fl) LibcwDout(libcwd::channels, o, dc::finish|fl, data); else LibcwDout(libcwd::channels, o, dc::finish, data); return; }
  if (kind == "X")
  {
    errno = e;
    if (chs.size() == 2) LibcwDoutFatal(libcwd::channels, o, dc::core|dc::fatal|fl, data);
    else if (chs[0].s == "core") LibcwDoutFatal(libcwd::channels, o, dc::core|fl, data);
    else LibcwDoutFatal(libcwd::channels, o, dc::fatal|fl, data);
    return;
  }
  bool cont = op["cont"].b();
  if (chs[0].s == "always")
  {
    errno = e;
    if (cont) LibcwDout(libcwd::channels, o, dc::always|fl|continued_cf, data);
    else if (fl) LibcwDout(libcwd::channels, o, dc::always|fl, data);
    else LibcwDout(libcwd::channels, o, dc::always, data);
    return;
  }
  libcwd::Channel* c[3] = {};
  for (size_t i = 0; i < chs.size(); ++i) c[i] = chan(chs[i].s);
  errno = e;
  if (chs.size() == 1)
  {
    if (cont && fl) LibcwDout(libcwd::channels, o, *c[0]|continued_cf|fl, data);
    else if (cont) LibcwDout(libcwd::channels, o, *c[0]|continued_cf, data);
    else if (fl) LibcwDout(libcwd::channels, o, *c[0]|fl, data);
    else LibcwDout(libcwd::channels, o, *c[0], data);
  }
  else if (chs.size() == 2)
  {
    if (cont) LibcwDout(libcwd::channels, o, *c[0]|*c[1]|fl|continued_cf, data);
    else LibcwDout(libcwd::channels, o, *c[0]|*c[1]|fl, data);
  }
  else
  {
    if (cont) LibcwDout(libcwd::channels, o, *c[0]|*c[1]|*c[2]|continued_cf|fl, data);
    else LibcwDout(libcwd::channels, o, *c[0]|*c[1]|fl|*c[2], data);
  }
}

thread_local std::map<std::string, std::vector<libcwd::Channel::OnOffState>> chan_states;
thread_local std::map<int, std::vector<libcwd::DebugObject::OnOffState>> obj_states;

libcwd::DebugString& str(libcwd::DebugObject& o, std::string const& f)
{
  return f == "margin" ? o.margin() : f == "marker" ? o.marker() : f == "con" ? o.color_on() : o.color_off();
}
std::string get(libcwd::DebugObject& o, char const* f)
{
  libcwd::DebugString& d = str(o, f);
  std::string r(d.c_str(), d.size());
  return strlen(d.c_str()) == d.size() ? r : r + "{unterminated}";
}

// Returns extra fields for the event.
std::string simple(J const& op)
{
  std::string const& w = op["op"].s;
  libcwd::DebugObject& o = obj(op["o"].i());
  if (w == "allon")
  {
    for (char const* c : {"AAA", "BBBBB", "LONGLABEL12", "NOTICE", "DEBUG", "SYSTEM"})
      chan(c)->on();
    if (!libcwd::channels::dc::warning.is_on()) libcwd::channels::dc::warning.on();
    libcwd::libcw_do.on();
    do1.on();
  }
  else if (w == "ooff") o.off();
  else if (w == "oon") o.on();
  else if (w == "oforce") { obj_states[op["o"].i()].emplace_back(); o.force_on(obj_states[op["o"].i()].back()); }
  else if (w == "orestore") { auto& v = obj_states[op["o"].i()]; auto s = v.back(); v.pop_back(); o.restore(s); }
  else if (w == "coff") chan(op["c"].s)->off();
  else if (w == "con") chan(op["c"].s)->on();
  else if (w == "cforce") { auto& v = chan_states[op["c"].s]; v.emplace_back(); chan(op["c"].s)->force_on(v.back(), op["c"].s.c_str()); }
  else if (w == "crestore") { auto& v = chan_states[op["c"].s]; auto s = v.back(); v.pop_back(); chan(op["c"].s)->restore(s); }
  else if (w == "set") { if (op["s"].s.size() % 2) str(o, op["f"].s).assign(op["s"].s); else str(o, op["f"].s).assign(op["s"].s.data(), op["s"].s.size()); }
  else if (w == "app") { if (op["s"].s.size() % 2) str(o, op["f"].s).append(op["s"].s); else str(o, op["f"].s).append(op["s"].s.data(), op["s"].s.size()); }
  else if (w == "pre") { if (op["s"].s.size() % 2) str(o, op["f"].s).prepend(op["s"].s); else str(o, op["f"].s).prepend(op["s"].s.data(), op["s"].s.size()); }
  else if (w == "indent") o.set_indent(op["n"].i());
  else if (w == "inc") o.inc_indent(op["n"].i());
  else if (w == "dec") o.dec_indent(op["n"].i());
  else if (w == "pushm") o.push_margin();
  else if (w == "popm") o.pop_margin();
  else if (w == "pushk") o.push_marker();
  else if (w == "popk") o.pop_marker();
  else if (w == "afon") o.always_flush_on();
  else if (w == "afoff") o.always_flush_off();
  else if (w == "list") libcwd::list_channels_on(o);
  else if (w == "query")
  {
    LIBCWD_TSD_DECLARATION;
    std::string ch;
    for (char const* c : {"AAA", "BBBBB", "LONGLABEL12", "NOTICE", "DEBUG", "SYSTEM", "WARNING", "OFF", "ELFUTILS"})
      if (chan(c)->is_on()) ch += std::string(ch.empty() ? "" : ",") + drv::q(c);
    return ",\"q\":{\"margin\":" + drv::q(get(o, "margin")) + ",\"marker\":" + drv::q(get(o, "marker")) + ",\"con\":" + drv::q(get(o, "con")) +
           ",\"coff\":" + drv::q(get(o, "coff")) + ",\"indent\":" + std::to_string(o.get_indent()) + ",\"on\":" + (o.is_on(LIBCWD_TSD) ? "true" : "false") +
           ",\"af\":" + (o.always_flush_is_on() ? "true" : "false") + ",\"chans\":[" + ch + "]}";
  }
  else { fprintf(stderr, "debugoutput: unknown op %s\n", w.c_str()); _exit(96); }
  return "";
}

// Execute the operations of the calling thread.  os: the statement whose data we are, if any.
void loop(std::ostream* os, int depth)
{
  for (;;)
  {
    J const* op;
    {
      std::unique_lock<std::mutex> lk(m);
      for (;;)
      {
        if (idx == ops->size())
        {
          if (me == 1) _exit(0);
          for (;;) cv.wait(lk);
        }
        op = &(*ops)[(int)idx];
        int t = (*op)["t"].i(1);
        std::string const& w = (*op)["op"].s;
        if (w == "join" && t == me && depth == 0) return;
        if (w == "new" || w == "join" ? me == 1 : t == me) break;
        if (w != "new" && me == 1 && !workers.count(t))
        {
          workers[t] = std::thread(worker, t);
          continue;
        }
        cv.wait(lk);
      }
    }
    std::string const& w = (*op)["op"].s;
    announce(*op);
    if (w == "new")
    {
      int t = (*op)["t"].i();
      workers[t] = std::thread(worker, t);
      report(*op);
    }
    else if (w == "join")
    {
      int t = (*op)["t"].i();
      if (!workers.count(t)) workers[t] = std::thread(worker, t);
      workers[t].join();
      workers.erase(t);
      report(*op);
    }
    else if (w == "B" || w == "C" || w == "F" || w == "X")
    {
      bool on = false;
      statement(*op, w, Data{op, &on});
      if (!on)
        report(*op, ",\"on\":false");
      else
        report((*ops)[(int)idx]); // The E operation that ended it.
    }
    else if (w == "D")
    {
      bool on = false;
      statement(*op, (*op)["k"].s, Data{op, &on});
      report(*op, std::string(",\"on\":") + (on ? "true" : "false"));
    }
    else if (w == "P")
    {
      if (os) *os << (*op)["s"].s;
      report(*op);
    }
    else if (w == "E")
    {
      if (depth > 0) return;    // Reported by the statement that we are the data of.
      report(*op);
    }
    else
      report(*op, simple(*op));
    {
      std::lock_guard<std::mutex> lk(m);
      ++idx;
    }
    cv.notify_all();
  }
}

// The operations of the calling thread, in a free run.
size_t finished, nthreads;
std::vector<Event> all;

void out_of_ops()
{
  std::unique_lock<std::mutex> lk(m);
  for (Event& e : events) all.push_back(std::move(e));
  ++finished;
  cv.notify_all();
  if (me != 1) for (;;) cv.wait(lk);
  while (finished < nthreads) cv.wait(lk);
  std::stable_sort(all.begin(), all.end(), [](Event const& a, Event const& b) { return a.seq < b.seq; });
  for (Event const& e : all) drv::emit(e.text);
  _exit(0);
}

void free_loop(std::ostream* os, int depth)
{
  for (;; ++my_idx)
  {
    if (my_idx == my_ops.size()) out_of_ops();
    J const& op = *my_ops[my_idx];
    std::string const& w = op["op"].s;
    if (w == "B" || w == "C" || w == "F" || w == "D")
    {
      bool on = false;
      statement(op, w == "D" ? op["k"].s : w, Data{&op, &on});
      if (w == "D" && on) report(part_of(op, "E"));
      else if (w == "D") report(part_of(op, op["k"].s), ",\"on\":false");
      else if (!on) report(op, ",\"on\":false");
      else report(*my_ops[my_idx]); // The E operation that ended it.
    }
    else if (w == "P")
    {
      if (os) *os << op["s"].s;
      report(op);
    }
    else if (w == "E")
    {
      if (depth > 0) return;    // Reported by the statement that we are the data of.
      report(op);
    }
    else
      report(op, simple(op));
    delay(20);
  }
}

void free_thread(int t, unsigned long seed)
{
  me = t;
  noise = seed * 1000003 + t;
  for (J const& op : ops->a)
    if (op["t"].i(1) == t) my_ops.push_back(&op);
  {
    // Start together.
    std::unique_lock<std::mutex> lk(m);
    ++idx;
    cv.notify_all();
    while (idx < nthreads) cv.wait(lk);
  }
  free_loop(nullptr, 0);
}

void worker(int t)
{
  me = t;
  loop(nullptr, 0);
}

void run(J const& script)
{
  memset(sh, 0, sizeof(Shared));
  use_locks = script["cfg"]["lock"].b();
  ops = &script["ops"];
  std::cerr.rdbuf(&bc);
  std::cerr.unsetf(std::ios_base::unitbuf);
  std::cin.rdbuf(&inb);
  if (use_locks)
  {
    libcwd::libcw_do.set_ostream(&os0, &lock0);
    do1.set_ostream(&os1, &lock1);
  }
  else
  {
    libcwd::libcw_do.set_ostream(&os0);
    do1.set_ostream(&os1);
  }
  if (script["cfg"].has("free"))
  {
    jitter = script["cfg"]["jitter"].i();
    free_run = true;
    nthreads = script["cfg"]["free"].i();
    for (int t = 2; t <= (int)nthreads; ++t) workers[t] = std::thread(free_thread, t, script["id"].i());
    free_thread(1, script["id"].i());
  }
  loop(nullptr, 0);
  _exit(0);
}

} // namespace

int main(int argc, char** argv)
{
  libcwd::internal_main_reached();
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  drv::on_death = [](std::string const&) {
    if (sh->oplen)
      drv::emit("{\"e\":\"Died\"" + std::string(sh->op, sh->oplen) + observed() + "}");
  };
  return drv::run_all(argc, argv, run);
}
