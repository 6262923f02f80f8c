// A shared library with a global object whose constructor runs before that of libcwd (or after it, it depends on how it is
// linked), and the interpreter of scripts; see spec/Startup.tla.
#include "sys.h"
#include "debug.h"
#include "../drv.h"
#include "first.h"
#include <libcwd/type_info.h>
#include <mutex>
#include <new>
#include <thread>
#include <sys/resource.h>

extern "C" __attribute__((noinline)) int verif_probe(int x) { asm volatile(""); return x + 1; }

namespace startup {
namespace {

using drv::J;

// A stream that writes to a file when it is flushed; never destroyed.
struct FileBuf : std::streambuf
{
  int fd = -1;
  std::string all, pend;
  size_t seen = 0;
  int flushed = 0, told = 0;
  std::streamsize xsputn(char const* s, std::streamsize n) override { all.append(s, n); pend.append(s, n); return n; }
  int overflow(int c) override { if (c != EOF) { all += (char)c; pend += (char)c; } return 0; }
  int sync() override
  {
    ++flushed;
    if (::write(fd, pend.data(), pend.size()) != (ssize_t)pend.size()) _exit(95);
    pend.clear();
    return 0;
  }
};

struct State
{
  J script;
  size_t at = 0;                // The next operation.
  int err = -1;                 // To read what was written to file descriptor 2.
  off_t err_at = 0;
  FileBuf buf[4];
  std::ostream* os[4];
  std::mutex mutex[4];
  std::map<std::string, libcwd::Channel*> channels;
};

State* st;
// Zeroed memory.
alignas(libcwd::Channel) char channel_mem[16][sizeof(libcwd::Channel)];
alignas(libcwd::DebugObject) char object_mem[sizeof(libcwd::DebugObject)];
libcwd::DebugObject& second = reinterpret_cast<libcwd::DebugObject&>(object_mem);

void open_script()
{
  if (st) return;
  st = new State;
  std::ifstream in(getenv("VERIF_SCRIPT"));
  std::string line;
  std::getline(in, line);
  drv::Parser ps{line.data(), line.data() + line.size()};
  st->script = ps.val();
  std::string d = getenv("VERIF_DIR");
  drv::trace_fd = open(getenv("VERIF_TRACE"), O_WRONLY | O_APPEND | O_CLOEXEC);
  st->err = open((d + "/c").c_str(), O_RDONLY | O_CLOEXEC);
  for (int i = 1; i <= 3; ++i)
  {
    st->buf[i].fd = open((d + "/s" + std::to_string(i)).c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    st->os[i] = new std::ostream(&st->buf[i]);
  }
  if (drv::trace_fd < 0 || st->err < 0) _exit(94);
}

// Removes the lines about loading.
std::string filter(std::string const& s, bool& load)
{
  std::string r;
  for (size_t p = 0; p < s.size();)
  {
    size_t e = s.find('\n', p);
    e = e == std::string::npos ? s.size() : e + 1;
    std::string l = s.substr(p, e - p);
    if (l.find("ELFUTILS") != std::string::npos && l.find("ObjectFile") != std::string::npos) load = true;
    else if (l.find("ELFUTILS") != std::string::npos) load = true;
    else r += l;
    p = e;
  }
  return r;
}

// What was written since the last event.
struct News
{
  std::string txt[4];
  int fl[4];
  bool load = false;
  News()
  {
    char b[4096];
    ssize_t n;
    while ((n = pread(st->err, b, sizeof b, st->err_at)) > 0) { txt[0].append(b, n); st->err_at += n; }
    for (int i = 1; i <= 3; ++i)
    {
      txt[i] = st->buf[i].all.substr(st->buf[i].seen);
      st->buf[i].seen = st->buf[i].all.size();
      fl[i] = st->buf[i].flushed - st->buf[i].told;
      st->buf[i].told = st->buf[i].flushed;
    }
    for (auto& t : txt) t = filter(t, load);
  }
};

void event(J const& op, std::function<void(drv::Ev&)> more)
{
  News n;
  drv::Ev ev("Op");
  ev.raw("op", drv::raw_str(op));
  ev.raw("txt", "{\"c\":" + drv::q(n.txt[0]) + ",\"s1\":" + drv::q(n.txt[1]) + ",\"s2\":" + drv::q(n.txt[2]) + ",\"s3\":" + drv::q(n.txt[3]) + "}");
  ev.raw("fl", "{\"s1\":" + std::to_string(n.fl[1]) + ",\"s2\":" + std::to_string(n.fl[2]) + ",\"s3\":" + std::to_string(n.fl[3]) + "}");
  ev.f("load", n.load);
  if (more) more(ev);
  // Where a fatal message is found.
  if (op["op"].s == "fatal") ev.raw("at", "[" + std::to_string(st->err_at) + "," + std::to_string(st->buf[1].all.size()) + "," + std::to_string(st->buf[2].all.size()) + "," + std::to_string(st->buf[3].all.size()) + "]");
  ev.done();
}

libcwd::Channel& channel(std::string const& label)
{
  if (label == "DEBUG") return libcwd::channels::dc::debug;
  if (label == "NOTICE") return libcwd::channels::dc::notice;
  if (label == "SYSTEM") return libcwd::channels::dc::system;
  if (label == "WARNING") return libcwd::channels::dc::warning;
  if (label == "ELFUTILS") return libcwd::channels::dc::elfutils;
  auto c = st->channels.find(label);
  if (c == st->channels.end()) _exit(93);
  return *c->second;
}

void run(J const& op)
{
  using namespace libcwd;
  std::string const& w = op["op"].s;
  std::string const& s = op["s"].s;
  std::function<void(drv::Ev&)> more;
  if (w == "init") libcwd::initialize();
  else if (w == "chan") { std::string const& l = op["c"].s; st->channels[l] = new (channel_mem[st->channels.size()]) Channel(l.c_str()); }
  else if (w == "obj") { new (object_mem) DebugObject; second.on(); second.set_ostream(st->os[3], &st->mutex[3]); }
  else if (w == "on") Debug(libcw_do.on());
  else if (w == "off") Debug(libcw_do.off());
  else if (w == "con") channel(op["c"].s).on();
  else if (w == "coff") channel(op["c"].s).off();
  else if (w == "go") Debug(libcw_do.on(); dc::notice.on(); libcw_do.set_ostream(st->os[1], &st->mutex[1]));
  else if (w == "os") Debug(libcw_do.set_ostream(st->os[op["n"].i()], &st->mutex[op["n"].i()]));
  else if (w == "afon") Debug(libcw_do.always_flush_on());
  else if (w == "afoff") Debug(libcw_do.always_flush_off());
  else if (w == "app") Debug(libcw_do.margin().append("|", 1));
  else if (w == "inc") Debug(libcw_do.inc_indent(2));
  else if (w == "out") { Channel& c = channel(op["c"].s); LibcwDout(libcwd::channels, libcw_do, c, s); }
  else if (w == "out2") { Channel& c = channel(op["c"].s); LibcwDout(libcwd::channels, second, c, s); }
  else if (w == "cont") { Channel& c = channel(op["c"].s); LibcwDout(libcwd::channels, libcw_do, c|continued_cf, s); }
  else if (w == "piece") LibcwDout(libcwd::channels, libcw_do, dc::continued, s);
  else if (w == "fin") LibcwDout(libcwd::channels, libcw_do, dc::finish, s);
  else if (w == "thread")
  {
    std::thread t([&] {
      Debug(libcw_do.on(); dc::notice.on());
      LibcwDout(libcwd::channels, libcw_do, dc::notice, s);
    });
    t.join();
  }
  else if (w == "reached") Debug(main_reached());
  else if (w == "list")
  {
    std::string r = "[";
    int objects = 0;
    LibcwdForAllDebugChannels(libcwd::channels, r += std::string(r.size() > 1 ? "," : "") + "{\"label\":" + drv::q(debugChannel.get_label()) + ",\"on\":" + (debugChannel.is_on() ? "true" : "false") + "}");
    LibcwdForAllDebugObjects(libcwd::channels, (void)debugObject; ++objects);
    struct rlimit rl;
    getrlimit(RLIMIT_CORE, &rl);
    more = [r, objects, rl](drv::Ev& ev) { ev.raw("list", r + "]").f("soft", rl.rlim_cur == rl.rlim_max).f("objs", objects); };
  }
  else if (w == "loc")
  {
    Location l((char const*)&verif_probe + 2);
    Location z((void*)0);
    std::string of = l.object_file() ? l.object_file()->filename() : "?", fn = l.mangled_function_name();
    bool unknown = !z.is_known() && std::string(z.mangled_function_name()) == unknown_function_c;
    more = [=](drv::Ev& ev) { ev.f("of", of).f("fn", fn).f("unknown", unknown); };
  }
  else if (w == "names")
  {
    std::string out;
    demangle_symbol("_ZN1A1fEi", out);
    std::string type = type_info_of<int const*>().demangled_name();
    more = [=](drv::Ev& ev) { ev.f("type", type).f("sym", out); };
  }
  else if (w == "fatal")
  {
    event(op, {});
    if (op["core"].b()) DoutFatal(dc::core, s);
    else DoutFatal(dc::fatal, s);
    _exit(92);
  }
  else { fprintf(stderr, "startup: unknown op %s\n", w.c_str()); _exit(96); }
  event(op, more);
}

struct Global
{
  Global() { place("F"); }
  ~Global() { place("f"); fflush(nullptr); }
} global;

} // namespace

bool has(char const* name)
{
  for (J const& op : st->script["ops"].a)
    if (op["op"].s == "place" && op["p"].s == name) return true;
  return false;
}

char const* how()
{
  static std::string h = st->script["cfg"]["how"].s;
  return h.c_str();
}

void worker()
{
  // Not when the script ended before that.
  if (st->at >= st->script["ops"].a.size()) return;
  Debug(libcw_do.on(); dc::notice.on(); libcw_do.margin().append("", 0));
  LibcwDout(libcwd::channels, libcwd::libcw_do, dc::notice, "worker");
}

void place(char const* name)
{
  open_script();
  auto& ops = st->script["ops"].a;
  size_t& i = st->at;
  // Scripts may end anywhere.
  if (i >= ops.size()) return;
  if (ops[i]["op"].s != "place" || ops[i]["p"].s != name) { fprintf(stderr, "startup: %s comes too early\n", name); _exit(91); }
  event(ops[i++], {});
  while (i < ops.size() && ops[i]["op"].s != "place")
    run(ops[i++]);
}

} // namespace startup
