// Common part of the drivers: reads scripts (one JSON object per line: {"id":..,"ops":[..],..}),
// runs each in a forked child, and writes the trace (one JSON object per line):
//   {"e":"Reset","id":..}  <events of the script>  {"e":"Exit","st":"ok"|"exit<N>"|"sig<N>"|"hang"}
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace drv {

struct J
{
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  long n = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J const& operator[](char const* key) const
  {
    static J const nul;
    for (auto& p : o)
      if (p.first == key)
        return p.second;
    return nul;
  }
  J const& operator[](int i) const { return a[i]; }
  bool has(char const* key) const { return (*this)[key].k != NUL; }
  size_t size() const { return a.size(); }
  int i(int def = 0) const { return k == NUM || k == BOOL ? (int)n : def; }
  bool b() const { return n != 0; }
  std::string const& str() const { return s; }
};

struct Parser
{
  char const* p;
  char const* e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  [[noreturn]] void bad(char const* w) { fprintf(stderr, "drv: bad JSON: %s near %.30s\n", w, p); _exit(99); }
  J val()
  {
    ws();
    J r;
    if (p >= e) bad("eof");
    if (*p == '{')
    {
      r.k = J::OBJ; ++p; ws();
      if (*p == '}') { ++p; return r; }
      for (;;)
      {
        ws();
        std::string key = string();
        ws();
        if (*p++ != ':') bad(":");
        r.o.emplace_back(key, val());
        ws();
        if (*p == ',') { ++p; continue; }
        if (*p == '}') { ++p; return r; }
        bad("obj");
      }
    }
    if (*p == '[')
    {
      r.k = J::ARR; ++p; ws();
      if (*p == ']') { ++p; return r; }
      for (;;)
      {
        r.a.push_back(val());
        ws();
        if (*p == ',') { ++p; continue; }
        if (*p == ']') { ++p; return r; }
        bad("arr");
      }
    }
    if (*p == '"') { r.k = J::STR; r.s = string(); return r; }
    if (!strncmp(p, "true", 4)) { r.k = J::BOOL; r.n = 1; p += 4; return r; }
    if (!strncmp(p, "false", 5)) { r.k = J::BOOL; p += 5; return r; }
    if (!strncmp(p, "null", 4)) { p += 4; return r; }
    char* q;
    r.k = J::NUM; r.n = strtol(p, &q, 10);
    if (q == p) bad("num");
    p = q;
    return r;
  }
  std::string string()
  {
    std::string r;
    if (*p++ != '"') bad("str");
    while (*p != '"')
    {
      if (p >= e) bad("str eof");
      if (*p == '\\')
      {
        ++p;
        switch (*p)
        {
          case 'n': r += '\n'; break;
          case 't': r += '\t'; break;
          case 'r': r += '\r'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'u':
          {
            unsigned v = strtoul(std::string(p + 1, 4).c_str(), nullptr, 16);
            p += 4;
            r += (char)v;       // Only code points < 256: one byte each.
            break;
          }
          default: r += *p;
        }
        ++p;
      }
      else
        r += *p++;
    }
    ++p;
    return r;
  }
};

// Bytes that TLA+ (or TLC's JSON reader) cannot handle well are written as {XX}.
inline std::string q(std::string const& s)
{
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) { snprintf(buf, sizeof buf, "{%02X}", c); r += buf; }
    else r += c;
  }
  return r + '"';
}

inline int trace_fd = 1;
inline void emit(std::string line)
{
  line += '\n';
  char const* p = line.data();
  size_t n = line.size();
  while (n)
  {
    ssize_t w = ::write(trace_fd, p, n);
    if (w <= 0) _exit(98);
    p += w; n -= w;
  }
}

struct Ev
{
  std::string s;
  Ev(char const* e) { s = "{\"e\":\"" + std::string(e) + "\""; }
  Ev& f(char const* k, std::string const& v) { s += ",\"" + std::string(k) + "\":" + q(v); return *this; }
  Ev& f(char const* k, char const* v) { return f(k, std::string(v)); }
  Ev& f(char const* k, long v) { s += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
  Ev& f(char const* k, int v) { return f(k, (long)v); }
  Ev& f(char const* k, unsigned long v) { return f(k, (long)v); }
  Ev& f(char const* k, bool v) { s += ",\"" + std::string(k) + "\":" + (v ? "true" : "false"); return *this; }
  Ev& raw(char const* k, std::string const& v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
  void done() { emit(s + "}"); }
};

inline std::string raw_str(J const& j)
{
  switch (j.k)
  {
    case J::NUL: return "null";
    case J::BOOL: return j.n ? "true" : "false";
    case J::NUM: return std::to_string(j.n);
    case J::STR: return q(j.s);
    case J::ARR: { std::string r = "["; for (size_t i = 0; i < j.a.size(); ++i) r += (i ? "," : "") + raw_str(j.a[i]); return r + "]"; }
    case J::OBJ: { std::string r = "{"; for (size_t i = 0; i < j.o.size(); ++i) r += (i ? "," : "") + q(j.o[i].first) + ":" + raw_str(j.o[i].second); return r + "}"; }
  }
  return "";
}

// Called in the parent when a child ended in another way than by a normal exit.
inline std::function<void(std::string const&)> on_death;

inline bool keep_core_limit = false;

// Run all scripts of a file.  usage: driver SCRIPTS TRACE [timeout-seconds]
inline int run_all(int argc, char** argv, std::function<void(J const&)> run, bool do_fork = true)
{
  if (argc < 3) { fprintf(stderr, "usage: %s SCRIPTS TRACE [timeout]\n", argv[0]); return 2; }
  int tmo = argc > 3 ? atoi(argv[3]) : 20;
  std::ifstream in(argv[1]);
  trace_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
  if (trace_fd < 0) { perror(argv[2]); return 2; }
  struct rlimit rl = {0, 0};
  if (!keep_core_limit) setrlimit(RLIMIT_CORE, &rl);
  std::string line;
  int hangs = 0;
  while (std::getline(in, line))
  {
    if (line.empty()) continue;
    Parser ps{line.data(), line.data() + line.size()};
    J script = ps.val();
    {
      Ev ev("Reset");
      ev.f("id", script["id"].k == J::STR ? script["id"].s : std::to_string(script["id"].n));
      if (script.has("cfg")) ev.raw("cfg", raw_str(script["cfg"]));
      ev.done();
    }
    if (!do_fork)
    {
      run(script);
      Ev("Exit").f("st", "ok").done();
      continue;
    }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0)
    {
      alarm(tmo + 30);
      run(script);
      fflush(nullptr);
      _exit(0);
    }
    int st = 0;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool hang = false, big = false;
    useconds_t nap = 50;
    unsigned polls = 0;
    for (;;)
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec > tmo && !hang)
      {
        hang = true;
        kill(pid, SIGKILL);
      }
      usleep(nap);
      if (nap < 2000) nap += 50;
      else if (++polls % 16 == 0 && !big)
      {
        // A process that eats all memory would take others with it.
        long vm = 0, rss = 0;
        std::ifstream("/proc/" + std::to_string(pid) + "/statm") >> vm >> rss;
        if (rss * sysconf(_SC_PAGESIZE) > 2000000000L)
        {
          big = true;
          kill(pid, SIGKILL);
        }
      }
    }
    std::string s = hang ? "hang" : big ? "memory" : WIFSIGNALED(st) ? "sig" + std::to_string(WTERMSIG(st))
                                 : WEXITSTATUS(st) == 0 ? "ok" : "exit" + std::to_string(WEXITSTATUS(st));
    if (s != "ok" && on_death)
      on_death(s);
    Ev("Exit").f("st", s).done();
    if ((hang || big) && ++hangs == 2)
      break;    // Do not spend minutes on more of the same.
  }
  return 0;
}

} // namespace drv
