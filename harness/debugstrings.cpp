// Replays operations on margin, marker, color strings, indentation and scopes.  See spec/DebugStrings.tla.
#include <libcwd/debug.h>
#include "drv.h"
#include <memory>
#include <sstream>

namespace {
using drv::J;
using libcwd::libcw_do;

libcwd::DebugString& field(std::string const& f)
{
  if (f == "margin") return libcw_do.margin();
  if (f == "marker") return libcw_do.marker();
  if (f == "con") return libcw_do.color_on();
  return libcw_do.color_off();
}

struct Scope
{
  std::unique_ptr<libcwd::Indent> i;
  std::unique_ptr<libcwd::Mark> m;
  bool live = true;
  bool enter = false;
};
std::ostringstream out;
std::vector<Scope> scopes;
int n = 0, every, next = 0;

int evaluated;
J const* left;

void observe(J const& script, J const& op, std::string const& extra)
{
  std::string line;
  if (++n % every == 0 || n == (int)script["ops"].size())
  {
    out.str("");
    Dout(dc::notice, "data");
    line = out.str();
  }
  std::string f, obs;
  for (auto& p : op.o) f += "," + drv::q(p.first) + ":" + drv::raw_str(p.second);
  for (char const* k : {"margin", "marker", "con", "coff"})
  {
    libcwd::DebugString const& d = field(k);
    bool zero = d.capacity() >= d.size() && d.c_str()[d.size()] == 0;
    obs += (obs.empty() ? "" : ",") + drv::q(k) + ":{\"t\":" + drv::q(std::string(d.c_str(), d.size())) + ",\"n\":" + std::to_string(d.size()) +
           ",\"zero\":" + (zero ? "true" : "false") + ",\"cap\":" + std::to_string(std::min<size_t>(d.capacity(), 1000000)) + "}";
    // The reserved memory really is there.
    memset(const_cast<char*>(d.c_str()) + d.size() + 1, 'X', d.capacity() - d.size());
  }
  drv::emit("{\"e\":\"Op\"" + f + ",\"obs\":{" + obs + "},\"indent\":" + std::to_string(libcw_do.get_indent()) + extra + ",\"line\":" + drv::q(line) + "}");
}

void exec(J const& script)
{
  while (next < (int)script["ops"].size())
  {
    J const& op = script["ops"][next++];
    std::string const& w = op["op"].s;
    if (w == "assign" || w == "append" || w == "prepend")
    {
      std::string t;
      for (int k = op["n"].i(); k > 0; --k) t += op["c"].s;
      if (op["z"].b()) t += std::string("\0x", 2);
      libcwd::DebugString& d = field(op["f"].s);
      if (op["v"].s == "own")
      {
        char const* p = d.c_str() + op["from"].i();
        size_t k = op["n"].i();
        if (w == "assign") d.assign(p, k); else if (w == "append") d.append(p, k); else d.prepend(p, k);
      }
      else if (op["v"].s == "string")
      {
        if (w == "assign") d.assign(t); else if (w == "append") d.append(t); else d.prepend(t);
      }
      else
      {
        // Not terminated, in memory of exactly this size.
        std::unique_ptr<char[]> p(new char[t.size()]);
        memcpy(p.get(), t.data(), t.size());
        if (w == "assign") d.assign(p.get(), t.size()); else if (w == "append") d.append(p.get(), t.size()); else d.prepend(p.get(), t.size());
      }
    }
    else if (w == "reserve") field(op["f"].s).reserve(op["n"].i());
    else if (w == "pushm") libcw_do.push_margin();
    else if (w == "popm") libcw_do.pop_margin();
    else if (w == "pushk") libcw_do.push_marker();
    else if (w == "popk") libcw_do.pop_marker();
    else if (w == "set") libcw_do.set_indent(op["n"].i());
    else if (w == "inc") libcw_do.inc_indent(op["n"].i());
    else if (w == "dec") libcw_do.dec_indent(op["n"].i());
    else if (w == "Indent") { scopes.emplace_back(); scopes.back().i = std::make_unique<libcwd::Indent>(op["n"].i()); }
    else if (w == "Mark")
    {
      scopes.emplace_back();
      std::string const& c = op["c"].s;
      auto& m = scopes.back().m;
      if (c == "|") m = std::make_unique<libcwd::Mark>();
      else if (c.size() == 1) m = std::make_unique<libcwd::Mark>(c[0]);
      else if (n % 2) m = std::make_unique<libcwd::Mark>((char8_t const*)c.c_str());
      else m = std::make_unique<libcwd::Mark>(c.c_str());
    }
    else if (w == "end")
    {
      for (size_t k = scopes.size(); k-- > 0;)
        if (scopes[k].m && scopes[k].live) { scopes[k].m->end(); scopes[k].live = false; break; }
    }
    else if (w == "Enter")
    {
      out.str("");
      scopes.emplace_back();
      scopes.back().enter = true;
      int nr = next;
      if (op["on"].b())
      {
        DoutEntering(dc::notice, "data " << nr);
        observe(script, op, ",\"nr\":" + std::to_string(nr) + ",\"entering\":" + drv::q(out.str()));
        exec(script);
      }
      else
      {
        DoutEntering(dc::debug, "data " << ++evaluated);
        observe(script, op, ",\"nr\":" + std::to_string(nr) + ",\"entering\":" + drv::q(out.str() + std::string(evaluated, '!')));
        exec(script);
      }
      // The scope was left.
      scopes.pop_back();
      observe(script, *left, "");
      continue;
    }
    else if (w == "leave")
    {
      if (scopes.back().enter) { left = &op; return; }
      scopes.pop_back();
    }
    observe(script, op, "");
  }
  fflush(nullptr);
  _exit(0);
}

void run(J const& script)
{
  Debug(libcw_do.on(); if (!libcwd::channels::dc::notice.is_on()) libcwd::channels::dc::notice.on());
  Debug(libcw_do.set_ostream(&out));
  every = script["cfg"]["every"].i(1);
  exec(script);
}
} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
