// Matches masks with labels: with the matcher itself and by means of an rcfile.  See spec/Glob.tla.
#include <libcwd/debug.h>
#include "match.h"
#include "drv.h"
#include <map>
#include <memory>

namespace {
using drv::J;

// A Channel must be in memory that was zero: it is meant to be a global object.
std::map<std::string, libcwd::Channel*> channels;
alignas(64) char storage[200][sizeof(libcwd::Channel)];

// Exactly the characters, in memory of their own.
bool match(std::string const& m, std::string const& l)
{
  std::unique_ptr<char[]> a(new char[m.size() + 1]), b(new char[l.size() + 1]);
  memcpy(a.get(), m.c_str(), m.size() + 1);
  memcpy(b.get(), l.c_str(), l.size() + 1);
  return libcwd::_private_::match(a.get(), m.size(), b.get());
}

void add(std::string const& l)
{
  if (!l.empty() && !channels.count(l))
  {
    if (channels.size() == 200) { fprintf(stderr, "too many labels\n"); _exit(99); }
    size_t n = channels.size();
    channels[l] = new (storage[n]) libcwd::Channel(l.c_str());
  }
}

std::string list(std::vector<bool> const& v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += std::string(i ? "," : "") + (v[i] ? "true" : "false");
  return r + "]";
}

void run(J const& script)
{
  bool rc = script["cfg"]["rc"].b();
  std::vector<std::string> base;
  for (J const& l : script["cfg"]["labels"].a) base.push_back(l.s);
  for (J const& op : script["ops"].a)
  {
    std::string const& m = op["m"].s;
    std::vector<std::string> labels = base;
    for (J const& l : op["ls"].a) labels.push_back(l.s);
    std::vector<bool> direct, sel;
    for (auto& l : labels) direct.push_back(match(m, l));
    if (rc && !m.empty())
    {
      for (auto& l : labels) add(l);
      {
        std::ofstream f(".libcwdrc");
        std::string low = m;
        for (size_t i = m.size() % 2; i < low.size(); i += 2) low[i] = tolower(low[i]);       // Case does not matter.
        f << "silent = on\nchannels_default = off\nchannels_on = " << low << "\n";
      }
      libcwd::RcFile r;
      r.read();
      for (auto& l : labels) sel.push_back(!l.empty() && channels[l]->is_on());
    }
    drv::emit("{\"e\":\"Op\",\"m\":" + drv::q(m) + ",\"ls\":" + drv::raw_str(op["ls"]) + ",\"direct\":" + list(direct) + ",\"rc\":" + list(sel) + "}");
  }
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  unsetenv("LIBCWD_RCFILE_NAME");
  unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
  return drv::run_all(argc, argv, run);
}
