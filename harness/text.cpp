// Prints bytes with char2str and buf2str, and error numbers with strerrno.  See spec/Text.tla.
#include <libcwd/debug.h>
#include <libcwd/buf2str.h>
#include <libcwd/char2str.h>
#include <libcwd/strerrno.h>
#include "drv.h"
#include <iomanip>
#include <memory>
#include <sstream>
#include <string_view>

namespace {
using drv::J;

std::ostringstream all;

void run(J const& script)
{
  std::ostringstream dbg;
  bool dbg_set = false;
  for (J const& op : script["ops"].a)
  {
    std::string const& w = op["op"].s;
    if (w == "errno")
    {
      std::string n = "[", m = "[";
      for (J const& x : op["n"].a)
      {
        // Numbers are given as they are in a signed int.
        n += (n.size() > 1 ? "," : "") + std::to_string(x.n);
        m += (m.size() > 1 ? "," : "") + drv::q(libcwd::strerrno((int)x.n));
      }
      drv::emit("{\"e\":\"Op\",\"op\":\"errno\",\"n\":" + n + "],\"name\":" + m + "]}");
      continue;
    }
    std::string bytes;
    for (J const& b : op["b"].a) bytes += (char)(unsigned char)b.n;
    // In memory of exactly this size.
    std::unique_ptr<char[]> p(new char[bytes.size()]);
    memcpy(p.get(), bytes.data(), bytes.size());
    std::string v = w == "char" ? "char" : op.has("v") ? op["v"].s : "ptr";
    std::ostringstream os;
    for (std::ostream* o : {(std::ostream*)&os, (std::ostream*)&all})
    {
      // The result does not depend on the state of the stream.
      if (o == &os) *o << std::hex << std::setfill('*') << std::left << std::uppercase;
      if (v == "char") *o << libcwd::char2str(bytes[0]);
      else if (v == "string") *o << libcwd::buf2str(bytes);
      else if (v == "view") *o << libcwd::buf2str(std::string_view(p.get(), bytes.size()));
      else if (v == "dout" && o == &os)
      {
        if (!dbg_set) { Debug(libcw_do.on(); if (!libcwd::channels::dc::notice.is_on()) libcwd::channels::dc::notice.on()); dbg_set = true; }
        dbg.str("");
        Debug(libcw_do.set_ostream(&dbg));
        Dout(dc::notice|noprefix_cf|nonewline_cf, libcwd::buf2str(p.get(), bytes.size()));
        os << dbg.str();
      }
      else *o << libcwd::buf2str(p.get(), bytes.size());
    }
    drv::emit("{\"e\":\"Op\",\"op\":" + drv::q(w) + ",\"b\":" + drv::raw_str(op["b"]) + ",\"out\":" + drv::q(os.str()) + ",\"all\":" + drv::q(all.str()) +
              ",\"bad\":" + (os.good() && all.good() ? "0" : "1") + "}");
  }
  _exit(0);
}
} // namespace

int main(int argc, char** argv)
{
  return drv::run_all(argc, argv, run);
}
