// C23: files opened by the command line tool. args: mode 0 csv, 1 print, 2 null; n: length of the file name; two: a second, fixed file name first;
// miss: the input does not exist
#include "sym.h"
#include "plain_dates.hpp"
#include <fstream>
#include <iostream>
#pragma push_macro("main")
#undef main
#define main app_main
#include "cppsas7bdat-ci.cpp"
#pragma pop_macro("main")
#include "datasource_ifstream.cpp"
#include "stream.cpp"
#include "version.cpp"
#include "sasfile.hpp"
struct wnull : std::streambuf { size_t n = 0; std::streamsize xsputn(const char *, std::streamsize k) override { n += (size_t)k; return k; } int_type overflow(int_type c) override { n++; return c; } };
static std::vector<std::string> g_files; static int g_mode; static long g_n = -1;
namespace docopt {
value::operator bool() const { return k == 2 ? true : b; }
bool value::asBool() const { return b; }
long value::asLong() const { return l; }
const std::vector<std::string> &value::asStringList() const { return g_files; }
std::map<std::string, value> docopt(const std::string &, const std::vector<std::string> &, bool, const std::string &, bool) {
  std::map<std::string, value> m;
  m["csv"].b = g_mode == 0; m["print"].b = g_mode == 1; m["null"].b = g_mode == 2; m["<file>"].b = true;
  value &v = m["--nlines"]; if (g_n >= 0) { v.k = 2; v.l = g_n; }
  return m;
}
}
static std::string expected(const std::string &f) {
  size_t b = f.size(); while (b && f[b - 1] != '/' && f[b - 1] != '\\') b--;
  size_t d = f.size(); while (d > b && f[d - 1] != '.') d--; // one past the last dot of the base name
  std::string r; for (size_t i = 0; i < (d > b ? d - 1 : f.size()); i++) r.push_back(f[i]);
  r += ".csv"; if (r == f) r = f + ".csv"; return r;
}
static uint8_t file[2048];
int main() {
  g_mode = (int)sym_arg("mode", 0); const size_t n = (size_t)sym_arg("n", 4); const bool two = sym_arg("two", 0);
  sas::Layout L; const size_t H = 304, P = 1024; sas::header(file, L, H, P, 1);
  sas::Page pg(file + H, L, P, sas::MIX1, 1); sas::Col cols[1] = {{"A", "", "", 0, 8, 2}}; sas::Meta m; m.row_length = 8; m.row_count = 1; m.mix_rows = 1; m.ncols = 1; m.cols = cols; sas::putMeta(pg, m);
  symfs::content = (const char *)file; symfs::size = H + P; symfs::missing = sym_arg("miss", 0);
  wnull out;
#ifdef SYM_NATIVE
  std::cout.rdbuf(&out);
#else
  new ((void *)&std::cout) std::ostream(&out);
#endif
  std::string name; for (size_t i = 0; i < n; i++) { char c = (char)sym_u8("name"); sym_assume(c != 0); name.push_back(c); }
  if (two) g_files.push_back("d.e/a.b"); g_files.push_back(name); if (g_mode == 1 && sym_arg("lines", 0)) g_n = (long)sym_range(0, 2, "lines");
  char a0[] = "cppsas7bdat-ci"; char *av[] = {a0, nullptr}; bool threw = false;
  try { app_main(1, av); } catch (const std::exception &) { threw = true; }
  sym_check(threw == symfs::missing, "the command fails only when the input cannot be read");
  size_t reads = 0, writes = 0;
  for (size_t i = 0; i < symfs::nopens; i++) {
    const auto &o = symfs::opens[i];
    if (!o.write) { sym_check(reads < g_files.size() && o.name == g_files[reads], "only the inputs are opened for reading"); reads++; continue; }
    sym_check(g_mode == 0, "the print and null commands open no file for writing");
    if (writes < g_files.size()) sym_check(o.name != g_files[writes], "no input is written over");
    sym_check(writes < g_files.size() && o.name == expected(g_files[writes]), "the output is named after the input with its extension replaced by csv");
    if (!threw) sym_check(o.out.size() > 5 && o.out[0] == '"' && o.out[1] == 'A' && o.out[2] == '"' && o.out[3] == '\n', "the output is the table");
    writes++; if (!threw) sym_observe("output length", o.out.size());
  }
  if (!threw) { sym_check(reads == g_files.size(), "every input is read"); sym_check(writes == (g_mode == 0 ? g_files.size() : 0), "the csv command writes one file per input"); sym_cover("converted"); }
  if (!threw) sym_observe("opens", symfs::nopens); // the order of opening the two files is unspecified
  return 0;
}
