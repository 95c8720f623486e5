// Native runtime of the harness interface: values come from a file written by the solver, checks are evaluated in
// IEEE double arithmetic against the really compiled library.
// usage: prog FILE   (lines: "v name value", "p name value").  exit 0 held, 10 a check failed, 11 assumption not met
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
static std::map<std::string, std::string> vals; static std::map<std::string, int> pars; static int failed = 0;
static double get(const char* n, double d) { auto it = vals.find(n); return it == vals.end() ? d : strtod(it->second.c_str(), nullptr); }
static double defReal(const char* n) { unsigned h = 7; for (const char* p = n; *p; p++) h = h * 131 + (unsigned char)*p; return 0.3 + (h % 1024) / 1024.0; }
extern "C" {
int sym_int(const char* n, int lo, int hi) { double v = get(n, lo); if (v < lo || v > hi) { printf("RANGE %s\n", n); exit(11); } return (int)v; }
double sym_real(const char* n) { return get(n, defReal(n)); }
double sym_pos(const char* n) { double v = get(n, defReal(n)); if (!(v > 0)) { printf("RANGE %s\n", n); exit(11); } return v; }
void sym_assume(bool c) { if (!c) { printf("ASSUME\n"); exit(failed ? 10 : 11); } }
void sym_check(bool c, const char* w) { if (!c) { printf("CHECKFAIL %s\n", w); failed = 1; fflush(stdout); } }
void sym_check_eq(double a, double b, const char* w) { double m = std::fmax(std::fabs(a), std::fabs(b)); if (!(std::fabs(a - b) <= 1e-9 + 1e-6 * m)) { printf("CHECKFAIL %s\n  got %.17g want %.17g\n", w, a, b); failed = 1; fflush(stdout); } }
int sym_param(const char* n, int d) { auto it = pars.find(n); return it == pars.end() ? d : it->second; }
void sym_observe(const char* n, double v) { printf("OBS %s %.17g\n", n, v); }
void sym_reach(const char*) {}
int sym_split(int v) { return v; }
bool sym_split_bool(bool v) { return v; }
void sym_nonzero(double v) { if (!(std::fabs(v) > 1e-13)) { printf("ASSUME nonzero\n"); exit(failed ? 10 : 11); } }
}
int main(int argc, char** argv) {
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) { std::istringstream s(l); std::string k, n, v; s >> k >> n >> v; if (k == "v") vals[n] = v; else if (k == "p") pars[n] = atoi(v.c_str()); }
  harness(); printf("DONE\n"); return failed ? 10 : 0;
}
