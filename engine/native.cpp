// Native implementation of the harness API: replays the concrete values of a solver model against the compiled code.
// usage: native ENTRY FILE ; exit 0 the entry completed, 99 an assertion failed, 97 replay out of step, 96 assumption failed
#include "include/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
struct Item { std::string name, ty; uint64_t v; };
static std::vector<Item> items; static size_t pos = 0;
static uint64_t nextv(const char* name, const char* ty) {
  if (pos >= items.size()) { if (getenv("SYM_LENIENT")) return 0; fprintf(stderr, "replay: values exhausted at %s\n", name); _Exit(97); }
  Item& i = items[pos++]; if (i.name != name || i.ty != ty) { fprintf(stderr, "replay: expected %s %s, file has %s %s\n", name, ty, i.name.c_str(), i.ty.c_str()); _Exit(97); }
  if (getenv("SYM_TRACE")) fprintf(stderr, "  %s = 0x%llx\n", name, (unsigned long long)i.v);
  return i.v;
}
extern "C" {
static float f32(const char* n) { uint32_t x = (uint32_t)nextv(n, "f32"); float f; memcpy(&f, &x, 4); return f; }
static double f64(const char* n) { uint64_t x = nextv(n, "f64"); double d; memcpy(&d, &x, 8); return d; }
float sym_f32(const char* n, float, float) { return f32(n); }
double sym_f64(const char* n, double, double) { return f64(n); }
float sym_f32_grid(const char* n, float, float, int) { return f32(n); }
double sym_f64_grid(const char* n, double, double, int) { return f64(n); }
float sym_f32_any(const char* n) { return f32(n); }
double sym_f64_any(const char* n) { return f64(n); }
int32_t sym_i32(const char* n, int32_t, int32_t) { return (int32_t)nextv(n, "i32"); }
int64_t sym_i64(const char* n, int64_t, int64_t) { return (int64_t)nextv(n, "i64"); }
bool sym_bool(const char* n) { return nextv(n, "i1") & 1; }
int sym_concretize(int v) { return v; }
bool sym_fork(bool c) { return c; }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "replay: assumption does not hold\n"); _Exit(96); } }
void sym_assert(bool c, const char* m) { if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", m); fflush(stderr); _Exit(99); } }
void sym_cover(const char* l) { if (getenv("SYM_TRACE")) fprintf(stderr, "  cover %s\n", l); }
void sym_merge(int) {}
int sym_is_native() { return 1; }
void sym_exit() { _Exit(0); }
void sym_note_d(const char* l, double v) { if (getenv("SYM_TRACE")) fprintf(stderr, "  note %s = %.17g\n", l, v); }
void sym_note_i(const char* l, int v) { if (getenv("SYM_TRACE")) fprintf(stderr, "  note %s = %d\n", l, v); }
}
int main(int argc, char** argv) {
  if (argc < 3) return 95;
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream is(line); Item i; std::string v; is >> i.name >> i.ty >> v; i.v = strtoull(v.c_str(), nullptr, 16); items.push_back(i); }
  auto e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 95; }
  e(); fflush(stdout); _Exit(0);
}
