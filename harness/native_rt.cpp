// Native implementation of sym.h: the same harness, compiled by the ordinary compiler with
// AddressSanitizer against /repo's sources, runs over concrete input bytes given in creation order.
// usage: BIN HEXINPUT [K=V ...]; exit 0 ok, 10 check failed, 11 assumption not met, 12 sanitizer
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <exception>
static std::vector<uint8_t> *in; static size_t pos; static std::map<std::string, long long> *args; static int failed;
static uint8_t nx() { return pos < in->size() ? (*in)[pos++] : (pos++, 0); }
static uint64_t nxN(unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)nx() << (8 * i); return v; }
extern "C" {
void sym_bytes(void *p, uint64_t n, const char *) { for (uint64_t i = 0; i < n; i++) ((uint8_t *)p)[i] = nx(); }
uint8_t sym_u8(const char *) { return (uint8_t)nxN(1); }
uint16_t sym_u16(const char *) { return (uint16_t)nxN(2); }
uint32_t sym_u32(const char *) { return (uint32_t)nxN(4); }
uint64_t sym_u64(const char *) { return nxN(8); }
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *) { uint64_t d = hi - lo, x = nxN(d < 256 ? 1 : d < 65536 ? 2 : d <= 0xffffffff ? 4 : 8); if (x > d) { fflush(stdout); _Exit(11); } return lo + x; }
double sym_scaled(int64_t n, int64_t, int64_t, uint64_t j) { return __builtin_ldexp((double)n, -(int)j); }
double sym_dyadic(int64_t lo, int64_t hi, uint64_t j, const char *) { int64_t x = (int64_t)nxN(8); if (x < lo || x > hi) { fflush(stdout); _Exit(11); } return __builtin_ldexp((double)x, -(int)j); }
void sym_assume(bool c) { if (!c) { fflush(stdout); _Exit(11); } }
void sym_check(bool c, const char *id) { if (!c) { printf("CHECKFAIL %s\n", id); fflush(stdout); _Exit(10); } }
void sym_finding(bool c, const char *id) { if (!c) { printf("FINDING %s\n", id); fflush(stdout); } }
void sym_cover(const char *id) { printf("COVER %s\n", id); }
void sym_observe(const char *id, uint64_t v) { printf("OBS %s\t%llu\n", id, (unsigned long long)v); fflush(stdout); }
uint64_t sym_concretize(uint64_t v) { return v; }
int64_t sym_arg(const char *n, int64_t d) { auto it = args->find(n); return it == args->end() ? d : it->second; }
void sym_exit(void) { fflush(stdout); _Exit(0); }
void sym_fail(const char *id) { printf("CHECKFAIL %s\n", id); fflush(stdout); _Exit(10); }
void sym_print(const char *id, uint64_t v) { printf("PRINT %s %llx\n", id, (unsigned long long)v); }
}
static size_t g_cap = 1 << 16; // as in the encoded program: larger allocations are refused
static bool g_on = false;
static void *alloc(size_t n) { if (g_on && n > g_cap) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void *operator new(size_t n, std::align_val_t) { return alloc(n); }
void *operator new[](size_t n, std::align_val_t) { return alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return g_on && n > g_cap ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
extern "C" const char *__asan_default_options() { return "exitcode=12:detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1048576:allocator_may_return_null=1"; }
#undef main
extern int harness_main_cpp();
int main(int argc, char **argv) {
  in = new std::vector<uint8_t>; args = new std::map<std::string, long long>;
  std::set_terminate([] { printf("TERMINATE\n"); fflush(stdout); _Exit(13); });
  const char *h = argc > 1 ? argv[1] : ""; for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); in->push_back((uint8_t)v); }
  for (int i = 2; i < argc; i++) { std::string s = argv[i]; auto p = s.find('='); (*args)[s.substr(0, p)] = atoll(s.c_str() + p + 1); }
  if (auto it = args->find("cap"); it != args->end()) g_cap = (size_t)it->second;
  g_on = true; harness_main_cpp(); g_on = false;
  printf("END\n"); fflush(stdout); _Exit(0);
}
