// Harness primitives. Under symex they create symbolic values and solver obligations;
// native_rt.cpp implements them for replay over concrete input bytes.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sym_bytes(void *p, uint64_t n, const char *name);
uint8_t sym_u8(const char *name);
uint16_t sym_u16(const char *name);
uint32_t sym_u32(const char *name);
uint64_t sym_u64(const char *name);
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name); // lo <= result <= hi
double sym_dyadic(int64_t lo, int64_t hi, uint64_t j, const char *name); // n * 2^-j, lo <= n <= hi
double sym_scaled(int64_t n, int64_t lo, int64_t hi, uint64_t j); // n * 2^-j, lo <= n <= hi being known
void sym_assume(bool c);
void sym_check(bool c, const char *id);
void sym_finding(bool c, const char *id); // known defect: reported, not a violation
void sym_cover(const char *id);
void sym_observe(const char *id, uint64_t v);
uint64_t sym_concretize(uint64_t v);
int64_t sym_arg(const char *name, int64_t dflt);
[[noreturn]] void sym_exit(void);
[[noreturn]] void sym_fail(const char *id);
void sym_print(const char *id, uint64_t v);
}
