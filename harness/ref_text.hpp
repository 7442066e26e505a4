// Reference text trimming (C locale).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
static inline bool ref_space(uint8_t c) { return (c == ' ') | ((uint8_t)(c - 9) <= 4); }
static inline bool ref_print(uint8_t c) { return (uint8_t)(c - 32) <= 94; }
struct Ref { const uint8_t *p; size_t n; };
static inline Ref ref_trim(const uint8_t *p, size_t n) { // leading white space, trailing white space and non-printables
  while (n && ref_space(*p)) p++, n--;
  while (n && (ref_space(p[n - 1]) | !ref_print(p[n - 1]))) n--;
  return {p, n};
}
static inline Ref ref_rtrim0(const uint8_t *p, size_t n) { // trailing white space and NULs
  while (n && (ref_space(p[n - 1]) | (p[n - 1] == 0))) n--;
  return {p, n};
}
template <class S> static inline bool same(const S &s, Ref r) {
  if (s.size() != r.n) return false;
  bool eq = true; for (size_t i = 0; i < r.n; i++) eq &= (uint8_t)s.data()[i] == r.p[i];
  return eq;
}
template <class S> static inline bool same(const S &s, const char *r) { return same(s, Ref{(const uint8_t *)r, strlen(r)}); }
