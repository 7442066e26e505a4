// In-memory data source and capturing sink used with the public Reader API.
#pragma once
#include "sasfile.hpp"
#include <cppsas7bdat/reader.hpp>
#include <new>
#include <stdexcept>
using namespace cppsas7bdat;
struct MemSource { // same contract as an std::ifstream: end of file is only seen by a read that runs into it
  const uint8_t *p; size_t n; size_t pos = 0; bool hit = false;
  MemSource(const uint8_t *q, size_t m) : p(q), n(m) {}
  bool eof() { return hit; }
  bool read_bytes(void *d, size_t len) {
    if (hit) return false;
    size_t k = len <= n - pos ? len : n - pos;
    if (k) memcpy(d, p + pos, k);
    pos += k;
    if (k < len) { hit = true; return false; }
    return true;
  }
};
