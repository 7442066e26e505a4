// Reference decoders, written from the published descriptions of SASYZCRL and SASYZCR2.
#pragma once
#include <cstdint>
#include <cstddef>
enum { REF_OK = 0, REF_CORRUPT = 1 };
static int ref_rle(const uint8_t *s, size_t n, uint8_t *d, size_t R, size_t *used) {
  size_t i = 0, o = 0;
  while (i < n && o < R) {
    unsigned c = s[i] >> 4, low = s[i] & 15; i++;
    size_t need = c == 4 ? 2 : (c == 0 || c == 5 || c == 6 || c == 7 || c == 12) ? 1 : 0;
    if (c >= 1 && c <= 3) return REF_CORRUPT;
    if (n - i < need) return REF_CORRUPT;
    size_t len = 0; uint8_t v = 0; bool copy = false;
    switch (c) {
    case 0: len = low * 256u + s[i++] + 64; copy = true; break;
    case 4: len = low * 16u + s[i] + 18; v = s[i + 1]; i += 2; break;
    case 5: len = low * 256u + s[i++] + 17; v = '@'; break;
    case 6: len = low * 256u + s[i++] + 17; v = ' '; break;
    case 7: len = low * 256u + s[i++] + 17; v = 0; break;
    case 8: case 9: case 10: case 11: len = low + 1 + 16 * (c - 8); copy = true; break;
    case 12: len = low + 3; v = s[i++]; break;
    case 13: len = low + 2; v = '@'; break;
    case 14: len = low + 2; v = ' '; break;
    default: len = low + 2; v = 0; break;
    }
    if (copy) { if (len > n - i) len = n - i; if (len > R - o) return REF_CORRUPT; for (size_t k = 0; k < len; k++) d[o++] = s[i++]; }
    else { if (len > R - o) return REF_CORRUPT; for (size_t k = 0; k < len; k++) d[o++] = v; }
  }
  while (o < R) d[o++] = 0;
  *used = i; return REF_OK;
}
static int ref_rdc(const uint8_t *s, size_t n, uint8_t *d, size_t R, size_t *used, size_t stop = 0) { // stop: decoding ends when fewer source bytes than this are left
  size_t i = 0, o = 0; unsigned ctl = 0, bits = 0;
  while (i < n && o < R && n - i >= stop) {
    if (bits == 0) { if (n - i < 2) return REF_CORRUPT; ctl = s[i] * 256u + s[i + 1]; i += 2; bits = 16; if (i >= n) break; }
    bool code = (ctl >> (bits - 1)) & 1; bits--;
    if (!code) { d[o++] = s[i++]; continue; }
    unsigned c = s[i] >> 4, low = s[i] & 15; i++;
    size_t need = (c == 1 || c == 2) ? 2 : 1; if (n - i < need) return REF_CORRUPT;
    if (c == 0 || c == 1) {
      size_t len; uint8_t v;
      if (c == 0) { len = low + 3; v = s[i++]; } else { len = low + 16u * s[i] + 19; v = s[i + 1]; i += 2; }
      if (len > R - o) return REF_CORRUPT; for (size_t k = 0; k < len; k++) d[o++] = v;
    } else {
      size_t ofs = low + 3 + 16u * s[i++], len = c; if (c == 2) len = s[i++] + 16u;
      if (len > R - o || ofs > o) return REF_CORRUPT;
      for (size_t k = 0; k < len; k++, o++) d[o] = d[o - ofs];
    }
  }
  while (o < R) d[o++] = 0;
  *used = i; return REF_OK;
}
