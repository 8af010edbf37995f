// Large inputs: a fixed pattern with a few arbitrary bytes.
#pragma once
#include "sx.h"
static const uint32_t sx_sizes[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537};
// a length: any of the small range lo..hi, or one around a power of two up to max
inline size_t sx_size(size_t lo, size_t hi, size_t max, const char* name) { uint32_t k = 0; while (k < sizeof sx_sizes / sizeof *sx_sizes && sx_sizes[k] <= max) k++; uint32_t c = sx_choice(0, k + (uint32_t)(hi - lo), name); return c <= hi - lo ? lo + c : sx_sizes[c - (hi - lo) - 1]; }
// letters, digits and a few marks, with arbitrary bytes at the given places (negative: from the end)
inline std::string sx_large(size_t n, const char* name, std::initializer_list<long> at = {0, -1}) {
	std::string s(n, 'x'); for (size_t i = 0; i < n; i++) s[i] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(i * 7 + i / 62) % 62];
	for (long a : at) { long p = a < 0 ? (long)n + a : a; if (p >= 0 && (size_t)p < n) sx_sym(&s[p], 1, name); } return s;
}
inline std::vector<uint8_t> sx_bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
