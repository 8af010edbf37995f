// Large contents for chunk boundaries: a filler with numbered marks, so that no part can be taken for another.
#pragma once
#include "sx.h"
#include <string>
#include <vector>
inline std::string big_(size_t n, const char* nm) { std::string s(n, '.'); for (size_t i = 0, k = 1; i + 2 < n; i += 1021, k++) { s[i] = (char)k; s[i + 1] = (char)(k >> 8); } if (n) { s[n - 1] = (char)sx_byte(nm); if (n > 131072) { s[131071] = (char)sx_byte(nm); s[131072] = (char)sx_byte(nm); } s[0] = (char)sx_byte(nm); } return s; }
inline std::vector<uint8_t> vec_(const std::string& s) { return std::vector<uint8_t>((const uint8_t*)s.data(), (const uint8_t*)s.data() + s.size()); }
inline std::string str_(const std::vector<uint8_t>& v) { return std::string((const char*)v.data(), v.size()); }
