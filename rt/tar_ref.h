// ustar archives, written independently of the implementation.
#pragma once
#include "sx.h"
#include <string>
namespace tarref {
typedef std::string str;
inline void oct(str& h, size_t p, size_t n, uint64_t v) { for (size_t i = 0; i + 1 < n; i++) h[p + i] = (char)('0' + ((v >> (3 * (n - 2 - i))) & 7)); h[p + n - 1] = 0; }
inline uint64_t sum(const str& h, size_t p = 0) { uint64_t s = 0; for (size_t i = 0; i < 512; i++) s += i >= 148 && i < 156 ? 32 : (uint8_t)h[p + i]; return s; }
inline str header(const str& name, uint64_t size, uint64_t mtime, char type = '0') { str h(512, 0); for (size_t i = 0; i < name.size() && i < 100; i++) h[i] = name[i]; oct(h, 100, 8, 0644); oct(h, 108, 8, 0); oct(h, 116, 8, 0); oct(h, 124, 12, size); oct(h, 136, 12, mtime); h[156] = type; str m("ustar\0" "00", 8); for (size_t i = 0; i < 8; i++) h[257 + i] = m[i]; oct(h, 148, 8, sum(h)); return h; }
inline void pad(str& f) { while (f.size() % 512) f.push_back(0); }
inline void file(str& f, const str& name, const str& data, uint64_t mtime) { if (name.size() >= 100) { f += header("././@LongLink", name.size(), mtime, 'L'); f += name; pad(f); } f += header(name.substr(0, 99), data.size(), mtime); f += data; pad(f); }
inline void end(str& f) { f.append(1024, 0); }
}
