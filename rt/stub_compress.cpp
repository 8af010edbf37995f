// Stand-ins for the compressors where only their use matters: a marker of the format in front of the input.
#include "core/compression/compression.hpp"
namespace Lambda::Compress {
static std::vector<uint8_t> mark(const char* m, const std::vector<uint8_t>& in) { std::vector<uint8_t> r; for (; *m; m++) r.push_back(*m); r.insert(r.end(), in.begin(), in.end()); return r; }
std::vector<uint8_t> brotliCompressBuffer(const std::vector<uint8_t>& input, Quality) { return mark("<br>", input); }
std::vector<uint8_t> zlibCompressBuffer(const std::vector<uint8_t>& input, Quality, ZlibSetHeader h) { return mark(h == ZlibSetHeader::Gzip ? "<gz>" : h == ZlibSetHeader::Defalte ? "<zlib>" : "<raw>", input); }
}
