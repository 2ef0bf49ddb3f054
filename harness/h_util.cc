// Hashes, integer encodings, compressors, containers, time, key comparators (S02 S03 S04 S07 S08).
#include <algorithm>
#include <atomic>
#include <cmath>
#include <list>
#include <map>
#include <set>

#include <lz4.h>
#include <zlib.h>
#include <zstd.h>

#include "exact.h"
#include "tkrzw_sys_config.h"
#include "tkrzw_compress.h"
#include "tkrzw_containers.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_hash_util.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"
#include "tkrzw_time_util.h"

using namespace tkrzw;
using vt::Case;

// The largest allocation since the last reset.
static std::atomic<size_t> g_max_alloc{0};
extern "C" void __sanitizer_malloc_hook(const volatile void*, size_t size) {
  size_t old = g_max_alloc.load();
  while (size > old && !g_max_alloc.compare_exchange_weak(old, size)) {}
}

namespace {

struct Rnd {
  uint64_t state;
  uint64_t Next() { return vt::SplitMix(&state); }
};

// ---- Reference hashes.

uint64_t RefMurmur(const std::string& s, uint64_t seed) {
  const uint64_t m = 0xc6a4a7935bd1e995ULL;
  uint64_t h = seed ^ (s.size() * m);
  size_t i = 0;
  for (; i + 8 <= s.size(); i += 8) {
    uint64_t k = 0;
    for (int j = 7; j >= 0; j--) k = k << 8 | (uint8_t)s[i + j];
    k *= m; k ^= k >> 47; k *= m;
    h = (h * m) ^ k;
  }
  if (i < s.size()) {
    uint64_t k = 0;
    for (size_t j = s.size(); j-- > i;) k = k << 8 | (uint8_t)s[j];
    h = (h ^ k) * m;
  }
  h ^= h >> 47; h *= m; h ^= h >> 47;
  return h;
}
uint64_t RefFNV(const std::string& s) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (char x : s) h = (h ^ (uint8_t)x) * 109951162811ULL;  // The library's own multiplier.
  return h;
}
uint64_t RefSum(const std::string& s, uint64_t mod, uint64_t seed) {
  uint64_t v = seed;
  for (char x : s) v += (uint8_t)x;
  return v % mod;
}
uint64_t RefAdler(const std::string& s, uint64_t mod, int shift) {
  uint64_t a = 1, b = 0;
  for (char x : s) { a = (a + (uint8_t)x) % mod; b = (b + a) % mod; }
  return b << shift | a;
}
uint32_t RefCRCReflected(const std::string& s, uint32_t poly, uint32_t crc) {
  for (char x : s) {
    crc ^= (uint8_t)x;
    for (int i = 0; i < 8; i++) crc = crc & 1 ? crc >> 1 ^ poly : crc >> 1;
  }
  return crc;
}
uint32_t RefCRC(const std::string& s, uint32_t poly, int width) {
  uint32_t crc = 0;
  const uint32_t top = 1u << (width - 1), mask = width == 32 ? ~0u : (1u << width) - 1;
  for (char x : s)
    for (int i = 7; i >= 0; i--) {
      const bool bit = ((uint8_t)x >> i & 1) ^ ((crc & top) != 0);
      crc = (crc << 1 ^ (bit ? poly : 0)) & mask;
    }
  return crc;
}
uint64_t Fold(uint64_t h, uint64_t n) {
  if (n > 0xFFFFFFFFULL) return h;
  return ((h >> 48) | ((h & 0x0000ffff00000000ULL) >> 16)) ^
         (((h & 0xffffULL) << 16) | ((h & 0xffff0000ULL) >> 16));
}
bool RefPrime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t d = 2; d * d <= n; d++) if (n % d == 0) return false;
  return true;
}

struct Incremental {
  const char* name;
  uint32_t (*fn)(const void*, size_t, bool, uint32_t);
  uint32_t init;
  uint32_t (*ref)(const std::string&);
};
const Incremental kIncremental[] = {
    {"Checksum6", HashChecksum6Continuous, 0, [](const std::string& s) { return (uint32_t)RefSum(s, 61, 0); }},
    {"Checksum8", HashChecksum8Continuous, 0, [](const std::string& s) { return (uint32_t)RefSum(s, 251, 0); }},
    {"Adler6", HashAdler6Continuous, 1, [](const std::string& s) { return (uint32_t)RefAdler(s, 7, 3); }},
    {"Adler8", HashAdler8Continuous, 1, [](const std::string& s) { return (uint32_t)RefAdler(s, 13, 4); }},
    {"Adler16", HashAdler16Continuous, 1, [](const std::string& s) { return (uint32_t)RefAdler(s, 251, 8); }},
    {"Adler32", HashAdler32Continuous, 1, [](const std::string& s) { return (uint32_t)RefAdler(s, 65521, 16); }},
    {"CRC4", HashCRC4Continuous, 0, [](const std::string& s) { return RefCRCReflected(s, 0x0C, 0); }},
    {"CRC8", HashCRC8Continuous, 0, [](const std::string& s) { return RefCRC(s, 0x07, 8); }},
    {"CRC16", HashCRC16Continuous, 0, [](const std::string& s) { return RefCRC(s, 0x1021, 16); }},
    {"CRC32", HashCRC32Continuous, 0xFFFFFFFF, [](const std::string& s) { return ~RefCRCReflected(s, 0xEDB88320, ~0u); }},
};

// Data of a size around the boundaries of the loops.
std::string Data(Case& c, size_t max) {
  const size_t n = c.Chance(1, 8) ? c.PickOf<size_t>({4095, 4096, 4097, 8192, 12289, 70000}) : c.Size(max);
  if (n > 1000) {
    std::string s(n, '\xff');
    if (c.Bool()) {
      Rnd r{c.Draw64()};
      for (auto& x : s) x = r.Next();
    }
    return s;
  }
  return c.BytesOfSize(n, c.Draw(4));
}

}  // namespace

VT_SUITE(hash_codec) {
  const int kind = c.Weighted({6, 2, 2, 3});
  if (kind == 0) {
    const std::string s = Data(c, 70);
    const size_t shift = c.Draw(8);
    std::unique_ptr<char[]> mem(new char[s.size() + shift]);
    char* p = mem.get() + shift;
    if (!s.empty()) std::memcpy(p, s.data(), s.size());
    c.Log("%zu bytes at +%zu: \"%s\"", s.size(), shift, vt::Esc(s.substr(0, 100)).c_str());
    c.NonTrivial(s.size() > 1);
    const uint64_t seed = c.NastyUInt();
    EQ(c, "HashMurmur", HashMurmur(p, s.size(), seed), RefMurmur(s, seed));
    EQ(c, "HashFNV", HashFNV(p, s.size()), RefFNV(s));
    const std::string_view view(p, s.size());
    const uint64_t n = c.Chance(1, 3) ? c.NastyUInt() | 1 : 1 + c.Draw(1000);
    const uint64_t seed1 = 19780211;
    EQ(c, "PrimaryHash", PrimaryHash(view, n), Fold(RefMurmur(s, seed1), n) % n);
    EQ(c, "SecondaryHash", SecondaryHash(view, n), Fold(RefFNV(s), n) % n);
    for (const auto& h : kIncremental) {
      const uint32_t want = h.ref(s);
      EQ(c, h.name, h.fn(p, s.size(), true, h.init), want);
      size_t pos = 0;
      uint32_t v = h.init;
      std::string splits;
      for (int i = 0; i < 4 && pos < s.size(); i++) {
        const size_t len = c.Draw(s.size() - pos + 1);
        v = h.fn(p + pos, len, false, v);
        pos += len;
        splits += vt::StrF("%zu ", len);
      }
      v = h.fn(p + pos, s.size() - pos, true, v);
      VT_CHECK(c, "continued", v == want, "%s continued over pieces of %s: %u, expected %u", h.name,
               splits.c_str(), v, want);
    }
    EQ(c, "HashCRC32", HashCRC32(p, s.size()), (uint32_t)crc32(0, (const Bytef*)p, s.size()));
    EQ(c, "HashAdler32", HashAdler32(p, s.size()), (uint32_t)adler32(1, (const Bytef*)p, s.size()));
    EQ(c, "HashCRC4", HashCRC4(p, s.size()), RefCRCReflected(s, 0x0C, 0));
    EQ(c, "HashCRC8", HashCRC8(p, s.size()), RefCRC(s, 7, 8));
    EQ(c, "HashCRC16", HashCRC16(p, s.size()), RefCRC(s, 0x1021, 16));
    EQ(c, "HashChecksum6", HashChecksum6(p, s.size()), (uint32_t)RefSum(s, 61, 0));
    EQ(c, "HashChecksum8", HashChecksum8(p, s.size()), (uint32_t)RefSum(s, 251, 0));
    const size_t cut = c.Draw(s.size() + 1);
    const uint32_t sd = c.Draw(256);
    EQ(c, "Checksum6Pair", HashChecksum6Pair(p, cut, p + cut, s.size() - cut, sd), (uint32_t)RefSum(s, 61, sd));
    EQ(c, "Checksum8Pair", HashChecksum8Pair(p, cut, p + cut, s.size() - cut, sd), (uint32_t)RefSum(s, 251, sd));
  } else if (kind == 1) {
    // Numbers.
    const uint64_t n = c.NastyUInt();
    c.Log("number %llu", (unsigned long long)n);
    c.NonTrivial(n > 127);
    char buf[16];
    std::memset(buf, 0x5a, sizeof(buf));
    const size_t size = WriteVarNum(buf, n);
    VT_CHECK(c, "varnum size", size == SizeVarNum(n) && size >= 1 && size <= 10, "size %zu of %zu", size,
             SizeVarNum(n));
    VT_CHECK(c, "varnum", buf[size] == 0x5a, "written beyond the size");
    std::string ref(1, n & 0x7f);
    for (uint64_t v = n >> 7; v > 0; v >>= 7) ref.insert(ref.begin(), (char)(v & 0x7f | 0x80));
    EQ(c, "WriteVarNum", std::string(buf, size), ref);
    uint64_t got = 1;
    Exact exact(ref);
    EQ(c, "ReadVarNum step", ReadVarNum(exact.buf.get(), exact.size, &got), (uint64_t)size);
    EQ(c, "ReadVarNum", got, n);
    EQ(c, "ReadVarNum step", ReadVarNum(exact.buf.get(), &got), (uint64_t)size);
    EQ(c, "ReadVarNum", got, n);
    Exact cut(ref.substr(0, c.Draw(size)));
    EQ(c, "ReadVarNum of cut data", ReadVarNum(cut.buf.get(), cut.size, &got), (uint64_t)0);
    const size_t width = 1 + c.Draw(8);
    std::memset(buf, 0x5a, sizeof(buf));
    WriteFixNum(buf, n, width);
    std::string fix;
    for (size_t i = 0; i < width; i++) fix += (char)(n >> (8 * (width - 1 - i)));
    EQ(c, "WriteFixNum", std::string(buf, width), fix);
    VT_CHECK(c, "fixnum", buf[width] == 0x5a, "written beyond the width");
    Exact ef(fix);
    EQ(c, "ReadFixNum", ReadFixNum(ef.buf.get(), width), width == 8 ? n : n & (((uint64_t)1 << 8 * width) - 1));
  } else if (kind == 2) {
    // Arbitrary bytes as a number.
    const std::string s = c.Bytes(14);
    Exact e(s);
    c.NonTrivial(s.size() > 1);
    uint64_t got = 1;
    const size_t step = ReadVarNum(e.buf.get(), e.size, &got);
    size_t want = 0;
    uint64_t v = 0;
    for (size_t i = 0; i < s.size(); i++) {
      v = v << 7 | ((uint8_t)s[i] & 0x7f);
      if ((uint8_t)s[i] < 0x80) { want = i + 1; break; }
    }
    EQ(c, "ReadVarNum step", (uint64_t)step, (uint64_t)want);
    EQ(c, "ReadVarNum", got, want ? v : (uint64_t)0);
  } else {
    const int64_t n = c.Chance(1, 2) ? (int64_t)c.Draw(70000) : (int64_t)c.Draw(1ULL << 31);
    c.Log("%lld", (long long)n);
    c.NonTrivial(n > 2);
    EQ(c, "IsPrimeNumber", (bool)IsPrimeNumber(n), RefPrime(n));
    const uint64_t root = 1 + c.Draw(90000);
    EQ(c, "IsPrimeNumber of a square", (bool)IsPrimeNumber(root * root), false);
    int64_t want = n;
    if (n > 100) { while (!RefPrime(want)) want++; } else if (n < 1) { want = 1; }
    EQ(c, "GetHashBucketSize", GetHashBucketSize(n), want);
  }
}

// ---- Compressors.

namespace {

std::string RefRC4(const std::string& key, const std::string& iv, const std::string& data) {
  const std::string k = (key.empty() ? std::string(1, '\0') : key) + iv;
  uint8_t s[256];
  for (int i = 0; i < 256; i++) s[i] = i;
  uint8_t j = 0;
  for (int i = 0; i < 256; i++) {
    j += s[i] + (uint8_t)k[i % k.size()];
    std::swap(s[i], s[j]);
  }
  std::string out;
  uint8_t x = 0, y = 0;
  for (char d : data) {
    x++;
    y += s[x];
    std::swap(s[x], s[y]);
    out += d ^ s[(uint8_t)(s[x] + s[y])];
  }
  return out;
}

// AES by its definition in GF(2^8).
struct RefAES {
  std::vector<uint8_t> rk;
  int rounds;
  static uint8_t Mul(uint8_t a, uint8_t b) {
    uint8_t r = 0;
    for (; b; b >>= 1) {
      if (b & 1) r ^= a;
      a = a << 1 ^ (a & 0x80 ? 0x1b : 0);
    }
    return r;
  }
  static const uint8_t* SBox() {
    static uint8_t box[256];
    static bool done = [] {
      for (int i = 0; i < 256; i++) {
        uint8_t inv = 0;
        for (int j = 1; j < 256; j++) if (Mul(i, j) == 1) inv = j;
        uint8_t r = 0x63;
        for (int k = 0; k < 5; k++) r ^= inv << k | inv >> (8 - k);
        box[i] = r;
      }
      return true;
    }();
    (void)done;
    return box;
  }
  explicit RefAES(const std::string& key) {
    const int nk = key.size() / 4;
    rounds = nk + 6;
    rk.assign(key.begin(), key.end());
    uint8_t rcon = 1;
    for (int i = nk; i < 4 * (rounds + 1); i++) {
      uint8_t t[4];
      std::memcpy(t, &rk[4 * (i - 1)], 4);
      if (i % nk == 0) {
        const uint8_t t0 = t[0];
        t[0] = SBox()[t[1]] ^ rcon; t[1] = SBox()[t[2]]; t[2] = SBox()[t[3]]; t[3] = SBox()[t0];
        rcon = Mul(rcon, 2);
      } else if (nk > 6 && i % nk == 4) {
        for (auto& x : t) x = SBox()[x];
      }
      for (int j = 0; j < 4; j++) rk.push_back(rk[4 * (i - nk) + j] ^ t[j]);
    }
  }
  std::string Encrypt(const std::string& in) const {
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= rounds; r++) {
      for (int i = 0; i < 16; i++) t[i] = SBox()[s[(i + 4 * (i % 4)) % 16]];
      for (int col = 0; col < 4; col++)
        for (int row = 0; row < 4; row++) {
          const uint8_t* p = t + 4 * col;
          s[4 * col + row] = r == rounds ? p[row] :
              Mul(p[row], 2) ^ Mul(p[(row + 1) % 4], 3) ^ p[(row + 2) % 4] ^ p[(row + 3) % 4];
        }
      for (int i = 0; i < 16; i++) s[i] ^= rk[16 * r + i];
    }
    return std::string((char*)s, 16);
  }
};

std::string AESKey(const std::string& key) {
  std::string bin(32, '\0');
  size_t size = 16;
  if (key.size() <= 32) {
    bin.replace(0, key.size(), key);
    if (key.size() > 16 && key.size() < 32) size = 32;
  } else {
    for (size_t i = 0; i < key.size(); i++) bin[i % 32] ^= key[i];
    size = 32;
  }
  return bin.substr(0, size);
}

std::string Run(Case& c, bool compress, const Compressor& z, const std::string& in, bool* ok) {
  Exact e(in);
  size_t size = 0;
  char* out = compress ? z.Compress(e.buf.get(), e.size, &size) : z.Decompress(e.buf.get(), e.size, &size);
  *ok = out != nullptr;
  std::string res;
  if (out) res.assign(out, size);
  xfree(out);
  return res;
}

std::string Inflate(Case& c, const std::string& data, int bits, size_t max) {
  z_stream zs;
  std::memset(&zs, 0, sizeof(zs));
  inflateInit2(&zs, bits);
  std::string out(max + 10, 0);
  zs.next_in = (Bytef*)data.data();
  zs.avail_in = data.size();
  zs.next_out = (Bytef*)&out[0];
  zs.avail_out = out.size();
  const int rv = inflate(&zs, Z_FINISH);
  out.resize(out.size() - zs.avail_out);
  const size_t rest = zs.avail_in;
  inflateEnd(&zs);
  VT_CHECK(c, "format", rv == Z_STREAM_END && rest == 0, "zlib does not read the data: %d, %zu left", rv, rest);
  return out;
}

}  // namespace

VT_SUITE(compress_rt) {
  const int kind = c.Weighted({1, 3, 3, 3, 1, 3, 3});
  std::unique_ptr<Compressor> z, z2;
  std::string name, key;
  bool sum = false;
  int mode = 0;
  switch (kind) {
    case 0:
      sum = c.Bool();
      z.reset(new DummyCompressor(sum));
      name = "dummy";
      break;
    case 1:
      mode = c.Draw(3);
      z.reset(new ZLibCompressor(c.Draw(10), ZLibCompressor::MetadataMode(mode)));
      sum = mode == ZLibCompressor::METADATA_CRC32;
      name = "zlib";
      break;
    case 2: z.reset(new ZStdCompressor((int)c.Draw(c.Chance(1, 10) ? 21 : 8) - 1)); name = "zstd"; break;
    case 3: z.reset(new LZ4Compressor(1 + c.Draw(c.Bool() ? 5 : 100))); name = "lz4"; break;
    case 4: {
      mode = c.Draw(3);
      z.reset(new LZMACompressor(c.Draw(c.Chance(1, 20) ? 8 : 2), LZMACompressor::MetadataMode(mode)));
      sum = mode != LZMACompressor::METADATA_NONE;
      name = "lzma";
      break;
    }
    case 5:
      key = c.BytesOfSize(c.PickOf<size_t>({0, 1, 5, 16, 100, 249, 250, 251, 256, 300}), c.Draw(4));
      z.reset(new RC4Compressor(key, c.Draw(3)));
      z2.reset(new RC4Compressor(key, 5));
      name = "rc4";
      break;
    case 6:
      key = c.BytesOfSize(c.PickOf<size_t>({0, 1, 8, 15, 16, 17, 24, 31, 32, 33, 64, 65, 100}), c.Draw(4));
      z.reset(new AESCompressor(key, c.Draw(3)));
      z2.reset(new AESCompressor(key, 5));
      name = "aes";
      break;
  }
  if (!z2) z2 = z->MakeCompressor();
  VT_CHECK(c, "supported", z->IsSupported(), "%s is not supported", name.c_str());
  std::string in;
  const int shape = c.Weighted({4, 2, 2, 1});
  if (shape == 0) {
    in = c.Bytes(100);
  } else if (shape == 1) {
    in = c.BytesOfSize(c.Draw(70), c.Draw(4));
  } else {
    // Large: repeated, or random, or mixed.
    const size_t n = c.Draw(shape == 2 ? 3000 : 300000);
    const int style = c.Draw(3);
    Rnd r{c.Draw64()};
    while (in.size() < n) {
      if (style == 0 || (style == 2 && r.Next() % 2)) in += std::string(1 + r.Next() % 2000, 'a' + r.Next() % 3);
      else for (int i = 0; i < 64; i++) in += (char)r.Next();
    }
    in.resize(n);
  }
  c.Log("%s mode %d key of %zu bytes, input of %zu bytes \"%s\"", name.c_str(), mode, key.size(), in.size(),
        vt::Esc(in.substr(0, 60)).c_str());
  c.NonTrivial(in.size() > 1);
  c.Tag(name.c_str());
  bool ok = false;
  const std::string zip = Run(c, true, *z, in, &ok);
  VT_CHECK(c, "compress", ok, "%s does not compress", name.c_str());
  const std::string out = Run(c, false, *z, zip, &ok);
  VT_CHECK(c, "round trip", ok && out == in, "%s: %s", name.c_str(), ok ? "different data" : "failed");
  const std::string out2 = Run(c, false, *z2, zip, &ok);
  VT_CHECK(c, "fresh", ok && out2 == in, "%s: %s with a fresh object", name.c_str(), ok ? "different" : "failed");
  const std::string out3 = Run(c, false, *z->MakeCompressor(), zip, &ok);
  VT_CHECK(c, "fresh", ok && out3 == in, "%s: %s with MakeCompressor", name.c_str(), ok ? "different" : "failed");
  // The format.
  if (kind == 0 && sum) {
    std::string head(4, 0);
    const uint32_t crc = crc32(0, (const Bytef*)in.data(), in.size());
    for (int i = 0; i < 4; i++) head[i] = crc >> (24 - 8 * i);
    EQ(c, "dummy format", zip.substr(0, 100), (head + in).substr(0, 100));
  } else if (kind == 1) {
    VT_CHECK(c, "format", Inflate(c, zip, mode == 0 ? -15 : mode == 1 ? 15 : 31, in.size()) == in, "zlib differs");
  } else if (kind == 2) {
    std::string d(in.size() + 1, 0);
    d.resize(ZSTD_decompress(&d[0], d.size(), zip.data(), zip.size()));
    VT_CHECK(c, "format", d == in, "zstd differs");
  } else if (kind == 3) {
    std::string d(in.size() + 1, 0);
    d.resize(std::max(0, LZ4_decompress_safe(zip.data(), &d[0], zip.size(), d.size())));
    VT_CHECK(c, "format", d == in, "lz4 differs");
  } else if (kind == 5) {
    VT_CHECK(c, "format", zip.size() == in.size() + 6, "%zu bytes", zip.size());
    VT_CHECK(c, "format", RefRC4(key, zip.substr(0, 6), zip.substr(6)) == in, "not RC4 of the data");
  } else if (kind == 6 && in.size() < 2000) {
    VT_CHECK(c, "format", zip.size() == in.size() / 16 * 16 + 32, "%zu bytes", zip.size());
    const RefAES aes(AESKey(key));
    // The IV is known only after decryption: take it from the first block by trying the equation backwards.
    std::string prev;
    for (size_t i = 16; i < zip.size(); i += 16) {
      std::string block = in.substr(i - 16, 16);
      const size_t n = block.size();
      std::string x(16, (char)n);
      if (i > 16) {
        for (size_t j = 0; j < n; j++) x[j] = block[j] ^ prev[j];
        VT_CHECK(c, "format", aes.Encrypt(x) == zip.substr(i, 16), "block %zu is not AES of the data", i / 16);
      }
      prev = block;
    }
  }
  // Damage.
  const bool fast = kind != 4;
  for (int i = 0; i < (fast ? 3 : 1); i++) {
    std::string bad = zip;
    const int how = c.Draw(4);
    if (how == 0) {
      bad.resize(c.Draw(zip.size() + 1));
    } else if (how == 1 && !bad.empty()) {
      bad[c.Draw(bad.size())] ^= 1 << c.Draw(8);
    } else if (how == 2 && !bad.empty()) {
      bad[c.Draw(bad.size())] = c.Draw(256);
    } else {
      bad = c.Bytes(200);
    }
    g_max_alloc = 0;
    const std::string d = Run(c, false, *z2, bad, &ok);
    const size_t peak = g_max_alloc;
    c.Evals(1);
    if (sum && how < 3)
      VT_CHECK(c, "damage", !ok || d == in, "%s returns wrong data from damaged data", name.c_str());
    if ((how == 0 && in.size() < 1000000) || (kind == 3 && how == 3))
      VT_CHECK(c, "damage memory", peak <= (64u << 20) + in.size() * 16, "%s allocates %zu bytes for %zu bytes",
               name.c_str(), peak, bad.size());
    if (how == 0 && !bad.empty() && bad.size() < zip.size() && (kind == 1 || kind == 2 || kind == 4))
      VT_CHECK(c, "damage", !ok || d == in, "%s accepts data cut at %zu of %zu", name.c_str(), bad.size(), zip.size());
  }
}

// ---- Containers.

namespace {

struct BadHash {
  int mod;
  explicit BadHash(int m = 3) : mod(m) {}
  size_t operator()(const std::string& s) const { return s.empty() ? 0 : (uint8_t)s[0] % 3; }
};
using Map = LinkedHashMap<std::string, std::string, BadHash>;
using RefMap = std::list<std::pair<std::string, std::string>>;

RefMap::iterator Find(RefMap& m, const std::string& k) {
  return std::find_if(m.begin(), m.end(), [&](const auto& r) { return r.first == k; });
}
void Move(RefMap& m, RefMap::iterator it, int mode) {
  if (mode == 1) m.splice(m.begin(), m, it);
  if (mode == 2) m.splice(m.end(), m, it);
}
void Insert(RefMap& m, const std::string& k, const std::string& v, int mode) {
  if (mode == 1) m.emplace_front(k, v); else m.emplace_back(k, v);
}
void Same(Case& c, Map& map, RefMap& ref) {
  VT_CHECK(c, "size", map.size() == ref.size() && map.empty() == ref.empty(), "%zu records, expected %zu",
           map.size(), ref.size());
  auto rit = ref.begin();
  for (auto it = map.begin(); it != map.end(); ++it, ++rit) {
    VT_CHECK(c, "order", rit != ref.end(), "too many records");
    VT_CHECK(c, "order", it->key == rit->first && (*it).value == rit->second, "%s=%s, expected %s=%s",
             it->key.c_str(), it->value.c_str(), rit->first.c_str(), rit->second.c_str());
  }
  VT_CHECK(c, "order", rit == ref.end(), "too few records");
  auto rr = ref.rbegin();
  const Map& cm = map;
  auto it = cm.end();
  for (size_t i = 0; i < ref.size(); i++, ++rr) {
    --it;
    VT_CHECK(c, "reverse order", it != cm.end() && it->key == rr->first, "backward iteration differs");
  }
  if (!ref.empty()) {
    VT_CHECK(c, "ends", map.front().key == ref.front().first && map.back().key == ref.back().first &&
             cm.front().key == ref.front().first && cm.back().key == ref.back().first, "wrong ends");
    VT_CHECK(c, "ends", map.front().prev == nullptr && map.back().next == nullptr, "dangling ends");
  }
  for (auto& r : ref) {
    auto* rec = map.Get(r.first);
    VT_CHECK(c, "get", rec && rec->value == r.second, "record %s is not found", r.first.c_str());
    VT_CHECK(c, "find", cm.find(r.first) != cm.end() && map.find(r.first)->value == r.second, "find differs");
  }
}

void LinkedHistory(Case& c) {
  const size_t buckets[2] = {(size_t)c.PickOf<int>({0, 1, 2, 3, 7, 100}), (size_t)c.PickOf<int>({0, 1, 2, 5})};
  Map a(buckets[0]), b(buckets[1]);
  size_t nb[2] = {buckets[0] ? buckets[0] : Map::DEFAULT_NUM_BUCKETS, buckets[1] ? buckets[1] : Map::DEFAULT_NUM_BUCKETS};
  Map* maps[2] = {&a, &b};
  RefMap refs[2];
  const int nkeys = 1 + c.Draw(12);
  int changes = 0;
  for (int i = 0; c.More(i, 40, 400); i++) {
    Case::Span span(c);
    const int w = c.Draw(2);
    Map& m = *maps[w];
    RefMap& r = refs[w];
    const std::string k(1, 'a' + c.Draw(nkeys));
    const std::string v = std::to_string(c.Draw(100));
    const int mode = c.Draw(3);
    auto it = Find(r, k);
    const int op = c.Weighted({6, 4, 2, 3, 3, 1, 2, 2, 1, 1, 2});
    c.Log("%d: op %d key %s value %s mode %d", w, op, k.c_str(), v.c_str(), mode);
    switch (op) {
      case 0: {
        const bool over = c.Bool();
        auto* rec = m.Set(k, v, over, Map::MoveMode(mode));
        if (it == r.end()) {
          Insert(r, k, v, mode);
          changes++;
        } else if (over) {
          it->second = v;
          Move(r, it, mode);
        }
        VT_CHECK(c, "set", rec && rec->key == k && rec->value == Find(r, k)->second, "Set returns another record");
        break;
      }
      case 1: {
        auto* rec = m.Get(k, Map::MoveMode(mode));
        VT_CHECK(c, "get", (rec != nullptr) == (it != r.end()), "Get: %p", (void*)rec);
        if (it != r.end()) Move(r, it, mode);
        break;
      }
      case 2: {
        const std::string got = m.GetSimple(k, "none", Map::MoveMode(mode));
        EQ(c, "GetSimple", got, it == r.end() ? std::string("none") : it->second);
        if (it != r.end()) Move(r, it, mode);
        break;
      }
      case 3: {
        const bool got = c.Bool() ? m.Remove(k) : m.erase(k) == 1;
        EQ(c, "Remove", got, it != r.end());
        if (it != r.end()) { r.erase(it); changes++; }
        break;
      }
      case 4: {
        Map& d = *maps[1 - w];
        RefMap& dr = refs[1 - w];
        auto* rec = m.Migrate(k, &d, Map::MoveMode(mode));
        VT_CHECK(c, "migrate", (rec != nullptr) == (it != r.end()), "Migrate: %p", (void*)rec);
        if (it != r.end()) {
          auto dit = Find(dr, k);
          if (dit == dr.end()) {
            Insert(dr, k, it->second, mode);
          } else {
            dit->second = it->second;
            Move(dr, dit, mode);
          }
          r.erase(it);
          changes++;
        }
        break;
      }
      case 5: m.clear(); r.clear(); break;
      case 6: {
        auto res = m.insert(Map::Record(k, v));
        EQ(c, "insert", res.second, it == r.end());
        if (it == r.end()) { r.emplace_back(k, v); changes++; }
        EQ(c, "insert", res.first->value, Find(r, k)->second);
        break;
      }
      case 7: {
        std::string& ref = m[k];
        if (it == r.end()) { r.emplace_back(k, ""); it = Find(r, k); }
        EQ(c, "operator[]", ref, it->second);
        ref += v;
        it->second += v;
        break;
      }
      case 8: nb[w] = 1 + c.Draw(20); m.rehash(nb[w]); break;
      case 9:
        VT_CHECK(c, "load factor", std::fabs(m.load_factor() - (double)r.size() / nb[w]) < 1e-5, "%f for %zu/%zu",
                 m.load_factor(), r.size(), nb[w]);
        break;
      case 10: {
        // Walk with an iterator in both ways.
        auto i1 = m.begin();
        auto i2 = r.begin();
        for (int j = 0; j < 6 && i2 != r.end(); j++) {
          VT_CHECK(c, "iterator", i1 != m.end() && i1->key == i2->first, "walk differs");
          if (i2 != r.begin() && c.Chance(1, 3)) { if (c.Bool()) --i1; else i1--; --i2; }
          else { if (c.Bool()) ++i1; else i1++; ++i2; }
        }
        break;
      }
    }
    if (c.Chance(1, 4)) Same(c, m, r);
  }
  Same(c, a, refs[0]);
  Same(c, b, refs[1]);
  c.NonTrivial(changes >= 4);
}

struct Obj {
  int id;
  static std::atomic<int> live;
  explicit Obj(int i) : id(i) { live++; }
  ~Obj() { live--; }
};
std::atomic<int> Obj::live{0};

template <typename CACHE, typename GET, typename MODEL>
void CacheHistory(Case& c, CACHE& cache, GET get, MODEL& model) {
  int seq = 0, changes = 0;
  const int nkeys = 1 + c.Draw(14);
  std::shared_ptr<Obj> held;
  for (int i = 0; c.More(i, 40, 300); i++) {
    Case::Span span(c);
    const int64_t id = c.Draw(nkeys);
    const int op = c.Weighted({6, 6, 2, 3, 1, 2});
    c.Log("op %d id %d", op, (int)id);
    if (op == 0) {
      const int v = ++seq;
      const int want = model.Add(id, v);
      auto p = cache.Add(id, new Obj(v));
      VT_CHECK(c, "add", p && p->id == want, "Add returns object %d, expected %d", p ? p->id : -1, want);
      changes++;
    } else if (op == 1) {
      const bool promo = c.Bool();
      const int want = model.Get(id, promo);
      auto p = get(cache, id, promo);
      VT_CHECK(c, "get", (p ? p->id : -1) == want, "Get returns %d, expected %d", p ? p->id : -1, want);
    } else if (op == 2) {
      cache.Remove(id);
      model.Remove(id);
    } else if (op == 3) {
      int64_t got_id = -1;
      int64_t want_id = -1;
      const int want = model.RemoveLRU(&want_id);
      auto p = cache.RemoveLRU(&got_id);
      VT_CHECK(c, "lru", (p ? p->id : -1) == want && got_id == want_id, "RemoveLRU: %d (id %d), expected %d (id %d)",
               p ? p->id : -1, (int)got_id, want, (int)want_id);
      if (p && c.Chance(1, 3)) {
        cache.GiveBack(got_id, std::move(p));
        model.GiveBack(want_id, want);
      }
      changes++;
    } else if (op == 4 && c.Chance(1, 4)) {
      cache.Clear();
      model.Clear();
    } else {
      std::vector<std::pair<int64_t, int>> got;
      auto it = cache.MakeIterator();
      while (got.size() < 1000) {
        int64_t gid = -1;
        auto p = it.Get(c.Chance(1, 8) ? nullptr : &gid);
        if (!p) break;
        got.emplace_back(p->id, p->id);
        it.Next();
      }
      const auto want = model.List();
      VT_CHECK(c, "iteration", got.size() == want.size(), "%zu objects, expected %zu", got.size(), want.size());
      for (size_t j = 0; j < got.size(); j++)
        VT_CHECK(c, "iteration", got[j].second == want[j], "object %d at %zu, expected %d", got[j].second, j, want[j]);
    }
    const size_t n = model.Size();
    VT_CHECK(c, "size", cache.Size() == n && cache.IsEmpty() == (n == 0), "%zu objects, expected %zu", cache.Size(), n);
    VT_CHECK(c, "saturated", cache.IsSaturated() == model.Saturated(), "IsSaturated differs");
    VT_CHECK(c, "leak", Obj::live == (int)n, "%d objects live, %zu in the cache", Obj::live.load(), n);
  }
  c.NonTrivial(changes >= 4);
}

struct LruModel {
  size_t cap;
  std::list<std::pair<int64_t, int>> l;
  std::list<std::pair<int64_t, int>>::iterator At(int64_t id) {
    return std::find_if(l.begin(), l.end(), [&](const auto& r) { return r.first == id; });
  }
  int Add(int64_t id, int v) {
    auto it = At(id);
    if (it != l.end()) return it->second;
    l.emplace_back(id, v);
    return v;
  }
  int Get(int64_t id, bool) {
    auto it = At(id);
    if (it == l.end()) return -1;
    l.splice(l.end(), l, it);
    return l.back().second;
  }
  bool Remove(int64_t id) { auto it = At(id); if (it == l.end()) return false; l.erase(it); return true; }
  int RemoveLRU(int64_t* id) {
    if (l.empty()) return -1;
    *id = l.front().first;
    const int v = l.front().second;
    l.pop_front();
    return v;
  }
  void GiveBack(int64_t id, int v) { if (At(id) == l.end()) l.emplace_back(id, v); }
  void Clear() { l.clear(); }
  size_t Size() { return l.size(); }
  bool Saturated() { return l.size() > cap; }
  std::vector<int> List() { std::vector<int> v; for (auto& r : l) v.push_back(r.second); return v; }
};
struct DoubleModel {
  LruModel hot, warm;
  int Add(int64_t id, int v) {
    auto it = hot.At(id);
    return it != hot.l.end() ? it->second : warm.Add(id, v);
  }
  int Get(int64_t id, bool promo) {
    int v = hot.Get(id, false);
    if (v >= 0 || !promo) return v >= 0 ? v : warm.Get(id, false);
    if (hot.l.size() >= hot.cap) {
      auto r = hot.l.front();
      hot.l.pop_front();
      warm.l.push_back(r);
    }
    auto it = warm.At(id);
    if (it == warm.l.end()) return -1;
    v = it->second;
    warm.l.erase(it);
    hot.l.emplace_back(id, v);
    return v;
  }
  void Remove(int64_t id) { if (!hot.Remove(id)) warm.Remove(id); }
  int RemoveLRU(int64_t* id) { return warm.l.empty() ? hot.RemoveLRU(id) : warm.RemoveLRU(id); }
  void GiveBack(int64_t id, int v) { warm.GiveBack(id, v); }
  void Clear() { hot.Clear(); warm.Clear(); }
  size_t Size() { return hot.Size() + warm.Size(); }
  bool Saturated() { return warm.Saturated(); }
  std::vector<int> List() {
    auto v = hot.List();
    for (int x : warm.List()) v.push_back(x);
    return v;
  }
};

}  // namespace

VT_SUITE(containers) {
  switch (c.Weighted({4, 2, 3, 2, 1})) {
    case 0: LinkedHistory(c); break;
    case 1: {
      LruModel model{(size_t)1 + c.Draw(8), {}};
      LRUCache<Obj> cache(model.cap);
      CacheHistory(c, cache, [](auto& x, int64_t id, bool) { return x.Get(id); }, model);
      break;
    }
    case 2: {
      DoubleModel model{{(size_t)1 + c.Draw(5), {}}, {(size_t)1 + c.Draw(5), {}}};
      DoubleLRUCache<Obj> cache(model.hot.cap, model.warm.cap);
      CacheHistory(c, cache, [](auto& x, int64_t id, bool promo) { return x.Get(id, promo); }, model);
      break;
    }
    case 3: {
      const size_t cap = 1 + c.Draw(10);
      std::vector<std::pair<int, std::string>> heap, all;
      for (int i = 0; c.More(i, 15, 200); i++) {
        const int cost = c.Draw(8);
        const std::string v(1, 'a' + c.Draw(4));
        all.emplace_back(cost, v);
        HeapByCostAdd(cost, v, cap, &heap);
        c.Log("%d %s", cost, v.c_str());
      }
      HeapByCostFinish(&heap);
      std::sort(all.begin(), all.end());
      if (all.size() > cap) all.resize(cap);
      c.NonTrivial(all.size() > 1);
      VT_CHECK(c, "heap", heap == all, "the heap has %zu elements or other ones than the %zu smallest", heap.size(),
               all.size());
      break;
    }
    case 4: {
      AtomicSet<std::string> set;
      std::set<std::string> ref;
      for (int i = 0; c.More(i, 20, 200); i++) {
        std::string k(1, 'a' + c.Draw(6));
        const int op = c.Draw(5);
        c.Log("op %d %s", op, k.c_str());
        if (op == 0) EQ(c, "Insert", set.Insert(k), ref.insert(k).second);
        if (op == 1) { const bool n = ref.insert(k).second; EQ(c, "Insert", set.Insert(std::move(k)), n); }
        if (op == 2) EQ(c, "Remove", set.Remove(k), ref.erase(k) > 0);
        if (op == 3) {
          std::string want;
          if (!ref.empty()) { want = *ref.begin(); ref.erase(ref.begin()); }
          EQ(c, "Pop", set.Pop(), want);
        }
        if (op == 4 && c.Chance(1, 3)) { set.Clear(); ref.clear(); }
        EQ(c, "IsEmpty", set.IsEmpty(), ref.empty());
        const std::string q(1, 'a' + c.Draw(6));
        EQ(c, "Check", set.Check(q), ref.count(q) > 0);
        if (i > 3) c.NonTrivial(true);
      }
      break;
    }
  }
}

// ---- Time.

namespace {

int64_t DaysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const int64_t yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
bool Leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int MonthDays(int64_t y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : d[m - 1];
}
struct Civil { int y, mo, d, h, mi, s, wd; int64_t t; };
Civil GenCivil(Case& c, int miny) {
  Civil v;
  v.y = c.PickOf<int>({miny, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2024, 2037, 2038, 2100, 2400, 9998, 0});
  if (v.y < miny) v.y = miny + c.Draw(9999 - miny);
  v.mo = c.PickOf<int>({1, 2, 3, 12, 0});
  if (v.mo == 0) v.mo = 1 + c.Draw(12);
  const int md = MonthDays(v.y, v.mo);
  v.d = c.PickOf<int>({1, 28, 29, md, 0});
  if (v.d == 0 || v.d > md) v.d = 1 + c.Draw(md);
  v.h = c.PickOf<int>({0, 23, 12, (int)c.Draw(24)});
  v.mi = c.PickOf<int>({0, 59, (int)c.Draw(60)});
  v.s = c.PickOf<int>({0, 59, (int)c.Draw(60)});
  const int64_t days = DaysFromCivil(v.y, v.mo, v.d);
  v.wd = ((days % 7) + 7 + 4) % 7;
  v.t = days * 86400 + v.h * 3600 + v.mi * 60 + v.s;
  return v;
}
const char* const kMonths[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
const char* const kDays[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
std::string Zone(int td, bool colon) {
  return vt::StrF("%c%02d%s%02d", td < 0 ? '-' : '+', std::abs(td) / 3600, colon ? ":" : "", std::abs(td) / 60 % 60);
}
double Parse(const std::string& s) { return ParseDateStr(Exact(s)); }
#define NEAR(c, what, got, want, tol) \
  VT_CHECK(c, what, std::fabs((got) - (want)) <= (tol), "%s: %.9f, expected %.9f", what, (double)(got), (double)(want))

}  // namespace

VT_SUITE(time_util) {
  const int kind = c.Weighted({4, 4, 4, 2, 2, 2});
  const int td = c.Bool() ? 0 : ((int)c.Draw(28 * 60 + 1) - 14 * 60) * 60;
  // The result buffers hold garbage, and not more than the documented size.
  std::unique_ptr<char[]> buf(new char[48]);
  std::memset(buf.get(), c.PickOf<int>({0, 'x', 0xff}), 48);
  if (kind == 0) {
    const Civil v = GenCivil(c, c.Bool() ? 1970 : 1);
    c.NonTrivial(true);
    c.Log("%04d-%02d-%02d %02d:%02d:%02d = %lld, td %d", v.y, v.mo, v.d, v.h, v.mi, v.s, (long long)v.t, td);
    struct std::tm tm;
    GetUniversalCalendar(v.t, &tm);
    VT_CHECK(c, "calendar", tm.tm_year + 1900 == v.y && tm.tm_mon + 1 == v.mo && tm.tm_mday == v.d && tm.tm_hour == v.h &&
             tm.tm_min == v.mi && tm.tm_sec == v.s && tm.tm_wday == v.wd, "GetUniversalCalendar differs");
    EQ(c, "MakeUniversalTime", MakeUniversalTime(tm), v.t);
    EQ(c, "GetDayOfWeek", GetDayOfWeek(v.y, v.mo, v.d), v.wd);
    const int64_t t = v.t - td;  // the instant which shows as v in the zone
    const std::string simple = vt::StrF("%04d/%02d/%02d %02d:%02d:%02d", v.y, v.mo, v.d, v.h, v.mi, v.s);
    size_t n = FormatDateSimple(buf.get(), t, td);
    EQ(c, "FormatDateSimple", std::string(buf.get()), simple);
    EQ(c, "FormatDateSimple size", (uint64_t)n, (uint64_t)simple.size());
    const std::string w3c = vt::StrF("%04d-%02d-%02dT%02d:%02d:%02d", v.y, v.mo, v.d, v.h, v.mi, v.s) + (td ? Zone(td, true) : "Z");
    n = FormatDateW3CDTF(buf.get(), t, td);
    EQ(c, "FormatDateW3CDTF", std::string(buf.get()), w3c);
    EQ(c, "FormatDateW3CDTF size", (uint64_t)n, (uint64_t)w3c.size());
    EQ(c, "parsing W3CDTF", Parse(w3c), (double)t);
    EQ(c, "parsing simple", Parse(simple), (double)v.t);
    const std::string rfc = vt::StrF("%s, %02d %s %04d %02d:%02d:%02d ", kDays[v.wd], v.d, kMonths[v.mo - 1], v.y, v.h, v.mi, v.s) +
        (td ? Zone(td, false) : "GMT");
    std::memset(buf.get(), c.PickOf<int>({0, 'x', 0xff}), 48);
    n = FormatDateRFC1123(buf.get(), t, td);
    VT_CHECK(c, "FormatDateRFC1123", n == rfc.size() && std::string(buf.get(), n) == rfc && buf[n] == 0,
             "\"%s\", expected \"%s\"", vt::Esc(std::string(buf.get(), n)).c_str(), rfc.c_str());
    if (v.y >= 100) EQ(c, "parsing RFC1123", Parse(rfc), (double)t);
    if (v.y >= 1969 && v.y < 2000 && v.y > 1969) {
      const std::string rfc822 = vt::StrF("%s, %d %s %02d %02d:%02d:%02d GMT", kDays[v.wd], v.d, kMonths[v.mo - 1], v.y - 1900, v.h, v.mi, v.s);
      EQ(c, "parsing RFC822", Parse(rfc822), (double)v.t);
    }
    static const std::vector<std::pair<std::string, int>> zones = {
        {"JST", 9}, {"CCT", 8}, {"KST", 9}, {"EDT", -4}, {"EST", -5}, {"CDT", -5}, {"CST", -6}, {"MDT", -6},
        {"MST", -7}, {"PDT", -7}, {"PST", -8}, {"HDT", -9}, {"HST", -10}, {"UTC", 0}, {"GMT", 0}};
    const auto& z = c.Pick(zones);
    if (v.y >= 100)
      EQ(c, "parsing a named zone", Parse(rfc.substr(0, 26) + z.first), (double)(v.t - z.second * 3600));
    const std::string date = vt::StrF("%04d-%02d-%02d", v.y, v.mo, v.d);
    EQ(c, "parsing a date", Parse(date), (double)(DaysFromCivil(v.y, v.mo, v.d) * 86400));
    // Compact forms.
    const std::string comp = vt::StrF("%04d%02d%02d%02d%02d%02d", v.y, v.mo, v.d, v.h, v.mi, v.s);
    EQ(c, "parsing YYYYMMDDhhmmss", ParseDateStrYYYYMMDD(Exact(comp), td), (double)t);
    EQ(c, "parsing YYYY/MM/DD", ParseDateStrYYYYMMDD(Exact(simple), td), (double)t);
    EQ(c, "parsing YYYYMMDD", ParseDateStrYYYYMMDD(Exact(comp.substr(0, 8)), td), (double)(DaysFromCivil(v.y, v.mo, v.d) * 86400 - td));
    EQ(c, "parsing YYYYMM", ParseDateStrYYYYMMDD(Exact(comp.substr(0, 6)), td), (double)(DaysFromCivil(v.y, v.mo, 1) * 86400 - td));
    EQ(c, "parsing YYYY", ParseDateStrYYYYMMDD(Exact(comp.substr(0, 4)), td), (double)(DaysFromCivil(v.y, 1, 1) * 86400 - td));
    VT_CHECK(c, "short", std::isnan(ParseDateStrYYYYMMDD(Exact(comp.substr(0, 3)), td)), "three digits are accepted");
  } else if (kind == 1) {
    const Civil v = GenCivil(c, 1970);
    double frac = c.PickOf<double>({0, 0.5, 0.25, 0.999, 0.999999, 0.9999999999999, 0.000001, 0.1});
    if (c.Bool()) frac = c.Draw(1000000) / 1000000.0;
    double t = v.t + frac;
    if (c.Chance(1, 4)) t = (double)c.Draw(5000) + frac;
    if (t < 0) t = 0;
    const int cols = (int)c.Draw(15) - 1;
    const int ecols = std::min(std::max(cols, 0), 12);
    c.Log("time %.9f td %d columns %d", t, td, cols);
    c.NonTrivial(frac > 0);
    const int64_t whole = (int64_t)std::floor(t);
    char base[64];
    FormatDateSimple(base, whole, td);
    if (whole + td >= 0) {
      size_t n = FormatDateSimpleWithFrac(buf.get(), t, td, cols);
      std::string s(buf.get());
      VT_CHECK(c, "frac size", n == s.size() && s.size() == 19 + (ecols ? ecols + 1 : 0), "\"%s\" (%zu)", s.c_str(), n);
      EQ(c, "frac seconds", s.substr(0, 19), std::string(base));
      const double tol = std::pow(10, -ecols) + std::fabs(t) * 1e-15 + 1e-11;
      NEAR(c, "parsing simple with fraction", Parse(s), t + td, tol);
      n = FormatDateW3CDTFWithFrac(buf.get(), t, td, cols);
      s = buf.get();
      char w[64];
      FormatDateW3CDTF(w, whole, td);
      EQ(c, "frac size", (uint64_t)n, (uint64_t)s.size());
      EQ(c, "frac head", s.substr(0, 19), std::string(w).substr(0, 19));
      EQ(c, "frac zone", s.substr(s.size() - (std::string(w).size() - 19)), std::string(w).substr(19));
      NEAR(c, "parsing W3CDTF with fraction", Parse(s), t, tol);
    }
  } else if (kind == 2) {
    // Arbitrary and nearly well-formed strings.
    std::string s;
    if (c.Bool()) {
      static const std::string alpha = "0123456789-+/:.,T Zxsmhd Jan";
      const size_t n = c.Size(40);
      for (size_t i = 0; i < n; i++) s += alpha[c.Draw(alpha.size())];
    } else {
      static const std::vector<std::string> base = {"2020-02-29T12:34:56.789+09:00", "Mon, 02 Mar 2020 01:02:03 +0900",
          "  123.5d", "0x1F", "2020/01/02 03:04:05", "Thu, 1 Jan 70 00:00:00 JST", "20200102030405", "-5m"};
      s = c.Pick(base);
      if (c.Bool()) s.resize(c.Draw(s.size() + 1));
      for (int i = 0; c.More(i, 1, 5) && !s.empty(); i++) s[c.Draw(s.size())] = c.Bool() ? c.Draw(256) : "0 -:,+."[c.Draw(7)];
    }
    c.Log("\"%s\"", vt::Esc(s).c_str());
    c.NonTrivial(s.size() > 1);
    const double a = Parse(s), b = ParseDateStrYYYYMMDD(Exact(s), 0);
    // The result depends on the expression alone, not on what follows in the memory.
    const std::string longer = s + "9:99x";
    const double a2 = ParseDateStr(std::string_view(longer.data(), s.size()));
    VT_CHECK(c, "context", a == a2 || (std::isnan(a) && std::isnan(a2)), "%.6f or %.6f by what follows", a, a2);
    const double b2 = ParseDateStrYYYYMMDD(std::string_view(longer.data(), s.size()), 0);
    VT_CHECK(c, "context", b == b2 || (std::isnan(b) && std::isnan(b2)), "%.6f or %.6f by what follows", b, b2);
  } else if (kind == 3) {
    std::string s;
    const size_t n = c.Size(30);
    for (size_t i = 0; i < n; i++) s += "ghijklmnopqruvwyz GJ-/:"[c.Draw(23)];
    c.Log("\"%s\"", s.c_str());
    c.NonTrivial(n > 1);
    const bool date_like = s.size() >= 10 && std::strchr("-/:", s[4]) && std::strchr("-/:", s[7]);
    if (!date_like) {
      const size_t sp = s.find_first_not_of(' ');
      const std::string t = sp == std::string::npos ? "" : s.substr(sp);
      if (!(t.size() >= 10 && std::strchr("-/:", t[4]) && std::strchr("-/:", t[7])))
        VT_CHECK(c, "malformed", std::isnan(Parse(s)), "accepted as %.3f", Parse(s));
    }
    const std::string m = "Mon, " + std::to_string(1 + c.Draw(28)) + " " + c.PickOf<const char*>({"Foo", "Ja", "", "Xyz", "dez"}) + " 2020";
    VT_CHECK(c, "malformed", std::isnan(Parse(m)), "\"%s\" accepted", m.c_str());
    VT_CHECK(c, "malformed", std::isnan(Parse("Mon, 00 Jan 2020 00:00:00 GMT")), "day 0 accepted");
  } else if (kind == 4) {
    const int64_t n = c.Chance(1, 2) ? (int64_t)c.Draw(1000) : (int64_t)c.Draw(1ULL << 40);
    const int64_t milli = c.Draw(8) * 125;
    c.NonTrivial(true);
    static const std::vector<std::pair<std::string, double>> units = {
        {"", 1}, {"s", 1}, {"S", 1}, {"m", 60}, {"M", 60}, {"h", 3600}, {"H", 3600}, {"d", 86400}, {"D", 86400}, {" s", 1}, {"s ", 1}};
    const auto& u = c.Pick(units);
    const bool neg = c.Chance(1, 4);
    const std::string s = vt::StrF("%s%s%lld.%03lld%s", c.Bool() ? " " : "", neg ? "-" : c.Bool() ? "+" : "", (long long)n, (long long)milli, u.first.c_str());
    c.Log("\"%s\"", s.c_str());
    NEAR(c, "decimal", Parse(s), (neg ? -1 : 1) * (n + milli / 1000.0) * u.second, (n + 1) * u.second * 1e-14);
    EQ(c, "hexadecimal", Parse(vt::StrF("0%c%llx", c.Bool() ? 'x' : 'X', (unsigned long long)n)), (double)n);
  } else {
    const double d = (c.Bool() ? -1 : 1) * (c.PickOf<double>({0, 59.9, 60, 3599, 3600, 86399, 86400, 1e9}) + c.Draw(100));
    const std::string s = MakeRelativeTimeExpr(d);
    c.Log("%f: %s", d, s.c_str());
    c.NonTrivial(d != 0);
    const double a = std::fabs(d);
    const double unit = a >= 86400 ? 86400 : a >= 3600 ? 3600 : a >= 60 ? 60 : 1;
    const char* name = a >= 86400 ? " days" : a >= 3600 ? " hours" : a >= 60 ? " minutes" : " seconds";
    EQ(c, "MakeRelativeTimeExpr", s, vt::StrF("%0.1f", d / unit) + name);
    (void)buf;
  }
}

// ---- Key comparators.

namespace {

int Sgn(int v) { return v < 0 ? -1 : v > 0; }
template <typename T> int Cmp(T a, T b) { return a < b ? -1 : a > b; }

struct Order {
  const char* name;
  KeyComparator cmp;
  KeyComparator pair;
  int type;
};
const Order kOrders[] = {
    {"Lexical", LexicalKeyComparator, PairLexicalKeyComparator, 0},
    {"LexicalCase", LexicalCaseKeyComparator, PairLexicalCaseKeyComparator, 1},
    {"Decimal", DecimalKeyComparator, PairDecimalKeyComparator, 2},
    {"Hexadecimal", HexadecimalKeyComparator, PairHexadecimalKeyComparator, 3},
    {"RealNumber", RealNumberKeyComparator, PairRealNumberKeyComparator, 4},
    {"SignedBigEndian", SignedBigEndianKeyComparator, PairSignedBigEndianKeyComparator, 5},
    {"FloatBigEndian", FloatBigEndianKeyComparator, PairFloatBigEndianKeyComparator, 6},
};

// A key with a meaning: returns the text and the meaning as a number (types 2 to 6).
std::string GenMeant(Case& c, int type, long double* meaning) {
  *meaning = 0;
  switch (type) {
    case 0: case 1: return c.Chance(1, 2) ? c.Bytes(6) : c.BytesOfSize(c.Draw(4), 1);
    case 2: {
      int64_t v = c.Chance(1, 3) ? c.NastyInt() : (int64_t)c.Draw(40) - 20;
      if (v == INT64MIN) v++;
      *meaning = v;
      std::string digits = std::to_string(v < 0 ? -v : v);
      if (digits.size() < 15) digits = std::string(c.Draw(3), '0') + digits;
      return std::string(c.Draw(2), ' ') + (v < 0 ? "-" : c.Chance(1, 4) ? "+" : "") + digits;
    }
    case 3: {
      const uint64_t v = c.Chance(1, 3) ? c.NastyUInt() >> 1 : c.Draw(40);
      *meaning = v;
      return (c.Chance(1, 4) ? "0x" : "") + vt::StrF(c.Bool() ? "%llx" : "%llX", (unsigned long long)v);
    }
    case 4: {
      // Multiples of 1/8 are exact.
      const int64_t v = (int64_t)c.Draw(c.Bool() ? 100 : 1000000) - 50;
      if (c.Chance(1, 12)) { *meaning = 1e300L * 1e300L; return c.PickOf<const char*>({"inf", "INF"}); }
      *meaning = v / 8.0L;
      return vt::StrF("%.*f", 3 + (int)c.Draw(3), (double)*meaning);
    }
    case 5: {
      const int size = c.PickOf<int>({1, 2, 4, 8});
      int64_t v = c.Chance(1, 2) ? (int64_t)c.Draw(8) - 4 : c.NastyInt();
      if (size < 8) v = v << (64 - 8 * size) >> (64 - 8 * size);
      *meaning = v;
      std::string s;
      for (int i = size - 1; i >= 0; i--) s += (char)(v >> (8 * i));
      return s;
    }
    default: {
      const double v = c.Chance(1, 8) ? (c.Bool() ? INFINITY : -INFINITY) : ((int64_t)c.Draw(100) - 50) / 8.0 * (c.Chance(1, 4) ? 1e10 : 1);
      const bool f4 = c.Bool();
      *meaning = f4 ? (float)v : v;
      uint64_t bits = 0;
      if (f4) { const float f = v; uint32_t b; std::memcpy(&b, &f, 4); bits = b; }
      else std::memcpy(&bits, &v, 8);
      std::string s;
      for (int i = (f4 ? 4 : 8) - 1; i >= 0; i--) s += (char)(bits >> (8 * i));
      return s;
    }
  }
}
std::string GenKey(Case& c, int type) {
  if (c.Chance(1, 2)) {
    long double m;
    std::string s = GenMeant(c, type, &m);
    if (c.Chance(1, 4) && !s.empty()) s[c.Draw(s.size())] = c.Draw(256);
    return s;
  }
  if (type >= 2 && type <= 4) {
    return c.PickOf<const char*>({"", "nan", "NaN", "-nan", "inf", "-inf", "0", "-0", "+0", "abc", "1e5", "1e400", "-1e400",
                                  "0x10", "ff", "fffffffffffffffff", "99999999999999999999", "-99999999999999999999", " 5", "5x", ".5", "-"});
  }
  if (type >= 5) {
    if (c.Chance(1, 3))
      return c.PickOf<std::string>({std::string("\x7f\xc0\0\0", 4), std::string("\xff\xc0\0\0", 4), std::string("\x7f\xf8\0\0\0\0\0\0", 8),
                                    std::string("\x80\0\0\0", 4), std::string("\x80\0\0\0\0\0\0\0", 8), std::string(4, '\0'), std::string()});
    return c.BytesOfSize(c.Draw(18), c.Draw(4));
  }
  return c.Bytes(8);
}
int RefLex(const std::string& a, const std::string& b) {
  const int v = std::memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
  return v ? Sgn(v) : Cmp(a.size(), b.size());
}
std::string RefLow(std::string s) {
  for (auto& x : s) if (x >= 'A' && x <= 'Z') x += 32;
  return s;
}

}  // namespace

VT_SUITE(comparators) {
  const Order& o = kOrders[c.Draw(7)];
  c.Log("%s", o.name);
  c.Tag(o.name);
  const int kind = c.Weighted({3, 3, 2});
  if (kind == 0) {
    // The meaning.
    long double ma, mb;
    const std::string a = GenMeant(c, o.type, &ma);
    const std::string b = c.Chance(1, 6) ? a : GenMeant(c, o.type, &mb);
    if (b == a) mb = ma;
    const int want = o.type == 0 ? RefLex(a, b) : o.type == 1 ? RefLex(RefLow(a), RefLow(b)) : Cmp(ma, mb);
    c.Log("\"%s\" \"%s\"", vt::Esc(a).c_str(), vt::Esc(b).c_str());
    c.NonTrivial(a != b);
    const int got = Sgn(o.cmp(Exact(a), Exact(b)));
    VT_CHECK(c, "meaning", got == want, "%s of \"%s\" and \"%s\" is %d, expected %d", o.name, vt::Esc(a).c_str(), vt::Esc(b).c_str(), got, want);
    const std::string va = c.Bytes(4), vb = c.Chance(1, 3) ? va : c.Bytes(4);
    const int pwant = want ? want : RefLex(va, vb);
    const int pgot = Sgn(o.pair(Exact(SerializeStrPair(a, va)), Exact(SerializeStrPair(b, vb))));
    VT_CHECK(c, "pair meaning", pgot == pwant, "pair of %s is %d, expected %d", o.name, pgot, pwant);
  } else {
    std::string k[3];
    for (auto& s : k) {
      s = GenKey(c, o.type);
      if (kind == 2) {
        s = SerializeStrPair(s, c.Bytes(3));
        if (c.Chance(1, 4) && !s.empty()) s[c.Draw(s.size())] = c.Draw(256);
        if (c.Chance(1, 5)) s.resize(c.Draw(s.size() + 1));
      }
      c.Log("\"%s\"", vt::Esc(s).c_str());
    }
    if (c.Chance(1, 6)) k[1] = k[0];
    c.NonTrivial(k[0] != k[1] && k[1] != k[2]);
    const KeyComparator f = kind == 2 ? o.pair : o.cmp;
    int m[3][3];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) m[i][j] = Sgn(f(Exact(k[i]), Exact(k[j])));
    for (int i = 0; i < 3; i++) {
      VT_CHECK(c, "reflexive", m[i][i] == 0, "a key differs from itself: \"%s\"", vt::Esc(k[i]).c_str());
      for (int j = 0; j < 3; j++) {
        VT_CHECK(c, "antisymmetric", m[i][j] == -m[j][i], "\"%s\" and \"%s\": %d and %d", vt::Esc(k[i]).c_str(), vt::Esc(k[j]).c_str(), m[i][j], m[j][i]);
        for (int l = 0; l < 3; l++)
          if (m[i][j] <= 0 && m[j][l] <= 0)
            VT_CHECK(c, "transitive", m[i][l] <= 0 && (m[i][l] < 0 || (m[i][j] == 0 && m[j][l] == 0)), "\"%s\" <= \"%s\" <= \"%s\"",
                     vt::Esc(k[i]).c_str(), vt::Esc(k[j]).c_str(), vt::Esc(k[l]).c_str());
      }
    }
  }
}
