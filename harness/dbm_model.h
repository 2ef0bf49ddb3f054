// Model-based histories for key-value databases: specifications (class and tuning), reference
// model, operations and checks.
#ifndef DBM_MODEL_H
#define DBM_MODEL_H

#include <unistd.h>
#include <sys/stat.h>

#include <cmath>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "tkrzw_dbm.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_file.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_str_util.h"
#include "vt.h"

namespace m {

using namespace tkrzw;

enum Kind { HASH, TREE, TINY, BABY, CACHE, STDHASH, STDTREE, SKIP };
inline const char* KindName(int k) {
  static const char* names[] = {"hash", "tree", "tiny", "baby", "cache", "stdhash", "stdtree",
                                "skip"};
  return names[k];
}
inline bool KindOrdered(int k) { return k == TREE || k == BABY || k == STDTREE || k == SKIP; }

// A comparator which is none of the built-in ones: by length, and then reversed bytes.
inline int32_t CustomComparator(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
  for (size_t i = a.size(); i > 0; i--) {
    const uint8_t x = a[i - 1], y = b[i - 1];
    if (x != y) return x < y ? -1 : 1;
  }
  return 0;
}

enum CompIdx { LEX, LEXCASE, DECIMAL, HEX, REAL, SIGNEDBE, FLOATBE, CUSTOM, NUM_COMPS };
inline KeyComparator Comparator(int i) {
  switch (i) {
    case LEXCASE: return LexicalCaseKeyComparator;
    case DECIMAL: return DecimalKeyComparator;
    case HEX: return HexadecimalKeyComparator;
    case REAL: return RealNumberKeyComparator;
    case SIGNEDBE: return SignedBigEndianKeyComparator;
    case FLOATBE: return FloatBigEndianKeyComparator;
    case CUSTOM: return CustomComparator;
  }
  return LexicalKeyComparator;
}
inline const char* CompName(int i) {
  static const char* names[] = {
    "LexicalKeyComparator", "LexicalCaseKeyComparator", "DecimalKeyComparator",
    "HexadecimalKeyComparator", "RealNumberKeyComparator", "SignedBigEndianKeyComparator",
    "FloatBigEndianKeyComparator", "CustomComparator"};
  return names[i];
}

struct KeyLess {
  KeyComparator comp = LexicalKeyComparator;
  bool operator()(const std::string& a, const std::string& b) const { return comp(a, b) < 0; }
};
typedef std::map<std::string, std::string, KeyLess> Map;

enum FileKind { F_MMAP_PARA, F_MMAP_ATOM, F_POS_PARA, F_POS_ATOM, F_STD };
inline const char* FileName(int f) {
  static const char* names[] = {"MemoryMapParallelFile", "MemoryMapAtomicFile",
                                "PositionalParallelFile", "PositionalAtomicFile", "StdFile"};
  return names[f];
}

struct Spec {
  int kind = HASH;
  bool poly = false;
  int shards = 0;
  int comp = LEX;
  int file = F_MMAP_PARA;
  int64_t block_size = 1;
  int access = 0;
  int64_t init_size = 0;  // 0: default allocation strategy
  double inc_factor = 1.5;
  TreeDBM::TuningParameters tp;  // also for HashDBM
  int64_t num_buckets = -1;  // on-memory
  int64_t cap_rec = -1, cap_mem = -1;
  SkipDBM::TuningParameters sp;
  std::map<std::string, std::string> extra;  // extra parameters for PolyDBM/ShardDBM
  std::function<std::unique_ptr<DBM>()> maker;  // what stands for the PolyDBM/ShardDBM

  bool ordered() const { return KindOrdered(kind); }
  bool injective() const { return comp == LEX || comp == CUSTOM; }
  std::string Ext() const {
    static const char* e[] = {"tkh", "tkt", "tkmt", "tkmb", "tkmc", "tksh", "tkst", "tks"};
    return e[kind];
  }
  std::string Str() const {
    std::string s = KindName(kind);
    if (poly) s += " poly";
    if (shards) s += vt::StrF(" shards=%d", shards);
    s += vt::StrF(" file=%s", FileName(file));
    if (file == F_POS_PARA || file == F_POS_ATOM)
      s += vt::StrF(" block=%d access=%d", (int)block_size, access);
    if (init_size) s += vt::StrF(" init=%d", (int)init_size);
    if (kind == HASH || kind == TREE)
      s += vt::StrF(" upd=%d crc=%d comp=%d offw=%d align=%d buckets=%d fbp=%d minread=%d cacheb=%d",
                    tp.update_mode, tp.record_crc_mode, tp.record_comp_mode, tp.offset_width,
                    tp.align_pow, (int)tp.num_buckets, tp.fbp_capacity, tp.min_read_size,
                    tp.cache_buckets);
    if (kind == TREE)
      s += vt::StrF(" page=%d branch=%d cached=%d pupd=%d", tp.max_page_size, tp.max_branches,
                    tp.max_cached_pages, tp.page_update_mode);
    if (ordered()) s += vt::StrF(" cmp=%s", CompName(comp));
    if (num_buckets >= 0) s += vt::StrF(" nb=%d", (int)num_buckets);
    if (kind == CACHE) s += vt::StrF(" cap_rec=%d cap_mem=%lld", (int)cap_rec, (long long)cap_mem);
    return s;
  }
};

inline std::unique_ptr<File> MakeFile(const Spec& s) {
  std::unique_ptr<File> file;
  switch (s.file) {
    case F_MMAP_ATOM: file = std::make_unique<MemoryMapAtomicFile>(); break;
    case F_POS_PARA: {
      auto f = std::make_unique<PositionalParallelFile>();
      f->SetAccessStrategy(s.block_size, s.access);
      file = std::move(f);
      break;
    }
    case F_POS_ATOM: {
      auto f = std::make_unique<PositionalAtomicFile>();
      f->SetAccessStrategy(s.block_size, s.access);
      file = std::move(f);
      break;
    }
    case F_STD: file = std::make_unique<StdFile>(); break;
    default: file = std::make_unique<MemoryMapParallelFile>(); break;
  }
  if (s.init_size > 0 && s.file != F_STD) file->SetAllocationStrategy(s.init_size, s.inc_factor);
  return file;
}

inline std::unique_ptr<DBM> MakeDbm(const Spec& s) {
  if (s.maker) return s.maker();
  if (s.shards > 0) return std::make_unique<ShardDBM>();
  if (s.poly) return std::make_unique<PolyDBM>();
  switch (s.kind) {
    case HASH: return std::make_unique<HashDBM>(MakeFile(s));
    case TREE: return std::make_unique<TreeDBM>(MakeFile(s));
    case TINY: return std::make_unique<TinyDBM>(MakeFile(s), s.num_buckets);
    case BABY: return std::make_unique<BabyDBM>(MakeFile(s), Comparator(s.comp));
    case CACHE: return std::make_unique<CacheDBM>(MakeFile(s), s.cap_rec, s.cap_mem);
    case STDHASH: return std::make_unique<StdHashDBM>(MakeFile(s), s.num_buckets);
    case STDTREE: return std::make_unique<StdTreeDBM>(MakeFile(s));
    case SKIP: return std::make_unique<SkipDBM>(MakeFile(s));
  }
  return nullptr;
}

inline std::map<std::string, std::string> PolyParams(const Spec& s, bool with_class = true) {
  std::map<std::string, std::string> p;
  static const char* classes[] = {"HashDBM", "TreeDBM", "TinyDBM", "BabyDBM", "CacheDBM",
                                  "StdHashDBM", "StdTreeDBM", "SkipDBM"};
  if (with_class) p["dbm"] = classes[s.kind];
  p["file"] = FileName(s.file);
  if (s.file == F_POS_PARA || s.file == F_POS_ATOM) {
    p["block_size"] = ToString(s.block_size);
    std::string opts;
    if (s.access & PositionalFile::ACCESS_DIRECT) opts += "direct:";
    if (s.access & PositionalFile::ACCESS_SYNC) opts += "sync:";
    if (s.access & PositionalFile::ACCESS_PADDING) opts += "padding:";
    if (s.access & PositionalFile::ACCESS_PAGECACHE) opts += "pagecache:";
    if (!opts.empty()) {
      opts.pop_back();
      p["access_options"] = opts;
    }
  }
  if (s.kind == HASH || s.kind == TREE) {
    static const char* upd[] = {nullptr, "UPDATE_IN_PLACE", "UPDATE_APPENDING"};
    if (s.tp.update_mode) p["update_mode"] = upd[s.tp.update_mode];
    static const char* crc[] = {nullptr, "RECORD_CRC_NONE", "RECORD_CRC_8", "RECORD_CRC_16",
                                "RECORD_CRC_32"};
    if (s.tp.record_crc_mode) p["record_crc_mode"] = crc[s.tp.record_crc_mode];
    static const char* comp[] = {nullptr, "RECORD_COMP_NONE", "RECORD_COMP_ZLIB",
                                 "RECORD_COMP_ZSTD", "RECORD_COMP_LZ4", "RECORD_COMP_LZMA",
                                 "RECORD_COMP_RC4", "RECORD_COMP_AES"};
    if (s.tp.record_comp_mode) p["record_comp_mode"] = comp[s.tp.record_comp_mode];
    if (s.tp.offset_width >= 0) p["offset_width"] = ToString(s.tp.offset_width);
    if (s.tp.align_pow >= 0) p["align_pow"] = ToString(s.tp.align_pow);
    if (s.tp.num_buckets >= 0) p["num_buckets"] = ToString(s.tp.num_buckets);
    if (s.tp.fbp_capacity >= 0) p["fbp_capacity"] = ToString(s.tp.fbp_capacity);
    if (s.tp.min_read_size >= 0) p["min_read_size"] = ToString(s.tp.min_read_size);
    if (s.tp.cache_buckets > 0) p["cache_buckets"] = "true";
    if (!s.tp.cipher_key.empty()) p["cipher_key"] = s.tp.cipher_key;
  }
  if (s.kind == TREE) {
    if (s.tp.max_page_size >= 0) p["max_page_size"] = ToString(s.tp.max_page_size);
    if (s.tp.max_branches >= 0) p["max_branches"] = ToString(s.tp.max_branches);
    if (s.tp.max_cached_pages >= 0) p["max_cached_pages"] = ToString(s.tp.max_cached_pages);
    if (s.tp.page_update_mode == TreeDBM::PAGE_UPDATE_NONE)
      p["page_update_mode"] = "PAGE_UPDATE_NONE";
    if (s.tp.page_update_mode == TreeDBM::PAGE_UPDATE_WRITE)
      p["page_update_mode"] = "PAGE_UPDATE_WRITE";
  }
  if ((s.kind == TREE || s.kind == BABY) && s.comp != CUSTOM)
    p["key_comparator"] = CompName(s.comp);
  if ((s.kind == TINY || s.kind == STDHASH) && s.num_buckets >= 0)
    p["num_buckets"] = ToString(s.num_buckets);
  if (s.kind == CACHE) {
    if (s.cap_rec >= 0) p["cap_rec_num"] = ToString(s.cap_rec);
    if (s.cap_mem >= 0) p["cap_mem_size"] = ToString(s.cap_mem);
  }
  for (const auto& e : s.extra) p[e.first] = e.second;
  if (s.shards > 0) p["num_shards"] = ToString(s.shards);
  return p;
}

inline Status OpenDbm(const Spec& s, DBM* db, const std::string& path, bool writable,
                      int32_t options = File::OPEN_DEFAULT) {
  if (s.shards > 0 || s.poly)
    return dynamic_cast<ParamDBM*>(db)->OpenAdvanced(path, writable, options, PolyParams(s));
  if (s.kind == HASH)
    return dynamic_cast<HashDBM*>(db)->OpenAdvanced(path, writable, options, s.tp);
  if (s.kind == TREE)
    return dynamic_cast<TreeDBM*>(db)->OpenAdvanced(path, writable, options, s.tp);
  if (s.kind == SKIP)
    return dynamic_cast<SkipDBM*>(db)->OpenAdvanced(path, writable, options, s.sp);
  return db->Open(path, writable, options);
}

// ------------------------------------------------------------------ generators of tunings

// The class and the strategy of the file.  Blocks of more than one byte are for the classes whose
// format has padding (the stream formats of the on-memory databases have not), and a file of
// blocks stays one, since the other strategies would leave it unaligned.
inline void GenFile(vt::Case& c, Spec* s, bool first = true) {
  const bool padded = s->kind == HASH || s->kind == TREE || s->kind == SKIP;
  if (!first && s->block_size > 1) {
    s->access = PositionalFile::ACCESS_PADDING |
        (c.Bool() ? PositionalFile::ACCESS_PAGECACHE : 0);
    return;
  }
  s->file = c.Weighted({4, 2, 3, 2, 1});
  s->block_size = 1;
  s->access = 0;
  if (s->file == F_POS_PARA || s->file == F_POS_ATOM) {
    switch (c.Draw(3)) {
      case 1:
        if (padded && first) {
          s->block_size = c.PickOf<int64_t>({512, 512, 4096});
          s->access = PositionalFile::ACCESS_PADDING |
              (c.Bool() ? PositionalFile::ACCESS_PAGECACHE : 0);
        }
        break;
      case 2:
        s->access = PositionalFile::ACCESS_PAGECACHE;
        break;
      default: break;
    }
  }
  s->init_size = 0;
  if (s->file != F_STD && c.Chance(1, 2)) {
    s->init_size = c.PickOf<int64_t>({1, 4096, 8192, 65536});
    s->inc_factor = c.PickOf<double>({1.01, 1.2, 2.0});
  }
}

inline void GenHashTuning(vt::Case& c, Spec* s, bool allow_slow = true) {
  auto& p = s->tp;
  p.update_mode = c.PickOf({HashDBM::UPDATE_IN_PLACE, HashDBM::UPDATE_APPENDING,
                            HashDBM::UPDATE_DEFAULT});
  p.record_crc_mode = static_cast<HashDBM::RecordCRCMode>(c.Draw(5));
  if (c.Chance(1, 3)) {
    p.record_comp_mode = static_cast<HashDBM::RecordCompressionMode>(
        c.PickOf<int>({1, 2, 3, 4, 6, 7, 5}));
    if (!allow_slow && p.record_comp_mode == HashDBM::RECORD_COMP_LZMA)
      p.record_comp_mode = HashDBM::RECORD_COMP_ZLIB;
    if (p.record_comp_mode >= HashDBM::RECORD_COMP_RC4) p.cipher_key = "secret-key";
  }
  p.offset_width = c.PickOf({4, 3, 5, 6});
  p.align_pow = c.PickOf({3, 0, 1, 2, 4, 6, 10});
  p.num_buckets = c.PickOf<int64_t>({11, 1, 2, 5, 101, 1000});
  p.fbp_capacity = c.PickOf({-1, 0, 1, 2, 8, 64});
  p.min_read_size = c.PickOf({-1, 1, 16, 64, 200, 1024});
  p.cache_buckets = c.Chance(1, 4) ? 1 : -1;
}

inline void GenTreeTuning(vt::Case& c, Spec* s) {
  GenHashTuning(c, s, false);
  auto& p = s->tp;
  p.align_pow = c.PickOf({3, 0, 6, 10});
  p.max_page_size = c.PickOf({100, 1, 30, 64, 200, 500, 2000, 8130});
  p.max_branches = c.PickOf({4, 2, 3, 5, 8, 256});
  p.max_cached_pages = c.PickOf({-1, 1, 64, 100, 256});
  p.page_update_mode = c.PickOf({TreeDBM::PAGE_UPDATE_NONE, TreeDBM::PAGE_UPDATE_WRITE});
}

inline void GenComp(vt::Case& c, Spec* s) {
  s->comp = c.Chance(1, 2) ? (int)c.Draw(NUM_COMPS) : LEX;
  if ((s->poly || s->shards > 0 || s->kind == STDTREE || s->kind == SKIP) && s->comp == CUSTOM)
    s->comp = LEX;
  if (s->kind == STDTREE || s->kind == SKIP || !s->ordered()) s->comp = LEX;
  // Sharding hashes the bytes of keys, so keys which are equal must have the same bytes.
  if (s->shards > 0 && (s->comp == LEXCASE || s->comp == SIGNEDBE)) s->comp = DECIMAL;
  if (s->comp != LEX || c.Bool()) s->tp.key_comparator = Comparator(s->comp);
}

inline void GenTuning(vt::Case& c, Spec* s) {
  GenFile(c, s);
  switch (s->kind) {
    case HASH: GenHashTuning(c, s); break;
    case TREE: GenTreeTuning(c, s); GenComp(c, s); break;
    case TINY: s->num_buckets = c.PickOf<int64_t>({1, 2, 7, 100, 1000}); break;
    case BABY: GenComp(c, s); break;
    case STDHASH: s->num_buckets = c.PickOf<int64_t>({-1, 1, 2, 7, 100, 1000}); break;
    case CACHE:
      s->cap_rec = c.PickOf<int64_t>({100000, 1000000});
      s->cap_mem = 1LL << 30;
      break;
    default: break;
  }
}

// ------------------------------------------------------------------ generators of data

// Keys are functions of a style and a small index, so that histories hit the same keys.
struct KeyGen {
  int style = 0;
  int pool = 16;
  int comp = LEX;
  std::string operator()(vt::Case& c) const { return Make(c.Draw(pool)); }
  std::string Make(uint64_t i) const {
    uint64_t st = i * 7919 + 13;
    const uint64_t r = vt::SplitMix(&st);
    switch (comp) {
      case DECIMAL: {
        const int64_t n = (style & 1) ? (int64_t)i - pool / 2 : (int64_t)(r % 2000000) - 1000000;
        return (style & 2) ? vt::StrF("%lld", (long long)n) : vt::StrF("%08lld", (long long)n);
      }
      case HEX: return vt::StrF((style & 2) ? "%llx" : "%08llX",
                                (unsigned long long)((style & 1) ? i : r % 65536));
      case REAL: {
        const double d = (style & 1) ? (double)i / 4 - 2 : (double)(int64_t)(r % 200000) / 100 - 1000;
        return (style & 2) ? vt::StrF("%.2f", d) : vt::StrF("%.6e", d);
      }
      case SIGNEDBE: {
        const int sizes[] = {1, 2, 4, 8};
        const int64_t n = (int64_t)i - pool / 2;
        return IntToStrBigEndian(n, (style & 1) ? 8 : sizes[r % 4]);
      }
      case FLOATBE: {
        const double n = ((double)i - pool / 2) * 0.75;
        return FloatToStrBigEndian(n, (style & 1) ? 8 : 4);
      }
      case LEXCASE: {
        // Few letters of both cases.
        std::string s = vt::StrF("Key%c%llu", (r & 1) ? 'a' : 'A', (unsigned long long)(i / 2));
        if (r & 2) for (auto& ch : s) ch = StrLowerCase(std::string(1, ch))[0];
        return s;
      }
      default: break;
    }
    switch (style % 9) {
      case 0: return vt::StrF("k%llu", (unsigned long long)i);
      case 1: return vt::StrF("%08llu", (unsigned long long)i);
      case 2: return std::string(1, (char)(i * 37));
      case 3: return std::string(100 + (style / 9) * 60, 'p') + vt::StrF("%llu", (unsigned long long)i);
      case 4: {
        std::string s;
        const size_t n = r % 13;
        for (size_t j = 0; j < n; j++) s.push_back((char)vt::SplitMix(&st));
        return s;
      }
      case 5: return IntToStrBigEndian(i, 8);
      case 6: return std::string(i, 'a');
      case 7: return vt::StrF("%llu", (unsigned long long)(r % 100000));
      default: {
        std::string s(r % 300, 0);
        for (auto& ch : s) ch = "ab\xff\0"[vt::SplitMix(&st) % 4];
        return s + vt::StrF("%llu", (unsigned long long)i);
      }
    }
  }
};

inline KeyGen GenKeyGen(vt::Case& c, const Spec& s) {
  KeyGen g;
  g.comp = s.comp;
  g.style = c.Draw(18);
  g.pool = c.PickOf({12, 3, 6, 30, 100, 300});
  return g;
}

inline std::string GenValue(vt::Case& c, size_t max) {
  switch (c.Weighted({6, 3, 2, 1})) {
    case 0: return c.BytesOfSize(c.Draw(12), 0);
    case 1: return c.BytesOfSize(c.Draw(80), 1);
    case 2: return c.BytesOfSize(c.Draw(std::min<size_t>(max, 600) + 1), c.Draw(3));
    default: return c.BytesOfSize(c.Draw(max + 1), c.Draw(3));
  }
}

// ------------------------------------------------------------------ reference context

struct Ctx {
  vt::Case& c;
  Spec spec;
  KeyGen kg;
  std::string path;  // empty for no file
  std::unique_ptr<DBM> db;
  Map model;
  size_t max_value = 3000;
  int64_t updates = 0, structural = 0;
  double wtime = 1000;
  bool strict_keys = true;  // keys are compared by bytes
  int64_t steps = 0;

  Ctx(vt::Case& c_, const Spec& s) : c(c_), spec(s), model(KeyLess{Comparator(s.comp)}) {
    strict_keys = s.injective();
  }

  bool KeyEq(std::string_view a, std::string_view b) const {
    if (strict_keys) return a == b;
    return Comparator(spec.comp)(a, b) == 0;
  }
  void Expect(const char* op, const Status& got, Status::Code want, std::string_view key = "") {
    if (got != want) {
      c.Fail(op, "%s key=%s: status %s, expected %s [%s]", op, vt::Esc(key).c_str(),
             ToString(got).c_str(), Status::CodeName(want), spec.Str().c_str());
    }
  }
  void ExpectStr(const char* op, std::string_view key, std::string_view got, std::string_view want) {
    if (got != want) {
      c.Fail(op, "%s key=%s: got %s (%zu bytes), expected %s (%zu bytes) [%s]", op,
             vt::Esc(key).c_str(), vt::Esc(got).c_str(), got.size(), vt::Esc(want).c_str(),
             want.size(), spec.Str().c_str());
    }
  }
  std::string Key() { return kg(c); }
  // Key that is likely to exist.
  std::string LiveKey() {
    if (!model.empty() && c.Chance(3, 4)) {
      auto it = model.begin();
      std::advance(it, c.Draw(std::min<size_t>(model.size(), 64)));
      return it->first;
    }
    return Key();
  }
  std::string Value() { return GenValue(c, max_value); }

  std::function<void()> on_open;  // called whenever the database is opened
  void Open(bool writable, int32_t options = File::OPEN_DEFAULT) {
    if (db == nullptr) db = MakeDbm(spec);
    if (!path.empty()) {
      const Status st = OpenDbm(spec, db.get(), path, writable, options);
      Expect("open", st, Status::SUCCESS);
    }
    if (on_open) on_open();
  }
  void Close() {
    if (path.empty()) return;
    Expect("close", db->Close(), Status::SUCCESS);
  }

  // ---------------------------------------------------------------- operations

  void OpGet(const std::string& key) {
    std::string value = "*";
    const Status st = db->Get(key, &value);
    auto it = model.find(key);
    c.Log("Get(%s) -> %s %s", vt::Esc(key).c_str(), ToString(st).c_str(), vt::Esc(value).c_str());
    if (it == model.end()) {
      Expect("get", st, Status::NOT_FOUND_ERROR, key);
    } else {
      Expect("get", st, Status::SUCCESS, key);
      ExpectStr("get", key, value, it->second);
    }
  }
  void OpSet(const std::string& key, const std::string& value, bool overwrite, bool want_old) {
    c.Log("Set(%s, %s/%zu, ow=%d)", vt::Esc(key).c_str(), vt::Esc(value, 16).c_str(), value.size(),
          overwrite);
    std::string old = "*";
    const Status st = db->Set(key, value, overwrite, want_old ? &old : nullptr);
    auto it = model.find(key);
    if (it != model.end()) {
      if (want_old) ExpectStr("set-old", key, old, it->second);
      if (overwrite) {
        Expect("set", st, Status::SUCCESS, key);
        it->second = value;
        updates++;
      } else {
        Expect("set", st, Status::DUPLICATION_ERROR, key);
      }
    } else {
      Expect("set", st, Status::SUCCESS, key);
      if (want_old) ExpectStr("set-old", key, old, "*");
      model[key] = value;
      updates++;
    }
  }
  void OpRemove(const std::string& key, bool want_old) {
    c.Log("Remove(%s)", vt::Esc(key).c_str());
    std::string old = "*";
    const Status st = db->Remove(key, want_old ? &old : nullptr);
    auto it = model.find(key);
    if (it == model.end()) {
      Expect("remove", st, Status::NOT_FOUND_ERROR, key);
      if (want_old) ExpectStr("remove-old", key, old, "*");
    } else {
      Expect("remove", st, Status::SUCCESS, key);
      if (want_old) ExpectStr("remove-old", key, old, it->second);
      model.erase(it);
      updates++;
    }
  }
  void OpAppend(const std::string& key, const std::string& value, const std::string& delim) {
    c.Log("Append(%s, %s, %s)", vt::Esc(key).c_str(), vt::Esc(value, 16).c_str(), vt::Esc(delim).c_str());
    Expect("append", db->Append(key, value, delim), Status::SUCCESS, key);
    auto it = model.find(key);
    if (it == model.end()) model[key] = value;
    else it->second += delim + value;
    updates++;
  }
  // kind of expectation: 0 absent, 1 any, 2 a value
  struct Want {
    int kind = 0;
    std::string value;
    std::string_view View() const {
      static const std::string dummy = "x";
      if (kind == 0) return std::string_view();
      if (kind == 1) return DBM::ANY_DATA;
      return value.empty() ? std::string_view(dummy.data(), 0) : std::string_view(value);
    }
    std::string Str() const {
      return kind == 0 ? "<absent>" : kind == 1 ? "<any>" : vt::Esc(value, 16);
    }
  };
  Want GenExpected(const std::string& key) {
    Want w;
    w.kind = c.Draw(3);
    if (w.kind == 2) {
      auto it = model.find(key);
      w.value = it != model.end() && c.Chance(3, 4) ? it->second : c.BytesOfSize(c.Draw(4), 0);
    }
    if (c.Chance(1, 2)) {  // bias toward a true condition
      auto it = model.find(key);
      if (it == model.end()) w.kind = 0;
      else if (w.kind == 0) w.kind = 1;
    }
    return w;
  }
  bool Matches(const std::string& key, const Want& w) {
    auto it = model.find(key);
    if (it == model.end()) return w.kind == 0;
    if (w.kind == 0) return false;
    return w.kind == 1 || it->second == w.value;
  }
  void OpCompareExchange(const std::string& key) {
    const Want exp = GenExpected(key);
    Want des;
    des.kind = c.Weighted({1, 1, 4});
    if (des.kind == 2) des.value = Value();
    c.Log("CompareExchange(%s, %s, %s)", vt::Esc(key).c_str(), exp.Str().c_str(), des.Str().c_str());
    std::string actual = "*";
    bool found = false;
    const bool want_out = c.Bool();
    const Status st = db->CompareExchange(key, exp.View(), des.View(), want_out ? &actual : nullptr,
                                          want_out ? &found : nullptr);
    auto it = model.find(key);
    if (want_out) {
      VT_CHECK(c, "cmpex-found", found == (it != model.end()), "found=%d key=%s", found,
               vt::Esc(key).c_str());
      ExpectStr("cmpex-actual", key, actual, it == model.end() ? "" : it->second);
    }
    if (Matches(key, exp)) {
      Expect("cmpex", st, Status::SUCCESS, key);
      if (des.kind == 0) model.erase(key);
      else if (des.kind == 2) model[key] = des.value;
      updates++;
    } else {
      Expect("cmpex", st, Status::INFEASIBLE_ERROR, key);
    }
  }
  void OpIncrement(const std::string& key) {
    int64_t inc = c.PickOf<int64_t>({1, -1, 100, INT32MAX, INT64MIN, -123456789012LL});
    const int64_t initial = c.PickOf<int64_t>({0, 5, -7, 1LL << 40});
    auto it = model.find(key);
    int64_t cur = 0;
    if (it != model.end()) {
      cur = (int64_t)StrToIntBigEndian(it->second);
      // Signed overflow is not defined: stay away from the ends.
      if (inc != INT64MIN && (cur > (1LL << 61) || cur < -(1LL << 61))) inc = INT64MIN;
    }
    c.Log("Increment(%s, %lld, %lld)", vt::Esc(key).c_str(), (long long)inc, (long long)initial);
    int64_t current = 777;
    const Status st = db->Increment(key, inc, &current, initial);
    Expect("increment", st, Status::SUCCESS, key);
    int64_t want;
    if (inc == INT64MIN) {
      want = it == model.end() ? initial : cur;
    } else {
      want = (it == model.end() ? initial : cur) + inc;
      model[key] = BE8(want);
      updates++;
    }
    VT_CHECK(c, "increment", current == want, "Increment(%s): current %lld, expected %lld [%s]",
             vt::Esc(key).c_str(), (long long)current, (long long)want, spec.Str().c_str());
  }
  static std::string BE8(int64_t v) {
    std::string s(8, 0);
    for (int i = 7; i >= 0; i--) { s[i] = (char)(v & 0xff); v = (int64_t)((uint64_t)v >> 8); }
    return s;
  }
  static uint64_t StrToIntBigEndian(std::string_view s) {
    uint64_t v = 0;
    for (size_t i = 0; i < s.size() && i < 8; i++) v = (v << 8) | (uint8_t)s[i];
    return v;
  }
  // Custom processing of a record: 0 noop, 1 remove, 2 set, 3 reverse the value.
  struct Act {
    int kind = 0;
    std::string value;
  };
  Act GenAct() {
    Act a;
    a.kind = c.Weighted({1, 2, 4, 2});
    if (a.kind == 2) a.value = Value();
    return a;
  }
  // Note: the outcome of returning REMOVE for an absent record is "nothing".
  struct Proc : public DBM::RecordProcessor {
    Act act;
    std::string buf;
    int calls = 0;
    bool full = false;
    std::string key, old;
    std::string_view Do(bool exists, std::string_view value) {
      switch (act.kind) {
        case 1: return exists ? REMOVE : NOOP;
        case 2: buf = act.value; return buf;
        case 3:
          if (!exists) return NOOP;
          buf.assign(value.rbegin(), value.rend());
          return buf;
      }
      return NOOP;
    }
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      calls++; full = true; key = k; old = v;
      return Do(true, v);
    }
    std::string_view ProcessEmpty(std::string_view k) override {
      calls++; full = false; key = k; old = "";
      return Do(false, "");
    }
  };
  void ApplyAct(const std::string& key, const Act& act) {
    auto it = model.find(key);
    switch (act.kind) {
      case 1: if (it != model.end()) model.erase(it); break;
      case 2: model[key] = act.value; break;
      case 3: if (it != model.end()) it->second.assign(std::string(it->second.rbegin(), it->second.rend())); break;
    }
    if (act.kind != 0) updates++;
  }
  void CheckProc(const char* op, const std::string& key, const Proc& p, bool exists,
                 const std::string& old) {
    VT_CHECK(c, op, p.calls == 1, "%s(%s): the processor was called %d times [%s]", op,
             vt::Esc(key).c_str(), p.calls, spec.Str().c_str());
    VT_CHECK(c, op, p.full == exists, "%s(%s): full=%d [%s]", op, vt::Esc(key).c_str(), p.full,
             spec.Str().c_str());
    VT_CHECK(c, op, KeyEq(p.key, key), "%s(%s): key given as %s", op, vt::Esc(key).c_str(),
             vt::Esc(p.key).c_str());
    if (exists) ExpectStr(op, key, p.old, old);
  }
  void OpProcess(const std::string& key) {
    Proc p;
    p.act = GenAct();
    const bool writable = p.act.kind != 0 || c.Bool();
    c.Log("Process(%s, act=%d %s, w=%d)", vt::Esc(key).c_str(), p.act.kind, vt::Esc(p.act.value, 16).c_str(), writable);
    Expect("process", db->Process(key, &p, writable), Status::SUCCESS, key);
    auto it = model.find(key);
    CheckProc("process", key, p, it != model.end(), it == model.end() ? "" : it->second);
    ApplyAct(key, p.act);
  }
  void OpProcessMulti() {
    const int n = 1 + c.Draw(5);
    std::vector<std::string> keys(n);
    std::vector<Proc> procs(n);
    std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pairs;
    bool any_write = false;
    for (int i = 0; i < n; i++) {
      keys[i] = i > 0 && c.Chance(1, 6) ? keys[c.Draw(i)] : LiveKey();
      procs[i].act = GenAct();
      any_write |= procs[i].act.kind != 0;
      c.Log("  multi[%d] %s act=%d %s", i, vt::Esc(keys[i]).c_str(), procs[i].act.kind, vt::Esc(procs[i].act.value, 16).c_str());
      pairs.emplace_back(keys[i], &procs[i]);
    }
    const bool writable = any_write || c.Bool();
    c.Log("ProcessMulti(n=%d, w=%d)", n, writable);
    Expect("process-multi", db->ProcessMulti(pairs, writable), Status::SUCCESS);
    for (int i = 0; i < n; i++) {
      auto it = model.find(keys[i]);
      CheckProc("process-multi", keys[i], procs[i], it != model.end(), it == model.end() ? "" : it->second);
      ApplyAct(keys[i], procs[i].act);
    }
    c.Tag("multi");
  }
  void OpMultiSimple() {
    const int n = c.Draw(6);
    std::vector<std::string> keys(n);
    std::vector<std::string> values(n);
    for (int i = 0; i < n; i++) keys[i] = LiveKey();
    switch (c.Draw(4)) {
      case 0: {
        std::map<std::string, std::string> got;
        std::vector<std::string_view> views(keys.begin(), keys.end());
        const Status st = db->GetMulti(views, &got);
        c.Log("GetMulti(n=%d)", n);
        std::map<std::string, std::string> want;
        bool missing = false;
        for (const auto& k : keys) {
          auto it = model.find(k);
          if (it == model.end()) missing = true; else want.emplace(k, it->second);
        }
        Expect("get-multi", st, missing ? Status::NOT_FOUND_ERROR : Status::SUCCESS);
        VT_CHECK(c, "get-multi", got == want, "GetMulti: got %zu records, expected %zu [%s]",
                 got.size(), want.size(), spec.Str().c_str());
        break;
      }
      case 1: {
        std::map<std::string, std::string> recs;
        for (int i = 0; i < n; i++) recs[keys[i]] = Value();
        const bool ow = c.Bool();
        std::map<std::string_view, std::string_view> views;
        for (const auto& r : recs) views.emplace(r.first, r.second);
        c.Log("SetMulti(n=%zu, ow=%d)", recs.size(), ow);
        const Status st = db->SetMulti(views, ow);
        bool dup = false;
        for (const auto& r : recs) {
          auto it = model.find(r.first);
          if (it != model.end() && !ow) { dup = true; continue; }
          model[r.first] = r.second;
          updates++;
        }
        Expect("set-multi", st, dup ? Status::DUPLICATION_ERROR : Status::SUCCESS);
        break;
      }
      case 2: {
        std::vector<std::string_view> views(keys.begin(), keys.end());
        c.Log("RemoveMulti(n=%d)", n);
        const Status st = db->RemoveMulti(views);
        bool missing = false;
        for (const auto& k : keys) {
          if (model.erase(k) == 0) missing = true; else updates++;
        }
        Expect("remove-multi", st, missing ? Status::NOT_FOUND_ERROR : Status::SUCCESS);
        break;
      }
      default: {
        std::map<std::string, std::string> recs;
        for (int i = 0; i < n; i++) recs[keys[i]] = c.BytesOfSize(c.Draw(12), 0);
        std::map<std::string_view, std::string_view> views;
        for (const auto& r : recs) views.emplace(r.first, r.second);
        const std::string delim = c.PickOf<std::string>({"", ",", "--"});
        c.Log("AppendMulti(n=%zu)", recs.size());
        Expect("append-multi", db->AppendMulti(views, delim), Status::SUCCESS);
        for (const auto& r : recs) {
          auto it = model.find(r.first);
          if (it == model.end()) model[r.first] = r.second; else it->second += delim + r.second;
          updates++;
        }
      }
    }
    c.Tag("multi");
  }
  void OpCompareExchangeMulti() {
    const int ne = c.Draw(4), nd = c.Draw(4);
    std::vector<std::pair<std::string, Want>> exp(ne), des(nd);
    for (auto& e : exp) { e.first = LiveKey(); e.second = GenExpected(e.first); }
    for (auto& d : des) {
      d.first = LiveKey();
      d.second.kind = c.Chance(1, 4) ? 0 : 2;
      if (d.second.kind == 2) d.second.value = Value();
    }
    std::vector<std::pair<std::string_view, std::string_view>> ve, vd;
    for (auto& e : exp) ve.emplace_back(e.first, e.second.View());
    for (auto& d : des) vd.emplace_back(d.first, d.second.View());
    for (auto& e : exp) c.Log("  exp %s %s", vt::Esc(e.first).c_str(), e.second.Str().c_str());
    for (auto& d : des) c.Log("  des %s %s", vt::Esc(d.first).c_str(), d.second.Str().c_str());
    c.Log("CompareExchangeMulti(%d,%d)", ne, nd);
    const Status st = db->CompareExchangeMulti(ve, vd);
    bool ok = true;
    for (auto& e : exp) if (!Matches(e.first, e.second)) ok = false;
    Expect("cmpex-multi", st, ok ? Status::SUCCESS : Status::INFEASIBLE_ERROR);
    if (ok) {
      for (auto& d : des) {
        if (d.second.kind == 0) model.erase(d.first); else model[d.first] = d.second.value;
        updates++;
      }
    }
    c.Tag("multi");
  }
  void OpRekey() {
    const std::string ok = LiveKey(), nk = c.Chance(1, 10) ? ok : Key();
    const bool ow = c.Bool(), copying = c.Bool();
    std::string value = "*";
    c.Log("Rekey(%s, %s, ow=%d, copying=%d)", vt::Esc(ok).c_str(), vt::Esc(nk).c_str(), ow, copying);
    const Status st = db->Rekey(ok, nk, ow, copying, &value);
    auto oi = model.find(ok), ni = model.find(nk);
    if (oi == model.end()) {
      // If both conditions fail, either status is fine.
      if (!ow && ni != model.end()) {
        VT_CHECK(c, "rekey", st == Status::NOT_FOUND_ERROR || st == Status::DUPLICATION_ERROR,
                 "Rekey: %s", ToString(st).c_str());
      } else {
        Expect("rekey", st, Status::NOT_FOUND_ERROR, ok);
      }
    } else if (!ow && ni != model.end()) {
      Expect("rekey", st, Status::DUPLICATION_ERROR, nk);
    } else {
      Expect("rekey", st, Status::SUCCESS, ok);
      const std::string v = oi->second;
      ExpectStr("rekey", ok, value, v);
      if (!copying) model.erase(oi);
      model[nk] = v;
      updates++;
    }
  }
  void OpPushLast() {
    const std::string value = Value();
    if (c.Chance(1, 2)) wtime += c.Draw(3);
    std::string key;
    c.Log("PushLast(%s, %.1f)", vt::Esc(value, 16).c_str(), wtime);
    Expect("push-last", db->PushLast(value, wtime, &key), Status::SUCCESS);
    // The first free one of consecutive keys.
    uint64_t t = (uint64_t)(wtime * 100000000);
    std::string want;
    while (true) {
      want = BE8(t);
      if (model.find(want) == model.end()) break;
      t++;
    }
    ExpectStr("push-last", "", key, want);
    model[want] = value;
    updates++;
  }
  void OpPopFirst() {
    std::string key = "*", value = "*";
    const Status st = db->PopFirst(&key, &value);
    c.Log("PopFirst() -> %s %s", ToString(st).c_str(), vt::Esc(key).c_str());
    if (model.empty()) {
      Expect("pop-first", st, Status::NOT_FOUND_ERROR);
      return;
    }
    Expect("pop-first", st, Status::SUCCESS);
    auto it = spec.ordered() ? model.begin() : model.find(key);
    VT_CHECK(c, "pop-first", it != model.end() && KeyEq(key, it->first),
             "PopFirst: got %s [%s]", vt::Esc(key).c_str(), spec.Str().c_str());
    ExpectStr("pop-first", key, value, it->second);
    model.erase(it);
    updates++;
  }
  void OpProcessFirst() {
    Proc p;
    p.act = GenAct();
    const bool writable = p.act.kind != 0 || c.Bool();
    c.Log("ProcessFirst(act=%d, w=%d)", p.act.kind, writable);
    const Status st = db->ProcessFirst(&p, writable);
    if (model.empty()) {
      Expect("process-first", st, Status::NOT_FOUND_ERROR);
      VT_CHECK(c, "process-first", p.calls == 0, "ProcessFirst of an empty database called the processor");
      return;
    }
    Expect("process-first", st, Status::SUCCESS);
    VT_CHECK(c, "process-first", p.calls == 1, "ProcessFirst: %d calls", p.calls);
    auto it = spec.ordered() ? model.begin() : model.find(p.key);
    VT_CHECK(c, "process-first", it != model.end() && p.full && KeyEq(p.key, it->first),
             "ProcessFirst: got %s [%s]", vt::Esc(p.key).c_str(), spec.Str().c_str());
    ExpectStr("process-first", p.key, p.old, it->second);
    ApplyAct(it->first, p.act);
  }
  void OpCount() {
    int64_t count = -1;
    Expect("count", db->Count(&count), Status::SUCCESS);
    VT_CHECK(c, "count", count == (int64_t)model.size(), "Count: %lld, expected %zu [%s]",
             (long long)count, model.size(), spec.Str().c_str());
  }
  // Compares a traversal with the model.
  void CheckList(const char* op, const std::vector<std::pair<std::string, std::string>>& got,
                 bool reverse = false, bool in_order = true) {
    VT_CHECK(c, op, got.size() == model.size(), "%s: %zu records visited, expected %zu [%s]", op,
             got.size(), model.size(), spec.Str().c_str());
    if (spec.ordered() && in_order) {
      size_t i = 0;
      auto cmp = [&](const std::pair<const std::string, std::string>& want) {
        VT_CHECK(c, op, KeyEq(got[i].first, want.first), "%s: record #%zu is %s, expected %s [%s]",
                 op, i, vt::Esc(got[i].first).c_str(), vt::Esc(want.first).c_str(),
                 spec.Str().c_str());
        ExpectStr(op, want.first, got[i].second, want.second);
        i++;
      };
      if (reverse) for (auto it = model.rbegin(); it != model.rend(); ++it) cmp(*it);
      else for (auto it = model.begin(); it != model.end(); ++it) cmp(*it);
    } else {
      std::set<std::string> seen;
      for (const auto& g : got) {
        auto it = model.find(g.first);
        VT_CHECK(c, op, it != model.end(), "%s: unknown key %s [%s]", op, vt::Esc(g.first).c_str(),
                 spec.Str().c_str());
        ExpectStr(op, g.first, g.second, it->second);
        VT_CHECK(c, op, seen.insert(g.first).second, "%s: key %s visited twice [%s]", op,
                 vt::Esc(g.first).c_str(), spec.Str().c_str());
      }
    }
  }
  void OpProcessEach(bool writable) {
    struct Each : public DBM::RecordProcessor {
      std::vector<std::pair<std::string, std::string>> got;
      std::vector<Act>* acts;
      std::vector<Act> used;
      std::string buf;
      int empties = 0, misplaced = 0;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override {
        if (empties != 1) misplaced++;
        got.emplace_back(k, v);
        if (acts == nullptr || acts->empty()) return NOOP;
        // The action depends on the key only, as the order may be arbitrary.
        uint64_t h = 1469598103934665603ULL;
        for (char ch : k) h = (h ^ (uint8_t)ch) * 1099511628211ULL;
        const Act& a = (*acts)[(h >> 8) % acts->size()];
        used.push_back(a);
        if (a.kind == 1) return REMOVE;
        if (a.kind == 2) { buf = a.value; return buf; }
        if (a.kind == 3) { buf.assign(v.rbegin(), v.rend()); return buf; }
        return NOOP;
      }
      std::string_view ProcessEmpty(std::string_view k) override {
        empties++;
        return NOOP;
      }
    } each;
    std::vector<Act> acts;
    if (writable) {
      const int n = 1 + c.Draw(4);
      for (int i = 0; i < n; i++) acts.push_back(GenAct());
    }
    each.acts = writable ? &acts : nullptr;
    c.Log("ProcessEach(w=%d)", writable);
    Expect("process-each", db->ProcessEach(&each, writable), Status::SUCCESS);
    CheckList("process-each", each.got, false, spec.shards == 0);
    VT_CHECK(c, "process-each", each.empties == 2 && each.misplaced == 0,
             "ProcessEach: ProcessEmpty was called %d times, %d misplaced [%s]", each.empties,
             each.misplaced, spec.Str().c_str());
    if (writable) {
      for (size_t i = 0; i < each.got.size() && i < each.used.size(); i++)
        ApplyAct(each.got[i].first, each.used[i]);
      if (!each.got.empty()) c.Tag("process-each-rw");
    }
  }
  std::vector<std::pair<std::string, std::string>> Collect(bool reverse, bool use_step) {
    auto iter = db->MakeIterator();
    std::vector<std::pair<std::string, std::string>> got;
    Expect("iter-first", reverse ? iter->Last() : iter->First(), Status::SUCCESS);
    const size_t limit = model.size() + 20;
    while (got.size() < limit) {
      std::string key, value;
      Status st = use_step ? iter->Step(&key, &value) : iter->Get(&key, &value);
      if (st == Status::NOT_FOUND_ERROR) break;
      Expect("iter-get", st, Status::SUCCESS);
      got.emplace_back(key, value);
      if (!use_step)
        Expect("iter-next", reverse ? iter->Previous() : iter->Next(), Status::SUCCESS);
    }
    return got;
  }
  void OpIterate() {
    const int mode = c.Draw(spec.ordered() ? 3 : 2);
    c.Log("Iterate(mode=%d)", mode);
    CheckList(mode == 2 ? "iterate-back" : mode == 1 ? "iterate-step" : "iterate",
              Collect(mode == 2, mode == 1), mode == 2);
  }
  // A walk of an iterator over an ordered or unordered database without other updates.
  void OpWalk(bool allow_update) {
    auto iter = db->MakeIterator();
    const bool ord = spec.ordered();
    Map::iterator pos = model.end();
    bool known = false;  // the position is known
    const int n = 1 + c.Draw(12);
    for (int i = 0; i < n; i++) {
      vt::Case::Span span(c);
      const int op = c.Draw(10);
      switch (op) {
        case 0: {
          c.Log("  it.First()");
          Expect("iter-first", iter->First(), Status::SUCCESS);
          pos = model.begin();
          known = ord || model.empty();
          if (!ord && !model.empty()) Locate(iter.get(), &pos, &known, "iter-first");
          break;
        }
        case 1: {
          const std::string key = c.Bool() ? LiveKey() : Key();
          const Status st = iter->Jump(key);
          c.Log("  it.Jump(%s) -> %s", vt::Esc(key).c_str(), ToString(st).c_str());
          if (ord) {
            Expect("iter-jump", st, Status::SUCCESS, key);
            pos = model.lower_bound(key);
            known = true;
            CheckPos(iter.get(), pos, "iter-jump");
          } else {
            pos = model.find(key);
            Expect("iter-jump", st, pos == model.end() ? Status::NOT_FOUND_ERROR : Status::SUCCESS, key);
            known = pos != model.end();
            if (known) CheckPos(iter.get(), pos, "iter-jump");
          }
          break;
        }
        case 2:
          if (ord) {
            c.Log("  it.Last()");
            Expect("iter-last", iter->Last(), Status::SUCCESS);
            pos = model.empty() ? model.end() : std::prev(model.end());
            known = true;
            CheckPos(iter.get(), pos, "iter-last");
          }
          break;
        case 3:
          if (ord) {
            const std::string key = c.Bool() ? LiveKey() : Key();
            const bool inc = c.Bool();
            c.Log("  it.JumpLower(%s, %d)", vt::Esc(key).c_str(), inc);
            Expect("iter-jump-lower", iter->JumpLower(key, inc), Status::SUCCESS, key);
            pos = inc ? model.upper_bound(key) : model.lower_bound(key);
            pos = pos == model.begin() ? model.end() : std::prev(pos);
            known = true;
            CheckPos(iter.get(), pos, "iter-jump-lower");
          }
          break;
        case 4:
          if (ord) {
            const std::string key = c.Bool() ? LiveKey() : Key();
            const bool inc = c.Bool();
            c.Log("  it.JumpUpper(%s, %d)", vt::Esc(key).c_str(), inc);
            Expect("iter-jump-upper", iter->JumpUpper(key, inc), Status::SUCCESS, key);
            pos = inc ? model.lower_bound(key) : model.upper_bound(key);
            known = true;
            CheckPos(iter.get(), pos, "iter-jump-upper");
          }
          break;
        case 5:
        case 6: {
          if (!known || pos == model.end()) break;
          const bool back = ord && op == 6;
          const Status st = back ? iter->Previous() : iter->Next();
          c.Log("  it.%s() -> %s", back ? "Previous" : "Next", ToString(st).c_str());
          Expect(back ? "iter-previous" : "iter-next", st, Status::SUCCESS);
          if (ord) {
            if (back) pos = pos == model.begin() ? model.end() : std::prev(pos);
            else ++pos;
            CheckPos(iter.get(), pos, back ? "iter-previous" : "iter-next");
          } else {
            Locate(iter.get(), &pos, &known, "iter-next");
          }
          break;
        }
        case 7: {
          if (!known || pos == model.end() || !allow_update) break;
          const std::string value = Value();
          std::string ok, ov;
          c.Log("  it.Set(%s)", vt::Esc(value, 16).c_str());
          Expect("iter-set", iter->Set(value, &ok, &ov), Status::SUCCESS);
          VT_CHECK(c, "iter-set", KeyEq(ok, pos->first), "Iterator::Set: key %s expected %s",
                   vt::Esc(ok).c_str(), vt::Esc(pos->first).c_str());
          ExpectStr("iter-set", ok, ov, pos->second);
          pos->second = value;
          updates++;
          CheckPos(iter.get(), pos, "iter-set");
          break;
        }
        case 8: {
          if (!known || pos == model.end() || !allow_update) break;
          std::string ok, ov;
          c.Log("  it.Remove()");
          Expect("iter-remove", iter->Remove(&ok, &ov), Status::SUCCESS);
          VT_CHECK(c, "iter-remove", KeyEq(ok, pos->first), "Iterator::Remove: key %s expected %s",
                   vt::Esc(ok).c_str(), vt::Esc(pos->first).c_str());
          ExpectStr("iter-remove", ok, ov, pos->second);
          pos = model.erase(pos);
          updates++;
          if (ord) CheckPos(iter.get(), pos, "iter-remove");
          else Locate(iter.get(), &pos, &known, "iter-remove");
          break;
        }
        case 9: {
          if (!known || pos == model.end() || !allow_update) break;
          class Proc : public DBM::RecordProcessor {
           public:
            std::string key, value, buf;
            int calls = 0, act = 0;
            std::string_view ProcessFull(std::string_view k, std::string_view v) override {
              key = k; value = v; calls++;
              return act == 1 ? REMOVE : act == 2 ? std::string_view(buf) : NOOP;
            }
            std::string_view ProcessEmpty(std::string_view k) override {
              calls += 100;
              return NOOP;
            }
          } proc;
          const bool writable = c.Chance(3, 4);
          proc.act = writable ? c.Draw(3) : 0;
          proc.buf = Value();
          c.Log("  it.Process(act=%d %s, w=%d)", proc.act, vt::Esc(proc.buf, 16).c_str(), writable);
          Expect("iter-process", iter->Process(&proc, writable), Status::SUCCESS);
          VT_CHECK(c, "iter-process", proc.calls == 1 && KeyEq(proc.key, pos->first),
                   "Iterator::Process: calls %d key %s expected %s", proc.calls,
                   vt::Esc(proc.key).c_str(), vt::Esc(pos->first).c_str());
          ExpectStr("iter-process", proc.key, proc.value, pos->second);
          if (writable && proc.act == 1) {
            pos = model.erase(pos);
            updates++;
            if (ord) CheckPos(iter.get(), pos, "iter-process");
            else Locate(iter.get(), &pos, &known, "iter-process");
          } else {
            if (writable && proc.act == 2) { pos->second = proc.buf; updates++; }
            CheckPos(iter.get(), pos, "iter-process");
          }
          break;
        }
      }
    }
    c.Tag("walk");
  }
  void CheckPos(DBM::Iterator* iter, Map::iterator pos, const char* op) {
    std::string key = "*", value = "*";
    const Status st = iter->Get(&key, &value);
    if (pos == model.end()) {
      VT_CHECK(c, op, st == Status::NOT_FOUND_ERROR, "%s: the position should be the end, but got %s %s [%s]",
               op, ToString(st).c_str(), vt::Esc(key).c_str(), spec.Str().c_str());
    } else {
      VT_CHECK(c, op, st == Status::SUCCESS, "%s: expected the position at %s, but Get returned %s [%s]", op,
               vt::Esc(pos->first).c_str(), ToString(st).c_str(), spec.Str().c_str());
      VT_CHECK(c, op, KeyEq(key, pos->first), "%s: position at %s, expected %s [%s]", op,
               vt::Esc(key).c_str(), vt::Esc(pos->first).c_str(), spec.Str().c_str());
      ExpectStr(op, key, value, pos->second);
    }
  }
  void Locate(DBM::Iterator* iter, Map::iterator* pos, bool* known, const char* op) {
    std::string key = "*", value = "*";
    const Status st = iter->Get(&key, &value);
    if (st == Status::NOT_FOUND_ERROR) {
      *pos = model.end();
      *known = true;
      return;
    }
    Expect(op, st, Status::SUCCESS);
    *pos = model.find(key);
    VT_CHECK(c, op, *pos != model.end(), "%s: the iterator is at the unknown key %s [%s]", op,
             vt::Esc(key).c_str(), spec.Str().c_str());
    ExpectStr(op, key, value, (*pos)->second);
    *known = true;
  }
  void OpClear() {
    c.Log("Clear()");
    Expect("clear", db->Clear(), Status::SUCCESS);
    model.clear();
    structural++;
    c.Tag("clear");
  }
  void OpSync() {
    c.Log("Synchronize()");
    Expect("synchronize", db->Synchronize(false), Status::SUCCESS);
    structural++;
    c.Tag("sync");
  }
  // Changes the parameters that may differ each time when the database is opened.
  void MutateOpenParams() {
    auto& p = spec.tp;
    if (spec.kind == HASH || spec.kind == TREE) {
      if (c.Chance(1, 2)) {
        p.update_mode = c.PickOf({HashDBM::UPDATE_DEFAULT, HashDBM::UPDATE_IN_PLACE,
                                  HashDBM::UPDATE_APPENDING});
        p.fbp_capacity = c.PickOf({-1, 0, 1, 2, 8, 64});
        p.min_read_size = c.PickOf({-1, 1, 16, 64, 200, 1024});
        p.cache_buckets = c.Chance(1, 4) ? 1 : -1;
        p.max_cached_pages = c.PickOf({-1, 1, 64, 100, 256});
        p.page_update_mode = c.PickOf({TreeDBM::PAGE_UPDATE_NONE, TreeDBM::PAGE_UPDATE_WRITE});
      }
    }
    if (c.Chance(1, 3)) GenFile(c, &spec, false);
    if ((spec.kind == TINY || spec.kind == STDHASH) && c.Bool())
      spec.num_buckets = c.PickOf<int64_t>({1, 2, 7, 100, 1000});
  }
  void OpReopen(bool read_only_phase = true) {
    if (path.empty()) return;
    Close();
    db.reset();
    MutateOpenParams();
    if (read_only_phase && c.Chance(1, 4)) {
      c.Log("Reopen read-only [%s]", spec.Str().c_str());
      Open(false);
      FullCheck();
      Close();
      db.reset();
    }
    c.Log("Reopen [%s]", spec.Str().c_str());
    Open(true);
    structural++;
    c.Tag("reopen");
  }
  void OpRebuild() {
    Status st;
    if ((spec.kind == HASH || spec.kind == TREE) && !spec.poly && !spec.shards && c.Chance(3, 4)) {
      Spec ns = spec;
      if (spec.kind == HASH) GenHashTuning(c, &ns, false); else GenTreeTuning(c, &ns);
      if (c.Chance(1, 3)) ns.tp.offset_width = -1;
      if (c.Chance(1, 3)) ns.tp.num_buckets = -1;
      if (c.Chance(1, 3)) ns.tp.align_pow = -1;
      // The compression mode may change, but the cipher key is the one of the current database.
      if (ns.tp.record_comp_mode != HashDBM::RECORD_COMP_DEFAULT ||
          spec.tp.record_comp_mode >= HashDBM::RECORD_COMP_RC4) {
        if (!cipher_rebuild) {
          ns.tp.record_comp_mode = HashDBM::RECORD_COMP_DEFAULT;
          ns.tp.cipher_key = spec.tp.cipher_key;
        }
      }
      c.Log("Rebuild [%s]", ns.Str().c_str());
      if (spec.kind == HASH)
        st = dynamic_cast<HashDBM*>(db.get())->RebuildAdvanced(ns.tp);
      else
        st = dynamic_cast<TreeDBM*>(db.get())->RebuildAdvanced(ns.tp);
      if (ns.tp.record_comp_mode != HashDBM::RECORD_COMP_DEFAULT) {
        spec.tp.record_comp_mode = ns.tp.record_comp_mode;
        spec.tp.cipher_key = ns.tp.cipher_key;
      }
    } else if (spec.kind == TINY && !spec.poly && !spec.shards && c.Bool()) {
      const int64_t nb = c.PickOf<int64_t>({-1, 1, 3, 50, 2000});
      c.Log("Rebuild(num_buckets=%d)", (int)nb);
      st = dynamic_cast<TinyDBM*>(db.get())->RebuildAdvanced(nb);
    } else {
      c.Log("Rebuild()");
      st = db->Rebuild();
    }
    Expect("rebuild", st, Status::SUCCESS);
    structural++;
    c.Tag("rebuild");
  }
  bool cipher_rebuild = false;
  void OpInspect() {
    bool tobe = false;
    Expect("should-be-rebuilt", db->ShouldBeRebuilt(&tobe), Status::SUCCESS);
    db->Inspect();
    if (!path.empty()) {
      std::string p;
      Expect("get-file-path", db->GetFilePath(&p), Status::SUCCESS);
      ExpectStr("get-file-path", "", p, path);
      int64_t sz = -1;
      Expect("get-file-size", db->GetFileSize(&sz), Status::SUCCESS);
    }
    VT_CHECK(c, "is-ordered", db->IsOrdered() == spec.ordered(), "IsOrdered [%s]", spec.Str().c_str());
    VT_CHECK(c, "is-healthy", path.empty() || db->IsHealthy(), "IsHealthy [%s]", spec.Str().c_str());
  }
  void OpExport() {
    BabyDBM dest;
    c.Log("Export()");
    Expect("export", db->Export(&dest), Status::SUCCESS);
    VT_CHECK(c, "export", spec.injective() ? dest.CountSimple() == (int64_t)model.size() : true,
             "Export: %lld records, expected %zu [%s]", (long long)dest.CountSimple(), model.size(),
             spec.Str().c_str());
    for (const auto& r : model) {
      std::string v;
      if (!spec.injective()) continue;
      Expect("export", dest.Get(r.first, &v), Status::SUCCESS, r.first);
      ExpectStr("export", r.first, v, r.second);
    }
  }
  void OpCopy() {
    if (path.empty() || spec.shards > 0) return;
    const std::string dest = path + ".copy";
    c.Log("CopyFileData()");
    Expect("copy-file-data", db->CopyFileData(dest), Status::SUCCESS);
    // The copy has the same content.
    Ctx copy(c, spec);
    copy.path = dest;
    copy.model = model;
    copy.strict_keys = strict_keys;
    const Status ost = [&]() {
      copy.db = MakeDbm(spec);
      return OpenDbm(spec, copy.db.get(), dest, false);
    }();
    copy.Expect("copy-open", ost, Status::SUCCESS);
    copy.FullCheck("copy-");
    copy.Close();
    unlink(dest.c_str());
    c.Tag("copy");
  }
  void FullCheck(const char* prefix = "") {
    OpCount();
    for (const auto& r : model) {
      std::string value;
      const Status st = db->Get(r.first, &value);
      if (st != Status::SUCCESS || value != r.second) {
        c.Fail((std::string(prefix) + "content").c_str(),
               "%scheck: Get(%s) -> %s %s (%zu bytes), expected %s (%zu bytes) [%s]", prefix,
               vt::Esc(r.first).c_str(), ToString(st).c_str(), vt::Esc(value).c_str(),
               value.size(), vt::Esc(r.second).c_str(), r.second.size(), spec.Str().c_str());
      }
    }
    CheckList("iterate", Collect(false, false));
    if (spec.ordered()) CheckList("iterate-back", Collect(true, false), true);
    OpProcessEach(false);
  }
  // Consistency checks of the library itself.
  void Validate() {
    if (spec.poly || spec.shards || path.empty()) return;
    if (spec.kind == HASH) {
      auto* h = dynamic_cast<HashDBM*>(db.get());
      Expect("validate-hash-buckets", h->ValidateHashBuckets(), Status::SUCCESS);
      Expect("validate-records", h->ValidateRecords(-1, -1), Status::SUCCESS);
    } else if (spec.kind == TREE) {
      auto* t = dynamic_cast<TreeDBM*>(db.get());
      Expect("validate-hash-buckets", t->ValidateHashBuckets(), Status::SUCCESS);
      Expect("validate-records", t->ValidateRecords(-1, -1), Status::SUCCESS);
    }
  }

  enum Op { GET, SET, REMOVE, APPEND, CMPEX, INC, PROCESS, PROCMULTI, MULTI, CMPEXMULTI, REKEY,
            PUSH, POP, PROCFIRST, COUNT, EACH_RO, EACH_RW, ITERATE, WALK, CLEAR, SYNC, REOPEN,
            REBUILD, INSPECT, EXPORT, COPY, VALIDATE, BULK, BULKREMOVE, NUM_OPS };
  typedef std::array<int, NUM_OPS> Weights;
  static Weights DefaultWeights() {
    Weights w;
    w.fill(1);
    w[SET] = 14; w[GET] = 5; w[REMOVE] = 7; w[APPEND] = 2; w[PROCESS] = 4; w[PROCMULTI] = 2;
    w[BULK] = 2; w[WALK] = 2; w[REOPEN] = 2;
    return w;
  }
  void Step(const Weights& w) {
    vt::Case::Span span(c);
    int total = 0;
    for (int x : w) total += x;
    int64_t v = c.Draw(total);
    int op = 0;
    while (v >= w[op]) { v -= w[op]; op++; }
    steps++;
    switch (op) {
      case GET: OpGet(LiveKey()); break;
      case SET: {
        const bool ow = !c.Chance(1, 5);
        const std::string k = c.Bool() ? Key() : LiveKey();
        OpSet(k, Value(), ow, c.Bool());
        break;
      }
      case REMOVE: OpRemove(LiveKey(), c.Bool()); break;
      case APPEND: {
        const std::string k = LiveKey();
        const std::string v = Value();
        OpAppend(k, v, c.PickOf<std::string>({"", ",", "::"}));
        break;
      }
      case CMPEX: OpCompareExchange(LiveKey()); break;
      case INC: OpIncrement(LiveKey()); break;
      case PROCESS: OpProcess(LiveKey()); break;
      case PROCMULTI: OpProcessMulti(); break;
      case MULTI: OpMultiSimple(); break;
      case CMPEXMULTI: OpCompareExchangeMulti(); break;
      case REKEY: OpRekey(); break;
      // Generated keys would not be valid ones of the other comparators.
      case PUSH: if (spec.injective()) OpPushLast(); break;
      case POP: OpPopFirst(); break;
      case PROCFIRST: OpProcessFirst(); break;
      case COUNT: OpCount(); break;
      case EACH_RO: OpProcessEach(false); break;
      case EACH_RW: OpProcessEach(true); break;
      case ITERATE: OpIterate(); break;
      case WALK: OpWalk(true); break;
      case CLEAR: OpClear(); break;
      case SYNC: OpSync(); break;
      case REOPEN: OpReopen(); break;
      case REBUILD: OpRebuild(); break;
      case INSPECT: OpInspect(); break;
      case EXPORT: OpExport(); break;
      case COPY: OpCopy(); break;
      case VALIDATE: Validate(); break;
      case BULK: {
        // Many records of consecutive indices.
        const int begin = c.Draw(kg.pool), n = 1 + c.Draw(kg.pool);
        const size_t vs = c.Draw(120);
        c.Log("Bulk set [%d, +%d) value size %zu", begin, n, vs);
        for (int i = 0; i < n; i++) {
          const std::string k = kg.Make((begin + i) % kg.pool);
          const std::string v = std::string(vs, 'a' + i % 26);
          Expect("set", db->Set(k, v), Status::SUCCESS, k);
          model[k] = v;
          updates++;
        }
        break;
      }
      case BULKREMOVE: {
        const int begin = c.Draw(kg.pool), n = 1 + c.Draw(kg.pool), stride = 1 + c.Draw(3);
        c.Log("Bulk remove [%d, +%d) stride %d", begin, n, stride);
        for (int i = 0; i < n; i += stride) {
          const std::string k = kg.Make((begin + i) % kg.pool);
          const bool had = model.erase(k) > 0;
          Expect("remove", db->Remove(k), had ? Status::SUCCESS : Status::NOT_FOUND_ERROR, k);
          if (had) updates++;
        }
        break;
      }
    }
  }
};

}  // namespace m

#endif
