// Property I01: secondary indices against sets of pairs.
#include <set>

#include "dbm_model.h"
#include "tkrzw_index.h"

using namespace tkrzw;
using namespace m;
using vt::Case;

namespace {

template <typename K, typename V>
struct It {
  virtual ~It() = default;
  virtual void First() = 0;
  virtual void Last() = 0;
  virtual void Jump(const K& k, const V& v) = 0;
  virtual void JumpKey(const K& k) = 0;
  virtual void Next() = 0;
  virtual void Previous() = 0;
  virtual bool Get(K* k, V* v) = 0;
};

template <typename K, typename V>
struct Ix {
  virtual ~Ix() = default;
  virtual void Add(Case& c, const K& k, const V& v) = 0;
  virtual void Remove(Case& c, const K& k, const V& v, bool exists) = 0;
  virtual bool Check(const K& k, const V& v) = 0;
  virtual std::vector<V> GetValues(const K& k, size_t max) = 0;
  virtual size_t Count() = 0;
  virtual void Clear(Case& c) = 0;
  virtual void Sync(Case& c) {}
  virtual void Rebuild(Case& c) {}
  virtual void Reopen(Case& c, bool writable) {}
  virtual bool IsFile() { return false; }
  virtual std::unique_ptr<It<K, V>> Make() = 0;
};

template <typename K, typename V, typename T>
struct ItOf : It<K, V> {
  std::unique_ptr<T> it;
  explicit ItOf(std::unique_ptr<T> i) : it(std::move(i)) {}
  void First() override { it->First(); }
  void Last() override { it->Last(); }
  void Jump(const K& k, const V& v) override { it->Jump(k, v); }
  void JumpKey(const K& k) override { it->Jump(k); }
  void Next() override { it->Next(); }
  void Previous() override { it->Previous(); }
  bool Get(K* k, V* v) override { return it->Get(k, v); }
};

#define IX_OK(what, expr) do { const Status st_ = (expr); VT_CHECK(c, what, st_ == Status::SUCCESS, "%s: %s", what, ToString(st_).c_str()); } while (0)

// Indices with statuses and files: FileIndex and PolyIndex.
template <typename T>
struct FileIx : Ix<std::string, std::string> {
  std::unique_ptr<T> ix;
  std::function<std::unique_ptr<T>(bool first, bool writable)> open;
  bool file = true;
  void Add(Case& c, const std::string& k, const std::string& v) override { IX_OK("add", ix->Add(k, v)); }
  void Remove(Case& c, const std::string& k, const std::string& v, bool exists) override {
    const Status st = ix->Remove(k, v);
    VT_CHECK(c, "remove", st == (exists ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove: %s, exists=%d", ToString(st).c_str(), exists);
  }
  bool Check(const std::string& k, const std::string& v) override { return ix->Check(k, v); }
  std::vector<std::string> GetValues(const std::string& k, size_t max) override { return ix->GetValues(k, max); }
  size_t Count() override { return ix->Count(); }
  void Clear(Case& c) override { IX_OK("clear", ix->Clear()); }
  void Sync(Case& c) override { IX_OK("sync", ix->Synchronize(false)); }
  void Rebuild(Case& c) override { IX_OK("rebuild", ix->Rebuild()); }
  void Reopen(Case& c, bool writable) override {
    IX_OK("close", ix->Close());
    VT_CHECK(c, "open state", !ix->IsOpen(), "open after Close");
    ix = open(false, writable);
    VT_CHECK(c, "reopen", ix != nullptr, "the index cannot be opened again");
    VT_CHECK(c, "open state", ix->IsOpen() && ix->IsWritable() == writable, "open=%d writable=%d", ix->IsOpen(), ix->IsWritable());
  }
  bool IsFile() override { return file; }
  std::unique_ptr<It<std::string, std::string>> Make() override {
    return std::make_unique<ItOf<std::string, std::string, typename T::Iterator>>(ix->MakeIterator());
  }
};

// Indices without statuses.
template <typename K, typename V, typename T>
struct MemIx : Ix<K, V> {
  std::unique_ptr<T> ix;
  void Add(Case& c, const K& k, const V& v) override { ix->Add(k, v); }
  void Remove(Case& c, const K& k, const V& v, bool) override { ix->Remove(k, v); }
  bool Check(const K& k, const V& v) override { return ix->Check(k, v); }
  std::vector<V> GetValues(const K& k, size_t max) override { return ix->GetValues(k, max); }
  size_t Count() override { return ix->Count(); }
  void Clear(Case& c) override { ix->Clear(); }
  std::unique_ptr<It<K, V>> Make() override {
    return std::make_unique<ItOf<K, V, typename T::Iterator>>(ix->MakeIterator());
  }
};

std::string Str(const std::string& s) { return "\"" + vt::Esc(s.size() > 40 ? s.substr(0, 40) + ".." : s) + "\""; }
std::string Str(int64_t v) { return std::to_string(v); }
std::string Str(int v) { return std::to_string(v); }
std::string Str(double v) { return vt::StrF("%g", v); }

template <typename K, typename V>
void Drive(Case& c, Ix<K, V>& x, std::set<std::pair<K, V>, std::function<bool(const std::pair<K, V>&, const std::pair<K, V>&)>> model,
           const std::function<K()>& gen_key, const std::function<V()>& gen_value, const std::string& name) {
  typedef std::pair<K, V> P;
  auto show = [](const P& p) { return Str(p.first) + ":" + Str(p.second); };
  std::unique_ptr<It<K, V>> it;
  auto mit = model.end();
  bool known = false;
  bool writable = true;
  int updates = 0;
  auto values = [&](const K& k, size_t max) {
    std::vector<V> want;
    for (auto& p : model) if (p.first == k) { if (max && want.size() >= max) break; want.push_back(p.second); }
    return want;
  };
  auto check_values = [&](const K& k, size_t max) {
    const auto got = x.GetValues(k, max);
    const auto want = values(k, max);
    std::string gs, ws;
    for (auto& v : got) gs += Str(v) + " ";
    for (auto& v : want) ws += Str(v) + " ";
    VT_CHECK(c, "values", got == want, "GetValues(%s, %zu): %s; want %s [%s]", Str(k).c_str(), max, gs.c_str(), ws.c_str(), name.c_str());
  };
  auto check_it = [&](const char* what) {
    K k = K();
    V v = V();
    const int how = c.Draw(6);
    const bool got = it->Get(how == 1 ? nullptr : &k, how == 2 ? nullptr : &v);
    if (!known) return;
    const bool want = mit != model.end();
    VT_CHECK(c, "iter", got == want, "%s: Get returns %d, want %d [%s]", what, got, want, name.c_str());
    if (!want) return;
    if (how != 1) VT_CHECK(c, "iter", k == mit->first, "%s: at the key %s, want %s [%s]", what, Str(k).c_str(), show(*mit).c_str(), name.c_str());
    if (how != 2) VT_CHECK(c, "iter", v == mit->second, "%s: at the value %s, want %s [%s]", what, Str(v).c_str(), show(*mit).c_str(), name.c_str());
  };
  auto full = [&](const char* when) {
    VT_CHECK(c, "count", x.Count() == model.size(), "%s: Count %zu, want %zu [%s]", when, x.Count(), model.size(), name.c_str());
    auto i = x.Make();
    auto walk = [&](bool forward) {
      if (forward) i->First(); else i->Last();
      std::vector<P> got;
      K k;
      V v;
      while (got.size() <= model.size() && i->Get(&k, &v)) {
        got.emplace_back(k, v);
        if (forward) i->Next(); else i->Previous();
      }
      std::vector<P> want(model.begin(), model.end());
      if (!forward) std::reverse(want.begin(), want.end());
      for (size_t j = 0; j < std::max(got.size(), want.size()); j++) {
        VT_CHECK(c, "walk", j < got.size() && j < want.size() && got[j] == want[j],
                 "%s: the pair %zu %s is %s, want %s [%s]", when, j, forward ? "forward" : "backward",
                 j < got.size() ? show(got[j]).c_str() : "none", j < want.size() ? show(want[j]).c_str() : "none", name.c_str());
      }
    };
    walk(true);
    walk(false);
    std::set<K> keys;
    for (auto& p : model) keys.insert(p.first);
    int n = 0;
    for (auto& k : keys) if (n++ < 40) check_values(k, 0);
  };
  for (int i = 0; c.More(i, 30, c.thorough ? 400 : 150); i++) {
    Case::Span span(c);
    const int op = c.Weighted({10, 5, 4, 4, 8, 1, 1, 1, 1});
    switch (op) {
      case 0: {
        if (!writable) break;
        const int n = c.Chance(1, 12) ? 30 : 1;
        for (int j = 0; j < n; j++) {
          const P p(gen_key(), gen_value());
          c.Log("Add(%s)", show(p).c_str());
          x.Add(c, p.first, p.second);
          updates += model.insert(p).second;
        }
        if (it) { known = false; }
        break;
      }
      case 1: {
        if (!writable) break;
        P p(gen_key(), gen_value());
        if (!model.empty() && c.Chance(3, 4)) p = *std::next(model.begin(), c.Draw(model.size()));
        c.Log("Remove(%s)", show(p).c_str());
        const bool exists = model.count(p);
        x.Remove(c, p.first, p.second, exists);
        if (exists) { model.erase(p); updates++; }
        known = false;
        break;
      }
      case 2: {
        P p(gen_key(), gen_value());
        if (!model.empty() && c.Bool()) p = *std::next(model.begin(), c.Draw(model.size()));
        const bool got = x.Check(p.first, p.second);
        c.Log("Check(%s)", show(p).c_str());
        VT_CHECK(c, "check", got == (model.count(p) > 0), "Check(%s): %d, want %d [%s]", show(p).c_str(), got, !got, name.c_str());
        break;
      }
      case 3: {
        const K k = gen_key();
        const size_t max = c.PickOf<size_t>({0, 1, 2, 3, 10});
        c.Log("GetValues(%s, %zu)", Str(k).c_str(), max);
        check_values(k, max);
        break;
      }
      case 4: {
        if (!it) { it = x.Make(); known = false; }
        const int n = 1 + c.Draw(6);
        for (int j = 0; j < n; j++) {
          const int what = known && mit != model.end() ? c.Draw(6) : c.Chance(1, 8) ? 4 + c.Draw(2) : c.Draw(4);
          const char* names[] = {"First", "Last", "Jump", "JumpKey", "Next", "Previous"};
          P p;
          if (what == 2 || what == 3) {
            p = P(gen_key(), gen_value());
            if (!model.empty() && c.Bool()) p = *std::next(model.begin(), c.Draw(model.size()));
            if (what == 3) p.second = V();
          }
          c.Log("%s(%s)", names[what], what == 2 || what == 3 ? show(p).c_str() : "");
          switch (what) {
            case 0: it->First(); mit = model.begin(); known = true; break;
            case 1: it->Last(); mit = model.empty() ? model.end() : std::prev(model.end()); known = true; break;
            case 2: it->Jump(p.first, p.second); mit = model.lower_bound(p); known = true; break;
            case 3: it->JumpKey(p.first); mit = model.lower_bound(p); known = true; break;
            case 4:
              it->Next();
              if (known && mit != model.end()) ++mit; else known = false;
              break;
            default:
              it->Previous();
              if (known && mit != model.end()) { if (mit == model.begin()) mit = model.end(); else --mit; }
              else known = false;
          }
          check_it(names[what]);
        }
        break;
      }
      case 5:
        if (!writable || !c.Chance(1, 3)) break;
        c.Log("Clear()");
        x.Clear(c);
        model.clear();
        known = false;
        break;
      case 6:
        if (!writable) break;
        c.Log("Synchronize()");
        x.Sync(c);
        known = false;
        break;
      case 7:
        if (!writable) break;
        c.Log("Rebuild()");
        x.Rebuild(c);
        known = false;
        break;
      default:
        it.reset();
        known = false;
        if (!x.IsFile()) break;
        writable = c.Chance(4, 5);
        c.Log("Reopen(%d)", writable);
        x.Reopen(c, writable);
        full("reopened");
    }
  }
  full("end");
  it.reset();
  if (x.IsFile()) {
    c.Log("Reopen");
    x.Reopen(c, c.Bool());
    full("reopened at the end");
  }
  c.NonTrivial(updates >= 4);
}

}  // namespace

VT_SUITE(index_str) {
  typedef std::pair<std::string, std::string> P;
  Spec s;
  s.kind = TREE;
  GenFile(c, &s);
  GenTreeTuning(c, &s);
  const int kind = c.Weighted({4, 3, 2, 2, 2, 1});
  const char* names[] = {"FileIndex", "PolyIndex", "PolyIndex on memory", "MemIndex", "StdIndexStr", "StdIndex of strings"};
  s.comp = kind < 4 && c.Bool() ? c.PickOf({(int)LEX, (int)LEXCASE, (int)DECIMAL, (int)HEX, (int)REAL, (int)SIGNEDBE, (int)FLOATBE}) : LEX;
  KeyComparator pair = nullptr;
  const char* pname = "";
  switch (s.comp) {
    case LEX: pair = PairLexicalKeyComparator; pname = "PairLexicalKeyComparator"; break;
    case LEXCASE: pair = PairLexicalCaseKeyComparator; pname = "PairLexicalCaseKeyComparator"; break;
    case DECIMAL: pair = PairDecimalKeyComparator; pname = "PairDecimalKeyComparator"; break;
    case HEX: pair = PairHexadecimalKeyComparator; pname = "PairHexadecimalKeyComparator"; break;
    case REAL: pair = PairRealNumberKeyComparator; pname = "PairRealNumberKeyComparator"; break;
    case SIGNEDBE: pair = PairSignedBigEndianKeyComparator; pname = "PairSignedBigEndianKeyComparator"; break;
    default: pair = PairFloatBigEndianKeyComparator; pname = "PairFloatBigEndianKeyComparator"; break;
  }
  KeyGen kg;
  kg.style = c.Draw(27);
  kg.pool = c.PickOf({6, 2, 20, 100});
  kg.comp = s.comp;
  const KeyComparator cmp = Comparator(s.comp);
  auto gen_key = [&]() -> std::string {
    if (s.comp == LEX && c.Chance(1, 10)) {
      const size_t n = c.PickOf<size_t>({0, 127, 128, 129, 16383, 16384, 255});
      return c.BytesOfSize(n > 300 && !c.Chance(1, 4) ? 1 : n, 0);
    }
    std::string k = kg(c);
    return s.comp == LEXCASE ? StrLowerCase(k) : k;
  };
  const int vstyle = c.Draw(3);
  auto gen_value = [&]() -> std::string {
    if (vstyle == 0) return vt::StrF("%llu", (unsigned long long)c.Draw(12));
    if (vstyle == 1) return c.Bytes(6);
    return c.Chance(1, 6) ? c.BytesOfSize(c.PickOf<size_t>({0, 100, 127, 128, 300}), 0) : c.Bytes(3);
  };
  std::function<bool(const P&, const P&)> less = [cmp](const P& a, const P& b) {
    const int v = cmp(a.first, b.first);
    return v ? v < 0 : a.second < b.second;
  };
  const std::string path = c.dir + "/index.tkt";
  const std::string name = vt::StrF("%s %s %s", names[kind], pname, kind <= 1 ? s.Str().c_str() : "");
  c.Log("%s", name.c_str());
  c.Tag(names[kind]);
  std::set<P, std::function<bool(const P&, const P&)>> model(less);
  if (kind == 0) {
    FileIx<FileIndex> x;
    const bool named = c.Bool() || s.comp != LEX;
    x.open = [&](bool first, bool writable) {
      auto ix = s.file == F_MMAP_PARA && s.access == 0 && s.block_size <= 1 ? std::make_unique<FileIndex>() : std::make_unique<FileIndex>(MakeFile(s));
      TreeDBM::TuningParameters tp = s.tp;
      tp.key_comparator = named ? pair : nullptr;
      const Status st = ix->Open(path, writable, File::OPEN_DEFAULT, tp);
      VT_CHECK(c, "open", st == Status::SUCCESS, "Open: %s [%s]", ToString(st).c_str(), name.c_str());
      return ix;
    };
    x.ix = x.open(true, true);
    Drive<std::string, std::string>(c, x, model, gen_key, gen_value, name);
    IX_OK("close", x.ix->Close());
  } else if (kind <= 2) {
    FileIx<PolyIndex> x;
    x.file = kind == 1;
    std::map<std::string, std::string> params;
    if (s.comp != LEX || c.Bool()) params["key_comparator"] = pname;
    if (kind == 1) {
      if (c.Bool()) params["max_page_size"] = std::to_string(s.tp.max_page_size);
      if (c.Bool()) params["max_branches"] = std::to_string(s.tp.max_branches);
      if (c.Bool()) params["num_buckets"] = std::to_string(std::max<int64_t>(1, s.tp.num_buckets));
      else params["num_buckets"] = "100";
    }
    x.open = [&](bool first, bool writable) {
      auto ix = std::make_unique<PolyIndex>();
      const Status st = ix->Open(kind == 1 ? path : "", writable, File::OPEN_DEFAULT, params);
      VT_CHECK(c, "open", st == Status::SUCCESS, "Open: %s [%s]", ToString(st).c_str(), name.c_str());
      return ix;
    };
    x.ix = x.open(true, true);
    Drive<std::string, std::string>(c, x, model, gen_key, gen_value, name);
    IX_OK("close", x.ix->Close());
  } else if (kind == 3) {
    MemIx<std::string, std::string, MemIndex> x;
    x.ix = std::make_unique<MemIndex>(pair);
    Drive<std::string, std::string>(c, x, model, gen_key, gen_value, name);
  } else if (kind == 4) {
    MemIx<std::string, std::string, StdIndexStr> x;
    x.ix = std::make_unique<StdIndexStr>();
    Drive<std::string, std::string>(c, x, model, gen_key, gen_value, name);
  } else {
    MemIx<std::string, std::string, StdIndex<std::string, std::string>> x;
    x.ix = std::make_unique<StdIndex<std::string, std::string>>();
    Drive<std::string, std::string>(c, x, model, gen_key, gen_value, name);
  }
}

namespace {

template <typename K, typename V, typename L>
void DriveStd(Case& c, const std::function<K()>& gk, const std::function<V()>& gv, const char* name) {
  typedef std::pair<K, V> P;
  c.Log("%s", name);
  c.Tag(name);
  std::set<P, std::function<bool(const P&, const P&)>> model{std::function<bool(const P&, const P&)>(L())};
  MemIx<K, V, StdIndex<K, V, L>> x;
  x.ix = std::make_unique<StdIndex<K, V, L>>();
  Drive<K, V>(c, x, model, gk, gv, name);
}

}  // namespace

VT_SUITE(index_std) {
  const int range = c.PickOf({4, 10, 100});
  std::function<int64_t()> gi = [&]() -> int64_t { return c.Chance(1, 20) ? c.NastyInt() : (int64_t)c.Draw(range) - range / 2; };
  std::function<int()> gs = [&]() -> int { return (int)c.Draw(range) - range / 2; };
  std::function<double()> gd = [&]() -> double { return ((int)c.Draw(range) - range / 2) / 4.0; };
  std::function<std::string()> gt = [&]() -> std::string { return c.Bytes(2); };
  switch (c.Draw(6)) {
    case 0: DriveStd<int64_t, std::string, std::less<std::pair<int64_t, std::string>>>(c, gi, gt, "int64 to string"); break;
    case 1: DriveStd<int64_t, int64_t, std::less<std::pair<int64_t, int64_t>>>(c, gi, gi, "int64 to int64"); break;
    case 2: DriveStd<std::string, double, std::less<std::pair<std::string, double>>>(c, gt, gd, "string to double"); break;
    case 3: DriveStd<double, int, std::less<std::pair<double, int>>>(c, gd, gs, "double to int"); break;
    case 4: DriveStd<int64_t, std::string, std::greater<std::pair<int64_t, std::string>>>(c, gi, gt, "int64 to string, greater"); break;
    default: DriveStd<std::string, int64_t, std::greater<std::pair<std::string, int64_t>>>(c, gt, gi, "string to int64, greater"); break;
  }
}
