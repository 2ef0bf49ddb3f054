// Histories of operations compared with a reference map: D01, D02, D04, D06, D07, D09 (offline).
#include <list>

#include "dbm_model.h"
#include "tkrzw_dbm_common_impl.h"

using namespace m;
using vt::Case;

static void RunHistory(Ctx& x, const Ctx::Weights& w, int avg, int max) {
  Case& c = x.c;
  for (int i = 0; c.More(i, avg, max); i++) x.Step(w);
}

static void Finish(Ctx& x) {
  x.FullCheck();
  x.Validate();
  if (!x.path.empty()) {
    x.Close();
    x.db.reset();
    x.c.Log("final reopen");
    x.Open(true);
    x.FullCheck();
    x.Validate();
    x.Close();
  }
  x.c.NonTrivial(x.updates >= 3 && x.steps >= 3);
  x.c.Tag("steps", x.steps);
  x.c.Tag(KindName(x.spec.kind));
  if (x.structural > 0) x.c.Tag("with-structural");
}

static void Start(Ctx& x) {
  x.kg = GenKeyGen(x.c, x.spec);
  x.max_value = x.c.PickOf<size_t>({200, 20, 1000, 5000});
  if (x.c.thorough && x.c.Chance(1, 20)) x.max_value = 100000;
  x.c.Log("spec: %s keys: style=%d pool=%d", x.spec.Str().c_str(), x.kg.style, x.kg.pool);
  x.Open(true);
}

static void Lengths(Case& c, int* avg, int* max) {
  if (c.thorough) { *avg = c.PickOf({30, 5, 120, 400}); *max = 1500; }
  else { *avg = c.PickOf({25, 5, 60, 120}); *max = 300; }
}

VT_SUITE(hash_map) {
  Spec s;
  s.kind = HASH;
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  // LZMA takes milliseconds for each record.
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.path = c.dir + "/db.tkh";
  x.cipher_rebuild = true;
  Start(x);
  Ctx::Weights w = Ctx::DefaultWeights();
  if (c.Bool()) { w[Ctx::REOPEN] = 6; w[Ctx::REBUILD] = 4; w[Ctx::SYNC] = 4; }
  RunHistory(x, w, avg, max);
  Finish(x);
}

VT_SUITE(tree_map) {
  Spec s;
  s.kind = TREE;
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  // LZMA takes milliseconds for each record.
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.path = c.dir + "/db.tkt";
  x.cipher_rebuild = true;
  Start(x);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::BULK] = 5; w[Ctx::BULKREMOVE] = 3; w[Ctx::WALK] = 6; w[Ctx::ITERATE] = 3;
  if (c.Bool()) { w[Ctx::REOPEN] = 6; w[Ctx::REBUILD] = 3; w[Ctx::SYNC] = 3; }
  RunHistory(x, w, avg, max);
  Finish(x);
}

static void MemMap(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  // LZMA takes milliseconds for each record.
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  if (c.Chance(2, 3)) x.path = c.dir + "/db." + s.Ext();
  Start(x);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::BULK] = 4; w[Ctx::BULKREMOVE] = 3; w[Ctx::WALK] = 6;
  RunHistory(x, w, avg, max);
  Finish(x);
}

VT_SUITE(mem_map) { MemMap(c, c.PickOf<int>({TINY, BABY, STDHASH, STDTREE, CACHE})); }

// Compound operations on every class.
VT_SUITE(compound) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  const int wrap = c.Weighted({5, 2, 2});
  if (wrap == 1) s.poly = true;
  if (wrap == 2) s.shards = c.Range(1, 4);
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  // LZMA takes milliseconds for each record.
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  if (s.shards == 0 && s.kind != HASH && s.kind != TREE && c.Chance(1, 2)) {
    // Poly databases accept the empty path too.
    x.path = "";
    if (s.poly) x.spec.poly = s.poly = false;
  }
  Start(x);
  Ctx::Weights w;
  w.fill(0);
  w[Ctx::SET] = 4; w[Ctx::REMOVE] = 2; w[Ctx::GET] = 2; w[Ctx::APPEND] = 5; w[Ctx::CMPEX] = 6;
  w[Ctx::INC] = 5; w[Ctx::PROCESS] = 4; w[Ctx::PROCMULTI] = 5; w[Ctx::MULTI] = 6;
  w[Ctx::CMPEXMULTI] = 6; w[Ctx::REKEY] = 6; w[Ctx::PUSH] = 4; w[Ctx::POP] = 3;
  w[Ctx::PROCFIRST] = 3; w[Ctx::EXPORT] = 1; w[Ctx::COPY] = 1; w[Ctx::COUNT] = 2;
  w[Ctx::EACH_RW] = 1; w[Ctx::BULK] = 1; w[Ctx::REOPEN] = 1; w[Ctx::ITERATE] = 1;
  RunHistory(x, w, avg, max);
  Finish(x);
}

// Routing by textual parameters and by shards.
// Histories with many rebuilds: content, metadata and leftover files.
VT_SUITE(rebuild_hist) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, HASH, TREE, TINY, BABY, CACHE});
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  x.cipher_rebuild = true;
  Start(x);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::REBUILD] = 0; w[Ctx::CLEAR] = 0; w[Ctx::REOPEN] = 0; w[Ctx::BULK] = 5; w[Ctx::BULKREMOVE] = 3;
  const size_t width = s.kind == HASH ? HashDBM::OPAQUE_METADATA_SIZE : TreeDBM::OPAQUE_METADATA_SIZE;
  uint32_t type = 0;
  std::string opaque(width, 0);
  auto meta = [&](const char* when) {
    if (s.kind != HASH && s.kind != TREE) return;
    const uint32_t t = s.kind == HASH ? dynamic_cast<HashDBM*>(x.db.get())->GetDatabaseType() : dynamic_cast<TreeDBM*>(x.db.get())->GetDatabaseType();
    std::string o = s.kind == HASH ? dynamic_cast<HashDBM*>(x.db.get())->GetOpaqueMetadata() : dynamic_cast<TreeDBM*>(x.db.get())->GetOpaqueMetadata();
    VT_CHECK(c, "metadata", t == type, "%s: the database type is %u instead of %u [%s]", when, t, type, x.spec.Str().c_str());
    o.resize(width);
    VT_CHECK(c, "metadata", o == opaque, "%s: the opaque metadata is \"%s\" instead of \"%s\" [%s]", when, vt::Esc(o).c_str(),
             vt::Esc(opaque).c_str(), x.spec.Str().c_str());
  };
  int rebuilds = 0;
  for (int i = 0; c.More(i, avg, max); i++) {
    if (!c.Chance(1, 5)) { x.Step(w); continue; }
    Case::Span span(c);
    switch (c.Weighted({5, 2, 2, 1})) {
      case 0: {
        // What a rebuilding which was interrupted left.
        if (c.Chance(1, 3)) {
          const std::string left = x.path + (c.Bool() ? ".tmp.rebuild" : ".tmp.export");
          const std::string data = c.Bytes(c.PickOf({10, 5000}));
          WriteFile(left, data);
          c.Log("leftover of %zu bytes", data.size());
        }
        int64_t before = x.db->CountSimple();
        const double ts = x.db->GetTimestampSimple();
        x.OpRebuild();
        rebuilds++;
        meta("after rebuilding");
        VT_CHECK(c, "count", x.db->CountSimple() == before, "the number of records changes from %lld to %lld by rebuilding [%s]",
                 (long long)before, (long long)x.db->CountSimple(), x.spec.Str().c_str());
        VT_CHECK(c, "timestamp", s.kind == HASH || s.kind == TREE || x.db->GetTimestampSimple() == ts, "rebuilding changes the timestamp");
        if (c.Bool()) { x.FullCheck(); x.Validate(); }
        break;
      }
      case 1:
        if (s.kind == HASH || s.kind == TREE) {
          type = c.Draw(4) ? c.Draw(256) : 0x7fffffff;
          type &= 0x7fffffff;
          const std::string o = c.Bytes(width + 3);
          c.Log("SetDatabaseType(%u) SetOpaqueMetadata(\"%s\")", type, vt::Esc(o).c_str());
          Status st = s.kind == HASH ? dynamic_cast<HashDBM*>(x.db.get())->SetDatabaseType(type) : dynamic_cast<TreeDBM*>(x.db.get())->SetDatabaseType(type);
          x.Expect("metadata", st, Status::SUCCESS);
          st = s.kind == HASH ? dynamic_cast<HashDBM*>(x.db.get())->SetOpaqueMetadata(o) : dynamic_cast<TreeDBM*>(x.db.get())->SetOpaqueMetadata(o);
          x.Expect("metadata", st, Status::SUCCESS);
          opaque = o;
          opaque.resize(width);
          meta("after setting");
        }
        break;
      case 2:
        x.OpReopen();
        meta("after reopening");
        break;
      default:
        x.OpClear();
        meta("after clearing");
    }
  }
  Finish(x);
  c.NonTrivial(x.updates >= 3 && rebuilds >= 1);
  c.Tag("rebuilds", rebuilds);
}

VT_SUITE(poly_shard) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  if (c.Chance(2, 3)) s.shards = c.Range(1, 5); else s.poly = true;
  GenTuning(c, &s);
  int avg, max;
  Lengths(c, &avg, &max);
  // LZMA takes milliseconds for each record.
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  Start(x);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::WALK] = 6; w[Ctx::ITERATE] = 4; w[Ctx::REOPEN] = 3; w[Ctx::CMPEXMULTI] = 3;
  w[Ctx::REKEY] = 3; w[Ctx::MULTI] = 3; w[Ctx::BULK] = 3;
  RunHistory(x, w, avg, max);
  Finish(x);
  if (s.shards > 0) c.Tag("shards");
}

// ------------------------------------------------------------------ D05: LRU deletion of the cache

namespace {

struct LruModel {
  typedef std::list<std::pair<std::string, std::string>> List;  // the front is the least recently used
  List slots[32];
  int64_t cap_rec, cap_mem;
  int64_t evicted = 0;
  static int Slot(const std::string& key) { return (PrimaryHash(key, UINT64MAX) & 0xff) % 32; }
  int64_t SlotCapRec() const { return cap_rec / 32 + 1; }
  int64_t SlotCapMem() const { return (cap_mem > 0 ? cap_mem : INT64MAX) / 32 + 1; }
  int64_t Usage(const List& l) const {
    int64_t u = (int64_t)GetHashBucketSize((int32_t)(SlotCapRec() * 1.2)) * 8;
    for (const auto& r : l) u += 34 + r.first.size() + r.second.size();
    return u;
  }
  List::iterator Find(const std::string& key) {
    List& l = slots[Slot(key)];
    for (auto it = l.begin(); it != l.end(); ++it) if (it->first == key) return it;
    return l.end();
  }
  bool Has(const std::string& key) { return Find(key) != slots[Slot(key)].end(); }
  void Touch(const std::string& key) {
    List& l = slots[Slot(key)];
    auto it = Find(key);
    if (it != l.end()) l.splice(l.end(), l, it);
  }
  // Deletes the least recently used ones as long as a capacity is exceeded.
  void Shrink(List& l, size_t keep) {
    while (l.size() > keep && ((int64_t)l.size() > SlotCapRec() || Usage(l) > SlotCapMem())) {
      l.pop_front();
      evicted++;
    }
  }
  void Set(const std::string& key, const std::string& value) {
    List& l = slots[Slot(key)];
    auto it = Find(key);
    if (it == l.end()) {
      l.emplace_back(key, value);
      Shrink(l, 0);
    } else {
      it->second = value;
      l.splice(l.end(), l, it);
      Shrink(l, 0);
    }
  }
  void Remove(const std::string& key) {
    List& l = slots[Slot(key)];
    auto it = Find(key);
    if (it != l.end()) l.erase(it);
  }
  size_t Count() const {
    size_t n = 0;
    for (const auto& l : slots) n += l.size();
    return n;
  }
};

}  // namespace

VT_SUITE(cache_lru) {
  Spec s;
  s.kind = CACHE;
  GenFile(c, &s);
  LruModel m;
  auto gen_rec = [&]() { return c.PickOf<int64_t>({31, 1, 64, 95, 100, 200, 320, 1000}); };
  auto gen_mem = [&](int64_t rec) {
    // The arrays of the buckets take memory too.
    const int64_t base = (int64_t)GetHashBucketSize((int32_t)((rec / 32 + 1) * 1.2)) * 8;
    return c.Chance(1, 2) ? -1 : 32 * (base + (int64_t)c.PickOf<int64_t>({100, 40, 60, 200, 500, 3000}) + (int64_t)c.Draw(40));
  };
  m.cap_rec = s.cap_rec = gen_rec();
  m.cap_mem = s.cap_mem = gen_mem(s.cap_rec);
  const std::string path = c.Chance(2, 3) ? c.dir + "/db.tkmc" : "";
  auto db = std::make_unique<CacheDBM>(MakeFile(s), s.cap_rec, s.cap_mem);
  c.Log("spec: %s", s.Str().c_str());
  if (!path.empty()) VT_CHECK(c, "open", db->Open(path, true) == Status::SUCCESS, "open");
  // Keys of few slots.
  std::vector<std::string> keys;
  const int num_slots = c.PickOf({2, 1, 4, 32});
  const size_t pool = c.PickOf({12, 4, 30, 80});
  const int style = c.Draw(3);
  for (int i = 0; keys.size() < pool && i < 3000; i++) {
    const std::string k = style == 0 ? vt::StrF("k%d", i) : style == 1 ? std::string(i % 200, 'x') + vt::StrF("%d", i) : vt::StrF("%c%d", i % 256, i);
    if (LruModel::Slot(k) < num_slots) keys.push_back(k);
  }
  if (c.Chance(1, 5)) keys.push_back("");
  const size_t maxv = c.PickOf<size_t>({40, 8, 200, 1000});
  int64_t updates = 0;
  auto check = [&](const char* when) {
    const int64_t count = db->CountSimple();
    VT_CHECK(c, "count", count == (int64_t)m.Count(), "%s: %lld records, expected %zu [%s]", when, (long long)count,
             m.Count(), s.Str().c_str());
    VT_CHECK(c, "capacity", count <= m.cap_rec + 32, "%s: %lld records with the capacity %lld", when, (long long)count,
             (long long)m.cap_rec);
    int64_t eff = 0, usage = 0;
    bool single = false;
    for (const auto& l : m.slots) {
      for (const auto& r : l) eff += r.first.size() + r.second.size();
      usage += m.Usage(l);
      single |= l.size() <= 1 && m.Usage(l) > m.SlotCapMem();
    }
    VT_CHECK(c, "eff-size", db->GetEffectiveDataSize() == eff, "%s: effective data size %lld, expected %lld [%s]", when,
             (long long)db->GetEffectiveDataSize(), (long long)eff, s.Str().c_str());
    if (m.cap_mem > 0 && !single) {
      VT_CHECK(c, "capacity", db->GetMemoryUsage() <= m.cap_mem + 32, "%s: memory usage %lld with the capacity %lld", when,
               (long long)db->GetMemoryUsage(), (long long)m.cap_mem);
    }
    // Reading through ProcessEach does not change the order.
    struct Each : public DBM::RecordProcessor {
      std::map<std::string, std::string> got;
      int n = 0;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override {
        got[std::string(k)] = v;
        n++;
        return NOOP;
      }
    } each;
    db->ProcessEach(&each, false);
    VT_CHECK(c, "content", each.n == (int)each.got.size(), "%s: a record is visited twice", when);
    for (const auto& l : m.slots) {
      for (const auto& r : l) {
        auto it = each.got.find(r.first);
        VT_CHECK(c, "lost", it != each.got.end(), "%s: the record %s must be retained [%s]", when, vt::Esc(r.first).c_str(),
                 s.Str().c_str());
        VT_CHECK(c, "content", it->second == r.second, "%s: record %s is %s, expected %s [%s]", when,
                 vt::Esc(r.first).c_str(), vt::Esc(it->second).c_str(), vt::Esc(r.second).c_str(), s.Str().c_str());
        each.got.erase(it);
      }
    }
    VT_CHECK(c, "retained", each.got.empty(), "%s: the record %s must be gone [%s]", when,
             each.got.empty() ? "" : vt::Esc(each.got.begin()->first).c_str(), s.Str().c_str());
  };
  int avg, max;
  Lengths(c, &avg, &max);
  if (avg < 40) avg = 40;
  for (int i = 0; c.More(i, avg, max); i++) {
    Case::Span span(c);
    auto key = [&]() { return keys[c.Draw(keys.size())]; };
    auto value = [&]() { return std::string(c.Size(maxv), 'a' + i % 26); };
    switch (c.Weighted({20, 10, 4, 3, 4, 2, 2, 2, 1, 1, 1, 1})) {
      case 0: {
        const std::string k = key(), v = value();
        const bool ow = !c.Chance(1, 5);
        c.Log("Set(%s, %zu, ow=%d)", vt::Esc(k).c_str(), v.size(), ow);
        const bool had = m.Has(k);
        const Status st = db->Set(k, v, ow);
        VT_CHECK(c, "set", st == (had && !ow ? Status::DUPLICATION_ERROR : Status::SUCCESS), "Set: %s", ToString(st).c_str());
        if (had && !ow) m.Touch(k); else m.Set(k, v);
        updates++;
        break;
      }
      case 1: {
        const std::string k = key();
        std::string v;
        c.Log("Get(%s)", vt::Esc(k).c_str());
        const Status st = db->Get(k, &v);
        VT_CHECK(c, "get", st == (m.Has(k) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Get(%s): %s [%s]",
                 vt::Esc(k).c_str(), ToString(st).c_str(), s.Str().c_str());
        if (m.Has(k)) VT_CHECK(c, "get", v == m.Find(k)->second, "Get(%s)", vt::Esc(k).c_str());
        m.Touch(k);
        break;
      }
      case 2: {
        const std::string k = key();
        c.Log("Remove(%s)", vt::Esc(k).c_str());
        VT_CHECK(c, "remove", db->Remove(k) == (m.Has(k) ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "Remove");
        m.Remove(k);
        updates++;
        break;
      }
      case 3: {
        const std::string k = key(), v = value();
        c.Log("Append(%s, %zu)", vt::Esc(k).c_str(), v.size());
        VT_CHECK(c, "append", db->Append(k, v, ",") == Status::SUCCESS, "Append");
        m.Set(k, m.Has(k) ? m.Find(k)->second + "," + v : v);
        updates++;
        break;
      }
      case 4: {  // several records in order
        const int n = 1 + c.Draw(5);
        std::vector<std::string> ks(n);
        std::vector<Ctx::Proc> procs(n);
        std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pairs;
        for (int j = 0; j < n; j++) {
          ks[j] = key();
          procs[j].act.kind = c.Weighted({2, 2, 4});
          procs[j].act.value = value();
          pairs.emplace_back(ks[j], &procs[j]);
          c.Log("  multi %s act=%d %zu", vt::Esc(ks[j]).c_str(), procs[j].act.kind, procs[j].act.value.size());
        }
        c.Log("ProcessMulti(n=%d)", n);
        db->ProcessMulti(pairs, true);
        for (int j = 0; j < n; j++) {
          VT_CHECK(c, "multi", procs[j].full == m.Has(ks[j]), "ProcessMulti: record %s: full=%d [%s]", vt::Esc(ks[j]).c_str(),
                   procs[j].full, s.Str().c_str());
          m.Touch(ks[j]);
          if (procs[j].act.kind == 1) m.Remove(ks[j]);
          if (procs[j].act.kind == 2) m.Set(ks[j], procs[j].act.value);
        }
        updates++;
        break;
      }
      case 5: {
        c.Log("traverse by an iterator");
        auto iter = db->MakeIterator();
        iter->First();
        std::string k;
        std::vector<std::string> order;
        while (iter->Get(&k) == Status::SUCCESS) {
          order.push_back(k);
          iter->Next();
        }
        std::vector<std::string> want;
        for (auto& l : m.slots) for (auto& r : l) want.push_back(r.first);
        std::sort(order.begin(), order.end());
        std::sort(want.begin(), want.end());
        VT_CHECK(c, "iterate", order == want, "iterator: %zu records, expected %zu", order.size(), want.size());
        break;  // each record was touched in its order
      }
      case 6: {
        std::string k, v;
        c.Log("PopFirst");
        const Status st = db->PopFirst(&k, &v);
        VT_CHECK(c, "pop", st == (m.Count() ? Status::SUCCESS : Status::NOT_FOUND_ERROR), "PopFirst: %s", ToString(st).c_str());
        if (m.Count()) {
          VT_CHECK(c, "pop", m.Has(k) && m.Find(k)->second == v, "PopFirst: %s", vt::Esc(k).c_str());
          m.Remove(k);
        }
        break;
      }
      case 7: {
        Ctx::Proc p;
        p.act.kind = c.Weighted({2, 0, 3});
        p.act.value = value();
        const bool w = p.act.kind != 0;
        c.Log("ProcessFirst(w=%d)", w);
        db->ProcessFirst(&p, w);
        if (p.calls && w) {
          m.Touch(p.key);
          m.Set(p.key, p.act.value);
        }
        break;
      }
      case 8: {
        c.Log("ProcessEach(writable)");
        struct Each : public DBM::RecordProcessor {
          std::string v;
          std::string_view ProcessFull(std::string_view k, std::string_view) override { return k.size() % 3 == 0 ? std::string_view(v) : k.size() % 3 == 1 ? NOOP : k.size() % 7 == 0 ? REMOVE : NOOP; }
        } each;
        each.v = value();
        db->ProcessEach(&each, true);
        for (auto& l : m.slots) {
          std::vector<std::string> ks;
          for (auto& r : l) ks.push_back(r.first);
          for (auto& k : ks) {
            if (!m.Has(k)) continue;
            m.Touch(k);
            if (k.size() % 3 == 0) m.Set(k, each.v);
            else if (k.size() % 3 == 2 && k.size() % 7 == 0) m.Remove(k);
          }
        }
        updates++;
        break;
      }
      case 9: {
        if (!c.Chance(1, 3)) {
          m.cap_rec = s.cap_rec = gen_rec();
          const int64_t mem = gen_mem(s.cap_rec);
          if (mem > 0) m.cap_mem = s.cap_mem = mem;
        }
        c.Log("Rebuild(%lld, %lld)", (long long)s.cap_rec, (long long)s.cap_mem);
        VT_CHECK(c, "rebuild", db->RebuildAdvanced(s.cap_rec, s.cap_mem) == Status::SUCCESS, "Rebuild");
        for (auto& l : m.slots) m.Shrink(l, 0);
        check("after Rebuild");
        c.Tag("rebuild");
        break;
      }
      case 10: {
        if (path.empty()) break;
        c.Log("reopen");
        const std::string p = path;
        VT_CHECK(c, "close", db->Close() == Status::SUCCESS, "Close");
        if (c.Bool()) {
          GenFile(c, &s, false);
          db = std::make_unique<CacheDBM>(MakeFile(s), s.cap_rec, s.cap_mem);
        }
        VT_CHECK(c, "open", db->Open(p, true) == Status::SUCCESS, "Open");
        c.Tag("reopen");
        break;
      }
      default:
        check("inside");
    }
  }
  check("at the end");
  if (!path.empty()) VT_CHECK(c, "close", db->Close() == Status::SUCCESS, "Close");
  c.NonTrivial(updates >= 3 && m.evicted > 0);
  c.Tag("evicted", m.evicted);
}

// ------------------------------------------------------------------ D08: iterators under updates

VT_SUITE(iter_update) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  const int wrap = c.Weighted({5, 1, 2});
  if (wrap == 1) s.poly = true;
  if (wrap == 2) s.shards = c.Range(1, 4);
  GenTuning(c, &s);
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) s.tp.record_comp_mode = HashDBM::RECORD_COMP_ZLIB;
  if (s.kind == STDHASH) s.num_buckets = 1000;  // rehashing invalidates the iterators
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  Start(x);
  x.kg.pool = c.PickOf({30, 8, 100, 200});
  x.max_value = 60;
  const KeyLess less{Comparator(s.comp)};
  std::map<std::string, std::set<std::string>, KeyLess> ever(less);
  auto note = [&](const std::string& k) { auto it = x.model.find(k); if (it != x.model.end()) ever[k].insert(it->second); };

  struct Trav {
    std::unique_ptr<DBM::Iterator> iter;
    bool active = false, forward = true, invalid = false, has_last = false;
    bool removal = false;  // a record was removed since the last visit
    std::string last;
    std::set<std::string> touched, seen, start;  // by the bytes of the stored keys
    int64_t steps = 0;
  };
  std::vector<Trav> travs(1 + c.Draw(3));
  auto touch = [&](const std::string& k, Trav* except = nullptr) {
    for (auto& t : travs) {
      t.touched.insert(k);
      t.removal = true;
    }
    (void)except;
  };
  auto stored = [&](const std::string& k) { auto it = x.model.find(k); return it == x.model.end() ? k : it->first; };
  // Compares the current record.  Returns false if there is no record.
  auto get = [&](Trav& t, std::string* key) {
    std::string value = "*";
    const Status st = t.iter->Get(key, &value);
    c.Log("it%d.Get -> %s %s", (int)(&t - travs.data()), ToString(st).c_str(), vt::Esc(*key).c_str());
    if (st == Status::NOT_FOUND_ERROR) return false;
    VT_CHECK(c, "iter-get", st == Status::SUCCESS, "iterator: %s [%s]", ToString(st).c_str(), s.Str().c_str());
    auto e = ever.find(*key);
    VT_CHECK(c, "iter-ghost", e != ever.end() && e->second.count(value), "iterator: record %s with value %s never existed [%s]",
             vt::Esc(*key).c_str(), vt::Esc(value).c_str(), s.Str().c_str());
    // Shards are merged by copies of the current records.
    if (s.shards == 0 || !t.touched.count(*key)) {
      auto it = x.model.find(*key);
      VT_CHECK(c, "iter-stale", it != x.model.end(), "iterator: record %s was removed before [%s]", vt::Esc(*key).c_str(), s.Str().c_str());
      VT_CHECK(c, "iter-stale", it->second == value, "iterator: record %s has %s, expected %s [%s]", vt::Esc(*key).c_str(),
               vt::Esc(value).c_str(), vt::Esc(it->second).c_str(), s.Str().c_str());
    }
    return true;
  };
  auto visit = [&](Trav& t, const std::string& key) {
    if (t.has_last && s.ordered() && !t.invalid && (t.forward || !t.removal)) {
      const bool ok = t.forward ? !less(key, t.last) : !less(t.last, key);
      VT_CHECK(c, "iter-backwards", ok, "iterator: %s after %s [%s]", vt::Esc(key).c_str(), vt::Esc(t.last).c_str(), s.Str().c_str());
    }
    // If the current record is removed, the position is the next one, which was visited just before if backwards.
    const bool again = !t.forward && t.removal;
    t.removal = false;
    VT_CHECK(c, "iter-twice", again || t.touched.count(key) || t.invalid || !t.seen.count(key), "iterator: %s is visited twice [%s]",
             vt::Esc(key).c_str(), s.Str().c_str());
    t.seen.insert(key);
    t.last = key;
    t.has_last = true;
  };
  auto finish = [&](Trav& t) {
    t.active = false;
    if (t.invalid) return;
    for (const auto& k : t.start) {
      if (t.touched.count(k)) continue;
      VT_CHECK(c, "iter-missed", t.seen.count(k), "iterator: the untouched record %s is not visited [%s]", vt::Esc(k).c_str(),
               s.Str().c_str());
    }
    c.Tag("finished-traversals");
  };
  // One step of a traversal: reads the current record, may change it, and moves.
  auto advance = [&](Trav& t, bool plain) {
    std::string key;
    const bool has = get(t, &key);
    bool moved = false;
    if (has) {
      visit(t, key);
      const int act = plain ? 0 : c.Weighted({8, 2, 2, 2});
      if (act == 1 || act == 2) {
        // Shards have copies of the current records, and rebuilt databases have cancelled the iterators.
        const bool gone = x.model.find(key) == x.model.end();
        const bool loose = t.invalid || (s.shards > 0 && t.touched.count(key));
        if (act == 1) {
          const Status st = t.iter->Remove();
          c.Log("it.Remove -> %s", ToString(st).c_str());
          if (loose && st == Status::NOT_FOUND_ERROR) {
          } else if (!gone) {
            VT_CHECK(c, "iter-remove", st == Status::SUCCESS, "iterator: Remove: %s [%s]", ToString(st).c_str(), s.Str().c_str());
            touch(key);
            x.model.erase(key);
            x.updates++;
            moved = true;
          } else if (st == Status::SUCCESS) {
            c.Fail("iter-remove", "iterator: removed a record which did not exist [%s]", s.Str().c_str());
          }
        } else {
          const std::string v = x.Value();
          c.Log("it.Set(%s)", vt::Esc(v).c_str());
          const Status st = t.iter->Set(v);
          if (loose && st == Status::NOT_FOUND_ERROR) {
          } else if (!gone) {
            VT_CHECK(c, "iter-set", st == Status::SUCCESS, "iterator: Set: %s [%s]", ToString(st).c_str(), s.Str().c_str());
            touch(key);
            x.model[key] = v;
            note(key);
            x.updates++;
          } else if (st == Status::SUCCESS) {
            c.Fail("iter-set", "iterator: set a record which did not exist [%s]", s.Str().c_str());
          }
        }
      } else if (act == 3) {  // the current record is removed in the other way
        touch(stored(key));
        x.OpRemove(key, false);
        // Some iterators are at the next record now, and the others at the removed one.
        return;
      }
    }
    // If the last records are removed, the position is after the last one, from where there is no previous one.
    if (!has && !t.forward && t.removal) t.invalid = true;
    if (moved && !t.forward) {  // the iterator is after the removed one
      // Backwards, the position after a removal is the record after it: continue from there.
      const Status st = t.iter->Previous();
      if (st != Status::SUCCESS) {
        VT_CHECK(c, "iter-move", st == Status::NOT_FOUND_ERROR, "iterator: Previous: %s", ToString(st).c_str());
        // The removed one was the last: the traversal cannot go on.
        t.invalid = true;
        finish(t);
      }
      return;
    }
    if (moved) return;
    const Status st = t.forward ? t.iter->Next() : t.iter->Previous();
    c.Log("it.%s -> %s", t.forward ? "Next" : "Previous", ToString(st).c_str());
    VT_CHECK(c, "iter-move", st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "iterator: move: %s", ToString(st).c_str());
    if (st == Status::NOT_FOUND_ERROR) finish(t);
    t.steps++;
    VT_CHECK(c, "iter-endless", t.steps < 20000, "iterator: the traversal does not end [%s]", s.Str().c_str());
  };
  int avg, max;
  Lengths(c, &avg, &max);
  if (avg < 60) avg = 60;
  for (int i = 0; c.More(i, avg, max); i++) {
    Case::Span span(c);
    x.steps++;
    switch (c.Weighted({10, 4, 4, 2, 1, 1})) {
      case 0: {
        Trav& t = travs[c.Draw(travs.size())];
        if (!t.active) {
          if (t.iter == nullptr || c.Chance(1, 4)) t.iter = x.db->MakeIterator();
          std::unique_ptr<DBM::Iterator> iter = std::move(t.iter);
          t = Trav();
          t.iter = std::move(iter);
          t.active = true;
          t.forward = !s.ordered() || !c.Chance(1, 4);
          c.Log("it%d.%s", (int)(&t - travs.data()), t.forward ? "First" : "Last");
          const Status st = t.forward ? t.iter->First() : t.iter->Last();
          VT_CHECK(c, "iter-first", st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "First: %s", ToString(st).c_str());
          for (const auto& r : x.model) t.start.insert(r.first);
        } else {
          for (int n = 1 + c.Draw(4); n > 0 && t.active; n--) advance(t, false);
        }
        break;
      }
      case 1: {
        const std::string k = c.Bool() ? x.Key() : x.LiveKey();
        const std::string v = x.Value();
        touch(stored(k));
        x.OpSet(k, v, true, false);
        note(k);
        break;
      }
      case 2: {
        const std::string k = x.LiveKey();
        touch(stored(k));
        x.OpRemove(k, false);
        break;
      }
      case 3: {  // many
        const int begin = c.Draw(x.kg.pool), n = 1 + c.Draw(x.kg.pool);
        const bool rem = c.Bool();
        c.Log("bulk %s [%d, +%d)", rem ? "remove" : "set", begin, n);
        for (int j = 0; j < n; j++) {
          const std::string k = x.kg.Make((begin + j) % x.kg.pool);
          touch(stored(k));
          if (rem) {
            x.db->Remove(k);
            x.model.erase(k);
          } else {
            x.Expect("set", x.db->Set(k, "bulk"), Status::SUCCESS);
            x.model[k] = "bulk";
            note(k);
          }
          x.updates++;
        }
        break;
      }
      case 4: {
        const int kind = c.Weighted({4, 1, 1, 1});
        if (kind == 0) {
          x.OpSync();
        } else if (kind == 1) {
          for (auto& t : travs) t.invalid = true;
          x.OpRebuild();
        } else if (kind == 2) {
          for (auto& t : travs) t.invalid = true;
          for (const auto& r : x.model) touch(r.first);
          x.OpClear();
        } else {  // closed and opened again, with the iterators kept
          if (s.shards > 0) break;  // they hold iterators of destroyed databases
          for (auto& t : travs) t.invalid = true;
          if (s.poly) for (auto& t : travs) { t.iter.reset(); t.active = false; }
          x.Close();
          for (auto& t : travs) {
            if (t.iter == nullptr) continue;
            std::string k;
            const Status st = t.iter->Get(&k);
            VT_CHECK(c, "iter-closed", st != Status::SUCCESS, "iterator: Get of a closed database: %s", ToString(st).c_str());
            t.iter->Next();
          }
          c.Log("reopen");
          x.Open(true);
        }
        break;
      }
      default: {
        if (!x.model.empty() && c.Chance(1, 4)) {
          x.OpPopFirst();
          for (auto& t : travs) t.removal = true;
        }
        x.OpCount();
      }
    }
    if (x.model.size() > ever.size()) for (const auto& r : x.model) note(r.first);
    // PopFirst and others may have removed records.
    for (auto& t : travs)
      if (t.active)
        for (const auto& k : t.start) if (x.model.find(k) == x.model.end()) t.touched.insert(k);
  }
  // The updates stop: all traversals end.
  for (auto& t : travs) {
    if (t.iter == nullptr) continue;
    c.Log("run out");
    while (t.active) advance(t, true);
  }
  travs.clear();
  Finish(x);
}
