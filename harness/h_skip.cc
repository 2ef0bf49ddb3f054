// SkipDBM against a stable sort with reduction: D03.
#include "dbm_model.h"

using namespace m;
using vt::Case;

namespace {

typedef std::vector<std::pair<std::string, std::string>> List;

struct Upd {
  std::string key, value;
  bool remove = false;
};

const char* kReducers[] = {"", "ReduceRemove", "ReduceToFirst", "ReduceToSecond", "ReduceToLast",
                           "ReduceConcat", "ReduceConcatWithNull", "ReduceConcatWithTab",
                           "ReduceConcatWithLine", "ReduceToTotal", "ReduceToTotalBigEndian"};
SkipDBM::ReducerType Reducer(int i) {
  switch (i) {
    case 1: return SkipDBM::ReduceRemove;
    case 2: return SkipDBM::ReduceToFirst;
    case 3: return SkipDBM::ReduceToSecond;
    case 4: return SkipDBM::ReduceToLast;
    case 5: return SkipDBM::ReduceConcat;
    case 6: return SkipDBM::ReduceConcatWithNull;
    case 7: return SkipDBM::ReduceConcatWithTab;
    case 8: return SkipDBM::ReduceConcatWithLine;
    case 9: return SkipDBM::ReduceToTotal;
    case 10: return SkipDBM::ReduceToTotalBigEndian;
  }
  return nullptr;
}

std::string RefJoin(const std::vector<std::string>& v, const std::string& d) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) { if (i) s += d; s += v[i]; }
  return s;
}

std::vector<std::string> RefReduce(int r, const std::vector<std::string>& v) {
  switch (r) {
    case 2: return {v.front()};
    case 3: return {v.size() > 1 ? v[1] : v[0]};
    case 4: return {v.back()};
    case 5: return {RefJoin(v, "")};
    case 6: return {RefJoin(v, std::string(1, 0))};
    case 7: return {RefJoin(v, "\t")};
    case 8: return {RefJoin(v, "\n")};
    case 9: {
      int64_t n = 0;
      for (const auto& x : v) n += std::strtoll(x.c_str(), nullptr, 10);
      return {std::to_string(n)};
    }
    case 10: {
      uint64_t n = 0;
      for (const auto& x : v) n += Ctx::StrToIntBigEndian(x);
      return {Ctx::BE8((int64_t)n)};
    }
  }
  return v;
}

struct Skip {
  Case& c;
  Spec spec;
  SkipDBM::TuningParameters tp;
  std::string path;
  std::unique_ptr<DBM> db;  // SkipDBM or PolyDBM
  bool poly = false;
  KeyGen kg;
  int value_style = 0;
  List base;
  std::vector<List> merged;
  std::vector<Upd> pending;
  std::string last_key;  // for the ascending mode
  bool dirty = false;
  int64_t updates = 0, syncs = 0, steps = 0, merges = 0;

  explicit Skip(Case& c_) : c(c_) {}

  SkipDBM* skip() {
    return dynamic_cast<SkipDBM*>(poly ? dynamic_cast<PolyDBM*>(db.get())->GetInternalDBM() : db.get());
  }
  void GenOpenParams(bool first) {
    GenFile(c, &spec, first);
    tp.sort_mem_size = c.PickOf<int64_t>({-1, 1024, 1024, 3000, 20000});
    tp.insert_in_order = c.Chance(1, 4);
    tp.max_cached_records = c.PickOf<int>({-1, 1, 2, 5, 100});
  }
  std::string Str() {
    return vt::StrF("skip%s file=%s block=%d init=%d offw=%d step=%d level=%d mem=%d inorder=%d cache=%d",
                    poly ? " poly" : "", FileName(spec.file), (int)spec.block_size,
                    (int)spec.init_size, tp.offset_width, tp.step_unit, tp.max_level,
                    (int)tp.sort_mem_size, tp.insert_in_order, tp.max_cached_records);
  }
  void Check(const char* op, const Status& st, Status::Code want) {
    VT_CHECK(c, op, st == want, "%s: status %s, expected %s [%s]", op, ToString(st).c_str(),
             Status::CodeName(want), Str().c_str());
  }
  void Open(bool writable) {
    Status st;
    if (poly) {
      db = std::make_unique<PolyDBM>();
      std::map<std::string, std::string> p = PolyParams(spec);
      if (tp.offset_width >= 0) p["offset_width"] = ToString(tp.offset_width);
      if (tp.step_unit >= 0) p["step_unit"] = ToString(tp.step_unit);
      if (tp.max_level >= 0) p["max_level"] = ToString(tp.max_level);
      if (tp.sort_mem_size >= 0) p["sort_mem_size"] = ToString(tp.sort_mem_size);
      if (tp.max_cached_records >= 0) p["max_cached_records"] = ToString(tp.max_cached_records);
      p["insert_in_order"] = tp.insert_in_order ? "true" : "false";
      st = dynamic_cast<PolyDBM*>(db.get())->OpenAdvanced(path, writable, File::OPEN_DEFAULT, p);
    } else {
      db = std::make_unique<SkipDBM>(MakeFile(spec));
      st = dynamic_cast<SkipDBM*>(db.get())->OpenAdvanced(path, writable, File::OPEN_DEFAULT, tp);
    }
    Check("open", st, Status::SUCCESS);
    last_key.clear();
  }
  List::iterator Lower(const std::string& key) {
    return std::lower_bound(base.begin(), base.end(), key,
                            [](const auto& a, const std::string& k) { return a.first < k; });
  }
  List::iterator Upper(const std::string& key) {
    return std::upper_bound(base.begin(), base.end(), key,
                            [](const std::string& k, const auto& a) { return k < a.first; });
  }
  bool Has(const std::string& key) {
    auto it = Lower(key);
    return it != base.end() && it->first == key;
  }
  std::string Key() {
    if (!base.empty() && c.Bool()) return base[c.Draw(base.size())].first;
    return kg(c);
  }
  // A key for an update: in the ascending mode not less than the one before.
  std::string UpdKey() {
    std::string k = Key();
    if (tp.insert_in_order && k < last_key) k = last_key;
    if (tp.insert_in_order) last_key = k;
    return k;
  }
  bool UpdKeyOk(const std::string& k) {
    if (!tp.insert_in_order) return true;
    if (k < last_key) return false;
    last_key = k;
    return true;
  }
  std::string Value() {
    switch (value_style) {
      case 1: return vt::StrF("%d", (int)c.Range(-1000, 1000));
      case 2: return Ctx::BE8((int64_t)c.Draw(1 << 20) - 1000);
      default: return GenValue(c, 1200);
    }
  }
  void Pend(const std::string& k, const std::string& v, bool remove = false) {
    pending.push_back({k, v, remove});
    dirty = true;
    updates++;
  }
  // The amount of ordered insertions, which are counted before they are visible.
  int64_t InOrder(bool bytes) {
    int64_t n = 0;
    if (tp.insert_in_order)
      for (const auto& u : pending) n += bytes ? u.key.size() + u.value.size() + 32 : 1;  // with the removal mark
    return n;
  }
  // What a synchronization makes of the pending updates.
  void Apply(int reducer) {
    std::map<std::string, std::vector<std::pair<bool, std::string>>> all;
    for (const auto& r : base) all[r.first].emplace_back(false, r.second);
    for (const auto& l : merged) for (const auto& r : l) all[r.first].emplace_back(false, r.second);
    for (const auto& u : pending) all[u.key].emplace_back(u.remove, u.value);
    base.clear();
    for (const auto& g : all) {
      std::vector<std::string> live;
      for (const auto& v : g.second) { if (v.first) live.clear(); else live.push_back(v.second); }
      if (live.empty()) continue;
      for (const auto& v : RefReduce(reducer, live)) base.emplace_back(g.first, v);
    }
    merged.clear();
    pending.clear();
    last_key.clear();
    dirty = false;
    syncs++;
  }
  void Pos(DBM::Iterator* it, int64_t index, const char* op) {
    std::string k = "*", v = "*";
    const Status st = it->Get(&k, &v);
    if (index < 0 || index >= (int64_t)base.size()) {
      VT_CHECK(c, op, st == Status::NOT_FOUND_ERROR, "%s: expected the end, but got %s %s [%s]", op,
               ToString(st).c_str(), vt::Esc(k).c_str(), Str().c_str());
    } else {
      VT_CHECK(c, op, st == Status::SUCCESS && k == base[index].first && v == base[index].second,
               "%s: expected record %d %s=%s, but got %s %s=%s [%s]", op, (int)index,
               vt::Esc(base[index].first).c_str(), vt::Esc(base[index].second).c_str(),
               ToString(st).c_str(), vt::Esc(k).c_str(), vt::Esc(v).c_str(), Str().c_str());
    }
  }
  void FullCheck() {
    int64_t n = -1;
    Check("count", db->Count(&n), Status::SUCCESS);
    VT_CHECK(c, "count", n >= (int64_t)base.size() && n <= (int64_t)base.size() + InOrder(false), "Count %d, expected %zu [%s]", (int)n, base.size(),
             Str().c_str());
    auto it = db->MakeIterator();
    Check("first", it->First(), Status::SUCCESS);
    for (size_t i = 0; i <= base.size(); i++) {
      Pos(it.get(), i, "forward");
      Check("next", it->Next(), i < base.size() ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
    }
    Check("last", it->Last(), Status::SUCCESS);
    for (int64_t i = (int64_t)base.size() - 1; i >= 0; i--) {
      Pos(it.get(), i, "backward");
      Check("previous", it->Previous(), Status::SUCCESS);
    }
    Pos(it.get(), -1, "backward");
    for (size_t i = 0; i < base.size(); i++) {
      if (i > 0 && base[i].first == base[i - 1].first) continue;
      std::string v = "*";
      Check("get", db->Get(base[i].first, &v), Status::SUCCESS);
      VT_CHECK(c, "get", v == base[i].second, "Get(%s): %s, expected %s [%s]",
               vt::Esc(base[i].first).c_str(), vt::Esc(v).c_str(), vt::Esc(base[i].second).c_str(),
               Str().c_str());
      std::string k = "*";
      v = "*";
      Check("get-by-index", skip()->GetByIndex(i, &k, &v), Status::SUCCESS);
      VT_CHECK(c, "get-by-index", k == base[i].first && v == base[i].second,
               "GetByIndex(%zu): %s=%s [%s]", i, vt::Esc(k).c_str(), vt::Esc(v).c_str(), Str().c_str());
    }
    Check("get-by-index", skip()->GetByIndex(base.size()), Status::NOT_FOUND_ERROR);
    struct Each : public DBM::RecordProcessor {
      List list;
      int empty = 0;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override {
        list.emplace_back(std::string(k), std::string(v));
        return NOOP;
      }
      std::string_view ProcessEmpty(std::string_view) override { empty++; return NOOP; }
    } each;
    Check("process-each", db->ProcessEach(&each, db->IsWritable() && c.Bool()), Status::SUCCESS);
    VT_CHECK(c, "process-each", each.list == base && each.empty == 2,
             "ProcessEach: %zu records, expected %zu, %d calls of ProcessEmpty [%s]",
             each.list.size(), base.size(), each.empty, Str().c_str());
    int64_t eff = 0;
    for (const auto& r : base) eff += r.first.size() + r.second.size();
    const int64_t got_eff = skip()->GetEffectiveDataSize();
    VT_CHECK(c, "effective-size", got_eff >= eff && got_eff <= eff + InOrder(true),
             "effective data size %lld, expected %lld [%s]", (long long)got_eff,
             (long long)eff, Str().c_str());
    Check("validate", skip()->ValidateRecords(), Status::SUCCESS);
  }
  void Walk() {
    auto it = db->MakeIterator();
    int64_t pos = -1;
    c.Log("Walk");
    for (int i = 0; c.More(i, 8, 40); i++) {
      vt::Case::Span span(c);
      switch (c.Draw(8)) {
        case 0: Check("first", it->First(), Status::SUCCESS); pos = 0; Pos(it.get(), pos, "first"); break;
        case 1:
          Check("last", it->Last(), Status::SUCCESS);
          pos = (int64_t)base.size() - 1;
          Pos(it.get(), pos, "last");
          break;
        case 2: {
          const std::string k = Key();
          c.Log(" Jump(%s)", vt::Esc(k).c_str());
          Check("jump", it->Jump(k), Status::SUCCESS);
          pos = Lower(k) - base.begin();
          Pos(it.get(), pos, "jump");
          break;
        }
        case 3: {
          const std::string k = Key();
          const bool inc = c.Bool();
          c.Log(" JumpLower(%s, %d)", vt::Esc(k).c_str(), inc);
          Check("jump-lower", it->JumpLower(k, inc), Status::SUCCESS);
          if (inc && Has(k)) {
            // Any record of the key will do.
            std::string gk;
            Check("jump-lower", it->Get(&gk), Status::SUCCESS);
            VT_CHECK(c, "jump-lower", gk == k, "JumpLower(%s): %s", vt::Esc(k).c_str(), vt::Esc(gk).c_str());
            pos = -2;
            if (Upper(k) - Lower(k) == 1) pos = Lower(k) - base.begin();
          } else {
            pos = Lower(k) - base.begin() - 1;
            Pos(it.get(), pos, "jump-lower");
          }
          break;
        }
        case 4: {
          const std::string k = Key();
          const bool inc = c.Bool();
          c.Log(" JumpUpper(%s, %d)", vt::Esc(k).c_str(), inc);
          Check("jump-upper", it->JumpUpper(k, inc), Status::SUCCESS);
          pos = (inc ? Lower(k) : Upper(k)) - base.begin();
          Pos(it.get(), pos, "jump-upper");
          break;
        }
        case 5:
          if (pos == -2) break;
          c.Log(" Next");
          if (pos < 0 || pos >= (int64_t)base.size()) {
            Check("next", it->Next(), Status::NOT_FOUND_ERROR);
          } else {
            Check("next", it->Next(), Status::SUCCESS);
            pos++;
            Pos(it.get(), pos, "next");
          }
          break;
        case 6:
          if (pos == -2) break;
          c.Log(" Previous");
          if (pos < 0 || pos >= (int64_t)base.size()) {
            Check("previous", it->Previous(), Status::NOT_FOUND_ERROR);
          } else {
            Check("previous", it->Previous(), Status::SUCCESS);
            pos--;
            Pos(it.get(), pos, "previous");
          }
          break;
        default: {
          if (pos < 0 || pos >= (int64_t)base.size()) break;
          const std::string k = base[pos].first;
          if (!UpdKeyOk(k)) break;
          if (c.Bool()) {
            const std::string v = Value();
            c.Log(" it.Set");
            Check("iter-set", it->Set(v), Status::SUCCESS);
            Pend(k, v);
            Pos(it.get(), pos, "iter-set");
          } else {
            c.Log(" it.Remove");
            Check("iter-remove", it->Remove(), Status::SUCCESS);
            Pend(k, "", true);
            pos++;
            Pos(it.get(), pos, "iter-remove");
          }
        }
      }
    }
  }
  void Step() {
    vt::Case::Span span(c);
    steps++;
    switch (c.Weighted({12, 4, 3, 2, 4, 3, 3, 2, 2, 2, 1, 2, 1, 2, 1})) {
      case 0: {  // a run of updates
        const int n = 1 + c.Draw(c.thorough ? 200 : 40);
        c.Log("%d updates", n);
        for (int i = 0; i < n; i++) {
          const std::string k = UpdKey();
          const std::string v = i < 8 ? Value() : value_style ? ToString(i * 7) : std::string(i, 'v');
          c.Log(" Set(%s, %s)", vt::Esc(k).c_str(), vt::Esc(v, 16).c_str());
          Check("set", db->Set(k, v), Status::SUCCESS);
          Pend(k, v);
        }
        break;
      }
      case 1: {
        const std::string k = UpdKey();
        c.Log("Remove(%s)", vt::Esc(k).c_str());
        Check("remove", db->Remove(k), Status::SUCCESS);
        Pend(k, "", true);
        break;
      }
      case 2: {
        const std::string k = Key();
        std::string v = "*";
        const Status st = db->Get(k, &v);
        c.Log("Get(%s)", vt::Esc(k).c_str());
        if (Has(k)) {
          Check("get", st, Status::SUCCESS);
          VT_CHECK(c, "get", v == Lower(k)->second, "Get(%s): %s", vt::Esc(k).c_str(), vt::Esc(v).c_str());
        } else {
          Check("get", st, Status::NOT_FOUND_ERROR);
        }
        break;
      }
      case 3: {  // conditional set and removal, with the old value
        const std::string k = UpdKey();
        std::string old = "*";
        const bool has = Has(k);
        if (c.Bool()) {
          const bool ow = c.Bool();
          const std::string v = Value();
          c.Log("Set(%s, ow=%d, old)", vt::Esc(k).c_str(), ow);
          Check("set-old", db->Set(k, v, ow, &old), has && !ow ? Status::DUPLICATION_ERROR : Status::SUCCESS);
          if (!has || ow) Pend(k, v);
        } else {
          c.Log("Remove(%s, old)", vt::Esc(k).c_str());
          Check("remove-old", db->Remove(k, &old), has ? Status::SUCCESS : Status::NOT_FOUND_ERROR);
          if (has) Pend(k, "", true);
        }
        VT_CHECK(c, "old-value", old == (has ? Lower(k)->second : "*"), "old value of %s: %s",
                 vt::Esc(k).c_str(), vt::Esc(old).c_str());
        break;
      }
      case 4: {
        int r = c.Draw(11);
        if (value_style != 1 && r == 9) r = 4;
        auto huge = [](const std::string& v) { return v.size() > 15; };  // would overflow
        bool overflow = false;
        for (const auto& x : base) overflow |= huge(x.second);
        for (const auto& l : merged) for (const auto& x : l) overflow |= huge(x.second);
        if (overflow && r == 9) r = 4;
        if (value_style != 2 && r == 10) r = 2;
        c.Log("Synchronize(%s)", kReducers[r]);
        struct FP : public DBM::FileProcessor {
          int calls = 0;
          void Process(const std::string&) override { calls++; }
        } fp;
        Status st;
        if (poly) {
          std::map<std::string, std::string> p;
          if (r > 0) p["reducer"] = kReducers[r];
          st = dynamic_cast<PolyDBM*>(db.get())->SynchronizeAdvanced(c.Chance(1, 8), &fp, p);
        } else {
          st = skip()->SynchronizeAdvanced(c.Chance(1, 8), &fp, Reducer(r));
        }
        Check("synchronize", st, Status::SUCCESS);
        VT_CHECK(c, "synchronize", fp.calls == 1, "the file processor was called %d times", fp.calls);
        Apply(r);
        VT_CHECK(c, "is-updated", !skip()->IsUpdated(), "updated after a synchronization");
        FullCheck();
        break;
      }
      case 5: c.Log("Check"); FullCheck(); break;
      case 6: Walk(); break;
      case 7: {
        c.Log("Revert");
        Check("revert", skip()->Revert(), Status::SUCCESS);
        merged.clear();
        pending.clear();
        last_key.clear();
        dirty = false;
        VT_CHECK(c, "is-updated", !skip()->IsUpdated(), "updated after a revert");
        FullCheck();
        c.Tag("revert");
        break;
      }
      case 8: {
        db->Close();
        if (dirty) Apply(0);
        db.reset();
        GenOpenParams(false);
        if (c.Chance(1, 3)) {
          c.Log("Reopen read-only [%s]", Str().c_str());
          Open(false);
          FullCheck();
          Check("close", db->Close(), Status::SUCCESS);
        }
        c.Log("Reopen [%s]", Str().c_str());
        Open(true);
        FullCheck();
        c.Tag("reopen");
        break;
      }
      case 9: {  // merging another database
        const std::string src = path + ".src";
        List list;
        {
          SkipDBM other;
          SkipDBM::TuningParameters otp;
          otp.offset_width = c.PickOf({4, 3, 6});
          otp.step_unit = c.PickOf({4, 2, 16});
          otp.max_level = c.PickOf({3, 1, 14});
          Check("src-open", other.OpenAdvanced(src, true, File::OPEN_TRUNCATE, otp), Status::SUCCESS);
          for (int i = 0; c.More(i, 8, 60); i++) list.emplace_back(kg(c), Value());
          for (const auto& r : list) Check("src-set", other.Set(r.first, r.second), Status::SUCCESS);
          std::stable_sort(list.begin(), list.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
          Check("src-close", other.Close(), Status::SUCCESS);
        }
        c.Log("Merge(%zu records)", list.size());
        Check("merge", skip()->MergeSkipDatabase(src), Status::SUCCESS);
        unlink(src.c_str());
        merged.push_back(list);
        dirty = true;
        merges++;
        VT_CHECK(c, "is-updated", skip()->IsUpdated(), "not updated after a merge");
        c.Tag("merge");
        break;
      }
      case 10: {
        c.Log("Clear");
        Check("clear", db->Clear(), Status::SUCCESS);
        base.clear();
        merged.clear();
        pending.clear();
        last_key.clear();
        dirty = false;
        FullCheck();
        break;
      }
      case 11: {
        Spec ns = spec;
        SkipDBM::TuningParameters np;
        np.step_unit = c.PickOf({-1, 2, 3, 16, 64});
        np.max_level = c.PickOf({-1, 1, 2, 5, 32});
        np.offset_width = c.PickOf({-1, 3, 4, 6});
        c.Log("Rebuild(step=%d, level=%d, offw=%d)", np.step_unit, np.max_level, np.offset_width);
        if (poly) {
          std::map<std::string, std::string> p;
          if (np.step_unit > 0) p["step_unit"] = ToString(np.step_unit);
          if (np.max_level > 0) p["max_level"] = ToString(np.max_level);
          if (np.offset_width > 0) p["offset_width"] = ToString(np.offset_width);
          Check("rebuild", dynamic_cast<PolyDBM*>(db.get())->RebuildAdvanced(p), Status::SUCCESS);
        } else {
          Check("rebuild", skip()->RebuildAdvanced(np), Status::SUCCESS);
        }
        if (dirty) Apply(0);
        FullCheck();
        c.Tag("rebuild");
        break;
      }
      case 12: {
        const std::string k = UpdKey();
        const std::string v = Value();
        c.Log("Append(%s)", vt::Esc(k).c_str());
        Check("append", db->Append(k, v, ","), Status::SUCCESS);
        Pend(k, Has(k) ? Lower(k)->second + "," + v : v);
        break;
      }
      case 13: {  // generic processing
        const std::string k = UpdKey();
        Ctx::Proc p;
        p.act.kind = c.Draw(4);
        if (p.act.kind == 2) p.act.value = Value();
        c.Log("Process(%s, act=%d)", vt::Esc(k).c_str(), p.act.kind);
        const bool writable = p.act.kind != 0 || c.Bool();
        if (c.Bool()) {
          Check("process", db->Process(k, &p, writable), Status::SUCCESS);
        } else {
          Check("process-multi", db->ProcessMulti({{k, &p}}, writable), Status::SUCCESS);
        }
        const bool has = Has(k);
        VT_CHECK(c, "process", p.calls == 1 && p.full == has && (!has || p.old == Lower(k)->second),
                 "Process(%s): calls=%d full=%d old=%s [%s]", vt::Esc(k).c_str(), p.calls, p.full,
                 vt::Esc(p.old).c_str(), Str().c_str());
        if (p.act.kind == 1 && has) Pend(k, "", true);
        if (p.act.kind == 2) Pend(k, p.act.value);
        if (p.act.kind == 3 && has) Pend(k, std::string(p.old.rbegin(), p.old.rend()));
        break;
      }
      default: {
        VT_CHECK(c, "is-updated", skip()->IsUpdated() == dirty, "IsUpdated=%d, expected %d",
                 skip()->IsUpdated(), dirty);
        VT_CHECK(c, "is-ordered", db->IsOrdered() && db->IsHealthy() && db->IsWritable(), "flags");
        db->Inspect();
      }
    }
  }
};

}  // namespace

VT_SUITE(skip_sort) {
  Skip x(c);
  x.spec.kind = SKIP;
  x.path = c.dir + "/db.tks";
  x.poly = c.Chance(1, 4);
  x.tp.offset_width = c.PickOf({-1, 3, 4, 5, 6});
  x.tp.step_unit = c.PickOf({-1, 2, 3, 4, 16, 64});
  x.tp.max_level = c.PickOf({-1, 1, 2, 3, 14, 32});
  x.GenOpenParams(true);
  Spec ks;
  x.kg = GenKeyGen(c, ks);
  x.value_style = c.Draw(3);
  c.Log("spec: %s keys: style=%d pool=%d values=%d", x.Str().c_str(), x.kg.style, x.kg.pool, x.value_style);
  x.Open(true);
  const int avg = c.PickOf({12, 4, 30}), max = c.thorough ? 400 : 100;
  for (int i = 0; c.More(i, avg, max); i++) x.Step();
  x.FullCheck();
  x.Check("close", x.db->Close(), Status::SUCCESS);
  if (x.dirty) x.Apply(0);
  x.Open(false);
  x.FullCheck();
  x.Check("close", x.db->Close(), Status::SUCCESS);
  // No temporary file is left.
  std::vector<std::string> names;
  ReadDirectory(c.dir, &names);
  VT_CHECK(c, "leftover", names.size() == 1, "%zu files are left: %s", names.size(),
           StrJoin(names, " ").c_str());
  c.NonTrivial(x.updates >= 3 && x.syncs >= 1);
  c.Tag("syncs", x.syncs);
  c.Tag("updates", x.updates);
}
