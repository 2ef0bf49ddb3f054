// Crash points: R01 (restore to the last synchronization), R02 (default restore), R03 (replacement of
// whole files), R04 (restore to an end offset).
#include <algorithm>

#include "dbm_model.h"
#include "fs.h"

using namespace m;
using vt::Case;

namespace {

typedef std::vector<std::pair<std::string, std::string>> Records;

// Small files, and no fstream (whose writes are not seen).
void GenCrashFile(Case& c, Spec* s) {
  const bool padded = s->kind == HASH || s->kind == TREE || s->kind == SKIP;
  s->file = c.Weighted({4, 2, 3, 2});
  s->block_size = 1;
  s->access = 0;
  if (s->file == F_POS_PARA || s->file == F_POS_ATOM) {
    switch (c.Draw(3)) {
      case 1:
        if (padded) {
          s->block_size = 512;
          s->access = PositionalFile::ACCESS_PADDING | (c.Bool() ? PositionalFile::ACCESS_PAGECACHE : 0);
        }
        break;
      case 2: s->access = PositionalFile::ACCESS_PAGECACHE; break;
      default: break;
    }
  }
  s->init_size = c.PickOf<int64_t>({4096, 1, 8192, 65536});
  s->inc_factor = c.PickOf<double>({1.2, 1.01, 2.0});
  if (c.Chance(1, 20)) s->init_size = 0;
}

Ctx::Weights UpdateWeights() {
  Ctx::Weights w;
  w.fill(0);
  w[Ctx::SET] = 14; w[Ctx::REMOVE] = 7; w[Ctx::APPEND] = 3; w[Ctx::CMPEX] = 1; w[Ctx::INC] = 1;
  w[Ctx::PROCESS] = 4; w[Ctx::PROCMULTI] = 2; w[Ctx::MULTI] = 2; w[Ctx::REKEY] = 1; w[Ctx::GET] = 2;
  w[Ctx::EACH_RW] = 1; w[Ctx::BULK] = 2; w[Ctx::BULKREMOVE] = 1; w[Ctx::WALK] = 1;
  return w;
}

// A step of synchronization: the content at it, and the events during it.
struct Mark {
  size_t begin, end;
  std::string what;
  Map state;
  bool fresh;  // the file is being created: no content is promised until the end
  size_t step = 0;  // number of the steps before the end
};

struct CrashRun {
  Case& c;
  Ctx x;
  std::string dir, dir2, base;
  std::vector<Mark> marks;

  CrashRun(Case& c_, const Spec& s) : c(c_), x(c_, s) {
    dir = c.dir + "/a";
    dir2 = c.dir + "/b";
    base = "db." + s.Ext();
    mkdir(dir.c_str(), 0755);
    x.path = dir + "/" + base;
    x.kg = GenKeyGen(c, s);
    x.kg.pool = std::min(x.kg.pool, 30);
    x.max_value = c.PickOf<size_t>({60, 20, 300, 1500});
    x.cipher_rebuild = true;
    c.Log("spec: %s keys: style=%d pool=%d", s.Str().c_str(), x.kg.style, x.kg.pool);
  }
  bool Buffered() const {
    return (x.spec.file == F_POS_PARA || x.spec.file == F_POS_ATOM) &&
        (x.spec.block_size > 1 || x.spec.tp.cache_buckets > 0);
  }
  void Push(size_t begin, const char* what, bool fresh) {
    // A file of blocks is buffered in the process: a new one is not saved before it is synchronized.
    for (auto& m : marks) if (m.end == SIZE_MAX) m.end = fs::Now();
    marks.push_back({begin, fresh && Buffered() ? SIZE_MAX : fs::Now(), what, x.model, fresh});
    c.Log("  (events %zu..%zu)", begin, fs::Now());
  }
  void Create() {
    fs::Start(dir);
    x.Open(true);
    Push(0, "create", true);
  }
  void CheckRecorder() {
    fs::Replayer r;
    r.To(fs::Now());
    const fs::Files want = fs::Actual(dir), got = r.State();
    if (want == got) return;
    std::string s;
    for (const auto& e : want) {
      auto it = got.find(e.first);
      if (it == got.end()) s += "missing " + e.first + "; ";
      else if (it->second != e.second) {
        size_t i = 0;
        while (i < e.second.size() && i < it->second.size() && e.second[i] == it->second[i]) i++;
        s += vt::StrF("%s: size %zu/%zu, first difference at %zu; ", e.first.c_str(), it->second.size(),
                      e.second.size(), i);
      }
    }
    for (const auto& e : got) if (!want.count(e.first)) s += "extra " + e.first + "; ";
    c.Fail("recorder", "the recorder lost an effect: %s [%s]", s.c_str(), x.spec.Str().c_str());
  }
  // Crash points in ascending order, and the sizes of the torn last writes.
  struct Point { size_t k; uint64_t torn; };
  std::vector<Point> GenPoints(size_t num, bool tear) {
    const size_t n = fs::Now();
    std::vector<Point> points;
    for (size_t i = 0; i < num; i++) {
      vt::Case::Span span(c);
      Point p;
      if (c.Bool() && !marks.empty()) {
        const Mark& m = marks[c.Draw(marks.size())];
        p.k = m.begin + c.Draw(std::min(n, m.end) - m.begin + 2);
      } else {
        p.k = c.Draw(n + 1);
      }
      p.k = std::min(p.k, n);
      p.torn = UINT64_MAX;
      if (tear && c.Bool() && p.k > 0 && fs::At(p.k - 1).type == fs::Event::WRITE) {
        const size_t sz = fs::At(p.k - 1).data.size();
        p.torn = c.Bool() ? c.Draw(sz + 1) : sz - c.Draw(std::min<size_t>(sz, 8) + 1);
      }
      points.push_back(p);
    }
    std::stable_sort(points.begin(), points.end(), [](const Point& a, const Point& b) { return a.k < b.k; });
    return points;
  }
  void LogEvents(size_t from, size_t to) {
    if (!c.tracing) return;
    for (size_t i = from; i < to && i < from + 60; i++) c.Log("    event %zu: %s", i, fs::Describe(fs::At(i)).c_str());
  }
  void Restore(fs::Replayer* r, const Point& p) {
    r->To(p.k);
    mkdir(dir2.c_str(), 0755);
    vt::EmptyDir(dir2);
    fs::Materialize(r->State(p.torn), dir2);
    c.Log("crash at event %zu%s", p.k,
          p.torn == UINT64_MAX ? "" : vt::StrF(" with %zu bytes of the last write", (size_t)p.torn).c_str());
    if (const char* keep = getenv("VT_KEEP")) (void)!system(("cp -r " + dir2 + " " + keep + std::to_string(p.k)).c_str());
    if (p.k > 0) LogEvents(p.k - std::min<size_t>(p.k, 6), p.k);
  }
  // What may be found: the last completed mark, and the one in progress.
  std::vector<const Mark*> Candidates(const Point& p, bool* fresh) {
    const size_t k = p.k, done = p.torn == UINT64_MAX ? p.k : p.k - 1;
    std::vector<const Mark*> cands;
    *fresh = false;
    const Mark* last = nullptr;
    for (const auto& m : marks) {
      if (m.end <= done) {
        last = &m;
      } else if (m.begin < k) {
        cands.push_back(&m);
        if (m.fresh) *fresh = true;
      }
    }
    if (last) cands.insert(cands.begin(), last);
    return cands;
  }
  // Marks without any event between them are indistinguishable, so equal ends count too.

  Records Collect(DBM* db) {
    Records recs;
    auto iter = db->MakeIterator();
    Status st = iter->First();
    VT_CHECK(c, "restored-iterate", st == Status::SUCCESS, "First of the restored database: %s [%s]",
             ToString(st).c_str(), x.spec.Str().c_str());
    while (true) {
      std::string key, value;
      st = iter->Get(&key, &value);
      if (st == Status::NOT_FOUND_ERROR) break;
      VT_CHECK(c, "restored-iterate", st == Status::SUCCESS, "iterating the restored database: %s [%s]",
               ToString(st).c_str(), x.spec.Str().c_str());
      recs.emplace_back(key, value);
      VT_CHECK(c, "restored-iterate", recs.size() < 100000, "the iterator does not end");
      st = iter->Next();
      VT_CHECK(c, "restored-iterate", st == Status::SUCCESS, "Next in the restored database: %s [%s]",
               ToString(st).c_str(), x.spec.Str().c_str());
    }
    return recs;
  }
  bool Same(const Records& recs, const Map& model, const Ctx& y) {
    if (recs.size() != model.size()) return false;
    for (const auto& r : recs) {
      auto it = model.find(r.first);
      if (it == model.end() || it->second != r.second) return false;
    }
    return true;
  }
  std::string Show(const Records& recs) {
    std::string s = vt::StrF("%zu records:", recs.size());
    size_t n = 0;
    for (const auto& r : recs) {
      if (n++ >= 12) break;
      s += " " + vt::Esc(r.first, 12) + "=" + vt::Esc(r.second, 12);
      if (r.second.size() > 12) s += vt::StrF("/%zu", r.second.size());
    }
    return s;
  }
  static Records ToRecords(const Map& m) { return Records(m.begin(), m.end()); }

  // Goes on with the restored database and the known content.
  void Continue(Ctx& y) {
    y.FullCheck("restored-");
    y.Validate();
    const Ctx::Weights w = UpdateWeights();
    for (int i = 0; c.More(i, 4, 8); i++) y.Step(w);
    if (c.Bool()) y.OpSync();
    y.FullCheck("continued-");
    y.Validate();
    y.Close();
    y.db.reset();
    y.spec.tp.restore_mode = HashDBM::RESTORE_DEFAULT;
    y.Open(true);
    y.FullCheck("reopened-");
    y.Validate();
    y.Close();
    y.db.reset();
  }
};

}  // namespace

// ------------------------------------------------------------------ R01

static void HardSyncCovers(CrashRun& r, size_t begin) {
  // Every byte of the file is on the device, except for the header, which is rewritten at the end.
  std::map<int, std::string> image, device;
  size_t last = 0;
  int inode = 0;
  for (size_t i = begin; i < fs::Now(); i++)
    if (fs::At(i).type == fs::Event::FSYNC) { last = i; inode = fs::At(i).inode; }
  VT_CHECK(r.c, "hard-sync", last > 0, "a hard synchronization did not synchronize the device [%s]",
           r.x.spec.Str().c_str());
  std::string& im = image[inode];
  std::string& dev = device[inode];
  for (size_t i = 0; i < fs::Now(); i++) {
    const auto& e = fs::At(i);
    if (e.inode != inode) continue;
    switch (e.type) {
      case fs::Event::WRITE:
        if (i > last) {
          VT_CHECK(r.c, "hard-sync", e.off + (int64_t)e.data.size() <= std::max<int64_t>(128, r.x.spec.block_size),
                   "event %zu after the synchronization: %s [%s]", i, fs::Describe(e).c_str(),
                   r.x.spec.Str().c_str());
          break;
        }
        if (im.size() < e.off + e.data.size()) im.resize(e.off + e.data.size());
        im.replace(e.off, e.data.size(), e.data);
        break;
      case fs::Event::TRUNC:
        im.resize(e.off);
        dev.resize(e.off);
        break;
      case fs::Event::FSYNC: {
        size_t b = 0, n = im.size();
        if (!e.path.empty()) {
          b = e.off & ~4095LL;
          n = ((e.off + atoll(e.path.c_str()) + 4095) & ~4095LL) - b;
        }
        if (b >= im.size()) break;
        n = std::min(n, im.size() - b);
        if (dev.size() < b + n) dev.resize(b + n);
        dev.replace(b, n, im, b, n);
        break;
      }
      default: break;
    }
  }
  dev.resize(im.size());
  size_t i = 0;
  while (i < im.size() && im[i] == dev[i]) i++;
  VT_CHECK(r.c, "hard-sync", i == im.size(),
           "a hard synchronization did not cover the offset %zu of %zu bytes [%s]", i, im.size(),
           r.x.spec.Str().c_str());
}

static void RebuildKeep(CrashRun& r, int update_mode, bool sync_hard, bool may_cache = true) {
  Ctx& x = r.x;
  Spec ns = x.spec;
  if (r.c.Bool()) {
    if (x.spec.kind == HASH) GenHashTuning(r.c, &ns, false); else GenTreeTuning(r.c, &ns);
  }
  if (!may_cache) ns.tp.cache_buckets = -1;
  ns.tp.update_mode = (HashDBM::UpdateMode)update_mode;
  ns.tp.record_comp_mode = x.spec.tp.record_comp_mode;
  ns.tp.cipher_key = x.spec.tp.cipher_key;
  r.c.Log("Rebuild [%s]", ns.Str().c_str());
  Status st;
  if (x.spec.kind == HASH) st = dynamic_cast<HashDBM*>(x.db.get())->RebuildAdvanced(ns.tp, false, sync_hard);
  else st = dynamic_cast<TreeDBM*>(x.db.get())->RebuildAdvanced(ns.tp, false, sync_hard);
  x.Expect("rebuild", st, Status::SUCCESS);
}

static void CrashSync(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  if (kind == HASH) GenHashTuning(c, &s, false);
  else { GenTreeTuning(c, &s); GenComp(c, &s); }
  GenCrashFile(c, &s);
  s.tp.num_buckets = std::min<int64_t>(s.tp.num_buckets, 101);
  s.tp.update_mode = HashDBM::UPDATE_APPENDING;
  CrashRun r(c, s);
  Ctx& x = r.x;
  r.Create();
  const Ctx::Weights w = UpdateWeights();
  const int avg = c.PickOf({12, 4, 30});
  for (int i = 0; c.More(i, avg, 80); i++) {
    vt::Case::Span span(c);
    const size_t begin = fs::Now();
    switch (c.Weighted({14, 3, 1, 1, 1})) {
      case 0: x.Step(w); break;
      case 1: {
        const bool hard = c.Bool();
        c.Log("Synchronize(%d)", hard);
        x.Expect("synchronize", x.db->Synchronize(hard), Status::SUCCESS);
        if (hard) HardSyncCovers(r, begin);
        r.Push(begin, "synchronize", false);
        break;
      }
      case 2: {
        c.Log("Close and open");
        x.Close();
        r.Push(begin, "close", false);
        x.db.reset();
        if (kind == TREE) {
          x.spec.tp.max_cached_pages = c.PickOf({-1, 1, 64});
          x.spec.tp.page_update_mode = c.PickOf({TreeDBM::PAGE_UPDATE_NONE, TreeDBM::PAGE_UPDATE_WRITE});
        }
        x.spec.tp.cache_buckets = c.Chance(1, 4) ? 1 : -1;
        x.Open(true);
        break;
      }
      case 3: RebuildKeep(r, c.Bool() ? HashDBM::UPDATE_APPENDING : HashDBM::UPDATE_DEFAULT, c.Bool());
        r.Push(begin, "rebuild", false);
        break;
      case 4: {
        // The content before is saved, and then the file is made again.
        const Map before = x.model;
        x.OpClear();
        r.Push(begin, "clear", true);
        r.marks.insert(r.marks.end() - 1, Mark{begin, 0, "clear-before", before, true});
        r.marks[r.marks.size() - 2].end = r.marks.back().end;
        break;
      }
    }
  }
  r.CheckRecorder();
  fs::Stop();
  x.Close();
  x.db.reset();
  c.NonTrivial(x.updates >= 3 && r.marks.size() >= 2);
  fs::Replayer rep;
  const auto points = r.GenPoints(1 + c.Draw(c.thorough ? 20 : 10), true);
  for (const auto& p : points) {
    vt::Case::Span span(c);
    r.Restore(&rep, p);
    bool fresh;
    auto cands = r.Candidates(p, &fresh);
    // A clear which is completed leaves nothing of the state before it.
    cands.erase(std::remove_if(cands.begin(), cands.end(),
                               [&](const Mark* m) { return m->what == "clear-before" && m->end <= (p.torn == UINT64_MAX ? p.k : p.k - 1); }),
                cands.end());
    if (cands.empty() && !fresh) continue;
    Ctx y(c, x.spec);
    y.path = r.dir2 + "/" + r.base;
    y.kg = x.kg;
    y.max_value = x.max_value;
    int32_t mode = HashDBM::RESTORE_SYNC;
    if (c.Chance(1, 3)) mode |= HashDBM::RESTORE_NO_SHORTCUTS;
    if (c.Chance(1, 4)) mode |= HashDBM::RESTORE_WITH_HARDSYNC;
    y.spec.tp.restore_mode = mode;
    y.db = MakeDbm(y.spec);
    const Status st = OpenDbm(y.spec, y.db.get(), y.path, true);
    c.Evals(1);
    if (st != Status::SUCCESS && fresh) { c.Tag("fresh-failed"); continue; }
    y.Expect("restore-open", st, Status::SUCCESS);
    const Records recs = r.Collect(y.db.get());
    const Mark* found = nullptr;
    for (const auto* m : cands)
      if (r.Same(recs, m->state, y)) found = m;
    // A Clear in progress may have discarded any part of the records.
    Mark partial;
    if (found == nullptr && fresh) {
      partial.state = Map(KeyLess{Comparator(x.spec.comp)});
      for (const auto& rec : recs) partial.state.insert(rec);
      found = &partial;
      c.Tag("partial-clear");
    }
    if (found == nullptr) {
      std::string want;
      for (const auto* m : cands)
        want += vt::StrF("\n  after %s (events %zu..%zu): ", m->what.c_str(), m->begin, m->end) +
            r.Show(r.ToRecords(m->state));
      c.Fail("restored-content", "crash at event %zu: the restored content is of no synchronization\n  got %s%s\n[%s]",
             p.k, r.Show(recs).c_str(), want.c_str(), x.spec.Str().c_str());
    }
    y.model = found->state;
    if (dynamic_cast<HashDBM*>(y.db.get()) && dynamic_cast<HashDBM*>(y.db.get())->IsAutoRestored()) c.Tag("auto-restored");
    if (fresh) y.spec.tp.num_buckets = s.tp.num_buckets;
    r.Continue(y);
    c.Tag("points");
  }
}

VT_SUITE_EX(crash_sync_hash, 60.0, false) { CrashSync(c, HASH); }
VT_SUITE_EX(crash_sync_tree, 60.0, false) { CrashSync(c, TREE); }

// ------------------------------------------------------------------ R02

namespace {

struct Step {
  size_t begin, end;
  Map before, after;
  std::string what;
  bool clear;
  std::string leaves;  // number of the leaf nodes at the end
  bool several;        // several records may be updated
};

std::string NumLeaves(DBM* db) {
  for (const auto& rec : db->Inspect()) if (rec.first == "num_leaf_nodes") return rec.second;
  return "";
}

}  // namespace

static void DistinctMulti(CrashRun& r) {
  Ctx& x = r.x;
  const int n = 1 + r.c.Draw(4);
  std::set<std::string> used;
  std::vector<std::string> keys;
  std::vector<Ctx::Proc> procs;
  for (int i = 0; i < n; i++) {
    const std::string key = x.LiveKey();
    bool dup = false;
    for (const auto& u : used) dup |= x.KeyEq(u, key);
    if (dup) continue;
    used.insert(key);
    keys.push_back(key);
    procs.emplace_back();
    procs.back().act = x.GenAct();
    r.c.Log("  multi %s act=%d %s", vt::Esc(key).c_str(), procs.back().act.kind, vt::Esc(procs.back().act.value, 16).c_str());
  }
  std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pairs;
  for (size_t i = 0; i < keys.size(); i++) pairs.emplace_back(keys[i], &procs[i]);
  x.Expect("process-multi", x.db->ProcessMulti(pairs, true), Status::SUCCESS);
  for (size_t i = 0; i < keys.size(); i++) x.ApplyAct(keys[i], procs[i].act);
}

static void CrashDefault(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  if (kind == HASH) GenHashTuning(c, &s, false);
  else { GenTreeTuning(c, &s); GenComp(c, &s); }
  GenCrashFile(c, &s);
  // Data in a page cache of the process are lost by nature.
  s.block_size = 1;
  s.access = 0;
  if (s.file == F_POS_PARA || s.file == F_POS_ATOM) s.tp.cache_buckets = -1;
  s.tp.num_buckets = std::min<int64_t>(s.tp.num_buckets, 101);
  const bool in_place = s.tp.update_mode != HashDBM::UPDATE_APPENDING;
  CrashRun r(c, s);
  Ctx& x = r.x;
  std::vector<Step> steps;
  fs::Start(r.dir);
  x.Open(true);
  const size_t created = fs::Now();
  r.marks.push_back({0, created, "create", x.model, true});
  Ctx::Weights w = UpdateWeights();
  w[Ctx::WALK] = w[Ctx::PROCMULTI] = 0;
  // Most histories of trees update one record at a time, for the pages to be known.
  const bool single = kind == TREE && !c.Chance(1, 3);
  if (single) w[Ctx::BULK] = w[Ctx::BULKREMOVE] = w[Ctx::EACH_RW] = w[Ctx::MULTI] = w[Ctx::REKEY] = 0;
  const int avg = c.PickOf({12, 4, 30});
  for (int i = 0; c.More(i, avg, 80); i++) {
    vt::Case::Span span(c);
    Step st;
    st.begin = fs::Now();
    st.before = x.model;
    st.clear = false;
    bool mark = true;
    st.several = !single;
    switch (c.Weighted({16, single ? 0 : 2, 2, 2, 1, 1})) {
      case 0: x.Step(w); mark = false; st.what = "update"; break;
      case 1: DistinctMulti(r); mark = false; st.what = "multi"; break;
      case 2: {
        const bool hard = c.Bool();
        c.Log("Synchronize(%d)", hard);
        x.Expect("synchronize", x.db->Synchronize(hard), Status::SUCCESS);
        st.what = "synchronize";
        break;
      }
      case 3: {
        c.Log("Close and open");
        x.Close();
        x.db.reset();
        if (kind == TREE) {
          x.spec.tp.max_cached_pages = c.PickOf({-1, 1, 64});
          x.spec.tp.page_update_mode = c.PickOf({TreeDBM::PAGE_UPDATE_NONE, TreeDBM::PAGE_UPDATE_WRITE});
        }
        x.Open(true);
        st.what = "close";
        break;
      }
      case 4: RebuildKeep(r, in_place ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING, c.Bool(),
                          s.file != F_POS_PARA && s.file != F_POS_ATOM);
        st.what = "rebuild";
        break;
      case 5: x.OpClear(); st.clear = true; st.what = "clear"; break;
    }
    st.end = fs::Now();
    st.after = x.model;
    if (kind == TREE) st.leaves = NumLeaves(x.db.get());
    c.Log("  (events %zu..%zu)", st.begin, st.end);
    if (mark) r.marks.push_back({st.begin, st.end, st.what, x.model, st.clear, steps.size() + 1});
    steps.push_back(std::move(st));
  }
  r.CheckRecorder();
  fs::Stop();
  x.Close();
  x.db.reset();
  c.NonTrivial(x.updates >= 3);
  // Values which every key ever had.
  std::map<std::string, std::set<std::string>, KeyLess> ever(KeyLess{Comparator(s.comp)});
  for (const auto& st : steps) for (const auto& rec : st.after) ever[rec.first].insert(rec.second);
  fs::Replayer rep;
  const auto points = r.GenPoints(1 + c.Draw(c.thorough ? 20 : 10), false);
  for (const auto& p : points) {
    vt::Case::Span span(c);
    if (p.k < created) continue;
    r.Restore(&rep, p);
    // The operation in progress, and the content before it.
    const Step* cur = nullptr;
    Map base(KeyLess{Comparator(s.comp)});
    for (const auto& st : steps) {
      if (st.end <= p.k) base = st.after;
      else if (st.begin < p.k) { cur = &st; break; }
      else break;
    }
    Ctx y(c, x.spec);
    y.path = r.dir2 + "/" + r.base;
    y.kg = x.kg;
    y.max_value = x.max_value;
    int32_t mode = HashDBM::RESTORE_DEFAULT;
    if (c.Chance(1, 4)) mode |= HashDBM::RESTORE_NO_SHORTCUTS;
    if (c.Chance(1, 4)) mode |= HashDBM::RESTORE_WITH_HARDSYNC;
    y.spec.tp.restore_mode = mode;
    y.db = MakeDbm(y.spec);
    const Status ost = OpenDbm(y.spec, y.db.get(), y.path, true);
    c.Evals(1);
    const bool clearing = cur != nullptr && cur->clear;
    if (ost != Status::SUCCESS && clearing) { c.Tag("clear-failed"); continue; }
    y.Expect("restore-open", ost, Status::SUCCESS);
    const Records recs = r.Collect(y.db.get());
    Map got(KeyLess{Comparator(s.comp)});
    for (const auto& rec : recs) {
      VT_CHECK(c, "restored-content", got.insert(rec).second, "the key %s appears twice after the restoration [%s]",
               vt::Esc(rec.first).c_str(), x.spec.Str().c_str());
      auto it = ever.find(rec.first);
      VT_CHECK(c, "restored-content", it != ever.end() && it->second.count(rec.second),
               "crash at event %zu: the restored record %s=%s (%zu bytes) never existed [%s]", p.k,
               vt::Esc(rec.first).c_str(), vt::Esc(rec.second).c_str(), rec.second.size(), x.spec.Str().c_str());
    }
    // What each key may be.
    std::set<std::string> keys;
    for (const auto& e : ever) keys.insert(e.first);
    auto Find = [](const Map& m, const std::string& key) {
      auto it = m.find(key);
      return it == m.end() ? nullptr : &it->second;
    };
    auto EqV = [](const std::string* a, const std::string* b) { return a ? (b && *a == *b) : !b; };
    if (kind == HASH) {
      for (const auto& key : keys) {
        const std::string* g = Find(got, key);
        if (clearing && !g) continue;
        const std::string* b = Find(base, key);
        if (EqV(g, b)) continue;
        if (cur) {
          const std::string* a = Find(cur->after, key);
          if (EqV(g, a)) continue;
          if (!EqV(a, b) && !g && in_place) { c.Tag("missing"); continue; }
          // A clear may uncover former values of appended records.
          if (clearing) continue;
        }
        c.Fail("restored-content", "crash at event %zu%s%s: key %s is %s, expected %s%s [%s]", p.k,
               cur ? " within " : "", cur ? cur->what.c_str() : "", vt::Esc(key).c_str(),
               g ? vt::Esc(*g).c_str() : "<absent>", b ? vt::Esc(*b).c_str() : "<absent>",
               cur ? (" or " + (Find(cur->after, key) ? vt::Esc(*Find(cur->after, key)) : "<absent>")).c_str() : "",
               x.spec.Str().c_str());
      }
    } else if (!clearing) {
      // Records move between pages when pages are divided or merged, and a page which is being written
      // may be lost.  Otherwise, the keys which have not been touched since the last synchronization
      // keep their values.
      size_t last = 0, first = 0;
      Map synced(KeyLess{Comparator(s.comp)});
      for (const auto& m : r.marks) if (m.end <= p.k) { last = m.end; synced = m.state; first = m.step; }
      std::set<std::string, KeyLess> touched(KeyLess{Comparator(s.comp)});
      bool steady = cur == nullptr && first > 0;
      for (size_t i = first; i < steps.size(); i++) {
        const Step& st = steps[i];
        if (st.begin >= p.k && st.end > p.k) break;
        if (i > 0 && (st.several || st.leaves != steps[i - 1].leaves)) steady = false;
        for (const auto& key : keys)
          if (!EqV(Find(st.before, key), Find(st.after, key))) touched.insert(key);
      }
      if (steady) c.Tag("steady");
      for (const auto& key : keys) {
        if (touched.count(key) || !steady) continue;
        VT_CHECK(c, "restored-content", EqV(Find(got, key), Find(synced, key)),
                 "crash at event %zu: key %s, not touched since the synchronization (event %zu), is %s, expected %s [%s]",
                 p.k, vt::Esc(key).c_str(), last,
                 Find(got, key) ? vt::Esc(*Find(got, key)).c_str() : "<absent>",
                 Find(synced, key) ? vt::Esc(*Find(synced, key)).c_str() : "<absent>", x.spec.Str().c_str());
      }
    }
    y.model = got;
    r.Continue(y);
    c.Tag("points");
  }
}

VT_SUITE_EX(crash_default_hash, 60.0, false) { CrashDefault(c, HASH); }
VT_SUITE_EX(crash_default_tree, 60.0, false) { CrashDefault(c, TREE); }

// ------------------------------------------------------------------ R03

// The file must be on the device when a hard synchronization of a whole file returns.
static void HardFileSynced(CrashRun& r, size_t begin) {
  int inode = 0;
  size_t written = 0, synced = 0;
  std::map<std::string, int> names;
  for (size_t i = 0; i < fs::Now(); i++) {
    const auto& e = fs::At(i);
    switch (e.type) {
      case fs::Event::CREATE: names[e.path] = e.inode; break;
      case fs::Event::RENAME: names[e.path2] = e.inode; names.erase(e.path); break;
      case fs::Event::UNLINK: names.erase(e.path); break;
      default: break;
    }
  }
  inode = names[r.base];
  for (size_t i = begin; i < fs::Now(); i++) {
    const auto& e = fs::At(i);
    if (e.inode != inode) continue;
    if (e.type == fs::Event::WRITE && e.off + (int64_t)e.data.size() > std::max<int64_t>(128, r.x.spec.block_size)) written = i;  // not the header
    if (e.type == fs::Event::FSYNC) synced = i;
  }
  VT_CHECK(r.c, "hard-sync", synced > 0 && synced >= written,
           "a hard synchronization did not synchronize the new file (last write %zu, synchronization %zu) [%s]",
           written, synced, r.x.spec.Str().c_str());
}

static void SkipUpdates(Case& c, Ctx& x, Map* pending) {
  const int n = 1 + c.Draw(6);
  for (int i = 0; i < n; i++) {
    vt::Case::Span span(c);
    const std::string key = x.kg(c);
    if (c.Chance(1, 4) && pending->count(key)) {
      c.Log("Remove(%s)", vt::Esc(key).c_str());
      const Status st = x.db->Remove(key);
      VT_CHECK(c, "skip-remove", st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR, "Remove: %s", ToString(st).c_str());
      pending->erase(key);
    } else {
      const std::string value = GenValue(c, x.max_value);
      c.Log("Set(%s, %s/%zu)", vt::Esc(key).c_str(), vt::Esc(value, 16).c_str(), value.size());
      x.Expect("set", x.db->Set(key, value), Status::SUCCESS);
      (*pending)[key] = value;
    }
    x.updates++;
  }
}

static void SkipSync(Ctx& x, bool hard) {
  x.Expect("synchronize", dynamic_cast<SkipDBM*>(x.db.get())->SynchronizeAdvanced(hard, nullptr, SkipDBM::ReduceToLast),
           Status::SUCCESS);
}

static void GenSkipTuning(Case& c, Spec* s) {
  s->sp.step_unit = c.PickOf({-1, 2, 3, 16});
  s->sp.max_level = c.PickOf({-1, 1, 4});
  s->sp.offset_width = c.PickOf({-1, 3, 5});
  s->sp.sort_mem_size = c.PickOf<int64_t>({-1, 1024, 3000});
}

static void CrashReplace(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  GenTuning(c, &s);
  GenCrashFile(c, &s);
  if (kind == SKIP) GenSkipTuning(c, &s);
  CrashRun r(c, s);
  Ctx& x = r.x;
  r.x.kg.pool = std::min(x.kg.pool, 14);
  Map pending = x.model;
  fs::Start(r.dir);
  x.Open(true);
  r.marks.push_back({0, kind == SKIP && r.Buffered() ? SIZE_MAX : fs::Now(), "create", x.model, true});
  if (kind == SKIP) {
    auto* db = dynamic_cast<SkipDBM*>(x.db.get());
    x.Expect("set-type", db->SetDatabaseType(123), Status::SUCCESS);
    x.Expect("set-opaque", db->SetOpaqueMetadata("opaque data"), Status::SUCCESS);
  }
  Ctx::Weights w = UpdateWeights();
  w[Ctx::WALK] = 0;
  const int avg = c.PickOf({6, 3, 12});
  for (int i = 0; c.More(i, avg, 30); i++) {
    vt::Case::Span span(c);
    const size_t begin = fs::Now();
    switch (c.Weighted({6, 3, 2, 1})) {
      case 0:
        if (kind == SKIP) SkipUpdates(c, x, &pending); else x.Step(w);
        break;
      case 1: {
        const bool hard = c.Bool();
        c.Log("Synchronize(%d)", hard);
        if (kind == SKIP) {
          SkipSync(x, hard);
          x.model = pending;
        } else {
          x.Expect("synchronize", x.db->Synchronize(hard), Status::SUCCESS);
        }
        if (hard) HardFileSynced(r, begin);
        r.Push(begin, "synchronize", false);
        break;
      }
      case 2: {
        if (kind == SKIP) {
          c.Log("Synchronize");
          SkipSync(x, false);
          x.model = pending;
          r.Push(begin, "synchronize", false);
        }
        const size_t begin2 = fs::Now();
        c.Log("Close");
        x.Close();
        r.Push(begin2, "close", false);
        x.db.reset();
        if (kind == TINY || kind == STDHASH) x.spec.num_buckets = c.PickOf<int64_t>({1, 2, 7, 100, 1000});
        x.Open(true);
        r.Push(fs::Now(), "open", false);
        break;
      }
      case 3:
        if (kind == SKIP) {
          SkipSync(x, false);
          x.model = pending;
          r.Push(begin, "synchronize", false);
          SkipDBM::TuningParameters np;
          np.step_unit = c.PickOf({-1, 2, 3, 16, 64});
          np.max_level = c.PickOf({-1, 1, 2, 8});
          const size_t begin2 = fs::Now();
          c.Log("Rebuild");
          x.Expect("rebuild", dynamic_cast<SkipDBM*>(x.db.get())->RebuildAdvanced(np, false, c.Bool()), Status::SUCCESS);
          r.Push(begin2, "rebuild", false);
        } else {
          c.Log("Rebuild or clear");
          if (c.Bool()) x.Expect("rebuild", x.db->Rebuild(), Status::SUCCESS);
          else x.OpClear();
        }
        break;
    }
  }
  r.CheckRecorder();
  fs::Stop();
  x.Close();
  x.db.reset();
  c.NonTrivial(x.updates >= 3 && r.marks.size() >= 2);
  fs::Replayer rep;
  const auto points = r.GenPoints(1 + c.Draw(c.thorough ? 20 : 10), true);
  for (const auto& p : points) {
    vt::Case::Span span(c);
    r.Restore(&rep, p);
    bool fresh;
    const auto cands = r.Candidates(p, &fresh);
    if (cands.empty()) continue;
    Ctx y(c, x.spec);
    y.path = r.dir2 + "/" + r.base;
    y.kg = x.kg;
    y.max_value = x.max_value;
    y.db = MakeDbm(y.spec);
    const Status st = OpenDbm(y.spec, y.db.get(), y.path, true);
    c.Evals(1);
    if (fresh && st != Status::SUCCESS) { c.Tag("fresh-failed"); continue; }
    y.Expect("crash-open", st, Status::SUCCESS);
    const Records recs = r.Collect(y.db.get());
    const Mark* found = nullptr;
    for (const auto* m : cands) if (r.Same(recs, m->state, y)) found = m;
    if (found == nullptr) {
      std::string want;
      for (const auto* m : cands)
        want += vt::StrF("\n  after %s (events %zu..%zu): ", m->what.c_str(), m->begin, m->end) +
            r.Show(r.ToRecords(m->state));
      c.Fail("replaced-content", "crash at event %zu: the content is of no synchronization\n  got %s%s\n[%s]",
             p.k, r.Show(recs).c_str(), want.c_str(), x.spec.Str().c_str());
    }
    y.model = found->state;
    y.FullCheck("crashed-");
    if (kind == SKIP && !fresh && !cands[0]->fresh && p.torn == UINT64_MAX) {
      auto* db = dynamic_cast<SkipDBM*>(y.db.get());
      const std::string opaque = db->GetOpaqueMetadata();
      VT_CHECK(c, "metadata", db->GetDatabaseType() == 123 && opaque.substr(0, 11) == "opaque data",
               "crash at event %zu: the database type is %u and the opaque data are %s [%s]", p.k,
               (unsigned)db->GetDatabaseType(), vt::Esc(opaque).c_str(), x.spec.Str().c_str());
    }
    Map ypending = y.model;
    for (int i = 0; c.More(i, 2, 4); i++) {
      if (kind == SKIP) SkipUpdates(c, y, &ypending); else y.Step(w);
    }
    if (kind == SKIP) {
      SkipSync(y, false);
      y.model = ypending;
    } else if (c.Bool()) {
      y.OpSync();
    }
    y.FullCheck("continued-");
    y.Close();
    y.db.reset();
    y.Open(true);
    y.FullCheck("reopened-");
    y.Close();
    y.db.reset();
    c.Tag("points");
  }
}

VT_SUITE_EX(crash_replace_skip, 60.0, false) { CrashReplace(c, SKIP); }
VT_SUITE_EX(crash_replace_mem, 60.0, false) {
  CrashReplace(c, c.PickOf<int>({TINY, BABY, CACHE, STDHASH, STDTREE}));
}

// Rebuilding of a synchronized database: the content is the same before and after.
static void CrashRebuild(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  if (kind == HASH) GenHashTuning(c, &s, false);
  else { GenTreeTuning(c, &s); GenComp(c, &s); }
  GenCrashFile(c, &s);
  s.tp.num_buckets = std::min<int64_t>(s.tp.num_buckets, 101);
  CrashRun r(c, s);
  Ctx& x = r.x;
  fs::Start(r.dir);
  x.Open(true);
  Ctx::Weights w = UpdateWeights();
  for (int i = 0; c.More(i, 10, 40); i++) x.Step(w);
  // The metadata of a tree are in the opaque data of the hash database.
  auto* h = dynamic_cast<HashDBM*>(x.db.get());
  auto* t = dynamic_cast<TreeDBM*>(x.db.get());
  const std::string opaque = "opaque";
  x.Expect("set-type", h ? h->SetDatabaseType(321) : t->SetDatabaseType(321), Status::SUCCESS);
  x.Expect("set-opaque", h ? h->SetOpaqueMetadata(opaque) : t->SetOpaqueMetadata(opaque), Status::SUCCESS);
  if (c.Bool()) {
    x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
  } else {
    x.Close();
    x.db.reset();
    x.Open(true);
    if (r.Buffered()) x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
  }
  const size_t from = fs::Now();
  h = dynamic_cast<HashDBM*>(x.db.get());
  t = dynamic_cast<TreeDBM*>(x.db.get());
  const int n = 1 + c.Draw(2);
  bool appending = s.tp.update_mode == HashDBM::UPDATE_APPENDING, always_appending = appending;
  for (int i = 0; i < n; i++) {
    const int mode = c.Draw(3);
    if (mode != HashDBM::UPDATE_APPENDING && !(mode == HashDBM::UPDATE_DEFAULT && appending)) appending = always_appending = false;
    else appending = true;
    const size_t begin = fs::Now();
    RebuildKeep(r, mode, c.Bool());
    r.Push(begin, "rebuild", false);
  }
  r.CheckRecorder();
  fs::Stop();
  x.Close();
  x.db.reset();
  c.NonTrivial(x.updates >= 3);
  fs::Replayer rep;
  auto points = r.GenPoints(2 + c.Draw(10), true);
  for (auto& p : points) {
    vt::Case::Span span(c);
    if (p.k < from) continue;
    if (p.k == from) p.torn = UINT64_MAX;
    r.Restore(&rep, p);
    Ctx y(c, x.spec);
    y.path = r.dir2 + "/" + r.base;
    y.kg = x.kg;
    y.max_value = x.max_value;
    y.model = x.model;
    y.spec.tp.restore_mode = c.PickOf<int32_t>({HashDBM::RESTORE_DEFAULT, HashDBM::RESTORE_DEFAULT, HashDBM::RESTORE_SYNC});
    // The offset of the synchronization means nothing for updates in place.
    if (!always_appending) y.spec.tp.restore_mode = HashDBM::RESTORE_DEFAULT;
    y.db = MakeDbm(y.spec);
    const Status st = OpenDbm(y.spec, y.db.get(), y.path, true);
    c.Evals(1);
    y.Expect("crash-open", st, Status::SUCCESS);
    y.FullCheck("rebuilt-");
    auto* yh = dynamic_cast<HashDBM*>(y.db.get());
    auto* yt = dynamic_cast<TreeDBM*>(y.db.get());
    const uint32_t type = yh ? yh->GetDatabaseType() : yt->GetDatabaseType();
    const std::string op = yh ? yh->GetOpaqueMetadata() : yt->GetOpaqueMetadata();
    // A torn header has no metadata.
    VT_CHECK(c, "metadata", p.torn != UINT64_MAX || (type == 321 && op.substr(0, opaque.size()) == opaque),
             "crash at event %zu: the database type is %u and the opaque data are %s [%s]", p.k, type,
             vt::Esc(op).c_str(), x.spec.Str().c_str());
    r.Continue(y);
    c.Tag("points");
  }
}

VT_SUITE_EX(crash_rebuild_hash, 60.0, false) { CrashRebuild(c, HASH); }
VT_SUITE_EX(crash_rebuild_tree, 60.0, false) { CrashRebuild(c, TREE); }

// A crash while a database is being restored: the next restoration gives the same.
static void CrashRestore(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  if (kind == HASH) GenHashTuning(c, &s, false);
  else { GenTreeTuning(c, &s); GenComp(c, &s); }
  GenCrashFile(c, &s);
  s.block_size = 1;
  s.access = 0;
  s.tp.cache_buckets = -1;
  s.tp.num_buckets = std::min<int64_t>(s.tp.num_buckets, 101);
  CrashRun r(c, s);
  Ctx& x = r.x;
  Ctx::Weights w = UpdateWeights();
  fs::Start(r.dir);
  x.Open(true);
  x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
  const size_t created = fs::Now();
  for (int i = 0; c.More(i, 8, 40); i++) {
    vt::Case::Span span(c);
    if (c.Chance(1, 5)) {
      c.Log("Synchronize");
      x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
    } else {
      x.Step(w);
    }
  }
  fs::Stop();
  c.NonTrivial(x.updates >= 3);
  const size_t now = fs::Now();
  CrashRun::Point p{created + (size_t)c.Draw(now - created + 1), UINT64_MAX};
  if (c.Bool()) p.k = now;
  fs::Replayer rep;
  r.Restore(&rep, p);
  x.Close();
  x.db.reset();
  Spec ys = x.spec;
  int32_t mode = s.tp.update_mode == HashDBM::UPDATE_APPENDING && c.Bool() ? HashDBM::RESTORE_SYNC : HashDBM::RESTORE_DEFAULT;
  if (c.Chance(2, 3)) mode |= HashDBM::RESTORE_NO_SHORTCUTS;
  ys.tp.restore_mode = mode;
  auto db = MakeDbm(ys);
  fs::Start(r.dir2);
  const size_t from = fs::Now();
  Ctx z(c, ys);
  z.Expect("restore-open", OpenDbm(ys, db.get(), r.dir2 + "/" + r.base, true), Status::SUCCESS);
  const size_t end = fs::Now();
  const Records recs = r.Collect(db.get());
  fs::Stop();
  Map want(KeyLess{Comparator(s.comp)});
  for (const auto& rec : recs) want.insert(rec);
  // The recorded events after the restoration are not replayed.
  fs::Replayer rep2;
  const std::string dir3 = c.dir + "/c";
  mkdir(dir3.c_str(), 0755);
  std::vector<CrashRun::Point> points;
  for (int i = 0, n = 1 + c.Draw(8); i < n; i++) points.push_back({from + (size_t)c.Draw(end - from + 1), UINT64_MAX});
  std::stable_sort(points.begin(), points.end(), [](const CrashRun::Point& a, const CrashRun::Point& b) { return a.k < b.k; });
  std::vector<std::pair<size_t, fs::Files>> states;
  for (auto& q : points) {
    rep2.To(q.k);
    uint64_t torn = UINT64_MAX;
    if (c.Bool() && q.k > from && fs::At(q.k - 1).type == fs::Event::WRITE) torn = c.Draw(fs::At(q.k - 1).data.size() + 1);
    states.emplace_back(q.k, rep2.State(torn));
  }
  z.Expect("close", db->Close(), Status::SUCCESS);
  db.reset();
  for (const auto& state : states) {
    vt::Case::Span span(c);
    vt::EmptyDir(dir3);
    fs::Materialize(state.second, dir3);
    c.Log("crash at event %zu of %zu of the restoration", state.first, end);
    if (c.tracing) for (size_t i = state.first > 6 ? state.first - 6 : 0; i < state.first; i++) c.Log("    event %zu: %s", i, fs::Describe(fs::At(i)).c_str());
    Ctx y(c, ys);
    y.path = dir3 + "/" + r.base;
    y.kg = x.kg;
    y.max_value = x.max_value;
    y.model = want;
    y.db = MakeDbm(y.spec);
    c.Evals(1);
    y.Expect("crash-open", OpenDbm(y.spec, y.db.get(), y.path, true), Status::SUCCESS);
    y.FullCheck("restored-again-");
    r.Continue(y);
    c.Tag("points");
  }
}

VT_SUITE_EX(crash_restore_hash, 60.0, false) { CrashRestore(c, HASH); }
VT_SUITE_EX(crash_restore_tree, 60.0, false) { CrashRestore(c, TREE); }

// ------------------------------------------------------------------ R04

static void EndOffset(Case& c, int kind) {
  Spec s;
  s.kind = kind;
  if (kind == HASH) GenHashTuning(c, &s, false);
  else { GenTreeTuning(c, &s); GenComp(c, &s); }
  GenFile(c, &s);
  s.tp.num_buckets = std::min<int64_t>(s.tp.num_buckets, 101);
  s.tp.update_mode = HashDBM::UPDATE_APPENDING;
  Ctx x(c, s);
  const std::string base = c.dir + "/db";
  x.path = base + "." + s.Ext();
  x.kg = GenKeyGen(c, s);
  x.kg.pool = std::min(x.kg.pool, 30);
  x.max_value = c.PickOf<size_t>({60, 20, 300, 1500});
  x.cipher_rebuild = true;
  c.Log("spec: %s keys: style=%d pool=%d", s.Str().c_str(), x.kg.style, x.kg.pool);
  x.Open(true);
  struct Moment { int64_t size; Map state; };
  std::vector<Moment> moments;
  Moment synced{0, x.model};
  bool has_synced = false;
  auto Observe = [&](bool sync) {
    const int64_t size = x.db->GetFileSizeSimple();
    if (kind == HASH || sync) moments.push_back({size, x.model});
    if (sync) { synced = {size, x.model}; has_synced = true; }
    c.Log("  (size %lld)", (long long)size);
  };
  auto SetMeta = [&]() {
    if (auto* h = dynamic_cast<HashDBM*>(x.db.get())) {
      x.Expect("set-type", h->SetDatabaseType(321), Status::SUCCESS);
      x.Expect("set-opaque", h->SetOpaqueMetadata("opaque"), Status::SUCCESS);
    } else if (auto* t = dynamic_cast<TreeDBM*>(x.db.get())) {
      x.Expect("set-type", t->SetDatabaseType(321), Status::SUCCESS);
      x.Expect("set-opaque", t->SetOpaqueMetadata("opaque"), Status::SUCCESS);
    }
  };
  SetMeta();
  x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
  Observe(true);
  const Ctx::Weights w = UpdateWeights();
  const int avg = c.PickOf({12, 4, 30});
  for (int i = 0; c.More(i, avg, 80); i++) {
    vt::Case::Span span(c);
    switch (c.Weighted({14, 3, 2, 1, 1})) {
      case 0: x.Step(w); Observe(false); break;
      case 1:
        c.Log("Synchronize");
        x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
        Observe(true);
        break;
      case 2:
        c.Log("Close and open");
        x.Close();
        x.db.reset();
        if (c.Chance(1, 3)) GenFile(c, &x.spec, false);
        x.Open(true);
        Observe(true);
        break;
      case 3:
        c.Log("Rebuild");
        moments.clear();
        {
          Spec ns = x.spec;
          if (kind == HASH) GenHashTuning(c, &ns, false); else GenTreeTuning(c, &ns);
          ns.tp.update_mode = HashDBM::UPDATE_APPENDING;
          ns.tp.record_comp_mode = x.spec.tp.record_comp_mode;
          ns.tp.cipher_key = x.spec.tp.cipher_key;
          Status st;
          if (kind == HASH) st = dynamic_cast<HashDBM*>(x.db.get())->RebuildAdvanced(ns.tp);
          else st = dynamic_cast<TreeDBM*>(x.db.get())->RebuildAdvanced(ns.tp);
          x.Expect("rebuild", st, Status::SUCCESS);
        }
        Observe(true);
        break;
      case 4:
        x.OpClear();
        moments.clear();
        // The header is saved by the next synchronization.
        SetMeta();
        x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
        Observe(true);
        break;
    }
  }
  c.NonTrivial(x.updates >= 3 && moments.size() >= 3);
  // The source is copied while it is open or after it is closed.
  const bool live = c.Bool() && s.file != F_STD && s.block_size == 1 && x.spec.tp.cache_buckets <= 0 &&
      (x.spec.file == F_MMAP_PARA || x.spec.file == F_MMAP_ATOM);
  const std::string src = c.dir + "/src." + s.Ext();
  std::string image;
  if (live) {
    c.Log("Copy the live file");
    x.Expect("read-file", ReadFile(x.path, &image), Status::SUCCESS);
    x.Close();
  } else {
    x.Expect("close", x.db->Close(), Status::SUCCESS);
    synced = {0, x.model};
    x.Expect("read-file", ReadFile(x.path, &image), Status::SUCCESS);
  }
  x.db.reset();
  x.Expect("write-file", WriteFile(src, image), Status::SUCCESS);
  const std::string dst = c.dir + "/dst." + s.Ext();
  const int n = 1 + c.Draw(c.thorough ? 12 : 6);
  for (int i = 0; i < n; i++) {
    vt::Case::Span span(c);
    int64_t end_offset = 0;
    const Map* want = &synced.state;
    switch (c.Weighted({5, 1, 1})) {
      case 0: {
        const Moment& m = moments[c.Draw(moments.size())];
        end_offset = m.size;
        want = &m.state;
        // Several moments may have the same size: those with the same content.
        for (const auto& e : moments)
          if (e.size == m.size && !live && e.state.size() != m.state.size() && kind == HASH)
            c.Fail("harness", "two contents with the size %lld", (long long)m.size);
        break;
      }
      case 1: end_offset = 0; break;
      case 2:
        end_offset = -1;
        if (kind == HASH || !live) want = &x.model;
        else continue;
        break;
    }
    c.Log("RestoreDatabase(%lld)", (long long)end_offset);
    RemoveFile(dst);
    Status st;
    if (kind == HASH) st = HashDBM::RestoreDatabase(src, dst, end_offset, x.spec.tp.cipher_key);
    else st = TreeDBM::RestoreDatabase(src, dst, end_offset, x.spec.tp.cipher_key, Comparator(s.comp));
    c.Evals(1);
    x.Expect("restore", st, Status::SUCCESS);
    std::string after;
    x.Expect("read-file", ReadFile(src, &after), Status::SUCCESS);
    VT_CHECK(c, "source", after == image, "the source was changed by the restoration [%s]", x.spec.Str().c_str());
    std::vector<std::string> children;
    x.Expect("read-directory", ReadDirectory(c.dir, &children), Status::SUCCESS);
    for (const auto& ch : children)
      VT_CHECK(c, "leftover", !StrContains(ch, ".tmp"), "the file %s was left [%s]", ch.c_str(), x.spec.Str().c_str());
    Ctx y(c, x.spec);
    y.path = dst;
    y.kg = x.kg;
    y.max_value = x.max_value;
    y.model = *want;
    y.Open(true);
    y.FullCheck("restored-");
    y.Validate();
    auto* h = dynamic_cast<HashDBM*>(y.db.get());
    auto* t = dynamic_cast<TreeDBM*>(y.db.get());
    VT_CHECK(c, "health", h ? h->IsHealthy() && !h->IsAutoRestored() : t->IsHealthy() && !t->IsAutoRestored(),
             "the restored database is not healthy [%s]", x.spec.Str().c_str());
    VT_CHECK(c, "update-mode", !h || h->GetUpdateMode() == HashDBM::UPDATE_APPENDING,
             "the restored database is not in the appending mode [%s]", x.spec.Str().c_str());
    const uint32_t type = h ? h->GetDatabaseType() : t->GetDatabaseType();
    const std::string op = h ? h->GetOpaqueMetadata() : t->GetOpaqueMetadata();
    VT_CHECK(c, "metadata", type == 321 && op.substr(0, 6) == "opaque",
             "the database type is %u and the opaque data are %s [%s]", type, vt::Esc(op).c_str(),
             x.spec.Str().c_str());
    for (int j = 0; c.More(j, 2, 4); j++) y.Step(w);
    y.Close();
    y.db.reset();
    y.Open(true);
    y.FullCheck("continued-");
    y.Validate();
    y.Close();
    y.db.reset();
    c.Tag("restorations");
  }
}

VT_SUITE_EX(end_offset_hash, 60.0, false) { EndOffset(c, HASH); }
VT_SUITE_EX(end_offset_tree, 60.0, false) { EndOffset(c, TREE); }
