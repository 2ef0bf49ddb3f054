// Failing system calls: R06.
#include <sys/stat.h>

#include <algorithm>
#include <set>

#include "dbm_model.h"
#include "fs.h"
#include "tkrzw_dbm_common_impl.h"

using namespace m;
using vt::Case;

namespace {

const std::string kAbsent = "-";

// The state of a record: "-" or "+" and the value.
typedef std::set<std::string> Poss;

struct Keys {
  std::map<std::string, Poss> now;    // what the database may answer
  std::map<std::string, Poss> since;  // every state since the last step of synchronization
  std::map<std::string, Poss> ever;
  std::map<std::string, Poss> taint;  // of operations which failed: a record may have been written nevertheless, and come up later
};

fs::Fault GenFault(Case& c, bool whole) {
  fs::Fault f;
  f.mask = c.PickOf<int>({fs::PWRITE | fs::WRITE, fs::PWRITE | fs::WRITE | fs::FTRUNCATE | fs::SYNC | fs::RENAME | fs::OPEN | fs::MMAP,
                          fs::FTRUNCATE, fs::OPEN, fs::SYNC, fs::RENAME, fs::PREAD | fs::READ, fs::MMAP, fs::FSTAT, fs::UNLINK, fs::CLOSE,
                          fs::FTRUNCATE | fs::MMAP | fs::PWRITE});
  f.number = whole ? c.Draw(c.PickOf<int>({3, 10, 40})) : c.Draw(4);
  f.error = f.mask & (fs::PWRITE | fs::FTRUNCATE) ? c.PickOf<int>({ENOSPC, EIO, EFBIG}) : c.PickOf<int>({EIO, ENOMEM, EMFILE, EACCES});
  f.sticky = c.Chance(1, 3);
  f.short_write = c.Chance(1, 3);
  return f;
}

std::string ShowPoss(const Poss& p) {
  std::string s;
  for (const auto& e : p) s += (s.empty() ? "" : " or ") + (e == kAbsent ? std::string("absent") : "\"" + vt::Esc(e.substr(1, 30)) + "\"/" + std::to_string(e.size() - 1));
  return s;
}

struct Run {
  Case& c;
  Spec s;
  std::string dir, path;
  std::unique_ptr<DBM> db;
  Keys k;
  bool vague = false;     // an operation has failed so that any record may be at any of its states
  bool fired = false;     // the call of the present step
  bool loose = false;     // an error has been reported since the last good synchronization
  int faults = 0;
  bool scan = true;       // no update has failed: half-written records of a hash database may be seen when the file is scanned
  bool paged;             // records of others are written with those of an operation
  bool memory;            // the file is written by synchronization only
  int serial = 0;

  Run(Case& c_, const Spec& s_) : c(c_), s(s_) {
    dir = c.dir + "/a";
    mkdir(dir.c_str(), 0755);
    path = dir + "/db." + s.Ext();
    paged = s.kind == TREE;
    memory = s.kind != HASH && s.kind != TREE;
    for (int i = 0; i < 12; i++) {
      const std::string key = vt::StrF("key%d", i);
      k.now[key] = k.since[key] = k.ever[key] = {kAbsent};
    }
  }
  std::string Key() { return vt::StrF("key%d", (int)c.Draw(s.kind == SKIP ? num : 12)); }
  int num = 12;
  std::string KeyToSet() {
    if (s.kind != SKIP) return Key();
    // Which of the records of the same key is shown is up to reducers, so that keys are set once.
    const std::string key = vt::StrF("key%d", num++);
    k.now[key] = k.since[key] = k.ever[key] = {kAbsent};
    return key;
  }
  const Poss& Allowed(const std::string& key) { return vague ? k.ever[key] : k.now[key]; }

  // Half-written records of hash databases come up when the file is restored or rebuilt.
  bool Known(const std::string& key) const { return !(mixed && vague) && !torn.count(key) && (!scanned || k.taint.find(key) == k.taint.end()); }
  bool scanned = false;
  bool mixed = false;  // pages of a tree database may be half overwritten
  std::set<std::string> torn;  // records which may be half overwritten

  // Calls with a fault or without it.
  template <typename F>
  Status Call(const char* what, bool arm, bool whole, F f) {
    fs::Fault fault;
    if (arm) {
      fault = GenFault(c, whole);
      fs::Arm(dir, fault);
    }
    const Status st = f();
    fired = arm && fs::Fired();
    if (fired) {
      faults++;
      // Pages which are merged are removed without reports of errors.
      if (s.kind == TREE) scan = false, loose = true, mixed |= fault.short_write;
      c.Tag(("fault:" + fs::FiredCall().substr(0, fs::FiredCall().find_first_of(" ("))).c_str());
    }
    c.Log("%s%s -> %s", what, fired ? vt::StrF(" [%s fails with %s%s%s]", fs::FiredCall().c_str(), strerror(fault.error), fault.sticky ? ", all" : "", fault.short_write ? ", short" : "").c_str() : "", ToString(st).c_str());
    fs::Disarm();
    return st;
  }
  void Changed(const std::string& key, const std::string& to, const Status& st) {
    k.ever[key].insert(to);
    k.since[key].insert(to);
    if (st == Status::SUCCESS) {
      torn.erase(key);
      if (s.kind == SKIP) k.now[key].insert(to);
      else k.now[key] = {to};
      if (vague && s.kind != SKIP) k.now[key] = k.ever[key];
      k.now[key].insert(k.taint[key].begin(), k.taint[key].end());
    } else {
      k.taint[key].insert(to);
      if (s.kind == HASH) scan = false, torn.insert(key);
      k.now[key].insert(to);
    }
  }
  void Check(const std::string& key, const char* when, bool must) {
    std::string v;
    const Status st = db->Get(key, &v);
    if (st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR) {
      VT_CHECK(c, "fault-get", !must, "%s: Get(%s) -> %s", when, key.c_str(), ToString(st).c_str());
      return;
    }
    if (!Known(key)) return;
    const std::string is = st == Status::SUCCESS ? "+" + v : kAbsent;
    VT_CHECK(c, "fault-lost", Allowed(key).count(is), "%s: %s is %s, want %s%s", when, key.c_str(), ShowPoss({is}).c_str(), ShowPoss(Allowed(key)).c_str(), vague ? " (any former)" : "");
  }
  void CheckAll(const char* when, bool must = true) {
    for (auto& e : k.now) Check(e.first, when, must);
    c.Evals(k.now.size());
  }
  void Synced() {
    for (auto& e : k.now) k.since[e.first] = e.second;
    loose = false;
  }
  // The last value of each key which was set since: what a skip database will show.
  std::map<std::string, std::string> last;
};

void GenFaultSpec(Case& c, Spec* s) {
  GenTuning(c, s);
  s->file = c.Weighted({4, 3, 3, 3});
  s->block_size = 1, s->access = 0;
  if ((s->file == F_POS_PARA || s->file == F_POS_ATOM) && s->kind == HASH && c.Chance(1, 4)) {
    s->block_size = 512;
    s->access = PositionalFile::ACCESS_PADDING | (c.Bool() ? PositionalFile::ACCESS_PAGECACHE : 0);
  }
  s->init_size = c.PickOf<int64_t>({4096, 1, 8192});
  s->inc_factor = c.PickOf<double>({1.2, 1.01, 2.0});
  s->tp.num_buckets = c.PickOf<int>({7, 1, 50, 300});
  s->tp.restore_mode = HashDBM::RESTORE_DEFAULT;
  if (!s->injective()) { s->comp = LEX; s->tp.key_comparator = nullptr; }
}

}  // namespace

// A history with faults, then closing and opening without one.
static void FaultHistory(Case& c, std::initializer_list<int> kinds) {
  Spec s;
  s.kind = c.PickOf<int>(kinds);
  GenFaultSpec(c, &s);
  Run r(c, s);
  c.Tag(KindName(s.kind));
  c.Log("%s", s.Str().c_str());
  fs::Start(r.dir);
  r.db = MakeDbm(s);
  auto Open = [&] { return OpenDbm(s, r.db.get(), r.path, true); };
  Status st = Open();
  VT_CHECK(c, "open", st == Status::SUCCESS, "%s", ToString(st).c_str());
  const bool skip = s.kind == SKIP;
  std::map<std::string, Poss> saved = r.k.now;  // the file of a class which is written as a whole
  bool ended = false;
  // What must hold after a step which saves everything.
  auto Saved = [&](const Status& st, bool close) {
    if (st == Status::SUCCESS) {
      if (skip) {
        for (auto& e : r.last) r.k.now[e.first] = {e.second};
        r.last.clear();
      }
      if (!r.vague) saved = r.k.now;
      r.Synced();
      return;
    }
    // The records which were not merged may be lost.
    r.last.clear();
    for (auto& e : r.k.now) saved[e.first].insert(e.second.begin(), e.second.end());
    r.loose = true;
  };
  // The database has to be opened without errors whatever has happened.
  auto Reopen = [&](bool fault) {
    Status st = r.Call("Close", fault, true, [&] { return r.db->Close(); });
    if (st != Status::SUCCESS) VT_CHECK(c, "status", r.fired || r.loose || r.vague, "Close -> %s without a failure", ToString(st).c_str());
    Saved(st, true);
    const bool good = st == Status::SUCCESS;
    if (!good && ((s.access & PositionalFile::ACCESS_PAGECACHE) || (s.tp.cache_buckets > 0 && (s.file == F_POS_PARA || s.file == F_POS_ATOM)))) {
      // Any pages may be missing.
      r.db = MakeDbm(s);
      return false;
    }
    if (!good) {
      if (r.memory) {
        // Either the former file or the new one.
        for (auto& e : saved) {
          r.k.now[e.first].insert(e.second.begin(), e.second.end());
        }
        saved = r.k.now;
      } else {
        r.k.now = r.k.since;
        if (r.paged || !r.scan) r.vague = true;
        if (!r.scan) r.scanned = true;
      }
    }
    r.db = MakeDbm(s);
    if (c.Chance(1, 4)) {
      // Opening fails, which may not harm the file.
      st = r.Call("Open", true, true, [&] { return Open(); });
      if (st == Status::SUCCESS) {
        if (r.fired && good && !r.vague) c.Tag("open despite a failure");
        return true;
      }
      VT_CHECK(c, "status", r.fired, "Open -> %s without a failure", ToString(st).c_str());
      r.db = MakeDbm(s);
    }
    st = r.Call("Open", false, true, [&] { return Open(); });
    VT_CHECK(c, "reopen", st == Status::SUCCESS, "Open -> %s after a failure [%s]", ToString(st).c_str(), s.Str().c_str());
    VT_CHECK(c, "healthy", r.db->IsHealthy(), "the database is not healthy after it was opened");
    if (!r.memory && !r.vague && good) r.Synced();
    return true;
  };
  auto Finish = [&] {
    r.db.reset();
    fs::Stop();
    c.NonTrivial(r.faults > 0);
  };
  for (int i = 0; c.More(i, 14, 50); i++) {
    vt::Case::Span span(c);
    const bool arm = c.Chance(2, 5);
    switch (c.Weighted({10, 4, 3, 5, 5, 2, 2, 1, 2, 2, 1})) {
      case 0: {
        const std::string key = r.KeyToSet();
        saved[key].insert(kAbsent);
        const std::string value = vt::StrF("v%d-", r.serial++) + std::string(c.PickOf<int>({0, 10, 100, 1000, 5000}), 'x');
        st = r.Call(("Set(" + key + ", " + std::to_string(value.size()) + " bytes)").c_str(), arm, false, [&] { return r.db->Set(key, value); });
        if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "Set -> %s without a failure", ToString(st).c_str());
        r.Changed(key, "+" + value, st);
        if (skip && st == Status::SUCCESS) r.last[key] = "+" + value;
        if (st != Status::SUCCESS) { r.loose = true; if (r.paged) r.vague = true; }
        break;
      }
      case 1: {
        const std::string key = r.Key();
        std::string old;
        st = r.Call(("Remove(" + key + ")").c_str(), arm, false, [&] { return r.db->Remove(key); });
        const bool done = st == Status::SUCCESS || st == Status::NOT_FOUND_ERROR;
        if (!r.fired) VT_CHECK(c, "status", done || r.loose || r.vague, "Remove -> %s without a failure", ToString(st).c_str());
        r.Changed(key, kAbsent, done ? Status(Status::SUCCESS) : st);
        if (skip && done) r.last[key] = kAbsent;
        if (!done) { r.loose = true; if (r.paged) r.vague = true; }
        break;
      }
      case 2: {
        if (skip) break;
        // Many records at once, for the files to grow.
        const int n = c.Size(40);
        for (int j = 0; j < n; j++) {
          const std::string key = vt::StrF("key%d", j % 12);
          const std::string value = vt::StrF("v%d-", r.serial++) + std::string(200, 'y');
          st = r.Call("Set", arm && j == n / 2, false, [&] { return r.db->Set(key, value); });
          r.Changed(key, "+" + value, st);
          if (st != Status::SUCCESS) { r.loose = true; if (r.paged) r.vague = true; }
        }
        break;
      }
      case 3: {
        const std::string key = r.Key();
        if (arm) {
          std::string v;
          st = r.Call(("Get(" + key + ")").c_str(), true, false, [&] { return r.db->Get(key, &v); });
          if (st != Status::SUCCESS && st != Status::NOT_FOUND_ERROR) {
            VT_CHECK(c, "status", r.fired || r.loose || r.vague, "Get -> %s without a failure", ToString(st).c_str());
            if (r.paged) r.vague = true, r.loose = true;
            break;
          }
          const std::string is = st == Status::SUCCESS ? "+" + v : kAbsent;
          if (r.Known(key)) VT_CHECK(c, "fault-get", r.Allowed(key).count(is), "Get(%s) -> %s, want %s", key.c_str(), ShowPoss({is}).c_str(), ShowPoss(r.Allowed(key)).c_str());
        } else {
          r.Check(key, "Get", !r.loose && !r.vague);
        }
        break;
      }
      case 4: {
        const bool hard = c.Bool();
        st = r.Call(hard ? "Synchronize(hard)" : "Synchronize", arm, true, [&] { return r.db->Synchronize(hard); });
        if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "Synchronize -> %s without a failure", ToString(st).c_str());
        if (r.fired && hard && fs::FiredCall().find("sync") != std::string::npos && fs::FiredCall().find("range") == std::string::npos) {
          VT_CHECK(c, "sync-silent", st != Status::SUCCESS, "Synchronize(hard) succeeds though %s fails", fs::FiredCall().c_str());
        }
        Saved(st, false);
        if (st != Status::SUCCESS && r.paged) r.vague = true;
        if (st != Status::SUCCESS && skip) ended = true;
        break;
      }
      case 5: {
        st = r.Call("Rebuild", arm, true, [&]() -> Status {
          if (auto* h = dynamic_cast<HashDBM*>(r.db.get())) {
            HashDBM::TuningParameters tp;
            tp.num_buckets = 11;
            return h->RebuildAdvanced(tp);
          }
          if (auto* t = dynamic_cast<TreeDBM*>(r.db.get())) {
            TreeDBM::TuningParameters tp;
            tp.num_buckets = 11;
            return t->RebuildAdvanced(tp);
          }
          return r.db->Rebuild();
        });
        if (!r.scan) r.vague = r.scanned = true;
        if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "Rebuild -> %s without a failure", ToString(st).c_str());
        if (st != Status::SUCCESS) {
          r.loose = true;
          if (r.paged) r.vague = true;
          if (skip) ended = true;
        } else if (skip) {
          Saved(st, false);
        }
        break;
      }
      case 6: if (!Reopen(arm)) return Finish(); ended = false; break;
      case 7: {
        if (r.memory && c.Bool()) break;
        st = r.Call("Clear", arm, true, [&] { return r.db->Clear(); });
        if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "Clear -> %s without a failure", ToString(st).c_str());
        for (auto& e : r.k.now) {
          r.Changed(e.first, kAbsent, st);
          if (st == Status::SUCCESS && !r.vague) e.second = {kAbsent};
        }
        r.last.clear();
        if (st != Status::SUCCESS && !r.memory) {
          // The file may be in any state.
          return Finish();
        }
        if (st != Status::SUCCESS) { r.loose = true; if (skip) r.vague = ended = true; }
        else if (skip) Saved(st, false);
        break;
      }
      case 8: {
        // Copies of the file and of the records.
        const std::string dest = r.dir + "/dest";
        remove(dest.c_str());
        if (c.Bool()) {
          st = r.Call("CopyFileData", arm, true, [&] { return r.db->CopyFileData(dest, c.Bool()); });
          if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "CopyFileData -> %s without a failure", ToString(st).c_str());
          if (st != Status::SUCCESS) { r.loose = true; if (r.paged) r.vague = true; }
          if (r.memory) Saved(st, false);
          if (skip && st != Status::SUCCESS) ended = true;
          if (skip) break;
          if (st == Status::SUCCESS && !r.memory && !r.vague && !r.loose) {
            auto copy = MakeDbm(s);
            st = OpenDbm(s, copy.get(), dest, true);
            VT_CHECK(c, "copy", st == Status::SUCCESS, "opening the copy: %s", ToString(st).c_str());
            std::swap(copy, r.db);
            r.CheckAll("the copy");
            std::swap(copy, r.db);
            copy->Close();
          }
        } else {
          auto f = MakeFile(Spec());
          st = r.Call("ExportDBMToFlatRecords", arm, true, [&] {
            Status e = f->Open(dest, true, File::OPEN_TRUNCATE);
            if (e != Status::SUCCESS) return e;
            e = ExportDBMToFlatRecords(r.db.get(), f.get());
            e |= f->Close();
            return e;
          });
          if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS || r.loose || r.vague, "Export -> %s without a failure", ToString(st).c_str());
          if (st != Status::SUCCESS) {
            if (r.paged) r.vague = true;
            r.loose = true;
            break;
          }
          if (r.loose || r.vague || !r.scan) break;
          TinyDBM copy;
          auto g = MakeFile(Spec());
          g->Open(dest, false);
          st = ImportDBMFromFlatRecords(&copy, g.get());
          VT_CHECK(c, "export", st == Status::SUCCESS, "importing: %s", ToString(st).c_str());
          for (auto& e : r.k.now) {
            std::string v;
            const std::string is = copy.Get(e.first, &v) == Status::SUCCESS ? "+" + v : kAbsent;
            VT_CHECK(c, "export", e.second.count(is), "%s is exported as %s, want %s", e.first.c_str(), ShowPoss({is}).c_str(), ShowPoss(e.second).c_str());
          }
        }
        break;
      }
      case 9: {
        if (skip) break;
        const std::string key = r.Key();
        std::string v;
        // Reads of all records.
        struct P : DBM::RecordProcessor {
          Run* r;
          std::string_view ProcessFull(std::string_view k, std::string_view v) override {
            const std::string key(k), is = "+" + std::string(v);
            if (bad.empty() && (r->scan || r->paged) && r->Known(key) && !r->Allowed(key).count(is)) bad = key + " is " + ShowPoss({is}) + ", want " + ShowPoss(r->Allowed(key));
            n++;
            seen += key + " ";
            return NOOP;
          }
          std::string bad, seen;
          int n = 0;
        } p;
        p.r = &r;
        st = r.Call("ProcessEach", arm, true, [&] { return r.db->ProcessEach(&p, false); });
        VT_CHECK(c, "fault-each", p.bad.empty(), "%s", p.bad.c_str());
        if (st != Status::SUCCESS) {
          VT_CHECK(c, "status", r.fired || r.loose || r.vague, "ProcessEach -> %s without a failure", ToString(st).c_str());
          if (r.paged) r.vague = r.loose = true;
        } else if (!r.vague && (r.scan || r.paged)) {
          int least = 0;
          for (auto& e : r.k.now) least += !e.second.count(kAbsent);
          VT_CHECK(c, "fault-each", p.n >= least, "ProcessEach succeeds with %d of at least %d records%s: %s", p.n, least, r.fired ? " with a failure" : "", p.seen.c_str());
        }
        break;
      }
      default: {
        // Restoring, which leaves the old file as it is.
        if (s.kind != HASH && s.kind != TREE && !skip) break;
        if (!Reopen(false)) return Finish();
        st = r.db->Close();
        VT_CHECK(c, "status", st == Status::SUCCESS, "Close -> %s", ToString(st).c_str());
        Saved(st, true);
        std::string before, after;
        ReadFile(r.path, &before);
        const std::string dest = r.dir + "/restored." + s.Ext();
        remove(dest.c_str());
        const int64_t end = c.PickOf<int64_t>({-1, 0, INT64MAX});
        st = r.Call("RestoreDatabase", arm, true, [&] {
          return s.kind == HASH ? HashDBM::RestoreDatabase(r.path, dest, end, s.tp.cipher_key) :
              skip ? SkipDBM::RestoreDatabase(r.path, dest) : TreeDBM::RestoreDatabase(r.path, dest, end, s.tp.cipher_key);
        });
        if (!r.fired) VT_CHECK(c, "status", st == Status::SUCCESS, "RestoreDatabase(%lld) -> %s without a failure", (long long)end, ToString(st).c_str());
        ReadFile(r.path, &after);
        VT_CHECK(c, "restore-source", before == after, "RestoreDatabase(%lld) has changed the old file: %zu -> %zu bytes", (long long)end, before.size(), after.size());
        if (st == Status::SUCCESS && !r.vague && r.scan && !(r.fired && skip)) {
          auto copy = MakeDbm(s);
          st = OpenDbm(s, copy.get(), dest, true);
          VT_CHECK(c, "restored", st == Status::SUCCESS, "opening the restored: %s", ToString(st).c_str());
          std::swap(copy, r.db);
          r.CheckAll(r.fired ? "the restored despite a failure" : "the restored");
          std::swap(copy, r.db);
          copy->Close();
        }
        r.db = MakeDbm(s);
        st = Open();
        VT_CHECK(c, "reopen", st == Status::SUCCESS, "Open -> %s", ToString(st).c_str());
      }
    }
    if (ended) {
      // Updates which are not saved of a skip database after an error are not told.
      if (!Reopen(false)) return Finish();
      ended = false;
    }
    if (r.fired && c.Chance(1, 3) && !Reopen(false)) return Finish();
    r.fired = false;
  }
  if (!Reopen(c.Bool())) return Finish();
  r.CheckAll("at the end", !r.vague);
  st = r.db->Close();
  VT_CHECK(c, "status", st == Status::SUCCESS, "the last Close -> %s", ToString(st).c_str());
  Finish();
}

VT_SUITE(fault_hash) { FaultHistory(c, {HASH}); }
VT_SUITE(fault_tree) { FaultHistory(c, {TREE}); }
VT_SUITE(fault_skip) { FaultHistory(c, {SKIP}); }
VT_SUITE(fault_mem) { FaultHistory(c, {TINY, BABY, CACHE, STDHASH, STDTREE}); }
