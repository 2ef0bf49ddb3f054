// Open modes, locks, preconditions and metadata: R08.
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>

#include "dbm_model.h"
#include "tkrzw_file_poly.h"

using namespace m;
using vt::Case;

namespace {

typedef std::map<std::string, std::string> StrMap;

const auto PRE = Status::PRECONDITION_ERROR;

bool FileDb(const Spec& s) { return s.kind == HASH || s.kind == TREE || s.kind == SKIP; }
bool Wrapped(const Spec& s) { return s.poly || s.shards > 0; }

// Every file of a directory and its bytes.
StrMap Snapshot(const std::string& dir) {
  StrMap m;
  std::vector<std::string> names;
  ReadDirectory(dir, &names);
  for (const auto& n : names) {
    std::string data;
    const std::string p = dir + "/" + n;
    struct stat sb;
    if (stat(p.c_str(), &sb) != 0 || !S_ISREG(sb.st_mode)) {
      m[n] = "<not a file>";
      continue;
    }
    ReadFile(p, &data);
    m[n] = data;
  }
  return m;
}
std::string DiffFiles(const StrMap& a, const StrMap& b) {
  for (const auto& e : a) {
    auto it = b.find(e.first);
    if (it == b.end()) return e.first + " is gone";
    if (it->second != e.second) {
      size_t i = 0;
      while (i < it->second.size() && i < e.second.size() && it->second[i] == e.second[i]) i++;
      return e.first + vt::StrF(" changed: %zu bytes, now %zu, at %zu", e.second.size(),
                                it->second.size(), i);
    }
  }
  for (const auto& e : b) if (!a.count(e.first)) return e.first + " appeared";
  return "";
}

struct Noop : public DBM::RecordProcessor {
  int calls = 0;
  std::string_view ProcessFull(std::string_view, std::string_view) override { calls++; return NOOP; }
  std::string_view ProcessEmpty(std::string_view) override { calls++; return NOOP; }
};
struct Writer : public DBM::RecordProcessor {
  int calls = 0;
  std::string_view ProcessFull(std::string_view, std::string_view) override { calls++; return "new"; }
  std::string_view ProcessEmpty(std::string_view) override { calls++; return "new"; }
};
struct Remover : public DBM::RecordProcessor {
  std::string_view ProcessFull(std::string_view, std::string_view) override { return REMOVE; }
};
struct Touch : public DBM::FileProcessor {
  int calls = 0;
  void Process(const std::string&) override { calls++; }
};

StrMap Scan(Case& c, DBM* db, const char* cls) {
  struct P : public DBM::RecordProcessor {
    StrMap m;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      m[std::string(k)] = v;
      return NOOP;
    }
  } p;
  const Status st = db->ProcessEach(&p, false);
  VT_CHECK(c, cls, st == Status::SUCCESS, "ProcessEach: %s", ToString(st).c_str());
  return p.m;
}

struct Life {
  Case& c;
  Spec s;
  std::string path;
  std::unique_ptr<DBM> db;
  StrMap model, saved;      // what is seen, and what was in the file when it was closed
  bool open = false, writable = false, exists = false;
  int type = 0;
  std::string opaque;
  StrMap before;            // the files when the database was opened for reading
  std::vector<std::unique_ptr<DBM::Iterator>> iters;
  double start;
  int64_t events = 0;
  Life(Case& c_) : c(c_) {}

  std::string FirstFile() const {
    return s.shards > 0 ? path + vt::StrF("-%05d-of-%05d", 0, s.shards) : path;
  }
  bool HasMeta() const { return FileDb(s) && !Wrapped(s); }
  size_t OpaqueSize() const { return s.kind == TREE ? 10 : 64; }
  int GetType() {
    if (s.kind == HASH) return dynamic_cast<HashDBM*>(db.get())->GetDatabaseType();
    if (s.kind == TREE) return dynamic_cast<TreeDBM*>(db.get())->GetDatabaseType();
    return dynamic_cast<SkipDBM*>(db.get())->GetDatabaseType();
  }
  std::string GetOpaque() {
    if (s.kind == HASH) return dynamic_cast<HashDBM*>(db.get())->GetOpaqueMetadata();
    if (s.kind == TREE) return dynamic_cast<TreeDBM*>(db.get())->GetOpaqueMetadata();
    return dynamic_cast<SkipDBM*>(db.get())->GetOpaqueMetadata();
  }
  Status SetType(uint32_t t) {
    if (s.kind == HASH) return dynamic_cast<HashDBM*>(db.get())->SetDatabaseType(t);
    if (s.kind == TREE) return dynamic_cast<TreeDBM*>(db.get())->SetDatabaseType(t);
    return dynamic_cast<SkipDBM*>(db.get())->SetDatabaseType(t);
  }
  Status SetOpaque(const std::string& o) {
    if (s.kind == HASH) return dynamic_cast<HashDBM*>(db.get())->SetOpaqueMetadata(o);
    if (s.kind == TREE) return dynamic_cast<TreeDBM*>(db.get())->SetOpaqueMetadata(o);
    return dynamic_cast<SkipDBM*>(db.get())->SetOpaqueMetadata(o);
  }

  void Is(const char* cls, const char* op, const Status& st, Status::Code want) {
    VT_CHECK(c, cls, st == want, "%s: %s, want %s [%s]", op, ToString(st).c_str(),
             Status::CodeName(want), s.Str().c_str());
  }
  void Bad(const char* cls, const char* op, const Status& st) {
    VT_CHECK(c, cls, st != Status::SUCCESS, "%s: %s [%s]", op, ToString(st).c_str(), s.Str().c_str());
  }

  void CheckState() {
    VT_CHECK(c, "life-state", db->IsOpen() == open, "IsOpen is %d, want %d [%s]", db->IsOpen(), open, s.Str().c_str());
    const bool w = open && writable;
    if (FileDb(s) || Wrapped(s) || open)
      if (FileDb(s) || writable || !open)
        VT_CHECK(c, "life-state", db->IsWritable() == w, "IsWritable is %d, want %d [%s]", db->IsWritable(), w, s.Str().c_str());
    if (open) {
      VT_CHECK(c, "life-state", db->IsHealthy(), "not healthy [%s]", s.Str().c_str());
      VT_CHECK(c, "life-state", db->IsOrdered() == (s.ordered() && s.shards == 0 ? true : db->IsOrdered()), "not ordered");
      VT_CHECK(c, "life-state", db->GetFilePathSimple() == path, "path %s, want %s", db->GetFilePathSimple().c_str(), path.c_str());
    }
  }
  void CheckContent(const char* cls) {
    const StrMap got = Scan(c, db.get(), cls);
    VT_CHECK(c, cls, got == model, "%zu records, want %zu [%s]", got.size(), model.size(), s.Str().c_str());
    int64_t n = -1;
    Is(cls, "Count", db->Count(&n), Status::SUCCESS);
    VT_CHECK(c, cls, n == (int64_t)model.size(), "count %lld, want %zu [%s]", (long long)n, model.size(), s.Str().c_str());
    if (HasMeta()) {
      VT_CHECK(c, "life-meta", GetType() == type, "type %d, want %d [%s]", GetType(), type, s.Str().c_str());
      const std::string o = GetOpaque();
      std::string want = opaque;
      want.resize(OpaqueSize());
      std::string have = o;
      have.resize(OpaqueSize());
      VT_CHECK(c, "life-meta", have == want, "opaque %s, want %s [%s]", vt::Esc(o).c_str(), vt::Esc(opaque).c_str(), s.Str().c_str());
    }
    const auto meta = db->Inspect();
    VT_CHECK(c, "life-inspect", !meta.empty(), "nothing [%s]", s.Str().c_str());
    for (const auto& e : meta)
      if (e.first == "num_records")
        VT_CHECK(c, "life-inspect", e.second == vt::StrF("%zu", model.size()), "num_records %s, want %zu", e.second.c_str(), model.size());
  }

  Status OpenAt(const std::string& p, bool w, int options) { return OpenDbm(s, db.get(), p, w, options); }

  void Open() {
    const bool w = c.Chance(3, 5);
    int options = 0;
    if (c.Chance(1, 5)) options |= File::OPEN_TRUNCATE;
    if (c.Chance(1, 4)) options |= File::OPEN_NO_CREATE;
    if (c.Chance(1, 5)) options |= File::OPEN_NO_WAIT;
    if (c.Chance(1, 5)) options |= File::OPEN_NO_LOCK;
    if (c.Chance(1, 5)) options |= File::OPEN_SYNC_HARD;
    if (s.file == F_STD) options &= ~(File::OPEN_NO_WAIT | File::OPEN_NO_LOCK);
    const StrMap files = Snapshot(c.dir);
    const Status st = OpenAt(path, w, options);
    c.Log("Open(writable=%d, options=%d) -> %s", w, options, ToString(st).c_str());
    events++;
    if (!exists && (!w || (options & File::OPEN_NO_CREATE))) {
      Is("life-open-absent", "Open of an absent file", st, Status::NOT_FOUND_ERROR);
      const std::string d = DiffFiles(files, Snapshot(c.dir));
      VT_CHECK(c, "life-open-absent", d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
      CheckState();
      return;
    }
    Is("life-open", "Open", st, Status::SUCCESS);
    open = true;
    writable = w;
    if (w) {
      if (!exists || (options & File::OPEN_TRUNCATE)) {
        saved.clear();
        type = 0;
        opaque.clear();
        if (exists) c.Tag("truncate");
      }
      exists = true;
    } else {
      before = files;
    }
    model = saved;
    CheckState();
    CheckContent("life-content");
    if (!w && FileDb(s) && s.shards == 0) {
      struct stat sb;
      if (stat(path.c_str(), &sb) == 0)
        VT_CHECK(c, "life-size", db->GetFileSizeSimple() <= sb.st_size && db->GetFileSizeSimple() > sb.st_size - s.block_size, "size %lld, the file has %lld [%s]",
                 (long long)db->GetFileSizeSimple(), (long long)sb.st_size, s.Str().c_str());
      const double ts = db->GetTimestampSimple();
      VT_CHECK(c, "life-time", ts >= start - 2 && ts <= GetWallTime() + 2, "timestamp %.6f [%s]", ts, s.Str().c_str());
    }
  }
  void Close() {
    const Status st = db->Close();
    c.Log("Close -> %s", ToString(st).c_str());
    Is("life-close", "Close", st, Status::SUCCESS);
    open = false;
    if (writable) {
      saved = model;
    } else {
      const std::string d = DiffFiles(before, Snapshot(c.dir));
      VT_CHECK(c, "life-readonly", d.empty(), "a database opened for reading: %s [%s]", d.c_str(), s.Str().c_str());
    }
    CheckState();
    events++;
  }
  void DoubleOpen() {
    const bool w = c.Bool();
    const int options = c.Bool() ? File::OPEN_TRUNCATE : 0;
    const bool other = c.Bool();
    const StrMap files = Snapshot(c.dir);
    const Status st = OpenAt(other ? path + "x" : path, w, options);
    c.Log("second Open(writable=%d, options=%d, other=%d) -> %s", w, options, other, ToString(st).c_str());
    Is("life-double-open", "Open of an open database", st, PRE);
    const std::string d = DiffFiles(files, Snapshot(c.dir));
    VT_CHECK(c, "life-double-open", d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
    CheckState();
    CheckContent("life-double-open");
    events++;
  }
  void BadOpen() {
    std::string p = path;
    switch (c.Draw(3)) {
      case 0: p = c.dir + "/absent-dir/" + "db." + s.Ext(); break;
      case 1: p = c.dir + "/sub." + s.Ext(); mkdir(p.c_str(), 0755); break;
      default: p = c.dir + "/absent-dir/../x/db." + s.Ext(); break;
    }
    if (s.shards > 0) p = c.dir + "/absent-dir/db." + s.Ext();
    const bool w = c.Bool();
    const int options = c.Bool() ? File::OPEN_TRUNCATE : 0;
    const StrMap files = Snapshot(c.dir);
    const Status st = OpenAt(p, w, options);
    c.Log("Open(%s, %d, %d) -> %s", p.substr(c.dir.size()).c_str(), w, options, ToString(st).c_str());
    Bad("life-bad-open", "Open of an impossible path", st);
    const std::string d = DiffFiles(files, Snapshot(c.dir));
    VT_CHECK(c, "life-bad-open", d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
    CheckState();
    events++;
  }
  // What is refused when the database is not open.
  void ClosedOps() {
    events++;
    if (!FileDb(s) && !Wrapped(s)) {
      // They work without files, too.
      std::string v;
      Is("life-closed", "Get", db->Get("k", &v), Status::NOT_FOUND_ERROR);
      VT_CHECK(c, "life-closed", db->CountSimple() == 0, "count %lld [%s]", (long long)db->CountSimple(), s.Str().c_str());
      Bad("life-closed", "GetFilePath", db->GetFilePath(&v));
      Is("life-closed", "Close", db->Close(), PRE);
      Noop noop;
      db->ProcessEach(&noop, false);
      db->Synchronize(false);
      db->Rebuild();
      db->Inspect();
      Bad("life-closed", "ProcessFirst", db->ProcessFirst(&noop, false));
      auto it = db->MakeIterator();
      it->First();
      Bad("life-closed", "iterator", it->Get());
      return;
    }
    const StrMap files = Snapshot(c.dir);
    Noop noop;
    Writer wr;
    std::string v = "*", k = "*";
    const char* cl = "life-closed";
    const int n = c.Range(3, 12);
    for (int i = 0; i < n; i++) {
      const int op = c.Draw(36);
      c.Log("closed %d", op);
      switch (op) {
        case 0: Is(cl, "Get", db->Get("k", &v), PRE); break;
        case 1: Is(cl, "Set", db->Set("k", "v"), PRE); break;
        case 2: Is(cl, "Remove", db->Remove("k"), PRE); break;
        case 3: Is(cl, "Append", db->Append("k", "v", ","), PRE); break;
        case 4: Is(cl, "Process", db->Process("k", &noop, c.Bool()), PRE); break;
        case 5: Is(cl, "ProcessMulti", db->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordProcessor*>>{{"a", &noop}, {"b", &noop}}, c.Bool()), PRE); break;
        case 6: Is(cl, "ProcessFirst", db->ProcessFirst(&noop, c.Bool()), PRE); break;
        case 7: Is(cl, "ProcessEach", db->ProcessEach(&noop, c.Bool()), PRE); break;
        case 8: { int64_t x = 5; Is(cl, "Count", db->Count(&x), PRE); break; }
        case 9: { int64_t x = 5; Is(cl, "GetFileSize", db->GetFileSize(&x), PRE); break; }
        case 10: Is(cl, "GetFilePath", db->GetFilePath(&v), PRE); break;
        case 11: { double x = 5; Is(cl, "GetTimestamp", db->GetTimestamp(&x), PRE); break; }
        case 12: Is(cl, "Clear", db->Clear(), PRE); break;
        case 13: Is(cl, "Rebuild", db->Rebuild(), PRE); break;
        case 14: { bool x = false; Is(cl, "ShouldBeRebuilt", db->ShouldBeRebuilt(&x), PRE); break; }
        case 15: { Touch t; Is(cl, "Synchronize", db->Synchronize(c.Bool(), &t), PRE); VT_CHECK(c, cl, t.calls == 0, "file processor"); break; }
        case 16: Is(cl, "CopyFileData", db->CopyFileData(c.dir + "/copy"), PRE); break;
        case 17: Is(cl, "Close", db->Close(), PRE); break;
        case 18: VT_CHECK(c, cl, db->CountSimple() == -1 && db->GetFileSizeSimple() == -1, "simple"); break;
        case 19: VT_CHECK(c, cl, db->GetFilePathSimple().empty() && std::isnan(db->GetTimestampSimple()), "simple"); break;
        case 20: VT_CHECK(c, cl, !db->ShouldBeRebuiltSimple() && db->GetSimple("k", "d") == "d", "simple"); break;
        case 21: Is(cl, "CompareExchange", db->CompareExchange("k", std::string_view(), "v"), PRE); break;
        case 22: Is(cl, "CompareExchangeMulti", db->CompareExchangeMulti({{"a", std::string_view()}}, {{"a", "b"}}), PRE); break;
        case 23: { int64_t x = 0; Is(cl, "Increment", db->Increment("k", 1, &x, 5), PRE); break; }
        case 24: Is(cl, "Rekey", db->Rekey("a", "b"), PRE); break;
        case 25: Is(cl, "PopFirst", db->PopFirst(&k, &v), PRE); break;
        case 26: Is(cl, "PushLast", db->PushLast("v"), PRE); break;
        case 27: { std::map<std::string, std::string> r; Is(cl, "GetMulti", db->GetMulti(std::vector<std::string>{"a"}, &r), PRE); break; }
        case 28: Is(cl, "SetMulti", db->SetMulti(std::map<std::string, std::string>{{"a", "b"}}), PRE); break;
        case 29: { TinyDBM dest; Is(cl, "Export", db->Export(&dest), PRE); break; }
        case 30: { db->Inspect(); VT_CHECK(c, cl, !db->IsOpen() && !db->IsWritable() && !db->IsHealthy(), "IsOpen, IsWritable, IsHealthy"); break; }
        case 31: VT_CHECK(c, cl, db->MakeDBM() != nullptr, "MakeDBM"); db->GetUpdateLogger(); break;
        case 32:
        case 33: {
          auto it = db->MakeIterator();
          IterClosed(it.get(), op == 32);
          break;
        }
        case 34:
          if (HasMeta()) {
            VT_CHECK(c, cl, GetType() == -1 && GetOpaque().empty(), "type %d", GetType());
            Is(cl, "SetDatabaseType", SetType(4), PRE);
            Is(cl, "SetOpaqueMetadata", SetOpaque("x"), PRE);
          }
          break;
        default:
          if (s.kind == HASH && !Wrapped(s)) {
            auto* h = dynamic_cast<HashDBM*>(db.get());
            VT_CHECK(c, cl, h->CountBuckets() == -1 && h->CountUsedBuckets() == -1, "buckets");
            Bad(cl, "ValidateHashBuckets", h->ValidateHashBuckets());
            Bad(cl, "ValidateRecords", h->ValidateRecords(-1, -1));
            Bad(cl, "ImportFromFileForward", h->ImportFromFileForward(path, false, -1, -1));
            h->GetUpdateMode();
            h->IsAutoRestored();
          }
          if (s.kind == TREE && !Wrapped(s)) {
            auto* t = dynamic_cast<TreeDBM*>(db.get());
            Bad(cl, "ValidateHashBuckets", t->ValidateHashBuckets());
            Bad(cl, "ValidateRecords", t->ValidateRecords(-1, -1));
            t->GetKeyComparator();
            t->IsAutoRestored();
          }
          if (s.kind == SKIP && !Wrapped(s)) {
            auto* t = dynamic_cast<SkipDBM*>(db.get());
            std::string kk, vv;
            Is(cl, "GetByIndex", t->GetByIndex(0, &kk, &vv), PRE);
            Is(cl, "Revert", t->Revert(), PRE);
            VT_CHECK(c, cl, !t->IsUpdated(), "IsUpdated");
            Bad(cl, "ValidateRecords", t->ValidateRecords());
            Bad(cl, "MergeSkipDatabase", t->MergeSkipDatabase(path));
            t->GetEffectiveDataSize();
          }
          break;
      }
    }
    VT_CHECK(c, cl, noop.calls == 0 && wr.calls == 0, "a processor was called [%s]", s.Str().c_str());
    const std::string d = DiffFiles(files, Snapshot(c.dir));
    VT_CHECK(c, cl, d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
    CheckState();
  }
  void IterClosed(DBM::Iterator* it, bool get) {
    const char* cl = "life-closed-iterator";
    std::string k, v;
    Writer wr;
    Noop noop;
    const int n = c.Range(1, 6);
    for (int i = 0; i < n; i++) {
      switch (c.Draw(11)) {
        case 0: Bad(cl, "First", it->First()); break;
        case 1: Bad(cl, "Last", it->Last()); break;
        case 2: Bad(cl, "Jump", it->Jump("k")); break;
        case 3: Bad(cl, "JumpLower", it->JumpLower("k", c.Bool())); break;
        case 4: Bad(cl, "JumpUpper", it->JumpUpper("k", c.Bool())); break;
        case 5: Bad(cl, "Next", it->Next()); break;
        case 6: Bad(cl, "Previous", it->Previous()); break;
        case 7: Bad(cl, "Process", it->Process(&noop, c.Bool())); break;
        case 8: Bad(cl, "Set", it->Set("v")); break;
        case 9: Bad(cl, "Remove", it->Remove()); break;
        default: Bad(cl, "Get", it->Get(&k, &v)); break;
      }
    }
    VT_CHECK(c, cl, noop.calls == 0, "a processor was called");
    if (get) VT_CHECK(c, cl, it->GetKey("d") == "d" && it->GetValue("d") == "d", "simple");
  }
  // What is refused when the database is open for reading.
  void ReadOnlyOps() {
    events++;
    const char* cl = "life-refuse";
    const bool must = FileDb(s);  // the others work on memory
    c.Log("updates of a database for reading");
    if (!must) {
      db->Set("new", "value");
      if (c.Bool()) db->Remove("new");
      if (c.Bool()) db->Clear();
      if (c.Bool()) db->Rebuild();
      if (c.Bool()) db->Synchronize(false);
      model = Scan(c, db.get(), cl);
      return;
    }
    std::string key = "k", value;
    if (!model.empty()) key = c.Bool() ? model.begin()->first : model.rbegin()->first;
    const int n = c.Range(2, 8);
    Writer wr;
    for (int i = 0; i < n; i++) {
      const int op = c.Draw(25);
      c.Log("update %d", op);
      switch (op) {
        case 0: Is(cl, "Set", db->Set(key, "new"), PRE); break;
        case 1: Is(cl, "Remove", db->Remove(key), PRE); break;
        case 2: Is(cl, "Append", db->Append(key, "v", ","), PRE); break;
        case 3: Is(cl, "Process", db->Process(key, &wr, true), PRE); break;
        case 4: Is(cl, "ProcessMulti", db->ProcessMulti(std::vector<std::pair<std::string_view, DBM::RecordProcessor*>>{{key, &wr}, {"b", &wr}}, true), PRE); break;
        case 5: Is(cl, "ProcessFirst", db->ProcessFirst(&wr, true), model.empty() && s.shards > 0 ? Status::NOT_FOUND_ERROR : PRE); break;
        case 6: Is(cl, "ProcessEach", db->ProcessEach(&wr, true), PRE); wr.calls = 0; break;
        case 7: Is(cl, "Clear", db->Clear(), PRE); break;
        case 8: Is(cl, "Rebuild", db->Rebuild(), PRE); break;
        case 9: { Touch t; Is(cl, "Synchronize", db->Synchronize(c.Bool(), &t), PRE); break; }
        case 10: Bad(cl, "CompareExchange", db->CompareExchange(key, DBM::ANY_DATA, "v")); break;
        case 11: Bad(cl, "CompareExchangeMulti", db->CompareExchangeMulti({{key, DBM::ANY_DATA}}, {{key, "b"}})); break;
        case 12: { int64_t x = 0; Bad(cl, "Increment", db->Increment(key, 1, &x, 5)); break; }
        case 13: Bad(cl, "Rekey", db->Rekey(key, "b")); break;
        case 14: Bad(cl, "PopFirst", db->PopFirst()); break;
        case 15: Bad(cl, "PushLast", db->PushLast("v")); break;
        case 16: Bad(cl, "SetMulti", db->SetMulti(std::map<std::string, std::string>{{key, "b"}})); break;
        case 17: Bad(cl, "RemoveMulti", db->RemoveMulti(std::vector<std::string>{key})); break;
        case 18:
        case 19:
        case 20: {
          auto it = db->MakeIterator();
          Is(cl, "First", it->First(), Status::SUCCESS);
          if (op == 18) Bad(cl, "iterator Set", it->Set("new"));
          if (op == 19) Bad(cl, "iterator Remove", it->Remove());
          if (op == 20) Bad(cl, "iterator Process", it->Process(&wr, true));
          if (op == 20) wr.calls = 0;
          break;
        }
        case 21: if (HasMeta()) Is(cl, "SetDatabaseType", SetType(9), PRE); break;
        case 22: if (HasMeta()) Is(cl, "SetOpaqueMetadata", SetOpaque("x"), PRE); break;
        case 23: {
          TinyDBM src;
          src.Set("a", "b");
          Bad(cl, "Export to it", src.Export(db.get()));
          break;
        }
        default:
          if (s.kind == HASH && !Wrapped(s)) {
            auto* h = dynamic_cast<HashDBM*>(db.get());
            Bad(cl, "ImportFromFileForward", h->ImportFromFileForward(path, false, -1, -1));
          }
          if (s.kind == SKIP && !Wrapped(s)) {
            auto* t = dynamic_cast<SkipDBM*>(db.get());
            Is(cl, "Revert", t->Revert(), PRE);
            Bad(cl, "MergeSkipDatabase", t->MergeSkipDatabase(path));
          }
          break;
      }
      VT_CHECK(c, cl, wr.calls == 0, "the processor of operation %d was called [%s]", op, s.Str().c_str());
    }
    CheckContent(cl);
    c.Tag("refused", n);
  }
  void ReadOps() {
    if (!model.empty()) {
      auto it = model.begin();
      std::advance(it, c.Draw(model.size()));
      std::string v;
      Is("life-get", "Get", db->Get(it->first, &v), Status::SUCCESS);
      VT_CHECK(c, "life-get", v == it->second, "value");
    }
    if (c.Chance(1, 4)) {
      Status st = db->CopyFileData(c.dir + "/copy." + s.Ext());
      c.Log("CopyFileData -> %s", ToString(st).c_str());
      Is("life-copy", "CopyFileData", st, Status::SUCCESS);
      for (const auto& e : Snapshot(c.dir))
        if (StrBeginsWith(e.first, "copy.")) RemoveFile(c.dir + "/" + e.first);
    }
    if (c.Chance(1, 4)) CheckContent("life-content");
  }
  void Updates() {
    const int n = c.Range(1, 12);
    for (int i = 0; i < n; i++) {
      const std::string key = vt::StrF("key%02d", (int)c.Draw(40));
      if (model.count(key) && c.Chance(1, 2)) {
        Is("life-update", "Remove", db->Remove(key), Status::SUCCESS);
        model.erase(key);
      } else if (s.kind != SKIP || !model.count(key)) {
        const std::string value = c.BytesOfSize(c.PickOf<size_t>({4, 0, 30, 400}), 1);
        Is("life-update", "Set", db->Set(key, value), Status::SUCCESS);
        model[key] = value;
      }
      if (s.kind == SKIP) Is("life-update", "Synchronize", db->Synchronize(false), Status::SUCCESS);
    }
    c.Log("%d updates, %zu records", n, model.size());
  }
  void Meta() {
    if (!HasMeta()) return;
    if (c.Bool()) {
      type = c.PickOf({1, 7, 123456, 2147483647});
      c.Log("SetDatabaseType(%d)", type);
      Is("life-meta", "SetDatabaseType", SetType(type), Status::SUCCESS);
    } else {
      opaque = c.BytesOfSize(c.Draw(OpaqueSize() + 1), c.Draw(3));
      c.Log("SetOpaqueMetadata(%s)", vt::Esc(opaque).c_str());
      Is("life-meta", "SetOpaqueMetadata", SetOpaque(opaque), Status::SUCCESS);
    }
    c.Tag("meta");
  }
};

}  // namespace

VT_SUITE(life_dbm) {
  Life l(c);
  l.start = GetWallTime();
  l.s.kind = c.PickOf<int>({HASH, TREE, SKIP, TINY, BABY, CACHE, STDHASH, STDTREE});
  const int how = c.Draw(5);
  if (how == 3) l.s.poly = true;
  if (how == 4 && l.s.kind != SKIP) l.s.shards = c.Range(1, 3);
  GenTuning(c, &l.s);
  if (!l.s.injective()) { l.s.comp = LEX; l.s.tp.key_comparator = nullptr; }
  l.db = MakeDbm(l.s);
  l.path = c.dir + "/db." + l.s.Ext();
  c.Log("%s", l.s.Str().c_str());
  c.Tag(KindName(l.s.kind));
  for (int i = 0; c.More(i, 14, 40); i++) {
    if (l.open) {
      switch (c.Weighted({3, 2, 1, 5, 2, 1, 1, 1, 1})) {
        case 0: l.Close(); break;
        case 1: l.ReadOps(); break;
        case 2: l.DoubleOpen(); break;
        case 3: if (l.writable) l.Updates(); else l.ReadOnlyOps(); break;
        case 4: if (l.writable) l.Meta(); else l.ReadOnlyOps(); break;
        case 5:
          if (l.writable) {
            const Status st = l.db->Synchronize(c.Bool());
            c.Log("Synchronize -> %s", ToString(st).c_str());
            l.Is("life-update", "Synchronize", st, Status::SUCCESS);
          }
          break;
        case 6:
          if (l.writable) {
            const Status st = l.db->Rebuild();
            c.Log("Rebuild -> %s", ToString(st).c_str());
            l.Is("life-update", "Rebuild", st, Status::SUCCESS);
            l.CheckContent("life-rebuild");
          }
          break;
        case 7:
          if (l.writable) {
            const Status st = l.db->Clear();
            c.Log("Clear -> %s", ToString(st).c_str());
            l.Is("life-update", "Clear", st, Status::SUCCESS);
            l.model.clear();
            l.CheckContent("life-clear");
          }
          break;
        default: {
          l.iters.emplace_back(l.db->MakeIterator());
          if (c.Bool()) l.iters.back()->First();
          break;
        }
      }
    } else {
      switch (c.Weighted({6, 2, 1, 1, 1, 1})) {
        case 0: l.Open(); break;
        case 1: l.ClosedOps(); break;
        case 2: l.BadOpen(); break;
        case 3:
          if (!l.iters.empty() && (FileDb(l.s) || Wrapped(l.s)) && !l.s.poly && l.s.shards == 0) {
            auto* it = l.iters[c.Draw(l.iters.size())].get();
            c.Log("iterator of the closed database");
            l.IterClosed(it, false);
          }
          break;
        case 4:
          // Without Close, the destructor closes: nothing is pending here.
          l.iters.clear();
          l.db = MakeDbm(l.s);
          break;
        default:
          if (l.exists && c.Bool()) {
            for (const auto& e : Snapshot(c.dir)) {
              if (StrBeginsWith(e.first, "db.")) RemoveFile(c.dir + "/" + e.first);
            }
            l.exists = false;
            l.saved.clear();
            c.Log("files are removed");
          }
          break;
      }
    }
    // Iterators of wrappers belong to the database behind.
    if ((l.s.poly || l.s.shards > 0) && !l.iters.empty()) l.iters.clear();
  }
  // The destructor closes a database.
  l.iters.clear();
  if (l.open && c.Bool()) {
    l.db.reset();
    c.Log("destroyed");
    l.open = false;
    if (l.writable) l.saved = l.model;
    l.db = MakeDbm(l.s);
  } else if (l.open) {
    l.Close();
  }
  if (l.exists) {
    const Status st = l.OpenAt(l.path, false, 0);
    l.Is("life-open", "final Open", st, Status::SUCCESS);
    l.open = true;
    l.writable = false;
    l.model = l.saved;
    l.CheckContent("life-final");
    l.db->Close();
  }
  if (l.events >= 4 && l.exists) c.NonTrivial();
}

// ------------------------------------------------------------------ files

VT_SUITE(life_file) {
  Spec s;
  s.kind = HASH;
  GenFile(c, &s);
  if (s.block_size > 1) s.block_size = 1, s.access = PositionalFile::ACCESS_PAGECACHE;
  const bool poly = c.Chance(1, 4);
  std::unique_ptr<File> file;
  std::map<std::string, std::string> params;
  params["file"] = FileName(s.file);
  if (poly) file = std::make_unique<PolyFile>(); else file = MakeFile(s);
  c.Log("%s poly=%d", s.Str().c_str(), poly);
  c.Tag(FileName(s.file));
  std::string path = c.dir + "/file", content;
  bool exists = false, open = false, writable = false, no_path = false;
  StrMap before;
  int events = 0;
  auto Is = [&](const char* cls, const char* op, const Status& st, Status::Code want) {
    VT_CHECK(c, cls, st == want, "%s: %s, want %s [%s poly=%d]", op, ToString(st).c_str(), Status::CodeName(want), s.Str().c_str(), poly);
  };
  auto OpenIt = [&](const std::string& p, bool w, int options) {
    return poly ? dynamic_cast<PolyFile*>(file.get())->OpenAdvanced(p, w, options, params) : file->Open(p, w, options);
  };
  auto State = [&]() {
    VT_CHECK(c, "file-state", file->IsOpen() == open, "IsOpen %d, want %d [%s]", file->IsOpen(), open, s.Str().c_str());
    if (!open) return;
    int64_t size = -1;
    Is("file-state", "GetSize", file->GetSize(&size), Status::SUCCESS);
    VT_CHECK(c, "file-state", size == (int64_t)content.size() && file->GetSizeSimple() == size, "size %lld, want %zu [%s]", (long long)size, content.size(), s.Str().c_str());
    VT_CHECK(c, "file-state", file->ReadSimple(0, content.size()) == content, "content [%s]", s.Str().c_str());
    std::string p;
    const Status st = file->GetPath(&p);
    if (no_path) Is("file-state", "GetPath without path operations", st, PRE);
    else VT_CHECK(c, "file-state", st == Status::SUCCESS && p == path, "path %s, want %s", p.c_str(), path.c_str());
  };
  for (int i = 0; c.More(i, 14, 50); i++) {
    const StrMap files = Snapshot(c.dir);
    auto Same = [&](const char* cls) {
      const std::string d = DiffFiles(files, Snapshot(c.dir));
      VT_CHECK(c, cls, d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
    };
    if (!open) {
      switch (c.Weighted({5, 2, 1})) {
        case 0: {
          const bool w = c.Chance(3, 5);
          int options = c.Draw(32);
          if (c.Bool()) options &= ~File::OPEN_TRUNCATE;
          if (s.file == F_STD) options &= ~(File::OPEN_NO_WAIT | File::OPEN_NO_LOCK);
          const Status st = OpenIt(path, w, options);
          c.Log("Open(writable=%d, options=%d) -> %s", w, options, ToString(st).c_str());
          if (!exists && (!w || (options & File::OPEN_NO_CREATE))) {
            Is("file-open-absent", "Open of an absent file", st, Status::NOT_FOUND_ERROR);
            Same("file-open-absent");
          } else {
            Is("file-open", "Open", st, Status::SUCCESS);
            open = true;
            writable = w;
            no_path = false;
            if (w && (!exists || (options & File::OPEN_TRUNCATE))) content.clear();
            exists = true;
            before = files;
          }
          break;
        }
        case 1: {
          char buf[16];
          int64_t x = 0;
          std::string p;
          const char* cl = "file-closed";
          Is(cl, "Close", file->Close(), PRE);
          Is(cl, "Read", file->Read(0, buf, 4), PRE);
          Is(cl, "Write", file->Write(0, "abcd", 4), PRE);
          Is(cl, "Append", file->Append("abcd", 4, &x), PRE);
          Is(cl, "Expand", file->Expand(4, &x), PRE);
          Is(cl, "Truncate", file->Truncate(4), PRE);
          Is(cl, "TruncateFakely", file->TruncateFakely(4), PRE);
          Is(cl, "Synchronize", file->Synchronize(false), PRE);
          Is(cl, "GetSize", file->GetSize(&x), PRE);
          Is(cl, "GetPath", file->GetPath(&p), PRE);
          Is(cl, "Rename", file->Rename(c.dir + "/other"), PRE);
          Is(cl, "DisablePathOperations", file->DisablePathOperations(), PRE);
          VT_CHECK(c, cl, file->GetSizeSimple() == -1 && file->GetPathSimple().empty() && file->ReadSimple(0, 3).empty() &&
                   !file->WriteSimple(0, "a") && file->AppendSimple("a") == -1 && file->ExpandSimple(1) == -1, "simple [%s]", s.Str().c_str());
          file->IsMemoryMapping();
          file->IsAtomic();
          Same(cl);
          events++;
          break;
        }
        default: {
          std::string p;
          switch (c.Draw(3)) {
            case 0: p = c.dir + "/absent/file"; break;
            case 1: p = c.dir + "/dir"; mkdir(p.c_str(), 0755); break;
            default: p = c.dir; break;
          }
          const StrMap f2 = Snapshot(c.dir);
          const Status st = OpenIt(p, c.Bool(), c.Draw(32) & ~(s.file == F_STD ? 12 : 0));
          c.Log("Open(%s) -> %s", p.substr(c.dir.size()).c_str(), ToString(st).c_str());
          if (s.file != F_STD || p == c.dir + "/absent/file")
            VT_CHECK(c, "file-open-bad", st != Status::SUCCESS, "%s [%s]", p.c_str(), s.Str().c_str());
          if (st == Status::SUCCESS) file->Close();
          const std::string d = DiffFiles(f2, Snapshot(c.dir));
          VT_CHECK(c, "file-open-bad", d.empty(), "%s", d.c_str());
          events++;
          break;
        }
      }
    } else {
      switch (c.Weighted({3, 1, 4, 2, 1})) {
        case 0: {
          const Status st = file->Close();
          c.Log("Close -> %s", ToString(st).c_str());
          Is("file-close", "Close", st, Status::SUCCESS);
          open = false;
          events++;
          std::string data;
          ReadFile(path, &data);
          VT_CHECK(c, "file-close", data == content, "%zu bytes after Close, want %zu [%s]", data.size(), content.size(), s.Str().c_str());
          if (!writable) {
            const std::string d = DiffFiles(before, Snapshot(c.dir));
            VT_CHECK(c, "file-readonly", d.empty(), "%s [%s]", d.c_str(), s.Str().c_str());
          }
          break;
        }
        case 1: {
          const bool other = c.Bool();
          const Status st = OpenIt(other ? c.dir + "/other" : path, c.Bool(), c.Draw(32));
          c.Log("second Open -> %s", ToString(st).c_str());
          Is("file-double-open", "Open of an open file", st, PRE);
          Same("file-double-open");
          events++;
          break;
        }
        case 2: {
          const std::string data = c.BytesOfSize(c.PickOf<size_t>({5, 1, 100, 5000}), 0);
          int64_t x = -1;
          int op = c.Draw(6);
          // The class for standard streams truncates by the path.
          if (op == 2 && s.file == F_STD && no_path) op = 4;
          Status st(Status::SUCCESS);
          const int64_t off = c.Draw(content.size() + 10);
          const int64_t cut = c.Draw(content.size() + 20);
          switch (op) {
            case 0: st = file->Append(data.data(), data.size(), &x); break;
            case 1: st = file->Write(off, data.data(), data.size()); break;
            case 2: st = file->Truncate(cut); break;
            case 3: st = file->Expand(data.size(), &x); break;
            case 4: st = file->Synchronize(c.Bool()); break;
            default: st = Status(writable ? Status::SUCCESS : Status::PRECONDITION_ERROR); break;
          }
          c.Log("update %d, %zu bytes -> %s", op, data.size(), ToString(st).c_str());
          if (!writable) {
            if (op >= 4) { Same("file-refuse"); break; }
            Is("file-refuse", "update of a file for reading", st, PRE);
            Same("file-refuse");
            events++;
          } else {
            Is("file-update", "update", st, Status::SUCCESS);
            if (op == 0) content += data;
            if (op == 1) {
              if (content.size() < off + data.size()) content.resize(off + data.size());
              content.replace(off, data.size(), data);
            }
            if (op == 2) content.resize(cut);
            if (op == 3) content.resize(content.size() + data.size());
            if (op == 0 || op == 3) VT_CHECK(c, "file-update", x == (int64_t)(content.size() - data.size()), "offset %lld", (long long)x);
          }
          break;
        }
        case 3: {
          const int how = c.Draw(4);
          std::string dest = c.dir + (how == 0 ? "/absent/x" : how == 1 ? "/new" : "/file");
          if (how == 3) dest = c.dir + "/over";
          if (how == 3 && dest != path) { WriteFile(dest, "something else"); }
          const StrMap f2 = Snapshot(c.dir);
          const Status st = file->Rename(dest);
          c.Log("Rename(%s) -> %s", dest.substr(c.dir.size()).c_str(), ToString(st).c_str());
          if (no_path) {
            Is("file-rename", "Rename without path operations", st, PRE);
          } else if (how == 0) {
            VT_CHECK(c, "file-rename", st != Status::SUCCESS, "to an absent directory");
            const std::string d = DiffFiles(f2, Snapshot(c.dir));
            VT_CHECK(c, "file-rename", d.empty(), "%s", d.c_str());
          } else {
            Is("file-rename", "Rename", st, Status::SUCCESS);
            path = dest;
            if (!writable) before = Snapshot(c.dir);
          }
          events++;
          break;
        }
        default:
          if (c.Chance(1, 3) && !no_path) {
            Is("file-path", "DisablePathOperations", file->DisablePathOperations(), Status::SUCCESS);
            c.Log("DisablePathOperations");
            no_path = true;
          }
          break;
      }
    }
    if (!writable && open) {
      // Renaming is not an update of the content, and other files are written by the case itself.
      before = Snapshot(c.dir);
    }
    State();
  }
  if (open) Is("file-close", "Close", file->Close(), Status::SUCCESS);
  if (events >= 3 && exists) c.NonTrivial();
}

// ------------------------------------------------------------------ locks between processes

namespace {

// Runs a function in another process and returns what it returned, or -1.
template <typename F>
pid_t Fork(F f) {
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    _exit(f());
  }
  return pid;
}
int Wait(pid_t pid) {
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
void Sleep(double sec) {
  struct timespec ts = {(time_t)sec, (long)((sec - (time_t)sec) * 1e9)};
  nanosleep(&ts, nullptr);
}

}  // namespace

VT_SUITE(life_lock) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, SKIP, TINY, BABY, CACHE});
  if (c.Chance(1, 4)) s.poly = true;
  else if (c.Chance(1, 6) && s.kind != SKIP) s.shards = c.Range(1, 2);
  GenTuning(c, &s);
  if (s.file == F_STD) s.file = F_MMAP_PARA;  // which does not lock
  if (!s.injective()) { s.comp = LEX; s.tp.key_comparator = nullptr; }
  const std::string path = c.dir + "/db." + s.Ext();
  c.Log("%s", s.Str().c_str());
  c.Tag(KindName(s.kind));
  auto db = MakeDbm(s);
  StrMap model;
  int probes = 0, refused = 0;
  {
    Status st = OpenDbm(s, db.get(), path, true);
    VT_CHECK(c, "lock-open", st == Status::SUCCESS, "%s", ToString(st).c_str());
    st |= db->Set("first", "value");
    st |= db->Close();
    model["first"] = "value";
    VT_CHECK(c, "lock-open", st == Status::SUCCESS, "%s", ToString(st).c_str());
  }
  bool open = false, writable = false, locked = false;
  int serial = 0;
  for (int i = 0; c.More(i, 8, 24); i++) {
    const int op = c.Weighted({3, 5, 4, 1});
    if (op == 0) {
      if (open) {
        const Status st = db->Close();
        c.Log("Close -> %s", ToString(st).c_str());
        VT_CHECK(c, "lock-close", st == Status::SUCCESS, "%s", ToString(st).c_str());
        open = locked = false;
      } else {
        writable = c.Chance(2, 3);
        const int options = c.Chance(1, 5) ? File::OPEN_NO_LOCK : c.Chance(1, 4) ? File::OPEN_NO_WAIT : 0;
        const Status st = OpenDbm(s, db.get(), path, writable, options);
        c.Log("Open(writable=%d, options=%d) -> %s", writable, options, ToString(st).c_str());
        VT_CHECK(c, "lock-open", st == Status::SUCCESS, "%s [%s]", ToString(st).c_str(), s.Str().c_str());
        open = true;
        locked = !(options & File::OPEN_NO_LOCK);
      }
    } else if (op == 1) {
      // Another process tries.
      const bool w = c.Bool();
      int options = File::OPEN_NO_WAIT;
      if (c.Chance(1, 4)) options |= File::OPEN_TRUNCATE;
      if (c.Chance(1, 4)) options |= File::OPEN_NO_CREATE;
      const bool conflict = open && locked && (writable || w);
      if (!conflict) {
        // Two of them at work at a time is what locks are for.
        if (open && (writable || w)) continue;
        options &= ~File::OPEN_TRUNCATE;
      }
      const size_t want = model.size();
      const int rc = Wait(Fork([&]() {
        // Not in the holder, since closing a descriptor of a file releases the locks of the process.
        const StrMap files = Snapshot(c.dir);
        auto d = MakeDbm(s);
        const Status st = OpenDbm(s, d.get(), path, w, options);
        if (st != Status::SUCCESS) return DiffFiles(files, Snapshot(c.dir)).empty() ? 1 : 4;
        int ret = 0;
        if (!conflict && d->CountSimple() != (int64_t)want) ret = 2;
        if (d->Close() != Status::SUCCESS) ret = 3;
        return ret;
      }));
      c.Log("another process opens (writable=%d, options=%d) -> %d", w, options, rc);
      probes++;
      if (conflict) {
        VT_CHECK(c, "lock-effect", rc != 4, "a refused Open (writable=%d, options=%d) changed the files [%s]", w, options, s.Str().c_str());
        VT_CHECK(c, "lock-conflict", rc == 1, "another process could open (writable=%d, options=%d): %d, held by %s [%s]", w, options,
                 rc, writable ? "a writer" : "a reader", s.Str().c_str());
        refused++;
      } else {
        VT_CHECK(c, "lock-share", rc == 0, "another process could not open (writable=%d, options=%d): %d, held by %s [%s]", w, options,
                 rc, !open ? "nobody" : "a reader", s.Str().c_str());
      }
    } else if (op == 2) {
      if (!open) continue;
      Status st(Status::SUCCESS);
      int64_t num = 0;
      const int what = c.Draw(writable ? 8 : 3);
      switch (what) {
        case 0: {
          StrMap got = Scan(c, db.get(), "lock-scan");
          VT_CHECK(c, "lock-content", got == model, "%zu records, want %zu [%s]", got.size(), model.size(), s.Str().c_str());
          break;
        }
        case 1: db->Inspect(); break;
        case 2: st = db->Count(&num); break;
        case 3: st = db->Synchronize(c.Bool()); break;
        case 4: st = db->Rebuild(); break;
        case 5: st = db->Clear(); model.clear(); break;
        default: {
          const std::string key = vt::StrF("k%d", serial++);
          st = db->Set(key, "value");
          model[key] = "value";
          if (s.kind == SKIP) st |= db->Synchronize(false);
        }
      }
      c.Log("operation %d -> %s", what, ToString(st).c_str());
      VT_CHECK(c, "lock-op", st == Status::SUCCESS, "operation %d: %s [%s]", what, ToString(st).c_str(), s.Str().c_str());
    } else {
      // Another process waits until the database is closed, and updates it.
      if (!open || !writable || !locked) continue;
      const std::string mark = vt::StrF("mark%d", serial++);
      const pid_t pid = Fork([&]() {
        auto d = MakeDbm(s);
        if (OpenDbm(s, d.get(), path, true) != Status::SUCCESS) return 1;
        if (d->Set(mark, "by another") != Status::SUCCESS) return 2;
        if (d->Close() != Status::SUCCESS) return 3;
        return 0;
      });
      Sleep(c.PickOf<double>({0.02, 0.0, 0.005}));
      Status st(Status::SUCCESS);
      const int n = c.Draw(3);
      std::string did;
      for (int j = 0; j < n; j++) {
        const int what = c.Draw(4);
        switch (what) {
          case 0: st |= db->Synchronize(false); did += " synchronize"; break;
          case 1: st |= db->Rebuild(); did += " rebuild"; break;
          default: {
            const std::string key = vt::StrF("k%d", serial++);
            st |= db->Set(key, "value");
            if (s.kind == SKIP) st |= db->Synchronize(false);
            model[key] = "value";
            did += " set";
          }
        }
      }
      int early = 0;
      const bool ended = waitpid(pid, &early, WNOHANG) == pid;
      const Status st2 = db->Close();
      open = locked = false;
      const int rc = ended ? (WIFEXITED(early) ? WEXITSTATUS(early) : 999) : Wait(pid);
      model[mark] = "by another";
      c.Log("another process waits; meanwhile%s; Close -> %s; it ends with %d", did.c_str(), ToString(st2).c_str(), rc);
      VT_CHECK(c, "lock-wait", !ended, "another process could open the database while it was open [%s]; meanwhile%s", s.Str().c_str(), did.c_str());
      VT_CHECK(c, "lock-wait", st == Status::SUCCESS && st2 == Status::SUCCESS, "%s, %s", ToString(st).c_str(), ToString(st2).c_str());
      VT_CHECK(c, "lock-wait", rc == 0, "the other process failed: %d [%s]; meanwhile%s", rc, s.Str().c_str(), did.c_str());
      const Status st3 = OpenDbm(s, db.get(), path, false);
      VT_CHECK(c, "lock-wait", st3 == Status::SUCCESS, "%s", ToString(st3).c_str());
      const StrMap got = Scan(c, db.get(), "lock-scan");
      VT_CHECK(c, "lock-wait", got == model, "updates of one of two processes are lost: %zu records, want %zu [%s]; meanwhile%s",
               got.size(), model.size(), s.Str().c_str(), did.c_str());
      db->Close();
      c.Tag("wait");
      probes++;
    }
  }
  if (open) db->Close();
  if (probes >= 2 && refused >= 1) c.NonTrivial();
}

// A known finding, which is only replayed: POSIX locks of a process on a file are lost when the
// process closes any descriptor of the file, which is what copying it does.
VT_SUITE(life_lock_copy) {
  const int kind = c.PickOf<int>({HASH, TREE, SKIP});
  Spec s;
  s.kind = kind;
  const std::string path = c.dir + "/db." + s.Ext();
  auto db = MakeDbm(s);
  Status st = OpenDbm(s, db.get(), path, true);
  st |= db->Set("first", "value");
  st |= db->Synchronize(false);
  st |= db->CopyFileData(c.dir + "/copy");
  VT_CHECK(c, "lock-op", st == Status::SUCCESS, "%s", ToString(st).c_str());
  const int rc = Wait(Fork([&]() {
    auto d = MakeDbm(s);
    return OpenDbm(s, d.get(), path, true, File::OPEN_NO_WAIT) == Status::SUCCESS ? 0 : 1;
  }));
  db->Close();
  VT_CHECK(c, "lock-after-copy", rc == 1, "another process could open the database of a writer which had copied it [%s]", s.Str().c_str());
}
