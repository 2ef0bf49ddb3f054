// Copies of live databases, and exports and imports: R07.
#include "dbm_model.h"
#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm_common_impl.h"

using namespace m;
using vt::Case;

namespace {

void WriteOld(Case& c, const std::string& path) {
  // What is there before is replaced.
  const std::string old = c.BytesOfSize(c.PickOf<size_t>({0, 10, 5000, 60000}), 1);
  WriteFile(path, old);
}

typedef std::map<std::string, std::string> StrMap;

std::vector<std::pair<std::string, std::string>> Scan(Case& c, DBM* db) {
  struct P : public DBM::RecordProcessor {
    std::vector<std::pair<std::string, std::string>> v;
    std::string_view ProcessFull(std::string_view k, std::string_view v2) override { v.emplace_back(k, v2); return NOOP; }
  } p;
  VT_CHECK(c, "xfer-scan", db->ProcessEach(&p, false) == Status::SUCCESS, "scan");
  return p.v;
}

std::string Diff(const StrMap& got, const StrMap& want) {
  std::string s = vt::StrF("%zu records, want %zu", got.size(), want.size());
  for (const auto& e : want) {
    auto it = got.find(e.first);
    if (it == got.end()) return s + "; no " + vt::Esc(e.first, 60);
    if (it->second != e.second) return s + "; " + vt::Esc(e.first, 60) + " is " + vt::Esc(it->second, 60) + ", want " + vt::Esc(e.second, 60);
  }
  for (const auto& e : got) if (!want.count(e.first)) return s + "; unexpected " + vt::Esc(e.first, 60);
  return s;
}

struct Db {
  Spec s;
  std::string path;
  std::unique_ptr<DBM> db;
  StrMap model;
};

void OpenAny(Case& c, Db* d, const std::string& path, bool file_ok) {
  d->s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, CACHE, STDHASH, STDTREE, SKIP});
  const int how = c.Draw(5);
  if (how == 3) d->s.poly = true;
  if (how == 4 && d->s.kind != SKIP) d->s.shards = c.Range(1, 3);
  GenTuning(c, &d->s);
  if (!d->s.injective()) { d->s.comp = LEX; d->s.tp.key_comparator = nullptr; }
  d->db = MakeDbm(d->s);
  const bool mem = d->s.kind != HASH && d->s.kind != TREE && d->s.kind != SKIP && !d->s.poly && d->s.shards == 0;
  d->path = path + "." + d->s.Ext();
  (void)file_ok;
  if (mem && c.Bool()) { d->path.clear(); return; }
  const Status st = OpenDbm(d->s, d->db.get(), d->path, true);
  VT_CHECK(c, "xfer-open", st == Status::SUCCESS, "%s: %s", d->s.Str().c_str(), ToString(st).c_str());
}

void Fill(Case& c, Db* d, size_t max, int avg, bool clean) {
  const KeyGen kg = GenKeyGen(c, d->s);
  for (int i = 0; c.More(i, avg, 400); i++) {
    std::string k = clean ? vt::StrF("k%llu", (unsigned long long)c.Draw(200)) : c.Chance(1, 4) ? c.Bytes(20) : kg(c);
    std::string v = clean ? StrTrimForTSV(c.Bytes(30), true) : c.Bool() ? c.Bytes(40) : GenValue(c, max);
    if (d->s.kind == SKIP && d->model.count(k)) continue;
    VT_CHECK(c, "xfer-set", d->db->Set(k, v) == Status::SUCCESS, "set");
    d->model[k] = v;
    if (d->s.kind != SKIP && c.Chance(1, 10) && !d->model.empty()) {
      const std::string r = d->model.begin()->first;
      VT_CHECK(c, "xfer-set", d->db->Remove(r) == Status::SUCCESS, "remove");
      d->model.erase(r);
    }
  }
  if (d->s.kind == SKIP) VT_CHECK(c, "xfer-sync", d->db->Synchronize(false) == Status::SUCCESS, "synchronize");
}

void Check(Case& c, const char* cls, Db* d) {
  if (d->s.kind == SKIP && d->db->IsWritable()) {
    // Imported records follow those which were there.
    const Status st = dynamic_cast<SkipDBM*>(d->db.get()) ?
        dynamic_cast<SkipDBM*>(d->db.get())->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast) :
        dynamic_cast<ParamDBM*>(d->db.get())->SynchronizeAdvanced(false, nullptr, {{"reducer", "last"}});
    VT_CHECK(c, "xfer-sync", st == Status::SUCCESS, "synchronize: %s", ToString(st).c_str());
  }
  const auto v = Scan(c, d->db.get());
  StrMap got(v.begin(), v.end());
  VT_CHECK(c, cls, got == d->model && v.size() == d->model.size(), "%s: %s", d->s.Str().c_str(), Diff(got, d->model).c_str());
  int64_t count = -1;
  VT_CHECK(c, cls, d->db->Count(&count) == Status::SUCCESS && count == (int64_t)d->model.size(), "the count is %lld of %zu",
           (long long)count, d->model.size());
}

// A file to exchange records with.
struct Xfile {
  Spec s;
  std::string path;
  std::unique_ptr<File> file;
  void Open(Case& c, bool writable) {
    file = MakeFile(s);
    VT_CHECK(c, "xfer-file", file->Open(path, writable) == Status::SUCCESS, "open of a file");
  }
  Xfile(Case& c) {
    s.kind = TINY;
    GenFile(c, &s);
    path = c.dir + "/flat";
    if (c.Bool()) {
      Open(c, true);
      const std::string junk = c.BytesOfSize(c.PickOf<size_t>({5, 3000}), 1);
      file->Write(0, junk.data(), junk.size());
      file->Close();
    }
    Open(c, true);
  }
  void Reopen(Case& c) {
    if (c.Bool()) return;
    VT_CHECK(c, "xfer-file", file->Close() == Status::SUCCESS, "close of a file");
    Open(c, c.Bool());
  }
};

}  // namespace

// A copy is a database of its own.
VT_SUITE(copy_live) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  const int how = c.Draw(6);
  if (how == 4) s.poly = true;
  if (how == 5) s.shards = c.Range(1, 3);
  GenTuning(c, &s);
  struct One {
    std::unique_ptr<Ctx> x;
    bool open = true;
  };
  std::vector<One> all;
  all.push_back({std::make_unique<Ctx>(c, s)});
  Ctx& first = *all[0].x;
  first.path = c.dir + "/db0." + s.Ext();
  first.kg = GenKeyGen(c, s);
  first.max_value = c.PickOf<size_t>({200, 20, 1000, 5000});
  c.Log("spec: %s", s.Str().c_str());
  first.Open(true);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::COPY] = 0;
  if (c.Bool()) { w[Ctx::SYNC] = 4; w[Ctx::REOPEN] = 4; w[Ctx::REBUILD] = 3; }
  int avg, max, copies = 0;
  if (c.thorough) { avg = c.PickOf({40, 120}); max = 800; } else { avg = c.PickOf({30, 60}); max = 200; }
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  int64_t since = 0;
  for (int i = 0; c.More(i, avg, max); i++) {
    if (!c.Chance(1, 12)) {
      auto& o = all[c.Draw(all.size())];
      c.Log("[%d] ", (int)(&o - &all[0]));
      o.x->Step(w);
      if (all.size() > 1) since++;
      continue;
    }
    // Copy one to a new place or over another one.
    const size_t from = c.Draw(all.size());
    size_t to = all.size() >= 3 ? 1 + c.Draw(2) : all.size();
    if (to == from) continue;
    Ctx& src = *all[from].x;
    const std::string dest = c.dir + vt::StrF("/db%zu.", to) + s.Ext();
    if (to < all.size()) {
      all[to].x->FullCheck("overwritten-");
      all[to].x->Close();
      all[to].x->db.reset();
    } else if (c.Bool()) {
      if (s.shards == 0) WriteOld(c, dest);
    }
    const bool hard = c.Chance(1, 10);
    c.Log("copy %zu -> %zu hard=%d", from, to, hard);
    src.Expect("copy-file-data", src.db->CopyFileData(dest, hard), Status::SUCCESS);
    auto y = std::make_unique<Ctx>(c, src.spec);
    y->path = dest;
    y->model = src.model;
    y->kg = src.kg;
    y->strict_keys = src.strict_keys;
    y->max_value = src.max_value;
    y->wtime = src.wtime;
    if (c.Bool()) y->MutateOpenParams();
    if (c.Chance(1, 4)) {
      y->Open(false);
      y->FullCheck("copy-");
      y->Close();
      y->db.reset();
    }
    y->Open(true);
    if (c.Bool()) y->FullCheck("copy-");
    if (to < all.size()) { y->updates += all[to].x->updates; all[to].x = std::move(y); } else all.push_back({std::move(y)});
    copies++;
  }
  for (auto& o : all) {
    o.x->FullCheck("end-");
    o.x->Validate();
    o.x->Close();
    o.x->db.reset();
  }
  int64_t updates = 0;
  for (auto& o : all) {
    o.x->Open(true);
    o.x->FullCheck("reopened-");
    o.x->Validate();
    o.x->Close();
    updates += o.x->updates;
  }
  c.NonTrivial(copies >= 1 && updates >= 3 && since >= 2);
  c.Tag("copies", copies);
  c.Tag("steps-after", since);
  c.Tag(KindName(s.kind));
}

// All records go to another database, directly or by files.
VT_SUITE(xfer) {
  Db a, b;
  OpenAny(c, &a, c.dir + "/a", true);
  OpenAny(c, &b, c.dir + "/b", true);
  const int form = c.Draw(5);  // direct, flat, escaped text, text, flat to text
  const bool clean = form == 3;
  c.Log("%s -> %s, form %d", a.s.Str().c_str(), b.s.Str().c_str(), form);
  Fill(c, &a, c.PickOf<size_t>({100, 1000, 5000}), c.thorough ? 60 : 25, clean);
  if (a.s.kind == CACHE) { a.model.clear(); for (auto& e : Scan(c, a.db.get())) a.model.insert(e); }
  if (c.Bool() && b.s.kind != SKIP) Fill(c, &b, 100, 5, clean);
  const auto scan = Scan(c, a.db.get());
  if (c.Chance(1, 8) && !a.path.empty()) {
    // From a read-only one.
    a.db->Close();
    a.db = MakeDbm(a.s);
    VT_CHECK(c, "xfer-open", OpenDbm(a.s, a.db.get(), a.path, false) == Status::SUCCESS, "open");
  }
  if (b.s.kind == CACHE) b.s.cap_rec = -1;
  if (form == 0) {
    const Status st = a.db->Export(b.db.get());
    VT_CHECK(c, "xfer-export", st == Status::SUCCESS, "Export: %s", ToString(st).c_str());
  } else if (form == 1 || form == 4) {
    Xfile f(c);
    Status st = ExportDBMToFlatRecords(a.db.get(), f.file.get());
    VT_CHECK(c, "xfer-flat", st == Status::SUCCESS, "ExportDBMToFlatRecords: %s", ToString(st).c_str());
    f.Reopen(c);
    FlatRecordReader reader(f.file.get(), c.PickOf<size_t>({1, 10, 100, 5000}));
    std::vector<std::string> recs, want;
    std::string_view rec;
    FlatRecord::RecordType type;
    while ((st = reader.Read(&rec, &type)) == Status::SUCCESS) {
      VT_CHECK(c, "xfer-flat", type == FlatRecord::RECORD_NORMAL, "type");
      recs.emplace_back(rec);
    }
    VT_CHECK(c, "xfer-flat", st == Status::NOT_FOUND_ERROR, "reading: %s", ToString(st).c_str());
    StrMap rec_map;
    for (size_t i = 0; i + 1 < recs.size(); i += 2) rec_map[recs[i]] = recs[i + 1];
    const auto now = Scan(c, a.db.get());
    for (const auto& e : now) { want.push_back(e.first); want.push_back(e.second); }
    VT_CHECK(c, "xfer-flat", recs == want, "the flat file has %zu records, want %zu: %s", recs.size(), want.size(),
             Diff(rec_map, a.model).c_str());
    st = ImportDBMFromFlatRecords(b.db.get(), f.file.get());
    VT_CHECK(c, "xfer-flat", st == Status::SUCCESS, "ImportDBMFromFlatRecords: %s", ToString(st).c_str());
    VT_CHECK(c, "xfer-file", f.file->Close() == Status::SUCCESS, "close of a file");
    if (form == 4) {
      Xfile g(c);
      // The keys alone.
      const bool lines = c.Bool();
      st = lines ? ExportDBMKeysAsLines(a.db.get(), g.file.get()) : ExportDBMKeysToFlatRecords(a.db.get(), g.file.get());
      VT_CHECK(c, "xfer-keys", st == Status::SUCCESS, "keys: %s", ToString(st).c_str());
      g.Reopen(c);
      if (lines) {
        std::string text, expect;
        int64_t size = 0;
        g.file->GetSize(&size);
        text.resize(size);
        if (size > 0) g.file->Read(0, &text[0], size);
        for (const auto& e : now) expect += e.first + "\n";
        VT_CHECK(c, "xfer-keys", text == expect, "the lines of keys are %s, want %s", vt::Esc(text, 200).c_str(), vt::Esc(expect, 200).c_str());
      } else {
        FlatRecordReader r2(g.file.get());
        size_t i = 0;
        while (r2.Read(&rec) == Status::SUCCESS) {
          VT_CHECK(c, "xfer-keys", i < now.size() && rec == now[i].first, "key %zu is %s", i, vt::Esc(rec).c_str());
          i++;
        }
        VT_CHECK(c, "xfer-keys", i == now.size(), "%zu keys of %zu", i, now.size());
      }
      g.file->Close();
    }
  } else {
    Xfile f(c);
    Status st = ExportDBMToTSV(a.db.get(), f.file.get(), form == 2);
    VT_CHECK(c, "xfer-tsv", st == Status::SUCCESS, "ExportDBMToTSV: %s", ToString(st).c_str());
    f.Reopen(c);
    // A line for each record.
    int64_t size = 0;
    f.file->GetSize(&size);
    std::string text(size, 0);
    if (size > 0) f.file->Read(0, &text[0], size);
    VT_CHECK(c, "xfer-tsv", (size_t)std::count(text.begin(), text.end(), '\n') == a.model.size(), "%zu lines for %zu records",
             (size_t)std::count(text.begin(), text.end(), '\n'), a.model.size());
    st = ImportDBMFromTSV(b.db.get(), f.file.get(), form == 2);
    VT_CHECK(c, "xfer-tsv", st == Status::SUCCESS, "ImportDBMFromTSV: %s", ToString(st).c_str());
    f.file->Close();
  }
  Check(c, "xfer-source", &a);
  const StrMap before = b.model;
  for (const auto& e : a.model) b.model[e.first] = e.second;
  if (b.s.kind == CACHE) {
    for (const auto& e : Scan(c, b.db.get()))
      VT_CHECK(c, "xfer-dest", b.model.count(e.first) && b.model[e.first] == e.second, "the destination has %s=%s", vt::Esc(e.first).c_str(), vt::Esc(e.second).c_str());
  } else {
    Check(c, "xfer-dest", &b);
  }
  a.db->Close();
  if (!b.path.empty() && b.s.kind != CACHE) {
    VT_CHECK(c, "xfer-close", b.db->Close() == Status::SUCCESS, "close");
    b.db = MakeDbm(b.s);
    VT_CHECK(c, "xfer-open", OpenDbm(b.s, b.db.get(), b.path, true) == Status::SUCCESS, "open");
    Check(c, "xfer-reopened", &b);
    b.db->Close();
  }
  c.NonTrivial(a.model.size() >= 3);
  const char* const names[] = {"direct", "flat", "tsv-escaped", "tsv", "flat-keys"};
  c.Tag(names[form]);
  c.Tag(KindName(a.s.kind));
}

// Files written by others.
VT_SUITE(import_foreign) {
  Db b;
  OpenAny(c, &b, c.dir + "/b", true);
  c.Log("%s", b.s.Str().c_str());
  Xfile f(c);
  VT_CHECK(c, "xfer-file", f.file->Truncate(0) == Status::SUCCESS, "truncate");
  Status::Code want = Status::SUCCESS;
  StrMap prefix;
  const bool flat = c.Bool(), unescape = c.Bool();
  size_t n = 0;
  if (flat) {
    for (int i = 0; c.More(i, 12, 100); i++) {
      FlatRecord rec(f.file.get());
      if (c.Chance(1, 10)) VT_CHECK(c, "xfer-write", rec.Write(c.Bytes(20), FlatRecord::RECORD_METADATA) == Status::SUCCESS, "write");
      const std::string k = vt::StrF("%llu", (unsigned long long)c.Draw(20)), v = GenValue(c, 500);
      VT_CHECK(c, "xfer-write", rec.Write(k) == Status::SUCCESS, "write");
      const int end = c.Chance(1, 40) ? 1 + c.Draw(2) : 0;
      if (end == 1) { want = Status::BROKEN_DATA_ERROR; break; }  // no value
      if (end == 2) {
        VT_CHECK(c, "xfer-write", rec.Write("meta", FlatRecord::RECORD_METADATA) == Status::SUCCESS && rec.Write(v) == Status::SUCCESS, "write");
        want = Status::BROKEN_DATA_ERROR;
        break;
      }
      VT_CHECK(c, "xfer-write", rec.Write(v) == Status::SUCCESS, "write");
      prefix[k] = v;
      n++;
    }
  } else {
    std::string text;
    for (int i = 0; c.More(i, 12, 100); i++) {
      switch (c.Weighted({8, 1, 1, 1})) {
        case 0: {
          const std::string k = vt::StrF("%llu", (unsigned long long)c.Draw(20));
          std::string v = GenValue(c, 200);
          for (char& ch : v) if (ch == '\n') ch = '\r';
          if (unescape && c.Bool()) v = StrEscapeC(v, c.Bool());
          else if (unescape) for (char& ch : v) if (ch == '\\') ch = '/';
          text += k + "\t" + v + "\n";
          prefix[k] = unescape ? StrUnescapeC(v) : v;
          n++;
          break;
        }
        case 1: text += "\n"; break;
        case 2: text += "no tab here\n"; break;
        case 3: text += "\tvalue of the empty key\n"; prefix[""] = "value of the empty key"; n++; break;
      }
    }
    if (!text.empty() && c.Bool()) text.pop_back();
    if (!text.empty()) VT_CHECK(c, "xfer-file", f.file->Write(0, text.data(), text.size()) == Status::SUCCESS, "write");
  }
  f.Reopen(c);
  const Status st = flat ? ImportDBMFromFlatRecords(b.db.get(), f.file.get()) : ImportDBMFromTSV(b.db.get(), f.file.get(), unescape);
  VT_CHECK(c, "xfer-import", st == want, "the import says %s, expected %s", ToString(st).c_str(), Status::CodeName(want));
  f.file->Close();
  b.model = prefix;
  if (b.s.kind != CACHE) Check(c, "xfer-import", &b);
  b.db->Close();
  c.NonTrivial(n >= 3);
  c.Tag(flat ? "flat" : "tsv");
}
