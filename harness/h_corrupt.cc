// Corrupt and foreign files: R05.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>

#include "dbm_model.h"
#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"

using namespace m;
using vt::Case;

namespace {

typedef std::map<std::string, std::string> StrMap;

// A garbage size may not fill the scratch directory: growing a file beyond the limit is an error like a
// full disk is.
void LimitFiles() {
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit rl = {64 << 20, 64 << 20};
  setrlimit(RLIMIT_FSIZE, &rl);
}

// Damages the bytes.  Returns how many changes were made.
int Mutate(Case& c, std::string* d, size_t from = 0) {
  int n = 0;
  const int most = c.Weighted({6, 3, 1}) == 0 ? 1 : c.Range(1, 6);
  for (int i = 0; i < most; i++) {
    vt::Case::Span span(c);
    if (d->size() <= from) { d->append(c.Bytes(50)); n++; continue; }
    // The headers and the beginnings are small in size and great in weight.
    const size_t span_size = c.Chance(1, 3) ? std::min<size_t>(d->size() - from, 160) : d->size() - from;
    const size_t p = from + c.Draw(span_size);
    const size_t left = d->size() - p;
    const std::string was = *d;
    int how = c.Weighted({4, 4, 4, 3, 3, 2, 2, 2, 1, 1});
    switch (how) {
      case 0: (*d)[p] ^= 1 << c.Draw(8); break;
      case 1: (*d)[p] = c.PickOf<int>({0, 0xFF, 0x7F, 0x80, 1, 0xFE, 0x20}); break;
      case 2: {  // integers of any width
        static const uint64_t nums[] = {0, 1, UINT64_MAX, INT64_MAX, 1ull << 31, UINT32_MAX, 1ull << 40, 0xFFFFFFFFFFFFFF00, 1ull << 63, INT32_MAX, 1 << 30, 100000};
        uint64_t v = nums[c.Draw(12)];
        if (c.Chance(1, 4)) v = d->size() + c.Draw(20) - 10;
        const size_t w = std::min(left, c.PickOf<size_t>({4, 8, 2, 3, 5, 6, 1}));
        for (size_t j = 0; j < w; j++) (*d)[p + j] = v >> (8 * (w - 1 - j));
        break;
      }
      case 3: {  // integers with a variable length
        const std::string num = c.PickOf<std::string>({"\xFF\xFF\xFF\x7F", "\x8F\xFF\xFF\xFF\x7F", "\x83\xFF\xFF\xFF\x7F", "\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\x80", "\x81\x80\x80\x00", "\x87\xFF\xFF\xFF\x70"});
        const size_t w = std::min(left, num.size());
        d->replace(p, w, num.substr(0, w));
        break;
      }
      case 4: {  // pieces of the file itself, such as offsets
        const size_t q = from + c.Draw(d->size() - from);
        const size_t w = std::min({left, d->size() - q, c.PickOf<size_t>({4, 3, 6, 8, 1, 16, 64, 300})});
        const std::string piece = d->substr(q, w);
        d->replace(p, w, piece);
        break;
      }
      case 5: {
        const size_t w = std::min<size_t>(left, c.Size(64) + 1);
        d->replace(p, w, c.BytesOfSize(w, c.Draw(3)));
        break;
      }
      case 6: d->resize(p); break;
      case 7: d->append(c.Bool() ? std::string(c.Size(5000) + 1, 0) : c.BytesOfSize(c.Size(300) + 1, 0)); break;
      case 8: d->erase(p, std::min<size_t>(left, c.Size(40) + 1)); break;
      default: d->insert(p, c.BytesOfSize(c.Size(40) + 1, c.Draw(2))); break;
    }
    c.Log("damage %d at %zu of %zu bytes%s", how, p, was.size(), was == *d ? " (none)" : "");
    if (was != *d) n++;
  }
  return n;
}

std::string Foreign(Case& c) {
  std::string s;
  switch (c.Draw(4)) {
    case 0: break;
    case 1: s = c.PickOf<std::string>({"TkrzwHDB\n", "TkrzwSDB\n", "TkrzwMQX\n", "TkrzwREC", "TDB", "\xFF", "\xFE"}); break;
    default: s = std::string(c.Draw(2) ? "TkrzwHDB\n" : "TkrzwSDB\n", 9); break;
  }
  if (c.Bool()) s.resize(std::max<size_t>(s.size(), c.PickOf<size_t>({128, 4096, 10000, 64})), 0);
  s += c.BytesOfSize(c.Size(400), c.Draw(3));
  return s;
}

std::string Key(Case& c, const std::vector<std::string>& keys) {
  if (!keys.empty() && c.Bool()) return keys[c.Draw(keys.size())];
  return c.Bytes(20);
}

// Calls any operations; nothing is known of their results.
int Exercise(Case& c, DBM* db, const std::vector<std::string>& keys, bool quick = false) {
  int calls = 0;
  std::string k, v;
  struct P : public DBM::RecordProcessor {
    std::string put;
    int n = 0;
    std::string_view what = NOOP;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      n += k.size() + v.size();
      for (char x : k) n += x;
      for (char x : v) n += x;
      return what;
    }
    std::string_view ProcessEmpty(std::string_view k) override {
      n++;
      return what.data() == REMOVE.data() ? NOOP : what;
    }
  };
  for (int i = 0; c.More(i, quick ? 4 : 9, 30); i++) {
    vt::Case::Span span(c);
    const int op = c.Weighted({8, 8, 4, 4, 3, 4, 3, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1});
    Status st(Status::SUCCESS);
    switch (op) {
      case 0: st = db->Get(Key(c, keys), &v); break;
      case 1: st = db->Set(Key(c, keys), c.Bytes(c.Chance(1, 4) ? 3000 : 60), true); break;
      case 2: st = db->Remove(Key(c, keys), &v); break;
      case 3: st = db->Append(Key(c, keys), c.Bytes(60), ","); break;
      case 4: {
        P p;
        st = db->ProcessEach(&p, false);
        break;
      }
      case 5: {
        auto it = db->MakeIterator();
        const int how = c.Draw(5);
        st = how == 0 ? it->First() : how == 1 ? it->Last() : how == 2 ? it->Jump(Key(c, keys)) :
            how == 3 ? it->JumpLower(Key(c, keys), c.Bool()) : it->JumpUpper(Key(c, keys), c.Bool());
        const bool back = c.Chance(1, 3), change = c.Chance(1, 4);
        for (int j = 0; j < 200; j++) {
          if (it->Get(&k, &v) != Status::SUCCESS) break;
          if (change && j % 3 == 0) {
            if (j % 2) it->Remove(); else it->Set("changed");
          }
          if ((back ? it->Previous() : it->Next()) != Status::SUCCESS) break;
        }
        break;
      }
      case 6: {
        P p;
        p.put = "processed";
        p.what = c.Bool() ? std::string_view(p.put) : DBM::RecordProcessor::REMOVE;
        st = db->ProcessEach(&p, true);
        break;
      }
      case 7: st = db->PopFirst(&k, &v); break;
      case 8: st = db->Synchronize(false); break;
      case 9: {
        // The number of buckets and so on are chosen anew from the number of the records, which may be garbage.
        const auto* h = dynamic_cast<HashDBM*>(db);
        if (h != nullptr) {
          HashDBM::TuningParameters tp;
          tp.num_buckets = 7;
          st = dynamic_cast<HashDBM*>(db)->RebuildAdvanced(tp);
        } else if (dynamic_cast<TreeDBM*>(db) != nullptr) {
          TreeDBM::TuningParameters tp;
          tp.num_buckets = 7;
          st = dynamic_cast<TreeDBM*>(db)->RebuildAdvanced(tp);
        } else {
          st = db->Rebuild();
        }
        break;
      }
      case 10: {
        int64_t n = 0;
        bool b = false;
        double t = 0;
        db->Count(&n); db->GetFileSize(&n); db->GetTimestamp(&t); db->ShouldBeRebuilt(&b); db->GetFilePath(&v);
        db->IsHealthy(); db->Inspect(); db->IsOrdered();
        break;
      }
      case 11: {
        if (auto* h = dynamic_cast<HashDBM*>(db)) {
          h->ValidateHashBuckets();
          h->ValidateRecords(c.PickOf<int64_t>({-1, 0, 1, 200}), c.PickOf<int64_t>({-1, 0, 500, INT64MAX}));
          h->GetOpaqueMetadata(); h->GetDatabaseType(); h->GetEffectiveDataSize(); h->IsAutoRestored(); h->CountUsedBuckets();
        } else if (auto* t = dynamic_cast<TreeDBM*>(db)) {
          t->ValidateHashBuckets();
          t->ValidateRecords(c.PickOf<int64_t>({-1, 0, 1, 200}), c.PickOf<int64_t>({-1, 0, 500, INT64MAX}));
          t->GetOpaqueMetadata(); t->GetDatabaseType(); t->GetEffectiveDataSize(); t->IsAutoRestored();
        } else if (auto* s = dynamic_cast<SkipDBM*>(db)) {
          s->ValidateRecords();
          s->GetOpaqueMetadata(); s->GetDatabaseType(); s->GetEffectiveDataSize();
          if (c.Chance(1, 3)) s->Revert();
          if (c.Chance(1, 4)) s->GetByIndex(c.Draw(20), &k, &v);
        }
        break;
      }
      case 12: st = db->Rekey(Key(c, keys), Key(c, keys), c.Bool(), c.Bool(), &v); break;
      case 13: st = db->CompareExchange(Key(c, keys), c.Bool() ? DBM::ANY_DATA : std::string_view(), c.Chance(1, 3) ? std::string_view() : std::string_view("new"), &v); break;
      case 14: {
        P p, q;
        p.put = "multi";
        p.what = p.put;
        const std::string a = Key(c, keys), b = Key(c, keys);
        st = db->ProcessMulti({{a, &p}, {b, &q}}, c.Bool());
        break;
      }
      case 15: {
        P p;
        st = db->ProcessFirst(&p, c.Bool());
        break;
      }
      case 16: {
        TinyDBM dest;
        st = db->Export(&dest);
        break;
      }
      default: st = db->Clear(); break;
    }
    c.Log("%s op %d -> %s", db->IsHealthy() ? "" : "(not healthy)", op, ToString(st).c_str());
    calls++;
  }
  return calls;
}

void GenSmall(Case& c, Spec* s) {
  GenTuning(c, s);
  if (s->kind == HASH || s->kind == TREE) {
    s->tp.num_buckets = c.PickOf<int>({7, 1, 3, 50});
    s->tp.record_comp_mode = static_cast<HashDBM::RecordCompressionMode>(c.PickOf<int>(
        {HashDBM::RECORD_COMP_NONE, HashDBM::RECORD_COMP_NONE, HashDBM::RECORD_COMP_NONE, (int)s->tp.record_comp_mode}));
  }
  if (s->block_size > 64) { s->block_size = 1; s->access = 0; }
  if (!s->injective()) { s->comp = LEX; s->tp.key_comparator = nullptr; }
}

// A closed database of the class with some records, in a file.
bool Make(Case& c, const Spec& s, const std::string& path, std::vector<std::string>* keys, StrMap* pairs = nullptr) {
  auto db = MakeDbm(s);
  Status st = OpenDbm(s, db.get(), path, true);
  VT_CHECK(c, "corrupt-make", st == Status::SUCCESS, "%s [%s]", ToString(st).c_str(), s.Str().c_str());
  const int n = c.Size(40);
  const size_t max = c.PickOf<size_t>({20, 100, 2000, 4});
  for (int i = 0; i < n; i++) {
    const std::string key = vt::StrF("k%d", (int)c.Draw(60));
    const std::string value = pairs ? c.BytesOfSize(c.Size(max), 0) : std::string(c.Size(max), 'a' + i % 26);
    st = c.Chance(1, 6) ? db->Remove(key) : db->Set(key, value);
    keys->push_back(key);
  }
  st = db->Close();
  VT_CHECK(c, "corrupt-make", st == Status::SUCCESS, "%s [%s]", ToString(st).c_str(), s.Str().c_str());
  return true;
}

// Damages the values of the records of a tree database in the hash database below it.
int MutateTree(Case& c, const Spec& s, const std::string& path) {
  HashDBM h(MakeFile(s));
  if (h.OpenAdvanced(path, true, File::OPEN_DEFAULT, s.tp) != Status::SUCCESS) return 0;
  std::vector<std::string> keys;
  auto it = h.MakeIterator();
  it->First();
  std::string k;
  while (it->Get(&k) == Status::SUCCESS && keys.size() < 1000) { keys.push_back(k); it->Next(); }
  int n = 0;
  for (int i = 0; c.More(i, 2, 8); i++) {
    if (c.Chance(1, 4)) {
      std::string o = h.GetOpaqueMetadata();
      n += Mutate(c, &o);
      h.SetOpaqueMetadata(o);
    } else if (!keys.empty()) {
      const std::string key = keys[c.Draw(keys.size())];
      std::string v;
      if (c.Chance(1, 6)) { h.Remove(key); n++; continue; }
      h.Get(key, &v);
      n += Mutate(c, &v);
      h.Set(key, v);
    }
  }
  h.Close();
  return n;
}

}  // namespace

static void CorruptDbm(Case& c, std::initializer_list<int> kinds, bool restore) {
  LimitFiles();
  Spec s;
  s.kind = c.PickOf<int>(kinds);
  GenSmall(c, &s);
  const std::string path = c.dir + "/db." + s.Ext();
  c.Log("%s", s.Str().c_str());
  c.Tag(KindName(s.kind));
  std::vector<std::string> keys;
  int damage = 0;
  if (c.Chance(1, 12)) {
    WriteFile(path, Foreign(c));
    damage++;
    c.Log("a foreign file");
  } else {
    Make(c, s, path, &keys);
    if (s.kind == TREE && c.Chance(2, 5)) {
      damage = MutateTree(c, s, path);
    } else {
      std::string data;
      ReadFile(path, &data);
      damage = Mutate(c, &data);
      WriteFile(path, data);
    }
  }
  int calls = 0;
  if (restore) {
    const std::string out = c.dir + "/restored." + s.Ext();
    Status st(Status::SUCCESS);
    const int64_t end = c.PickOf<int64_t>({-1, 0, INT64MAX, 300});
    const bool import = s.kind == HASH && c.Chance(1, 3);
    if (import) {
      Spec s2;
      s2.kind = HASH;
      GenSmall(c, &s2);
      HashDBM h(MakeFile(s2));
      st = h.OpenAdvanced(out, true, File::OPEN_DEFAULT, s2.tp);
      const bool skip = c.Bool();
      const int64_t base = c.PickOf<int64_t>({-1, 0, 1, 256, 4096});
      if (c.Bool()) st |= h.ImportFromFileForward(path, skip, base, end);
      else st |= h.ImportFromFileBackward(path, skip, base, end);
      c.Log("import(skip=%d, base=%lld, end=%lld) -> %s", skip, (long long)base, (long long)end, ToString(st).c_str());
      calls += 1 + Exercise(c, &h, keys, true);
      h.Close();
    } else {
      if (s.kind == HASH) st = HashDBM::RestoreDatabase(path, out, end, s.tp.cipher_key);
      else if (s.kind == TREE) st = TreeDBM::RestoreDatabase(path, out, end, s.tp.cipher_key);
      else st = SkipDBM::RestoreDatabase(path, out);
      c.Log("RestoreDatabase(%lld) -> %s", (long long)end, ToString(st).c_str());
      c.Tag(st == Status::SUCCESS ? "restored" : "not restored");
      auto db = MakeDbm(s);
      const Status st2 = OpenDbm(s, db.get(), out, true);
      c.Log("Open the restored -> %s", ToString(st2).c_str());
      calls++;
      if (st2 == Status::SUCCESS) {
        calls += Exercise(c, db.get(), keys, true);
        const Status st3 = db->Close();
        c.Log("Close -> %s", ToString(st3).c_str());
      }
    }
  } else {
    for (int round = 0; round < 2; round++) {
      auto db = MakeDbm(s);
      const bool w = c.Chance(3, 4);
      if (c.Chance(1, 4)) {
        // The kind of the file itself may be another one, too.
        s.file = c.Weighted({1, 1, 1, 1});
        s.block_size = 1, s.access = 0;
        db = MakeDbm(s);
      }
      const Status st = OpenDbm(s, db.get(), path, w);
      c.Log("Open(writable=%d) -> %s", w, ToString(st).c_str());
      c.Tag(st == Status::SUCCESS ? (db->IsHealthy() ? "open" : "not healthy") : "refused");
      calls++;
      if (st == Status::SUCCESS) {
        calls += Exercise(c, db.get(), keys);
        const Status st2 = db->Close();
        c.Log("Close -> %s", ToString(st2).c_str());
      }
      if (c.Bool()) break;
    }
  }
  if (damage > 0 && calls >= 2) c.NonTrivial();
}

VT_SUITE(corrupt_hash) { CorruptDbm(c, {HASH}, false); }
// Known to hang and to crash, so not searched: nothing checks the links between the nodes of a tree.
VT_SUITE_EX(corrupt_tree, 4, false) { CorruptDbm(c, {TREE}, false); }
VT_SUITE(corrupt_skip) { CorruptDbm(c, {SKIP}, false); }
VT_SUITE(corrupt_mem) { CorruptDbm(c, {TINY, BABY, CACHE, STDHASH, STDTREE}, false); }
VT_SUITE(corrupt_restore) { CorruptDbm(c, {HASH, TREE, SKIP}, true); }

// Record checksums: what restoration and validation let pass had been written.
VT_SUITE(corrupt_crc) {
  LimitFiles();
  Spec s;
  s.kind = HASH;
  GenSmall(c, &s);
  s.tp.record_comp_mode = HashDBM::RECORD_COMP_NONE;
  const int width = c.PickOf<int>({32, 32, 16, 8});
  s.tp.record_crc_mode = width == 32 ? HashDBM::RECORD_CRC_32 : width == 16 ? HashDBM::RECORD_CRC_16 : HashDBM::RECORD_CRC_8;
  if (s.tp.align_pow > 6) s.tp.align_pow = 3;
  const std::string path = c.dir + "/db.tkh";
  c.Log("%s, CRC-%d", s.Str().c_str(), width);
  std::set<std::string> written;  // keys and values; the boundary between them is not in the sum
  StrMap model;
  const int n = c.Size(30) + 1;
  const size_t max = c.PickOf<size_t>({20, 100, 2000, 4});
  const std::string head = vt::StrF("%016llx", (unsigned long long)c.Draw64());
  {
    auto db = MakeDbm(s);
    Status st = OpenDbm(s, db.get(), path, true);
    VT_CHECK(c, "crc-make", st == Status::SUCCESS, "%s", ToString(st).c_str());
    for (int i = 0; i < n; i++) {
      const std::string key = vt::StrF("k%d", (int)c.Draw(40));
      if (c.Chance(1, 6)) {
        db->Remove(key);
        written.insert(key);
        model.erase(key);
      } else {
        const std::string value = head + vt::StrF("%d/", i) + c.BytesOfSize(c.Size(max), 0);
        db->Set(key, value);
        written.insert(key + value);
        model[key] = value;
      }
    }
    st = db->Close();
    VT_CHECK(c, "crc-make", st == Status::SUCCESS, "%s", ToString(st).c_str());
  }
  int64_t base = 0;
  {
    // The records begin behind the buckets.
    HashDBM h;
    VT_CHECK(c, "crc-make", h.Open(path, false) == Status::SUCCESS, "reopening");
    for (auto& r : h.Inspect()) if (r.first == "record_base") base = StrToInt(r.second);
    h.Close();
    VT_CHECK(c, "crc-make", base > 0, "no record base");
  }
  std::string data;
  ReadFile(path, &data);
  bool inside = false, last = false;
  std::string key;
  if (!model.empty() && (width < 32 || c.Bool())) {
    // One burst in a value which is live.
    auto it = std::next(model.begin(), c.Draw(model.size()));
    key = it->first;
    const std::string& value = it->second;
    const size_t p = data.find(key + value);
    VT_CHECK(c, "crc-make", p != std::string::npos, "the record is not in the file");
    if (data.find(key + value, p + 1) == std::string::npos) {
      const int bits = value.size() * 8;
      const int len = 1 + c.Draw(width), from = c.Draw(bits - len + 1);
      for (int b = 0; b < len; b++) {
        // The outer bits always change.
        if (b != 0 && b != len - 1 && c.Bool()) continue;
        const int bit = from + b;
        data[p + key.size() + bit / 8] ^= 0x80 >> (bit % 8);
      }
      c.Log("burst of %d bits at bit %d of the value of %s", len, from, key.c_str());
      inside = true;
      // Damage in the last record looks like a torn one.
      last = data.find(head, p + key.size() + 1) == std::string::npos;
    }
  }
  if (!inside) {
    if (width < 32) return;
    if (Mutate(c, &data, base) == 0) return;
  }
  WriteFile(path, data);
  c.NonTrivial();
  c.Tag(inside ? "burst" : "any damage");
  auto Check = [&](const char* what, DBM* db, bool restored) {
    auto it = db->MakeIterator();
    it->First();
    std::string k, v;
    int got = 0;
    while (it->Get(&k, &v) == Status::SUCCESS && got < 10000) {
      got++;
      VT_CHECK(c, "crc-data", written.count(k + v) > 0, "%s has what was never written: \"%s\" -> \"%s\"/%zu", what,
               vt::Esc(k.substr(0, 40)).c_str(), vt::Esc(v.substr(0, 60)).c_str(), v.size());
      it->Next();
    }
    c.Evals(got);
  };
  if (inside) {
    HashDBM h(MakeFile(s));
    Status st = h.OpenAdvanced(path, c.Bool(), File::OPEN_DEFAULT, s.tp);
    VT_CHECK(c, "crc-open", st == Status::SUCCESS, "%s", ToString(st).c_str());
    st = h.ValidateRecords(-1, c.PickOf<int64_t>({-1, 0}));
    if (!last) VT_CHECK(c, "crc-validate", st == Status::BROKEN_DATA_ERROR, "ValidateRecords -> %s with a damaged value", ToString(st).c_str());
    h.Close();
    HashDBM i;
    HashDBM::TuningParameters tp;
    tp.num_buckets = 7;
    tp.cipher_key = s.tp.cipher_key;
    i.OpenAdvanced(c.dir + "/import.tkh", true, File::OPEN_DEFAULT, tp);
    const bool forward = c.Bool();
    st = forward ? i.ImportFromFileForward(path, false, -1, -1) : i.ImportFromFileBackward(path, false, -1, -1);
    if (forward) {
      VT_CHECK(c, "crc-import", st != Status::SUCCESS, "ImportFromFileForward -> %s with a damaged value", ToString(st).c_str());
    }
    Check("the importing database", &i, true);
    i.Close();
  }
  {
    HashDBM i;
    HashDBM::TuningParameters tp;
    tp.num_buckets = 7;
    i.OpenAdvanced(c.dir + "/import2.tkh", true, File::OPEN_DEFAULT, tp);
    const bool forward = c.Bool();
    const Status st = forward ? i.ImportFromFileForward(path, true, -1, -1) : i.ImportFromFileBackward(path, true, -1, -1);
    c.Log("Import(forward=%d, skip) -> %s, %lld", forward, ToString(st).c_str(), (long long)i.CountSimple());
    Check("the importing database", &i, true);
    i.Close();
  }
  const std::string out = c.dir + "/restored.tkh";
  Status st = HashDBM::RestoreDatabase(path, out, c.PickOf<int64_t>({-1, 0, INT64MAX}), s.tp.cipher_key);
  c.Log("RestoreDatabase -> %s", ToString(st).c_str());
  {
    HashDBM h;
    if (h.Open(out, false) == Status::SUCCESS) {
      c.Log("%lld of %zu", (long long)h.CountSimple(), model.size());
      Check("the restored database", &h, true);
      if (inside) {
        // Any other record may have been skipped with it, but not be another.
        std::string v;
        if (h.Get(key, &v) == Status::SUCCESS) VT_CHECK(c, "crc-data", written.count(key + v), "the damaged record");
      }
      h.Close();
    }
  }
}

VT_SUITE(corrupt_mq) {
  LimitFiles();
  const std::string prefix = c.dir + "/mq";
  const bool ulog = c.Bool();
  {
    MessageQueue mq;
    VT_CHECK(c, "mq-make", mq.Open(prefix, c.PickOf<int64_t>({1000, 200, 1 << 20})) == Status::SUCCESS, "Open");
    DBMUpdateLoggerMQ ul(&mq, 1, 2, c.PickOf<int64_t>({-1, 1000}));
    const int n = c.Size(20);
    for (int i = 0; i < n; i++) {
      if (ulog) {
        switch (c.Draw(4)) {
          case 0: ul.WriteRemove(c.Bytes(10)); break;
          case 1: ul.WriteClear(); break;
          default: ul.WriteSet(c.Bytes(10), c.Bytes(100)); break;
        }
      } else {
        mq.Write(c.Bool() ? -1 : (int64_t)c.Draw(100000), c.Bytes(c.Chance(1, 5) ? 3000 : 60));
      }
    }
    mq.Close();
  }
  std::vector<std::string> paths;
  MessageQueue::FindFiles(prefix, &paths);
  int damage = 0;
  for (int i = 0; c.More(i, 1, 4); i++) {
    const std::string path = paths.empty() || c.Chance(1, 10) ? prefix + vt::StrF(".%010d", (int)c.Draw(5)) : paths[c.Draw(paths.size())];
    std::string data;
    if (c.Chance(1, 8)) data = Foreign(c), damage++;
    else { ReadFile(path, &data); damage += Mutate(c, &data); }
    WriteFile(path, data);
  }
  int calls = 0;
  for (int i = 0; c.More(i, 3, 8); i++) {
    vt::Case::Span span(c);
    switch (c.Draw(5)) {
      case 0: {
        MessageQueue mq;
        const int opts = c.PickOf<int>({0, MessageQueue::OPEN_READ_ONLY, MessageQueue::OPEN_IGNORE_BROKEN, MessageQueue::OPEN_IGNORE_BROKEN | MessageQueue::OPEN_READ_ONLY});
        Status st = mq.Open(prefix, 1000, opts);
        c.Log("Open(%d) -> %s", opts, ToString(st).c_str());
        c.Tag(st == Status::SUCCESS ? "open" : "refused");
        calls++;
        if (st != Status::SUCCESS) break;
        auto r = mq.MakeReader(c.PickOf<int64_t>({0, 500, 100000}));
        std::string text;
        int64_t ts = 0;
        int got = 0;
        while ((st = r->Read(&ts, &text, 0)) == Status::SUCCESS && got < 100000) got++;
        VT_CHECK(c, "mq-endless", got < 100000, "endless messages");
        c.Log("%d messages, then %s", got, ToString(st).c_str());
        if (!(opts & MessageQueue::OPEN_READ_ONLY)) {
          mq.Write(-1, "another");
          mq.Synchronize(false);
          r->Read(&ts, &text, 0);
        }
        r.reset();
        mq.Close();
        break;
      }
      case 1: {
        std::vector<std::string> ps;
        MessageQueue::FindFiles(prefix, &ps);
        for (auto& p : ps) {
          int64_t id, ts, size;
          MessageQueue::ReadFileMetadata(p, &id, &ts, &size);
          PositionalParallelFile f;
          if (f.Open(p, false) != Status::SUCCESS) continue;
          int64_t off = c.PickOf<int64_t>({0, 32, 1, 43, 1000000});
          std::string text;
          int got = 0;
          while (got < 100000 && MessageQueue::ReadNextMessage(&f, &off, &ts, &text, c.PickOf<int64_t>({0, 1000})) == Status::SUCCESS) {
            got++;
            DBMUpdateLoggerMQ::UpdateLog op;
            DBMUpdateLoggerMQ::ParseUpdateLog(text, &op);
          }
          VT_CHECK(c, "mq-endless", got < 100000, "endless messages");
          calls++;
          f.Close();
        }
        break;
      }
      case 2: {
        TinyDBM db;
        const Status st = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&db, prefix, c.PickOf<double>({0, 500}));
        c.Log("ApplyUpdateLogFromFiles -> %s", ToString(st).c_str());
        calls++;
        break;
      }
      case 3: {
        std::string m = c.Bytes(30);
        if (c.Bool()) { m = std::string("\xF1\x01\x02\x03key\x05value", 14); Mutate(c, &m); }
        if (c.Bool() && !m.empty()) m[0] = c.PickOf<int>({0xF1, 0xF2, 0xF3, 0xF0});
        std::string exact(m);
        exact.shrink_to_fit();
        std::vector<char> buf(exact.begin(), exact.end());
        DBMUpdateLoggerMQ::UpdateLog op;
        const Status st = DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view(buf.data(), buf.size()), &op);
        if (st == Status::SUCCESS && !op.key.empty()) {
          VT_CHECK(c, "ulog-range", op.key.data() >= buf.data() && op.key.data() + op.key.size() <= buf.data() + buf.size(), "the key is outside of the message");
        }
        TinyDBM db;
        DBMUpdateLoggerMQ::ApplyUpdateLog(&db, std::string_view(buf.data(), buf.size()));
        calls++;
        break;
      }
      default:
        MessageQueue::RemoveOldFiles(prefix, c.PickOf<int64_t>({0, 1000, INT64MAX}), c.Bool());
        calls++;
    }
  }
  if (damage && calls) c.NonTrivial();
}

// Flat records, TSV and text of any bytes.
VT_SUITE(corrupt_text) {
  LimitFiles();
  const std::string path = c.dir + "/file";
  std::string data;
  switch (c.Draw(4)) {
    case 0: data = c.Bytes(400); break;
    case 1: data = Foreign(c); break;
    case 2: {
      for (int i = c.Size(20); i > 0; i--) data += c.Bytes(20) + c.PickOf<std::string>({"\t", "\n", "\t", "\r\n", "\\t", "\\", ""});
      break;
    }
    default: {
      auto f = MakeFile(Spec());
      f->Open(path, true, File::OPEN_TRUNCATE);
      FlatRecord rec(f.get());
      for (int i = c.Size(20); i > 0; i--) rec.Write(c.Bytes(c.Chance(1, 10) ? 3000 : 30), c.Chance(1, 8) ? FlatRecord::RECORD_METADATA : FlatRecord::RECORD_NORMAL);
      f->Close();
      ReadFile(path, &data);
      Mutate(c, &data);
    }
  }
  WriteFile(path, data);
  Spec s;
  s.file = c.Weighted({1, 1, 1, 1, 1});
  auto f = MakeFile(s);
  if (f->Open(path, false) != Status::SUCCESS) return;
  c.NonTrivial();
  for (int i = 0; c.More(i, 2, 6); i++) {
    switch (c.Draw(5)) {
      case 0: {
        FlatRecordReader reader(f.get(), c.PickOf<size_t>({0, 1, 10, 100, 8192}));
        std::string_view rec;
        FlatRecord::RecordType type;
        int n = 0;
        size_t sum = 0;
        Status st(Status::SUCCESS);
        while ((st = reader.Read(&rec, &type)) == Status::SUCCESS) {
          n++;
          for (char x : rec) sum += (unsigned char)x;
          VT_CHECK(c, "flat-endless", n <= (int)data.size(), "more records than bytes");
        }
        c.Log("FlatRecordReader: %d, then %s (%zu)", n, ToString(st).c_str(), sum);
        break;
      }
      case 1: {
        FlatRecord rec(f.get());
        int64_t off = c.Bool() ? 0 : c.Draw(data.size() + 2);
        size_t sum = 0;
        for (int j = 0; rec.Read(off) == Status::SUCCESS; j++) {
          for (char x : rec.GetData()) sum += (unsigned char)x;
          off = rec.GetOffset() + rec.GetWholeSize();
          VT_CHECK(c, "flat-endless", j <= (int)data.size(), "more records than bytes");
        }
        break;
      }
      case 2: {
        TinyDBM db;
        const Status st = ImportDBMFromFlatRecords(&db, f.get());
        c.Log("ImportDBMFromFlatRecords -> %s", ToString(st).c_str());
        break;
      }
      case 3: {
        TinyDBM db;
        const Status st = ImportDBMFromTSV(&db, f.get(), c.Bool());
        c.Log("ImportDBMFromTSV -> %s", ToString(st).c_str());
        break;
      }
      default: {
        std::vector<std::string> out;
        const std::string mode = c.PickOf<std::string>({"contain", "begin", "end", "edit", "editbin", "containcase", "containword", "containcaseword", "contain*", "containcase*", "containword*", "containcaseword*"});
        SearchTextFileModal(f.get(), mode, c.Bytes(6), &out, c.Draw(4));
      }
    }
  }
  f->Close();
}
