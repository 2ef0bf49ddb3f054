// Property U01: update logs make the content again.
#include <sys/stat.h>

#include <deque>
#include <thread>

#include "dbm_model.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_sys_config.h"

using namespace m;
using vt::Case;

namespace {

struct Log {
  int op = 0;  // 1: set, 2: remove, 3: clear
  std::string key, value;
  int sid = 0, idx = 0;
  int64_t ts = 0;
};

std::string Show(const Log& l) {
  return vt::StrF("%s(%s%s%s) server=%d index=%d time=%lld", l.op == 1 ? "set" : l.op == 2 ? "remove" : "clear", vt::Esc(l.key, 20).c_str(),
                  l.op == 1 ? ", " : "", vt::Esc(l.value, 20).c_str(), l.sid, l.idx, (long long)l.ts);
}

// Keeps the logs and forwards them.
struct Tee : public DBM::UpdateLogger {
  std::vector<Log> logs;
  DBM::UpdateLogger* next = nullptr;
  int64_t syncs = 0;
  std::string error;
  Status Add(int op, std::string_view key, std::string_view value) {
    Log l;
    l.op = op; l.key = key; l.value = value;
    logs.push_back(l);
    Status st(Status::SUCCESS);
    if (next) st = op == 1 ? next->WriteSet(key, value) : op == 2 ? next->WriteRemove(key) : next->WriteClear();
    if (st != Status::SUCCESS && error.empty()) error = ToString(st);
    return Status(Status::SUCCESS);
  }
  Status WriteSet(std::string_view key, std::string_view value) override { return Add(1, key, value); }
  Status WriteRemove(std::string_view key) override { return Add(2, key, ""); }
  Status WriteClear() override { return Add(3, "", ""); }
  Status Synchronize(bool hard) override {
    syncs++;
    return next ? next->Synchronize(hard) : Status(Status::SUCCESS);
  }
};

void Replay(const Log& l, Map* m) {
  if (l.op == 1) (*m)[l.key] = l.value; else if (l.op == 2) m->erase(l.key); else m->clear();
}

void Same(Case& c, const char* cls, const Map& got, const Map& want, const std::string& what) {
  for (auto& r : want) {
    auto it = got.find(r.first);
    VT_CHECK(c, cls, it != got.end(), "%s: the record %s is missing", what.c_str(), vt::Esc(r.first).c_str());
    VT_CHECK(c, cls, it->second == r.second, "%s: the record %s is %s, want %s", what.c_str(), vt::Esc(r.first).c_str(), vt::Esc(it->second, 30).c_str(),
             vt::Esc(r.second, 30).c_str());
  }
  for (auto& r : got) VT_CHECK(c, cls, want.count(r.first), "%s: the record %s is too many", what.c_str(), vt::Esc(r.first).c_str());
}

struct Each : public DBM::RecordProcessor {
  Map* m;
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { (*m)[std::string(k)] = v; return NOOP; }
};

Map Content(Case& c, DBM* db, const Map& like) {
  Map m(like.key_comp());
  Each e;
  e.m = &m;
  const Status st = db->ProcessEach(&e, false);
  VT_CHECK(c, "each", st == Status::SUCCESS, "ProcessEach: %s", ToString(st).c_str());
  return m;
}

void GenSpec(Case& c, Spec* s) {
  s->kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  const int wrap = c.Weighted({5, 1, 2});
  if (wrap == 1) s->poly = true;
  if (wrap == 2) s->shards = c.Range(1, 5);
  GenTuning(c, s);
}

}  // namespace

// Any history: after each step the logs so far make the content.
VT_SUITE(ulog_map) {
  Spec s;
  GenSpec(c, &s);
  int avg = c.PickOf({25, 5, 60}), max = 200;
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  Ctx x(c, s);
  x.cipher_rebuild = true;
  if (s.kind == HASH || s.kind == TREE || s.poly || s.shards || c.Chance(2, 3)) x.path = c.dir + "/db." + s.Ext();
  x.kg = GenKeyGen(c, s);
  x.max_value = c.PickOf<size_t>({200, 20, 1000, 5000});
  const int target = c.Draw(4);  // none, strings, queue, database
  DBMUpdateLoggerStrDeque strs(c.Bool() ? "\t" : "::");
  const std::string delim = "";
  MessageQueue mq;
  std::unique_ptr<DBMUpdateLoggerMQ> mql;
  std::unique_ptr<DBM> second;
  std::unique_ptr<DBMUpdateLoggerDBM> dbl;
  Tee tee;
  Spec s2;
  s2.kind = c.PickOf<int>({TINY, STDTREE, BABY, STDHASH});
  if (target == 1) tee.next = &strs;
  if (target == 2) {
    VT_CHECK(c, "open", mq.Open(c.dir + "/ulog", c.PickOf<int64_t>({1000, 100000, 200})) == Status::SUCCESS, "Open");
    mql = std::make_unique<DBMUpdateLoggerMQ>(&mq, c.Draw(300), c.Draw(300));
    tee.next = mql.get();
  }
  if (target == 3) {
    second = MakeDbm(s2);
    dbl = std::make_unique<DBMUpdateLoggerDBM>(second.get());
    tee.next = dbl.get();
  }
  bool attached = true;
  x.on_open = [&] { x.db->SetUpdateLogger(attached ? &tee : nullptr); };
  c.Log("spec: %s, target=%d", s.Str().c_str(), target);
  x.Open(true);
  Map ref(x.model);
  ref.clear();
  size_t done = 0;
  bool once_detached = false;
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::WALK] = 5; w[Ctx::BULK] = 3; w[Ctx::BULKREMOVE] = 2; w[Ctx::CMPEXMULTI] = 3; w[Ctx::REKEY] = 3; w[Ctx::MULTI] = 3; w[Ctx::POP] = 2; w[Ctx::EACH_RW] = 3;
  int n = 0;
  for (; c.More(n, avg, max); n++) {
    if (c.Chance(1, 40)) {
      // Updates without the logger.
      c.Log("without the logger");
      attached = false;
      x.db->SetUpdateLogger(nullptr);
      VT_CHECK(c, "logger", x.db->GetUpdateLogger() == nullptr, "the logger is still attached");
      const size_t before = tee.logs.size();
      for (int i = 0; i < 3; i++) x.Step(w);
      VT_CHECK(c, "logger", tee.logs.size() == before, "updates are logged though the logger was detached");
      attached = true;
      x.db->SetUpdateLogger(&tee);
      ref = x.model;
      once_detached = true;
    }
    x.Step(w);
    VT_CHECK(c, "logger", x.db->GetUpdateLogger() == &tee, "GetUpdateLogger is not the one attached [%s]", x.spec.Str().c_str());
    for (; done < tee.logs.size(); done++) Replay(tee.logs[done], &ref);
    if (ref.size() < 100 || n % 8 == 0) {
      Same(c, "ulog", ref, x.model, "the content made by the logs");
      c.Evals(1);
    }
  }
  Same(c, "ulog", ref, x.model, "the content made by the logs");
  VT_CHECK(c, "target", tee.error.empty(), "the logger failed: %s", tee.error.c_str());
  const int64_t syncs = tee.syncs;
  x.Expect("synchronize", x.db->Synchronize(false), Status::SUCCESS);
  VT_CHECK(c, "sync", tee.syncs > syncs || x.spec.shards || x.path.empty(), "the logger is not synchronized with the database [%s]", x.spec.Str().c_str());
  x.Close();
  Same(c, "ulog", ref, x.model, "the content made by the logs");
  VT_CHECK(c, "ulog", done == tee.logs.size(), "closing logs updates");
  if (target == 3 && !once_detached && x.strict_keys) Same(c, "ulog-dbm", Content(c, second.get(), ref), ref, "the database of DBMUpdateLoggerDBM");
  if (target == 2) {
    VT_CHECK(c, "close", mq.Close() == Status::SUCCESS, "Close");
    auto replica = MakeDbm(s2);
    const Status st = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(replica.get(), c.dir + "/ulog");
    VT_CHECK(c, "apply", st == Status::SUCCESS, "ApplyUpdateLogFromFiles: %s", ToString(st).c_str());
    Map all(ref);
    all.clear();
    for (auto& l : tee.logs) Replay(l, &all);
    if (x.strict_keys) Same(c, "ulog-mq", Content(c, replica.get(), ref), all, "the database made from the files of the queue");
  }
  c.NonTrivial(tee.logs.size() >= 3);
  c.Tag("logs", tee.logs.size());
  c.Tag(KindName(s.kind));
}

// The logger which a database makes by parameters.
VT_SUITE(ulog_param) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  if (c.Bool()) s.poly = true; else s.shards = c.Range(1, 5);
  GenTuning(c, &s);
  int avg = c.PickOf({20, 5, 60}), max = 150;
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { avg = 5; max = 15; }
  const std::string prefix = c.dir + "/u/log";
  mkdir((c.dir + "/u").c_str(), 0755);
  const int sid = c.Draw(5), idx = c.Draw(5);
  s.extra["ulog_prefix"] = prefix;
  if (c.Bool()) s.extra["ulog_max_file_size"] = c.PickOf<const char*>({"100", "1Ki", "1"});
  if (sid || c.Bool()) s.extra["ulog_server_id"] = std::to_string(sid);
  if (idx || c.Bool()) s.extra["ulog_dbm_index"] = std::to_string(idx);
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  x.kg = GenKeyGen(c, s);
  x.max_value = c.PickOf<size_t>({200, 20, 1000});
  c.Log("spec: %s", s.Str().c_str());
  x.Open(true);
  Ctx::Weights w = Ctx::DefaultWeights();
  w[Ctx::WALK] = 4; w[Ctx::BULK] = 2; w[Ctx::REOPEN] = 3; w[Ctx::EACH_RW] = 2;
  w[Ctx::COPY] = 0;  // makes a database with the same parameters
  int n = 0;
  for (; c.More(n, avg, max); n++) x.Step(w);
  x.Close();
  x.db.reset();
  auto apply = [&](int f, int g, bool all) {
    auto replica = std::make_unique<TinyDBM>();
    const Status st = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(replica.get(), prefix, 0, f, g);
    VT_CHECK(c, "apply", st == Status::SUCCESS, "ApplyUpdateLogFromFiles: %s", ToString(st).c_str());
    Map m(x.model);
    m.clear();
    Each e;
    e.m = &m;
    replica->ProcessEach(&e, false);
    Map none(x.model);
    none.clear();
    if (x.strict_keys) Same(c, "ulog-param", m, all ? x.model : none, vt::StrF("the database made from the logs with the filters %d and %d", f, g));
  };
  apply(INT32_MIN + 1, INT32_MIN + 1, true);
  apply(sid, idx, true);
  apply(sid + 1, INT32_MIN + 1, false);
  apply(INT32_MIN + 1, idx + 1, false);
  if (sid > 0) apply(-sid, INT32_MIN + 1, false);
  if (idx > 0) apply(INT32_MIN + 1, -idx, false);
  c.NonTrivial(x.updates >= 3);
  c.Tag(KindName(s.kind));
}

// The skip database: the logs applied with the same synchronizations.
VT_SUITE(ulog_skip) {
  auto open = [&](SkipDBM* db, const char* name) {
    SkipDBM::TuningParameters tp;
    tp.step_unit = 4;
    tp.max_level = 8;
    tp.sort_mem_size = 2000;
    VT_CHECK(c, "open", db->OpenAdvanced(c.dir + "/" + name, true, File::OPEN_DEFAULT, tp) == Status::SUCCESS, "Open");
  };
  SkipDBM a, b;
  open(&a, "a.tks");
  open(&b, "b.tks");
  Tee tee;
  a.SetUpdateLogger(&tee);
  size_t done = 0;
  Map like{KeyLess{Comparator(LEX)}};
  auto sync = [&] {
    const bool last = c.Bool();
    for (auto* db : {&a, &b}) {
      if (db == &b) {
        for (; done < tee.logs.size(); done++) {
          const Log& l = tee.logs[done];
          const Status st = l.op == 1 ? b.Set(l.key, l.value) : l.op == 2 ? b.Remove(l.key) : b.Clear();
          VT_CHECK(c, "apply", st == Status::SUCCESS || (l.op == 2 && st == Status::NOT_FOUND_ERROR), "applying %s: %s", Show(l).c_str(), ToString(st).c_str());
        }
      }
      VT_CHECK(c, "synchronize", (last ? db->SynchronizeAdvanced(false, nullptr, SkipDBM::ReduceToLast) : db->Synchronize(false)) == Status::SUCCESS, "Synchronize");
    }
    auto ia = a.MakeIterator(), ib = b.MakeIterator();
    ia->First();
    ib->First();
    while (true) {
      std::string ka = "*", va = "*", kb = "*", vb = "*";
      const Status sa = ia->Get(&ka, &va), sb = ib->Get(&kb, &vb);
      VT_CHECK(c, "ulog-skip", sa == sb && ka == kb && va == vb, "the original has %s=%s, the replica %s=%s", vt::Esc(ka).c_str(), vt::Esc(va).c_str(), vt::Esc(kb).c_str(), vt::Esc(vb).c_str());
      if (sa != Status::SUCCESS) break;
      ia->Next();
      ib->Next();
    }
    c.Evals(1);
  };
  int updates = 0;
  for (int i = 0; c.More(i, 20, 150); i++) {
    Case::Span span(c);
    const std::string key = vt::StrF("k%d", (int)c.Draw(20));
    switch (c.Weighted({8, 4, 3, 2, 1})) {
      case 0: a.Set(key, c.Bytes(30), c.Chance(3, 4)); updates++; break;
      case 1: a.Remove(key); updates++; break;
      case 2: a.Append(key, c.Bytes(10), ","); updates++; break;
      case 3: sync(); break;
      default: if (c.Chance(1, 4)) a.Clear();
    }
  }
  sync();
  VT_CHECK(c, "close", a.Close() == Status::SUCCESS && b.Close() == Status::SUCCESS, "Close");
  c.NonTrivial(updates >= 3);
}

// Logs of several servers and databases in a queue: parsing, filters and times.
VT_SUITE(ulog_filter) {
  MessageQueue mq;
  const std::string prefix = c.dir + "/ulog";
  VT_CHECK(c, "open", mq.Open(prefix, c.PickOf<int64_t>({300, 100000, 0})) == Status::SUCCESS, "Open");
  const std::vector<int> ids = {0, 1, 2, 127, 128, 16383, 16384, 2097152, INT32_MAX};
  std::vector<Log> logs;
  int64_t ts = 0;
  const int nl = 1 + c.Draw(3);
  std::vector<std::pair<int, int>> who;
  for (int i = 0; i < nl; i++) who.emplace_back(c.Pick(ids), c.Pick(ids));
  for (int i = 0; c.More(i, 15, 100); i++) {
    Case::Span span(c);
    Log l;
    const auto& me = who[c.Draw(who.size())];
    l.sid = me.first;
    l.idx = me.second;
    const bool now = c.Chance(1, 30) && ts < 1000000000;
    const int64_t fixed = now ? -1 : (int64_t)c.Draw(ts < 1000000000 ? ts + 10 : 1000);
    DBMUpdateLoggerMQ ulog(&mq, l.sid, l.idx, fixed);
    bool logged = true;
    const int over = c.Weighted({8, 2, 1});
    if (over == 1) { l.sid = c.Pick(ids); DBMUpdateLoggerMQ::OverwriteThreadServerID(l.sid); }
    if (over == 2) { logged = false; DBMUpdateLoggerMQ::OverwriteThreadServerID(INT32_MIN); }
    l.op = 1 + c.Weighted({6, 3, 1});
    if (l.op != 3) l.key = c.Chance(1, 20) ? c.BytesOfSize(c.PickOf<size_t>({127, 128, 4070, 4096, 20000}), 1) : c.Bool() ? vt::StrF("k%d", (int)c.Draw(5)) : c.Bytes(20);
    if (l.op == 1) l.value = c.Chance(1, 20) ? c.BytesOfSize(c.PickOf<size_t>({127, 128, 4060, 4096, 20000}), 1) : c.Bytes(30);
    const Status st = l.op == 1 ? ulog.WriteSet(l.key, l.value) : l.op == 2 ? ulog.WriteRemove(l.key) : ulog.WriteClear();
    VT_CHECK(c, "write", st == Status::SUCCESS, "writing %s: %s", Show(l).c_str(), ToString(st).c_str());
    if (over == 1 && c.Bool()) {
      // The setting is of the thread.
      std::thread([&] {
        DBMUpdateLoggerMQ other(&mq, me.first, me.second, fixed);
        other.WriteRemove("of another thread");
      }).join();
    } else if (over == 1) {
      DBMUpdateLoggerMQ::OverwriteThreadServerID(-1);
      DBMUpdateLoggerMQ other(&mq, me.first, me.second, fixed);
      other.WriteRemove("of another thread");
    }
    DBMUpdateLoggerMQ::OverwriteThreadServerID(-1);
    ts = now && logged ? mq.GetTimestamp() : (logged ? std::max(ts, fixed) : ts);
    l.ts = ts;
    if (logged) logs.push_back(l);
    if (over == 1) {
      Log o;
      o.op = 2; o.key = "of another thread"; o.sid = me.first; o.idx = me.second;
      ts = now ? mq.GetTimestamp() : std::max(ts, fixed);
      o.ts = ts;
      if (now) logs.back().ts = -1;  // not known
      logs.push_back(o);
    }
    c.Log("%s%s", Show(l).c_str(), logged ? "" : " not logged");
    VT_CHECK(c, "timestamp", mq.GetTimestamp() == ts, "the timestamp of the queue is %lld, want %lld", (long long)mq.GetTimestamp(), (long long)ts);
  }
  VT_CHECK(c, "sync", mq.Synchronize(false) == Status::SUCCESS, "Synchronize");
  auto reader = mq.MakeReader(0);
  std::vector<std::string> raw;
  for (auto& l : logs) {
    int64_t t = -1;
    std::string text;
    Status st = reader->Read(&t, &text);
    VT_CHECK(c, "read", st == Status::SUCCESS && (l.ts < 0 || t == l.ts), "Read: %s, time %lld, want %s", ToString(st).c_str(), (long long)t, Show(l).c_str());
    l.ts = t;
    raw.push_back(text);
    DBMUpdateLoggerMQ::UpdateLog op;
    op.op_type = DBMUpdateLoggerMQ::OP_SET;
    op.server_id = op.dbm_index = 77;
    op.key = "stale";
    op.value = "stale";
    st = DBMUpdateLoggerMQ::ParseUpdateLog(text, &op);
    VT_CHECK(c, "parse", st == Status::SUCCESS, "ParseUpdateLog of %s: %s", Show(l).c_str(), ToString(st).c_str());
    VT_CHECK(c, "parse", (int)op.op_type == l.op && op.server_id == l.sid && op.dbm_index == l.idx && op.key == l.key && op.value == l.value,
             "%s is parsed as operation %d of %d/%d with %s", Show(l).c_str(), (int)op.op_type, op.server_id, op.dbm_index, vt::Esc(op.key, 20).c_str());
  }
  auto pass = [](int filter, int id) { return filter < 0 ? id != -filter : id == filter; };
  auto gen_filter = [&](bool server) -> int {
    if (c.Chance(1, 4)) return INT32_MIN + 1;
    int id = c.Pick(ids);
    if (!logs.empty() && c.Chance(3, 4)) { const Log& l = logs[c.Draw(logs.size())]; id = server ? l.sid : l.idx; }
    return c.Bool() ? id : -id;
  };
  for (int k = 0; k < 6; k++) {
    const int f = gen_filter(true), g = gen_filter(false);
    const int64_t min = c.Chance(1, 3) || logs.empty() ? 0 : logs[c.Draw(logs.size())].ts + (int64_t)c.Draw(3) - 1;
    Spec s;
    s.kind = c.PickOf<int>({TINY, STDTREE, BABY, CACHE});
    auto db = MakeDbm(s), db2 = MakeDbm(s);
    Map want{KeyLess{Comparator(LEX)}};
    for (size_t i = 0; i < logs.size(); i++) {
      if (logs[i].ts < min) continue;
      const bool p = pass(f, logs[i].sid) && pass(g, logs[i].idx);
      if (p) Replay(logs[i], &want);
      const Status st = DBMUpdateLoggerMQ::ApplyUpdateLog(db2.get(), raw[i], f, g);
      VT_CHECK(c, "apply-one", st == (p ? Status::SUCCESS : Status::INFEASIBLE_ERROR), "applying %s with the filters %d and %d: %s", Show(logs[i]).c_str(), f, g, ToString(st).c_str());
    }
    const Status st = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(db.get(), prefix, min, f, g);
    VT_CHECK(c, "apply", st == Status::SUCCESS, "ApplyUpdateLogFromFiles: %s", ToString(st).c_str());
    const std::string what = vt::StrF("the logs from %lld with the filters %d and %d", (long long)min, f, g);
    Same(c, "filter", Content(c, db.get(), want), want, what);
    Same(c, "filter-one", Content(c, db2.get(), want), want, what);
    c.Evals(1);
  }
  // Texts which are not logs: refused, or parsed within the text.
  for (int k = 0; k < 10; k++) {
    std::string text = raw.empty() || c.Chance(1, 4) ? c.Bytes(20) : raw[c.Draw(raw.size())];
    for (int i = 0, n = 1 + c.Draw(3); i < n; i++) {
      switch (c.Draw(4)) {
        case 0: if (!text.empty()) text[c.Draw(std::min<size_t>(text.size(), 12))] = (char)c.PickOf<int>({0xff, 0x80, 0, 1, 0xa1, 0xa2, 0xa3, 0x8f}); break;
        case 1: text.resize(c.Draw(text.size() + 1)); break;
        case 2: text.insert(c.Draw(std::min<size_t>(text.size(), 12) + 1), c.Bytes(5)); break;
        default: text.insert(c.Draw(std::min<size_t>(text.size(), 12) + 1), std::string(c.Draw(9), '\xff'));
      }
    }
    if (c.Chance(1, 4)) {
      // Sizes which are consistent only modulo a power of two.
      const std::string rest = c.Bytes(20);
      const uint64_t a = c.Bool() ? c.NastyUInt() : UINT32_MAX - c.Draw(100), b = c.Bool() ? rest.size() - a : (uint64_t)(uint32_t)(rest.size() - a);
      char buf[32];
      char* wp = buf;
      *(wp++) = c.Bool() ? 0xa1 : 0xa2;
      *(wp++) = 0;
      *(wp++) = 0;
      wp += WriteVarNum(wp, a);
      if (buf[0] == (char)0xa1) wp += WriteVarNum(wp, b);
      text = std::string(buf, wp) + rest;
    }
    const std::vector<char> exact(text.begin(), text.end());
    DBMUpdateLoggerMQ::UpdateLog op;
    const Status st = DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view(exact.data(), exact.size()), &op);
    if (st == Status::SUCCESS) {
      auto inside = [&](std::string_view v) { return v.empty() || (v.data() >= exact.data() && v.data() + v.size() <= exact.data() + exact.size() && v.size() <= exact.size()); };
      VT_CHECK(c, "parse-broken", inside(op.key) && inside(op.value), "the text %s is parsed to a key of %zu bytes and a value of %zu bytes", vt::Esc(text, 60).c_str(), op.key.size(), op.value.size());
    } else {
      VT_CHECK(c, "parse-broken", st == Status::BROKEN_DATA_ERROR, "ParseUpdateLog: %s", ToString(st).c_str());
    }
  }
  // A failure of the database is told.
  if (!raw.empty()) {
    HashDBM ro;
    const std::string path = c.dir + "/ro.tkh";
    HashDBM::TuningParameters tp;
    tp.num_buckets = 3;
    ro.OpenAdvanced(path, true, File::OPEN_DEFAULT, tp);
    ro.Set("z", "z");
    ro.Close();
    ro.Open(path, false);
    const size_t i = c.Draw(raw.size());
    const Status st = DBMUpdateLoggerMQ::ApplyUpdateLog(&ro, raw[i]);
    VT_CHECK(c, "apply-failure", st != Status::SUCCESS, "applying %s to a read-only database: %s", Show(logs[i]).c_str(), ToString(st).c_str());
    ro.Close();
  }
  VT_CHECK(c, "close", mq.Close() == Status::SUCCESS, "Close");
  c.NonTrivial(logs.size() >= 2);
}

// The queue of strings: logs come out once, from either end, in the order of the updates.
VT_SUITE(ulog_strings) {
  const std::string delim = c.PickOf<std::string>({"\t", "", "::", std::string(1, '\0'), "|"});
  DBMUpdateLoggerStrDeque q(delim);
  std::deque<std::string> model;
  for (int i = 0; c.More(i, 20, 100); i++) {
    const std::string key = c.Bytes(20), value = c.Bytes(30);
    std::string text = "kept";
    switch (c.Weighted({6, 3, 1, 4, 4, 1})) {
      case 0:
        c.Log("set %s %s", vt::Esc(key).c_str(), vt::Esc(value).c_str());
        VT_CHECK(c, "strings", q.WriteSet(key, value) == Status::SUCCESS, "WriteSet fails");
        model.push_back("SET" + delim + key + delim + value);
        break;
      case 1:
        c.Log("remove %s", vt::Esc(key).c_str());
        VT_CHECK(c, "strings", q.WriteRemove(key) == Status::SUCCESS, "WriteRemove fails");
        model.push_back("REMOVE" + delim + key);
        break;
      case 2:
        c.Log("clear");
        VT_CHECK(c, "strings", q.WriteClear() == Status::SUCCESS, "WriteClear fails");
        model.push_back("CLEAR");
        break;
      case 3: case 4: {
        const bool back = c.Bool(), null = c.Chance(1, 5);
        c.Log("pop %s", back ? "back" : "front");
        const bool got = back ? q.PopBack(null ? nullptr : &text) : q.PopFront(null ? nullptr : &text);
        VT_CHECK(c, "strings", got == !model.empty(), "a pop of a queue of %zu logs returns %d", model.size(), got);
        std::string want = "kept";
        if (got) {
          want = back ? model.back() : model.front();
          if (back) model.pop_back(); else model.pop_front();
        }
        VT_CHECK(c, "strings", null || text == want, "a pop gives %s instead of %s", vt::Esc(text).c_str(), vt::Esc(want).c_str());
        c.NonTrivial();
        break;
      }
      default:
        if (!c.Chance(1, 4)) break;
        c.Log("drop all");
        q.Clear();
        model.clear();
    }
    VT_CHECK(c, "strings", q.GetSize() == int64_t(model.size()), "GetSize gives %lld instead of %zu", (long long)q.GetSize(), model.size());
  }
}
