// Concurrent histories: T01, T02, D09 (online), D08 (threads).
#include <sched.h>

#include <atomic>
#include <thread>

#include "dbm_model.h"
#include "lin.h"

using namespace m;
using vt::Case;

namespace {

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define CONC_TSAN 1
#endif
#endif
#ifdef CONC_TSAN
constexpr bool kThreadSanitizer = true;
#else
constexpr bool kThreadSanitizer = false;
#endif

std::atomic<uint64_t> g_clock{0};

void Delay(int d) {
  switch (d) {
    case 0: return;
    case 1: sched_yield(); return;
    case 2: for (volatile int i = 0; i < 300; i++) {} return;
    case 3: for (volatile int i = 0; i < 5000; i++) {} return;
    default: usleep(d); return;
  }
}
int GenAnyDelay(Case& c) {
  const int k = c.Weighted({6, 4, 3, 2, 1});
  return k == 4 ? 30 : k;
}

// Starts the threads at the same moment.
struct Gate {
  std::atomic<int> waiting{0};
  int count;
  explicit Gate(int n) : count(n) {}
  void Wait() {
    waiting++;
    while (waiting.load() < count) sched_yield();
  }
};

enum Kind2 { GET, SET, SETNOW, REMOVE, APPEND, CMPEX, INC, PROC, MULTI, CMPEXMULTI, REKEY, POP, PUSH, FIRST, READMULTI };

// An operation to issue, generated before the threads start.
struct Plan {
  int kind;
  int pre = 0, in = 0;  // delays before the call and inside of the processor
  std::vector<std::string> keys;
  std::vector<Ctx::Act> acts;
  std::string value, delim;
  Ctx::Want exp;
  std::vector<Ctx::Want> exps, dess;
  int64_t num = 0, initial = 0;
  bool flag = false, want = false;
};

struct DelayedProc : public DBM::RecordProcessor {
  Ctx::Act act;
  int delay = 0, calls = 0;
  bool full = false;
  std::string key, old, buf;
  std::string_view ProcessFull(std::string_view k, std::string_view v) override {
    calls++;
    full = true;
    key = k;
    Delay(delay);
    old = v;
    switch (act.kind) {
      case 1: return REMOVE;
      case 2: buf = act.value; return buf;
      case 3: buf.assign(old.rbegin(), old.rend()); return buf;
    }
    return NOOP;
  }
  std::string_view ProcessEmpty(std::string_view k) override {
    calls++;
    full = false;
    key = k;
    Delay(delay);
    if (act.kind == 2) { buf = act.value; return buf; }
    return NOOP;
  }
};

bool MatchWant(const lin::State& s, const std::string& k, const Ctx::Want& w) {
  auto it = s.find(k);
  if (it == s.end()) return w.kind == 0;
  if (w.kind == 0) return false;
  return w.kind == 1 || it->second == w.value;
}
std::string Short(const std::string& v) { return v.size() <= 24 ? vt::Esc(v) : vt::StrF("%s../%zu", vt::Esc(v.substr(0, 8)).c_str(), v.size()); }

void ApplyProc(lin::State* s, const std::string& k, const Ctx::Act& a) {
  auto it = s->find(k);
  switch (a.kind) {
    case 1: if (it != s->end()) s->erase(it); break;
    case 2: (*s)[k] = a.value; break;
    case 3: if (it != s->end()) it->second.assign(std::string(it->second.rbegin(), it->second.rend())); break;
  }
}

// Issues the operation and records the result.
lin::Op Issue(DBM* db, const Plan& p, int thread, bool ordered, bool strict) {
  lin::Op op;
  op.thread = thread;
  op.keys = p.keys;
  Delay(p.pre);
  switch (p.kind) {
    case GET: {
      std::string v = "*";
      op.inv = g_clock++;
      const Status st = db->Get(p.keys[0], &v);
      op.res = g_clock++;
      const std::string k = p.keys[0];
      const Status::Code code = st.GetCode();
      op.desc = vt::StrF("Get(%s) -> %s %s", k.c_str(), Status::CodeName(code), Short(v).c_str());
      op.apply = [k, v, code](lin::State* s) {
        auto it = s->find(k);
        if (it == s->end()) return code == Status::NOT_FOUND_ERROR;
        return code == Status::SUCCESS && it->second == v;
      };
      break;
    }
    case SET: case SETNOW: {
      std::string old = "*";
      const bool ow = p.kind == SET;
      op.inv = g_clock++;
      const Status st = db->Set(p.keys[0], p.value, ow, p.want ? &old : nullptr);
      op.res = g_clock++;
      const std::string k = p.keys[0], v = p.value;
      const Status::Code code = st.GetCode();
      const bool want = p.want;
      op.desc = vt::StrF("Set(%s, %s, ow=%d) -> %s old=%s", k.c_str(), Short(v).c_str(), ow, Status::CodeName(code), Short(old).c_str());
      op.apply = [k, v, ow, code, old, want](lin::State* s) {
        auto it = s->find(k);
        if (it == s->end()) {
          (*s)[k] = v;
          return code == Status::SUCCESS && (!want || old == "*");
        }
        if (want && old != it->second) return false;
        if (!ow) return code == Status::DUPLICATION_ERROR;
        it->second = v;
        return code == Status::SUCCESS;
      };
      break;
    }
    case REMOVE: {
      std::string old = "*";
      op.inv = g_clock++;
      const Status st = db->Remove(p.keys[0], p.want ? &old : nullptr);
      op.res = g_clock++;
      const std::string k = p.keys[0];
      const Status::Code code = st.GetCode();
      const bool want = p.want;
      op.desc = vt::StrF("Remove(%s) -> %s old=%s", k.c_str(), Status::CodeName(code), Short(old).c_str());
      op.apply = [k, code, old, want](lin::State* s) {
        auto it = s->find(k);
        if (it == s->end()) return code == Status::NOT_FOUND_ERROR;
        if (want && old != it->second) return false;
        s->erase(it);
        return code == Status::SUCCESS;
      };
      break;
    }
    case APPEND: {
      op.inv = g_clock++;
      const Status st = db->Append(p.keys[0], p.value, p.delim);
      op.res = g_clock++;
      const std::string k = p.keys[0], v = p.value, d = p.delim;
      const Status::Code code = st.GetCode();
      op.desc = vt::StrF("Append(%s, %s) -> %s", k.c_str(), Short(v).c_str(), Status::CodeName(code));
      op.apply = [k, v, d, code](lin::State* s) {
        auto it = s->find(k);
        if (it == s->end()) (*s)[k] = v; else it->second += d + v;
        return code == Status::SUCCESS;
      };
      break;
    }
    case CMPEX: {
      std::string actual = "*";
      bool found = false;
      op.inv = g_clock++;
      const Status st = db->CompareExchange(p.keys[0], p.exps[0].View(), p.dess[0].View(), p.want ? &actual : nullptr,
                                            p.want ? &found : nullptr);
      op.res = g_clock++;
      const std::string k = p.keys[0];
      const Ctx::Want e = p.exps[0], d = p.dess[0];
      const Status::Code code = st.GetCode();
      const bool want = p.want;
      op.desc = vt::StrF("CompareExchange(%s, %s, %s) -> %s actual=%s", k.c_str(), e.Str().c_str(), d.Str().c_str(),
                         Status::CodeName(code), Short(actual).c_str());
      op.apply = [k, e, d, code, want, actual, found](lin::State* s) {
        auto it = s->find(k);
        if (want) {
          if (found != (it != s->end())) return false;
          if (actual != (it == s->end() ? "" : it->second)) return false;
        }
        if (!MatchWant(*s, k, e)) return code == Status::INFEASIBLE_ERROR;
        if (d.kind == 0) s->erase(k);
        else if (d.kind == 2) (*s)[k] = d.value;
        return code == Status::SUCCESS;
      };
      break;
    }
    case INC: {
      int64_t cur = 777;
      op.inv = g_clock++;
      const Status st = db->Increment(p.keys[0], p.num, &cur, p.initial);
      op.res = g_clock++;
      const std::string k = p.keys[0];
      const int64_t num = p.num, initial = p.initial;
      const Status::Code code = st.GetCode();
      op.desc = vt::StrF("Increment(%s, %lld, %lld) -> %s %lld", k.c_str(), (long long)num, (long long)initial,
                         Status::CodeName(code), (long long)cur);
      op.apply = [k, num, initial, cur, code](lin::State* s) {
        auto it = s->find(k);
        const uint64_t base = it == s->end() ? (uint64_t)initial : Ctx::StrToIntBigEndian(it->second);
        const int64_t v = (int64_t)(base + (uint64_t)num);
        (*s)[k] = Ctx::BE8(v);
        return code == Status::SUCCESS && cur == v;
      };
      break;
    }
    case PROC: case MULTI: case READMULTI: {
      auto procs = std::make_shared<std::vector<DelayedProc>>(p.keys.size());
      std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pairs;
      bool write = false;
      for (size_t i = 0; i < p.keys.size(); i++) {
        (*procs)[i].act = p.acts[i];
        (*procs)[i].delay = p.in;
        write |= p.acts[i].kind != 0;
        pairs.emplace_back(p.keys[i], &(*procs)[i]);
      }
      write |= p.flag;
      op.inv = g_clock++;
      const Status st = p.kind == PROC ? db->Process(p.keys[0], &(*procs)[0], write) : db->ProcessMulti(pairs, write);
      op.res = g_clock++;
      const Status::Code code = st.GetCode();
      op.desc = p.kind == PROC ? "Process(" : "ProcessMulti(";
      for (size_t i = 0; i < p.keys.size(); i++)
        op.desc += vt::StrF("%s act=%d %s saw %s; ", p.keys[i].c_str(), p.acts[i].kind, Short(p.acts[i].value).c_str(),
                            (*procs)[i].full ? Short((*procs)[i].old).c_str() : "<none>");
      op.desc += vt::StrF(") -> %s", Status::CodeName(code));
      const auto keys = p.keys;
      op.apply = [keys, procs, code](lin::State* s) {
        if (code != Status::SUCCESS) return false;
        for (size_t i = 0; i < keys.size(); i++) {
          const auto& pr = (*procs)[i];
          auto it = s->find(keys[i]);
          if (pr.calls != 1 || pr.full != (it != s->end())) return false;
          if (pr.full && pr.old != it->second) return false;
          ApplyProc(s, keys[i], pr.act);
        }
        return true;
      };
      break;
    }
    case CMPEXMULTI: {
      std::vector<std::pair<std::string_view, std::string_view>> ve, vd;
      const size_t ne = p.exps.size();
      for (size_t i = 0; i < ne; i++) ve.emplace_back(p.keys[i], p.exps[i].View());
      for (size_t i = 0; i < p.dess.size(); i++) vd.emplace_back(p.keys[ne + i], p.dess[i].View());
      op.inv = g_clock++;
      const Status st = db->CompareExchangeMulti(ve, vd);
      op.res = g_clock++;
      const Status::Code code = st.GetCode();
      const Plan q = p;
      op.desc = "CompareExchangeMulti(";
      for (size_t i = 0; i < ne; i++) op.desc += p.keys[i] + "==" + p.exps[i].Str() + " ";
      for (size_t i = 0; i < p.dess.size(); i++) op.desc += p.keys[ne + i] + ":=" + p.dess[i].Str() + " ";
      op.desc += vt::StrF(") -> %s", Status::CodeName(code));
      op.apply = [q, code, ne](lin::State* s) {
        for (size_t i = 0; i < ne; i++)
          if (!MatchWant(*s, q.keys[i], q.exps[i])) return code == Status::INFEASIBLE_ERROR;
        for (size_t i = 0; i < q.dess.size(); i++) {
          if (q.dess[i].kind == 0) s->erase(q.keys[ne + i]);
          else if (q.dess[i].kind == 2) (*s)[q.keys[ne + i]] = q.dess[i].value;
        }
        return code == Status::SUCCESS;
      };
      break;
    }
    case REKEY: {
      std::string value = "*";
      op.inv = g_clock++;
      const Status st = db->Rekey(p.keys[0], p.keys[1], p.flag, p.want, &value);
      op.res = g_clock++;
      const Plan q = p;
      const Status::Code code = st.GetCode();
      op.desc = vt::StrF("Rekey(%s, %s, ow=%d, copying=%d) -> %s %s", p.keys[0].c_str(), p.keys[1].c_str(), p.flag, p.want,
                         Status::CodeName(code), Short(value).c_str());
      op.apply = [q, code, value](lin::State* s) {
        auto oi = s->find(q.keys[0]), ni = s->find(q.keys[1]);
        if (oi == s->end())
          return code == Status::NOT_FOUND_ERROR || (!q.flag && ni != s->end() && code == Status::DUPLICATION_ERROR);
        if (!q.flag && ni != s->end()) return code == Status::DUPLICATION_ERROR;
        if (code != Status::SUCCESS || value != oi->second) return false;
        if (!q.want) s->erase(oi);
        (*s)[q.keys[1]] = value;
        return true;
      };
      break;
    }
    case POP: case FIRST: {
      std::string k = "*", v = "*";
      DelayedProc proc;
      proc.delay = p.in;
      proc.act.kind = p.kind == FIRST && p.flag ? 3 : 0;
      op.inv = g_clock++;
      const Status st = p.kind == POP ? db->PopFirst(&k, &v) : db->ProcessFirst(&proc, p.flag);
      op.res = g_clock++;
      if (p.kind == FIRST && proc.calls) { k = proc.key; v = proc.old; }
      const int calls = p.kind == FIRST ? proc.calls : -1;
      const bool full = p.kind == POP || proc.full;
      const Status::Code code = st.GetCode();
      const bool pop = p.kind == POP, rev = proc.act.kind == 3;
      op.desc = vt::StrF("%s() -> %s %s %s", pop ? "PopFirst" : "ProcessFirst", Status::CodeName(code), k.c_str(), Short(v).c_str());
      op.apply = [k, v, code, pop, rev, ordered, strict, calls, full](lin::State* s) {
        // Records are searched for page by page, so others can be added and removed in the meantime.
        if (code == Status::NOT_FOUND_ERROR) return (!strict || s->empty()) && calls <= 0;
        if (code != Status::SUCCESS || !full) return false;
        if (calls >= 0 && calls != 1) return false;
        auto it = s->find(k);
        if (it == s->end() || it->second != v) return false;
        if (strict && ordered && it != s->begin()) return false;
        if (pop) s->erase(it);
        else if (rev) it->second.assign(v.rbegin(), v.rend());
        return true;
      };
      break;
    }
  }
  return op;
}

// The values of compare-and-exchange and others are few, so that conditions are often true.
std::string GenVal(Case& c, int maxlen) {
  const int k = c.Draw(4);
  std::string v = vt::StrF("v%d", k);
  if (maxlen > 0 && c.Chance(1, 3)) v += std::string(c.Draw(maxlen), 'a' + k);
  return v;
}
Ctx::Want GenWant(Case& c, bool expected) {
  Ctx::Want w;
  w.kind = expected ? c.Weighted({2, 3, 2}) : c.Weighted({1, 0, 4});
  if (w.kind == 2) w.value = vt::StrF("v%d", (int)c.Draw(4));
  return w;
}

struct ConcOpts {
  bool multi = false;      // T02
  bool global = false;     // operations on the first record
  bool force_rebuild = false;
  bool ulog = false;       // U01: the updates are logged
};

// Keeps the updates in the order in which they were logged.
struct Recorder : public DBM::UpdateLogger {
  std::mutex mutex;
  struct Log { int op; std::string key, value; };
  std::vector<Log> logs;
  Status Add(int op, std::string_view key, std::string_view value) {
    std::lock_guard<std::mutex> lock(mutex);
    logs.push_back({op, std::string(key), std::string(value)});
    return Status(Status::SUCCESS);
  }
  Status WriteSet(std::string_view key, std::string_view value) override { return Add(0, key, value); }
  Status WriteRemove(std::string_view key) override { return Add(1, key, ""); }
  Status WriteClear() override { return Add(2, "", ""); }
};

void PrepareSpec(Case& c, Spec* s) {
  GenTuning(c, s);
  s->comp = LEX;
  s->tp.key_comparator = nullptr;
  if (s->tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) s->tp.record_comp_mode = HashDBM::RECORD_COMP_LZ4;
  // Records are read ahead with their neighbors in mapped files, and the bytes of those are not used.
  if (kThreadSanitizer && (s->kind == HASH || s->kind == TREE) && s->file == F_MMAP_PARA) s->file = F_MMAP_ATOM;
}

void Concurrent(Case& c, const ConcOpts& o) {
  Spec s;
  s.kind = o.force_rebuild ? c.PickOf<int>({HASH, TREE, HASH, TREE, TINY, BABY, CACHE})
                           : c.PickOf<int>({HASH, TREE, TINY, BABY, CACHE, STDHASH, STDTREE});
  const int wrap = c.Weighted({6, 1, 1});
  if (wrap == 1) s.poly = true;
  if (wrap == 2) s.shards = c.Range(1, 4);
  PrepareSpec(c, &s);
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  if (!s.poly && !s.shards && s.kind != HASH && s.kind != TREE && c.Chance(1, 4)) x.path = "";
  c.Log("spec: %s", s.Str().c_str());
  x.Open(true);
  // Few keys are in contention, among others which make pages and chains.
  const int nkeys = c.PickOf({2, 1, 3, 4, 6});
  const int fill = o.global ? 0 : c.PickOf({0, 0, 5, 30, 100});
  std::vector<std::string> keys;
  for (int i = 0; i < nkeys; i++) keys.push_back(fill ? vt::StrF("f%03d-%d", (int)((i * 37) % fill), i) : vt::StrF("k%d", i));
  const int maxlen = c.PickOf({0, 20, 200, 600});
  lin::State init, others;
  for (int i = 0; i < fill; i++) {
    const std::string k = vt::StrF("f%03d", i), v = std::string(c.Draw(30), 'f');
    x.Expect("set", x.db->Set(k, v), Status::SUCCESS);
    others[k] = v;
  }
  for (const auto& k : keys) {
    if (c.Bool()) continue;
    const std::string v = GenVal(c, maxlen);
    x.Expect("set", x.db->Set(k, v), Status::SUCCESS);
    init[k] = v;
  }
  const int nthreads = c.PickOf({2, 3, 4});
  const int nops = o.multi || o.global ? c.PickOf({6, 3, 10}) : c.PickOf({10, 4, 30, 60});
  std::vector<std::vector<Plan>> plans(nthreads);
  // With shards, ProcessMulti is isolated from itself, and CompareExchangeMulti from operations of single records.
  const bool cmpex = o.multi && s.shards && c.Bool();
  for (int t = 0; t < nthreads; t++) {
    for (int i = 0; i < nops; i++) {
      Case::Span span(c);
      Plan p;
      auto key = [&]() { return keys[c.Draw(nkeys)]; };
      auto act = [&]() {
        Ctx::Act a;
        a.kind = c.Weighted({3, 1, 3, 1});
        if (a.kind == 2) a.value = GenVal(c, maxlen);
        return a;
      };
      if (o.multi) p.kind = (int[]){MULTI, READMULTI, CMPEXMULTI, REKEY, GET, SET, REMOVE, PROC, INC}[
          !s.shards ? c.Weighted({4, 4, 3, 3, 2, 2, 1, 1, 1})
                    : cmpex ? c.Weighted({0, 0, 6, 0, 4, 3, 1, 1, 1}) : c.Weighted({4, 4, 0, 3})];
      else if (o.global) p.kind = (int[]){SET, POP, FIRST, REMOVE, APPEND, GET}[c.Weighted({5, 4, 2, 2, 1, 1})];
      else p.kind = (int[]){GET, SET, SETNOW, REMOVE, APPEND, CMPEX, INC, PROC}[c.Weighted({5, 4, 2, 3, 2, 3, 2, 3})];
      p.pre = GenAnyDelay(c);
      p.in = GenAnyDelay(c);
      p.flag = c.Bool();
      p.want = c.Bool();
      switch (p.kind) {
        case MULTI: case READMULTI: {
          const int n = 2 + c.Draw(3);
          for (int j = 0; j < n; j++) {
            p.keys.push_back(key());
            p.acts.push_back(p.kind == MULTI ? act() : Ctx::Act());
          }
          if (p.kind == READMULTI) p.flag = c.Chance(1, 4);
          break;
        }
        case CMPEXMULTI: {
          const int ne = 1 + c.Draw(2), nd = 1 + c.Draw(2);
          for (int j = 0; j < ne + nd; j++) p.keys.push_back(key());
          for (int j = 0; j < ne; j++) p.exps.push_back(GenWant(c, true));
          for (int j = 0; j < nd; j++) p.dess.push_back(GenWant(c, false));
          break;
        }
        case REKEY:
          p.keys = {key(), key()};
          if (p.keys[0] == p.keys[1]) { p.kind = GET; p.keys.pop_back(); if (s.shards) { p.kind = READMULTI; p.acts.resize(1); p.flag = false; } }
          break;
        case POP: case FIRST:
          break;
        default:
          p.keys = {key()};
          p.acts = {act()};
          p.value = GenVal(c, maxlen);
          p.delim = c.Bool() ? "," : "";
          p.exps = {GenWant(c, true)};
          p.dess = {GenWant(c, false)};
          p.num = c.PickOf<int64_t>({1, 5, -3});
          p.initial = c.PickOf<int64_t>({0, 100});
      }
      plans[t].push_back(std::move(p));
    }
  }
  // What goes on in the background.
  enum Background { NONE, SYNC, REBUILD, COUNT, EACH, ITER, OTHERS };
  std::vector<int> backs;
  if (o.force_rebuild) backs.push_back(REBUILD);
  if (c.Bool()) backs.push_back(c.PickOf<int>({SYNC, REBUILD, COUNT, EACH, ITER, OTHERS}));
  if (c.Chance(1, 4)) backs.push_back(c.PickOf<int>({SYNC, REBUILD, COUNT, EACH, ITER, OTHERS}));
  if (o.global) for (auto& b : backs) if (b == OTHERS) b = SYNC;  // the first record is one of the keys
  // The number of buckets is read before the lock which tells that it has changed.
  if (kThreadSanitizer && (s.kind == HASH || s.kind == TREE)) for (auto& b : backs) if (b == REBUILD) b = SYNC;
  const int back_delay = c.PickOf({0, 1, 50, 300});
  // Two synchronizations or rebuilds at once are allowed too.
  std::vector<std::vector<lin::Op>> results(nthreads);
  std::vector<std::string> errors(backs.size());
  std::atomic<int> running{nthreads};
  Gate gate(nthreads + (int)backs.size());
  Recorder recorder;
  if (o.ulog) x.db->SetUpdateLogger(&recorder);
  std::vector<std::thread> threads;
  DBM* db = x.db.get();
  const bool strict = !s.shards && (s.kind == TINY || s.kind == STDHASH || s.kind == STDTREE);
  for (int t = 0; t < nthreads; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (const auto& p : plans[t]) results[t].push_back(Issue(db, p, t, s.ordered(), strict && (s.kind != TINY || p.kind == POP || p.flag)));
      running--;
    });
  }
  std::vector<int64_t> rounds(backs.size(), 0);
  for (size_t b = 0; b < backs.size(); b++) {
    threads.emplace_back([&, b]() {
      gate.Wait();
      auto err = [&](const char* op, const Status& st) {
        if (st != Status::SUCCESS && errors[b].empty()) errors[b] = std::string(op) + ": " + ToString(st);
      };
      do {
        rounds[b]++;
        switch (backs[b]) {
          case SYNC: err("Synchronize", db->Synchronize(false)); break;
          case REBUILD: {
            const Status st = db->Rebuild();
            // Only one rebuilding at a time is accepted.
            if (st != Status::PRECONDITION_ERROR) err("Rebuild", st);
            break;
          }
          case COUNT: { int64_t n = 0; err("Count", db->Count(&n)); db->ShouldBeRebuiltSimple(); db->GetFileSizeSimple(); db->Inspect(); break; }
          case EACH: {
            struct Each : public DBM::RecordProcessor {
              std::map<std::string, std::string> got;
              std::string_view ProcessFull(std::string_view k, std::string_view v) override { got[std::string(k)] = v; return NOOP; }
            } each;
            err("ProcessEach", db->ProcessEach(&each, false));
            for (const auto& r : others)
              if ((!each.got.count(r.first) || each.got[r.first] != r.second) && errors[b].empty())
                errors[b] = "ProcessEach: the untouched record " + r.first + " is not visited";
            break;
          }
          case ITER: {
            // Rebuilding cancels iterators.
            bool cancelled = false;
            for (int k : backs) cancelled |= k == REBUILD;
            auto iter = db->MakeIterator();
            std::map<std::string, std::string> got;
            iter->First();
            std::string k, v, last;
            int n = 0;
            while (true) {
              const Status st = iter->Get(&k, &v);
              if (st == Status::SUCCESS) {
                if (s.ordered() && !last.empty() && k < last && errors[b].empty())
                  errors[b] = "iterator: " + k + " after " + last;
                last = k;
                got[k] = v;
              } else if (st != Status::NOT_FOUND_ERROR) {
                err("iterator", st);
                break;
              }
              if (iter->Next() != Status::SUCCESS) break;
              if (++n > 100000) { if (errors[b].empty()) errors[b] = "iterator: endless"; break; }
            }
            // Where the removal of the current record by others moves the iterator to the next, the next is skipped.
            if (!cancelled && s.kind != STDHASH && s.kind != STDTREE && s.kind != BABY) {
              for (const auto& r : others)
                if ((!got.count(r.first) || got[r.first] != r.second) && errors[b].empty())
                  errors[b] = "iterator: the untouched record " + r.first + " is not visited";
            }
            break;
          }
          case OTHERS:  // updates of other records
            for (int i = 0; i < 10; i++) {
              const std::string k = vt::StrF("x%d-%d", (int)b, i % 7);
              if (rounds[b] % 2) err("Set", db->Set(k, std::string(rounds[b] * 13 % 200, 'x')));
              else db->Remove(k);
            }
            break;
        }
        Delay(back_delay);
      } while (running.load() > 0);
    });
  }
  for (auto& t : threads) t.join();
  if (c.tracing) {
    std::vector<const lin::Op*> all;
    for (auto& r : results) for (auto& op : r) all.push_back(&op);
    std::sort(all.begin(), all.end(), [](const lin::Op* a, const lin::Op* b) { return a->inv < b->inv; });
    for (auto* op : all) c.Log("[%llu,%llu] t%d %s", (unsigned long long)op->inv, (unsigned long long)op->res, op->thread, op->desc.c_str());
  }
  for (size_t b = 0; b < backs.size(); b++)
    VT_CHECK(c, "background", errors[b].empty(), "in the background: %s [%s]", errors[b].c_str(), s.Str().c_str());
  // The content afterwards.
  auto content = [&](const char* when) {
    struct Each : public DBM::RecordProcessor {
      std::map<std::string, std::string> got;
      int n = 0;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override { got[std::string(k)] = v; n++; return NOOP; }
    } each;
    x.Expect("process-each", x.db->ProcessEach(&each, false), Status::SUCCESS);
    VT_CHECK(c, "final-content", each.n == (int)each.got.size(), "%s: a record is visited twice [%s]", when, s.Str().c_str());
    VT_CHECK(c, "final-count", x.db->CountSimple() == each.n, "%s: Count is %lld, but there are %d records [%s]", when,
             (long long)x.db->CountSimple(), each.n, s.Str().c_str());
    for (const auto& r : each.got) {
      std::string v;
      VT_CHECK(c, "final-content", x.db->Get(r.first, &v) == Status::SUCCESS && v == r.second, "%s: Get(%s) [%s]", when,
               vt::Esc(r.first).c_str(), s.Str().c_str());
    }
    return each.got;
  };
  auto got = content("afterwards");
  if (o.ulog) {
    // The logs in their order make the content from the initial one.
    x.db->SetUpdateLogger(nullptr);
    lin::State replayed = others;
    for (auto& r : init) replayed[r.first] = r.second;
    for (auto& l : recorder.logs) {
      if (l.op == 0) replayed[l.key] = l.value; else if (l.op == 1) replayed.erase(l.key); else replayed.clear();
      c.Log("log: %s %s %s", l.op == 0 ? "set" : l.op == 1 ? "remove" : "clear", vt::Esc(l.key).c_str(), vt::Esc(l.value, 20).c_str());
    }
    for (auto& r : replayed)
      VT_CHECK(c, "ulog-conc", got.count(r.first) && got[r.first] == r.second, "the logs make %s=%s, the database has %s [%s]", vt::Esc(r.first).c_str(),
               vt::Esc(r.second, 20).c_str(), got.count(r.first) ? vt::Esc(got[r.first], 20).c_str() : "nothing", s.Str().c_str());
    for (auto& r : got)
      VT_CHECK(c, "ulog-conc", replayed.count(r.first), "the database has %s=%s, which the logs do not make [%s]", vt::Esc(r.first).c_str(),
               vt::Esc(r.second, 20).c_str(), s.Str().c_str());
    c.NonTrivial(recorder.logs.size() >= 3);
    c.Tag("logs", recorder.logs.size());
    if (!x.path.empty()) x.Close();
    return;
  }
  x.Validate();
  lin::State fin;
  for (const auto& r : got) {
    if (others.count(r.first)) {
      VT_CHECK(c, "untouched", others[r.first] == r.second, "the untouched record %s is changed [%s]", r.first.c_str(), s.Str().c_str());
    } else if (r.first[0] != 'x') {
      VT_CHECK(c, "ghost", std::find(keys.begin(), keys.end(), r.first) != keys.end(), "the record %s was never set [%s]",
               vt::Esc(r.first).c_str(), s.Str().c_str());
      fin[r.first] = r.second;
    }
  }
  for (const auto& r : others)
    VT_CHECK(c, "untouched", got.count(r.first), "the untouched record %s is lost [%s]", r.first.c_str(), s.Str().c_str());
  // Is there an order of the operations?
  int64_t overlaps = 0;
  {
    std::vector<const lin::Op*> all;
    for (auto& r : results) for (auto& op : r) all.push_back(&op);
    std::sort(all.begin(), all.end(), [](const lin::Op* a, const lin::Op* b) { return a->inv < b->inv; });
    for (size_t i = 1; i < all.size(); i++) if (all[i]->inv < all[i - 1]->res) overlaps++;
  }
  auto search = [&](const std::vector<std::string>* part) {
    std::vector<std::vector<const lin::Op*>> ops(nthreads);
    size_t total = 0;
    for (int t = 0; t < nthreads; t++)
      for (auto& op : results[t]) {
        if (part && std::find(part->begin(), part->end(), op.keys[0]) == part->end()) continue;
        ops[t].push_back(&op);
        total++;
      }
    lin::State a, z;
    for (auto& r : init) if (!part || std::find(part->begin(), part->end(), r.first) != part->end()) a.insert(r);
    for (auto& r : fin) if (!part || std::find(part->begin(), part->end(), r.first) != part->end()) z.insert(r);
    lin::Search search(ops, [&](const lin::State& st) { return st == z; }, 200000);
    const lin::Result r = search.Run(a);
    if (r == lin::UNKNOWN) c.Tag("order-unknown");
    if (r == lin::NO) {
      std::string stuck;
      for (size_t t = 0; t < ops.size(); t++)
        if (search.best()[t] < ops[t].size()) stuck += vt::StrF("t%zu: %s; ", t, ops[t][search.best()[t]]->desc.c_str());
      std::string end;
      for (auto& r2 : z) end += r2.first + "=" + Short(r2.second) + " ";
      c.Fail("no-order", "no order of the %zu operations explains the results and the final content {%s}; stuck at %s [%s]",
             total, end.c_str(), stuck.c_str(), s.Str().c_str());
    }
  };
  if (o.multi || o.global) {
    search(nullptr);
  } else {
    for (const auto& k : keys) {
      const std::vector<std::string> part{k};
      search(&part);
    }
  }
  if (!x.path.empty()) {
    x.Close();
    x.db.reset();
    x.Open(true);
    auto again = content("after reopening");
    VT_CHECK(c, "reopened", again == got, "the content is different after reopening [%s]", s.Str().c_str());
    x.Validate();
    x.Close();
    std::vector<std::string> names;
    ReadDirectory(c.dir, &names);
    for (const auto& n : names)
      VT_CHECK(c, "leftover", n.find(".tmp") == std::string::npos, "the temporary file %s is left [%s]", n.c_str(), s.Str().c_str());
  }
  c.NonTrivial(overlaps >= 3);
  c.Tag("overlaps", overlaps);
  for (int b : backs) if (b == REBUILD) c.Tag("rebuilding");
}

}  // namespace

VT_SUITE_EX(conc_single, 30, true) { Concurrent(c, ConcOpts()); }
VT_SUITE_EX(conc_first, 30, true) { ConcOpts o; o.global = true; Concurrent(c, o); }
VT_SUITE_EX(conc_multi, 30, true) { ConcOpts o; o.multi = true; Concurrent(c, o); }
VT_SUITE_EX(conc_rebuild, 30, true) { ConcOpts o; o.force_rebuild = true; Concurrent(c, o); }
VT_SUITE_EX(conc_ulog, 30, true) { ConcOpts o; o.ulog = true; o.multi = c.Bool(); Concurrent(c, o); }
