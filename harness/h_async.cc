// The asynchronous adapter, compared with synchronous calls: T03.
#include <future>

#include "dbm_model.h"
#include "lin.h"
#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_file_std.h"

using namespace m;
using vt::Case;

namespace {

std::string St(const Status& s) { return ToString(s); }
std::string Show(const std::pair<Status, std::string>& r) { return St(r.first) + " " + vt::Esc(r.second); }
std::string Show(const std::pair<Status, int64_t>& r) { return St(r.first) + vt::StrF(" %lld", (long long)r.second); }
std::string Show(const std::pair<Status, std::map<std::string, std::string>>& r) {
  std::string s = St(r.first);
  for (const auto& e : r.second) s += " " + vt::Esc(e.first) + "=" + vt::Esc(e.second);
  return s;
}
std::string Show(const std::pair<Status, std::vector<std::string>>& r) {
  std::string s = St(r.first);
  for (const auto& e : r.second) s += " " + vt::Esc(e);
  return s;
}
std::string Show(const std::pair<Status, std::pair<std::string, std::string>>& r) {
  return St(r.first) + " " + vt::Esc(r.second.first) + "=" + vt::Esc(r.second.second);
}
std::string Show(const Status& s) { return St(s); }

// A result to come.
struct Pending {
  std::function<bool(double)> wait;     // whether it is ready
  std::function<std::string()> get;
};

template <typename T> struct IsProc { static const bool value = false; };

void TakeAs(StatusFuture& f, std::future<Status>*, Status* r) { *r = f.Get(); }
void TakeAs(StatusFuture& f, std::future<std::pair<Status, std::string>>*, std::pair<Status, std::string>* r) { *r = f.GetString(); }
void TakeAs(StatusFuture& f, std::future<std::pair<Status, std::pair<std::string, std::string>>>*,
            std::pair<Status, std::pair<std::string, std::string>>* r) { *r = f.GetStringPair(); }
void TakeAs(StatusFuture& f, std::future<std::pair<Status, std::vector<std::string>>>*,
            std::pair<Status, std::vector<std::string>>* r) { *r = f.GetStringVector(); }
void TakeAs(StatusFuture& f, std::future<std::pair<Status, std::map<std::string, std::string>>>*,
            std::pair<Status, std::map<std::string, std::string>>* r) { *r = f.GetStringMap(); }
void TakeAs(StatusFuture& f, std::future<std::pair<Status, int64_t>>*, std::pair<Status, int64_t>* r) { *r = f.GetInteger(); }

template <typename T>
Pending Hold(std::future<T> future, int how) {
  Pending p;
  if (how % 2 == 0) {
    auto f = std::make_shared<std::future<T>>(std::move(future));
    p.wait = [f](double t) {
      if (t < 0) { f->wait(); return true; }
      return f->wait_for(std::chrono::microseconds((int64_t)(t * 1e6))) == std::future_status::ready;
    };
    p.get = [f]() { return Show(f->get()); };
  } else {
    auto first = std::make_shared<StatusFuture>(std::move(future));
    auto f = how % 4 == 1 ? first : std::make_shared<StatusFuture>(std::move(*first));
    p.wait = [f](double t) { return f->Wait(t); };
    p.get = [f]() {
      if (f->GetExtraType() != typeid(T)) return std::string("wrong type of the future");
      T r;
      TakeAs(*f, static_cast<std::future<T>*>(nullptr), &r);
      return Show(r);
    };
  }
  return p;
}

// A memory block which is freed when the request has been made.
struct Own {
  std::unique_ptr<char[]> buf;
  size_t size;
  explicit Own(const std::string& s) : buf(new char[s.size()]), size(s.size()) { memcpy(buf.get(), s.data(), size); }
  operator std::string_view() const { return std::string_view(buf.get(), size); }
};
struct OwnWant {
  std::unique_ptr<Own> own;
  int kind;
  explicit OwnWant(const Ctx::Want& w) : kind(w.kind) { if (kind == 2) own.reset(new Own(w.value)); }
  std::string_view View() const {
    if (kind == 0) return std::string_view();
    if (kind == 1) return DBM::ANY_DATA;
    return *own;
  }
};

// A processor which does what it is told to, and its report.
struct Proc : public AsyncDBM::RecordProcessor {
  std::vector<Ctx::Act> acts;  // those of the calls in turn
  size_t calls = 0;
  int statuses = 0;
  std::string log, buf;
  bool readonly = false;
  static std::string_view Apply(const Ctx::Act& a, bool full, std::string_view v, std::string* buf) {
    switch (a.kind) {
      case 1: return DBM::RecordProcessor::REMOVE;
      case 2: *buf = a.value; return *buf;
      case 3: if (!full) break; buf->assign(v.rbegin(), v.rend()); return *buf;
    }
    return DBM::RecordProcessor::NOOP;
  }
  std::string_view Do(bool full, std::string_view k, std::string_view v) {
    log += vt::Esc(k) + (full ? "=" + vt::Esc(v) : "?") + " ";
    const Ctx::Act a = acts[calls % acts.size()];
    calls++;
    if (readonly || k.data() == nullptr) return NOOP;
    if (!full && a.kind == 1) return NOOP;
    return Apply(a, full, v, &buf);
  }
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { return Do(true, k, v); }
  std::string_view ProcessEmpty(std::string_view k) override { return Do(false, k, {}); }
  void ProcessStatus(const Status& s) override { statuses++; log += "[" + St(s) + "]"; }
};

std::string ShowProc(const std::pair<Status, std::unique_ptr<Proc>>& r) {
  return St(r.first) + " " + r.second->log;
}

enum ReqKind { R_GET, R_GETMULTI, R_SET, R_SETMULTI, R_REMOVE, R_REMOVEMULTI, R_APPEND, R_APPENDMULTI, R_CMPEX,
               R_CMPEXMULTI, R_INC, R_REKEY, R_PROCESS, R_PROCLAMBDA, R_PROCMULTI, R_PROCMULTILAMBDA, R_FIRST, R_FIRSTLAMBDA,
               R_POP, R_PUSH, R_EACH, R_EACHLAMBDA, R_CLEAR, R_REBUILD, R_SYNC, R_COPY, R_EXPORT, R_FLAT, R_IMPORT, R_SEARCH,
               R_NUM };
const char* const kReqNames[] = {
  "Get", "GetMulti", "Set", "SetMulti", "Remove", "RemoveMulti", "Append", "AppendMulti", "CompareExchange",
  "CompareExchangeMulti", "Increment", "Rekey", "Process", "Process(lambda)", "ProcessMulti", "ProcessMulti(lambda)",
  "ProcessFirst", "ProcessFirst(lambda)", "PopFirst", "PushLast", "ProcessEach", "ProcessEach(lambda)", "Clear", "Rebuild",
  "Synchronize", "CopyFileData", "Export", "ExportToFlatRecords", "ImportFromFlatRecords", "SearchModal" };
// The names which the postprocessor is told; null for methods without it.
const char* PostName(int kind) {
  switch (kind) {
    case R_PROCESS: case R_PROCLAMBDA: case R_PROCMULTI: case R_PROCMULTILAMBDA: case R_FIRST: case R_FIRSTLAMBDA:
    case R_EACH: case R_EACHLAMBDA: return nullptr;
    default: return kReqNames[kind];
  }
}

struct Req {
  int kind = 0;
  std::vector<std::string> keys;
  std::vector<std::string> values;
  std::map<std::string, std::string> params;
  std::vector<Ctx::Act> acts;
  std::vector<Ctx::Want> exps, dess;
  std::string delim;
  int64_t num = 0, initial = 0;
  bool flag = false, flag2 = false, views = false;
  double wtime = 0;
  size_t cap = 0;
  int how = 0;
  std::string Str() const {
    std::string s = kReqNames[kind];
    s += "(";
    for (const auto& k : keys) s += vt::Esc(k) + " ";
    if (!values.empty()) s += "| ";
    for (const auto& v : values) s += (v.size() > 24 ? vt::StrF("%s../%zu", vt::Esc(v.substr(0, 8)).c_str(), v.size()) : vt::Esc(v)) + " ";
    for (const auto& e : exps) s += "exp=" + e.Str() + " ";
    for (const auto& e : dess) s += "des=" + e.Str() + " ";
    for (const auto& a : acts) s += vt::StrF("act=%d ", a.kind);
    for (const auto& p : params) s += p.first + "=" + p.second + " ";
    return s + vt::StrF("%lld %d %d)", (long long)num, flag, flag2);
  }
};

// Where the results of one side go: files and databases of its own.
struct Side {
  std::string dir;
  int turn = 0;
};

// The synchronous form.
std::string Sync(DBM* db, const Req& r, Side* side) {
  std::map<std::string, std::string> records;
  for (size_t i = 0; i < r.keys.size() && i < r.values.size(); i++) records.emplace(r.keys[i], r.values[i]);
  switch (r.kind) {
    case R_GET: {
      std::pair<Status, std::string> x;
      x.first = db->Get(r.keys[0], &x.second);
      return Show(x);
    }
    case R_GETMULTI: {
      std::pair<Status, std::map<std::string, std::string>> x;
      x.first = db->GetMulti(r.keys, &x.second);
      return Show(x);
    }
    case R_SET: return St(db->Set(r.keys[0], r.values[0], r.flag));
    case R_SETMULTI: return St(db->SetMulti(records, r.flag));
    case R_REMOVE: return St(db->Remove(r.keys[0]));
    case R_REMOVEMULTI: return St(db->RemoveMulti(r.keys));
    case R_APPEND: return St(db->Append(r.keys[0], r.values[0], r.delim));
    case R_APPENDMULTI: return St(db->AppendMulti(records, r.delim));
    case R_CMPEX: return St(db->CompareExchange(r.keys[0], r.exps[0].View(), r.dess[0].View()));
    case R_CMPEXMULTI: {
      std::vector<std::pair<std::string_view, std::string_view>> e, d;
      for (size_t i = 0; i < r.exps.size(); i++) e.emplace_back(r.keys[i], r.exps[i].View());
      for (size_t i = 0; i < r.dess.size(); i++) d.emplace_back(r.keys[r.exps.size() + i], r.dess[i].View());
      return St(db->CompareExchangeMulti(e, d));
    }
    case R_INC: {
      std::pair<Status, int64_t> x(Status(), 0);
      x.first = db->Increment(r.keys[0], r.num, &x.second, r.initial);
      return Show(x);
    }
    case R_REKEY: return St(db->Rekey(r.keys[0], r.keys[1], r.flag, r.flag2));
    case R_PROCESS: case R_PROCLAMBDA: case R_FIRST: case R_FIRSTLAMBDA: case R_EACH: case R_EACHLAMBDA: {
      Proc p;
      p.acts = r.acts;
      p.readonly = !r.flag;
      Status s;
      if (r.kind == R_PROCESS || r.kind == R_PROCLAMBDA) s = db->Process(r.keys[0], &p, r.flag);
      else if (r.kind == R_FIRST || r.kind == R_FIRSTLAMBDA) s = db->ProcessFirst(&p, r.flag);
      else s = db->ProcessEach(&p, r.flag);
      if (r.kind == R_PROCESS || r.kind == R_FIRST || r.kind == R_EACH) p.ProcessStatus(s);
      return St(s) + " " + p.log;
    }
    case R_PROCMULTI: case R_PROCMULTILAMBDA: {
      std::vector<Proc> procs(r.keys.size());
      std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> pairs;
      for (size_t i = 0; i < r.keys.size(); i++) {
        procs[i].acts = {r.acts[i]};
        procs[i].readonly = !r.flag;
        pairs.emplace_back(r.keys[i], &procs[i]);
      }
      const Status s = db->ProcessMulti(pairs, r.flag);
      std::string t = St(s);
      for (auto& p : procs) {
        if (r.kind == R_PROCMULTI) p.ProcessStatus(s);
        t += " " + p.log;
      }
      return t;
    }
    case R_POP: {
      std::pair<Status, std::pair<std::string, std::string>> x;
      x.first = db->PopFirst(&x.second.first, &x.second.second);
      return Show(x);
    }
    case R_PUSH: return St(db->PushLast(r.values[0], r.wtime));
    case R_CLEAR: return St(db->Clear());
    case R_REBUILD: return St(dynamic_cast<ParamDBM*>(db) ? dynamic_cast<ParamDBM*>(db)->RebuildAdvanced(r.params) : db->Rebuild());
    case R_SYNC: return St(db->Synchronize(r.flag));
    case R_COPY: {
      const std::string path = side->dir + vt::StrF("/copy%d", side->turn++);
      const Status s = db->CopyFileData(path, r.flag);
      return St(s);
    }
    case R_EXPORT: {
      StdTreeDBM dest;
      const Status s = db->Export(&dest);
      std::string t = St(s);
      auto it = dest.MakeIterator();
      it->First();
      std::string k, v;
      while (it->Get(&k, &v) == Status::SUCCESS) { t += " " + vt::Esc(k) + "=" + vt::Esc(v); it->Next(); }
      return t;
    }
    case R_FLAT: case R_IMPORT: {
      const std::string path = side->dir + "/flat";
      StdFile file;
      if (file.Open(path, true, r.kind == R_FLAT ? File::OPEN_TRUNCATE : File::OPEN_DEFAULT) != Status::SUCCESS) return "open";
      const Status s = r.kind == R_FLAT ? ExportDBMToFlatRecords(db, &file) : ImportDBMFromFlatRecords(db, &file);
      file.Close();
      return St(s);
    }
    case R_SEARCH: {
      std::pair<Status, std::vector<std::string>> x;
      x.first = SearchDBMModal(db, r.delim, r.keys[0], &x.second, r.cap);
      return Show(x);
    }
  }
  return "";
}

// Makes the asynchronous request.  The arguments are gone when it returns.
Pending Request(AsyncDBM* db, const Req& r, Side* side) {
  std::vector<Own> keys, values;
  for (const auto& k : r.keys) keys.emplace_back(k);
  for (const auto& v : r.values) values.emplace_back(v);
  const Own delim(r.delim);
  std::map<std::string_view, std::string_view> views;
  std::map<std::string, std::string> records;
  for (size_t i = 0; i < keys.size() && i < values.size(); i++) {
    views.emplace(keys[i], values[i]);
    records.emplace(r.keys[i], r.values[i]);
  }
  std::vector<std::string_view> key_views(keys.begin(), keys.end());
  const std::vector<std::string> key_strs(r.keys);
  switch (r.kind) {
    case R_GET: return Hold(db->Get(keys[0]), r.how);
    case R_GETMULTI: return Hold(r.views ? db->GetMulti(key_views) : db->GetMulti(key_strs), r.how);
    case R_SET: return Hold(db->Set(keys[0], values[0], r.flag), r.how);
    case R_SETMULTI: return Hold(r.views ? db->SetMulti(views, r.flag) : db->SetMulti(records, r.flag), r.how);
    case R_REMOVE: return Hold(db->Remove(keys[0]), r.how);
    case R_REMOVEMULTI: return Hold(r.views ? db->RemoveMulti(key_views) : db->RemoveMulti(key_strs), r.how);
    case R_APPEND: return Hold(db->Append(keys[0], values[0], delim), r.how);
    case R_APPENDMULTI: return Hold(r.views ? db->AppendMulti(views, delim) : db->AppendMulti(records, delim), r.how);
    case R_CMPEX: {
      const OwnWant e(r.exps[0]), d(r.dess[0]);
      return Hold(db->CompareExchange(keys[0], e.View(), d.View()), r.how);
    }
    case R_CMPEXMULTI: {
      std::vector<OwnWant> ew, dw;
      std::vector<std::pair<std::string_view, std::string_view>> e, d;
      for (const auto& w : r.exps) ew.emplace_back(w);
      for (const auto& w : r.dess) dw.emplace_back(w);
      for (size_t i = 0; i < r.exps.size(); i++) e.emplace_back(keys[i], ew[i].View());
      for (size_t i = 0; i < r.dess.size(); i++) d.emplace_back(keys[r.exps.size() + i], dw[i].View());
      return Hold(db->CompareExchangeMulti(e, d), r.how);
    }
    case R_INC: return Hold(db->Increment(keys[0], r.num, r.initial), r.how);
    case R_REKEY: return Hold(db->Rekey(keys[0], keys[1], r.flag, r.flag2), r.how);
    case R_PROCESS: case R_FIRST: case R_EACH: {
      auto p = std::make_unique<Proc>();
      p->acts = r.acts;
      p->readonly = !r.flag;
      auto f = std::make_shared<std::future<std::pair<Status, std::unique_ptr<Proc>>>>(
          r.kind == R_PROCESS ? db->Process(keys[0], std::move(p), r.flag) :
          r.kind == R_FIRST ? db->ProcessFirst(std::move(p), r.flag) : db->ProcessEach(std::move(p), r.flag));
      return {[f](double t) {
        if (t < 0) { f->wait(); return true; }
        return f->wait_for(std::chrono::microseconds((int64_t)(t * 1e6))) == std::future_status::ready;
      }, [f]() { return ShowProc(f->get()); }};
    }
    case R_PROCLAMBDA: case R_FIRSTLAMBDA: case R_EACHLAMBDA: {
      auto p = std::make_shared<Proc>();
      p->acts = r.acts;
      p->readonly = !r.flag;
      DBM::RecordLambdaType lambda = [p](std::string_view k, std::string_view v) {
        const bool full = v.data() != DBM::RecordProcessor::NOOP.data();
        return p->Do(full, k, full ? v : std::string_view());
      };
      Pending q = Hold(r.kind == R_PROCLAMBDA ? db->Process(keys[0], lambda, r.flag) :
                       r.kind == R_FIRSTLAMBDA ? db->ProcessFirst(lambda, r.flag) : db->ProcessEach(lambda, r.flag), r.how);
      auto get = q.get;
      q.get = [p, get]() { return get() + " " + p->log; };
      return q;
    }
    case R_PROCMULTI: {
      std::vector<std::pair<std::string_view, std::shared_ptr<Proc>>> pairs;
      for (size_t i = 0; i < keys.size(); i++) {
        auto p = std::make_shared<Proc>();
        p->acts = {r.acts[i]};
        p->readonly = !r.flag;
        pairs.emplace_back(keys[i], p);
      }
      auto f = std::make_shared<std::future<std::pair<Status, std::vector<std::shared_ptr<Proc>>>>>(
          db->ProcessMulti(pairs, r.flag));
      return {[f](double t) {
        if (t < 0) { f->wait(); return true; }
        return f->wait_for(std::chrono::microseconds((int64_t)(t * 1e6))) == std::future_status::ready;
      }, [f]() {
        const auto x = f->get();
        std::string t = St(x.first);
        for (const auto& p : x.second) t += " " + p->log;
        return t;
      }};
    }
    case R_PROCMULTILAMBDA: {
      auto procs = std::make_shared<std::vector<Proc>>(keys.size());
      std::vector<std::pair<std::string_view, DBM::RecordLambdaType>> pairs;
      for (size_t i = 0; i < keys.size(); i++) {
        Proc* p = &(*procs)[i];
        p->acts = {r.acts[i]};
        p->readonly = !r.flag;
        pairs.emplace_back(keys[i], [procs, p](std::string_view k, std::string_view v) {
          const bool full = v.data() != DBM::RecordProcessor::NOOP.data();
          return p->Do(full, k, full ? v : std::string_view());
        });
      }
      Pending q = Hold(db->ProcessMulti(pairs, r.flag), r.how);
      auto get = q.get;
      q.get = [procs, get]() {
        std::string t = get();
        for (auto& p : *procs) t += " " + p.log;
        return t;
      };
      return q;
    }
    case R_POP: return Hold(db->PopFirst(), r.how);
    case R_PUSH: return Hold(db->PushLast(values[0], r.wtime), r.how);
    case R_CLEAR: return Hold(db->Clear(), r.how);
    case R_REBUILD: return Hold(db->Rebuild(r.params), r.how);
    case R_SYNC: return Hold(db->Synchronize(r.flag), r.how);
    case R_COPY: return Hold(db->CopyFileData(side->dir + vt::StrF("/copy%d", side->turn++), r.flag), r.how);
    case R_EXPORT: {
      auto dest = std::make_shared<StdTreeDBM>();
      Pending q = Hold(db->Export(dest.get()), r.how);
      auto get = q.get;
      q.get = [dest, get]() {
        std::string t = get();
        auto it = dest->MakeIterator();
        it->First();
        std::string k, v;
        while (it->Get(&k, &v) == Status::SUCCESS) { t += " " + vt::Esc(k) + "=" + vt::Esc(v); it->Next(); }
        return t;
      };
      return q;
    }
    case R_FLAT: case R_IMPORT: {
      auto file = std::make_shared<StdFile>();
      if (file->Open(side->dir + "/flat", true, r.kind == R_FLAT ? File::OPEN_TRUNCATE : File::OPEN_DEFAULT) != Status::SUCCESS)
        return {[](double) { return true; }, []() { return std::string("open"); }};
      Pending q = Hold(r.kind == R_FLAT ? db->ExportToFlatRecords(file.get()) : db->ImportFromFlatRecords(file.get()), r.how);
      auto get = q.get;
      q.get = [file, get]() {
        const std::string t = get();
        file->Close();
        return t;
      };
      return q;
    }
    case R_SEARCH: return Hold(db->SearchModal(delim, keys[0], r.cap), r.how);
  }
  return {};
}

Ctx::Act GenAct(Case& c, size_t max) {
  Ctx::Act a;
  a.kind = c.Weighted({2, 2, 4, 2});
  if (a.kind == 2) a.value = GenValue(c, max);
  return a;
}
Ctx::Want GenWant(Case& c, const std::vector<std::string>& seen, size_t max, bool any) {
  Ctx::Want w;
  w.kind = c.Weighted({3, any ? 2 : 0, 5});
  if (w.kind == 2) w.value = !seen.empty() && c.Chance(2, 3) ? c.Pick(seen) : GenValue(c, max);
  return w;
}

Req GenReq(Case& c, const std::vector<int>& weights, const KeyGen& kg, size_t max, std::vector<std::string>* seen) {
  Req r;
  r.kind = c.Weighted(weights);
  r.how = c.Draw(4);
  r.flag = c.Bool();
  r.flag2 = c.Bool();
  r.views = c.Bool();
  auto distinct = [&](int n) {
    std::set<std::string> s;
    for (int i = 0; i < n; i++) {
      const std::string k = kg(c);
      if (s.insert(k).second) r.keys.push_back(k);
    }
  };
  auto value = [&]() { r.values.push_back(GenValue(c, max)); seen->push_back(r.values.back()); };
  switch (r.kind) {
    case R_GET: case R_REMOVE: distinct(1); break;
    case R_SET: distinct(1); value(); break;
    case R_REBUILD:
      if (c.Chance(2, 3)) r.params["num_buckets"] = std::to_string(1 + c.Draw(100));
      if (c.Chance(1, 3)) r.params["offset_width"] = std::to_string(4 + c.Draw(3));
      if (c.Chance(1, 3)) r.params["max_page_size"] = std::to_string(200 + c.Draw(900));
      break;
    case R_APPEND: distinct(1); value(); r.delim = c.Bool() ? "," : c.Bytes(3); break;
    case R_INC: distinct(1); r.num = c.Bool() ? c.Range(-5, 5) : (int64_t)c.NastyInt(); r.initial = c.Range(0, 9); break;
    case R_GETMULTI: case R_REMOVEMULTI: distinct(c.Range(0, 4)); break;
    case R_SETMULTI: case R_APPENDMULTI:
      distinct(c.Range(0, 4));
      for (size_t i = 0; i < r.keys.size(); i++) value();
      r.delim = c.Bytes(2);
      break;
    case R_CMPEX:
      distinct(1);
      r.exps.push_back(GenWant(c, *seen, max, true));
      r.dess.push_back(GenWant(c, *seen, max, true));
      break;
    case R_CMPEXMULTI: {
      const int ne = c.Range(0, 2), nd = c.Range(0, 3);
      for (int i = 0; i < ne; i++) { distinct(1); r.exps.push_back(GenWant(c, *seen, max, true)); }
      std::set<std::string> used;
      for (int i = 0; i < nd; i++) {
        const std::string k = kg(c);
        if (!used.insert(k).second) continue;
        r.keys.push_back(k);
        r.dess.push_back(GenWant(c, *seen, max, false));
      }
      break;
    }
    case R_REKEY: r.keys = {kg(c), kg(c)}; break;
    case R_PROCESS: case R_PROCLAMBDA: distinct(1); r.acts.push_back(GenAct(c, max)); break;
    case R_PROCMULTI: case R_PROCMULTILAMBDA:
      distinct(c.Range(0, 4));
      for (size_t i = 0; i < r.keys.size(); i++) r.acts.push_back(GenAct(c, max));
      break;
    case R_FIRST: case R_FIRSTLAMBDA: r.acts.push_back(GenAct(c, max)); break;
    case R_EACH: case R_EACHLAMBDA:
      for (int i = 0; i < 3; i++) { r.acts.push_back(GenAct(c, max)); if (c.Bool()) r.acts.back().kind = 0; }
      break;
    case R_PUSH: value(); r.wtime = c.Range(0, 100000) + 0.25 * c.Draw(4); break;
    case R_SEARCH:
      r.delim = c.PickOf<std::string>({"contain", "begin", "end", "edit", "containcase", "upper", "regex"});
      r.keys.push_back(r.delim == "regex" ? "^k?[0-4]" : kg(c).substr(0, c.Draw(4)));
      r.cap = c.Draw(5);
      break;
  }
  return r;
}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define ASYNC_TSAN 1
#endif
#endif

Spec GenSpec(Case& c, std::initializer_list<int> kinds) {
  Spec s;
  s.kind = c.PickOf<int>(kinds);
  if (c.Chance(1, 4)) s.poly = true;
  GenTuning(c, &s);
#ifdef ASYNC_TSAN
  // Files which are not made for concurrent access of the same region race by design.
  if (s.kind == HASH || s.kind == TREE) { s.file = F_MMAP_ATOM; s.block_size = 1; s.access = 0; }
#endif
  return s;
}

struct PostLog {
  std::mutex mutex;
  std::vector<std::pair<std::string, std::string>> calls;
};

}  // namespace

// One worker: queued requests do what the sequence of synchronous calls does.
VT_SUITE(async_seq) {
  Spec s = GenSpec(c, {HASH, TREE, TINY, BABY, CACHE, STDHASH, STDTREE, SKIP});
  s.sp.step_unit = std::max(2, s.sp.step_unit);
  c.Log("spec: %s", s.Str().c_str());
  const KeyGen kg = GenKeyGen(c, s);
  const size_t max = c.PickOf<size_t>({16, 100, 1000});
  Side sa{c.dir + "/a"}, ss{c.dir + "/s"};
  mkdir(sa.dir.c_str(), 0755);
  mkdir(ss.dir.c_str(), 0755);
  StdFile().Open(sa.dir + "/flat", true);
  StdFile().Open(ss.dir + "/flat", true);
  auto da = MakeDbm(s), ds = MakeDbm(s);
  VT_CHECK(c, "async-open", OpenDbm(s, da.get(), sa.dir + "/db." + s.Ext(), true, File::OPEN_DEFAULT) == Status::SUCCESS &&
           OpenDbm(s, ds.get(), ss.dir + "/db." + s.Ext(), true, File::OPEN_DEFAULT) == Status::SUCCESS, "open");
  std::vector<int> w(R_NUM, 3);
  w[R_SET] = 14; w[R_GET] = 8; w[R_CMPEX] = 6; w[R_CMPEXMULTI] = 6; w[R_CLEAR] = 1; w[R_COPY] = 1; w[R_EXPORT] = 1; w[R_REBUILD] = 1;
  w[R_SYNC] = 1; w[R_FLAT] = 1; w[R_IMPORT] = 1;
  if (s.comp != LEX) w[R_PUSH] = 0;  // its keys are binary numbers
  if (s.kind == SKIP) w[R_REBUILD] = w[R_SYNC] = 3;
  int n = 0, waits = 0, rounds = c.Range(1, 3);
  for (int round = 0; round < rounds; round++) {
    auto log = std::make_shared<PostLog>();
    std::vector<std::pair<std::string, std::string>> want_log;
    auto adb = std::make_unique<AsyncDBM>(da.get(), 1);
    const bool post = c.Chance(3, 4);
    if (post) {
      adb->SetCommonPostprocessor([log](const char* name, const Status& st) {
        std::lock_guard<std::mutex> lock(log->mutex);
        log->calls.emplace_back(name, St(st));
      });
    }
    std::vector<std::pair<Req, std::pair<Pending, std::string>>> open_reqs;
    std::vector<std::string> seen;
    auto finish = [&](size_t i) {
      const Req r = open_reqs[i].first;
      const std::string want = open_reqs[i].second.second, got = open_reqs[i].second.first.get();
      open_reqs.erase(open_reqs.begin() + i);
      VT_CHECK(c, (std::string("async-") + kReqNames[r.kind]).c_str(), got == want, "%s: the future has %s, the synchronous call gives %s",
               r.Str().c_str(), got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
    };
    for (int i = 0; c.More(i, c.thorough ? 60 : 20, 200); i++) {
      const Req r = GenReq(c, w, kg, max, &seen);
      if (r.kind == R_FLAT || r.kind == R_IMPORT) {
        // They share a file.
        while (!open_reqs.empty()) finish(0);
      }
      c.Log("%s", r.Str().c_str());
      Pending p = Request(adb.get(), r, &sa);
      const std::string want = Sync(ds.get(), r, &ss);
      if (PostName(r.kind)) {
        std::string name = PostName(r.kind);
        // Those names have been so always.
        if (r.kind == R_FLAT) name = "ExportRecordsToFlatRecords";
        if (r.kind == R_IMPORT) name = "ImportRecordsFromFlatRecords";
        want_log.emplace_back(name, want);
      }
      open_reqs.emplace_back(r, std::make_pair(std::move(p), want));
      n++;
      if (r.kind == R_FLAT || r.kind == R_IMPORT) finish(0);
      switch (c.Draw(6)) {
        case 0: {
          const size_t j = c.Draw(open_reqs.empty() ? 1 : open_reqs.size());
          if (j < open_reqs.size()) {
            open_reqs[j].second.first.wait(-1);
            VT_CHECK(c, "async-order", [&] {
              for (size_t k = 0; k < j; k++) if (!open_reqs[k].second.first.wait(0)) return false;
              return true;
            }(), "a request is done before an earlier one with the only worker");
            finish(j);
            waits++;
          }
          break;
        }
        case 1: if (!open_reqs.empty()) open_reqs[0].second.first.wait(0.0001); break;
        case 2: while (!open_reqs.empty()) { finish(c.Draw(open_reqs.size())); waits++; } break;
      }
    }
    const bool early = c.Bool();
    if (early) while (!open_reqs.empty()) finish(c.Draw(open_reqs.size()));
    adb.reset();
    for (auto& o : open_reqs)
      VT_CHECK(c, "async-stop", o.second.first.wait(0), "%s is not done though the adapter has been destroyed", o.first.Str().c_str());
    while (!open_reqs.empty()) finish(c.Draw(open_reqs.size()));
    if (post) {
      VT_CHECK(c, "async-post", log->calls.size() == want_log.size(), "%zu calls of the postprocessor for %zu requests",
               log->calls.size(), want_log.size());
      for (size_t i = 0; i < want_log.size(); i++) {
        const std::string st = log->calls[i].second;
        VT_CHECK(c, "async-post", log->calls[i].first == want_log[i].first && want_log[i].second.substr(0, st.size()) == st,
                 "call %zu of the postprocessor: %s %s, want %s %s", i, log->calls[i].first.c_str(), st.c_str(),
                 want_log[i].first.c_str(), want_log[i].second.substr(0, 100).c_str());
      }
    }
  }
  // The same tuning, after rebuilding.
  const std::set<std::string> tuned = {"num_buckets", "offset_width", "align_pow", "max_page_size", "record_crc_mode", "step_unit"};
  std::string tuning[2];
  for (int k = 0; k < 2; k++) {
    for (const auto& m : (k ? ds : da)->Inspect()) if (tuned.count(m.first)) tuning[k] += m.first + "=" + m.second + " ";
  }
  VT_CHECK(c, "async-tuning", tuning[0] == tuning[1], "the tuning is %s, with synchronous calls %s", tuning[0].c_str(), tuning[1].c_str());
  // The same content, in files too.
  Req all;
  all.kind = R_EXPORT;
  std::string a = Sync(da.get(), all, &sa), b = Sync(ds.get(), all, &ss);
  VT_CHECK(c, "async-content", a == b, "the content is %s, with synchronous calls %s", a.substr(0, 400).c_str(), b.substr(0, 400).c_str());
  for (int i = 0; i < sa.turn && s.kind != CACHE; i++) {
    std::string contents[2];
    for (int k = 0; k < 2; k++) {
      auto db = MakeDbm(s);
      const Status st = OpenDbm(s, db.get(), (k ? ss.dir : sa.dir) + vt::StrF("/copy%d", i), false, File::OPEN_DEFAULT);
      if (st != Status::SUCCESS) { contents[k] = St(Status(st.GetCode())); continue; }
      contents[k] = Sync(db.get(), all, &sa);
      db->Close();
    }
    VT_CHECK(c, "async-copy", contents[0] == contents[1], "the copy %d has %s, the synchronous one %s", i,
             contents[0].substr(0, 300).c_str(), contents[1].substr(0, 300).c_str());
  }
  da->Close();
  ds->Close();
  c.NonTrivial(n >= 5);
  c.Tag("requests", n);
  c.Tag("waits", waits);
  c.Tag(KindName(s.kind));
}

// Several workers: the results are those of some order which respects what was done before a request was made.
VT_SUITE_EX(async_par, 20, true) {
  Spec s = GenSpec(c, {HASH, TREE, TINY, BABY, STDHASH, STDTREE});
  if (!s.injective()) { s.comp = LEX; s.tp.key_comparator = Comparator(LEX); }
  c.Log("spec: %s", s.Str().c_str());
  KeyGen kg = GenKeyGen(c, s);
  kg.pool = c.Range(1, 4);
  auto db = MakeDbm(s);
  VT_CHECK(c, "async-open", OpenDbm(s, db.get(), c.dir + "/db." + s.Ext(), true, File::OPEN_DEFAULT) == Status::SUCCESS, "open");
  const int workers = c.Range(2, 6);
  auto log = std::make_shared<PostLog>();
  auto adb = std::make_unique<AsyncDBM>(db.get(), workers);
  adb->SetCommonPostprocessor([log](const char* name, const Status& st) {
    std::lock_guard<std::mutex> lock(log->mutex);
    log->calls.emplace_back(name, "");
  });
  std::vector<int> w(R_NUM, 0);
  for (int k : {R_GET, R_SET, R_REMOVE, R_APPEND, R_CMPEX, R_INC, R_REKEY, R_PROCESS, R_PROCLAMBDA, R_PROCMULTI, R_PROCMULTILAMBDA,
                R_CMPEXMULTI}) w[k] = 3;
  Side side{c.dir};
  std::vector<std::unique_ptr<lin::Op>> ops;
  std::vector<std::pair<size_t, Pending>> open_reqs;
  std::vector<Req> reqs;
  std::vector<std::string> got;
  std::vector<std::string> seen;
  std::map<std::string, int> want_post;
  uint64_t clock = 1;
  auto finish = [&](size_t i) {
    const size_t k = open_reqs[i].first;
    got[k] = open_reqs[i].second.get();
    ops[k]->res = clock++;
    ops[k]->desc = reqs[k].Str() + " -> " + got[k].substr(0, 100);
    open_reqs.erase(open_reqs.begin() + i);
  };
  const int n = c.Range(3, c.thorough ? 40 : 20);
  size_t overlap = 0;
  const bool early = c.Bool();
  for (int i = 0; i < n; i++) {
    while (open_reqs.size() >= 7) finish(c.Draw(open_reqs.size()));
    reqs.push_back(GenReq(c, w, kg, 12, &seen));
    c.Log("%s", reqs.back().Str().c_str());
    ops.push_back(std::make_unique<lin::Op>());
    got.emplace_back();
    ops.back()->inv = clock++;
    if (PostName(reqs.back().kind)) want_post[PostName(reqs.back().kind)]++;
    open_reqs.emplace_back(i, Request(adb.get(), reqs.back(), &side));
    overlap = std::max(overlap, open_reqs.size());
    for (size_t j = 0; j < open_reqs.size();) {
      if (c.Chance(1, 6) && open_reqs[j].second.wait(0)) finish(j); else j++;
    }
    if (!open_reqs.empty() && c.Chance(1, 8)) finish(c.Draw(open_reqs.size()));
  }
  if (early) while (!open_reqs.empty()) finish(c.Draw(open_reqs.size()));
  adb.reset();
  for (auto& o : open_reqs)
    VT_CHECK(c, "async-stop", o.second.wait(0), "%s is not done though the adapter has been destroyed", reqs[o.first].Str().c_str());
  while (!open_reqs.empty()) finish(c.Draw(open_reqs.size()));
  std::map<std::string, int> post;
  for (const auto& e : log->calls) post[e.first]++;
  VT_CHECK(c, "async-post", post == want_post, "the postprocessor has been called %zu times", log->calls.size());
  lin::State final_state;
  class Collect : public DBM::RecordProcessor {
   public:
    lin::State* s;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      s->emplace(k, v);
      return NOOP;
    }
  } collect;
  collect.s = &final_state;
  db->ProcessEach(&collect, false);
  db->Close();
  std::vector<std::vector<const lin::Op*>> threads;
  const bool ordered = s.ordered();
  (void)ordered;
  for (int i = 0; i < n; i++) {
    const Req& r = reqs[i];
    const std::string& result = got[i];
    ops[i]->apply = [&r, &result](lin::State* state) {
      // The synchronous call on a database with the state.
      StdTreeDBM ref;
      for (const auto& e : *state) ref.Set(e.first, e.second);
      std::string want = Sync(&ref, r, nullptr);
      auto code = [](const std::string& t) { return t.substr(0, t.find_first_of(": ")); };
      if (want != result) {
        // The words of messages differ between classes.
        if (code(want) != code(result) || code(want) == "SUCCESS") {
          // A missing old record with an existing new one may be reported either way.
          if (!(r.kind == R_REKEY && code(want) != "SUCCESS" && code(result) != "SUCCESS" && state->count(r.keys[0]) == 0 &&
                state->count(r.keys[1]))) return false;
        }
      }
      state->clear();
      Collect col;
      col.s = state;
      ref.ProcessEach(&col, false);
      return true;
    };
  }
  // The calls of a chain which do not overlap are a thread of the search.
  for (int i = 0; i < n; i++) {
    bool placed = false;
    for (auto& t : threads) {
      if (t.back()->res < ops[i]->inv) { t.push_back(ops[i].get()); placed = true; break; }
    }
    if (!placed) threads.push_back({ops[i].get()});
  }
  lin::Search search(threads, [&](const lin::State& st) { return st == final_state; }, 20000);
  const lin::Result res = search.Run({});
  if (res == lin::NO) {
    std::string t;
    for (const auto& o : ops) t += vt::StrF("  [%llu,%llu] %s\n", (unsigned long long)o->inv, (unsigned long long)o->res, o->desc.c_str());
    for (const auto& e : final_state) t += "  final " + vt::Esc(e.first) + "=" + vt::Esc(e.second) + "\n";
    c.Fail("async-linear", "no order of the requests explains the results:\n%s", t.c_str());
  }
  if (res == lin::UNKNOWN) c.Tag("unknown");
  c.NonTrivial(overlap >= 2);
  c.Tag("requests", n);
  c.Tag(vt::StrF("workers_%d", workers).c_str());
}

// Destruction or draining completes every request, made by several threads, exactly once.
VT_SUITE_EX(async_drain, 20, true) {
  Spec s = GenSpec(c, {TINY, HASH, TREE, BABY, STDTREE});
  if (!s.injective()) { s.comp = LEX; s.tp.key_comparator = Comparator(LEX); }
  auto db = MakeDbm(s);
  VT_CHECK(c, "async-open", OpenDbm(s, db.get(), c.dir + "/db." + s.Ext(), true, File::OPEN_DEFAULT) == Status::SUCCESS, "open");
  const int workers = c.Range(1, 6), threads = c.Range(1, 4), per = c.Range(1, c.thorough ? 400 : 60), keys = c.Range(1, 5);
  const bool key_int = s.comp == DECIMAL || s.comp == HEX || s.comp == REAL;
  (void)key_int;
  auto key = [&](int i) { return s.comp == SIGNEDBE || s.comp == FLOATBE ? FloatToStrBigEndian(i, 8) : vt::StrF("%d", i); };
  const int slow = c.PickOf({0, 0, 50, 500});
  std::atomic<int> posts{0}, runs{0}, statuses{0};
  struct Counting : public AsyncDBM::RecordProcessor {
    std::atomic<int>*runs, *statuses;
    std::string buf;
    std::string_view ProcessFull(std::string_view, std::string_view v) override {
      (*runs)++;
      buf = std::string(v) + "x";
      return buf;
    }
    std::string_view ProcessEmpty(std::string_view) override { (*runs)++; return "x"; }
    void ProcessStatus(const Status&) override { (*statuses)++; }
  };
  auto adb = std::make_unique<AsyncDBM>(db.get(), workers);
  adb->SetCommonPostprocessor([&posts, slow](const char*, const Status&) {
    posts++;
    if (slow) usleep(slow);
  });
  const int how = c.Draw(4);  // 0: futures are dropped, 1: kept and read later, 2: waited for, 3: the queue is drained
  std::vector<std::vector<std::future<std::pair<Status, int64_t>>>> incs(threads);
  std::vector<std::vector<std::future<std::pair<Status, std::unique_ptr<Counting>>>>> procs(threads);
  std::vector<std::thread> ths;
  std::atomic<int> bad{0};
  for (int t = 0; t < threads; t++) {
    ths.emplace_back([&, t]() {
      for (int i = 0; i < per; i++) {
        const std::string k = key(i % keys), pk = key(100 + i % keys);
        auto f = adb->Increment(k, 1, 0);
        auto p = std::make_unique<Counting>();
        p->runs = &runs;
        p->statuses = &statuses;
        auto g = adb->Process(pk, std::move(p), true);
        if (how == 2) {
          if (f.get().first != Status::SUCCESS || g.get().first != Status::SUCCESS) bad++;
        } else if (how != 0) {
          incs[t].push_back(std::move(f));
          procs[t].push_back(std::move(g));
        }
      }
    });
  }
  for (auto& t : ths) t.join();
  if (how == 3) {
    adb->GetTaskQueue()->Stop(1e6);
    VT_CHECK(c, "async-drain", adb->GetTaskQueue()->GetSize() == 0, "%d requests are left", adb->GetTaskQueue()->GetSize());
  } else {
    adb.reset();
  }
  std::set<std::pair<int, int64_t>> currents;
  for (int t = 0; t < threads; t++) {
    for (size_t i = 0; i < incs[t].size(); i++) {
      VT_CHECK(c, "async-stop", incs[t][i].wait_for(std::chrono::seconds(0)) == std::future_status::ready &&
               procs[t][i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "request %zu is not done", i);
      const auto r = incs[t][i].get();
      VT_CHECK(c, "async-drain", r.first == Status::SUCCESS && currents.insert({(int)i % keys, r.second}).second,
               "increment %zu gave %s %lld", i, St(r.first).c_str(), (long long)r.second);
      const auto p = procs[t][i].get();
      VT_CHECK(c, "async-drain", p.first == Status::SUCCESS && p.second != nullptr, "process %zu gave %s", i, St(p.first).c_str());
    }
  }
  const int total = threads * per;
  VT_CHECK(c, "async-post", posts == total && runs == total && statuses == total && bad == 0,
           "%d requests of each kind: %d calls of the postprocessor, %d of the processors, %d statuses, %d errors", total,
           posts.load(), runs.load(), statuses.load(), bad.load());
  int64_t sum = 0, len = 0;
  for (int i = 0; i < keys; i++) {
    std::string v;
    if (db->Get(key(i), &v) == Status::SUCCESS) sum += Ctx::StrToIntBigEndian(v);
    if (db->Get(key(100 + i), &v) == Status::SUCCESS) len += v.size();
  }
  VT_CHECK(c, "async-drain", sum == total && len == total, "%d increments gave %lld, %d extensions %lld bytes", total,
           (long long)sum, total, (long long)len);
  adb.reset();
  db->Close();
  c.NonTrivial(total >= 5);
  c.Tag("requests", total * 2);
}

// The future of any type gives its own value once and refuses the others.
VT_SUITE(async_future) {
  auto pick = [&](int type, std::string* want) {
    const Status st(Status::Code(c.Range(0, 5)), c.Bytes(5));
    const std::string a = c.Bytes(10), b = c.Bytes(10);
    const int64_t n = (int64_t)c.NastyInt();
    const bool ready = true;
    (void)ready;
    switch (type) {
      case 0: { std::promise<Status> p; StatusFuture f(p.get_future()); p.set_value(st); *want = Show(st); return f; }
      case 1: { std::promise<std::pair<Status, std::string>> p; StatusFuture f(p.get_future()); p.set_value({st, a}); *want = Show(std::make_pair(st, a)); return f; }
      case 2: { std::promise<std::pair<Status, std::pair<std::string, std::string>>> p; StatusFuture f(p.get_future());
        auto v = std::make_pair(st, std::make_pair(a, b)); p.set_value(v); *want = Show(v); return f; }
      case 3: { std::promise<std::pair<Status, std::vector<std::string>>> p; StatusFuture f(p.get_future());
        auto v = std::make_pair(st, std::vector<std::string>{a, b}); p.set_value(v); *want = Show(v); return f; }
      case 4: { std::promise<std::pair<Status, std::map<std::string, std::string>>> p; StatusFuture f(p.get_future());
        auto v = std::make_pair(st, std::map<std::string, std::string>{{a, b}, {b, a}}); p.set_value(v); *want = Show(v); return f; }
      default: { std::promise<std::pair<Status, int64_t>> p; StatusFuture f(p.get_future()); p.set_value({st, n}); *want = Show(std::make_pair(st, n)); return f; }
    }
  };
  const int type = c.Draw(6);
  std::string want;
  StatusFuture f1 = pick(type, &want);
  std::unique_ptr<StatusFuture> moved;
  StatusFuture* f = &f1;
  if (c.Bool()) { moved.reset(new StatusFuture(std::move(f1))); f = moved.get(); }
  const std::type_info* types[] = {&typeid(Status), &typeid(std::pair<Status, std::string>),
    &typeid(std::pair<Status, std::pair<std::string, std::string>>), &typeid(std::pair<Status, std::vector<std::string>>),
    &typeid(std::pair<Status, std::map<std::string, std::string>>), &typeid(std::pair<Status, int64_t>)};
  VT_CHECK(c, "async-future", f->GetExtraType() == *types[type], "the type %d is reported as %s", type, f->GetExtraType().name());
  VT_CHECK(c, "async-future", f->Wait(0) && f->Wait(-1) && f->Wait(0.001), "the future of the type %d is not ready", type);
  for (int other : {(int)c.Range(0, 5), (int)c.Range(0, 5), type, type}) {
    std::string got;
    Status st;
    switch (other) {
      case 0: st = f->Get(); got = Show(st); break;
      case 1: { auto r = f->GetString(); st = r.first; got = Show(r); break; }
      case 2: { auto r = f->GetStringPair(); st = r.first; got = Show(r); break; }
      case 3: { auto r = f->GetStringVector(); st = r.first; got = Show(r); break; }
      case 4: { auto r = f->GetStringMap(); st = r.first; got = Show(r); break; }
      default: { auto r = f->GetInteger(); st = r.first; got = Show(r); break; }
    }
    c.Log("type %d, get %d: %s", type, other, got.c_str());
    if (other == type && !want.empty()) {
      VT_CHECK(c, "async-future", got == want, "the future of the type %d gives %s, not %s", type, got.c_str(), want.c_str());
      want.clear();
    } else {
      VT_CHECK(c, "async-future", st == Status::INVALID_ARGUMENT_ERROR || st == Status::INFEASIBLE_ERROR,
               "the future of the type %d gives %s for the type %d", type, got.c_str(), other);
    }
  }
  std::promise<Status> promise;
  StatusFuture pending(promise.get_future());
  VT_CHECK(c, "async-future", !pending.Wait(0) && !pending.Wait(0.0005), "a pending future is ready");
  std::thread th([&]() { promise.set_value(Status(Status::SUCCESS)); });
  VT_CHECK(c, "async-future", pending.Wait(-1) && pending.Get() == Status::SUCCESS, "waiting for a future");
  th.join();
  c.NonTrivial(true);
}
