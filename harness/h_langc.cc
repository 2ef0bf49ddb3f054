// The C interface: histories through it, compared with the model of the C++ interface: L01.
#include "dbm_model.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_index.h"
#include "tkrzw_langc.h"

using namespace m;
using vt::Case;

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace {

std::string Take(char* p, int32_t size) {
  std::string s(p, size);
  // Every string has a terminator behind it.
  if (p[size] != 0) abort();
  free(p);
  return s;
}

Status Last() {
  const TkrzwStatus s = tkrzw_get_last_status();
  return Status(Status::Code(s.code), s.message);
}

// An argument: with its length, or with the implicit one, in a buffer of exactly its size.
struct Arg {
  std::unique_ptr<char[]> buf;
  const char* ptr = nullptr;
  int32_t size = 0;
  Arg() = default;
  explicit Arg(std::string_view s) {
    static uint32_t turn = 0;
    turn = turn * 1103515245 + 12345;
    const bool implicit = (turn >> 16 & 1) && s.find('\0') == s.npos;
    buf.reset(new char[s.size() + implicit]);
    memcpy(buf.get(), s.data(), s.size());
    if (implicit) buf[s.size()] = 0;
    ptr = buf.get();
    size = implicit ? -1 - int(turn >> 20 & 1) : int32_t(s.size());
  }
};
// A value of a compare-and-exchange.
Arg CmpArg(std::string_view s) {
  Arg a;
  if (s.data() == DBM::ANY_DATA.data()) {
    a.ptr = TKRZW_ANY_DATA;
    a.size = 0;
  } else if (s.data() != nullptr) {
    a = Arg(s);
  }
  return a;
}

const char* Callback(void* arg, const char* kp, int32_t ks, const char* vp, int32_t vs,
                     int32_t* rs) {
  auto* proc = static_cast<DBM::RecordProcessor*>(arg);
  const std::string_view key = kp == nullptr ? std::string_view() : std::string_view(kp, ks);
  if ((kp == nullptr) != (ks < 0) || (vp == nullptr) != (vs < 0)) abort();
  const std::string_view r = vp == nullptr ? proc->ProcessEmpty(key) :
      proc->ProcessFull(key, std::string_view(vp, vs));
  if (r.data() == DBM::RecordProcessor::NOOP.data()) return TKRZW_REC_PROC_NOOP;
  if (r.data() == DBM::RecordProcessor::REMOVE.data()) return TKRZW_REC_PROC_REMOVE;
  *rs = r.size();
  return r.data() == nullptr ? "" : r.data();
}
void FileCallback(void* arg, const char* path) {
  auto* proc = static_cast<DBM::FileProcessor*>(arg);
  if (proc != nullptr) proc->Process(path);
}

std::string Join(const std::map<std::string, std::string>& params, int32_t options) {
  std::string r;
  for (const auto& p : params) r += (r.empty() ? "" : ",") + p.first + "=" + p.second;
  auto add = [&](int32_t bit, const char* name) {
    if (options & bit) r += std::string(r.empty() ? "" : ",") + name + "=true";
  };
  add(File::OPEN_TRUNCATE, "truncate");
  add(File::OPEN_NO_CREATE, "no_create");
  add(File::OPEN_NO_WAIT, "no_wait");
  add(File::OPEN_NO_LOCK, "no_lock");
  add(File::OPEN_SYNC_HARD, "sync_hard");
  return r;
}

using StrMap = std::map<std::string, std::string>;
StrMap TakeMap(Case& c, TkrzwKeyValuePair* array, int32_t n) {
  StrMap r;
  for (int32_t i = 0; i < n; i++) {
    const auto& e = array[i];
    r.emplace(std::string(e.key_ptr, e.key_size), std::string(e.value_ptr, e.value_size));
    VT_CHECK(c, "langc-terminator", e.key_ptr[e.key_size] == 0 && e.value_ptr[e.value_size] == 0,
             "an element of a map has no terminator");
  }
  for (const auto& e : r) {
    TkrzwKeyValuePair* f = tkrzw_search_str_map(array, n, e.first.data(), e.first.size());
    VT_CHECK(c, "langc-search-str-map", f != nullptr && std::string(f->value_ptr, f->value_size) == e.second,
             "tkrzw_search_str_map(%s)", vt::Esc(e.first).c_str());
    VT_CHECK(c, "langc-search-str-map", r.count(e.first + "x") || tkrzw_search_str_map(array, n, (e.first + "x").data(),
             e.first.size() + 1) == nullptr, "tkrzw_search_str_map finds %sx", vt::Esc(e.first).c_str());
  }
  tkrzw_free_str_map(array, n);
  return r;
}
std::vector<std::string> TakeArray(TkrzwStr* array, int32_t n) {
  std::vector<std::string> r;
  for (int32_t i = 0; i < n; i++) r.emplace_back(array[i].ptr, array[i].size);
  tkrzw_free_str_array(array, n);
  return r;
}

// The database behind the C interface, as an object of the C++ interface.
class CDbm : public ParamDBM {
 public:
  CDbm(Case& c, int workers) : c_(c), workers_(workers) {}
  ~CDbm() override {
    FreeAsync();
    if (db_) tkrzw_dbm_close(db_);
  }
  Case& c_;
  int workers_;
  TkrzwDBM* db_ = nullptr;
  TkrzwAsyncDBM* async_ = nullptr;
  int turn_ = 0;

  void FreeAsync() {
    if (async_) tkrzw_async_dbm_free(async_);
    async_ = nullptr;
  }
  // The outcome must agree with the last status.
  Status Ret(const char* name, bool ok) const {
    const Status st = Last();
    VT_CHECK(c_, "langc-status", ok == (st == Status::SUCCESS), "%s returned %d with the status %s", name,
             ok, ToString(st).c_str());
    VT_CHECK(c_, "langc-status", tkrzw_get_last_status_code() == (int)st.GetCode() &&
             tkrzw_get_last_status_message() == st.GetMessage(), "%s: the functions of the last status disagree",
             name);
    return st;
  }
  void Spoil() const { tkrzw_set_last_status(TKRZW_STATUS_APPLICATION_ERROR, "stale"); }
  bool Async() { return async_ != nullptr && (++turn_ % 3) != 0; }
  void Wait(TkrzwFuture* f) {
    const int how = turn_ % 4;
    if (how == 0) tkrzw_future_wait(f, -1);
    if (how == 1) while (!tkrzw_future_wait(f, 0)) std::this_thread::yield();
    if (how == 2) tkrzw_future_wait(f, 0.0001);
  }
  Status Future(TkrzwFuture* f) {
    Wait(f);
    Spoil();
    tkrzw_future_get(f);
    tkrzw_future_free(f);
    return Last();
  }

  Status OpenAdvanced(const std::string& path, bool writable, int32_t options,
                      const StrMap& params) override {
    if (db_) return Status(Status::PRECONDITION_ERROR, "opened");
    Spoil();
    db_ = tkrzw_dbm_open(path.c_str(), writable, Join(params, options).c_str());
    const Status st = Ret("tkrzw_dbm_open", db_ != nullptr);
    if (db_ && workers_ > 0) async_ = tkrzw_async_dbm_new(db_, workers_);
    return st;
  }
  Status Open(const std::string& path, bool writable, int32_t options) override {
    return OpenAdvanced(path, writable, options, {});
  }
  Status Close() override {
    FreeAsync();
    Spoil();
    const bool ok = tkrzw_dbm_close(db_);
    db_ = nullptr;
    return Ret("tkrzw_dbm_close", ok);
  }
  Status RebuildAdvanced(const StrMap& params) override {
    if (Async()) return Future(tkrzw_async_dbm_rebuild(async_, Join(params, 0).c_str()));
    Spoil();
    return Ret("tkrzw_dbm_rebuild", tkrzw_dbm_rebuild(db_, Join(params, 0).c_str()));
  }
  Status Rebuild() override { return RebuildAdvanced({}); }
  Status SynchronizeAdvanced(bool hard, FileProcessor* proc, const StrMap& params) override {
    if (proc == nullptr && Async())
      return Future(tkrzw_async_dbm_synchronize(async_, hard, Join(params, 0).c_str()));
    Spoil();
    return Ret("tkrzw_dbm_synchronize", tkrzw_dbm_synchronize(
        db_, hard, proc ? FileCallback : nullptr, proc, Join(params, 0).c_str()));
  }
  Status Synchronize(bool hard, FileProcessor* proc) override {
    return SynchronizeAdvanced(hard, proc, {});
  }
  Status Process(std::string_view key, RecordProcessor* proc, bool writable) override {
    Arg k(key);
    Spoil();
    return Ret("tkrzw_dbm_process", tkrzw_dbm_process(db_, k.ptr, k.size, Callback, proc, writable));
  }
  Status Get(std::string_view key, std::string* value) override {
    Arg k(key);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_get(async_, k.ptr, k.size);
      k = Arg();
      Wait(f);
      Spoil();
      int32_t vs = -1;
      char* v = tkrzw_future_get_str(f, &vs);
      tkrzw_future_free(f);
      const Status st = Last();
      const std::string r = Take(v, vs);
      if (value && st == Status::SUCCESS) *value = r;
      return st;
    }
    Spoil();
    if (value == nullptr || ++turn_ % 8 == 0) {
      const Status st = Ret("tkrzw_dbm_check", tkrzw_dbm_check(db_, k.ptr, k.size));
      if (value == nullptr) return st;
      Spoil();
    }
    int32_t vs = -1;
    char* v = tkrzw_dbm_get(db_, k.ptr, k.size, &vs);
    const Status st = Ret("tkrzw_dbm_get", v != nullptr);
    if (v) *value = Take(v, vs);
    return st;
  }
  Status GetMulti(const std::vector<std::string_view>& keys, StrMap* records) override {
    std::vector<Arg> args;
    std::vector<TkrzwStr> ks;
    for (auto k : keys) {
      args.emplace_back(k);
      ks.push_back({args.back().ptr, args.back().size});
    }
    int32_t n = -1;
    TkrzwKeyValuePair* array;
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_get_multi(async_, ks.data() ? ks.data() : (TkrzwStr*)"", ks.size());
      args.clear();
      Wait(f);
      Spoil();
      array = tkrzw_future_get_str_map(f, &n);
      tkrzw_future_free(f);
    } else {
      Spoil();
      array = tkrzw_dbm_get_multi(db_, ks.data() ? ks.data() : (TkrzwStr*)"", ks.size(), &n);
    }
    const Status st = Last();
    for (auto& r : TakeMap(c_, array, n)) records->emplace(r);
    return st;
  }
  Status Set(std::string_view key, std::string_view value, bool overwrite, std::string* old) override {
    Arg k(key), v(value);
    if (old == nullptr && Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_set(async_, k.ptr, k.size, v.ptr, v.size, overwrite);
      k = Arg(); v = Arg();
      return Future(f);
    }
    Spoil();
    if (old == nullptr)
      return Ret("tkrzw_dbm_set", tkrzw_dbm_set(db_, k.ptr, k.size, v.ptr, v.size, overwrite));
    int32_t os = -1;
    char* o = tkrzw_dbm_set_and_get(db_, k.ptr, k.size, v.ptr, v.size, overwrite, &os);
    if (o) *old = Take(o, os);
    return Last();
  }
  struct Pairs {
    std::vector<Arg> args;
    std::vector<TkrzwKeyValuePair> v;
    void Add(std::string_view key, std::string_view value, bool cmp = false) {
      args.emplace_back(key);
      args.push_back(cmp ? CmpArg(value) : Arg(value));
      const Arg& k = args[args.size() - 2];
      const Arg& w = args.back();
      v.push_back({k.ptr, k.size, w.ptr, w.size});
    }
    const TkrzwKeyValuePair* data() {
      static TkrzwKeyValuePair dummy;
      return v.empty() ? &dummy : v.data();
    }
  };
  Status SetMulti(const std::map<std::string_view, std::string_view>& records, bool overwrite) override {
    Pairs p;
    for (const auto& r : records) p.Add(r.first, r.second);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_set_multi(async_, p.data(), p.v.size(), overwrite);
      p = Pairs();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_set_multi", tkrzw_dbm_set_multi(db_, p.data(), p.v.size(), overwrite));
  }
  Status Remove(std::string_view key, std::string* old) override {
    Arg k(key);
    if (old == nullptr && Async()) return Future(tkrzw_async_dbm_remove(async_, k.ptr, k.size));
    Spoil();
    if (old == nullptr) return Ret("tkrzw_dbm_remove", tkrzw_dbm_remove(db_, k.ptr, k.size));
    int32_t os = -1;
    char* o = tkrzw_dbm_remove_and_get(db_, k.ptr, k.size, &os);
    const Status st = Ret("tkrzw_dbm_remove_and_get", o != nullptr);
    if (o) *old = Take(o, os);
    return st;
  }
  Status RemoveMulti(const std::vector<std::string_view>& keys) override {
    std::vector<Arg> args;
    std::vector<TkrzwStr> ks;
    for (auto k : keys) {
      args.emplace_back(k);
      ks.push_back({args.back().ptr, args.back().size});
    }
    const TkrzwStr* data = ks.data() ? ks.data() : (TkrzwStr*)"";
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_remove_multi(async_, data, ks.size());
      args.clear();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_remove_multi", tkrzw_dbm_remove_multi(db_, data, ks.size()));
  }
  Status Append(std::string_view key, std::string_view value, std::string_view delim) override {
    Arg k(key), v(value), d(delim);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_append(async_, k.ptr, k.size, v.ptr, v.size, d.ptr, d.size);
      k = Arg(); v = Arg(); d = Arg();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_append", tkrzw_dbm_append(db_, k.ptr, k.size, v.ptr, v.size, d.ptr, d.size));
  }
  Status AppendMulti(const std::map<std::string_view, std::string_view>& records,
                     std::string_view delim) override {
    Pairs p;
    for (const auto& r : records) p.Add(r.first, r.second);
    Arg d(delim);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_append_multi(async_, p.data(), p.v.size(), d.ptr, d.size);
      p = Pairs(); d = Arg();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_append_multi",
               tkrzw_dbm_append_multi(db_, p.data(), p.v.size(), d.ptr, d.size));
  }
  Status CompareExchange(std::string_view key, std::string_view expected, std::string_view desired,
                         std::string* actual, bool* found) override {
    Arg k(key), e = CmpArg(expected), d = CmpArg(desired);
    if (actual == nullptr && found == nullptr) {
      if (Async()) {
        TkrzwFuture* f = tkrzw_async_dbm_compare_exchange(
            async_, k.ptr, k.size, e.ptr, e.size, d.ptr, d.size);
        k = Arg(); e = Arg(); d = Arg();
        return Future(f);
      }
      Spoil();
      return Ret("tkrzw_dbm_compare_exchange", tkrzw_dbm_compare_exchange(
          db_, k.ptr, k.size, e.ptr, e.size, d.ptr, d.size));
    }
    Spoil();
    int32_t as = -1;
    char* a = tkrzw_dbm_compare_exchange_and_get(
        db_, k.ptr, k.size, e.ptr, e.size, d.ptr, d.size, &as);
    if (found) *found = a != nullptr;
    if (actual) actual->clear();
    if (a) {
      const std::string s = Take(a, as);
      if (actual) *actual = s;
    }
    return Last();
  }
  Status Increment(std::string_view key, int64_t increment, int64_t* current, int64_t initial) override {
    Arg k(key);
    int64_t v;
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_increment(async_, k.ptr, k.size, increment, initial);
      k = Arg();
      Wait(f);
      Spoil();
      v = tkrzw_future_get_int(f);
      tkrzw_future_free(f);
    } else {
      Spoil();
      v = tkrzw_dbm_increment(db_, k.ptr, k.size, increment, initial);
      VT_CHECK(c_, "langc-status", Last() == Status::SUCCESS || v == INT64MIN,
               "tkrzw_dbm_increment returned %lld with the status %s", (long long)v, ToString(Last()).c_str());
    }
    const Status st = Last();
    if (current && st == Status::SUCCESS) *current = v;
    return st;
  }
  Status ProcessMulti(const std::vector<std::pair<std::string_view, RecordProcessor*>>& pairs,
                      bool writable) override {
    std::vector<Arg> args;
    std::vector<TkrzwKeyProcPair> v(1);
    v.clear();
    for (const auto& p : pairs) {
      args.emplace_back(p.first);
      v.push_back({args.back().ptr, args.back().size, Callback, p.second});
    }
    Spoil();
    return Ret("tkrzw_dbm_process_multi", tkrzw_dbm_process_multi(db_, v.data(), v.size(), writable));
  }
  Status CompareExchangeMulti(
      const std::vector<std::pair<std::string_view, std::string_view>>& expected,
      const std::vector<std::pair<std::string_view, std::string_view>>& desired) override {
    Pairs e, d;
    for (const auto& r : expected) e.Add(r.first, r.second, true);
    for (const auto& r : desired) d.Add(r.first, r.second, true);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_compare_exchange_multi(
          async_, e.data(), e.v.size(), d.data(), d.v.size());
      e = Pairs(); d = Pairs();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_compare_exchange_multi", tkrzw_dbm_compare_exchange_multi(
        db_, e.data(), e.v.size(), d.data(), d.v.size()));
  }
  Status Rekey(std::string_view old_key, std::string_view new_key, bool overwrite, bool copying,
               std::string* value) override {
    Arg o(old_key), n(new_key);
    if (value == nullptr && Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_rekey(async_, o.ptr, o.size, n.ptr, n.size, overwrite, copying);
      o = Arg(); n = Arg();
      return Future(f);
    }
    Spoil();
    const Status st = Ret("tkrzw_dbm_rekey", tkrzw_dbm_rekey(
        db_, o.ptr, o.size, n.ptr, n.size, overwrite, copying));
    if (value && st == Status::SUCCESS) {
      int32_t vs = -1;
      char* v = tkrzw_dbm_get(db_, n.ptr, n.size, &vs);
      if (v) *value = Take(v, vs);
    }
    return st;
  }
  Status ProcessFirst(RecordProcessor* proc, bool writable) override {
    Spoil();
    return Ret("tkrzw_dbm_process_first", tkrzw_dbm_process_first(db_, Callback, proc, writable));
  }
  Status PopFirst(std::string* key, std::string* value) override {
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_pop_first(async_);
      Wait(f);
      Spoil();
      TkrzwKeyValuePair* p = tkrzw_future_get_str_pair(f);
      tkrzw_future_free(f);
      const Status st = Last();
      if (st == Status::SUCCESS) {
        if (key) *key = std::string(p->key_ptr, p->key_size);
        if (value) *value = std::string(p->value_ptr, p->value_size);
        VT_CHECK(c_, "langc-terminator", p->key_ptr[p->key_size] == 0 && p->value_ptr[p->value_size] == 0,
                 "a string of a pair has no terminator");
      }
      free(p);
      return st;
    }
    char *k = nullptr, *v = nullptr;
    int32_t ks = -1, vs = -1;
    Spoil();
    const bool ok = tkrzw_dbm_pop_first(db_, key ? &k : nullptr, &ks, value ? &v : nullptr, &vs);
    const Status st = Ret("tkrzw_dbm_pop_first", ok);
    if (ok && key) *key = Take(k, ks);
    if (ok && value) *value = Take(v, vs);
    return st;
  }
  Status PushLast(std::string_view value, double wtime, std::string* key) override {
    if (key) return DBM::PushLast(value, wtime, key);  // not in the C interface
    Arg v(value);
    if (Async()) {
      TkrzwFuture* f = tkrzw_async_dbm_push_last(async_, v.ptr, v.size, wtime);
      v = Arg();
      return Future(f);
    }
    Spoil();
    return Ret("tkrzw_dbm_push_last", tkrzw_dbm_push_last(db_, v.ptr, v.size, wtime));
  }
  Status ProcessEach(RecordProcessor* proc, bool writable) override {
    Spoil();
    return Ret("tkrzw_dbm_process_each", tkrzw_dbm_process_each(db_, Callback, proc, writable));
  }
  Status Count(int64_t* count) override {
    Spoil();
    *count = tkrzw_dbm_count(db_);
    return Ret("tkrzw_dbm_count", *count >= 0);
  }
  Status GetFileSize(int64_t* size) override {
    Spoil();
    *size = tkrzw_dbm_get_file_size(db_);
    return Ret("tkrzw_dbm_get_file_size", *size >= 0);
  }
  Status GetFilePath(std::string* path) override {
    Spoil();
    char* p = tkrzw_dbm_get_file_path(db_);
    const Status st = Ret("tkrzw_dbm_get_file_path", p != nullptr);
    if (p) *path = Take(p, strlen(p));
    return st;
  }
  Status GetTimestamp(double* timestamp) override {
    Spoil();
    *timestamp = tkrzw_dbm_get_timestamp(db_);
    return Ret("tkrzw_dbm_get_timestamp", !std::isnan(*timestamp));
  }
  Status Clear() override {
    if (Async()) return Future(tkrzw_async_dbm_clear(async_));
    Spoil();
    return Ret("tkrzw_dbm_clear", tkrzw_dbm_clear(db_));
  }
  Status ShouldBeRebuilt(bool* tobe) override {
    Spoil();
    *tobe = tkrzw_dbm_should_be_rebuilt(db_);
    return Last();
  }
  Status CopyFileData(const std::string& dest, bool hard) override {
    if (Async()) return Future(tkrzw_async_dbm_copy_file_data(async_, dest.c_str(), hard));
    Spoil();
    return Ret("tkrzw_dbm_copy_file_data", tkrzw_dbm_copy_file_data(db_, dest.c_str(), hard));
  }
  // The records go to another database of the C interface first.
  Status Export(DBM* dest) override {
    TkrzwDBM* other;
    if (turn_ % 2) other = tkrzw_dbm_open("", true, "dbm=TinyDBM,num_buckets=100,num_shards=2");
    else other = tkrzw_dbm_open("", true, "dbm=TinyDBM,num_buckets=100");
    VT_CHECK(c_, "langc-open-memory", other != nullptr, "%s", ToString(Last()).c_str());
    Status st(Status::SUCCESS);
    if (Async()) {
      st = Future(tkrzw_async_dbm_export(async_, other));
    } else {
      Spoil();
      st = Ret("tkrzw_dbm_export", tkrzw_dbm_export(db_, other));
    }
    TkrzwDBMIter* it = tkrzw_dbm_make_iterator(other);
    tkrzw_dbm_iter_first(it);
    char *k, *v;
    int32_t ks, vs;
    while (tkrzw_dbm_iter_step(it, &k, &ks, &v, &vs)) {
      const std::string key = Take(k, ks), value = Take(v, vs);
      const Status s2 = dest->Set(key, value);
      if (s2 != Status::SUCCESS) st |= s2;
    }
    tkrzw_dbm_iter_free(it);
    tkrzw_dbm_close(other);
    return st;
  }
  std::vector<std::pair<std::string, std::string>> Inspect() override {
    int32_t n = -1;
    TkrzwKeyValuePair* array = tkrzw_dbm_inspect(db_, &n);
    auto* real = reinterpret_cast<ParamDBM*>(db_);
    const auto want = real->Inspect();
    const StrMap got = TakeMap(c_, array, n);
    for (const auto& e : want) {
      auto it = got.find(e.first);
      VT_CHECK(c_, "langc-inspect", it != got.end(), "tkrzw_dbm_inspect has no %s", e.first.c_str());
    }
    return want;
  }
  bool IsOpen() const override { return db_ != nullptr; }
  bool IsWritable() const override { return tkrzw_dbm_is_writable(db_); }
  bool IsHealthy() const override { return tkrzw_dbm_is_healthy(db_); }
  bool IsOrdered() const override { return tkrzw_dbm_is_ordered(db_); }
  std::unique_ptr<DBM> MakeDBM() const override { return std::make_unique<CDbm>(c_, workers_); }
  UpdateLogger* GetUpdateLogger() const override { return nullptr; }
  void SetUpdateLogger(UpdateLogger*) override {}

  class Iter : public DBM::Iterator {
   public:
    Iter(CDbm* db) : db_(db), it_(tkrzw_dbm_make_iterator(db->db_)) {}
    ~Iter() override { tkrzw_dbm_iter_free(it_); }
    Status Ret(const char* name, bool ok) { return db_->Ret(name, ok); }
    Status First() override { db_->Spoil(); return Ret("tkrzw_dbm_iter_first", tkrzw_dbm_iter_first(it_)); }
    Status Last() override { db_->Spoil(); return Ret("tkrzw_dbm_iter_last", tkrzw_dbm_iter_last(it_)); }
    Status Jump(std::string_view key) override {
      Arg k(key);
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_jump", tkrzw_dbm_iter_jump(it_, k.ptr, k.size));
    }
    Status JumpLower(std::string_view key, bool inclusive) override {
      Arg k(key);
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_jump_lower", tkrzw_dbm_iter_jump_lower(it_, k.ptr, k.size, inclusive));
    }
    Status JumpUpper(std::string_view key, bool inclusive) override {
      Arg k(key);
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_jump_upper", tkrzw_dbm_iter_jump_upper(it_, k.ptr, k.size, inclusive));
    }
    Status Next() override { db_->Spoil(); return Ret("tkrzw_dbm_iter_next", tkrzw_dbm_iter_next(it_)); }
    Status Previous() override {
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_previous", tkrzw_dbm_iter_previous(it_));
    }
    Status Process(RecordProcessor* proc, bool writable) override {
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_process", tkrzw_dbm_iter_process(it_, Callback, proc, writable));
    }
    Status Pair(const char* name, bool (*f)(TkrzwDBMIter*, char**, int32_t*, char**, int32_t*),
                std::string* key, std::string* value) {
      char *k = nullptr, *v = nullptr;
      int32_t ks = -1, vs = -1;
      db_->Spoil();
      const bool ok = f(it_, key ? &k : nullptr, &ks, value ? &v : nullptr, &vs);
      const Status st = Ret(name, ok);
      if (ok && key) *key = Take(k, ks);
      if (ok && value) *value = Take(v, vs);
      return st;
    }
    Status Get(std::string* key, std::string* value) override {
      if (++db_->turn_ % 4 == 0 && key && value) {
        db_->Spoil();
        int32_t ks = -1, vs = -1;
        char* k = tkrzw_dbm_iter_get_key(it_, &ks);
        const Status st = Ret("tkrzw_dbm_iter_get_key", k != nullptr);
        db_->Spoil();
        char* v = tkrzw_dbm_iter_get_value(it_, &vs);
        const Status st2 = Ret("tkrzw_dbm_iter_get_value", v != nullptr);
        if (k) *key = Take(k, ks);
        if (v) *value = Take(v, vs);
        VT_CHECK(db_->c_, "langc-iter-get", st == st2, "get_key says %s, get_value says %s",
                 ToString(st).c_str(), ToString(st2).c_str());
        return st;
      }
      return Pair("tkrzw_dbm_iter_get", tkrzw_dbm_iter_get, key, value);
    }
    Status Step(std::string* key, std::string* value) override {
      return Pair("tkrzw_dbm_iter_step", tkrzw_dbm_iter_step, key, value);
    }
    Status Set(std::string_view value, std::string* ok, std::string* ov) override {
      if (ok || ov) return DBM::Iterator::Set(value, ok, ov);
      Arg v(value);
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_set", tkrzw_dbm_iter_set(it_, v.ptr, v.size));
    }
    Status Remove(std::string* ok, std::string* ov) override {
      if (ok || ov) return DBM::Iterator::Remove(ok, ov);
      db_->Spoil();
      return Ret("tkrzw_dbm_iter_remove", tkrzw_dbm_iter_remove(it_));
    }
    CDbm* db_;
    TkrzwDBMIter* it_;
  };
  std::unique_ptr<Iterator> MakeIterator() override { return std::make_unique<Iter>(this); }
};

Spec GenSpec(Case& c, std::vector<CDbm*>* dbs) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, CACHE});
  if (c.Bool()) s.poly = true; else s.shards = c.Range(1, 4);
  GenTuning(c, &s);
  // The parameters are written as text.
  for (char& ch : s.tp.cipher_key) ch = 'a' + (unsigned char)ch % 26;
  const int workers = c.PickOf({0, 0, 1, 3});
  s.maker = [&c, workers]() { return std::make_unique<CDbm>(c, workers); };
  c.Tag(workers ? "async" : "sync");
  return s;
}

void Lengths(Case& c, const Spec& s, int* avg, int* max) {
  if (c.thorough) { *avg = c.PickOf({30, 5, 120, 400}); *max = 1500; }
  else { *avg = c.PickOf({25, 5, 60}); *max = 200; }
  if (s.tp.record_comp_mode == HashDBM::RECORD_COMP_LZMA) { *avg = 5; *max = 15; }
}

}  // namespace

VT_SUITE(langc_dbm) {
  Spec s = GenSpec(c, nullptr);
  int avg, max;
  Lengths(c, s, &avg, &max);
  Ctx x(c, s);
  x.path = c.dir + "/db." + s.Ext();
  x.kg = GenKeyGen(c, s);
  x.max_value = c.PickOf<size_t>({200, 20, 1000, 5000});
  c.Log("spec: %s", s.Str().c_str());
  x.Open(true);
  Ctx::Weights w = Ctx::DefaultWeights();
  if (c.Bool()) { w[Ctx::ITERATE] = 5; w[Ctx::WALK] = 5; w[Ctx::REOPEN] = 3; }
  if (c.Bool()) {
    w[Ctx::APPEND] = 5; w[Ctx::CMPEX] = 6; w[Ctx::INC] = 5; w[Ctx::MULTI] = 6; w[Ctx::CMPEXMULTI] = 6;
    w[Ctx::REKEY] = 6; w[Ctx::PUSH] = 4; w[Ctx::POP] = 4; w[Ctx::PROCFIRST] = 3; w[Ctx::EXPORT] = 2;
    w[Ctx::COPY] = 1;
  }
  for (int i = 0; c.More(i, avg, max); i++) x.Step(w);
  x.FullCheck();
  x.Close();
  x.db.reset();
  // What the C interface wrote is read by the C++ interface.
  x.spec.maker = nullptr;
  x.Open(true);
  x.FullCheck();
  x.Close();
  c.NonTrivial(x.updates >= 3 && x.steps >= 3);
  c.Tag("steps", x.steps);
  c.Tag(KindName(s.kind));
}

// ------------------------------------------------------------------ functions of strings

static std::string Text(Case& c, size_t max) {
  std::string s = c.Bytes(max);
  for (char& ch : s) if (ch == 0) ch = '0';
  return s;
}

VT_SUITE(langc_util) {
  const std::string data = c.Bytes(40);
  c.NonTrivial(data.size() >= 2);
  c.Log("data %s", vt::Esc(data).c_str());
  const uint64_t nb = c.Bool() ? UINT64MAX : c.NastyUInt() | 1;
  {
    Arg a(data);
    VT_CHECK(c, "langc-hash", tkrzw_primary_hash(a.ptr, a.size, nb) == PrimaryHash(data, nb), "primary hash");
    VT_CHECK(c, "langc-hash", tkrzw_secondary_hash(a.ptr, a.size, nb) == SecondaryHash(data, nb),
             "secondary hash");
    int32_t size = -1;
    const bool nonasc = c.Bool();
    char* p = tkrzw_str_escape_c(a.ptr, a.size, nonasc, c.Bool() ? nullptr : &size);
    const std::string escaped = StrEscapeC(data, nonasc);
    VT_CHECK(c, "langc-escape", size < 0 || size == (int32_t)escaped.size(), "size of the escaped text");
    VT_CHECK(c, "langc-escape", Take(p, escaped.size()) == escaped, "escaped text");
    const std::string input = c.Bool() ? escaped : c.Bytes(40);
    Arg b(input);
    p = tkrzw_str_unescape_c(b.ptr, b.size, &size);
    const std::string back = Take(p, size);
    VT_CHECK(c, "langc-unescape", back == StrUnescapeC(input), "unescaped %s", vt::Esc(input).c_str());
  }
  {
    const std::string a = Text(c, 20), b = c.Bool() ? Text(c, 20) : a + "x";
    VT_CHECK(c, "langc-edit", tkrzw_str_edit_distance_lev(a.c_str(), b.c_str(), false) ==
             EditDistanceLev(std::string_view(a), std::string_view(b)), "edit distance of bytes");
    VT_CHECK(c, "langc-edit", tkrzw_str_edit_distance_lev(a.c_str(), b.c_str(), true) ==
             EditDistanceLev(ConvertUTF8ToUCS4(a), ConvertUTF8ToUCS4(b)), "edit distance of characters");
    const std::string pattern = c.PickOf<std::string>({"a", "a+", "^k", "[0-9]+", "(a|b)*$", "(", "[a", "x?b", ""});
    VT_CHECK(c, "langc-regex", tkrzw_str_search_regex(a.c_str(), pattern.c_str()) == StrSearchRegex(a, pattern),
             "search of %s in %s", pattern.c_str(), vt::Esc(a).c_str());
    const std::string want = StrReplaceRegex(a, pattern, "<$&>");
    char* p = tkrzw_str_replace_regex(a.c_str(), pattern.c_str(), "<$&>");
    VT_CHECK(c, "langc-regex", p != nullptr, "replacement failed");
    VT_CHECK(c, "langc-regex", Take(p, want.size()) == want, "replacement in %s", vt::Esc(a).c_str());
    p = nullptr;
    std::string all;
    for (int i = 0; c.More(i, 3, 20); i++) {
      const std::string part = Text(c, 30);
      p = tkrzw_str_append(p, part.c_str());
      all += part;
      VT_CHECK(c, "langc-append", all == p, "appended text of %zu bytes", all.size());
    }
    free(p);
  }
  {
    const uint64_t v = c.NastyUInt();
    const size_t size = c.Range(0, 9);
    char* p = tkrzw_int_to_str_be(v, size);
    const std::string s(p, std::min<size_t>(size, 8));
    free(p);
    VT_CHECK(c, "langc-int-be", s == IntToStrBigEndian(v, s.size()), "int %llx of %zu bytes", (unsigned long long)v, size);
    VT_CHECK(c, "langc-int-be", tkrzw_str_to_int_be(s.data(), s.size()) == StrToIntBigEndian(s), "int back");
    const double d = c.NastyDouble();
    const size_t fsize = c.PickOf<size_t>({4, 8, 16});
    p = tkrzw_float_to_str_be(d, fsize);
    const std::string f(p, fsize);
    free(p);
    VT_CHECK(c, "langc-float-be", fsize > 10 /* padding bytes */ ?
             f.substr(fsize - 10) == FloatToStrBigEndian(d, fsize).substr(fsize - 10) :
             f == FloatToStrBigEndian(d, fsize), "float of %zu bytes", fsize);
    const long double back = tkrzw_str_to_float_be(f.data(), f.size());
    VT_CHECK(c, "langc-float-be", std::isnan(d) ? std::isnan(back) :
             back == (fsize == 4 ? (long double)(float)d : (long double)d), "float back");
  }
  const int code = c.Range(0, 15);
  VT_CHECK(c, "langc-status", std::string(tkrzw_status_code_name(code)) == Status::CodeName(Status::Code(code)),
           "name of the status %d", code);
  const std::string msg = Text(c, 10);
  tkrzw_set_last_status(code, c.Bool() || !msg.empty() ? msg.c_str() : nullptr);
  VT_CHECK(c, "langc-status", tkrzw_get_last_status_code() == code && msg == tkrzw_get_last_status_message() &&
           msg == tkrzw_get_last_status().message && tkrzw_get_last_status().code == code, "status back");
  // The status belongs to the thread.
  int other = -1;
  std::thread([&]() { other = tkrzw_get_last_status_code(); tkrzw_set_last_status(3, "x"); }).join();
  VT_CHECK(c, "langc-status", other == 0 && tkrzw_get_last_status_code() == code, "the status is shared by threads");
  VT_CHECK(c, "langc-misc", std::abs(tkrzw_get_wall_time() - GetWallTime()) < 10 &&
           tkrzw_get_memory_capacity() == GetMemoryCapacity() && tkrzw_get_memory_usage() > 0, "memory and time");
}

// ------------------------------------------------------------------ files

VT_SUITE(langc_file) {
  const std::string path = c.dir + "/file";
  std::map<std::string, std::string> params;
  params["file"] = c.PickOf<std::string>({"StdFile", "MemoryMapParallelFile", "MemoryMapAtomicFile",
                                         "PositionalParallelFile", "PositionalAtomicFile"});
  TkrzwFile* f = nullptr;
  std::string model;
  int updates = 0;
  auto open = [&](bool writable, int32_t options) {
    const std::string p = Join(params, options);
    tkrzw_set_last_status(TKRZW_STATUS_APPLICATION_ERROR, "stale");
    f = tkrzw_file_open(path.c_str(), writable, p.c_str());
    c.Log("open(%d, %s) -> %s", writable, p.c_str(), ToString(Last()).c_str());
    VT_CHECK(c, "langc-file-open", (f != nullptr) == (Last() == Status::SUCCESS), "open: %s", ToString(Last()).c_str());
  };
  if (c.Bool()) {
    open(c.Bool(), File::OPEN_NO_CREATE);
    VT_CHECK(c, "langc-file-open", f == nullptr && Last() == Status::NOT_FOUND_ERROR, "open of a missing file: %s",
             ToString(Last()).c_str());
  }
  open(true, c.PickOf<int>({0, File::OPEN_TRUNCATE, File::OPEN_NO_WAIT, File::OPEN_NO_LOCK, File::OPEN_SYNC_HARD}));
  VT_CHECK(c, "langc-file-open", f != nullptr, "open: %s", ToString(Last()).c_str());
  bool writable = true;
  auto check = [&](const char* what, bool ok, bool want) {
    VT_CHECK(c, "langc-file", ok == want && ok == (Last() == Status::SUCCESS), "%s -> %d %s", what, ok,
             ToString(Last()).c_str());
  };
  for (int i = 0; c.More(i, 15, 60); i++) {
    tkrzw_set_last_status(TKRZW_STATUS_APPLICATION_ERROR, "stale");
    switch (c.Weighted({4, 4, 4, 2, 2, 2, 2})) {
      case 0: {
        const int64_t off = c.Range(0, model.size() + 5);
        const int size = c.Range(0, 30);
        std::vector<char> buf(size + 1);
        const bool ok = tkrzw_file_read(f, off, buf.data(), size);
        check("read", ok, off + size <= (int64_t)model.size());
        if (ok) VT_CHECK(c, "langc-file-read", model.substr(off, size) == std::string(buf.data(), size),
                         "read(%d,%d)", (int)off, size);
        break;
      }
      case 1: {
        const int64_t off = c.Range(0, model.size() + 5);
        const std::string data = c.Bytes(30) + "x";
        const bool ok = tkrzw_file_write(f, off, data.data(), data.size());
        check("write", ok, writable);
        if (ok) {
          if (model.size() < off + data.size()) model.resize(off + data.size(), 0);
          model.replace(off, data.size(), data);
          updates++;
        }
        break;
      }
      case 2: {
        const std::string data = c.Bytes(30);
        int64_t off = -1;
        const bool want_off = c.Bool();
        const bool ok = tkrzw_file_append(f, data.data(), data.size(), want_off ? &off : nullptr);
        check("append", ok, writable);
        if (ok && want_off)
          VT_CHECK(c, "langc-file-append", off == (int64_t)model.size(), "offset %lld", (long long)off);
        if (ok) model += data, updates++;
        break;
      }
      case 3: {
        const int64_t size = c.Range(0, model.size() + 20);
        const bool ok = tkrzw_file_truncate(f, size);
        check("truncate", ok, writable);
        if (ok) model.resize(size, 0), updates++;
        break;
      }
      case 4: {
        const bool ok = tkrzw_file_synchronize(f, c.Bool(), 0, 0);
        check("synchronize", ok, writable || ok);
        break;
      }
      case 5: {
        const int64_t size = tkrzw_file_get_size(f);
        VT_CHECK(c, "langc-file-size", size == (int64_t)model.size(), "size %lld, expected %zu", (long long)size,
                 model.size());
        char* p = tkrzw_file_get_path(f);
        VT_CHECK(c, "langc-file-path", Take(p, path.size()) == path, "path");
        break;
      }
      default: {
        check("close", tkrzw_file_close(f), true);
        writable = c.Chance(3, 4);
        const bool trunc = writable && c.Chance(1, 6);
        params["file"] = c.PickOf<std::string>({"StdFile", "MemoryMapParallelFile", "MemoryMapAtomicFile",
                                               "PositionalParallelFile", "PositionalAtomicFile"});
        open(writable, trunc ? File::OPEN_TRUNCATE : c.PickOf<int>({0, 0, File::OPEN_NO_LOCK, File::OPEN_NO_CREATE}));
        VT_CHECK(c, "langc-file-open", f != nullptr, "open: %s", ToString(Last()).c_str());
        if (trunc) model.clear();
      }
    }
  }
  check("close", tkrzw_file_close(f), true);
  VT_CHECK(c, "langc-file-content", ReadFileSimple(path, "missing", 1 << 20) == model, "the stored file differs");
  c.NonTrivial(updates >= 3);
}

// ------------------------------------------------------------------ indices

VT_SUITE(langc_index) {
  const bool memory = c.Chance(1, 3);
  const std::string path = memory ? "" : c.dir + "/index.tkt";
  TkrzwIndex* ix = nullptr;
  auto open = [&](bool writable, int32_t options) {
    std::map<std::string, std::string> params;
    if (!memory) params["num_buckets"] = "10", params["max_page_size"] = "100";
    tkrzw_set_last_status(TKRZW_STATUS_APPLICATION_ERROR, "stale");
    ix = tkrzw_index_open(path.c_str(), writable, Join(params, options).c_str());
    VT_CHECK(c, "langc-index-open", ix != nullptr && Last() == Status::SUCCESS, "open: %s", ToString(Last()).c_str());
  };
  open(true, c.PickOf<int>({0, File::OPEN_TRUNCATE}));
  std::set<std::pair<std::string, std::string>> model;
  bool writable = true;
  int updates = 0;
  auto gen = [&]() { return c.Chance(1, 8) ? c.Bytes(20) : std::string(c.Range(0, 3), 'a') + char('a' + c.Range(0, 2)); };
  auto check = [&](const char* what, bool ok, bool want) {
    VT_CHECK(c, "langc-index", ok == want && ok == (Last() == Status::SUCCESS), "%s -> %d %s", what, ok,
             ToString(Last()).c_str());
  };
  for (int i = 0; c.More(i, 30, 150); i++) {
    const std::string key = gen(), value = gen();
    Arg k(key), v(value);
    const std::pair<std::string, std::string> pair(key, value);
    tkrzw_set_last_status(TKRZW_STATUS_APPLICATION_ERROR, "stale");
    switch (c.Weighted({8, 4, 3, 4, 1, 4, 1, 1, 1})) {
      case 0:
        check("add", tkrzw_index_add(ix, k.ptr, k.size, v.ptr, v.size), writable);
        if (writable) model.insert(pair), updates++;
        break;
      case 1: {
        const bool ok = tkrzw_index_remove(ix, k.ptr, k.size, v.ptr, v.size);
        c.Log("remove -> %s", ToString(Last()).c_str());
        if (writable) check("remove", ok, model.erase(pair) > 0); else check("remove", ok, false);
        break;
      }
      case 2:
        VT_CHECK(c, "langc-index-check", tkrzw_index_check(ix, k.ptr, k.size, v.ptr, v.size) == (model.count(pair) > 0),
                 "check(%s, %s)", vt::Esc(key).c_str(), vt::Esc(value).c_str());
        break;
      case 3: {
        const int max = c.PickOf({0, 0, 1, 2, 5});
        int32_t n = -1;
        TkrzwStr* array = tkrzw_index_get_values(ix, k.ptr, k.size, max, &n);
        std::vector<std::string> want;
        for (const auto& p : model)
          if (p.first == key && (max == 0 || (int)want.size() < max)) want.push_back(p.second);
        VT_CHECK(c, "langc-index-values", TakeArray(array, n) == want, "values of %s, max %d: %d, expected %zu",
                 vt::Esc(key).c_str(), max, n, want.size());
        break;
      }
      case 4:
        VT_CHECK(c, "langc-index-count", tkrzw_index_count(ix) == (int)model.size(), "count");
        break;
      case 5: {
        TkrzwIndexIter* it = tkrzw_index_make_iterator(ix);
        auto pos = model.begin();
        int how = c.Range(0, 3);
        if (model.empty() && how == 2) how = 0;
        if (how == 0) {
          tkrzw_index_iter_first(it);
        } else if (how == 1) {
          tkrzw_index_iter_jump(it, k.ptr, k.size, v.ptr, v.size);
          pos = model.lower_bound(pair);
        } else if (how == 2) {
          tkrzw_index_iter_last(it);
          pos = std::prev(model.end());
        } else {
          tkrzw_index_iter_jump(it, k.ptr, k.size, "", 0);
          pos = model.lower_bound({key, ""});
        }
        for (int s = 0; s < 6; s++) {
          char *kp = nullptr, *vp = nullptr;
          int32_t ks = -1, vs = -1;
          const bool wk = c.Bool(), wv = c.Bool();
          const bool ok = tkrzw_index_iter_get(it, wk ? &kp : nullptr, &ks, wv ? &vp : nullptr, &vs);
          VT_CHECK(c, "langc-index-iter", ok == (pos != model.end()), "iterator: %d", ok);
          if (!ok) break;
          if (wk) VT_CHECK(c, "langc-index-iter", Take(kp, ks) == pos->first, "iterator key");
          if (wv) VT_CHECK(c, "langc-index-iter", Take(vp, vs) == pos->second, "iterator value");
          if (how == 2) {
            tkrzw_index_iter_previous(it);
            if (pos == model.begin()) break;
            --pos;
          } else {
            tkrzw_index_iter_next(it);
            ++pos;
          }
        }
        tkrzw_index_iter_free(it);
        break;
      }
      case 6:
        if (c.Bool()) check("synchronize", tkrzw_index_synchronize(ix, c.Bool()), writable || memory);
        else check("rebuild", tkrzw_index_rebuild(ix), writable);
        break;
      case 7: {
        if (c.Chance(1, 3)) {
          check("clear", tkrzw_index_clear(ix), writable);
          if (writable) model.clear();
        }
        char* p = tkrzw_index_get_file_path(ix);
        VT_CHECK(c, "langc-index-path", Take(p, strlen(p)) == path, "path");
        VT_CHECK(c, "langc-index-writable", memory || tkrzw_index_is_writable(ix) == writable, "writable");
        break;
      }
      default:
        if (memory) break;
        check("close", tkrzw_index_close(ix), true);
        writable = c.Chance(3, 4);
        open(writable, 0);
    }
  }
  check("close", tkrzw_index_close(ix), true);
  c.NonTrivial(updates >= 3);
}

// ------------------------------------------------------------------ whole contents, and leaks

VT_SUITE(langc_bulk) {
  const bool shards = c.Chance(1, 3);
  const std::string ext = c.PickOf<std::string>({"tkh", "tkt"});
  const std::string path = c.dir + "/db." + ext, path2 = c.dir + "/new." + ext;
  std::string params = "num_buckets=50,update_mode=UPDATE_APPENDING";
  if (shards) params += ",num_shards=3";
  TkrzwDBM* db = tkrzw_dbm_open(path.c_str(), true, params.c_str());
  VT_CHECK(c, "langc-open", db != nullptr, "%s", ToString(Last()).c_str());
  std::map<std::string, std::string> model;
  for (int i = 0; c.More(i, 12, 60); i++) {
    const std::string key = c.Bool() ? c.Bytes(20) : "key" + ToString(c.Range(0, 30)), value = c.Bytes(40);
    Arg k(key), v(value);
    VT_CHECK(c, "langc-set", tkrzw_dbm_set(db, k.ptr, k.size, v.ptr, v.size, true), "set");
    model[key] = value;
  }
  TkrzwAsyncDBM* async = c.Bool() ? tkrzw_async_dbm_new(db, 2) : nullptr;
  auto future = [&](TkrzwFuture* f) {
    tkrzw_future_get(f);
    tkrzw_future_free(f);
    return Last() == Status::SUCCESS;
  };
  // Flat records.
  {
    TkrzwFile* file = tkrzw_file_open((c.dir + "/flat").c_str(), true, "file=std,truncate=true");
    VT_CHECK(c, "langc-file-open", file != nullptr, "open: %s", ToString(Last()).c_str());
    VT_CHECK(c, "langc-flat-export", async ? future(tkrzw_async_dbm_export_to_flat_records(async, file)) :
             tkrzw_dbm_export_to_flat_records(db, file), "export: %s", ToString(Last()).c_str());
    TkrzwDBM* other = tkrzw_dbm_open("", true, "dbm=baby");
    if (async) {
      TkrzwAsyncDBM* a2 = tkrzw_async_dbm_new(other, 1);
      VT_CHECK(c, "langc-flat-import", future(tkrzw_async_dbm_import_from_flat_records(a2, file)), "import: %s",
               ToString(Last()).c_str());
      tkrzw_async_dbm_free(a2);
    } else {
      VT_CHECK(c, "langc-flat-import", tkrzw_dbm_import_from_flat_records(other, file), "import: %s",
               ToString(Last()).c_str());
    }
    VT_CHECK(c, "langc-flat", tkrzw_dbm_count(other) == (int64_t)model.size(), "imported %lld records, expected %zu",
             (long long)tkrzw_dbm_count(other), model.size());
    for (const auto& r : model) {
      int32_t vs = -1;
      char* v = tkrzw_dbm_get(other, r.first.data(), r.first.size(), &vs);
      VT_CHECK(c, "langc-flat", v != nullptr, "the imported database lacks %s", vt::Esc(r.first).c_str());
      VT_CHECK(c, "langc-flat", Take(v, vs) == r.second, "imported value of %s", vt::Esc(r.first).c_str());
    }
    tkrzw_dbm_close(other);
    tkrzw_file_close(file);
  }
  // Searching keys and lines.
  {
    TkrzwFile* file = tkrzw_file_open((c.dir + "/lines").c_str(), true, "truncate=true");
    VT_CHECK(c, "langc-lines", tkrzw_dbm_export_keys_as_lines(db, file), "%s", ToString(Last()).c_str());
    for (int i = 0; i < 4; i++) {
      const std::string mode = c.PickOf<std::string>({"contain", "begin", "end", "regex", "edit", "containcase", "nomode"});
      const std::string pattern = c.PickOf<std::string>({"key", "y1", "k.*2", "", "a"});
      const int capacity = c.PickOf({0, 1, 3, -1});
      auto* xdb = reinterpret_cast<ParamDBM*>(db);
      std::vector<std::string> want;
      const Status wst = SearchDBMModal(xdb, mode, pattern, &want, std::max(0, capacity));
      Arg p(pattern);
      int32_t n = 0;
      TkrzwStr* array;
      if (async) {
        TkrzwFuture* f = tkrzw_async_dbm_search(async, mode.c_str(), p.ptr, p.size, capacity);
        array = tkrzw_future_get_str_array(f, &n);
        tkrzw_future_free(f);
      } else {
        array = tkrzw_dbm_search(db, mode.c_str(), p.ptr, p.size, capacity, &n);
      }
      VT_CHECK(c, "langc-search", Last().GetCode() == wst.GetCode(), "search: %s, expected %s", ToString(Last()).c_str(),
               ToString(wst).c_str());
      const auto got = array ? TakeArray(array, n) : std::vector<std::string>();
      VT_CHECK(c, "langc-search", got == want, "search %s %s: %zu keys, expected %zu", mode.c_str(), pattern.c_str(),
               got.size(), want.size());
      want.clear();
      const Status fst = SearchTextFileModal(reinterpret_cast<PolyFile*>(file), mode, pattern, &want, std::max(0, capacity));
      n = 0;
      array = tkrzw_file_search(file, mode.c_str(), p.ptr, p.size, capacity, &n);
      VT_CHECK(c, "langc-search", Last().GetCode() == fst.GetCode(), "search of lines: %s", ToString(Last()).c_str());
      VT_CHECK(c, "langc-search", (array ? TakeArray(array, n) : std::vector<std::string>()) == want, "lines of %s %s",
               mode.c_str(), pattern.c_str());
    }
    tkrzw_file_close(file);
  }
  if (async) tkrzw_async_dbm_free(async);
  // Restoring the content of the last synchronization.
  VT_CHECK(c, "langc-sync", tkrzw_dbm_synchronize(db, false, nullptr, nullptr, ""), "%s", ToString(Last()).c_str());
  const auto synced = model;
  const bool later = c.Bool();
  if (later) tkrzw_dbm_set(db, "later", -1, "later", -1, true);
  VT_CHECK(c, "langc-close", tkrzw_dbm_close(db), "%s", ToString(Last()).c_str());
  VT_CHECK(c, "langc-restore", tkrzw_dbm_restore_database(
      path.c_str(), path2.c_str(), c.Bool() ? nullptr : ext == "tkh" ? "HashDBM" : "TreeDBM", -1, nullptr),
           "restore: %s", ToString(Last()).c_str());
  db = tkrzw_dbm_open(path2.c_str(), false, shards ? "num_shards=0" : "");
  VT_CHECK(c, "langc-open", db != nullptr, "%s", ToString(Last()).c_str());
  for (const auto& r : synced) {
    int32_t vs = -1;
    char* v = tkrzw_dbm_get(db, r.first.data(), r.first.size(), &vs);
    VT_CHECK(c, "langc-restore", v != nullptr, "the restored database lacks %s", vt::Esc(r.first).c_str());
    VT_CHECK(c, "langc-restore", Take(v, vs) == r.second, "restored value of %s", vt::Esc(r.first).c_str());
  }
  tkrzw_dbm_close(db);
  c.NonTrivial(model.size() >= 3);
}

// The same calls again and again need the same memory.
VT_SUITE(langc_leak) {
  if (!__sanitizer_get_current_allocated_bytes) return;
  const std::string params = c.PickOf<std::string>({"dbm=baby", "dbm=tiny,num_buckets=10", "dbm=StdTreeDBM", "dbm=cache,num_shards=2",
                                           "dbm=hash,num_buckets=10,file=pos-atom", "dbm=tree,num_buckets=10,file=mmap-para"});
  const std::string key = "k" + c.Bytes(200), value = "v" + c.Bytes(300);
  const int what = c.Range(0, 6);
  c.Log("round %d [%s]", what, params.c_str());
  const bool disk = params.find("file=") != params.npos;
  TkrzwDBM* db = tkrzw_dbm_open(disk ? (c.dir + "/db").c_str() : "", true, params.c_str());
  VT_CHECK(c, "langc-open", db != nullptr, "%s", ToString(Last()).c_str());
  const char* k = key.data();
  const int32_t ks = key.size();
  const char* v = value.data();
  const int32_t vs = value.size();
  TkrzwAsyncDBM* async = what == 3 ? tkrzw_async_dbm_new(db, 1) : nullptr;
  auto future = [](TkrzwFuture* f) { tkrzw_future_get(f); tkrzw_future_free(f); };
  auto round = [&]() {
    int32_t n = 0, n2 = 0;
    char *p, *q;
    tkrzw_dbm_set(db, k, ks, v, vs, true);
    switch (what) {
      case 0:
        p = tkrzw_dbm_get(db, k, ks, &n); free(p);
        p = tkrzw_dbm_get(db, "none", -1, &n); free(p);
        p = tkrzw_dbm_set_and_get(db, k, ks, v, vs, false, &n); free(p);
        p = tkrzw_dbm_set_and_get(db, k, ks, v, vs, true, &n); free(p);
        p = tkrzw_dbm_compare_exchange_and_get(db, k, ks, v, vs, "x", 1, &n); free(p);
        p = tkrzw_dbm_compare_exchange_and_get(db, k, ks, "y", 1, "x", 1, &n); free(p);
        p = tkrzw_dbm_remove_and_get(db, k, ks, &n); free(p);
        p = tkrzw_dbm_remove_and_get(db, k, ks, &n); free(p);
        break;
      case 1: {
        TkrzwStr s[2] = {{k, ks}, {"none", -1}};
        TkrzwKeyValuePair r[1] = {{k, ks, v, vs}};
        tkrzw_dbm_set_multi(db, r, 1, true);
        TkrzwKeyValuePair* m = tkrzw_dbm_get_multi(db, s, 2, &n);
        tkrzw_free_str_map(m, n);
        m = tkrzw_dbm_inspect(db, &n);
        tkrzw_free_str_map(m, n);
        TkrzwStr* a = tkrzw_dbm_search(db, "contain", "k", 1, 0, &n);
        tkrzw_free_str_array(a, n);
        tkrzw_dbm_append_multi(db, r, 1, ":", 1);
        tkrzw_dbm_compare_exchange_multi(db, r, 1, r, 1);
        tkrzw_dbm_remove_multi(db, s, 1);
        break;
      }
      case 2: {
        TkrzwDBMIter* it = tkrzw_dbm_make_iterator(db);
        tkrzw_dbm_iter_first(it);
        tkrzw_dbm_iter_jump(it, k, ks);
        p = q = nullptr;
        if (tkrzw_dbm_iter_get(it, &p, &n, &q, &n2)) free(p), free(q);
        if (tkrzw_dbm_iter_get(it, &p, &n, nullptr, nullptr)) free(p);
        if (tkrzw_dbm_iter_get(it, nullptr, nullptr, &p, &n)) free(p);
        p = tkrzw_dbm_iter_get_key(it, &n); free(p);
        p = tkrzw_dbm_iter_get_value(it, &n); free(p);
        if (tkrzw_dbm_iter_step(it, &p, &n, &q, &n2)) free(p), free(q);
        tkrzw_dbm_iter_free(it);
        break;
      }
      case 3: {
        future(tkrzw_async_dbm_set(async, k, ks, v, vs, true));
        TkrzwFuture* f = tkrzw_async_dbm_get(async, k, ks);
        p = tkrzw_future_get_str(f, &n);
        free(p);
        tkrzw_future_free(f);
        TkrzwStr s[1] = {{k, ks}};
        f = tkrzw_async_dbm_get_multi(async, s, 1);
        TkrzwKeyValuePair* m = tkrzw_future_get_str_map(f, &n);
        tkrzw_free_str_map(m, n);
        tkrzw_future_free(f);
        f = tkrzw_async_dbm_search(async, "begin", "k", 1, 0);
        TkrzwStr* a = tkrzw_future_get_str_array(f, &n);
        tkrzw_free_str_array(a, n);
        tkrzw_future_free(f);
        f = tkrzw_async_dbm_pop_first(async);
        m = tkrzw_future_get_str_pair(f);
        free(m);
        tkrzw_future_free(f);
        // A future may be dropped.
        f = tkrzw_async_dbm_get(async, k, ks);
        tkrzw_future_wait(f, -1);
        tkrzw_future_free(f);
        break;
      }
      case 4:
        if (tkrzw_dbm_pop_first(db, &p, &n, &q, &n2)) free(p), free(q);
        if (tkrzw_dbm_pop_first(db, &p, &n, nullptr, nullptr)) free(p);
        p = tkrzw_dbm_get_file_path(db); free(p);
        tkrzw_dbm_increment(db, "n", 1, 1, 0);
        tkrzw_dbm_remove(db, "n", 1);
        tkrzw_dbm_rekey(db, k, ks, "z", 1, true, false);
        tkrzw_dbm_remove(db, "z", 1);
        break;
      case 5: {
        TkrzwDBM* d2 = tkrzw_dbm_open("", true, "dbm=baby");
        tkrzw_dbm_export(db, d2);
        tkrzw_dbm_close(d2);
        d2 = tkrzw_dbm_open("/nonexistent/x.tkh", true, "num_shards=1");
        if (d2) tkrzw_dbm_close(d2);
        TkrzwFile* f = tkrzw_file_open("/nonexistent/x", true, "");
        if (f) tkrzw_file_close(f);
        TkrzwIndex* ix = tkrzw_index_open("/nonexistent/x.tkt", true, "");
        if (ix) tkrzw_index_close(ix);
        break;
      }
      default: {
        TkrzwIndex* ix = tkrzw_index_open("", true, "");
        tkrzw_index_add(ix, k, ks, v, vs);
        TkrzwStr* a = tkrzw_index_get_values(ix, k, ks, 0, &n);
        tkrzw_free_str_array(a, n);
        TkrzwIndexIter* it = tkrzw_index_make_iterator(ix);
        tkrzw_index_iter_first(it);
        if (tkrzw_index_iter_get(it, &p, &n, &q, &n2)) free(p), free(q);
        tkrzw_index_iter_free(it);
        p = tkrzw_index_get_file_path(ix); free(p);
        tkrzw_index_close(ix);
      }
    }
    tkrzw_dbm_remove(db, k, ks);
  };
  for (int i = 0; i < 5; i++) round();
  if (async) std::this_thread::sleep_for(std::chrono::milliseconds(5));
  const int rounds = 40;
  ssize_t growth[3];
  for (int batch = 0; batch < 3; batch++) {
    const size_t before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < rounds; i++) round();
    if (async) std::this_thread::sleep_for(std::chrono::milliseconds(5));
    growth[batch] = __sanitizer_get_current_allocated_bytes() - before;
  }
  VT_CHECK(c, "langc-leak", *std::min_element(growth, growth + 3) < rounds, "%d rounds leave %zd, %zd and %zd bytes",
           rounds, growth[0], growth[1], growth[2]);
  if (async) tkrzw_async_dbm_free(async);
  tkrzw_dbm_close(db);
  c.NonTrivial(true);
}
