// Threading primitives: mutexes against a model of holders (sequentially) and against shadow holders
// (concurrently), task queues, wait counters, signal brokers and atomic sets.
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <thread>

#include "tkrzw_containers.h"
#include "tkrzw_thread_util.h"
#include "vt.h"

using namespace tkrzw;
using vt::Case;

namespace {

void Delay(int d) {
  switch (d) {
    case 0: return;
    case 1: sched_yield(); return;
    case 2: for (volatile int i = 0; i < 300; i++) {} return;
    case 3: for (volatile int i = 0; i < 5000; i++) {} return;
    default: usleep(d); return;
  }
}
int GenDelay(Case& c) {
  const int k = c.Weighted({6, 4, 3, 2, 1});
  return k == 4 ? 30 : k;
}

struct Gate {
  std::atomic<int> waiting{0};
  int count;
  explicit Gate(int n) : count(n) {}
  void Wait() {
    waiting++;
    while (waiting.load() < count) sched_yield();
  }
};

// The first broken invariant of a concurrent run.
struct Trouble {
  std::atomic<const char*> what{nullptr};
  void Set(const char* s) {
    const char* none = nullptr;
    what.compare_exchange_strong(none, s);
  }
};

// What is guarded: who holds it, and plain data which torn accesses reveal.
struct Guarded {
  std::atomic<int> readers{0}, writers{0};
  int64_t x = 0, y = 0;
  void Write(Trouble* t, int delay, bool shared_too = false) {
    if (writers.fetch_add(1) != 0) t->Set("two exclusive holders");
    if (!shared_too && readers.load() != 0) t->Set("an exclusive holder with shared ones");
    x++;
    Delay(delay);
    y++;
    if (x != y) t->Set("data changed under an exclusive lock");
    if (!shared_too && readers.load() != 0) t->Set("an exclusive holder with shared ones");
    writers.fetch_sub(1);
  }
  void Read(Trouble* t, int delay) {
    readers.fetch_add(1);
    if (writers.load() != 0) t->Set("a shared holder with an exclusive one");
    const int64_t a = x;
    Delay(delay);
    if (a != y || a != x) t->Set("data changed under a shared lock");
    if (writers.load() != 0) t->Set("a shared holder with an exclusive one");
    readers.fetch_sub(1);
  }
};

// --- sequential truth of the methods ---

template <class M>
void SharedSequence(Case& c, const char* name) {
  M m;
  c.Log("%s", name);
  int readers = 0;
  bool writer = false;
  int changes = 0;
  for (int i = 0; c.More(i, 14, 60); i++) {
    const int k = c.Draw(8);
    switch (k) {
      case 0: {
        const bool got = m.try_lock(), want = !writer && readers == 0;
        c.Log("try_lock=%d", got);
        VT_CHECK(c, "try_lock", got == want, "%s: try_lock returned %d with %d shared and %d exclusive holders", name, got, readers, writer);
        if (got) { writer = true; changes++; }
        break;
      }
      case 1: {
        const bool got = m.try_lock_shared(), want = !writer;
        c.Log("try_lock_shared=%d", got);
        VT_CHECK(c, "try_lock_shared", got == want, "%s: try_lock_shared returned %d with %d shared and %d exclusive holders", name, got, readers, writer);
        if (got) { readers++; changes++; }
        break;
      }
      case 2:
        if (!writer && readers == 0) { c.Log("lock"); m.lock(); writer = true; changes++; }
        break;
      case 3:
        if (!writer) { c.Log("lock_shared"); m.lock_shared(); readers++; changes++; }
        break;
      case 4: case 5:
        if (writer) {
          if (k == 5) {
            if constexpr (!std::is_same_v<M, std::shared_mutex>) { c.Log("downgrade"); m.downgrade(); writer = false; readers = 1; changes++; }
          } else { c.Log("unlock"); m.unlock(); writer = false; }
        } else if (readers > 0) { c.Log("unlock_shared"); m.unlock_shared(); readers--; }
        break;
      default:
        if constexpr (!std::is_same_v<M, std::shared_mutex>) {
          if (readers > 0) {
            const bool wait = readers == 1 && c.Bool();
            const bool got = m.try_upgrade(wait);
            c.Log("try_upgrade(%d)=%d", wait, got);
            VT_CHECK(c, "try_upgrade", got == (readers == 1), "%s: try_upgrade(%d) returned %d with %d shared holders", name, wait, got, readers);
            if (got) { readers = 0; writer = true; changes++; }
          }
        }
        break;
    }
  }
  // Whatever happened, the mutex is free when all have released it.
  if (writer) m.unlock();
  for (; readers > 0; readers--) m.unlock_shared();
  const bool free = m.try_lock();
  VT_CHECK(c, "leak", free, "%s: not free after all holders released it", name);
  m.unlock();
  VT_CHECK(c, "leak", m.try_lock_shared(), "%s: not free after the exclusive holder released it", name);
  m.unlock_shared();
  if (changes >= 3) c.NonTrivial();
}

// --- concurrent use of one mutex ---

struct MutexOp { int kind, pre, in; };

template <class M, bool UPGRADE>
void SharedThreads(Case& c, const char* name) {
  M m;
  Guarded g;
  Trouble trouble;
  const int nt = 2 + c.Draw(3);
  c.Log("%s: %d threads", name, nt);
  std::vector<std::vector<MutexOp>> plans(nt);
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Size(30);
    for (int i = 0; i < n; i++) {
      p.push_back({(int)c.Draw(UPGRADE ? 7 : 4), GenDelay(c), GenDelay(c)});
      total++;
    }
  }
  std::atomic<int64_t> writes{0};
  Gate gate(nt);
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (int r = 0; r < 8; r++) {
        for (const MutexOp& op : plans[t]) {
          Delay(op.pre);
          switch (op.kind) {
            case 0: m.lock(); g.Write(&trouble, op.in); writes++; m.unlock(); break;
            case 1: m.lock_shared(); g.Read(&trouble, op.in); m.unlock_shared(); break;
            case 2: if (m.try_lock()) { g.Write(&trouble, op.in); writes++; m.unlock(); } break;
            case 3: if (m.try_lock_shared()) { g.Read(&trouble, op.in); m.unlock_shared(); } break;
            default:
              if constexpr (UPGRADE) {
                if (op.kind == 6) {
                  m.lock();
                  g.Write(&trouble, op.in);
                  writes++;
                  m.downgrade();
                  g.Read(&trouble, op.in);
                  m.unlock_shared();
                  break;
                }
                m.lock_shared();
                const int64_t before = g.x;
                g.Read(&trouble, op.in);
                if (m.try_upgrade(op.kind == 5)) {
                  if (g.x != before) trouble.Set("data changed while a lock was upgraded");
                  g.Write(&trouble, op.in);
                  writes++;
                  if (op.pre & 1) {
                    m.downgrade();
                    g.Read(&trouble, op.in);
                    m.unlock_shared();
                  } else {
                    m.unlock();
                  }
                } else {
                  g.Read(&trouble, 0);
                  m.unlock_shared();
                }
              }
              break;
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("exclusion", "%s: %s", name, trouble.what.load());
  VT_CHECK(c, "lost", g.x == writes.load(), "%s: %lld updates of %lld", name, (long long)g.x, (long long)writes.load());
  VT_CHECK(c, "leak", m.try_lock(), "%s: not free in the end", name);
  m.unlock();
  if (total >= 4) c.NonTrivial();
}

void SpinThreads(Case& c) {
  SpinMutex m;
  Guarded g;
  Trouble trouble;
  // Sequential truth.
  bool held = false;
  for (int i = 0; c.More(i, 6, 20); i++) {
    switch (c.Draw(3)) {
      case 0: { const bool got = m.try_lock(); VT_CHECK(c, "try_lock", got == !held, "SpinMutex: try_lock returned %d", got); held = true; break; }
      case 1: if (held) { m.unlock(); held = false; } break;
      case 2: if (!held) { m.lock(); held = true; } break;
    }
  }
  if (held) m.unlock();
  const int nt = 2 + c.Draw(3);
  std::vector<std::vector<MutexOp>> plans(nt);
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Size(30);
    for (int i = 0; i < n; i++, total++) p.push_back({(int)c.Draw(2), GenDelay(c), GenDelay(c)});
  }
  std::atomic<int64_t> writes{0};
  Gate gate(nt);
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (int r = 0; r < 8; r++) {
        for (const MutexOp& op : plans[t]) {
          Delay(op.pre);
          if (op.kind == 0) m.lock();
          else if (!m.try_lock()) continue;
          g.Write(&trouble, op.in);
          writes++;
          m.unlock();
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("exclusion", "SpinMutex: %s", trouble.what.load());
  VT_CHECK(c, "lost", g.x == writes.load(), "SpinMutex: %lld updates of %lld", (long long)g.x, (long long)writes.load());
  VT_CHECK(c, "leak", m.try_lock(), "SpinMutex: not free in the end");
  m.unlock();
  if (total >= 4) c.NonTrivial();
}

// --- slotted mutexes ---

struct SlotOp { int kind, a, pre, in; bool writable; std::vector<std::string> keys; };

template <class M>
void SlottedThreads(Case& c, const char* name) {
  const int slots = 1 + c.Draw(5);
  SlottedMutex<M> m(slots);
  VT_CHECK(c, "slots", m.GetNumSlots() == slots, "GetNumSlots %d, not %d", m.GetNumSlots(), slots);
  std::vector<Guarded> g(slots);
  Trouble trouble;
  const int nt = 2 + c.Draw(3);
  c.Log("%s: %d slots, %d threads", name, slots, nt);
  std::vector<std::vector<SlotOp>> plans(nt);
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Size(30);
    for (int i = 0; i < n; i++, total++) {
      SlotOp op;
      op.kind = c.Draw(2);
      op.a = c.Weighted({1, 5}) ? (int)c.Draw(slots) : -1;
      op.writable = c.Bool();
      op.pre = GenDelay(c);
      op.in = GenDelay(c);
      p.push_back(op);
    }
  }
  Gate gate(nt);
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (int r = 0; r < 4; r++) {
        for (const SlotOp& op : plans[t]) {
          Delay(op.pre);
          const int lo = op.a < 0 ? 0 : op.a, hi = op.a < 0 ? slots : op.a + 1;
          auto work = [&]() {
            for (int i = lo; i < hi; i++) {
              if (op.writable) g[i].Write(&trouble, op.in); else g[i].Read(&trouble, op.in);
            }
          };
          if (op.kind == 0) {
            ScopedSlottedLock<M> lock(m, op.a, op.writable);
            work();
          } else if (op.a < 0) {
            if (op.writable) { m.LockAll(); work(); m.UnlockAll(); } else { m.LockAllShared(); work(); m.UnlockAllShared(); }
          } else {
            if (op.writable) { m.LockOne(op.a); work(); m.UnlockOne(op.a); } else { m.LockOneShared(op.a); work(); m.UnlockOneShared(op.a); }
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("exclusion", "SlottedMutex<%s>: %s", name, trouble.what.load());
  { ScopedSlottedLock<M> lock(m, -1, true); }
  if (total >= 4) c.NonTrivial();
}

uint64_t KeyHash(std::string_view s, uint64_t buckets) {
  uint64_t h = 7;
  for (const unsigned char ch : s) h = h * 5 + ch;
  return h % buckets;
}

template <class M>
void HashThreads(Case& c, const char* name) {
  const int slots = 1 + c.Draw(5);
  const int64_t buckets = 1 + c.Draw(9);
  HashMutex<M> m(slots, buckets, KeyHash);
  VT_CHECK(c, "slots", m.GetNumSlots() == slots && m.GetNumBuckets() == buckets, "%d slots and %lld buckets", m.GetNumSlots(), (long long)m.GetNumBuckets());
  std::vector<std::string> keys;
  for (int i = 0; i < 6; i++) keys.push_back(std::string(1 + i / 4, 'a' + i));
  std::vector<Guarded> g(keys.size());
  Trouble trouble;
  const int nt = 2 + c.Draw(3);
  c.Log("%s: %d slots, %lld buckets, %d threads", name, slots, (long long)buckets, nt);
  std::vector<std::vector<SlotOp>> plans(nt);
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Size(30);
    for (int i = 0; i < n; i++, total++) {
      SlotOp op;
      op.kind = c.Weighted({4, 4, 2, 2, 3, 3, 2});
      op.a = c.Draw(op.kind == 6 ? 9 : 12);
      op.writable = c.Bool();
      op.pre = GenDelay(c);
      op.in = GenDelay(c);
      if (op.kind == 4 || op.kind == 5) {
        const int k = c.Draw(5);
        for (int j = 0; j < k; j++) op.keys.push_back(keys[c.Draw(keys.size())]);
      }
      p.push_back(op);
    }
  }
  Gate gate(nt);
  std::vector<std::thread> threads;
  std::atomic<int> rehashes{0};
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (int r = 0; r < 4; r++) {
        for (const SlotOp& op : plans[t]) {
          Delay(op.pre);
          auto work = [&](int i) {
            if (op.writable) g[i].Write(&trouble, op.in); else g[i].Read(&trouble, op.in);
          };
          auto check = [&](int64_t index, const std::string& key) {
            if (index != (int64_t)KeyHash(key, m.GetNumBuckets()) || index != m.GetBucketIndex(key)) trouble.Set("wrong bucket of a locked key");
          };
          switch (op.kind) {
            case 0: {  // one key
              const int i = op.a % keys.size();
              ScopedHashLock<M> lock(m, std::string_view(keys[i]), op.writable);
              check(lock.GetBucketIndex(), keys[i]);
              work(i);
              check(lock.GetBucketIndex(), keys[i]);
              break;
            }
            case 1: {
              const int i = op.a % keys.size();
              const int64_t b = op.writable ? m.LockOne(std::string_view(keys[i])) : m.LockOneShared(std::string_view(keys[i]));
              check(b, keys[i]);
              work(i);
              check(b, keys[i]);
              if (op.writable) m.UnlockOne(b); else m.UnlockOneShared(b);
              break;
            }
            case 2: {  // a bucket
              const int before = rehashes.load();
              const int64_t limit = m.GetNumBuckets();
              ScopedHashLock<M> lock(m, (int64_t)op.a, op.writable);
              if (lock.GetBucketIndex() >= 0) {
                if (lock.GetBucketIndex() != op.a || op.a >= m.GetNumBuckets()) trouble.Set("a lock of a missing bucket");
                for (size_t i = 0; i < keys.size(); i++) {
                  if (m.GetBucketIndex(keys[i]) == op.a) work(i);
                }
              } else if (op.a < limit && before == rehashes.load() && before % 2 == 0) {
                trouble.Set("a bucket was not locked without rehashing");
              }
              break;
            }
            case 3: {
              const int64_t b = op.a;
              if (op.writable ? m.LockOne(b) : m.LockOneShared(b)) {
                if (b >= m.GetNumBuckets()) trouble.Set("a lock of a missing bucket");
                for (size_t i = 0; i < keys.size(); i++) {
                  if (m.GetBucketIndex(keys[i]) == b) work(i);
                }
                if (op.writable) m.UnlockOne(b); else m.UnlockOneShared(b);
              }
              break;
            }
            case 4: case 5: {  // several keys
              std::vector<std::string_view> views(op.keys.begin(), op.keys.end());
              std::set<int> which;
              for (const auto& k : op.keys) which.insert(std::find(keys.begin(), keys.end(), k) - keys.begin());
              auto all = [&](const std::vector<int64_t>& b) {
                if (b.size() != views.size()) { trouble.Set("wrong number of buckets"); return; }
                for (size_t i = 0; i < b.size(); i++) check(b[i], op.keys[i]);
                for (int i : which) work(i);
                for (size_t i = 0; i < b.size(); i++) check(b[i], op.keys[i]);
              };
              if (op.kind == 4) {
                ScopedHashLockMulti<M> lock(m, views, op.writable);
                all(lock.GetBucketIndices());
              } else if (op.writable) {
                const auto b = m.LockMulti(views);
                all(b);
                m.UnlockMulti(b);
              } else {
                const auto b = m.LockMultiShared(views);
                all(b);
                m.UnlockMultiShared(b);
              }
              break;
            }
            case 6: {  // everything, and perhaps rehashing
              ScopedHashLock<M> lock(m, op.writable);
              if (lock.GetBucketIndex() != INT64MIN) trouble.Set("wrong index of a lock of everything");
              for (size_t i = 0; i < keys.size(); i++) work(i);
              if (op.writable) {
                rehashes++;
                m.Rehash(op.a + 1);
                rehashes++;
              }
              break;
            }
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("exclusion", "HashMutex<%s>: %s", name, trouble.what.load());
  { ScopedHashLock<M> lock(m, true); }
  if (total >= 4) c.NonTrivial();
}

VT_SUITE(thread_mutex_seq) {
  switch (c.Draw(3)) {
    case 0: SharedSequence<SpinSharedMutex>(c, "SpinSharedMutex"); break;
    case 1: SharedSequence<SpinWPSharedMutex>(c, "SpinWPSharedMutex"); break;
    default: SharedSequence<SpinSharedMutex>(c, "SpinSharedMutex"); break;
  }
}

VT_SUITE_EX(thread_mutex, 30, true) {
  switch (c.Draw(9)) {
    case 0: SharedThreads<SpinSharedMutex, true>(c, "SpinSharedMutex"); break;
    case 1: SharedThreads<SpinWPSharedMutex, true>(c, "SpinWPSharedMutex"); break;
    case 2: SpinThreads(c); break;
    case 3: SlottedThreads<SpinSharedMutex>(c, "SpinSharedMutex"); break;
    case 4: SlottedThreads<SpinWPSharedMutex>(c, "SpinWPSharedMutex"); break;
    case 5: SlottedThreads<std::shared_mutex>(c, "shared_mutex"); break;
    case 6: HashThreads<SpinSharedMutex>(c, "SpinSharedMutex"); break;
    case 7: HashThreads<std::shared_mutex>(c, "shared_mutex"); break;
    default: HashThreads<SpinWPSharedMutex>(c, "SpinWPSharedMutex"); break;
  }
}

// --- task queues ---

VT_SUITE_EX(thread_queue, 12, true) {
  const int rounds = 1 + c.Draw(3);
  auto queue = std::make_unique<TaskQueue>();
  struct Done {
    std::vector<std::unique_ptr<std::atomic<int>>> runs;
    std::mutex mutex;
    std::vector<int> order;
  } done;
  std::atomic<int> running{0}, most{0};
  struct Plan { int delay, pre; bool lambda; };
  struct MyTask : public TaskQueue::Task {
    std::function<void()> f;
    std::atomic<int>* alive;
    ~MyTask() override { (*alive)--; }
    void Do() override { f(); }
  };
  std::atomic<int> alive{0};
  int total = 0, pending = 0;
  bool any = false;
  for (int round = 0; round < rounds; round++) {
    const int workers = 1 + c.Draw(4), adders = 1 + c.Draw(3);
    const bool before = c.Chance(1, 3), last = round == rounds - 1;
    const int stop = c.Weighted({6, 1, 1});  // 0: wait for everything, 1: at once, 2: a little
    std::vector<std::vector<Plan>> plans(adders);
    int added = 0;
    for (auto& p : plans) {
      const int n = c.Size(20);
      for (int i = 0; i < n; i++, added++) p.push_back({GenDelay(c), GenDelay(c), c.Bool()});
    }
    c.Log("round %d: %d workers, %d adders of %d tasks%s, stop %d", round, workers, adders, added, before ? " before the start" : "", stop);
    const int base = total;
    total += added;
    for (int i = 0; i < added; i++) done.runs.emplace_back(std::make_unique<std::atomic<int>>(0));
    most = 0;
    const size_t order_base = done.order.size();
    if (!before) queue->Start(workers);
    {
      std::vector<std::thread> threads;
      int id = base;
      Gate gate(adders);
      for (int t = 0; t < adders; t++) {
        threads.emplace_back([&, t, id]() {
          gate.Wait();
          int my = id;
          for (const Plan& p : plans[t]) {
            Delay(p.pre);
            const int delay = p.delay;
            const int task_id = my++;
            auto f = [&done, &running, &most, delay, task_id]() {
              const int now = running.fetch_add(1) + 1;
              int m = most.load();
              while (now > m && !most.compare_exchange_weak(m, now)) {}
              Delay(delay);
              done.runs[task_id]->fetch_add(1);
              {
                std::lock_guard<std::mutex> lock(done.mutex);
                done.order.push_back(task_id);
              }
              running.fetch_sub(1);
            };
            if (p.lambda) {
              queue->Add(f);
            } else {
              auto task = std::make_unique<MyTask>();
              alive++;
              task->alive = &alive;
              task->f = f;
              queue->Add(std::move(task));
            }
          }
        });
        id += plans[t].size();
      }
      for (auto& t : threads) t.join();
    }
    if (before) {
      VT_CHECK(c, "size", queue->GetSize() == pending + added || pending, "GetSize is %d after adding %d tasks", queue->GetSize(), added);
      queue->Start(workers);
    }
    if (stop == 0) queue->Stop(10);
    else if (stop == 1) queue->Stop(0);
    else queue->Stop(0.005);
    VT_CHECK(c, "workers", running.load() == 0, "%d tasks run after stopping", running.load());
    VT_CHECK(c, "workers", most.load() <= workers, "%d tasks at a time with %d workers", most.load(), workers);
    pending = 0;
    for (int i = 0; i < total; i++) {
      const int n = done.runs[i]->load();
      VT_CHECK(c, "once", n <= 1, "task %d has run %d times", i, n);
      if (stop == 0) VT_CHECK(c, "lost", n == 1, "task %d of %d has not run before stopping", i, total);
      if (n == 0) pending++;
    }
    if (stop == 0) VT_CHECK(c, "size", queue->GetSize() == 0, "GetSize is %d after everything", queue->GetSize());
    if (workers == 1) {
      // First in, first out, for each adder.
      std::vector<int> where(total, -1);
      for (size_t i = order_base; i < done.order.size(); i++) where[done.order[i]] = i;
      int id = base;
      for (const auto& p : plans) {
        for (size_t i = 1; i < p.size(); i++) {
          const int a = where[id + i - 1], b = where[id + i];
          VT_CHECK(c, "order", b < 0 || (a >= 0 && a < b), "task %zu was done before task %zu of the same thread", id + i, id + i - 1);
        }
        id += p.size();
      }
    }
    if (added >= 3) any = true;
    if (last && c.Bool()) queue.reset();
  }
  queue.reset();
  VT_CHECK(c, "leak", alive.load() == 0, "%d tasks are not destroyed", alive.load());
  if (any) c.NonTrivial();
}

// --- wait counters ---

VT_SUITE_EX(thread_counter, 12, true) {
  const int nt = 1 + c.Draw(4), nw = 1 + c.Draw(2);
  std::vector<std::vector<std::pair<int, int>>> plans(nt);  // delay, decrement
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Draw(3);
    for (int i = 0; i < n; i++) {
      p.emplace_back(GenDelay(c), 1 + c.Draw(3));
      total += p.back().second;
    }
  }
  const int extra = c.Draw(3);  // done less than zero
  const bool by_add = c.Bool();
  const int initial = std::max(1, total - extra);
  std::vector<int> timeouts;
  for (int i = 0; i < nw; i++) timeouts.push_back(c.Weighted({6, 2, 1}));
  const int rounds = 60;
  c.Log("%d threads, %d waiters, initial %d of %d", nt, nw, initial, total);
  for (int round = 0; round < rounds; round++) {
    auto wc = by_add ? std::make_unique<WaitCounter>() : std::make_unique<WaitCounter>(initial);
    if (by_add) wc->Add(initial);
    VT_CHECK(c, "get", wc->Get() == initial, "the counter is %d, not %d", wc->Get(), initial);
    VT_CHECK(c, "wait", !wc->Wait(0), "Wait(0) succeeded with %d", initial);
    if (round == 0) VT_CHECK(c, "wait", !wc->Wait(0.0005), "Wait succeeded with %d", initial);
    std::atomic<int> begun{0}, ended{0};
    Trouble trouble;
    Gate gate(nt + nw);
    std::vector<std::thread> threads;
    for (int t = 0; t < nt; t++) {
      threads.emplace_back([&, t]() {
        gate.Wait();
        for (const auto& p : plans[t]) {
          if (round % 4 == 0) Delay(p.first);
          begun += p.second;
          wc->Done(p.second);
          ended += p.second;
        }
      });
    }
    for (int w = 0; w < nw; w++) {
      threads.emplace_back([&, w]() {
        gate.Wait();
        for (int i = 0; i < 50000; i++) {
          const bool complete = ended.load() >= initial;
          const bool got = wc->Wait(timeouts[w] == 0 ? -1.0 : timeouts[w] == 1 ? 0.0001 : 0.0);
          if (got && begun.load() < initial) trouble.Set("Wait succeeded too early");
          if (!got && complete) trouble.Set("Wait failed though the counter was zero");
          if (!got && timeouts[w] == 0) trouble.Set("Wait without a limit failed");
          if (got) break;
          sched_yield();
        }
      });
    }
    for (auto& t : threads) t.join();
    if (trouble.what.load()) c.Fail("wait", "%s", trouble.what.load());
    VT_CHECK(c, "get", wc->Get() == initial - total, "the counter is %d, not %d", wc->Get(), initial - total);
    VT_CHECK(c, "wait", wc->Wait() && wc->Wait(0) && wc->Wait(1), "Wait failed with %d", wc->Get());
  }
  {
    std::atomic_int32_t n(3);
    { ScopedCounter<std::atomic_int32_t>* none = nullptr; (void)none; ScopedCounter sc(&n, initial); VT_CHECK(c, "scoped", n.load() == 3 + initial, "ScopedCounter: %d", n.load()); }
    VT_CHECK(c, "scoped", n.load() == 3, "ScopedCounter: %d", n.load());
  }
  c.NonTrivial();
}

// --- signal brokers ---

struct PlainBroker {
  SignalBroker b;
  typedef SignalBroker::Waiter Waiter;
  bool Send(int, bool all) { return b.Send(all); }
  std::unique_ptr<Waiter> Make(int) { return std::make_unique<Waiter>(&b); }
};
struct KeyBroker {
  KeySignalBroker<int> b;
  typedef KeySignalBroker<int>::Waiter Waiter;
  bool Send(int k, bool all) { return b.Send(k, all); }
  std::unique_ptr<Waiter> Make(int k) { return std::make_unique<Waiter>(&b, k); }
};
struct SlotBroker {
  SlottedKeySignalBroker<int> b{2};
  typedef SlottedKeySignalBroker<int>::Waiter Waiter;
  bool Send(int k, bool all) { return b.Send(k, all); }
  std::unique_ptr<Waiter> Make(int k) { return std::make_unique<Waiter>(&b, k); }
};

// Producers add resources of keys and send signals; consumers wait for them as documented.
template <class B>
void Signals(Case& c, const char* name, bool keyed) {
  B broker;
  const int nkeys = keyed ? 1 + c.Draw(3) : 1;
  const int nc = 1 + c.Draw(4), np = 1 + c.Draw(2);
  // A signal to one of the threads is for one resource.
  const bool all = c.Bool();
  struct Consumer { int key, amount, kind, delay; };
  std::vector<Consumer> consumers;
  std::vector<int> need(nkeys);
  for (int i = 0; i < nc; i++) {
    Consumer x{(int)c.Draw(nkeys), 1 + (int)c.Draw(12), (int)c.Weighted({4, 1}), GenDelay(c)};
    need[x.key] += x.amount;
    consumers.push_back(x);
  }
  std::vector<std::vector<std::pair<int, int>>> plans(np);
  for (int k = 0; k < nkeys; k++) {
    for (int i = 0; i < need[k]; i++) plans[c.Draw(np)].emplace_back(k, GenDelay(c));
  }
  for (auto& p : plans) {
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[c.Draw(i)]);
  }
  c.Log("%s: %d keys, %d consumers, %d producers, %s", name, nkeys, nc, np, all ? "all" : "one");
  for (int k = 0; k < nkeys; k++) VT_CHECK(c, "send", !broker.Send(k, all), "%s: a signal was received by nobody", name);
  {
    auto w = broker.Make(0);
    VT_CHECK(c, "wait", !w->Wait(0.0003), "%s: Wait succeeded without a signal", name);
  }
  VT_CHECK(c, "send", !broker.Send(0, all), "%s: a signal was received by nobody", name);
  std::vector<std::atomic<int>> stock(nkeys), received(nkeys), sent(nkeys);
  for (int k = 0; k < nkeys; k++) stock[k] = received[k] = sent[k] = 0;
  Gate gate(nc + np);
  std::vector<std::thread> threads;
  Trouble trouble;
  for (const Consumer& x : consumers) {
    threads.emplace_back([&, x]() {
      gate.Wait();
      for (int i = 0; i < x.amount; i++) {
        while (true) {
          auto w = broker.Make(x.key);
          auto take = [&]() {
            int n = stock[x.key].load();
            while (n > 0) {
              if (stock[x.key].compare_exchange_weak(n, n - 1)) return true;
            }
            return false;
          };
          if (take()) break;
          Delay(x.delay);
          if (w->Wait(x.kind == 0 ? -1.0 : 0.0002)) received[x.key]++;
          else if (x.kind == 0) trouble.Set("Wait without a limit failed");
        }
      }
    });
  }
  for (int p = 0; p < np; p++) {
    threads.emplace_back([&, p]() {
      gate.Wait();
      for (const auto& step : plans[p]) {
        Delay(step.second);
        stock[step.first]++;
        if (broker.Send(step.first, all)) sent[step.first]++;
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("wait", "%s: %s", name, trouble.what.load());
  for (int k = 0; k < nkeys; k++) {
    VT_CHECK(c, "stock", stock[k].load() == 0, "%s: %d resources are left", name, stock[k].load());
    const int64_t limit = (int64_t)sent[k].load() * (all ? nc : 1);
    VT_CHECK(c, "spurious", received[k].load() <= limit, "%s: %d receipts of %d signals%s", name, received[k].load(), sent[k].load(), all ? "" : " to one thread each");
    VT_CHECK(c, "send", !broker.Send(k, all), "%s: a signal was received by nobody", name);
  }
  if (nc >= 2) c.NonTrivial();
}

VT_SUITE_EX(thread_signal, 12, true) {
  switch (c.Draw(3)) {
    case 0: Signals<PlainBroker>(c, "SignalBroker", false); break;
    case 1: Signals<KeyBroker>(c, "KeySignalBroker", true); break;
    default: Signals<SlotBroker>(c, "SlottedKeySignalBroker", true); break;
  }
}

// --- atomic sets ---

VT_SUITE_EX(thread_set, 20, true) {
  AtomicSet<int> set;
  const int nv = 1 + c.Draw(4), nt = 2 + c.Draw(3);
  std::vector<std::vector<std::pair<int, int>>> plans(nt);
  int total = 0;
  for (auto& p : plans) {
    const int n = 1 + c.Size(40);
    for (int i = 0; i < n; i++, total++) p.emplace_back(c.Weighted({4, 3, 2, 1, 2}), 1 + c.Draw(nv));
  }
  c.Log("%d values, %d threads, %d operations", nv, nt, total);
  std::vector<std::atomic<int>> balance(nv + 1);
  for (auto& b : balance) b = 0;
  Trouble trouble;
  Gate gate(nt);
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t]() {
      gate.Wait();
      for (int r = 0; r < 20; r++) {
        for (const auto& op : plans[t]) {
          const int v = op.second;
          switch (op.first) {
            case 0: if (set.Insert(v)) balance[v]++; break;
            case 1: if (set.Remove(v)) balance[v]--; break;
            case 2: {
              const int got = set.Pop();
              if (got < 0 || got > nv) trouble.Set("popped an unknown value");
              else if (got > 0) balance[got]--;
              break;
            }
            case 3: { int copy = v; if (set.Insert(std::move(copy))) balance[v]++; break; }
            default: set.Check(v); set.IsEmpty(); break;
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  if (trouble.what.load()) c.Fail("set", "%s", trouble.what.load());
  bool empty = true;
  for (int v = 1; v <= nv; v++) {
    const bool has = set.Check(v);
    VT_CHECK(c, "set", balance[v].load() == (has ? 1 : 0), "value %d: %d inserted and not removed, present %d", v, balance[v].load(), has);
    if (has) empty = false;
  }
  VT_CHECK(c, "set", set.IsEmpty() == empty, "IsEmpty is %d", set.IsEmpty());
  int last = 0;
  while (!set.IsEmpty()) {
    const int v = set.Pop();
    VT_CHECK(c, "set", v > last, "Pop returned %d after %d", v, last);
    last = v;
  }
  set.Insert(1);
  set.Clear();
  VT_CHECK(c, "set", set.IsEmpty() && !set.Check(1) && set.Pop() == 0, "not empty after Clear");
  if (total >= 4) c.NonTrivial();
}

}  // namespace
