// Property U02: message queues against lists of messages.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "fs.h"
#include "vt.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_util.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_str_util.h"
#include "tkrzw_time_util.h"

using namespace tkrzw;
using vt::Case;

namespace {

const int64_t kMaxTs = (1LL << 48) - 1;

struct Msg {
  int64_t ts;
  std::string text;
  int64_t file;
};

std::string GenMsg(Case& c) {
  if (c.Chance(1, 15)) return c.BytesOfSize(c.PickOf<size_t>({8180, 8181, 8192, 20000, 300}), 1);
  if (c.Chance(1, 8)) return c.BytesOfSize(c.Draw(40), 0);
  return c.Bytes(20);
}

std::string Show(const std::string& s) { return vt::StrF("\"%s\"/%zu", vt::Esc(s.substr(0, 24)).c_str(), s.size()); }

// The files of a queue and what they should have.
struct Model {
  struct File { std::vector<size_t> msgs; int64_t size = 32; int64_t meta_ts = 0; };
  std::vector<Msg> msgs;          // all ever written
  std::map<int64_t, File> files;
  int64_t ts = 0;
  int64_t max_size = 0;
  void Start() {
    if (files.empty()) {
      // The identifiers begin again.
      for (auto& m : msgs) m.file = -1;
      ts = 0;
      files[0] = File();
    }
  }
  void Write(int64_t t, const std::string& m) {
    File* f = &files.rbegin()->second;
    if (f->size >= max_size) {
      f->meta_ts = ts;
      const int64_t id = files.rbegin()->first + 1;
      f = &files[id];
      f->meta_ts = ts;
    }
    ts = std::max(ts, t);
    f->msgs.push_back(msgs.size());
    f->size += 12 + m.size();
    msgs.push_back({ts, m, files.rbegin()->first});
  }
  void Sync() { files.rbegin()->second.meta_ts = ts; }
};

struct Rd {
  std::unique_ptr<MessageQueue::Reader> r;
  int64_t min_ts = 0;
  size_t next = 0;      // the index of the next message to consider
  bool started = false;
  int64_t last_ts = -1;
  int64_t file = -1;
};

}  // namespace

VT_SUITE(mq_map) {
  const std::string prefix = c.dir + "/" + c.PickOf<const char*>({"q", "queue.log", "a.0000000009"});
  // Files whose names are similar.
  std::map<std::string, std::string> foreign;
  if (c.Chance(1, 4)) {
    for (const char* n : {".0000000000.bak", ".12", "x.0000000000", ".000000000", ".0000000001-"})
      if (c.Bool()) foreign[prefix + n] = c.Bytes(50);
    if (c.Bool()) foreign[c.dir + "/z" + PathToBaseName(prefix) + ".0000000003"] = "foreign";
    for (auto& f : foreign) WriteFile(f.first, f.second);
  }
  Model m;
  m.max_size = c.PickOf<int64_t>({1000, 0, 32, 33, 60, 100, 300, 100000});
  std::unique_ptr<MessageQueue> mq = std::make_unique<MessageQueue>();
  int32_t options = c.Chance(1, 10) ? MessageQueue::OPEN_SYNC_HARD : 0;
  bool read_only = false;
  auto OK = [&](const char* what, const Status& st, const Status::Code want = Status::SUCCESS) {
    VT_CHECK(c, what, st == want, "%s: %s, want %s", what, ToString(st).c_str(), ToString(Status(want)).c_str());
  };
  OK("open", mq->Open(prefix, m.max_size, options));
  m.Start();
  std::vector<Rd> rds(1 + c.Draw(3));
  int writes = 0, reads = 0;
  c.Log("prefix %s, max_file_size=%lld", prefix.c_str(), (long long)m.max_size);
  // The next message of a reader, or none.
  auto expected = [&](Rd& r) -> const Msg* {
    for (size_t i = r.next; i < m.msgs.size(); i++) {
      if (m.msgs[i].ts < r.min_ts) continue;
      if (!m.files.count(m.msgs[i].file)) continue;
      r.next = i;
      return &m.msgs[i];
    }
    r.next = m.msgs.size();
    return nullptr;
  };
  auto read = [&](Rd& r, double wait, bool wait_first) {
    const Msg* want = expected(r);
    const int n = (int)(&r - rds.data());
    if (wait_first) {
      // Waiting tells whether any message follows, which may be older than the threshold.
      const Status st = r.r->Wait(wait);
      c.Log("r%d.Wait(%g) -> %s", n, wait, ToString(st).c_str());
      if (want) OK("wait", st);
    }
    int64_t ts = -5;
    std::string text = "*";
    const Status st = r.r->Read(&ts, &text, wait);
    c.Log("r%d.Read -> %s %lld %s", n, ToString(st).c_str(), (long long)ts, Show(text).c_str());
    if (want == nullptr) {
      OK("read-end", st, read_only ? Status::NOT_FOUND_ERROR : Status::INFEASIBLE_ERROR);
      if (!read_only) VT_CHECK(c, "read-end", ts == m.ts, "the timestamp at the end is %lld, want %lld", (long long)ts, (long long)m.ts);
      r.file = std::max(r.file, m.files.rbegin()->first);
      // All messages before were skipped or read.
      if (r.last_ts < 0 || !m.msgs.empty()) r.last_ts = -2;
    } else {
      OK("read", st);
      VT_CHECK(c, "read", ts == want->ts && text == want->text, "r%d: the message is %lld %s, want %lld %s (number %zu)", n,
               (long long)ts, Show(text).c_str(), (long long)want->ts, Show(want->text).c_str(), r.next);
      r.next++;
      r.file = want->file;
      r.last_ts = want->ts;
      reads++;
    }
    r.started = true;
    if (r.last_ts >= 0)
      VT_CHECK(c, "reader-timestamp", r.r->GetTimestamp() == r.last_ts, "GetTimestamp of the reader: %lld, want %lld", (long long)r.r->GetTimestamp(), (long long)r.last_ts);
  };
  auto check_files = [&](bool synced) {
    std::vector<std::string> paths;
    OK("find", MessageQueue::FindFiles(prefix, &paths));
    std::vector<std::string> want;
    for (auto& f : m.files) want.push_back(vt::StrF("%s.%010lld", prefix.c_str(), (long long)f.first));
    VT_CHECK(c, "files", paths == want, "%zu files are found, want %zu", paths.size(), want.size());
    size_t i = 0;
    for (auto& f : m.files) {
      const std::string& path = paths[i++];
      VT_CHECK(c, "file-id", (int64_t)MessageQueue::GetFileID(path) == f.first, "GetFileID of %s", path.c_str());
      int64_t id = -1, ts = -1, size = -1;
      OK("metadata", MessageQueue::ReadFileMetadata(path, &id, &ts, &size));
      const bool last = f.first == m.files.rbegin()->first;
      VT_CHECK(c, "metadata", id == f.first, "file ID %lld, want %lld", (long long)id, (long long)f.first);
      if (!last || synced) {
        VT_CHECK(c, "metadata", ts == f.second.meta_ts, "file %lld: timestamp %lld, want %lld", (long long)id, (long long)ts, (long long)f.second.meta_ts);
        VT_CHECK(c, "metadata", size == f.second.size && size == GetFileSize(path), "file %lld: size %lld (stored %lld), want %lld", (long long)id,
                 (long long)size, (long long)GetFileSize(path), (long long)f.second.size);
      }
      PositionalParallelFile file;
      OK("file-open", file.Open(path, false));
      int64_t off = 0;
      const int64_t min_ts = c.Chance(1, 4) ? m.ts - (int64_t)c.Draw(50) : 0;
      for (size_t k : f.second.msgs) {
        int64_t t = -1;
        std::string text;
        OK("next-message", MessageQueue::ReadNextMessage(&file, &off, &t, &text, min_ts));
        VT_CHECK(c, "next-message", t == m.msgs[k].ts && (t < min_ts || text == m.msgs[k].text), "a message of the file %lld: %lld %s, want %lld %s",
                 (long long)id, (long long)t, Show(text).c_str(), (long long)m.msgs[k].ts, Show(m.msgs[k].text).c_str());
      }
      int64_t t = -1;
      std::string text;
      VT_CHECK(c, "next-message", MessageQueue::ReadNextMessage(&file, &off, &t, &text) != Status::SUCCESS, "a message behind the last one");
      VT_CHECK(c, "next-message", off == f.second.size, "the offset after the last message is %lld, want %lld", (long long)off, (long long)f.second.size);
      OK("file-close", file.Close());
    }
    for (auto& f : foreign) VT_CHECK(c, "foreign", ReadFileSimple(f.first) == f.second, "the file %s of something else is changed", f.first.c_str());
  };
  auto reopen = [&](bool to_read_only) {
    c.Log("Close");
    OK("close", mq->Close());
    if (!read_only) m.Sync();
    for (auto& r : rds) {
      if (!r.r) continue;
      if (c.Bool()) {
        int64_t ts;
        std::string text;
        OK("read-closed", r.r->Read(&ts, &text, c.PickOf<double>({0, -1, 0.01})), Status::CANCELED_ERROR);
      }
      r.r.reset();
    }
    if (c.Chance(1, 6)) OK("closed", mq->Close(), Status::PRECONDITION_ERROR);
    if (c.Chance(1, 6)) OK("closed", mq->Write(1, "x"), Status::PRECONDITION_ERROR);
    if (c.Chance(1, 6)) OK("closed", mq->Synchronize(false), Status::PRECONDITION_ERROR);
    if (c.Chance(1, 6)) VT_CHECK(c, "closed", mq->GetTimestamp() == -1, "GetTimestamp when closed");
    if (c.Chance(1, 6)) OK("closed", mq->CancelReaders(), Status::PRECONDITION_ERROR);
    if (c.Chance(1, 6)) OK("remove-none", MessageQueue::RemoveOldFiles(prefix + "none", m.ts, c.Bool()));
    if (c.Chance(1, 3)) check_files(true);
    if (c.Chance(1, 3)) mq = std::make_unique<MessageQueue>();
    if (c.Chance(1, 8)) {
      const int64_t threshold = c.Bool() ? m.ts + 1 : m.ts - (int64_t)c.Draw(30);
      const bool ex = c.Bool();
      c.Log("RemoveOldFiles(%lld, %d) when closed", (long long)threshold, ex);
      OK("remove-old", MessageQueue::RemoveOldFiles(prefix, threshold, ex));
      const int64_t latest = m.files.rbegin()->first;
      for (auto it = m.files.begin(); it != m.files.end();) {
        if (it->second.meta_ts < threshold && !(ex && it->first == latest)) it = m.files.erase(it); else ++it;
      }
      if (m.files.empty()) {
        if (c.Bool()) OK("open-none", mq->Open(prefix, 100, MessageQueue::OPEN_READ_ONLY), Status::NOT_FOUND_ERROR);
        to_read_only = false;
      }
    }
    if (c.Chance(1, 3)) m.max_size = c.PickOf<int64_t>({1000, 0, 60, 300});
    read_only = to_read_only;
    int32_t opts = read_only ? MessageQueue::OPEN_READ_ONLY : options;
    if (!read_only && c.Chance(1, 12)) {
      opts |= MessageQueue::OPEN_TRUNCATE;
      m.files.clear();
    }
    if (c.Chance(1, 6)) opts |= MessageQueue::OPEN_IGNORE_BROKEN;
    c.Log("Open(max=%lld, options=%d)", (long long)m.max_size, opts);
    OK("reopen", mq->Open(prefix, m.max_size, opts));
    m.Start();
    VT_CHECK(c, "timestamp", mq->GetTimestamp() == m.ts, "GetTimestamp after opening: %lld, want %lld", (long long)mq->GetTimestamp(), (long long)m.ts);
    if (c.Chance(1, 6)) OK("opened", mq->Open(prefix, m.max_size, opts & ~MessageQueue::OPEN_TRUNCATE), Status::PRECONDITION_ERROR);
  };
  for (int i = 0; c.More(i, 30, c.thorough ? 400 : 150); i++) {
    Case::Span span(c);
    switch (c.Weighted({12, 14, 2, 2, 3, 2, 1, 2})) {
      case 0: {
        int64_t ts = c.Chance(1, 4) ? (int64_t)c.Draw(m.ts + 20) : m.ts + (int64_t)c.Draw(4);
        if (c.Chance(1, 60)) ts = kMaxTs - 1 - (int64_t)c.Draw(3);
        ts = std::min(ts, kMaxTs - 1);
        if (c.Chance(1, 20)) {
          OK("bad-ts", mq->Write(kMaxTs + (int64_t)c.Draw(3), "bad"), Status::INVALID_ARGUMENT_ERROR);
          VT_CHECK(c, "timestamp", mq->GetTimestamp() == m.ts, "GetTimestamp after a refused message");
        }
        const std::string text = GenMsg(c);
        if (read_only) {
          const Status st = mq->Write(ts, text);
          VT_CHECK(c, "write-read-only", st == Status::PRECONDITION_ERROR, "Write to a read-only queue");
          break;
        }
        if (c.Chance(1, 80) && m.ts < 1000000000) {
          const int64_t before = std::max<int64_t>(m.ts, std::floor(GetWallTime() * 1000));
          OK("write", mq->Write(-1, text));
          const int64_t after = std::max<int64_t>(m.ts, std::ceil(GetWallTime() * 1000));
          ts = mq->GetTimestamp();
          VT_CHECK(c, "write-now", before <= ts && ts <= after, "the time of a message is %lld, not in %lld..%lld", (long long)ts, (long long)before, (long long)after);
        } else {
          OK("write", mq->Write(ts, text));
        }
        c.Log("Write(%lld, %s)", (long long)ts, Show(text).c_str());
        m.Write(ts, text);
        if (options & MessageQueue::OPEN_SYNC_HARD) m.Sync();
        writes++;
        VT_CHECK(c, "timestamp", mq->GetTimestamp() == m.ts, "GetTimestamp: %lld, want %lld", (long long)mq->GetTimestamp(), (long long)m.ts);
        break;
      }
      case 1: {
        Rd& r = rds[c.Draw(rds.size())];
        if (!r.r || c.Chance(1, 10)) {
          r = Rd();
          r.min_ts = c.Chance(1, 2) ? 0 : (int64_t)c.Draw(m.ts + 3);
          if (c.Chance(1, 6) && !m.msgs.empty()) r.min_ts = m.msgs[c.Draw(m.msgs.size())].ts;
          r.r = mq->MakeReader(r.min_ts);
          VT_CHECK(c, "reader-timestamp", r.r->GetTimestamp() == -1, "GetTimestamp of a new reader: %lld", (long long)r.r->GetTimestamp());
          c.Log("r%d = MakeReader(%lld)", (int)(&r - rds.data()), (long long)r.min_ts);
        }
        const int n = 1 + c.Draw(c.Chance(1, 4) ? 30 : 4);
        for (int j = 0; j < n; j++) {
          const bool end = expected(r) == nullptr;
          read(r, end ? c.PickOf<double>({0, 0, 0.0005}) : c.PickOf<double>({0, -1, 1}), c.Chance(1, 5) && !end);
          if (end && c.Bool()) break;
        }
        break;
      }
      case 2: {
        const int64_t ts = std::min<int64_t>(c.Draw(m.ts + 10), kMaxTs - 1);
        if (read_only) break;
        c.Log("UpdateTimestamp(%lld)", (long long)ts);
        OK("update-timestamp", mq->UpdateTimestamp(ts));
        if (c.Chance(1, 6)) OK("bad-ts", mq->UpdateTimestamp(kMaxTs), Status::INVALID_ARGUMENT_ERROR);
        m.ts = std::max(m.ts, ts);
        VT_CHECK(c, "timestamp", mq->GetTimestamp() == m.ts, "GetTimestamp: %lld, want %lld", (long long)mq->GetTimestamp(), (long long)m.ts);
        break;
      }
      case 3: {
        if (read_only) break;
        c.Log("Synchronize");
        OK("sync", mq->Synchronize(c.Chance(1, 4)));
        m.Sync();
        check_files(true);
        break;
      }
      case 4: reopen(c.Chance(1, 4)); break;
      case 5: {
        if (read_only) break;
        // The latest file in use is kept.
        OK("sync", mq->Synchronize(false));
        m.Sync();
        const int64_t threshold = c.Chance(1, 3) ? m.ts + 1 : m.ts - (int64_t)c.Draw(30);
        const bool ex = threshold > m.ts || c.Bool();
        c.Log("RemoveOldFiles(%lld, %d)", (long long)threshold, ex);
        OK("remove-old", MessageQueue::RemoveOldFiles(prefix, threshold, ex));
        const int64_t latest = m.files.rbegin()->first;
        for (auto it = m.files.begin(); it != m.files.end();) {
          if (it->second.meta_ts < threshold && it->first != latest) it = m.files.erase(it); else ++it;
        }
        // The readers which are in the removed files, or before them, lose messages.
        for (auto& r : rds) {
          if (!r.r || !r.started) continue;
          if (r.file < m.files.begin()->first) r.r.reset();
        }
        check_files(true);
        break;
      }
      case 6: {
        c.Log("CancelReaders");
        OK("cancel", mq->CancelReaders());
        for (auto& r : rds) {
          if (!r.r) continue;
          int64_t ts;
          std::string text;
          OK("read-canceled", r.r->Read(&ts, &text, c.PickOf<double>({0, -1, 0.01})), Status::CANCELED_ERROR);
          r.r.reset();
        }
        break;
      }
      default: {
        // A burst.
        if (read_only) break;
        const int n = 5 + c.Draw(30);
        for (int j = 0; j < n; j++) {
          const std::string text = vt::StrF("burst-%d-%d", i, j);
          m.Write(m.ts, text);
          OK("write", mq->Write(m.ts, text));
          if (options & MessageQueue::OPEN_SYNC_HARD) m.Sync();
        }
        c.Log("Write %d messages", n);
        writes++;
      }
    }
  }
  // All readers reach the end.
  for (auto& r : rds) {
    if (!r.r) continue;
    while (expected(r)) read(r, 0, false);
    read(r, 0, false);
  }
  reopen(c.Bool());
  Rd& r = rds[0];
  r = Rd();
  r.r = mq->MakeReader(0);
  while (expected(r)) read(r, 0, false);
  read(r, 0, false);
  if (c.Bool()) r.r.reset();
  OK("close", mq->Close());
  if (!read_only) m.Sync();
  check_files(true);
  r.r.reset();
  c.NonTrivial(writes >= 3 && reads >= 3);
}

VT_SUITE(mq_parse_time) {
  const int64_t base = (int64_t)c.Draw(2000000000000ULL);
  const int sign = c.Draw(3);
  const char* signs[] = {"", "+", "-"};
  const int64_t whole = c.Draw(c.Bool() ? 10 : 100000);
  const int frac = c.Chance(1, 3) ? (int)c.Draw(8) : 0;
  const int unit = c.Draw(5);
  const double mul[] = {1, 1000, 60000, 3600000, 86400000};
  std::string num = std::to_string(whole);
  if (frac) num += vt::StrF(".%03d", frac * 125);
  const char* units[] = {"", "s", "m", "h", "d"};
  std::string u = units[unit];
  if (c.Bool()) for (auto& x : u) x = x - 'a' + 'A';
  std::string expr = std::string(c.Draw(3), ' ') + signs[sign] + num + std::string(unit ? c.Draw(3) : 0, ' ') + u + std::string(c.Draw(2), ' ');
  const double value = (whole + frac / 8.0) * mul[unit];
  const int64_t want = sign == 0 ? (int64_t)value : sign == 1 ? (int64_t)(base + value) : (int64_t)(base - value);
  const int64_t got = MessageQueue::ParseTimestamp(expr, base);
  c.Log("\"%s\" base %lld", expr.c_str(), (long long)base);
  VT_CHECK(c, "parse", std::llabs(got - want) <= (frac ? 1 : 0), "ParseTimestamp(\"%s\", %lld): %lld, want %lld", expr.c_str(), (long long)base, (long long)got, (long long)want);
  c.NonTrivial(unit || sign);
}

// ------------------------------------------------------------------ threads

VT_SUITE_EX(mq_conc, 30.0, true) {
  const std::string prefix = c.dir + "/q";
  const int64_t max_size = c.PickOf<int64_t>({300, 40, 100, 2000, 100000, 0});
  const int nw = 1 + c.Draw(3), nr = 1 + c.Draw(4);
  const int per = 5 + c.Draw(60);
  const int delays = c.Draw(3);
  const bool sync = c.Bool();
  const bool late = c.Bool();
  const int waits = c.Draw(3);
  const int end = c.Draw(3);  // how readers stop: they know the number, are canceled, or the queue is closed
  c.Log("%d writers of %d messages, %d readers, max_file_size=%lld, delays=%d sync=%d late=%d waits=%d end=%d", nw, per, nr, (long long)max_size, delays, sync, late, waits, end);
  MessageQueue mq;
  VT_CHECK(c, "open", mq.Open(prefix, max_size) == Status::SUCCESS, "Open");
  std::vector<std::string> errors(nw + nr + 1);
  std::vector<std::vector<std::pair<int64_t, std::string>>> got(nr);
  std::atomic<int> writing(nw);
  std::atomic<int> ended(0);
  std::vector<std::thread> threads;
  auto pause = [&](uint64_t seed) {
    if (delays == 0) return;
    uint64_t st = seed;
    const uint64_t r = vt::SplitMix(&st);
    if (delays == 1) { if (r % 3 == 0) std::this_thread::yield(); return; }
    if (r % 4 == 0) usleep(r / 7 % 200);
  };
  for (int w = 0; w < nw; w++) {
    threads.emplace_back([&, w] {
      for (int i = 0; i < per; i++) {
        pause(w * 1000 + i);
        const Status st = mq.Write(i * 10 + w, vt::StrF("%d:%d:%s", w, i, std::string((w * 7 + i * 13) % 50, 'x').c_str()));
        if (st != Status::SUCCESS && errors[w].empty()) errors[w] = "Write: " + ToString(st);
      }
      writing--;
    });
  }
  for (int r = 0; r < nr; r++) {
    threads.emplace_back([&, r] {
      if (late && r % 2) usleep(300 * r);
      auto reader = mq.MakeReader(0);
      auto fail = [&](const std::string& s) { if (errors[nw + r].empty()) errors[nw + r] = s; };
      int idle = 0;
      while ((int)got[r].size() < nw * per || end > 0) {
        pause(r * 77 + got[r].size());
        const double wait = waits == 0 ? -1 : waits == 1 ? 0 : 0.001;
        int64_t ts = -1;
        std::string text;
        Status st(Status::SUCCESS);
        if (got[r].size() % 5 == 3) {
          st = reader->Wait(wait);
          if (st != Status::SUCCESS && st != Status::INFEASIBLE_ERROR && st != Status::CANCELED_ERROR) fail("Wait: " + ToString(st));
        }
        st = reader->Read(&ts, &text, wait);
        if (st == Status::INFEASIBLE_ERROR) {
          if (wait < 0) { fail("a reader which waits forever returns INFEASIBLE_ERROR"); break; }
          if (++idle > 2000000) { fail("no message comes"); break; }
          continue;
        }
        if (st == Status::CANCELED_ERROR && end > 0) break;
        if (st != Status::SUCCESS) { fail("Read: " + ToString(st)); break; }
        if (reader->GetTimestamp() != ts) fail("GetTimestamp");
        got[r].emplace_back(ts, text);
        idle = 0;
        if ((int)got[r].size() == nw * per) ended++;
        if ((int)got[r].size() > nw * per) { fail("more messages than written"); break; }
      }
    });
  }
  if (sync) {
    threads.emplace_back([&] {
      while (writing > 0) {
        const Status st = mq.Synchronize(false);
        if (st != Status::SUCCESS && !(end == 2 && st == Status::PRECONDITION_ERROR) && errors[nw + nr].empty()) errors[nw + nr] = "Synchronize: " + ToString(st);
        usleep(100);
      }
    });
  }
  if (end > 0) {
    while (ended < nr) {
      usleep(200);
      bool bad = false;
      for (int r = 0; r < nr; r++) bad |= false;
      (void)bad;
    }
    if (end == 1) mq.CancelReaders(); else mq.Close();
  }
  for (auto& t : threads) t.join();
  for (auto& e : errors) VT_CHECK(c, "conc-thread", e.empty(), "%s", e.c_str());
  for (int r = 0; r < nr; r++) {
    VT_CHECK(c, "conc-count", (int)got[r].size() == nw * per, "the reader %d got %zu messages of %d", r, got[r].size(), nw * per);
    VT_CHECK(c, "conc-order", got[r] == got[0], "the readers 0 and %d got different orders", r);
  }
  std::vector<int> next(nw, 0);
  int64_t last = -1;
  for (auto& g : got[0]) {
    int w = -1, i = -1;
    VT_CHECK(c, "conc-content", sscanf(g.second.c_str(), "%d:%d:", &w, &i) == 2 && w >= 0 && w < nw, "message %s", Show(g.second).c_str());
    VT_CHECK(c, "conc-content", g.second == vt::StrF("%d:%d:%s", w, i, std::string((w * 7 + i * 13) % 50, 'x').c_str()), "message %s", Show(g.second).c_str());
    VT_CHECK(c, "conc-order", next[w] == i, "the message %d of the writer %d comes when %d was expected", i, w, next[w]);
    next[w]++;
    VT_CHECK(c, "conc-timestamp", g.first >= last && g.first >= i * 10 + w, "the timestamp %lld after %lld", (long long)g.first, (long long)last);
    last = g.first;
  }
  if (end != 2) VT_CHECK(c, "close", mq.Close() == Status::SUCCESS, "Close");
  VT_CHECK(c, "reopen", mq.Open(prefix, max_size, MessageQueue::OPEN_READ_ONLY) == Status::SUCCESS, "Open");
  auto reader = mq.MakeReader(0);
  int64_t ts;
  std::string text;
  for (auto& g : got[0]) {
    VT_CHECK(c, "stored", reader->Read(&ts, &text) == Status::SUCCESS && ts == g.first && text == g.second, "the stored message %s, want %s", Show(text).c_str(), Show(g.second).c_str());
  }
  VT_CHECK(c, "stored", reader->Read(&ts, &text) == Status::NOT_FOUND_ERROR, "more stored messages");
  c.NonTrivial(per >= 5);
}

// ------------------------------------------------------------------ crashes

VT_SUITE(mq_crash) {
  const std::string dir = c.dir + "/live", dir2 = c.dir + "/crash";
  mkdir(dir.c_str(), 0755);
  mkdir(dir2.c_str(), 0755);
  const std::string prefix = dir + "/q";
  int64_t max_size = c.PickOf<int64_t>({300, 40, 100, 100000, 0});
  fs::Start(dir);
  struct Done { size_t event; size_t synced; size_t begun; };  // when a step ended: the synchronized messages and the ones begun
  std::vector<Msg> msgs;
  std::vector<Done> marks;
  int64_t ts = 0;
  auto mq = std::make_unique<MessageQueue>();
  auto OK = [&](const char* what, const Status& st) { VT_CHECK(c, what, st == Status::SUCCESS, "%s: %s", what, ToString(st).c_str()); };
  const int options = c.Chance(1, 8) ? MessageQueue::OPEN_SYNC_HARD : 0;
  OK("open", mq->Open(prefix, max_size, options));
  size_t synced = 0;
  std::vector<std::pair<size_t, size_t>> begun;  // events when the writing of a message began
  auto mark = [&] { marks.push_back({fs::Now(), synced, msgs.size()}); };
  mark();
  for (int i = 0; c.More(i, 15, c.thorough ? 150 : 60); i++) {
    Case::Span span(c);
    switch (c.Weighted({10, 3, 1, 1})) {
      case 0: {
        const std::string text = c.Chance(1, 8) ? GenMsg(c) : vt::StrF("m%d%s", i, std::string(c.Draw(30), 'y').c_str());
        ts = std::max<int64_t>(ts, c.Chance(1, 4) ? c.Draw(ts + 10) : ts + c.Draw(5));
        c.Log("Write(%lld, %s)", (long long)ts, Show(text).c_str());
        begun.emplace_back(fs::Now(), msgs.size());
        msgs.push_back({ts, text, 0});
        OK("write", mq->Write(ts, text));
        if (options) synced = msgs.size();
        break;
      }
      case 1:
        c.Log("Synchronize");
        OK("sync", mq->Synchronize(c.Bool()));
        synced = msgs.size();
        break;
      case 2:
        c.Log("reopen");
        OK("close", mq->Close());
        synced = msgs.size();
        mark();
        OK("reopen", mq->Open(prefix, max_size, options));
        break;
      default:
        ts += c.Draw(5);
        c.Log("UpdateTimestamp(%lld)", (long long)ts);
        OK("update-timestamp", mq->UpdateTimestamp(ts));
    }
    mark();
  }
  if (c.Bool()) {
    OK("close", mq->Close());
    synced = msgs.size();
    mark();
  }
  const size_t end = fs::Now();
  fs::Stop();
  mq.reset();
  // Crash points in ascending order.
  std::vector<size_t> points;
  const int n = 3 + c.Draw(8);
  for (int i = 0; i < n; i++) points.push_back(c.Draw(end) + 1);
  std::sort(points.begin(), points.end());
  fs::Replayer rep;
  for (size_t k : points) {
    Case::Span span(c);
    rep.To(k);
    size_t torn = SIZE_MAX;
    if (fs::At(k - 1).type == fs::Event::WRITE && c.Chance(1, 4)) torn = c.Draw(fs::At(k - 1).data.size() + 1);
    vt::EmptyDir(dir2);
    fs::Materialize(rep.State(torn), dir2);
    if (const char* keep = getenv("VT_KEEP")) (void)!system(("cp -r " + dir2 + " " + keep + std::to_string(k)).c_str());
    const size_t done = torn == SIZE_MAX ? k : k - 1;
    size_t must = 0, may = 0;
    for (auto& mk : marks) if (mk.event <= done) must = mk.synced;
    for (auto& b : begun) if (b.first < k) may = b.second + 1;
    c.Log("crash at event %zu of %zu (%s)%s: %zu to %zu messages", k, end, fs::Describe(fs::At(k - 1)).c_str(),
          torn == SIZE_MAX ? "" : vt::StrF(" with %zu bytes of it", torn).c_str(), must, may);
    const std::string prefix2 = dir2 + "/q";
    MessageQueue q;
    int opts = 0;
    Status st = q.Open(prefix2, max_size, opts);
    if (torn != SIZE_MAX && st != Status::SUCCESS) {
      opts = MessageQueue::OPEN_IGNORE_BROKEN;
      st = q.Open(prefix2, max_size, opts);
      c.Tag("ignored-broken");
    }
    VT_CHECK(c, "crash-open", st == Status::SUCCESS, "after the crash: Open with options %d: %s", opts, ToString(st).c_str());
    int64_t last = 0;
    std::vector<std::pair<int64_t, std::string>> got, more;
    auto read_all = [&](const char* when, size_t want_more) {
      auto r = q.MakeReader(0);
      got.clear();
      int64_t t;
      std::string text;
      last = 0;
      while (true) {
        const Status rs = r->Read(&t, &text);
        if (rs == Status::NOT_FOUND_ERROR || rs == Status::INFEASIBLE_ERROR) break;
        VT_CHECK(c, "crash-read", rs == Status::SUCCESS, "%s: Read: %s after %zu messages", when, ToString(rs).c_str(), got.size());
        VT_CHECK(c, "crash-timestamp", t >= last, "%s: the timestamp %lld after %lld", when, (long long)t, (long long)last);
        last = t;
        got.emplace_back(t, text);
        VT_CHECK(c, "crash-read", got.size() <= may + want_more, "%s: too many messages", when);
      }
      const size_t old = got.size() - std::min(got.size(), want_more);
      VT_CHECK(c, "crash-lost", old >= must && old <= may, "%s: %zu messages are readable, want %zu to %zu", when, old, must, may);
      for (size_t i = 0; i < old; i++)
        VT_CHECK(c, "crash-content", got[i].first == msgs[i].ts && got[i].second == msgs[i].text, "%s: the message %zu is %lld %s, want %lld %s", when, i,
                 (long long)got[i].first, Show(got[i].second).c_str(), (long long)msgs[i].ts, Show(msgs[i].text).c_str());
      for (size_t i = old; i < got.size(); i++)
        VT_CHECK(c, "crash-content", got[i].second == more[i - old].second && got[i].first >= more[i - old].first, "%s: the later message %zu is %s", when, i - old, Show(got[i].second).c_str());
      return old;
    };
    const size_t kept = read_all("after the crash", 0);
    VT_CHECK(c, "crash-timestamp", q.GetTimestamp() >= last, "the timestamp %lld of the queue, the last message has %lld", (long long)q.GetTimestamp(), (long long)last);
    // A writer continues, with old times.
    const int nm = c.Draw(5);
    for (int i = 0; i < nm; i++) {
      const std::string text = vt::StrF("later %d", i);
      const int64_t t = c.Draw(ts + 5);
      OK("crash-write", q.Write(t, text));
      more.emplace_back(t, text);
    }
    may = must = kept;
    read_all("after continuing", nm);
    OK("crash-close", q.Close());
    OK("crash-reopen", q.Open(prefix2, max_size, c.Bool() ? MessageQueue::OPEN_READ_ONLY : 0));
    read_all("after reopening", nm);
    OK("crash-close", q.Close());
    c.Evals(1);
  }
  c.NonTrivial(msgs.size() >= 3);
}

// ------------------------------------------------------------------ failures of making the next file

VT_SUITE(mq_fault) {
  const std::string prefix = c.dir + "/q";
  const int64_t max_size = c.PickOf<int64_t>({40, 0, 100, 300});
  MessageQueue mq;
  auto OK = [&](const char* what, const Status& st) { VT_CHECK(c, what, st == Status::SUCCESS, "%s: %s", what, ToString(st).c_str()); };
  OK("open", mq.Open(prefix, max_size));
  std::vector<std::string> want;
  int failed = 0;
  for (int i = 0; c.More(i, 12, 60); i++) {
    Case::Span span(c);
    const bool arm = c.Chance(1, 3);
    if (arm) {
      fs::Fault f;
      f.mask = c.PickOf<int>({fs::OPEN, fs::OPEN | fs::FTRUNCATE, fs::FTRUNCATE, fs::FSTAT | fs::OPEN});
      f.number = c.Draw(2);
      f.error = c.PickOf<int>({EIO, ENOSPC, EMFILE});
      fs::Arm(c.dir, f);
    }
    const std::string text = vt::StrF("m%d%s", i, std::string(c.Draw(60), 'z').c_str());
    const Status st = mq.Write(i, text);
    const bool fired = arm && fs::Fired();
    if (arm) fs::Disarm();
    c.Log("Write(%d, %zu bytes)%s -> %s", i, text.size(), fired ? " with a failure" : "", ToString(st).c_str());
    if (!fired) OK("write", st);
    if (st == Status::SUCCESS) want.push_back(text); else failed++;
  }
  auto check = [&](const char* when) {
    auto r = mq.MakeReader(0);
    int64_t ts;
    std::string text;
    for (size_t i = 0; i < want.size(); i++) {
      const Status st = r->Read(&ts, &text);
      VT_CHECK(c, "fault-read", st == Status::SUCCESS && text == want[i], "%s: the message %zu is %s (%s), want %s", when, i, Show(text).c_str(), ToString(st).c_str(), Show(want[i]).c_str());
    }
    VT_CHECK(c, "fault-read", r->Read(&ts, &text) == Status::INFEASIBLE_ERROR, "%s: more messages", when);
  };
  check("after the failures");
  OK("close", mq.Close());
  OK("reopen", mq.Open(prefix, max_size));
  check("after reopening");
  OK("close", mq.Close());
  c.NonTrivial(failed > 0);
}
