// Files (S05) and file-system utilities (S06).
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <set>
#include <thread>

#include "dbm_model.h"

#include "tkrzw_file_poly.h"
#include "tkrzw_file_util.h"

using namespace m;
using vt::Case;

namespace {

std::string Slurp(const std::string& path) {
  std::string s;
  FILE* fp = fopen(path.c_str(), "rb");
  if (!fp) return "\1missing";
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), fp)) > 0) s.append(buf, n);
  fclose(fp);
  return s;
}

// The file under test.
struct FSpec {
  int kind = F_MMAP_PARA;
  int64_t block = 1, init = 0;
  double inc = 2.0;
  int access = 0;
  bool poly = false;
  std::string Str() const {
    static const char* names[] = {"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"};
    return vt::StrF("%s block=%lld access=%d init=%lld inc=%.2f%s", names[kind], (long long)block, access,
                    (long long)init, inc, poly ? " poly" : "");
  }
  bool positional() const { return kind == F_POS_PARA || kind == F_POS_ATOM; }
  bool mapped() const { return kind == F_MMAP_PARA || kind == F_MMAP_ATOM; }
};

FSpec GenFSpec(Case& c) {
  FSpec s;
  s.kind = c.Weighted({3, 3, 4, 4, 2});
  if (s.positional() && c.Chance(2, 3)) {
    s.block = c.PickOf<int64_t>({1, 512, 4096, 100, 16});
    s.access = c.Draw(8) << 1;
    if (s.block >= 512 && (s.block & (s.block - 1)) == 0 && c.Chance(1, 4)) {
      s.access |= PositionalFile::ACCESS_DIRECT | PositionalFile::ACCESS_PADDING;
    }
  }
  if (s.kind != F_STD && c.Chance(3, 4)) {
    s.init = c.PickOf<int64_t>({1, 4096, 100, 20000, 0});
    s.inc = c.PickOf<double>({2.0, 1.0, 1.2, 1.01, 0.0, 16.0});
    if (s.inc <= 0 && s.mapped()) s.inc = 1.1;
  }
  if (c.Chance(1, 6) && s.inc == 2.0 && s.init == 0) s.poly = true;
  return s;
}

std::unique_ptr<File> MakeF(const FSpec& s) {
  std::unique_ptr<File> file;
  switch (s.kind) {
    case F_MMAP_PARA: file = std::make_unique<MemoryMapParallelFile>(); break;
    case F_MMAP_ATOM: file = std::make_unique<MemoryMapAtomicFile>(); break;
    case F_POS_PARA: file = std::make_unique<PositionalParallelFile>(); break;
    case F_POS_ATOM: file = std::make_unique<PositionalAtomicFile>(); break;
    default: file = std::make_unique<StdFile>(); break;
  }
  if (auto* p = dynamic_cast<PositionalFile*>(file.get())) p->SetAccessStrategy(s.block, s.access);
  if (s.kind != F_STD) file->SetAllocationStrategy(s.init, s.inc);
  return file;
}

std::map<std::string, std::string> FParams(const FSpec& s) {
  static const char* names[] = {"mmap-para", "MemoryMapAtomicFile", "PositionalParallelFile", "pos-atom", "StdFile"};
  std::map<std::string, std::string> p{{"file", names[s.kind]}};
  if (s.positional()) {
    p["block_size"] = std::to_string(s.block);
    std::string a;
    if (s.access & 1) a += "direct:";
    if (s.access & 2) a += "sync:";
    if (s.access & 4) a += "padding:";
    if (s.access & 8) a += "pagecache:";
    p["access_options"] = a;
  }
  return p;
}

// Bytes with what is known of them: after a fake truncation, what lies behind the end is unspecified.
struct FModel {
  std::string data;
  std::string known;  // per byte; 0 unspecified
  size_t dirty_end = 0;  // bytes up to here may be anything when the file grows over them
  void Resize(size_t n) {
    const size_t old = data.size();
    data.resize(n, 0);
    known.resize(n, 1);
    for (size_t i = old; i < n && i < dirty_end; i++) known[i] = 0;
  }
  void Write(size_t off, const std::string& s) {
    if (data.size() < off + s.size()) Resize(off + s.size());
    data.replace(off, s.size(), s);
    known.replace(off, s.size(), std::string(s.size(), 1));
  }
};

struct FCtx {
  Case& c;
  FSpec s;
  std::unique_ptr<File> file;
  std::string path;
  FModel mo;
  bool open = false, writable = false, head = false;
  int updates = 0;

  void Expect(const char* what, const Status& got, Status::Code want) {
    VT_CHECK(c, (std::string("status-") + what).c_str(), got == want, "%s: %s, want %s [%s]", what,
             ToString(got).c_str(), Status::CodeName(want), s.Str().c_str());
  }
  // The size in which the file is stored.
  size_t Stored() const {
    size_t n = mo.data.size();
    if (s.positional() && s.block > 1 && (s.access & PositionalFile::ACCESS_PADDING)) n = AlignUp(n);
    return n;
  }
  size_t AlignUp(size_t n) const {
    // Block sizes are raised to powers of two.
    size_t b = 8;
    while ((int64_t)b < s.block) b *= 2;
    return (n + b - 1) / b * b;
  }
  void Compare(const char* what, const std::string& got, size_t off = 0) {
    for (size_t i = 0; i < got.size(); i++)
      if (mo.known[off + i] && got[i] != mo.data[off + i])
        c.Fail((std::string("content-") + what).c_str(), "%s: at the offset %zu of %zu: 0x%02x, want 0x%02x [%s]", what, off + i,
               mo.data.size(), (unsigned char)got[i], (unsigned char)mo.data[off + i], s.Str().c_str());
  }
  void Read(size_t off, size_t n) {
    std::string buf(n, '\xee');
    const Status st = file->Read(off, buf.data(), n);
    if (off + n > mo.data.size()) {
      Expect("read-excessive", st, Status::INFEASIBLE_ERROR);
      return;
    }
    Expect("read", st, Status::SUCCESS);
    Compare("read", buf, off);
  }
  void CheckAll() {
    int64_t size = -5;
    Expect("getsize", file->GetSize(&size), Status::SUCCESS);
    VT_CHECK(c, "size", size == (int64_t)mo.data.size(), "size %lld, want %zu [%s]", (long long)size, mo.data.size(),
             s.Str().c_str());
    VT_CHECK(c, "size", file->GetSizeSimple() == size, "GetSizeSimple");
    Read(0, mo.data.size());
  }
  void CheckStored(bool closed) {
    const std::string got = Slurp(path);
    const size_t want = closed ? Stored() : s.positional() && s.block > 1 ? AlignUp(mo.data.size()) : mo.data.size();
    // A memory map of an empty file cannot be made, so a page may remain.
    if (!closed && s.mapped() && mo.data.empty()) return;
    VT_CHECK(c, "stored-size", got.size() == want, "the stored file has %zu bytes, want %zu [%s]", got.size(), want,
             s.Str().c_str());
    Compare("stored", got.substr(0, mo.data.size()));
  }
  bool Open(bool w, int32_t options) {
    Status st;
    auto* poly = dynamic_cast<PolyFile*>(file.get());
    if (poly) st = poly->OpenAdvanced(path, w, options, FParams(s));
    else st = file->Open(path, w, options);
    if (st == Status::SYSTEM_ERROR && (s.access & PositionalFile::ACCESS_DIRECT)) {
      // The file system lacks it.
      s.access &= ~PositionalFile::ACCESS_DIRECT;
      if (!poly) dynamic_cast<PositionalFile*>(file.get())->SetAccessStrategy(s.block, s.access);
      return Open(w, options);
    }
    Expect("open", st, Status::SUCCESS);
    open = true;
    writable = w;
    head = false;
    if ((options & File::OPEN_TRUNCATE) && w) mo = FModel();
    mo.dirty_end = 0;
    return true;
  }
  void Close() {
    Expect("close", file->Close(), Status::SUCCESS);
    open = false;
    if (writable) {
      const size_t n = Stored(), old = mo.data.size();
      CheckStored(true);
      if (n > old) {
        mo.Resize(n);
        mo.known.replace(old, n - old, std::string(n - old, 0));
      }
    }
  }
};

std::string GenData(Case& c, size_t max) {
  const size_t n = c.Size(max);
  return c.BytesOfSize(n, c.Draw(4));
}

}  // namespace

VT_SUITE(file_map) {
  FCtx x{c, GenFSpec(c)};
  x.path = c.dir + "/file";
  c.Log("spec: %s", x.s.Str().c_str());
  x.file = x.s.poly ? std::make_unique<PolyFile>() : MakeF(x.s);
  if (x.s.positional() && !x.s.poly) {
    auto* p = dynamic_cast<PositionalFile*>(x.file.get());
    VT_CHECK(c, "block-size", x.s.block <= 1 || p->GetBlockSize() == (int64_t)x.AlignUp(1), "GetBlockSize: %lld",
             (long long)p->GetBlockSize());
  }
  if (c.Bool() && !x.s.poly) {
    // The properties are handed over.
    auto other = x.file->MakeFile();
    VT_CHECK(c, "makefile", other->GetType() == x.file->GetType(), "MakeFile made another class");
    x.Expect("copy-properties", x.file->CopyProperties(other.get()), Status::SUCCESS);
    x.file = std::move(other);
  }
  char b1 = 0;
  x.Expect("closed", x.file->Read(0, &b1, 1), Status::PRECONDITION_ERROR);
  x.Expect("closed", x.file->Close(), Status::PRECONDITION_ERROR);
  {
    Status st = x.s.poly ? dynamic_cast<PolyFile*>(x.file.get())->OpenAdvanced(x.path, true, File::OPEN_NO_CREATE, FParams(x.s))
                         : x.file->Open(x.path, true, File::OPEN_NO_CREATE);
    if (!(x.s.access & PositionalFile::ACCESS_DIRECT)) x.Expect("no-create", st, Status::NOT_FOUND_ERROR);
    VT_CHECK(c, "no-create", access(x.path.c_str(), F_OK) != 0, "a file was made");
  }
  const int32_t base_opts = c.Chance(1, 8) ? File::OPEN_SYNC_HARD : 0;
  x.Open(true, base_opts);
  const size_t max = c.PickOf<size_t>({300, 40, 5000, 20000});
  const int avg = c.PickOf({12, 5, 30});
  for (int i = 0; c.More(i, avg, 100); i++) {
    vt::Case::Span span(c);
    const size_t size = x.mo.data.size();
    if (!x.open) {
      const int k = c.Weighted({6, 2, 1});
      c.Log("Open mode %d", k);
      x.Open(k != 1, base_opts | (k == 2 ? File::OPEN_TRUNCATE : 0));
      x.CheckAll();
      continue;
    }
    if (!x.writable) {
      switch (c.Draw(4)) {
        case 0: x.Close(); break;
        case 1: x.CheckAll(); break;
        default: {
          const std::string d = GenData(c, 20);
          const int k = c.Draw(4);
          c.Log("refused update %d", k);
          Status st;
          switch (k) {
            case 0: st = x.file->Write(c.Draw(size + 5), d.data(), d.size()); break;
            case 1: st = x.file->Append(d.data(), d.size()); break;
            case 2: st = x.file->Expand(c.Draw(20)); break;
            default: st = x.file->Truncate(c.Draw(size + 5)); break;
          }
          x.Expect("read-only", st, Status::PRECONDITION_ERROR);
          x.CheckAll();
        }
      }
      continue;
    }
    switch (c.Weighted({10, 8, 8, 4, 5, 3, 4, 3, 2, 2, 2, 2, 1})) {
      case 0: {
        const std::string d = GenData(c, max);
        size_t off = c.Bool() ? c.Draw(size + 1) : c.Size(std::min<size_t>(size + max, 100000));
        // Whether writing nothing behind the end extends the file is not documented.
        if (d.empty()) off = std::min<size_t>(off, size);
        c.Log("Write(%zu, %zu bytes)", off, d.size());
        if (c.Bool()) x.Expect("write", x.file->Write(off, d.data(), d.size()), Status::SUCCESS);
        else VT_CHECK(c, "status-write", x.file->WriteSimple(off, d), "WriteSimple");
        x.mo.Write(off, d);
        x.updates++;
        break;
      }
      case 1: {
        const std::string d = GenData(c, max);
        c.Log("Append(%zu bytes)", d.size());
        int64_t off = -7;
        if (c.Bool()) x.Expect("append", x.file->Append(d.data(), d.size(), &off), Status::SUCCESS);
        else off = x.file->AppendSimple(d);
        VT_CHECK(c, "append-offset", off == (int64_t)size, "offset %lld, want %zu [%s]", (long long)off, size, x.s.Str().c_str());
        x.mo.Write(size, d);
        x.updates++;
        break;
      }
      case 2: {
        const size_t off = c.Draw(size + 3), n = c.Bool() ? c.Size(max) : c.Draw(size + 3);
        c.Log("Read(%zu, %zu)", off, n);
        x.Read(off, n);
        if (off + n <= size && c.Bool()) x.Compare("readsimple", x.file->ReadSimple(off, n), off);
        break;
      }
      case 3: {
        const size_t n = c.Size(max);
        c.Log("Expand(%zu)", n);
        int64_t old = -7;
        if (c.Bool()) x.Expect("expand", x.file->Expand(n, &old), Status::SUCCESS);
        else old = x.file->ExpandSimple(n);
        VT_CHECK(c, "expand-old", old == (int64_t)size, "old size %lld, want %zu [%s]", (long long)old, size, x.s.Str().c_str());
        x.mo.Resize(size + n);
        break;
      }
      case 4: {
        const size_t n = c.Bool() ? c.Draw(size + 1) : c.Size(size + max);
        c.Log("Truncate(%zu)", n);
        x.Expect("truncate", x.file->Truncate(n), Status::SUCCESS);
        x.mo.Resize(n);
        if (n <= size && !x.mo.dirty_end) x.mo.dirty_end = 0;
        break;
      }
      case 5: {
        if (!c.Bool()) break;
        const size_t n = c.Draw(size + 1);
        c.Log("TruncateFakely(%zu)", n);
        x.Expect("truncatefakely", x.file->TruncateFakely(n), Status::SUCCESS);
        x.mo.dirty_end = std::max(x.mo.dirty_end, size);
        x.mo.Resize(n);
        break;
      }
      case 6: {
        const bool hard = c.Bool();
        const bool part = c.Chance(1, 3);
        const size_t off = part ? c.Draw(size + 1) : 0, n = part ? c.Draw(size - off + 1) : 0;
        c.Log("Synchronize(%d, %zu, %zu)", hard, off, n);
        x.Expect("synchronize", x.file->Synchronize(hard, off, n), Status::SUCCESS);
        if (!part) x.CheckStored(false);
        break;
      }
      case 7: x.CheckAll(); break;
      case 8: {
        c.Log("Close");
        x.Close();
        break;
      }
      case 9: {
        // Destroyed while it is open.
        c.Log("Delete");
        x.file.reset();
        x.CheckStored(true);
        const size_t n = x.Stored(), old = size;
        if (n > old) {
          x.mo.Resize(n);
          x.mo.known.replace(old, n - old, std::string(n - old, 0));
        }
        x.open = false;
        x.file = x.s.poly ? std::make_unique<PolyFile>() : MakeF(x.s);
        break;
      }
      case 10: {
        const std::string np = c.dir + "/" + (x.path.back() == 'e' ? "moved" : "file");
        c.Log("Rename");
        x.Expect("rename", x.file->Rename(np), Status::SUCCESS);
        VT_CHECK(c, "rename", access(x.path.c_str(), F_OK) != 0 && access(np.c_str(), F_OK) == 0, "Rename moved nothing");
        x.path = np;
        std::string p;
        x.Expect("getpath", x.file->GetPath(&p), Status::SUCCESS);
        VT_CHECK(c, "getpath", p == np && x.file->GetPathSimple() == np, "GetPath: %s", p.c_str());
        x.CheckAll();
        break;
      }
      case 11: {
        if (x.s.poly) break;
        if (auto* p = dynamic_cast<PositionalFile*>(x.file.get())) {
          const size_t n = c.PickOf<size_t>({64, 0, 1, 500, 5000});
          c.Log("SetHeadBuffer(%zu)", n);
          x.Expect("headbuffer", p->SetHeadBuffer(n), Status::SUCCESS);
          x.head = n > 0;
        } else if (x.s.mapped()) {
          const size_t off = c.Draw(size + 1), n = c.Size(max);
          const bool w = c.Bool();
          c.Log("MakeZone(%d, %zu, %zu)", w, off, n);
          auto use = [&](auto* f, auto* zone) {
            Status st = f->MakeZone(w, off, n, zone);
            x.Expect("zone", st, Status::SUCCESS);
            VT_CHECK(c, "zone", (*zone)->Offset() == (int64_t)off && ((*zone)->Size() == n || !w), "zone of %lld, %zu",
                     (long long)(*zone)->Offset(), (*zone)->Size());
            const size_t zn = (*zone)->Size();
            if (w) {
              const std::string d = c.BytesOfSize(n, 1);
              memcpy((*zone)->Pointer(), d.data(), n);
              zone->reset();
              x.mo.Write(off, d);
            } else {
              VT_CHECK(c, "zone", zn == std::min(n, size - off), "a zone of %zu bytes, want %zu", zn, std::min(n, size - off));
              x.Compare("zone", std::string((*zone)->Pointer(), zn), off);
              zone->reset();
            }
          };
          if (x.s.kind == F_MMAP_PARA) {
            std::unique_ptr<MemoryMapParallelFile::Zone> z;
            use(dynamic_cast<MemoryMapParallelFile*>(x.file.get()), &z);
          } else {
            std::unique_ptr<MemoryMapAtomicFile::Zone> z;
            use(dynamic_cast<MemoryMapAtomicFile*>(x.file.get()), &z);
          }
        }
        break;
      }
      default: {
        x.Expect("opened", x.file->Open(x.path, true), Status::PRECONDITION_ERROR);
        VT_CHECK(c, "isopen", x.file->IsOpen(), "IsOpen");
        break;
      }
    }
  }
  if (x.open) {
    x.CheckAll();
    x.Close();
  }
  VT_CHECK(c, "isopen", !x.file->IsOpen(), "IsOpen after Close");
  x.Open(c.Bool(), 0);
  x.CheckAll();
  x.Close();
  c.NonTrivial(x.updates >= 3);
  c.Tag("updates", x.updates);
}

// Threads append, write to regions of their own, and read what is settled.
VT_SUITE_EX(file_conc, 20.0, true) {
  FSpec s = GenFSpec(c);
  s.poly = false;
  s.access &= ~(PositionalFile::ACCESS_DIRECT | PositionalFile::ACCESS_SYNC);
  const bool atomic = s.kind == F_MMAP_ATOM || s.kind == F_POS_ATOM || s.kind == F_STD;
  const std::string path = c.dir + "/file";
  auto file = MakeF(s);
  VT_CHECK(c, "open", file->Open(path, true) == Status::SUCCESS, "open");
  const int nt = 2 + c.Draw(3);
  const size_t region = c.PickOf<size_t>({7, 64, 100, 1000});
  const size_t base = region * nt * 2;
  if (c.Bool()) VT_CHECK(c, "expand", file->Expand(base) == Status::SUCCESS, "expand");
  else {
    const std::string z(base, 0);
    VT_CHECK(c, "append", file->Append(z.data(), z.size()) == Status::SUCCESS, "append");
  }
  if (s.positional() && c.Chance(1, 4))
    dynamic_cast<PositionalFile*>(file.get())->SetHeadBuffer(c.PickOf({10, 600}));
  // Plans.
  struct Act { int what; size_t a, n; uint8_t fill; };
  std::vector<std::vector<Act>> plans(nt);
  const size_t maxrec = c.PickOf<size_t>({40, 8, 300, 3000});
  int total = 0;
  const bool sync = atomic && c.Bool();
  for (int t = 0; t < nt; t++) {
    const int n = 5 + c.Draw(40);
    for (int i = 0; i < n; i++) {
      Act a;
      a.what = c.Weighted({4, 4, 2, 1, 1});
      if (a.what == 4 && !sync) a.what = 0;
      a.a = c.Draw(2);
      a.n = 5 + c.Draw(a.what == 1 ? 1 : maxrec);
      if (a.what == 1) a.n = 1 + c.Draw(region);
      a.fill = 1 + c.Draw(250);
      plans[t].push_back(a);
      total++;
    }
  }
  c.Log("spec: %s, %d threads, %d operations, region %zu, records up to %zu", s.Str().c_str(), nt, total, region, maxrec);
  struct Rec { int64_t off; size_t n; uint8_t fill; bool expand; };
  std::vector<std::vector<Rec>> recs(nt);
  std::vector<std::string> own(nt * 2, std::string(region, 0));
  std::vector<std::string> errors(nt);
  std::atomic<int> gate(0);
  std::vector<std::thread> threads;
  for (int t = 0; t < nt; t++) {
    threads.emplace_back([&, t] {
      gate++;
      while (gate < nt) {}
      auto fail = [&](const std::string& e) { if (errors[t].empty()) errors[t] = e; };
      for (const auto& a : plans[t]) {
        switch (a.what) {
          case 0: {
            const std::string d(a.n, a.fill);
            int64_t off = -1;
            const Status st = file->Append(d.data(), d.size(), &off);
            if (st != Status::SUCCESS) fail("Append: " + ToString(st));
            recs[t].push_back({off, a.n, a.fill, false});
            break;
          }
          case 1: {
            // A region of this thread, interleaved with the ones of others.
            const size_t idx = a.a * nt + t;
            const size_t start = a.fill % (region - std::min(region, a.n) + 1);
            const size_t n = std::min(a.n, region - start);
            const std::string d(n, a.fill);
            const Status st = file->Write(idx * region + start, d.data(), n);
            if (st != Status::SUCCESS) fail("Write: " + ToString(st));
            own[idx].replace(start, n, d);
            std::string got(region, 0);
            const Status st2 = file->Read(idx * region, got.data(), region);
            if (st2 != Status::SUCCESS) fail("Read: " + ToString(st2));
            if (got != own[idx]) fail(vt::StrF("a thread cannot read what it has written at %zu", idx * region));
            break;
          }
          case 2: {
            if (recs[t].empty()) break;
            const Rec& r = recs[t][a.fill % recs[t].size()];
            std::string got(r.n, 0);
            const Status st = file->Read(r.off, got.data(), r.n);
            if (st != Status::SUCCESS) fail("Read: " + ToString(st));
            if (got != std::string(r.n, r.expand ? 0 : r.fill)) fail(vt::StrF("an appended record at %lld is broken", (long long)r.off));
            break;
          }
          case 3: {
            int64_t off = -1;
            const Status st = file->Expand(a.n, &off);
            if (st != Status::SUCCESS) fail("Expand: " + ToString(st));
            recs[t].push_back({off, a.n, 0, true});
            break;
          }
          default: {
            const Status st = file->Synchronize(false);
            if (st != Status::SUCCESS) fail("Synchronize: " + ToString(st));
          }
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  for (auto& e : errors) VT_CHECK(c, "conc-thread", e.empty(), "%s [%s]", e.c_str(), s.Str().c_str());
  auto check = [&](const char* when, const std::string& all, size_t size) {
    std::vector<Rec> rs;
    for (auto& v : recs) rs.insert(rs.end(), v.begin(), v.end());
    std::sort(rs.begin(), rs.end(), [](const Rec& a, const Rec& b) { return a.off < b.off; });
    size_t pos = base;
    for (const auto& r : rs) {
      VT_CHECK(c, "conc-offsets", r.off == (int64_t)pos, "%s: a record at %lld, the one before ends at %zu [%s]", when,
               (long long)r.off, pos, s.Str().c_str());
      VT_CHECK(c, "conc-content", all.compare(pos, r.n, std::string(r.n, r.expand ? 0 : r.fill)) == 0,
               "%s: the record at %zu of %zu bytes is broken [%s]", when, pos, r.n, s.Str().c_str());
      pos += r.n;
    }
    VT_CHECK(c, "conc-size", size == pos, "%s: size %zu, want %zu [%s]", when, size, pos, s.Str().c_str());
    for (size_t i = 0; i < own.size(); i++)
      VT_CHECK(c, "conc-content", all.compare(i * region, region, own[i]) == 0, "%s: the region %zu is broken [%s]", when, i, s.Str().c_str());
  };
  const int64_t size = file->GetSizeSimple();
  std::string all(size, 0);
  VT_CHECK(c, "read", file->Read(0, all.data(), size) == Status::SUCCESS, "Read of all");
  check("open", all, size);
  VT_CHECK(c, "close", file->Close() == Status::SUCCESS, "Close");
  std::string stored = Slurp(path);
  if (stored.size() > (size_t)size) stored.resize(size);
  check("closed", stored, stored.size());
  c.NonTrivial(total >= 20);
}

// ------------------------------------------------------------------ S06

namespace {

std::string GenPath(Case& c) {
  std::string p;
  if (c.Bool()) p = c.PickOf<const char*>({"/", "//", "./", "../"});
  for (int i = 0; c.More(i, 3, 10); i++) {
    p += c.PickOf<const char*>({"a", "b.c", "..", ".", "x.tar.gz", ".hid", "z.", "...", " ", "a b"});
    p += c.PickOf<const char*>({"/", "//", "///", "/"});
  }
  if (c.Bool()) while (!p.empty() && p.back() == '/') p.pop_back();
  return p;
}

// The reference: the list of components.
std::pair<bool, std::vector<std::string>> Components(const std::string& p) {
  std::vector<std::string> v;
  const bool abs = !p.empty() && p[0] == '/';
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    const std::string e = p.substr(i, j - i);
    i = j + 1;
    if (e.empty() || e == ".") continue;
    if (e == "..") {
      if (!v.empty() && v.back() != "..") v.pop_back();
      else if (!abs) v.push_back(e);
      continue;
    }
    v.push_back(e);
  }
  return {abs, v};
}

}  // namespace

VT_SUITE(path_util) {
  const std::string p = GenPath(c), q = GenPath(c);
  c.Log("paths: %s %s", vt::Esc(p).c_str(), vt::Esc(q).c_str());
  const std::string np = NormalizePath(p);
  const auto comp = Components(p);
  std::string want = comp.first ? "/" : "";
  for (size_t i = 0; i < comp.second.size(); i++) want += (i ? "/" : "") + comp.second[i];
  VT_CHECK(c, "normalize", np == want, "NormalizePath(%s) = %s, want %s", vt::Esc(p).c_str(), vt::Esc(np).c_str(), vt::Esc(want).c_str());
  VT_CHECK(c, "normalize", NormalizePath(np) == np, "NormalizePath is not idempotent: %s", vt::Esc(np).c_str());
  // Base name and directory name.
  const std::string base = PathToBaseName(p), dir = PathToDirectoryName(p);
  if (!p.empty()) {
    size_t n = p.size();
    while (n > 1 && p[n - 1] == '/') n--;
    const std::string t = p.substr(0, n);
    const size_t pos = t.rfind('/');
    if (t == "/") {
      VT_CHECK(c, "basename", base == "/" && dir == "/", "names of the root: %s %s", base.c_str(), dir.c_str());
    } else {
      VT_CHECK(c, "basename", base == (pos == std::string::npos ? t : t.substr(pos + 1)), "PathToBaseName(%s) = %s", vt::Esc(p).c_str(), vt::Esc(base).c_str());
      VT_CHECK(c, "dirname", dir == (pos == std::string::npos ? "." : pos == 0 ? "/" : t.substr(0, pos)), "PathToDirectoryName(%s) = %s", vt::Esc(p).c_str(), vt::Esc(dir).c_str());
      VT_CHECK(c, "dir-base", NormalizePath(JoinPath(dir, base)) == np, "directory and base name of %s make %s", vt::Esc(p).c_str(), vt::Esc(JoinPath(dir, base)).c_str());
    }
    const size_t dot = base.rfind('.');
    const std::string ext = PathToExtension(p);
    VT_CHECK(c, "extension", ext == (dot == std::string::npos ? "" : base.substr(dot + 1)), "PathToExtension(%s) = %s", vt::Esc(p).c_str(), vt::Esc(ext).c_str());
  }
  // Joining.
  const std::string j = JoinPath(p, q);
  if (q.empty()) VT_CHECK(c, "join", j == p, "JoinPath(%s, \"\") = %s", vt::Esc(p).c_str(), vt::Esc(j).c_str());
  else if (q[0] == '/') VT_CHECK(c, "join", j == q, "JoinPath(%s, %s) = %s", vt::Esc(p).c_str(), vt::Esc(q).c_str(), vt::Esc(j).c_str());
  else {
    const std::string w = p.empty() ? "/" + q : p + "/" + q;
    VT_CHECK(c, "join", Components(j) == Components(w), "JoinPath(%s, %s) = %s", vt::Esc(p).c_str(), vt::Esc(q).c_str(), vt::Esc(j).c_str());
    VT_CHECK(c, "join", PathToBaseName(j) == PathToBaseName(q), "base name of %s", vt::Esc(j).c_str());
  }
  c.NonTrivial(comp.second.size() >= 2);
}

// A history on a small directory tree, against a model of it.
VT_SUITE(fs_util) {
  const std::string root = c.dir + "/t";
  mkdir(root.c_str(), 0755);
  // Names to contents; directories have the content "\1".
  std::map<std::string, std::string> tree{{"", "\1"}};
  auto gen = [&]() {
    std::string p;
    const int depth = 1 + c.Draw(3);
    for (int i = 0; i < depth; i++) p += std::string(i ? "/" : "") + c.PickOf<const char*>({"a", "b", "c.d"});
    return p;
  };
  auto is_dir = [&](const std::string& p) { auto it = tree.find(p); return it != tree.end() && it->second == "\1"; };
  auto is_file = [&](const std::string& p) { auto it = tree.find(p); return it != tree.end() && it->second != "\1"; };
  auto parent = [&](const std::string& p) { const size_t n = p.rfind('/'); return n == std::string::npos ? std::string() : p.substr(0, n); };
  auto children = [&](const std::string& p) {
    std::set<std::string> s;
    for (auto& e : tree) if (!e.first.empty() && e.first != p && parent(e.first) == p) s.insert(e.first);
    return s;
  };
  // How an expression with dots names the same file.
  auto spell = [&](const std::string& p) {
    std::string r = root + "/" + p;
    if (c.Chance(1, 5)) r = root + "/.//" + p;
    if (c.Chance(1, 8)) r = NormalizePath(root + "/./x/../" + p);
    return r;
  };
  int changes = 0;
  const int avg = c.PickOf({10, 4, 25});
  for (int i = 0; c.More(i, avg, 80); i++) {
    vt::Case::Span span(c);
    const std::string p = gen();
    const std::string full = spell(p);
    switch (c.Weighted({6, 3, 3, 3, 3, 3, 4, 3, 2, 2})) {
      case 0: {
        const bool atomic = c.Bool();
        const std::string d = c.Bytes(c.Chance(1, 10) ? 20000 : 60);
        c.Log("WriteFile%s(%s, %zu bytes)", atomic ? "Atomic" : "", p.c_str(), d.size());
        const std::string tmp = c.Bool() ? "" : root + "/tmpfile";
        const Status st = atomic ? WriteFileAtomic(full, d, tmp) : WriteFile(full, d);
        const bool ok = is_dir(parent(p)) && !is_dir(p);
        VT_CHECK(c, "write", (st == Status::SUCCESS) == ok, "WriteFile(%s): %s, want success %d", p.c_str(), ToString(st).c_str(), ok);
        if (ok) tree[p] = d == "\1" ? "\1\1" : d;
        if (ok && d == "\1") WriteFile(full, "\1\1");
        changes += ok;
        break;
      }
      case 1: {
        c.Log("RemoveFile(%s)", p.c_str());
        const Status st = RemoveFile(full);
        VT_CHECK(c, "remove", (st == Status::SUCCESS) == is_file(p), "RemoveFile(%s): %s", p.c_str(), ToString(st).c_str());
        if (is_file(p)) { tree.erase(p); changes++; }
        break;
      }
      case 2: {
        const std::string to = gen();
        c.Log("RenameFile(%s, %s)", p.c_str(), to.c_str());
        bool ok = tree.count(p) && is_dir(parent(to));
        if (ok && is_file(p)) ok = !is_dir(to);
        if (ok && is_dir(p)) {
          if (to == p) {}
          else if (to.compare(0, p.size() + 1, p + "/") == 0) ok = false;
          else if (is_file(to)) ok = false;
          else if (is_dir(to)) ok = children(to).empty();
        }
        const Status st = RenameFile(full, spell(to));
        VT_CHECK(c, "rename", (st == Status::SUCCESS) == ok, "RenameFile(%s, %s): %s, want success %d", p.c_str(), to.c_str(), ToString(st).c_str(), ok);
        if (ok && to != p) {
          std::map<std::string, std::string> n;
          for (auto& e : tree) {
            if (e.first == p) n[to] = e.second;
            else if (e.first.compare(0, p.size() + 1, p + "/") == 0) n[to + e.first.substr(p.size())] = e.second;
            else if (e.first != to) n[e.first] = e.second;
          }
          tree.swap(n);
          changes++;
        }
        break;
      }
      case 3: {
        const bool rec = c.Bool();
        c.Log("MakeDirectory(%s, %d)", p.c_str(), rec);
        bool ok = !tree.count(p) && is_dir(parent(p));
        if (rec) {
          ok = true;
          for (std::string q = p; !q.empty(); q = parent(q)) if (is_file(q)) ok = false;
        }
        const Status st = MakeDirectory(root + "/" + p, rec);
        VT_CHECK(c, "mkdir", (st == Status::SUCCESS) == ok, "MakeDirectory(%s, %d): %s, want success %d", p.c_str(), rec, ToString(st).c_str(), ok);
        if (ok) for (std::string q = p; !q.empty(); q = parent(q)) tree[q] = "\1";
        else if (rec) {
          // Directories above the obstacle may have been made.
          std::vector<std::string> ups;
          for (std::string q = p; !q.empty(); q = parent(q)) ups.push_back(q);
          for (auto it = ups.rbegin(); it != ups.rend(); ++it) if (!tree.count(*it) && access((root + "/" + *it).c_str(), F_OK) == 0) tree[*it] = "\1";
        }
        changes += ok;
        break;
      }
      case 4: {
        const bool rec = c.Bool();
        c.Log("RemoveDirectory(%s, %d)", p.c_str(), rec);
        const bool ok = is_dir(p) && (rec || children(p).empty());
        const Status st = RemoveDirectory(root + "/" + p, rec);
        VT_CHECK(c, "rmdir", (st == Status::SUCCESS) == ok, "RemoveDirectory(%s, %d): %s, want success %d", p.c_str(), rec, ToString(st).c_str(), ok);
        if (ok) {
          for (auto it = tree.begin(); it != tree.end();) {
            if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0) it = tree.erase(it);
            else ++it;
          }
          changes++;
        }
        break;
      }
      case 5: {
        const std::string to = gen();
        if (to == p) break;
        c.Log("CopyFileData(%s, %s)", p.c_str(), to.c_str());
        const bool ok = is_file(p) && is_dir(parent(to)) && !is_dir(to);
        if (is_dir(p)) break;
        const Status st = CopyFileData(full, spell(to));
        VT_CHECK(c, "copy", (st == Status::SUCCESS) == ok, "CopyFileData(%s, %s): %s, want success %d", p.c_str(), to.c_str(), ToString(st).c_str(), ok);
        if (ok) { tree[to] = tree[p]; changes++; }
        break;
      }
      case 6: {
        const int64_t max = c.Bool() ? INT32MAX : c.Draw(70);
        std::string d = "old";
        const Status st = ReadFile(full, &d, max);
        c.Log("ReadFile(%s, %lld)", p.c_str(), (long long)max);
        if (is_file(p)) {
          VT_CHECK(c, "read", st == Status::SUCCESS && d == tree[p].substr(0, max), "ReadFile(%s): %s, %zu bytes, want %zu", p.c_str(), ToString(st).c_str(), d.size(), tree[p].size());
          VT_CHECK(c, "read", ReadFileSimple(full, "dflt") == tree[p], "ReadFileSimple");
          VT_CHECK(c, "status", GetFileSize(full) == (int64_t)tree[p].size(), "GetFileSize");
        } else {
          VT_CHECK(c, "read", is_dir(p) ? max == 0 || st != Status::SUCCESS : st == Status::NOT_FOUND_ERROR || st == Status::SYSTEM_ERROR, "ReadFile(%s): %s", p.c_str(), ToString(st).c_str());
          VT_CHECK(c, "read", ReadFileSimple(full, "dflt") == "dflt", "ReadFileSimple of no file");
          VT_CHECK(c, "status", GetFileSize(full) == -1, "GetFileSize of no file");
        }
        VT_CHECK(c, "status", PathIsFile(full) == is_file(p) && PathIsDirectory(full) == is_dir(p), "PathIsFile(%s) %d, PathIsDirectory %d", p.c_str(), PathIsFile(full), PathIsDirectory(full));
        break;
      }
      case 7: {
        std::vector<std::string> got;
        const std::string d = c.Bool() ? parent(p) : p;
        c.Log("ReadDirectory(%s)", d.c_str());
        const Status st = ReadDirectory(root + "/" + d, &got);
        VT_CHECK(c, "readdir", (st == Status::SUCCESS) == is_dir(d), "ReadDirectory(%s): %s", d.c_str(), ToString(st).c_str());
        if (is_dir(d)) {
          std::set<std::string> a(got.begin(), got.end()), b;
          for (auto& e : children(d)) b.insert(PathToBaseName(e));
          VT_CHECK(c, "readdir", a == b && got.size() == b.size(), "ReadDirectory(%s): %zu names, want %zu", d.c_str(), got.size(), b.size());
        }
        break;
      }
      case 8: {
        const int64_t n = c.Draw(100);
        c.Log("TruncateFile(%s, %lld)", p.c_str(), (long long)n);
        const Status st = TruncateFile(full, n);
        VT_CHECK(c, "truncate", (st == Status::SUCCESS) == is_file(p), "TruncateFile(%s): %s", p.c_str(), ToString(st).c_str());
        if (is_file(p)) {
          tree[p].resize(n);
          if (tree[p] == "\1") { tree[p] = "zz"; WriteFile(full, "zz"); }
          changes++;
        }
        break;
      }
      default: {
        std::string rp;
        const Status st = GetRealPath(full, &rp);
        VT_CHECK(c, "realpath", (st == Status::SUCCESS) == (tree.count(p) > 0), "GetRealPath(%s): %s", p.c_str(), ToString(st).c_str());
        if (tree.count(p)) VT_CHECK(c, "realpath", rp == NormalizePath(root + "/" + p), "GetRealPath(%s) = %s", p.c_str(), rp.c_str());
        if (is_file(p)) VT_CHECK(c, "sync", SynchronizeFile(full) == Status::SUCCESS, "SynchronizeFile");
        FileStatus fst;
        VT_CHECK(c, "status", (ReadFileStatus(full, &fst) == Status::SUCCESS) == (tree.count(p) > 0), "ReadFileStatus");
        break;
      }
    }
  }
  // The whole tree.
  std::map<std::string, std::string> got;
  std::function<void(const std::string&)> walk = [&](const std::string& p) {
    got[p] = "\1";
    std::vector<std::string> names;
    VT_CHECK(c, "readdir", ReadDirectory(JoinPath(root, p), &names) == Status::SUCCESS, "ReadDirectory");
    for (auto& n : names) {
      const std::string q = p.empty() ? n : p + "/" + n;
      if (PathIsDirectory(root + "/" + q)) walk(q);
      else got[q] = Slurp(root + "/" + q);
    }
  };
  walk("");
  if (got != tree) {
    std::string s;
    for (auto& e : got) if (!tree.count(e.first)) s += " extra " + e.first;
    for (auto& e : tree) if (!got.count(e.first)) s += " missing " + e.first; else if (got[e.first] != e.second) s += " changed " + e.first;
    c.Fail("tree", "the tree differs:%s", s.c_str());
  }
  {
    // Temporary directories.
    std::string tp;
    {
      TemporaryDirectory td(true, "x-", root);
      VT_CHECK(c, "tmpdir", td.CreationStatus() == Status::SUCCESS && PathIsDirectory(td.Path()), "TemporaryDirectory");
      tp = td.Path();
      VT_CHECK(c, "tmpdir", PathToDirectoryName(tp) == root, "a temporary directory %s", tp.c_str());
      const std::string a = td.MakeUniquePath("p", ".s"), b = td.MakeUniquePath("p", ".s");
      VT_CHECK(c, "tmpdir", a != b && PathToDirectoryName(a) == tp, "MakeUniquePath");
      WriteFile(a, "1");
      if (c.Bool()) {
        VT_CHECK(c, "tmpdir", td.CleanUp() == Status::SUCCESS && !PathIsFile(a) && PathIsDirectory(tp), "CleanUp");
      }
    }
    VT_CHECK(c, "tmpdir", !PathIsDirectory(tp), "the temporary directory remains");
  }
  c.NonTrivial(changes >= 3);
}

// PageCache: a byte array over pages, with writes coming back to the storage.
VT_SUITE(page_cache) {
  const int64_t page = c.PickOf<int64_t>({16, 4, 64, 512});
  const int64_t cap = c.PickOf<int64_t>({1, 4, 64});
  std::string store(page * (1 + c.Draw(40)), 0);
  std::string data = store;
  bool bad = false;
  std::string why;
  auto rd = [&](int64_t off, void* buf, size_t size) {
    if (off % page || off < 0) { bad = true; why = vt::StrF("read of %zu bytes at %lld", size, (long long)off); }
    if (off + size > store.size()) { bad = true; why = vt::StrF("read of %zu bytes at %lld, behind the region %zu", size, (long long)off, store.size()); return Status(Status::SYSTEM_ERROR); }
    memcpy(buf, store.data() + off, size);
    return Status(Status::SUCCESS);
  };
  auto wr = [&](int64_t off, const void* buf, size_t size) {
    if (off % page || size % page) { bad = true; why = vt::StrF("write of %zu bytes at %lld", size, (long long)off); }
    if (store.size() < off + size) store.resize(off + size);
    store.replace(off, size, (const char*)buf, size);
    return Status(Status::SUCCESS);
  };
  PageCache pc(page, cap, rd, wr);
  pc.SetRegionSize(store.size());
  VT_CHECK(c, "region", pc.GetRegionSize() == (int64_t)store.size(), "GetRegionSize");
  int writes = 0;
  for (int i = 0; c.More(i, 14, 80); i++) {
    vt::Case::Span span(c);
    switch (c.Weighted({6, 6, 2, 1})) {
      case 0: {
        const size_t off = c.Draw(data.size()), n = c.Size(std::min<size_t>(data.size() - off, page * 9));
        const std::string d = c.BytesOfSize(n, 1);
        c.Log("Write(%zu, %zu)", off, n);
        VT_CHECK(c, "write", pc.Write(off, d.data(), n) == Status::SUCCESS, "Write");
        data.replace(off, n, d);
        writes++;
        break;
      }
      case 1: {
        const size_t off = c.Draw(data.size()), n = c.Size(std::min<size_t>(data.size() - off, page * 9));
        c.Log("Read(%zu, %zu)", off, n);
        std::string got(n, 1);
        VT_CHECK(c, "read", pc.Read(off, got.data(), n) == Status::SUCCESS, "Read");
        VT_CHECK(c, "content", got == data.substr(off, n), "Read(%zu, %zu) differs (page %lld, capacity %lld)", off, n, (long long)page, (long long)cap);
        break;
      }
      case 2: {
        c.Log("Flush");
        if (c.Bool()) {
          VT_CHECK(c, "flush", pc.Flush() == Status::SUCCESS, "Flush");
          VT_CHECK(c, "flush", store == data, "Flush left dirty data");
        } else {
          const size_t off = c.Draw(data.size()), n = 1 + c.Draw(data.size() - off);
          VT_CHECK(c, "flush", pc.Flush(off, n) == Status::SUCCESS, "Flush");
          VT_CHECK(c, "flush", store.compare(off, n, data, off, n) == 0, "Flush(%zu, %zu) left dirty data", off, n);
        }
        break;
      }
      default: {
        c.Log("Flush and Clear");
        pc.Flush();
        pc.Clear();
        break;
      }
    }
    VT_CHECK(c, "request", !bad, "%s (page %lld)", why.c_str(), (long long)page);
  }
  pc.Flush();
  VT_CHECK(c, "flush", store == data, "the final Flush left dirty data");
  c.NonTrivial(writes >= 2);
}

// Lines and flat records in files.
VT_SUITE(file_readers) {
  const std::string path = c.dir + "/f";
  const size_t max = c.PickOf<size_t>({30, 300, 9000, 40000});
  std::vector<std::string> recs;
  for (int i = 0; c.More(i, 6, 40); i++) recs.push_back(c.Bytes(c.Chance(1, 3) ? max : 60));
  FSpec s;
  s.kind = c.Draw(5);
  {
    auto f = MakeF(s);
    VT_CHECK(c, "open", f->Open(path, true, File::OPEN_TRUNCATE) == Status::SUCCESS, "open");
    FlatRecord rec(f.get());
    std::vector<int> types;
    for (auto& r : recs) {
      types.push_back(c.Chance(1, 5));
      VT_CHECK(c, "flat-write", rec.Write(r, types.back() ? FlatRecord::RECORD_METADATA : FlatRecord::RECORD_NORMAL) == Status::SUCCESS, "Write");
    }
    int64_t off = 0;
    for (size_t i = 0; i < recs.size(); i++) {
      VT_CHECK(c, "flat-read", rec.Read(off) == Status::SUCCESS, "Read");
      VT_CHECK(c, "flat-read", rec.GetData() == recs[i] && (rec.GetRecordType() == FlatRecord::RECORD_METADATA) == types[i] && (int64_t)rec.GetOffset() == off, "record %zu differs", i);
      off += rec.GetWholeSize();
    }
    VT_CHECK(c, "flat-read", off == f->GetSizeSimple(), "records end at %lld", (long long)off);
    FlatRecordReader reader(f.get(), c.PickOf<size_t>({0, 1, 100, 5000}));
    for (size_t i = 0; i < recs.size(); i++) {
      std::string_view got;
      FlatRecord::RecordType t;
      VT_CHECK(c, "flat-reader", reader.Read(&got, c.Bool() ? &t : nullptr) == Status::SUCCESS && got == recs[i], "record %zu of %zu bytes differs", i, recs[i].size());
    }
    std::string_view got;
    VT_CHECK(c, "flat-reader", reader.Read(&got) == Status::NOT_FOUND_ERROR, "no end");
    f->Close();
  }
  {
    std::string all;
    for (auto& r : recs) all += r + "\n";
    if (c.Bool() && !all.empty()) all.pop_back();
    WriteFile(path, all);
    auto f = MakeF(s);
    VT_CHECK(c, "open", f->Open(path, false) == Status::SUCCESS, "open");
    FileReader reader(f.get());
    const size_t lim = c.Bool() ? 0 : 1 + c.Draw(50);
    size_t pos = 0;
    std::string line;
    while (pos < all.size()) {
      size_t n = all.find('\n', pos);
      n = n == std::string::npos ? all.size() : n + 1;
      if (lim) n = std::min(n, pos + lim);
      VT_CHECK(c, "line", reader.ReadLine(&line, lim) == Status::SUCCESS, "ReadLine");
      VT_CHECK(c, "line", line == all.substr(pos, n - pos), "the line at %zu is %zu bytes, want %zu (limit %zu)", pos, line.size(), n - pos, lim);
      pos = n;
    }
    VT_CHECK(c, "line", reader.ReadLine(&line, lim) == Status::NOT_FOUND_ERROR, "no end of lines");
  }
  c.NonTrivial(recs.size() >= 2);
}
