#include "fs.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <mutex>

#include "vt.h"

extern "C" {
int __real_open64(const char*, int, ...);
ssize_t __real_pwrite64(int, const void*, size_t, off64_t);
ssize_t __real_pread64(int, void*, size_t, off64_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
int __real_ftruncate64(int, off64_t);
int __real_truncate64(const char*, off64_t);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_fsync(int);
int __real_sync_file_range(int, off64_t, off64_t, unsigned int);
int __real_msync(void*, size_t, int);
int __real_close(int);
int __real_fstat64(int, struct stat64*);
void* __real_mmap64(void*, size_t, int, int, int, off64_t);
void* __real_mremap(void*, size_t, size_t, int, ...);
int __real_munmap(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
#ifdef VT_ASAN
void* __real___asan_memcpy(void*, const void*, size_t);
void* __real___asan_memset(void*, int, size_t);
#endif
}

namespace fs {
namespace {

std::recursive_mutex g_mutex;
std::atomic<bool> g_recording{false}, g_armed{false}, g_active{false};
std::string g_dir, g_fault_dir;
std::vector<Event> g_events;
int g_next_inode = 1;
std::map<std::string, int> g_names;  // current names of the recorded directory
struct Fd { int inode; std::string path; };
std::map<int, Fd> g_fds;
struct Region { uintptr_t addr; size_t len; int inode; int64_t off; };
std::vector<Region> g_regions;
std::atomic<uintptr_t> g_lo{~(uintptr_t)0}, g_hi{0};
Fault g_fault;
std::atomic<long> g_calls{0};
std::atomic<bool> g_fired{false};
std::string g_fired_call;
thread_local bool g_inside = false;

struct Inside {
  bool old;
  Inside() : old(g_inside) { g_inside = true; }
  ~Inside() { g_inside = old; }
};

bool Under(const char* path, const std::string& dir, std::string* rel) {
  if (dir.empty() || strncmp(path, dir.c_str(), dir.size()) != 0 || path[dir.size()] != '/') return false;
  *rel = path + dir.size() + 1;
  return true;
}
void Push(Event e) { g_events.push_back(std::move(e)); }
void SetBounds() {
  uintptr_t lo = ~(uintptr_t)0, hi = 0;
  for (const auto& r : g_regions) {
    lo = std::min(lo, r.addr);
    hi = std::max(hi, r.addr + r.len);
  }
  g_lo = lo;
  g_hi = hi;
}
int InodeOf(int fd) {
  auto it = g_fds.find(fd);
  return it == g_fds.end() ? 0 : it->second.inode;
}
// Returns true if the call must fail.
bool Fail(int kind, const char* name, bool relevant) {
  if (!g_armed || g_inside || !relevant || !(g_fault.mask & kind)) return false;
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  const long n = g_calls++;
  if (n == g_fault.number || (g_fault.sticky && g_fault.number >= 0 && n > g_fault.number)) {
    if (!g_fired) {
      g_fired = true;
      g_fired_call = name;
    }
    return true;
  }
  return false;
}
// For faults, every descriptor opened below the directory is relevant.
std::map<int, bool> g_fault_fds;
bool FaultFd(int fd) {
  if (!g_armed) return false;
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  return g_fault_fds.count(fd) > 0;
}

}  // namespace

void MemWrite(void* dest, size_t n) {
  if (n == 0) return;
  const uintptr_t a = (uintptr_t)dest;
  if (a < g_lo.load(std::memory_order_relaxed) || a >= g_hi.load(std::memory_order_relaxed)) return;
  if (!g_recording || g_inside) return;
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  Inside in;
  for (const auto& r : g_regions) {
    if (a >= r.addr && a < r.addr + r.len) {
      Push({Event::WRITE, r.inode, "", "", r.off + (int64_t)(a - r.addr), std::string((const char*)dest, n)});
      return;
    }
  }
}

void Start(const std::string& dir) {
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  g_dir = dir;
  g_events.clear();
  g_names.clear();
  g_fds.clear();
  g_regions.clear();
  SetBounds();
  g_next_inode = 1;
  for (const auto& file : Actual(dir)) {
    const int inode = g_next_inode++;
    g_names[file.first] = inode;
    Push({Event::CREATE, inode, file.first, "", 0, ""});
    if (!file.second.empty()) Push({Event::WRITE, inode, "", "", 0, file.second});
  }
  g_recording = true;
}
void Stop() { g_recording = false; }
size_t Now() {
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  return g_events.size();
}
const Event& At(size_t i) { return g_events[i]; }
std::string Describe(const Event& e) {
  static const char* names[] = {"create", "write", "truncate", "rename", "unlink", "fsync"};
  return vt::StrF("%s inode=%d %s %s off=%lld size=%zu", names[e.type], e.inode, e.path.c_str(), e.path2.c_str(),
                  (long long)e.off, e.data.size());
}

void Replayer::Apply(const Event& e, size_t limit, std::map<int, std::string>* inodes,
                     std::map<std::string, int>* names) const {
  switch (e.type) {
    case Event::CREATE:
      (*names)[e.path] = e.inode;
      (*inodes)[e.inode];
      break;
    case Event::WRITE: {
      std::string& s = (*inodes)[e.inode];
      const size_t n = std::min(limit, e.data.size());
      if (s.size() < e.off + n) s.resize(e.off + n);
      s.replace(e.off, n, e.data, 0, n);
      break;
    }
    case Event::TRUNC: (*inodes)[e.inode].resize(e.off); break;
    case Event::RENAME: {
      auto it = names->find(e.path);
      if (it != names->end()) {
        const int inode = it->second;
        names->erase(it);
        (*names)[e.path2] = inode;
      }
      break;
    }
    case Event::UNLINK: names->erase(e.path); break;
    case Event::FSYNC: break;
  }
}
void Replayer::To(size_t k) {
  while (pos_ < k) {
    const Event& e = g_events[pos_++];
    // Only the inode of the last event can be torn: keep its former content.
    prev_inodes_.clear();
    if (e.type == Event::WRITE && pos_ == k) prev_inodes_[e.inode] = inodes_[e.inode];
    Apply(e, SIZE_MAX, &inodes_, &names_);
  }
}
Files Replayer::State(size_t torn) const {
  Files files;
  for (const auto& [name, inode] : names_) files[name] = inodes_.at(inode);
  if (torn != SIZE_MAX && pos_ > 0) {
    const Event& e = g_events[pos_ - 1];
    if (e.type == Event::WRITE && prev_inodes_.count(e.inode)) {
      std::map<int, std::string> ino = prev_inodes_;
      std::map<std::string, int> nm;
      Apply(e, torn, &ino, &nm);
      for (const auto& [name, inode] : names_)
        if (inode == e.inode) files[name] = ino[inode];
    }
  }
  return files;
}

void Materialize(const Files& files, const std::string& dir) {
  Inside in;
  ::mkdir(dir.c_str(), 0755);
  for (const auto& [name, data] : files) {
    const int fd = __real_open64((dir + "/" + name).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t n = data.size();
    while (n > 0 && data[n - 1] == '\0') n--;
    size_t done = 0;
    while (done < n) {
      const ssize_t r = __real_write(fd, data.data() + done, n - done);
      if (r <= 0) abort();
      done += r;
    }
    if (__real_ftruncate64(fd, data.size()) != 0) abort();
    __real_close(fd);
  }
}
Files Actual(const std::string& dir) {
  Inside in;
  Files files;
  DIR* d = opendir(dir.c_str());
  if (!d) return files;
  while (auto* ent = readdir(d)) {
    const std::string name = ent->d_name;
    struct stat st;
    if (name[0] == '.' || ::stat((dir + "/" + name).c_str(), &st) != 0 || !S_ISREG(st.st_mode)) continue;
    const int fd = __real_open64((dir + "/" + name).c_str(), O_RDONLY);
    std::string s(st.st_size, 0);
    size_t done = 0;
    while (done < s.size()) {
      const ssize_t r = __real_read(fd, &s[done], s.size() - done);
      if (r <= 0) break;
      done += r;
    }
    __real_close(fd);
    files[name] = std::move(s);
  }
  closedir(d);
  return files;
}

void Arm(const std::string& dir, const Fault& fault) {
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  g_fault_dir = dir;
  g_fault = fault;
  g_calls = 0;
  g_fired = false;
  g_fired_call.clear();
  g_fault_fds.clear();
  // Descriptors which are open already.
  for (int fd = 3; fd < 256; fd++) {
    char link[64], buf[4096];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, buf, sizeof(buf) - 1);
    if (n <= 0) continue;
    buf[n] = 0;
    std::string rel;
    if (Under(buf, dir, &rel)) g_fault_fds[fd] = true;
  }
  g_armed = true;
}
void Disarm() { g_armed = false; }
long Calls() { return g_calls; }
bool Fired() { return g_fired; }
std::string FiredCall() {
  std::lock_guard<std::recursive_mutex> lock(g_mutex);
  return g_fired_call;
}

}  // namespace fs

using namespace fs;

#define LOCK std::lock_guard<std::recursive_mutex> lock_(g_mutex)

extern "C" {

int __wrap_open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (g_inside || (!g_recording && !g_armed)) return __real_open64(path, flags, mode);
  std::string rel;
  bool under = Under(path, g_fault_dir, &rel);
  if (Fail(fs::OPEN, "open", under)) { errno = g_fault.error; return -1; }
  LOCK;
  const int fd = __real_open64(path, flags, mode);
  if (fd < 0) return fd;
  if (g_armed && under) g_fault_fds[fd] = true;
  if (g_recording && Under(path, g_dir, &rel) && (flags & O_DIRECTORY) == 0) {
    int inode;
    auto it = g_names.find(rel);
    if (it == g_names.end()) {
      struct stat st;
      if (::fstat(fd, &st) == 0 && S_ISDIR(st.st_mode)) return fd;
      inode = g_next_inode++;
      g_names[rel] = inode;
      Push({Event::CREATE, inode, rel, "", 0, ""});
    } else {
      inode = it->second;
    }
    if (flags & O_TRUNC) Push({Event::TRUNC, inode, "", "", 0, ""});
    g_fds[fd] = {inode, rel};
  }
  return fd;
}

int __wrap_close(int fd) {
  if (!g_inside && g_armed) {
    const bool rel = FaultFd(fd);
    {
      LOCK;
      g_fault_fds.erase(fd);
    }
    if (Fail(fs::CLOSE, "close", rel)) {
      LOCK;
      g_fds.erase(fd);
      __real_close(fd);
      errno = g_fault.error;
      return -1;
    }
  }
  if (g_recording && !g_inside) {
    LOCK;
    g_fds.erase(fd);
    return __real_close(fd);
  }
  return __real_close(fd);
}

ssize_t __wrap_pwrite64(int fd, const void* buf, size_t n, off64_t off) {
  if (g_inside || (!g_recording && !g_armed)) return __real_pwrite64(fd, buf, n, off);
  const bool fail = Fail(fs::PWRITE, "pwrite", FaultFd(fd));
  if (fail && !(g_fault.short_write && n > 1 && g_fault.number == g_calls - 1)) { errno = g_fault.error; return -1; }
  LOCK;
  const ssize_t r = __real_pwrite64(fd, buf, fail ? n / 2 : n, off);
  const int inode = InodeOf(fd);
  if (r > 0 && inode && g_recording) Push({Event::WRITE, inode, "", "", off, std::string((const char*)buf, r)});
  return r;
}

ssize_t __wrap_pread64(int fd, void* buf, size_t n, off64_t off) {
  if (Fail(fs::PREAD, "pread", FaultFd(fd))) { errno = g_fault.error; return -1; }
  return __real_pread64(fd, buf, n, off);
}

ssize_t __wrap_write(int fd, const void* buf, size_t n) {
  if (g_inside || (!g_recording && !g_armed)) return __real_write(fd, buf, n);
  const bool fail = Fail(fs::WRITE, "write", FaultFd(fd));
  if (fail && !(g_fault.short_write && n > 1 && g_fault.number == g_calls - 1)) { errno = g_fault.error; return -1; }
  LOCK;
  const ssize_t r = __real_write(fd, buf, fail ? n / 2 : n);
  const int inode = InodeOf(fd);
  if (r > 0 && inode && g_recording) {
    const off64_t end = lseek64(fd, 0, SEEK_CUR);
    Push({Event::WRITE, inode, "", "", end - r, std::string((const char*)buf, r)});
  }
  return r;
}

ssize_t __wrap_read(int fd, void* buf, size_t n) {
  if (Fail(fs::READ, "read", FaultFd(fd))) { errno = g_fault.error; return -1; }
  return __real_read(fd, buf, n);
}

int __wrap_fstat64(int fd, struct stat64* st) {
  if (Fail(fs::FSTAT, "fstat", FaultFd(fd))) { errno = g_fault.error; return -1; }
  return __real_fstat64(fd, st);
}

int __wrap_ftruncate64(int fd, off64_t len) {
  if (g_inside || (!g_recording && !g_armed)) return __real_ftruncate64(fd, len);
  if (Fail(fs::FTRUNCATE, "ftruncate", FaultFd(fd))) { errno = g_fault.error; return -1; }
  LOCK;
  const int r = __real_ftruncate64(fd, len);
  const int inode = InodeOf(fd);
  if (r == 0 && inode && g_recording) Push({Event::TRUNC, inode, "", "", len, ""});
  return r;
}

int __wrap_truncate64(const char* path, off64_t len) {
  if (g_inside || (!g_recording && !g_armed)) return __real_truncate64(path, len);
  std::string rel;
  if (Fail(fs::FTRUNCATE, "truncate", Under(path, g_fault_dir, &rel))) { errno = g_fault.error; return -1; }
  LOCK;
  const int r = __real_truncate64(path, len);
  if (r == 0 && g_recording && Under(path, g_dir, &rel) && g_names.count(rel))
    Push({Event::TRUNC, g_names[rel], "", "", len, ""});
  return r;
}

int __wrap_rename(const char* a, const char* b) {
  if (g_inside || (!g_recording && !g_armed)) return __real_rename(a, b);
  std::string ra, rb;
  if (Fail(fs::RENAME, "rename", Under(a, g_fault_dir, &ra))) { errno = g_fault.error; return -1; }
  LOCK;
  const int r = __real_rename(a, b);
  if (r == 0 && g_recording && Under(a, g_dir, &ra) && Under(b, g_dir, &rb)) {
    auto it = g_names.find(ra);
    if (it != g_names.end()) {
      const int inode = it->second;
      g_names.erase(it);
      g_names[rb] = inode;
      Push({Event::RENAME, inode, ra, rb, 0, ""});
    }
  }
  return r;
}

int __wrap_unlink(const char* a) {
  if (g_inside || (!g_recording && !g_armed)) return __real_unlink(a);
  std::string ra;
  if (Fail(fs::UNLINK, "unlink", Under(a, g_fault_dir, &ra))) { errno = g_fault.error; return -1; }
  LOCK;
  const int r = __real_unlink(a);
  if (r == 0 && g_recording && Under(a, g_dir, &ra) && g_names.count(ra)) {
    g_names.erase(ra);
    Push({Event::UNLINK, 0, ra, "", 0, ""});
  }
  return r;
}

int __wrap_fsync(int fd) {
  if (g_inside || (!g_recording && !g_armed)) return __real_fsync(fd);
  if (Fail(fs::SYNC, "fsync", FaultFd(fd))) { errno = g_fault.error; return -1; }
  LOCK;
  const int inode = InodeOf(fd);
  if (inode && g_recording) {
    Push({Event::FSYNC, inode, "", "", 0, ""});
    return 0;
  }
  return __real_fsync(fd);
}

int __wrap_sync_file_range(int fd, off64_t off, off64_t size, unsigned int flags) {
  if (g_inside || (!g_recording && !g_armed)) return __real_sync_file_range(fd, off, size, flags);
  if (Fail(fs::SYNC, "sync_file_range", FaultFd(fd))) { errno = g_fault.error; return -1; }
  LOCK;
  const int inode = InodeOf(fd);
  const unsigned all = SYNC_FILE_RANGE_WAIT_BEFORE | SYNC_FILE_RANGE_WRITE | SYNC_FILE_RANGE_WAIT_AFTER;
  if (inode && g_recording) {
    if ((flags & all) == all)
      Push({Event::FSYNC, inode, size == 0 ? "" : std::to_string(size), "", off, ""});
    return 0;
  }
  return __real_sync_file_range(fd, off, size, flags);
}

int __wrap_msync(void* p, size_t n, int flags) {
  if (g_inside || (!g_recording && !g_armed)) return __real_msync(p, n, flags);
  if (Fail(fs::SYNC, "msync", true)) { errno = g_fault.error; return -1; }
  LOCK;
  if (g_recording)
    for (const auto& r : g_regions)
      if ((uintptr_t)p >= r.addr && (uintptr_t)p < r.addr + r.len && (flags & MS_SYNC)) {
        // The range is kept: off and data hold the beginning and the size in text.
        Push({Event::FSYNC, r.inode, std::to_string(n), "", r.off + (int64_t)((uintptr_t)p - r.addr), ""});
        return 0;
      }
  return __real_msync(p, n, flags);
}

void* __wrap_mmap64(void* addr, size_t len, int prot, int flags, int fd, off64_t off) {
  if (g_inside || (!g_recording && !g_armed)) return __real_mmap64(addr, len, prot, flags, fd, off);
  if (Fail(fs::MMAP, "mmap", FaultFd(fd))) { errno = g_fault.error; return MAP_FAILED; }
  LOCK;
  void* p = __real_mmap64(addr, len, prot, flags, fd, off);
  const int inode = InodeOf(fd);
  if (p != MAP_FAILED && inode && g_recording && (prot & PROT_WRITE)) {
    g_regions.push_back({(uintptr_t)p, len, inode, off});
    SetBounds();
  }
  return p;
}

void* __wrap_mremap(void* old, size_t old_len, size_t new_len, int flags, ...) {
  if (g_inside || (!g_recording && !g_armed)) return __real_mremap(old, old_len, new_len, flags);
  if (Fail(fs::MMAP, "mremap", g_armed)) { errno = g_fault.error; return MAP_FAILED; }
  LOCK;
  void* p = __real_mremap(old, old_len, new_len, flags);
  if (p != MAP_FAILED) {
    for (auto& r : g_regions)
      if (r.addr == (uintptr_t)old) {
        r.addr = (uintptr_t)p;
        r.len = new_len;
      }
    SetBounds();
  }
  return p;
}

int __wrap_munmap(void* p, size_t len) {
  if (g_inside || !g_recording) return __real_munmap(p, len);
  LOCK;
  g_regions.erase(std::remove_if(g_regions.begin(), g_regions.end(),
                                 [&](const Region& r) { return r.addr == (uintptr_t)p; }),
                  g_regions.end());
  SetBounds();
  return __real_munmap(p, len);
}

void* __wrap_memcpy(void* d, const void* s, size_t n) {
  void* r = __real_memcpy(d, s, n);
  MemWrite(d, n);
  return r;
}
void* __wrap_memset(void* d, int v, size_t n) {
  void* r = __real_memset(d, v, n);
  MemWrite(d, n);
  return r;
}
#ifdef VT_ASAN
void* __wrap___asan_memcpy(void* d, const void* s, size_t n) {
  void* r = __real___asan_memcpy(d, s, n);
  MemWrite(d, n);
  return r;
}
void* __wrap___asan_memset(void* d, int v, size_t n) {
  void* r = __real___asan_memset(d, v, n);
  MemWrite(d, n);
  return r;
}
#endif
}
