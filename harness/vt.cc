#include "vt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <fstream>
#include <limits>
#include <sstream>
#include <unordered_set>

namespace vt {

std::vector<Suite>& Suites() {
  static std::vector<Suite> suites;
  return suites;
}

static double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

std::string StrF(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  const int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n < static_cast<int>(sizeof(buf))) return std::string(buf, std::max(n, 0));
  return std::string(buf);
}

std::string Esc(std::string_view s, size_t max) {
  std::string r = "\"";
  size_t n = 0;
  for (unsigned char ch : s) {
    if (n++ >= max) break;
    if (ch >= 0x20 && ch < 0x7f && ch != '"' && ch != '\\') {
      r += ch;
    } else {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", ch);
      r += b;
    }
  }
  r += "\"";
  if (s.size() > max) r += StrF("..(%zu)", s.size());
  return r;
}

void Case::Log(const char* fmt, ...) {
  if (!tracing || trace_.size() > 400000) return;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  trace_ += buf;
  trace_ += "\n";
  if (mirror != nullptr) {
    const size_t len = std::min<size_t>(trace_.size(), sizeof(mirror->trace));
    if (len > mirror->trace_len) {
      memcpy(mirror->trace + mirror->trace_len, trace_.data() + mirror->trace_len,
             len - mirror->trace_len);
      mirror->trace_len = len;
    }
  }
}

void Case::Fail(const char* cls, const char* fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  throw Failure{cls, buf};
}

int64_t Case::NastyInt() {
  switch (Draw(8)) {
    case 0: return Range(-3, 3);
    case 1: return Range(-1000, 1000);
    case 2: {
      const int sh = Draw(64);
      const uint64_t b = 1ULL << sh;
      return static_cast<int64_t>(b + static_cast<uint64_t>(Range(-2, 2)));
    }
    case 3: {
      const int sh = Draw(64);
      const uint64_t b = 1ULL << sh;
      return static_cast<int64_t>(0 - b + static_cast<uint64_t>(Range(-2, 2)));
    }
    case 4: return static_cast<int64_t>(static_cast<uint64_t>(std::numeric_limits<int64_t>::min()) + Draw(3));
    case 5: return std::numeric_limits<int64_t>::max() - static_cast<int64_t>(Draw(3));
    default: return static_cast<int64_t>(Draw64() >> Draw(64));
  }
}

uint64_t Case::NastyUInt() { return static_cast<uint64_t>(NastyInt()); }

std::string Case::BytesOfSize(size_t size, int style) {
  std::string s;
  s.reserve(size);
  // Long strings draw a seed to keep the choice stream short.
  if (size > 24) {
    uint64_t seed = Draw(1 << 30);
    if (style == 0) {
      // simple: repeats one letter
      s.assign(size, 'a' + seed % 26);
      return s;
    }
    for (size_t i = 0; i < size; i++) {
      const uint64_t r = SplitMix(&seed);
      switch (style) {
        case 1: s += static_cast<char>('a' + r % 3); break;
        case 2: s += static_cast<char>('0' + r % 10); break;
        case 3: s += "\0\x01\x7f\x80\xff\n\t 0a"[r % 10]; break;
        default: s += static_cast<char>(r & 0xff); break;
      }
    }
    return s;
  }
  for (size_t i = 0; i < size; i++) {
    switch (style) {
      case 0: s += static_cast<char>('a' + Draw(26)); break;
      case 1: s += static_cast<char>('a' + Draw(3)); break;
      case 2: s += static_cast<char>('0' + Draw(10)); break;
      case 3: s += "a\0\x01\x7f\x80\xff\n\t 0"[Draw(10)]; break;
      default: s += static_cast<char>(Draw(256)); break;
    }
  }
  return s;
}

std::string Case::Bytes(size_t max) {
  const int style = Draw(5);
  const size_t size = Size(max);
  return BytesOfSize(size, style);
}

double Case::NastyDouble() {
  switch (Draw(10)) {
    case 0: return static_cast<double>(Range(-3, 3));
    case 1: return Range(-100000, 100000) / 100.0;
    case 2: return static_cast<double>(NastyInt());
    case 3: return std::numeric_limits<double>::infinity() * (Bool() ? -1 : 1);
    case 4: return std::numeric_limits<double>::quiet_NaN();
    case 5: return (Bool() ? -1 : 1) * std::numeric_limits<double>::max();
    case 6: return (Bool() ? -1 : 1) * std::numeric_limits<double>::denorm_min();
    case 7: return -0.0;
    default: {
      const uint64_t b = Draw64();
      double d;
      memcpy(&d, &b, 8);
      return d;
    }
  }
}

static void RemoveTree(const std::string& path, bool self) {
  // Only ever called for paths below the scratch root.
  DIR* d = opendir(path.c_str());
  if (d != nullptr) {
    struct dirent* e;
    while ((e = readdir(d)) != nullptr) {
      const std::string name = e->d_name;
      if (name == "." || name == "..") continue;
      const std::string child = path + "/" + name;
      struct stat st;
      if (lstat(child.c_str(), &st) != 0) continue;
      if (S_ISDIR(st.st_mode)) {
        chmod(child.c_str(), 0700);
        RemoveTree(child, true);
      } else {
        unlink(child.c_str());
      }
    }
    closedir(d);
  }
  if (self) rmdir(path.c_str());
}

void EmptyDir(const std::string& dir) {
  if (dir.find("/vt-scratch-") == std::string::npos) abort();
  RemoveTree(dir, false);
}

struct Options {
  std::string prop = "X00";
  std::vector<std::pair<size_t, int>> suites;
  uint64_t seed = 1;
  double secs = 10;
  double shrink_secs = 60;
  int workers = 8;
  int64_t max_cases = -1;
  bool thorough = false;
  std::string out;
  std::string replay_dir = ".";
  std::string scratch;
};

struct alignas(64) WorkerShm {
  std::atomic<uint64_t> case_seed;
  std::atomic<uint32_t> suite;
  std::atomic<double> start;  // 0: idle
  std::atomic<uint64_t> cases;
};

static std::string g_scratch_root;

static void PrepareDir(const std::string& dir) {
  mkdir(dir.c_str(), 0755);
  chmod(dir.c_str(), 0755);
  EmptyDir(dir);
}

struct Outcome {
  char kind = 0;  // 'p' pass, 'f' fail, 'c' crash, 'h' hang
  std::string cls;
  std::string msg;
  std::string trace;
  std::vector<uint64_t> choices;
  std::vector<SpanRec> spans;
};

static Mirror* g_shm = nullptr;

// True if a process holds more memory than any case needs.
static constexpr int64_t MEMORY_LIMIT = 2500LL << 20;
static bool TooLarge(pid_t pid) {
  char buf[64];
  snprintf(buf, sizeof(buf), "/proc/%d/statm", (int)pid);
  FILE* f = fopen(buf, "r");
  if (f == nullptr) return false;
  long long total = 0, resident = 0;
  const int n = fscanf(f, "%lld %lld", &total, &resident);
  fclose(f);
  return n == 2 && resident * 4096 > MEMORY_LIMIT;
}

static void InstallChildDefaults() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPIPE, SIG_IGN);
  signal(SIGINT, SIG_DFL);
  signal(SIGTERM, SIG_DFL);
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
}

// Runs one case in a child process.  Either by seed or by choices.
static Outcome RunChild(const Suite& suite, const std::vector<uint64_t>* choices, uint64_t seed,
                        double limit, bool thorough, bool quiet = true) {
  Outcome oc;
  g_shm->kind = 0;
  g_shm->cls[0] = 0;
  g_shm->msg[0] = 0;
  g_shm->trace_len = 0;
  g_shm->n_choices = 0;
  g_shm->n_spans = 0;
  const std::string dir = g_scratch_root + "/child";
  PrepareDir(dir);
  const std::string errpath = g_scratch_root + "/child.stderr";
  const pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    InstallChildDefaults();
    if (quiet) {
      const int fd = open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    }
    auto* c = choices != nullptr ? new Case(*choices) : new Case(seed);
    c->tracing = true;
    c->dir = dir;
    c->thorough = thorough;
    c->mirror = g_shm;
    try {
      suite.fn(*c);
      g_shm->kind = 'p';
    } catch (const Failure& f) {
      snprintf(g_shm->cls, sizeof(g_shm->cls), "%s", f.cls.c_str());
      snprintf(g_shm->msg, sizeof(g_shm->msg), "%s", f.msg.c_str());
      g_shm->kind = 'f';
    }
    _exit(0);
  }
  setpgid(pid, pid);
  const double end = Now() + limit;
  int st = 0;
  bool hung = false, large = false;
  int polls = 0;
  while (true) {
    const pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (++polls % 16 == 0) large = TooLarge(pid);
    if (Now() > end || large) {
      hung = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(Now() + limit - end < 0.02 ? 300 : 2000);
  }
  kill(-pid, SIGKILL);
  if (large) {
    oc.kind = 'c';
    oc.cls = "memory";
    oc.msg = StrF("the case took more than %lld MB of memory", (long long)(MEMORY_LIMIT >> 20));
  } else if (hung) {
    oc.kind = 'h';
    oc.cls = "hang";
    oc.msg = StrF("the case did not end in %.0f seconds", limit);
  } else if (g_shm->kind == 'p') {
    oc.kind = 'p';
  } else if (g_shm->kind == 'f') {
    oc.kind = 'f';
    oc.cls = g_shm->cls;
    oc.msg = g_shm->msg;
  } else {
    oc.kind = 'c';
    oc.cls = "crash";
    std::string tail;
    std::ifstream ifs(errpath);
    std::stringstream ss;
    ss << ifs.rdbuf();
    tail = ss.str();
    if (tail.size() > 6000) tail.resize(6000);
    oc.msg = WIFSIGNALED(st) ? StrF("killed by signal %d\n", WTERMSIG(st)) :
        StrF("exited with status %d\n", WEXITSTATUS(st));
    oc.msg += tail;
  }
  oc.choices.assign(g_shm->choices, g_shm->choices + g_shm->n_choices);
  oc.spans.assign(g_shm->spans, g_shm->spans + g_shm->n_spans);
  for (auto& sp : oc.spans) if (sp.end == 0) sp.end = oc.choices.size();
  oc.trace.assign(g_shm->trace, g_shm->trace_len);
  return oc;
}

static bool Better(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

struct Shrinker {
  const Suite& suite;
  Outcome best;
  double end;
  double limit;
  bool thorough;
  int64_t attempts = 0;
  int reps = 1;

  bool Try(std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!Better(cand, best.choices)) return false;
    for (int r = 0; r < reps; r++) {
      if (Now() > end) return false;
      attempts++;
      Outcome oc = RunChild(suite, &cand, 0, limit, thorough);
      if (oc.kind == best.kind && oc.cls == best.cls) {
        while (!oc.choices.empty() && oc.choices.back() == 0) oc.choices.pop_back();
        if (!Better(oc.choices, best.choices)) oc.choices = cand;
        best = oc;
        return true;
      }
    }
    return false;
  }

  void Run() {
    bool improved = true;
    while (improved && Now() < end) {
      improved = false;
      // Delete spans.
      if (!best.spans.empty()) {
        for (int group : {64, 16, 4, 1}) {
          size_t i = best.spans.size();
          while (i > 0 && Now() < end) {
            i--;
            if (i >= best.spans.size()) { i = best.spans.size(); if (i == 0) break; continue; }
            const auto sp = best.spans[i];
            uint32_t e = sp.end;
            if (group > 1) {
              int n = 1;
              for (size_t j = i + 1; j < best.spans.size() && n < group; j++) {
                if (best.spans[j].depth < sp.depth) break;
                if (best.spans[j].depth == sp.depth) { e = std::max(e, best.spans[j].end); n++; }
              }
              if (n < group) continue;
            }
            if (e <= sp.begin || sp.begin >= best.choices.size()) continue;
            e = std::min<uint32_t>(e, best.choices.size());
            auto cand = best.choices;
            cand.erase(cand.begin() + sp.begin, cand.begin() + e);
            if (Try(cand)) improved = true;
          }
        }
      }
      // Delete chunks.
      for (size_t chunk : {256, 64, 16, 4, 2, 1}) {
        size_t i = best.choices.size();
        while (i >= chunk && Now() < end) {
          i -= chunk;
          if (i + chunk > best.choices.size()) continue;
          auto cand = best.choices;
          cand.erase(cand.begin() + i, cand.begin() + i + chunk);
          if (Try(cand)) improved = true;
          if (i < 1) break;
        }
      }
      // Zero chunks and minimise values.
      for (size_t chunk : {64, 16, 4}) {
        for (size_t i = 0; i + chunk <= best.choices.size() && Now() < end; i += chunk) {
          auto cand = best.choices;
          std::fill(cand.begin() + i, cand.begin() + i + chunk, 0);
          if (cand != best.choices && Try(cand)) improved = true;
        }
      }
      for (size_t i = 0; i < best.choices.size() && Now() < end; i++) {
        if (best.choices[i] == 0) continue;
        auto cand = best.choices;
        cand[i] = 0;
        if (Try(cand)) { improved = true; continue; }
        uint64_t lo = 0;
        while (i < best.choices.size() && best.choices[i] > lo + 1 && Now() < end) {
          const uint64_t mid = lo + (best.choices[i] - lo) / 2;
          cand = best.choices;
          cand[i] = mid;
          if (Try(cand)) improved = true; else lo = mid;
        }
      }
    }
  }
};

static std::string JsonStr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch == '\t') r += "\\t";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}

struct WorkerResult {
  std::map<std::string, int64_t> tags;
  int64_t cases = 0, evals = 0, nontrivial = 0;
};

static void SaveWorker(const std::string& base, const WorkerResult& res,
                       const std::unordered_set<uint64_t>& hashes,
                       const std::vector<std::string>& samples) {
  std::ofstream ofs(base + ".stat");
  ofs << res.cases << " " << res.evals << " " << res.nontrivial << "\n";
  for (const auto& t : res.tags) ofs << t.first << "\t" << t.second << "\n";
  ofs.close();
  std::ofstream hfs(base + ".hash", std::ios::binary);
  for (uint64_t h : hashes) hfs.write(reinterpret_cast<const char*>(&h), 8);
  std::ofstream sfs(base + ".samples", std::ios::binary);
  for (const auto& s : samples) {
    const uint64_t n = s.size();
    sfs.write(reinterpret_cast<const char*>(&n), 8);
    sfs.write(s.data(), n);
  }
}

static volatile sig_atomic_t g_stop = 0;

static void WorkerLoop(const Options& opt, int w, uint64_t gen, WorkerShm* shm, double deadline) {
  InstallChildDefaults();
  signal(SIGUSR1, [](int) { g_stop = 1; });
  const std::string dir = g_scratch_root + StrF("/w%d", w);
  const std::string base = g_scratch_root + StrF("/res-%d-%" PRIu64, w, gen);
  WorkerResult res;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  std::map<uint32_t, int> sample_count;
  uint64_t rng = Mix(Mix(opt.seed, 0x7e57 + w), gen);
  for (char ch : opt.prop) rng = Mix(rng, static_cast<unsigned char>(ch));
  int total = 0;
  for (const auto& s : opt.suites) total += s.second;
  uint64_t turn = w;
  double last_save = Now();
  while (!g_stop && Now() < deadline && (opt.max_cases < 0 || res.cases < opt.max_cases)) {
    const uint64_t case_seed = SplitMix(&rng);
    int64_t v = (turn++ * 0x9e3779b9ULL >> 7) % total;
    size_t idx = 0;
    for (const auto& s : opt.suites) {
      if (v < s.second) { idx = s.first; break; }
      v -= s.second;
    }
    const Suite& suite = Suites()[idx];
    PrepareDir(dir);
    shm->case_seed.store(case_seed);
    shm->suite.store(idx);
    shm->start.store(Now());
    Case c(case_seed);
    c.dir = dir;
    c.thorough = opt.thorough;
    c.tracing = w < 3 && sample_count[idx] < 2;
    try {
      suite.fn(c);
    } catch (const Failure& f) {
      std::ofstream ofs(base + ".fail", std::ios::binary);
      ofs << idx << "\n" << case_seed << "\n" << f.cls << "\n" << f.msg << "\n";
      ofs.close();
      res.cases++;
      res.evals += std::max<int64_t>(c.evals(), 1);
      SaveWorker(base, res, hashes, samples);
      _exit(3);
    }
    shm->start.store(0);
    res.cases++;
    shm->cases.store(res.cases);
    res.evals += std::max<int64_t>(c.evals(), 1);
    for (const auto& t : c.tags()) res.tags[t.first] += t.second;
    res.tags[std::string("suite:") + suite.name]++;
    if (c.nontrivial()) {
      res.nontrivial++;
      if (hashes.size() < 3000000) hashes.insert(c.hash());
      if (c.tracing && samples.size() < 8) {
        std::string s = std::string(suite.name) + ":\n" + c.trace();
        if (s.size() > 1800) { s.resize(1800); s += "..."; }
        samples.push_back(s);
        sample_count[idx]++;
      }
    }
    // Results of a worker which is killed later in a hang are kept from here.
    if (Now() - last_save > 5) {
      SaveWorker(base, res, hashes, samples);
      last_save = Now();
    }
  }
  SaveWorker(base, res, hashes, samples);
  _exit(0);
}

static void WriteReplay(const std::string& path, const Options& opt, const Suite& suite,
                        const Outcome& oc, uint64_t case_seed, const std::string& note) {
  std::ofstream ofs(path, std::ios::binary);
  ofs << "vt-replay 1\n";
  ofs << "property " << opt.prop << "\n";
  ofs << "suite " << suite.name << "\n";
  ofs << "thorough " << (opt.thorough ? 1 : 0) << "\n";
  ofs << "seed " << case_seed << "\n";
  ofs << "choices " << oc.choices.size();
  for (uint64_t v : oc.choices) ofs << " " << v;
  ofs << "\n";
  ofs << "kind " << oc.kind << "\n";
  ofs << "class " << oc.cls << "\n";
  ofs << "note " << note << "\n";
  ofs << "message:\n" << oc.msg << "\n";
  ofs << "trace:\n" << oc.trace << "\n";
}

static int Run(const Options& opt) {
  const double begin = Now();
  const double deadline = begin + opt.secs;
  auto* shm = static_cast<WorkerShm*>(mmap(
      nullptr, sizeof(WorkerShm) * opt.workers, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(opt.workers, 0);
  std::vector<uint64_t> gens(opt.workers, 0);
  auto spawn = [&](int w) {
    shm[w].start.store(0);
    const pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      WorkerLoop(opt, w, gens[w], shm + w, deadline);
      _exit(0);
    }
    setpgid(pid, pid);
    pids[w] = pid;
  };
  for (int w = 0; w < opt.workers; w++) spawn(w);
  struct Cand { size_t suite; uint64_t seed; char kind; };
  std::vector<Cand> cands;
  int64_t unreproduced = 0, slow = 0;
  bool found = false;
  Outcome final_oc;
  size_t final_suite = 0;
  uint64_t final_seed = 0;
  std::string final_note;
  auto kill_all = [&](bool soft) {
    for (int w = 0; w < opt.workers; w++) {
      if (pids[w] > 0 && soft) kill(pids[w], SIGUSR1);
    }
    const double end = Now() + (soft ? 1.5 : 0);
    while (true) {
      bool any = false;
      for (int w = 0; w < opt.workers; w++) {
        if (pids[w] <= 0) continue;
        int st;
        if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
          kill(-pids[w], SIGKILL);
          pids[w] = 0;
        } else {
          any = true;
        }
      }
      if (!any || Now() > end) break;
      usleep(5000);
    }
    for (int w = 0; w < opt.workers; w++) {
      if (pids[w] > 0) {
        kill(-pids[w], SIGKILL);
        kill(pids[w], SIGKILL);
        waitpid(pids[w], nullptr, 0);
        pids[w] = 0;
      }
    }
  };
  while (true) {
    cands.clear();
    bool any = false;
    std::vector<int> to_spawn;
    for (int w = 0; w < opt.workers; w++) {
      if (pids[w] <= 0) continue;
      any = true;
      int st = 0;
      const pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        kill(-pids[w], SIGKILL);
        pids[w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        cands.push_back({shm[w].suite.load(), shm[w].case_seed.load(),
                         WIFEXITED(st) && WEXITSTATUS(st) == 3 ? 'f' : 'c'});
        to_spawn.push_back(w);
      } else {
        const double start = shm[w].start.load();
        const Suite& suite = Suites()[shm[w].suite.load()];
        const bool large = TooLarge(pids[w]);
        if (start > 0 && (large || Now() - start > suite.case_limit)) {
          kill(-pids[w], SIGKILL);
          kill(pids[w], SIGKILL);
          waitpid(pids[w], nullptr, 0);
          pids[w] = 0;
          cands.push_back({shm[w].suite.load(), shm[w].case_seed.load(), large ? 'c' : 'h'});
          to_spawn.push_back(w);
        }
      }
    }
    if (!cands.empty()) {
      // Confirm with the other workers paused.
      for (int w = 0; w < opt.workers; w++) if (pids[w] > 0) kill(-pids[w], SIGSTOP);
      const double pause_begin = Now();
      for (const auto& cand : cands) {
        const Suite& suite = Suites()[cand.suite];
        const double limit = cand.kind == 'h' ? suite.case_limit * 3 : suite.case_limit * 2;
        const int tries = suite.nondet ? 30 : 4;
        const double tries_end = Now() + 90;
        std::string first_msg;
        for (int t = 0; t < tries && Now() < tries_end; t++) {
          Outcome oc = RunChild(suite, nullptr, cand.seed, limit, opt.thorough);
          if (oc.kind == 'p') {
            if (cand.kind == 'h') break;
            continue;
          }
          found = true;
          final_oc = oc;
          final_suite = cand.suite;
          final_seed = cand.seed;
          break;
        }
        if (!found && cand.kind == 'f' && suite.nondet) {
          // The oracle is sound for any schedule: one observation is enough.
          for (int w = 0; w < opt.workers; w++) {
            std::ifstream ifs(g_scratch_root + StrF("/res-%d-%" PRIu64 ".fail", w, gens[w]));
            size_t sidx; uint64_t seed; std::string cls, msg;
            if (ifs >> sidx >> seed && seed == cand.seed) {
              std::getline(ifs, cls);
              std::getline(ifs, cls);
              std::stringstream ss;
              ss << ifs.rdbuf();
              found = true;
              final_oc = Outcome();
              final_oc.kind = 'f';
              final_oc.cls = cls;
              final_oc.msg = ss.str();
              final_suite = cand.suite;
              final_seed = cand.seed;
              final_note = "observed once; did not recur in the replays of this run";
            }
          }
        }
        if (found) break;
        if (cand.kind == 'h') slow++; else unreproduced++;
        if (getenv("VT_VERBOSE")) {
          for (int w = 0; w < opt.workers; w++) {
            std::ifstream ifs(g_scratch_root + StrF("/res-%d-%" PRIu64 ".fail", w, gens[w]));
            std::stringstream ss;
            ss << ifs.rdbuf();
            if (ss.str().empty()) continue;
            fprintf(stderr, "UNREPRODUCED %s seed=%" PRIu64 " kind=%c %s\n", Suites()[cand.suite].name,
                    cand.seed, cand.kind, ss.str().substr(0, 300).c_str());
          }
        }
      }
      if (found) break;
      const double paused = Now() - pause_begin;
      for (int w = 0; w < opt.workers; w++) {
        if (pids[w] > 0) {
          const double s = shm[w].start.load();
          if (s > 0) shm[w].start.store(s + paused);
          kill(-pids[w], SIGCONT);
        }
      }
      for (int w : to_spawn) {
        gens[w]++;
        if (Now() < deadline && gens[w] < 50) spawn(w);
      }
    }
    if (!any) break;
    if (Now() > deadline + 600) { break; }
    usleep(20000);
  }
  if (found) {
    for (int w = 0; w < opt.workers; w++) if (pids[w] > 0) kill(-pids[w], SIGCONT);
  }
  kill_all(true);
  std::string replay_path;
  int64_t shrink_attempts = 0;
  if (found) {
    const Suite& suite = Suites()[final_suite];
    if (!final_oc.choices.empty()) {
      // A hang is confirmed by a long limit, and shrunk with a shorter one.
      Shrinker sh{suite, final_oc, Now() + opt.shrink_secs,
                  final_oc.kind == 'h' ? suite.case_limit : std::max(2.0, suite.case_limit),
                  opt.thorough};
      sh.reps = suite.nondet ? 4 : 1;
      sh.Run();
      final_oc = sh.best;
      shrink_attempts = sh.attempts;
    }
    mkdir(opt.replay_dir.c_str(), 0755);
    replay_path = opt.replay_dir + "/" + opt.prop + "-" + suite.name + ".replay";
    // Replay three times.
    int again = 0;
    const int times = suite.nondet ? 10 : 3;
    for (int i = 0; i < times; i++) {
      Outcome oc = final_oc.choices.empty() ?
          RunChild(suite, nullptr, final_seed, suite.case_limit * 2, opt.thorough) :
          RunChild(suite, &final_oc.choices, 0, suite.case_limit * 2, opt.thorough);
      if (oc.kind == final_oc.kind) {
        again++;
        if (final_oc.trace.empty()) final_oc.trace = oc.trace;
      }
      if (suite.nondet && Now() - begin > opt.secs + 240) break;
    }
    final_note += StrF(" replays failing: %d/%d", again, times);
    WriteReplay(replay_path, opt, suite, final_oc, final_seed, final_note);
  }
  // Merge the results.
  WorkerResult sum;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  for (int w = 0; w < opt.workers; w++) {
    for (uint64_t g = 0; g <= gens[w]; g++) {
      const std::string base = g_scratch_root + StrF("/res-%d-%" PRIu64, w, g);
      std::ifstream ifs(base + ".stat");
      int64_t a = 0, b = 0, n = 0;
      if (!(ifs >> a >> b >> n)) continue;
      sum.cases += a; sum.evals += b; sum.nontrivial += n;
      std::string line;
      std::getline(ifs, line);
      while (std::getline(ifs, line)) {
        const size_t p = line.find('\t');
        if (p != std::string::npos) sum.tags[line.substr(0, p)] += atoll(line.c_str() + p + 1);
      }
      std::ifstream hfs(base + ".hash", std::ios::binary);
      uint64_t h;
      while (hfs.read(reinterpret_cast<char*>(&h), 8)) hashes.insert(h);
      std::ifstream sfs(base + ".samples", std::ios::binary);
      uint64_t len;
      while (sfs.read(reinterpret_cast<char*>(&len), 8)) {
        std::string s(len, 0);
        sfs.read(s.data(), len);
        if (samples.size() < 6) samples.push_back(s);
      }
    }
  }
  std::ofstream ofs(opt.out);
  ofs << "{\"property\":" << JsonStr(opt.prop) << ",\"seed\":" << opt.seed
      << ",\"cases\":" << sum.cases << ",\"evals\":" << sum.evals
      << ",\"nontrivial\":" << sum.nontrivial
      << ",\"distinct_nontrivial\":" << hashes.size()
      << ",\"unreproduced\":" << unreproduced << ",\"slow\":" << slow
      << ",\"wall\":" << StrF("%.3f", Now() - begin)
      << ",\"tags\":{";
  bool first = true;
  for (const auto& t : sum.tags) {
    ofs << (first ? "" : ",") << JsonStr(t.first) << ":" << t.second;
    first = false;
  }
  ofs << "},\"samples\":[";
  first = true;
  for (const auto& s : samples) {
    ofs << (first ? "" : ",") << JsonStr(s);
    first = false;
  }
  ofs << "],\"failure\":";
  if (found) {
    ofs << "{\"suite\":" << JsonStr(Suites()[final_suite].name)
        << ",\"kind\":" << JsonStr(std::string(1, final_oc.kind))
        << ",\"cls\":" << JsonStr(final_oc.cls) << ",\"msg\":" << JsonStr(final_oc.msg)
        << ",\"note\":" << JsonStr(final_note)
        << ",\"shrink_attempts\":" << shrink_attempts
        << ",\"replay\":" << JsonStr(replay_path) << "}";
  } else {
    ofs << "null";
  }
  ofs << "}\n";
  ofs.close();
  return found ? 1 : 0;
}

static int Replay(const std::string& path, int times) {
  std::ifstream ifs(path, std::ios::binary);
  std::string word, suite_name;
  uint64_t seed = 0;
  std::vector<uint64_t> choices;
  bool thorough = false;
  std::string line;
  while (std::getline(ifs, line)) {
    std::stringstream ss(line);
    ss >> word;
    if (word == "suite") ss >> suite_name;
    else if (word == "seed") ss >> seed;
    else if (word == "thorough") { int t; ss >> t; thorough = t; }
    else if (word == "choices") {
      size_t n; ss >> n;
      uint64_t v;
      while (ss >> v) choices.push_back(v);
      break;
    }
  }
  for (const auto& suite : Suites()) {
    if (suite_name != suite.name) continue;
    int fails = 0;
    for (int i = 0; i < times; i++) {
      Outcome oc = choices.empty() ? RunChild(suite, nullptr, seed, suite.case_limit * 3, thorough)
          : RunChild(suite, &choices, 0, suite.case_limit * 3, thorough);
      if (oc.kind != 'p') {
        fails++;
        if (fails == 1) {
          printf("%s\nFAILED kind=%c class=%s\n%s\n", oc.trace.c_str(), oc.kind, oc.cls.c_str(),
                 oc.msg.c_str());
        }
      }
    }
    printf("replay: %d of %d runs failed\n", fails, times);
    return fails > 0 ? 1 : 0;
  }
  fprintf(stderr, "unknown suite: %s\n", suite_name.c_str());
  return 2;
}

int Main(int argc, char** argv) {
  Options opt;
  std::string mode = argc > 1 ? argv[1] : "";
  const char* tmpl_base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  const char* env = getenv("VT_SCRATCH_BASE");
  if (env != nullptr) tmpl_base = env;
  g_shm = static_cast<Mirror*>(mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  std::string tmpl = std::string(tmpl_base) + "/vt-scratch-XXXXXX";
  if (mkdtemp(tmpl.data()) == nullptr) { perror("mkdtemp"); return 2; }
  g_scratch_root = tmpl;
  chmod(tmpl.c_str(), 0755);
  int rc = 2;
  if (mode == "list") {
    for (const auto& s : Suites()) printf("%s\n", s.name);
    rc = 0;
  } else if (mode == "replay" && argc > 2) {
    rc = Replay(argv[2], argc > 3 ? atoi(argv[3]) : 1);
  } else if (mode == "one" && argc > 3) {
    // one SUITE SEED: runs in process (for debuggers).
    for (const auto& s : Suites()) {
      if (std::string(argv[2]) != s.name) continue;
      Case c(strtoull(argv[3], nullptr, 10));
      c.tracing = true;
      c.dir = g_scratch_root + "/one";
      PrepareDir(c.dir);
      try {
        s.fn(c);
        rc = 0;
        printf("%s\n", c.trace().c_str());
      } catch (const Failure& f) {
        printf("%s\nFAILED class=%s\n%s\n", c.trace().c_str(), f.cls.c_str(), f.msg.c_str());
        rc = 1;
      }
    }
  } else if (mode == "run") {
    for (int i = 2; i + 1 < argc; i += 2) {
      const std::string k = argv[i], v = argv[i + 1];
      if (k == "--prop") opt.prop = v;
      else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
      else if (k == "--secs") opt.secs = atof(v.c_str());
      else if (k == "--shrink") opt.shrink_secs = atof(v.c_str());
      else if (k == "--workers") opt.workers = atoi(v.c_str());
      else if (k == "--max-cases") opt.max_cases = atoll(v.c_str());
      else if (k == "--thorough") opt.thorough = v == "1";
      else if (k == "--out") opt.out = v;
      else if (k == "--replay-dir") opt.replay_dir = v;
      else if (k == "--suites") {
        std::stringstream ss(v);
        std::string item;
        while (std::getline(ss, item, ',')) {
          int weight = 1;
          const size_t p = item.find(':');
          if (p != std::string::npos) { weight = atoi(item.c_str() + p + 1); item.resize(p); }
          bool hit = false;
          for (size_t j = 0; j < Suites().size(); j++) {
            if (item == Suites()[j].name) { opt.suites.push_back({j, weight}); hit = true; }
          }
          if (!hit) { fprintf(stderr, "no such suite: %s\n", item.c_str()); return 2; }
        }
      }
    }
    rc = Run(opt);
  }
  RemoveTree(g_scratch_root, true);
  return rc;
}

}  // namespace vt

int main(int argc, char** argv) { return vt::Main(argc, argv); }
