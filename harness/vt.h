// Choice-sequence property-based testing engine.
// A case is a function of a stream of bounded choices.  A stream is generated from a seed, or
// replayed from a list (missing choices are 0).  Shrinking edits the list.
#ifndef VT_H
#define VT_H

#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace vt {

struct Failure {
  std::string cls;
  std::string msg;
};

inline uint64_t SplitMix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t s = a ^ (b * 0xff51afd7ed558ccdULL + 0x2545f4914f6cdd1dULL);
  SplitMix(&s);
  return SplitMix(&s);
}

// Escapes bytes for logs.
std::string Esc(std::string_view s, size_t max = 48);
std::string StrF(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct SpanRec { uint32_t begin, end, depth; };

// What a case did so far, in memory shared with the parent (kept when the case crashes).
struct Mirror {
  char kind;  // 'p' pass, 'f' fail, 0 unknown
  char cls[128];
  char msg[16384];
  uint64_t trace_len;
  char trace[1 << 20];
  uint64_t n_choices;
  uint64_t choices[1 << 20];
  uint64_t n_spans;
  SpanRec spans[1 << 19];
  void Add(uint64_t v) { if (n_choices < (1 << 20)) choices[n_choices++] = v; }
};

class Case {
 public:

  // Generation mode.
  explicit Case(uint64_t seed) : replay_(false), rng_(seed) {}
  // Replay mode.
  explicit Case(const std::vector<uint64_t>& choices) : replay_(true), rng_(0), in_(choices) {}

  // A uniform choice in [0, n).  0 is the simplest.
  uint64_t Draw(uint64_t n) {
    if (n < 1) n = 1;
    uint64_t v = 0;
    if (replay_) {
      if (pos_ < in_.size()) v = in_[pos_] < n ? in_[pos_] : in_[pos_] % n;
      pos_++;
    } else if (n > 1) {
      v = SplitMix(&rng_) % n;
    }
    out_.push_back(v);
    if (mirror != nullptr) mirror->Add(v);
    hash_ = (hash_ ^ (v + 1)) * 0x100000001b3ULL;
    hash_ ^= hash_ >> 29;
    return v;
  }
  uint64_t Draw64() {
    return (Draw(1ULL << 32) << 32) | Draw(1ULL << 32);
  }
  // Inclusive range; lo is the simplest.
  int64_t Range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Draw(hi - lo + 1)); }
  bool Bool() { return Draw(2) == 1; }
  // True with probability num/den; false is the simplest.
  bool Chance(uint64_t num, uint64_t den) { return Draw(den) >= den - num; }
  // Weighted choice of an index; index 0 is the simplest.
  size_t Weighted(std::initializer_list<int> weights) { return Weighted<std::initializer_list<int>>(weights); }
  template <typename L>
  size_t Weighted(const L& weights) {
    uint64_t total = 0;
    for (int w : weights) total += w;
    uint64_t v = Draw(total);
    size_t i = 0;
    for (int w : weights) {
      if (v < static_cast<uint64_t>(w)) return i;
      v -= w;
      i++;
    }
    return 0;
  }
  template <typename T>
  const T& Pick(const std::vector<T>& vec) { return vec[Draw(vec.size())]; }
  template <typename T>
  T PickOf(std::initializer_list<T> vec) { return *(vec.begin() + Draw(vec.size())); }
  // Continues a loop with the mean length "avg"; stops at "max".
  bool More(uint64_t i, uint64_t avg, uint64_t max) {
    if (i >= max) return false;
    return Draw(avg + 1) != 0;
  }
  // Skewed size in [0, max].
  size_t Size(size_t max) {
    switch (Draw(4)) {
      case 0: return Draw(std::min<size_t>(max, 3) + 1);
      case 1: return Draw(std::min<size_t>(max, 16) + 1);
      case 2: return Draw(std::min<size_t>(max, 140) + 1);
      default: return Draw(max + 1);
    }
  }
  // Integer with emphasis on boundaries.
  int64_t NastyInt();
  uint64_t NastyUInt();
  // Byte string of up to max bytes, with various alphabets.
  std::string Bytes(size_t max);
  std::string BytesOfSize(size_t size, int style);
  double NastyDouble();

  // Structural span (RAII), for shrinking.
  class Span {
   public:
    explicit Span(Case& c) : c_(c), idx_(c.spans_.size()) {
      c.spans_.push_back({static_cast<uint32_t>(c.out_.size()), 0, c.depth_++});
      if (c.mirror != nullptr && idx_ < (1 << 19)) {
        c.mirror->spans[idx_] = c.spans_.back();
        c.mirror->n_spans = idx_ + 1;
      }
    }
    ~Span() {
      c_.spans_[idx_].end = c_.out_.size();
      if (c_.mirror != nullptr && idx_ < (1 << 19)) c_.mirror->spans[idx_].end = c_.out_.size();
      c_.depth_--;
    }
   private:
    Case& c_;
    size_t idx_;
  };

  // Tracing.
  bool tracing = false;
  void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  const std::string& trace() const { return trace_; }

  // Statistics.
  void NonTrivial(bool v = true) { if (v) nontrivial_ = true; }
  bool nontrivial() const { return nontrivial_; }
  void Tag(const char* name, int64_t n = 1) { tags_[name] += n; }
  const std::map<std::string, int64_t>& tags() const { return tags_; }
  uint64_t hash() const { return hash_; }
  // Number of evaluations in this case (crash points etc. may count more than one).
  void Evals(int64_t n) { evals_ += n; }
  int64_t evals() const { return evals_; }

  [[noreturn]] void Fail(const char* cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));

  const std::vector<uint64_t>& out() const { return out_; }
  const std::vector<SpanRec>& spans() const { return spans_; }

  // Scratch directory for this case: exists and is empty at the start.
  std::string dir;
  // "quick" or "thorough"
  bool thorough = false;
  Mirror* mirror = nullptr;

 private:
  friend class Span;
  bool replay_;
  uint64_t rng_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
  std::vector<SpanRec> spans_;
  uint32_t depth_ = 0;
  uint64_t hash_ = 0xcbf29ce484222325ULL;
  std::string trace_;
  bool nontrivial_ = false;
  int64_t evals_ = 0;
  std::map<std::string, int64_t> tags_;
};

typedef void (*SuiteFn)(Case&);

struct Suite {
  const char* name;
  SuiteFn fn;
  double case_limit;  // seconds before a case counts as hung
  bool nondet;        // true if the outcome depends on thread schedules
};

std::vector<Suite>& Suites();

struct Registrar {
  Registrar(const char* name, SuiteFn fn, double limit, bool nondet) {
    Suites().push_back({name, fn, limit, nondet});
  }
};

#define VT_SUITE_EX(name, limit, nondet) \
  static void vt_suite_##name(vt::Case& c); \
  static vt::Registrar vt_reg_##name(#name, vt_suite_##name, limit, nondet); \
  static void vt_suite_##name(vt::Case& c)
#define VT_SUITE(name) VT_SUITE_EX(name, 20.0, false)

// Removes everything below a scratch directory.
void EmptyDir(const std::string& dir);

int Main(int argc, char** argv);

}  // namespace vt

#define VT_CHECK(c, cls, cond, ...) do { if (!(cond)) (c).Fail(cls, __VA_ARGS__); } while (0)

#endif
