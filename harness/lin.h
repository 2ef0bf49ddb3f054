// Concurrent histories and their linearizability: recorded invocations and responses, and a search for
// a sequential order which explains them (Wing and Gong, with memory of the visited states).
#ifndef LIN_H
#define LIN_H

#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace lin {

typedef std::map<std::string, std::string> State;

struct Op {
  int thread = 0;
  uint64_t inv = 0, res = 0;
  std::vector<std::string> keys;  // empty for all keys
  std::string desc;               // with the result
  // Whether the recorded result is possible in the state, which is updated.
  std::function<bool(State*)> apply;
};

enum Result { YES, NO, UNKNOWN };

inline std::string Serialize(const State& s, const std::vector<size_t>& pos) {
  std::string k;
  for (size_t p : pos) { k.append(reinterpret_cast<const char*>(&p), 2); }
  for (const auto& r : s) {
    uint32_t n = r.first.size(), m = r.second.size();
    k.append(reinterpret_cast<const char*>(&n), 4);
    k.append(r.first);
    k.append(reinterpret_cast<const char*>(&m), 4);
    k.append(r.second);
  }
  return k;
}

// Ops of one component: those of each thread in order.
class Search {
 public:
  Search(std::vector<std::vector<const Op*>> threads, const std::function<bool(const State&)>& accept,
         size_t limit)
      : threads_(std::move(threads)), accept_(accept), limit_(limit) {}
  Result Run(const State& init) {
    std::vector<size_t> pos(threads_.size(), 0);
    const bool ok = Dfs(init, pos, 0);
    if (ok) return YES;
    return visited_.size() >= limit_ ? UNKNOWN : NO;
  }
  // The longest explained prefix, for messages.
  const std::vector<size_t>& best() const { return best_; }
  size_t visited() const { return visited_.size(); }

 private:
  bool Dfs(const State& s, std::vector<size_t>& pos, size_t done) {
    if (done >= best_done_ || best_.empty()) { best_done_ = done; best_ = pos; }
    uint64_t min_res = UINT64_MAX;
    bool rest = false;
    for (size_t t = 0; t < threads_.size(); t++) {
      if (pos[t] < threads_[t].size()) {
        rest = true;
        min_res = std::min(min_res, threads_[t][pos[t]]->res);
      }
    }
    if (!rest) return accept_(s);
    if (visited_.size() >= limit_) return false;
    if (!visited_.insert(Serialize(s, pos)).second) return false;
    for (size_t t = 0; t < threads_.size(); t++) {
      if (pos[t] >= threads_[t].size()) continue;
      const Op* op = threads_[t][pos[t]];
      if (op->inv > min_res) continue;
      State next = s;
      if (!op->apply(&next)) continue;
      pos[t]++;
      const bool ok = Dfs(next, pos, done + 1);
      pos[t]--;
      if (ok) return true;
    }
    return false;
  }
  std::vector<std::vector<const Op*>> threads_;
  std::function<bool(const State&)> accept_;
  size_t limit_;
  std::unordered_set<std::string> visited_;
  std::vector<size_t> best_;
  size_t best_done_ = 0;
};

}  // namespace lin

#endif
