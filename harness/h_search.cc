// Searches of keys and lines, compared with naive scans: S09.
#include <numeric>

#include "dbm_model.h"
#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm_common_impl.h"

using namespace m;
using vt::Case;

namespace {

// ---------------------------------------------------------------- naive matchers

char Low(char ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }
std::string Low(std::string s) { for (char& ch : s) ch = Low(ch); return s; }
bool Word(char ch) {
  return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z');
}
bool HasAt(const std::string& t, const std::string& p, size_t i) {
  if (i + p.size() > t.size()) return false;
  for (size_t j = 0; j < p.size(); j++) if (t[i + j] != p[j]) return false;
  return true;
}
bool Contains(const std::string& t, const std::string& p) {
  for (size_t i = 0; i <= t.size(); i++) if (HasAt(t, p, i)) return true;
  return false;
}
bool ContainsWord(const std::string& t, const std::string& p) {
  if (p.empty()) return true;
  for (size_t i = 0; i + p.size() <= t.size(); i++) {
    if (!HasAt(t, p, i)) continue;
    const bool before = i == 0 || !Word(t[i - 1]) || !Word(p[0]);
    const bool after = i + p.size() == t.size() || !Word(t[i + p.size()]) || !Word(p.back());
    if (before && after) return true;
  }
  return false;
}
template <typename T> int Distance(const T& a, const T& b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++) {
    for (size_t j = 0; j <= b.size(); j++) {
      if (i == 0 || j == 0) { d[i][j] = i + j; continue; }
      d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])});
    }
  }
  return d[a.size()][b.size()];
}

// ---------------------------------------------------------------- regular expressions

enum Gram { ECMA, BASIC, EXT, EGREP, AWK };
struct Node {
  enum T { CHAR, ANY, CLASS, SEQ, ALT, REP, BEGIN, END } t = SEQ;
  unsigned char ch = 0;
  bool neg = false;
  std::vector<std::pair<unsigned char, unsigned char>> ranges;
  std::vector<Node> sub;
  int lo = 0, hi = -1;
  bool lazy = false;
};
const char kPlain[] = "abcABxy01 _-";

Node GenNode(Case& c, int depth, int gram, const std::string& hint) {
  Node n;
  const bool alt = gram != BASIC;
  switch (depth <= 0 ? c.Weighted({6, 1, 1}) : c.Weighted({4, 1, 2, 4, alt ? 2 : 0, 3, 1, 1})) {
    case 0:
      n.t = Node::CHAR;
      n.ch = !hint.empty() && c.Bool() ? hint[c.Draw(hint.size())] : kPlain[c.Draw(sizeof(kPlain) - 1)];
      if (!strchr(kPlain, n.ch) || n.ch == 0) n.ch = 'a';
      return n;
    case 1: n.t = Node::ANY; return n;
    case 2: {
      n.t = Node::CLASS;
      n.neg = c.Chance(1, 4);
      const int k = c.Range(1, 3);
      for (int i = 0; i < k; i++) {
        const char* const rs[] = {"ac", "xz", "AC", "09", "aa", "bb", "__"};
        const char* r = rs[c.Draw(7)];
        n.ranges.emplace_back(r[0], r[1]);
      }
      return n;
    }
    case 3: {
      n.t = Node::SEQ;
      const int k = c.Range(1, 3);
      for (int i = 0; i < k; i++) n.sub.push_back(GenNode(c, depth - 1, gram, hint));
      return n;
    }
    case 4: {
      n.t = Node::ALT;
      const int k = c.Range(2, 3);
      for (int i = 0; i < k; i++) n.sub.push_back(GenNode(c, depth - 1, gram, hint));
      return n;
    }
    case 5: {
      n.t = Node::REP;
      Node atom = GenNode(c, c.Chance(1, 3) && alt ? depth - 1 : 0, gram, hint);
      n.sub.push_back(atom);
      switch (alt ? c.Draw(5) : 0) {
        case 0: n.lo = 0; n.hi = -1; break;
        case 1: n.lo = 1; n.hi = -1; break;
        case 2: n.lo = 0; n.hi = 1; break;
        case 3: n.lo = c.Range(0, 2); n.hi = n.lo + c.Range(0, 2); if (n.hi == 0) n.hi = 1; break;
        case 4: n.lo = c.Range(1, 2); n.hi = n.lo; break;
      }
      // Not all of the grammars have intervals.
      if (gram == AWK && !(n.hi == -1 || (n.lo == 0 && n.hi == 1))) { n.lo = 0; n.hi = -1; }
      return n;
    }
    case 6: n.t = Node::BEGIN; return n;
    default: n.t = Node::END; return n;
  }
}
bool Atomic(const Node& n) { return n.t == Node::CHAR || n.t == Node::ANY || n.t == Node::CLASS; }
std::string Text(const Node& n, int gram) {
  std::string s;
  switch (n.t) {
    case Node::CHAR: return std::string(1, n.ch);
    case Node::ANY: return ".";
    case Node::CLASS:
      s = n.neg ? "[^" : "[";
      for (auto r : n.ranges) { s += r.first; if (r.second != r.first) { s += '-'; s += r.second; } }
      return s + "]";
    case Node::SEQ: for (const auto& x : n.sub) s += Text(x, gram); return s;
    case Node::ALT:
      for (const auto& x : n.sub) s += (s.empty() ? "" : "|") + Text(x, gram);
      return "(" + s + ")";  // a leading "(?" begins options
    case Node::REP:
      s = Text(n.sub[0], gram);
      if (!Atomic(n.sub[0])) s = "(" + s + ")";
      if (n.lo == 0 && n.hi == -1) s += "*";
      else if (n.lo == 1 && n.hi == -1) s += "+";
      else if (n.lo == 0 && n.hi == 1) s += "?";
      else if (n.lo == n.hi) s += vt::StrF("{%d}", n.lo);
      else s += vt::StrF("{%d,%d}", n.lo, n.hi);
      return s;
    case Node::BEGIN: return "^";
    default: return "$";
  }
}
// The positions behind a match which begins at any of the positions.
std::set<size_t> Match(const Node& n, const std::string& t, const std::set<size_t>& from, int gram, bool icase) {
  std::set<size_t> r;
  switch (n.t) {
    case Node::CHAR:
      for (size_t p : from)
        if (p < t.size() && (icase ? Low(t[p]) == Low((char)n.ch) : t[p] == (char)n.ch)) r.insert(p + 1);
      return r;
    case Node::ANY:
      for (size_t p : from) {
        if (p >= t.size()) continue;
        if (gram == ECMA ? (t[p] != '\n' && t[p] != '\r') : t[p] != 0) r.insert(p + 1);
      }
      return r;
    case Node::CLASS:
      for (size_t p : from) {
        if (p >= t.size()) continue;
        bool in = false;
        auto test = [&](unsigned char ch) { for (auto q : n.ranges) in |= ch >= q.first && ch <= q.second; };
        test(t[p]);
        if (icase) { test(Low(t[p])); if (t[p] >= 'a' && t[p] <= 'z') test(t[p] - 32); }
        if (in != n.neg) r.insert(p + 1);
      }
      return r;
    case Node::SEQ:
      r = from;
      for (const auto& x : n.sub) r = Match(x, t, r, gram, icase);
      return r;
    case Node::ALT:
      for (const auto& x : n.sub) { auto q = Match(x, t, from, gram, icase); r.insert(q.begin(), q.end()); }
      return r;
    case Node::REP: {
      std::set<size_t> cur = from;
      if (n.lo == 0) r = from;
      for (int i = 1; n.hi < 0 ? true : i <= n.hi; i++) {
        cur = Match(n.sub[0], t, cur, gram, icase);
        if (cur.empty()) break;
        const size_t before = r.size();
        if (i >= n.lo) r.insert(cur.begin(), cur.end());
        if (i > n.lo && r.size() == before && n.hi < 0) break;
        if (i > 2000) break;
      }
      return r;
    }
    case Node::BEGIN: if (from.count(0)) r.insert(0); return r;
    default: if (from.count(t.size())) r.insert(t.size()); return r;
  }
}
bool Nullable(const Node& n) {
  switch (n.t) {
    case Node::CHAR: case Node::ANY: case Node::CLASS: return false;
    case Node::SEQ: for (const auto& x : n.sub) if (!Nullable(x)) return false; return true;
    case Node::ALT: for (const auto& x : n.sub) if (Nullable(x)) return true; return false;
    case Node::REP: return n.lo == 0 || Nullable(n.sub[0]);
    default: return true;
  }
}
// Anchors inside and repetitions of what may be empty are where the grammars and implementations differ.
bool Plain(const Node& n) {
  if (n.t == Node::REP && (Nullable(n.sub[0]))) return false;
  if (n.t == Node::BEGIN || n.t == Node::END) return false;
  for (const auto& x : n.sub) if (!Plain(x)) return false;
  return true;
}

// ---------------------------------------------------------------- what to search for

const char* const kModes[] = {"contain", "begin", "end", "regex", "edit", "editbin", "containcase", "containword", "containcaseword",
                              "contain*", "containcase*", "containword*", "containcaseword*", "upper", "upperinc", "lower", "lowerinc"};

std::string GenText(Case& c, bool lines) {
  static const std::vector<std::string> parts = {"a", "b", "A", "B", "x", "0", "1", "_", " ", "-", ".", "ab", "Ab", "abc", "\xc3\xa9",
    "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xff", "\xe6\x97", "\t", "word", "WORD", "Word"};
  std::string s;
  const int style = c.Draw(3);
  for (int i = 0; c.More(i, style == 2 ? 12 : 4, 40); i++) {
    if (c.Chance(1, 40)) s += lines ? std::string("\r") : std::string(1, c.Bool() ? '\n' : '\0');
    else s += style == 0 ? parts[c.Draw(11)] : parts[c.Draw(parts.size())];
  }
  if (c.Chance(1, 60)) s += std::string(c.Range(100, 700), 'z') + (c.Bool() ? "ab" : "AB");
  return s;
}

std::string Derive(Case& c, const std::vector<std::string>& texts) {
  if (texts.empty() || c.Chance(1, 6)) return GenText(c, false);
  std::string s = c.Pick(texts);
  switch (c.Draw(7)) {
    case 0: break;
    case 1: s = s.substr(0, c.Draw(s.size() + 1)); break;
    case 2: s = s.substr(c.Draw(s.size() + 1)); break;
    case 3: { const size_t p = c.Draw(s.size() + 1); s = s.substr(p, c.Draw(s.size() - p + 1)); break; }
    case 4: for (char& ch : s) if (c.Chance(1, 2)) ch = Low(ch); else if (ch >= 'a' && ch <= 'z') ch -= 32; break;
    case 5: if (!s.empty()) s.erase(c.Draw(s.size()), 1); break;
    case 6: s.insert(c.Draw(s.size() + 1), "a"); break;
  }
  return s;
}

struct Query {
  std::string mode, pattern;
  size_t capacity = 0;
  // Whether a text matches; without it by distance.
  std::function<bool(const std::string&)> match;
  std::function<int(const std::string&)> dist;
  bool order = false, upper = false, inc = false;
  bool invalid = false;
};

Query GenQuery(Case& c, const std::vector<std::string>& texts, bool order) {
  Query q;
  q.mode = kModes[c.Draw(order ? 17 : 13)];
  q.capacity = c.Chance(1, 2) ? 0 : c.PickOf<size_t>({1, 2, 3, 5, 1000});
  q.pattern = Derive(c, texts);
  const std::string p = q.pattern, lp = Low(p);
  const std::string m = q.mode;
  if (c.Chance(1, 60)) {
    q.mode = c.PickOf<std::string>({"", "contains", "Begin", "upper ", "regex*"});
    q.invalid = true;
    return q;
  }
  if (m == "contain") q.match = [p](const std::string& t) { return Contains(t, p); };
  if (m == "begin") q.match = [p](const std::string& t) { return HasAt(t, p, 0); };
  if (m == "end") q.match = [p](const std::string& t) { return t.size() >= p.size() && HasAt(t, p, t.size() - p.size()); };
  if (m == "containcase") q.match = [lp](const std::string& t) { return Contains(Low(t), lp); };
  if (m == "containword") q.match = [p](const std::string& t) { return ContainsWord(t, p); };
  if (m == "containcaseword") q.match = [lp](const std::string& t) { return ContainsWord(Low(t), lp); };
  if (m.back() == '*') {
    std::vector<std::string> ps;
    q.pattern.clear();
    for (int i = 0, n = c.Range(0, 3); i < n; i++) {
      std::string s = Derive(c, texts);
      for (char& ch : s) if (ch == '\n') ch = 'n';
      q.pattern += (i ? "\n" : "") + s;
      if (c.Chance(1, 6)) q.pattern += "\n";
      if (!s.empty()) ps.push_back(s);
    }
    const bool word = m.find("word") != m.npos, nocase = m.find("case") != m.npos;
    q.match = [ps, word, nocase](const std::string& t) {
      for (const auto& x : ps) {
        const std::string a = nocase ? Low(t) : t, b = nocase ? Low(x) : x;
        if (word ? ContainsWord(a, b) : Contains(a, b)) return true;
      }
      return false;
    };
  }
  if (m == "edit") {
    const auto pu = ConvertUTF8ToUCS4(p);
    q.dist = [pu](const std::string& t) { return Distance(pu, ConvertUTF8ToUCS4(t)); };
  }
  if (m == "editbin") q.dist = [p](const std::string& t) { return Distance(p, t); };
  if (m == "regex") {
    const int gram = c.Weighted({6, 1, 1, 1, 1});
    const bool icase = c.Chance(1, 4);
    Node body;
    for (int i = 0; i < 20; i++) {
      body = GenNode(c, c.Range(1, 3), gram, p);
      if (Plain(body)) break;
      body = Node();
    }
    const bool begin = c.Chance(1, 5), end = c.Chance(1, 5);
    std::string text = Text(body, gram);
    if (begin) text = "^" + text;
    if (end) text += "$";
    const char* const names[] = {"", "b", "e", "l", "a"};
    std::string opts = names[gram];
    if (icase) opts = c.Bool() ? opts + "i" : "i" + opts;
    if (!opts.empty() || c.Chance(1, 10)) text = "(?" + opts + ")" + text;
    q.pattern = text;
    const Node node = body;
    q.match = [node, begin, end, gram, icase](const std::string& t) {
      std::set<size_t> from;
      for (size_t i = 0; i <= (begin ? 0 : t.size()); i++) from.insert(i);
      const auto r = Match(node, t, from, gram, icase);
      return end ? r.count(t.size()) > 0 : !r.empty();
    };
    if (c.Chance(1, 20)) {
      q.pattern = c.PickOf<std::string>({"(?i", "(?z)a", "(a", "[a", "(?", "a{", "*"});
      q.invalid = true;
      if (q.pattern == "a{" || q.pattern == "*") q.pattern = "(?i)(";
    }
  }
  if (m == "upper" || m == "upperinc" || m == "lower" || m == "lowerinc") {
    q.order = true;
    q.upper = m[0] == 'u';
    q.inc = m.size() > 5;
  }
  return q;
}

std::string List(const std::vector<std::string>& v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; i++) s += " " + vt::Esc(v[i].substr(0, 40));
  return vt::StrF("%zu:", v.size()) + s;
}

// The naive result over texts in the order of the scan.
std::vector<std::string> Naive(const Query& q, const std::vector<std::string>& texts) {
  std::vector<std::string> r;
  const size_t cap = q.capacity == 0 ? SIZE_MAX : q.capacity;
  if (q.dist) {
    std::vector<std::pair<int, std::string>> v;
    for (const auto& t : texts) v.emplace_back(q.dist(t), t);
    std::sort(v.begin(), v.end());
    for (const auto& e : v) if (r.size() < cap) r.push_back(e.second);
  } else {
    for (const auto& t : texts) if (r.size() < cap && q.match(t)) r.push_back(t);
  }
  return r;
}

}  // namespace

VT_SUITE(search_dbm) {
  Spec s;
  s.kind = c.PickOf<int>({HASH, TREE, TINY, BABY, STDHASH, STDTREE, SKIP, CACHE});
  const int how = c.Draw(5);
  if (how == 3) s.poly = true;
  if (how == 4 && s.kind != SKIP) s.shards = c.Range(1, 4);
  GenTuning(c, &s);
  if (s.comp == LEXCASE || s.comp == DECIMAL || s.comp == HEX || s.comp == REAL || s.comp == SIGNEDBE || s.comp == FLOATBE) {
    s.comp = LEX;
    s.tp.key_comparator = nullptr;
  }
  if (s.comp == CUSTOM && c.Bool()) { s.comp = LEX; s.tp.key_comparator = nullptr; }
  c.Log("spec: %s", s.Str().c_str());
  auto db = MakeDbm(s);
  VT_CHECK(c, "search-open", OpenDbm(s, db.get(), c.dir + "/db." + s.Ext(), true, File::OPEN_DEFAULT) == Status::SUCCESS, "open");
  std::vector<std::string> texts;
  std::set<std::string> keys;
  for (int i = 0; c.More(i, c.thorough ? 60 : 25, 400); i++) {
    const std::string k = !texts.empty() && c.Chance(1, 4) ? Derive(c, texts) : GenText(c, false);
    texts.push_back(k);
    if (!keys.insert(k).second && s.kind == SKIP) continue;  // it keeps both
    VT_CHECK(c, "search-set", db->Set(k, c.Bytes(5)) == Status::SUCCESS, "set");
  }
  if (s.kind == SKIP) VT_CHECK(c, "search-sync", db->Synchronize(false) == Status::SUCCESS, "synchronize");
  // The order of the scan.
  struct Scan : public DBM::RecordProcessor {
    std::vector<std::string> keys;
    std::string_view ProcessFull(std::string_view k, std::string_view) override { keys.emplace_back(k); return NOOP; }
  } scan;
  VT_CHECK(c, "search-scan", db->ProcessEach(&scan, false) == Status::SUCCESS, "scan");
  if (s.kind != CACHE) {
    VT_CHECK(c, "search-scan", std::set<std::string>(scan.keys.begin(), scan.keys.end()) == keys && scan.keys.size() == keys.size(),
             "the scan has %zu keys of %zu", scan.keys.size(), keys.size());
  } else {
    keys = std::set<std::string>(scan.keys.begin(), scan.keys.end());
  }
  std::vector<std::string> sorted(keys.begin(), keys.end());
  const KeyLess less{Comparator(s.comp)};
  std::sort(sorted.begin(), sorted.end(), less);
  if (s.ordered() && s.shards == 0)
    VT_CHECK(c, "search-scan", scan.keys == sorted, "the scan of an ordered database is not in order: %s", List(scan.keys).c_str());
  int nontrivial = 0;
  for (int i = 0; c.More(i, c.thorough ? 20 : 10, 100); i++) {
    const Query q = GenQuery(c, texts, true);
    c.Log("%s %s cap=%zu", q.mode.c_str(), vt::Esc(q.pattern).c_str(), q.capacity);
    std::vector<std::string> got;
    if (c.Bool()) got.push_back("stale");
    Status st;
    // The functions behind the modes too.
    const int direct = c.Draw(3);
    if (direct == 0 && !q.invalid && q.mode == "begin") st = SearchDBMForwardMatch(db.get(), q.pattern, &got, q.capacity);
    else if (direct == 0 && !q.invalid && q.match && q.mode != "regex") st = SearchDBMLambda(db.get(), [&q](std::string_view t) { return q.match(std::string(t)); }, &got, q.capacity);
    else st = SearchDBMModal(db.get(), q.mode, q.pattern, &got, q.capacity);
    if (q.invalid) {
      VT_CHECK(c, "search-invalid", st == Status::INVALID_ARGUMENT_ERROR, "mode %s, pattern %s: %s", q.mode.c_str(),
               vt::Esc(q.pattern).c_str(), ToString(st).c_str());
      continue;
    }
    if (q.order && !s.ordered()) {
      VT_CHECK(c, "search-order-unordered", st != Status::SUCCESS, "%s on an unordered database: %s", q.mode.c_str(), List(got).c_str());
      continue;
    }
    VT_CHECK(c, "search-status", st == Status::SUCCESS, "%s %s: %s", q.mode.c_str(), vt::Esc(q.pattern).c_str(), ToString(st).c_str());
    std::vector<std::string> want;
    if (q.order) {
      const size_t cap = q.capacity == 0 ? SIZE_MAX : q.capacity;
      std::vector<std::string> v = sorted;
      if (!q.upper) std::reverse(v.begin(), v.end());
      for (const auto& k : v) {
        const bool beyond = q.upper ? less(q.pattern, k) : less(k, q.pattern);
        if ((beyond || (q.inc && k == q.pattern)) && want.size() < cap) want.push_back(k);
      }
    } else {
      want = Naive(q, q.mode == "begin" && s.ordered() && direct != 0 ? sorted : q.mode == "begin" && s.ordered() ? sorted : scan.keys);
    }
    if (q.mode == "begin" && s.ordered() && s.comp != LEX) {
      // Not all are extracted with other comparators.
      Query all = q;
      all.capacity = 0;
      const auto v = Naive(all, sorted);
      for (const auto& k : got)
        VT_CHECK(c, "search-begin", std::find(v.begin(), v.end(), k) != v.end(), "begin %s gives %s", vt::Esc(q.pattern).c_str(), vt::Esc(k).c_str());
      VT_CHECK(c, "search-begin", q.capacity == 0 || got.size() <= q.capacity, "more than the capacity");
    } else {
      VT_CHECK(c, (std::string("search-") + q.mode).c_str(), got == want, "%s %s, capacity %zu, of %zu keys: %s, want %s", q.mode.c_str(),
               vt::Esc(q.pattern).c_str(), q.capacity, keys.size(), List(got).c_str(), List(want).c_str());
    }
    if (!want.empty() && want.size() < keys.size()) nontrivial++;
    c.Tag(q.mode.c_str());
    c.Evals(1);
  }
  db->Close();
  c.NonTrivial(nontrivial >= 1);
  c.Tag(KindName(s.kind));
}

VT_SUITE(search_text) {
  std::vector<std::string> lines;
  std::string text;
  for (int i = 0; c.More(i, c.thorough ? 60 : 25, 400); i++) {
    std::string l = !lines.empty() && c.Chance(1, 4) ? Derive(c, lines) : GenText(c, true);
    for (char& ch : l) if (ch == '\n') ch = 'n';
    if (c.Chance(1, 15)) l.clear();
    lines.push_back(l);
    text += l + "\n";
  }
  if (!text.empty() && c.Chance(1, 3)) {
    // A last line without its end is a line unless it is empty.
    text.pop_back();
    if (lines.back().empty()) lines.pop_back();
  }
  Spec s;
  s.kind = TINY;
  s = Spec(); s.kind = TINY; GenFile(c, &s);
  auto file = MakeFile(s);
  const std::string path = c.dir + "/text";
  VT_CHECK(c, "search-file", WriteFile(path, text) == Status::SUCCESS && file->Open(path, false) == Status::SUCCESS, "file");
  int nontrivial = 0;
  for (int i = 0; c.More(i, c.thorough ? 20 : 10, 100); i++) {
    const Query q = GenQuery(c, lines, false);
    c.Log("%s %s cap=%zu", q.mode.c_str(), vt::Esc(q.pattern).c_str(), q.capacity);
    std::vector<std::string> got;
    if (c.Bool()) got.push_back("stale");
    const Status st = SearchTextFileModal(file.get(), q.mode, q.pattern, &got, q.capacity);
    if (q.invalid) {
      VT_CHECK(c, "search-invalid", st == Status::INVALID_ARGUMENT_ERROR, "mode %s, pattern %s: %s", q.mode.c_str(),
               vt::Esc(q.pattern).c_str(), ToString(st).c_str());
      continue;
    }
    VT_CHECK(c, "search-status", st == Status::SUCCESS, "%s %s: %s", q.mode.c_str(), vt::Esc(q.pattern).c_str(), ToString(st).c_str());
    const auto want = Naive(q, lines);
    VT_CHECK(c, (std::string("search-text-") + q.mode).c_str(), got == want, "%s %s, capacity %zu, of %zu lines: %s, want %s", q.mode.c_str(),
             vt::Esc(q.pattern).c_str(), q.capacity, lines.size(), List(got).c_str(), List(want).c_str());
    if (!want.empty() && want.size() < lines.size()) nontrivial++;
    c.Tag(q.mode.c_str());
    c.Evals(1);
  }
  file->Close();
  c.NonTrivial(nontrivial >= 1);
}
