// String utilities against straightforward definitions (S01).
#include <algorithm>
#include <climits>
#include <cmath>
#include <memory>
#include <set>

#include "vt.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_str_util.h"

using namespace tkrzw;
using vt::Case;

namespace {

// A view on memory of exactly its size, so that over-reads are visible.
struct Exact {
  std::unique_ptr<char[]> buf;
  size_t size;
  explicit Exact(const std::string& s) : buf(new char[s.size()]), size(s.size()) {
    if (size) std::memcpy(buf.get(), s.data(), size);
  }
  operator std::string_view() const { return std::string_view(buf.get(), size); }
};

// Letters for which the functions have cases.
std::string Text(Case& c, size_t max) {
  static const std::vector<std::string> alphabets = {
      "ab", "aAbB", "ab ,\t", std::string("a\0b", 3), "a\xff\x80 b", "abAB01_- .", "\r\n ax\\%+=",
      std::string("\0\x01\x1f ~\x7f\x80\xff""07xn\\", 13)};
  if (c.Chance(1, 6)) return c.Bytes(max);
  const std::string& a = c.Pick(alphabets);
  std::string s;
  const size_t n = c.Size(max);
  for (size_t i = 0; i < n; i++) s += a[c.Draw(a.size())];
  return s;
}
char Low(char x) { return x >= 'A' && x <= 'Z' ? x + 32 : x; }
char Up(char x) { return x >= 'a' && x <= 'z' ? x - 32 : x; }
std::string Low(std::string s) { for (auto& x : s) x = Low(x); return s; }
std::string Up(std::string s) { for (auto& x : s) x = Up(x); return s; }
bool Alnum(char x) {
  return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z');
}
std::vector<int32_t> RefFindAll(const std::string& t, const std::string& p) {
  std::vector<int32_t> r;
  for (size_t i = 0; i + p.size() <= t.size(); i++)
    if (t.compare(i, p.size(), p) == 0) r.push_back(i);
  return r;
}
std::vector<int32_t> RefFindWords(const std::string& t, const std::string& p) {
  std::vector<int32_t> r;
  for (int32_t i : RefFindAll(t, p)) {
    const size_t e = i + p.size();
    if (!p.empty()) {
      if (i > 0 && Alnum(t[i - 1]) && Alnum(t[i])) continue;
      if (e < t.size() && Alnum(t[e]) && Alnum(t[e - 1])) continue;
    }
    r.push_back(i);
  }
  return r;
}
int32_t First(const std::vector<int32_t>& v) { return v.empty() ? -1 : v[0]; }
std::string Show(const std::vector<int32_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 20; i++) s += vt::StrF("%d ", v[i]);
  return s + "]";
}

#define EQ(c, what, got, want) \
  VT_CHECK(c, what, (got) == (want), "%s: got \"%s\", expected \"%s\"", what, \
           vt::Esc(ToStr(got)).c_str(), vt::Esc(ToStr(want)).c_str())
std::string ToStr(const std::string& s) { return s; }
std::string ToStr(std::string_view s) { return std::string(s); }
std::string ToStr(bool v) { return v ? "true" : "false"; }
std::string ToStr(int32_t v) { return std::to_string(v); }
std::string ToStr(int64_t v) { return std::to_string(v); }
std::string ToStr(uint64_t v) { return std::to_string(v); }
std::string ToStr(double v) { return vt::StrF("%.17g", v); }
std::string ToStr(const std::vector<std::string>& v) {
  std::string s;
  for (const auto& x : v) s += "<" + x + ">";
  return s;
}
std::string ToStr(const std::vector<int32_t>& v) { return Show(v); }

std::vector<std::string> RefSplit(const std::string& s, const std::string& d, bool any, bool skip) {
  std::vector<std::string> r;
  std::string cur;
  size_t i = 0;
  auto flush = [&] { if (!skip || !cur.empty()) r.push_back(cur); cur.clear(); };
  while (i < s.size()) {
    if (any ? d.find(s[i]) != std::string::npos : s.compare(i, d.size(), d) == 0) {
      flush();
      i += any ? 1 : d.size();
    } else {
      cur += s[i++];
    }
  }
  flush();
  return r;
}

}  // namespace

VT_SUITE(str_number) {
  const int kind = c.Draw(9);
  if (kind == 0) {
    const int64_t n = c.NastyInt();
    c.Log("decimal %lld", (long long)n);
    c.NonTrivial(n > 9 || n < -9);
    const std::string text = std::to_string(n);
    EQ(c, "ToString", ToString(n), text);
    if (n != INT64MIN) {
      static const std::vector<std::string> ws = {"", " ", "\t ", "\n"};
      std::string s = c.Pick(ws) + (n >= 0 && c.Bool() ? "+" : "") + text;
      if (c.Bool()) s += c.PickOf<const char*>({"", " ", "x", ".5", ",1", "-"});
      EQ(c, "StrToInt", StrToInt(Exact(s), 77), n);
      if (n > INT64MIN / 2) {
        EQ(c, "StrToIntOrBool", StrToIntOrBool(Exact(text), 77), n);
      }
    }
    EQ(c, "StrToInt without digits", StrToInt(Exact(c.PickOf<const char*>({"", "-", " ", "x1", "+ "})), n), n);
  } else if (kind == 1) {
    const uint64_t n = c.NastyUInt();
    c.NonTrivial(n > 9);
    c.Log("hexadecimal, octal %llu", (unsigned long long)n);
    std::string hex = vt::StrF(c.Bool() ? "%llx" : "%llX", (unsigned long long)n);
    if (c.Bool()) hex = (c.Bool() ? "0x" : "0X") + hex;
    EQ(c, "StrToIntHex", StrToIntHex(Exact(hex + c.PickOf<const char*>({"", "g", " 1"})), 5), n);
    EQ(c, "StrToIntOct", StrToIntOct(Exact(vt::StrF("%llo", (unsigned long long)n) +
                                           c.PickOf<const char*>({"", "8", " 1"})), 5), n);
    EQ(c, "ToString unsigned", ToString(n), std::to_string(n));
    EQ(c, "StrToIntHex without digits", StrToIntHex(Exact(c.PickOf<const char*>({"", "x", "g"})), n), n);
    EQ(c, "StrToIntOct without digits", StrToIntOct(Exact(c.PickOf<const char*>({"", "x", "9"})), n), n);
  } else if (kind == 2) {
    // Metric suffixes on small numbers, where the result is exact.
    const int64_t n = c.Range(-999, 999);
    const int s = c.Draw(7);
    const bool bin = c.Bool();
    const bool half = c.Bool();
    static const char* suf[] = {"", "k", "m", "g", "t", "p", "e"};
    int64_t unit = 1;
    for (int i = 0; i < s; i++) unit *= bin ? 1024 : 1000;
    std::string text = std::to_string(n) + (half ? ".5" : "") + (c.Bool() ? " " : "");
    std::string suffix = std::string(suf[s]) + (bin && s > 0 ? "i" : "") + (c.Bool() ? "b" : "");
    text += c.Bool() ? Up(suffix) : suffix;
    long double want = (long double)(n < 0 || n == 0 ? -n : n) + (half ? 0.5L : 0);
    if (n < 0) want = -want;
    want *= unit;
    int64_t w = want >= 9223372036854775807.0L ? INT64MAX : want <= -9223372036854775808.0L ? INT64MIN
                                                                                           : (int64_t)want;
    c.Log("metric %s", text.c_str());
    c.NonTrivial(s > 0);
    EQ(c, "StrToIntMetric", StrToIntMetric(Exact(text), 77), w);
  } else if (kind == 3) {
    const double d = c.Chance(1, 3) ? (double)c.NastyInt() / (1 << c.Draw(20)) : c.NastyDouble();
    if (std::isnan(d) || std::isinf(d)) {
      EQ(c, "StrToDouble nan", (bool)std::isnan(StrToDouble(Exact(c.PickOf<const char*>({"nan", "NaN", "-NAN"})))), true);
      EQ(c, "StrToDouble inf", StrToDouble(Exact("inf")), HUGE_VAL);
      EQ(c, "StrToDouble -inf", StrToDouble(Exact(c.PickOf<const char*>({"-inf", " -INF"}))), -HUGE_VAL);
    } else {
      std::string s = vt::StrF(c.Bool() ? "%.17g" : "%.15f", d);
      const double want = strtod(s.c_str(), nullptr);
      c.Log("double %s", s.c_str());
      c.NonTrivial(s.size() > 3);
      const double got = StrToDouble(Exact(s), 77);
      // Sixteen significant columns are kept.
      VT_CHECK(c, "StrToDouble", std::fabs(got - want) <= 1e-14 * std::max(1.0, std::fabs(want)) * 4 ||
               got == want, "StrToDouble(%s) = %.17g, expected %.17g", s.c_str(), got, want);
      if (std::fabs(d) < 1e15) {
        const double back = StrToDouble(ToString(d));
        VT_CHECK(c, "ToString(double)", std::fabs(back - d) <= 0.6e-6 + std::fabs(d) * 1e-15,
                 "ToString(%.17g) = %s", d, ToString(d).c_str());
        const std::string t = ToString(d);
        VT_CHECK(c, "ToString(double) form", t.find('.') == std::string::npos ||
                 (t.back() != '0' && t.back() != '.'), "ToString(%.17g) = %s", d, t.c_str());
      }
    }
    EQ(c, "StrToDouble without digits", StrToDouble(Exact(c.PickOf<const char*>({"", "x", "-", "i", "in", "na"})), 3.5), 3.5);
  } else if (kind == 4) {
    const uint64_t n = c.NastyUInt();
    const size_t w = c.Draw(9);
    c.Log("big endian %llu in %zu bytes", (unsigned long long)n, w);
    c.NonTrivial(w > 1);
    const uint64_t want = w >= 8 ? n : n & ((1ULL << (w * 8)) - 1);
    const std::string s = IntToStrBigEndian(n, w);
    std::string ref;
    for (size_t i = 0; i < w; i++) ref += (char)(n >> ((w - 1 - i) * 8));
    EQ(c, "IntToStrBigEndian", s, ref);
    EQ(c, "StrToIntBigEndian", StrToIntBigEndian(Exact(s)), want);
    EQ(c, "StrToIntBigEndian of a long string", StrToIntBigEndian(Exact(IntToStrBigEndian(n) + "xyz")), n);
    for (bool zz : {false, true}) {
      EQ(c, "StrToIntDelta", StrToIntDelta(Exact(IntToStrDelta(n, zz)), zz), n);
    }
    const int64_t small = c.Range(-64, 63);
    EQ(c, "IntToStrDelta zigzag size", IntToStrDelta(small, true).size(), size_t(1));
  } else if (kind == 5) {
    const double d = c.NastyDouble();
    c.NonTrivial();
    c.Log("float %.17g", d);
    double b8 = StrToFloatBigEndian(Exact(FloatToStrBigEndian(d)));
    VT_CHECK(c, "float64", std::memcmp(&b8, &d, 8) == 0 || (std::isnan(b8) && std::isnan(d)),
             "%.17g became %.17g", d, b8);
    const float f = (float)d;
    float b4 = StrToFloatBigEndian(Exact(FloatToStrBigEndian(f, 4)));
    VT_CHECK(c, "float32", b4 == f || (std::isnan(b4) && std::isnan(f)), "%.9g became %.9g", f, b4);
    const long double ld = (long double)d * 3.0000000001L;
    long double b16 = StrToFloatBigEndian(Exact(FloatToStrBigEndian(ld, 16)));
    VT_CHECK(c, "float128", b16 == ld || (std::isnan(b16) && std::isnan(ld)), "%.20Lg became %.20Lg", ld, b16);
    uint64_t bits;
    std::memcpy(&bits, &d, 8);
    if (!std::isnan(d)) EQ(c, "FloatToStrBigEndian", FloatToStrBigEndian(d), IntToStrBigEndian(bits));
    for (size_t n : {0, 1, 3}) {
      EQ(c, "StrToFloatBigEndian short", (bool)std::isnan(StrToFloatBigEndian(Exact(std::string(n, 'x')))), true);
    }
  } else if (kind == 6) {
    // SPrintF against snprintf.
    const int64_t n = c.NastyInt();
    const double d = c.NastyDouble();
    const std::string s = c.BytesOfSize(c.Size(300), 0);
    const std::string z(s.c_str());
    const int w = c.Draw(25);
    c.Log("SPrintF %lld %.17g %zu %d", (long long)n, d, z.size(), w);
    c.NonTrivial();
    EQ(c, "SPrintF integers", SPrintF("%lld|%20lld|%08d|%x|%X|%o|%u|%c|%%|%ld", (long long)n, (long long)n, (int)n,
                                      (unsigned)n, (unsigned)n, (unsigned)n, (unsigned)n, 'x', (long)n),
       vt::StrF("%lld|%20lld|%08d|%x|%X|%o|%u|%c|%%|%ld", (long long)n, (long long)n, (int)n,
                (unsigned)n, (unsigned)n, (unsigned)n, (unsigned)n, 'x', (long)n));
    EQ(c, "SPrintF reals", SPrintF("%.3e|%g|%10.2g", d, d, d), vt::StrF("%.3e|%g|%10.2g", d, d, d));
    const std::string f = vt::StrF("%%%ds|%%-%ds|%%s", w, w);
    EQ(c, "SPrintF strings", SPrintF(f.c_str(), z.c_str(), z.c_str(), z.c_str()),
       vt::StrF(f.c_str(), z.c_str(), z.c_str(), z.c_str()));
  } else if (kind == 7) {
    static const std::vector<std::string> words = {"true", "t", "yes", "y", "1", "false", "f", "no", "n", "0", "", "2",
                                                   "tr", "truex", "on", "-1"};
    const size_t i = c.Draw(words.size());
    std::string s = words[i];
    if (c.Bool()) s = Up(s);
    if (c.Bool()) s = " " + s + "\n";
    const bool d = c.Bool();
    c.Log("bool %s", s.c_str());
    c.NonTrivial();
    EQ(c, "StrToBool", StrToBool(Exact(s), d), i < 5 ? true : i < 10 ? false : d);
    EQ(c, "StrToIntOrBool", StrToIntOrBool(Exact(s), 9),
       (int64_t)(i < 5 ? 1 : i < 10 ? 0 : i == 11 ? 2 : i == 15 ? -1 : 9));
    EQ(c, "ToString(bool)", ToString(d), std::string(d ? "true" : "false"));
  } else {
    // Vectors of basic types.
    c.NonTrivial();
    auto one = [&](auto proto, const char* name) {
      using T = decltype(proto);
      std::vector<T> v;
      for (int i = 0; c.More(i, 5, 40); i++) v.push_back(static_cast<T>(c.NastyInt()));
      c.Log("vector of %zu %s", v.size(), name);
      for (const T x : v) {
        VT_CHECK(c, "basic-value", DeserializeBasicValue<T>(Exact(SerializeBasicValue(x))) == x, "%s: %s", name,
                 std::to_string(x).c_str());
      }
      VT_CHECK(c, "basic-vector", DeserializeBasicVector<T>(Exact(SerializeBasicVector(v))) == v, "%s", name);
      return v;
    };
    auto delta = [&](auto proto, const char* name) {
      using T = decltype(proto);
      const auto v = one(proto, name);
      for (bool zz : {false, true}) {
        if (!zz && std::is_signed<T>::value) {
          bool neg = false;
          for (T x : v) neg |= x < 0;
          if (neg) continue;
        }
        const auto got = DeserializeIntVectorDelta<T>(Exact(SerializeIntVectorDelta(v, zz)), zz);
        for (size_t i = 0; i < std::max(v.size(), got.size()); i++) {
          VT_CHECK(c, "delta-vector", i < v.size() && i < got.size() && got[i] == v[i],
                   "%s zigzag=%d element %zu: %s became %s", name, zz, i,
                   i < v.size() ? std::to_string(v[i]).c_str() : "-",
                   i < got.size() ? std::to_string(got[i]).c_str() : "-");
        }
      }
    };
    switch (c.Draw(10)) {
      case 0: delta(int64_t(), "int64"); break;
      case 1: delta(int32_t(), "int32"); break;
      case 2: delta(int16_t(), "int16"); break;
      case 3: delta(int8_t(), "int8"); break;
      case 4: delta(uint64_t(), "uint64"); break;
      case 5: delta(uint32_t(), "uint32"); break;
      case 6: delta(uint16_t(), "uint16"); break;
      case 7: delta(uint8_t(), "uint8"); break;
      case 8: one(double(), "double"); break;
      case 9: one(float(), "float"); break;
    }
  }
}

VT_SUITE(str_text) {
  const std::string s = Text(c, 600);
  const Exact x(s);
  c.Log("text (%zu) %s", s.size(), vt::Esc(s, 300).c_str());
  c.NonTrivial(s.size() >= 2);
  switch (c.Draw(6)) {
    case 0: {
      EQ(c, "StrLowerCase", StrLowerCase(x), Low(s));
      EQ(c, "StrUpperCase", StrUpperCase(x), Up(s));
      std::string t = s;
      StrLowerCase(&t);
      EQ(c, "StrLowerCase in place", t, Low(s));
      t = s;
      StrUpperCase(&t);
      EQ(c, "StrUpperCase in place", t, Up(s));
      std::string o = c.Bool() ? Text(c, 600) : s;
      if (c.Bool() && !o.empty()) o[c.Draw(o.size())] ^= 1 << c.Draw(8);
      if (c.Bool()) o = o.substr(0, c.Draw(o.size() + 1));
      const std::string a = Low(s), b = Low(o);
      auto sign = [](int32_t v) { return v < 0 ? -1 : v > 0; };
      int32_t want = sign(a.compare(b));
      EQ(c, "StrCaseCompare", sign(StrCaseCompare(x, Exact(o))), want);
      EQ(c, "StrCaseCompare swapped", sign(StrCaseCompare(Exact(o), x)), -want);
      break;
    }
    case 1: {
      auto space = [](char ch) { return (unsigned char)ch <= ' '; };
      size_t b = 0, e = s.size();
      while (b < e && space(s[b])) b++;
      while (e > b && space(s[e - 1])) e--;
      EQ(c, "StrStripSpace", StrStripSpace(x), s.substr(b, e - b));
      std::string q;
      for (size_t i = b; i < e; i++) {
        if (space(s[i]) && i > b && space(s[i - 1])) continue;
        q += s[i];
      }
      EQ(c, "StrSqueezeAndStripSpace", StrSqueezeAndStripSpace(x), q);
      size_t l = s.size();
      while (l > 0 && (s[l - 1] == '\r' || s[l - 1] == '\n')) l--;
      EQ(c, "StrStripLine", StrStripLine(x), s.substr(0, l));
      std::string t = s;
      StrStripLine(&t);
      EQ(c, "StrStripLine in place", t, s.substr(0, l));
      for (bool keep : {false, true}) {
        std::string w = s;
        for (auto& ch : w) if (((unsigned char)ch <= ' ' || ch == 0x7f) && !(keep && ch == '\t')) ch = ' ';
        EQ(c, "StrTrimForTSV", StrTrimForTSV(x, keep), w);
      }
      break;
    }
    case 2: {
      const std::string before = c.Bool() && !s.empty() ? s.substr(c.Draw(s.size()), c.Range(0, 4)) : Text(c, 6);
      const std::string after = Text(c, 6);
      c.Log("replace %s by %s", vt::Esc(before).c_str(), vt::Esc(after).c_str());
      std::string w;
      for (size_t i = 0; i < s.size();) {
        if (!before.empty() && s.compare(i, before.size(), before) == 0) { w += after; i += before.size(); }
        else w += s[i++];
      }
      EQ(c, "StrReplace", StrReplace(x, Exact(before), Exact(after)), w);
      std::string t = s, r;
      for (char ch : s) {
        size_t p = before.find(ch);
        if (p == std::string::npos) r += ch;
        else if (p < after.size()) r += after[p];
      }
      StrReplaceCharacters(&t, Exact(before), Exact(after));
      EQ(c, "StrReplaceCharacters", t, r);
      const std::string head = s.substr(0, c.Draw(s.size() + 1)) + (c.Chance(1, 4) ? "x" : "");
      EQ(c, "StrBeginsWith", StrBeginsWith(x, Exact(head)), s.compare(0, head.size(), head) == 0);
      const std::string tail = (c.Chance(1, 4) ? "x" : "") + s.substr(c.Draw(s.size() + 1));
      EQ(c, "StrEndsWith", StrEndsWith(x, Exact(tail)),
         tail.size() <= s.size() && s.compare(s.size() - tail.size(), tail.size(), tail) == 0);
      break;
    }
    case 3: {
      std::string d = !s.empty() && c.Chance(3, 4) ? s.substr(c.Draw(s.size()), 1 + c.Draw(3)) : Text(c, 3);
      const bool skip = c.Bool();
      c.Log("split by %s skip=%d", vt::Esc(d).c_str(), skip);
      if (d.empty()) {
        std::vector<std::string> w;
        for (char ch : s) w.push_back(std::string(1, ch));
        EQ(c, "StrSplit every byte", StrSplit(x, std::string_view(d), skip), w);
        d = ",";
      }
      EQ(c, "StrSplit", StrSplit(x, std::string_view(Exact(d)), skip), RefSplit(s, d, false, skip));
      EQ(c, "StrSplit char", StrSplit(x, d[0], skip), RefSplit(s, d.substr(0, 1), false, skip));
      EQ(c, "StrSplitAny", StrSplitAny(x, Exact(d), skip), RefSplit(s, d, true, skip));
      EQ(c, "StrJoin of StrSplit", StrJoin(StrSplit(x, std::string_view(d)), d), s);
      std::map<std::string, std::string> w;
      const std::string kv = c.PickOf<const char*>({"a", "=", "aa"});
      for (const auto& r : RefSplit(s, d, false, true)) {
        size_t p = r.find(kv);
        if (p != std::string::npos) w.emplace(r.substr(0, p), r.substr(p + kv.size()));
      }
      VT_CHECK(c, "StrSplitIntoMap", StrSplitIntoMap(x, d, kv) == w, "different map");
      EQ(c, "StrCat", StrCat(s, d, 12, "x", std::string_view(kv)), s + d + "12x" + kv);
      break;
    }
    case 4: {
      const std::string o = c.Bool() ? Text(c, 80) : [&] {
        std::string o = s.substr(0, 150);
        for (int i = 0; c.More(i, 2, 6); i++) {
          size_t p = c.Draw(o.size() + 1);
          switch (c.Draw(3)) {
            case 0: o.insert(p, 1, 'q'); break;
            case 1: if (p < o.size()) o.erase(p, 1); break;
            case 2: if (p < o.size()) o[p] = 'q'; break;
          }
        }
        return o;
      }();
      const std::string a = s.substr(0, 150);
      c.Log("distance to %s", vt::Esc(o, 200).c_str());
      std::vector<int> row(o.size() + 1);
      for (size_t j = 0; j <= o.size(); j++) row[j] = j;
      for (size_t i = 1; i <= a.size(); i++) {
        int diag = row[0];
        row[0] = i;
        for (size_t j = 1; j <= o.size(); j++) {
          const int up = row[j];
          row[j] = std::min({up + 1, row[j - 1] + 1, diag + (a[i - 1] != o[j - 1])});
          diag = up;
        }
      }
      EQ(c, "EditDistanceLev", EditDistanceLev<std::string_view>(Exact(a), Exact(o)), (int32_t)row[o.size()]);
      break;
    }
    case 5: {
      // Serialized containers.
      std::vector<std::string> v;
      std::map<std::string, std::string> m;
      for (int i = 0; c.More(i, 4, 30); i++) {
        v.push_back(c.Chance(1, 8) ? std::string(c.PickOf<size_t>({126, 127, 128, 129, 16383, 16384}), 'x') : Text(c, 40));
        m[v.back()] = Text(c, 200);
      }
      EQ(c, "StrVector", DeserializeStrVector(Exact(SerializeStrVector(v))), v);
      VT_CHECK(c, "StrMap", DeserializeStrMap(Exact(SerializeStrMap(m))) == m, "different map of %zu", m.size());
      const std::string b = v.empty() ? "" : v[0];
      const Exact p(SerializeStrPair(s, b));
      std::string_view f1, f2;
      DeserializeStrPair(p, &f1, &f2);
      EQ(c, "StrPair first", f1, std::string_view(s));
      EQ(c, "StrPair second", f2, std::string_view(b));
      EQ(c, "GetFirst", GetFirstFromSerializedStrPair(p), std::string_view(s));
      VT_CHECK(c, "views", MakeStrVectorFromViews(MakeStrViewVectorFromValues(v)) == v, "vector views");
      VT_CHECK(c, "views", MakeStrMapFromViews(MakeStrViewMapFromRecords(m)) == m, "map views");
      // Damaged data must not be read out of bounds.
      DeserializeStrVector(x);
      DeserializeStrMap(x);
      std::string cut = SerializeStrVector(v);
      cut.resize(c.Draw(cut.size() + 1));
      DeserializeStrVector(Exact(cut));
      cut = SerializeStrMap(m);
      cut.resize(c.Draw(cut.size() + 1));
      DeserializeStrMap(Exact(cut));
      break;
    }
  }
}

VT_SUITE(str_search) {
  const std::string t = Text(c, c.Chance(1, 4) ? 1500 : 60);
  auto pattern = [&]() -> std::string {
    std::string p;
    if (!t.empty() && c.Chance(3, 4)) {
      p = t.substr(c.Draw(t.size()), 1 + c.Size(c.Chance(1, 8) ? 600 : 8));
    } else {
      p = Text(c, 8);
    }
    if (!p.empty() && c.Chance(1, 5)) p[c.Draw(p.size())] ^= 1 << c.Draw(8);
    if (c.Chance(1, 12)) p += '\0';
    return p;
  };
  const std::string p = pattern();
  const Exact tx(t), px(p);
  c.Log("text (%zu) %s pattern (%zu) %s", t.size(), vt::Esc(t, 200).c_str(), p.size(), vt::Esc(p).c_str());
  const auto all = RefFindAll(t, p);
  c.NonTrivial(p.size() >= 1 && t.size() >= p.size());
  if (!all.empty()) c.Tag("hit");
  const int32_t first = First(all);
  EQ(c, "StrSearch", StrSearch(tx, px), first);
  EQ(c, "StrSearchDoubleLoop", StrSearchDoubleLoop(tx, px), first);
  EQ(c, "StrSearchMemchr", StrSearchMemchr(tx, px), first);
  EQ(c, "StrSearchMemmem", StrSearchMemmem(tx, px), first);
  EQ(c, "StrSearchKMP", StrSearchKMP(tx, px), first);
  EQ(c, "StrSearchBM", StrSearchBM(tx, px), first);
  EQ(c, "StrSearchRK", StrSearchRK(tx, px), first);
  EQ(c, "StrSearchZ", StrSearchZ(tx, px), first);
  EQ(c, "StrContains", StrContains(tx, px), first >= 0);
  const size_t max = c.Bool() ? 0 : 1 + c.Draw(5);
  auto limit = [&](std::vector<int32_t> v, const std::string& q) {
    if (q.empty() && !v.empty()) v.pop_back();  // an empty pattern matches at each byte
    if (max > 0 && v.size() > max) v.resize(max);
    return v;
  };
  const auto whole = limit(all, p);
  EQ(c, "StrSearchWhole", StrSearchWhole(tx, px, max), whole);
  EQ(c, "StrSearchWholeKMP", StrSearchWholeKMP(tx, px, max), whole);
  EQ(c, "StrSearchWholeBM", StrSearchWholeBM(tx, px, max), whole);
  EQ(c, "StrSearchWholeRK", StrSearchWholeRK(tx, px, max), whole);
  const std::string lt = Low(t), lp = Low(p);
  EQ(c, "StrCaseSearch", StrCaseSearch(tx, px), First(RefFindAll(lt, lp)));
  EQ(c, "StrWordSearch", StrWordSearch(tx, px), First(RefFindWords(t, p)));
  EQ(c, "StrCaseWordSearch", StrCaseWordSearch(tx, px), First(RefFindWords(lt, lp)));
  EQ(c, "StrCaseContains", StrCaseContains(tx, px), !RefFindAll(lt, lp).empty());
  EQ(c, "StrWordContains", StrWordContains(tx, px), !RefFindWords(t, p).empty());
  EQ(c, "StrCaseWordContains", StrCaseWordContains(tx, px), !RefFindWords(lt, lp).empty());
  // Batches.
  std::vector<std::string> ps = {p}, lps = {lp};
  for (int i = 0; c.More(i, 2, 6); i++) { ps.push_back(pattern()); lps.push_back(Low(ps.back())); }
  bool a1 = false, a2 = false, a3 = false, a4 = false;
  std::vector<std::vector<int32_t>> res;
  for (size_t i = 0; i < ps.size(); i++) {
    const auto v = RefFindAll(t, ps[i]);
    res.push_back(limit(v, ps[i]));
    a1 |= !v.empty();
    a2 |= !RefFindAll(lt, lps[i]).empty();
    a3 |= !RefFindWords(t, ps[i]).empty();
    a4 |= !RefFindWords(lt, lps[i]).empty();
  }
  EQ(c, "StrContainsBatch", StrContainsBatch(tx, ps), a1);
  EQ(c, "StrCaseContainsBatch", StrCaseContainsBatch(tx, ps), a2);
  EQ(c, "StrWordContainsBatch", StrWordContainsBatch(tx, ps), a3);
  EQ(c, "StrCaseWordContainsBatch", StrCaseWordContainsBatch(tx, ps), a4);
  EQ(c, "StrCaseWordContainsBatchLower", StrCaseWordContainsBatchLower(tx, lps), a4);
  const auto b0 = StrSearchBatch(tx, ps, max), b1 = StrSearchBatchKMP(tx, ps, max),
             b2 = StrSearchBatchBM(tx, ps, max), b3 = StrSearchBatchRK(tx, ps, max);
  for (size_t i = 0; i < ps.size(); i++) {
    EQ(c, "StrSearchBatch", b0[i], res[i]);
    EQ(c, "StrSearchBatchKMP", b1[i], res[i]);
    EQ(c, "StrSearchBatchBM", b2[i], res[i]);
    EQ(c, "StrSearchBatchRK", b3[i], res[i]);
  }
}

namespace {

// A small regular expression, and its matching by definition.
struct Re {
  enum T { LIT, ANY, CLASS, CAT, ALT, STAR, PLUS, OPT, BEGIN, END } t;
  char ch = 0;
  std::vector<Re> sub;
  std::string Str() const {
    switch (t) {
      case LIT: return std::string(1, ch);
      case ANY: return ".";
      case CLASS: return ch == 'a' ? "[a-b]" : "[^a]";
      case CAT: { std::string s; for (const auto& r : sub) s += r.Str(); return s; }
      case ALT: return "(" + sub[0].Str() + "|" + sub[1].Str() + ")";
      case STAR: return "(" + sub[0].Str() + ")*";
      case PLUS: return "(" + sub[0].Str() + ")+";
      case OPT: return "(" + sub[0].Str() + ")?";
      case BEGIN: return "^";
      case END: return "$";
    }
    return "";
  }
  // All the end positions of matches from "i".
  std::set<int> Ends(const std::string& s, int i, bool icase) const {
    std::set<int> r;
    switch (t) {
      case LIT:
        if (i < (int)s.size() && (icase ? Low(s[i]) == Low(ch) : s[i] == ch)) r.insert(i + 1);
        break;
      case ANY: if (i < (int)s.size() && s[i] != '\n' && s[i] != '\r') r.insert(i + 1); break;
      case CLASS:
        if (i < (int)s.size()) {
          const char x = icase ? Low(s[i]) : s[i];
          if (ch == 'a' ? (x == 'a' || x == 'b') : x != 'a') r.insert(i + 1);
        }
        break;
      case CAT: {
        r.insert(i);
        for (const auto& e : sub) {
          std::set<int> n;
          for (int p : r) for (int q : e.Ends(s, p, icase)) n.insert(q);
          r = n;
        }
        break;
      }
      case ALT: for (const auto& e : sub) for (int q : e.Ends(s, i, icase)) r.insert(q); break;
      case OPT: r = sub[0].Ends(s, i, icase); r.insert(i); break;
      case STAR: case PLUS: {
        std::vector<int> todo;
        for (int q : sub[0].Ends(s, i, icase)) { r.insert(q); todo.push_back(q); }
        if (t == STAR) r.insert(i);
        while (!todo.empty()) {
          int p = todo.back();
          todo.pop_back();
          for (int q : sub[0].Ends(s, p, icase)) if (r.insert(q).second) todo.push_back(q);
        }
        break;
      }
      case BEGIN: if (i == 0) r.insert(i); break;
      case END: if (i == (int)s.size()) r.insert(i); break;
    }
    return r;
  }
};
Re GenRe(Case& c, int depth) {
  Re r;
  switch (depth <= 0 ? c.Draw(3) : c.Draw(9)) {
    case 0: r.t = Re::LIT; r.ch = "abcAB"[c.Draw(5)]; break;
    case 1: r.t = Re::ANY; break;
    case 2: r.t = Re::CLASS; r.ch = c.Bool() ? 'a' : 'x'; break;
    case 3: r.t = Re::ALT; r.sub = {GenRe(c, depth - 1), GenRe(c, depth - 1)}; break;
    case 4: r.t = Re::STAR; r.sub = {GenRe(c, 0)}; break;
    case 5: r.t = Re::PLUS; r.sub = {GenRe(c, 0)}; break;
    case 6: r.t = Re::OPT; r.sub = {GenRe(c, depth - 1)}; break;
    default:
      r.t = Re::CAT;
      for (int i = 0; i < 2 || c.More(i, 2, 5); i++) r.sub.push_back(GenRe(c, depth - 1));
      break;
  }
  return r;
}

}  // namespace

VT_SUITE(str_regex) {
  std::string t;
  for (int i = 0; c.More(i, 8, 30); i++) t += "abcABx\n"[c.Draw(7)];
  Re re;
  re.t = Re::CAT;
  if (c.Chance(1, 6)) { re.sub.emplace_back(); re.sub.back().t = Re::BEGIN; }
  for (int i = 0; i < 1 || c.More(i, 1, 4); i++) re.sub.push_back(GenRe(c, 2));
  if (c.Chance(1, 6)) { re.sub.emplace_back(); re.sub.back().t = Re::END; }
  const bool icase = c.Chance(1, 3);
  const std::string pat = (icase ? "(?i)" : "") + re.Str();
  c.Log("regex %s on %s", pat.c_str(), vt::Esc(t).c_str());
  c.NonTrivial(t.size() > 2);
  int32_t want = -1;
  for (size_t i = 0; i <= t.size() && want < 0; i++) if (!re.Ends(t, i, icase).empty()) want = i;
  if (t.find('\n') == std::string::npos || pat.find('^') == std::string::npos) {
    // Line anchors in the midst of the text depend on the library.
    const bool anchored = re.sub.front().t == Re::BEGIN || re.sub.back().t == Re::END;
    if (!anchored || t.find('\n') == std::string::npos) {
      EQ(c, "StrSearchRegex", StrSearchRegex(Exact(t), pat), want);
    }
  }
  EQ(c, "StrSearchRegex malformed", StrSearchRegex(Exact(t), c.PickOf<const char*>({"(", "(?", "(?q)a", "[a", "*"})), (int32_t)-2);
  // Replacing one literal byte.
  const char ch = "abc"[c.Draw(3)];
  std::string w;
  for (char x : t) if (x == ch) w += "<" + std::string(1, x) + ">"; else w += x;
  EQ(c, "StrReplaceRegex", StrReplaceRegex(Exact(t), std::string("(") + ch + ")", "<$1>"), w);
  EQ(c, "StrReplaceRegex malformed", StrReplaceRegex(Exact(t), "(", "x"), std::string());
}

VT_SUITE(str_codec) {
  const std::string s = Text(c, 300);
  const Exact x(s);
  c.Log("bytes (%zu) %s", s.size(), vt::Esc(s, 300).c_str());
  c.NonTrivial(s.size() >= 2);
  switch (c.Draw(5)) {
    case 0: {
      for (bool nonasc : {false, true}) {
        const std::string e = StrEscapeC(x, nonasc);
        EQ(c, "C escaping", StrUnescapeC(Exact(e)), s);
        for (char ch : e) {
          VT_CHECK(c, "C escaped", (unsigned char)ch >= 0x20 && ch != 0x7f && (!nonasc || (unsigned char)ch < 0x80),
                   "the byte %02x is left", (unsigned char)ch);
        }
      }
      StrUnescapeC(x);
      break;
    }
    case 1: {
      static const char* tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      std::string w;
      for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = 0;
        for (size_t j = 0; j < 3; j++) v = v << 8 | (i + j < s.size() ? (unsigned char)s[i + j] : 0);
        for (size_t j = 0; j < 4; j++) w += i + j > s.size() ? '=' : tab[v >> (18 - 6 * j) & 63];
      }
      EQ(c, "StrEncodeBase64", StrEncodeBase64(x), w);
      EQ(c, "StrDecodeBase64", StrDecodeBase64(Exact(w)), s);
      std::string broken;
      for (size_t i = 0; i < w.size(); i++) { broken += w[i]; if (c.Chance(1, 20)) broken += "\r\n"; }
      EQ(c, "StrDecodeBase64 with line breaks", StrDecodeBase64(Exact(broken)), s);
      StrDecodeBase64(x);
      break;
    }
    case 2: {
      std::string w;
      for (unsigned char ch : s) {
        if (Alnum(ch) || ch == '_' || ch == '-' || ch == '.' || ch == '~') w += ch;
        else w += vt::StrF("%%%02x", ch);
      }
      EQ(c, "StrEncodeURL", StrEncodeURL(x), w);
      EQ(c, "StrDecodeURL", StrDecodeURL(Exact(w)), s);
      EQ(c, "StrDecodeURL upper case", StrDecodeURL(Exact(Up(StrEncodeURL(Exact(Up(s)))))), Up(s));
      EQ(c, "StrDecodeURL plus", StrDecodeURL(Exact("a+b")), std::string("a b"));
      StrDecodeURL(x);
      break;
    }
    case 3: {
      std::vector<uint32_t> u;
      std::string ref;
      std::wstring wide;
      for (int i = 0; c.More(i, 8, 60); i++) {
        static const std::vector<uint32_t> edges = {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x1fffff, 0x200000,
                                                    0x3ffffff, 0x4000000, 0x7fffffff, 0};
        uint32_t v = c.Bool() ? c.Pick(edges) : c.Draw(1u << c.Range(1, 31));
        u.push_back(v);
        wide.push_back(v);
        // By the definition of the encoding.
        if (v < 0x80) { ref += (char)v; continue; }
        int n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
        for (int j = n - 1; j >= 0; j--) {
          const uint32_t part = v >> (6 * j);
          ref += j == n - 1 ? (char)((0xff00 >> n & 0xff) | part) : (char)(0x80 | (part & 0x3f));
        }
      }
      EQ(c, "ConvertUCS4ToUTF8", ConvertUCS4ToUTF8(u), ref);
      VT_CHECK(c, "ConvertUTF8ToUCS4", ConvertUTF8ToUCS4(Exact(ref)) == u, "different code points for %s", vt::Esc(ref).c_str());
      EQ(c, "ConvertWideToUTF8", ConvertWideToUTF8(wide), ref);
      VT_CHECK(c, "ConvertUTF8ToWide", ConvertUTF8ToWide(Exact(ref)) == wide, "different wide string for %s", vt::Esc(ref).c_str());
      break;
    }
    case 4: {
      // Arbitrary bytes as UTF-8: both converters agree and stay in bounds, and the result is stable.
      const auto u = ConvertUTF8ToUCS4(x);
      const auto w = ConvertUTF8ToWide(x);
      VT_CHECK(c, "UTF-8", std::vector<uint32_t>(w.begin(), w.end()) == u, "UCS4 and wide strings differ");
      const std::string back = ConvertUCS4ToUTF8(u);
      VT_CHECK(c, "UTF-8", ConvertUTF8ToUCS4(Exact(back)) == u, "a second round trip differs");
      break;
    }
  }
}
