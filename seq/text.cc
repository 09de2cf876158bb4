// C24: GUID validators.  C25: Format.  C26: StrCat and number text.
#include <sys/mman.h>

#include <array>
#include <cfloat>
#include <cmath>
#include <climits>
#include <cstdio>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#include "rst/guid/guid.h"
#include "rst/not_null/not_null.h"
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
#include "seq/seq.h"

using seq::choose;
using seq::note;

namespace {

std::string Quote(std::string_view s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c > 126 || c == '"') {
      snprintf(b, sizeof(b), "\\x%02x", c);
      out += b;
    } else {
      out += static_cast<char>(c);
    }
  }
  return out + "\"";
}

// ---- C24 ---------------------------------------------------------------------

bool Hex(unsigned char c, bool strict) {
  if (c >= 48 && c <= 57) return true;
  if (c >= 97 && c <= 102) return true;
  return !strict && c >= 65 && c <= 70;
}

bool Shape(const std::string& s, bool strict) {
  if (s.size() != 36) return false;
  static const int kGroups[] = {8, 4, 4, 4, 12};
  size_t at = 0;
  for (int g = 0; g < 5; g++) {
    if (g > 0 && s[at++] != '-') return false;
    for (int i = 0; i < kGroups[g]; i++)
      if (!Hex(static_cast<unsigned char>(s[at++]), strict)) return false;
  }
  return true;
}

void Judge(const std::string& s) {
  // A digit follows, and no NUL.
  const seq::Cut cut(s, '0');
  const std::string_view v = cut;
  const bool a = rst::Guid::IsValid(v), b = rst::Guid::IsValidOutputString(v);
  seq::step();
  seq::observe(a);
  seq::observe(b);
  seq::state(seq::hash(s));
  SEQ_CHECK(a == Shape(s, false), "IsValid(%s) returned %d", Quote(s).c_str(), a);
  SEQ_CHECK(b == Shape(s, true), "IsValidOutputString(%s) returned %d", Quote(s).c_str(), b);
}

const char* const kBases[] = {
    "00000000-0000-4000-8000-000000000000", "abcdef01-2345-4678-9abc-def012345678",
    "ABCDEF01-2345-4678-9ABC-DEF012345678", "ffffffff-ffff-ffff-ffff-ffffffffffff",
    "0aB1cD2e-F3a4-1bC5-0d6E-9f8A7b6C5d4E",
};

// The bytes around every boundary of the accepted classes.
const unsigned char kEdge[] = {0,   1,   9,   ' ', '+', ',', '-', '.', '/', '0', '5', '9', ':', '@', 'A', 'C',
                               'F', 'G', 'Z', '[', '_', '`', 'a', 'c', 'f', 'g', 'x', 'z', '{', '}', 127, 128,
                               0xad, 0xb0, 0xe1, 0xff};

void OneByte() {
  std::string s = kBases[choose(5)];
  s[static_cast<size_t>(choose(36))] = static_cast<char>(choose(256));
  Judge(s);
}

void TwoBytes() {
  std::string s = kBases[choose(2)];
  const size_t i = static_cast<size_t>(choose(35));
  const size_t j = i + 1 + static_cast<size_t>(choose(static_cast<int>(35 - i)));
  s[i] = static_cast<char>(kEdge[choose(sizeof(kEdge))]);
  s[j] = static_cast<char>(kEdge[choose(sizeof(kEdge))]);
  Judge(s);
}

void ThreeBytes() {
  static const unsigned char kFew[] = {'-', '/', '0', ':', 'A', 'G', 'f', 'g', 0};
  std::string s = kBases[1];
  size_t from = 0;
  for (int k = 0; k < 3; k++) {
    const size_t i = from + static_cast<size_t>(choose(static_cast<int>(34 + static_cast<size_t>(k) - from)));
    from = i + 1;
    s[i] = static_cast<char>(kFew[choose(sizeof(kFew))]);
  }
  Judge(s);
}

// Every length, cut or extended at either end or in the middle.
void Lengths() {
  const std::string b = kBases[choose(4)];
  static const int kMore[] = {108, 127, 128, 255, 256, 257, 291, 292, 293, 548, 65535, 65536, 65571, 65572, 65573, 131108};
  int n = choose(96);
  if (n >= 80) n = kMore[n - 80];
  std::string s;
  switch (choose(n > 108 ? 4 : 5)) {
    case 0:
      while (s.size() < static_cast<size_t>(n)) s += b;
      s.resize(static_cast<size_t>(n));
      break;
    case 1:
      while (s.size() < static_cast<size_t>(n)) s += b;
      s = s.substr(s.size() - static_cast<size_t>(n));
      break;
    case 2:
      s = std::string(static_cast<size_t>(n), '0');
      break;
    case 3:  // A piece removed.
      s = b;
      s.erase(static_cast<size_t>(n % 36), static_cast<size_t>(choose(4)));
      break;
    case 4:  // A piece inserted.
      s = b;
      s.insert(static_cast<size_t>(n % 37), std::string(static_cast<size_t>(choose(4)), "0-{"[choose(3)]));
      break;
  }
  if (seq::flip()) s = std::string(1, '{') + s + "}";
  if (seq::flip()) s += '\0';
  Judge(s);
}

// Every placing of up to five hyphens among hexadecimal digits.
void Hyphens() {
  const int n = choose(6);
  std::string s(36, choose(2) ? 'a' : '7');
  size_t from = 0;
  for (int k = 0; k < n; k++) {
    const size_t last = 36 - static_cast<size_t>(n) + static_cast<size_t>(k);
    const size_t i = from + static_cast<size_t>(choose(static_cast<int>(last - from + 1)));
    from = i + 1;
    s[i] = '-';
  }
  Judge(s);
}

// ---- C25 ---------------------------------------------------------------------

// Calls Format<N> with a format string built at run time and up to five texts.
template <size_t N>
std::string CallFormat(const char* f, const std::vector<std::string_view>& a) {
  // On the heap, exactly as long as the literal would be.
  using Buf = char[N];
  std::unique_ptr<char[]> mem(new char[N]);
  memcpy(mem.get(), f, N);
  const Buf& b = *reinterpret_cast<const Buf*>(mem.get());
  switch (a.size()) {
    case 0:
      return (N & 1) ? rst::Format(b) : rst::Format(b, {});
    case 1:
      return rst::Format(b, {a[0]});
    case 2:
      return rst::Format(b, {a[0], a[1]});
    case 3:
      return rst::Format(b, {a[0], a[1], a[2]});
    case 4:
      return rst::Format(b, {a[0], a[1], a[2], a[3]});
    case 5:
      return rst::Format(b, {a[0], a[1], a[2], a[3], a[4]});
    default:
      return rst::Format(b, {a[0], a[1], a[2], a[3], a[4], a[5]});
  }
}
constexpr size_t kMaxFormat = 160;
template <size_t... I>
std::string Dispatch(const std::string& f, const std::vector<std::string_view>& a, std::index_sequence<I...>) {
  using Fn = std::string (*)(const char*, const std::vector<std::string_view>&);
  static constexpr Fn kFns[] = {&CallFormat<I + 1>...};
  // The arguments end where their views do.
  std::vector<std::unique_ptr<seq::Cut>> cut;
  std::vector<std::string_view> b;
  for (auto t : a) {
    cut.push_back(std::make_unique<seq::Cut>(t));
    b.push_back(*cut.back());
  }
  return kFns[f.size()](f.c_str(), b);
}
std::string RunFormat(const std::string& f, const std::vector<std::string_view>& a) {
  return Dispatch(f, a, std::make_index_sequence<kMaxFormat>());
}

struct Parsed {
  bool valid = true;
  size_t holes = 0;
  std::vector<std::string> text{""};  // Around the holes.
};
Parsed Parse(const std::string& f) {
  Parsed p;
  size_t i = 0;
  while (i < f.size()) {
    const std::string two = f.substr(i, 2);
    if (two == "{}") {
      p.holes++;
      p.text.push_back("");
      i += 2;
    } else if (two == "{{") {
      p.text.back() += "{";
      i += 2;
    } else if (two == "}}") {
      p.text.back() += "}";
      i += 2;
    } else if (f[i] == '{' || f[i] == '}') {
      p.valid = false;
      return p;
    } else {
      p.text.back() += f[i++];
    }
  }
  return p;
}

const std::string_view kTexts[] = {
    "",          "x",         "{}",  "}", "{{", std::string_view("a\0b", 3), "abcdefghijklmnopqrstuvwxyz0123456789",
    "\xff\x80",  "%s",
};

void FormatOne(const std::string& f, int alphabet) {
  const Parsed p = Parse(f);
  std::vector<std::string_view> args;
  int n = static_cast<int>(p.holes);
  if (!p.valid || choose(2) == 1) {
    // Too few or too many arguments, or a broken format.
    n = choose(5);
  }
  for (int i = 0; i < n; i++) args.push_back(kTexts[choose(alphabet)]);
  if (seq::kChecked || (p.valid && args.size() == p.holes)) {
    note("Format(%s) with %d arguments", Quote(f).c_str(), n);
    for (auto a : args) note("argument %s", Quote(a).c_str());
  }
  seq::step();
  seq::state(seq::mix(seq::hash(f), static_cast<uint64_t>(n)));
  if (!p.valid || args.size() != p.holes) {
    if (seq::kChecked) {
      std::string r;
      SEQ_CHECK(seq::stopped([&] { r = RunFormat(f, args); }), "an invalid call of Format was not stopped");
    }
    seq::done();
  }
  std::string want = p.text[0];
  for (size_t i = 0; i < p.holes; i++) {
    want += args[i];
    want += p.text[i + 1];
  }
  const std::string got = RunFormat(f, args);
  seq::observe(got);
  SEQ_CHECK(got == want, "Format returned %s instead of %s", Quote(got).c_str(), Quote(want).c_str());
}

void FormatChars() {
  static const char kAlpha[] = {'{', '}', 'a', ' ', '\xc3'};
  const int n = seq::bound() - 1;
  std::string f;
  for (int i = 0; i < n; i++) f += kAlpha[choose(5)];
  FormatOne(f, n <= 4 ? 9 : n <= 6 ? 3 : 2);
}

void FormatPieces() {
  static const char* const kPieces[] = {"{}", "{{", "}}", "The quick brown fox ", "\n", "%d\\"};
  std::string f;
  for (int i = 0; i < seq::bound(); i++) f += kPieces[choose(6)];
  const Parsed p = Parse(f);
  std::vector<std::string_view> args;
  for (size_t i = 0; i < p.holes; i++) args.push_back(kTexts[choose(p.holes <= 3 ? 9 : 3)]);
  note("Format(%s)", Quote(f).c_str());
  for (auto a : args) note("argument %s", Quote(a).c_str());
  std::string want = p.text[0];
  for (size_t i = 0; i < p.holes; i++) {
    want += args[i];
    want += p.text[i + 1];
  }
  seq::step();
  seq::state(seq::hash(f));
  const std::string got = RunFormat(f, args);
  seq::observe(got);
  SEQ_CHECK(got == want, "Format returned %s instead of %s", Quote(got).c_str(), Quote(want).c_str());
}

// Every byte of the format and of an argument is copied as it is.
void FormatBytes() {
  const char c = static_cast<char>(1 + choose(255));
  const char d = static_cast<char>(choose(256));
  if (c == '{' || c == '}') seq::done();
  const std::string f = std::string(1, c) + "{}" + c;
  const std::string a(1, d);
  const std::string got = RunFormat(f, {a});
  seq::step();
  seq::observe(got);
  SEQ_CHECK(got == std::string(1, c) + d + c, "Format(%s) with %s returned %s", Quote(f).c_str(), Quote(a).c_str(),
            Quote(got).c_str());
}

// ---- C26 ---------------------------------------------------------------------

// Plain long division.
template <class T>
std::string Decimal(T v) {
  using U = unsigned __int128;
  U u = v < 0 ? -static_cast<U>(static_cast<__int128>(v)) : static_cast<U>(v);
  std::string s;
  do {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
    u /= 10;
  } while (u != 0);
  return v < 0 ? "-" + s : s;
}

// One value alone, between texts, and through Format.
template <class T>
void Same(T v, const std::string& want) {
  seq::step();
  const std::string alone = rst::StrCat({v});
  seq::observe(alone);
  SEQ_CHECK(alone == want, "StrCat returned %s instead of %s", Quote(alone).c_str(), Quote(want).c_str());
  const T cv = v;
  const std::string mid = rst::StrCat({"<", cv, ">", v});
  SEQ_CHECK(mid == "<" + want + ">" + want, "StrCat returned %s instead of <%s>%s", Quote(mid).c_str(),
            Quote(want).c_str(), Quote(want).c_str());
  const std::string f = rst::Format("{}|{}", {v, cv});
  SEQ_CHECK(f == want + "|" + want, "Format returned %s instead of %s|%s", Quote(f).c_str(), Quote(want).c_str(),
            Quote(want).c_str());
}

template <class T>
void FullRange() {
  // Chunks of the range.
  const long lo = std::numeric_limits<T>::min();
  const long chunk = choose(64);
  const long size = (static_cast<long>(std::numeric_limits<T>::max()) - lo + 1) / 64;
  for (long i = 0; i < size; i++) {
    const T v = static_cast<T>(lo + chunk * size + i);
    Same<T>(v, Decimal(v));
  }
  seq::state(seq::mix(seq::hash(__PRETTY_FUNCTION__), static_cast<uint64_t>(chunk)));
}

// Powers of two and ten, their multiples and neighbours, repeated digits.
template <class T>
void Family() {
  using U = std::make_unsigned_t<T>;
  U u = 0;
  switch (choose(4)) {
    case 0:
      u = static_cast<U>(1) << choose(sizeof(T) * 8);
      break;
    case 1: {
      const int k = choose(20);
      u = 1;
      for (int i = 0; i < k; i++) u = static_cast<U>(u * 10);
      u = static_cast<U>(u * static_cast<U>(1 + choose(9)));
      break;
    }
    case 2: {
      const int k = choose(20), d = 1 + choose(9);
      for (int i = 0; i < k; i++) u = static_cast<U>(u * 10 + static_cast<U>(d));
      break;
    }
    case 3:
      u = static_cast<U>(static_cast<U>(~static_cast<U>(0)) >> choose(sizeof(T) * 8));
      break;
  }
  u = static_cast<U>(u + static_cast<U>(choose(7)) - 3);
  if (seq::flip()) u = static_cast<U>(0 - u);
  const T v = static_cast<T>(u);
  note("%s: %s", __PRETTY_FUNCTION__, Decimal(v).c_str());
  Same<T>(v, Decimal(v));
  seq::state(seq::mix(sizeof(T), u));
}

void Small() {
  if (seq::flip()) {
    const bool v = seq::flip();
    Same<bool>(v, v ? "true" : "false");
  } else {
    const char c = static_cast<char>(choose(256));
    Same<char>(c, std::string(1, c));
  }
}

enum PlainEnum { kMinus = -5, kSeven = 7, kBig = INT_MAX };
enum class E16 : int16_t {};
enum class U16 : uint16_t {};
enum class E32 : int32_t {};
enum class U32 : uint32_t {};
enum class E64 : int64_t {};
enum class U64 : uint64_t {};
enum class ELL : long long {};
enum class ULL : unsigned long long {};
enum class EInt {};
enum class E8 : int8_t {};
enum class U8 : uint8_t {};
template <class E>
void OneEnum() {
  using T = std::underlying_type_t<E>;
  static const T kV[] = {std::numeric_limits<T>::min(), static_cast<T>(std::numeric_limits<T>::min() + 1),
                         static_cast<T>(0),  static_cast<T>(1),  static_cast<T>(-1), static_cast<T>(10),
                         static_cast<T>(48), static_cast<T>(99), static_cast<T>(100),
                         static_cast<T>(std::numeric_limits<T>::max() - 1), std::numeric_limits<T>::max()};
  const T v = kV[choose(11)];
  Same<E>(static_cast<E>(v), Decimal(v));
}
void Enums() {
  switch (choose(12)) {
    case 0: OneEnum<E16>(); break;
    case 1: OneEnum<U16>(); break;
    case 2: OneEnum<E32>(); break;
    case 3: OneEnum<U32>(); break;
    case 4: OneEnum<E64>(); break;
    case 5: OneEnum<U64>(); break;
    case 6: OneEnum<ELL>(); break;
    case 7: OneEnum<ULL>(); break;
    case 8: OneEnum<EInt>(); break;
    case 9: OneEnum<E8>(); break;
    case 10: OneEnum<U8>(); break;
    case 11: {
      static const PlainEnum kV[] = {kMinus, kSeven, kBig};
      const PlainEnum v = kV[choose(3)];
      Same<PlainEnum>(v, Decimal(static_cast<int>(v)));
      break;
    }
  }
}

std::string Printf(const char* f, double v) {
  char b[64];
  snprintf(b, sizeof(b), f, v);
  return b;
}
std::string PrintfL(long double v) {
  char b[64];
  snprintf(b, sizeof(b), "%Lg", v);
  return b;
}

void OneDouble(double v) {
  Same<double>(v, Printf("%g", v));
  Same<float>(static_cast<float>(v), Printf("%g", static_cast<double>(static_cast<float>(v))));
  Same<long double>(static_cast<long double>(v), PrintfL(static_cast<long double>(v)));
}

// Every exponent with chosen mantissas; the decimal digits around the places
// where %g changes its form.
void Doubles() {
  static const uint64_t kMant[] = {0, 1, 0xfffffffffffff, 0x8000000000000, 0x5555555555555, 0x123456789abcd,
                                   0xffffffff00000, 0x7ffffffffffff};
  switch (choose(4)) {
    case 0: {
      const uint64_t hi = static_cast<uint64_t>(choose(64));
      const uint64_t m = kMant[choose(8)];
      const uint64_t sign = static_cast<uint64_t>(choose(2));
      for (uint64_t lo = 0; lo < 32; lo++) {
        const uint64_t bits = (sign << 63) | ((hi * 32 + lo) << 52) | m;
        double v;
        memcpy(&v, &bits, 8);
        OneDouble(v);
      }
      break;
    }
    case 1: {
      // d.ddddde+-k and neighbours.
      const int k = choose(64) - 32;
      const int digits = choose(8);
      double v = 0;
      for (int i = 0; i < digits; i++) v = v * 10 + 9;
      v = (v + choose(3)) * std::pow(10.0, k);
      if (seq::flip()) v = -v;
      OneDouble(v);
      OneDouble(std::nextafter(v, INFINITY));
      OneDouble(std::nextafter(v, -INFINITY));
      break;
    }
    case 2: {
      static const double kV[] = {0.0, -0.0, INFINITY, -INFINITY, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_TRUE_MIN, -DBL_TRUE_MIN,
                                  DBL_EPSILON, FLT_MAX, FLT_MIN, FLT_TRUE_MIN, 0.1, 1e21, 1.5, 100000, 999999, 999999.5,
                                  1000000, 0.0001, 0.00001, 0.000099999951, 123456.5, 1234567};
      OneDouble(kV[choose(25)]);
      break;
    }
    case 3: {
      static const long double kV[] = {LDBL_MAX, -LDBL_MAX, LDBL_MIN, -LDBL_MIN, LDBL_TRUE_MIN, -LDBL_TRUE_MIN, 1e4000L,
                                       -1.23456789e-4940L, 0.0L, -0.0L, 3.14159265358979323846L};
      const long double v = kV[choose(11)];
      Same<long double>(v, PrintfL(v));
      break;
    }
  }
}

void NaNs() {
  const double v = seq::flip() ? NAN : -NAN;
  Same<double>(v, Printf("%g", v));
}

// Texts of every kind, with any byte, of every length up to 40.
void Texts() {
  const int kind = choose(6);
  const int n = choose(40);
  std::string s;
  const int fill = choose(4);
  for (int i = 0; i < n; i++) s += fill == 0 ? 'x' : fill == 1 ? static_cast<char>(i) : fill == 2 ? '\xff' : '%';
  std::string want = s;
  std::string got;
  const std::string nul(1, '\0');
  switch (kind) {
    case 0:
      got = rst::StrCat({s});
      break;
    case 1:
      got = rst::StrCat({std::string_view(s)});
      break;
    case 2:
      want = s.c_str();
      got = rst::StrCat({s.c_str()});
      break;
    case 3:
      want = s.c_str();
      got = rst::StrCat({rst::NotNull<const char*>(s.c_str())});
      break;
    case 4: {
      // Exactly the bytes of the view, which no NUL follows.
      const seq::Cut b(s);
      got = rst::StrCat({std::string_view(b), "", std::string_view(b)});
      want = s + s;
      break;
    }
    case 5:
      got = rst::StrCat({s, nul, s, std::string_view(), ""});
      want = s + nul + s;
      break;
  }
  seq::step();
  seq::observe(got);
  SEQ_CHECK(got == want, "StrCat returned %s instead of %s", Quote(got).c_str(), Quote(want).c_str());
}

template <size_t... I>
std::string CatN(const std::vector<std::string_view>& a, std::index_sequence<I...>) {
  return rst::StrCat({a[I]...});
}
std::string Cat(const std::vector<std::string_view>& args) {
  std::vector<std::unique_ptr<seq::Cut>> cut;
  std::vector<std::string_view> a;
  for (auto t : args) {
    cut.push_back(std::make_unique<seq::Cut>(t));
    a.push_back(*cut.back());
  }
  switch (a.size()) {
    case 0: return rst::StrCat({});
    case 1: return CatN(a, std::make_index_sequence<1>());
    case 2: return CatN(a, std::make_index_sequence<2>());
    case 3: return CatN(a, std::make_index_sequence<3>());
    case 4: return CatN(a, std::make_index_sequence<4>());
    case 5: return CatN(a, std::make_index_sequence<5>());
    case 6: return CatN(a, std::make_index_sequence<6>());
    case 7: return CatN(a, std::make_index_sequence<7>());
    default: return CatN(a, std::make_index_sequence<8>());
  }
}

// Every sequence of texts up to the bound.
void Sequences() {
  std::vector<std::string_view> a;
  std::string want;
  const int n = seq::bound() - 1;
  for (int i = 0; i < n; i++) {
    a.push_back(kTexts[choose(n <= 5 ? 9 : 7)]);
    want += a.back();
  }
  for (auto t : a) note("%s", Quote(t).c_str());
  const std::string got = Cat(a);
  seq::step();
  seq::observe(got);
  seq::state(seq::hash(want));
  SEQ_CHECK(got == want, "StrCat returned %s instead of %s", Quote(got).c_str(), Quote(want).c_str());
}

// Arguments of different types next to each other.
template <class A, class B>
void Pair(A a, const std::string& ta, B b, const std::string& tb) {
  const std::string got = rst::StrCat({a, b, a});
  SEQ_CHECK(got == ta + tb + ta, "StrCat returned %s instead of %s", Quote(got).c_str(), Quote(ta + tb + ta).c_str());
  const std::string f = rst::Format("{}{{{}}}{}", {b, a, b});
  SEQ_CHECK(f == tb + "{" + ta + "}" + tb, "Format returned %s", Quote(f).c_str());
  seq::step();
  seq::observe(got);
}
template <class A>
void PairWith(A a, const std::string& ta) {
  switch (choose(9)) {
    case 0: Pair(a, ta, true, "true"); break;
    case 1: Pair(a, ta, 'c', "c"); break;
    case 2: Pair(a, ta, static_cast<short>(-32768), "-32768"); break;
    case 3: Pair(a, ta, INT_MIN, "-2147483648"); break;
    case 4: Pair(a, ta, ULLONG_MAX, "18446744073709551615"); break;
    case 5: Pair(a, ta, LONG_MIN, "-9223372036854775808"); break;
    case 6: Pair(a, ta, -1.25e-300, "-1.25e-300"); break;
    case 7: Pair(a, ta, "", ""); break;
    case 8: Pair(a, ta, std::string("text longer than the small buffer"), "text longer than the small buffer"); break;
  }
}
void Mixed() {
  switch (choose(9)) {
    case 0: PairWith(false, "false"); break;
    case 1: PairWith('\xff', "\xff"); break;
    case 2: PairWith(static_cast<unsigned short>(65535), "65535"); break;
    case 3: PairWith(UINT_MAX, "4294967295"); break;
    case 4: PairWith(LLONG_MIN, "-9223372036854775808"); break;
    case 5: PairWith(ULONG_MAX, "18446744073709551615"); break;
    case 6: PairWith(0.5f, "0.5"); break;
    case 7: PairWith(std::string_view("v\0w", 3), std::string("v\0w", 3)); break;
    case 8: PairWith(kSeven, "7"); break;
  }
}

// Many arguments at once, and long ones.
template <size_t N, size_t... I>
void ManyArgs(int kind, std::index_sequence<I...>) {
  // Texts of different lengths and, between them, numbers.
  std::vector<std::string> t;
  std::string cat, fmt;
  char f[5 * N + 1];
  size_t at = 0;
  for (size_t i = 0; i < N; i++) {
    t.push_back(kind == 0 ? "" : kind == 1 ? std::string(1, static_cast<char>('a' + i % 26)) : std::string(i % 41, static_cast<char>('a' + i % 26)));
    const std::string n = std::to_string(i * 1000003);
    const std::string& w = kind == 3 ? n : t.back();
    cat += w;
    fmt += "{" + w + (i % 3 ? "" : "\xff");
    f[at++] = '{';
    f[at++] = '{';
    f[at++] = '{';
    f[at++] = '}';
    if (i % 3 == 0) f[at++] = '\xff';
  }
  // The rest of the array is text without braces.
  while (at < 5 * N) {
    f[at++] = '.';
    fmt += '.';
  }
  f[at] = '\0';
  const char(&cf)[5 * N + 1] = f;
  const std::string a = kind == 3 ? rst::StrCat({I * 1000003 ...}) : rst::StrCat({t[I]...});
  SEQ_CHECK(a == cat, "StrCat of %zu arguments returned %s instead of %s", N, Quote(a).c_str(), Quote(cat).c_str());
  const std::string b = kind == 3 ? rst::Format(cf, {I * 1000003 ...}) : rst::Format(cf, {t[I]...});
  SEQ_CHECK(b == fmt, "Format of %zu arguments returned %s instead of %s", N, Quote(b).c_str(), Quote(fmt).c_str());
  seq::observe(a);
  seq::observe(b);
  seq::state(seq::hash(b));
  seq::step();
}
template <size_t N>
void ManyArgs(int kind) {
  ManyArgs<N>(kind, std::make_index_sequence<N>());
}
void Many() {
  const int kind = choose(4);
  switch (choose(17)) {
    case 0: ManyArgs<7>(kind); break;
    case 1: ManyArgs<8>(kind); break;
    case 2: ManyArgs<9>(kind); break;
    case 3: ManyArgs<10>(kind); break;
    case 4: ManyArgs<15>(kind); break;
    case 5: ManyArgs<16>(kind); break;
    case 6: ManyArgs<17>(kind); break;
    case 7: ManyArgs<32>(kind); break;
    case 8: ManyArgs<33>(kind); break;
    case 9: ManyArgs<64>(kind); break;
    case 10: ManyArgs<65>(kind); break;
    case 11: ManyArgs<100>(kind); break;
    case 12: ManyArgs<128>(kind); break;
    case 13: ManyArgs<129>(kind); break;
    case 14: ManyArgs<255>(kind); break;
    case 15: ManyArgs<256>(kind); break;
    case 16: ManyArgs<257>(kind); break;
  }
}
// Calls with so many arguments that nothing is left for the text.
template <size_t N, size_t... I>
std::string Empties(const std::string& text, std::index_sequence<I...>) {
  char b[N + 1];
  memcpy(b, text.data(), N);
  b[N] = 0;
  return rst::Format(b, {(static_cast<void>(I), std::string_view())...});
}
void FormatTooMany() {
  constexpr size_t kSize = 96;
  static const char* const kPieces[] = {"{{", "}}", "ab", "{}", "a{{}}b"};
  const char* const first = kPieces[choose(5)];
  const char* const then = kPieces[choose(5)];
  const size_t turn = 12 * static_cast<size_t>(choose(8));
  std::string f;
  while (f.size() < turn) f += first;
  f.resize(turn);
  while (f.size() < kSize) f += then;
  f.resize(kSize);
  const int n = choose(5);
  const size_t args = n == 0 ? 2 : n == 1 ? 20 : n == 2 ? 40 : n == 3 ? 47 : 48;
  seq::step();
  const Parsed p = Parse(f);
  if (p.valid && p.holes == args) {
    std::string want;
    for (auto& t : p.text) want += t;
    SEQ_CHECK(n != 4 || Empties<kSize>(f, std::make_index_sequence<48>()) == want, "wrong text");
    seq::done();
  }
  if (!seq::kChecked) seq::done();
  note("Format(%s) with %zu empty arguments", Quote(f).c_str(), args);
  std::string r;
  SEQ_CHECK(seq::stopped([&] {
              switch (n) {
                case 0: r = Empties<kSize>(f, std::make_index_sequence<2>()); break;
                case 1: r = Empties<kSize>(f, std::make_index_sequence<20>()); break;
                case 2: r = Empties<kSize>(f, std::make_index_sequence<40>()); break;
                case 3: r = Empties<kSize>(f, std::make_index_sequence<47>()); break;
                default: r = Empties<kSize>(f, std::make_index_sequence<48>()); break;
              }
            }),
            "an invalid call of Format was not stopped");
}
void LongTexts() {
  static const size_t kSizes[] = {40,   63,   64,   65,   127,  128,  129,  255,   256,   257,   511,   512,   513,
                                  1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096,  4097,  8192,  16384, 32767, 32768,
                                  65535, 65536, 65537, 70000, 131072, 1 << 20};
  const size_t n = kSizes[choose(32)], m = kSizes[choose(32)];
  std::string x, y;
  for (size_t i = 0; i < n; i++) x += static_cast<char>(i * 7 + i / 97);
  for (size_t i = 0; i < m; i++) y += static_cast<char>(i * 5 + i / 89 + 1);
  note("texts of %zu and %zu bytes", n, m);
  const seq::Cut cx(x), cy(y);
  const std::string a = rst::StrCat({std::string_view(cx), 5, std::string_view(cy), std::string_view(cx)});
  SEQ_CHECK(a == x + "5" + y + x, "StrCat returned %zu bytes that differ", a.size());
  const std::string f = rst::Format("{{{}, {}{}{}}}", {std::string_view(cx), std::string_view(cy), 'c', x});
  SEQ_CHECK(f == "{" + x + ", " + y + "c" + x + "}", "Format returned %zu bytes that differ", f.size());
  seq::observe(a);
  seq::observe(f);
  seq::step();
}

// A GUID at the front of gigabytes of memory.
void FarLengths() {
  seq::patience(250);
  static constexpr size_t kFar[] = {size_t{1} << 31, (size_t{1} << 32) - 1, size_t{1} << 32, (size_t{1} << 32) + 1, size_t{1} << 33};
  static char* const p = [] {
    void* m = mmap(nullptr, kFar[4] + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return m == MAP_FAILED ? nullptr : static_cast<char*>(m);
  }();
  if (p == nullptr) return;
  const size_t n = kFar[choose(5)] + static_cast<size_t>(choose(3)) + 35;
  memcpy(p, kBases[choose(2)], 36);
  const std::string_view v(p, n);
  seq::step();
  SEQ_CHECK(!rst::Guid::IsValid(v), "IsValid() accepts %zu characters", n);
  SEQ_CHECK(!rst::Guid::IsValidOutputString(v), "IsValidOutputString() accepts %zu characters", n);
}

// More than 4 GiB of text.  The texts are zeros that take no memory, with marks.
template <class Make>
void HugeTexts(Make make) {
  if (seq::free_memory() < 14) return;  // No room.
  seq::patience(250);
  static constexpr size_t kSize = (size_t{1} << 30) + 8192;
  static char* const p = [] {
    void* m = mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return static_cast<char*>(nullptr);
    for (int i = 0; i < 4096; i++) {
      static_cast<char*>(m)[i] = static_cast<char>(i % 251 + 1);
      static_cast<char*>(m)[kSize - 1 - static_cast<size_t>(i)] = static_cast<char>(i % 241 + 2);
    }
    return static_cast<char*>(m);
  }();
  if (p == nullptr) return;
  const std::string_view v[4] = {{p, kSize - 1}, {p + 1, kSize - 1}, {p + 2, kSize - 2}, {p + 3, kSize - 5}};
  std::vector<std::string_view> want;
  const std::string got = make(v, &want);
  size_t at = 0;
  for (const auto w : want) {
    SEQ_CHECK(got.size() >= at + w.size() && memcmp(got.data() + at, w.data(), w.size()) == 0,
              "a text of more than 4 GiB differs (%zu bytes)", got.size());
    at += w.size();
  }
  SEQ_CHECK(at == got.size(), "%zu bytes instead of %zu", got.size(), at);
  seq::step();
}
void HugeCat() {
  HugeTexts([](const std::string_view* v, std::vector<std::string_view>* want) {
    *want = {v[0], "x", v[1], v[2], "-17", v[3]};
    return rst::StrCat({v[0], 'x', v[1], v[2], -17, v[3]});
  });
}
void HugeFormat() {
  HugeTexts([](const std::string_view* v, std::vector<std::string_view>* want) {
    *want = {"{", v[0], "a}", v[1], v[2], "1", v[3], "z"};
    return rst::Format("{{{}a}}{}{}{}{}z", {v[0], v[1], v[2], 1, v[3]});
  });
}

SEQ_SCENARIOS(text) {
  seq::add1("C25", "format_huge", HugeFormat);
  seq::add1("C26", "cat_huge", HugeCat);
  seq::add1("C25", "format_many", Many);
  seq::add1("C25", "format_long", LongTexts);
  seq::add1("C25", "format_too_many", FormatTooMany);
  seq::add1("C26", "cat_many", Many);
  seq::add1("C26", "cat_long", LongTexts);
  seq::add1("C24", "guid_one_byte", OneByte);
  seq::add1("C24", "guid_two_bytes", TwoBytes);
  seq::add("C24", "guid_three_bytes", 1, 2, [] {
    if (seq::bound() == 2) ThreeBytes();
  });
  seq::add1("C24", "guid_lengths", Lengths);
  seq::add1("C24", "guid_far_lengths", FarLengths);
  seq::add1("C24", "guid_hyphens", Hyphens);
  seq::add("C25", "format_chars", 7, 9, FormatChars);
  seq::add("C25", "format_pieces", 5, 7, FormatPieces);
  seq::add1("C25", "format_bytes", FormatBytes);
  seq::add1("C26", "short_full_range", FullRange<short>);
  seq::add1("C26", "unsigned_short_full_range", FullRange<unsigned short>);
  seq::add1("C26", "int_family", Family<int>);
  seq::add1("C26", "unsigned_family", Family<unsigned>);
  seq::add1("C26", "long_family", Family<long>);
  seq::add1("C26", "unsigned_long_family", Family<unsigned long>);
  seq::add1("C26", "long_long_family", Family<long long>);
  seq::add1("C26", "unsigned_long_long_family", Family<unsigned long long>);
  seq::add1("C26", "bool_char", Small);
  seq::add1("C26", "enums", Enums);
  seq::add1("C26", "doubles", Doubles);
  seq::add1("C26", "nans", NaNs);
  seq::add1("C26", "texts", Texts);
  seq::add("C26", "cat_sequences", 7, 9, Sequences);
  seq::add1("C26", "mixed_types", Mixed);
}

}  // namespace
