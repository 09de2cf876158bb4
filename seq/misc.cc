// C27: Logger.  C29: HashCombine.  C30: deferred and taken callables.
// C31: container helpers, strong types, clones, never-destroyed objects.
// C32: checks.
#include <array>
#include <climits>
#include <cmath>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

#include "rst/bind/bind_helpers.h"
#include "rst/check/check.h"
#include "rst/clone/clone.h"
#include "rst/defer/defer.h"
#include "rst/logger/logger.h"
#include "rst/logger/sink.h"
#include "rst/macros/macros.h"
#include "rst/macros/optimization.h"
#include "rst/memory/memory.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/not_null/not_null.h"
#include "rst/stl/algorithm.h"
#include "rst/stl/function.h"
#include "rst/stl/hash.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"
#include "rst/type/type.h"
#include "seq/seq.h"

using seq::choose;
using seq::note;
using seq::Tok;

struct OwnType {
  int v;
};
template <>
struct std::hash<OwnType> {
  size_t operator()(const OwnType& o) const { return static_cast<size_t>(o.v) * 3 + 1; }
};

namespace {

// ---- C27 ---------------------------------------------------------------------

class Record : public rst::Sink {
 public:
  explicit Record(std::vector<std::string>* out) : out_(out) {}
  void Log(std::string_view message) override { out_->emplace_back(message); }

 private:
  std::vector<std::string>* out_;
};

using Level = rst::Logger::Level;
const Level kLevels[] = {Level::kDebug, Level::kInfo, Level::kWarning, Level::kError, Level::kFatal};
const char* const kNames[] = {"DEBUG", "INFO", "WARNING", "ERROR", "FATAL"};
const Level kFilters[] = {Level::kAll,   Level::kDebug, Level::kInfo, Level::kWarning,
                          Level::kError, Level::kFatal, Level::kOff};

const std::string kMessages[] = {
    "message", "", "{}", "100%s%n", std::string("a\0b", 3), "\n\xff", std::string(300, 'm'), "} {{",
};
const char* const kFiles[] = {"file.cc", "", "dir/{}.cc", "a%s(1)", "a very long file name, longer than any buffer"};
const int kLines[] = {1, 42, INT_MAX};

void Logging() {
  std::vector<std::string> out[2], want[2];
  rst::Logger a(std::make_unique<Record>(&out[0]));
  rst::Logger b(std::make_unique<Record>(&out[1]));
  rst::Logger* logger[2] = {&a, &b};
  int filter[2] = {0, 0};
  int cur = 0;
  rst::Logger::SetGlobalLogger(&a);
  for (int k = 0; k < seq::bound(); k++) {
    bool fatal = false, end = false;
    switch (choose(3)) {
      case 0: {
        const int w = choose(2);
        filter[w] = choose(7);
        note("level %d for logger %d", filter[w], w);
        logger[w]->set_level(kFilters[filter[w]]);
        seq::step();
        break;
      }
      case 1:
        cur ^= 1;
        note("global logger %d", cur);
        rst::Logger::SetGlobalLogger(logger[cur]);
        seq::step();
        break;
      case 2: {
        const int l = choose(5);
        // All messages, files and lines one by one; then pairs of a few.
        const int m = k < 2 ? choose(8) : choose(2), f = k < 1 ? choose(5) : (m == 0 ? choose(5) : 0),
                  n = f == 0 ? choose(3) : 0;
        note("log %s", kNames[l]);
        const bool passes = filter[cur] <= l + 1;
        fatal = passes && l == 4;
        if (passes) {
          want[cur].push_back("[" + std::string(kNames[l]) + ":" + kFiles[f] + "(" + std::to_string(kLines[n]) + ")] " +
                              kMessages[m]);
        }
        auto log = [&] {
          // The message ends where its view does.
          rst::Logger::Log(kLevels[l], kFiles[f], kLines[n], seq::Cut(kMessages[m]));
        };
        if (fatal) {
          SEQ_CHECK(seq::stopped(log), "the program continued after a fatal record");
          end = true;
        } else {
          log();
        }
        seq::step();
        break;
      }
    }
    for (int w = 0; w < 2; w++) {
      SEQ_CHECK(out[w].size() == want[w].size(), "logger %d received %zu records instead of %zu", w, out[w].size(),
                want[w].size());
      for (size_t i = 0; i < want[w].size(); i++) {
        SEQ_CHECK(out[w][i] == want[w][i], "record %zu of logger %d is \"%s\" instead of \"%s\"", i, w,
                  out[w][i].c_str(), want[w][i].c_str());
        seq::observe(out[w][i]);
      }
    }
    seq::state(seq::mix(static_cast<uint64_t>(cur + 2 * filter[0] + 16 * filter[1]),
                        seq::hash(want[cur].empty() ? "" : want[cur].back())));
    if (end) seq::done();
  }
}

// The macros: the record names their line; the debug ones exist in checked
// builds only.
void LogMacros() {
  std::vector<std::string> out;
  rst::Logger logger(std::make_unique<Record>(&out));
  rst::Logger::SetGlobalLogger(&logger);
  const int f = choose(7);
  logger.set_level(kFilters[f]);
  int evaluated = 0, line = 0;
  auto msg = [&evaluated] {
    evaluated++;
    return std::string_view("text");
  };
  const int which = choose(10), l = which % 5;
  const bool debug = which >= 5;
  const bool braces = seq::flip();
  auto run = [&] {
    // As single statements, and as a branch without braces.
    switch (which) {
      case 0: line = __LINE__; RST_LOG_DEBUG(msg()); break;
      case 1: line = __LINE__; RST_LOG_INFO(msg()); break;
      case 2: line = __LINE__; RST_LOG_WARNING(msg()); break;
      case 3: line = __LINE__; RST_LOG_ERROR(msg()); break;
      case 4: line = __LINE__; RST_LOG_FATAL(msg()); break;
      case 5: line = __LINE__; RST_DLOG_DEBUG(msg()); break;
      case 6: line = __LINE__; RST_DLOG_INFO(msg()); break;
      case 7: line = __LINE__; RST_DLOG_WARNING(msg()); break;
      case 8: line = __LINE__; RST_DLOG_ERROR(msg()); break;
      case 9: line = __LINE__; if (braces) { RST_DLOG_FATAL(msg()); } else RST_DLOG_FATAL(msg()); break;
    }
  };
  const bool exists = !debug || seq::kChecked;
  const bool passes = exists && f <= l + 1;
  note("macro %d at filter %d", which, f);
  const bool stop = seq::stopped(run);
  seq::step();
  SEQ_CHECK(stop == (passes && l == 4), "the program was %sstopped", stop ? "" : "not ");
  SEQ_CHECK(evaluated == (exists ? 1 : 0), "the message was evaluated %d times", evaluated);
  SEQ_CHECK(out.size() == (passes ? 1u : 0u), "%zu records were written", out.size());
  if (passes) {
    const std::string want =
        "[" + std::string(kNames[l]) + ":" + __FILE__ + "(" + std::to_string(line) + ")] text";
    SEQ_CHECK(out[0] == want, "the record is \"%s\" instead of \"%s\"", out[0].c_str(), want.c_str());
  }
}

// Messages and file names of many lengths; many records.
void LogLong() {
  static const size_t kSizes[] = {0,    1,    7,    8,    15,   16,   31,   63,   64,    127,   128,   200,   255,
                                  256,  257,  300,  511,  512,  513,  1000, 1023, 1024,  1025,  2047,  2048,  2049,
                                  4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 70000};
  std::vector<std::string> out;
  rst::Logger logger(std::make_unique<Record>(&out));
  rst::Logger::SetGlobalLogger(&logger);
  const int l = choose(5), which = choose(3);
  const size_t n = kSizes[choose(39)];
  std::string text;
  for (size_t i = 0; i < n; i++) text += static_cast<char>('!' + (i * 7 + i / 97) % 90);
  const std::string file = which == 0 ? "file.cc" : text, message = which == 1 ? "" : text;
  note("a message of %zu bytes, a file name of %zu", message.size(), file.size());
  auto log = [&] { rst::Logger::Log(kLevels[l], rst::NotNull<const char*>(file.c_str()), 7, seq::Cut(message)); };
  const bool stop = seq::stopped(log);
  SEQ_CHECK(stop == (l == 4), "the program was %sstopped", stop ? "" : "not ");
  const std::string want = "[" + std::string(kNames[l]) + ":" + file + "(7)] " + message;
  SEQ_CHECK(out.size() == 1, "%zu records were written", out.size());
  SEQ_CHECK(out[0] == want, "the record of %zu bytes differs from the %zu bytes it should have", out[0].size(),
            want.size());
  seq::observe(out[0]);
  seq::state(seq::hash(want));
  seq::step();
}
void LogMany() {
  std::vector<std::string> out;
  rst::Logger logger(std::make_unique<Record>(&out));
  rst::Logger::SetGlobalLogger(&logger);
  size_t count = 0;
  const int filter = choose(7);
  logger.set_level(kFilters[filter]);
  for (int i = 0; i < 70000; i++) {
    const int l = i % 4;
    const std::string m = std::to_string(i);
    rst::Logger::Log(kLevels[l], "f", i + 1, m);
    if (filter <= l + 1) {
      count++;
      SEQ_CHECK(out.size() == 1, "record %d: %zu records were written", i, out.size());
      SEQ_CHECK(out[0] == "[" + std::string(kNames[l]) + ":f(" + std::to_string(i + 1) + ")] " + m, "record %d is \"%s\"", i,
                out[0].c_str());
      out.clear();
    } else {
      SEQ_CHECK(out.empty(), "record %d was not filtered", i);
    }
  }
  seq::observe(uint64_t{count});
  seq::step();
}

SEQ_SCENARIOS(logger) {
  seq::add1("C27", "log_long", LogLong);
  seq::add1("C27", "log_many", LogMany);
  seq::add("C27", "log_history", 3, 4, Logging);
  seq::Scenario s;
  s.group = "C27";
  s.name = "log_macros";
  s.body = LogMacros;
  s.same = false;
  seq::add(s);
}

// ---- C29 ---------------------------------------------------------------------

template <class E, size_t... I>
size_t HashN(const E* v, std::index_sequence<I...>) {
  return rst::HashCombine({v[I]...});
}
template <class E, size_t... N>
size_t HashV(const std::vector<E>& v, std::index_sequence<N...>) {
  using Fn = size_t (*)(const E*);
  static constexpr Fn kFns[] = {
      +[](const E*) -> size_t { return rst::HashCombine({}); },
      +[](const E* p) -> size_t { return HashN<E>(p, std::make_index_sequence<N + 1>()); }...};
  return kFns[v.size()](v.data());
}
constexpr size_t kMaxHash = 48;
template <class E>
size_t Hash(const std::vector<E>& v) {
  seq::step();
  return HashV(v, std::make_index_sequence<kMaxHash>());
}

const uint64_t kElems[] = {0, 1, 2, 3, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0x00ff00ff00ff00ffull};

// All sequences up to the bound: each has its own hash.
void HashSequences() {
  const int alphabet = seq::bound() <= 5 ? 8 : 11 - seq::bound();
  std::unordered_map<size_t, std::vector<uint64_t>> seen;
  std::vector<uint64_t> v;
  std::function<void(int)> rec = [&](int left) {
    const size_t h = Hash(v);
    seq::observe(uint64_t{h});
    seq::state(h);
    SEQ_CHECK(h == Hash(v), "the hash of the same sequence differs from call to call");
    if (v.empty()) {
      static const size_t empty = h;
      SEQ_CHECK(h == empty, "the empty hash differs from call to call");
    } else {
      if (v.size() == 1)
        SEQ_CHECK(h == std::hash<uint64_t>()(v[0]), "the hash of a single element is not that element's");
      auto it = seen.find(h);
      if (it != seen.end()) {
        std::string a, b;
        for (auto x : v) a += " " + std::to_string(x);
        for (auto x : it->second) b += " " + std::to_string(x);
        seq::fail("the sequences%s and%s have the same hash", a.c_str(), b.c_str());
      }
      seen.emplace(h, v);
    }
    if (left == 0) return;
    for (int i = 0; i < alphabet; i++) {
      v.push_back(kElems[i]);
      rec(left - 1);
      v.pop_back();
    }
  };
  rec(seq::bound());
}

// Long sequences: every single bit of every element, every swap, every removal
// and every repetition shows.
void HashLong() {
  const int n = 1 + choose(static_cast<int>(kMaxHash) - 1);
  const int kind = choose(4);
  std::vector<uint64_t> v;
  for (int i = 0; i < n; i++) {
    const uint64_t x = static_cast<uint64_t>(i);
    v.push_back(kind == 0 ? 7 : kind == 1 ? x + 1 : kind == 2 ? (x + 1) * 0x9E3779B97F4A7C15ull : x % 2);
  }
  note("%d elements of kind %d", n, kind);
  const size_t h = Hash(v);
  seq::observe(uint64_t{h});
  std::map<size_t, std::string> seen;
  seen[h] = "the original";
  auto add = [&](const std::vector<uint64_t>& w, const std::string& what) {
    if (w == v) return;
    const size_t g = Hash(w);
    seq::observe(uint64_t{g});
    SEQ_CHECK(g != h, "%s does not change the hash", what.c_str());
  };
  for (size_t i = 0; i < v.size(); i++) {
    for (int b = 0; b < 64; b++) {
      auto w = v;
      w[i] ^= 1ull << b;
      const size_t g = Hash(w);
      const std::string what = "bit " + std::to_string(b) + " of element " + std::to_string(i);
      auto it = seen.find(g);
      SEQ_CHECK(it == seen.end(), "changing %s gives the same hash as %s", what.c_str(), it->second.c_str());
      seen[g] = what;
    }
    for (size_t j = 0; j < i; j++) {
      auto w = v;
      std::swap(w[i], w[j]);
      add(w, "swapping elements " + std::to_string(i) + " and " + std::to_string(j));
    }
    auto w = v;
    w.erase(w.begin() + static_cast<long>(i));
    if (w.size() > 1) add(w, "removing element " + std::to_string(i));
    w = v;
    w.insert(w.begin() + static_cast<long>(i), v[i]);
    if (w.size() < kMaxHash) add(w, "repeating element " + std::to_string(i));
  }
  seq::state(h);
}

// Longer ones, of chosen lengths.
template <size_t N>
void HashLonger(int kind) {
  std::vector<uint64_t> v;
  for (size_t x = 0; x < N + 1; x++) v.push_back(kind == 0 ? 7 : kind == 1 ? x + 1 : (x + 1) * 0x9E3779B97F4A7C15ull);
  constexpr auto kSame = std::make_index_sequence<N>();
  const size_t h = HashN(v.data(), kSame);
  std::map<size_t, std::string> seen;
  seen[h] = "nothing";
  auto add = [&](size_t g, const std::string& what) {
    auto it = seen.find(g);
    SEQ_CHECK(it == seen.end(), "%zu elements: changing %s gives the same hash as %s", N, what.c_str(),
              it->second.c_str());
    seen[g] = what;
    seq::step();
  };
  add(HashN(v.data(), std::make_index_sequence<N + 1>()), "the length by 1");
  add(HashN(v.data(), std::make_index_sequence<N - 1>()), "the length by -1");
  for (size_t i = 0; i < N; i++) {
    for (int b = 0; b < 64; b += 9) {
      v[i] ^= 1ull << b;
      add(HashN(v.data(), kSame), "bit " + std::to_string(b) + " of element " + std::to_string(i));
      v[i] ^= 1ull << b;
    }
    for (size_t d : {size_t{1}, size_t{2}, size_t{3}, size_t{4}, size_t{8}, size_t{16}, size_t{64}, size_t{128}, size_t{256}}) {
      if (i + d >= N || v[i] == v[i + d]) continue;
      std::swap(v[i], v[i + d]);
      const size_t g = HashN(v.data(), kSame);
      add(g, "elements " + std::to_string(i) + " and " + std::to_string(i + d) + " by swapping");
      std::swap(v[i], v[i + d]);
    }
  }
  seq::observe(uint64_t{h});
  seq::state(h);
}
void HashLongest() {
  const int kind = choose(3);
  switch (choose(17)) {
    case 0: HashLonger<49>(kind); break;
    case 1: HashLonger<50>(kind); break;
    case 2: HashLonger<63>(kind); break;
    case 3: HashLonger<64>(kind); break;
    case 4: HashLonger<65>(kind); break;
    case 5: HashLonger<99>(kind); break;
    case 6: HashLonger<100>(kind); break;
    case 7: HashLonger<127>(kind); break;
    case 8: HashLonger<128>(kind); break;
    case 9: HashLonger<129>(kind); break;
    case 10: HashLonger<200>(kind); break;
    case 11: HashLonger<255>(kind); break;
    case 12: HashLonger<256>(kind); break;
    case 13: HashLonger<257>(kind); break;
    case 14: HashLonger<300>(kind); break;
    case 15: HashLonger<512>(kind); break;
    case 16: HashLonger<513>(kind); break;
  }
}

enum class Colour { kRed = 3, kBlue = 5 };
// Every hashable type takes part with its own hash.
void HashTypes() {
  const std::string s = "text";
  const std::string_view sv = "view";
  const int i = -5;
  int x = 0;
  int* p = &x;
  const double d = 0.25;
  const bool b = true;
  const char c = 'c';
  using Strong = rst::Type<class StrongTag, int>;
  const Strong st(9);
  const Colour e = Colour::kBlue;
  SEQ_CHECK(rst::HashCombine({s}) == std::hash<std::string>()(s), "string");
  SEQ_CHECK(rst::HashCombine({sv}) == std::hash<std::string_view>()(sv), "string_view");
  SEQ_CHECK(rst::HashCombine({i}) == std::hash<int>()(i), "int");
  SEQ_CHECK(rst::HashCombine({p}) == std::hash<int*>()(p), "pointer");
  SEQ_CHECK(rst::HashCombine({d}) == std::hash<double>()(d), "double");
  SEQ_CHECK(rst::HashCombine({b}) == std::hash<bool>()(b), "bool");
  SEQ_CHECK(rst::HashCombine({c}) == std::hash<char>()(c), "char");
  SEQ_CHECK(rst::HashCombine({st}) == std::hash<Strong>()(st), "strong type");
  SEQ_CHECK(rst::HashCombine({e}) == std::hash<Colour>()(e), "enum");
  SEQ_CHECK(rst::HashCombine({std::string("text")}) == rst::HashCombine({s}), "temporary");
  // Mixed types combine as their hashes do.
  const std::vector<uint64_t> hs = {std::hash<std::string>()(s), std::hash<int>()(i), std::hash<double>()(d),
                                    std::hash<int*>()(p), std::hash<Strong>()(st)};
  SEQ_CHECK(rst::HashCombine({s, i, d, p, st}) == Hash(hs), "elements of different types");
  seq::step();
}

template <class T>
void OwnHash(const char* what, std::vector<T> values) {
  for (size_t i = 0; i < values.size(); i++) {
    T& v = values[i];
    const T& c = v;
    const uint64_t own = std::hash<T>()(v);
    SEQ_CHECK(rst::HashCombine({v}) == own && rst::HashCombine({c}) == own, "a single %s has another hash (number %zu)", what, i);
    if constexpr (std::is_copy_constructible_v<T>)
      SEQ_CHECK(rst::HashCombine({T(v)}) == own, "a single temporary %s has another hash (number %zu)", what, i);
    SEQ_CHECK(rst::HashCombine({7, v}) == Hash(std::vector<uint64_t>{std::hash<int>()(7), own}), "%s number %zu as the second element", what, i);
    SEQ_CHECK(rst::HashCombine({c, 7, v}) == Hash(std::vector<uint64_t>{own, std::hash<int>()(7), own}), "%s number %zu as first and last", what, i);
    seq::step();
  }
}
void HashMoreTypes() {
  OwnHash<float>("float", {0.0f, -0.0f, 1.5f, -3e30f});
  OwnHash<double>("double", {0.0, -0.0, 1.5, -3e300, HUGE_VAL});
  OwnHash<long double>("long double", {0.0L, -1.25L, 1e100L});
  OwnHash<short>("short", {0, -1, 32767, -32768});
  OwnHash<unsigned short>("unsigned short", {0, 1, 65535});
  OwnHash<signed char>("signed char", {0, -1, 127, -128});
  OwnHash<unsigned char>("unsigned char", {0, 1, 255});
  OwnHash<char>("char", {0, 'a', '\xff'});
  OwnHash<wchar_t>("wchar_t", {0, L'a'});
  OwnHash<char16_t>("char16_t", {0, u'a', 0xffff});
  OwnHash<char32_t>("char32_t", {0, U'a', 0x10ffff});
  OwnHash<int>("int", {0, -1, INT_MAX, INT_MIN});
  OwnHash<unsigned>("unsigned", {0, 1, UINT_MAX});
  OwnHash<long>("long", {0, -1, LONG_MAX, LONG_MIN});
  OwnHash<unsigned long>("unsigned long", {0, 1, ULONG_MAX, 1ul << 32});
  OwnHash<long long>("long long", {0, -1, LLONG_MAX, LLONG_MIN});
  OwnHash<unsigned long long>("unsigned long long", {0, 1, ULLONG_MAX, 1ull << 32});
  OwnHash<std::nullptr_t>("nullptr", {nullptr});
  static const char text[] = "text";
  OwnHash<const char*>("const char*", {text, text + 1, nullptr});
  OwnHash<const void*>("const void*", {text, nullptr});
  OwnHash<std::string>("string", {"", "a", std::string("a\0b", 3), std::string(100, 'x')});
  OwnHash<std::string_view>("string_view", {"", std::string_view("abcdef", 3)});
  OwnHash<std::u16string>("u16string", {u"", u"abc"});
  OwnHash<std::optional<int>>("optional", {std::nullopt, 0, 5});
  OwnHash<std::vector<bool>>("vector of bool", {{}, {true}, {true, false, true}});
  OwnHash<std::shared_ptr<int>>("shared_ptr", {nullptr, std::make_shared<int>(5)});
  std::vector<std::unique_ptr<int>> u;
  u.push_back(nullptr);
  u.push_back(std::make_unique<int>(6));
  OwnHash<std::unique_ptr<int>>("unique_ptr", std::move(u));
  int x[2];
  OwnHash<rst::NotNull<int*>>("not-null pointer", {&x[0], &x[1]});
  OwnHash<rst::Nullable<int*>>("nullable pointer", {&x[0], nullptr});
  OwnHash<OwnType>("own type", {{0}, {1}, {-5}});
}

SEQ_SCENARIOS(hash) {
  seq::add("C29", "hash_sequences", 6, 8, HashSequences);
  seq::add1("C29", "hash_long", HashLong);
  seq::add1("C29", "hash_longest", HashLongest);
  seq::add1("C29", "hash_types", HashTypes);
  seq::add1("C29", "hash_more_types", HashMoreTypes);
}

// ---- C30 ---------------------------------------------------------------------

std::string g_order;
void Mark(char c) { g_order += c; }
void FreeFunction() { Mark('f'); }

struct Functor {
  explicit Functor(char c) : c(c) {}
  void operator()() const { Mark(c); }
  char c;
  Tok t{1};
};

// Each way out of a scope with deferred actions, in nested scopes and loops.
int Paths(int way, int outer, int inner) {
  RST_DEFER([] { Mark('1'); });
  if (outer > 0) {
    RST_DEFER([] { Mark('2'); });
    Mark('a');
    for (int i = 0; i < inner; i++) {
      RST_DEFER([] { Mark('3'); });
      RST_DEFER([] { Mark('4'); });
      Mark('b');
      if (way == 1) break;
      if (way == 2) continue;
      if (way == 3) return 3;
      if (way == 4) goto out;
      Mark('c');
    }
    Mark('d');
    if (way == 5) return 5;
  }
  Mark('e');
out:
  Mark('o');
  RST_DEFER([] { Mark('5'); });
  switch (way) {
    case 6: {
      RST_DEFER([] { Mark('6'); });
      return 6;
    }
    default:
      break;
  }
  Mark('z');
  return 0;
}
std::string PathsModel(int way, int outer, int inner) {
  std::string s;
  bool jumped = false;
  if (outer > 0) {
    s += 'a';
    for (int i = 0; i < inner; i++) {
      s += 'b';
      if (way == 1) {
        s += "43";
        break;
      }
      if (way == 2) {
        s += "43";
        continue;
      }
      if (way == 3) return s + "4321";
      if (way == 4) {
        s += "432";
        jumped = true;
        break;
      }
      s += "c43";
    }
    if (!jumped) {
      s += 'd';
      if (way == 5) return s + "21";
      s += '2';
    }
  }
  if (!jumped) s += 'e';
  s += 'o';
  if (way == 6) return s + "651";
  return s + "z51";
}
void DeferPaths() {
  const int way = choose(7), outer = choose(2), inner = choose(4);
  g_order.clear();
  const int r = Paths(way, outer, inner);
  (void)r;
  seq::step();
  seq::observe(g_order);
  const std::string want = PathsModel(way, outer, inner);
  SEQ_CHECK(g_order == want, "way %d, %d, %d: the actions ran as %s instead of %s", way, outer, inner, g_order.c_str(),
            want.c_str());
  seq::state(seq::hash(g_order));
}

// Every kind of action, two in each scope.
void OneDefer(int kind, int depth);
void DeferKinds() {
  const int live = seq::Live::live;
  g_order.clear();
  std::string want;
  const int k1 = choose(8), k2 = choose(8);
  OneDefer(k1 * 8 + k2, 0);
  static const char kMarks[] = "fgLmpsvw";
  want = std::string("x") + kMarks[k2] + kMarks[k1];
  seq::step();
  seq::observe(g_order);
  SEQ_CHECK(g_order == want, "the actions ran as %s instead of %s", g_order.c_str(), want.c_str());
  SEQ_CHECK(seq::Live::live == live, "%d objects captured by actions were not destroyed", seq::Live::live - live);
}
void OneDefer(int kinds, int depth) {
  if (depth == 2) {
    Mark('x');
    return;
  }
  const int kind = depth == 0 ? kinds / 8 : kinds % 8;
  switch (kind) {
    case 0: {
      RST_DEFER(FreeFunction);
      OneDefer(kinds, depth + 1);
      break;
    }
    case 1: {
      RST_DEFER(Functor('g'));
      OneDefer(kinds, depth + 1);
      break;
    }
    case 2: {
      // An object that lives on: it is called, not a copy of it.
      Functor f('?');
      RST_DEFER(f);
      f.c = 'L';
      OneDefer(kinds, depth + 1);
      break;
    }
    case 3: {
      auto p = std::make_unique<Functor>('m');
      RST_DEFER([p = std::move(p)] { (*p)(); });
      OneDefer(kinds, depth + 1);
      break;
    }
    case 4: {
      void (*const pointer)() = [] { Mark('p'); };
      RST_DEFER(pointer);
      OneDefer(kinds, depth + 1);
      break;
    }
    case 5: {
      const std::function<void()> f = Functor('s');
      RST_DEFER(f);
      OneDefer(kinds, depth + 1);
      break;
    }
    case 6: {
      RST_DEFER(std::function<void()>([t = Tok(3)] { Mark(t.v() == 3 ? 'v' : '!'); }));
      OneDefer(kinds, depth + 1);
      break;
    }
    case 7: {
      int n = 0;
      RST_DEFER([&n] { Mark(n == 1 ? 'w' : '!'); });
      n++;
      OneDefer(kinds, depth + 1);
      break;
    }
  }
}

// TakeFunction: a history of taking, copying and calling among three
// variables.  The functions count their calls: a copy counts on its own.
int g_calls;
void TakeHistory() {
  const int live = seq::Live::live;
  {
    using F = std::function<int(int, std::unique_ptr<int>)>;
    struct M {
      int id = 0, count = 0;
    };
    F f[3];
    M model[3];
    int next = 1;
    for (int k = 0; k < seq::bound(); k++) {
      const int a = choose(3);
      switch (choose(4)) {
        case 0: {
          const int id = next++;
          if (seq::flip()) {
            // Held in place, or on the heap.
            struct Small {
              short id, count;
              int operator()(int x, std::unique_ptr<int> p) {
                g_calls++;
                return ++count * 10000 + id * 100 + x * 10 + *p;
              }
            };
            f[a] = Small{static_cast<short>(id), 0};
          } else {
            f[a] = [id, count = 0, t = Tok(id), pad = std::array<long, 8>()](int x, std::unique_ptr<int> p) mutable {
              g_calls++;
              return ++count * 10000 + t.v() * 100 + x * 10 + *p + static_cast<int>(pad[0]);
            };
          }
          model[a] = {id, 0};
          note("f%d is function %d", a, id);
          break;
        }
        case 1: {
          const int b = choose(3);
          if (a == b) {
            note("f%d = take f%d, through another", a, a);
            F t = rst::TakeFunction(std::move(f[a]));
            SEQ_CHECK(f[a] == nullptr, "the source of TakeFunction is not empty");
            SEQ_CHECK((t != nullptr) == (model[a].id != 0), "TakeFunction yields %s function",
                      t != nullptr ? "a" : "no");
            f[a] = std::move(t);
            break;
          }
          note("f%d = take f%d", b, a);
          f[b] = rst::TakeFunction(std::move(f[a]));
          model[b] = model[a];
          model[a] = {};
          break;
        }
        case 2: {
          const int b = choose(3);
          if (a == b) seq::done();
          note("f%d = f%d", b, a);
          f[b] = f[a];
          model[b] = model[a];
          break;
        }
        case 3: {
          if (model[a].id == 0) seq::done();
          g_calls = 0;
          note("call f%d", a);
          const int r = f[a](k, std::make_unique<int>(k + 1));
          model[a].count++;
          SEQ_CHECK(g_calls == 1, "the function ran %d times", g_calls);
          const int want = model[a].count * 10000 + model[a].id * 100 + k * 10 + k + 1;
          SEQ_CHECK(r == want, "the taken function returned %d instead of %d", r, want);
          break;
        }
      }
      seq::step();
      uint64_t h = 0;
      for (int i = 0; i < 3; i++) {
        SEQ_CHECK((f[i] != nullptr) == (model[i].id != 0), "f%d is %s", i, f[i] != nullptr ? "not empty" : "empty");
        h = seq::mix(h, static_cast<uint64_t>(model[i].id * 100 + model[i].count));
      }
      seq::observe(h);
      seq::state(h);
    }
    // What is left of each, called once more.
    for (int i = 0; i < 3; i++) {
      if (!f[i]) continue;
      const int r = f[i](0, std::make_unique<int>(0));
      SEQ_CHECK(r == (model[i].count + 1) * 10000 + model[i].id * 100, "f%d returned %d at the end", i, r);
    }
  }
  SEQ_CHECK(seq::Live::live == live, "%d captured objects were not destroyed", seq::Live::live - live);
}

template <class F>
void NoOp(const char* what) {
  F f = rst::NullFunction();
  SEQ_CHECK(f == nullptr, "NullFunction is not null as %s", what);
  f = rst::NullFunction();
  SEQ_CHECK(!f, "NullFunction is not null as %s", what);
  F t = rst::TakeFunction(std::move(f));
  SEQ_CHECK(t == nullptr && f == nullptr, "taking an empty %s", what);
  seq::step();
}
int TakesCallback(const std::function<void(int, Tok)>& f) {
  if (!f) return 0;
  f(1, Tok(2));
  return 1;
}

void Callables() {
  const int live = seq::Live::live;
  {
    NoOp<std::function<void()>>("void()");
    NoOp<std::function<int()>>("int()");
    NoOp<std::function<int&(int&)>>("int&(int&)");
    NoOp<std::function<std::string(const std::string&, int)>>("string(const string&, int)");
    NoOp<std::function<std::unique_ptr<int>(std::unique_ptr<int>)>>("unique_ptr(unique_ptr)");
    std::function<void()> a = rst::DoNothing();
    a();
    std::function<void(int)> b = rst::DoNothing();
    b(1);
    std::function<void(int, Tok)> c = rst::DoNothing();
    Tok t(5);
    c(1, t);
    SEQ_CHECK(t.v() == 5, "DoNothing changed an argument");
    c(1, std::move(t));
    std::function<void(std::unique_ptr<Tok>, const std::string&)> d = rst::DoNothing();
    d(std::make_unique<Tok>(1), "x");
    std::function<void(int&)> e = rst::DoNothing();
    int n = 3;
    e(n);
    SEQ_CHECK(n == 3, "DoNothing changed an argument");
    auto g = rst::DoNothing::Function<int, std::string>();
    g(1, "x");
    auto h = rst::DoNothing::Function<>();
    h();
    SEQ_CHECK(a && b && c && d && e && g && h, "DoNothing is null");
    SEQ_CHECK(TakesCallback(rst::DoNothing()) == 1, "DoNothing was not passed on");
    SEQ_CHECK(TakesCallback(rst::NullFunction()) == 0, "NullFunction was not passed on");
    std::function<void(int, Tok)> k = rst::TakeFunction(std::move(c));
    SEQ_CHECK(k && !c, "taking a DoNothing");
    k(1, Tok(1));
    // References pass through a taken function.
    std::function<int&(int&, const std::string&)> r = [](int& x, const std::string& s) -> int& {
      x += static_cast<int>(s.size());
      return x;
    };
    auto r2 = rst::TakeFunction(std::move(r));
    SEQ_CHECK(r == nullptr && &r2(n, "four") == &n && n == 7, "a taken function with references");
    seq::step();
  }
  SEQ_CHECK(seq::Live::live == live, "%d objects were not destroyed", seq::Live::live - live);
}

SEQ_SCENARIOS(callables) {
  seq::add1("C30", "defer_paths", DeferPaths);
  seq::add1("C30", "defer_kinds", DeferKinds);
  seq::add("C30", "take_history", 4, 6, TakeHistory);
  seq::add1("C30", "callables", Callables);
}

// ---- C31 ---------------------------------------------------------------------

struct Tagged {
  int key, tag;
  friend bool operator<(const Tagged& a, const Tagged& b) { return a.key < b.key; }
  friend bool operator==(const Tagged& a, const Tagged& b) { return a.key == b.key && a.tag == b.tag; }
};
struct ByKeyDown {
  bool operator()(const Tagged& a, const Tagged& b) const { return a.key > b.key; }
};

std::string Text(const std::vector<Tagged>& v) {
  std::string s;
  for (auto& t : v) s += std::to_string(t.key) + (char)('a' + t.tag % 26) + " ";
  return s;
}
template <class C>
std::vector<Tagged> Vec(const C& c) {
  return std::vector<Tagged>(std::begin(c), std::end(c));
}

// Insertion sort.
std::vector<Tagged> Sorted(std::vector<Tagged> v, bool down) {
  for (size_t i = 1; i < v.size(); i++)
    for (size_t j = i; j > 0 && (down ? v[j].key > v[j - 1].key : v[j].key < v[j - 1].key); j--) std::swap(v[j], v[j - 1]);
  return v;
}
bool Permutation(std::vector<Tagged> a, std::vector<Tagged> b) {
  auto lt = [](const Tagged& x, const Tagged& y) { return std::pair(x.key, x.tag) < std::pair(y.key, y.tag); };
  std::sort(a.begin(), a.end(), lt);
  std::sort(b.begin(), b.end(), lt);
  return a == b;
}

template <class C>
void SortOne(C c, const std::vector<Tagged>& v, int how) {
  const bool down = how & 1;
  switch (how) {
    case 0: rst::c_sort(c); break;
    case 1: rst::c_sort(c, ByKeyDown()); break;
    case 2: rst::c_stable_sort(c); break;
    case 3: rst::c_stable_sort(c, ByKeyDown()); break;
  }
  seq::step();
  const auto got = Vec(c), want = Sorted(v, down);
  SEQ_CHECK(Permutation(got, v), "sorting %syields %s", Text(v).c_str(), Text(got).c_str());
  for (size_t i = 0; i < got.size(); i++) {
    SEQ_CHECK(how >= 2 ? got[i] == want[i] : got[i].key == want[i].key, "sorting %s(%d) yields %s", Text(v).c_str(),
              how, Text(got).c_str());
    seq::observe(got[i].key);
  }
  const bool was = [&] {
    for (size_t i = 1; i < v.size(); i++)
      if (down ? v[i].key > v[i - 1].key : v[i].key < v[i - 1].key) return false;
    return true;
  }();
  const std::vector<Tagged> cv = v;
  const bool is = down ? rst::c_is_sorted(cv, ByKeyDown()) : rst::c_is_sorted(cv, std::less<Tagged>());
  SEQ_CHECK(is == was, "c_is_sorted is %d for %s", is, Text(v).c_str());
}

std::vector<Tagged> AnySequence(int max, int keys) {
  const int n = choose(max + 1);
  std::vector<Tagged> v;
  for (int i = 0; i < n; i++) v.push_back({choose(keys), i});
  return v;
}

void Sorting() {
  const auto v = AnySequence(seq::bound(), seq::bound() <= 6 ? 4 : 3);
  note("%s", Text(v).c_str());
  seq::state(seq::hash(Text(v)));
  const int how = choose(4);
  switch (choose(3)) {
    case 0: SortOne(v, v, how); break;
    case 1: SortOne(std::deque<Tagged>(v.begin(), v.end()), v, how); break;
    case 2: {
      if (v.size() != 5) seq::done();
      // A plain array, in place.
      Tagged a[5];
      std::copy(v.begin(), v.end(), a);
      if (how == 0) rst::c_sort(a);
      if (how == 1) rst::c_sort(a, ByKeyDown());
      if (how == 2) rst::c_stable_sort(a);
      if (how == 3) rst::c_stable_sort(a, ByKeyDown());
      const auto want = Sorted(v, how & 1);
      for (size_t i = 0; i < 5; i++)
        SEQ_CHECK(how >= 2 ? a[i] == want[i] : a[i].key == want[i].key, "sorting an array of %s", Text(v).c_str());
      SEQ_CHECK(Permutation(Vec(a), v), "sorting an array of %s", Text(v).c_str());
      break;
    }
  }
}

// Longer ones, past the thresholds of the library's algorithms.
void SortingLong() {
  const int n = 15 + choose(40), kind = choose(5), how = choose(4);
  std::vector<Tagged> v;
  for (int i = 0; i < n; i++) {
    const int k = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? i % 3 : kind == 3 ? (i * 7919) % 31 : 0;
    v.push_back({k, i});
  }
  SortOne(v, v, how);
}

void Finding() {
  const auto v = AnySequence(6, 3);
  const int key = choose(4);
  seq::state(seq::hash(Text(v)));
  size_t want = 0;
  while (want < v.size() && v[want].key != key) want++;
  int asked = 0;
  auto pred = [&](const Tagged& t) {
    asked++;
    return t.key == key;
  };
  auto c = v;
  auto it = rst::c_find_if(c, pred);
  SEQ_CHECK(it - c.begin() == static_cast<long>(want), "c_find_if found %ld instead of %zu", static_cast<long>(it - c.begin()), want);
  if (it != c.end()) it->tag = 99;
  if (want < v.size()) SEQ_CHECK(c[want].tag == 99, "c_find_if yields a copy");
  const auto& cc = v;
  SEQ_CHECK(rst::c_find_if(cc, pred) - cc.begin() == static_cast<long>(want), "c_find_if on a const container");
  std::list<Tagged> l(v.begin(), v.end());
  SEQ_CHECK(std::distance(l.begin(), rst::c_find_if(l, pred)) == static_cast<long>(want), "c_find_if on a list");
  // A predicate that cannot be copied from a temporary's address.
  SEQ_CHECK(rst::c_find_if(c, [key](const Tagged& t) { return t.key == key; }) - c.begin() == static_cast<long>(want),
            "c_find_if with a temporary predicate");
  seq::step();
  seq::observe(static_cast<int>(want));
}

void Heaps() {
  // A history of pushes and pops compared with a multiset.
  std::vector<Tagged> h;
  std::multiset<int> model;
  const bool down = seq::flip();
  const int n = seq::bound();
  auto heap = [&] {
    for (size_t i = 1; i < h.size(); i++) {
      const auto &p = h[(i - 1) / 2], &c = h[i];
      SEQ_CHECK(down ? p.key <= c.key : p.key >= c.key, "the heap order is broken at %zu", i);
    }
  };
  for (int k = 0; k < n; k++) {
    const int op = choose(4);
    if (op < 3) {
      h.push_back({op, k});
      model.insert(op);
      if (down) {
        rst::c_push_heap(h, ByKeyDown());
      } else {
        rst::c_push_heap(h, std::less<Tagged>());
      }
    } else {
      if (h.empty()) seq::done();
      const int top = down ? *model.begin() : *model.rbegin();
      if (down) {
        rst::c_pop_heap(h, ByKeyDown());
      } else {
        rst::c_pop_heap(h, std::less<Tagged>());
      }
      SEQ_CHECK(h.back().key == top, "c_pop_heap yields %d instead of %d", h.back().key, top);
      h.pop_back();
      model.erase(model.find(top));
    }
    heap();
    std::multiset<int> got;
    for (auto& t : h) got.insert(t.key);
    SEQ_CHECK(got == model, "the heap lost elements");
    seq::step();
    uint64_t s = h.size();
    for (auto& t : h) s = seq::mix(s, static_cast<uint64_t>(t.key));
    seq::state(s);
    seq::observe(s);
  }
}

// A source whose every word is chosen.
struct Urbg {
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~result_type{0}; }
  result_type operator()() {
    static const result_type k[] = {0, 0x5555555555555555ull, 0x9000000000000000ull, 0xf000000000000000ull};
    calls++;
    if (calls > 6) return static_cast<uint64_t>(calls) * 0x9E3779B97F4A7C15ull;
    return k[choose(4)];
  }
  int calls = 0;
};
void Shuffling() {
  const int n = choose(6);
  std::vector<Tagged> v;
  for (int i = 0; i < n; i++) v.push_back({i, i});
  auto c = v;
  Urbg g;
  rst::c_shuffle(c, g);
  seq::step();
  SEQ_CHECK(Permutation(c, v), "shuffling %syields %s", Text(v).c_str(), Text(c).c_str());
  SEQ_CHECK(n < 2 || g.calls > 0, "the generator was not used");
  seq::observe(Text(c));
  seq::state(seq::hash(Text(c)));
}
// Over all answers of the source every order must come out.
void ShuffleReach() {
  std::set<std::string> seen;
  for (int x = 0; x < 64 * 64; x++) {
    struct G {
      using result_type = uint64_t;
      static constexpr result_type min() { return 0; }
      static constexpr result_type max() { return ~result_type{0}; }
      result_type operator()() {
        const uint64_t w = static_cast<uint64_t>(x % 64) << 58 | 12345;
        x /= 64;
        return w;
      }
      int x;
    } g{x};
    std::vector<Tagged> v = {{0, 0}, {1, 1}, {2, 2}, {3, 3}};
    rst::c_shuffle(v, g);
    seen.insert(Text(v));
    seq::step();
  }
  SEQ_CHECK(seen.size() == 24, "only %zu of 24 orders come out of c_shuffle", seen.size());
}

template <class C>
std::string Back(C& c) {
  std::string s;
  for (auto& x : rst::Reversed(c)) s += std::to_string(x) + ",";
  return s;
}
void Reverse() {
  const int n = choose(6);
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(choose(4));
  std::string want, swant;
  for (int i = n - 1; i >= 0; i--) want += std::to_string(v[static_cast<size_t>(i)]) + ",";
  const std::list<int> l(v.begin(), v.end());
  std::deque<int> d(v.begin(), v.end());
  SEQ_CHECK(Back(v) == want, "reversed vector: %s", Back(v).c_str());
  const auto& cv = v;
  SEQ_CHECK(Back(cv) == want, "reversed const vector: %s", Back(cv).c_str());
  SEQ_CHECK(Back(l) == want, "reversed list: %s", Back(l).c_str());
  SEQ_CHECK(Back(d) == want, "reversed deque: %s", Back(d).c_str());
  std::set<int> s(v.begin(), v.end());
  for (int i = 3; i >= 0; i--)
    if (s.count(i)) swant += std::to_string(i) + ",";
  SEQ_CHECK(Back(s) == swant, "reversed set: %s", Back(s).c_str());
  std::map<int, int> m;
  for (int x : v) m[x] = x * 2;
  std::string mw, mg;
  for (auto it = m.end(); it != m.begin();) {
    --it;
    mw += std::to_string(it->first) + ":" + std::to_string(it->second);
  }
  for (auto& e : rst::Reversed(m)) mg += std::to_string(e.first) + ":" + std::to_string(e.second);
  SEQ_CHECK(mg == mw, "reversed map: %s", mg.c_str());
  if (n == 3) {
    int a[3] = {v[0], v[1], v[2]};
    std::array<int, 3> sa = {v[0], v[1], v[2]};
    SEQ_CHECK(Back(a) == want && Back(sa) == want, "reversed array");
    for (auto& x : rst::Reversed(a)) x += 10;
    SEQ_CHECK(a[0] == v[0] + 10 && a[2] == v[2] + 10, "elements of a reversed array cannot be changed");
  }
  // The view follows the container, and copies of it visit the same.
  auto view = rst::Reversed(v);
  auto copy = view;
  for (auto& x : view) x++;
  v.push_back(7);
  std::string got, again = "7,";
  for (auto x : copy) got += std::to_string(x) + ",";
  for (int i = n - 1; i >= 0; i--) again += std::to_string(v[static_cast<size_t>(i)]) + ",";
  SEQ_CHECK(got == again, "a copied view: %s instead of %s", got.c_str(), again.c_str());
  seq::step();
  seq::observe(got);
  seq::state(seq::hash(got));
}

// Counts how often it was copied.
struct NoCopy {
  explicit NoCopy(int a = -1, std::string b = "") : t(a), s(std::move(b)) {}
  NoCopy(NoCopy&&) noexcept = default;
  NoCopy(const NoCopy&) = delete;
  Tok t;
  std::string s;
};
void Builder() {
  const int live = seq::Live::live;
  {
    std::string want, got;
    rst::VectorBuilder<NoCopy> b;
    const int n = choose(6);
    for (int i = 0; i < n; i++) {
      switch (choose(4)) {
        case 0:
          std::move(b).emplace_back(i);
          want += std::to_string(i) + ":,";
          break;
        case 1:
          std::move(b).emplace_back(i, "text");
          want += std::to_string(i) + ":text,";
          break;
        case 2:
          std::move(b).emplace_back(NoCopy(i, "moved")).emplace_back();
          want += std::to_string(i) + ":moved,-1:,";
          break;
        case 3: {
          std::string s = "lvalue";
          std::move(b).emplace_back(i, s);
          SEQ_CHECK(s == "lvalue", "the builder moved from an lvalue");
          want += std::to_string(i) + ":lvalue,";
          break;
        }
      }
    }
    const std::vector<NoCopy> v = std::move(b).Build();
    for (auto& e : v) got += std::to_string(e.t.v()) + ":" + e.s + ",";
    SEQ_CHECK(got == want, "the builder yields %s instead of %s", got.c_str(), want.c_str());
    seq::observe(got);
    seq::state(seq::hash(got));
    const auto u = rst::VectorBuilder<std::unique_ptr<int>>()
                       .emplace_back(std::make_unique<int>(1))
                       .emplace_back(nullptr)
                       .emplace_back(std::make_unique<int>(-1))
                       .Build();
    SEQ_CHECK(u.size() == 3 && *u[0] == 1 && !u[1] && *u[2] == -1, "a chained builder");
    seq::step();
  }
  SEQ_CHECK(seq::Live::live == live, "%d built elements were not destroyed", seq::Live::live - live);
}

template <class U>
void Compare(const U& x, const U& y) {
  using A = rst::Type<class ATag, U>;
  const A a(x), b(y);
  SEQ_CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality of strong types");
  SEQ_CHECK((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y),
            "order of strong types");
  SEQ_CHECK(std::hash<A>()(a) == std::hash<U>()(x), "the hash of a strong type");
  SEQ_CHECK(a.value() == x && static_cast<U>(b) == y, "the value of a strong type");
  A c(a);
  SEQ_CHECK(c == a, "a copied strong type");
  c = b;
  SEQ_CHECK(c.value() == y, "an assigned strong type");
  A d(std::move(c));
  SEQ_CHECK(d.value() == y, "a moved strong type");
  A e{};
  e = std::move(d);
  SEQ_CHECK(e.value() == y && b.value() == y && a.value() == x, "a move-assigned strong type");
  U tmp(x);
  const A f(std::move(tmp));
  SEQ_CHECK(f == a, "a strong type made of a temporary");
  const A g = rst::Clone(a);
  SEQ_CHECK(g == a && rst::Clone(x) == x, "a clone differs");
  seq::step();
}
void Strong() {
  static const int kI[] = {INT_MIN, -1, 0, 1, 2, INT_MAX};
  static const std::string kS[] = {"", "a", "ab", "b", std::string("a\0", 2), "a long text, longer than the buffer"};
  static const double kD[] = {-1.5, -0.0, 0.0, 1e300, 2.0, 5e-324};
  switch (choose(4)) {
    case 0: Compare<int>(kI[choose(6)], kI[choose(6)]); break;
    case 1: Compare<std::string>(kS[choose(6)], kS[choose(6)]); break;
    case 2: Compare<double>(kD[choose(6)], kD[choose(6)]); break;
    case 3: Compare<bool>(seq::flip(), seq::flip()); break;
  }
}

// Clones share nothing with their source.
void Clones() {
  std::vector<std::string> v = {"a", "long enough to be on the heap of its own"};
  auto c = rst::Clone(v);
  c[1] += "!";
  c.push_back("x");
  SEQ_CHECK(v.size() == 2 && v[1].back() == 'n' && c.size() == 3, "a clone shares with its source");
  const Tok t(4);
  const Tok u = rst::Clone(t);
  SEQ_CHECK(u.v() == 4 && t.v() == 4, "a clone of an object");
  SEQ_CHECK(rst::Clone(rst::Clone(u)).v() == 4, "a clone of a clone");
  seq::step();
}

struct Counted {
  Counted() : a(0), b("none") { made++; }
  explicit Counted(int x) : a(x), b("one") { made++; }
  Counted(int x, std::string s) : a(x), b(std::move(s)) { made++; }
  Counted(const Counted& o) : a(o.a), b(o.b) { copied++; }
  Counted(Counted&& o) noexcept : a(o.a), b(std::move(o.b)) { moved++; }
  ~Counted() { destroyed++; }
  int a;
  std::string b;
  static int made, copied, moved, destroyed;
};
int Counted::made, Counted::copied, Counted::moved, Counted::destroyed;
void Never() {
  Counted::made = Counted::copied = Counted::moved = Counted::destroyed = 0;
  const int how = choose(5);
  int want_a = 0, alive = 0;
  std::string want_b;
  Counted* inside = nullptr;
  alignas(alignof(rst::NoDestructor<Counted>)) static char place[sizeof(rst::NoDestructor<Counted>)];
  rst::NoDestructor<Counted>* n = nullptr;
  switch (how) {
    case 0:
      n = new (place) rst::NoDestructor<Counted>();
      want_b = "none";
      break;
    case 1:
      n = new (place) rst::NoDestructor<Counted>(5);
      want_a = 5;
      want_b = "one";
      break;
    case 2:
      n = new (place) rst::NoDestructor<Counted>(6, "two, and longer than the small buffer");
      want_a = 6;
      want_b = "two, and longer than the small buffer";
      break;
    case 3: {
      const Counted c(7);
      n = new (place) rst::NoDestructor<Counted>(c);
      SEQ_CHECK(Counted::copied == 1 && Counted::moved == 0, "a copy was made %d times", Counted::copied);
      SEQ_CHECK(c.a == 7 && c.b == "one", "the source of a copy changed");
      want_a = 7;
      want_b = "one";
      alive = 1;
      break;
    }
    case 4:
      n = new (place) rst::NoDestructor<Counted>(Counted(8, "moved, and longer than the small buffer"));
      SEQ_CHECK(Counted::copied == 0 && Counted::moved == 1, "a temporary was copied");
      want_a = 8;
      want_b = "moved, and longer than the small buffer";
      alive = 1;
      break;
  }
  SEQ_CHECK(Counted::made == 1, "the object was constructed %d times", Counted::made);
  SEQ_CHECK(Counted::destroyed == alive, "%d objects were destroyed", Counted::destroyed);
  inside = n->get().get();
  SEQ_CHECK(reinterpret_cast<char*>(inside) >= place && reinterpret_cast<char*>(inside + 1) <= place + sizeof(place),
            "the object is not inline");
  const auto& cn = *n;
  SEQ_CHECK(&**n == inside && &*cn == inside && cn.get().get() == inside && (*n)->a == want_a && cn->b == want_b,
            "the object is not found");
  (*n)->a = 77;
  SEQ_CHECK((**n).a == 77 && (*cn).a == 77, "the object cannot be changed");
  seq::observe(want_b);
  n->~NoDestructor<Counted>();
  SEQ_CHECK(Counted::destroyed == alive && inside->a == 77 && inside->b == want_b, "the object was destroyed");
  inside->~Counted();
  seq::step();
}

void Uninitialized() {
  std::string s(static_cast<size_t>(choose(40)), 'x');
  const size_t old = s.size(), n = static_cast<size_t>(choose(40));
  if (seq::flip()) {
    rst::StringResizeUninitialized(&s, n);
  } else {
    rst::StringResizeUninitialized(rst::NotNull<std::string*>(&s), n);
  }
  SEQ_CHECK(s.size() == n, "the size is %zu instead of %zu", s.size(), n);
  for (size_t i = 0; i < std::min(old, n); i++) SEQ_CHECK(s[i] == 'x', "byte %zu changed", i);
  SEQ_CHECK(s.c_str()[n] == '\0', "the string does not end");
  for (auto& c : s) c = 'y';
  seq::step();
}

// Types whose constructors, alignment or moves are easy to get wrong.
struct alignas(128) Overaligned {
  explicit Overaligned(int x) : v(x), self(this) {}
  Overaligned(const Overaligned&) = delete;
  int v;
  Overaligned* self;
};
struct Aggregate {
  Aggregate(std::initializer_list<int> l) : list(true), n(static_cast<int>(l.size())) {}
  Aggregate(int a, int b) : list(false), n(a * 10 + b) {}
  explicit Aggregate(int a) : list(false), n(a) {}
  bool list;
  int n;
};
struct Forwarded {
  Forwarded(int& x, const int& y, std::unique_ptr<int>&& p, const std::string& s)
      : a(&x), b(&y), q(std::move(p)), t(&s) {}
  int* a;
  const int* b;
  std::unique_ptr<int> q;
  const std::string* t;
};
void OddTypes() {
  {
    // Never-destroyed objects.
    alignas(256) char raw[sizeof(rst::NoDestructor<Overaligned>)];
    static_assert(alignof(rst::NoDestructor<Overaligned>) == alignof(Overaligned));
    auto* o = new (raw) rst::NoDestructor<Overaligned>(5);
    SEQ_CHECK((**o).v == 5 && (**o).self == &**o && reinterpret_cast<uintptr_t>(&**o) % 128 == 0, "an over-aligned object");
    static rst::NoDestructor<std::string> dashes(5, '-');
    SEQ_CHECK(*dashes == "-----", "NoDestructor<string>(5, '-') is \"%s\"", (*dashes).c_str());
    static rst::NoDestructor<std::vector<int>> sevens(3, 7);
    SEQ_CHECK(*sevens == std::vector<int>({7, 7, 7}), "NoDestructor<vector>(3, 7) has %zu elements", (*sevens).size());
    static rst::NoDestructor<Aggregate> two(1, 2), one(9);
    SEQ_CHECK(!two->list && two->n == 12 && !one->list && one->n == 9, "another constructor was chosen");
    int x = 1;
    const int y = 2;
    const std::string s = "text";
    alignas(rst::NoDestructor<Forwarded>) char place[sizeof(rst::NoDestructor<Forwarded>)];
    auto* f = new (place) rst::NoDestructor<Forwarded>(x, y, std::make_unique<int>(3), s);
    SEQ_CHECK((*f)->a == &x && (*f)->b == &y && *(*f)->q == 3 && (*f)->t == &s, "the arguments were not passed on as they are");
    (**f).~Forwarded();
    static rst::NoDestructor<std::unique_ptr<int>> owner(std::make_unique<int>(4));
    SEQ_CHECK(**owner == 4, "a never-destroyed owner");
    const auto& co = owner;
    static_assert(std::is_same_v<decltype(*co), const std::unique_ptr<int>&>);
    owner->reset();
    // Each function-local one is made at its first use only.
    static int made;
    made = 0;
    auto get = []() -> int& {
      static rst::NoDestructor<int> v([] { return ++made; }());
      return *v;
    };
    const int m = made;
    int& first = get();
    int& again = get();
    SEQ_CHECK(m == 0 && &first == &again && made <= 1, "a function-local object was made %d times", made);
  }
  {
    // The builder.
    const auto v = rst::VectorBuilder<std::vector<int>>().emplace_back(3, 7).emplace_back().emplace_back(std::vector<int>{1, 2}).Build();
    SEQ_CHECK(v.size() == 3 && v[0] == std::vector<int>({7, 7, 7}) && v[1].empty() && v[2] == std::vector<int>({1, 2}),
              "a builder of vectors");
    const auto a = rst::VectorBuilder<Aggregate>().emplace_back(1, 2).emplace_back(9).Build();
    SEQ_CHECK(a.size() == 2 && !a[0].list && a[0].n == 12 && !a[1].list && a[1].n == 9, "another constructor was chosen");
    int x = 1;
    const int y = 2;
    const std::string s = "text";
    const auto f = rst::VectorBuilder<Forwarded>().emplace_back(x, y, std::make_unique<int>(3), s).Build();
    SEQ_CHECK(f.size() == 1 && f[0].a == &x && f[0].b == &y && *f[0].q == 3 && f[0].t == &s, "the arguments were not passed on as they are");
    const auto b = rst::VectorBuilder<bool>().emplace_back(true).emplace_back(false).Build();
    SEQ_CHECK(b.size() == 2 && b[0] && !b[1], "a builder of bools");
    const auto p = rst::VectorBuilder<std::pair<int, std::string>>().emplace_back(1, "a").emplace_back(2, s).Build();
    SEQ_CHECK(p.size() == 2 && p[0].second == "a" && p[1].first == 2 && p[1].second == s, "a builder of pairs");
    SEQ_CHECK(rst::VectorBuilder<int>().Build().empty(), "an empty builder");
  }
  {
    // Strong types.
    using Owner = rst::Type<class OwnerTag, std::unique_ptr<int>>;
    int* const raw = new int(5);
    Owner o{std::unique_ptr<int>(raw)};
    SEQ_CHECK(o.value().get() == raw, "a strong type of a move-only one");
    Owner o2 = std::move(o);
    o = std::move(o2);
    SEQ_CHECK(o.value().get() == raw && *o.value() == 5, "a moved strong type");
    using List = rst::Type<class ListTag, std::vector<int>>;
    const std::vector<int> l = {3, 1};
    const List a(l), b(std::vector<int>{3, 1, 0}), c;
    SEQ_CHECK(a.value() == l && l.size() == 2 && a != b && a < b && b > a && a <= b && b >= a && c < a && c.value().empty(), "strong lists");
    std::vector<int> from = {1, 2, 3};
    const int* const data = from.data();
    List moved(std::move(from));
    SEQ_CHECK(moved.value().data() == data, "the value was copied, not moved");
    List target(l);
    target = std::move(moved);
    SEQ_CHECK(target.value().data() == data, "the value was copied by a move assignment");
    List copy = target;
    SEQ_CHECK(copy == target && copy.value().data() != data, "a copy shares with its source");
    copy = a;
    SEQ_CHECK(copy == a && target.value().size() == 3, "a copy assignment");
    using View = rst::Type<class ViewTag, std::string_view>;
    const View v("abc"), w(std::string_view("abcd", 3));
    SEQ_CHECK(v == w && !(v < w) && v <= w && std::hash<View>()(v) == std::hash<std::string_view>()("abc"), "strong views");
    using Big = rst::Type<class BigTag, uint64_t>;
    const Big h(uint64_t{1} << 63), g(uint64_t{1});
    SEQ_CHECK(g < h && h > g && h != g && static_cast<uint64_t>(h) == uint64_t{1} << 63 &&
                  std::hash<Big>()(h) == std::hash<uint64_t>()(uint64_t{1} << 63),
              "strong numbers");
    enum class E { kA = -3, kB = 4 };
    using Enum = rst::Type<class EnumTag, E>;
    SEQ_CHECK(Enum(E::kA) < Enum(E::kB) && Enum(E::kA) == Enum(E::kA), "strong enumerations");
    const double nan = std::nan("");
    using Number = rst::Type<class NumberTag, double>;
    const Number q(nan), r(1.0);
    SEQ_CHECK(!(q == q) && q != q && !(q < r) && !(q > r) && !(q <= r) && !(q >= r) && !(r <= q) && !(r >= q), "strong NaNs");
  }
  {
    // Clones.
    const std::vector<std::vector<int>> v = {{1}, {}, {2, 3}};
    SEQ_CHECK(rst::Clone(v) == v, "a clone of nested vectors");
    const std::map<int, std::string> m = {{1, "a"}, {2, std::string("b\0c", 3)}};
    SEQ_CHECK(rst::Clone(m) == m, "a clone of a map");
    const auto sp = std::make_shared<int>(4);
    {
      const auto c = rst::Clone(sp);
      SEQ_CHECK(c.get() == sp.get() && sp.use_count() == 2, "a clone of a shared pointer");
    }
    const Aggregate a(1, 2);
    SEQ_CHECK(!rst::Clone(a).list && rst::Clone(a).n == 12, "a clone through another constructor");
    const std::vector<bool> b = {true, false, true};
    SEQ_CHECK(rst::Clone(b) == b, "a clone of bools");
    const std::string_view sv("abcdef", 3);
    SEQ_CHECK(rst::Clone(sv).data() == sv.data() && rst::Clone(sv).size() == 3, "a clone of a view");
    int arr[2] = {1, 2};
    const auto p = rst::Clone(&arr[0]);
    SEQ_CHECK(p == arr, "a clone of a pointer");
  }
  seq::step();
}

SEQ_SCENARIOS(containers) {
  seq::add1("C31", "odd_types", OddTypes);
  seq::add("C31", "sorting", 7, 9, Sorting);
  seq::add1("C31", "sorting_long", SortingLong);
  seq::add1("C31", "finding", Finding);
  seq::add("C31", "heaps", 8, 9, Heaps);
  seq::add1("C31", "shuffling", Shuffling);
  seq::add1("C31", "shuffle_reach", ShuffleReach);
  seq::add1("C31", "reversing", Reverse);
  seq::add1("C31", "builder", Builder);
  seq::add1("C31", "strong_types", Strong);
  seq::add1("C31", "clone_helper", Clones);
  seq::add1("C31", "no_destructor", Never);
  seq::add1("C31", "resize_uninitialized", Uninitialized);
}

// ---- C32 ---------------------------------------------------------------------

struct Explicit {
  explicit operator bool() const { return v; }
  bool v;
};

// Which positions ran, and what was evaluated.
int g_eval;
bool Cond(bool v) {
  g_eval++;
  return v;
}
int g_after;

#define POSITIONS(CHECK)                                                       \
  void Run##CHECK(int pos, bool v, int turns) {                                \
    int i = 0;                                                                 \
    int* p = v ? &i : nullptr;                                                 \
    const Explicit ex{v};                                                      \
    switch (pos) {                                                             \
      case 0:                                                                  \
        CHECK(Cond(v));                                                        \
        g_after = 1;                                                           \
        break;                                                                 \
      case 1:                                                                  \
        if (turns > 0)                                                         \
          CHECK(Cond(v));                                                      \
        else                                                                   \
          g_after = 2;                                                         \
        g_after += 4;                                                          \
        break;                                                                 \
      case 2:                                                                  \
        if (turns == 0)                                                        \
          g_after = 1;                                                         \
        else                                                                   \
          CHECK(Cond(v));                                                      \
        break;                                                                 \
      case 3:                                                                  \
        for (i = 0; i < turns; i++)                                            \
          CHECK(Cond(v || i < turns - 1));                                     \
        break;                                                                 \
      case 4:                                                                  \
        while (i++ < turns)                                                    \
          CHECK(Cond(v));                                                      \
        break;                                                                 \
      case 5:                                                                  \
        do                                                                     \
          CHECK(Cond(v));                                                      \
        while (++i < turns);                                                   \
        break;                                                                 \
      case 6: {                                                                \
        auto f = [&] { CHECK(Cond(v)); };                                      \
        f();                                                                   \
        break;                                                                 \
      }                                                                        \
      case 7:                                                                  \
        CHECK((g_eval++, p));                                                  \
        break;                                                                 \
      case 8:                                                                  \
        CHECK((g_eval++, ex));                                                 \
        break;                                                                 \
      case 9:                                                                  \
        CHECK(Cond(true) && Cond(v));                                          \
        break;                                                                 \
      case 10:                                                                 \
        CHECK(Cond(false) || Cond(v));                                         \
        break;                                                                 \
      case 11:                                                                 \
        CHECK(Cond(v) ? true : false);                                         \
        break;                                                                 \
      case 12:                                                                 \
        CHECK(Cond(v) == true && "with a message");                            \
        break;                                                                 \
      case 13:                                                                 \
        switch (turns)                                                         \
        default:                                                               \
          CHECK(Cond(v));                                                      \
        break;                                                                 \
      case 14:                                                                 \
        goto label;                                                            \
      label:                                                                   \
        CHECK(Cond(v));                                                        \
        break;                                                                 \
      case 15:                                                                 \
        CHECK((g_eval++, v ? 256 : 0));                                        \
        break;                                                                 \
      case 16:                                                                 \
        CHECK((g_eval++, v ? 0.5 : 0.0));                                      \
        break;                                                                 \
      case 17:                                                                 \
        CHECK((g_eval++, v ? 0x100000000LL : 0LL));                            \
        break;                                                                 \
    }                                                                          \
    g_after += 10;                                                             \
  }
POSITIONS(RST_CHECK)
POSITIONS(RST_DCHECK)

void Checks(bool debug) {
  const int pos = choose(18), turns = choose(3);
  const bool v = seq::flip();
  // How often the condition is evaluated, and whether one was false.
  int evals = 1;
  bool bad = !v;
  switch (pos) {
    case 1:
    case 2:
      if (turns == 0) {
        evals = 0;
        bad = false;
      }
      break;
    case 3:
      evals = turns;
      if (turns == 0) bad = false;
      break;
    case 4:
      evals = v ? turns : std::min(turns, 1);
      if (turns == 0) bad = false;
      break;
    case 5:
      evals = v ? std::max(turns, 1) : 1;
      break;
    case 9:
    case 10:
      evals = 2;
      break;
    default:
      break;
  }
  const bool on = !debug || seq::kChecked;
  if (!on) {
    evals = 0;
    bad = false;
  }
  g_eval = g_after = 0;
  note("position %d, condition %d", pos, v);
  const bool stop = seq::stopped([&] {
    if (debug) {
      RunRST_DCHECK(pos, v, turns);
    } else {
      RunRST_CHECK(pos, v, turns);
    }
  });
  seq::step();
  SEQ_CHECK(stop == bad, "the program was %sstopped (condition %d, position %d)", stop ? "" : "not ", v, pos);
  SEQ_CHECK(g_eval == evals, "the condition was evaluated %d times instead of %d (position %d)", g_eval, evals, pos);
  if (!stop) SEQ_CHECK(g_after >= 10, "the code after the check did not run");
  if (!debug) {
    seq::observe(stop);
    seq::observe(g_after);
  }
  seq::state(static_cast<uint64_t>(pos * 100 + turns * 10 + v));
}

void NotReached() {
  const bool v = seq::flip();
  const bool stop = seq::stopped([&] {
    if (v)
      RST_NOTREACHED();
    else
      g_after = 1;
  });
  SEQ_CHECK(stop == (v && seq::kChecked), "RST_NOTREACHED: %d", stop);
#if RST_BUILDFLAG(DCHECK_IS_ON)
  SEQ_CHECK(seq::kChecked, "DCHECK_IS_ON in an unchecked build");
#else
  SEQ_CHECK(!seq::kChecked, "DCHECK_IS_ON is off in a checked build");
#endif
  // The hints do not change what is chosen.
  for (int i = -2; i < 4; i++) {
    int taken = 0;
    if (RST_LIKELY(i > 0)) taken = 1;
    if (RST_UNLIKELY(i > 0)) taken += 2;
    SEQ_CHECK(taken == (i > 0 ? 3 : 0), "RST_LIKELY changes a condition");
    switch (RST_LIKELY_EQ(i, 1)) {
      case 1: taken = 100; break;
      case -2: taken = 50; break;
      default: taken = i;
    }
    SEQ_CHECK(taken == (i == 1 ? 100 : i == -2 ? 50 : i), "RST_LIKELY_EQ changes a value");
  }
  seq::step();
}

SEQ_SCENARIOS(checks) {
  seq::add1("C32", "check_positions", [] { Checks(false); });
  seq::Scenario s;
  s.group = "C32";
  s.name = "dcheck_positions";
  s.body = [] { Checks(true); };
  s.same = false;
  seq::add(s);
  s.name = "not_reached";
  s.body = NotReached;
  seq::add(s);
}

}  // namespace
