// C20: preferences.  C23: generated GUIDs over a modelled random source.
#include <climits>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "rst/guid/guid.h"
#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "seq/seq.h"

using rst::Value;
using seq::choose;
using seq::note;

namespace {

// ---- C20 ---------------------------------------------------------------------

enum T { kBool, kInt, kDouble, kString, kArray, kObject, kTypes };
const char* const kTypeName[] = {"Bool", "Int", "Double", "String", "Array", "Object"};

// Each type has values 0..3; their text is what a getter's result must print.
bool B(int v) { return v & 1; }
int I(int v) {
  static const int k[] = {0, -7, INT_MAX, INT_MIN};
  return k[v];
}
double D(int v) {
  static const double k[] = {0.5, -1e300, 3.0, 5e-324};
  return k[v];
}
std::string S(int v) {
  static const std::string k[] = {"", "text", std::string("a\0b", 3), "a long text, longer than the small buffer"};
  return k[v];
}
Value::Array A(int v) {
  Value::Array a;
  if (v == 1) a.emplace_back("s");
  if (v == 2) {
    a.emplace_back(1);
    a.emplace_back(Value::Array());
  }
  if (v == 3) a.emplace_back(true);
  return a;
}
Value::Object O(int v) {
  Value::Object o;
  if (v == 1) o.emplace("b", 1);
  if (v == 2) {
    o.emplace("a", "x");
    o.emplace("b.c", false);
  }
  if (v == 3) {
    Value::Object in;
    in.emplace("b", 2);
    o.emplace("a", std::move(in));
  }
  return o;
}

// Canonical text of a value, written without the library's comparison.
void Print(const Value& v, std::string* out) {
  char b[64];
  switch (v.type()) {
    case Value::Type::kNull: *out += "null"; break;
    case Value::Type::kBool: *out += v.GetBool() ? "true" : "false"; break;
    case Value::Type::kNumber:
      snprintf(b, sizeof(b), "%a", v.GetDouble());
      *out += b;
      break;
    case Value::Type::kString: *out += "\"" + v.GetString() + "\""; break;
    case Value::Type::kArray:
      *out += "[";
      for (const auto& e : v.GetArray()) {
        Print(e, out);
        *out += ",";
      }
      *out += "]";
      break;
    case Value::Type::kObject:
      *out += "{";
      for (const auto& e : v.GetObject()) {
        *out += e.first + ":";
        Print(e.second, out);
        *out += ",";
      }
      *out += "}";
      break;
  }
}
std::string Text(const Value& v) {
  std::string s;
  Print(v, &s);
  return s;
}
std::string TextA(const Value::Array& a) {
  std::string s = "[";
  for (const auto& e : a) s += Text(e) + ",";
  return s + "]";
}
std::string TextO(const Value::Object& o) {
  std::string s = "{";
  for (const auto& e : o) s += e.first + ":" + Text(e.second) + ",";
  return s + "}";
}
std::string TextD(double d) {
  char b[64];
  snprintf(b, sizeof(b), "%a", d);
  return b;
}
std::string Want(int t, int v) {
  switch (t) {
    case kBool: return B(v) ? "true" : "false";
    case kInt: return std::to_string(I(v));
    case kDouble: return TextD(D(v));
    case kString: return "\"" + S(v) + "\"";
    case kArray: return TextA(A(v));
    default: return TextO(O(v));
  }
}

void Register(rst::Preferences& p, const std::string& path, int t, int v) {
  seq::step();
  std::string s = path;
  switch (t) {
    case kBool: p.RegisterBoolPreference(std::move(s), B(v)); break;
    case kInt: p.RegisterIntPreference(std::move(s), I(v)); break;
    case kDouble: p.RegisterDoublePreference(std::move(s), D(v)); break;
    case kString: p.RegisterStringPreference(std::move(s), S(v)); break;
    case kArray: p.RegisterArrayPreference(std::move(s), A(v)); break;
    default: p.RegisterObjectPreference(std::move(s), O(v)); break;
  }
}
void Set(rst::Preferences& p, const std::string& path, int t, int v) {
  seq::step();
  const seq::Cut s(path);
  switch (t) {
    case kBool: p.SetBool(s, B(v)); break;
    case kInt: p.SetInt(s, I(v)); break;
    case kDouble: p.SetDouble(s, D(v)); break;
    case kString: p.SetString(s, S(v)); break;
    case kArray: p.SetArray(s, A(v)); break;
    default: p.SetObject(s, O(v)); break;
  }
}
std::string Get(const rst::Preferences& p, const std::string& path, int t) {
  seq::step();
  const seq::Cut s(path);
  switch (t) {
    case kBool: return p.GetBool(s) ? "true" : "false";
    case kInt: return std::to_string(p.GetInt(s));
    case kDouble: return TextD(p.GetDouble(s));
    case kString: return "\"" + p.GetString(s) + "\"";
    case kArray: return TextA(p.GetArray(s));
    default: return TextO(p.GetObject(s));
  }
}

// No path is a dotted prefix of another.
const std::vector<std::string> kPathSets[] = {
    {"a", "b", "aa"},
    {"a.b", "a.c", "d"},
    {"a.b.c", "a.b.cc", "a.d"},
    {"a.", "a.b", ".c"},
    {"b.a", "a.b", "ab"},
};

struct Pref {
  int type = -1;
  int value = 0;     // What a reader must get.
  bool set = false;
};

void CheckAll(const rst::Preferences& p, const std::vector<std::string>& paths, const std::vector<Pref>& m) {
  for (size_t i = 0; i < m.size(); i++) {
    if (m[i].type < 0) continue;
    const std::string got = Get(p, paths[i], m[i].type), want = Want(m[i].type, m[i].value);
    SEQ_CHECK(got == want, "Get%s(\"%s\") returned %s instead of %s", kTypeName[m[i].type], paths[i].c_str(),
              got.c_str(), want.c_str());
  }
}

// A read or write of another type; an int where a number is expected (and the
// other way round) is not covered.
bool Clash(int a, int b) {
  const bool na = a == kInt || a == kDouble, nb = b == kInt || b == kDouble;
  return a != b && !(na && nb);
}

void History(bool any_type) {
  const auto& paths = kPathSets[choose(5)];
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  std::vector<Pref> m(paths.size());
  const int n = seq::bound();
  for (int k = 0; k < n; k++) {
    const int at = choose(static_cast<int>(paths.size()));
    Pref& e = m[static_cast<size_t>(at)];
    const std::string& path = paths[static_cast<size_t>(at)];
    // The types are spread over the paths, or each is tried everywhere.
    const int t = any_type ? choose(kTypes) : e.type >= 0 ? e.type : choose(2) * 3 + at;
    switch (choose(any_type ? 3 : 2)) {
      case 0: {
        const int v = any_type ? 0 : choose(2);
        note("Register%s(\"%s\", %s)", kTypeName[t], path.c_str(), Want(t, v).c_str());
        if (e.type >= 0) {
          if (seq::kChecked)
            SEQ_CHECK(seq::stopped([&] { Register(p, path, t, v); }), "a second registration was not stopped");
          seq::done();
        }
        Register(p, path, t, v);
        e.type = t;
        e.value = v;
        break;
      }
      case 1: {
        const int v = any_type ? 1 : 1 + choose(3);
        note("Set%s(\"%s\", %s)", kTypeName[t], path.c_str(), Want(t, v).c_str());
        if (e.type < 0 || Clash(e.type, t)) {
          if (seq::kChecked) {
            SEQ_CHECK(seq::stopped([&] { Set(p, path, t, v); }), "setting %s preference was not stopped",
                      e.type < 0 ? "an unregistered" : "another type of");
          }
          seq::done();
        }
        if (e.type != t) seq::done();
        Set(p, path, t, v);
        e.value = v;
        e.set = true;
        break;
      }
      case 2: {
        note("Get%s(\"%s\")", kTypeName[t], path.c_str());
        if (e.type < 0 || Clash(e.type, t)) {
          std::string r;
          if (seq::kChecked) {
            SEQ_CHECK(seq::stopped([&] { r = Get(p, path, t); }), "reading %s preference was not stopped",
                      e.type < 0 ? "an unregistered" : "another type of");
          }
          seq::done();
        }
        if (e.type != t) seq::done();
        break;
      }
    }
    CheckAll(p, paths, m);
    uint64_t h = seq::hash(paths[0]);
    for (auto& x : m) {
      h = seq::mix(h, static_cast<uint64_t>((x.type + 1) * 16 + x.value * 2 + (x.set ? 1 : 0)));
      seq::observe(h);
    }
    seq::state(h);
  }
}

// A path that is not registered but lies next to, above or below one that is.
void Neighbours() {
  static const char* const kOther[] = {"a", "a.b.c", "a.bb", "a.", ".a.b", "b", "", "A.b", "a.b ", "a..b"};
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  const int t = choose(kTypes);
  Register(p, "a.b", t, 1);
  if (seq::flip()) Set(p, "a.b", t, 1);
  const std::string other = kOther[choose(10)];
  const int t2 = choose(kTypes);
  const bool write = seq::flip();
  note("%s%s(\"%s\")", write ? "Set" : "Get", kTypeName[t2], other.c_str());
  if (!seq::kChecked) seq::done();
  SEQ_CHECK(seq::stopped([&] {
              if (write) {
                Set(p, other, t2, 1);
              } else {
                Get(p, other, t2);
              }
            }),
            "%s the unregistered preference \"%s\" was not stopped", write ? "writing" : "reading", other.c_str());
}

// References stay valid while nothing is set at their path.
void References() {
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  p.RegisterStringPreference("s.a", "default text, longer than the small buffer");
  p.RegisterArrayPreference("s.b", A(2));
  p.RegisterObjectPreference("t", O(2));
  p.RegisterIntPreference("i", 1);
  if (seq::flip()) p.SetString("s.a", S(3));
  if (seq::flip()) p.SetArray("s.b", A(1));
  if (seq::flip()) p.SetObject("t", O(3));
  const std::string& s = p.GetString("s.a");
  const Value::Array& a = p.GetArray("s.b");
  const Value::Object& o = p.GetObject("t");
  const std::string ts = s, ta = TextA(a), to = TextO(o);
  for (int k = 0; k < 3; k++) {
    switch (choose(3)) {
      case 0: p.SetInt("i", k); break;
      case 1: p.RegisterStringPreference("n" + std::to_string(k), "x"); break;
      case 2: (void)p.GetInt("i"); break;
    }
    SEQ_CHECK(s == ts && TextA(a) == ta && TextO(o) == to, "a value read earlier changed");
  }
  seq::observe(ts + ta + to);
  seq::step();
}

// A store written by a user: everything must go through it.
class Recording : public rst::PreferencesStore {
 public:
  explicit Recording(std::map<std::string, Value>* m) : m_(m) { seq::Live::live++; }
  ~Recording() override { seq::Live::live--; }
  rst::Nullable<const Value*> GetValue(std::string_view path) const override {
    auto it = m_->find(std::string(path));
    if (it == m_->end()) return nullptr;
    return &it->second;
  }
  void SetValue(std::string_view path, Value&& value) override {
    m_->erase(std::string(path));
    m_->emplace(std::string(path), std::move(value));
  }

 private:
  std::map<std::string, Value>* m_;
};

void OwnStore() {
  const int live = seq::Live::live;
  std::map<std::string, Value> store;
  const int t1 = choose(kTypes), t2 = choose(kTypes);
  int in1 = -1, in2 = -1;
  {
    // Values of an earlier session may be there already.
    auto put = [&](const char* path, int t, int v) {
      switch (t) {
        case kBool: store.emplace(path, B(v)); break;
        case kInt: store.emplace(path, I(v)); break;
        case kDouble: store.emplace(path, D(v)); break;
        case kString: store.emplace(path, S(v)); break;
        case kArray: store.emplace(path, A(v)); break;
        default: store.emplace(path, O(v)); break;
      }
    };
    if (seq::flip()) put("a.b", t1, in1 = 2);
    rst::Preferences p(std::make_unique<Recording>(&store));
    Register(p, "a.b", t1, 0);
    Register(p, "c", t2, 1);
    for (int k = 0; k < seq::bound(); k++) {
      if (seq::flip()) {
        in1 = 1 + choose(3);
        Set(p, "a.b", t1, in1);
      } else {
        in2 = choose(4);
        Set(p, "c", t2, in2);
      }
      const std::string g1 = Get(p, "a.b", t1), g2 = Get(p, "c", t2);
      SEQ_CHECK(g1 == Want(t1, in1 < 0 ? 0 : in1), "Get%s(\"a.b\") returned %s", kTypeName[t1], g1.c_str());
      SEQ_CHECK(g2 == Want(t2, in2 < 0 ? 1 : in2), "Get%s(\"c\") returned %s", kTypeName[t2], g2.c_str());
      SEQ_CHECK(store.size() == static_cast<size_t>((in1 >= 0) + (in2 >= 0)), "the store has %zu entries", store.size());
      seq::observe(g1 + g2);
      seq::state(seq::hash(g1 + "/" + g2));
    }
  }
  SEQ_CHECK(seq::Live::live == live, "the store was not destroyed exactly once");
}

// Many preferences, deep ones, long names.
void ManyPrefs() {
  const int shape = choose(4);
  static const int kCounts[] = {20, 130, 300, 1100};
  const int n = kCounts[choose(4)];
  auto path = [&](int i) {
    std::string s;
    switch (shape) {
      case 0: return "pref" + std::to_string(i);
      case 1: return "group" + std::to_string(i % 7) + ".sub" + std::to_string(i % 3) + ".p" + std::to_string(i);
      case 2:
        for (int k = 0; k < i % 300; k++) s += static_cast<char>('a' + k % 26), s += '.';
        return s + "leaf" + std::to_string(i);
      default: return std::string(static_cast<size_t>(i), 'x') + "y";
    }
  };
  note("%d preferences, paths of shape %d", n, shape);
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  for (int i = 0; i < n; i++) Register(p, path(i), i % kTypes, 0);
  std::vector<int> v(static_cast<size_t>(n), 0);
  for (int pass = 0; pass < 3; pass++) {
    for (int i = 0; i < n; i++) {
      const std::string got = Get(p, path(i), i % kTypes), want = Want(i % kTypes, v[static_cast<size_t>(i)]);
      SEQ_CHECK(got == want, "preference %d is %s instead of %s", i, got.c_str(), want.c_str());
      seq::observe(got);
    }
    for (int i = 0; i < n; i++) {
      if ((i + pass) % 2) continue;
      v[static_cast<size_t>(i)] = 1 + (i + pass) % 3;
      Set(p, path(i), i % kTypes, v[static_cast<size_t>(i)]);
    }
  }
  // One preference, set again and again.
  for (int i = 0; i < 70000; i++) {
    const int k = i % 3;
    Set(p, path(3), kString, k);
    if (i % 997 == 0) {
      const std::string got = Get(p, path(3), kString);
      SEQ_CHECK(got == Want(kString, k), "after %d sets the preference is %s", i, got.c_str());
    }
  }
  seq::state(static_cast<uint64_t>(n * 4 + shape));
}

SEQ_SCENARIOS(prefs) {
  seq::add1("C20", "prefs_many", ManyPrefs);
  seq::add("C20", "prefs_history", 5, 6, [] { History(false); });
  seq::add("C20", "prefs_types", 3, 4, [] { History(true); });
  seq::add1("C20", "prefs_neighbours", Neighbours);
  seq::add1("C20", "prefs_references", References);
  seq::add("C20", "prefs_own_store", 3, 4, OwnStore);
}

// ---- C23 ---------------------------------------------------------------------

// The modelled source: word n of the device.
struct Source {
  int base = 0;
  uint32_t draws = 0;
  int64_t flip_at = -1;  // Absolute draw whose word differs,
  uint32_t flip = 0;     // by these bits.
} g_src;
uint32_t* g_words_;

uint32_t Word(uint32_t n) {
  switch (g_src.base) {
    case 0: return 0;
    case 1: return 0xffffffffu;
    case 2: return 0x55555555u;
    case 3: return 0xaaaaaaaau;
    case 4: return 0x80000001u;
    case 5: return n * 0x9E3779B1u + 0x12345u;
    case 6: return n & 1 ? 0xffffffffu : 0;
    default: return n & 1 ? 0 : 0xffffffffu;
  }
}

struct Bits {
  uint64_t w[2] = {0, 0};
};

// Takes the text apart; checks all text forms.
Bits Check(const rst::Guid& g) {
  const std::string s = g.AsString();
  const auto view = g.AsStringView();
  SEQ_CHECK(view.value() == s, "AsString() is %s but AsStringView() is %.*s", s.c_str(),
            static_cast<int>(view.value().size()), view.value().data());
  const std::string again = g.AsString();
  SEQ_CHECK(again == s, "AsString() is %s, then %s", s.c_str(), again.c_str());
  const rst::Guid copy(g);
  SEQ_CHECK(copy.AsString() == s, "a copy prints as %s, not %s", copy.AsString().c_str(), s.c_str());
  SEQ_CHECK(s.size() == 36, "the GUID \"%s\" has %zu characters", s.c_str(), s.size());
  Bits b;
  int n = 0;
  for (size_t i = 0; i < 36; i++) {
    const char c = s[i];
    if (i == 8 || i == 13 || i == 18 || i == 23) {
      SEQ_CHECK(c == '-', "the GUID \"%s\" has no hyphen at %zu", s.c_str(), i);
      continue;
    }
    SEQ_CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "the GUID \"%s\" has a wrong character at %zu",
              s.c_str(), i);
    const uint64_t d = static_cast<uint64_t>(c <= '9' ? c - '0' : c - 'a' + 10);
    b.w[n / 16] = b.w[n / 16] << 4 | d;
    n++;
  }
  SEQ_CHECK(s[14] == '4', "the GUID \"%s\" is not of version 4", s.c_str());
  SEQ_CHECK(s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b', "the GUID \"%s\" has a wrong variant",
            s.c_str());
  SEQ_CHECK(rst::Guid::IsValid(s) && rst::Guid::IsValidOutputString(s), "the GUID \"%s\" is not accepted", s.c_str());
  SEQ_CHECK(rst::Guid::IsValid(view.value()) && rst::Guid::IsValidOutputString(view.value()),
            "the view of \"%s\" is not accepted", s.c_str());
  seq::step();
  return b;
}

// The GUID number |n| (from 0) of a fresh series whose word |at| after the
// previous GUIDs' words is changed by |flip|.
Bits Generate(int base, int n, int at, uint32_t flip, uint32_t* used) {
  g_src.base = base;
  g_src.flip_at = -1;
  for (int i = 0; i < n; i++) {
    const rst::Guid g;
    Check(g);
  }
  const uint32_t from = g_src.draws;
  g_src.flip_at = at < 0 ? -1 : static_cast<int64_t>(from) + at;
  g_src.flip = flip;
  const rst::Guid g;
  if (used) *used = g_src.draws - from;
  return Check(g);
}

void Randomness() {
  const int base = choose(8), n = choose(3);
  note("base words %d, GUID %d", base, n);
  g_src.draws = 0;
  uint32_t used = 0;
  const Bits b0 = Generate(base, n, -1, 0, &used);
  if (base == 5) g_src.draws = 0;
  SEQ_CHECK(used >= 4, "a GUID was made from %u words of 32 bits of random input", used);
  // How the GUID changes when one bit of its random input changes.
  std::vector<Bits> diff;
  uint64_t any[2] = {0, 0};
  for (uint32_t at = 0; at < used; at++) {
    for (int bit = 0; bit < 32; bit++) {
      g_src.draws = 0;
      Bits b = Generate(base, n, static_cast<int>(at), 1u << bit, nullptr);
      for (int k = 0; k < 2; k++) {
        b.w[k] ^= b0.w[k];
        any[k] |= b.w[k];
      }
      diff.push_back(b);
    }
  }
  SEQ_CHECK(any[0] == 0xffffffffffff0fffull && any[1] == 0x3fffffffffffffffull,
            "bits %016llx%016llx of the GUID never change", static_cast<unsigned long long>(~any[0]),
            static_cast<unsigned long long>(~any[1]));
  // The changes are independent: their rank is 122.
  int rank = 0;
  for (int col = 0; col < 128; col++) {
    auto has = [&](const Bits& x) { return (x.w[col / 64] >> (63 - col % 64)) & 1; };
    size_t p = static_cast<size_t>(rank);
    while (p < diff.size() && !has(diff[p])) p++;
    if (p == diff.size()) continue;
    std::swap(diff[p], diff[static_cast<size_t>(rank)]);
    for (size_t i = 0; i < diff.size(); i++) {
      if (i == static_cast<size_t>(rank) || !has(diff[i])) continue;
      diff[i].w[0] ^= diff[static_cast<size_t>(rank)].w[0];
      diff[i].w[1] ^= diff[static_cast<size_t>(rank)].w[1];
    }
    rank++;
  }
  SEQ_CHECK(rank == 122, "only %d of 122 bits of the GUID are independent", rank);
  seq::observe(rank);
  seq::state(seq::mix(static_cast<uint64_t>(base), static_cast<uint64_t>(n)));
}

// Every pattern of the four words out of a few, printed exactly.
void Patterns() {
  static const uint32_t kW[] = {0,          0xffffffffu, 1,          0x80000000u, 0x0000ffffu, 0xffff0000u,
                                0x12345678u, 0x0f0f0f0fu, 0x000fffffu, 0x7fffffffu, 0x00008000u, 0x00010000u};
  g_src.draws = 0;
  g_src.base = 0;
  // Words of the whole series: the same pattern again and again.
  static uint32_t w[4];
  for (auto& x : w) x = kW[choose(12)];
  g_src.base = 100;
  g_words_ = w;
  const rst::Guid g;
  const Bits b = Check(g);
  seq::observe(b.w[0]);
  seq::observe(b.w[1]);
  seq::state(seq::mix(b.w[0], b.w[1]));
}

SEQ_SCENARIOS(guid) {
  seq::add1("C23", "guid_randomness", Randomness);
  seq::add1("C23", "guid_patterns", Patterns);
}

}  // namespace

// The model of the random device.
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  const uint32_t n = g_src.draws++;
  uint32_t v = g_src.base == 100 ? g_words_[n % 4] : Word(n);
  if (static_cast<int64_t>(n) == g_src.flip_at) v ^= g_src.flip;
  return v;
}
}  // namespace std
