// C15: NotNull and Nullable.
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "rst/memory/memory.h"
#include "rst/not_null/not_null.h"
#include "seq/seq.h"

using rst::NotNull;
using rst::Nullable;
using seq::choose;
using seq::note;

namespace {

struct Pad {
  virtual ~Pad() = default;
  long x[2] = {};
};
struct Base {
  explicit Base(int i) : t(i) {}
  virtual ~Base() = default;
  int id() const { return t.v(); }
  seq::Tok t;
};
struct Derived : Pad, Base {
  using Base::Base;
};

struct Raw {
  template <class T>
  using P = T*;
  static constexpr bool kOwns = false, kCopies = true;
};
struct Unique {
  template <class T>
  using P = std::unique_ptr<T>;
  static constexpr bool kOwns = true, kCopies = false;
};
struct Shared {
  template <class T>
  using P = std::shared_ptr<T>;
  static constexpr bool kOwns = true, kCopies = true;
};

template <class T>
T* addr(T* p) {
  return p;
}
template <class T>
T* addr(const std::unique_ptr<T>& p) {
  return p.get();
}
template <class T>
T* addr(const std::shared_ptr<T>& p) {
  return p.get();
}

struct Model {
  enum { kEmpty, kMoved, kSet } what = kEmpty;
  int id = 0;  // 0: null.
  // Compared with null since last assigned; 2: not specified.
  int checked = 0;
};

template <class K>
struct Pointers {
  template <class T>
  using P = typename K::template P<T>;
  using NB = NotNull<P<Base>>;
  using ND = NotNull<P<Derived>>;
  using UB = Nullable<P<Base>>;
  using UD = Nullable<P<Derived>>;
  static constexpr int kN = 6;
  std::tuple<std::optional<NB>, std::optional<NB>, std::optional<ND>, std::optional<UB>, std::optional<UB>,
             std::optional<UD>>
      slots_;
  Model m_[kN];
  Derived* by_id_[64] = {};
  std::vector<std::unique_ptr<Derived>> keep_;  // Raw pointers' objects.
  int serial_ = 0;

  static bool not_null(int i) { return i < 3; }
  static bool derived(int i) { return i == 2 || i == 5; }

  template <class F, size_t... I>
  void VisitImpl(int i, F&& f, std::index_sequence<I...>) {
    ((i == static_cast<int>(I) ? f(std::get<I>(slots_)) : void()), ...);
  }
  template <class F>
  void Visit(int i, F&& f) {
    VisitImpl(i, f, std::make_index_sequence<kN>());
  }
  template <class S>
  struct Elem;
  template <template <class> class W, class T>
  struct Elem<std::optional<W<T*>>> {
    using type = T;
  };
  template <template <class> class W, class T>
  struct Elem<std::optional<W<std::unique_ptr<T>>>> {
    using type = T;
  };
  template <template <class> class W, class T>
  struct Elem<std::optional<W<std::shared_ptr<T>>>> {
    using type = T;
  };
  template <class S>
  static constexpr bool kIsNotNull = std::is_same_v<S, std::optional<NB>> || std::is_same_v<S, std::optional<ND>>;

  P<Derived> Make() {
    const int id = ++serial_;
    auto d = std::make_unique<Derived>(id);
    by_id_[id] = d.get();
    if constexpr (K::kOwns) {
      return P<Derived>(std::move(d));
    } else {
      keep_.push_back(std::move(d));
      return keep_.back().get();
    }
  }

  enum Op {
    kFresh,     // Constructed from or assigned a new object of its own type.
    kFreshSub,  // ... of a derived type.
    kNull,
    kNullptr,
    kTransfer,
    kCompare,
    kDeref,
    kArrow,
    kDestroy,
    kTake,
  };
  struct Cmd {
    Op op;
    int slot, other, how;
  };

  void Enabled(std::vector<Cmd>* out) {
    out->clear();
    for (int i = 0; i < kN; i++) {
      const Model& m = m_[i];
      out->push_back({kFresh, i, 0, 0});
      if (!derived(i)) out->push_back({kFreshSub, i, 0, 0});
      out->push_back({kNull, i, 0, 0});
      if (!not_null(i)) out->push_back({kNullptr, i, 0, 0});
      if (m.what != Model::kEmpty) out->push_back({kDestroy, i, 0, 0});
      if (K::kOwns && m.what == Model::kMoved) {
        // Nothing is left to be used.
        out->push_back({kDeref, i, 0, 0});
        out->push_back({kArrow, i, 0, 0});
        if (not_null(i)) out->push_back({kTake, i, 0, 0});
        for (int j = 0; j < 3; j++) {
          if (j == i || (derived(j) && !derived(i))) continue;
          if (K::kCopies) out->push_back({kTransfer, i, j, 0});
          out->push_back({kTransfer, i, j, 1});
        }
      }
      if (m.what == Model::kSet) {
        if (!not_null(i))
          for (int h = 0; h < 4; h++) out->push_back({kCompare, i, 0, h});
        out->push_back({kDeref, i, 0, 0});
        out->push_back({kArrow, i, 0, 0});
        if (K::kOwns) out->push_back({kTake, i, 0, 0});
        for (int j = 0; j < kN; j++) {
          if (j == i || (derived(j) && !derived(i))) continue;
          // Onto the twin of the same type only from slots 0 and 3.
          if (K::kCopies) out->push_back({kTransfer, i, j, 0});
          out->push_back({kTransfer, i, j, 1});
        }
      }
    }
  }

  template <class F>
  [[noreturn]] void Illegal(const char* what, F&& f) {
    if (seq::kChecked) {
      seq::step();
      SEQ_CHECK(seq::stopped(f), "%s was not stopped", what);
    }
    seq::done();
  }

  void Do(const Cmd& c) {
    static const char* const kOps[] = {"fresh",   "fresh derived", "null",  "nullptr", "transfer",
                                       "compare", "deref",         "arrow", "destroy", "take"};
    note("%s slot %d (%d,%d)", kOps[c.op], c.slot, c.other, c.how);
    seq::step();
    Model& m = m_[c.slot];
    Visit(c.slot, [&](auto& s) {
      using S = std::decay_t<decltype(s)>;
      using T = typename Elem<S>::type;
      auto put = [&](auto&& v) {
        if (s) *s = std::forward<decltype(v)>(v);
        else s.emplace(std::forward<decltype(v)>(v));
      };
      switch (c.op) {
        case kFresh: {
          P<T> p(Make());
          put(std::move(p));
          m = {Model::kSet, serial_, 0};
          break;
        }
        case kFreshSub: {
          put(Make());
          m = {Model::kSet, serial_, 0};
          break;
        }
        case kNull: {
          auto f = [&] { put(P<T>(nullptr)); };
          if (kIsNotNull<S>) Illegal("giving null to a not-null pointer", f);
          f();
          m = {Model::kSet, 0, 0};
          break;
        }
        case kNullptr:
          if constexpr (!kIsNotNull<S>) {
            put(nullptr);
            m = {Model::kSet, 0, 0};
          }
          break;
        case kCompare:
          if constexpr (!kIsNotNull<S>) {
            const auto& cs = *s;
            bool null = false;
            if (c.how == 0) null = cs == nullptr;
            else if (c.how == 1) null = nullptr == cs;
            else if (c.how == 2) null = !(cs != nullptr);
            else null = !(nullptr != cs);
            SEQ_CHECK(null == (m.id == 0), "comparing slot %d with null yields %d", c.slot, null);
            m.checked = 1;
          }
          break;
        case kDeref:
        case kArrow: {
          const auto& cs = *s;
          T* p = nullptr;
          auto f = [&] { p = c.op == kDeref ? &*cs : cs.operator->(); };
          if (m.what == Model::kMoved) Illegal("dereferencing a pointer that was moved from", f);
          if (!kIsNotNull<S>) {
            if (m.checked == 2 && m.id) seq::done();
            if (m.id == 0) Illegal("dereferencing null", f);
            if (m.checked == 0) Illegal("dereferencing without a comparison", f);
          }
          f();
          SEQ_CHECK(p == by_id_[m.id] && p->id() == m.id, "slot %d designates another object", c.slot);
          break;
        }
        case kDestroy:
          s.reset();
          m = Model();
          break;
        case kTake:
          if constexpr (K::kOwns) {
            if (m.what == Model::kMoved) Illegal("taking from a pointer that was moved from", [&] { P<T> p = std::move(*s).Take(); });
            P<T> p = std::move(*s).Take();
            SEQ_CHECK(addr(p) == (m.id ? by_id_[m.id] : nullptr), "Take() of slot %d yields another object", c.slot);
            m = {Model::kMoved, 0, 0};
          }
          break;
        case kTransfer:
          Visit(c.other, [&](auto& d) {
            using D = std::decay_t<decltype(d)>;
            using TD = typename Elem<D>::type;
            if constexpr (std::is_convertible_v<T*, TD*>) {
              Model& o = m_[c.other];
              auto f = [&] {
                if (c.how == 1) {
                  if (d) *d = std::move(*s);
                  else d.emplace(std::move(*s));
                } else {
                  if constexpr (K::kCopies) {
                    const auto& cs = *s;
                    if (d) *d = cs;
                    else d.emplace(cs);
                  }
                }
              };
              const bool construct = !d;
              if (m.what == Model::kMoved) Illegal("giving a pointer that was moved from to a not-null pointer", f);
              if (kIsNotNull<D> && !kIsNotNull<S>) {
                if (m.checked == 2 && m.id) seq::done();
                if (m.id == 0) Illegal("converting null to a not-null pointer", f);
                if (m.checked == 0) Illegal("converting to a not-null pointer without a comparison", f);
              }
              f();
              // Whether a constructed copy needs another comparison is not
              // specified.
              o = {Model::kSet, m.id, construct && !kIsNotNull<S> && std::is_same_v<S, D> ? 2 : 0};
              if (c.how == 1) m = {Model::kMoved, 0, 0};
            }
          });
          break;
      }
    });
  }

  void Verify() {
    uint64_t h = 0;
    const void* real[kN];
    bool used[64] = {};
    int alive = 0;
    for (int i = 0; i < kN; i++) {
      const Model& m = m_[i];
      h = h * 12 + static_cast<uint64_t>(m.what) * 4 + (m.id ? 1 : 0) + (m.checked ? 2 : 0);
      real[i] = nullptr;
      if (m.what != Model::kSet) continue;
      if (m.id && !used[m.id]) {
        used[m.id] = true;
        alive++;
      }
      Visit(i, [&](auto& s) {
        using T = typename Elem<std::decay_t<decltype(s)>>::type;
        T* want = m.id ? by_id_[m.id] : nullptr;
        T* got = s->get();
        real[i] = got;
        SEQ_CHECK(got == want, "slot %d designates another object", i);
        using W = typename std::decay_t<decltype(s)>::value_type;
        SEQ_CHECK(std::hash<W>()(*s) == std::hash<T*>()(want), "the hash of slot %d is not its pointer's", i);
        if (got) SEQ_CHECK(got->id() == m.id, "slot %d designates a changed object", i);
      });
    }
    if (K::kOwns)
      SEQ_CHECK(seq::Live::live == alive, "%d objects are alive, %d are owned", seq::Live::live, alive);
    for (int i = 0; i < kN; i++)
      for (int j = 0; j < kN; j++) {
        if (m_[i].what != Model::kSet || m_[j].what != Model::kSet) continue;
        Visit(i, [&](auto& a) {
          Visit(j, [&](auto& b) {
            using TA = typename Elem<std::decay_t<decltype(a)>>::type;
            using TB = typename Elem<std::decay_t<decltype(b)>>::type;
            const auto& x = *a;
            const auto& y = *b;
            TB* yr = y.get();
            TA* xr = x.get();
            const bool eq = xr == yr;
            SEQ_CHECK((x == y) == eq && (x != y) == !eq, "comparing slots %d and %d is wrong", i, j);
            SEQ_CHECK((x == yr) == eq && (yr == x) == eq && (x != yr) == !eq && (yr != x) == !eq,
                      "comparing slot %d with the pointer of %d is wrong", i, j);
            if constexpr (kIsNotNull<std::decay_t<decltype(a)>> == kIsNotNull<std::decay_t<decltype(b)>>) {
              const bool lt = xr < yr;
              SEQ_CHECK((x < y) == lt, "ordering slots %d and %d is wrong", i, j);
            }
            seq::observe(eq);
          });
        });
      }
    seq::state(h);
  }

  void Drive() {
    std::vector<Cmd> cmds;
    for (int k = 0; k < seq::bound(); k++) {
      Enabled(&cmds);
      Do(cmds[static_cast<size_t>(choose(static_cast<int>(cmds.size())))]);
    }
    Verify();
    for (int i = 0; i < kN; i++) Visit(i, [](auto& s) { s.reset(); });
    keep_.clear();
    SEQ_CHECK(seq::Live::live == 0, "%d objects are left", seq::Live::live);
  }
};

// Indexing.
void arrays() {
  int a[5] = {10, 11, 12, 13, 14};
  const int start = choose(5);
  const int i = choose(5 - start);
  const int kind = choose(6);
  const bool checked = seq::flip();
  int* p = kind == 5 ? nullptr : &a[start];
  note("start %d index %d kind %d checked %d", start, i, kind, checked);
  seq::step();
  if (kind == 0) {
    NotNull<int*> n(p);
    SEQ_CHECK(&n[static_cast<size_t>(i)] == &a[start + i], "[%d] is another element", i);
    n[static_cast<size_t>(i)] = 7;
    SEQ_CHECK(a[start + i] == 7, "assigning [%d] has no effect", i);
  } else if (kind == 1) {
    NotNull<const int*> n = NotNull<int*>(p);
    SEQ_CHECK(&n[static_cast<size_t>(i)] == &a[start + i], "[%d] is another element", i);
  } else {
    Nullable<int*> n(p);
    Nullable<const int*> c(p);
    const bool con = kind == 3;
    if (checked) {
      const bool null = con ? c == nullptr : n == nullptr;
      SEQ_CHECK(null == (p == nullptr), "comparison with null is wrong");
    }
    const int* got = nullptr;
    auto f = [&] { got = con ? &c[static_cast<size_t>(i)] : &n[static_cast<size_t>(i)]; };
    if (!checked || p == nullptr) {
      if (seq::kChecked) SEQ_CHECK(seq::stopped(f), "indexing an unchecked or null pointer was not stopped");
      seq::done();
    }
    f();
    SEQ_CHECK(got == &a[start + i], "[%d] is another element", i);
  }
  // WrapUnique() and deduction.
  if (kind == 4) {
    auto w = rst::WrapUnique(new Derived(3));
    static_assert(std::is_same_v<decltype(w), NotNull<std::unique_ptr<Derived>>>);
    SEQ_CHECK(w->id() == 3, "WrapUnique() yields another object");
    NotNull<std::unique_ptr<Base>> b = std::move(w);
    SEQ_CHECK(b->id() == 3 && seq::Live::live == 1, "conversion changed the object");
    Base* raw = new Base(4);
    b = rst::WrapUnique(NotNull<Base*>(raw));
    SEQ_CHECK(b == raw && seq::Live::live == 1, "assignment leaks or doubles");
    if (seq::kChecked) {
      Base* none = nullptr;
      SEQ_CHECK(seq::stopped([&] { auto x = rst::WrapUnique(none); (void)x; }), "WrapUnique(null) was not stopped");
    }
  }
}

// Pointers to every kind of thing: histories over one of each pointer class.
struct Unknown;
template <class T>
void Kinds(T* const (&at)[3]) {
  std::optional<NotNull<T*>> n;
  std::optional<Nullable<T*>> u;
  int ni = 0, ui = 0;  // Which of at; -1: null.
  bool checked = false;
  auto illegal = [](const char* what, auto&& f) {
    if (seq::kChecked) SEQ_CHECK(seq::stopped(f), "%s was not stopped", what);
    seq::done();
  };
  for (int k = 0; k < seq::bound(); k++) {
    const int op = choose(10);
    note("op %d", op);
    seq::step();
    const int which = op == 0 || op == 1 ? choose(4) - 1 : 0;
    T* const p = which < 0 ? nullptr : at[which];
    switch (op) {
      case 0: {
        auto f = [&] {
          if (n) *n = p;
          else n.emplace(p);
        };
        if (which < 0) illegal("giving null to a not-null pointer", f);
        f();
        ni = which;
        break;
      }
      case 1:
        if (u) *u = p;
        else u.emplace(p);
        ui = which;
        checked = false;
        break;
      case 2:
        if (!n) seq::done();
        if (u) *u = *n;
        else u.emplace(*n);
        ui = ni;
        checked = false;
        break;
      case 3: {
        if (!u) seq::done();
        auto f = [&] {
          if (n) *n = *u;
          else n.emplace(*u);
        };
        if (ui < 0) illegal("converting null to a not-null pointer", f);
        if (!checked) illegal("converting to a not-null pointer without a comparison", f);
        f();
        ni = ui;
        break;
      }
      case 4:
      case 5:
        if (!u) seq::done();
        SEQ_CHECK((op == 4 ? *u == nullptr : !(nullptr != *u)) == (ui < 0), "comparison with null is wrong");
        checked = true;
        break;
      case 6:
      case 7: {
        if (!u) seq::done();
        T* got = nullptr;
        auto f = [&] { got = op == 6 ? &**u : u->operator->(); };
        if (ui < 0) illegal("dereferencing null", f);
        if (!checked) illegal("dereferencing without a comparison", f);
        f();
        SEQ_CHECK(got == at[ui], "another object is designated");
        break;
      }
      case 8:
        if (!n) seq::done();
        SEQ_CHECK(&**n == at[ni] && n->operator->() == at[ni], "another object is designated");
        break;
      case 9: {
        // Copies.
        if (!n || !u) seq::done();
        const NotNull<T*> nc = *n;
        const Nullable<T*> uc = *u;
        T* const want = ui < 0 ? nullptr : at[ui];
        SEQ_CHECK(nc == *n && nc.get() == at[ni] && uc == *u && uc.get() == want, "a copy differs");
        SEQ_CHECK((nc == uc) == (ni == ui) && (uc == nc) == (ni == ui) && (nc != uc) == (ni != ui), "comparison is wrong");
        SEQ_CHECK((nc == want) == (ni == ui) && (want == nc) == (ni == ui), "comparison is wrong");
        SEQ_CHECK(std::hash<NotNull<T*>>()(nc) == std::hash<T*>()(at[ni]) &&
                      std::hash<Nullable<T*>>()(uc) == std::hash<T*>()(want),
                  "a hash is not the pointer's");
        for (T* q : at) SEQ_CHECK((nc < NotNull<T*>(q)) == (at[ni] < q) && (uc < Nullable<T*>(q)) == (want < q), "ordering is wrong");
        break;
      }
    }
    SEQ_CHECK(!n || n->get() == at[ni], "another object is designated");
    SEQ_CHECK(!u || u->get() == (ui < 0 ? nullptr : at[ui]), "another object is designated");
    seq::state(static_cast<uint64_t>(((n ? ni + 1 : 0) * 8 + (u ? ui + 2 : 0)) * 2 + checked));
  }
}

int g_ints[3];
int* g_ptrs[3];
bool g_flags[3];
char g_text[3] = {0, 0, 0};
double g_doubles[3];
std::string g_strings[3];
enum class Kind : short { kA } g_kinds[3];
int g_rows[3][4];
struct VirtualBase {
  virtual ~VirtualBase() = default;
};
struct Diamond : virtual VirtualBase {
} g_diamonds[3];
template <class T, class A>
void KindsOf(A& a) {
  T* const at[3] = {reinterpret_cast<T*>(&a[0]), reinterpret_cast<T*>(&a[1]), reinterpret_cast<T*>(&a[2])};
  Kinds<T>(at);
}

SEQ_SCENARIOS(not_null) {
  seq::add("C15", "raw_pointers", 4, 5, [] { Pointers<Raw>().Drive(); });
  seq::add("C15", "unique_pointers", 4, 5, [] { Pointers<Unique>().Drive(); });
  seq::add("C15", "shared_pointers", 4, 5, [] { Pointers<Shared>().Drive(); });
  seq::add1("C15", "indexing", arrays);
  seq::add("C15", "pointers_int", 5, 6, [] { KindsOf<int>(g_ints); });
  seq::add("C15", "pointers_const_int", 5, 6, [] { KindsOf<const int>(g_ints); });
  seq::add("C15", "pointers_volatile_int", 5, 6, [] { KindsOf<volatile int>(g_ints); });
  seq::add("C15", "pointers_pointer", 5, 6, [] { KindsOf<int*>(g_ptrs); });
  seq::add("C15", "pointers_bool", 5, 6, [] { KindsOf<bool>(g_flags); });
  seq::add("C15", "pointers_char", 5, 6, [] { KindsOf<char>(g_text); });
  seq::add("C15", "pointers_const_char", 5, 6, [] { KindsOf<const char>(g_text); });
  seq::add("C15", "pointers_double", 5, 6, [] { KindsOf<double>(g_doubles); });
  seq::add("C15", "pointers_string", 5, 6, [] { KindsOf<std::string>(g_strings); });
  seq::add("C15", "pointers_enum", 5, 6, [] { KindsOf<Kind>(g_kinds); });
  seq::add("C15", "pointers_row", 5, 6, [] { KindsOf<int[4]>(g_rows); });
  seq::add("C15", "pointers_incomplete", 5, 6, [] { KindsOf<Unknown>(g_doubles); });
  seq::add("C15", "pointers_diamond", 5, 6, [] { KindsOf<Diamond>(g_diamonds); });
}

}  // namespace
