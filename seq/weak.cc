// C11: weak pointers and bound callbacks.
#include <memory>
#include <optional>
#include <string>
#include <utility>

#include "rst/bind/bind.h"
#include "rst/memory/weak_ptr.h"
#include "seq/seq.h"

using rst::WeakPtr;
using seq::choose;
using seq::flip;
using seq::note;

namespace {

struct Pad {
  virtual ~Pad() = default;
  long pad[3] = {1, 2, 3};
};
struct Base : rst::SupportsWeakPtr<Base> {
  explicit Base(int i) : id(i) {}
  virtual ~Base() = default;
  int id;
};
struct Derived : Pad, Base {
  explicit Derived(int i) : Base(i), t(i) {}
  seq::Tok t;
};

// Slots of several weak pointer types over two objects.  After a move the
// source may only be null or (while it is alive) the object it had.
struct Weak {
  enum { kB0, kB1, kCB, kD, kCD, kSlots };
  static constexpr const char* kNames[] = {"base0", "base1", "constbase", "derived", "constderived"};

  template <class F>
  void With(int s, F&& f) {
    switch (s) {
      case kB0:
        f(b0_);
        break;
      case kB1:
        f(b1_);
        break;
      case kCB:
        f(cb_);
        break;
      case kD:
        f(d_);
        break;
      default:
        f(cd_);
        break;
    }
  }

  static bool Convertible(int from, int to) {
    if (from == to) return false;
    if (from == kD) return true;
    if (from == kCD) return to == kCB;
    if (from == kB0 || from == kB1) return to == kB0 || to == kB1 || to == kCB;
    return false;
  }

  void Create(int o) {
    note("create %d", o);
    seq::step();
    obj_[o] = std::make_unique<Derived>(++serial_);
    gen_[o] = serial_;
  }
  void Destroy(int o) {
    note("destroy %d", o);
    seq::step();
    gen_[o] = 0;
    obj_[o].reset();
  }

  template <class P>
  const void* Expect(int gen) {
    for (auto& o : obj_)
      if (o && o->id == gen) return static_cast<typename P::T>(o.get());
    return nullptr;
  }
  template <class T>
  void CheckSlot(const WeakPtr<T>& w, int s) {
    const auto n = w.GetNullable();
    T* p = n.get();
    T* want = nullptr;
    for (auto& o : obj_)
      if (o && model_[s] != 0 && o->id == model_[s]) want = o.get();
    if (moved_[s]) {
      SEQ_CHECK(p == nullptr || p == want, "the moved-from %s yields %p", kNames[s], static_cast<const void*>(p));
      return;
    }
    SEQ_CHECK(p == want, "%s yields %p, not %p", kNames[s], static_cast<const void*>(p),
              static_cast<const void*>(want));
    if (p) SEQ_CHECK(p->id == model_[s], "%s yields object %d, not %d", kNames[s], p->id, model_[s]);
    // The result of a comparison makes it usable.
    if (n != nullptr) {
      SEQ_CHECK(&*n == want && n->id == model_[s], "%s yields a different object when dereferenced", kNames[s]);
      seq::observe(1);
    } else {
      SEQ_CHECK(want == nullptr, "%s compares null", kNames[s]);
      seq::observe(0);
    }
  }
  void Check() {
    for (int s = 0; s < kSlots; s++)
      With(s, [&](auto& w) { CheckSlot(*w, s); });
    SEQ_CHECK(seq::Live::live == (obj_[0] != nullptr) + (obj_[1] != nullptr),
              "%d objects are alive: a weak pointer changed a lifetime", seq::Live::live);
    uint64_t h = 0;
    for (int s = 0; s < kSlots; s++)
      h = h * 8 + static_cast<uint64_t>(model_[s] == 0 ? 0
                                        : model_[s] == gen_[0] ? 1
                                        : model_[s] == gen_[1] ? 2
                                                               : 3) + (moved_[s] ? 4 : 0);
    h = h * 4 + (gen_[0] ? 1 : 0) + (gen_[1] ? 2 : 0);
    seq::state(h);
  }

  // Takes a pointer from object |o| into slot |s|.
  void Take(int s, int o) {
    Derived* d = obj_[o].get();
    const Derived* cdp = d;
    const Base* cb = d;
    switch (s) {
      case kB0:
        *b0_ = d->AsWeakPtr();
        break;
      case kB1:
        b1_.emplace(rst::AsWeakPtr(static_cast<Base*>(d)));
        break;
      case kCB:
        *cb_ = cb->AsWeakPtr();
        break;
      case kD:
        *d_ = rst::AsWeakPtr(d);
        break;
      default:
        cd_.emplace(rst::AsWeakPtr(cdp));
        break;
    }
  }

  template <class A, class B>
  void Transfer(A& to, B& from, int how) {
    using TA = typename A::value_type;
    using TB = typename B::value_type;
    if constexpr (std::is_constructible_v<TA, TB&&> && ConvOk<TA, TB>::value) {
      switch (how) {
        case 0:
          *to = *from;
          break;
        case 1:
          *to = std::move(*from);
          break;
        case 2:
          to.reset();
          to.emplace(*from);
          break;
        default:
          to.reset();
          to.emplace(std::move(*from));
          break;
      }
    }
  }
  template <class A, class B>
  struct ConvOk;
  template <class A, class B>
  struct ConvOk<WeakPtr<A>, WeakPtr<B>> : std::is_convertible<B*, A*> {};

  void Drive(bool rebirth) {
    Check();
    Create(0);
    Create(1);
    // Two slots start with pointers.
    for (int s : {kB0, kD}) {
      const int o = choose(2);
      Take(s, o);
      model_[s] = gen_[o];
      note("%s = object %d", kNames[s], o);
    }
    Check();
    for (int k = 0; k < seq::bound(); k++) {
      seq::step();
      int c = choose(4);
      if (c == 0) {  // Object life.
        const int o = choose(2);
        if (obj_[o]) Destroy(o);
        else if (rebirth) Create(o);
        else seq::done();
      } else if (c == 1) {  // From an object.
        const int s = choose(kSlots), o = choose(2);
        if (!obj_[o]) seq::done();
        note("%s = object %d", kNames[s], o);
        Take(s, o);
        model_[s] = gen_[o];
        moved_[s] = false;
      } else if (c == 2) {  // Null.
        const int s = choose(kSlots);
        const int how = choose(3);
        note("%s = nullptr", kNames[s]);
        With(s, [&](auto& w) {
          if (how == 0) *w = nullptr;
          else if (how == 1) w.emplace();
          else w.emplace(nullptr);
        });
        model_[s] = 0;
        moved_[s] = false;
      } else {
        const int from = choose(kSlots);
        int to = choose(kSlots);
        if (!Convertible(from, to)) {
          if (from != to) seq::done();
          // Self copy assignment keeps the value.
          With(from, [&](auto& w) {
            auto& same = *w;
            *w = same;
          });
          note("%s = itself", kNames[from]);
        } else {
          const int how = choose(4);
          if (moved_[from]) seq::done();
          static const char* const kHow[] = {"=", "= move", "(copy)", "(move)"};
          note("%s %s %s", kNames[to], kHow[how], kNames[from]);
          With(to, [&](auto& t) {
            With(from, [&](auto& f) { Transfer(t, f, how); });
          });
          model_[to] = model_[from];
          moved_[to] = false;
          if (how & 1) moved_[from] = true;
        }
      }
      Check();
    }
    for (int o = 0; o < 2; o++)
      if (obj_[o]) Destroy(o);
    Check();
  }

  std::optional<WeakPtr<Base>> b0_{std::in_place}, b1_{std::in_place};
  std::optional<WeakPtr<const Base>> cb_{std::in_place};
  std::optional<WeakPtr<Derived>> d_{std::in_place};
  std::optional<WeakPtr<const Derived>> cd_{std::in_place};
  std::unique_ptr<Derived> obj_[2];
  int gen_[2] = {0, 0};
  int model_[kSlots] = {};
  bool moved_[kSlots] = {};
  int serial_ = 0;
};
constexpr const char* Weak::kNames[];

// The object is alive, for weak pointers, exactly until its own destructor
// has run (members and derived destructors may still use it).
struct Suicide : rst::SupportsWeakPtr<Suicide> {
  WeakPtr<Suicide>* out = nullptr;
  WeakPtr<Suicide> self() { return AsWeakPtr(); }
};
void many() {
  // Many weak pointers to many objects, all destruction orders of objects.
  const int n = seq::bound();
  std::vector<std::unique_ptr<Base>> o;
  std::vector<WeakPtr<Base>> w;
  for (int i = 0; i < n; i++) {
    o.push_back(std::make_unique<Base>(i));
    for (int k = 0; k <= i; k++) w.push_back(o.back()->AsWeakPtr());
  }
  for (int left = n; left > 0; left--) {
    int c = choose(left);
    for (int i = 0; i < n; i++) {
      if (!o[static_cast<size_t>(i)]) continue;
      if (c-- == 0) {
        o[static_cast<size_t>(i)].reset();
        note("destroy %d", i);
      }
    }
    seq::step();
    uint64_t h = 0;
    size_t x = 0;
    for (int i = 0; i < n; i++)
      for (int k = 0; k <= i; k++, x++) {
        auto* want = o[static_cast<size_t>(i)].get();
        SEQ_CHECK(w[x].GetNullable() == want, "weak pointer %zu to object %d is wrong", x, i);
        h = h * 2 + (want != nullptr);
      }
    seq::state(h);
  }
}

// Very many of them, to one object.
void very_many() {
  static const size_t kCounts[] = {100, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70000};
  const size_t n = kCounts[choose(15)];
  const int die = choose(3);
  note("%zu weak pointers", n);
  auto o = std::make_unique<Base>(1);
  std::vector<WeakPtr<Base>> w;
  w.push_back(o->AsWeakPtr());
  for (size_t i = 1; i < n; i++) w.push_back(i % 3 ? WeakPtr<Base>(w[i / 2]) : o->AsWeakPtr());
  for (auto& x : w) SEQ_CHECK(x.GetNullable() == o.get(), "a weak pointer to a living object is wrong");
  // Some go before the object, some after.
  if (die == 1) w.resize(n / 2);
  if (die == 2) w.erase(w.begin(), w.begin() + static_cast<long>(n) - 1);
  for (auto& x : w) SEQ_CHECK(x.GetNullable() == o.get(), "a weak pointer to a living object is wrong");
  o.reset();
  for (auto& x : w) SEQ_CHECK(x.GetNullable() == nullptr, "a weak pointer to a dead object is not null");
  seq::step();
  seq::state(n * 4 + static_cast<size_t>(die));
}

// --- Bind ---

struct Log {
  int calls = 0;
  std::string text;
};
Log g_log;

struct Target : rst::SupportsWeakPtr<Target> {
  explicit Target(int i) : id(i), t(i) {}
  void M0() { Hit("M0"); }
  void M2(int a, const std::string& s) { Hit("M2 " + std::to_string(a) + s); }
  void C2(int a, const std::string& s) const { Hit("C2 " + std::to_string(a) + s); }
  void R(int& r) {
    r++;
    Hit("R");
  }
  void U(std::unique_ptr<seq::Tok> p) { Hit("U " + std::to_string(p ? p->v() : -2)); }
  void Order(int a, int b, int c) { Hit("O " + std::to_string(a * 100 + b * 10 + c)); }
  int Ret(int a) {
    Hit("Ret");
    return a;
  }
  void Die(std::unique_ptr<Target>* owner) {
    Hit("Die");
    owner->reset();
  }
  void Hit(const std::string& s) const {
    g_log.calls++;
    g_log.text += "[" + std::to_string(id) + "/" + std::to_string(t.v()) + " " + s + "]";
  }
  int id;
  seq::Tok t;
};

// Calls |f| |n| times with the target dying before call |dies| (or never) and
// compares what was called.
template <class F, class Kill>
void Calls(F&& f, Kill&& kill, const std::string& want) {
  const int n = 1 + choose(3);
  const int dies = choose(n + 1);
  std::string all;
  for (int i = 0; i < n; i++) {
    if (i == dies) {
      kill();
      note("target dies");
    }
    seq::step();
    f();
    if (i < dies) all += want;
    note("call");
    SEQ_CHECK(g_log.text == all, "after call %d: %s instead of %s", i, g_log.text.c_str(), all.c_str());
  }
  seq::observe(all);
  seq::state(seq::hash(all));
}

void bind_weak() {
  using namespace std::placeholders;
  g_log = Log();
  auto o = std::make_unique<Target>(7);
  auto other = std::make_unique<Target>(8);
  auto kill = [&] {
    // A new object may get the same address.
    o.reset();
    o = std::make_unique<Target>(9);
  };
  int x = 5;
  const int kind = choose(16);
  note("kind %d", kind);
  const bool copy = flip();
  auto go = [&](auto b, auto&& call, const std::string& want) {
    if (copy) {
      std::function<std::decay_t<decltype(b)>()> dummy;
      auto c = b;
      Calls([&] { call(c); }, kill, want);
    } else {
      auto c = std::move(b);
      Calls([&] { call(c); }, kill, want);
    }
  };
  auto plain = [](auto& c) { c(); };
  switch (kind) {
    case 0:
      go(rst::Bind(&Target::M0, o->AsWeakPtr()), plain, "[7/7 M0]");
      break;
    case 1:
      go(rst::Bind(&Target::M2, o->AsWeakPtr(), 42, std::string("abc")), plain, "[7/7 M2 42abc]");
      break;
    case 2:
      go(rst::Bind(&Target::C2, o->AsWeakPtr(), -1, "lit"), plain, "[7/7 C2 -1lit]");
      break;
    case 3: {
      const Target* c = o.get();
      go(rst::Bind(&Target::C2, c->AsWeakPtr(), -1, "lit"), plain, "[7/7 C2 -1lit]");
      break;
    }
    case 4:
      go(rst::Bind(&Target::M2, o->AsWeakPtr(), _1, _2), [](auto& c) { c(3, std::string("z")); }, "[7/7 M2 3z]");
      break;
    case 5:
      go(rst::Bind(&Target::M2, o->AsWeakPtr(), _2, _1), [](auto& c) { c(std::string("z"), 3); }, "[7/7 M2 3z]");
      break;
    case 6:
      go(rst::Bind(&Target::Order, o->AsWeakPtr(), _2, 5, _1), [](auto& c) { c(1, 2); }, "[7/7 O 251]");
      break;
    case 7: {
      x = 0;
      go(rst::Bind(&Target::R, o->AsWeakPtr(), std::ref(x)), plain, "[7/7 R]");
      SEQ_CHECK(x == g_log.calls, "the referenced argument was changed %d times in %d calls", x, g_log.calls);
      break;
    }
    case 8: {
      x = 0;
      go(rst::Bind(&Target::R, o->AsWeakPtr(), _1), [&](auto& c) { c(x); }, "[7/7 R]");
      SEQ_CHECK(x == g_log.calls, "the call-time reference was changed %d times in %d calls", x, g_log.calls);
      break;
    }
    case 9:
      go(rst::Bind(&Target::U, o->AsWeakPtr(), _1), [](auto& c) { c(std::make_unique<seq::Tok>(4)); }, "[7/7 U 4]");
      break;
    case 10:
      go(rst::Bind(&Target::Ret, o->AsWeakPtr(), 1), plain, "[7/7 Ret]");
      break;
    case 11: {
      auto f = [](Target* t, int a) { t->Hit("F " + std::to_string(a)); };
      go(rst::Bind(f, o->AsWeakPtr(), 6), plain, "[7/7 F 6]");
      break;
    }
    case 12: {
      seq::Tok cap(3);
      go(rst::Bind([cap](Target* t, const seq::Tok& a) { t->Hit("F " + std::to_string(cap.v() * 10 + a.v())); },
                   o->AsWeakPtr(), seq::Tok(8)),
         plain, "[7/7 F 38]");
      break;
    }
    case 13: {
      // Into std::function, whose copies must all work.
      std::function<void(int)> f = rst::Bind(&Target::Order, o->AsWeakPtr(), 1, _1, 3);
      go(f, [](auto& c) { c(2); }, "[7/7 O 123]");
      break;
    }
    case 14: {
      // A weak pointer that was already null.
      WeakPtr<Target> w = o->AsWeakPtr();
      kill();
      auto b = rst::Bind(&Target::M0, std::move(w));
      for (int i = 0; i < 2; i++) b();
      SEQ_CHECK(g_log.calls == 0, "a callback of a dead target was called");
      auto b2 = rst::Bind(&Target::M0, WeakPtr<Target>());
      b2();
      SEQ_CHECK(g_log.calls == 0, "a callback of no target was called");
      break;
    }
    default: {
      // The target dies inside its own callback.
      auto b = rst::Bind(&Target::Die, o->AsWeakPtr(), &o);
      for (int i = 0; i < 3; i++) b();
      SEQ_CHECK(g_log.text == "[7/7 Die]", "after dying: %s", g_log.text.c_str());
      break;
    }
  }
  o.reset();
  other.reset();
  SEQ_CHECK(seq::Live::live == 0, "%d payloads leaked", seq::Live::live);
}

struct Shared {
  explicit Shared(int i) : id(i), t(i) {}
  void M2(int a, const std::string& s) { g_log.text += "[" + std::to_string(id) + " " + std::to_string(a) + s + "]"; }
  void C0() const { g_log.text += "[" + std::to_string(id) + " C0]"; }
  void Die(std::shared_ptr<Shared>* owner) {
    owner->reset();
    // Kept alive by the callback until it returns.
    SEQ_CHECK(seq::Live::live == 1, "the object was destroyed during its callback");
    g_log.text += "[" + std::to_string(id) + "/" + std::to_string(t.v()) + " Die]";
  }
  void U(std::unique_ptr<seq::Tok> p) { g_log.text += "[U " + std::to_string(p ? p->v() : -2) + "]"; }
  int id;
  seq::Tok t;
};

void bind_std_weak() {
  using namespace std::placeholders;
  g_log = Log();
  auto o = std::make_shared<Shared>(7);
  std::shared_ptr<Shared> second = flip() ? o : nullptr;
  auto kill = [&] {
    o.reset();
    second.reset();
  };
  const int kind = choose(7);
  note("kind %d", kind);
  const bool copy = flip();
  auto go = [&](auto b, auto&& call, const std::string& want) {
    if (copy) {
      auto c = b;
      Calls([&] { call(c); }, kill, want);
    } else {
      auto c = std::move(b);
      Calls([&] { call(c); }, kill, want);
    }
  };
  auto plain = [](auto& c) { c(); };
  switch (kind) {
    case 0:
      go(rst::Bind(&Shared::M2, std::weak_ptr<Shared>(o), 1, "x"), plain, "[7 1x]");
      break;
    case 1:
      go(rst::Bind(&Shared::M2, std::weak_ptr<Shared>(o), _1, std::string("y")), [](auto& c) { c(2); }, "[7 2y]");
      break;
    case 2:
      go(rst::Bind(&Shared::C0, std::weak_ptr<const Shared>(o)), plain, "[7 C0]");
      break;
    case 3:
      go(rst::Bind(&Shared::U, std::weak_ptr<Shared>(o), _1), [](auto& c) { c(std::make_unique<seq::Tok>(4)); },
         "[U 4]");
      break;
    case 4:
      go(rst::Bind([](const std::shared_ptr<Shared>& s, int a) { g_log.text += "[" + std::to_string(s->id + a) + "]"; },
                   std::weak_ptr<Shared>(o), 10),
         plain, "[17]");
      break;
    case 5: {
      second.reset();
      auto b = rst::Bind(&Shared::Die, std::weak_ptr<Shared>(o), &o);
      for (int i = 0; i < 3; i++) b();
      SEQ_CHECK(g_log.text == "[7/7 Die]", "after dying: %s", g_log.text.c_str());
      SEQ_CHECK(seq::Live::live == 0, "the callback keeps its target alive");
      break;
    }
    default: {
      auto b = rst::Bind(&Shared::C0, std::weak_ptr<Shared>(o));
      kill();
      SEQ_CHECK(seq::Live::live == 0, "the callback keeps its target alive");
      b();
      SEQ_CHECK(g_log.text.empty(), "a callback of a dead target was called");
      break;
    }
  }
  kill();
  SEQ_CHECK(seq::Live::live == 0, "%d payloads leaked", seq::Live::live);
}

// Conversions to a virtual base read the object, so that an expired pointer has
// to be left alone.
struct VBase {
  virtual ~VBase() = default;
  long vb = 11;
};
struct VMid : virtual VBase {
  long vm = 12;
};
struct VObj : VMid, rst::SupportsWeakPtr<VObj> {
  explicit VObj(int i) : id(i), t(i) {}
  int id;
  seq::Tok t;
};

void virtual_base() {
  std::unique_ptr<VObj> o;
  int serial = 0;
  // 0: null, n: object n.
  int mo = 0, mc = 0, mb = 0, mcb = 0;
  WeakPtr<VObj> wo;
  WeakPtr<const VObj> wc;
  WeakPtr<VBase> wb;
  WeakPtr<const VBase> wcb;
  auto check = [&] {
    const int now = o ? serial : 0;
    auto want = [&](int m) { return m != 0 && m == now ? o.get() : nullptr; };
    SEQ_CHECK(wo.GetNullable().get() == want(mo), "object pointer of a wrong object");
    SEQ_CHECK(wc.GetNullable().get() == want(mc), "const object pointer of a wrong object");
    SEQ_CHECK(wb.GetNullable().get() == want(mb), "base pointer of a wrong object");
    SEQ_CHECK(wcb.GetNullable().get() == want(mcb), "const base pointer of a wrong object");
    if (want(mb)) SEQ_CHECK(wb.GetNullable().get()->vb == 11, "base damaged");
    SEQ_CHECK(seq::Live::live == (o ? 1 : 0), "a weak pointer changed a lifetime");
    seq::state(static_cast<uint64_t>(now * 10000 + mo * 1000 + mc * 100 + mb * 10 + mcb));
  };
  const int depth = seq::bound();
  for (int i = 0; i < depth; i++) {
    const int op = choose(11);
    note("op %d", op);
    seq::step();
    switch (op) {
      case 0:
        o = std::make_unique<VObj>(++serial);
        break;
      case 1:
        o.reset();
        break;
      case 2:
        if (!o) return;
        wo = o->AsWeakPtr();
        wc = static_cast<const VObj*>(o.get())->AsWeakPtr();
        mo = mc = serial;
        break;
      case 3:
        wb = wo;
        mb = mo;
        break;
      case 4:
        wb = std::move(wo);
        mb = mo;
        wo = nullptr;
        mo = 0;
        break;
      case 5:
        wcb = wc;
        mcb = mc;
        break;
      case 6:
        wcb = std::move(wb);
        mcb = mb;
        wb = nullptr;
        mb = 0;
        break;
      case 7: {
        WeakPtr<VBase> t(wo);
        SEQ_CHECK(t.GetNullable().get() == wo.GetNullable().get(), "the converted copy differs");
        wb = t;
        mb = mo;
        break;
      }
      case 8: {
        WeakPtr<const VBase> t(std::move(wc));
        wc = nullptr;
        wcb = std::move(t);
        mcb = mc;
        mc = 0;
        break;
      }
      case 9: {
        WeakPtr<VMid> t(wo);
        const WeakPtr<const VMid> u(t);
        wcb = u;
        mcb = mo;
        break;
      }
      default: {
        // The object dies between two conversions.
        WeakPtr<VMid> t(wo);
        o.reset();
        wb = t;
        mb = mo;
        break;
      }
    }
    check();
  }
}

SEQ_SCENARIOS(weak) {
  seq::add("C11", "weak_pointers", 3, 4, [] { Weak().Drive(true); });
  seq::add("C11", "weak_many", 7, 9, many);
  seq::add1("C11", "weak_very_many", very_many);
  seq::add("C11", "virtual_base", 5, 7, virtual_base);
  seq::add1("C11", "bind_weak", bind_weak);
  seq::add1("C11", "bind_std_weak", bind_std_weak);
}

}  // namespace
