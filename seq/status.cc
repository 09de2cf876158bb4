// C12 (Status, StatusOr), C13 (error identity) and C14 (early returns).
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"
#include "seq/seq.h"

using rst::MakeStatus;
using rst::Status;
using rst::StatusOr;
using seq::choose;
using seq::flip;
using seq::note;
using seq::Tok;

namespace {

class TokError : public rst::ErrorInfo<TokError> {
 public:
  explicit TokError(int v) : t(v), s_("error " + std::to_string(v)) {}
  const std::string& AsString() const override { return s_; }
  static char id_;
  Tok t;

 private:
  std::string s_;
};
char TokError::id_ = 0;

int error_of(const Status& s) {
  const auto e = s.GetError();
  const auto te = rst::dyn_cast<TokError>(e.get());
  SEQ_CHECK(te != nullptr, "the error has another class");
  SEQ_CHECK(te->AsString() == "error " + std::to_string(te->t.v()), "the error message changed to %s",
            te->AsString().c_str());
  return te->t.v();
}

// What a slot holds: nothing, moved-from, success (with a value) or an error.
struct Model {
  enum { kEmpty, kMoved, kOk, kErr } what = kEmpty;
  int v = 0;
  bool checked = false;
};

// How a payload of each type is made from a number, and the number it holds.
template <class V>
struct Pay {
  static V make(int v) { return static_cast<V>(v); }
  static int get(V& x) { return static_cast<int>(x); }
};
template <>
struct Pay<bool> {
  static bool make(int v) { return v % 2 == 1; }
  static int get(bool& x) { return x; }
};
template <>
struct Pay<Tok> {
  static Tok make(int v) { return Tok(v); }
  static int get(Tok& t) { return t.v(); }
};
int g_numbers[64];
template <class T>
struct Pay<T*> {
  static T* make(int v) { return &g_numbers[v]; }
  static int get(T*& p) { return static_cast<int>(p - g_numbers); }
};
template <>
struct Pay<rst::NotNull<const int*>> {
  static rst::NotNull<const int*> make(int v) { return &g_numbers[v]; }
  static int get(rst::NotNull<const int*>& p) { return static_cast<int>(p.get() - g_numbers); }
};
template <>
struct Pay<rst::Nullable<int*>> {
  static rst::Nullable<int*> make(int v) { return v % 2 ? &g_numbers[v] : nullptr; }
  static int get(rst::Nullable<int*>& p) { return p == nullptr ? -1 : static_cast<int>(p.get() - g_numbers); }
};
template <>
struct Pay<rst::NotNull<std::unique_ptr<Tok>>> {
  static rst::NotNull<std::unique_ptr<Tok>> make(int v) { return std::make_unique<Tok>(v); }
  static int get(rst::NotNull<std::unique_ptr<Tok>>& p) { return p->v(); }
};
template <>
struct Pay<std::unique_ptr<Tok>> {
  static std::unique_ptr<Tok> make(int v) { return v % 4 ? std::make_unique<Tok>(v) : nullptr; }
  static int get(std::unique_ptr<Tok>& p) { return p ? p->v() : -1; }
};
template <>
struct Pay<std::shared_ptr<Tok>> {
  static std::shared_ptr<Tok> make(int v) { return v % 4 ? std::make_shared<Tok>(v) : nullptr; }
  static int get(std::shared_ptr<Tok>& p) { return !p ? -1 : p.use_count() == 1 ? p->v() : -2; }
};
template <>
struct Pay<std::string> {
  static std::string make(int v) { return std::string(static_cast<size_t>(v * 7), 's'); }
  static int get(std::string& t) { return t == std::string(t.size(), 's') ? static_cast<int>(t.size()) : -1; }
};
template <>
struct Pay<std::string_view> {
  static std::string_view make(int v) { return std::string_view("abcdefghijklmnopqrstuvwxyz").substr(static_cast<size_t>(v % 26)); }
  static int get(std::string_view& t) { return t.empty() ? -1 : t[0]; }
};
template <>
struct Pay<std::vector<Tok>> {
  static std::vector<Tok> make(int v) {
    std::vector<Tok> r;
    for (int i = 0; i < v % 3; i++) r.emplace_back(v);
    return r;
  }
  static int get(std::vector<Tok>& t) { return t.empty() ? 0 : static_cast<int>(t.size()) * 1000 + t.back().v(); }
};
template <>
struct Pay<std::function<int()>> {
  static std::function<int()> make(int v) {
    return [v, t = std::make_shared<Tok>(v)] { return t->v() == v ? v : -1; };
  }
  static int get(std::function<int()>& f) { return f ? f() : -2; }
};
template <>
struct Pay<std::optional<int>> {
  static std::optional<int> make(int v) { return v % 3 ? std::optional<int>(v) : std::nullopt; }
  static int get(std::optional<int>& f) { return f ? *f : -1; }
};
struct alignas(64) Aligned {
  int v;
};
template <>
struct Pay<Aligned> {
  static Aligned make(int v) { return {v}; }
  static int get(Aligned& a) { return reinterpret_cast<uintptr_t>(&a) % 64 ? -1 : a.v; }
};
struct Large {
  int v[100];
};
template <>
struct Pay<Large> {
  static Large make(int v) {
    Large r;
    for (int& x : r.v) x = v;
    return r;
  }
  static int get(Large& a) {
    for (int x : a.v)
      if (x != a.v[0]) return -1;
    return a.v[0];
  }
};
struct None {};
template <>
struct Pay<None> {
  static None make(int) { return {}; }
  static int get(None&) { return 0; }
};
enum class Colour : unsigned char { kRed };
// Remembers where it is.
struct Located {
  explicit Located(int v) : v(v), self(this) {}
  Located(Located&& o) noexcept : v(o.v), self(this) {}
  ~Located() { self = nullptr; }
  Located& operator=(Located&& o) noexcept {
    v = o.v;
    return *this;
  }
  int v;
  Located* self;
};
template <>
struct Pay<Located> {
  static Located make(int v) { return Located(v); }
  static int get(Located& l) { return l.self == &l ? l.v : -1; }
};
template <class V>
int value_of(V& v) {
  return Pay<V>::get(v);
}
template <class V>
V make_value(int v) {
  return Pay<V>::make(v);
}

// Histories over two statuses and two status-ors.
template <class V>
struct Slots {
  using SO = StatusOr<V>;
  enum Op {
    kCreateOk,
    kCreateErr,
    kDestroy,
    kErr,
    kGet,  // GetError() or operator*.
    kArrow,
    kIgnore,
    kMoveConstruct,
    kMoveAssign,
    kAssignFresh,  // Status: an error; StatusOr: a value.
    kAssignFreshErr,
    kFromStatus,   // StatusOr constructed from or assigned a status slot.
    kTake,         // TakeStatus() into a status slot.
    kStatus,       // status().GetError().
  };
  struct Cmd {
    Op op;
    int slot, other;
  };

  // Slots 0 and 1 are statuses, 2 and 3 status-ors.
  static bool is_or(int i) { return i >= 2; }

  void Enabled(std::vector<Cmd>* out) {
    out->clear();
    for (int i = 0; i < n_; i++) {
      const Model& m = m_[i];
      auto put = [&](Op op, int other = 0) { out->push_back({op, i, other}); };
      const int twin = i ^ 1;
      if (m.what == Model::kEmpty) {
        put(kCreateOk);
        put(kCreateErr);
      } else {
        put(kDestroy);
        put(kAssignFresh);
        if (is_or(i)) put(kAssignFreshErr);
      }
      if (m.what == Model::kOk || m.what == Model::kErr) {
        put(kErr);
        put(kGet);
        put(kIgnore);
        if (m_[twin].what == Model::kEmpty)
          put(kMoveConstruct, twin);
        else
          put(kMoveAssign, twin);
        if (is_or(i)) {
          put(kArrow);
          put(kStatus);
          for (int s = 0; s < 2; s++) put(kTake, s);
        }
      }
      if (is_or(i)) {
        for (int s = 0; s < 2; s++)
          if (m_[s].what == Model::kErr) put(kFromStatus, s);
      }
    }
  }

  // Runs f, which must be stopped in checked builds.
  template <class F>
  [[noreturn]] void Illegal(const char* what, F&& f) {
    if (seq::kChecked) {
      seq::step();
      SEQ_CHECK(seq::stopped(f), "%s was not stopped", what);
    }
    seq::done();
  }

  SO& so(int i) { return *so_[i - 2]; }

  void Do(const Cmd& c) {
    static const char* const kOps[] = {"create value", "create error", "destroy",        "err",
                                       "get",          "arrow",        "ignore",         "move-construct",
                                       "move-assign",  "assign fresh", "assign error",   "from status",
                                       "take status",  "status"};
    note("%s slot %d (%d)", kOps[c.op], c.slot, c.other);
    const int i = c.slot;
    Model& m = m_[i];
    auto& o = m_[c.other];
    const int v = ++serial_;
    int w = v;
    auto norm = [](int x) {
      V y = make_value<V>(x);
      return value_of<V>(y);
    };
    switch (c.op) {
      case kCreateOk:
        if (is_or(i)) {
          so_[i - 2].emplace(make_value<V>(v));
          w = norm(v);
        } else {
          st_[i].emplace(Status::OK());
        }
        m = {Model::kOk, w, false};
        break;
      case kCreateErr:
        if (is_or(i))
          so_[i - 2].emplace(MakeStatus<TokError>(v));
        else
          st_[i].emplace(MakeStatus<TokError>(v));
        m = {Model::kErr, v, false};
        break;
      case kDestroy: {
        auto f = [&] {
          if (is_or(i)) so_[i - 2].reset();
          else st_[i].reset();
        };
        if (!m.checked) Illegal("destroying an unchecked one", f);
        f();
        m = Model();
        break;
      }
      case kErr: {
        const bool e = is_or(i) ? so(i).err() : st_[i]->err();
        SEQ_CHECK(e == (m.what == Model::kErr), "err() is %d", e);
        m.checked = true;
        break;
      }
      case kIgnore:
        if (is_or(i)) so(i).Ignore();
        else st_[i]->Ignore();
        m.checked = true;
        break;
      case kGet:
        if (!is_or(i)) {
          auto f = [&] { (void)st_[i]->GetError(); };
          if (!m.checked) Illegal("GetError() of an unchecked status", f);
          if (m.what == Model::kOk) Illegal("GetError() of success", f);
          const int e = error_of(*st_[i]);
          SEQ_CHECK(e == m.v, "the error is %d, not %d", e, m.v);
        } else {
          auto f = [&] { (void)*so(i); };
          if (!m.checked) Illegal("reading an unchecked value", f);
          if (m.what == Model::kErr) Illegal("reading the value of an error", f);
          const int e = value_of<V>(*so(i));
          SEQ_CHECK(e == m.v, "the value is %d, not %d", e, m.v);
        }
        break;
      case kArrow: {
        auto f = [&] { (void)so(i).operator->(); };
        if (!m.checked) Illegal("-> of an unchecked value", f);
        if (m.what == Model::kErr) Illegal("-> of an error", f);
        const int e = value_of<V>(*so(i).operator->());
        SEQ_CHECK(e == m.v, "-> yields %d, not %d", e, m.v);
        break;
      }
      case kStatus: {
        auto f = [&] { (void)so(i).status(); };
        if (!m.checked) Illegal("status() of an unchecked one", f);
        if (m.what == Model::kOk) Illegal("status() of a value", f);
        const int e = error_of(so(i).status());
        SEQ_CHECK(e == m.v, "status() holds %d, not %d", e, m.v);
        break;
      }
      case kMoveConstruct:
        if (is_or(i)) so_[c.other - 2].emplace(std::move(so(i)));
        else st_[c.other].emplace(std::move(*st_[i]));
        o = {m.what, m.v, false};
        m = {Model::kMoved, 0, true};
        break;
      case kMoveAssign: {
        auto f = [&] {
          if (is_or(i)) so(c.other) = std::move(so(i));
          else *st_[c.other] = std::move(*st_[i]);
        };
        if (!o.checked) Illegal("overwriting an unchecked one by a move", f);
        f();
        o = {m.what, m.v, false};
        m = {Model::kMoved, 0, true};
        break;
      }
      case kAssignFresh: {
        auto f = [&] {
          if (!is_or(i)) *st_[i] = MakeStatus<TokError>(v);
          else so(i) = make_value<V>(v);
        };
        if (!m.checked) Illegal("overwriting an unchecked one", f);
        f();
        m = {is_or(i) ? Model::kOk : Model::kErr, is_or(i) ? norm(v) : v, false};
        break;
      }
      case kAssignFreshErr: {
        auto f = [&] { so(i) = MakeStatus<TokError>(v); };
        if (!m.checked) Illegal("overwriting an unchecked one by an error", f);
        f();
        m = {Model::kErr, v, false};
        break;
      }
      case kFromStatus: {
        auto f = [&] {
          if (m.what == Model::kEmpty) so_[i - 2].emplace(std::move(*st_[c.other]));
          else so(i) = std::move(*st_[c.other]);
        };
        if (m.what != Model::kEmpty && !m.checked) Illegal("overwriting an unchecked one by a status", f);
        f();
        m = {Model::kErr, o.v, false};
        o = {Model::kMoved, 0, true};
        break;
      }
      case kTake: {
        auto f = [&] {
          if (o.what == Model::kEmpty) st_[c.other].emplace(std::move(so(i)).TakeStatus());
          else *st_[c.other] = std::move(so(i)).TakeStatus();
        };
        if (!m.checked) Illegal("TakeStatus() of an unchecked one", f);
        if (m.what == Model::kOk) Illegal("TakeStatus() of a value", f);
        if (o.what != Model::kEmpty && !o.checked) Illegal("overwriting an unchecked status", f);
        f();
        o = {Model::kErr, m.v, false};
        m = {Model::kMoved, 0, true};
        break;
      }
    }
    seq::step();
  }

  void Drive(int n) {
    n_ = n;
    std::vector<Cmd> cmds;
    for (int k = 0; k < seq::bound(); k++) {
      Enabled(&cmds);
      const Cmd c = cmds[static_cast<size_t>(choose(static_cast<int>(cmds.size())))];
      Do(c);
      uint64_t h = 0;
      for (int i = 0; i < n_; i++) h = h * 16 + static_cast<uint64_t>(m_[i].what) * 2 + m_[i].checked;
      seq::state(h);
    }
    // Everything still holds what it was last given.
    for (int i = 0; i < n_; i++) {
      Model& m = m_[i];
      if (m.what == Model::kOk || m.what == Model::kErr) {
        const bool e = is_or(i) ? so(i).err() : st_[i]->err();
        SEQ_CHECK(e == (m.what == Model::kErr), "finally err() of slot %d is %d", i, e);
        int v = 0;
        if (e) v = is_or(i) ? error_of(so(i).status()) : error_of(*st_[i]);
        else if (is_or(i)) v = value_of<V>(*so(i));
        else v = m.v;
        SEQ_CHECK(v == m.v, "finally slot %d holds %d, not %d", i, v, m.v);
        seq::observe(v * 2 + e);
      }
      if (is_or(i)) so_[i - 2].reset();
      else st_[i].reset();
    }
    SEQ_CHECK(seq::Live::live == 0, "%d payloads are left", seq::Live::live);
  }

  int n_ = 4;
  std::optional<Status> st_[2];
  std::optional<SO> so_[2];
  Model m_[4];
  int serial_ = 0;
};

// Trivially copyable values may be given by copy.
void trivial() {
  std::optional<StatusOr<int>> x;
  Model m;
  for (int k = 0; k < seq::bound(); k++) {
    const int v = k + 1;
    const int c = choose(6);
    note("op %d", c);
    seq::step();
    auto check = [&] {
      if (m.checked) return;
      if (seq::kChecked) SEQ_CHECK(seq::stopped([&] { *x = v; }), "overwriting an unchecked int was not stopped");
      seq::done();
    };
    if (c == 0) {
      if (!x) x.emplace(v);
      else {
        check();
        const int& r = v;
        *x = r;
      }
      m = {Model::kOk, v, false};
    } else if (c == 1) {
      if (!x) x.emplace(MakeStatus<TokError>(v));
      else {
        check();
        *x = MakeStatus<TokError>(v);
      }
      m = {Model::kErr, v, false};
    } else if (!x) {
      seq::done();
    } else if (c == 2) {
      SEQ_CHECK(x->err() == (m.what == Model::kErr), "err() is wrong");
      m.checked = true;
    } else if (c == 3) {
      x->Ignore();
      m.checked = true;
    } else if (c == 4) {
      StatusOr<int> y = std::move(*x);
      m.checked = true;
      SEQ_CHECK(y.err() == (m.what == Model::kErr), "err() after a move is wrong");
      if (m.what == Model::kOk) SEQ_CHECK(*y == m.v, "the moved value is %d, not %d", *y, m.v);
      else SEQ_CHECK(error_of(y.status()) == m.v, "the moved error changed");
      check();
      *x = std::move(y);
      m.checked = false;
    } else {
      if (m.what == Model::kErr && m.checked) {
        SEQ_CHECK(error_of(x->status()) == m.v, "the error changed");
      } else if (m.what == Model::kOk && m.checked) {
        SEQ_CHECK(**x == m.v, "the value is %d, not %d", **x, m.v);
        **x = m.v = 50;
      } else {
        seq::done();
      }
    }
    seq::state(static_cast<uint64_t>(m.what * 2 + m.checked));
  }
  if (x) {
    const bool e = x->err();
    SEQ_CHECK(e == (m.what == Model::kErr), "finally err() is %d", e);
    if (!e) SEQ_CHECK(**x == m.v, "finally the value is %d, not %d", **x, m.v);
    else SEQ_CHECK(error_of(x->status()) == m.v, "finally the error changed");
    seq::observe(m.v * 2 + e);
    x.reset();
  }
  SEQ_CHECK(seq::Live::live == 0, "%d payloads are left", seq::Live::live);
}

// A status-or may be given a part of what it holds.
struct Chain {
  Tok t;
  std::unique_ptr<StatusOr<Chain>> next;
};

StatusOr<Chain> MakeChain(int from, int to, bool ends_in_error) {
  if (from == to) {
    if (ends_in_error) return MakeStatus<TokError>(to);
    return Chain{Tok(to), nullptr};
  }
  auto next = std::make_unique<StatusOr<Chain>>(MakeChain(from + 1, to, ends_in_error));
  return Chain{Tok(from), std::move(next)};
}

void nested() {
  const int length = 1 + choose(seq::bound());
  const bool err = flip();
  note("a chain of %d, %s", length + 1, err ? "then an error" : "of values");
  {
    auto s = MakeChain(0, length, err);
    int at = 0;
    while (true) {
      const bool is_err = s.err();
      SEQ_CHECK(is_err == (err && at == length), "err() is %d at %d", is_err, at);
      if (is_err) {
        SEQ_CHECK(error_of(s.status()) == at, "the error changed");
        break;
      }
      SEQ_CHECK(s->t.v() == at, "the value at %d is %d", at, s->t.v());
      SEQ_CHECK((s->next != nullptr) == (at < length), "the chain ends at %d", at);
      seq::state(static_cast<uint64_t>(length * 100 + at * 2 + err));
      if (at == length) break;
      seq::step();
      const bool next_err = err && at + 1 == length;
      auto& next = *s->next;
      switch (choose(4)) {
        case 0:
          note("assign the next, unchecked");
          s = std::move(next);
          at++;
          break;
        case 1:
          note("assign the next, checked");
          SEQ_CHECK(next.err() == next_err, "err() of the next is wrong");
          s = std::move(next);
          at++;
          break;
        case 2:
          note("assign the next's content");
          SEQ_CHECK(next.err() == next_err, "err() of the next is wrong");
          if (next_err)
            s = std::move(next).TakeStatus();
          else
            s = std::move(*next);
          at++;
          break;
        default: {
          if (at + 1 == length) seq::done();
          SEQ_CHECK(!next.err(), "err() of the next is wrong");
          note("assign the next but one");
          s = std::move(*next->next);
          at += 2;
          break;
        }
      }
    }
    seq::observe(at * 2 + err);
  }
  SEQ_CHECK(seq::Live::live == 0, "%d payloads are left", seq::Live::live);
}

// --- C13 ---

struct Padding {
  virtual ~Padding() = default;
  long x[2] = {};
};
std::string& text_storage() {
  static auto& s = *new std::string;
  return s;
}

// Declared in an order that differs from the order of their identities.
#define ERROR_CLASS(Name, Parent)                      \
  class Name : public rst::ErrorInfo<Name, Parent> {   \
   public:                                             \
    using rst::ErrorInfo<Name, Parent>::ErrorInfo;     \
    static char id_;                                   \
  }
class Root1 : public rst::ErrorInfo<Root1> {
 public:
  explicit Root1(std::string m = "") : m_(std::move(m)) {}
  const std::string& AsString() const override { return m_; }
  static char id_;

 private:
  const std::string m_;
};
ERROR_CLASS(A1, Root1);
ERROR_CLASS(A2, Root1);
ERROR_CLASS(B1, A1);
ERROR_CLASS(B2, A1);
ERROR_CLASS(C1, B1);
ERROR_CLASS(D1, C1);
ERROR_CLASS(E1, D1);
char D1::id_ = 0;
char A2::id_ = 0;
char C1::id_ = 0;
char Root1::id_ = 0;
char B2::id_ = 0;
char E1::id_ = 0;
char A1::id_ = 0;
char B1::id_ = 0;
// A second base class before the error information.
class Padded : public Padding, public rst::ErrorInfo<Padded> {
 public:
  explicit Padded(std::string m = "") : m_(std::move(m)) {}
  const std::string& AsString() const override { return m_; }
  static char id_;

 private:
  const std::string m_;
};
char Padded::id_ = 0;
class PaddedChild : public rst::ErrorInfo<PaddedChild, Padded> {
 public:
  using rst::ErrorInfo<PaddedChild, Padded>::ErrorInfo;
  static char id_;
};
char PaddedChild::id_ = 0;
// Derived from the library's own errors.
class MyFileError : public rst::ErrorInfo<MyFileError, rst::FileError> {
 public:
  explicit MyFileError(std::string m) : ErrorInfo(std::move(m)) {}
  static char id_;
};
char MyFileError::id_ = 0;

enum Class {
  kRoot1,
  kA1,
  kA2,
  kB1,
  kB2,
  kC1,
  kD1,
  kE1,
  kPadded,
  kPaddedChild,
  kFile,
  kFileOpen,
  kMyFile,
  kLog,
  kClasses,
  kBase = kClasses
};
constexpr int kParent[] = {kBase, kRoot1, kRoot1, kA1, kA1, kB1, kC1, kD1, kBase, kPadded, kBase, kFile, kFile, kBase};

bool ancestor(int query, int c) {
  for (;; c = kParent[c]) {
    if (c == query) return true;
    if (c == kBase) return false;
  }
}

template <class F>
void for_class(int c, F&& f) {
  switch (c) {
#define K(k, T) \
  case k:       \
    return f(static_cast<T*>(nullptr))
    K(kRoot1, Root1);
    K(kA1, A1);
    K(kA2, A2);
    K(kB1, B1);
    K(kB2, B2);
    K(kC1, C1);
    K(kD1, D1);
    K(kE1, E1);
    K(kPadded, Padded);
    K(kPaddedChild, PaddedChild);
    K(kFile, rst::FileError);
    K(kFileOpen, rst::FileOpenError);
    K(kMyFile, MyFileError);
    K(kLog, rst::LogError);
    default:
      return f(static_cast<rst::ErrorInfoBase*>(nullptr));
#undef K
  }
}

template <class A, class B>
void cast_checks(B* e, bool want, int q) {
  if constexpr (std::is_base_of_v<B, A>) {
    const B* ce = e;
    A* r1 = rst::dyn_cast<A>(e).get();
    const A* r2 = rst::dyn_cast<A>(ce).get();
    A* r3 = rst::dyn_cast<A>(rst::NotNull<B*>(e)).get();
    const A* r4 = rst::dyn_cast<A>(rst::NotNull<const B*>(ce)).get();
    A* w = want ? static_cast<A*>(e) : nullptr;
    SEQ_CHECK(r1 == w && r2 == w && r3 == w && r4 == w, "dyn_cast to class %d yields another object", q);
  }
}

void identity() {
  const int c = choose(kClasses);
  static const std::string kTexts[] = {std::string(), std::string("plain"), std::string("a\0b\n\xff", 5),
                                       std::string(300, 'x')};
  const std::string& text = kTexts[choose(4)];
  const rst::ErrorInfoBase* made = nullptr;
  for_class(c, [&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if constexpr (!std::is_abstract_v<T>) {
      Status s = MakeStatus<T>(std::string(text));
      SEQ_CHECK(s.err(), "an error is success");
      made = s.GetError().get();
      // Through a chain of statuses and status-ors.
      for (int k = 0; k < seq::bound(); k++) {
        switch (choose(5)) {
          case 0: {
            Status t = std::move(s);
            SEQ_CHECK(t.err(), "the error was lost");
            s = std::move(t);
            break;
          }
          case 1: {
            StatusOr<Tok> o = std::move(s);
            SEQ_CHECK(o.err(), "the error was lost");
            s = std::move(o).TakeStatus();
            break;
          }
          case 2: {
            StatusOr<int> o = 5;
            o.Ignore();
            o = std::move(s);
            SEQ_CHECK(o.err() && o.status().GetError() == made, "the error was lost or copied");
            s = std::move(o).TakeStatus();
            break;
          }
          case 3: {
            StatusOr<std::string> o = MakeStatus<Root1>();
            o.Ignore();
            o = std::move(s);
            StatusOr<std::string> o2 = std::move(o);
            SEQ_CHECK(o2.err(), "the error was lost");
            s = std::move(o2).TakeStatus();
            break;
          }
          default: {
            auto f = [](Status x) -> StatusOr<int> {
              RST_TRY(std::move(x));
              return 1;
            };
            auto o = f(std::move(s));
            SEQ_CHECK(o.err(), "the error was lost");
            s = std::move(o).TakeStatus();
            break;
          }
        }
        SEQ_CHECK(s.err(), "the error was lost");
        seq::step();
      }
      SEQ_CHECK(s.GetError() == made, "the error is another object");
      T* obj = const_cast<T*>(static_cast<const T*>(made));
      rst::ErrorInfoBase* base = obj;
      SEQ_CHECK(made->AsString() == text, "the message changed");
      SEQ_CHECK(base->GetDynamicClassID() == T::GetClassID(), "the dynamic class is another one");
      for (int q = 0; q <= kBase; q++) {
        const bool want = ancestor(q, c);
        for_class(q, [&](auto* qp) {
          using Q = std::remove_pointer_t<decltype(qp)>;
          SEQ_CHECK(made->IsA<Q>() == want && made->IsA(Q::GetClassID()) == want, "IsA(class %d) of class %d is %d", q,
                    c, !want);
          SEQ_CHECK((base->GetDynamicClassID() == Q::GetClassID()) == (q == c), "classes %d and %d share an identity",
                    q, c);
          cast_checks<Q>(base, want, q);
          seq::observe(want);
        });
      }
      seq::state(static_cast<uint64_t>(c) * 64 + text.size());
    }
  });
}

// --- C14 ---

struct Early {
  enum Macro { kTry, kTryOr, kAssign, kUnwrap, kCreate, kIfElse, kSwitch, kNested, kNestedOr, kNames, kLambda, kMacros };

  Status Step(int i) {
    Evaluated(i);
    if (i == bad_) return Fail(i);
    return Status::OK();
  }
  StatusOr<Tok> StepOr(int i) {
    Evaluated(i);
    if (i == bad_) return Fail(i);
    return Tok(i + 100);
  }
  StatusOr<int> StepInt(int i) {
    Evaluated(i);
    if (i == bad_) return Fail(i);
    return i + 100;
  }
  Status Fail(int i) {
    Status s = MakeStatus<TokError>(i);
    (void)s.err();
    error_ = s.GetError().get();
    return s;
  }
  void Evaluated(int i) {
    SEQ_CHECK(i < 32 && !done_, "step %d is evaluated after the function returned", i);
    evals_[i]++;
    SEQ_CHECK(evals_[i] == 1, "step %d is evaluated twice", i);
    SEQ_CHECK(i == next_, "step %d is evaluated, %d is next", i, next_);
    next_++;
    seq::step();
  }
  void Value(int got, int want) { SEQ_CHECK(got == want, "the value is %d, not %d", got, want); }

  Status Inner(int i, int how) {
    RST_TRY(Step(i));
    if (how) {
      int v = 0;
      RST_TRY_ASSIGN_UNWRAP(v, StepInt(i + 1));
      Value(v, i + 101);
    } else {
      RST_TRY(Step(i + 1));
    }
    return Status::OK();
  }
  StatusOr<Tok> InnerOr(int i, int how) {
    RST_TRY_CREATE(auto, a, StepOr(i));
    Value(a->v(), i + 100);
    if (how) RST_TRY(Step(i + 1));
    else return StepOr(i + 1);
    return Tok(i + 101);
  }

  // One step of the program; R is Status or StatusOr<Tok>.
  template <class R>
  R Run(R (*ok)()) {
    StatusOr<Tok> keep = Tok(1);
    keep.Ignore();
    Tok plain(2);
    for (int s = 0; s < n_; s++) {
      const int i = first_[s];
      note("macro %d", kind_[s]);
      switch (kind_[s]) {
        case kTry:
          RST_TRY(Step(i));
          break;
        case kTryOr:
          if constexpr (std::is_same_v<R, StatusOr<Tok>>) {
            RST_TRY(StepOr(i));
          } else {
            RST_TRY(Step(i));
          }
          break;
        case kAssign: {
          RST_TRY_ASSIGN(keep, StepOr(i));
          Value(keep->v(), i + 100);
          break;
        }
        case kUnwrap:
          RST_TRY_ASSIGN_UNWRAP(plain, StepOr(i));
          Value(plain.v(), i + 100);
          break;
        case kCreate: {
          RST_TRY_CREATE(StatusOr<int>, x, StepInt(i));
          Value(*x, i + 100);
          RST_TRY_CREATE(auto, y, StepOr(i + 1));
          Value(y->v(), i + 101);
          break;
        }
        case kIfElse:
          if (how_[s])
            RST_TRY(Step(i));
          else
            RST_TRY_ASSIGN_UNWRAP(plain, StepOr(i));
          break;
        case kSwitch:
          for (int j = 0; j < 2; j++) {
            if (how_[s] && j == 1) RST_TRY(Step(i + j));
            else RST_TRY_ASSIGN_UNWRAP(plain, StepOr(i + j));
          }
          break;
        case kNested:
          RST_TRY(Inner(i, how_[s]));
          break;
        case kNestedOr: {
          RST_TRY_ASSIGN_UNWRAP(plain, InnerOr(i, how_[s]));
          Value(plain.v(), i + 101);
          break;
        }
        // The statement uses names of the caller that the macro could have
        // chosen for itself.
        case kNames: {
          const int status = i, status_or = i, s_ = i, result = i, value = i, tmp = i, ret = i, lhs = i, expr = i;
          if (how_[s]) {
            RST_TRY(Step((status + status_or + s_ + result + value + tmp + ret + lhs + expr) / 9));
            RST_TRY_ASSIGN_UNWRAP(plain, StepOr((status + status_or + s_ + result + value + tmp + ret + lhs + expr) / 9 + 1));
          } else {
            StatusOr<Tok> statement = Tok(3);
            statement.Ignore();
            RST_TRY_ASSIGN(statement, StepOr((status + status_or + s_ + result + value + tmp + ret + lhs + expr) / 9));
            RST_TRY_CREATE(auto, z, StepOr((status + status_or + s_ + result + value + tmp + ret + lhs + expr) / 9 + 1));
            Value(statement->v(), i + 100);
            Value(z->v(), i + 101);
          }
          break;
        }
        // A function within the statement uses the macros itself.
        default: {
          if (how_[s]) {
            RST_TRY([&]() -> Status { RST_TRY(Step(i)); RST_TRY_ASSIGN_UNWRAP(plain, StepOr(i + 1)); return Status::OK(); }());
          } else {
            RST_TRY_ASSIGN_UNWRAP(plain, [&]() -> StatusOr<Tok> { RST_TRY(Step(i)); RST_TRY_CREATE(auto, z, StepOr(i + 1)); return z; }());
          }
          Value(plain.v(), i + 101);
          break;
        }
      }
      after_ = s + 1;
    }
    return ok();
  }

  void Drive() {
    n_ = seq::bound();
    int total = 0;
    for (int s = 0; s < n_; s++) {
      kind_[s] = static_cast<Macro>(choose(kMacros));
      const bool two = kind_[s] == kCreate || kind_[s] == kSwitch || kind_[s] >= kNested;
      how_[s] = kind_[s] >= kIfElse ? choose(2) : 0;
      first_[s] = total;
      total += two ? 2 : 1;
    }
    bad_ = choose(total + 1);  // |total|: none fails.
    const bool as_or = flip();
    note("step %d of %d fails%s", bad_, total, as_or ? ", StatusOr" : "");
    const rst::ErrorInfoBase* got = nullptr;
    if (as_or) {
      auto r = Run<StatusOr<Tok>>(+[]() -> StatusOr<Tok> { return Tok(77); });
      done_ = true;
      if (r.err()) got = r.status().GetError().get();
      else SEQ_CHECK(r->v() == 77, "the value returned is %d", r->v());
      Verify(got, total);
    } else {
      auto r = Run<Status>(+[]() -> Status { return Status::OK(); });
      done_ = true;
      if (r.err()) got = r.GetError().get();
      Verify(got, total);
    }
    SEQ_CHECK(seq::Live::live == 0, "%d payloads are left", seq::Live::live);
  }
  void Verify(const rst::ErrorInfoBase* got, int total) {
    SEQ_CHECK(got == error_, bad_ == total ? "an error is returned though nothing failed"
                                           : "the error returned is not the first error");
    if (got) {
      SEQ_CHECK(got->AsString() == "error " + std::to_string(bad_), "the error was changed to %s",
                got->AsString().c_str());
    }
    for (int i = 0; i < total; i++)
      SEQ_CHECK(evals_[i] == (i <= bad_ ? 1 : 0), "step %d was evaluated %d times", i, evals_[i]);
    seq::observe(next_);
    seq::state(static_cast<uint64_t>(bad_ * 32 + total));
  }

  int n_ = 0, bad_ = 0, next_ = 0, after_ = 0;
  Macro kind_[16];
  int how_[16], first_[16], evals_[40] = {};
  bool done_ = false;
  const rst::ErrorInfoBase* error_ = nullptr;
};

SEQ_SCENARIOS(status) {
  seq::add("C12", "status_pair", 8, 10, [] { Slots<Tok>().Drive(2); });
  seq::add("C12", "status_or_histories", 6, 7, [] { Slots<Tok>().Drive(4); });
  seq::add("C12", "status_or_not_null", 5, 7, [] { Slots<rst::NotNull<std::unique_ptr<Tok>>>().Drive(4); });
  seq::add("C12", "status_or_int", 5, 6, [] { Slots<int>().Drive(4); });
  seq::add("C12", "status_or_bool", 5, 6, [] { Slots<bool>().Drive(4); });
  seq::add("C12", "status_or_double", 5, 6, [] { Slots<double>().Drive(4); });
  seq::add("C12", "status_or_char", 5, 6, [] { Slots<char>().Drive(4); });
  seq::add("C12", "status_or_int64", 5, 6, [] { Slots<int64_t>().Drive(4); });
  seq::add("C12", "status_or_enum", 5, 6, [] { Slots<Colour>().Drive(4); });
  seq::add("C12", "status_or_pointer", 5, 6, [] { Slots<int*>().Drive(4); });
  seq::add("C12", "status_or_const_pointer", 5, 6, [] { Slots<const int*>().Drive(4); });
  seq::add("C12", "status_or_not_null_raw", 5, 6, [] { Slots<rst::NotNull<const int*>>().Drive(4); });
  seq::add("C12", "status_or_nullable", 5, 6, [] { Slots<rst::Nullable<int*>>().Drive(4); });
  seq::add("C12", "status_or_unique", 5, 6, [] { Slots<std::unique_ptr<Tok>>().Drive(4); });
  seq::add("C12", "status_or_shared", 5, 6, [] { Slots<std::shared_ptr<Tok>>().Drive(4); });
  seq::add("C12", "status_or_string", 5, 6, [] { Slots<std::string>().Drive(4); });
  seq::add("C12", "status_or_view", 5, 6, [] { Slots<std::string_view>().Drive(4); });
  seq::add("C12", "status_or_vector", 5, 6, [] { Slots<std::vector<Tok>>().Drive(4); });
  seq::add("C12", "status_or_function", 5, 6, [] { Slots<std::function<int()>>().Drive(4); });
  seq::add("C12", "status_or_optional", 5, 6, [] { Slots<std::optional<int>>().Drive(4); });
  seq::add("C12", "status_or_aligned", 5, 6, [] { Slots<Aligned>().Drive(4); });
  seq::add("C12", "status_or_large", 5, 6, [] { Slots<Large>().Drive(4); });
  seq::add("C12", "status_or_empty", 5, 6, [] { Slots<None>().Drive(4); });
  seq::add("C12", "status_or_located", 5, 6, [] { Slots<Located>().Drive(4); });
  seq::add("C12", "status_or_trivial", 9, 11, trivial);
  seq::add("C12", "status_or_nested", 4, 6, nested);
  seq::add("C13", "error_identity", 4, 7, identity);
  seq::add("C14", "early_return", 5, 6, [] { Early().Drive(); });
}

}  // namespace
