// Bounded exhaustive explorer for sequential code ("seqmc").
//
// A scenario is an ordinary function that asks choose() for every decision (an
// operation, an argument, an answer of the environment).  It is executed on
// the real code once for every sequence of answers within the bound, depth
// first, and compared with a reference model as it goes.
#ifndef VERIF_SEQ_SEQ_H_
#define VERIF_SEQ_SEQ_H_

#include <csetjmp>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <utility>

namespace seq {

#ifdef NDEBUG
constexpr bool kChecked = false;
#else
constexpr bool kChecked = true;
#endif

// Every answer 0..n-1 is explored.
int choose(int n);
inline bool flip() { return choose(2) == 1; }
// The bound of this exploration (operations, length, ...: the scenario says).
int bound();

// Ends this execution as a violation.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SEQ_CHECK(c, ...)                 \
  do {                                    \
    if (!(c)) ::seq::fail(__VA_ARGS__);   \
  } while (0)
// A deviation that known_findings.txt may list under |key|; the execution ends.
[[noreturn]] void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// Ends this execution, which is as it should be (after a stop, say).
[[noreturn]] void done();

// This execution may take that many seconds.
void patience(int seconds);
// Memory that is free now, in GiB.
int free_memory();

// Describes the execution in a counterexample.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// An operation was performed on the real code.
void step();
// The model is in this state.
void state(uint64_t h);
// Something the code returned; part of the outcome and of the digest that is
// compared between builds.
void observe(uint64_t v);
void observe(std::string_view v);
inline void observe(const char* v) { observe(std::string_view(v)); }
inline void observe(bool v) { observe(uint64_t{v}); }
inline void observe(int v) { observe(static_cast<uint64_t>(static_cast<int64_t>(v))); }
inline void observe(double v) {
  uint64_t u;
  __builtin_memcpy(&u, &v, 8);
  observe(u);
}

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash(std::string_view s);

// Runs f; tells whether an assertion or abort() stopped it.
struct StopGuard {
  sigjmp_buf env;
  StopGuard* outer;
};
void push_stop(StopGuard* g);
void pop_stop(StopGuard* g);
template <class F>
__attribute__((noinline)) bool stopped(F&& f) {
  StopGuard g;
  if (sigsetjmp(g.env, 0) == 0) {
    push_stop(&g);
    f();
    pop_stop(&g);
    return false;
  }
  pop_stop(&g);
  return true;
}
// True while stopped() watches: destructors of harness objects may run late.
bool watching();

struct Scenario {
  std::string group, name;
  std::function<void()> body;
  int quick = 1, thorough = 1;  // Bounds.
  int first = 1;                // First bound explored.
  // Results must be the same in checked and unchecked builds.
  bool same = true;
};
void add(Scenario s);
inline void add(const char* group, const char* name, int quick, int thorough, std::function<void()> body) {
  Scenario s;
  s.group = group;
  s.name = name;
  s.body = std::move(body);
  s.quick = quick;
  s.thorough = thorough;
  add(std::move(s));
}
// One pass, no bound to iterate.
inline void add1(const char* group, const char* name, std::function<void()> body) {
  add(group, name, 1, 1, std::move(body));
}

struct Register {
  explicit Register(void (*f)()) { f(); }
};
#define SEQ_SCENARIOS(id) \
  static void id();       \
  static ::seq::Register register_##id(id); \
  static void id()

// Text in the middle of something larger: no NUL follows it, and its owner may
// change it as soon as the call is over.
class Cut {
 public:
  explicit Cut(std::string_view s, char next = 'x') : size_(s.size()), p_(new char[s.size() + 4]) {
    p_[0] = '.';
    s.copy(p_ + 1, s.size());
    p_[size_ + 1] = next;
    p_[size_ + 2] = '.';
    p_[size_ + 3] = '1';
  }
  Cut(const Cut&) = delete;
  Cut& operator=(const Cut&) = delete;
  ~Cut() {
    for (size_t i = 0; i < size_ + 4; i++) p_[i] = '#';
    delete[] p_;
  }
  operator std::string_view() const { return {p_ + 1, size_}; }

 private:
  size_t size_;
  char* p_;
};

// Exact live-object accounting for payloads.
struct Live {
  static int live;
};
// A payload that owns memory: double destruction and leaks show.
class Tok {
 public:
  explicit Tok(int v = 0) : p_(new int(v)) { Live::live++; }
  Tok(const Tok& o) : p_(o.p_ ? new int(*o.p_) : nullptr) { Live::live++; }
  Tok(Tok&& o) noexcept : p_(o.p_) {
    o.p_ = nullptr;
    Live::live++;
  }
  Tok& operator=(const Tok& o) {
    if (this == &o) return *this;
    delete p_;
    p_ = o.p_ ? new int(*o.p_) : nullptr;
    return *this;
  }
  Tok& operator=(Tok&& o) noexcept {
    if (this == &o) return *this;
    delete p_;
    p_ = o.p_;
    o.p_ = nullptr;
    return *this;
  }
  ~Tok() {
    delete p_;
    Live::live--;
  }
  // -1: moved from.
  int v() const { return p_ ? *p_ : -1; }
  friend bool operator==(const Tok& a, const Tok& b) { return a.v() == b.v(); }

 private:
  int* p_;
};

}  // namespace seq

#endif
