// Stateless model checker for real C++ threads ("rmc"): public harness API.
//
// A scenario is an ordinary function.  It is run again and again on the real
// code under a controlled scheduler, once per schedule, until every schedule
// within the bounds has been covered.
#ifndef VERIF_RMC_RMC_H_
#define VERIF_RMC_RMC_H_

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rmc {

// ---- Calls a scenario may make while it runs. -----------------------------

// Fails the current execution.
[[noreturn]] void fail(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
#define RMC_ASSERT(c, ...)        \
  do {                            \
    if (!(c)) ::rmc::fail(__VA_ARGS__); \
  } while (0)

// A monitor event on pseudo-object |obj|: a scheduling point that is ordered
// with all other events on the same object, but creates no happens-before edge
// (so it hides no race).
void event(int obj);
// Virtual time in nanoseconds.  now() is an ordered read of the clock.
int64_t now();
void advance(int64_t ns);
void sleep_for(int64_t ns);
// How often time has moved on so far although some thread could still run.
int time_jumps();
// Threads that have been created and have not ended.
int live_threads();
// From now on it is fine if everybody is blocked: the execution ends there.
void may_block();
// Nondeterministic choice; every non-zero answer costs |cost| deviations.
int choose(int n, int cost = 0);
// Voluntary switch point.
void yield();
// Records the observable outcome of the execution (for the count of distinct
// outcomes).
void outcome(uint64_t v);

// Model-native semaphore: blocks without timing out; |hb| says whether post()
// happens before the wait() it releases.
class Sem {
 public:
  explicit Sem(int n = 0, bool hb = true);
  void post(int n = 1);
  void wait(int n = 1);  // Waits for the count to reach n, then takes n.
  int peek() const { return n_; }

 private:
  int id_;
  int n_;
  bool hb_;
};

// Declares an access by the calling thread for the race detector.
void access(const void* p, size_t n, bool write);

// ---- Scenario registry. ---------------------------------------------------

struct Scenario {
  std::string name;
  std::function<void()> body;
  // Bounds: deviations in the quick and the thorough tier.
  int quick_bound = 2;
  int thorough_bound = 3;
  int spurious = 1;     // Spurious wake-ups allowed per execution.
  bool races = true;    // Report data races.
  // Every departure from round robin is a deviation, also when the running
  // thread blocks (for programs with many threads or many tasks).
  bool round_robin = false;
  // Steps after which an execution counts as one that never ends.
  int max_points = 6000;
  std::string group;    // Property the scenario belongs to.
};

void add(Scenario s);
// Defined by the harness.
void register_scenarios();

}  // namespace rmc

#endif
