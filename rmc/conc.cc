// Concurrent scenarios: thread pool, polling runner, barrier, sinks, GUIDs.
//
// Pool and polling scenarios are small programs in a token language (below).
// The monitors keep their state in plain statics that the race detector does
// not see (NOTRACE); where the order of two monitor updates matters they are
// made at an ordered event of the explorer.
#include "rmc.h"

#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>

#include "rst/guid/guid.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/logger.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"

#define NOTRACE __attribute__((no_sanitize("thread"), noinline))

namespace {

using std::chrono::nanoseconds;

// ---- Programs ----------------------------------------------------------------
//   p<t>       post task t                 d<t>:<ns>  post task t delayed
//   a<t>:<n>   ApplyTaskSync, n iterations, indices are tasks t..t+n-1
//   w<n>       wait for n task completions s<ns>      sleep
//   u<k>/v<k>  signal / wait on plain semaphore k (no happens-before edge)
//   W<c>/R<c>  write / read shared cell c (checked for races)
//   f<k>       start thread program k      j          join these threads
//   x          destroy the runner          g          RunPendingTasks()
//   k<n>       the pool has n workers    K<n>       ... at least n
//   L<n>       n callables are kept      e<t>       the next callable posts t
//                                                  when it is destroyed (t +
//                                                  100: delayed by 5 ns)
//   G<n>       RunPendingTasks() until n tasks have finished
//   D<c>:<v>   check that cell c holds v   C<c>:<v>   set cell c to v
struct Op {
  char k;
  int a;
  int64_t b;
};
using Prog = std::vector<Op>;

constexpr int kTasks = 16;

struct Cfg {
  std::string name, group;
  int m;           // Maximum number of threads; 0: polling runner.
  int64_t keep;    // Keep-alive time.
  int64_t scale;   // The pool's clock runs |scale| times slower.
  int64_t base;    // What the pool's clock shows at first.
  std::vector<Prog> threads;  // threads[0] runs as the main thread.
  std::vector<Prog> tasks;
  bool order;      // Track the order of starts and the limit with events.
  bool allow_drop; // Tasks may stay unrun (destruction scenarios).
  int64_t end;     // When the main thread is done if no thread was slow.
};

struct Mon {
  int starts[kTasks];
  int finishes[kTasks];
  int running;
  bool dead;
  bool exact[kTasks];
  bool posted[kTasks];
  bool delayed[kTasks];
  int poster[kTasks], seq[kTasks];
  int64_t lo[kTasks], due[kTasks], after[kTasks], started_at[kTasks];
  int order[64];
  int norder;
  int nseq;
};
Mon g;
int g_cell[16];
const Cfg* g_cfg;
rst::TaskRunner* g_runner;
std::unique_ptr<rst::TaskRunner>* g_owner;
rst::PollingTaskRunner* g_polling;
rmc::Sem* g_done;
rmc::Sem* g_aux[6];
int g_finished;
int g_base_threads;

int64_t g_begin;
int64_t pool_now() { return (rmc::now() - g_begin) / g_cfg->scale + g_cfg->base; }

NOTRACE bool before(int i, int j) {
  // Must task i start before task j (one pool thread)?
  if (!g.posted[i] || !g.posted[j]) return false;
  if (!g.delayed[i] && !g.delayed[j])
    return g.poster[i] == g.poster[j] && g.seq[i] < g.seq[j];
  if (g.delayed[i] && g.delayed[j]) {
    if (!g.exact[i] || !g.exact[j] || g.poster[i] != g.poster[j]) return false;
    if (g.due[i] < g.due[j]) return g.seq[i] < g.seq[j] || g.after[i] < g.due[j];
    return g.due[i] == g.due[j] && g.seq[i] < g.seq[j];
  }
  return false;
}

NOTRACE void task_start(int id) {
  if (g_cfg->order) rmc::event(1);
  RMC_ASSERT(!g.dead, "task %d starts after the runner's destruction", id);
  g.starts[id]++;
  RMC_ASSERT(g.starts[id] == 1, "task %d runs twice", id);
  if (g.delayed[id]) {
    int64_t n = pool_now();
    RMC_ASSERT(n >= g.lo[id], "task %d starts %lld ns early", id, static_cast<long long>(g.lo[id] - n));
    if (g.exact[id] && rmc::time_jumps() == 0 && g_cfg->m > 0 && g_cfg->order)
      RMC_ASSERT(n == g.due[id], "task %d starts %lld ns late although no thread was delayed", id,
                 static_cast<long long>(n - g.due[id]));
  }
  if (g_cfg->order) {
    g.running++;
    int limit = g_cfg->m ? g_cfg->m : 1;
    RMC_ASSERT(g.running <= limit, "%d tasks run at once, the maximum is %d", g.running, limit);
    if (limit == 1) {
      for (int k = 0; k < g.norder; k++)
        RMC_ASSERT(!before(id, g.order[k]), "task %d starts after task %d", id, g.order[k]);
    }
    if (g.norder < 64) g.order[g.norder++] = id;
    rmc::outcome(static_cast<uint64_t>(id) + 1);
  }
}

NOTRACE void task_finish(int id) {
  if (g_cfg->order) {
    rmc::event(1);
    g.running--;
  }
  RMC_ASSERT(!g.dead, "task %d still runs after the runner's destruction", id);
  g.finishes[id]++;
}

NOTRACE void mark_posting(int id, int64_t delay, int who) {
  g.posted[id] = true;
  g.delayed[id] = delay > 0;
  g.poster[id] = who;
  g.seq[id] = g.nseq++;
  g.lo[id] = pool_now() + delay;
  g.due[id] = g.lo[id];
  g.exact[id] = false;  // Not known before the call has returned.
}
NOTRACE void mark_posted(int id, int64_t delay) {
  int64_t n = pool_now();
  g.exact[id] = n + delay == g.due[id];
  g.after[id] = n;
}
NOTRACE void set_dead() { g.dead = true; }

void run_prog(const Prog& p, int who);

// What a posted callable captures: counted (copies of one callable are one),
// and on request posts another task when it is destroyed.
constexpr int kCaps = 64;
int g_copies[kCaps], g_ncaps, g_caps, g_next_post;
struct Cap {
  NOTRACE Cap() : post(g_next_post), id(g_ncaps++) {
    RMC_ASSERT(id < kCaps, "rmc: too many callables");
    g_next_post = -1;
    g_copies[id] = 1;
    g_caps++;
  }
  NOTRACE Cap(const Cap& c) : post(-1), id(c.id) {
    RMC_ASSERT(c.post < 0, "rmc: such a callable cannot be copied");
    RMC_ASSERT(g_copies[id] > 0, "a callable is copied after its destruction");
    g_copies[id]++;
  }
  NOTRACE Cap(Cap&& c) noexcept : post(c.post), id(c.id) {
    RMC_ASSERT(g_copies[id] > 0, "a callable is moved after its destruction");
    c.post = -1;
    g_copies[id]++;
  }
  Cap& operator=(const Cap&) = delete;
  ~Cap() {
    if (drop() >= 0) post_next();
  }
  NOTRACE int drop() {
    RMC_ASSERT(g_copies[id] > 0, "a callable is destroyed twice");
    if (--g_copies[id] == 0) g_caps--;
    return post;
  }
  NOTRACE void kept() const { RMC_ASSERT(g_copies[id] > 0, "a callable was destroyed before its run has ended"); }
  void post_next();
  int post, id;
};

void run_task(int id) {
  task_start(id);
  if (static_cast<size_t>(id) < g_cfg->tasks.size()) run_prog(g_cfg->tasks[static_cast<size_t>(id)], 100 + id);
  task_finish(id);
  g_done->post();
}

void Cap::post_next() {
  const int a = post % 100;
  const int64_t delay = post < 100 ? 0 : 5;
  mark_posting(a, delay, 99);
  g_runner->PostDelayedTask([a, c = Cap()] {
          run_task(a);
          c.kept();
        }, nanoseconds(delay));
  if (delay > 0) mark_posted(a, delay);
}

NOTRACE bool finished(int n) {
  int c = 0;
  for (int i = 0; i < kTasks; i++) c += g.finishes[i];
  return c >= n;
}

void run_prog(const Prog& p, int who) {
  std::vector<std::thread> ts;
  for (const Op& o : p) {
    const int a = o.a;
    switch (o.k) {
      case 'p':
        mark_posting(a, 0, who);
        g_runner->PostTask([a, c = Cap()] {
          run_task(a);
          c.kept();
        });
        break;
      case 'e': g_next_post = a; break;
      case 'L':
        if (rmc::time_jumps() == 0) {
          RMC_ASSERT(g_caps == a, "%d callables are kept, not %d", g_caps, a);
          rmc::outcome(static_cast<uint64_t>(a));
        }
        break;
      case 'd': {
        mark_posting(a, o.b, who);
        g_runner->PostDelayedTask([a, c = Cap()] {
          run_task(a);
          c.kept();
        }, nanoseconds(o.b));
        mark_posted(a, o.b);
        break;
      }
      case 'a': {
        // Effects must be visible to the caller without further ordering.
        const int n = static_cast<int>(o.b);
        auto res = std::make_unique<int[]>(static_cast<size_t>(n));
        int* r = res.get();
        g_runner->ApplyTaskSync(
            [a, n, r, c = Cap()](size_t i) {
              RMC_ASSERT(i < static_cast<size_t>(n), "apply: index %zu out of range", i);
              const int id = a + static_cast<int>(i);
              task_start(id);
              if (static_cast<size_t>(id) < g_cfg->tasks.size())
                run_prog(g_cfg->tasks[static_cast<size_t>(id)], 100 + id);
              r[i] += 7 + static_cast<int>(i);
              task_finish(id);
            },
            static_cast<size_t>(n));
        for (int i = 0; i < n; i++) RMC_ASSERT(r[i] == 7 + i, "apply returned before index %d was done", i);
        break;
      }
      case 'w': g_done->wait(a); break;
      case 's': rmc::sleep_for(a + o.b); break;
      case 'k':
      case 'K': {
        const int n = rmc::live_threads() - g_base_threads;
        if (rmc::time_jumps() == 0) {
          if (o.k == 'k') RMC_ASSERT(n == a, "the pool has %d workers, not %d", n, a);
          if (o.k == 'K') RMC_ASSERT(n >= a, "the pool has %d workers, not at least %d", n, a);
          rmc::outcome(static_cast<uint64_t>(n));
        }
        break;
      }
      case 'u': g_aux[a]->post(); break;
      case 'v': g_aux[a]->wait(); break;
      case 'W': g_cell[a]++; break;
      case 'R': { volatile int* q = &g_cell[a]; (void)*q; break; }
      case 'C': g_cell[a] = static_cast<int>(o.b); break;
      case 'D': RMC_ASSERT(g_cell[a] == o.b, "effect on cell %d not visible", a); break;
      case 'f':
        ts.emplace_back([a] { run_prog(g_cfg->threads[static_cast<size_t>(a)], a); });
        break;
      case 'j':
        for (auto& t : ts) t.join();
        ts.clear();
        break;
      case 'x':
        g_owner->reset();
        set_dead();
        break;
      case 'g': g_polling->RunPendingTasks(); break;
      case 'G':
        while (!finished(a)) {
          g_polling->RunPendingTasks();
          rmc::sleep_for(1);
        }
        break;
    }
  }
  for (auto& t : ts) t.join();
}

NOTRACE void check_end(const Cfg& c) {
  for (int i = 0; i < kTasks; i++) {
    RMC_ASSERT(g.starts[i] <= 1, "task %d ran %d times", i, g.starts[i]);
    RMC_ASSERT(g.starts[i] == g.finishes[i], "task %d did not finish", i);
    if (g.posted[i] && !c.allow_drop) RMC_ASSERT(g.starts[i] == 1, "task %d was never run", i);
  }
}

void run_cfg(const Cfg& c) {
  g_cfg = &c;
  g_caps = g_ncaps = 0;
  g_next_post = -1;
  g_begin = rmc::now();
  rmc::Sem done(0, false);
  g_done = &done;
  rmc::Sem a0(0, false), a1(0, false), a2(0, false), a3(0, false), a4(0, false), a5(0, false);
  g_aux[0] = &a0; g_aux[1] = &a1; g_aux[2] = &a2; g_aux[3] = &a3; g_aux[4] = &a4; g_aux[5] = &a5;
  std::unique_ptr<rst::TaskRunner> r;
  if (c.m > 0) {
    r = std::make_unique<rst::ThreadPoolTaskRunner>(
        static_cast<size_t>(c.m), [] { return nanoseconds(pool_now()); }, nanoseconds(c.keep));
  } else {
    auto p = std::make_unique<rst::PollingTaskRunner>([] { return nanoseconds(pool_now()); });
    g_polling = p.get();
    r = std::move(p);
  }
  g_owner = &r;
  g_runner = r.get();
  if (c.group == "C33") {
    rmc::sleep_for(1);
    g_base_threads = rmc::live_threads();
  }
  const int64_t begin = pool_now();
  run_prog(c.threads[0], 0);
  // A task that only runs once some thread's keep-alive time has passed was
  // not started although it could have been.
  if (c.end >= 0) {
    const int64_t n = pool_now() - begin;
    if (rmc::time_jumps() == 0)
      RMC_ASSERT(n <= c.end, "the tasks are done at %lld, not by %lld, although no thread was delayed",
                 static_cast<long long>(n), static_cast<long long>(c.end));
  }
  if (r) {
    r.reset();
    set_dead();
  }
  check_end(c);
  RMC_ASSERT(g_caps == 0, "%d callables outlive the runner", g_caps);
}

Prog parse(const std::string& s) {
  Prog p;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] == ' ') { i++; continue; }
    Op o{s[i++], 0, 0};
    char* e;
    o.a = static_cast<int>(strtol(s.c_str() + i, &e, 10));
    i = static_cast<size_t>(e - s.c_str());
    if (i < s.size() && s[i] == ':') {
      o.b = strtoll(s.c_str() + i + 1, &e, 10);
      i = static_cast<size_t>(e - s.c_str());
    }
    p.push_back(o);
  }
  return p;
}

struct Opts {
  int64_t keep = 100;
  int64_t scale = 1;
  int64_t base = 1000000000000;
  bool order = false;
  bool drop = false;
  int quick = 3, thorough = 6, spurious = 1;
};

void prog(const char* group, const char* name, int m, std::vector<std::string> threads,
          std::vector<std::string> tasks, Opts o) {
  auto* c = new Cfg{name, group, m, o.keep, o.scale, o.base, {}, {}, o.order, o.drop, -1};
  for (auto& s : threads) c->threads.push_back(parse(s));
  for (auto& s : tasks) c->tasks.push_back(parse(s));
  if (c->group == "C02") {
    int64_t slept = 0, delay = 0;
    for (auto* ps : {&c->threads, &c->tasks})
      for (auto& q : *ps)
        for (auto& op : q) {
          if (op.k == 's') slept += op.a;
          if (op.k == 'd') delay = std::max(delay, op.b);
        }
    c->end = slept + delay;
  }
  rmc::Scenario s;
  s.name = name;
  s.group = group;
  s.quick_bound = o.quick;
  s.thorough_bound = o.thorough;
  s.spurious = o.spurious;
  s.body = [c] { run_cfg(*c); };
  rmc::add(std::move(s));
}

#define O(...) ([] { Opts o; __VA_ARGS__; return o; }())

void pool_scenarios() {
  // C01: exactly once.
  prog("C01", "once_post_wait_post_m1", 1, {"p0 w1 p1 w1"}, {}, O(o.keep = 5));
  prog("C01", "once_sleep_at_keepalive_m1", 1, {"p0 w1 s5 p1 w1"}, {}, O(o.keep = 5));
  prog("C01", "once_two_posters_m1", 1, {"f1 p0 p1 j w3", "p2"}, {}, O());
  prog("C01", "once_two_posters_m2", 2, {"f1 p0 j w2", "p1"}, {}, O());
  prog("C01", "once_three_m2", 2, {"p0 p1 p2 w3"}, {}, O());
  prog("C01", "once_post_wait_post_m2", 2, {"p0 p1 w2 p2 w1"}, {}, O(o.keep = 5));
  prog("C01", "once_chain_from_task_m1", 1, {"p0 w3"}, {"p1 p2"}, O());
  prog("C01", "once_chain_from_task_m2", 2, {"p0 w3"}, {"p1", "p2"}, O());
  prog("C01", "once_delayed_m1", 1, {"d0:5 d1:5 p2 w3"}, {}, O());
  prog("C01", "once_delayed_m2", 2, {"d0:5 d1:5 w2"}, {}, O());
  prog("C01", "once_delayed_vs_keepalive_m1", 1, {"p0 d1:5 w2"}, {}, O(o.keep = 5));
  prog("C01", "once_delayed_from_task_m1", 1, {"p0 w2"}, {"d1:3"}, O(o.keep = 3));
  prog("C01", "once_delayed_two_posters", 1, {"f1 d0:4 j w2", "d1:2"}, {}, O());
  prog("C01", "once_apply_and_post_m2", 2, {"f1 a0:2 j w1", "p3"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C01", "once_delayed_batch3_m2", 2, {"d0:5 d1:5 d2:5 w3"}, {}, O(o.keep = 2));
  prog("C01", "once_idle_then_burst_m2", 2, {"p0 w1 p1 p2 w2"}, {}, O(o.keep = 50));

  // C02: limit and full use.
  prog("C02", "limit_m1", 1, {"p0 p1 p2 w3"}, {}, O(o.order = true));
  prog("C02", "limit_m2", 2, {"p0 p1 p2 w3"}, {}, O(o.order = true));
  prog("C02", "limit_two_posters_m1", 1, {"f1 p0 j w2", "p1"}, {}, O(o.order = true));
  prog("C02", "limit_delayed_m1", 1, {"p0 d1:3 d2:3 w3"}, {"s3"}, O(o.order = true; o.quick = 2; o.thorough = 4));
  prog("C02", "limit_apply_m2", 2, {"a0:3"}, {}, O(o.order = true; o.quick = 2; o.thorough = 4));
  prog("C02", "pair_m2", 2, {"p0 p1 w2"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "pair_two_posters_m2", 2, {"f1 p0 j w2", "p1"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "pair_nested_m2", 2, {"p0 w2"}, {"p1 v0", "u0"}, O());
  prog("C02", "pair_after_idle_m2", 2, {"p0 w1 p1 p2 w2"}, {"", "u1 v0", "u0 v1"}, O());
  prog("C02", "pair_after_two_idle_m2", 2, {"p0 p1 w2 p2 p3 w2"}, {"u1 v0", "u0 v1", "u3 v2", "u2 v3"}, O(o.quick = 2; o.thorough = 4));
  prog("C02", "pair_after_idle_nested_m2", 2, {"p0 w1 p1 w2"}, {"", "p2 v0", "u0"}, O());
  prog("C02", "pair_after_keepalive_m2", 2, {"p0 w1 s5 p1 p2 w2"}, {"", "u1 v0", "u0 v1"}, O(o.keep = 5));
  prog("C02", "triple_m3", 3, {"p0 p1 p2 w3"}, {"u1 u2 v0 v0", "u0 u2 v1 v1", "u0 u1 v2 v2"}, O(o.quick = 1; o.thorough = 3));
  prog("C02", "pair_delayed_m2", 2, {"d0:3 d1:3 w2"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "pair_delayed_apart_m2", 2, {"d0:3 d1:5 w2"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "pair_delayed_and_now_m2", 2, {"p0 d1:5 w2"}, {"v0", "u0"}, O());
  prog("C02", "pair_delayed_after_idle_m2", 2, {"p0 w1 d1:3 d2:3 w2"}, {"", "u1 v0", "u0 v1"}, O(o.keep = 50));
  prog("C02", "apply_mutual_m2", 2, {"a0:2"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "apply_mutual_after_idle_m2", 2, {"p3 w1 a0:2"}, {"u1 v0", "u0 v1"}, O());
  prog("C02", "apply_mutual_m3", 3, {"a0:3"}, {"u1 u2 v0 v0", "u0 u2 v1 v1", "u0 u1 v2 v2"}, O(o.quick = 1; o.thorough = 3));
  prog("C02", "pair_delayed_after_two_idle_m2", 2, {"p2 p3 w2 d0:3 d1:3 w2"}, {"u1 v0", "u0 v1"}, O(o.keep = 50; o.quick = 2; o.thorough = 4));
  prog("C02", "apply_mutual_after_two_idle_m2", 2, {"p2 p3 w2 a0:2"}, {"u1 v0", "u0 v1"}, O(o.keep = 50; o.quick = 2; o.thorough = 4));
  prog("C02", "triple_delayed_after_idle_m3", 3, {"p3 p4 w2 d0:3 d1:3 d2:3 w3"}, {"u1 u2 v0 v0", "u0 u2 v1 v1", "u0 u1 v2 v2"}, O(o.keep = 50; o.quick = 1; o.thorough = 2));
  prog("C02", "blocked_then_next_m2", 2, {"p0 p1 w1 p2 w1 u0 w1"}, {"v0"}, O());

  // C03: order and delays.
  prog("C03", "fifo_m1", 1, {"p0 p1 p2 w3"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "fifo_from_task_m1", 1, {"p0 w3"}, {"p1 p2"}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_one", 1, {"d0:7 w1"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_ties", 1, {"d0:5 d1:5 d2:5 w3"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_desc", 1, {"d0:30 d1:20 d2:10 w3"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_asc", 1, {"d0:10 d1:20 d2:30 w3"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_mixed", 1, {"d0:20 d1:10 d2:20 d3:10 w4"}, {}, O(o.order = true; o.quick = 3; o.thorough = 6));
  prog("C03", "delay_earlier_posted_later", 1, {"d0:1000 s5 d1:10 w2"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_earlier_from_task", 1, {"d0:1000 p1 w3"}, {"", "d2:10"}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_and_now", 1, {"d0:10 p1 d2:5 p3 w4"}, {}, O(o.order = true; o.quick = 3; o.thorough = 6));
  prog("C03", "delay_slow_clock", 1, {"d0:4 w1"}, {}, O(o.order = true; o.scale = 2; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_slow_clock_two", 1, {"d0:8 d1:4 w2"}, {}, O(o.order = true; o.scale = 2; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_long_after_idle", 1, {"p0 w1 d1:1000 w1"}, {}, O(o.order = true; o.keep = 10; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_in_sequence", 1, {"d0:5 w1 d1:5 w1"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_two_posters", 1, {"f1 d0:10 j w2", "d1:5"}, {}, O(o.order = true; o.quick = 4; o.thorough = 9));
  prog("C03", "delay_m2", 2, {"d0:10 d1:5 w2"}, {}, O(o.order = true; o.quick = 3; o.thorough = 6));
  prog("C03", "delay_clock_from_zero", 1, {"d0:20 d1:10 p2 w3"}, {}, O(o.order = true; o.base = 0));
  prog("C03", "delay_clock_negative", 1, {"d0:20 d1:10 p2 w3"}, {}, O(o.order = true; o.base = -15));
  prog("C03", "delay_clock_negative_zero", 1, {"d0:15 d1:20 w2"}, {}, O(o.order = true; o.base = -15));
  prog("C03", "delay_clock_large", 1, {"d0:20 d1:21 p2 d3:5000000000 w4"}, {}, O(o.order = true; o.base = 1700000000000000001; o.quick = 2));
  prog("C03", "delay_long", 1, {"d0:2592000000000000 d1:3600000000000 d2:5000000000 d3:7000001 w4"}, {}, O(o.order = true; o.quick = 2));
  prog("C03", "delay_years", 1, {"d0:3153600000000000000 d1:99 w2"}, {}, O(o.order = true; o.quick = 2));
  prog("C03", "delay_nanoseconds", 1, {"d0:1000001 d1:1000000 d2:999999 w3"}, {}, O(o.order = true; o.quick = 2));

  // C33: idle workers end.
  const auto keep = [](int64_t k, int quick, int thorough) {
    Opts o;
    o.keep = k;
    o.quick = quick;
    o.thorough = thorough;
    return o;
  };
  prog("C33", "keep_m1", 1, {"k0 p0 w1 s4 K1 s2 k0 p1 w1 s4 K1 s2 k0"}, {}, keep(5, 4, 7));
  prog("C33", "keep_m2", 2, {"p0 p1 w2 s4 K1 s2 k0 p2 w1 s4 K1 s2 k0"}, {}, keep(5, 3, 6));
  prog("C33", "keep_pair_m2", 2, {"p0 p1 w2 s4 K2 s2 k0 p2 p3 w2 s4 K2 s2 k0"}, {"u1 v0", "u0 v1", "u3 v2", "u2 v3"}, keep(5, 3, 5));
  prog("C33", "keep_pair_one_reused_m2", 2, {"p0 p1 w2 s3 p2 w1 s3 K1 s3 k0"}, {"u1 v0", "u0 v1"}, keep(5, 3, 5));
  prog("C33", "keep_triple_m3", 3, {"p0 p1 p2 w3 s4 K3 s2 k0"}, {"u1 u2 v0 v0", "u0 u2 v1 v1", "u0 u1 v2 v2"}, keep(5, 1, 3));
  prog("C33", "keep_reused_m1", 1, {"p0 w1 s4 p1 w1 s4 K1 s2 k0"}, {}, keep(5, 4, 7));
  prog("C33", "keep_busy_m1", 1, {"p0 s10 K1 w1 s4 K1 s2 k0"}, {"s20"}, keep(5, 4, 7));
  prog("C33", "keep_busy_and_idle_m2", 2, {"p0 p1 w1 s6 k1 w1 s4 K1 s2 k0"}, {"u1 v0 s20", "u0 v1"}, keep(5, 3, 5));
  prog("C33", "keep_delayed_m1", 1, {"d0:20 s10 k0 w1 s4 K1 s2 k0"}, {}, keep(5, 4, 7));
  prog("C33", "keep_delayed_pair_m2", 2, {"p2 w1 d0:20 d1:20 s10 k0 w2 s4 K2 s2 k0"}, {"u1 v0", "u0 v1"}, keep(5, 2, 4));
  prog("C33", "keep_from_task_m1", 1, {"p0 w2 s4 K1 s2 k0"}, {"s7 p1"}, keep(5, 4, 7));
  prog("C33", "keep_apply_m2", 2, {"a0:3 s4 K1 s2 k0"}, {}, keep(5, 3, 5));
  prog("C33", "keep_two_posters_m2", 2, {"f1 p0 j w2 s4 K1 s2 k0", "p1"}, {}, keep(5, 3, 5));
  prog("C33", "keep_one_m1", 1, {"p0 w1 s2 k0 p1 w1 s2 k0"}, {}, keep(1, 4, 7));
  prog("C33", "keep_hour_m1", 1, {"p0 w1 s0:3599999999999 K1 s2 k0"}, {}, keep(3600000000000, 4, 7));
  prog("C33", "keep_3s_m2", 2, {"p0 w1 s0:2999999999 K1 s2 k0"}, {}, keep(3000000000, 3, 5));
  prog("C33", "keep_day_m1", 1, {"p0 w1 s0:86399999999999 K1 s2 k0"}, {}, keep(86400000000000, 3, 5));
  prog("C33", "keep_ms_m1", 1, {"p0 w1 s0:1000000 K1 s2 k0"}, {}, keep(1000001, 3, 5));

  // C34: callables are released.
  prog("C34", "kept_m1", 1, {"p0 w1 s1 L0 p1 w1 s1 L0"}, {}, O(o.quick = 4));
  prog("C34", "kept_queue_m1", 1, {"p0 p1 p2 w3 s1 L0"}, {}, O());
  prog("C34", "kept_m2", 2, {"p0 p1 w2 s1 L0"}, {}, O());
  prog("C34", "kept_pair_m2", 2, {"p0 p1 w2 s1 L0"}, {"u1 v0", "u0 v1"}, O());
  prog("C34", "kept_busy_m1", 1, {"p0 p1 s1 L2 w2 s1 L0"}, {"s5"}, O(o.quick = 4));
  prog("C34", "kept_busy_m2", 2, {"p0 p1 s1 L1 w2 s1 L0"}, {"s5"}, O());
  prog("C34", "kept_delayed_m1", 1, {"d0:5 s1 L1 w1 s1 L0"}, {}, O(o.quick = 4));
  prog("C34", "kept_delayed_apart_m1", 1, {"d0:5 d1:9 s1 L2 w1 s1 L1 w1 s1 L0"}, {}, O());
  prog("C34", "kept_delayed_same_m2", 2, {"d0:5 d1:5 d2:5 s1 L3 w3 s1 L0"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C34", "kept_chain_m1", 1, {"p0 w3 s1 L0"}, {"p1", "d2:3"}, O());
  prog("C34", "kept_keepalive_m1", 1, {"p0 w1 s9 L0 p1 w1 s1 L0"}, {}, O(o.keep = 5));
  prog("C34", "kept_apply_m1", 1, {"a0:3 s1 L0"}, {}, O());
  prog("C34", "kept_apply_m2", 2, {"a0:3 s1 L0"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C34", "kept_apply_behind_m1", 1, {"p5 a0:2 w1 s1 L0"}, {}, O());
  prog("C34", "kept_destroy_queue_m1", 1, {"p0 p1 p2 x L0"}, {}, O(o.drop = true));
  prog("C34", "kept_destroy_delayed_m1", 1, {"d0:5 d1:9 p2 s5 x L0"}, {}, O(o.drop = true));
  prog("C34", "kept_destroy_running_m2", 2, {"p0 v0 x L0"}, {"u0 p1 d2:5"}, O(o.drop = true; o.quick = 2; o.thorough = 4));
  prog("C34", "posts_when_destroyed_m1", 1, {"e1 p0 w2 s1 L0"}, {}, O());
  prog("C34", "posts_when_destroyed_m2", 2, {"e1 p0 p2 w3 s1 L0"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C34", "posts_when_destroyed_chain_m1", 1, {"e1 p0 p2 w3 s1 L0"}, {}, O());
  prog("C34", "posts_when_destroyed_delayed_m1", 1, {"e1 d0:3 w2 s1 L0"}, {}, O());
  prog("C34", "destroy_posts_m1", 1, {"p5 e1 p0 x L0"}, {"", "", "", "", "", "s5"}, O(o.drop = true; o.quick = 4));
  prog("C34", "destroy_posts_m2", 2, {"p5 e1 p0 x L0"}, {"", "", "", "", "", "s5"}, O(o.drop = true));
  prog("C34", "destroy_posts_delayed_m1", 1, {"p5 e101 p0 x L0"}, {"", "", "", "", "", "s5"}, O(o.drop = true));
  prog("C34", "destroy_delayed_posts_m1", 1, {"e1 d0:9 x L0"}, {}, O(o.drop = true; o.quick = 4));
  prog("C34", "destroy_delayed_posts_delayed_m1", 1, {"e101 d0:9 x L0"}, {}, O(o.drop = true; o.quick = 4));
  prog("C34", "destroy_posts_chain_m1", 1, {"e101 d0:9 e2 x L0"}, {}, O(o.drop = true));
  prog("C34", "destroy_posts_many_m1", 1, {"p5 e1 p0 e102 d3:9 e4 d6:7 x L0"}, {"", "", "", "", "", "s5"}, O(o.drop = true; o.quick = 2; o.thorough = 3));
  prog("C34", "poll_destroy_posts", 0, {"e1 p0 x L0"}, {}, O(o.drop = true));
  prog("C34", "poll_destroy_posts_chain", 0, {"p7 e1 p0 e102 d3:9 e4 d6:1 g e8 x L0"}, {}, O(o.drop = true));
  prog("C34", "poll_kept", 0, {"p0 d1:5 g L1 s5 g L0"}, {}, O());
  prog("C34", "poll_kept_posters", 0, {"f1 G2 j L0", "p0 p1"}, {}, O());
  prog("C34", "poll_kept_apply", 0, {"f1 G2 j L0", "a0:2"}, {}, O());
  prog("C34", "poll_kept_destroy", 0, {"p0 d1:5 d2:1 x L0"}, {}, O(o.drop = true));
  prog("C34", "poll_posts_when_destroyed", 0, {"e1 p0 g L1 g L0"}, {}, O());
  prog("C34", "poll_posts_when_destroyed_many", 0, {"e1 p0 e2 p3 d4:9 g L3 g L1 s9 g L0"}, {}, O());

  // C04: destruction.
  prog("C04", "destroy_frozen_clock", 1, {"d0:5 p1 s7 d2:1 x"}, {}, O(o.drop = true; o.scale = 1000000000000; o.base = 0));
  prog("C04", "destroy_far_delayed", 1, {"d0:3153600000000000000 x"}, {}, O(o.drop = true; o.quick = 4));
  prog("C04", "destroy_empty_m1", 1, {"x"}, {}, O(o.drop = true; o.quick = 4; o.thorough = 8));
  prog("C04", "destroy_after_post_m1", 1, {"p0 x"}, {}, O(o.drop = true; o.quick = 4; o.thorough = 8));
  prog("C04", "destroy_after_posts_m1", 1, {"p0 p1 x"}, {}, O(o.drop = true));
  prog("C04", "destroy_after_posts_m2", 2, {"p0 p1 x"}, {}, O(o.drop = true));
  prog("C04", "destroy_after_posts_m3", 3, {"p0 p1 p2 x"}, {}, O(o.drop = true; o.quick = 2; o.thorough = 4));
  prog("C04", "destroy_idle_m1", 1, {"p0 w1 x"}, {}, O(o.drop = true; o.keep = 5));
  prog("C04", "destroy_idle_m2", 2, {"p0 p1 w2 x"}, {}, O(o.drop = true; o.keep = 5));
  prog("C04", "destroy_at_keepalive_m1", 1, {"p0 w1 s5 x"}, {}, O(o.drop = true; o.keep = 5));
  prog("C04", "destroy_delayed_pending", 1, {"d0:10 x"}, {}, O(o.drop = true; o.quick = 4));
  prog("C04", "destroy_delayed_due", 1, {"d0:5 s5 x"}, {}, O(o.drop = true));
  prog("C04", "destroy_delayed_many", 2, {"d0:5 d1:5 s5 x"}, {}, O(o.drop = true));
  prog("C04", "destroy_delayed_and_queue", 1, {"d0:5 p1 p2 x"}, {}, O(o.drop = true));
  prog("C04", "destroy_running_posts_now_m1", 1, {"p0 v0 x"}, {"u0 p1"}, O(o.drop = true));
  prog("C04", "destroy_running_posts_now_m2", 2, {"p0 v0 x"}, {"u0 p1 p2"}, O(o.drop = true));
  prog("C04", "destroy_running_posts_delayed_m1", 1, {"p0 v0 x"}, {"u0 d1:5"}, O(o.drop = true));
  prog("C04", "destroy_running_posts_delayed_m2", 2, {"p0 v0 x"}, {"u0 d1:5 p2"}, O(o.drop = true));
  prog("C04", "destroy_running_long_m2", 2, {"p0 p1 v0 x"}, {"u0 s10", "s3"}, O(o.drop = true));
  prog("C04", "destroy_two_running_m2", 2, {"p0 p1 v0 v0 x"}, {"u0 p2", "u0 s3"}, O(o.drop = true));
  prog("C04", "destroy_running_in_order", 1, {"p0 v0 x"}, {"u0 p1 p2 d3:1"}, O(o.drop = true; o.order = true));

  // C05: ApplyTaskSync on the pool.
  prog("C05", "apply1_m1", 1, {"a0:1"}, {}, O(o.quick = 4; o.thorough = 8));
  prog("C05", "apply2_m1", 1, {"a0:2"}, {}, O());
  prog("C05", "apply3_m1", 1, {"a0:3"}, {}, O());
  prog("C05", "apply2_m2", 2, {"a0:2"}, {}, O());
  prog("C05", "apply3_m2", 2, {"a0:3"}, {}, O());
  prog("C05", "apply4_m3", 3, {"a0:4"}, {}, O(o.quick = 1; o.thorough = 3));
  prog("C05", "apply_twice_m2", 2, {"a0:2 a2:2"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C05", "apply_two_callers_m1", 1, {"f1 a0:2 j", "a2:2"}, {}, O());
  prog("C05", "apply_two_callers_m2", 2, {"f1 a0:2 j", "a2:2"}, {}, O(o.quick = 2; o.thorough = 4));
  prog("C05", "apply_behind_queue_m1", 1, {"p5 p6 a0:2 w2"}, {}, O());
  prog("C05", "apply_behind_queue_m2", 2, {"p5 a0:2 w1"}, {}, O());
  prog("C05", "apply_after_idle_m1", 1, {"p5 w1 a0:2"}, {}, O(o.keep = 5));
  prog("C05", "apply_from_task_m2", 2, {"p5 w1"}, {"", "", "", "", "", "a0:2"}, O());
  prog("C05", "apply_with_delayed_m1", 1, {"d5:5 a0:2 w1"}, {}, O());
  // ... and on the polling runner.
  prog("C05", "papply1", 0, {"f1 G1 j", "a0:1"}, {}, O(o.quick = 4; o.thorough = 8));
  prog("C05", "papply3", 0, {"f1 G3 j", "a0:3"}, {}, O());
  prog("C05", "papply_two_callers", 0, {"f1 f2 G4 j", "a0:2", "a2:2"}, {}, O());
  prog("C05", "papply_behind_queue", 0, {"p5 f1 G4 j", "p6 a0:2"}, {}, O());

  // C06: happens-before edges of the runners (plain cells).
  prog("C06", "hb_post_m1", 1, {"C0:5 p0 w1"}, {"D0:5 W0"}, O());
  prog("C06", "hb_post_reuse_worker_m1", 1, {"C0:5 p0 w1 C1:6 p1 w1"}, {"D0:5", "D1:6"}, O());
  prog("C06", "hb_post_delayed_m1", 1, {"C0:5 d0:3 w1"}, {"D0:5 W0"}, O());
  prog("C06", "hb_two_posters_m2", 2, {"f1 C0:5 p0 j w2", "C1:6 p1"}, {"D0:5 W0", "D1:6 W1"}, O());
  prog("C06", "hb_nested_m2", 2, {"C0:1 p0 w2"}, {"C1:2 p1", "D0:1 D1:2 W0"}, O());
  prog("C06", "hb_nested_delayed_m2", 2, {"C0:1 p0 w2"}, {"C1:2 d1:3", "D0:1 D1:2 W0"}, O());
  prog("C06", "hb_apply_m2", 2, {"C0:1 a0:2 R2 R3"}, {"D0:1 W2", "D0:1 W3"}, O());
  prog("C06", "hb_destroy_m1", 1, {"p0 v0 x R0"}, {"u0 W0"}, O(o.drop = true));
  prog("C06", "hb_one_thread_tasks_m1", 1, {"p0 p1 w2"}, {"W0", "W0"}, O());
  prog("C06", "hb_polling", 0, {"f1 G1 R1 j", "C0:5 p0"}, {"D0:5"}, O());
  prog("C06", "hb_polling_two", 0, {"f1 f2 G2 j", "C0:5 p0", "C1:6 d1:2"}, {"D0:5", "D1:6"}, O());

  // C08: polling runner with concurrent posters.
  prog("C08", "poll_one_poster", 0, {"f1 G2 j", "p0 p1"}, {}, O(o.order = true; o.quick = 5; o.thorough = 9));
  prog("C08", "poll_two_posters", 0, {"f1 f2 G4 j", "p0 p1", "p2 p3"}, {}, O(o.order = true; o.quick = 5; o.thorough = 9));
  prog("C08", "poll_delayed", 0, {"f1 s3 G3 j", "p0 d1:3 d2:2"}, {}, O(o.order = true; o.quick = 5; o.thorough = 9));
  prog("C08", "poll_delayed_two_posters", 0, {"f1 f2 g s3 G4 j", "d0:3 p1", "d2:2 p3"}, {}, O(o.order = true; o.quick = 5; o.thorough = 9));
  prog("C08", "poll_chain", 0, {"f1 p0 G3 j", "p2"}, {"p1"}, O(o.order = true; o.quick = 5; o.thorough = 9));
  prog("C08", "poll_apply_mixed", 0, {"f1 p0 G4 j", "a1:2 p3"}, {}, O(o.order = true; o.quick = 5; o.thorough = 9));
}

// ---- Barrier -----------------------------------------------------------------
struct BarMon {
  int counted;
  bool destroyed;
};
BarMon gb;
NOTRACE void bar_count() { gb.counted++; }

// |spec|: one letter per thread: c CountDown, w Wait, b CountDownAndWait.
// The barrier lives on the heap.  It is destroyed by the main thread as soon
// as every wait has returned (counters that do not wait may still be inside
// CountDown()), or after all threads were joined when |join_first|.
void barrier_scenario(const std::string& spec, int counter, bool join_first) {
  auto b = std::make_unique<rst::Barrier>(static_cast<size_t>(counter));
  rst::Barrier* p = b.get();
  rmc::Sem returned(0, true);
  const int n = static_cast<int>(spec.size());
  int cells[8] = {};
  int* cell = cells;
  std::vector<std::thread> ts;
  int waits = 0;
  auto role = [&, p, counter, cell](char r, int i) {
    auto after = [&] {
      // Every decrement is counted before it is made.
      rmc::event(2);
      RMC_ASSERT(gb.counted >= counter, "a wait returned after %d of %d count-downs", gb.counted, counter);
      // What was written before counting down is visible.
      int sum = 0;
      for (int k = 0; k < 8; k++) sum += cell[k];
      RMC_ASSERT(sum == counter, "wait returned but %d of %d effects are visible", sum, counter);
    };
    if (r == 'c') {
      cell[i] = 1;
      rmc::event(2);
      bar_count();
      p->CountDown();
    } else if (r == 'b') {
      cell[i] = 1;
      rmc::event(2);
      bar_count();
      p->CountDownAndWait();
      after();
      returned.post();
    } else if (r == 'w') {
      p->Wait();
      after();
      returned.post();
    }
  };
  for (int i = 1; i < n; i++) {
    const char r = spec[static_cast<size_t>(i)];
    if (r != 'c') waits++;
    ts.emplace_back([&role, r, i] { role(r, i); });
  }
  if (spec[0] != 'c') waits++;
  role(spec[0], 0);
  if (join_first) for (auto& t : ts) t.join();
  returned.wait(waits);
  if (join_first) {
    // Present and future waits return.
    p->Wait();
  }
  b.reset();
  if (!join_first) for (auto& t : ts) t.join();
}

void barrier_scenarios() {
  struct B { const char* spec; int n; } bs[] = {
      {"wc", 1}, {"b", 1}, {"wcc", 2}, {"bb", 2}, {"bc", 2}, {"wwc", 1}, {"wwcc", 2},
      {"bbw", 2}, {"bcw", 2}, {"bbb", 3}, {"wbc", 2}, {"wccc", 3}, {"www" "c", 1}, {"bbc", 3}, {"wbb", 2}};
  for (auto& x : bs) {
    const int len = static_cast<int>(strlen(x.spec));
    for (int jf = 0; jf < 2; jf++) {
      rmc::Scenario s;
      s.name = std::string("barrier_") + x.spec + (jf ? "_joined" : "_destroy_at_once");
      s.group = "C07";
      s.quick_bound = len <= 3 ? 5 : 4;
      s.thorough_bound = len <= 3 ? 9 : 7;
      s.spurious = 1;
      const std::string spec = x.spec;
      const int cnt = x.n;
      s.body = [spec, cnt, jf] { barrier_scenario(spec, cnt, jf); };
      rmc::add(s);
      if (jf) {
        // The happens-before half belongs to C06.
        s.group = "C06";
        s.name = std::string("hb_barrier_") + x.spec;
        s.quick_bound = 3;
        s.thorough_bound = len <= 3 ? 8 : 6;
        rmc::add(s);
      }
    }
  }
}

// ---- Many tasks -----------------------------------------------------------------
// Programs with more tasks than fit small counters or buffers; the schedules
// are those with few deviations.
struct Many {
  int* starts;
  int running, finished, next;
  bool dead;
};
Many gm;
NOTRACE int many_start(int id, int n, int limit, bool order) {
  RMC_ASSERT(id >= 0 && id < n, "task %d of %d", id, n);
  RMC_ASSERT(!gm.dead, "task %d starts after the destruction", id);
  RMC_ASSERT(gm.starts[id] == 0, "task %d runs twice", id);
  gm.starts[id]++;
  gm.running++;
  if (order) RMC_ASSERT(gm.next == id, "task %d starts instead of task %d", id, gm.next);
  gm.next++;
  RMC_ASSERT(gm.running <= limit, "%d tasks run at once, the maximum is %d", gm.running, limit);
  return gm.running;
}
NOTRACE void many_finish() {
  gm.running--;
  gm.finished++;
}

enum ManyKind { kNow, kSameDelay, kDescending, kChain, kFromTask, kApply, kMutual, kDestroy };

void many_scenario(ManyKind kind, int m, int n) {
  auto starts = std::make_unique<int[]>(static_cast<size_t>(n));
  gm.starts = starts.get();
  rmc::Sem done(0, true), met(0, false);
  const int64_t begin = rmc::now();
  auto now = [begin] { return nanoseconds(rmc::now() - begin); };
  std::unique_ptr<rst::TaskRunner> r;
  rst::PollingTaskRunner* poll = nullptr;
  if (m > 0) {
    r = std::make_unique<rst::ThreadPoolTaskRunner>(static_cast<size_t>(m), now, nanoseconds(1000000));
  } else {
    auto p = std::make_unique<rst::PollingTaskRunner>(now);
    poll = p.get();
    r = std::move(p);
  }
  rst::TaskRunner* const runner = r.get();
  const int limit = m ? m : 1;
  auto body = [&, n, limit, m](int id, bool order) {
    const int running = many_start(id, n, limit, order && m <= 1 && (kind != kDescending || rmc::time_jumps() == 0));
    if (kind == kMutual) {
      // All tasks have to run at the same time.
      (void)running;
      for (int i = 0; i < n; i++) met.post();
      met.wait(n);
    }
    many_finish();
    done.post();
  };
  std::function<void(int)> chain = [&](int id) {
    many_start(id, n, limit, true);
    if (id + 1 < n) runner->PostTask([&chain, id] { chain(id + 1); });
    many_finish();
    done.post();
  };
  switch (kind) {
    case kNow:
    case kDestroy:
      for (int i = 0; i < n; i++) runner->PostTask([&body, i] { body(i, true); });
      break;
    case kMutual:
      for (int i = 0; i < n; i++) runner->PostTask([&body, i] { body(i, false); });
      break;
    case kSameDelay:
      for (int i = 0; i < n; i++) runner->PostDelayedTask([&body, i] { body(i, true); }, nanoseconds(50));
      break;
    case kDescending:
      for (int i = 0; i < n; i++)
        runner->PostDelayedTask([&body, n, i] { body(n - 1 - i, true); }, nanoseconds(5 * (n - i)));
      break;
    case kChain:
      runner->PostTask([&chain] { chain(0); });
      break;
    case kFromTask:
      runner->PostTask([&] {
        for (int i = 0; i < n; i++) runner->PostTask([&body, i] { body(i, true); });
      });
      break;
    case kApply:
      if (poll) {
        std::thread t([&] { runner->ApplyTaskSync([&](size_t i) { body(static_cast<int>(i), false); }, static_cast<size_t>(n)); });
        while (gm.finished < n) {
          poll->RunPendingTasks();
          rmc::sleep_for(1);
        }
        t.join();
      } else {
        runner->ApplyTaskSync([&](size_t i) { body(static_cast<int>(i), false); }, static_cast<size_t>(n));
      }
      RMC_ASSERT(gm.finished == n, "ApplyTaskSync() returned when %d of %d were done", gm.finished, n);
      break;
  }
  if (kind != kDestroy) {
    done.wait(n);
    for (int i = 0; i < n; i++) RMC_ASSERT(gm.starts[i] == 1, "task %d ran %d times", i, gm.starts[i]);
  }
  r.reset();
  gm.dead = true;
  RMC_ASSERT(gm.running == 0, "%d tasks run after the destruction", gm.running);
}

void many_barrier(int n) {
  auto b = std::make_unique<rst::Barrier>(static_cast<size_t>(n));
  int counted = 0;
  std::thread t([&] {
    b->Wait();
    RMC_ASSERT(counted == n, "a wait returned after %d of %d count-downs", counted, n);
  });
  for (int i = 0; i < n; i++) {
    counted++;
    b->CountDown();
  }
  t.join();
  b->Wait();
}

// Counts that nobody can count down to zero: whoever waits stays blocked.
const size_t kFar[] = {(size_t{1} << 16) + 2, (size_t{1} << 31) + 1, (size_t{1} << 31) + 2, (size_t{1} << 32) - 1 + 2,
                       (size_t{1} << 32) + 2, size_t{1} << 32,       (size_t{1} << 63) + 1, size_t{1} << 63, ~size_t{0}};
void far_barrier(char role) {
  rmc::may_block();
  const size_t n = kFar[static_cast<size_t>(rmc::choose(9))];
  auto* b = new rst::Barrier(n);
  std::thread t([&] {
    if (role == 'w') b->Wait();
    else b->CountDownAndWait();
    RMC_ASSERT(false, "a wait returned after at most 3 of %zu count-downs", n);
  });
  for (int i = 0; i < 2; i++) b->CountDown();
  b->CountDownAndWait();
  RMC_ASSERT(false, "a wait returned after at most 4 of %zu count-downs", n);
}
void far_apply(int m) {
  rmc::may_block();
  const size_t n = kFar[static_cast<size_t>(rmc::choose(9))];
  struct State {
    std::atomic<int> calls{0};
    std::atomic<bool> done[8] = {};
    rmc::Sem never{0, true};
  };
  auto* s = new State;
  auto body = [s](size_t i) {
    RMC_ASSERT(i < 8, "index %zu is passed to one of the first calls", i);
    RMC_ASSERT(!s->done[i].exchange(true), "index %zu is passed twice", i);
    if (++s->calls >= 4) s->never.wait(1);
  };
  if (m == 0) {
    auto* r = new rst::PollingTaskRunner([] { return std::chrono::nanoseconds(0); });
    std::thread t([=] {
      r->ApplyTaskSync(body, n);
      RMC_ASSERT(false, "ApplyTaskSync() returned after %d of %zu calls", s->calls.load(), n);
    });
    for (int k = 0; k < 2; k++) {
      rmc::yield();
      r->RunPendingTasks();
    }
    t.join();
  } else {
    auto* r = new rst::ThreadPoolTaskRunner(static_cast<size_t>(m), [] { return std::chrono::nanoseconds(rmc::now()); },
                                            std::chrono::seconds(1));
    r->ApplyTaskSync(body, n);
    RMC_ASSERT(false, "ApplyTaskSync() returned after %d of %zu calls", s->calls.load(), n);
  }
}

void many_scenarios() {
  int max_points = 6000;
  auto add = [&](const char* group, const char* name, int quick, int thorough, std::function<void()> f) {
    rmc::Scenario s;
    s.max_points = max_points;
    s.group = group;
    s.name = name;
    s.quick_bound = quick;
    s.thorough_bound = thorough;
    s.round_robin = true;
    s.body = std::move(f);
    rmc::add(std::move(s));
  };
  add("C01", "many_now_m1", 1, 2, [] { many_scenario(kNow, 1, 300); });
  add("C01", "many_now_m2", 1, 2, [] { many_scenario(kNow, 2, 300); });
  add("C01", "many_same_delay_m1", 1, 2, [] { many_scenario(kSameDelay, 1, 300); });
  add("C01", "many_same_delay_m2", 1, 2, [] { many_scenario(kSameDelay, 2, 300); });
  add("C01", "many_chain_m1", 1, 2, [] { many_scenario(kChain, 1, 300); });
  add("C01", "many_from_task_m1", 1, 2, [] { many_scenario(kFromTask, 1, 300); });
  add("C02", "many_mutual_m4", 2, 3, [] { many_scenario(kMutual, 4, 4); });
  add("C02", "many_mutual_m6", 2, 3, [] { many_scenario(kMutual, 6, 6); });
  add("C02", "many_mutual_m8", 1, 2, [] { many_scenario(kMutual, 8, 8); });
  add("C02", "many_limit_m5", 2, 3, [] { many_scenario(kNow, 5, 12); });
  add("C03", "many_order_m1", 1, 2, [] { many_scenario(kNow, 1, 300); });
  add("C03", "many_order_ties_m1", 1, 2, [] { many_scenario(kSameDelay, 1, 300); });
  add("C03", "many_order_descending_m1", 1, 2, [] { many_scenario(kDescending, 1, 80); });
  add("C04", "many_destroy_m1", 1, 2, [] { many_scenario(kDestroy, 1, 300); });
  add("C04", "many_destroy_m2", 1, 2, [] { many_scenario(kDestroy, 2, 300); });
  add("C05", "many_apply_m1", 1, 2, [] { many_scenario(kApply, 1, 300); });
  add("C05", "many_apply_m2", 1, 2, [] { many_scenario(kApply, 2, 300); });
  add("C05", "many_papply", 1, 2, [] { many_scenario(kApply, 0, 300); });
  add("C07", "many_counts", 1, 2, [] { many_barrier(300); });
  add("C07", "far_wait", 1, 2, [] { far_barrier('w'); });
  add("C07", "far_count_down_and_wait", 1, 2, [] { far_barrier('b'); });
  add("C05", "far_apply_m1", 1, 2, [] { far_apply(1); });
  add("C05", "far_apply_m3", 1, 2, [] { far_apply(3); });
  add("C05", "far_papply", 1, 2, [] { far_apply(0); });
  // More than a 16-bit counter holds; a single schedule.
  max_points = 4000000;
  add("C01", "very_many_now_m1", 0, 0, [] { many_scenario(kNow, 1, 66000); });
  add("C03", "very_many_ties_m1", 0, 0, [] { many_scenario(kSameDelay, 1, 66000); });
  add("C05", "very_many_apply_m1", 0, 0, [] { many_scenario(kApply, 1, 70000); });
  add("C05", "very_many_apply_m2", 0, 0, [] { many_scenario(kApply, 2, 70000); });
  add("C05", "very_many_papply", 0, 0, [] { many_scenario(kApply, 0, 70000); });
  add("C07", "very_many_counts", 0, 0, [] { many_barrier(70000); });
}

// ---- Sinks -------------------------------------------------------------------
std::string* g_scratch;

// The text of message |k| of thread |t|: |len| bytes of a letter follow.
NOTRACE std::string log_text(int t, int k, int len) {
  return "t" + std::to_string(t) + " m" + std::to_string(k) + " " +
         std::string(static_cast<size_t>(t == 1 ? len * 2 : len), static_cast<char>('a' + t));
}

NOTRACE void check_log(const char* path, int threads, int per, int len) {
  // Raw reads: not part of the model.
  int fd = ::open(path, O_RDONLY);
  if (fd < 0) rmc::fail("log file is missing");
  static char buf[1 << 20];
  const ssize_t n = ::read(fd, buf, sizeof(buf));
  ::close(fd);
  if (n < 0) rmc::fail("log file unreadable");
  int next[4] = {};
  const char *p = buf, *end = buf + n;
  while (p < end) {
    const char* e = static_cast<const char*>(memchr(p, '\n', static_cast<size_t>(end - p)));
    if (!e) rmc::fail("last line is not terminated: \"%.60s\"", p);
    const int t = e - p > 2 ? p[1] - '0' : -1;
    if (t < 0 || t >= threads || next[t] >= per) rmc::fail("broken line \"%.60s\"", p);
    const std::string want = log_text(t, next[t], len);
    if (static_cast<size_t>(e - p) != want.size() || memcmp(p, want.data(), want.size()) != 0)
      rmc::fail("broken line, or message %d of thread %d out of order: \"%.60s\"", next[t], t, p);
    next[t]++;
    rmc::outcome(static_cast<uint64_t>(t) + 1);
    p = e + 1;
  }
  for (int t = 0; t < threads; t++)
    if (next[t] != per) rmc::fail("thread %d: %d of %d messages in the file", t, next[t], per);
}

void log_thread(rst::Sink* s, int t, int per, int len) {
  for (int k = 0; k < per; k++) s->Log(log_text(t, k, len));
}

void sink_scenario(int kind, int threads, int per, int len) {
  char path[512];
  snprintf(path, sizeof(path), "%s/log.%d", g_scratch->c_str(), static_cast<int>(getpid()));
  ::unlink(path);
  {
    std::unique_ptr<rst::Sink> sink;
    std::FILE* f = nullptr;
    if (kind == 0) {
      auto s = rst::FileNameSink::Create(static_cast<const char*>(path));
      if (s.err()) rmc::fail("cannot open the log");
      sink = std::move(*s).Take();
    } else {
      f = std::fopen(path, "w");
      if (!f) rmc::fail("cannot open the log");
      sink = std::make_unique<rst::FilePtrSink>(f, rst::FilePtrSink::ShouldClose(kind == 1));
    }
    rst::Sink* s = sink.get();
    std::vector<std::thread> ts;
    for (int i = 1; i < threads; i++) ts.emplace_back([s, i, per, len] { log_thread(s, i, per, len); });
    log_thread(s, 0, per, len);
    for (auto& t : ts) t.join();
    // Complete before anything is closed: Log() returns after the flush.
    check_log(path, threads, per, len);
    sink.reset();
    if (kind == 2) std::fclose(f);
  }
  check_log(path, threads, per, len);
  ::unlink(path);
}

void logger_scenario(int threads) {
  char path[512];
  snprintf(path, sizeof(path), "%s/log.%d", g_scratch->c_str(), static_cast<int>(getpid()));
  ::unlink(path);
  auto s = rst::FileNameSink::Create(static_cast<const char*>(path));
  if (s.err()) rmc::fail("cannot open the log");
  rst::Logger logger(std::move(*s));
  rst::Logger::SetGlobalLogger(&logger);
  std::vector<std::thread> ts;
  auto f = [](int t) { rst::Logger::Log(rst::Logger::Level::kInfo, "f", t + 1, t ? "bbbb" : "aaaa"); };
  for (int i = 1; i < threads; i++) ts.emplace_back(f, i);
  f(0);
  for (auto& t : ts) t.join();
  char buf[512];
  int fd = ::open(path, O_RDONLY);
  ssize_t n = ::read(fd, buf, sizeof(buf) - 1);
  ::close(fd);
  buf[n > 0 ? n : 0] = 0;
  const char* ab = "[INFO:f(1)] aaaa\n[INFO:f(2)] bbbb\n";
  const char* ba = "[INFO:f(2)] bbbb\n[INFO:f(1)] aaaa\n";
  RMC_ASSERT(strcmp(buf, ab) == 0 || strcmp(buf, ba) == 0, "log holds \"%s\"", buf);
  rmc::outcome(strcmp(buf, ab) == 0 ? 1 : 2);
  ::unlink(path);
}

void sink_scenarios() {
  static const char* const kinds[] = {"name", "ptr_owned", "ptr_borrowed"};
  for (const char* group : {"C09", "C06"}) {
    for (int kind = 0; kind < 3; kind++) {
      for (int v = 0; v < 7; v++) {
        rmc::Scenario s;
        // Lines around the size of stdio's buffer and of larger ones too.
        static const int kLen[] = {12, 12, 12, 12, 600, 3000, 40000};
        const int threads = v == 2 || v == 3 ? 3 : 2, per = v == 1 || v == 3 || v > 3 ? 2 : 1, len = kLen[v];
        s.name = std::string(group) == "C09" ? "" : "hb_";
        s.name += std::string("sink_") + kinds[kind] + "_" + std::to_string(threads) + "x" + std::to_string(per);
        if (v > 3) s.name += "_long_" + std::to_string(len);
        s.group = group;
        s.quick_bound = v == 0 ? 8 : 5;
        s.thorough_bound = v == 0 ? 20 : 10;
        s.body = [kind, threads, per, len] { sink_scenario(kind, threads, per, len); };
        rmc::add(s);
      }
    }
    rmc::Scenario s;
    s.name = std::string(group) == "C09" ? "logger_2" : "hb_logger_2";
    s.group = group;
    s.quick_bound = 6;
    s.thorough_bound = 20;
    s.body = [] { logger_scenario(2); };
    rmc::add(s);
  }
}

// ---- GUIDs -------------------------------------------------------------------
// The random source is replaced: device d of the n-th draw yields a value that
// names the device and the draw, and each device belongs to the thread that
// made it (using another thread's device is an unordered access).
struct Dev { uint32_t id; uint32_t draws; };
int g_devs;
NOTRACE uint32_t next_dev() { return static_cast<uint32_t>(++g_devs); }

void guid_scenario(int threads, int per) {
  char out[4][4][40];
  std::vector<std::thread> ts;
  auto f = [&out, per](int t) {
    for (int k = 0; k < per; k++) {
      rst::Guid g;
      const std::string s = g.AsString();
      RMC_ASSERT(s.size() == 36 && s == std::string(g.AsStringView().value()), "bad text %s", s.c_str());
      RMC_ASSERT(rst::Guid::IsValidOutputString(s), "not valid: %s", s.c_str());
      memcpy(out[t][k], s.c_str(), 37);
    }
  };
  for (int i = 1; i < threads; i++) ts.emplace_back(f, i);
  f(0);
  for (auto& t : ts) t.join();
  // Every GUID used fresh random input: all differ.
  for (int a = 0; a < threads * per; a++)
    for (int b = 0; b < a; b++) {
      RMC_ASSERT(strcmp(out[a / per][a % per], out[b / per][b % per]) != 0, "the same GUID twice: %s", out[a / per][a % per]);
    }
}

}  // namespace

// Model of the random device (see above).
namespace std {
void random_device::_M_init(const std::string&) {
  Dev* d = new Dev;
  rmc::event(3);
  d->id = next_dev();
  d->draws = 0;
  memcpy(reinterpret_cast<char*>(this), &d, sizeof(d));
}
void random_device::_M_fini() {
  Dev* d;
  memcpy(&d, reinterpret_cast<char*>(this), sizeof(d));
  delete d;
}
random_device::result_type random_device::_M_getval() {
  Dev* d;
  memcpy(&d, reinterpret_cast<char*>(this), sizeof(d));
  rmc::yield();
  const uint32_t n = ++d->draws;
  // Draws 1, 2 are the halves of the first word; all bits take part.
  return d->id * 0x9E3779B1u ^ n * 0x85EBCA6Bu;
}
}  // namespace std

namespace {
void guid_scenarios() {
  for (int threads = 2; threads <= 3; threads++)
    for (int per = 1; per <= 2; per++) {
      rmc::Scenario s;
      s.name = "guid_" + std::to_string(threads) + "x" + std::to_string(per);
      s.group = "C23";
      s.quick_bound = threads == 2 ? 6 : 4;
      s.thorough_bound = threads == 2 ? 12 : 7;
      s.body = [threads, per] { guid_scenario(threads, per); };
      rmc::add(s);
    }
}
}  // namespace

namespace rmc {
void register_own_scenarios();  // own.cc
void register_scenarios() {
  const char* d = getenv("RMC_SCRATCH");
  g_scratch = new std::string(d ? d : "/tmp");
  pool_scenarios();
  barrier_scenarios();
  many_scenarios();
  sink_scenarios();
  guid_scenarios();
  register_own_scenarios();
}
}  // namespace rmc
