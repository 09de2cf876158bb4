// C08 (polling task runner) and C10 (one-shot timer).
#include <algorithm>
#include <chrono>
#include <functional>
#include <iterator>
#include <memory>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"
#include "seq/seq.h"

using rst::OneShotTimer;
using rst::PollingTaskRunner;
using seq::choose;
using seq::flip;
using seq::note;
using std::chrono::nanoseconds;

namespace {

// Histories of posts, clock steps and runs.  The bound is the number of
// operations, those done by running tasks included.
struct Poll {
  struct Item {
    int64_t due;
    int id;
  };
  explicit Poll(int64_t start, bool shallow) : shallow_(shallow), now_(start) {
    runner_ = std::make_unique<PollingTaskRunner>([this] { return nanoseconds(now_); });
  }

  void Post(int64_t delay, bool plain) {
    const int id = next_++;
    note("%spost %d after %d", inside_ ? "  in task: " : "", id, static_cast<int>(delay));
    seq::step();
    std::function<void()> f = [this, id, t = seq::Tok(id)] {
      SEQ_CHECK(t.v() == id, "task %d runs with captured state of %d", id, t.v());
      OnRun(id);
    };
    if (plain)
      runner_->PostTask(std::move(f));
    else
      runner_->PostDelayedTask(std::move(f), nanoseconds(delay));
    queued_.push_back({now_ + delay, id});
  }

  void OnRun(int id) {
    seq::step();
    note("  runs %d", id);
    seq::observe(id);
    SEQ_CHECK(inside_run_, "task %d runs outside of RunPendingTasks()", id);
    SEQ_CHECK(!expected_.empty(), "task %d runs though nothing is to run any more", id);
    SEQ_CHECK(expected_.front() == id, "task %d runs instead of %d", id, expected_.front());
    expected_.erase(expected_.begin());
    inside_ = true;
    if (left_ > 0) {
      switch (choose(shallow_ ? 2 : 4)) {
        case 1:
          left_--;
          Post(0, true);
          break;
        case 2:
          left_--;
          Post(1, false);
          break;
        case 3:
          left_--;
          note("  in task: clock +1");
          now_ += 1;
          break;
        default:
          break;
      }
    }
    inside_ = false;
  }

  void RunAll() {
    seq::step();
    std::vector<Item> due;
    for (auto it = queued_.begin(); it != queued_.end();) {
      if (it->due <= now_) {
        due.push_back(*it);
        it = queued_.erase(it);
      } else {
        ++it;
      }
    }
    std::stable_sort(due.begin(), due.end(), [](const Item& a, const Item& b) { return a.due < b.due; });
    for (auto& i : due) expected_.push_back(i.id);
    note("run at %lld", static_cast<long long>(now_));
    inside_run_ = true;
    runner_->RunPendingTasks();
    inside_run_ = false;
    SEQ_CHECK(expected_.empty(), "RunPendingTasks() returned without running task %d", expected_.front());
    SEQ_CHECK(seq::Live::live == static_cast<int>(queued_.size()), "%d task objects are alive, %zu tasks are queued",
              seq::Live::live, queued_.size());
  }

  void Drive() {
    left_ = seq::bound();
    const int64_t t0 = now_;
    while (left_ > 0) {
      left_--;
      switch (choose(shallow_ ? 4 : 7)) {
        case 0:
          RunAll();
          break;
        case 1:
          Post(1, false);
          break;
        case 2:
          Post(0, true);
          break;
        case 3:
          note("clock +1");
          now_ += 1;
          break;
        case 4:
          Post(0, false);
          break;
        case 5:
          Post(3, false);
          break;
        case 6:
          note("clock +2");
          now_ += 2;
          break;
      }
      uint64_t h = static_cast<uint64_t>(now_ - t0);
      for (auto& i : queued_) h = seq::mix(h, static_cast<uint64_t>(i.due - t0));
      seq::state(h);
    }
    // Every task that was not run yet runs once the clock has passed it.
    if (flip()) {
      now_ += 10;
      RunAll();
      now_ += 10;
      RunAll();
      SEQ_CHECK(queued_.empty(), "model: tasks left");
    }
    runner_.reset();
    SEQ_CHECK(seq::Live::live == 0, "%d task objects survive the runner", seq::Live::live);
  }

  const bool shallow_;
  int64_t now_;
  std::unique_ptr<PollingTaskRunner> runner_;
  std::vector<Item> queued_;
  std::vector<int> expected_;
  bool inside_run_ = false, inside_ = false;
  int next_ = 0, left_ = 0;
};

// Histories of one or two timers on one runner.
struct Timers {
  struct Model {
    int start = -1;  // The latest start, -1: none.
    bool running = false;
    int64_t due = 0;
    bool exists = false;
    bool in_callback = false;
  };
  explicit Timers(int n) : n_(n) {
    for (int i = 0; i < n_; i++) Create(i);
  }

  void Create(int i) {
    timer_[i] = std::make_unique<OneShotTimer>([this]() -> rst::TaskRunner& {
      return runner_;
    });
    m_[i] = Model();
    m_[i].exists = true;
    Check();
  }

  void Check() {
    for (int i = 0; i < n_; i++) {
      if (m_[i].exists) {
        SEQ_CHECK(timer_[i]->IsRunning() == m_[i].running, "IsRunning() of timer %d is %d, not %d", i,
                  timer_[i]->IsRunning(), m_[i].running);
      }
    }
  }

  void Start(int i, int64_t delay) {
    const int id = next_++;
    note("%sstart %d of timer %d after %d", depth_ ? "  in callback: " : "", id, i, static_cast<int>(delay));
    seq::step();
    timer_[i]->Start([this, i, id, t = seq::Tok(id)] {
      SEQ_CHECK(t.v() == id, "callback %d has the state of %d", id, t.v());
      OnFire(i, id);
      SEQ_CHECK(t.v() == id, "callback %d was destroyed while running", id);
    }, nanoseconds(delay));
    m_[i].start = id;
    m_[i].running = true;
    m_[i].due = now_ + delay;
    Check();
  }

  void Fire(int i) {
    note("%sfire timer %d now", depth_ ? "  in callback: " : "", i);
    seq::step();
    const int want = m_[i].start;
    const int before = fired_;
    may_fire_ = i;
    timer_[i]->FireNow();
    may_fire_ = -1;
    SEQ_CHECK(fired_ > before, "FireNow() did not run callback %d", want);
    Check();
  }

  void Destroy(int i) {
    note("%sdestroy timer %d", depth_ ? "  in callback: " : "", i);
    seq::step();
    m_[i].exists = false;
    m_[i].running = false;
    timer_[i].reset();
    if (!m_[i].in_callback) m_[i].start = -1;
  }

  void OnFire(int i, int id) {
    fired_++;
    seq::step();
    note("  callback %d", id);
    seq::observe(seq::mix(static_cast<uint64_t>(id), static_cast<uint64_t>(now_)));
    Model& m = m_[i];
    SEQ_CHECK(m.exists, "callback %d runs after its timer was destroyed", id);
    SEQ_CHECK(m.running, "callback %d runs though its timer is not running", id);
    SEQ_CHECK(m.start == id, "callback %d runs, the latest start is %d", id, m.start);
    if (may_fire_ == i) {
      may_fire_ = -1;
    } else {
      SEQ_CHECK(in_run_, "callback %d runs outside of FireNow() and RunPendingTasks()", id);
      SEQ_CHECK(m.due <= run_now_, "callback %d runs before its delay", id);
      SEQ_CHECK(id < run_limit_, "callback %d runs in the run it was started in", id);
    }
    m.running = false;
    m.start = -1;
    Check();
    depth_++;
    for (int k = 0; k < 2 && left_ > 0; k++) {
      const int c = choose(m_[i].exists ? (m_[i].running ? 5 : 4) : 2);
      if (c == 0) break;
      left_--;
      if (!m_[i].exists) {
        note("  in callback: create timer %d", i);
        Create(i);
        continue;
      }
      if (c == 1) Start(i, 0);
      else if (c == 2) Start(i, 1);
      else if (c == 3) Destroy(i);
      else Fire(i);
    }
    if (n_ > 1 && left_ > 0) {
      // And the other timer.
      const int o = 1 - i;
      const int c = choose(m_[o].exists ? (m_[o].running ? 4 : 3) : 1);
      if (c) left_--;
      if (c == 1) Start(o, 0);
      if (c == 2) Destroy(o);
      if (c == 3) Fire(o);
    }
    depth_--;
  }

  void Run() {
    seq::step();
    note("run at %d", static_cast<int>(now_));
    run_now_ = now_;
    run_limit_ = next_;
    in_run_ = true;
    runner_.RunPendingTasks();
    in_run_ = false;
    for (int i = 0; i < n_; i++) {
      SEQ_CHECK(!m_[i].running || m_[i].due > run_now_ || m_[i].start >= run_limit_,
                "callback %d of timer %d is due but was not run", m_[i].start, i);
    }
    Check();
  }

  void Drive() {
    left_ = seq::bound();
    while (left_ > 0) {
      left_--;
      const int c = choose(4 + 3 * n_);
      if (c < 2) {
        now_ += c;
        Run();
      } else if (c == 2) {
        now_ += 2;
        Run();
      } else if (c == 3) {
        now_ += 1;
        note("clock +1");
      } else {
        const int i = (c - 4) / 3, k = (c - 4) % 3;
        if (!m_[i].exists) {
          if (k != 0) seq::done();
          note("create timer %d", i);
          Create(i);
        } else if (k == 2 && flip()) {
          Destroy(i);
        } else if (k == 2) {
          if (!m_[i].running) seq::done();
          Fire(i);
        } else {
          Start(i, k == 0 ? 1 : flip() ? 0 : 2);
        }
      }
      uint64_t h = 0;
      for (int i = 0; i < n_; i++)
        h = seq::mix(h, m_[i].exists ? (m_[i].running ? 2 + static_cast<uint64_t>(m_[i].due - now_ + 8) : 1) : 0);
      seq::state(h);
    }
    now_ += 10;
    Run();
    Run();
    for (int i = 0; i < n_; i++) {
      const bool was = m_[i].exists;
      if (was) Destroy(i);
    }
    now_ += 10;
    Run();
    SEQ_CHECK(seq::Live::live == 0, "%d callbacks are never destroyed", seq::Live::live);
  }

  const int n_;
  int64_t now_ = 100;
  PollingTaskRunner runner_{[this] { return nanoseconds(now_); }};
  std::unique_ptr<OneShotTimer> timer_[2];
  Model m_[2];
  int next_ = 0, left_ = 0, depth_ = 0, fired_ = 0, may_fire_ = -1, run_limit_ = 0;
  int64_t run_now_ = 0;
  bool in_run_ = false;
};

// A timer that is started very often: no stale callback ever runs.
void many_starts() {
  static const int kCounts[] = {100, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  const int n = kCounts[choose(16)];
  const int pattern = choose(4);  // Of delays.
  const int between = choose(3);  // Nothing, runs, or FireNow().
  note("%d starts, delays by pattern %d, %d between", n, pattern, between);
  int64_t now = 5;
  PollingTaskRunner r([&now] { return nanoseconds(now); });
  OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  int got = -1, calls = 0, last = -1;
  bool due = false;
  for (int i = 0; i < n; i++) {
    const int64_t d = pattern == 0 ? 1000000 : pattern == 1 ? n - i + 10 : pattern == 2 ? i + 1 : (i % 3) + 1;
    seq::step();
    t.Start([&, i] {
      got = i;
      calls++;
      SEQ_CHECK(!t.IsRunning(), "the timer runs in its callback");
    }, nanoseconds(d));
    last = i;
    due = true;
    SEQ_CHECK(t.IsRunning(), "the timer does not run after a start");
    if (between == 1 && i % 50 == 49) {
      // Everything becomes due but the latest start.
      now += d - 1;
      const int before = calls;
      r.RunPendingTasks();
      SEQ_CHECK(calls == before, "callback %d ran before its time", got);
      if (pattern == 0 && i % 100 == 99) {
        now += 1;
        r.RunPendingTasks();
        SEQ_CHECK(calls == before + 1 && got == last, "callback %d ran, the latest start is %d", got, last);
        due = false;
      }
    }
    if (between == 2 && i % 64 == 63) {
      const int before = calls;
      t.FireNow();
      SEQ_CHECK(calls == before + 1 && got == last, "callback %d ran, the latest start is %d", got, last);
      due = false;
    }
  }
  now += 2000000;
  const int before = calls;
  r.RunPendingTasks();
  SEQ_CHECK(calls == before + (due ? 1 : 0), "%d callbacks ran instead of %d", calls - before, due ? 1 : 0);
  if (due) SEQ_CHECK(got == last, "callback %d ran, the latest start is %d", got, last);
  SEQ_CHECK(!t.IsRunning(), "the timer still runs");
  seq::state(static_cast<uint64_t>(n * 16 + pattern * 4 + between));
  seq::observe(calls);
}

// n tasks with all combinations of small delays, one run: pure ordering.
void order() {
  int64_t now = -7;
  PollingTaskRunner r([&now] { return nanoseconds(now); });
  std::vector<std::pair<int64_t, int>> q;
  std::vector<int> got;
  const int n = seq::bound();
  for (int i = 0; i < n; i++) {
    const int64_t d = choose(4);
    note("delay %d", static_cast<int>(d));
    q.emplace_back(now + d, i);
    r.PostDelayedTask([&got, i] { got.push_back(i); }, nanoseconds(d));
    seq::step();
  }
  std::stable_sort(q.begin(), q.end(), [](auto& a, auto& b) { return a.first < b.first; });
  // First what is due after 0, 1 or 2, then the rest.
  now += choose(3);
  size_t k = 0;
  while (k < q.size() && q[k].first <= now) k++;
  r.RunPendingTasks();
  SEQ_CHECK(got.size() == k, "%zu tasks ran, %zu are due", got.size(), k);
  now += 5;
  r.RunPendingTasks();
  SEQ_CHECK(got.size() == q.size(), "%zu tasks ran of %zu", got.size(), q.size());
  uint64_t h = 0;
  for (size_t i = 0; i < got.size(); i++) {
    SEQ_CHECK(got[i] == q[i].second, "task %d runs in place of %d", got[i], q[i].second);
    h = seq::mix(h, static_cast<uint64_t>(got[i]));
  }
  seq::state(h);
  seq::observe(h);
  r.RunPendingTasks();
  SEQ_CHECK(got.size() == q.size(), "a task ran twice");
}

// Delays and clocks of every magnitude.
constexpr int64_t kUnits[] = {1000, 1000000, 1000000000, int64_t{1} << 31, int64_t{1} << 32, 3600000000000,
                              (int64_t{1} << 53), 31536000000000000, int64_t{1} << 60};
constexpr int64_t kClocks[] = {0, -3, 1700000000000000001, -(int64_t{1} << 61)};
// All moments at which one of the delays below ends, and those around them.
std::vector<int64_t> moments(int64_t unit) {
  return {0, 1, 2, unit / 2, unit - 2, unit - 1, unit, unit + 1, unit + 2, 2 * unit - 1, 2 * unit, 2 * unit + 1,
          3 * unit + 2, 4 * unit + 4};
}
int64_t magnitude(int64_t unit) {
  const int64_t d[] = {0, 1, unit - 1, unit, unit + 1, 2 * unit};
  return d[choose(6)];
}

void far_order() {
  const int64_t unit = kUnits[choose(static_cast<int>(std::size(kUnits)))];
  const int64_t t0 = kClocks[choose(static_cast<int>(std::size(kClocks)))];
  int64_t now = t0;
  PollingTaskRunner r([&now] { return nanoseconds(now); });
  std::vector<std::pair<int64_t, int>> q;
  std::vector<int> got;
  int next = 0;
  auto post = [&] {
    const int64_t d = magnitude(unit);
    const int id = next++;
    note("at %lld: post %d after %lld", static_cast<long long>(now), id, static_cast<long long>(d));
    seq::step();
    q.emplace_back(now + d, id);
    r.PostDelayedTask([&got, id] { got.push_back(id); }, nanoseconds(d));
  };
  for (int i = 0; i < seq::bound(); i++) post();
  const int later = choose(3);  // When the last task is posted.
  uint64_t h = 0;
  size_t k = 0;
  for (int64_t m : moments(unit)) {
    if (m == (later == 0 ? 0 : later == 1 ? unit - 1 : unit)) post();
    now = t0 + m;
    std::vector<std::pair<int64_t, int>> due, rest;
    for (auto& e : q) (e.first <= now ? due : rest).push_back(e);
    std::stable_sort(due.begin(), due.end(), [](auto& a, auto& b) { return a.first < b.first; });
    q = rest;
    got.clear();
    r.RunPendingTasks();
    SEQ_CHECK(got.size() == due.size(), "at %lld: %zu tasks ran, %zu were due", static_cast<long long>(now), got.size(),
              due.size());
    for (size_t i = 0; i < got.size(); i++) {
      SEQ_CHECK(got[i] == due[i].second, "at %lld: task %d runs in place of %d", static_cast<long long>(now), got[i],
                due[i].second);
      h = seq::mix(h, static_cast<uint64_t>(got[i]) + 16 * k);
    }
    k++;
  }
  SEQ_CHECK(q.empty(), "model: tasks left");
  seq::state(h);
  seq::observe(h);
}

void far_timer() {
  const int64_t unit = kUnits[choose(static_cast<int>(std::size(kUnits)))];
  const int64_t t0 = kClocks[choose(static_cast<int>(std::size(kClocks)))];
  int64_t now = t0;
  PollingTaskRunner r([&now] { return nanoseconds(now); });
  OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  int id = 0, got = -1;
  int64_t due = 0;
  bool running = false;
  auto start = [&] {
    const int64_t d = magnitude(unit);
    note("at %lld: start %d after %lld", static_cast<long long>(now), ++id, static_cast<long long>(d));
    seq::step();
    t.Start([&got, k = id] {
      SEQ_CHECK(got < 0, "two callbacks run");
      got = k;
    }, nanoseconds(d));
    due = now + d;
    running = true;
  };
  start();
  const int second = choose(5);  // When it is started again, if at all.
  uint64_t h = 0;
  for (int64_t m : moments(unit)) {
    if (m == (second == 1 ? 0 : second == 2 ? 1 : second == 3 ? unit - 1 : second == 4 ? unit : -1)) start();
    now = t0 + m;
    got = -1;
    r.RunPendingTasks();
    const int want = running && due <= now ? id : -1;
    SEQ_CHECK(got == want, "at %lld: callback %d runs instead of %d", static_cast<long long>(now), got, want);
    if (want >= 0) running = false;
    SEQ_CHECK(t.IsRunning() == running, "IsRunning() is %d", t.IsRunning());
    h = seq::mix(h, static_cast<uint64_t>(got));
  }
  SEQ_CHECK(!running, "model: still running");
  seq::state(h);
  seq::observe(h);
}

// Many tasks in one queue: every size of a list, every pattern of delays and
// every pattern of tasks posting while they run.
void many() {
  static constexpr int kSizes[] = {3, 8, 9, 10, 16, 17, 18, 31, 33, 63, 65, 127, 129, 255, 257, 300, 1025, 4099, 33000, 65600};
  static constexpr int kQuick = static_cast<int>(std::size(kSizes));
  const int si = choose(seq::bound() == 1 ? kQuick - 2 : kQuick);
  const int n = kSizes[si];
  const int pattern = choose(6);
  const int posting = n > 5000 ? 2 * choose(2) : choose(4);
  note("%d tasks, delays by pattern %d, posting by pattern %d", n, pattern, posting);
  auto delay = [&](int i) -> int64_t {
    switch (pattern) {
      case 1: return i % 2;
      case 2: return n - i;
      case 3: return i;
      case 4: return i % 7;
      case 5: return (i * 37 + 11) % 101;
      default: return 0;
    }
  };
  int64_t now = 50;
  PollingTaskRunner r([&now] { return nanoseconds(now); });
  std::vector<std::pair<int64_t, int>> q;
  std::vector<int> got;
  int next = 0;
  bool more = true;
  std::function<void(int64_t)> post = [&](int64_t d) {
    const int id = next++;
    seq::step();
    q.emplace_back(now + d, id);
    r.PostDelayedTask([&, id] {
      got.push_back(id);
      const bool posts = more && (posting == 1 || (posting == 2 && id == 0) || (posting == 3 && id % 5 == 4));
      if (posts) post(id % 3 == 2 ? 1 : 0);
    }, nanoseconds(d));
  };
  for (int i = 0; i < n; i++) post(delay(i));
  // Three runs: the first part of the tasks is due, then all, then what the
  // tasks of the second have posted.
  uint64_t h = static_cast<uint64_t>(n);
  for (int run = 0; run < 3; run++) {
    if (run == 1) now += n + 200;
    if (run == 2) {
      now += 2;
      more = false;
    }
    std::vector<std::pair<int64_t, int>> due, rest;
    for (auto& e : q) (e.first <= now ? due : rest).push_back(e);
    std::stable_sort(due.begin(), due.end(), [](auto& a, auto& b) { return a.first < b.first; });
    q = rest;
    got.clear();
    r.RunPendingTasks();
    SEQ_CHECK(got.size() == due.size(), "run %d: %zu tasks ran, %zu were due", run, got.size(), due.size());
    for (size_t i = 0; i < got.size(); i++) {
      SEQ_CHECK(got[i] == due[i].second, "run %d: task %d runs in place of %d", run, got[i], due[i].second);
      h = seq::mix(h, static_cast<uint64_t>(got[i]));
    }
  }
  SEQ_CHECK(q.empty(), "model: tasks left");
  seq::state(h);
  seq::observe(h);
}

SEQ_SCENARIOS(tasks) {
  seq::add("C08", "polling_many", 2, 2, many);
  seq::add("C08", "polling_histories", 7, 9, [] { Poll(1000, false).Drive(); });
  seq::add("C08", "polling_long_histories", 10, 13, [] { Poll(0, true).Drive(); });
  seq::add("C08", "polling_order", 9, 12, order);
  seq::add("C08", "polling_far", 3, 5, far_order);
  seq::add1("C10", "timer_far", far_timer);
  seq::add1("C10", "timer_many_starts", many_starts);
  seq::add("C10", "one_timer", 7, 9, [] { Timers(1).Drive(); });
  seq::add("C10", "two_timers", 5, 7, [] { Timers(2).Drive(); });
}

}  // namespace
