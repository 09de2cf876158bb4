// Self-tests of the explorer: names starting with "bad_" must violate.
#include "rmc.h"

#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>

namespace rmc {
void register_scenarios() {
  auto t = [](const char* name, std::function<void()> f) {
    Scenario s;
    s.name = name;
    s.group = "SELF";
    s.quick_bound = 3;
    s.body = std::move(f);
    add(s);
  };
  t("bad_race", [] { int x = 0; std::thread a([&] { x++; }); x++; a.join(); });
  t("bad_deadlock", [] {
    std::mutex m, n;
    std::thread a([&] { std::lock_guard l(m); std::lock_guard k(n); });
    { std::lock_guard l(n); std::lock_guard k(m); }
    a.join();
  });
  t("bad_lost_update", [] {
    std::atomic<int> x{0};
    auto f = [&] { int v = x.load(); x.store(v + 1); };
    std::thread a(f), b(f);
    a.join(); b.join();
    RMC_ASSERT(x == 2, "lost update %d", x.load());
  });
  t("bad_spurious", [] {
    std::mutex m; std::condition_variable c; bool r = false;
    std::thread a([&] { std::unique_lock l(m); if (!r) c.wait(l); RMC_ASSERT(r, "spurious"); });
    { std::lock_guard l(m); r = true; }
    c.notify_one();
    a.join();
  });
  t("bad_lost_wakeup", [] {
    std::mutex m; std::condition_variable c; std::atomic<bool> r{false};
    std::thread a([&] { if (!r) { std::unique_lock l(m); c.wait(l); } });
    r = true;
    c.notify_one();
    a.join();
  });
  t("bad_use_after_free", [] {
    auto p = std::make_unique<int>(3);
    std::thread a([q = p.get()] { *q = 4; });
    p.reset();
    a.join();
  });
  t("bad_publish_relaxed", [] {
    int x = 0;
    std::atomic<int> f{0};
    std::thread a([&] { x = 1; f.store(1, std::memory_order_relaxed); });
    if (f.load(std::memory_order_relaxed)) x = 2;
    a.join();
  });
  t("bad_broken_promise_wait", [] {
    std::promise<int> p;
    auto f = p.get_future();
    std::thread a([&] {});
    f.wait();
    a.join();
  });
  t("ok_mutex", [] {
    int x = 0; std::mutex m;
    auto f = [&] { std::lock_guard l(m); x++; };
    std::thread a(f), b(f);
    f();
    a.join(); b.join();
    RMC_ASSERT(x == 3, "x");
    outcome(static_cast<uint64_t>(x));
  });
  t("ok_condition", [] {
    std::mutex m; std::condition_variable c; bool r = false;
    std::thread a([&] { std::unique_lock l(m); while (!r) c.wait(l); });
    { std::lock_guard l(m); r = true; }
    c.notify_one();
    a.join();
  });
  t("ok_publish", [] {
    int x = 0;
    std::atomic<int> f{0};
    std::thread a([&] { x = 1; f.store(1, std::memory_order_release); });
    if (f.load(std::memory_order_acquire)) x = 2;
    a.join();
  });
  t("ok_shared_ptr", [] {
    auto p = std::make_shared<int>(3);
    std::thread a([p]() mutable { p.reset(); });
    p.reset();
    a.join();
  });
  t("ok_spin", [] { std::atomic<int> f{0}; std::thread a([&] { while (!f.load()) {} }); f = 1; a.join(); });
  t("ok_thread_local", [] {
    static thread_local int k = 0;
    k = 5;
    std::thread a([&] { RMC_ASSERT(k == 0, "tls"); k = 1; });
    a.join();
    RMC_ASSERT(k == 5, "tls2");
  });
  t("ok_future", [] {
    std::promise<int> p;
    auto f = p.get_future();
    int x = 0;
    std::thread a([&] { x = 4; p.set_value(7); });
    RMC_ASSERT(f.get() == 7, "future");
    RMC_ASSERT(x == 4, "future");
    a.join();
  });
  t("ok_shared_mutex", [] {
    std::shared_mutex m;
    int x = 0;
    std::thread a([&] { std::shared_lock l(m); outcome(static_cast<uint64_t>(x + 1)); });
    { std::unique_lock l(m); x = 1; }
    a.join();
  });
  t("ok_call_once", [] {
    std::once_flag f;
    int x = 0;
    auto g = [&] { std::call_once(f, [&] { x++; }); RMC_ASSERT(x == 1, "once"); };
    std::thread a(g);
    g();
    a.join();
  });
}
}  // namespace rmc
