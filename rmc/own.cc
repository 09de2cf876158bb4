// C35: what different threads do with objects of their own.
//
// Each component is used by two or three threads at once, every thread with
// objects of its own.  The library's parts are linked against the race
// detector, so state that they share behind the scenes (static buffers, caches,
// counters, reused registers) shows as a race or as a wrong result.
#include <dirent.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "rmc/rmc.h"
#include "rst/bind/bind.h"
#include "rst/defer/defer.h"
#include "rst/files/file_utils.h"
#include "rst/guid/guid.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/logger.h"
#include "rst/memory/memory.h"
#include "rst/memory/weak_ptr.h"
#include "rst/not_null/not_null.h"
#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"
#include "rst/stl/algorithm.h"
#include "rst/stl/function.h"
#include "rst/stl/hash.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/vector_builder.h"
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"
#include "rst/timer/one_shot_timer.h"
#include "rst/type/type.h"
#include "rst/value/value.h"

namespace {

// What the component yielded must be what it yields for this thread alone.
using Use = std::string (*)(int who);

std::string num(int who) { return who == 0 ? "1111" : who == 1 ? "2222" : "3333"; }

std::string use_str_cat(int who) {
  const int n = who * 1000 + 7;
  std::string a = rst::StrCat({n, "-", 0.5 * n, std::string(20, static_cast<char>('a' + who)), -n, 'c', who == 0});
  const std::string b = rst::StrCat({a, 1234567890123ll, a});
  return rst::StrCat({b, "|", a});
}

std::string use_format(int who) {
  const std::string a = rst::Format("{}:{}:{{}}", {who * 1001 + 3, 0.25 + who});
  const std::string long_text(300, static_cast<char>('p' + who));
  return rst::Format("<{}{}>", {a, long_text}) + rst::Format("{}", {a});
}

rst::Value tree(int who) {
  rst::Value v(rst::Value::Type::kObject);
  v.SetPath("a.b.c", rst::Value(num(who)));
  v.SetPath("a.b.d", rst::Value(who));
  rst::Value::Array arr;
  for (int i = 0; i < 5; i++) arr.emplace_back(who * 10 + i);
  v.SetKey("arr", rst::Value(std::move(arr)));
  v.SetKey("x", rst::Value(who == 1));
  return v;
}

std::string dump(const rst::Value& v) {
  switch (v.type()) {
    case rst::Value::Type::kNull: return "null";
    case rst::Value::Type::kBool: return v.GetBool() ? "t" : "f";
    case rst::Value::Type::kNumber: return v.IsInt() ? std::to_string(v.GetInt()) : v.IsInt64() ? std::to_string(v.GetInt64()) : std::to_string(v.GetDouble());
    case rst::Value::Type::kString: return "'" + v.GetString() + "'";
    case rst::Value::Type::kArray: {
      std::string s = "[";
      for (auto& e : v.GetArray()) s += dump(e) + ",";
      return s + "]";
    }
    case rst::Value::Type::kObject: {
      std::string s = "{";
      for (auto& e : v.GetObject()) s += e.first + ":" + dump(e.second) + ",";
      return s + "}";
    }
  }
  return "?";
}

std::string read_value(const rst::Value& v) {
  std::string s = dump(v);
  auto p = v.FindPath("a.b.c");
  s += p != nullptr ? dump(*p) : "none";
  auto q = v.FindPath("a.z.c");
  s += q != nullptr ? dump(*q) : "none";
  s += std::to_string(v.FindBoolKey("x").value_or(false));
  auto k = v.FindArrayKey("arr");
  s += k != nullptr ? std::to_string(k->GetArray().size()) : "none";
  s += std::to_string(v == v) + std::to_string(v < v);
  return s;
}

std::string use_value(int who) {
  rst::Value v = tree(who);
  rst::Value c = v.Clone();
  c.RemoveKey("x");
  std::string s = read_value(v) + read_value(c) + std::to_string(v == c) + std::to_string(v < c);
  v = std::move(c);
  rst::Value w(std::move(v));
  w.SetPath("a.b.c", rst::Value("other"));
  return s + read_value(w);
}

std::string use_guid_text(int who) {
  const std::string s = std::string(8, static_cast<char>('a' + who)) + "-0123-4567-89ab-" + std::string(12, static_cast<char>('0' + who));
  return std::to_string(rst::Guid::IsValid(s)) + std::to_string(rst::Guid::IsValidOutputString(s)) +
         std::to_string(rst::Guid::IsValid(s + "x"));
}

std::string use_guid(int) {
  rst::Guid g;
  const std::string s = g.AsString();
  // Random; only consistent.
  return std::to_string(s == std::string(g.AsStringView().value())) + std::to_string(rst::Guid::IsValidOutputString(s));
}

class MyError : public rst::ErrorInfo<MyError> {
 public:
  explicit MyError(std::string&& m) : m_(std::move(m)) {}
  ~MyError() override = default;
  const std::string& AsString() const override { return m_; }
  static char id_;

 private:
  const std::string m_;
};
char MyError::id_ = 0;

rst::Status fails(int who) {
  if (who != 1) return rst::MakeStatus<MyError>("error " + num(who));
  return rst::Status::OK();
}
rst::StatusOr<std::string> yields(int who, bool ok) {
  if (!ok) return rst::MakeStatus<MyError>("none " + num(who));
  return "value " + num(who);
}
rst::Status forwards(int who) {
  RST_TRY(fails(who));
  RST_TRY_CREATE(auto, s, yields(who, false));
  return rst::MakeStatus<MyError>("not reached " + *s);
}

std::string use_status(int who) {
  std::string out;
  for (int i = 0; i < 2; i++) {
    rst::Status s = i == 0 ? fails(who) : forwards(who);
    if (s.err()) {
      out += s.GetError()->AsString();
      out += rst::dyn_cast<MyError>(s.GetError()) != nullptr ? "+" : "-";
      out += rst::dyn_cast<rst::FileError>(s.GetError()) != nullptr ? "+" : "-";
    } else {
      out += "ok";
    }
    rst::Status t = std::move(s);
    out += t.err() ? "e" : "o";
  }
  auto v = yields(who, true);
  out += v.err() ? v.status().GetError()->AsString() : *v;
  auto w = std::move(v);
  out += w.err() ? "e" : *w;
  return out;
}

std::string use_hash(int who) {
  return std::to_string(rst::HashCombine({who, num(who), 3})) + "," + std::to_string(rst::HashCombine({})) + "," +
         std::to_string(rst::HashCombine({num(who)}));
}

struct Obj : rst::SupportsWeakPtr<Obj> {
  int n = 0;
  int add(int k) { return n += k; }
  void bump(int k) { n += k; }
};

std::string use_weak(int who) {
  std::string s;
  auto o = std::make_unique<Obj>();
  o->n = who;
  rst::WeakPtr<Obj> a = o->AsWeakPtr();
  rst::WeakPtr<Obj> b = a;
  auto f = rst::Bind(&Obj::bump, o->AsWeakPtr(), 10);
  f();
  auto p = b.GetNullable();
  s += p != nullptr ? std::to_string(p->n) : "none";
  rst::WeakPtr<Obj> c = std::move(a);
  o.reset();
  f();
  auto q = c.GetNullable();
  s += q != nullptr ? "alive" : "gone";
  return s;
}

std::string use_not_null(int who) {
  std::string s;
  int n = who, m = who + 5;
  rst::NotNull<int*> p(&n);
  rst::Nullable<int*> q(&m);
  s += std::to_string(*p);
  if (q != nullptr) s += std::to_string(*q);
  rst::NotNull<std::unique_ptr<int>> u(std::make_unique<int>(who + 9));
  std::unique_ptr<int> t = std::move(u).Take();
  s += std::to_string(*t);
  rst::Nullable<std::shared_ptr<int>> sh(std::make_shared<int>(who + 11));
  rst::Nullable<std::shared_ptr<int>> sh2 = sh;
  if (sh2 != nullptr) s += std::to_string(*sh2);
  return s;
}

std::string use_preferences(int who) {
  rst::Preferences p(std::make_unique<rst::MemoryPreferencesStore>());
  p.RegisterIntPreference("a.i", who);
  p.RegisterStringPreference("a.s", "default " + num(who));
  p.RegisterBoolPreference("b", who == 1);
  p.RegisterDoublePreference("d", 0.5 * who);
  std::string s = std::to_string(p.GetInt("a.i")) + p.GetString("a.s");
  p.SetInt("a.i", who + 100);
  p.SetString("a.s", "set " + num(who));
  s += std::to_string(p.GetInt("a.i")) + p.GetString("a.s") + std::to_string(p.GetBool("b")) + std::to_string(p.GetDouble("d"));
  return s;
}

std::string use_polling(int who) {
  std::chrono::nanoseconds now(0);
  std::string s;
  rst::PollingTaskRunner r([&now] { return now; });
  r.PostDelayedTask([&s, who] { s += "late" + std::to_string(who); }, std::chrono::nanoseconds(5));
  r.PostTask([&s, who] { s += "now" + std::to_string(who); });
  r.PostTask([&s, &r] { r.PostTask([&s] { s += "posted"; }); });
  for (int i = 0; i < 3; i++) {
    r.RunPendingTasks();
    now += std::chrono::nanoseconds(3);
  }
  return s;
}

std::string use_timer(int who) {
  std::chrono::nanoseconds now(0);
  std::string s;
  rst::PollingTaskRunner r([&now] { return now; });
  rst::OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  t.Start([&s] { s += "dropped"; }, std::chrono::nanoseconds(1));
  t.Start([&s, who] { s += "fired" + std::to_string(who); }, std::chrono::nanoseconds(2));
  s += std::to_string(t.IsRunning());
  r.RunPendingTasks();
  now += std::chrono::nanoseconds(3);
  r.RunPendingTasks();
  s += std::to_string(t.IsRunning());
  t.Start([&s] { s += "at once"; }, std::chrono::nanoseconds(1));
  t.FireNow();
  return s;
}

std::string use_misc(int who) {
  std::string s;
  {
    RST_DEFER([&s] { s += "left"; });
    s += "in";
  }
  std::function<int(int)> f = [who](int k) { return who + k; };
  auto g = rst::TakeFunction(std::move(f));
  s += std::to_string(g(3)) + (f ? "kept" : "taken");
  std::string r;
  rst::StringResizeUninitialized(&r, 9);
  for (auto& c : r) c = static_cast<char>('a' + who);
  s += r;
  std::vector<int> v = {3 + who, 1, 2};
  rst::c_sort(v);
  for (int i : v) s += std::to_string(i);
  using T = rst::Type<struct TTag, std::string>;
  T a(num(who)), b(num(0));
  s += std::to_string(a == b) + std::to_string(a < b) + a.value();
  return s;
}

std::string scratch_file(int who) {
  const char* d = getenv("RMC_SCRATCH");
  return std::string(d ? d : "/tmp") + "/own." + std::to_string(getpid()) + "." + std::to_string(who);
}

// Executions that were cut off leave files, with names that come again.
void clear_files() {
  const char* env = getenv("RMC_SCRATCH");
  const std::string dir = env ? env : "/tmp", mine = "own." + std::to_string(getpid()) + ".";
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d))
    if (strncmp(e->d_name, mine.c_str(), mine.size()) == 0) ::unlink((dir + "/" + e->d_name).c_str());
  closedir(d);
}

std::string use_files(int who) {
  const std::string path = scratch_file(who);
  std::string s;
  std::string data = num(who);
  for (int i = 0; i < 8; i++) data += data;
  auto w = rst::WriteFile(path.c_str(), data);
  s += w.err() ? "failed" : "written";
  auto r = rst::ReadFile(path);
  s += r.err() ? "failed" : *r == data ? "same" : "other";
  auto wi = rst::WriteImportantFile(path, data.substr(who + 1));
  s += wi.err() ? "failed" : "written";
  auto r2 = rst::ReadFile(path);
  s += r2.err() ? "failed" : *r2 == data.substr(who + 1) ? "same" : "other";
  ::unlink(path.c_str());
  auto r3 = rst::ReadFile(path);
  s += r3.err() ? "failed" : "read";
  return s;
}

std::string use_sink(int who) {
  const std::string path = scratch_file(who) + ".log";
  std::string s;
  {
    auto sink = rst::FileNameSink::Create(path.c_str());
    if (sink.err()) return "none";
    (*sink)->Log("one " + num(who));
    (*sink)->Log("two " + num(who));
  }
  auto r = rst::ReadFile(path);
  s += r.err() ? "failed" : *r;
  ::unlink(path.c_str());
  return s;
}

std::string use_barrier(int who) {
  rst::Barrier b(2);
  b.CountDown();
  b.CountDown();
  b.Wait();
  return std::to_string(who);
}

std::string use_pool(int who) {
  int a = 0, b = 0, c = 0;
  {
    rst::Barrier done(3);
    rst::ThreadPoolTaskRunner r(1, [] { return std::chrono::steady_clock::now().time_since_epoch(); },
                                std::chrono::seconds(1));
    r.PostTask([&] { a = who + 1; done.CountDown(); });
    r.PostDelayedTask([&] { b = a + 1; done.CountDown(); }, std::chrono::milliseconds(1));
    r.PostDelayedTask([&] { c = b + 1; done.CountDown(); }, std::chrono::milliseconds(1));
    done.Wait();
  }
  return std::to_string(a) + std::to_string(b) + std::to_string(c);
}

struct Component {
  const char* name;
  Use use;
  bool io;
};
const Component kComponents[] = {
    {"str_cat", use_str_cat, false},       {"format", use_format, false},   {"value", use_value, false},
    {"guid_text", use_guid_text, false},   {"guid", use_guid, false},       {"status", use_status, false},
    {"hash", use_hash, false},             {"weak", use_weak, false},       {"not_null", use_not_null, false},
    {"preferences", use_preferences, false}, {"polling", use_polling, false}, {"timer", use_timer, false},
    {"misc", use_misc, false},             {"files", use_files, true},      {"sink", use_sink, true},
    {"barrier", use_barrier, false},       {"pool", use_pool, false},
};
const int kCount = sizeof(kComponents) / sizeof(kComponents[0]);

void own(const std::vector<Use>& uses, bool io) {
  if (io) clear_files();
  const int n = static_cast<int>(uses.size());
  std::vector<std::string> got(uses.size());
  std::vector<std::thread> ts;
  for (int i = 1; i < n; i++)
    ts.emplace_back([&got, &uses, i] { got[static_cast<size_t>(i)] = uses[static_cast<size_t>(i)](i); });
  got[0] = uses[0](0);
  for (auto& t : ts) t.join();
  for (int i = 0; i < n; i++) {
    const std::string want = uses[static_cast<size_t>(i)](i);
    RMC_ASSERT(got[static_cast<size_t>(i)] == want, "thread %d has \"%.80s\", alone it has \"%.80s\"", i,
               got[static_cast<size_t>(i)].c_str(), want.c_str());
  }
}

// Threads that read one constant object.
void shared_value() {
  const rst::Value v = tree(1);
  std::string a, b;
  std::thread t([&] { a = read_value(v) + dump(v.Clone()); });
  b = read_value(v) + dump(v.Clone());
  t.join();
  RMC_ASSERT(a == b, "different readings of one value: %.80s, %.80s", a.c_str(), b.c_str());
}
void shared_guid() {
  const rst::Guid g;
  std::string a, b;
  std::thread t([&] { a = g.AsString() + std::string(g.AsStringView().value()); });
  b = g.AsString() + std::string(g.AsStringView().value());
  t.join();
  RMC_ASSERT(a == b, "different texts of one GUID: %s, %s", a.c_str(), b.c_str());
}
void shared_error() {
  rst::Status s = fails(0);
  RMC_ASSERT(s.err(), "no error");
  const auto e = s.GetError();
  auto use = [e] {
    return e->AsString() + (rst::dyn_cast<MyError>(e) != nullptr ? "+" : "-") + (rst::dyn_cast<rst::FileError>(e) != nullptr ? "+" : "-");
  };
  std::string a, b;
  std::thread t([&] { a = use(); });
  b = use();
  t.join();
  RMC_ASSERT(a == b, "different readings of one error: %s, %s", a.c_str(), b.c_str());
}
// Weak pointers to one object, copied and dropped by several threads.
void shared_weak() {
  Obj o;
  rst::WeakPtr<Obj> w = o.AsWeakPtr();
  std::thread t([c = w]() mutable {
    rst::WeakPtr<Obj> d = c;
    rst::WeakPtr<Obj> e = std::move(c);
    d = nullptr;
  });
  rst::WeakPtr<Obj> x = o.AsWeakPtr();
  rst::WeakPtr<Obj> y = w;
  x = nullptr;
  t.join();
  auto p = y.GetNullable();
  RMC_ASSERT(p != nullptr && p.get() == &o, "the weak pointer is lost");
}
// The object outlives its last user in another thread, or not.
void dropped_weak() {
  std::thread t;
  {
    Obj o;
    rst::WeakPtr<Obj> w = o.AsWeakPtr();
    t = std::thread([c = std::move(w)]() mutable { rst::WeakPtr<Obj> d = std::move(c); });
  }
  t.join();
}

}  // namespace

namespace rmc {
void register_own_scenarios() {
  auto put = [](const std::string& name, std::function<void()> body, int quick, int thorough) {
    Scenario s;
    s.name = name;
    s.group = "C35";
    s.quick_bound = quick;
    s.thorough_bound = thorough;
    s.body = std::move(body);
    add(s);
  };
  for (int i = 0; i < kCount; i++) {
    for (int j = i; j < kCount; j++) {
      const Use a = kComponents[i].use, b = kComponents[j].use;
      const bool io = kComponents[i].io || kComponents[j].io;
      put(std::string("own_") + kComponents[i].name + (i == j ? "" : std::string("_") + kComponents[j].name),
          [a, b, io] { own({a, b}, io); }, io || b == use_pool ? 1 : 2, io || b == use_pool ? 2 : 4);
    }
    const Use a = kComponents[i].use;
    const bool three_io = kComponents[i].io;
    if (a == use_pool) continue;  // More threads than the explorer has.
    put(std::string("own3_") + kComponents[i].name, [a, three_io] { own({a, a, a}, three_io); }, 1, three_io ? 1 : 3);
  }
  put("shared_value", shared_value, 4, 8);
  put("shared_guid", shared_guid, 4, 8);
  put("shared_error", shared_error, 4, 8);
  put("shared_weak", shared_weak, 4, 8);
  put("dropped_weak", dropped_weak, 4, 8);
}
}  // namespace rmc
