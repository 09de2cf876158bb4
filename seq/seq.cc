// See seq.h.
#include "seq/seq.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <vector>

namespace seq {
int Live::live = 0;

namespace {
constexpr int kMaxPath = 512;
constexpr int kMaxWorkers = 64;
constexpr int kQueue = 2048;
constexpr size_t kTable = 1u << 22;

struct Work {
  int root, len;  // Choices [0, root) are fixed; [root, len) are open up to lim.
  uint16_t path[kMaxPath], lim[kMaxPath];
};

struct Slot {
  std::atomic<int> busy;
  int len;
  uint16_t path[kMaxPath];
};

struct Shared {
  pthread_mutex_t mu;
  std::atomic<int> idle, qlen, stop, timed_out, violated;
  std::atomic<uint64_t> execs, steps, nstates, nout, digest, stops, maxpath;
  char msg[4096], notes[4096];
  int vlen;
  uint16_t vpath[kMaxPath];
  std::atomic<uint64_t> out[1 << 16];
  std::atomic<uint64_t> states[kTable];
  Slot slot[kMaxWorkers];
  int nkeys;
  char keys[64][64];
  Work q[kQueue];
};
Shared* S;

struct Run {
  bool active = false;
  sigjmp_buf env;
  StopGuard* guard = nullptr;
  int bound = 0;
  int len = 0, prefix = 0;
  uint16_t path[kMaxPath], lim[kMaxPath], n[kMaxPath];
  bool failed = false, diverged = false;
  char msg[4096];
  std::string* notes = nullptr;
  uint64_t out = 0, steps = 0;
  bool middle = false;  // Answer with the middle alternative (samples).
  Slot* slot = nullptr;
};
Run R;

std::vector<Scenario>& reg() {
  static auto* v = new std::vector<Scenario>;
  return *v;
}

double wall() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

[[noreturn]] void leave() {
  R.guard = nullptr;
  siglongjmp(R.env, 1);
}
}  // namespace

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL);
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ULL;
  x ^= x >> 32;
  return x;
}
uint64_t hash(std::string_view s) {
  uint64_t h = s.size();
  for (char c : s) h = mix(h, static_cast<unsigned char>(c));
  return h;
}

int bound() { return R.bound; }

int choose(int n) {
  if (n <= 1) return 0;
  if (R.len >= kMaxPath) fail("seq: too many choices");
  const int i = R.len++;
  int c = 0;
  if (i < R.prefix) {
    c = R.path[i];
    if (c >= n) {
      R.diverged = true;
      fail("seq: replay diverged at choice %d (%d of %d)", i, c, n);
    }
  } else {
    R.path[i] = static_cast<uint16_t>(c = R.middle ? n / 2 : 0);
    R.lim[i] = static_cast<uint16_t>(n);
  }
  R.n[i] = static_cast<uint16_t>(n);
  if (R.slot) {
    R.slot->path[i] = static_cast<uint16_t>(c);
    R.slot->len = i + 1;
  }
  return c;
}

void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R.msg, sizeof(R.msg), fmt, ap);
  va_end(ap);
  R.failed = true;
  leave();
}

void done() { leave(); }

void finding(const char* key, const char*, ...) {
  pthread_mutex_lock(&S->mu);
  int i = 0;
  while (i < S->nkeys && strcmp(S->keys[i], key) != 0) i++;
  if (i == S->nkeys && i < 64) snprintf(S->keys[S->nkeys++], 64, "%s", key);
  pthread_mutex_unlock(&S->mu);
  leave();
}

void note(const char* fmt, ...) {
  if (!R.notes) return;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  if (!R.notes->empty()) *R.notes += "; ";
  *R.notes += b;
}

void step() { R.steps++; }

static void insert(std::atomic<uint64_t>* t, size_t size, std::atomic<uint64_t>& count, uint64_t v) {
  if (v == 0) v = 1;
  for (size_t k = 0; k < 64; k++) {
    auto& e = t[(v + k) & (size - 1)];
    uint64_t z = e.load(std::memory_order_relaxed);
    if (z == v) return;
    if (z == 0) {
      if (e.compare_exchange_strong(z, v)) {
        count++;
        return;
      }
      if (z == v) return;
    }
  }
}

void state(uint64_t h) { insert(S->states, kTable, S->nstates, mix(h, 77)); }
void observe(uint64_t v) { R.out = mix(R.out, v); }
void observe(std::string_view v) { R.out = mix(R.out, hash(v)); }

void push_stop(StopGuard* g) {
  g->outer = R.guard;
  R.guard = g;
}
void pop_stop(StopGuard* g) { R.guard = g->outer; }
bool watching() { return R.guard != nullptr; }

void add(Scenario s) { reg().push_back(std::move(s)); }

namespace {
[[noreturn]] void on_stop(const char* what) {
  if (R.guard) {
    StopGuard* g = R.guard;
    S->stops++;
    siglongjmp(g->env, 1);
  }
  if (R.active) fail("stopped: %s", what);
  static const char m[] = "seq: abort outside an execution\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(70);
}

void on_alarm(int) {
  // Reported by the parent after a replay.
  static const char m[] = "seq: hang\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(78);
}
}  // namespace
}  // namespace seq

// The assertion machinery of the code under test.
extern "C" {
__attribute__((noreturn)) void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
  static char b[1024];
  snprintf(b, sizeof(b), "assertion %s at %s:%u", e, file, line);
  seq::on_stop(b);
}
__attribute__((noreturn)) void abort() noexcept { seq::on_stop("abort()"); }
// Sanitizer settings: this executable decides what a report means.
const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:quarantine_size_mb=8:"
         "detect_stack_use_after_return=0:handle_abort=0:handle_sigill=0:print_summary=1:malloc_context_size=1:"
         "alloc_dealloc_mismatch=1:detect_odr_violation=0";
}
const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=67:halt_on_error=1"; }
}

namespace seq {
namespace {

void on_ill(int) { on_stop("trap"); }

void setup(int w, const char* log) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct sigaction sa {};
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  sigaction(SIGVTALRM, &sa, nullptr);
  sa.sa_handler = on_ill;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGILL, &sa, nullptr);
  sigaction(SIGTRAP, &sa, nullptr);
  if (log) {
    int fd = open(log, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
  }
  (void)w;
}

void arm() { alarm(40); }

}  // namespace
void patience(int seconds) { alarm(static_cast<unsigned>(seconds)); }
int free_memory() {
  long kb = 0;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char b[200];
    while (fgets(b, sizeof(b), f))
      if (sscanf(b, "MemAvailable: %ld kB", &kb) == 1) break;
    fclose(f);
  }
  return static_cast<int>(kb >> 20);
}
namespace {

void run_once(const Scenario& s, int b) {
  R.bound = b;
  R.len = 0;
  R.failed = false;
  R.diverged = false;
  R.out = 0;
  R.steps = 0;
  R.guard = nullptr;
  Live::live = 0;
  if (R.notes) R.notes->clear();
  R.active = true;
  if (sigsetjmp(R.env, 0) == 0) s.body();
  R.active = false;
}

bool push_work(const Work& w) {
  bool ok = false;
  pthread_mutex_lock(&S->mu);
  if (S->qlen < kQueue) {
    S->q[S->qlen] = w;
    S->qlen++;
    ok = true;
  }
  pthread_mutex_unlock(&S->mu);
  return ok;
}

bool pop_work(Work* w) {
  if (S->qlen == 0) return false;
  bool ok = false;
  pthread_mutex_lock(&S->mu);
  if (S->qlen > 0) {
    S->qlen--;
    *w = S->q[S->qlen];
    ok = true;
  }
  pthread_mutex_unlock(&S->mu);
  return ok;
}

void publish() {
  pthread_mutex_lock(&S->mu);
  if (!S->violated) {
    memcpy(S->msg, R.msg, sizeof(S->msg));
    S->vlen = R.len;
    memcpy(S->vpath, R.path, sizeof(R.path));
    S->violated = R.diverged ? 2 : 1;
  }
  S->stop = 1;
  pthread_mutex_unlock(&S->mu);
}

long rss_mb() {
  char b[128];
  int fd = open("/proc/self/statm", O_RDONLY);
  ssize_t n = read(fd, b, sizeof(b) - 1);
  close(fd);
  if (n <= 0) return 0;
  b[n] = 0;
  long total = 0, res = 0;
  sscanf(b, "%ld %ld", &total, &res);
  return res * 4 / 1024;
}

// Exit status 3: wants to be replaced (memory).
void worker(const Scenario& s, int b, int w, int nw, double deadline, const char* log) {
  setup(w, log);
  R.slot = &S->slot[w];
  R.slot->busy = 1;
  R.slot->len = 0;
  bool idle = false;
  uint64_t count = 0;
  static Work work;
  const long rss0 = rss_mb();
  for (;;) {
    if (!pop_work(&work)) {
      if (!idle) {
        idle = true;
        alarm(0);
        R.slot->busy = 0;
        S->idle++;
      }
      if (S->stop || (S->idle == nw && S->qlen == 0)) break;
      usleep(100);
      continue;
    }
    if (idle) {
      idle = false;
      S->idle--;
      R.slot->busy = 1;
    }
    arm();
    const int root = work.root;
    memcpy(R.path, work.path, sizeof(R.path));
    memcpy(R.lim, work.lim, sizeof(R.lim));
    R.prefix = work.len;
    for (;;) {
      if (S->stop) break;
      if ((count & 31) == 0) {
        arm();
        if (deadline > 0 && wall() > deadline) {
          S->timed_out = 1;
          S->stop = 1;
          break;
        }
      }
      count++;
      run_once(s, b);
      S->execs++;
      S->steps += R.steps;
      if (R.failed) {
        publish();
        break;
      }
      uint64_t h = R.out;
      if (S->nout < 60000) insert(S->out, 1 << 16, S->nout, mix(h, 5));
      for (int i = 0; i < R.len; i++) h = mix(h, R.path[i]);
      S->digest += h;
      if (static_cast<uint64_t>(R.len) > S->maxpath) S->maxpath = static_cast<uint64_t>(R.len);
      int i = R.len - 1;
      while (i >= root && R.path[i] + 1 >= R.lim[i]) i--;
      if (i < root) break;
      R.path[i]++;
      R.prefix = i + 1;
      if (nw > 1 && S->qlen < nw) {
        for (int j = root; j < i; j++) {
          if (R.path[j] + 1 >= R.lim[j]) continue;
          const uint16_t save = R.path[j];
          while (R.lim[j] > save + 1) {
            work.root = work.len = j + 1;
            memcpy(work.path, R.path, sizeof(work.path));
            work.path[j] = static_cast<uint16_t>(R.lim[j] - 1);
            if (!push_work(work)) break;
            R.lim[j]--;
          }
          break;
        }
      }
      if ((count & 4095) == 0 && rss_mb() > rss0 + 1200) {
        // Leaks of executions that were stopped: go on in a new process.
        work.root = root;
        work.len = i + 1;
        memcpy(work.path, R.path, sizeof(work.path));
        memcpy(work.lim, R.lim, sizeof(work.lim));
        if (push_work(work)) _exit(3);
      }
    }
  }
  _exit(0);
}

void reset_shared() {
  madvise(S, sizeof(Shared), MADV_REMOVE);
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&S->mu, &a);
}

std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) {
      char b[16];
      snprintf(b, sizeof(b), "\\u%04x", static_cast<unsigned char>(c));
      r += b;
      continue;
    }
    r += c;
  }
  return r + "\"";
}

std::string first_error(const std::string& file, int st) {
  std::string r;
  FILE* f = fopen(file.c_str(), "r");
  if (f) {
    char l[512];
    while (fgets(l, sizeof(l), f)) {
      std::string s = l;
      while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
      if (s.find("runtime error:") != std::string::npos || s.find("SUMMARY:") != std::string::npos ||
          s.find("seq:") != std::string::npos) {
        r = s;
        break;
      }
    }
    fclose(f);
  }
  char b[64];
  if (WIFEXITED(st)) snprintf(b, sizeof(b), " (exit %d)", WEXITSTATUS(st));
  else snprintf(b, sizeof(b), " (signal %d)", WTERMSIG(st));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return "hang: no progress for 40 s";
  return "crash: " + r + b;
}

// Runs one choice sequence in a child: "" passed, else the message.  |partial|:
// the sequence is only a prefix.
std::string replay(const Scenario& s, const std::vector<uint16_t>& path, int b, std::string* notes,
                   const std::string& log, bool middle = false) {
  reset_shared();
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    setup(0, log.c_str());
    arm();
    for (size_t i = 0; i < path.size(); i++) R.path[i] = path[i];
    R.prefix = static_cast<int>(path.size());
    std::string n;
    R.notes = &n;
    R.middle = middle;
    run_once(s, b);
    if (R.failed) memcpy(S->msg, R.msg, sizeof(S->msg));
    snprintf(S->notes, sizeof(S->notes), "%s", n.c_str());
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (notes) *notes = S->notes;
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return first_error(log, st);
  return S->msg;
}

}  // namespace
}  // namespace seq

int main(int argc, char** argv) {
  using namespace seq;
  std::string tier = "quick", only, group, outf, replayf, rdir = ".", engine = "seq";
  int jobs = 8, force = -1;
  double budget = 0;
  bool list = false, all = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") list = true;
    else if (a == "--all") all = true;
    else if (a == "--tier") tier = next();
    else if (a == "--only") only = next();
    else if (a == "--group") group = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--out") outf = next();
    else if (a == "--replay") replayf = next();
    else if (a == "--replay-dir") rdir = next();
    else if (a == "--engine") engine = next();
    else if (a == "--bound") force = atoi(next().c_str());
    else return 64;
  }
  jobs = std::max(1, std::min(jobs, kMaxWorkers));
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (S == MAP_FAILED) return 71;
  const char* sd = getenv("RMC_SCRATCH");
  const std::string scratch = sd ? sd : "/tmp";
  if (list) {
    for (auto& s : reg()) printf("%s %s\n", s.group.c_str(), s.name.c_str());
    return 0;
  }
  if (!replayf.empty()) {
    FILE* f = fopen(replayf.c_str(), "r");
    if (!f) return 66;
    char name[256];
    int b, n;
    if (fscanf(f, "scenario %255s\nbound %d\nlength %d\n", name, &b, &n) != 3) return 65;
    std::vector<uint16_t> path;
    for (int i = 0; i < n; i++) {
      int c;
      if (fscanf(f, "%d", &c) != 1) return 65;
      path.push_back(static_cast<uint16_t>(c));
    }
    fclose(f);
    for (auto& s : reg())
      if (s.name == name) {
        std::string notes;
        const std::string log = scratch + "/replay.log";
        std::string m = replay(s, path, b, &notes, log);
        if (!notes.empty()) printf("%s\n", notes.c_str());
        printf("replay: %s\n", m.empty() ? "no violation" : m.c_str());
        if (m.compare(0, 5, "crash") == 0 && (f = fopen(log.c_str(), "r"))) {
          char l[512];
          for (int i = 0; i < 60 && fgets(l, sizeof(l), f); i++) fputs(l, stdout);
          fclose(f);
        }
        return m.empty() ? 0 : 1;
      }
    return 66;
  }
  FILE* out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
  if (!out) return 66;
  struct Res {
    const Scenario* s = nullptr;
    int maxb = 0, done = 0;
    uint64_t states = 0, execs = 0, steps = 0, outs = 0, digest = 0, maxpath = 0, stops = 0;
    bool capped = false, over = false;
    double wall = 0;
    std::string vmsg, rfile, sample;
    std::vector<std::string> keys;
  };
  std::vector<Res> res;
  int top = 0, nviol = 0, rc = 0;
  for (auto& s : reg()) {
    if (!only.empty() && s.name.compare(0, only.size(), only) != 0) continue;
    if (!group.empty() && group != "same" && s.group != group) continue;
    if (group == "same" && !s.same) continue;
    Res r;
    r.s = &s;
    r.maxb = tier == "thorough" ? s.thorough : s.quick;
    if (force >= 0) r.maxb = std::min(force, r.maxb);
    if (r.maxb < s.first) r.maxb = s.first;
    top = std::max(top, r.maxb);
    res.push_back(r);
  }
  const double t0 = wall();
  for (int b = 1; b <= top; b++) {
    size_t left = 0;
    for (auto& r : res) left += !r.over && r.maxb >= b && r.s->first <= b;
    for (auto& r : res) {
      const Scenario& s = *r.s;
      if (r.over || r.maxb < b || s.first > b) continue;
      if (nviol >= 3 && !all) {
        r.capped = r.over = true;
        continue;
      }
      const double ts = wall();
      double dl = 0;
      if (budget > 0) dl = ts + std::max(1.0, (t0 + budget - ts) / static_cast<double>(left) * 3.0);
      left--;
      reset_shared();
      static Work first;
      first.root = first.len = 0;
      push_work(first);
      fflush(out);
      fflush(stdout);
      std::vector<pid_t> pids;
      auto start = [&](int w, int nw) {
        pid_t p = fork();
        if (p == 0) worker(s, b, w, nw, dl, (scratch + "/w" + std::to_string(w) + ".log").c_str());
        return p;
      };
      const int nw = jobs;
      for (int w = 0; w < nw; w++) pids.push_back(start(w, nw));
      int alive = nw;
      int bad = -1, badst = 0;
      while (alive > 0) {
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        const int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if (w >= nw) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
          pids[static_cast<size_t>(w)] = start(w, nw);
          continue;
        }
        alive--;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
          S->stop = 1;
          if (bad < 0) {
            bad = w;
            badst = st;
          }
        }
      }
      r.execs += S->execs;
      r.steps += S->steps;
      r.stops += S->stops;
      r.states = S->nstates;
      r.outs = std::max<uint64_t>(r.outs, S->nout);
      r.digest = S->digest;
      r.maxpath = std::max<uint64_t>(r.maxpath, S->maxpath);
      for (int k = 0; k < S->nkeys; k++)
        if (std::find(r.keys.begin(), r.keys.end(), S->keys[k]) == r.keys.end()) r.keys.push_back(S->keys[k]);
      const bool timed_out = S->timed_out;
      std::vector<uint16_t> path;
      std::string first_msg;
      bool viol = false;
      if (S->violated) {
        path.assign(S->vpath, S->vpath + S->vlen);
        first_msg = S->msg;
        viol = true;
      } else if (bad >= 0) {
        Slot& sl = S->slot[bad];
        path.assign(sl.path, sl.path + sl.len);
        first_msg = first_error(scratch + "/w" + std::to_string(bad) + ".log", badst);
        viol = true;
      }
      if (viol) {
        std::string notes;
        const std::string log = scratch + "/replay.log";
        const std::string m1 = replay(s, path, b, &notes, log), m2 = replay(s, path, b, nullptr, log);
        auto ok = [](const std::string& m) { return !m.empty() && m.find("replay diverged") == std::string::npos; };
        // The code under test may keep state from one execution to the next, or
        // not behave the same each time: then the whole scenario is the replay.
        const bool alone = ok(m1) || ok(m2);
        if (ok(m1)) r.vmsg = m1;
        else if (ok(m2)) r.vmsg = m2;
        else r.vmsg = first_msg + " (after other executions, not alone)";
        r.vmsg += notes.empty() ? "" : " [" + notes + "]";
        r.rfile = rdir + "/" + s.name + ".choices";
        if (FILE* f = fopen(r.rfile.c_str(), "w")) {
          fprintf(f, "scenario %s\nbound %d\nlength %zu\n", s.name.c_str(), b, path.size());
          for (auto c : path) fprintf(f, "%d ", c);
          fprintf(f, "\n# %s\nengine %s\n", r.vmsg.c_str(), engine.c_str());
          if (!alone) fprintf(f, "explore --only %s --bound %d\n", s.name.c_str(), b);
          fclose(f);
        }
        nviol++;
        rc = 1;
        r.over = true;
      } else if (timed_out) {
        r.capped = r.over = true;
      } else {
        r.done = b;
        // A sample: every choice answered with its middle alternative.
        if (b == r.maxb || r.sample.empty()) {
          std::string notes;
          replay(s, {}, b, &notes, scratch + "/replay.log", true);
          r.sample = notes;
        }
      }
      r.wall += wall() - ts;
    }
  }
  for (auto& r : res) {
    std::string known = "[";
    for (auto& k : r.keys) known += (known.size() > 1 ? "," : "") + json_str(k);
    known += "]";
    fprintf(out,
            "{\"scenario\":%s,\"group\":%s,\"bound_completed\":%d,\"bound_wanted\":%d,\"capped\":%s,\"states\":%llu,"
            "\"transitions\":%llu,\"executions\":%llu,\"complete\":%llu,\"outcomes\":%llu,\"stops\":%llu,"
            "\"max_choices\":%llu,\"digest\":\"%016llx\",\"same\":%s,\"wall\":%.2f,\"known\":%s,\"sample\":%s,\"violation\":%s,"
            "\"replay\":%s}\n",
            json_str(r.s->name).c_str(), json_str(r.s->group).c_str(), r.done, r.maxb, r.capped ? "true" : "false",
            (unsigned long long)r.states, (unsigned long long)r.steps, (unsigned long long)r.execs,
            (unsigned long long)r.execs, (unsigned long long)r.outs, (unsigned long long)r.stops,
            (unsigned long long)r.maxpath, (unsigned long long)r.digest, r.s->same ? "true" : "false", r.wall, known.c_str(),
            json_str(r.sample).c_str(), r.vmsg.empty() ? "null" : json_str(r.vmsg).c_str(),
            r.rfile.empty() ? "null" : json_str(r.rfile).c_str());
  }
  fflush(out);
  return rc;
}
