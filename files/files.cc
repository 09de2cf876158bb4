#include "files/files.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <random>
#include <set>

extern "C" {
long filemc_raw(long n, long a, long b, long c, long d, long e, long f);
extern char filemc_raw_end[];
}
// The only place system calls pass the filter from.
asm(R"(
.text
.globl filemc_raw
.type filemc_raw, @function
filemc_raw:
  mov %rdi, %rax
  mov %rsi, %rdi
  mov %rdx, %rsi
  mov %rcx, %rdx
  mov %r8, %r10
  mov %r9, %r8
  mov 8(%rsp), %r9
  syscall
.globl filemc_raw_end
filemc_raw_end:
  ret
)");

namespace files {
namespace {

constexpr int kMaxPath = 4096;
constexpr int kMaxTrace = 600;

struct Step {
  short nr;
  short choice;
  long a0, size, result;
  char what[96];
};

struct Shared {
  Faults f;
  Result r;
  int bound;
  bool crash_points;
  int mounts;
  int len, prefix;
  uint16_t path[kMaxPath], lim[kMaxPath];
  int diverged;
  int injecting;
  bool trace;
  int nsteps;
  Step steps[kMaxTrace];
  long syscalls;
  char created[512];
  // Per descriptor: 1 ours, 2 also written to.
  uint8_t fds[1024];
  char dir[256];
  int dirlen;
};
Shared* S;

std::vector<Scenario>& reg() {
  static std::vector<Scenario> v;
  return v;
}

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  return filemc_raw(n, a, b, c, d, e, f);
}

// ---- The handler ---------------------------------------------------------------

enum Do : uint8_t { kOk, kErr, kShort, kLie, kCrash, kTorn };
struct Opt {
  Do d;
  long arg;
};
struct Opts {
  Opt o[24];
  int n = 0;
  void add(Do d, long arg = 0) { o[n++] = {d, arg}; }
};

int pick(int n) {
  const int i = S->len;
  if (i >= kMaxPath || n > 60000) {
    S->diverged = 2;
    raw(SYS_exit_group, 99);
  }
  int c = 0;
  if (i < S->prefix) {
    c = S->path[i];
    if (c >= n) {
      S->diverged = 1;
      raw(SYS_exit_group, 99);
    }
  } else {
    S->path[i] = 0;
  }
  // Within the bound only.
  S->lim[i] = static_cast<uint16_t>(S->f.deviations < S->bound ? n : 1);
  S->len++;
  return c;
}

bool ours(const char* p) {
  if (!p) return false;
  if (p[0] != '/') return p[0] != 0;
  return strncmp(p, S->dir, static_cast<size_t>(S->dirlen)) == 0;
}
bool fd_ours(long fd) { return fd >= 0 && fd < 1024 && S->fds[fd]; }

void crash() {
  S->f.crashed = 1;
  raw(SYS_exit_group, 98);
}

enum Kind { kOpen, kRead, kWrite, kClose, kStat, kRename, kUnlink, kSync, kOther };

// The directory part of |path|, relative to the scratch directory.
std::string_view parent(const char* path) {
  std::string_view p = path ? path : "";
  const std::string_view dir(S->dir, static_cast<size_t>(S->dirlen));
  if (p.substr(0, dir.size()) == dir) p.remove_prefix(dir.size());
  while (p.substr(0, 2) == "./") p.remove_prefix(2);
  const size_t slash = p.rfind('/');
  return slash == std::string_view::npos ? "" : p.substr(0, slash);
}

void common(Opts* o) {
  if (S->crash_points) o->add(kCrash);
}

long handle(long nr, long* a) {
  // Descriptors are ints.
  a[0] = nr == SYS_open || nr == SYS_creat || nr == SYS_stat || nr == SYS_lstat || nr == SYS_rename || nr == SYS_unlink ||
                 nr == SYS_rmdir || nr == SYS_truncate || nr == SYS_link || nr == SYS_symlink || nr == SYS_mkdir ||
                 nr == SYS_chmod || nr == SYS_access || nr == SYS_chown
             ? a[0]
             : static_cast<int>(a[0]);
  Kind kind = kOther;
  bool mine = false;
  const char* path = nullptr;
  long count = 0;
  const bool at = nr == SYS_openat || nr == SYS_newfstatat || nr == SYS_statx || nr == SYS_renameat ||
                  nr == SYS_renameat2 || nr == SYS_unlinkat || nr == SYS_linkat || nr == SYS_openat2 ||
                  nr == SYS_faccessat || nr == SYS_faccessat2 || nr == SYS_mkdirat || nr == SYS_fchmodat ||
                  nr == SYS_fchownat || nr == SYS_utimensat;
  switch (nr) {
    case SYS_open: case SYS_creat: case SYS_openat: case SYS_openat2:
      kind = kOpen;
      break;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: case SYS_preadv2:
      kind = kRead;
      break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2:
      kind = kWrite;
      break;
    case SYS_close:
      kind = kClose;
      break;
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: case SYS_statx:
      kind = kStat;
      break;
    case SYS_rename: case SYS_renameat: case SYS_renameat2:
      kind = kRename;
      break;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir:
      kind = kUnlink;
      break;
    case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range:
      kind = kSync;
      break;
    default:
      break;
  }
  bool by_fd = false;
  switch (nr) {
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: case SYS_preadv2: case SYS_write:
    case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2: case SYS_close: case SYS_fstat:
    case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range: case SYS_ftruncate: case SYS_fallocate:
    case SYS_lseek: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fcntl: case SYS_fchmod: case SYS_fchown:
    case SYS_flock:
      by_fd = true;
      break;
    default:
      break;
  }
  if (by_fd) {
    mine = fd_ours(a[0]);
  } else if (at) {
    path = reinterpret_cast<const char*>(a[1]);
    if (path && path[0] == 0) {
      mine = fd_ours(a[0]);
      path = nullptr;
    } else {
      mine = ours(path) && (path[0] == '/' || a[0] == AT_FDCWD || fd_ours(a[0]));
    }
  } else {
    path = reinterpret_cast<const char*>(a[0]);
    mine = ours(path);
  }
  if (!mine || !S->injecting) {
    const long r = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (mine && kind == kOpen && r >= 0 && r < 1024) S->fds[r] = 1;
    if (mine && kind == kWrite && r > 0) S->fds[a[0]] = 2;
    if (mine && kind == kClose) S->fds[a[0]] = 0;
    return r;
  }
  S->syscalls++;
  // The vector forms are counted in bytes, and never cut.
  const bool vec = nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev || nr == SYS_preadv2 ||
                   nr == SYS_pwritev2;
  if (vec) {
    const struct iovec* v = reinterpret_cast<const struct iovec*>(a[1]);
    for (long i = 0; i < a[2]; i++) count += static_cast<long>(v[i].iov_len);
  } else if (kind == kRead || kind == kWrite) {
    count = a[2];
  }
  Opts o;
  o.add(kOk);
  switch (kind) {
    case kOpen:
      o.add(kErr, EACCES);
      o.add(kErr, EMFILE);
      o.add(kErr, EINTR);
      common(&o);
      break;
    case kWrite:
      if (count > 1) o.add(kShort, 1);
      if (count > 3) o.add(kShort, count / 2);
      if (count > 2) o.add(kShort, count - 1);
      o.add(kErr, ENOSPC);
      o.add(kErr, EIO);
      o.add(kErr, EINTR);
      if (S->crash_points) {
        o.add(kCrash);
        if (count > 1) o.add(kTorn, 1);
        if (count > 3) o.add(kTorn, count / 2);
        if (count > 2) o.add(kTorn, count - 1);
        o.add(kTorn, count);
      }
      break;
    case kRead:
      if (count > 1) o.add(kShort, 1);
      if (count > 3) o.add(kShort, count / 2);
      if (count > 2) o.add(kShort, count - 1);
      o.add(kErr, EIO);
      o.add(kErr, EINTR);
      common(&o);
      break;
    case kClose:
      o.add(kErr, EIO);
      o.add(kErr, ENOSPC);
      o.add(kErr, EINTR);
      common(&o);
      break;
    case kStat:
      o.add(kErr, EIO);
      o.add(kLie, 0);
      o.add(kLie, 1);
      o.add(kLie, -1);
      o.add(kLie, -2);
      o.add(kLie, -3);
      o.add(kLie, -4);
      common(&o);
      break;
    case kRename:
      o.add(kErr, EACCES);
      o.add(kErr, EXDEV);
      o.add(kErr, EIO);
      common(&o);
      break;
    default:
      o.add(kErr, EIO);
      common(&o);
      break;
  }
  const int c = pick(o.n);
  const Opt opt = o.o[c];
  if (c != 0) {
    S->f.deviations++;
    if (opt.d == kShort || opt.d == kLie) S->f.benign++;
  }
  Step* st = nullptr;
  if (S->trace && S->nsteps < kMaxTrace) {
    st = &S->steps[S->nsteps++];
    st->nr = static_cast<short>(nr);
    st->choice = static_cast<short>(opt.d);
    st->a0 = by_fd ? a[0] : -1;
    st->size = opt.d == kErr || opt.d == kShort || opt.d == kTorn || opt.d == kLie ? opt.arg : count;
    st->result = 0;
    st->what[0] = 0;
    if (path) {
      strncpy(st->what, path, sizeof(st->what) - 1);
      st->what[sizeof(st->what) - 1] = 0;
    }
  }
  long r = 0;
  switch (opt.d) {
    case kCrash:
      crash();
      break;
    case kTorn:
      if (!vec) {
        long done = 0;
        while (done < opt.arg) {
          const long w = raw(nr, a[0], a[1] + done, opt.arg - done, a[3] + done, a[4], a[5]);
          if (w <= 0) break;
          done += w;
        }
      }
      crash();
      break;
    case kErr:
      if (kind == kClose) {
        // The descriptor is gone all the same.
        raw(nr, a[0]);
        if (S->fds[a[0]] == 2) S->f.lost_close++;
        S->fds[a[0]] = 0;
      }
      r = -opt.arg;
      break;
    case kShort:
      if (vec) {
        const struct iovec* v = reinterpret_cast<const struct iovec*>(a[1]);
        struct iovec one = v[0];
        for (long i = 0; i < a[2] && one.iov_len == 0; i++) one = v[i];
        if (static_cast<long>(one.iov_len) > opt.arg) one.iov_len = static_cast<size_t>(opt.arg);
        r = raw(nr, a[0], reinterpret_cast<long>(&one), 1, a[3], a[4], a[5]);
      } else {
        r = raw(nr, a[0], a[1], opt.arg, a[3], a[4], a[5]);
      }
      break;
    case kLie:
    case kOk:
      if (kind == kRename && S->mounts) {
        const char* to = reinterpret_cast<const char*>(a[nr == SYS_rename ? 1 : 3]);
        if (parent(path) != parent(to)) {
          r = -EXDEV;
          break;
        }
      }
      r = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      if (opt.d == kLie && r == 0) {
        auto lie = [&](long s) {
          long v = opt.arg == -1 ? s - 1 : opt.arg == -2 ? s + 1 : opt.arg == -3 ? s * 2 + 5 : opt.arg == -4 ? s / 2 : opt.arg;
          return v < 0 ? 0 : v;
        };
        if (nr == SYS_statx) {
          struct statx* x = reinterpret_cast<struct statx*>(a[4]);
          x->stx_size = static_cast<uint64_t>(lie(static_cast<long>(x->stx_size)));
        } else {
          struct stat* x = reinterpret_cast<struct stat*>(nr == SYS_newfstatat ? a[2] : a[1]);
          x->st_size = lie(x->st_size);
        }
      }
      break;
  }
  if (st) st->result = r;
  // Bookkeeping.
  if (kind == kOpen) {
    S->f.open_failed = r < 0;
    if (r >= 0) {
      S->f.opens++;
      if (r < 1024) S->fds[r] = 1;
      const long flags = nr == SYS_open ? a[1] : nr == SYS_openat ? a[2] : nr == SYS_creat ? O_CREAT : 0;
      if ((flags & O_CREAT) && path) {
        strncpy(S->created, path, sizeof(S->created) - 1);
      }
    }
  }
  if (kind == kWrite && r > 0) S->f.written += r;
  if (kind == kWrite && r > 0 && a[0] < 1024) S->fds[a[0]] = 2;
  if (kind == kClose && opt.d == kOk) S->fds[a[0]] = 0;
  if ((nr == SYS_dup || nr == SYS_dup2 || nr == SYS_dup3 ||
       (nr == SYS_fcntl && (a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC))) &&
      r >= 0 && r < 1024)
    S->fds[r] = S->fds[a[0]];
  if (opt.d == kErr) {
    if (opt.arg == EINTR) S->f.intr++;
    switch (kind) {
      case kWrite: S->f.write_err++; break;
      case kRead: S->f.read_err++; break;
      case kClose: S->f.close_err++; break;
      case kRename: S->f.rename_err++; break;
      case kUnlink: S->f.unlink_err++; break;
      case kStat: S->f.stat_err++; break;
      case kSync: S->f.sync_err++; break;
      case kOther: S->f.other_err++; break;
      default: break;
    }
  }
  return r;
}

void on_sigsys(int, siginfo_t* si, void* uc) {
  const int saved = errno;
  auto* c = static_cast<ucontext_t*>(uc);
  greg_t* g = c->uc_mcontext.gregs;
  long a[6] = {static_cast<long>(g[REG_RDI]), static_cast<long>(g[REG_RSI]), static_cast<long>(g[REG_RDX]),
               static_cast<long>(g[REG_R10]), static_cast<long>(g[REG_R8]),  static_cast<long>(g[REG_R9])};
  g[REG_RAX] = handle(si->si_syscall, a);
  errno = saved;
}

const int kTrapped[] = {
    SYS_open, SYS_creat, SYS_openat, SYS_openat2, SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_preadv2, SYS_write,
    SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_pwritev2, SYS_close, SYS_stat, SYS_lstat, SYS_fstat, SYS_newfstatat,
    SYS_statx, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_fsync, SYS_fdatasync,
    SYS_sync_file_range, SYS_ftruncate, SYS_truncate, SYS_fallocate, SYS_lseek, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl,
    SYS_link, SYS_linkat, SYS_symlink, SYS_mkdir, SYS_mkdirat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_access,
    SYS_faccessat, SYS_faccessat2, SYS_chown, SYS_fchown, SYS_flock, SYS_utimensat,
};

void install() {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
  std::vector<sock_filter> p;
  const uint64_t ip = reinterpret_cast<uint64_t>(filemc_raw_end);
  const size_t n = sizeof(kTrapped) / sizeof(kTrapped[0]);
  auto ld = [&](unsigned off) { p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)); };
  ld(offsetof(seccomp_data, arch));
  p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0));
  p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  ld(offsetof(seccomp_data, instruction_pointer));
  p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip), 0, 3));
  ld(offsetof(seccomp_data, instruction_pointer) + 4);
  p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(ip >> 32), 0, 1));
  p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  ld(offsetof(seccomp_data, nr));
  for (size_t i = 0; i < n; i++) {
    p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(kTrapped[i]), 0, 1));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  }
  p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  sock_fprog prog = {static_cast<unsigned short>(p.size()), p.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) {
    fprintf(stderr, "filemc: no seccomp filter: %s\n", strerror(errno));
    raw(SYS_exit_group, 97);
  }
}

// ---- The explorer ----------------------------------------------------------------

void list(const std::string& dir, const std::string& rel, std::map<std::string, std::string>* out) {
  DIR* d = opendir((dir + rel).c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    const std::string p = rel + n;
    struct stat st;
    if (lstat((dir + p).c_str(), &st) != 0) continue;
    if (S_ISDIR(st.st_mode)) {
      (*out)[p + "/"] = "";
      list(dir, p + "/", out);
    } else if (S_ISLNK(st.st_mode)) {
      char b[512];
      const ssize_t k = readlink((dir + p).c_str(), b, sizeof(b));
      (*out)[p] = "-> " + std::string(b, k > 0 ? static_cast<size_t>(k) : 0);
    } else if (S_ISREG(st.st_mode)) {
      (*out)[p] = get(dir + p);
    } else {
      (*out)[p] = "special";
    }
  }
  closedir(d);
}

// Empties a scratch directory that this program made.
void empty(const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  for (auto& n : names) {
    const std::string p = dir + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      chmod(p.c_str(), 0777);
      empty(p + "/");
      rmdir(p.c_str());
    } else {
      unlink(p.c_str());
    }
  }
}

struct Run {
  Outcome o;
  std::string verdict;
};

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h * 0xBF58476D1CE4E5B9ull;
}
uint64_t hashs(std::string_view s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

std::string g_log;

// One execution with the choices in S->path[0..prefix).
Run run_once(const Scenario& s, const Ctx& c, int bound, int prefix, bool trace) {
  Run out;
  empty(c.dir);
  s.setup(c);
  list(c.dir, "", &out.o.before);
  memset(&S->f, 0, sizeof(S->f));
  memset(&S->r, 0, sizeof(S->r));
  memset(S->fds, 0, sizeof(S->fds));
  S->bound = bound;
  S->crash_points = s.crash;
  S->mounts = s.mounts;
  S->len = 0;
  S->prefix = prefix;
  S->diverged = 0;
  S->injecting = 0;
  S->trace = trace;
  S->nsteps = 0;
  S->created[0] = 0;
  snprintf(S->dir, sizeof(S->dir), "%s", c.dir.c_str());
  S->dirlen = static_cast<int>(strlen(S->dir));
  reset_random();
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(s.huge ? 300 : 20);
    if (chdir(c.dir.c_str()) != 0) _exit(96);
    const int fd = open(g_log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    install();
    const uint64_t before = open_fds();
    S->injecting = 1;
    s.body(c, &S->r);
    S->injecting = 0;
    S->r.fd_leak = __builtin_popcountll(open_fds() & ~before);
    raw(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGABRT) {
      out.o.stopped = true;
    } else {
      out.o.other = "signal " + std::to_string(WTERMSIG(st));
    }
  } else if (WEXITSTATUS(st) == 99) {
    out.o.other = S->diverged == 1 ? "replay diverged" : "too many system calls";
  } else if (WEXITSTATUS(st) == 98) {
    if (!S->f.crashed) out.o.other = "exit 98";
  } else if (WEXITSTATUS(st) != 0) {
    out.o.other = "exit " + std::to_string(WEXITSTATUS(st));
  }
  out.o.f = S->f;
  out.o.r = S->r;
  list(c.dir, "", &out.o.after);
  if (!out.o.other.empty()) {
    out.verdict = "the process ended with " + out.o.other;
  } else if (S->r.bad) {
    out.verdict = S->r.why;
  } else {
    out.verdict = s.judge(c, out.o);
  }
  empty(c.dir);
  return out;
}

std::string call_name(int nr) {
  switch (nr) {
    case SYS_open: return "open";
    case SYS_openat: return "openat";
    case SYS_read: return "read";
    case SYS_write: return "write";
    case SYS_writev: return "writev";
    case SYS_close: return "close";
    case SYS_fstat: return "fstat";
    case SYS_newfstatat: return "newfstatat";
    case SYS_stat: return "stat";
    case SYS_statx: return "statx";
    case SYS_rename: return "rename";
    case SYS_renameat: return "renameat";
    case SYS_unlink: return "unlink";
    case SYS_unlinkat: return "unlinkat";
    case SYS_lseek: return "lseek";
    case SYS_fsync: return "fsync";
    case SYS_rmdir: return "rmdir";
    default: return "syscall " + std::to_string(nr);
  }
}

std::string trace_text(bool deviations_only) {
  std::string t;
  for (int i = 0; i < S->nsteps; i++) {
    const Step& s = S->steps[i];
    if (deviations_only && s.choice == kOk) continue;
    std::string path = s.what;
    const size_t slash = path.rfind('/');
    if (slash != std::string::npos) path = path.substr(slash + 1);
    char b[256];
    const std::string n = call_name(s.nr);
    switch (s.choice) {
      case kOk: snprintf(b, sizeof(b), "%s %s = %ld", n.c_str(), path.c_str(), s.result); break;
      case kErr: snprintf(b, sizeof(b), "%s %s fails: %s", n.c_str(), path.c_str(), strerror(static_cast<int>(s.size))); break;
      case kShort: snprintf(b, sizeof(b), "%s cut to %ld", n.c_str(), s.size); break;
      case kLie: snprintf(b, sizeof(b), "%s %s reports size rule %ld", n.c_str(), path.c_str(), s.size); break;
      case kCrash: snprintf(b, sizeof(b), "the process dies before %s %s", n.c_str(), path.c_str()); break;
      default: snprintf(b, sizeof(b), "the process dies after %ld bytes of %s", s.size, n.c_str()); break;
    }
    t += (t.empty() ? "" : "; ") + std::string(b);
  }
  return t;
}

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c > 126 || c == '"' || c == '\\') {
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

// Explores one scenario completely and prints its record.
int explore(const Scenario& s, const std::string& scratch, int maxb, double deadline, const std::string& rdir,
            const std::string& engine, FILE* out) {
  Ctx c;
  c.dir = scratch + "/" + s.name + "/";
  mkdir(c.dir.c_str(), 0700);
  g_log = scratch + "/" + s.name + ".log";
  uint64_t execs = 0;
  const double t0 = now();
  std::set<uint64_t> outs;
  std::string sample, viol, rfile;
  bool capped = false;
  int done = -1, maxlen = 0, rc = 0;
  S->syscalls = 0;
  uint64_t crashes = 0, stops = 0;
  for (int b = 0; b <= maxb && viol.empty() && !capped; b++) {
    int prefix = 0;
    for (;;) {
      Run r = run_once(s, c, b, prefix, execs == 0 || sample.empty());
      execs++;
      crashes += r.o.f.crashed != 0;
      stops += r.o.stopped;
      maxlen = std::max(maxlen, S->len);
      if (execs == 1) sample = trace_text(false).substr(0, 600);
      if (!r.verdict.empty()) {
        // Confirm, with a trace.
        const std::vector<uint16_t> path(S->path, S->path + S->len);
        const int len = S->len;
        auto again = [&] {
          std::copy(path.begin(), path.end(), S->path);
          return run_once(s, c, b, len, true);
        };
        Run r1 = again();
        const std::string t = trace_text(true);
        Run r2 = again();
        // The code under test may not behave the same each time.
        const std::string v = !r1.verdict.empty()   ? r1.verdict
                              : !r2.verdict.empty() ? r2.verdict
                                                    : r.verdict + " (not when run again)";
        viol = v + " [" + t + "]";
        rfile = rdir + "/" + s.name + ".faults";
        if (FILE* f = fopen(rfile.c_str(), "w")) {
          fprintf(f, "scenario %s\nbound %d\nlength %d\n", s.name.c_str(), b, len);
          for (auto x : path) fprintf(f, "%d ", x);
          fprintf(f, "\n# %s\nengine %s\n", viol.c_str(), engine.c_str());
          fclose(f);
        }
        rc = 1;
        break;
      }
      uint64_t h = mix(static_cast<uint64_t>(r.o.r.kind), static_cast<uint64_t>(r.o.r.reached));
      h = mix(h, static_cast<uint64_t>(r.o.stopped * 2 + r.o.f.crashed));
      h = mix(h, hashs(std::string_view(reinterpret_cast<char*>(&r.o.f), sizeof(r.o.f))));
      for (auto& f : r.o.after) h = mix(mix(h, hashs(f.first)), hashs(f.second));
      if (b == maxb || outs.size() < 100000) outs.insert(h);
      // Next.
      int i = S->len - 1;
      while (i >= 0 && S->path[i] + 1 >= S->lim[i]) i--;
      if (i < 0) break;
      S->path[i]++;
      prefix = i + 1;
      if (deadline > 0 && now() > deadline) {
        capped = true;
        break;
      }
    }
    if (viol.empty() && !capped) done = b;
  }
  rmdir(c.dir.c_str());
  fprintf(out,
          "{\"scenario\":%s,\"group\":%s,\"bound_completed\":%d,\"bound_wanted\":%d,\"capped\":%s,\"states\":%zu,"
          "\"transitions\":%ld,\"executions\":%llu,\"complete\":%llu,\"outcomes\":%zu,\"crashes\":%llu,\"stops\":%llu,"
          "\"max_choices\":%d,\"wall\":%.2f,\"sample\":%s,\"violation\":%s,\"replay\":%s}\n",
          json_str(s.name).c_str(), json_str(s.group).c_str(), done, maxb, capped ? "true" : "false", outs.size(),
          S->syscalls, static_cast<unsigned long long>(execs), static_cast<unsigned long long>(execs), outs.size(),
          static_cast<unsigned long long>(crashes), static_cast<unsigned long long>(stops), maxlen, now() - t0,
          json_str(sample).c_str(), viol.empty() ? "null" : json_str(viol).c_str(),
          rfile.empty() ? "null" : json_str(rfile).c_str());
  fflush(out);
  return rc;
}

uint32_t g_draws;

}  // namespace

void reset_random() { g_draws = 0; }

int free_memory() {
  long kb = 0;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char b[200];
    while (fgets(b, sizeof(b), f))
      if (sscanf(b, "MemAvailable: %ld kB", &kb) == 1) break;
    fclose(f);
  }
  return static_cast<int>(kb >> 20);
}

void add(Scenario s) { reg().push_back(std::move(s)); }

void put(const std::string& path, std::string_view data) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) return;
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
}
std::string get(const std::string& path, bool* exists) {
  std::string s;
  FILE* f = fopen(path.c_str(), "rb");
  if (exists) *exists = f != nullptr;
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}

bool holds(const char* path, std::string_view data) {
  const long fd = raw(SYS_openat, AT_FDCWD, reinterpret_cast<long>(path), O_RDONLY, 0);
  if (fd < 0) return false;
  static char b[65536];
  size_t at = 0;
  bool same = true;
  for (;;) {
    const long n = raw(SYS_read, fd, reinterpret_cast<long>(b), sizeof(b));
    if (n <= 0) break;
    if (at + static_cast<size_t>(n) > data.size() || memcmp(b, data.data() + at, static_cast<size_t>(n)) != 0) {
      same = false;
      break;
    }
    at += static_cast<size_t>(n);
  }
  raw(SYS_close, fd);
  return same && at == data.size();
}
uint64_t open_fds() {
  uint64_t m = 0;
  for (int i = 0; i < 64; i++)
    if (raw(SYS_fcntl, i, F_GETFD, 0) >= 0) m |= 1ull << i;
  return m;
}
const char* last_created() { return S->created; }
void bad(Result* r, const char* fmt, ...) {
  if (r->bad) return;
  r->bad = 1;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(r->why, sizeof(r->why), fmt, ap);
  va_end(ap);
}
void inject(bool on) { S->injecting = on; }

}  // namespace files

// The random device yields the same words in every execution.
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return ++files::g_draws * 0x9E3779B1u; }
}  // namespace std

// files --tier T --group G [--only PREFIX] [--jobs N] [--out FILE] [--replay FILE] [--replay-dir DIR] [--bound N]
int main(int argc, char** argv) {
  using namespace files;
  std::string tier = "quick", only, group, outf, replayf, rdir = ".", engine = "files";
  int jobs = 8, force = -1;
  double budget = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--all") continue;
    if (a == "--tier") tier = next();
    else if (a == "--only") only = next();
    else if (a == "--group") group = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--engine") engine = next();
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--out") outf = next();
    else if (a == "--replay") replayf = next();
    else if (a == "--replay-dir") rdir = next();
    else if (a == "--bound") force = atoi(next().c_str());
    else return 64;
  }
  const char* sc = getenv("RMC_SCRATCH");
  std::string scratch = std::string(sc ? sc : "/tmp") + "/filemc-XXXXXX";
  if (!mkdtemp(&scratch[0])) return 66;
  signal(SIGPIPE, SIG_IGN);
  auto shared = [] {
    return static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  };
  if (!replayf.empty()) {
    S = shared();
    FILE* f = fopen(replayf.c_str(), "r");
    if (!f) return 65;
    char name[256];
    int b, n, rc = 66;
    if (fscanf(f, "scenario %255s\nbound %d\nlength %d\n", name, &b, &n) != 3 || n > kMaxPath) return 65;
    for (int i = 0; i < n; i++) {
      int x;
      if (fscanf(f, "%d", &x) != 1) return 65;
      S->path[i] = static_cast<uint16_t>(x);
    }
    fclose(f);
    for (auto& s : reg()) {
      if (s.name != name) continue;
      Ctx c;
      c.dir = scratch + "/" + s.name + "/";
      mkdir(c.dir.c_str(), 0700);
      g_log = scratch + "/" + s.name + ".log";
      Run r = run_once(s, c, b, n, true);
      std::string t = trace_text(false);
      for (size_t i = 0; (i = t.find("; ", i)) != std::string::npos;) t.replace(i, 2, "\n");
      printf("%s\nreplay: %s\n", t.c_str(), r.verdict.empty() ? "no violation" : r.verdict.c_str());
      rmdir(c.dir.c_str());
      rc = r.verdict.empty() ? 0 : 1;
    }
    empty(scratch + "/");
    rmdir(scratch.c_str());
    return rc;
  }
  const double t0 = now();
  std::vector<const Scenario*> todo;
  for (auto& s : reg()) {
    if (!only.empty() && s.name.compare(0, only.size(), only) != 0) continue;
    if (!group.empty() && s.group != group) continue;
    todo.push_back(&s);
  }
  // One process per scenario, |jobs| at a time.
  std::map<pid_t, size_t> running;
  int rc = 0;
  size_t next = 0;
  auto reap = [&] {
    int st;
    const pid_t p = wait(&st);
    if (p < 0 || !running.count(p)) return;
    running.erase(p);
    const int e = WIFEXITED(st) ? WEXITSTATUS(st) : 77;
    if (e == 1) rc = 1;
    if (e > 1 && rc == 0) rc = e;
  };
  fflush(nullptr);
  while (next < todo.size() || !running.empty()) {
    if (next < todo.size() && running.size() < static_cast<size_t>(jobs)) {
      const Scenario& s = *todo[next];
      const pid_t p = fork();
      if (p == 0) {
        S = shared();
        FILE* out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
        if (!out) _exit(66);
        static char big[1 << 18];
        setvbuf(out, big, _IOFBF, sizeof(big));
        int maxb = tier == "thorough" ? s.thorough : s.quick;
        if (force >= 0) maxb = std::min(force, maxb);
        _exit(explore(s, scratch, maxb, budget > 0 ? t0 + budget : 0, rdir, engine, out));
      }
      running[p] = next++;
      continue;
    }
    reap();
  }
  empty(scratch + "/");
  rmdir(scratch.c_str());
  return rc;
}
