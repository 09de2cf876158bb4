// Exhaustive fault and crash-point enumerator for code that uses the file
// system ("filemc").
//
// Each execution runs in a forked child in a scratch directory of its own.  A
// seccomp filter delivers every file system call to a handler, which lets it
// through, fails it, cuts it short, lets it report another size, or ends the
// process before, during or after it.  Every combination of such deviations
// within the bound is run; the parent then judges what is left.
#ifndef VERIF_FILES_FILES_H_
#define VERIF_FILES_FILES_H_

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace files {

// What happened in an execution.
struct Faults {
  int deviations;      // Answers that were not the plain result.
  int benign;          // Of these: short transfers and wrong sizes.
  int open_failed;     // The last opening of a file failed (for whatever reason).
  int opens;           // Files opened.
  int write_err, read_err, close_err, rename_err, unlink_err, stat_err, sync_err, other_err, intr;
  int lost_close;      // Failed close() of a file that was written to.
  int crashed;
  long written;        // Bytes that write() took.
};

// Filled in by the body, in the child.
struct Result {
  int kind;            // Which status came back; see the scenarios.
  int same;            // The content read was the expected one.
  int fd_leak;         // Descriptors open afterwards that were not before.
  int reached;         // Progress of the body.
  int bad;             // The body itself found a violation,
  char why[512];       // namely this.
};

struct Ctx {
  std::string dir;     // The scratch directory, with a slash at the end.
};

struct Outcome {
  Faults f;
  Result r;
  bool stopped = false;   // abort() ended the child.
  std::string other;      // Any other abnormal end.
  std::map<std::string, std::string> before, after;  // All files and their bytes.
};

struct Scenario {
  std::string group, name;
  std::function<void(const Ctx&)> setup;                 // Parent, not injected.
  std::function<void(const Ctx&, Result*)> body;         // Child, injected.
  std::function<std::string(const Ctx&, const Outcome&)> judge;  // Parent: "" or what is wrong.
  bool crash = false;
  bool huge = false;    // May take long.
  bool mounts = false;  // Every directory is a file system of its own.
  int quick = 2, thorough = 3;
};
void add(Scenario s);

// For bodies and set-ups.
void put(const std::string& path, std::string_view data);
std::string get(const std::string& path, bool* exists = nullptr);
// In the child: whether the file holds exactly this (not injected).
bool holds(const char* path, std::string_view data);
// Descriptors open now, as a bit set of the first 64 (not injected).
uint64_t open_fds();
// In the child: the path most recently created (for predictable names).
const char* last_created();
// Ends the body as a violation.
void bad(Result* r, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Switches the injection off and on in the child.
void inject(bool on);
void reset_random();
// Memory that is free now, in GiB.
int free_memory();

struct Register {
  explicit Register(void (*f)()) { f(); }
};

}  // namespace files

#endif
