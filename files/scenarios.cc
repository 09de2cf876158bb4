// C21: whole-file reads and writes.  C22: important-file writes.  C28: sinks.
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "files/files.h"
#include "rst/files/file_utils.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"

using files::Ctx;
using files::Outcome;
using files::Result;
using files::Scenario;

namespace {

// All byte values; no two neighbouring blocks are equal.
std::string Content(size_t n, int seed = 0) {
  std::string s(n, '\0');
  for (size_t i = 0; i < n; i++) s[i] = static_cast<char>((i * 7 + i / 251 + static_cast<size_t>(seed) * 31) & 0xff);
  return s;
}

enum Kind { kNone, kSuccess, kFileError, kOpenError, kLogError, kOther };

template <class E>
int ErrorKind(const E& e) {
  if (rst::dyn_cast<rst::FileOpenError>(e) != nullptr) return kOpenError;
  if (rst::dyn_cast<rst::FileError>(e) != nullptr) return kFileError;
  if (rst::dyn_cast<rst::LogError>(e) != nullptr) return kLogError;
  return kOther;
}
int KindOf(rst::Status& st) { return st.err() ? ErrorKind(st.GetError()) : kSuccess; }
template <class T>
int KindOf(rst::StatusOr<T>& st) {
  return st.err() ? ErrorKind(st.status().GetError()) : kSuccess;
}
const char* Name(int k) {
  static const char* const n[] = {"nothing", "success", "FileError", "FileOpenError", "LogError", "another error"};
  return n[k];
}

// Did anything go wrong that cannot be made good by going on?
bool Harmed(const files::Faults& f) { return f.deviations > f.benign; }

std::string Common(const Outcome& o) {
  if (o.stopped) return "the process was stopped by an assertion or abort()";
  if (o.r.fd_leak) return std::to_string(o.r.fd_leak) + " file descriptors are leaked";
  return "";
}
std::string OpenKind(const Outcome& o) {
  if (o.f.open_failed && o.r.kind != kOpenError)
    return std::string("the file could not be opened, but ") + Name(o.r.kind) + " is reported";
  if (!o.f.open_failed && o.r.kind == kOpenError) return "FileOpenError is reported though the file was opened";
  return "";
}

// Everything but |except| must be as it was.
std::string Unrelated(const Outcome& o, const std::string& except) {
  for (auto& e : o.before) {
    if (e.first == except) continue;
    auto it = o.after.find(e.first);
    if (it == o.after.end()) return "the unrelated file " + e.first + " was removed";
    if (it->second != e.second) return "the unrelated file " + e.first + " was changed";
  }
  return "";
}
std::string Extra(const Outcome& o, const std::string& except) {
  for (auto& e : o.after)
    if (e.first != except && !o.before.count(e.first)) return e.first;
  return "";
}

std::string Size(const std::string& s) { return std::to_string(s.size()) + " bytes"; }

// ---- C21: writing ---------------------------------------------------------------

void Write(const char* name, size_t size, int old, int quick, int thorough) {
  Scenario s;
  s.group = "C21";
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.setup = [old](const Ctx& c) {
    files::put(c.dir + "other", "unrelated");
    if (old >= 0) files::put(c.dir + "file", Content(static_cast<size_t>(old), 5));
  };
  s.body = [size](const Ctx& c, Result* r) {
    const std::string data = Content(size);
    rst::Status st = rst::WriteFile((c.dir + "file").c_str(), data);
    r->kind = KindOf(st);
    if (r->kind == kSuccess) r->same = files::holds((c.dir + "file").c_str(), data);
  };
  s.judge = [size](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Common(o);
    if (e.empty()) e = OpenKind(o);
    if (e.empty()) e = Unrelated(o, "file");
    if (!e.empty()) return e;
    if (const std::string x = Extra(o, "file"); !x.empty()) return "the file " + x + " was left behind";
    if (o.r.kind == kSuccess) {
      if (!o.r.same) return "success is reported before the file holds the data";
      auto it = o.after.find("file");
      if (it == o.after.end() || it->second != Content(size)) return "success is reported but the file has other content";
      if (o.f.lost_close || o.f.sync_err) return "success is reported though closing the file failed";
    } else if (!Harmed(o.f)) {
      return std::string(Name(o.r.kind)) + " is reported though nothing failed";
    }
    return "";
  };
  files::add(s);
}

// ---- C21: reading ---------------------------------------------------------------

void Read(const char* name, size_t size, int quick, int thorough) {
  Scenario s;
  s.group = "C21";
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.setup = [size](const Ctx& c) { files::put(c.dir + "file", Content(size)); };
  s.body = [size](const Ctx& c, Result* r) {
    rst::StatusOr<std::string> st = rst::ReadFile(c.dir + "file");
    r->kind = KindOf(st);
    if (r->kind == kSuccess) {
      const std::string want = Content(size);
      r->same = *st == want;
      r->reached = static_cast<int>(st->size());
    }
  };
  s.judge = [size](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Common(o);
    if (e.empty()) e = OpenKind(o);
    if (e.empty()) e = Unrelated(o, "");
    if (!e.empty()) return e;
    if (const std::string x = Extra(o, ""); !x.empty()) return "the file " + x + " appeared";
    if (o.r.kind == kSuccess) {
      if (!o.r.same)
        return "success is reported with " + std::to_string(o.r.reached) + " bytes other than the file's " +
               std::to_string(size);
    } else if (!Harmed(o.f)) {
      return std::string(Name(o.r.kind)) + " is reported though nothing failed";
    }
    return "";
  };
  files::add(s);
}

// Files that cannot be opened, and what is not a plain file.
void Special() {
  struct Case {
    const char* name;
    const char* path;
    bool write;
    int want;  // -1: any error.
  };
  static const Case kCases[] = {
      {"write_no_directory", "none/file", true, kOpenError},
      {"write_directory", "sub", true, kOpenError},
      {"write_empty_name", "", true, kOpenError},
      {"read_missing", "missing", false, kOpenError},
      {"read_no_directory", "none/file", false, kOpenError},
      {"read_directory", "sub", false, kFileError},
      {"read_empty_name", "", false, kOpenError},
      {"read_dangling_link", "dangling", false, kOpenError},
      {"read_link", "link", false, kSuccess},
      {"write_link", "link", true, kSuccess},
      {"write_dangling_link", "dangling", true, kSuccess},
      {"read_relative", "@rel", false, kSuccess},
      {"write_relative", "@rel", true, kSuccess},
      {"write_full_device", "/dev/full", true, kFileError},
      {"read_proc", "/proc/self/comm", false, kSuccess},
  };
  for (const Case& k : kCases) {
    if (std::string(k.path) == "/dev/full" && access("/dev/full", W_OK) != 0) continue;
    Scenario s;
    s.group = "C21";
    s.name = k.name;
    s.quick = 1;
    s.thorough = 2;
    s.setup = [](const Ctx& c) {
      mkdir((c.dir + "sub").c_str(), 0700);
      files::put(c.dir + "rel", "relative");
      files::put(c.dir + "target", "linked");
      (void)!symlink("target", (c.dir + "link").c_str());
      (void)!symlink("nowhere", (c.dir + "dangling").c_str());
    };
    s.body = [k](const Ctx& c, Result* r) {
      std::string p = k.path;
      const bool abs = !p.empty() && p[0] == '/';
      p = p == "@rel" ? "rel" : p.empty() || abs ? p : c.dir + p;
      if (k.write) {
        rst::Status st = rst::WriteFile(p.c_str(), "new data");
        r->kind = KindOf(st);
        if (r->kind == kSuccess) r->same = files::holds(p.c_str(), "new data");
      } else {
        rst::StatusOr<std::string> st = rst::ReadFile(p);
        r->kind = KindOf(st);
        if (r->kind == kSuccess)
          r->same = abs ? !st->empty() && st->back() == '\n' : *st == (std::string(k.path) == "link" ? "linked" : "relative");
      }
    };
    s.judge = [k](const Ctx&, const Outcome& o) -> std::string {
      std::string e = Common(o);
      if (!e.empty()) return e;
      if (!Harmed(o.f) && o.r.kind != k.want)
        return std::string(Name(o.r.kind)) + " is reported instead of " + Name(k.want);
      if (o.r.kind == kSuccess && !o.r.same) return "success is reported with other content";
      if (o.r.kind != kSuccess && std::string(k.path).substr(0, 1) != "/") return OpenKind(o).empty() || k.path[0] == 0 ? "" : OpenKind(o);
      return "";
    };
    files::add(s);
  }
}

// ---- C22 -----------------------------------------------------------------------

// |old| < 0: there is no destination yet.
void Important(const char* name, size_t size, int old, int quick, int thorough, bool relative = false) {
  Scenario s;
  s.group = "C22";
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.crash = true;
  s.setup = [old](const Ctx& c) {
    files::put(c.dir + "other", "unrelated");
    files::put(c.dir + "file.tmp", "unrelated too");
    files::put(c.dir + "filename", "unrelated as well");
    if (old >= 0) files::put(c.dir + "file", Content(static_cast<size_t>(old), 5));
  };
  s.body = [size, relative](const Ctx& c, Result* r) {
    const std::string data = Content(size);
    const std::string path = relative ? "file" : c.dir + "file";
    rst::Status st = rst::WriteImportantFile(path, data);
    r->kind = KindOf(st);
    if (r->kind == kSuccess) r->same = files::holds(path.c_str(), data);
  };
  s.judge = [size, old](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Unrelated(o, "file");
    if (!e.empty()) return e;
    const bool there = o.after.count("file");
    const std::string now = there ? o.after.at("file") : "";
    const bool is_old = old < 0 ? !there : there && now == Content(static_cast<size_t>(old), 5);
    const bool is_new = there && now == Content(size);
    if (!is_old && !is_new)
      return "the destination holds neither the old nor the new content but " +
             (there ? Size(now) : std::string("nothing"));
    if (o.f.crashed) return "";
    e = Common(o);
    if (!e.empty()) return e;
    if (o.r.kind == kNone) return "no status";
    const std::string x = Extra(o, "file");
    if (o.r.kind == kSuccess) {
      if (!is_new) return "success is reported but the destination has its old content";
      if (!o.r.same) return "success is reported before the destination holds the data";
      if (o.f.lost_close || o.f.sync_err) return "success is reported though closing the file failed";
    } else {
      if (!is_old) return std::string(Name(o.r.kind)) + " is reported but the destination was replaced";
      if (!Harmed(o.f)) return std::string(Name(o.r.kind)) + " is reported though nothing failed";
    }
    // What the environment refuses to remove stays.
    if (!x.empty() && !o.f.unlink_err && !o.f.other_err && !o.f.stat_err)
      return "the temporary file " + x + " is left behind after " + Name(o.r.kind);
    return "";
  };
  files::add(s);
}

// Destinations that cannot be replaced.
void ImportantRefused(const char* name, int what, int want) {
  Scenario s;
  s.group = "C22";
  s.name = name;
  s.quick = 2;
  s.thorough = 3;
  s.crash = true;
  s.setup = [](const Ctx& c) {
    mkdir((c.dir + "sub").c_str(), 0700);
    files::put(c.dir + "sub/inside", "unrelated");
    files::put(c.dir + "target", "old");
    (void)!symlink("target", (c.dir + "link").c_str());
  };
  s.body = [what](const Ctx& c, Result* r) {
    const std::string path = c.dir + (what == 0 ? "sub" : what == 1 ? "none/file" : "link");
    rst::Status st = rst::WriteImportantFile(path, "new data");
    r->kind = KindOf(st);
    r->same = r->kind != kSuccess || files::holds(path.c_str(), "new data");
  };
  s.judge = [what, want](const Ctx&, const Outcome& o) -> std::string {
    // A link may be replaced, or the file it names.
    for (auto& e : o.before) {
      if (what == 2 && (e.first == "link" || e.first == "target")) continue;
      auto it = o.after.find(e.first);
      if (it == o.after.end() || it->second != e.second) return e.first + " was changed";
    }
    if (what == 2) {
      const std::string l = o.after.count("link") ? o.after.at("link") : "";
      const std::string t = o.after.count("target") ? o.after.at("target") : "";
      const std::string now = l == "-> target" ? t : l;
      if (now != "old" && now != "new data") return "the destination holds \"" + now + "\"";
      if (t != "old" && t != "new data") return "the link's target holds \"" + t + "\"";
    }
    if (o.f.crashed) return "";
    std::string e = Common(o);
    if (!e.empty()) return e;
    if (!Harmed(o.f) && (o.r.kind == kSuccess) != (want == kSuccess)) return std::string(Name(o.r.kind)) + " is reported";
    if (!o.r.same) return "success is reported with other content";
    const std::string x = Extra(o, "");
    if (!x.empty() && !o.f.unlink_err && !o.f.other_err && !o.f.stat_err) return "the temporary file " + x + " is left behind";
    return "";
  };
  files::add(s);
}

// Destinations in other directories than the current one, each of which may
// be a file system of its own.
void ImportantElsewhere(const char* name, const char* where, bool relative, int old) {
  Scenario s;
  s.group = "C22";
  s.name = name;
  s.quick = 2;
  s.thorough = 3;
  s.crash = true;
  s.mounts = true;
  const std::string dest = where;
  s.setup = [dest, old](const Ctx& c) {
    mkdir((c.dir + "sub").c_str(), 0700);
    mkdir((c.dir + "sub/deep.dir").c_str(), 0700);
    files::put(c.dir + "file", "unrelated");
    files::put(c.dir + "sub/other", "unrelated too");
    if (old >= 0) files::put(c.dir + dest, Content(static_cast<size_t>(old), 5));
  };
  s.body = [dest, relative](const Ctx& c, Result* r) {
    const std::string data = Content(20);
    const std::string path = relative ? dest : c.dir + dest;
    rst::Status st = rst::WriteImportantFile(path, data);
    r->kind = KindOf(st);
    if (r->kind == kSuccess) r->same = files::holds(path.c_str(), data);
  };
  s.judge = [dest, old](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Unrelated(o, dest);
    if (!e.empty()) return e;
    const bool there = o.after.count(dest);
    const std::string now = there ? o.after.at(dest) : "";
    const bool is_old = old < 0 ? !there : there && now == Content(static_cast<size_t>(old), 5);
    const bool is_new = there && now == Content(20);
    if (!is_old && !is_new)
      return "the destination holds neither the old nor the new content but " + (there ? Size(now) : std::string("nothing"));
    if (o.f.crashed) return "";
    e = Common(o);
    if (!e.empty()) return e;
    if (o.r.kind == kNone) return "no status";
    if (o.r.kind == kSuccess) {
      if (!is_new) return "success is reported but the destination has its old content";
      if (!o.r.same) return "success is reported before the destination holds the data";
      if (o.f.lost_close || o.f.sync_err) return "success is reported though closing the file failed";
    } else {
      if (!is_old) return std::string(Name(o.r.kind)) + " is reported but the destination was replaced";
      if (!Harmed(o.f)) return std::string(Name(o.r.kind)) + " is reported though nothing failed";
    }
    const std::string x = Extra(o, dest);
    if (!x.empty() && !o.f.unlink_err && !o.f.other_err && !o.f.stat_err)
      return "the temporary file " + x + " is left behind after " + Name(o.r.kind);
    return "";
  };
  files::add(s);
}

// A file that already has the name of the temporary one is left alone.
void Collision() {
  Scenario s;
  s.group = "C22";
  s.name = "important_collision";
  s.quick = 2;
  s.thorough = 3;
  s.crash = true;
  s.setup = [](const Ctx& c) {
    files::put(c.dir + "file", "old");
  };
  s.body = [](const Ctx& c, Result* r) {
    // First run: learn the name, then put everything back.
    files::inject(false);
    files::reset_random();
    {
      files::inject(true);
      r->reached = 1;
      rst::Status st = rst::WriteImportantFile(c.dir + "file", "first");
      r->kind = KindOf(st);
      files::inject(false);
    }
    const std::string temp = files::last_created();
    if (r->kind != kSuccess || temp.empty() || temp == c.dir + "file") {
      r->reached = 0;
      return;
    }
    files::put(temp, "precious");
    files::reset_random();
    files::inject(true);
    rst::Status st = rst::WriteImportantFile(c.dir + "file", "second");
    files::inject(false);
    r->kind = KindOf(st);
    r->reached = 2;
    if (!files::holds(temp.c_str(), "precious"))
      files::bad(r, "an existing file with the name of the temporary one (%s) was %s", temp.c_str() + c.dir.size(),
                 access(temp.c_str(), F_OK) == 0 ? "changed" : "removed");
    if (!files::holds((c.dir + "file").c_str(), r->kind == kSuccess ? "second" : "first"))
      files::bad(r, "the destination is wrong after %s", Name(r->kind));
    unlink(temp.c_str());
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    const std::string now = o.after.count("file") ? o.after.at("file") : "";
    if (now != "old" && now != "first" && now != "second") return "the destination holds \"" + now + "\"";
    for (auto& e : o.after) {
      if (e.first == "file") continue;
      // After a crash of the second run the precious file must still be there.
      if (e.second == "precious") return "";
    }
    if (o.f.crashed && o.r.reached == 2) return "the existing file with the name of the temporary one is gone";
    return "";
  };
  files::add(s);
}

// Several writes to one destination, one after the other.
void ImportantSeries() {
  Scenario s;
  s.group = "C22";
  s.name = "important_series";
  s.quick = 2;
  s.thorough = 3;
  s.crash = true;
  s.setup = [](const Ctx& c) { files::put(c.dir + "other", "unrelated"); };
  s.body = [](const Ctx& c, Result* r) {
    std::string cur = "absent";
    for (int i = 0; i < 3; i++) {
      const std::string data = Content(static_cast<size_t>(10 + i), i);
      rst::Status st = rst::WriteImportantFile(c.dir + "file", data);
      const int k = KindOf(st);
      if (k == kSuccess) cur = data;
      if (cur == "absent" ? access((c.dir + "file").c_str(), F_OK) == 0 : !files::holds((c.dir + "file").c_str(), cur))
        files::bad(r, "the destination is wrong after write %d reported %s", i, Name(k));
      r->reached = i + 1;
      r->kind = k;
    }
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Unrelated(o, "file");
    if (!e.empty()) return e;
    if (o.after.count("file")) {
      bool ok = false;
      for (int i = 0; i < 3; i++) ok = ok || o.after.at("file") == Content(static_cast<size_t>(10 + i), i);
      if (!ok) return "the destination holds " + Size(o.after.at("file"));
    }
    if (o.f.crashed) return "";
    e = Common(o);
    if (!e.empty()) return e;
    const std::string x = Extra(o, "file");
    if (!x.empty() && !o.f.unlink_err && !o.f.other_err && !o.f.stat_err) return "the temporary file " + x + " is left behind";
    return "";
  };
  files::add(s);
}

// ---- C28 -----------------------------------------------------------------------

enum SinkKind { kByName, kPtrOwned, kPtrShared, kPtrAppend, kPtrUnbuffered, kPtrLineBuffered, kPtrBuffered };

void Sink(const char* name, int kind, std::vector<std::string> messages, int quick, int thorough) {
  Scenario s;
  s.group = "C28";
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.crash = true;
  s.setup = [](const Ctx& c) {
    files::put(c.dir + "log", "earlier\n");
    files::put(c.dir + "other", "unrelated");
  };
  s.body = [kind, messages](const Ctx& c, Result* r) {
    const std::string path = c.dir + "log";
    std::string want = kind == kPtrAppend ? "earlier\n" : "";
    std::unique_ptr<rst::Sink> sink;
    FILE* f = nullptr;
    int file_fd = 0;
    const bool owned = kind != kPtrShared;
    static char buf[64];
    r->reached = 1;
    if (kind == kByName) {
      auto st = rst::FileNameSink::Create(path.c_str());
      r->kind = KindOf(st);
      if (r->kind != kSuccess) return;
      sink = std::move(*st).Take();
    } else {
      files::inject(false);
      f = fopen(path.c_str(), kind == kPtrAppend ? "a" : "w");
      if (kind == kPtrUnbuffered) setvbuf(f, nullptr, _IONBF, 0);
      if (kind == kPtrLineBuffered) setvbuf(f, nullptr, _IOLBF, 64);
      if (kind == kPtrBuffered) setvbuf(f, buf, _IOFBF, sizeof(buf));
      file_fd = fileno(f);
      files::inject(true);
      sink = std::make_unique<rst::FilePtrSink>(f, rst::FilePtrSink::ShouldClose(owned));
      r->kind = kSuccess;
    }
    for (const std::string& m : messages) {
      // The message ends where its view does.
      std::unique_ptr<char[]> p(new char[m.size()]);
      memcpy(p.get(), m.data(), m.size());
      sink->Log(std::string_view(p.get(), m.size()));
      r->reached++;
      want += m + "\n";
      if (!files::holds(path.c_str(), want)) {
        files::bad(r, "record %d was logged but is not in the file as it should be", r->reached - 1);
        return;
      }
    }
    sink.reset();
    r->reached = 100;
    if (!files::holds(path.c_str(), want)) {
      files::bad(r, "the file changed when the sink was destroyed");
      return;
    }
    if (!owned) {
      files::inject(false);
      if (((files::open_fds() >> file_fd) & 1) && fputs("still open\n", f) >= 0 && fclose(f) == 0 && files::holds(path.c_str(), want + "still open\n")) {
        r->reached = 101;
      } else {
        files::bad(r, "the sink closed a file that is not its own");
      }
    }
  };
  s.judge = [kind, messages](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Unrelated(o, "log");
    if (!e.empty()) return e;
    if (const std::string x = Extra(o, "log"); !x.empty()) return "the file " + x + " appeared";
    // Whatever happens later, records that were logged stay.
    std::string kept = kind == kPtrAppend ? "earlier\n" : "";
    for (int i = 0; i < static_cast<int>(messages.size()) && i < o.r.reached - 1; i++) kept += messages[static_cast<size_t>(i)] + "\n";
    const std::string now = o.after.count("log") ? o.after.at("log") : "";
    if (o.r.reached > 1 && now.compare(0, kept.size(), kept) != 0) return "a record that was logged is gone";
    if (o.f.crashed) return "";
    if (o.stopped) return Harmed(o.f) ? "" : "the process was stopped though nothing failed";
    if (o.r.fd_leak) return std::to_string(o.r.fd_leak) + " file descriptors are leaked";
    if (kind == kByName) {
      if (o.f.open_failed != (o.r.kind == kLogError) || (!o.f.open_failed && o.r.kind != kSuccess))
        return std::string(Name(o.r.kind)) + " is reported for a file that could " + (o.f.open_failed ? "not " : "") + "be opened";
    }
    if (o.r.kind == kSuccess && o.r.reached < 100) return "the body did not finish";
    return "";
  };
  files::add(s);
}

// Sinks that cannot be opened, or cannot be written.
void SinkRefused(const char* name, int what) {
  Scenario s;
  s.group = "C28";
  s.name = name;
  s.quick = 1;
  s.thorough = 2;
  s.setup = [](const Ctx& c) {
    mkdir((c.dir + "sub").c_str(), 0700);
    files::put(c.dir + "readonly", "text");
  };
  s.body = [what](const Ctx& c, Result* r) {
    if (what < 3) {
      static const char* const k[] = {"none/log", "sub", ""};
      const std::string p = what == 2 ? "" : c.dir + k[what];
      auto st = rst::FileNameSink::Create(p.c_str());
      r->kind = KindOf(st);
      r->same = r->kind == kLogError;
    } else {
      // Open for reading only: a record cannot be written, so the process stops.
      FILE* f = fopen((c.dir + "readonly").c_str(), "r");
      if (!f) {
        r->same = 1;
        return;
      }
      rst::FilePtrSink sink(f);
      r->kind = kSuccess;
      sink.Log("message");
      r->reached = 2;
    }
  };
  s.judge = [what](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Unrelated(o, "");
    if (!e.empty()) return e;
    if (const std::string x = Extra(o, ""); !x.empty()) return "the file " + x + " appeared";
    if (what == 3) {
      if (o.r.kind == kSuccess && !o.stopped) return "a record that cannot be written was dropped silently";
      return "";
    }
    if (o.stopped) return "the process was stopped";
    if (o.r.fd_leak) return "a file descriptor is leaked";
    if (!o.r.same) return std::string(Name(o.r.kind)) + " is reported for a file that cannot be opened";
    return "";
  };
  files::add(s);
}

// Opening and closing sinks again and again.
void SinkSeries() {
  Scenario s;
  s.group = "C28";
  s.name = "sink_series";
  s.quick = 1;
  s.thorough = 2;
  s.setup = [](const Ctx&) {};
  s.body = [](const Ctx& c, Result* r) {
    const std::string path = c.dir + "log";
    for (int i = 0; i < 3; i++) {
      auto st = rst::FileNameSink::Create(path.c_str());
      r->kind = KindOf(st);
      if (r->kind != kSuccess) return;
      const std::string m = "message " + std::to_string(i);
      (*st)->Log(m);
      if (!files::holds(path.c_str(), m + "\n")) files::bad(r, "record %d is not in the file", i);
    }
    r->reached = 100;
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    if (o.stopped) return Harmed(o.f) ? "" : "the process was stopped though nothing failed";
    if (o.r.fd_leak) return std::to_string(o.r.fd_leak) + " file descriptors are leaked";
    if (o.r.kind != kSuccess && !o.f.open_failed) return std::string(Name(o.r.kind)) + " is reported";
    return "";
  };
  files::add(s);
}

// Every content size in a range, on a healthy file system: written, read back.
void Sizes(const char* name, size_t from, size_t to, bool important) {
  Scenario s;
  s.group = important ? "C22" : "C21";
  s.name = name;
  s.quick = s.thorough = 0;
  s.setup = [](const Ctx&) {};
  s.body = [from, to, important](const Ctx& c, Result* r) {
    files::inject(false);
    const std::string path = c.dir + "file";
    // Going down, so that a file that is not cut is seen too.
    for (size_t n = to;; n--) {
      const std::string data = Content(n, static_cast<int>(n));
      rst::Status st = important ? rst::WriteImportantFile(path, data) : rst::WriteFile(path.c_str(), data);
      if (KindOf(st) != kSuccess || !files::holds(path.c_str(), data)) {
        files::bad(r, "writing %zu bytes reports %s, and the file does not hold them", n, Name(KindOf(st)));
        return;
      }
      rst::StatusOr<std::string> got = rst::ReadFile(path);
      if (KindOf(got) != kSuccess || *got != data) {
        files::bad(r, "reading %zu bytes reports %s and other content", n, Name(KindOf(got)));
        return;
      }
      r->reached++;
      if (n == from) break;
    }
    r->kind = kSuccess;
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Common(o);
    if (e.empty()) {
      if (const std::string x = Extra(o, "file"); !x.empty()) return "the file " + x + " was left behind";
    }
    return e;
  };
  files::add(s);
}

// More than 4 GiB.  What is written goes to a device that takes everything; what
// is read is a file of holes.
constexpr size_t kHuge = (size_t{1} << 32) + 5;
void WriteHuge() {
  Scenario s;
  s.group = "C21";
  s.name = "write_huge";
  s.quick = 0;
  s.thorough = 1;
  s.huge = true;
  s.setup = [](const Ctx& c) { (void)!symlink("/dev/null", (c.dir + "file").c_str()); };
  s.body = [](const Ctx& c, Result* r) {
    void* p = mmap(nullptr, kHuge, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    rst::Status st = rst::WriteFile((c.dir + "file").c_str(), std::string_view(static_cast<char*>(p), kHuge));
    r->kind = KindOf(st);
    munmap(p, kHuge);
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    if (o.r.kind == kNone) return Common(o);
    std::string e = Common(o);
    if (!e.empty()) return e;
    if (o.r.kind == kSuccess && o.f.written != static_cast<long>(kHuge))
      return "success is reported though " + std::to_string(o.f.written) + " of " + std::to_string(kHuge) + " bytes were written";
    if (o.r.kind != kSuccess && !Harmed(o.f)) return std::string(Name(o.r.kind)) + " is reported though nothing failed";
    return "";
  };
  files::add(s);
}
void ReadHuge() {
  Scenario s;
  s.group = "C21";
  s.name = "read_huge";
  s.quick = s.thorough = 0;
  s.huge = true;
  static const std::pair<size_t, const char*> kMarks[] = {
      {0, "begin"}, {(size_t{1} << 31) - 2, "half"}, {(size_t{1} << 32) - 3, "over"}, {kHuge - 1, "e"}};
  s.setup = [](const Ctx&) {};
  s.body = [](const Ctx& c, Result* r) {
    if (files::free_memory() < 14) return;
    files::inject(false);
    const std::string path = c.dir + "file";
    const int fd = open(path.c_str(), O_WRONLY | O_CREAT, 0600);
    bool ok = fd >= 0;
    for (auto& m : kMarks)
      ok = ok && pwrite(fd, m.second, strlen(m.second), static_cast<off_t>(m.first)) == static_cast<ssize_t>(strlen(m.second));
    if (fd >= 0) close(fd);
    if (!ok) {
      unlink(path.c_str());
      return;  // No room.
    }
    {
      rst::StatusOr<std::string> st = rst::ReadFile(path);
      r->kind = KindOf(st);
      if (r->kind == kSuccess) {
        std::string& got = *st;
        ok = got.size() == kHuge;
        for (auto& m : kMarks) {
          const size_t n = strlen(m.second);
          ok = ok && got.compare(m.first, n, m.second) == 0;
          if (ok) memset(&got[m.first], 0, n);
        }
        // All the rest is zero.
        ok = ok && got[0] == 0 && memcmp(got.data(), got.data() + 1, got.size() - 1) == 0;
        if (!ok) files::bad(r, "reading a file of %zu bytes reports success with %zu bytes that differ", kHuge, got.size());
      } else {
        files::bad(r, "reading a file of %zu bytes reports %s though nothing failed", kHuge, Name(r->kind));
      }
    }
    unlink(path.c_str());
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string { return Common(o); };
  files::add(s);
}

// A message of more than 4 GiB, to a device that takes everything.
void SinkHuge(const char* name, bool by_name) {
  Scenario s;
  s.group = "C28";
  s.name = name;
  s.quick = s.thorough = 0;
  s.huge = true;
  s.setup = [](const Ctx& c) { (void)!symlink("/dev/null", (c.dir + "log").c_str()); };
  s.body = [by_name](const Ctx& c, Result* r) {
    if (files::free_memory() < 14) return;
    void* p = mmap(nullptr, kHuge, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    const std::string path = c.dir + "log";
    std::unique_ptr<rst::Sink> sink;
    if (by_name) {
      auto st = rst::FileNameSink::Create(path.c_str());
      if (KindOf(st) != kSuccess) return;
      sink = std::move(*st).Take();
    } else {
      sink = std::make_unique<rst::FilePtrSink>(fopen(path.c_str(), "w"), rst::FilePtrSink::ShouldClose(true));
    }
    sink->Log(std::string_view(static_cast<char*>(p), kHuge));
    r->kind = kSuccess;
    r->reached = 1;
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Common(o);
    if (!e.empty()) return e;
    if (o.r.kind == kSuccess && o.f.written != static_cast<long>(kHuge) + 1)
      return "logging returned though " + std::to_string(o.f.written) + " of " + std::to_string(kHuge + 1) + " bytes were written";
    return "";
  };
  files::add(s);
}

// Every content of up to two bytes, and every short one of a few special bytes.
void Contents(const char* name, bool important) {
  Scenario s;
  s.group = important ? "C22" : "C21";
  s.name = name;
  s.quick = s.thorough = 0;
  s.setup = [](const Ctx&) {};
  s.body = [important](const Ctx& c, Result* r) {
    files::inject(false);
    const std::string path = c.dir + "file";
    auto check = [&](const std::string& data) {
      rst::Status st = important ? rst::WriteImportantFile(path, data) : rst::WriteFile(path.c_str(), data);
      if (KindOf(st) != kSuccess || !files::holds(path.c_str(), data))
        files::bad(r, "writing a content of %zu bytes reports %s, and the file does not hold them", data.size(), Name(KindOf(st)));
      rst::StatusOr<std::string> got = rst::ReadFile(path);
      if (KindOf(got) != kSuccess || *got != data) files::bad(r, "reading back %zu bytes: other content", data.size());
      r->reached++;
    };
    for (int i = 0; i < 256; i++) check(std::string(1, static_cast<char>(i)));
    static const char k[] = {'\0', '\n', '\r', '\x1a', '\xff', 'a'};
    for (int i = 0; i < 6 * 6 * 6 * 6; i++) check({k[i % 6], k[i / 6 % 6], k[i / 36 % 6], k[i / 216]});
    r->kind = kSuccess;
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string { return Common(o); };
  files::add(s);
}

// Every message of up to three bytes of a few special ones, one after the other.
void SinkMessages(const char* name, bool by_name) {
  Scenario s;
  s.group = "C28";
  s.name = name;
  s.quick = s.thorough = 0;
  s.setup = [](const Ctx&) {};
  s.body = [by_name](const Ctx& c, Result* r) {
    files::inject(false);
    const std::string path = c.dir + "log";
    std::unique_ptr<rst::Sink> sink;
    if (by_name) {
      auto st = rst::FileNameSink::Create(path.c_str());
      if (KindOf(st) != kSuccess) return;
      sink = std::move(*st).Take();
    } else {
      sink = std::make_unique<rst::FilePtrSink>(fopen(path.c_str(), "w"), rst::FilePtrSink::ShouldClose(true));
    }
    std::string want;
    auto log = [&](const std::string& m) {
      std::unique_ptr<char[]> p(new char[m.size() + 1]);
      memcpy(p.get(), m.data(), m.size());
      p[m.size()] = 'Z';  // Not part of the message.
      sink->Log(std::string_view(p.get(), m.size()));
      want += m + "\n";
      r->reached++;
      if (!files::holds(path.c_str(), want)) files::bad(r, "record %d is not in the file as it should be", r->reached);
    };
    for (int i = 0; i < 256 && !r->bad; i++) log(std::string(1, static_cast<char>(i)));
    static const char k[] = {'\0', '\n', '%', 's', '\xff', 'a'};
    for (int n = 0; n <= 3; n++) {
      int all = 1;
      for (int i = 0; i < n; i++) all *= 6;
      for (int v = 0; v < all && !r->bad; v++) {
        std::string m;
        for (int i = 0, x = v; i < n; i++, x /= 6) m += k[x % 6];
        log(m);
      }
    }
    for (size_t n = 0; n < 300 && !r->bad; n += 7) log(Content(n));
    for (size_t n = 4090; n < 4100 && !r->bad; n++) log(std::string(n, 'x'));
    static const size_t kLong[] = {511, 512, 1023, 1024, 1025, 2047, 2048, 8191, 8192, 8193, 16384, 32767, 65535, 65536, 70000, 200000};
    for (size_t n : kLong)
      if (!r->bad) log(Content(n));
    r->kind = kSuccess;
  };
  s.judge = [](const Ctx&, const Outcome& o) -> std::string {
    std::string e = Common(o);
    return !e.empty() ? e : o.r.kind != kSuccess ? "the sink could not be created" : "";
  };
  files::add(s);
}

void Scenarios() {
  Write("write_0", 0, -1, 4, 6);
  Write("write_1", 1, 10, 4, 6);
  Write("write_100", 100, -1, 3, 5);
  Write("write_4095", 4095, 5000, 3, 5);
  Write("write_4096", 4096, -1, 3, 5);
  Write("write_4097", 4097, 1, 3, 5);
  Write("write_12289", 12289, 20000, 3, 4);
  Write("write_200000", 200000, 1, 2, 4);
  static const size_t kSmall[] = {0, 1, 2, 100, 4095, 4096, 4097, 8192};
  for (size_t n : kSmall) Read(strdup(("read_" + std::to_string(n)).c_str()), n, 3, 4);
  static const size_t kLarge[] = {20000, 131070, 131071, 131072, 131073, 262143, 262144};
  for (size_t n : kLarge) Read(strdup(("read_" + std::to_string(n)).c_str()), n, 2, n > 50000 ? 2 : 3);
  Special();
  WriteHuge();
  ReadHuge();
  Sizes("sizes_small", 0, 300, false);
  Sizes("sizes_4096", 4090, 4102, false);
  Sizes("sizes_8192", 8186, 8198, false);
  Sizes("sizes_chunk", 131068, 131076, false);
  Sizes("sizes_two_chunks", 262140, 262148, false);
  Sizes("sizes_64k", 65532, 65540, false);
  Sizes("sizes_1m", 1048574, 1048578, false);
  Sizes("sizes_5m", 5000000, 5000001, false);
  Sizes("important_sizes_small", 0, 300, true);
  Sizes("important_sizes_64k", 65532, 65540, true);
  Sizes("important_sizes_1m", 1048575, 1048577, true);
  Sizes("important_sizes_4096", 4090, 4102, true);
  Contents("contents", false);
  Contents("important_contents", true);
  Important("important_new", 100, -1, 3, 5);
  Important("important_old", 100, 50, 3, 5);
  Important("important_empty", 0, 50, 3, 5);
  Important("important_same_size", 50, 50, 3, 4);
  Important("important_4096", 4096, 5000, 3, 4);
  Important("important_10000", 10000, 20000, 2, 4);
  Important("important_150000", 150000, 3, 2, 3);
  Important("important_relative", 60, 50, 3, 4, true);
  ImportantElsewhere("important_sub", "sub/file", false, 30);
  ImportantElsewhere("important_sub_new", "sub/new", false, -1);
  ImportantElsewhere("important_sub_relative", "sub/file", true, 30);
  ImportantElsewhere("important_deep", "sub/deep.dir/a file", true, 30);
  ImportantElsewhere("important_dot", "sub/deep.dir/.file", false, -1);
  ImportantRefused("important_onto_directory", 0, kFileError);
  ImportantRefused("important_no_directory", 1, kFileError);
  ImportantRefused("important_onto_link", 2, kSuccess);
  Collision();
  ImportantSeries();
  const std::string nul("a\0b\0", 4);
  const std::vector<std::string> few = {"first", "", nul, "%s%n %d"};
  const std::vector<std::string> plain = {"first", "two\nlines", std::string(100, 'x')};
  const std::vector<std::string> big = {std::string(4095, 'x'), std::string(4096, 'y'), Content(9000)};
  const std::vector<std::string> any = {Content(256), "\n\n", "tail\r\n"};
  struct {
    const char* name;
    int kind;
  } kinds[] = {{"by_name", kByName},           {"owned", kPtrOwned},           {"shared", kPtrShared},
               {"append", kPtrAppend},         {"unbuffered", kPtrUnbuffered}, {"line_buffered", kPtrLineBuffered},
               {"small_buffer", kPtrBuffered}};
  for (auto& k : kinds) {
    auto n = [&](const char* x) { return strdup(("sink_" + std::string(k.name) + "_" + x).c_str()); };
    Sink(n("plain"), k.kind, plain, 2, 4);
    Sink(n("few"), k.kind, few, 2, 4);
    Sink(n("big"), k.kind, big, 2, 3);
    Sink(n("any"), k.kind, any, 2, 4);
  }
  SinkHuge("sink_huge_name", true);
  SinkHuge("sink_huge_ptr", false);
  SinkMessages("sink_messages_by_name", true);
  SinkMessages("sink_messages_by_pointer", false);
  SinkRefused("sink_no_directory", 0);
  SinkRefused("sink_directory", 1);
  SinkRefused("sink_empty_name", 2);
  SinkRefused("sink_read_only", 3);
  SinkSeries();
}
files::Register r(Scenarios);

}  // namespace
