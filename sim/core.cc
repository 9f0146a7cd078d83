// The simulated world: seams (link-time wraps), in-memory files, stub children,
// allocator, step clock, process runner.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
FILE *__real_popen(const char *, const char *);
int __real_pclose(FILE *);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_remove(const char *);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_fileno(FILE *);
FILE *__real_tmpfile(void);
int __real_system(const char *);
FILE *__real_freopen(const char *, const char *, FILE *);
time_t __real_time(time_t *);
clock_t __real_clock(void);
int __real_rand(void);
long __real_random(void);
pid_t __real_getpid(void);
int __real_access(const char *, int);
}
#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
         "handle_abort=0:handle_segv=1:detect_odr_violation=0:malloc_context_size=6:"
         "alloc_dealloc_mismatch=0:quarantine_size_mb=16:detect_stack_use_after_return=0";
}
#endif

namespace sim {

#ifdef SIM_ASAN
bool g_asan_build = true;
#else
bool g_asan_build = false;
#endif
int g_debug = 0;
Stats g_stats;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

static const char *FNAMES[F_NKINDS] = {
    "none",       "open_err",  "read_err",     "write_err",  "write_err1",
    "close_err",  "disk_full", "popen_err",    "child_noexec", "child_dies",
    "child_exit", "crash",     "alloc_fail",   "alloc_limit"};
const char *fault_name(int k) { return FNAMES[k]; }
int fault_by_name(const std::string &s) {
  for (int i = 0; i < F_NKINDS; i++)
    if (s == FNAMES[i]) return i;
  return -1;
}

// ================================================================ shared world
static const int MAXF = 400, MAXC = 128, MAXS = 600;
static const size_t ARENA = 1536ull << 20;
struct FileEnt {
  char name[600];
  uint8_t exists, isdir;
  uint64_t off, len, cap;
};
struct ChildEnt {
  char cmd[1200];
  uint8_t reading, finished, dead, noexec;
  int status;            // wait status once finished
  uint64_t off, len, cap; // bytes written by the parent process (write child)
  int64_t bytes;
};
struct StreamEnt {
  char name[600];
  int opens, reads, writes, closes;
  int64_t rbytes, wbytes;
};
struct Shm {
  volatile int how; // 0 running, 1 crashed, 2 hung, 3 broken
  volatile uint64_t steps, max_steps, io_events, allocs, alloc_live, alloc_peak;
  uint64_t loghash;
  uint32_t fired[F_NKINDS];
  int nfiles, nchildren, nstreams;
  int leaked_handles, double_closes, std_closed, wrong_close, shell_meta;
  char escape[200];
  int64_t quota; // -1: unlimited
  FileEnt files[MAXF];
  ChildEnt children[MAXC];
  StreamEnt streams[MAXS];
  FileEnt s_out, s_err, s_rep;
  uint64_t brk;
  unsigned char cov[1 << 16];
};
static Shm *shm;
static char *arena;
static int err_fd = -1;

// ---------------------------------------------------------------- child-private state
static bool active = false; // inside a simulated process
static int in_sim = 0;      // inside simulator code
struct InSim {
  InSim() { in_sim++; }
  ~InSim() { in_sim--; }
};
static Env env;
static std::vector<Fault> *faults;
static Rng *rng; // environment choices
static void (*preempt_hook)() = nullptr;
static uint64_t alloc_cap = 3ull << 30;
static std::string *g_stdin;

SutPause::SutPause() : old(in_sim) { in_sim++; }
SutPause::~SutPause() { in_sim = old; }
void set_preempt(void (*h)()) { preempt_hook = h; }
uint64_t steps_now() { return shm->steps; }

[[noreturn]] static void die(int how) {
  shm->how = how;
  _exit(97);
}
static void broken(const char *why) {
  snprintf(shm->escape, sizeof shm->escape, "%s", why);
  die(3);
}

} // namespace sim

extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() {
  using namespace sim;
  if (!shm) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  shm->cov[(pc * 0x9E3779B97F4A7C15ull) >> 48] = 1;
  if (!active) return;
  uint64_t s = shm->steps + 1;
  shm->steps = s;
  if (s > shm->max_steps) die(2);
  if (preempt_hook && !in_sim) preempt_hook();
}

namespace sim {

static void logev(uint64_t a, uint64_t b, uint64_t c) {
  shm->loghash = mix(mix(mix(mix(shm->loghash, a), b), c), shm->steps);
}

static void ent_reserve(uint64_t &off, uint64_t &len, uint64_t &cap, uint64_t need) {
  if (need <= cap) return;
  uint64_t nc = cap ? cap : 256;
  while (nc < need) nc *= 2;
  if (shm->brk + nc > ARENA) broken("arena exhausted");
  memcpy(arena + shm->brk, arena + off, len);
  off = shm->brk;
  cap = nc;
  shm->brk += (nc + 15) & ~15ull;
}
static void ent_write(FileEnt &f, uint64_t pos, const char *p, uint64_t n) {
  ent_reserve(f.off, f.len, f.cap, pos + n);
  if (pos > f.len) memset(arena + f.off + f.len, 0, pos - f.len);
  memcpy(arena + f.off + pos, p, n);
  if (pos + n > f.len) f.len = pos + n;
}
static void ent_append(FileEnt &f, const char *p, uint64_t n) { ent_write(f, f.len, p, n); }
static std::string ent_str(const FileEnt &f) { return std::string(arena + f.off, f.len); }

static int find_file(const std::string &name, bool create = false) {
  for (int i = 0; i < shm->nfiles; i++)
    if (name == shm->files[i].name) {
      if (shm->files[i].exists) return i;
      if (create) {
        shm->files[i].exists = 1;
        shm->files[i].isdir = 0;
        shm->files[i].len = 0;
        return i;
      }
      return -1;
    }
  if (!create) return -1;
  if (shm->nfiles >= MAXF || name.size() >= sizeof(shm->files[0].name)) broken("file table");
  FileEnt &f = shm->files[shm->nfiles];
  memset(&f, 0, sizeof f);
  strcpy(f.name, name.c_str());
  f.exists = 1;
  return shm->nfiles++;
}
static StreamEnt &stream_ent(const std::string &name) {
  for (int i = 0; i < shm->nstreams; i++)
    if (name == shm->streams[i].name) return shm->streams[i];
  if (shm->nstreams >= MAXS) broken("stream table");
  StreamEnt &s = shm->streams[shm->nstreams++];
  memset(&s, 0, sizeof s);
  snprintf(s.name, sizeof s.name, "%s", name.c_str());
  return s;
}

// ---------------------------------------------------------------- codecs
static uint32_t adler(const char *p, size_t n) {
  uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; i++) {
    h ^= (unsigned char)p[i];
    h *= 16777619u;
  }
  return h;
}
std::string enc(const std::string &d, char kind) {
  std::string o = kind == 'g' ? std::string("\x1f\x8bS") : std::string("BZhS");
  const size_t B = kind == 'g' ? 900 : 2500;
  auto u32 = [&](uint32_t v) { o.append((char *)&v, 4); };
  for (size_t i = 0; i < d.size(); i += B) {
    size_t n = std::min(B, d.size() - i);
    u32((uint32_t)n);
    o.append(d, i, n);
    u32(adler(d.data() + i, n));
  }
  u32(0);
  u32((uint32_t)d.size());
  u32(adler(d.data(), d.size()));
  return o;
}
bool dec(const std::string &s, char kind, std::string &out) {
  out.clear();
  std::string magic = kind == 'g' ? std::string("\x1f\x8bS") : std::string("BZhS");
  if (s.compare(0, magic.size(), magic) != 0 || s.size() < magic.size()) return false;
  size_t p = magic.size();
  while (true) {
    if (p + 4 > s.size()) return false;
    uint32_t n;
    memcpy(&n, &s[p], 4);
    p += 4;
    if (n == 0) {
      uint32_t tot, ck;
      if (p + 8 > s.size()) return false;
      memcpy(&tot, &s[p], 4);
      memcpy(&ck, &s[p + 4], 4);
      return tot == out.size() && ck == adler(out.data(), out.size());
    }
    if (n > 100000) return false;
    size_t have = std::min<size_t>(n, s.size() - p);
    if (have < n) { // stream the part that is there
      out.append(s, p, have);
      return false;
    }
    uint32_t ck;
    if (p + n + 4 > s.size()) {
      out.append(s, p, n);
      return false;
    }
    memcpy(&ck, &s[p + n], 4);
    if (ck != adler(&s[p], n)) return false;
    out.append(s, p, n);
    p += n + 4;
  }
}

// ---------------------------------------------------------------- mini shell
struct Cmd {
  std::vector<std::string> args;
  std::string in, out;
  bool has_in = false, has_out = false, append = false;
  bool pipe_to_next = false;
};
static bool sh_parse(const std::string &s, std::vector<Cmd> &cmds) {
  size_t i = 0;
  Cmd cur;
  std::string w;
  bool have = false;
  int redir = 0; // 1 <, 2 >, 3 >>
  auto endword = [&]() {
    if (!have) return;
    if (redir == 1) { cur.in = w; cur.has_in = true; }
    else if (redir) { cur.out = w; cur.has_out = true; cur.append = redir == 3; }
    else cur.args.push_back(w);
    redir = 0; w.clear(); have = false;
  };
  auto endcmd = [&](bool pipe) {
    endword();
    if (!cur.args.empty() || cur.has_out || cur.has_in) {
      cur.pipe_to_next = pipe;
      cmds.push_back(cur);
    }
    cur = Cmd();
  };
  while (i < s.size()) {
    char c = s[i];
    if (c == '\'') {
      size_t e = s.find('\'', i + 1);
      if (e == std::string::npos) return false;
      w += s.substr(i + 1, e - i - 1);
      have = true;
      i = e + 1;
    } else if (c == '"') {
      i++;
      have = true;
      while (true) {
        if (i >= s.size()) return false;
        if (s[i] == '"') { i++; break; }
        if (s[i] == '\\' && i + 1 < s.size() && strchr("\\\"$`", s[i + 1])) { w += s[i + 1]; i += 2; continue; }
        if (s[i] == '$' || s[i] == '`') shm->shell_meta++;
        w += s[i++];
      }
    } else if (c == '\\') {
      if (i + 1 >= s.size()) return false;
      w += s[i + 1];
      have = true;
      i += 2;
    } else if (c == ' ' || c == '\t') {
      endword();
      i++;
    } else if (c == '<' || c == '>') {
      endword();
      redir = c == '<' ? 1 : 2;
      i++;
      if (c == '>' && i < s.size() && s[i] == '>') { redir = 3; i++; }
    } else if (c == '|') {
      endcmd(true);
      i++;
    } else if (c == ';' || c == '&' || c == '\n') {
      shm->shell_meta++;
      endcmd(false);
      i++;
    } else if (c == '$' || c == '`' || c == '(' || c == ')' || c == '*' || c == '?') {
      shm->shell_meta++;
      w += c; have = true;
      i++;
    } else {
      w += c;
      have = true;
      i++;
    }
  }
  endcmd(false);
  return true;
}

// reads a simulated file for a child; returns errno or 0
static int child_read_file(const std::string &name, std::string &out) {
  int fi = find_file(name);
  if (fi < 0) return ENOENT;
  if (shm->files[fi].isdir) return EISDIR;
  out += ent_str(shm->files[fi]);
  return 0;
}

// Runs a command line on input; `sink` is what it writes to its stdout.
// out_limit: bytes of redirected output that fit on the disk (-1 unlimited).
static int sh_run(const std::string &cmdline, const std::string &input, std::string &sink,
                  bool truncate_only) {
  std::vector<Cmd> cmds;
  if (!sh_parse(cmdline, cmds)) return 2;
  int status = 0;
  std::string carry = input;
  bool from_pipe = true;
  for (size_t k = 0; k < cmds.size(); k++) {
    Cmd &c = cmds[k];
    if (c.has_out) {
      int fi = find_file(c.out);
      if (fi >= 0 && shm->files[fi].isdir) { status = 2; continue; }
      fi = find_file(c.out, true);
      if (!c.append) shm->files[fi].len = 0;
    }
    if (truncate_only) continue;
    std::string in;
    if (c.has_in) {
      if (child_read_file(c.in, in)) { status = 2; continue; }
    } else if (from_pipe) {
      in = carry;
      carry.clear();
    }
    std::string out;
    int st = 0;
    std::string prog = c.args.empty() ? "" : c.args[0];
    size_t sl = prog.rfind('/');
    if (sl != std::string::npos) prog = prog.substr(sl + 1);
    std::vector<std::string> files, flags;
    bool nomore = false;
    for (size_t j = 1; j < c.args.size(); j++) {
      if (!nomore && c.args[j] == "--") nomore = true;
      else if (!nomore && c.args[j].size() > 1 && c.args[j][0] == '-') flags.push_back(c.args[j]);
      else files.push_back(c.args[j]);
    }
    auto gather = [&](std::string &data) {
      if (files.empty()) { data = in; return 0; }
      int r = 0;
      for (auto &f : files) {
        if (f == "-") data += in;
        else if (child_read_file(f, data)) r = 1;
      }
      return r;
    };
    if (prog == "cat" || prog == "") {
      st = gather(out);
    } else if (prog == "gzip" || prog == "bzip2" || prog == "gunzip" || prog == "bunzip2" ||
               prog == "zcat" || prog == "bzcat" || prog == "pigz" || prog == "pbzip2") {
      char kind = (prog[0] == 'b' || prog == "pbzip2") ? 'b' : 'g';
      bool d = prog == "gunzip" || prog == "bunzip2" || prog == "zcat" || prog == "bzcat";
      bool tostdout = prog == "zcat" || prog == "bzcat" || files.empty();
      for (auto &f : flags) {
        if (f[1] == '-') {
          if (f == "--decompress" || f == "--uncompress") d = true;
          if (f == "--stdout" || f == "--to-stdout") tostdout = true;
        } else {
          if (f.find('d') != std::string::npos) d = true;
          if (f.find('c') != std::string::npos) tostdout = true;
        }
      }
      std::string data;
      st = gather(data);
      if (!tostdout) { // in place: not part of the simulated world
        snprintf(shm->escape, sizeof shm->escape, "in-place compressor");
        st = 1;
      } else if (d) {
        if (st == 0 || !data.empty())
          if (!dec(data, kind, out)) st = kind == 'g' ? 1 : 2;
      } else
        out = enc(data, kind);
    } else if (prog == "true" || prog == ":") {
    } else if (prog == "false") {
      st = 1;
    } else if (prog == "exit") {
      st = files.empty() ? 0 : atoi(files[0].c_str());
    } else if (prog == "head") {
      std::string data;
      int64_t nb = -1;
      for (auto &f : flags)
        if (f.compare(0, 2, "-c") == 0) nb = atoll(f.c_str() + 2);
      if (nb < 0 && !files.empty() && flags.size()) { nb = atoll(files[0].c_str()); files.erase(files.begin()); }
      st = gather(data);
      out = data.substr(0, nb < 0 ? data.size() : (size_t)nb);
    } else
      st = 127;
    if (c.has_out) {
      int fi = find_file(c.out, true);
      uint64_t n = out.size();
      if (shm->quota >= 0) {
        if ((int64_t)n > shm->quota) {
          n = shm->quota;
          st = 1;
          shm->fired[F_DISK_FULL]++;
        }
        shm->quota -= n;
      }
      ent_append(shm->files[fi], out.data(), n);
    } else if (c.pipe_to_next) {
      carry = out;
    } else
      sink += out;
    from_pipe = c.pipe_to_next || from_pipe;
    status = st;
  }
  return status;
}

// ---------------------------------------------------------------- handles
enum HType { H_FILE, H_CHILD_R, H_CHILD_W, H_IN, H_OUT, H_ERR };
struct Handle {
  HType type;
  int file = -1, child = -1;
  std::string name; // stream name
  uint64_t pos = 0;
  bool can_read = false, can_write = false, append = false;
  char *buf = nullptr;
  FILE *fp = nullptr;
  bool remove_on_close = false;
  std::string data; // what a read child delivers
  int data_status = 0;
  bool evaluated = false;
  int64_t limit = -1; // read child dies after that many bytes
  int64_t die_after = -1, slack_left = 0;
  int forced_exit = -1, die_status = 0;
  bool eof_seen = false;
};
static std::map<FILE *, Handle *> *handles;

static Fault *match(int kind, const std::string &target, int64_t at) {
  for (auto &f : *faults)
    if (f.kind == kind && (f.target.empty() || f.target == target) &&
        (f.at == at || f.at < 0))
      return &f;
  return nullptr;
}
static Fault *match_from(int kind, const std::string &target, int64_t at) { // sticky
  for (auto &f : *faults)
    if (f.kind == kind && (f.target.empty() || f.target == target) && at >= f.at) return &f;
  return nullptr;
}
static void fire(int kind) { shm->fired[kind]++; }

static void io_event() {
  uint64_t n = shm->io_events;
  shm->io_events = n + 1;
  if (shm->steps + 300 * n > shm->max_steps) die(2); // an I/O call counts as 300 blocks
  for (auto &f : *faults)
    if (f.kind == F_CRASH && (uint64_t)f.at == n && f.arg <= 0) {
      fire(F_CRASH);
      die(1);
    }
}
// for writes: permille of the data applied before the crash, or -1
static int crash_in_write() {
  uint64_t n = shm->io_events - 1;
  for (auto &f : *faults)
    if (f.kind == F_CRASH && (uint64_t)f.at == n && f.arg > 0) return (int)f.arg;
  return -1;
}

static size_t chunk(int mode, size_t want) {
  if (want <= 1 || mode == 0) return want;
  if (mode == 1) {
    uint64_t r = rng->next();
    if ((r & 3) == 0) return want;
    if ((r & 3) == 1) return 1;
    return 1 + (r >> 8) % want;
  }
  return std::min<size_t>(want, mode);
}

static void eval_read_child(Handle *h) {
  if (h->evaluated) return;
  h->evaluated = true;
  ChildEnt &c = shm->children[h->child];
  if (c.noexec) {
    h->data_status = 127;
    return;
  }
  h->data_status = sh_run(c.cmd, "", h->data, false);
  if (h->limit >= 0 && (int64_t)h->data.size() >= h->limit) {
    h->data.resize(h->limit);
    h->data_status = -1;
    fire(F_CHILD_DIES);
  } else if (h->forced_exit >= 0) {
    h->data_status = h->forced_exit;
    fire(F_CHILD_EXIT);
  }
}

static ssize_t ck_read(void *cookie, char *buf, size_t size) {
  InSim g;
  Handle *h = (Handle *)cookie;
  StreamEnt &st = stream_ent(h->name);
  io_event();
  int n = st.reads++;
  for (auto &f : *faults)
    if (f.kind == F_READ_ERR && (f.target.empty() || f.target == h->name) &&
        (n == f.at || (f.arg && n >= f.at))) {
      fire(F_READ_ERR);
      logev(1, n, f.err);
      errno = f.err;
      return -1;
    }
  if (!h->can_read) { errno = EBADF; return -1; }
  size_t want = chunk(env.rchunk, size), got = 0;
  if (h->type == H_FILE) {
    FileEnt &f = shm->files[h->file];
    if (f.isdir) { errno = EISDIR; return -1; }
    if (h->pos < f.len) {
      got = std::min<uint64_t>(want, f.len - h->pos);
      memcpy(buf, arena + f.off + h->pos, got);
      h->pos += got;
    }
  } else if (h->type == H_IN) {
    if (h->pos < g_stdin->size()) {
      got = std::min<uint64_t>(want, g_stdin->size() - h->pos);
      memcpy(buf, g_stdin->data() + h->pos, got);
      h->pos += got;
    }
  } else if (h->type == H_CHILD_R) {
    eval_read_child(h);
    if (h->pos < h->data.size()) {
      got = std::min<uint64_t>(want, h->data.size() - h->pos);
      memcpy(buf, h->data.data() + h->pos, got);
      h->pos += got;
    } else
      h->eof_seen = true;
  }
  st.rbytes += got;
  logev(1, n, got);
  return got;
}

static ssize_t ck_write(void *cookie, const char *buf, size_t size) {
  InSim g;
  Handle *h = (Handle *)cookie;
  if (h->type == H_ERR) {
    if (shm->s_err.len < (8u << 20)) ent_append(shm->s_err, buf, size);
    return size;
  }
  StreamEnt &st = stream_ent(h->name);
  size_t done = 0;
  while (done < size) {
    size_t n = chunk(env.wchunk, size - done);
    io_event();
    int ev = st.writes++;
    int cr = crash_in_write();
    size_t apply = n;
    int err = 0;
    bool was_dead = false;
    if (cr >= 0) apply = n * (size_t)cr / 1000;
    if (!h->can_write) { errno = EBADF; return done; }
    for (auto &f : *faults)
      if ((f.kind == F_WRITE_ERR || f.kind == F_WRITE_ERR1) &&
          (f.target.empty() || f.target == h->name)) {
        if (ev == f.at) {
          apply = std::min<size_t>(n, (size_t)f.arg);
          if (apply == n && n) apply = n - 1;
          err = f.err;
          fire(f.kind);
        } else if (f.kind == F_WRITE_ERR && ev > f.at) {
          apply = 0;
          err = f.err;
        }
      }
    if (h->type == H_FILE) {
      FileEnt &f = shm->files[h->file];
      if (shm->quota >= 0 && (int64_t)apply > shm->quota) {
        apply = shm->quota;
        if (!err) err = ENOSPC;
        fire(F_DISK_FULL);
      }
      if (shm->quota >= 0) shm->quota -= apply;
      if (h->append) h->pos = f.len;
      ent_write(f, h->pos, buf + done, apply);
      h->pos += apply;
    } else if (h->type == H_OUT) {
      ent_append(shm->s_out, buf + done, apply);
    } else if (h->type == H_CHILD_W) {
      ChildEnt &c = shm->children[h->child];
      // a child that died or whose disk is full stops reading
      if (!c.dead && h->die_after >= 0 && c.bytes + (int64_t)apply > h->die_after) {
        int64_t take = std::max<int64_t>(0, h->die_after - c.bytes);
        FileEnt tmp;
        memset(&tmp, 0, sizeof tmp);
        tmp.off = c.off; tmp.len = c.len; tmp.cap = c.cap;
        ent_append(tmp, buf + done, take);
        c.off = tmp.off; c.len = tmp.len; c.cap = tmp.cap;
        c.dead = 1;
        fire(c.noexec ? F_CHILD_NOEXEC : F_CHILD_DIES);
      }
      if (!c.dead && shm->quota >= 0 && (int64_t)(c.len + apply) > shm->quota + 70000) {
        c.dead = 1;
        fire(F_DISK_FULL);
      }
      if (c.dead) {
        was_dead = true;
        if ((int64_t)apply > h->slack_left) {
          apply = h->slack_left;
          err = EPIPE;
        }
        h->slack_left -= apply;
      } else {
        FileEnt tmp;
        memset(&tmp, 0, sizeof tmp);
        tmp.off = c.off; tmp.len = c.len; tmp.cap = c.cap;
        ent_append(tmp, buf + done, apply);
        c.off = tmp.off; c.len = tmp.len; c.cap = tmp.cap;
      }
      c.bytes += apply;
    }
    st.wbytes += apply;
    done += apply;
    logev(2, ev, mix(apply, hash_bytes(buf + done - apply, apply)));
    if (cr >= 0) {
      fire(F_CRASH);
      die(1);
    }
    if (err) {
      if (err == EPIPE && !env.sigpipe_ignored) {
        (void)was_dead;
        signal(SIGPIPE, SIG_DFL);
        raise(SIGPIPE);
      }
      errno = err;
      return done;
    }
  }
  return done;
}

static int ck_seek(void *cookie, off64_t *off, int whence) {
  InSim g;
  Handle *h = (Handle *)cookie;
  if (h->type != H_FILE) { errno = ESPIPE; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos
                                                           : (int64_t)shm->files[h->file].len;
  int64_t np = base + *off;
  if (np < 0) { errno = EINVAL; return -1; }
  h->pos = np;
  *off = np;
  return 0;
}

static void finish_write_child(int ci, int exit_override) {
  ChildEnt &c = shm->children[ci];
  if (c.finished) return;
  c.finished = 1;
  std::string input(arena + c.off, c.len), sink;
  if (c.noexec) {
    c.status = 127 << 8;
    return;
  }
  if (c.dead) { // killed in the middle: what it had produced so far stays, unfinished
    std::vector<Cmd> cmds;
    if (sh_parse(c.cmd, cmds) && !cmds.empty() && cmds.back().has_out) {
      std::string full;
      int64_t q = shm->quota;
      shm->quota = -1;
      sh_run(c.cmd, input, sink, false);
      shm->quota = q;
      int fi = find_file(cmds.back().out);
      if (fi >= 0 && shm->files[fi].len) {
        uint64_t keep = shm->files[fi].len * 2 / 3;
        if (keep > 12 && shm->files[fi].len - keep < 13) keep = shm->files[fi].len - 13;
        if (shm->quota >= 0 && (int64_t)keep > shm->quota) keep = shm->quota;
        shm->files[fi].len = keep;
      }
    }
    return;
  }
  int st = sh_run(c.cmd, input, sink, false);
  if (!sink.empty()) ent_append(shm->s_out, sink.data(), sink.size());
  c.status = (exit_override >= 0 ? exit_override : st) << 8;
}

static int ck_close(void *cookie) {
  InSim g;
  Handle *h = (Handle *)cookie;
  StreamEnt &st = stream_ent(h->name);
  io_event();
  int n = st.closes++;
  logev(3, n, 0);
  int rc = 0;
  if (h->type == H_FILE)
    if (Fault *f = match(F_CLOSE_ERR, h->name, n)) {
      fire(F_CLOSE_ERR);
      errno = f->err;
      rc = -1;
    }
  return rc;
}

static FILE *make_stream(Handle *h, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(h, mode, io);
  if (!fp) broken("fopencookie");
  static const int sizes[] = {1, 2, 3, 7, 16, 61, 128, 509, 1024, 4096, 4096, 65536};
  int bs = env.bufsize ? env.bufsize : sizes[rng->below(12)];
  if (h->type == H_ERR) bs = 65536;
  h->buf = (char *)__real_malloc(bs + 16);
  setvbuf(fp, h->buf, _IOFBF, bs);
  h->fp = fp;
  (*handles)[fp] = h;
  return fp;
}

static FILE *sim_fopen(const char *name, const char *mode) {
  InSim g;
  std::string nm(name);
  StreamEnt &st = stream_ent(nm);
  io_event();
  int n = st.opens++;
  logev(4, n, hash_str(nm));
  bool w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
  if (Fault *f = match(F_OPEN_ERR, nm, n)) {
    fire(F_OPEN_ERR);
    errno = f->err;
    return nullptr;
  }
  int fi = find_file(nm);
  if (fi < 0) {
    if (!w && !a) { errno = ENOENT; return nullptr; }
    if (nm.empty() || nm.back() == '/') { errno = ENOENT; return nullptr; }
    fi = find_file(nm, true);
  } else if (shm->files[fi].isdir && (w || a || plus)) {
    errno = EISDIR;
    return nullptr;
  }
  if (w) shm->files[fi].len = 0;
  Handle *h = new Handle;
  h->type = H_FILE;
  h->file = fi;
  h->name = nm;
  h->can_read = mode[0] == 'r' || plus;
  h->can_write = w || a || plus;
  h->append = a;
  return make_stream(h, mode);
}

static FILE *sim_popen(const char *cmd, const char *mode) {
  InSim g;
  int ci = shm->nchildren;
  if (ci >= MAXC) broken("children");
  char nmb[32];
  snprintf(nmb, sizeof nmb, "child:%d", ci);
  std::string nm(nmb);
  StreamEnt &st = stream_ent(nm);
  io_event();
  st.opens++;
  logev(5, ci, hash_bytes(cmd, strlen(cmd)));
  if ((mode[0] != 'r' && mode[0] != 'w') || (mode[1] && mode[1] != 'e')) {
    errno = EINVAL;
    return nullptr;
  }
  if (Fault *f = match(F_POPEN_ERR, nm, 0)) {
    fire(F_POPEN_ERR);
    shm->nchildren++;
    memset(&shm->children[ci], 0, sizeof(ChildEnt));
    shm->children[ci].finished = 1;
    errno = f->err;
    return nullptr;
  }
  ChildEnt &c = shm->children[ci];
  shm->nchildren++;
  memset(&c, 0, sizeof c);
  snprintf(c.cmd, sizeof c.cmd, "%s", cmd);
  c.reading = mode[0] == 'r';
  Handle *h = new Handle;
  h->type = c.reading ? H_CHILD_R : H_CHILD_W;
  h->child = ci;
  h->name = nm;
  h->can_read = c.reading;
  h->can_write = !c.reading;
  h->slack_left = env.pipe_slack;
  if (match(F_CHILD_NOEXEC, nm, 0)) {
    c.noexec = 1;
    h->die_after = 0;
    h->die_status = 127 << 8;
    if (c.reading) fire(F_CHILD_NOEXEC);
  } else if (Fault *f = match(F_CHILD_DIES, nm, 0)) {
    if (c.reading) h->limit = f->at2; else h->die_after = f->at2;
    h->die_status = f->arg < 0 ? (int)-f->arg : (int)f->arg << 8;
  }
  if (Fault *f = match(F_CHILD_EXIT, nm, 0)) h->forced_exit = (int)f->arg;
  if (!c.reading && !c.noexec) {
    std::string dummy;
    sh_run(cmd, "", dummy, true); // the shell opens its redirections
  }
  return make_stream(h, c.reading ? "r" : "w");
}

static int real_close(Handle *h) {
  FILE *fp = h->fp;
  handles->erase(fp);
  int e0 = errno;
  errno = 0;
  int rc = __real_fclose(fp); // flushes through ck_write, then ck_close
  int e = errno;
  errno = e ? e : e0;
  __real_free(h->buf);
  return rc;
}

static int sim_close(FILE *fp, bool via_pclose) {
  InSim g;
  auto it = handles->find(fp);
  if (it == handles->end()) {
    shm->double_closes++;
    errno = EBADF;
    return -1;
  }
  Handle *h = it->second;
  bool child = h->type == H_CHILD_R || h->type == H_CHILD_W;
  if (child != via_pclose) shm->wrong_close++;
  if (h->type == H_IN || h->type == H_OUT || h->type == H_ERR) shm->std_closed++;
  int rc = real_close(h);
  if (child) {
    ChildEnt &c = shm->children[h->child];
    int status;
    if (h->type == H_CHILD_R) {
      eval_read_child(h);
      if (h->data_status == -1) status = h->die_status;
      else if (h->pos < h->data.size()) { // reader went away early
        uint64_t left = h->data.size() - h->pos;
        status = left > (uint64_t)env.pipe_slack ? (rng->below(2) ? SIGPIPE : 141 << 8)
                                                 : h->data_status << 8;
      } else
        status = h->data_status << 8;
      c.status = status;
      c.finished = 1;
    } else {
      if (h->forced_exit >= 0 && !c.dead) fire(F_CHILD_EXIT);
      if (!c.dead && h->die_after >= 0) {
        // child that was to die later than all data: dies now, before its last flush
        c.dead = 1;
        fire(c.noexec ? F_CHILD_NOEXEC : F_CHILD_DIES);
      }
      bool dead = c.dead;
      finish_write_child(h->child, h->forced_exit);
      if (dead) c.status = h->die_status ? h->die_status : 1 << 8;
      if (c.noexec) c.status = 127 << 8;
      status = c.status;
    }
    logev(6, h->child, status);
    delete h;
    return status ? status : rc;
  }
  if (h->remove_on_close && h->file >= 0) shm->files[h->file].exists = 0;
  delete h;
  return rc;
}

uint64_t faults_fired() {
  uint64_t n = 0;
  for (int i = 0; i < F_NKINDS; i++) n += shm->fired[i];
  return n;
}
HandleCounts handle_counts() {
  HandleCounts c = {0, 0};
  if (handles)
    for (auto &p : *handles) {
      if (p.second->type == H_FILE) c.open_files++;
      if (p.second->type == H_CHILD_R || p.second->type == H_CHILD_W) c.open_children++;
    }
  return c;
}
void report(const std::string &s) {
  InSim g;
  if (active) ent_append(shm->s_rep, s.data(), s.size());
}
void set_fault_list(const std::vector<Fault> &f) {
  InSim g;
  *faults = f;
  shm->quota = -1;
  for (auto &x : f)
    if (x.kind == F_DISK_FULL) shm->quota = x.at;
}

// ---------------------------------------------------------------- allocation
static inline void fill_mem(void *p, size_t n) {
#ifndef SIM_ASAN
  if (!p) return;
  switch (env.fill) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xff, n); break;
  case 2: memset(p, 0xa5, n); break;
  default: {
    uint64_t x = mix(env.seed, shm->allocs);
    unsigned char *c = (unsigned char *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      memcpy(c + i, &x, 8);
    }
    for (; i < n; i++) c[i] = (unsigned char)(x >> (8 * (i & 7)));
  }
  }
#endif
}
static bool alloc_gate(size_t n) { // false: the allocation fails
  uint64_t k = shm->allocs;
  shm->allocs = k + 1;
  if (shm->alloc_live + n > alloc_cap) return false;
  for (auto &f : *faults) {
    if (f.kind == F_ALLOC_FAIL && (k == (uint64_t)f.at || (f.arg == 1 && k > (uint64_t)f.at) ||
                                   (f.arg == 2 && k > (uint64_t)f.at && n >= 65536))) {
      shm->fired[F_ALLOC_FAIL]++;
      return false;
    }
    if (f.kind == F_ALLOC_LIMIT && shm->alloc_live + n > (uint64_t)f.at) {
      shm->fired[F_ALLOC_LIMIT]++;
      return false;
    }
  }
  return true;
}
static inline void account(void *p) {
  if (!p) return;
  shm->alloc_live = shm->alloc_live + malloc_usable_size(p);
  if (shm->alloc_live > shm->alloc_peak) shm->alloc_peak = shm->alloc_live;
}
static inline void unaccount(void *p) {
  if (!p) return;
  uint64_t n = malloc_usable_size(p);
  shm->alloc_live = shm->alloc_live > n ? shm->alloc_live - n : 0;
}
static inline bool on() { return active && !in_sim; }

static void *do_malloc(size_t n) {
  if (!on()) return __real_malloc(n);
  if (!alloc_gate(n)) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n);
  if (p) {
    account(p);
    fill_mem(p, malloc_usable_size(p));
  }
  return p;
}
static void do_free(void *p) {
  if (active && p && !in_sim) {
    unaccount(p);
#ifndef SIM_ASAN
    size_t n = malloc_usable_size(p);
    if (n <= 65536) fill_mem(p, n);
#endif
  }
  __real_free(p);
}
} // namespace sim

using namespace sim;

extern "C" {
FILE *__wrap_fopen(const char *n, const char *m) {
  if (!on()) return __real_fopen(n, m);
  return sim_fopen(n, m);
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_fclose(FILE *f) {
  if (!on()) return __real_fclose(f);
  return sim_close(f, false);
}
FILE *__wrap_popen(const char *c, const char *m) {
  if (!on()) return __real_popen(c, m);
  return sim_popen(c, m);
}
int __wrap_pclose(FILE *f) {
  if (!on()) return __real_pclose(f);
  return sim_close(f, true);
}
void *__wrap_malloc(size_t n) { return do_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (!on()) return __real_calloc(a, b);
  if ((b && a > SIZE_MAX / b) || !alloc_gate(a * b)) { errno = ENOMEM; return nullptr; }
  void *p = __real_calloc(a, b);
  account(p);
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (!on()) return __real_realloc(q, n);
  if (!alloc_gate(n)) { errno = ENOMEM; return nullptr; }
  if (q == nullptr) {
    void *p = __real_malloc(n);
    if (p) { account(p); fill_mem(p, malloc_usable_size(p)); }
    return p;
  }
  size_t old = malloc_usable_size(q);
  // always move: stale pointers into the old block show up
  if (n == 0) { unaccount(q); __real_free(q); return nullptr; }
  void *p = __real_malloc(n);
  if (!p) return nullptr;
  account(p);
  fill_mem(p, malloc_usable_size(p));
  memcpy(p, q, old < n ? old : n);
  do_free(q);
  return p;
}
void __wrap_free(void *p) { do_free(p); }
char *__wrap_strdup(const char *s) {
  if (!on()) return __real_strdup(s);
  size_t n = strlen(s) + 1;
  char *p = (char *)do_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
int __wrap_unlink(const char *n) {
  if (!on()) return __real_unlink(n);
  InSim g;
  io_event();
  int fi = find_file(n);
  if (fi < 0) { errno = ENOENT; return -1; }
  shm->files[fi].exists = 0;
  return 0;
}
int __wrap_remove(const char *n) {
  if (!on()) return __real_remove(n);
  return __wrap_unlink(n);
}
int __wrap_rename(const char *a, const char *b) {
  if (!on()) return __real_rename(a, b);
  InSim g;
  io_event();
  int fa = find_file(a);
  if (fa < 0) { errno = ENOENT; return -1; }
  if (Fault *f = match(F_OPEN_ERR, b, stream_ent(b).opens)) {
    fire(F_OPEN_ERR);
    errno = f->err;
    return -1;
  }
  int fb = find_file(b, true);
  FileEnt &x = shm->files[fa], &y = shm->files[fb];
  y.off = x.off; y.len = x.len; y.cap = x.cap; y.isdir = x.isdir;
  x.exists = 0; x.len = x.cap = x.off = 0;
  return 0;
}
int __wrap_access(const char *n, int m) {
  if (!on()) return __real_access(n, m);
  InSim g;
  if (find_file(n) < 0) { errno = ENOENT; return -1; }
  return 0;
}
int __wrap_fileno(FILE *f) { return __real_fileno(f); }
FILE *__wrap_tmpfile(void) {
  if (!on()) return __real_tmpfile();
  char nm[64];
  snprintf(nm, sizeof nm, "/tmp/tmpfile%d", shm->nfiles);
  FILE *f = sim_fopen(nm, "w+");
  if (f) (*handles)[f]->remove_on_close = true;
  return f;
}
int __wrap_system(const char *c) {
  if (!on()) return __real_system(c);
  InSim g;
  io_event();
  std::string sink;
  if (!c) return 1;
  return sh_run(c, "", sink, false) << 8;
}
FILE *__wrap_freopen(const char *n, const char *m, FILE *f) {
  if (!on()) return __real_freopen(n, m, f);
  broken("freopen");
  return nullptr;
}
// clocks and randomness: seeded, so that a dependence on them shows as a difference
time_t __wrap_time(time_t *t) {
  if (!on()) return __real_time(t);
  time_t v = 1600000000 + (time_t)(env.seed % 100000000) + (time_t)(shm->steps >> 20);
  if (t) *t = v;
  return v;
}
clock_t __wrap_clock(void) {
  if (!on()) return __real_clock();
  return (clock_t)(shm->steps + env.seed % 1000);
}
int __wrap_rand(void) {
  if (!on()) return __real_rand();
  InSim g;
  return (int)(rng->next() >> 33);
}
long __wrap_random(void) {
  if (!on()) return __real_random();
  InSim g;
  return (long)(rng->next() >> 33);
}
pid_t __wrap_getpid(void) {
  if (!on()) return __real_getpid();
  return 1000 + (pid_t)(env.seed % 30000);
}
} // extern "C"

void *operator new(size_t n) {
  if (!on()) {
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  void *p = do_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return on() ? do_malloc(n ? n : 1) : __real_malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }

#define TOOLS(X) X(counts2kn) X(varigram_kn) X(perplexity) X(arpa2arpa) X(arpa2bin) X(bin2arpa) \
  X(arpasize) X(check_model) X(add_zeroprob_grams) X(simpleinterpolate2arpa)
#define DECL(n) extern "C" int app_main_##n(int, char **);
TOOLS(DECL)

namespace sim {
struct ToolEnt { const char *name; int (*fn)(int, char **); };
#define ENT(n) {#n, app_main_##n},
static const ToolEnt tools[] = {TOOLS(ENT)};
const std::vector<std::string> &tool_names() {
  static std::vector<std::string> v;
  if (v.empty())
    for (auto &t : tools) v.push_back(t.name);
  return v;
}

bool init_world() {
  if (shm) return true;
  // children that outlive a crash etc. must not see our terminal
  void *m = mmap(nullptr, sizeof(Shm) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void *a = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || a == MAP_FAILED) return false;
  arena = (char *)a;
  shm = (Shm *)m;
  err_fd = memfd_create("simerr", 0);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  return true;
}

uint64_t coverage_edges() {
  uint64_t n = 0;
  for (size_t i = 0; i < sizeof shm->cov; i++) n += shm->cov[i] != 0;
  return n;
}
const unsigned char *coverage_map(size_t *n) {
  *n = sizeof shm->cov;
  return shm->cov;
}

static Handle *std_handle(HType t, const char *name) {
  Handle *h = new Handle;
  h->type = t;
  h->name = name;
  h->can_read = t == H_IN;
  h->can_write = t != H_IN;
  return h;
}

static ProcResult run_impl(const Fs &fs, const ProcSpec &spec, const std::function<void()> *body) {
  fflush(stdout);
  fflush(stderr);
  if (shm->brk > (256ull << 20)) madvise(arena, ARENA, MADV_REMOVE);
  // reset the world
  {
    static unsigned char keep[sizeof shm->cov];
    memcpy(keep, shm->cov, sizeof keep);
    int nf = shm->nfiles, nc = shm->nchildren, ns = shm->nstreams;
    (void)nf; (void)nc; (void)ns;
    shm->how = 0;
    shm->steps = shm->io_events = shm->allocs = shm->alloc_live = shm->alloc_peak = 0;
    shm->loghash = 0;
    memset(shm->fired, 0, sizeof shm->fired);
    shm->nfiles = shm->nchildren = shm->nstreams = 0;
    shm->leaked_handles = shm->double_closes = shm->std_closed = shm->wrong_close = shm->shell_meta = 0;
    shm->escape[0] = 0;
    shm->quota = -1;
    memset(&shm->s_out, 0, sizeof(FileEnt));
    memset(&shm->s_err, 0, sizeof(FileEnt));
    memset(&shm->s_rep, 0, sizeof(FileEnt));
    shm->brk = 0;
  }
  shm->max_steps = spec.max_steps ? spec.max_steps : 1500000000ull;
  for (auto &p : fs) {
    std::string nm = p.first;
    bool dir = !nm.empty() && nm.back() == '/';
    if (dir) nm.pop_back();
    int fi = find_file(nm, true);
    shm->files[fi].isdir = dir;
    ent_append(shm->files[fi], p.second.data(), p.second.size());
  }
  for (auto &f : spec.faults)
    if (f.kind == F_DISK_FULL) shm->quota = f.at;
  const ToolEnt *tool = nullptr;
  if (!body) {
    for (auto &t : tools)
      if (spec.argv.at(0) == t.name) tool = &t;
    if (!tool) {
      fprintf(stderr, "no tool %s\n", spec.argv[0].c_str());
      exit(2);
    }
  }
  if (ftruncate(err_fd, 0)) {}
  lseek(err_fd, 0, SEEK_SET);

  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    in_sim = 1;
    env = spec.env;
    faults = new std::vector<Fault>(spec.faults);
    rng = new Rng(mix(spec.env.seed, 77));
    handles = new std::map<FILE *, Handle *>;
    g_stdin = new std::string(spec.stdin_data);
    rlim_t cpu = spec.max_steps > 2000000000ull ? 400 : 100;
    struct rlimit rl = {cpu, cpu + 10};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGPIPE, env.sigpipe_ignored ? SIG_IGN : SIG_DFL);
    dup2(err_fd, 2);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    dup2(dn, 1);
    Handle *hi = std_handle(H_IN, "<stdin>"), *ho = std_handle(H_OUT, "<stdout>"),
           *he = std_handle(H_ERR, "<stderr>");
    stdin = make_stream(hi, "r");
    stdout = make_stream(ho, "w");
    stderr = make_stream(he, "w");
    static __gnu_cxx::stdio_sync_filebuf<char> *bi, *bo, *be;
    bi = new __gnu_cxx::stdio_sync_filebuf<char>(stdin);
    bo = new __gnu_cxx::stdio_sync_filebuf<char>(stdout);
    be = new __gnu_cxx::stdio_sync_filebuf<char>(stderr);
    std::cin.rdbuf(bi);
    std::cout.rdbuf(bo);
    std::cerr.rdbuf(be);
    std::clog.rdbuf(be);
    std::vector<char *> av;
    for (auto &s : spec.argv) av.push_back(__real_strdup(s.c_str()));
    av.push_back(nullptr);
    int rc = 0;
    active = true;
    in_sim = 0;
    if (body)
      (*body)();
    else
      rc = tool->fn((int)spec.argv.size(), av.data());
    if (!body) { // main returned: the streams it used are gone
      HandleCounts hc = handle_counts();
      shm->leaked_handles = hc.open_files + hc.open_children;
    }
    exit(rc);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  ProcResult r;
  if (shm->how == 1) r.how = ProcResult::CRASHED;
  else if (shm->how == 2) r.how = ProcResult::HUNG;
  else if (shm->how == 3) r.how = ProcResult::BROKEN;
  else if (WIFSIGNALED(status)) {
    r.how = ProcResult::SIGNALED;
    r.code = WTERMSIG(status);
    if (r.code == SIGXCPU || r.code == SIGKILL) r.how = ProcResult::HUNG;
  } else {
    r.how = ProcResult::EXITED;
    r.code = WEXITSTATUS(status);
  }
  // children still running when their parent ended
  {
    env = spec.env;
    bool kill_them = r.how == ProcResult::CRASHED && spec.env.crash_children == 1;
    for (int i = 0; i < shm->nchildren; i++) {
      ChildEnt &c = shm->children[i];
      if (c.reading || c.finished) continue;
      if (kill_them) c.dead = 1;
      finish_write_child(i, -1);
    }
  }
  for (int i = 0; i < shm->nfiles; i++)
    if (shm->files[i].exists)
      r.fs[std::string(shm->files[i].name) + (shm->files[i].isdir ? "/" : "")] = ent_str(shm->files[i]);
  r.out = ent_str(shm->s_out);
  r.err = ent_str(shm->s_err);
  r.report = ent_str(shm->s_rep);
  r.steps = shm->steps;
  r.io_events = shm->io_events;
  r.allocs = shm->allocs;
  r.alloc_peak = shm->alloc_peak;
  r.loghash = shm->loghash;
  memcpy(r.fired, shm->fired, sizeof r.fired);
  for (int i = 0; i < shm->nstreams; i++) {
    StreamEnt &s = shm->streams[i];
    StreamStat x;
    x.name = s.name;
    x.opens = s.opens; x.reads = s.reads; x.writes = s.writes; x.closes = s.closes;
    x.rbytes = s.rbytes; x.wbytes = s.wbytes;
    r.streams.push_back(x);
  }
  for (int i = 0; i < shm->nchildren; i++) {
    ChildStat c;
    c.cmd = shm->children[i].cmd;
    c.reading = shm->children[i].reading;
    c.bytes = shm->children[i].bytes;
    r.children.push_back(c);
  }
  r.leaked_handles = shm->leaked_handles;
  r.double_closes = shm->double_closes;
  r.std_closed = shm->std_closed;
  r.wrong_close = shm->wrong_close;
  r.shell_meta = shm->shell_meta;
  r.escape = shm->escape;
  {
    off_t n = lseek(err_fd, 0, SEEK_END);
    if (n > 0) {
      std::string s((size_t)std::min<off_t>(n, 1 << 16), 0);
      ssize_t k = pread(err_fd, &s[0], s.size(), 0);
      s.resize(k > 0 ? k : 0);
      if (s.find("AddressSanitizer") != std::string::npos) r.asan = s;
      else r.err += s;
    }
  }
  g_stats.procs++;
  g_stats.steps += r.steps;
  g_stats.io_events += r.io_events;
  g_stats.allocs += r.allocs;
  for (int i = 0; i < F_NKINDS; i++) g_stats.fired[i] += r.fired[i];
  if (g_debug > 1) {
    fprintf(stderr, "[proc");
    for (auto &a : spec.argv) fprintf(stderr, " %s", a.c_str());
    for (auto &f : spec.faults)
      fprintf(stderr, " {%s %s at=%lld at2=%lld arg=%lld err=%d}", fault_name(f.kind), f.target.c_str(),
              (long long)f.at, (long long)f.at2, (long long)f.arg, f.err);
    fprintf(stderr, "] %s steps=%llu io=%llu allocs=%llu\n", r.describe().c_str(),
            (unsigned long long)r.steps, (unsigned long long)r.io_events, (unsigned long long)r.allocs);
    if (g_debug > 2) fprintf(stderr, "%s\n", r.err.c_str());
  }
  return r;
}

ProcResult run_process(const Fs &fs, const ProcSpec &spec) { return run_impl(fs, spec, nullptr); }
ProcResult run_workload(const Fs &fs, const ProcSpec &spec, const std::function<void()> &body) {
  return run_impl(fs, spec, &body);
}

std::string ProcResult::describe() const {
  char b[100];
  switch (how) {
  case EXITED: snprintf(b, sizeof b, "exit status %d", code); break;
  case SIGNALED: snprintf(b, sizeof b, "killed by signal %d", code); break;
  case CRASHED: return "killed by the injected crash";
  case HUNG: return "no end within the step bound";
  default: snprintf(b, sizeof b, "left the simulated world: %s", escape.c_str());
  }
  return b;
}
} // namespace sim
