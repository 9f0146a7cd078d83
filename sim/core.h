// Core of the deterministic simulator: in-memory world, seams, process runner.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() { // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), h);
}

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_NONE = 0,
  F_OPEN_ERR,      // target file: nth open fails with err
  F_READ_ERR,      // target stream: read event n fails with err (sticky if arg)
  F_WRITE_ERR,     // target stream: write event n fails with err after arg bytes of it (sticky)
  F_WRITE_ERR1,    // same, but only that one event fails (later ones succeed)
  F_CLOSE_ERR,     // target file: close returns err
  F_DISK_FULL,     // after `at` more bytes in total, plain files and child outputs: ENOSPC
  F_POPEN_ERR,     // nth popen returns NULL with err
  F_CHILD_NOEXEC,  // child n (by popen order): program missing, exit 127
  F_CHILD_DIES,    // child n dies (signal arg) after moving `at2` bytes
  F_CHILD_EXIT,    // child n finishes its work but exits with status arg
  F_CRASH,         // the process is killed at I/O event `at` (arg = permille of a write applied)
  F_ALLOC_FAIL,    // allocation event `at` fails; arg=1: all later ones too; arg=2: all later >= 64k
  F_ALLOC_LIMIT,   // more than `at` bytes live: allocations fail
  F_NKINDS
};
const char *fault_name(int k);
int fault_by_name(const std::string &s);

struct Fault {
  int kind = F_NONE;
  std::string target; // file name, "<stdin>", "<stdout>", "child:N", or "" (any)
  int64_t at = 0;
  int64_t at2 = 0;
  int64_t arg = 0;
  int err = 0;
};

// how the outside world behaves for one process (no faults here, only legal variation)
struct Env {
  uint64_t seed = 1;   // seeds every choice below
  int rchunk = 0;      // 0: whole requests; 1: random splits; k>1: at most k bytes
  int wchunk = 0;      // same for writes
  int bufsize = 4096;  // stdio buffer of every stream; 0: random per stream
  int fill = 0;        // heap fill: 0 zero, 1 0xff, 2 0xa5, 3 random bytes
  int sigpipe_ignored = 0;
  int crash_children = 0; // 0: children finish on what they got; 1: die with the parent
  int pipe_slack = 65536; // bytes a dead reader still swallows
};

struct ProcSpec {
  std::vector<std::string> argv; // argv[0] = tool
  std::string stdin_data;
  bool has_stdin = false;
  Env env;
  std::vector<Fault> faults;
  uint64_t max_steps = 0; // 0: default
};

struct StreamStat {
  std::string name;
  int opens = 0, reads = 0, writes = 0, closes = 0;
  int64_t rbytes = 0, wbytes = 0;
};
struct ChildStat {
  std::string cmd;
  bool reading = false;
  int64_t bytes = 0;
};

typedef std::map<std::string, std::string> Fs;

struct ProcResult {
  enum How { EXITED, SIGNALED, CRASHED, HUNG, BROKEN } how = EXITED;
  int code = 0; // exit status or signal
  bool ok() const { return how == EXITED && code == 0; }
  bool injected_crash() const { return how == CRASHED; }
  std::string out, err; // stdout, stderr as delivered
  Fs fs;                // durable state afterwards
  std::string report;   // filled by library workloads
  uint64_t steps = 0, io_events = 0, allocs = 0, alloc_peak = 0;
  uint64_t loghash = 0;
  uint32_t fired[F_NKINDS] = {0};
  std::vector<StreamStat> streams;
  std::vector<ChildStat> children;
  int leaked_handles = 0, double_closes = 0, std_closed = 0, wrong_close = 0;
  int shell_meta = 0;
  std::string escape; // a call that left the simulated world
  std::string asan;   // sanitizer report, if any
  std::string describe() const;
};

// run one simulated process on top of `fs`
ProcResult run_process(const Fs &fs, const ProcSpec &spec);
// run a library workload (function in this binary) as a simulated process
ProcResult run_workload(const Fs &fs, const ProcSpec &spec,
                        const std::function<void()> &body);

// ---- services for code running inside a simulated process
void report(const std::string &s);                 // append to the report
uint64_t steps_now();
uint64_t faults_fired();                            // faults that took effect in this process so far
void set_preempt(void (*hook)());                   // called at every instrumented block
struct HandleCounts { int open_files, open_children; };
HandleCounts handle_counts();
struct SutPause { int old; SutPause(); ~SutPause(); }; // suspend seams in harness code
void set_fault_list(const std::vector<Fault> &f);   // replace faults (library workloads)

// ---- codecs of the stub compressors
std::string enc(const std::string &data, char kind); // 'g' or 'b'
// decodes as much as possible; returns false if damaged or cut short
bool dec(const std::string &data, char kind, std::string &out);

// ---- global statistics of this worker (parent side)
struct Stats {
  uint64_t procs = 0, steps = 0, io_events = 0, allocs = 0;
  uint64_t fired[F_NKINDS] = {0};
  std::map<std::string, uint64_t> probes;
  std::map<std::string, uint64_t> outcomes;
};
extern Stats g_stats;
inline void probe(const std::string &name, uint64_t n = 1) { g_stats.probes[name] += n; }
uint64_t coverage_edges();               // distinct instrumented blocks reached so far
const unsigned char *coverage_map(size_t *n);

const std::vector<std::string> &tool_names();
bool init_world();                       // once per worker
extern bool g_asan_build;
extern int g_debug;
} // namespace sim
