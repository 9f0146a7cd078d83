// Plans (everything one simulated run needs), exploration driver, minimiser, replay files.
#pragma once
#include "core.h"
#include <set>

namespace sim {
struct Plan {
  std::string prop;
  std::map<std::string, std::string> par;
  Fs files;
  std::vector<ProcSpec> procs;
  std::vector<std::string> ops;
  std::string get(const std::string &k, const std::string &d = "") const {
    auto i = par.find(k);
    return i == par.end() ? d : i->second;
  }
  int64_t geti(const std::string &k, int64_t d = 0) const {
    auto i = par.find(k);
    return i == par.end() ? d : atoll(i->second.c_str());
  }
  void set(const std::string &k, const std::string &v) { par[k] = v; }
  void set(const std::string &k, int64_t v) { par[k] = std::to_string(v); }
};
std::string plan_text(const Plan &p);
bool plan_parse(const std::string &s, Plan &p);

struct Verdict {
  bool bad = false;
  std::string cls;    // class of the violation: stays the same while minimising
  std::string detail; // what a person reads
  std::string sig;    // signature matched against the known-findings file
  uint64_t hash = 0;  // hash of the event logs of all processes of this check
  bool nontrivial = false;
  std::string state;  // abstract outcome counted for "distinct" coverage
};
typedef Verdict (*CheckFn)(const Plan &);

struct Explorer {
  std::string prop;
  CheckFn check = nullptr;
  uint64_t seed = 1, run_index = 0;
  std::string outdir;
  uint64_t evaluations = 0, nontrivial = 0, runs = 0;
  std::set<uint64_t> distinct;       // hashes of event logs seen
  std::set<std::string> states;      // abstract outcomes
  std::vector<std::string> samples;
  std::vector<std::string> known;    // known-finding signatures for this property
  std::map<std::string, uint64_t> known_hits;
  std::string violation_line;        // set once a violation was confirmed
  bool error = false;
  uint64_t unrepeatable = 0;         // violations that failed a gate: an error at the end unless another is confirmed
  std::string unrepeatable_text;
  std::string error_text;
  double deadline = 0;               // monotonic seconds
  bool time_left() const;
  bool stop() const { return error || !violation_line.empty() || !time_left(); }
  // evaluates one plan; returns the verdict; reports a confirmed violation
  Verdict try_plan(const Plan &p);
};
struct Property {
  const char *id;
  CheckFn check;
  void (*explore)(Rng &, Explorer &); // one run
};
const std::vector<Property> &properties();
double mono();
int replay_file(const std::string &path, bool quiet);
std::string plan_brief(const Plan &p);

// memo of fault-free runs inside one worker
const ProcResult &base_run(const Fs &fs, const ProcSpec &spec);
// runs a process of a check and folds its event log into the verdict
ProcResult run_in(Verdict &v, const Fs &fs, const ProcSpec &spec);
bool fs_equal(const Fs &a, const Fs &b, std::string *diff = nullptr,
              const std::set<std::string> *ignore = nullptr);
std::string join(const std::vector<std::string> &v, const std::string &sep = " ");
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string esc(const std::string &s);
} // namespace sim
