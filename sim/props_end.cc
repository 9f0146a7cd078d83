// Every command ends by itself (C13).
#include "props.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
static const uint64_t BOUND = 400000000ull; // blocks; runs over inputs of these sizes stay far below it
Verdict check_c13(const Plan &p) {
  Verdict v;
  Fs fs = p.files;
  for (size_t k = 0; k < p.procs.size(); k++) {
    ProcSpec q = p.procs[k];
    q.max_steps = BOUND;
    Fs before = fs;
    ProcResult r = run_in(v, fs, q);
    if (harness(v, r)) return v;
    static bool sure = false; // the first time, a run that reached the bound gets twelve times as long
    if (r.how == ProcResult::HUNG && !sure) {
      q.max_steps = 12 * BOUND;
      fs = before;
      r = run_in(v, fs, q);
      if (harness(v, r)) return v;
    }
    if (r.how == ProcResult::HUNG) {
      sure = true;
      v.bad = true;
      v.cls = "no-end";
      v.detail = fmt("step %d, %s: no end within the bound of %llu blocks (faults: %s)", (int)k + 1, join(q.argv).c_str(), (unsigned long long)BOUND, fired_text(r).c_str());
      v.sig = q.argv[0] + "/no-end";
      v.hash = hash_str(v.detail); // how long it was watched is not part of it
      return v;
    }
    v.nontrivial = v.nontrivial || any_fired(r) || p.get("odd") != "";
    v.state += (k ? " " : "") + q.argv[0] + " " + p.get("odd") + " " + fired_text(r) + " -> " + how_text(r) + fmt(" 2^%d", (int)std::log2(1 + r.steps));
    if (k && k + 1 == p.procs.size() && p.geti("rerun") && q.faults.empty()) {
      // faults have stopped: the command does what it does on an untouched disk
      ProcSpec q0 = p.procs[0];
      q0.faults.clear();
      q0.env = q.env;
      q0.max_steps = BOUND;
      if (q0.argv != q.argv) return v;
      const ProcResult &b = base_run(p.files, q0);
      if (harness(v, b)) return v;
      std::string diff;
      if (b.how != r.how || b.code != r.code) diff = "it " + r.describe() + ", on an untouched disk it " + b.describe();
      else if (b.ok() && !fs_equal(b.fs, r.fs, &diff)) diff = "outputs differ: " + diff;
      else if (b.ok() && b.out != r.out) diff = "different standard output";
      if (!diff.empty()) {
        v.bad = true;
        v.cls = "rerun";
        v.detail = join(q.argv) + " after " + v.state + ": " + diff;
        v.sig = q.argv[0] + "/rerun";
        return v;
      }
    }
    fs = r.fs;
  }
  return v;
}
static std::string odd_data(Rng &r, const std::string &d, std::string &what) {
  std::string o = d;
  switch (r.below(16)) {
  case 0: what += "empty"; return "";
  case 1: what += "newline"; return std::string(1 + r.below(3), '\n');
  case 2: what += "blank"; return std::string(1 + r.below(20), r.chance(0.5) ? ' ' : '\t') + (r.chance(0.5) ? "\n" : "");
  case 3: case 4: case 5: case 6: what += "cut"; o.resize(r.below(o.size() + 1)); return o;
  case 7: what += "twice"; return o + o;
  case 8: what += "no-newline"; while (!o.empty() && o.back() == '\n') o.pop_back(); return o;
  case 9: { what += "nul"; for (int i = 1 + r.below(4); i && !o.empty(); i--) o[r.below(o.size())] = 0; return o; }
  case 10: what += "text"; return pool_text(r);
  case 11: { what += "other-model"; const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP); return m.bin.empty() || r.chance(0.5) ? m.arpa : m.bin; }
  case 12: {
    what += "crlf"; o.clear();
    for (char c : d) { if (c == '\n') o += '\r'; o += c; }
    return o;
  }
  case 13: { what += "one-line"; for (auto &c : o) if (c == '\n') c = ' '; return o; }
  case 14: { what += "noise"; for (int i = 1 + r.below(30); i && !o.empty(); i--) o[r.below(o.size())] = (char)r.below(256); return o; }
  default: { what += "blank-lines"; o.clear(); for (char c : d) { o += c; if (c == '\n' && r.chance(0.5)) o += r.chance(0.5) ? "\n" : "  \n"; } return o; }
  }
}
static bool odd_args(Rng &r, std::vector<std::string> &a, std::string &what) {
  struct O { const char *opt; std::vector<const char *> v; const char *tools; };
  static const std::vector<O> os = {
    {"-H", {"0", "1", "-1", "2", "3", "x"}, "cv"},
    {"-n", {"0", "1", "-1", "12", "25", "x"}, "cv"},
    {"-D", {"0", "-1", "1000", "nan", "inf", "1e-9", "-inf"}, "v"},
    {"-E", {"0", "-1", "1000", "nan", "inf", "1e-9"}, "v"},
    {"-V", {"0", "1", "2", "5", "-1", "1000000", "-1000000"}, "v"},
    {"-F", {"0", "-1", "5", "nan", "-2", "1"}, "v"},
    {"-p", {"0", "-1", "1000", "nan", "inf", "1e-9"}, "c"},
    {"-f", {"0", "-1", "1", "1000000"}, "cv"},
    {"-d", {"0", "-1", "1000000"}, "cv"},
    {"-O", {"0", "-1", "1000000", "5 5 5 5 5 5 5 5", "0 -1 3", "x", "3 2 1"}, "cv"},
    {"-I", {"0", "1", "2", "-1", "nan", "x"}, "p"},
    {"-t", {"0", "1", "-1", "100000", "x"}, "p"},
  };
  char t = a[0] == "counts2kn" ? 'c' : a[0] == "varigram_kn" ? 'v' : a[0] == "perplexity" ? 'p' : 0;
  if (!t) return false;
  const O &o = os[r.below(os.size())];
  if (!strchr(o.tools, t)) return false;
  std::string val = o.v[r.below(o.v.size())];
  for (size_t i = 1; i + 1 < a.size(); i++)
    if (a[i] == o.opt) {
      a[i + 1] = val;
      what += (what.empty() ? "" : ",") + a[i] + " " + val;
      return true;
    }
  if (!strcmp(o.opt, "-p"))
    for (auto &x : a)
      if (x == "-O") return false;
  a.insert(a.begin() + 1, {std::string(o.opt), val});
  what += (what.empty() ? "" : ",") + std::string(o.opt) + " " + val;
  return true;
}
void explore_c13(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  std::string odd;
  int what = r.below(10);
  if (what < 6)
    for (auto &x : s.slots)
      if (x.dir == 'i' && r.chance(0.4)) x.data = odd_data(r, x.data, odd += odd.empty() ? "" : ",");
  if (what > 3)
    for (int i = r.below(4); i; i--) odd_args(r, s.argv, odd);
  if (s.tool == "varigram_kn") {
    // growing without a bound on the order takes long, but ends
    if (std::find(s.argv.begin(), s.argv.end(), "-n") == s.argv.end()) s.argv.insert(s.argv.begin() + 1, {std::string("-n"), std::to_string(2 + r.below(3))});
    for (auto &x : s.slots)
      if (x.dir == 'i' && x.data.size() > 3000) x.data.resize(3000);
  }
  for (size_t i = 1; i + 1 < s.argv.size(); i++) {
    if (s.argv[i] != "-n") continue;
    const int n = atoi(s.argv[i + 1].c_str());
    const size_t most = n > 6 || (n <= 0 && s.tool == "varigram_kn") ? 500 : 100000; // high orders take long, but end
    for (auto &x : s.slots)
      if (x.dir == 'i' && x.data.size() > most) x.data.resize(most);
  }
  if (s.tool == "varigram_kn" && r.chance(0.25) && std::find(s.argv.begin(), s.argv.end(), "-V") == s.argv.end()) {
    s.argv.insert(s.argv.begin() + 1, {std::string("-V"), std::to_string(r.below(r.chance(0.5) ? 20 : 300))});
  }
  assign_channels(r, s, r.below(4));
  Plan p = command_plan(s, gen_env(r));
  p.set("odd", odd);
  p.set("noargmin", 1);
  if (!odd.empty() || r.chance(0.1))
    if (ex.try_plan(p).bad) return;
  ProcSpec q0 = p.procs[0];
  q0.max_steps = BOUND;
  const ProcResult b = base_run(p.files, q0);
  if (b.how == ProcResult::HUNG) { ex.try_plan(p); return; }
  if (b.how == ProcResult::BROKEN) return;
  auto outs = outs_parse(p.get("outs"));
  std::vector<Fault> fv = input_faults(r, b, outs, 2), w = output_faults(r, b, outs, 1);
  fv.insert(fv.end(), w.begin(), w.end());
  for (int i = 0; i < 3 && b.allocs; i++) fv.push_back(mk(F_ALLOC_FAIL, "", r.below(b.allocs), 0, r.below(3)));
  if (b.io_events) fv.push_back(mk(F_CRASH, "", r.below(b.io_events), 0, r.below(1001)));
  keep_some(r, fv, 5);
  for (auto &f : fv) {
    if (ex.stop()) return;
    Plan q = p;
    if (r.chance(0.5)) { q.procs.push_back(q.procs[0]); q.set("rerun", 1); }
    q.procs[0].faults.push_back(f);
    if (r.chance(0.2)) q.procs[0].faults.push_back(fv[r.below(fv.size())]);
    ex.try_plan(q);
  }
}
} // namespace sim
