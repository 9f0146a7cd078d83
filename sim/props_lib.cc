// C09, C12, C06: histories of library calls.
#include "lib.h"
#include "props.h"
#include <algorithm>
#include <cstring>

namespace sim {
// runs a library workload as the plan's only process and reads its report
static ProcResult run_lib(Verdict &v, const Plan &p, void (*body)(const Plan &)) {
  ProcSpec q = p.procs.empty() ? ProcSpec() : p.procs[0];
  if (q.argv.empty()) q.argv.push_back("library");
  ProcResult r = run_workload(p.files, q, [&] { body(p); });
  v.hash = mix(v.hash, mix(r.loghash, mix(r.steps, (uint64_t)r.how * 1000 + r.code)));
  v.hash = hash_str(r.report, v.hash);
  return r;
}
// turns the report into a verdict; `faulty`: a failure exit is allowed
static bool judge(Verdict &v, const ProcResult &r, bool faulty) {
  if (harness(v, r)) return true;
  if (!r.asan.empty() || r.report.compare(0, 4, "BAD ") == 0) {
    v.bad = true;
    if (!r.asan.empty()) {
      v.cls = "memory-error";
      v.detail = r.asan.substr(0, 600);
    } else {
      size_t e = r.report.find(' ', 4);
      v.cls = r.report.substr(4, e - 4);
      v.detail = r.report.substr(e + 1, 1200);
    }
    v.sig = "library/" + v.cls;
    return true;
  }
  if (r.report.compare(0, 3, "OK ") == 0 && r.ok()) return false;
  if (faulty && (r.how == ProcResult::SIGNALED ? r.code == 6 : r.how == ProcResult::EXITED && r.code != 0)) return false;
  v.bad = true;
  v.cls = r.how == ProcResult::HUNG ? "no-end" : "crash";
  v.detail = "library history ends with " + r.describe() + " " + r.err.substr(0, 300);
  v.sig = "library/" + v.cls;
  return true;
}
static bool missing(Verdict &v, bool there) {
  if (there) return false;
  v.bad = true;
  v.cls = "HARNESS";
  v.detail = "the workload does not compile against the library any more";
  return true;
}

// ================================================================ C09
Verdict check_c09(const Plan &p) {
  Verdict v;
  if (p.get("wl") == "train") return check_c09_train(p);
  if (missing(v, lib_counts_run)) return v;
  ProcResult r = run_lib(v, p, lib_counts_run);
  bool faulty = any_fired(r);
  v.nontrivial = p.ops.size() > 1;
  if (judge(v, r, faulty)) return v;
  std::set<std::string> kinds;
  for (auto &o : p.ops) kinds.insert(o.substr(0, o.find(' ')));
  int flags = 0, i = 0;
  for (auto k : {"burst", "sdel", "rdef", "undo", "clear", "wr", "ro", "cdc", "del", "rm"}) { flags |= kinds.count(k) ? 1 << i : 0; i++; }
  v.state = p.get("wl") + "/" + p.get("kt") + "/" + p.get("vt") + (p.geti("n3") ? "/3" : "") + fmt(" %x %s", flags, r.ok() ? "exact" : "failed cleanly");
  return v;
}
static std::string kstr(Rng &r, int n, long range, int style) {
  std::string o;
  for (int i = 0; i < n; i++) {
    long v = style == 1 ? (long)r.below(range) * 256 : style == 2 ? (r.chance(0.5) ? 65535 - (long)r.below(3) : (long)r.below(range)) : (long)r.below(range);
    o += " " + std::to_string(v);
  }
  return o;
}
static void explore_matrix(Rng &r, Plan &p) {
  static const char *vts[] = {"int", "long", "float", "bo", "bo3"};
  bool capi = r.chance(0.08);
  p.set("wl", capi ? "capi" : "matrix");
  p.set("kt", r.chance(0.5) || capi ? "int" : "short");
  p.set("vt", capi ? (r.chance(0.5) ? "int" : "float") : vts[r.below(5)]);
  int dims = 1 + (int)r.below(4), nm = r.chance(0.7) ? 1 : 2;
  long range = r.chance(0.6) ? 2 + (long)r.below(7) : 10 + (long)r.below(300);
  int style = r.chance(0.7) ? 0 : 1 + (int)r.below(2);
  static const int hs[] = {1, 2, 3, 5, 10, 50, 100, 1000};
  p.set("dims", dims); p.set("nm", nm); p.set("range", range);
  p.set("hash", hs[r.below(8)]); p.set("hash2", hs[r.below(8)]);
  p.set("def", r.chance(0.6) ? 0 : r.chance(0.5) ? 7 : -60);
  int n = 20 + (int)r.below(r.chance(0.2) ? 400 : 120);
  double wr = r.unit(), grow = r.unit();
  for (int i = 0; i < n; i++) {
    std::string m = " " + std::to_string(r.below(nm)), k = kstr(r, dims, range, style);
    std::string v = " " + std::to_string(r.chance(0.8) ? r.range(1, 4) : r.range(-4, 9));
    std::string ptr = r.chance(0.3) ? " 1" : " 0";
    double x = r.unit();
    if (x < 0.45 * (0.5 + grow)) p.ops.push_back((r.chance(wr * 0.4) ? "incw" : "inc") + m + k + (r.chance(0.25) ? " " + std::to_string(-r.range(1, 3)) : v) + ptr);
    else if (x < 0.62) p.ops.push_back("set" + m + k + (r.chance(0.2) ? " " + p.get("def") : v) + ptr);
    else if (x < 0.74) p.ops.push_back((r.chance(0.5) ? "rm" : "del") + m + k + " 0" + ptr);
    else if (x < 0.80) p.ops.push_back("get" + m + k);
    else if (x < 0.84) p.ops.push_back("step" + m);
    else if (x < 0.87) p.ops.push_back("ostep" + m);
    else if (x < 0.88) p.ops.push_back("stept" + m + " " + std::to_string(r.below(2)));
    else if (x < 0.94) p.ops.push_back("sdel" + m + fmt(" %d 0 %d", (int)r.range(1, 5), (int)r.below(1000)));
    else if (x < 0.95) p.ops.push_back("clear" + m);
    else if (x < 0.98) p.ops.push_back("rdef" + m);
    else p.ops.push_back("burst" + m + fmt(" %d %d %d", (int)r.range(5, r.chance(0.3) ? 900 : 60), (int)r.below(100000), (int)r.below(3) == 2));
  }
  // now and then a long growth, a deep cut and growth again: the store shrinks and grows its arrays
  if (r.chance(0.25) && !capi) {
    size_t at = r.below(p.ops.size());
    std::vector<std::string> x;
    if (range < 40) p.set("range", 60 + (long)r.below(400));
    for (int i = 0; i < 4; i++) x.push_back("burst 0" + fmt(" %d %d 0", (int)r.range(100, 600), (int)r.below(100000)));
    x.push_back("sdel 0" + fmt(" %d 0 %d", 1 + (int)r.below(2), (int)r.below(1000)));
    x.push_back("sdel 0" + fmt(" %d 0 %d", 2, (int)r.below(1000)));
    x.push_back("sdel 0" + fmt(" %d 0 %d", 2, (int)r.below(1000)));
    for (int i = 0; i < 3; i++) x.push_back("burst 0" + fmt(" %d %d %d", (int)r.range(5, 200), (int)r.below(100000), i == 1));
    p.ops.insert(p.ops.begin() + at, x.begin(), x.end());
  }
}
static void explore_store(Rng &r, Plan &p) {
  p.set("wl", "store");
  p.set("kt", r.chance(0.5) ? "int" : "short");
  p.set("vt", r.chance(0.6) ? "int" : "long");
  p.set("n3", (int64_t)r.below(2));
  int maxo = 2 + (int)r.below(5);
  long range = 2 + (long)r.below(r.chance(0.3) ? 60 : 7);
  static const int hs[] = {1, 3, 5, 10, 50, 100, 1000};
  p.set("maxo", maxo); p.set("range", range); p.set("hash", hs[r.below(7)]); p.set("vocab", 3 + (int64_t)r.below(60));
  int n = 20 + (int)r.below(r.chance(0.2) ? 300 : 120);
  auto num = [&] { return " " + std::to_string(r.chance(0.75) ? r.range(0, 4) : r.range(-4, 9)); };
  auto nums = [&](int k) { std::string o; for (int i = 0; i < k; i++) o += num(); return o; };
  int top = 1;
  while (n-- > 0) {
    int o = 1 + (int)r.below(std::min(maxo, top + (r.chance(0.15) ? 1 : 0)));
    top = std::max(top, o);
    std::string os = " " + std::to_string(o), ck = kstr(r, o, range, 0), bk = kstr(r, o - 1, range, 0);
    double x = r.unit();
    if (x < 0.14) p.ops.push_back("ic" + os + ck + num());
    else if (x < 0.20) p.ops.push_back("sc" + os + ck + num());
    else if (x < 0.23) p.ops.push_back("gc" + os + ck);
    else if (x < 0.29) p.ops.push_back("ib" + os + bk + nums(5));
    else if (x < 0.32) p.ops.push_back("sb" + os + bk + nums(5));
    else if (x < 0.37) p.ops.push_back("ibd" + os + bk + num());
    else if (x < 0.42) p.ops.push_back("ibn" + os + bk + num() + " " + std::to_string(r.below(3)));
    else if (x < 0.45) p.ops.push_back("gb" + os + bk);
    else if (x < 0.48) p.ops.push_back(r.chance(0.5) ? "step" + os : "ostep" + os);
    else if (x < 0.51) p.ops.push_back("sdel" + os + fmt(" %d %d", (int)r.range(1, 4), (int)r.below(1000)));
    else if (x < 0.53) p.ops.push_back("bstep" + os);
    else if (x < 0.55) p.ops.push_back("rdb 1");
    else if (x < 0.555) p.ops.push_back("cdc 1");
    else if (x < 0.57) p.ops.push_back("cnz" + os);
    else if (x < 0.58) p.ops.push_back("ro 1");
    else if (x < 0.60) p.ops.push_back("nv 1");
    else if (x < 0.62) p.ops.push_back("wr 1");
    else if (x < 0.65) p.ops.push_back("burst" + os + fmt(" %d %d", (int)r.range(3, r.chance(0.2) ? 400 : 50), (int)r.below(100000)));
    else {
      // one trial: some cached changes, then kept or undone
      p.ops.push_back("reset 1");
      int k = 1 + (int)r.below(r.chance(0.2) ? 30 : 8);
      int to = std::min(maxo, 1 + (int)r.below(top + 1));
      for (int i = 0; i < k; i++) {
        int q = std::max(1, to - (int)r.below(2));
        top = std::max(top, q);
        std::string qs = " " + std::to_string(q), qc = kstr(r, q, range, 0), qb = kstr(r, q - 1, range, 0);
        double y = r.unit();
        if (y < 0.5) p.ops.push_back("tc" + qs + qc + num());
        else if (y < 0.65) p.ops.push_back("tb" + qs + qb + nums(6));
        else if (y < 0.8) p.ops.push_back("td" + qs + qb + num());
        else p.ops.push_back("tn" + qs + qb + nums(5));
      }
      if (r.chance(0.7)) p.ops.push_back("undo 1");
      n -= k;
    }
  }
}
void explore_c09(Rng &r, Explorer &ex) {
  if (r.chance(0.12)) { explore_c09_train(r, ex); return; }
  Plan p;
  ProcSpec q;
  q.argv.push_back("library");
  q.env = gen_env(r);
  p.procs.push_back(q);
  if (r.chance(0.5)) explore_matrix(r, p);
  else explore_store(r, p);
  ex.try_plan(p);
  if (ex.stop()) return;
  if (r.chance(0.15)) {
    // running out of memory in the middle must not be survived with wrong contents
    Plan f = p;
    f.procs[0].faults.push_back(mk(F_ALLOC_FAIL, "", r.below(r.chance(0.5) ? 40 : 400), 0, r.below(2)));
    ex.try_plan(f);
  }
}
} // namespace sim
