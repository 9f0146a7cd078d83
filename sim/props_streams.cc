// C12: stream histories (library workload) and the handles of whole commands.
#include "lib.h"
#include "props.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

namespace sim {
static Verdict &fail(Verdict &v, const std::string &cls, const std::string &d, const std::string &who) {
  v.bad = true;
  v.cls = cls;
  v.detail = d;
  v.sig = who + "/" + cls;
  return v;
}
static bool handles_ok(Verdict &v, const ProcResult &r, const std::string &who) {
  std::string t;
  if (r.double_closes) t = fmt("%d closes of handles that are not open", r.double_closes);
  else if (r.std_closed) t = fmt("standard input or output was closed %d times", r.std_closed);
  else if (r.wrong_close) t = fmt("%d handles were closed the wrong way (pclose/fclose)", r.wrong_close);
  else if (r.ok() && r.leaked_handles) t = fmt("%d handles were still open when it ended normally", r.leaked_handles);
  if (t.empty()) return true;
  fail(v, r.double_closes ? "double-close" : r.std_closed ? "std-closed" : r.wrong_close ? "wrong-close" : "leak", who + ": " + t + " (faults: " + fired_text(r) + ")", who.substr(0, who.find(' ')));
  return false;
}
Verdict check_c12(const Plan &p) {
  Verdict v;
  if (p.get("wl") == "cmd") {
    ProcResult r = run_in(v, p.files, p.procs[0]);
    if (harness(v, r)) return v;
    v.nontrivial = r.io_events > 4;
    v.state = p.procs[0].argv[0] + " " + fired_text(r) + " " + how_text(r) + fmt(" s%zu c%zu", r.streams.size(), r.children.size());
    handles_ok(v, r, join(p.procs[0].argv));
    return v;
  }
  if (!lib_streams_run) return fail(v, "HARNESS", "the stream workload does not compile against the library any more", "library");
  ProcSpec q = p.procs.empty() ? ProcSpec() : p.procs[0];
  if (q.argv.empty()) q.argv.push_back("library");
  ProcResult r = run_workload(p.files, q, [&] { lib_streams_run(p); });
  v.hash = mix(v.hash, mix(r.loghash, mix(r.steps, (uint64_t)r.how * 1000 + r.code)));
  v.hash = hash_str(r.report, v.hash);
  if (harness(v, r)) return v;
  v.nontrivial = p.ops.size() > 2;
  if (!r.asan.empty()) return fail(v, "memory-error", r.asan.substr(0, 600), "library");
  if (r.report.compare(0, 4, "BAD ") == 0) {
    size_t e = r.report.find(' ', 4);
    return fail(v, r.report.substr(4, e - 4), r.report.substr(e + 1, 1200), "library");
  }
  std::set<std::string> kinds;
  for (auto &o : p.ops) kinds.insert(o.substr(0, o.find(' ')));
  v.state = fired_text(r) + fmt(" %zu kinds %d..", kinds.size(), (int)std::log2(1 + p.ops.size()));
  if (!handles_ok(v, r, "stream history")) return v;
  if (r.how == ProcResult::SIGNALED && r.code == 13 && any_fired(r)) { // the reader of a pipe died
    v.state += " sigpipe";
    return v;
  }
  if (!r.ok() || r.report.compare(0, 3, "OK\n")) return fail(v, r.how == ProcResult::HUNG ? "no-end" : "crash", "a stream history ends with " + r.describe() + " " + r.err.substr(0, 300), "library");
  std::istringstream in(r.report);
  std::string l;
  std::set<std::string> seen;
  std::map<std::string, std::string> byname;
  for (auto &f : r.fs) byname[esc(f.first)] = f.first;
  while (std::getline(in, l)) {
    char nm[2000];
    unsigned long long h;
    size_t n;
    int coded;
    if (sscanf(l.c_str(), "O %llx %zu", &h, &n) == 2) {
      if (hash_str(r.out) != h || r.out.size() != n) return fail(v, "content", fmt("standard output got %zu bytes, %zu were written to it%s", r.out.size(), n, r.out.size() == n ? ", others" : ""), "library");
    } else if (sscanf(l.c_str(), "? %1999s", nm) == 1)
      seen.insert(nm);
    else if (sscanf(l.c_str(), "F %1999s %d %llx %zu", nm, &coded, &h, &n) == 4) {
      seen.insert(nm);
      auto b = byname.find(nm);
      if (b == byname.end()) return fail(v, "content", std::string("file '") + nm + "' is not there", "library");
      std::string c = r.fs.at(b->second);
      size_t dot = b->second.rfind('.');
      if (coded) {
        std::string d;
        if (!dec(c, b->second.compare(dot + 1, 2, "gz") ? 'b' : 'g', d)) return fail(v, "content", std::string("file '") + nm + "' is not a whole compressed file", "library");
        c = d;
      }
      if (hash_str(c) != h || c.size() != n) return fail(v, "content", std::string("file '") + nm + fmt("' holds %zu bytes, %zu were written to it%s", c.size(), n, c.size() == n ? ", others" : ""), "library");
    }
  }
  for (auto &b : byname)
    if (!seen.count(b.first)) return fail(v, "stray", "file '" + b.first + "' was never named", "library");
  return v;
}
static std::string bytes(Rng &r, size_t n) {
  std::string o;
  for (size_t i = 0; i < n; i++) o += r.chance(0.05) ? '\n' : r.chance(0.02) ? (char)r.below(256) : (char)('a' + r.below(26));
  if (!o.empty() && o[0] == 1) o[0] = 'x';
  return o;
}
static void explore_cmd(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  assign_channels(r, s, 1 + r.below(4));
  Plan p = command_plan(s, gen_env(r));
  p.set("wl", "cmd");
  p.set("noargmin", 1);
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how == ProcResult::HUNG || b.how == ProcResult::BROKEN) return;
  if (ex.try_plan(p).bad) return;
  auto outs = outs_parse(p.get("outs"));
  std::vector<Fault> fv = input_faults(r, b, outs, 2), w = output_faults(r, b, outs, 2);
  fv.insert(fv.end(), w.begin(), w.end());
  keep_some(r, fv, 5);
  for (auto &f : fv) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
}
void explore_c12(Rng &r, Explorer &ex) {
  if (r.chance(0.15)) { explore_cmd(r, ex); return; }
  Plan p;
  ProcSpec q;
  q.argv.push_back("library");
  q.env = gen_env(r);
  if (r.chance(0.6)) q.env.sigpipe_ignored = 1;
  q.has_stdin = true;
  q.stdin_data = bytes(r, r.below(r.chance(0.3) ? 9000 : 300));
  auto size = [&]() -> size_t { return r.chance(0.15) ? 0 : r.chance(0.25) ? r.below(30000) : r.below(600); };
  static const char *plain[] = {"f0", "f1", "a b", "x'y", "$HOME", "f;g", "gz", ".g", "-x", "f|g"};
  static const char *coded[] = {"f.gz", "f.bz2", "it's.gz", "a b.bz2", "$x.gz", "a;b.gz", "-v.gz", "`t`.bz2", ".gz", ".bz2"};
  std::vector<std::string> pl, co;
  for (int i = 2 + r.below(3); i; i--) pl.push_back(plain[r.below(10)]);
  for (int i = 1 + r.below(3); i; i--) co.push_back(coded[r.below(10)]);
  for (auto &n : pl) if (r.chance(0.75)) p.files[n] = bytes(r, size());
  for (auto &n : co) if (r.chance(0.75)) p.files[n] = enc(bytes(r, size()), n[n.size() - 1] == 'z' ? 'g' : 'b');
  if (r.chance(0.3)) p.files["d/"] = "";
  p.files["other"] = bytes(r, 40);
  p.set("verbose", r.chance(0.5));
  int slots = 1 + r.below(4);
  int n = 4 + r.below(r.chance(0.3) ? 80 : 25);
  auto quotable = [](const std::string &s) { return s.find('\'') == std::string::npos && s[0] != '-'; };
  auto name = [&](std::string &mode) -> std::string {
    double x = r.unit();
    static const char *ms[] = {"r", "r", "r", "w", "w", "w", "a", "r+", "w+", "rb", "wb", "a+"};
    mode = r.chance(0.8) ? (r.chance(0.5) ? "r" : "w") : ms[r.below(12)];
    if (x < 0.40) return r.pick(pl);
    if (x < 0.60) return r.pick(co);
    if (x < 0.74) return "-";
    if (x < 0.84) {
      std::string n = r.pick(r.chance(0.5) ? pl : co);
      if (!quotable(n)) return n;
      bool g = n.size() >= 3 && n.compare(n.size() - 3, 3, ".gz") == 0, b = n.size() >= 4 && n.compare(n.size() - 4, 4, ".bz2") == 0;
      if (b) return n;
      mode = r.chance(0.9) ? (r.chance(0.5) ? "r" : "w") : "a";
      if (mode == "r") return (g ? "gzip -dc '" : "cat '") + n + "' |";
      if (mode == "w") return (g ? "| gzip > '" : "| cat > '") + n + "'";
      return (g ? "gzip -dc '" : "cat '") + n + "' |";
    }
    if (x < 0.90) return "nothere";
    if (x < 0.92) return "nothere.gz";
    if (x < 0.95) return p.files.count("d/") ? "d" : r.pick(pl);
    if (x < 0.97) return "";
    return r.pick(pl);
  };
  for (int i = 0; i < slots; i++)
    if (r.chance(0.6)) p.ops.push_back(fmt("new %d", i));
  for (int i = 0; i < n; i++) {
    int s = r.below(slots);
    double x = r.unit();
    if (x < 0.34) {
      std::string m, nm = name(m);
      int seek = r.chance(0.75) ? 0 : 1 + (int)r.below(2), allow = r.chance(0.9);
      for (const char *verb : {"open", "ctor"}) // whichever fits: a slot with or without an object
        p.ops.push_back(verb + fmt(" %d ", s) + esc(nm) + " " + m + fmt(" %d %d", seek, allow));
      if (r.chance(0.5)) p.ops.pop_back();
    } else if (x < 0.50) p.ops.push_back(fmt("read %d %d", s, (int)(r.chance(0.3) ? 40000 : 1 + r.below(500))));
    else if (x < 0.56) p.ops.push_back(fmt("line %d 2000", s));
    else if (x < 0.72) p.ops.push_back(fmt("write %d %d", s, (int)(r.chance(0.2) ? 1 + r.below(20000) : 1 + r.below(300))));
    else if (x < 0.75) p.ops.push_back(fmt("flush %d 0", s));
    else if (x < 0.88) p.ops.push_back(fmt("close %d 0", s));
    else if (x < 0.94) p.ops.push_back(fmt("del %d 0", s));
    else p.ops.push_back(fmt("new %d", s));
  }
  p.procs.push_back(q);
  if (ex.try_plan(p).bad) return;
  // the same history with faults, which stop at some point
  ProcResult b = run_workload(p.files, q, [&] { if (lib_streams_run) lib_streams_run(p); });
  if (!b.ok()) return;
  std::vector<Fault> fv = input_faults(r, b, {}, 2), w = output_faults(r, b, {}, 2);
  fv.insert(fv.end(), w.begin(), w.end());
  for (auto &st : b.streams) {
    if (st.closes) fv.push_back(mk(F_CLOSE_ERR, st.name, r.below(st.closes), 0, 0, 5));
    if (st.opens) fv.push_back(mk(F_OPEN_ERR, st.name, r.below(st.opens), 0, 0, r.chance(0.5) ? 24 : 13));
    if (st.reads) fv.push_back(mk(F_READ_ERR, st.name, r.below(st.reads), 0, r.below(2), 5));
    if (st.writes) fv.push_back(mk(r.chance(0.5) ? F_WRITE_ERR : F_WRITE_ERR1, st.name, r.below(st.writes), 0, r.below(100), r.chance(0.5) ? 28 : 5));
  }
  for (size_t i = 0; i < b.children.size(); i++) {
    std::string c = fmt("child:%zu", i);
    switch (r.below(4)) {
    case 0: fv.push_back(mk(F_POPEN_ERR, c, 0, 0, 0, r.chance(0.5) ? 11 : 12)); break;
    case 1: fv.push_back(mk(F_CHILD_NOEXEC, c, 0)); break;
    case 2: fv.push_back(mk(F_CHILD_DIES, c, 0, r.below(b.children[i].bytes + 1), r.chance(0.5) ? -9 : 1)); break;
    default: fv.push_back(mk(F_CHILD_EXIT, c, 0, 0, 1 + r.below(3)));
    }
  }
  for (int k = 0; k < 5 && !fv.empty() && !ex.stop(); k++) {
    Plan f = p;
    for (int i = 1 + r.below(r.chance(0.5) ? 1 : 4); i; i--) f.procs[0].faults.push_back(fv[r.below(fv.size())]);
    if (r.chance(0.5) && f.ops.size() > 3) {
      size_t at = 1 + r.below(f.ops.size() - 1);
      f.ops.insert(f.ops.begin() + at, "heal 0");
    }
    ex.try_plan(f);
  }
}
} // namespace sim
