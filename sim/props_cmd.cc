// C01-C05: what command lines do to files under faults, crashes and legal variation.
#include "props.h"
#include <algorithm>
#include <cstring>

namespace sim {
std::string fired_text(const ProcResult &r) {
  std::string o;
  for (int i = 1; i < F_NKINDS; i++)
    if (r.fired[i]) o += std::string(o.empty() ? "" : "+") + fault_name(i);
  return o;
}
bool any_fired(const ProcResult &r) {
  for (int i = 1; i < F_NKINDS; i++)
    if (r.fired[i]) return true;
  return false;
}
std::string unsound(const ProcResult &r) {
  if (!r.asan.empty()) return "sanitizer: " + r.asan;
  if (!r.escape.empty()) return "escape: " + r.escape;
  return "";
}
static const int ERRS_W[] = {28, 5, 122, 27};
static const int ERRS_R[] = {5, 116, 74};

static bool is_out_name(const std::string &n, const std::vector<OutRef> &outs) {
  for (auto &o : outs)
    if (o.kind == '-' ? n == "<stdout>" : n == o.name) return true;
  return false;
}
Fault mk(int kind, const std::string &t, int64_t at, int64_t at2, int64_t arg, int err) {
  Fault f;
  f.kind = kind; f.target = t; f.at = at; f.at2 = at2; f.arg = arg; f.err = err;
  return f;
}
static int child_no(const std::string &n) { return n.compare(0, 6, "child:") ? -1 : atoi(n.c_str() + 6); }

std::vector<Fault> output_faults(Rng &r, const ProcResult &base, const std::vector<OutRef> &outs, int per) {
  std::vector<Fault> v;
  int64_t total = 0;
  for (auto &s : base.streams) {
    int c = child_no(s.name);
    bool out = c >= 0 ? (c < (int)base.children.size() && !base.children[c].reading) : is_out_name(s.name, outs);
    if (!out || s.name == "<stdin>") continue;
    if (c < 0 && !is_out_name(s.name, outs)) continue;
    total += s.wbytes;
    std::vector<int> at;
    if (s.writes) {
      at.push_back(0);
      at.push_back(s.writes - 1);
      for (int i = 0; i < per; i++) at.push_back(r.below(s.writes));
      std::sort(at.begin(), at.end());
      at.erase(std::unique(at.begin(), at.end()), at.end());
    }
    for (int a : at) {
      int e = c >= 0 ? 32 : ERRS_W[r.below(4)];
      v.push_back(mk(r.chance(0.6) ? F_WRITE_ERR : F_WRITE_ERR1, s.name, a, 0, r.chance(0.5) ? 0 : r.below(5000), e));
    }
    if (c < 0) {
      if (s.name != "<stdout>") {
        v.push_back(mk(F_CLOSE_ERR, s.name, -1, 0, 0, ERRS_W[r.below(3)]));
        if (r.chance(0.3)) v.push_back(mk(F_OPEN_ERR, s.name, -1, 0, 0, r.chance(0.5) ? 13 : 28));
      }
    } else {
      v.push_back(mk(F_CHILD_EXIT, s.name, 0, 0, 1 + r.below(3)));
      v.push_back(mk(F_CHILD_DIES, s.name, 0, r.chance(0.3) ? s.wbytes : r.below(s.wbytes + 1), r.chance(0.5) ? -9 : 1));
      v.push_back(mk(F_CHILD_NOEXEC, s.name, 0));
      if (r.chance(0.4)) v.push_back(mk(F_POPEN_ERR, s.name, 0, 0, 0, 12));
    }
  }
  int64_t disk = 0;
  for (auto &f : base.fs)
    if (is_out_name(f.first, outs)) disk += f.second.size();
  if (disk > 0) {
    v.push_back(mk(F_DISK_FULL, "", disk - 1));
    for (int i = 0; i < per; i++) v.push_back(mk(F_DISK_FULL, "", r.below(disk)));
  }
  return v;
}
std::vector<Fault> input_faults(Rng &r, const ProcResult &base, const std::vector<OutRef> &outs, int per) {
  std::vector<Fault> v;
  for (auto &s : base.streams) {
    int c = child_no(s.name);
    bool in = c >= 0 ? (c < (int)base.children.size() && base.children[c].reading) : s.reads > 0;
    if (!in || (c < 0 && is_out_name(s.name, outs))) continue;
    std::vector<int> at;
    if (s.reads) {
      at.push_back(0);
      at.push_back(s.reads - 1);
      if (s.reads > 1) at.push_back(s.reads - 2);
      for (int i = 0; i < per; i++) at.push_back(r.below(s.reads));
      std::sort(at.begin(), at.end());
      at.erase(std::unique(at.begin(), at.end()), at.end());
    }
    for (int a : at) v.push_back(mk(F_READ_ERR, s.name, a, 0, r.chance(0.5), ERRS_R[r.below(3)]));
    if (c < 0) {
      if (s.name != "<stdin>" && s.opens > 0)
        v.push_back(mk(F_OPEN_ERR, s.name, r.below(s.opens), 0, 0, r.chance(0.5) ? 13 : 24));
    } else {
      v.push_back(mk(F_CHILD_EXIT, s.name, 0, 0, 1 + r.below(2)));
      v.push_back(mk(F_CHILD_DIES, s.name, 0, s.rbytes ? r.below(s.rbytes + 1) : 0, r.chance(0.5) ? -9 : 1));
      v.push_back(mk(F_CHILD_DIES, s.name, 0, s.rbytes, r.chance(0.5) ? -9 : 1));
      v.push_back(mk(F_CHILD_NOEXEC, s.name, 0));
      v.push_back(mk(F_POPEN_ERR, s.name, 0, 0, 0, 12));
    }
  }
  return v;
}
// Every position a fault can have in a small command: each event of each output (input), each way a child can end.
// Empty if that is more than `most`.
std::vector<Fault> every_output_fault(const ProcResult &base, const std::vector<OutRef> &outs, size_t most) {
  std::vector<Fault> v;
  int64_t disk = 0;
  size_t n = 0;
  for (auto &s : base.streams) {
    int c = child_no(s.name);
    bool out = c >= 0 ? (c < (int)base.children.size() && !base.children[c].reading) : is_out_name(s.name, outs);
    if (!out || s.name == "<stdin>") continue;
    n += s.writes * 2;
    if (n > most) return {};
    for (int64_t a = 0; a < (int64_t)s.writes; a++) {
      v.push_back(mk(F_WRITE_ERR, s.name, a, 0, a % 3 ? 0 : 1 + a * 37 % 500, c >= 0 ? 32 : 28));
      v.push_back(mk(F_WRITE_ERR1, s.name, a, 0, a % 2 ? 0 : 1 + a * 91 % 500, c >= 0 ? 32 : 5));
    }
    if (c < 0) {
      if (s.name != "<stdout>") {
        v.push_back(mk(F_CLOSE_ERR, s.name, -1, 0, 0, 28));
        for (int64_t a = 0; a < (int64_t)s.opens; a++) v.push_back(mk(F_OPEN_ERR, s.name, a, 0, 0, 13));
      }
    } else {
      int64_t step = 1 + s.wbytes / 24;
      for (int64_t a = 0; a <= (int64_t)s.wbytes; a += step) v.push_back(mk(F_CHILD_DIES, s.name, 0, a, a / step % 2 ? -9 : 1));
      v.push_back(mk(F_CHILD_EXIT, s.name, 0, 0, 1));
      v.push_back(mk(F_CHILD_NOEXEC, s.name, 0));
      v.push_back(mk(F_POPEN_ERR, s.name, 0, 0, 0, 12));
    }
  }
  for (auto &f : base.fs)
    if (is_out_name(f.first, outs)) disk += f.second.size();
  for (int64_t a = 0, step = 1 + disk / 24; a < disk; a += step) v.push_back(mk(F_DISK_FULL, "", a));
  if (v.size() > most) v.clear();
  return v;
}
std::vector<Fault> every_input_fault(const ProcResult &base, const std::vector<OutRef> &outs, size_t most) {
  std::vector<Fault> v;
  size_t n = 0;
  for (auto &s : base.streams) {
    int c = child_no(s.name);
    bool in = c >= 0 ? (c < (int)base.children.size() && base.children[c].reading) : s.reads > 0;
    if (!in || (c < 0 && is_out_name(s.name, outs))) continue;
    n += s.reads * 2;
    if (n > most) return {};
    for (int64_t a = 0; a < (int64_t)s.reads; a++)
      for (int k = 0; k < 2; k++) v.push_back(mk(F_READ_ERR, s.name, a, 0, k, ERRS_R[(a + k) % 3]));
    if (c < 0) {
      if (s.name != "<stdin>")
        for (int64_t a = 0; a < (int64_t)s.opens; a++) v.push_back(mk(F_OPEN_ERR, s.name, a, 0, 0, a % 2 ? 13 : 24));
    } else {
      int64_t step = 1 + s.rbytes / 24;
      for (int64_t a = 0; a <= (int64_t)s.rbytes; a += step) v.push_back(mk(F_CHILD_DIES, s.name, 0, a, a / step % 2 ? -9 : 1));
      v.push_back(mk(F_CHILD_EXIT, s.name, 0, 0, 1));
      v.push_back(mk(F_CHILD_NOEXEC, s.name, 0));
      v.push_back(mk(F_POPEN_ERR, s.name, 0, 0, 0, 12));
    }
  }
  if (v.size() > most) v.clear();
  return v;
}
void keep_some(Rng &r, std::vector<Fault> &v, size_t n) {
  while (v.size() > n) v.erase(v.begin() + r.below(v.size()));
}
const char *how_text(const ProcResult &r) {
  switch (r.how) {
  case ProcResult::EXITED: return r.code ? "error exit" : "success";
  case ProcResult::SIGNALED: return "signal";
  case ProcResult::CRASHED: return "killed";
  case ProcResult::HUNG: return "hung";
  default: return "broken";
  }
}
Plan command_plan(const Scenario &s, const Env &e) {
  Plan p;
  ProcSpec q;
  render(s, p.files, q);
  q.env = e;
  p.procs.push_back(q);
  p.set("outs", outs_text(s));
  return p;
}
bool harness(Verdict &v, const ProcResult &r) {
  if (r.how != ProcResult::BROKEN) return false;
  v.bad = true;
  v.cls = "HARNESS";
  v.detail = r.describe();
  return true;
}
// a run that used up its steps says nothing here: whether runs end is C13
bool undecided(Verdict &v, const ProcResult &r) {
  if (r.how != ProcResult::HUNG) return harness(v, r);
  v.state = "too long to decide";
  v.nontrivial = false;
  return true;
}

// ================================================================ C01
Verdict check_c01(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  auto outs = outs_parse(p.get("outs"));
  const ProcResult &b = base_run(p.files, q);
  if (undecided(v, b)) return v;
  if (!b.ok()) { v.state = q.argv[0] + " fails without faults"; return v; }
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.nontrivial = any_fired(r);
  v.state = q.argv[0] + " " + fired_text(r) + " -> " + how_text(r);
  if (!r.ok()) return v;
  std::string diff;
  bool out = stdout_is_output(outs);
  std::string kind = q.faults.empty() ? "none" : fault_name(q.faults[0].kind);
  if (!fs_equal(b.fs, r.fs, &diff) || (out && r.out != b.out)) {
    if (diff.empty()) diff = fmt("<stdout>: %zu bytes instead of %zu", r.out.size(), b.out.size());
    v.bad = true;
    v.cls = "success-with-incomplete-output";
    v.detail = q.argv[0] + " exits 0 although its output is not complete: " + diff + " (faults: " + fired_text(r) + ")";
    v.sig = q.argv[0] + "/" + v.cls;
  } else if (any_fired(r)) {
    v.bad = true;
    v.cls = "output-failure-ignored";
    v.detail = q.argv[0] + " exits 0 although an output failed: " + fired_text(r);
    v.sig = q.argv[0] + "/" + v.cls;
  }
  return v;
}
void explore_c01(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL & ~T_CHECK);
  assign_channels(r, s, r.chance(0.8) ? 2 | (r.chance(0.3) ? 1 : 0) : 6);
  Plan p = command_plan(s, gen_env(r));
  auto outs = outs_parse(p.get("outs"));
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how == ProcResult::BROKEN) { ex.try_plan(p); return; }
  if (!b.ok()) { probe("scenario fails without faults"); return; }
  std::vector<Fault> fv;
  if (r.chance(0.08)) fv = every_output_fault(b, outs, 150);
  if (!fv.empty()) probe("every fault position of a command tried");
  else {
    fv = output_faults(r, b, outs, 3);
    keep_some(r, fv, 14);
  }
  for (auto &f : fv) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs[0].faults.push_back(f);
    if (r.chance(0.1) && fv.size() > 1) q.procs[0].faults.push_back(fv[r.below(fv.size())]);
    ex.try_plan(q);
  }
}

// ================================================================ C02
Verdict check_c02(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  auto outs = outs_parse(p.get("outs"));
  ProcSpec q0 = q;
  Fs whole = p.files;
  std::string trunc = p.get("trunc"); // file to be cut short
  Fs cut = whole;
  if (!trunc.empty() && cut.count(trunc)) {
    std::string &d = cut[trunc];
    int64_t n = p.geti("trunc_at");
    if (n < (int64_t)d.size()) d.resize(n);
  }
  const ProcResult &b = base_run(whole, q0);
  if (undecided(v, b)) return v;
  if (!b.ok()) { v.state = q.argv[0] + " fails without faults"; return v; }
  ProcResult r = run_in(v, cut, q);
  if (undecided(v, r)) return v;
  v.nontrivial = any_fired(r) || !trunc.empty();
  v.state = q.argv[0] + " " + (trunc.empty() ? fired_text(r) : std::string("truncated")) + " -> " + how_text(r);
  if (!r.ok()) return v;
  std::string diff;
  std::set<std::string> ign;
  if (!trunc.empty()) ign.insert(trunc);
  bool bad = !fs_equal(b.fs, r.fs, &diff, &ign) || (stdout_is_output(outs) && r.out != b.out);
  if (!bad && outs.empty() && r.err != b.err && q.argv[0] == "check_model") { bad = true; diff = "the report differs"; }
  if (bad) {
    if (diff.empty()) diff = "<stdout> differs";
    v.bad = true;
    v.cls = "failed-read-passes";
    v.detail = q.argv[0] + " exits 0 although an input could not be read to its end: " + diff + " (" +
               (trunc.empty() ? fired_text(r) : "truncated " + trunc) + ")";
    v.sig = q.argv[0] + "/" + v.cls;
  }
  return v;
}
void explore_c02(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  assign_channels(r, s, 1 | (r.chance(0.2) ? 2 : 0));
  Plan p = command_plan(s, gen_env(r));
  auto outs = outs_parse(p.get("outs"));
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how == ProcResult::BROKEN) { ex.try_plan(p); return; }
  if (!b.ok()) { probe("scenario fails without faults"); return; }
  std::vector<Fault> fv;
  if (r.chance(0.08)) fv = every_input_fault(b, outs, 150);
  if (!fv.empty()) probe("every fault position of a command tried");
  else {
    fv = input_faults(r, b, outs, 2);
    keep_some(r, fv, 13);
  }
  for (auto &f : fv) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
  for (auto &x : s.slots)
    if (x.dir == 'i' && (x.chan == 'G' || x.chan == 'B' || x.chan == 'Z')) {
      const std::string &d = p.files[x.file];
      for (int i = 0; i < 2 && !d.empty(); i++) {
        Plan q = p;
        int64_t n = r.chance(0.4) ? (int64_t)d.size() - 1 - (int64_t)r.below(std::min<size_t>(d.size(), 16)) : (int64_t)r.below(d.size());
        q.set("trunc", x.file);
        q.set("trunc_at", n);
        if (ex.stop()) return;
        ex.try_plan(q);
      }
    }
}

// ================================================================ C03
// procs[0]: the writer (crash fault); procs[1..]: readers of what it left; afterwards the writer again
static bool reader_ok_same(const ProcResult &a, const ProcResult &b, const std::string &res, bool err) {
  auto x = a.fs.find(res), y = b.fs.find(res);
  if ((x == a.fs.end()) != (y == b.fs.end())) return false;
  if (x != a.fs.end() && x->second != y->second) return false;
  return !err || a.err == b.err;
}
Verdict check_c03(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  std::string model = p.get("model");
  const ProcResult b = base_run(p.files, q);
  if (undecided(v, b)) return v;
  if (!b.ok() || !b.fs.count(model)) { v.state = q.argv[0] + " fails without faults"; return v; }
  ProcResult c = run_in(v, p.files, q);
  if (undecided(v, c)) return v;
  if (c.ok()) {
    std::string d;
    if (!any_fired(c)) { v.state = "no crash"; return v; }
    if (!fs_equal(b.fs, c.fs, &d)) { v.state = "survived"; return v; } // C01's business
  }
  v.nontrivial = any_fired(c);
  v.state = q.argv[0] + " " + fired_text(c) + " -> " + how_text(c);
  auto left = c.fs.find(model);
  bool complete = left != c.fs.end() && left->second == b.fs.at(model);
  if (left == c.fs.end()) v.state += " nothing left";
  else v.state += complete ? " complete" : left->second.empty() ? " empty" : " partial";
  if (left != c.fs.end() && !complete)
    for (size_t i = 1; i < p.procs.size(); i++) {
      Fs f1 = c.fs, f2 = c.fs;
      f2[model] = b.fs.at(model);
      const ProcResult &whole = base_run(f2, p.procs[i]);
      ProcResult part = run_in(v, f1, p.procs[i]);
      if (undecided(v, part) || undecided(v, whole)) return v;
      if (!part.ok()) continue;
      probe("partial model accepted identically");
      if (whole.ok() && reader_ok_same(part, whole, "rd.out", p.procs[i].argv[0] == "check_model")) continue;
      v.bad = true;
      v.cls = "half-written-model-accepted";
      v.detail = join(p.procs[i].argv) + fmt(" accepts %zu of %zu bytes that a killed ", left->second.size(), b.fs.at(model).size()) + q.argv[0] + " left";
      v.sig = p.procs[i].argv[0] + "/" + v.cls;
      return v;
    }
  ProcSpec again = q;
  again.faults.clear();
  ProcResult a = run_in(v, c.fs, again);
  if (undecided(v, a)) return v;
  std::string diff;
  if (!a.ok() || !fs_equal(b.fs, a.fs, &diff) || a.out != b.out) {
    v.bad = true;
    v.cls = "rerun-does-not-repair";
    v.detail = q.argv[0] + " run again after a crash: " + (a.ok() ? diff : a.describe());
    v.sig = q.argv[0] + "/" + v.cls;
  }
  return v;
}
void explore_c03(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_WRITERS);
  assign_channels(r, s, r.chance(0.5) ? 2 : r.chance(0.3) ? 3 : 0);
  int ms = -1;
  for (size_t i = 0; i < s.slots.size(); i++)
    if (s.slots[i].model) ms = i;
  if (ms < 0) return;
  if (s.slots[ms].chan == 'S') { s.slots[ms].chan = 'P'; s.slots[ms].file = "lm.out"; }
  Plan p = command_plan(s, gen_env(r));
  std::string model = s.slots[ms].file;
  p.set("model", model);
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how == ProcResult::BROKEN) { ex.try_plan(p); return; }
  if (!b.ok()) { probe("scenario fails without faults"); return; }
  OutRef o;
  o.name = model;
  o.kind = s.slots[ms].chan == 'G' || s.slots[ms].chan == 'Z' ? 'g' : s.slots[ms].chan == 'B' ? 'b' : 'f';
  std::string content;
  if (!out_content(o, b, content)) return;
  bool bin = content.compare(0, 10, "cis-binlm2") == 0;
  // readers
  auto rd = [&](std::vector<std::string> a, const std::string &in) {
    ProcSpec q;
    q.argv = a;
    if (!in.empty()) { q.has_stdin = true; q.stdin_data = in; }
    q.env = gen_env(r);
    p.procs.push_back(q);
  };
  auto ws = s.slots.size() && !s.slots[0].data.empty() ? tokens(s.slots[0].data.substr(0, 200)) : std::vector<std::string>();
  std::string test = "<s> a b w0 w1 </s> w2 w1 w0\n";
  if (s.tool == "counts2kn" || s.tool == "varigram_kn")
    for (size_t i = 0; i < ws.size() && i < 20; i++) test += ws[i] + " ";
  // readers see the compressed file through the same suffix; a plain name through the same name
  std::string lm = model;
  std::vector<std::vector<std::string>> rs;
  if (bin) {
    rs = {{"bin2arpa", lm, "rd.out"}, {"perplexity", "-A", lm, "-o", "-S", "rd.out", "-", "/dev/null"}, {"arpasize", lm, "rd.out"}, {"check_model", lm, "-"}};
  } else {
    rs = {{"arpa2bin", lm, "rd.out"}, {"arpa2arpa", lm, "rd.out"}, {"perplexity", "-a", lm, "-o", "-S", "rd.out", "-", "/dev/null"},
          {"perplexity", "-f", "-a", lm, "-o", "-S", "rd.out", "-", "/dev/null"}, {"arpasize", "-a", lm, "rd.out"},
          {"arpasize", "-a", "-S", lm, "rd.out"}, {"add_zeroprob_grams", lm, "rd.out"}};
    if (lm.find_first_of(",;") == std::string::npos) rs.push_back({"simpleinterpolate2arpa", lm + ",0.5;" + lm + ",0.5", "rd.out"});
    bool few = content.size() < 3000;
    if (few) rs.push_back({"check_model", "-a", lm, "-"});
  }
  for (auto &a : rs)
    for (auto &x : a)
      if (x == "/dev/null") x = "rd.res";
  int n = 1 + r.below(rs.size());
  for (int i = 0; i < n; i++) {
    auto &a = rs[r.below(rs.size())];
    rd(a, a.back() == "-" ? "w0" : a.size() > 2 && a[a.size() - 2] == "-" ? test : "");
  }
  // crash points: most of them while outputs are being written
  uint64_t E = b.io_events, W = 0;
  for (auto &st : b.streams) W += st.writes;
  std::set<std::pair<int64_t, int64_t>> pts;
  int want = 10;
  if (E <= 200 && r.chance(0.15)) {
    probe("every fault position of a command tried");
    want = 0;
    for (int64_t i = 0; i < (int64_t)E; i++) { pts.insert({i, 0}); if (i % 2) pts.insert({i, 1 + i * 131 % 1000}); }
  }
  for (int i = 0; i < want; i++) {
    int64_t at = r.chance(0.8) && W ? (int64_t)E - 1 - (int64_t)r.below(std::min<uint64_t>(E, W + 3)) : (int64_t)r.below(E);
    if (i == 0) at = E - 1;
    if (i == 1 && E > 1) at = E - 2;
    pts.insert({at, r.chance(0.5) ? 0 : 1 + (int64_t)r.below(1000)});
  }
  for (auto &x : pts) {
    if (ex.stop()) return;
    Plan q = p;
    Fault f;
    f.kind = F_CRASH;
    f.at = x.first;
    f.arg = x.second;
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
  if (r.chance(0.3)) { // a writer cut down by its environment counts as killed, too
    std::vector<Fault> fv, all = output_faults(r, b, outs_parse(p.get("outs")), 1);
    for (auto &f : all) // what it leaves must be a prefix, as after a kill
      if (f.kind == F_WRITE_ERR || f.kind == F_DISK_FULL || f.kind == F_CHILD_DIES) fv.push_back(f);
    keep_some(r, fv, 3);
    for (auto &f : fv) {
      if (ex.stop()) return;
      Plan q = p;
      q.procs[0].faults.push_back(f);
      ex.try_plan(q);
    }
  }
}

// ================================================================ C04
// procs[i] with par src_i / outs_i: variants of one logical command over the same contents (files "slot N")
Fs variant_files(const Plan &p, size_t i, ProcSpec &q) {
  Fs f;
  q = p.procs[i];
  for (auto &o : outs_parse(p.get("src" + std::to_string(i)))) { // kind:slot=name
    size_t e = o.name.find('=');
    auto c = p.files.find("slot " + o.name.substr(0, e));
    if (c == p.files.end()) continue;
    std::string n = o.name.substr(e + 1);
    if (o.kind == '-') { q.has_stdin = true; q.stdin_data = c->second; }
    else f[n] = o.kind == 'f' ? c->second : enc(c->second, o.kind);
  }
  return f;
}
Verdict check_c04(const Plan &p) {
  Verdict v;
  std::vector<std::string> first;
  int code0 = 0;
  for (size_t i = 0; i < p.procs.size(); i++) {
    auto outs = outs_parse(p.get("outs" + std::to_string(i)));
    ProcSpec q;
    Fs vf = variant_files(p, i, q);
    ProcResult r = run_in(v, vf, q);
    if (undecided(v, r)) return v;
    std::vector<std::string> c;
    int code = r.how == ProcResult::EXITED ? (r.code ? 1 : 0) : 2 + r.how;
    if (r.ok())
      for (auto &o : outs) {
        std::string d;
        if (!out_content(o, r, d)) d = "\x02missing";
        c.push_back(d);
      }
    if (i == 0) {
      first = c;
      code0 = code;
      v.state = p.procs[0].argv[0] + " " + how_text(r);
      continue;
    }
    v.nontrivial = true;
    std::string what;
    if (code != code0) what = "ends differently (" + r.describe() + ")";
    else
      for (size_t k = 0; k < c.size() && k < first.size() && what.empty(); k++)
        if (c[k] != first[k]) {
          size_t d = 0;
          while (d < c[k].size() && d < first[k].size() && c[k][d] == first[k][d]) d++;
          what = fmt("output %zu differs at byte %zu (%zu / %zu bytes)", k, d, first[k].size(), c[k].size());
        }
    if (!what.empty()) {
      v.bad = true;
      v.cls = "result-depends-on-arrival";
      v.detail = join(p.procs[0].argv) + " versus " + join(p.procs[i].argv) + ": " + what;
      v.sig = p.procs[0].argv[0] + "/" + v.cls;
      return v;
    }
  }
  return v;
}
void add_variant(Plan &p, int i, const Scenario &t, const Env &e) {
  Fs f;
  ProcSpec q;
  render(t, f, q);
  q.env = e;
  std::string src;
  for (size_t k = 0; k < t.slots.size(); k++) {
    const Slot &x = t.slots[k];
    if (x.dir != 'i') continue;
    p.files["slot " + std::to_string(k)] = x.data;
    src += std::string(1, x.chan == 'S' ? '-' : x.chan == 'G' || x.chan == 'Z' ? 'g' : x.chan == 'B' ? 'b' : 'f') + ":" + std::to_string(k) + "=" + x.file + "\n";
  }
  p.set("src" + std::to_string(i), src);
  q.has_stdin = false;
  q.stdin_data.clear();
  p.procs.push_back(q);
  p.set("outs" + std::to_string(i), outs_text(t));
}
void explore_c04(Rng &r, Explorer &ex) {
  int tools = T_ALL & ~T_CHECK;
  Scenario s = gen_scenario(r, r.chance(0.75) ? tools : T_TRAIN);
  bool train = s.tool == "counts2kn" || s.tool == "varigram_kn";
  Plan p;
  int n = 2 + r.below(3);
  for (int i = 0; i < n; i++) {
    Scenario t = s;
    Env e; // the first variant: the plain world
    if (i) {
      assign_channels(r, t, r.chance(0.2) ? 0 : 3);
      e = gen_env(r);
    } else
      assign_channels(r, t, 0);
    if (train && i) {
      for (size_t k = 0; k + 1 < t.argv.size(); k++)
        if (t.argv[k] == "-H" && r.chance(0.6)) t.argv[k + 1] = std::to_string(r.chance(0.1) ? 1 + r.below(5) : 20 + r.below(20000));
      bool has = false;
      for (auto &x : t.argv) has |= x == "-L";
      if (r.chance(0.3)) {
        if (has) t.argv.erase(std::find(t.argv.begin(), t.argv.end(), std::string("-L")));
        else t.argv.insert(t.argv.begin() + 1, "-L");
      }
    }
    add_variant(p, i, t, e);
  }
  p.set("noargmin", "1");
  ex.try_plan(p);
}

// ================================================================ C05
Verdict check_c05(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  auto outs = outs_parse(p.get("outs"));
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.nontrivial = true;
  v.state = q.argv[0] + " " + fired_text(r) + " -> " + how_text(r);
  std::set<std::string> names;
  for (auto &o : outs)
    if (o.kind != '-') names.insert(o.name);
  std::string what;
  if (!r.escape.empty()) what = "leaves the simulated world: " + r.escape;
  for (auto &f : p.files) {
    if (!what.empty()) break;
    if (names.count(f.first)) continue;
    auto i = r.fs.find(f.first);
    if (i == r.fs.end()) what = "removed " + f.first;
    else if (i->second != f.second) what = "changed " + f.first;
  }
  for (auto &f : r.fs) {
    if (!what.empty()) break;
    if (!p.files.count(f.first) && !names.count(f.first)) what = "created " + esc(f.first);
  }
  if (what.empty() && r.ok())
    for (auto &n : names)
      if (!r.fs.count(n)) what = "did not create " + n;
  if (!what.empty()) {
    v.bad = true;
    v.cls = "touches-other-files";
    v.detail = join(q.argv) + " " + what;
    v.sig = q.argv[0] + "/" + v.cls;
  }
  return v;
}
void explore_c05(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  assign_channels(r, s, 7);
  Plan p = command_plan(s, gen_env(r));
  // bystanders: names a careless tool could hit
  static const char *by[] = {"tmp", "lm.arpa", "out", "temp", "core", "counts", "vocab", "txt", "lm", "a", "in", "x"};
  for (int i = 0; i < 3; i++) {
    std::string n = by[r.below(12)];
    if (!p.files.count(n)) p.files[n] = "bystander " + n;
  }
  for (auto &x : s.slots)
    if (r.chance(0.3) && x.chan != 'S') {
      std::string n = x.file + (r.chance(0.5) ? "~" : r.chance(0.5) ? ".tmp" : ".bak");
      if (n.size() < 200) p.files[n] = "bystander";
    }
  ex.try_plan(p);
  if (ex.stop()) return;
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how == ProcResult::BROKEN || b.how == ProcResult::HUNG) return;
  auto outs = outs_parse(p.get("outs"));
  auto fv = output_faults(r, b, outs, 1), iv = input_faults(r, b, outs, 1);
  fv.insert(fv.end(), iv.begin(), iv.end());
  keep_some(r, fv, 4);
  for (int i = 0; i < 3 && b.io_events; i++) {
    Fault f;
    f.kind = F_CRASH;
    f.at = r.below(b.io_events);
    f.arg = r.chance(0.5) ? 0 : r.below(1000);
    fv.push_back(f);
  }
  for (auto &f : fv) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
}
} // namespace sim
