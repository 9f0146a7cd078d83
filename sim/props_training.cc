// C21: models trained side by side in one process against each trained alone and by the tools.
#include "lib.h"
#include "props.h"
#include "ref.h"
#include "train.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

namespace sim {
static std::vector<std::string> words_of(const std::string &s) {
  std::istringstream in(s);
  std::vector<std::string> o;
  std::string w;
  while (in >> w) o.push_back(w);
  return o;
}
struct Took { ProcResult r; bool ok = false; std::vector<std::vector<std::string>> log; };
static Took go(Verdict &v, const Plan &p, int alone) {
  Took t;
  Plan q = p;
  ProcSpec s = p.procs[0];
  if (alone >= 0) { q.set("alone", alone); s.faults.clear(); }
  t.r = run_workload(p.files, s, [&] { lib_training_run(q); });
  v.hash = mix(v.hash, mix(t.r.loghash, mix(t.r.steps, (uint64_t)t.r.how * 1000 + t.r.code)));
  v.hash = hash_str(t.r.report, v.hash);
  t.log.resize(p.geti("sessions", 1));
  std::istringstream in(t.r.report);
  std::string l;
  while (std::getline(in, l)) {
    if (l == "OK") { t.ok = t.r.ok() && t.r.asan.empty(); continue; }
    size_t k = atoi(l.c_str());
    if (k < t.log.size()) t.log[k].push_back(l.substr(l.find(' ') + 1));
  }
  return t;
}
static bool thrown(const std::string &l) { return l.size() > 7 && !l.compare(l.size() - 7, 7, " THROWN"); }
static std::string bytes(const Fs &fs, const std::string &n) {
  auto i = fs.find(n);
  return i == fs.end() ? "\x01nothing" : i->second;
}
static std::vector<std::string> sorted_lines(const std::string &s) {
  std::vector<std::string> l;
  std::istringstream in(s);
  std::string x;
  while (std::getline(in, x)) l.push_back(x);
  std::sort(l.begin(), l.end());
  return l;
}
Verdict check_c21(const Plan &p) {
  Verdict v;
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = d;
    v.sig = "library/" + cls;
    return v;
  };
  if (!lib_training_run) return fail("HARNESS", "the training workload does not compile against the library any more");
  int n = p.geti("sessions", 1);
  if ((int)p.procs.size() < 1 + n) return v;
  Took all = go(v, p, -1);
  if (undecided(v, all.r)) return v;
  bool struck = any_fired(all.r);
  v.state = p.get("label") + (struck ? " " + fired_text(all.r) : "") + " -> " + how_text(all.r);
  std::vector<Took> one;
  for (int s = 0; s < n; s++) {
    bool any = false;
    for (auto &o : p.ops) any = any || atoi(o.c_str()) == s;
    one.push_back(any ? go(v, p, s) : Took());
    if (!any) { one.back().ok = true; one.back().log.resize(n); continue; }
    if (undecided(v, one[s].r)) return v;
    if (!one[s].ok) { // not to be trained at all: then the tool refuses it, too
      if (!one[s].r.asan.empty() || one[s].r.how == ProcResult::SIGNALED || one[s].r.how == ProcResult::CRASHED)
        return fail("crash", fmt("session %d alone ends with ", s) + one[s].r.describe());
      return v;
    }
    for (auto &l : one[s].log[s])
      if (thrown(l)) return v;
  }
  if (!all.ok) {
    if (struck && all.r.how != ProcResult::SIGNALED && all.r.how != ProcResult::CRASHED) { v.nontrivial = true; return v; }
    return fail("crash", "sessions that end well alone end together with " + all.r.describe() + " " + all.r.err.substr(0, 200));
  }
  v.nontrivial = true;
  for (int s = 0; s < n; s++) {
    auto &a = all.log[s], &b = one[s].log[s];
    if (!struck && a != b) {
      for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
        if (i >= a.size() || i >= b.size() || a[i] != b[i])
          return fail("disturbed", fmt("session %d: ", s) + (i < a.size() ? a[i] : "nothing") + "; alone: " + (i < b.size() ? b[i] : "nothing"));
    }
    std::string vocab, counts, lm, form;
    bool lm_seen = false, lm_asked = false;
    for (auto &l : a) {
      if (thrown(l)) continue;
      auto w = words_of(l);
      if (w[0] == "score" && std::find(b.begin(), b.end(), l) == b.end()) {
        bool torn = false; // its model was not written whole
        for (auto &x : a) torn = torn || (thrown(x) && x.find(w[1] + " ") != std::string::npos);
        if (!torn) return fail("disturbed", fmt("session %d: %s, alone it is another score", s, l.c_str()));
      }
      if (w[0] != "vocab" && w[0] != "counts" && w[0] != "lm") continue;
      if (bytes(all.r.fs, w[1]) != bytes(one[s].r.fs, w[1]))
        return fail("disturbed", fmt("session %d: %s differs from what the session writes alone", s, w[1].c_str()));
    }
    // the tool, and what is written again
    std::map<std::string, std::string> first;
    for (auto &o : p.ops) {
      auto t = words_of(o);
      if (t.size() < 3 || atoi(t[0].c_str()) != s) continue;
      bool done = std::find(a.begin(), a.end(), t[1] + " " + t[2]) != a.end();
      if (t[1] == "disc" && lm_asked) break;
      lm_asked = lm_asked || t[1] == "lm";
      if (!done) continue;
      if (t[1] == "vocab" && vocab.empty()) vocab = t[2];
      if (t[1] == "counts" && !lm_seen && !lm_asked && counts.empty()) counts = t[2];
      if (t[1] == "lm") {
        if (!lm_seen) { lm = t[2]; form = t[3]; }
        lm_seen = true;
        if (!first.count(t[3])) first[t[3]] = t[2];
        else {
          std::string x = bytes(all.r.fs, first[t[3]]), y = bytes(all.r.fs, t[2]);
          if (t[3] == "n" ? sorted_lines(x) != sorted_lines(y) : x != y)
            return fail("rewritten", fmt("session %d: %s, written again as %s, is another model", s, first[t[3]].c_str(), t[2].c_str()));
        }
      }
    }
    const auto &c = p.procs[1 + s].argv;
    bool full = p.get(fmt("full%d", s)) == fmt("%zu", std::count_if(p.ops.begin(), p.ops.end(), [&](const std::string &o) { return atoi(o.c_str()) == s; }));
    if (full && lm_seen && !c.empty() && form == p.get(fmt("form%d", s))) {
      const ProcResult &t = base_run(p.files, p.procs[1 + s]);
      if (undecided(v, t)) return v;
      if (!t.ok()) return fail("tool-differs", join(c) + " fails, the library does not: " + t.describe());
      std::string w = fmt("c%d.", s);
      if (bytes(t.fs, w + "lm") != bytes(all.r.fs, lm)) return fail("tool-differs", fmt("session %d: %s is not the model of %s", s, lm.c_str(), join(c).c_str()));
      if (vocab.size() && bytes(t.fs, w + "voc") != bytes(all.r.fs, vocab)) return fail("tool-differs", fmt("session %d: %s is not the vocabulary of %s", s, vocab.c_str(), join(c).c_str()));
      if (counts.size() && bytes(t.fs, w + "cnt") != bytes(all.r.fs, counts)) return fail("tool-differs", fmt("session %d: %s are not the counts of %s", s, counts.c_str(), join(c).c_str()));
    }
  }
  return v;
}
void explore_c21(Rng &rr, Explorer &ex) {
  Plan p;
  ProcSpec q;
  q.argv.push_back("library");
  q.env = gen_env(rr);
  p.procs.push_back(q);
  int n = 1 + (int)rr.below(3);
  p.set("sessions", n);
  p.set("noargmin", "1");
  int nt = 1 + (int)rr.below(3);
  std::vector<std::string> voc;
  for (int i = 0; i < nt; i++) {
    p.files[fmt("t%d", i)] = pool_text(rr);
    for (auto &w : distinct_words(p.files[fmt("t%d", i)])) voc.push_back(w);
  }
  p.files["voc"] = list_file(some_words(rr, voc, 0.7));
  voc.push_back("oov");
  std::vector<std::vector<std::string>> todo(n);
  std::string label, outs;
  Rng &r0 = rr, before = rr, r = rr;
  for (int i = 0; i < n; i++) {
    auto &o = todo[i];
    bool twin = i && r0.chance(0.35); // another of the same, but for one thing
    if (twin) r = before;
    else { r = Rng(r0.next()); before = r; }
    int odd = twin ? r0.below(5) : -1;
    std::vector<std::string> a;
    auto put = [&](const std::string &x) { o.push_back(fmt("%d ", i) + x); };
    auto flag = [&](double x, const char *f) { bool b = r.chance(x); if (b) a.push_back(f); return b; };
    bool vg = r.chance(0.65);
    std::string txt = fmt("t%d", (int)(odd == 3 ? r0 : r).below(nt)), h = std::to_string(50 + r.below(3000)), nn = std::to_string((vg ? 1 : 2) + r.below(4));
    a = {vg ? "varigram_kn" : "counts2kn", "-H", h, "-n", nn};
    std::string bits = flag(0.4, "-3") ? "1" : "0";
    bits += flag(0.15, "-A") ? " 1" : " 0";
    bits += flag(0.25, "-s") ? " 1" : " 0";
    bits += flag(0.25, "-L") ? " 1" : " 0";
    std::string cl = flag(0.2, "-C") ? "<s>" : "-", vocn = "-", opti = "-", nd = "0", nf = "0", cut = "-";
    bool own_voc = r.chance(0.2);
    if (own_voc) { vocn = "voc"; a.push_back("-B"); a.push_back(vocn); }
    if (r.chance(0.25)) { opti = fmt("t%d", (int)(odd == 2 ? r0 : r).below(nt)); a.push_back("-o"); a.push_back(opti); }
    if (!own_voc && r.chance(0.1)) { nd = "1"; a.push_back("-d"); a.push_back(nd); }
    if (!own_voc && r.chance(0.2)) { nf = std::to_string(3 + r.below(30)); a.push_back("-f"); a.push_back(nf); }
    if (r.chance(0.25)) {
      cut = r.chance(0.5) ? "0,1" : "0,0,1";
      std::string t = cut;
      for (auto &c : t) if (c == ',') c = ' ';
      a.push_back("-O"); a.push_back(t);
    }
    if (odd == 0 && cl == "-") { cl = "<s>"; a.push_back("-C"); }
    if (odd == 1 && cut == "-") { cut = "0,1"; a.push_back("-O"); a.push_back("0 1"); }
    bool unks = flag(0.15, "-N");
    if (vg) {
      std::string d = fmt("%.3g", 0.002 * std::pow(10, r.unit() * 3)), e = "0", v = "0";
      a.push_back("-D"); a.push_back(d);
      if (r.chance(0.3)) { e = fmt("%.3g", 0.05 * std::pow(10, r.unit() * 2)); a.push_back("-E"); a.push_back(e); }
      if (r.chance(0.15)) { v = std::to_string(40 + r.below(200)); a.push_back("-V"); a.push_back(v); }
      bool small = flag(0.3, "-S");
      put("new " + bits);
      put("par " + d + " " + e + " " + v + " " + nn);
      put("init " + txt + " " + h + " " + nd + " " + nf + " " + opti + " " + cl + (small ? " 1 " : " 0 ") + vocn);
      if (cut != "-") put("cut " + cut);
      if (unks) put("unks");
      put("grow");
      if (r.chance(0.1)) { put("disc 0.5"); a.push_back("-F"); a.push_back("0.5"); }
    } else {
      std::string thr = r.chance(0.5) ? "0" : fmt("%.3g", 0.01 * std::pow(10, r.unit() * 2));
      if (thr != "0") { a.push_back("-p"); a.push_back(thr); }
      bool dc = flag(0.1, "-D");
      put("kn " + bits + " " + txt + " " + vocn + " " + opti + " " + nn + " " + nd + " " + nf + " " + cl + " " + h);
      put("make " + thr + " " + cut + (dc ? " 1" : " 0") + (unks ? " 1" : " 0"));
    }
    static const char *forms[] = {"a", "b", "n"};
    std::string f0 = forms[r.below(3)], f = f0;
    if (f0 == "a") a.push_back("-a");
    if (f0 == "n") a.push_back("-x");
    a.push_back("-U"); a.push_back(fmt("c%d.voc", i));
    a.push_back("-W"); a.push_back(fmt("c%d.cnt", i));
    a.push_back(txt);
    a.push_back(fmt("c%d.lm", i));
    p.set(fmt("form%d", i), f0);
    auto out = [&](const std::string &verb, const std::string &name, const std::string &rest) {
      put(verb + " " + name + rest);
      outs += "f:" + name + "\n";
    };
    if (r.chance(0.4)) out("vocab", fmt("s%d.voc0", i), "");
    if (r.chance(0.5)) out("counts", fmt("s%d.cnt0", i), "");
    for (int k = 0, e = 1 + r.below(4); k < e; k++) {
      std::string nm = fmt("s%d.lm%d", i, k);
      out("lm", nm, " " + f);
      if (f != "n" && r.chance(0.3)) {
        std::string t = "score " + nm + " " + f;
        for (int j = 1 + r.below(9); j; j--) t += " " + voc[r.below(voc.size())];
        put(t);
      }
      if (r.chance(0.15)) out("counts", fmt("s%d.cnt%d", i, k + 1), "");
      if (r.chance(0.1)) out("vocab", fmt("s%d.voc%d", i, k + 1), "");
      if (vg && r.chance(0.05)) put("disc 0.3");
      f = r.chance(0.6) ? f0 : forms[r.below(3)];
    }
    if (r.chance(0.3)) put("end");
    p.set(fmt("full%d", i), (int)o.size());
    ProcSpec c;
    c.argv = a;
    p.procs.push_back(c);
    label += vg ? 'v' : 'k';
    label += f0;
  }
  p.set("label", label);
  std::vector<size_t> at(n);
  for (int rounds = 1 + rr.below(3); rounds && !ex.stop(); rounds--) {
    Plan m = p;
    std::fill(at.begin(), at.end(), 0);
    for (int last = -1;;) {
      std::vector<int> open;
      for (int i = 0; i < n; i++)
        if (at[i] < todo[i].size()) open.push_back(i);
      if (open.empty()) break;
      int i = last >= 0 && at[last] < todo[last].size() && rr.chance(0.3) ? last : open[rr.below(open.size())];
      m.ops.push_back(todo[i][at[i]++]);
      last = i;
    }
    if (ex.try_plan(m).bad || ex.stop()) return;
    // and with faults
    ProcResult b = run_workload(m.files, m.procs[0], [&] { lib_training_run(m); });
    if (!b.ok()) return;
    auto fo = output_faults(rr, b, outs_parse(outs), 1), fi = input_faults(rr, b, outs_parse(outs), 1);
    keep_some(rr, fo, 3);
    keep_some(rr, fi, 1);
    fo.insert(fo.end(), fi.begin(), fi.end());
    for (auto &f : fo) {
      if (ex.stop()) return;
      Plan g = m;
      g.procs[0].faults.push_back(f);
      if (ex.try_plan(g).bad) return;
    }
  }
}
} // namespace sim
