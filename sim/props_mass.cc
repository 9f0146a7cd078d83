// C16: models spread a probability mass of one.
#include "props.h"
#include "ref.h"
#include "train.h"
#include <cmath>
#include <cstring>

namespace sim {
// largest deviation of sum_w P(w | h) from one over the histories of a model
static double worst_mass(const RefLm &m, RefLm::Kind kind, std::string *where, Rng &r, size_t limit, bool lossy) {
  std::set<RefLm::G> hs;
  hs.insert(RefLm::G{});
  for (int o = 1; o < m.order; o++)
    for (auto &e : m.g[o]) hs.insert(e.first);
  for (int o = 2; o <= m.order; o++)
    for (auto &e : m.g[o]) hs.insert(RefLm::G(e.first.begin(), e.first.end() - 1));
  double worst = 0;
  double keep = hs.size() > limit ? (double)limit / hs.size() : 1;
  for (auto &h : hs) {
    if (keep < 1 && !h.empty() && !r.chance(keep)) continue;
    double s = 0;
    RefLm::G g = h;
    g.push_back(0);
    for (size_t w = 0; w < m.words.size(); w++) {
      g.back() = w;
      if (w == 0 && !m.unk_listed) continue;
      s += std::pow(10, m.score(g, kind, nullptr));
    }
    if (lossy && s < 1) continue; // words without counts are left out
    if (std::fabs(s - 1) > worst) {
      worst = std::fabs(s - 1);
      *where = fmt("%.5f after '", s) + m.text(h) + "'";
    }
  }
  return worst;
}

static std::string model_of(const Fs &fs, const std::string &name) {
  auto i = fs.find(name);
  return i == fs.end() ? "" : i->second;
}
static std::map<std::string, float> mix_spec(const std::string &s, std::vector<std::pair<std::string, double>> &o) {
  std::map<std::string, float> z;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(';', i);
    if (e == std::string::npos) e = s.size();
    std::string t = s.substr(i, e - i);
    size_t c = t.find(',');
    o.push_back({t.substr(0, c), atof(t.substr(c + 1).c_str())});
    i = e + 1;
  }
  return z;
}
// the mixture has every n-gram of its parts, with the weighted sum of their probabilities
static std::string bad_mixture(const RefLm &m, const std::vector<RefLm> &part, std::vector<double> w) {
  double sum = 0;
  for (double x : w) sum += x;
  std::set<std::vector<std::string>> all;
  // parts are mixed in one after the other: what only a later one lists is weighted against an approximation
  for (size_t k = 0; k < 2; k++) {
    const RefLm &p = part[k];
    for (int o = 1; o <= p.order; o++)
      for (auto &e : p.g[o]) {
        if (e.first.size() > 1 && e.second.lp <= -60) continue;
        std::vector<std::string> t;
        for (int x : e.first) t.push_back(p.words[x]);
        all.insert(t);
      }
  }
  for (auto &t : all) {
    RefLm::G g;
    bool known = true;
    for (auto &x : t) {
      known &= m.index.count(x) > 0 || x == "<UNK>";
      g.push_back(m.id(x));
    }
    std::string name;
    for (auto &x : t) name += (name.empty() ? "" : " ") + x;
    if (!known || g.size() > (size_t)m.order) return "'" + name + "' is missing";
    double want = 0;
    for (size_t k = 0; k < part.size(); k++) {
      RefLm::G h;
      // a word a part does not know has no probability there, and no n-grams
      for (auto &x : t) h.push_back(part[k].index.count(x) || x == "<UNK>" ? part[k].id(x) : -1);
      want += w[k] / sum * std::pow(10, part[k].score(h, RefLm::HASH, nullptr));
    }
    double got = std::pow(10, m.score(g, RefLm::HASH, nullptr));
    // what rounding to text loses is spread over the words again
    double eps = g.size() == 1 ? 1e-3 / (m.words.size() + 1) : 1e-6;
    if (std::fabs(got - want) > 1e-3 * want + eps) return fmt("'%s' has %.6g, the weighted sum is %.6g", name.c_str(), got, want);
  }
  return "";
}
Verdict check_c16(const Plan &p) {
  Verdict v;
  Fs fs = p.files;
  std::set<std::string> sound; // models that hold the mass they should
  for (size_t k = 0; k < p.procs.size(); k++) {
    const ProcSpec &q = p.procs[k];
    const auto &a = q.argv;
    const std::string &tool = a[0], &out = a.back();
    bool train = tool == "counts2kn" || tool == "varigram_kn", mix = tool == "simpleinterpolate2arpa", judged = true;
    std::vector<std::pair<std::string, double>> parts;
    if (mix) mix_spec(a[a.size() - 2], parts);
    else if (!train) parts.push_back({a[a.size() - 2], 1});
    for (auto &x : parts) {
      judged &= sound.count(x.first) > 0;
      if (!fs.count(x.first)) return v; // minimised away
    }
    Fs before = fs;
    ProcResult r = run_in(v, fs, q);
    if (undecided(v, r)) return v;
    fs = r.fs;
    sound.erase(out);
    v.state += (k ? " " : "") + tool + (any_fired(r) ? " " + fired_text(r) : "") + " -> " + how_text(r);
    if (!judged) continue;
    auto fail = [&](const std::string &cls, const std::string &d) {
      v.bad = true;
      v.cls = cls;
      v.detail = join(a) + ": " + d;
      v.sig = tool + "/" + cls;
      return v;
    };
    if (!r.ok()) {
      // the one refusal of sound input: no sentence start in the text or the vocabulary where the options need it
      if (any_fired(r) || r.how == ProcResult::HUNG || (train && r.err.find("o sentence start") != std::string::npos)) continue;
      return fail("fails", "sound input is not accepted: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
    }
    RefLm m = ref_parse(model_of(fs, out));
    if (!m.ok) continue; // C01 looks after these
    v.nontrivial = true;
    std::string w;
    Rng rr(1);
    bool lossy = tool == "varigram_kn" && has_opt(a, "-Z") && has_opt(a, "-x");
    double x = worst_mass(m, RefLm::TREE, &w, rr, 300, lossy);
    if (x > 1e-3) return fail("mass", "the probabilities sum to " + w);
    if (mix) {
      std::vector<RefLm> pm;
      std::vector<double> pw;
      for (auto &y : parts) {
        pm.push_back(ref_parse(model_of(before, y.first)));
        pw.push_back(y.second);
        if (!pm.back().ok) return v;
      }
      std::string d = bad_mixture(m, pm, pw);
      if (!d.empty()) return fail("mixture", d);
    }
    if (!lossy) sound.insert(out);
  }
  return v;
}
void explore_c16(Rng &r, Explorer &ex) {
  Plan p;
  auto add = [&](std::vector<std::string> a) {
    ProcSpec q;
    q.argv = a;
    q.env = gen_env(r);
    p.procs.push_back(q);
  };
  Scenario s = gen_scenario(r, T_TRAIN);
  assign_channels(r, s, r.chance(0.5));
  ProcSpec q;
  render(s, p.files, q);
  q.env = gen_env(r);
  p.procs.push_back(q);
  const bool arpa = has_opt(q.argv, "-a"), inter = has_opt(q.argv, "-x");
  std::vector<std::string> arpas, others;
  std::string first = q.argv.back();
  if (arpa) arpas.push_back(first);
  if (arpa && r.chance(0.6)) {
    int n = 1 + r.below(2);
    for (int i = 0; i < n; i++) {
      std::string t = "mt" + std::to_string(i), lm = "ml" + std::to_string(i);
      p.files[t] = pool_text(r);
      std::vector<std::string> c = {"counts2kn", "-a", "-n", std::to_string(1 + r.below(4))};
      if (r.chance(0.3)) c.push_back("-3");
      if (r.chance(0.3)) { c.push_back("-p"); c.push_back(fmt("%.2g", r.unit())); }
      c.push_back(t); c.push_back(lm);
      add(c);
      arpas.push_back(lm);
    }
    int m = 1 + r.below(2);
    for (int i = 0; i < m; i++) {
      std::string sp;
      int k = 2 + r.below(2);
      for (int j = 0; j < k; j++) sp += (j ? ";" : "") + r.pick(arpas) + "," + fmt("%.3g", 0.05 + r.unit());
      add({"simpleinterpolate2arpa", sp, "mx" + std::to_string(i)});
      arpas.push_back("mx" + std::to_string(i));
    }
  }
  int n = r.below(3);
  for (int i = 0; i < n; i++) {
    std::string o = "cv" + std::to_string(i);
    if (inter && !arpa) { add({"arpa2arpa", first, o}); arpas.push_back(o); continue; }
    if (!arpa) { add({"bin2arpa", first, o}); continue; }
    std::string in = r.pick(arpas);
    switch (r.below(3)) {
    case 0: add({"arpa2arpa", in, o}); arpas.push_back(o); break;
    case 1: add({"add_zeroprob_grams", in, o}); arpas.push_back(o); break;
    case 2: add({"arpa2bin", in, o + "b"}); add({"bin2arpa", o + "b", o}); break;
    }
  }
  p.set("noargmin", "1");
  Verdict v = ex.try_plan(p);
  if (v.bad || ex.stop() || r.chance(0.6)) return;
  // one of the commands, disturbed
  size_t k = r.below(p.procs.size());
  Fs fs = p.files;
  for (size_t i = 0; i < k; i++) {
    const ProcResult &b = base_run(fs, p.procs[i]);
    if (!b.ok()) return;
    Fs next = b.fs;
    fs = next;
  }
  ProcResult b = base_run(fs, p.procs[k]);
  std::vector<OutRef> outs = outs_parse("f:" + p.procs[k].argv.back() + "\n");
  auto fl = input_faults(r, b, outs, 2);
  if (r.chance(0.3)) fl = output_faults(r, b, outs, 2);
  if (b.allocs && r.chance(0.5)) fl.push_back(mk(F_ALLOC_FAIL, "", r.below(b.allocs), 0, r.below(3)));
  keep_some(r, fl, 3);
  for (auto &f : fl) {
    if (ex.stop()) return;
    Plan d = p;
    d.procs[k].faults = {f};
    ex.try_plan(d);
  }
}
} // namespace sim
