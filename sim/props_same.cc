// C15: options that only save memory, or choose the form of the output, leave the result alone.
#include "props.h"
#include "train.h"
#include "ref.h"
#include <algorithm>
#include <cmath>

namespace sim {
std::string same_models(const RefLm &a, const RefLm &b, double tol);
static bool form_opt(const std::string &x) { return x == "-a" || x == "-x"; }
// counts keyed by words
static bool named_counts(const std::string &cnt, const std::string &voc, std::map<std::string, long> &o) {
  CountsFile f = parse_counts(cnt);
  if (!f.ok) return false;
  std::vector<std::string> w = {"<UNK>"};
  std::string l;
  for (char c : voc)
    if (c == '\n') { w.push_back(l); l.clear(); } else l += c;
  for (auto &k : f.counts)
    for (auto &e : k.second) {
      std::string g;
      for (int x : e.first) {
        if (x < 0 || x >= (int)w.size()) return false;
        g += w[x] + " ";
      }
      o[g] = e.second;
    }
  return true;
}
// both models give every n-gram either of them knows, and some others, the same probability
static std::string same_scores(const RefLm &a, const RefLm &b, uint64_t seed) {
  std::set<std::string> x(a.words.begin() + 1, a.words.end()), y(b.words.begin() + 1, b.words.end());
  if (x != y) return "the vocabularies differ";
  // an order without n-grams may be listed or not
  Rng r(seed);
  auto cmp = [&](const RefLm &m, const RefLm &n, const RefLm::G &g) {
    RefLm::G h;
    for (int w : g) h.push_back(n.id(m.words[w]));
    int hit;
    double p = m.score(g, RefLm::TREE, &hit), q = n.score(h, RefLm::TREE, &hit);
    // -60 and below stand for zero
    if ((p < -50 && q < -50) || std::fabs(p - q) <= 1e-3 * (1 + g.size()) + 1e-4 * std::fabs(p)) return std::string();
    return fmt("%.5f against %.5f for ", p, q) + m.text(g);
  };
  std::string w;
  for (int k = 0; k < 2; k++) {
    const RefLm &m = k ? b : a, &n = k ? a : b;
    for (int o = 1; o <= m.order; o++)
      for (auto &e : m.g[o])
        if (!(w = cmp(m, n, e.first)).empty()) return w;
    for (int i = 0; i < 200 && m.words.size() > 1; i++) {
      RefLm::G g;
      int l = 1 + r.below(std::max(a.order, b.order) + 1);
      for (int j = 0; j < l; j++) g.push_back(r.below(m.words.size()));
      if (!(w = cmp(m, n, g)).empty()) return w;
    }
  }
  return "";
}
// procs[i]: variants of one command; those with faults may fail
Verdict check_c15(const Plan &p) {
  Verdict v;
  ProcResult r0;
  for (size_t i = 0; i < p.procs.size(); i++) {
    ProcSpec q;
    Fs vf = variant_files(p, i, q);
    ProcResult r = run_in(v, vf, q);
    if (undecided(v, r)) return v;
    if (i == 0) {
      if (any_fired(r)) return v;
      r0 = r;
      v.state = q.argv[0] + " " + how_text(r);
      continue;
    }
    v.nontrivial = true;
    const auto &a = p.procs[0].argv, &b = q.argv;
    std::string diff;
    for (auto o : {"-s", "-S", "-L"})
      if (has_opt(a, o) != has_opt(b, o)) diff += std::string(" ") + o;
    bool forms = false;
    for (auto o : {"-a", "-x"}) forms |= has_opt(a, o) != has_opt(b, o);
    v.state += std::string(" |") + (any_fired(r) ? " " + fired_text(r) + " " + how_text(r) : "") + diff + (forms ? " form" : "");
    auto fail = [&](const std::string &cls, const std::string &d) {
      v.bad = true;
      v.cls = cls;
      v.detail = join(a) + " versus " + join(b) + ": " + d;
      v.sig = a[0] + "/" + cls;
      return v;
    };
    if (r.how == ProcResult::CRASHED) continue;
    std::string text;
    Plan t = p;
    t.set("slots", p.get("slots0"));
    if (r.ok() != r0.ok()) {
      if (!r.ok() && any_fired(r)) continue;
      // with a closed vocabulary -C needs the sentence start in it
      if (has_opt(a, "-C") && !has_opt(a, "-B") && has_opt(b, "-s") != has_opt(a, "-s")) continue;
      return fail("ends-differently", r0.describe() + " / " + r.describe());
    }
    if (!r.ok()) continue;
    Plan u = p;
    u.set("slots", p.get("slots" + std::to_string(i)));
    std::string d0, d1;
    if (a[0] == "perplexity") {
      for (auto stem : {"res", "ps"})
        if (slot_output(t, r0, stem, d0) && slot_output(u, r, stem, d1) && d0 != d1) return fail("output", std::string(stem) + " differs");
      continue;
    }
    if (slot_output(t, r0, "lm", d0)) {
      if (!slot_output(u, r, "lm", d1)) return fail("output", "no model");
      bool s = has_opt(a, "-s") != has_opt(b, "-s");
      if (!forms && !s) {
        if (d0 != d1) return fail("model", "the models differ");
      } else {
        RefLm m = ref_parse(d0), n = ref_parse(d1);
        if (!m.ok || !n.ok) return fail("unreadable", "model: " + m.why + n.why);
        std::string w = forms ? same_scores(m, n, 7) : same_models(m, n, 1.1e-4);
        if (!w.empty()) return fail("model", w);
      }
    }
    std::string v0, v1;
    bool hv = slot_output(t, r0, "vout", v0);
    if (hv) {
      if (!slot_output(u, r, "vout", v1)) return fail("output", "no vocabulary");
      std::string x = v0, y = v1;
      auto l = [](const std::string &s) { auto k = tokens(s); std::sort(k.begin(), k.end()); return k; };
      if (l(x) != l(y)) return fail("vocabulary", "the vocabularies differ");
    }
    if (hv && slot_output(t, r0, "cnt", d0) && slot_output(u, r, "cnt", d1)) {
      std::map<std::string, long> x, y;
      if (!named_counts(d0, v0, x) || !named_counts(d1, v1, y)) return fail("counts", "unreadable counts file");
      if (x != y) return fail("counts", "the counts files differ");
    }
  }
  return v;
}
void explore_c15(Rng &r, Explorer &ex) {
  Scenario s;
  bool perp = r.chance(0.12);
  for (int k = 0;; k++) {
    s = gen_scenario(r, perp ? T_PERP : T_TRAIN);
    if (perp && k < 50 && !has_opt(s.argv, "-f")) continue;
    break;
  }
  auto &a = s.argv;
  if (!perp) {
    a.erase(std::remove_if(a.begin() + 1, a.end(), form_opt), a.end());
    a.insert(a.begin() + 1, "-a");
  }
  bool vari = s.tool == "varigram_kn";
  // without the n-grams of zero probability the ARPA form keeps the words and the other form may not
  bool forms = !(vari && has_opt(a, "-Z"));
  // pruning weighs the n-grams by their occurrences only where the data is cached: no pruning with a target this high
  bool cache = vari && !has_opt(a, "-E") && !has_opt(a, "-V") && r.chance(0.6);
  if (cache) a.insert(a.begin() + 1, {"-V", "1000000000"});
  Plan p;
  int n = 2 + r.below(2);
  for (int i = 0; i < n; i++) {
    Scenario t = s;
    Env e;
    auto &b = t.argv;
    auto toggle = [&](const char *o) {
      auto k = std::find(b.begin() + 1, b.end(), std::string(o));
      if (k != b.end()) b.erase(k); else b.insert(b.begin() + 1, o);
    };
    if (i) {
      assign_channels(r, t, r.chance(0.5) ? 0 : 3);
      e = gen_env(r);
      if (perp) toggle("-s");
      else {
        bool any = false;
        if (r.chance(0.4)) { toggle("-s"); any = true; }
        if (r.chance(0.3)) { toggle("-L"); any = true; }
        if (cache && r.chance(0.7)) { toggle("-S"); any = true; }
        if (forms && (!any || r.chance(0.3))) { toggle("-a"); toggle("-x"); }
        for (size_t k = 0; k + 1 < b.size(); k++)
          if (b[k] == "-H" && r.chance(0.5)) b[k + 1] = std::to_string(20 + r.below(5000));
      }
    } else
      assign_channels(r, t, 0);
    add_variant(p, i, t, e);
    p.set("slots" + std::to_string(i), slots_text(t));
  }
  p.set("noargmin", "1");
  Verdict v = ex.try_plan(p);
  if (v.bad || ex.stop() || r.chance(0.6)) return;
  // the last variant, disturbed
  size_t i = p.procs.size() - 1;
  ProcSpec q;
  Fs vf = variant_files(p, i, q);
  const ProcResult &b = base_run(vf, q);
  auto outs = outs_parse(p.get("outs" + std::to_string(i)));
  auto fl = r.chance(0.8) ? input_faults(r, b, outs, 2) : output_faults(r, b, outs, 2);
  keep_some(r, fl, 3);
  for (auto &f : fl) {
    if (ex.stop()) return;
    Plan d = p;
    d.procs[i].faults = {f};
    ex.try_plan(d);
  }
}
} // namespace sim
