// C19: what arpasize and check_model report about a model is what the model holds.
#include "props.h"
#include "ref.h"
#include "train.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
static bool lines_of(const std::string &s, std::vector<std::string> &o) {
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) return false;
    o.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return true;
}
// arpasize: "" or what is wrong
static std::string bad_size(const RefLm &m, bool simple, const std::string &out) {
  std::vector<std::string> l;
  if (!lines_of(out, l)) return "the last line is not complete";
  size_t want = m.order + (simple ? 2 : 1);
  if (l.size() != want) return fmt("%zu lines for order %d", l.size(), m.order);
  long total = 0;
  for (int o = 1; o <= m.order; o++) {
    int k;
    long n;
    char c;
    if (sscanf(l[o - 1].c_str(), "%d-grams: %ld%c", &k, &n, &c) != 2 || k != o) return "line '" + l[o - 1] + "'";
    long lo = 0, hi = 0;
    if (simple) lo = hi = m.declared[o - 1];
    else if (o == 1) {
      lo = m.g[1].size();
      hi = m.unk_listed ? lo : lo + 1;
    } else
      for (auto &e : m.g[o]) {
        RefLm::G s(e.first.begin() + 1, e.first.end());
        double bo = e.second.bo, lp = m.score(e.first, RefLm::TREE, nullptr), lq = m.score(s, RefLm::TREE, nullptr);
        if (std::fabs(bo + 1e-6) < 1e-8 || std::fabs(lp) < 1e-5) { hi++; continue; }
        if (bo < -1e-6) { lo++; hi++; continue; }
        double d = std::fabs((lp - lq) / lp), eps = 1e-5 + 2e-6 / std::fabs(lp);
        if (d < 0.005 - eps) continue; // there for bookkeeping
        hi++;
        if (d >= 0.005 + eps) lo++;
      }
    if (n < lo || n > hi) return fmt("%ld %d-grams, the model holds %ld", n, o, lo) + (hi > lo ? fmt(" to %ld", hi) : "");
    total += n;
  }
  long t;
  char c;
  const std::string &f = l.back();
  if (simple ? l[m.order] != "--" || sscanf(f.c_str(), "total %ld n-grams%c", &t, &c) != 1 : sscanf(f.c_str(), "Total grams: %ld%c", &t, &c) != 1)
    return "line '" + f + "'";
  if (t != total) return fmt("the total is %ld, the sum %ld", t, total);
  return "";
}
static bool prob_close(double a, double b) { return std::fabs(a - b) <= 1e-5 + 1e-3 * std::fabs(b); }
static double all_words(const RefLm &m, RefLm::Kind k, RefLm::G h, std::vector<double> *each, std::vector<int> *hits) {
  double s = 0;
  h.push_back(0);
  for (size_t w = 0; w < m.words.size(); w++) {
    int hit = 0;
    h.back() = w;
    double p = std::pow(10, m.score(h, k, &hit));
    s += p;
    if (each) each->push_back(p);
    if (hits) hits->push_back(hit);
  }
  return s;
}
static std::string bad_check(const RefLm &m, RefLm::Kind k, bool data, const std::vector<std::string> &text, const std::string &err) {
  std::vector<std::string> l;
  lines_of(err, l);
  if (!data) {
    RefLm::G h;
    for (auto &t : text) h.push_back(m.id(t));
    std::vector<double> p;
    std::vector<int> hits;
    double s = all_words(m, k, h, &p, &hits);
    size_t i = 0;
    std::string head = m.words[0] + ": 0 -> ";
    while (i < l.size() && l[i].compare(0, head.size(), head)) i++;
    for (size_t w = 0; w < p.size(); w++, i++) {
      head = m.words[w] + fmt(": %zu -> ", w);
      if (i >= l.size() || l[i].compare(0, head.size(), head)) return "no line for word '" + m.words[w] + "'";
      double x;
      int o;
      if (sscanf(l[i].c_str() + head.size(), "%lg (order %d)", &x, &o) != 2) return "line '" + l[i] + "'";
      if (!prob_close(x, p[w])) return fmt("'%s' gets %g, the model gives %g", m.words[w].c_str(), x, p[w]);
      if (o != hits[w]) return fmt("'%s' uses order %d, reported is %d", m.words[w].c_str(), hits[w], o);
    }
    double x;
    if (i + 3 > l.size() || sscanf(l[i].c_str(), "Sum %lg", &x) != 1) return "no sum";
    if (std::fabs(x - s) > 1e-4 + 1e-4 * s) return fmt("the sum reported is %g, it is %g", x, s);
    std::vector<double> q = p;
    std::sort(q.rbegin(), q.rend());
    const char *name[2] = {"Most probable ", "Second most probable "};
    for (size_t j = 0; j < 2 && j < q.size(); j++) {
      const std::string &t = l[i + 1 + j];
      size_t c = t.rfind(", ");
      if (t.compare(0, strlen(name[j]), name[j]) || c == std::string::npos) return "line '" + t + "'";
      std::string w = t.substr(strlen(name[j]), c - strlen(name[j]));
      if (q[j] < 1e-30) break; // nothing has a probability
      auto it = m.index.find(w);
      if (it == m.index.end() || !prob_close(p[it->second], q[j])) return "'" + w + "' is not the most probable one";
      if (!prob_close(atof(t.c_str() + c + 2), q[j])) return "line '" + t + "'";
    }
    return "";
  }
  RefLm::G h;
  long lo = 0, hi = 0;
  for (auto &t : text) {
    if ((int)h.size() == m.order) h.erase(h.begin());
    h.push_back(m.id(t));
    double s = all_words(m, k, h, nullptr, nullptr), eps = 2e-5;
    if (s > 1.001 - eps || s < 0.99 + eps) hi++;
    if (s > 1.001 + eps || s < 0.99 - eps) lo++;
  }
  long bad = -1, all = -1, listed = 0;
  for (auto &t : l) {
    if (!t.compare(0, 15, "Sum failed for ")) listed++;
    long a, b;
    if (sscanf(t.c_str(), "Done, %ld/%ld errors found.", &a, &b) == 2) { bad = a; all = b; }
  }
  if (all != (long)text.size()) return fmt("%ld of %zu words checked", all, text.size());
  if (bad < lo || bad > hi) return fmt("%ld failing sums reported, there are %ld", bad, lo);
  if (bad != listed) return fmt("%ld failing sums, %ld listed", bad, listed);
  return "";
}
Verdict check_c19(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  const auto &a = q.argv;
  bool size = a[0] == "arpasize", simple = has_opt(a, "-S"), free = has_opt(a, "-f");
  std::string md, text, out;
  if (!slot_input(p, 0, size ? "in" : "lm", md) || (!size && !slot_input(p, 0, "test", text))) return v;
  RefLm m = ref_parse(md);
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.state = a[0] + (simple ? " -S " : free ? " -f " : has_opt(a, "-d") ? " -d " : " ") + (m.interp ? "interpolated " : "") + how_text(r) +
            (any_fired(r) ? " after " + fired_text(r) : "");
  if (!m.ok || (!free && !m.prefixes)) return v;
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = join(a) + " [" + r.describe() + "]: " + d;
    v.sig = a[0] + "/" + cls;
    return v;
  };
  auto w = tokens(text);
  for (auto &t : w)
    if (t.size() > 500) return v;
  if (!r.ok()) {
    if (!any_fired(r) && !(simple && m.binary)) return fail("sound-model-refused", "the model is not accepted");
    v.nontrivial = any_fired(r);
    return v;
  }
  v.nontrivial = true;
  std::string d;
  if (size) {
    if (!slot_output(p, r, "sz", out)) {
      if (any_fired(r)) return v; // C01
      return fail("no-report", "the report is missing");
    }
    d = bad_size(m, simple, out);
  } else
    d = bad_check(m, free ? RefLm::HASH : RefLm::TREE, has_opt(a, "-d"), w, r.err);
  if (!d.empty()) return fail("wrong-report", d);
  return v;
}
void explore_c19(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_SIZE | T_CHECK);
  if (r.chance(0.35)) { // as other toolkits write them, or short of mass
    ModelFile own = synth_model(r, M_BACKOFF | M_INTERP | M_TREE | (s.tool == "check_model" ? M_SMALL : 0) | (r.chance(0.5) ? M_UNK : 0));
    bool arpa = has_opt(s.argv, "-a");
    for (auto &x : s.slots)
      if (x.dir == 'i' && (x.stem == "in" || x.stem == "lm")) {
        if (!arpa && own.bin.empty()) continue;
        x.data = arpa ? own.arpa : own.bin;
      }
    if (s.tool == "check_model")
      for (auto &x : s.slots)
        if (x.stem == "test") {
          TextGen g;
          g.vocab = own.words;
          g.vocab.push_back("oov");
          g.lines = 1 + r.below(2);
          x.data = gen_text(r, g);
        }
  }
  if (s.tool == "check_model" && has_opt(s.argv, "-d") && has_opt(s.argv, "-a") && r.chance(0.6))
    for (auto &x : s.slots)
      if (x.stem == "lm") { // a few n-grams get too much, and the text runs along n-grams
        std::vector<std::string> l;
        if (!lines_of(x.data, l)) break;
        std::vector<std::pair<size_t, int>> at;
        int o = 0;
        for (size_t i = 0; i < l.size(); i++) {
          int k;
          char c;
          if (sscanf(l[i].c_str(), "\\%d-grams%c", &k, &c) == 2) o = k;
          else if (!l[i].empty() && l[i][0] == '\\') o = 0;
          else if (o > 1 && !l[i].empty()) at.push_back({i, o});
        }
        if (at.empty()) break;
        for (int n = 1 + r.below(3); n; n--) {
          size_t i = at[r.below(at.size())].first;
          size_t e = l[i].find_first_of(" \t");
          if (e == std::string::npos) continue;
          l[i] = fmt("%g", std::min(0.0, atof(l[i].c_str()) * 0.3)) + l[i].substr(e);
        }
        x.data.clear();
        for (auto &t : l) x.data += t + "\n";
        std::string text;
        for (int n = 2 + r.below(6); n; n--) {
          auto &w = at[r.below(at.size())];
          auto f = tokens(l[w.first]);
          for (int k = 1; k <= w.second && k < (int)f.size(); k++) text += f[k] + " ";
        }
        for (auto &y : s.slots)
          if (y.stem == "test") y.data = text + "\n";
      }
  assign_channels(r, s, r.below(4));
  Plan p = command_plan(s, gen_env(r));
  p.set("slots", slots_text(s));
  ex.try_plan(p);
  if (ex.stop()) return;
  const ProcResult b = base_run(p.files, p.procs[0]);
  auto fl = input_faults(r, b, outs_parse(p.get("outs")), 1);
  auto fo = output_faults(r, b, outs_parse(p.get("outs")), 1);
  fl.insert(fl.end(), fo.begin(), fo.end());
  keep_some(r, fl, 3);
  for (auto &f : fl) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
}
} // namespace sim
