// C17: a trained model holds the Kneser-Ney probabilities of its counts.
// C18: the counts kept are those of the text, whichever n-grams were chosen.
#include "props.h"
#include "ref.h"
#include "train.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
typedef CountsFile::G G;
namespace {
// interpolated Kneser-Ney over the contents of a counts file
struct Kn {
  const CountsFile &c;
  bool three;
  double words = 0;
  std::vector<std::vector<double>> D; // per order
  Kn(const CountsFile &c, bool three) : c(c), three(three) {}
  const std::vector<long> *bo(const G &h) const {
    auto o = c.backoffs.find((int)h.size() + 1);
    if (o == c.backoffs.end()) return nullptr;
    auto i = o->second.find(h);
    return i == o->second.end() || i->second[i->second.size() - 2] == 0 ? nullptr : &i->second;
  }
  long num(const G &g) const {
    auto o = c.counts.find((int)g.size());
    if (o == c.counts.end()) return 0;
    auto i = o->second.find(g);
    return i == o->second.end() ? 0 : i->second;
  }
  size_t cls(long n) const { return three ? std::min<long>(2, n - 1) : 0; }
  // p = (num - D[class] + (sum_k nz_k D_k + pruned) * low) / den; sens: what a change of the discounts does to it
  double prob(const G &g, double *sens) const {
    double low = 1 / words, ls = 0;
    for (size_t n = 1; n <= g.size(); n++) {
      G x(g.end() - n, g.end()), h(x.begin(), x.end() - 1);
      const std::vector<long> *b = bo(h);
      if (!b) continue;
      double den = (*b)[b->size() - 2], left = n > 1 || three ? b->back() : 0, nz = 0;
      for (size_t k = 0; k + 2 < b->size(); k++) left += (*b)[k] * D[n][k], nz += (*b)[k];
      long m = num(x);
      double p = left / den * low, s = left / den * ls + nz / den * low;
      if (m > 0) {
        p += (m - D[n][cls(m)]) / den;
        s += 1 / den;
      }
      low = p;
      ls = s;
    }
    if (sens) *sens = ls;
    return low;
  }
};
struct Probe {
  G g;
  double p = 0; // what the model says
};
// least squares for the discounts of one order
void fit(Kn &kn, int n, double dt, const std::vector<Probe> &pr) {
  size_t K = kn.three ? 3 : 1;
  double A[3][3] = {{0}}, B[3] = {0};
  for (size_t k = 0; k < K; k++) A[k][k] = 1e-3, B[k] = 1e-3 * 0.71;
  for (auto &x : pr) {
    if ((int)x.g.size() != n) continue;
    const std::vector<long> *b = kn.bo(G(x.g.begin(), x.g.end() - 1));
    if (!b) continue;
    double ls = 0, low = n > 1 ? kn.prob(G(x.g.begin() + 1, x.g.end()), &ls) : 1 / kn.words;
    double den = (*b)[b->size() - 2], a[3] = {0}, y = x.p * den;
    if (n > 1 || kn.three) y -= b->back() * low;
    for (size_t k = 0; k < K; k++) a[k] = (*b)[k] * low;
    long m = kn.num(x.g);
    if (m > 0) y -= m, a[kn.cls(m)] -= 1;
    // what the rounding in the file and of the lower orders can do to the row
    double all = b->back(), w = 0;
    for (size_t k = 0; k < K; k++) all += (*b)[k] * (k + 1);
    w = 1 / (1e-4 * (n + 1) * (x.p * den + all * low) + dt * all * ls + 1e-9);
    for (size_t i = 0; i < K; i++) {
      for (size_t j = 0; j < K; j++) A[i][j] += w * w * a[i] * a[j];
      B[i] += w * w * a[i] * y;
    }
  }
  // inside the range the discounts are looked for in: each one free or at a border
  double best = 1e300;
  for (int combo = 0; combo < (K == 3 ? 27 : 3); combo++) {
    double x[3] = {0};
    std::vector<size_t> fr;
    for (size_t i = 0, c = combo; i < K; i++, c /= 3)
      if (c % 3 == 0) fr.push_back(i);
      else x[i] = c % 3 == 1 ? 0 : i + 1;
    long double M[3][4];
    for (size_t i = 0; i < fr.size(); i++) {
      M[i][fr.size()] = B[fr[i]];
      for (size_t j = 0; j < K; j++) M[i][fr.size()] -= (long double)A[fr[i]][j] * x[j];
      for (size_t j = 0; j < fr.size(); j++) M[i][j] = A[fr[i]][fr[j]];
    }
    for (size_t i = 0; i < fr.size(); i++)
      for (size_t j = i + 1; j < fr.size(); j++) {
        long double f = M[j][i] / M[i][i];
        for (size_t k = i; k <= fr.size(); k++) M[j][k] -= f * M[i][k];
      }
    bool in = true;
    for (size_t i = fr.size(); i-- > 0;) {
      for (size_t j = i + 1; j < fr.size(); j++) M[i][fr.size()] -= M[i][j] * x[fr[j]];
      x[fr[i]] = M[i][fr.size()] / M[i][i];
      in = in && x[fr[i]] >= 0 && x[fr[i]] <= fr[i] + 1;
    }
    if (!in) continue;
    double q = 0;
    for (size_t i = 0; i < K; i++) {
      for (size_t j = 0; j < K; j++) q += x[i] * A[i][j] * x[j];
      q -= 2 * B[i] * x[i];
    }
    if (q < best) {
      best = q;
      for (size_t i = 0; i < K; i++) kn.D[n][i] = x[i];
    }
  }
}
// leave-one-out estimates from the counts of one order
std::vector<double> leave_one_out(const std::map<G, long> &m, bool three) {
  std::vector<double> d(three ? 3 : 1, 0.71), n(6);
  for (auto &e : m)
    if (e.second >= 1 && e.second <= (long)d.size() + 1) n[e.second]++;
  if (!n[1] || !n[2]) return d;
  double Y = n[1] / (n[1] + 2 * n[2]);
  for (size_t i = 0; i < d.size(); i++)
    if (n[i + 1] > 0) d[i] = std::max(0.1, std::min(i + 0.8, i + 1 - (i + 2) * Y * n[i + 2] / n[i + 1]));
  return d;
}
// count of an n-gram when the longer ones left out have given theirs back
long value(const std::vector<std::map<G, long>> &base, const std::map<G, std::vector<G>> &left, const G &g) {
  auto i = base[g.size()].find(g);
  long u = i == base[g.size()].end() ? 0 : i->second;
  auto l = left.find(g);
  if (l != left.end())
    for (auto &x : l->second) u += value(base, left, x) - 1;
  return u;
}
// counts of n-grams against the ones before the choice; "" if they fit
std::string choice(std::vector<std::map<G, long>> &base, const CountsFile &c, const std::vector<std::string> &a, int skip, bool &cuts) {
  const bool bounds = a[0] == "counts2kn" && has_opt(a, "-D") && !has_opt(a, "-A"), rounds = a[0] == "varigram_kn" && has_opt(a, "-V");
  const bool moved = !bounds && !has_opt(a, "-A");
  std::vector<long> cut;
  {
    std::string o = opt_value(a, "-O");
    char *q = &o[0], *e;
    for (long x; x = strtol(q, &e, 10), e != q; q = e) cut.push_back(x);
  }
  cuts = cut.size();
  const bool unk = has_opt(a, "-N"), vari = a[0] == "varigram_kn", free = vari || atof(opt_value(a, "-p").c_str()) > 0, have_prune = cuts || unk; // n-grams that do harm go then, too
  if (vari && has_opt(a, "-V")) cut.clear();
  std::map<G, std::vector<G>> left, longer;
  std::set<G> above; // with longer n-grams in the model
  auto in = [&](const G &g) {
    auto i = c.counts.find(g.size());
    if (i == c.counts.end()) return false;
    auto j = i->second.find(g);
    return j != i->second.end() && j->second > 0;
  };
  for (size_t o = 2; o < base.size(); o++)
    for (auto &e : base[o]) {
      G g(e.first.begin() + 1, e.first.end());
      if (!in(e.first)) left[g].push_back(e.first);
      else if (vari)
        for (; g.size(); g.erase(g.begin())) above.insert(g);
      if (vari) longer[G(e.first.begin() + 1, e.first.end())].push_back(e.first);
    }
  for (auto &o : c.counts)
    for (auto &e : o.second)
      if (e.second > 0) {
        if (o.first >= (int)base.size() || !base[o.first].count(e.first)) {
          if (o.first > 1 || e.first[0] != skip) return "n-gram " + gram_text(e.first) + " does not occur";
          continue;
        }
      }
  for (size_t o = 1; o < base.size(); o++)
    for (auto &e : base[o]) {
      const G &g = e.first;
      if (o == 1 && g[0] == skip) continue;
      long want = e.second, have = 0;
      if (moved && !vari) want = value(base, left, g);
      if (moved && vari) {
        // grown from occurrences; nothing is known about what an n-gram left out has taken back, if longer ones are there
        bool sure = true;
        for (auto &x : longer[g]) {
          if (in(x)) want -= base[o + 1][x] - 1;
          else if (above.count(x)) sure = false;
        }
        if (!sure) continue;
      }
      auto i = c.counts.find(o);
      if (i != c.counts.end() && i->second.count(g)) have = i->second.find(g)->second;
      long th = o < 2 || cut.empty() ? 0 : o > cut.size() ? cut.back() : cut[o - 1];
      bool out = o > 1 && ((bounds ? have : want) <= th || (unk && !(vari && has_opt(a, "-V")) && std::count(g.begin(), g.end(), 0)));
      if (have <= 0 && o > 1 && (out || free || have_prune)) continue;
      if (have <= 0) return "n-gram " + gram_text(g) + fmt(" with count %ld is missing", want);
      if (out) return "n-gram " + gram_text(g) + fmt(" with count %ld (%ld) should be left out", have, want);
      // thrown away when at a cutoff, handed down otherwise; pruned again and again
      if (bounds && have >= e.second && have <= value(base, left, g)) continue;
      if (rounds && have >= 1 && have <= want) continue;
      if (have != want) return "n-gram " + gram_text(g) + fmt(" has count %ld, with what was left out it has %ld", have, want);
    }
  return "";
}
// absolute discounting leaves the lower orders alone: what the criterion says of each n-gram whatever became of its siblings
std::string criterion(const std::vector<std::map<G, long>> &base, const CountsFile &c, const std::vector<std::string> &a, double words, long &decided) {
  const bool three = has_opt(a, "-3"), unk = has_opt(a, "-N");
  double thr = std::max(0.0, atof(opt_value(a, "-p").c_str())) * (std::log2(words) + 20);
  const bool prune = thr > 0 || unk || has_opt(a, "-O");
  std::vector<long> cut;
  {
    std::string o = opt_value(a, "-O");
    char *q = &o[0], *e;
    for (long x; x = strtol(q, &e, 10), e != q; q = e) cut.push_back(x);
  }
  CountsFile whole;
  whole.ok = true;
  for (size_t o = 1; o < base.size(); o++)
    for (auto &e : base[o]) {
      whole.counts[o][e.first] = e.second;
      auto &b = whole.backoffs[o][G(e.first.begin(), e.first.end() - 1)];
      b.resize(three ? 5 : 3);
      b[three ? std::min<long>(2, e.second - 1) : 0]++;
      b[b.size() - 2] += e.second;
    }
  Kn kn(whole, three);
  kn.words = words;
  kn.D.resize(base.size());
  for (size_t o = 1; o < base.size(); o++) kn.D[o] = leave_one_out(base[o], three);
  for (size_t o = 2; o < base.size(); o++)
    for (auto &e : base[o]) {
      const G &g = e.first;
      const std::vector<long> *b = kn.bo(G(g.begin(), g.end() - 1));
      double den = (*b)[b->size() - 2], left = 0, low = kn.prob(G(g.begin() + 1, g.end()), nullptr);
      for (size_t k = 0; k + 2 < b->size(); k++) left += (*b)[k] * kn.D[o][k];
      double x = (e.second - kn.D[o][kn.cls(e.second)]) / den, hi = 1 - x, lo = left / den;
      auto gain = [&](double c) { return e.second * std::log10((x + c * low) / ((x + c) * low)); };
      long th = cut.empty() ? -1 : o > cut.size() ? cut.back() : cut[o - 1];
      auto i = c.counts.find(o);
      bool have = i != c.counts.end() && i->second.count(g) && i->second.find(g)->second > 0;
      bool gone = (unk && std::count(g.begin(), g.end(), 0)) || e.second <= th;
      double eps = 1e-5 * e.second + 0.002 * thr;
      bool must = !gone && (!prune || gain(hi) > thr + eps), mustnt = gone || (prune && gain(lo) < thr - eps);
      decided += must || mustnt;
      if (must && !have) return "n-gram " + gram_text(g) + fmt(" is missing: it occurs %ld times and gains at least %.5g with threshold %.5g", e.second, gain(hi), thr);
      if (mustnt && have) return "n-gram " + gram_text(g) + fmt(" is kept: it occurs %ld times and gains at most %.5g with threshold %.5g", e.second, gain(lo), thr);
    }
  return "";
}
} // namespace
static Verdict check_kn(const Plan &p, bool counts) {
  Verdict v;
  Fs fs = p.files;
  for (size_t k = 0; k < p.procs.size(); k++) {
    const auto &a = p.procs[k].argv;
    const bool again = k > 0; // from the counts written before
    if (again && !fs.count(a[a.size() - 2])) return v;
    ProcResult r = run_in(v, fs, p.procs[k]);
    if (undecided(v, r)) return v;
    Fs before = fs;
    fs = r.fs;
    v.state += (k ? " " : "") + a[0] + " " + (any_fired(r) ? fired_text(r) + " " : "") + how_text(r);
    auto fail = [&](const std::string &cls, const std::string &d) {
      v.bad = true;
      v.cls = cls;
      v.detail = join(a) + ": " + d;
      v.sig = a[0] + "/" + cls;
      return v;
    };
    if (!r.ok()) {
      if (any_fired(r) || !again) return v;
      return fail("again", "training from the counts written before fails: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
    }
    auto get = [&](const std::string &name, const char *stem, std::string &d) {
      if (!k && slot_output(p, r, stem, d)) return true;
      auto i = fs.find(name);
      if (i != fs.end()) d = i->second;
      return i != fs.end();
    };
    std::string dm, dc, du;
    if (!get(a.back(), "lm", dm) || !get(opt_value(a, "-W"), "cnt", dc) || !get(opt_value(a, "-U"), "vout", du)) return v;
    CountsFile c = parse_counts(dc);
    RefLm m = ref_parse(dm);
    if (!c.ok || !m.ok) return v; // C10 looks after those
    const bool three = has_opt(a, "-3"), text = !has_opt(a, "-a") ? has_opt(a, "-x") : true;
    const bool lossy = has_opt(a, "-x") && has_opt(a, "-Z") && a[0] == "varigram_kn";
    std::vector<int> id = {0};
    std::map<std::string, int> pos;
    {
      const std::string &s = du;
      size_t i = 0;
      while (i < s.size()) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) e = s.size();
        std::string w = s.substr(i, e - i);
        pos[w] = id.size();
        id.push_back(m.index.count(w) ? m.id(w) : -1);
        i = e + 1;
      }
    }
    const int n = c.order();
    // the counts before anything was left out
    std::vector<std::map<G, long>> base(n + 1);
    bool have_base = false;
    if (!has_opt(a, "-Z")) {
      if (has_opt(a, "-c")) {
        std::string data;
        if (again) data = before[a[a.size() - 2]];
        else slot_input(p, 0, "cnts", data);
        CountsFile ci = parse_counts(data);
        if (ci.ok) {
          have_base = true;
          base.resize(std::max(n, ci.order()) + 1);
          for (auto &o : ci.counts) base[o.first] = o.second;
        }
      } else {
        std::string tx;
        if (slot_input(p, 0, "txt", tx)) {
          have_base = true;
          std::vector<int> ids;
          for (auto &t : tokens(tx)) ids.push_back(pos.count(t) ? pos[t] : 0);
          Recount rc = recount(ids, a[0] == "counts2kn" ? atoi(opt_value(a, "-n").c_str()) : n, has_opt(a, "-C") ? pos["<s>"] : -1);
          base = has_opt(a, "-A") || (counts && a[0] == "varigram_kn") ? rc.occ : rc.kn;
          if ((int)base.size() < n + 1) base.resize(n + 1);
        }
      }
    }
    if (counts) {
      if (!have_base) return v;
      bool cuts;
      std::string w = choice(base, c, a, has_opt(a, "-C") ? pos["<s>"] : -1, cuts);
      if (!w.empty()) return fail("counts", w);
      if (has_opt(a, "-A") && a[0] == "counts2kn" && !has_opt(a, "-o") && !has_opt(a, "-c")) {
        long decided = 0;
        if (!(w = criterion(base, c, a, id.size(), decided)).empty()) return fail("criterion", w);
        probe("C18 n-grams decided by the criterion", decided);
        v.state += decided ? " criterion" : "";
      }
      v.nontrivial = v.nontrivial || n > 1;
      for (auto o : {"-3", "-C", "-A", "-p", "-E", "-O", "-N", "-V", "-c", "-D", "-S"})
        if (has_opt(a, o)) v.state += std::string(" ") + o;
      continue;
    }
    Kn kn(c, three);
    kn.words = id.size();
    kn.D.assign(n + 1, std::vector<double>(three ? 3 : 1, 0.71));
    if (!kn.bo(G())) return v;
    for (auto &b : c.backoffs)
      for (auto &e : b.second)
        if (e.second.size() != (three ? 5u : 3u)) return fail("columns", "the counts file has totals for the other kind of smoothing");
    // what the model gives for each n-gram counted, and for other words in the same contexts
    std::vector<Probe> pr;
    Rng rr(p.geti("probes") + 1);
    auto add = [&](const G &g) {
      RefLm::G x;
      for (int i : g) {
        if (i < 0 || i >= (int)id.size()) return;
        x.push_back(id[i]);
        if (id[i] < 0) return; // left out of the model
      }
      double lp = m.score(x, RefLm::TREE, nullptr);
      if (lossy && lp < -40) return;
      Probe q;
      q.g = g;
      q.p = std::pow(10, lp);
      pr.push_back(q);
    };
    for (auto &o : c.counts)
      for (auto &e : o.second) {
        for (int i : e.first)
          if (i < 0 || i >= (int)id.size()) return fail("index", "the counts file has a word that is not in the vocabulary file: " + gram_text(e.first));
        add(e.first);
      }
    for (auto &o : c.backoffs)
      for (auto &e : o.second)
        for (size_t i = 0; i < (o.first == 1 ? std::min<size_t>(id.size(), 3000) : 2); i++) {
          G g = e.first;
          g.push_back(o.first == 1 ? i : rr.below(id.size()));
          if (!kn.num(g)) add(g);
        }
    // the discounts: leave-one-out on the counts before pruning where those are known
    bool known = a[0] == "counts2kn" && !has_opt(a, "-o") && have_base;
    if (known)
      for (int o = 1; o <= n; o++) kn.D[o] = leave_one_out(base[o], three);
    if (!known)
      for (int o = 1; o <= n; o++) fit(kn, o, text ? 3e-4 : 3e-5, pr);
    for (auto &x : pr) {
      double s, want = kn.prob(x.g, &s);
      double tol = (text ? 1.3e-4 * (x.g.size() + 1) : 5e-5) * (known ? 1 : 2), dt = known ? 1e-6 : text ? 3e-4 : 3e-5;
      if (std::fabs(x.p - want) > tol * want + dt * s + (known ? 1e-9 : 1e-6)) {
        std::string w, ds;
        for (int i : x.g) w += (w.empty() ? "" : " ") + (i ? m.words[id[i]] : std::string("<UNK>"));
        for (double d : kn.D[x.g.size()]) ds += fmt(" %.4f", d);
        return fail("probability", fmt("'%s' (count %ld) has %.7g, the counts give %.7g", w.c_str(), kn.num(x.g), x.p, want) + (known ? " with discount" : " with the closest discount") + ds);
      }
    }
    v.nontrivial = v.nontrivial || (n > 1 && pr.size() > 10);
    v.state += known ? " known" : " fitted";
    for (auto o : {"-3", "-C", "-A", "-p", "-E", "-O", "-N", "-V", "-c"})
      if (has_opt(a, o)) v.state += std::string(" ") + o;
  }
  return v;
}
Verdict check_c17(const Plan &p) { return check_kn(p, false); }
Verdict check_c18(const Plan &p) { return check_kn(p, true); }
static void explore_kn(Rng &r, Explorer &ex, bool counts) {
  Scenario s = gen_scenario(r, T_TRAIN);
  for (auto o : {"-W", "-U"})
    if (!has_opt(s.argv, o)) s.argv.insert(s.argv.begin() + 1, {o, o[1] == 'W' ? "kn.cnt" : "kn.voc"});
  if (counts && r.chance(0.6)) {
    auto more = [&](const char *o, const std::string &x) {
      if (has_opt(s.argv, o)) return;
      s.argv.insert(s.argv.begin() + 1, o);
      if (!x.empty()) s.argv.insert(s.argv.begin() + 2, x);
    };
    std::string c = "0";
    for (int i = 2 + r.below(3), x = 0; i > 1; i--) c += fmt(" %d", x += r.below(3));
    if (r.chance(0.7)) more("-O", c);
    if (r.chance(0.3)) more("-N", "");
    if (r.chance(0.4)) more("-A", "");
    if (s.tool == "counts2kn" && r.chance(0.3)) more("-p", fmt("%.3g", 0.0003 * std::pow(10, r.unit() * 3)));
    if (s.tool == "counts2kn" && has_opt(s.argv, "-p") && r.chance(0.3)) more("-r", "");
  }
  assign_channels(r, s, r.below(3));
  Plan p = command_plan(s, gen_env(r));
  const auto &a = p.procs[0].argv;
  p.set("slots", slots_text(s));
  p.set("probes", r.below(1000));
  p.set("noargmin", "1");
  if (opt_value(a, "-W") == "kn.cnt" && opt_value(a, "-U") == "kn.voc" && r.chance(0.5)) {
    // train again from the counts written
    ProcSpec q;
    q.argv = {"counts2kn", "-c", "-H", std::to_string(10 + r.below(3000)), "-B", opt_value(a, "-U"), "-W", "kn2.cnt", "-U", "kn2.voc"};
    if (has_opt(a, "-3")) q.argv.push_back("-3");
    if (r.chance(0.3)) q.argv.insert(q.argv.end(), {"-O", fmt("0 %d %d", (int)r.below(3), (int)r.below(3))});
    else if (r.chance(0.3)) q.argv.insert(q.argv.end(), {"-p", fmt("%.3g", 0.001 * std::pow(10, r.unit() * 3))});
    int f = r.below(3);
    if (f) q.argv.push_back(f == 1 ? "-a" : "-x");
    q.argv.push_back(opt_value(a, "-W"));
    q.argv.push_back("kn2.lm");
    q.env = gen_env(r);
    p.procs.push_back(q);
  }
  Verdict v = ex.try_plan(p);
  if (v.bad || ex.stop() || r.chance(0.75)) return;
  ProcResult b = base_run(p.files, p.procs[0]);
  auto outs = outs_parse(p.get("outs"));
  auto fl = input_faults(r, b, outs, 2);
  if (r.chance(0.3)) fl = output_faults(r, b, outs, 2);
  if (b.allocs && r.chance(0.5)) fl.push_back(mk(F_ALLOC_FAIL, "", r.below(b.allocs), 0, r.below(3)));
  keep_some(r, fl, 2);
  for (auto &f : fl) {
    if (ex.stop()) return;
    Plan d = p;
    d.procs[0].faults = {f};
    ex.try_plan(d);
  }
}
void explore_c17(Rng &r, Explorer &ex) { explore_kn(r, ex, false); }
void explore_c18(Rng &r, Explorer &ex) { explore_kn(r, ex, true); }
} // namespace sim
