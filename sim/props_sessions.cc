// C06: interleaved scoring sessions against each session alone and against the reference.
#include "lib.h"
#include "props.h"
#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <sstream>

namespace sim {
namespace {
struct RefModel { // one model, or a weighted mixture, over words
  std::vector<RefLm> m;
  std::vector<double> w;
  RefLm::Kind kind = RefLm::TREE;
  int order = 0;
  std::set<std::string> words;
  bool known(const std::string &x) const { return words.count(x) && x != "<UNK>"; }
  double score(const std::vector<std::string> &g, int *hit) const {
    if (m.size() == 1 && w.empty()) {
      RefLm::G h;
      for (auto &x : g) h.push_back(m[0].id(x));
      return m[0].score(h, kind, hit);
    }
    double p = 0;
    for (size_t i = 0; i < m.size(); i++) {
      RefLm::G h;
      for (auto &x : g) h.push_back(m[i].id(x));
      // words only another part knows are no unknown words here
      double lp = m[i].score(h, kind, nullptr);
      p += (float)w[i] * std::pow(10, lp);
    }
    if (hit) *hit = 0;
    return p > 0 ? std::log10(p) : -400;
  }
};
bool ref_model(const Plan &p, const std::vector<std::string> &a, size_t at, RefModel &o) { // rep file...
  char rep = a[at][0];
  o.kind = rep == 'H' || rep == 'S' ? RefLm::HASH : rep == 'I' ? RefLm::INTERTREE : RefLm::TREE;
  auto get = [&](const std::string &f) {
    auto i = p.files.find(f);
    if (i == p.files.end()) return false;
    RefLm r = ref_parse(i->second);
    if (!r.ok) return false;
    o.order = std::max(o.order, r.order);
    for (auto &w : r.words) o.words.insert(w);
    o.m.push_back(r);
    return true;
  };
  if (rep != 'I') return get(a[at + 1]);
  for (size_t i = at + 1; i + 1 < a.size(); i += 2) {
    if (!get(a[i])) return false;
    o.w.push_back(strtof(a[i + 1].c_str(), nullptr));
  }
  // one numbering for all, the first part's
  for (size_t k = 0; k < o.m.size(); k++) {
    RefLm x = o.m[k];
    RefLm &f = o.m[0];
    if (k == 0) {
      for (auto &w : o.words)
        if (!f.index.count(w)) { f.index[w] = f.words.size(); f.words.push_back(w); }
      continue;
    }
    std::vector<std::string> old = x.words;
    x.words = f.words;
    x.index = f.index;
    for (auto &g : x.g) g.clear();
    for (int n = 1; n <= x.order; n++)
      for (auto &e : o.m[k].g[n]) {
        RefLm::G h;
        for (int w : e.first) h.push_back(x.id(old[w]));
        x.g[n][h] = e.second;
      }
    o.m[k] = x;
  }
  return true;
}
struct Walk { // the token loop of a scorer, without word sums
  const RefModel *m = nullptr;
  bool skip = true, sound = true;
  std::set<std::string> cc;
  bool cc_unk = false;
  int init = 0, cur = 0;
  std::deque<std::string> h;
  double step(const std::string &w, int *hit) {
    *hit = 0;
    if (cur && cur == init) h.clear();
    else if ((int)h.size() == m->order) h.pop_front();
    if (cur > 0) { cur--; h.push_back(w); return 0; }
    if (!w.compare(0, 4, "</s>")) cur = init;
    bool unk = !m->known(w);
    h.push_back(w);
    if (unk && skip) return 0;
    if (unk ? cc_unk : cc.count(w) > 0) return 0;
    return m->score({h.begin(), h.end()}, hit);
  }
};
std::vector<std::string> split(const std::string &s) {
  std::istringstream in(s);
  std::vector<std::string> o;
  std::string w;
  while (in >> w) o.push_back(w);
  return o;
}
bool close_lp(double a, double b) { return lp_close(a, b) || (a < -37 && b < -37); }
} // namespace

Verdict check_c06(const Plan &p) {
  Verdict v;
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = d;
    v.sig = "library/" + cls;
    return v;
  };
  if (!lib_scoring_run) return fail("HARNESS", "the scoring workload does not compile against the library any more");
  int n = p.geti("sessions", 1);
  for (auto &f : p.files) // not a question about damaged models
    if (f.first.size() > 5 && f.first.substr(f.first.size() - 5) == ".arpa" && !ref_parse(f.second).ok) return v;
  auto go = [&](int alone, std::vector<std::vector<std::string>> &out, std::string &why) {
    Plan q = p;
    if (alone >= 0) q.set("alone", alone);
    ProcSpec s = p.procs.empty() ? ProcSpec() : p.procs[0];
    if (s.argv.empty()) s.argv.push_back("library");
    ProcResult r = run_workload(p.files, s, [&] { lib_scoring_run(q); });
    v.hash = mix(v.hash, mix(r.loghash, mix(r.steps, (uint64_t)r.how * 1000 + r.code)));
    v.hash = hash_str(r.report, v.hash);
    if (harness(v, r)) return false;
    out.assign(n, {});
    if (!r.asan.empty()) why = r.asan.substr(0, 600);
    else if (!r.ok() || r.report.compare(0, 3, "OK ")) why = "ends with " + r.describe() + " " + r.err.substr(0, 300);
    int cur = -1;
    std::istringstream in(r.report);
    std::string l;
    while (std::getline(in, l)) {
      int k;
      if (sscanf(l.c_str(), "S %d", &k) == 1) cur = k;
      else if (cur >= 0 && cur < n) out[cur].push_back(l);
    }
    if (alone < 0) v.state = p.get("mode") + " " + p.get("label") + fmt(" n%d s%d", n, atoi(r.report.c_str() + 3));
    return true;
  };
  std::vector<std::vector<std::string>> all, one;
  std::string why;
  if (!go(-1, all, why)) return v;
  v.nontrivial = n > 1;
  std::string crash = why;
  for (int s = 0; s < n; s++) {
    std::vector<std::string> mine;
    for (auto &o : p.ops)
      if (o.compare(0, 3, "sw ") && atoi(o.c_str()) == s && o[0] != '-') mine.push_back(o);
    if (mine.empty()) continue;
    why.clear();
    if (!go(s, one, why)) return v;
    if (!why.empty()) return fail("crash", fmt("session %d alone: ", s) + why);
    if (!crash.empty()) continue;
    for (size_t i = 0; i < std::max(one[s].size(), all[s].size()); i++) {
      std::string a = i < all[s].size() ? all[s][i] : "nothing", b = i < one[s].size() ? one[s][i] : "nothing";
      if (a != b) return fail("disturbed", fmt("session %d, result %zu: ", s, i) + a.substr(0, 300) + "; alone: " + b.substr(0, 300));
    }
    // and the reference
    std::map<std::string, RefModel> models;
    bool sound = true;
    for (auto &o : p.ops) {
      auto t = split(o);
      if (t.size() > 4 && t[1] == "load" && (t[0] == "-" || atoi(t[0].c_str()) == s))
        if (!models.count(t[2]) && !ref_model(p, t, 3, models[t[2]])) sound = false;
    }
    if (!sound) continue;
    Walk w;
    RefModel own;
    size_t at = 0;
    for (auto &o : mine) {
      auto t = split(o);
      const std::string &verb = t[1];
      if (verb == "load") continue;
      auto cues = [&](const std::string &f) {
        if (f == "-" || !p.files.count(f)) return;
        for (auto &x : tokens(p.files.at(f))) { w.cc.insert(x); if (!w.m->known(x)) w.cc_unk = true; }
      };
      if (verb == "beg") {
        auto i = models.find(t[2]);
        if (i == models.end() || w.m) continue;
        w.m = &i->second;
        w.skip = t[3] == "1";
        cues(t[4]);
        continue;
      }
      if (verb == "own") {
        if (w.m) continue;
        if (!ref_model(p, t, 6, own)) break;
        w.m = &own;
        w.skip = t[2] == "1";
        cues(t[3]);
        continue;
      }
      if (verb == "end") break;
      if (!w.m || at >= one[s].size()) break;
      auto r = split(one[s][at]);
      if (r.empty() || r[0] != verb) {
        if (verb == "bi" || verb == "tri" || verb == "q") continue; // not asked for
        break;
      }
      at++;
      if (!w.sound) continue;
      auto val = [&](size_t i) { return i < r.size() ? strtod(r[i].c_str(), nullptr) : NAN; };
      int hit = 0;
      auto bad = [&](double got, double want, const std::string &what) { return fail("value", fmt("session %d, %s: %.6f, the entries of the model give %.6f", s, what.c_str(), got, want)); };
      if (verb == "tok" || verb == "tlp") {
        double e = w.step(t[2], &hit);
        if (!close_lp(val(1), e)) return bad(val(1), e, o);
        if (verb == "tok" && w.m->w.empty() && r.size() > 3 && r[3] != "-1" && atoi(r[3].c_str()) != hit) return fail("hit", fmt("session %d, %s: order %s used, the model gives %d", s, o.c_str(), r[3].c_str(), hit));
      } else if (verb == "wlp") w.step(t[2], &hit);
      else if (verb == "sent") {
        double e = 0;
        bool tiny = false;
        for (size_t i = 2; i < t.size(); i++) { double x = w.step(t[i], &hit); e += x; tiny = tiny || x < -37; }
        if (!tiny && std::fabs(-val(1) - e) > 1e-3 + 1e-4 * std::fabs(e)) return bad(-val(1), e, o.substr(0, 200));
      } else if (verb == "clr") { w.h.clear(); w.cur = w.init; }
      else if (verb == "hist") w.init = w.cur = atoi(t[2].c_str());
      else if (verb == "mix") w.sound = false; // judged by C11
      else if (verb == "file") {
        double e = 0;
        bool tiny = false;
        for (auto &x : tokens(p.files.at(t[2]))) { double y = w.step(x, &hit); e += y; tiny = tiny || y < -37; }
        w.sound = w.sound && !tiny;
        (void)e;
      } else if (verb == "q") {
        std::vector<std::string> g(t.begin() + 3, t.end());
        if (g.empty()) continue;
        double e = w.m->score(g, &hit);
        if (!close_lp(val(1), e)) return bad(val(1), e, o);
        if (w.m->w.empty() && atoi(r[2].c_str()) != hit) return fail("hit", fmt("session %d, %s: order %s used, the model gives %d", s, o.c_str(), r[2].c_str(), hit));
      } else if (verb == "bi" || verb == "tri") {
        size_t h = verb == "bi" ? 1 : 2;
        for (size_t i = 2 + h; i < t.size(); i++) {
          std::vector<std::string> g(t.begin() + 2, t.begin() + 2 + h);
          g.push_back(t[i]);
          double e = w.m->score(g, &hit), x = val(1 + i - 2 - h);
          if (!close_lp(x, e)) return bad(x, e, "look-ahead " + o.substr(0, 200) + " for " + t[i]);
        }
      }
    }
  }
  if (!crash.empty()) return fail("crash", "sessions together: " + crash);
  return v;
}

void explore_c06(Rng &r, Explorer &ex) {
  Plan p;
  bool pre = r.chance(0.5);
  p.set("mode", pre ? "preempt" : "calls");
  ProcSpec q;
  q.argv.push_back("library");
  q.env = gen_env(r);
  p.procs.push_back(q);
  int n = 2 + (int)r.below(4);
  p.set("sessions", n);
  // model files
  struct F { std::string arpa, bin; std::vector<std::string> words; int order; bool tree, interp; };
  std::vector<F> fs;
  std::vector<std::string> vocab;
  int nf = 1 + (int)r.below(3);
  for (int i = 0; i < nf; i++) {
    ModelFile m = r.chance(0.35) ? synth_model(r, M_BACKOFF | M_INTERP | M_TREE) : gen_model(r, M_BACKOFF | M_INTERP | (r.chance(0.7) ? M_TREE : 0));
    F f = {fmt("m%d.arpa", i), "", m.words, m.order, m.tree, m.interp};
    RefLm x = ref_parse(m.arpa);
    if (!x.ok) return;
    f.order = x.order;
    f.tree = x.prefixes;
    f.interp = x.interp;
    p.files[f.arpa] = m.arpa;
    if (!m.bin.empty()) { f.bin = fmt("m%d.bin", i); p.files[f.bin] = m.bin; }
    fs.push_back(f);
    size_t k = 0;
    for (auto &w : m.words) if (k++ < 150) vocab.push_back(w);
  }
  vocab.push_back("oov1");
  vocab.push_back("zz");
  auto word = [&]() -> std::string {
    if (r.chance(0.06)) return r.chance(0.5) ? "<s>" : "</s>";
    return r.pick(vocab);
  };
  TextGen t;
  t.vocab = vocab;
  t.tags = r.chance(0.5);
  t.lines = 1 + r.below(8);
  p.files["t0"] = gen_text(r, t);
  t.lines = 1 + r.below(3);
  p.files["t1"] = gen_text(r, t);
  p.files["cc"] = list_file(some_words(r, vocab, 0.15));
  p.files["wb"] = list_file(some_words(r, vocab, 0.4));
  p.files["mb"] = "a$\n^b\n" + vocab[0].substr(0, 1) + "$\n";
  auto spec = [&](char &rep, int &order, bool &bo) { // "rep file..."
    for (;;) {
      const F &f = fs[r.below(fs.size())];
      order = f.order;
      bo = !f.interp;
      double x = r.unit();
      if (x < 0.3 && f.tree) { rep = 'T'; return "T " + f.arpa; }
      if (x < 0.45 && !f.bin.empty()) { rep = 'B'; return "B " + f.bin; }
      if (x < 0.65) { rep = 'H'; return "H " + f.arpa; }
      if (x < 0.8) { rep = 'S'; return "S " + f.arpa; }
      if (x > 0.8 && f.tree) {
        const F &g = fs[r.below(fs.size())];
        if (!g.tree) continue;
        rep = 'I';
        order = std::max(order, g.order);
        bo = bo && !g.interp;
        int w = 1 + (int)r.below(9);
        return fmt("I %s 0.%d %s 0.%d", f.arpa.c_str(), w, g.arpa.c_str(), 10 - w);
      }
    }
  };
  struct S { int phase = 0; std::string model; char rep = 'T'; int order = 1; bool bo = true, perp = false, own = false, skip = true; };
  std::vector<S> ss(n);
  struct M { std::string name; char rep; int order; bool bo; };
  std::vector<M> shared;
  if (!pre)
    for (int i = 1 + r.below(2); i; i--) {
      M m;
      std::string sp = spec(m.rep, m.order, m.bo);
      m.name = fmt("x%zu", shared.size());
      shared.push_back(m);
      p.ops.push_back("- load " + m.name + " " + sp);
    }
  int acts = n * (6 + r.below(r.chance(0.3) ? 40 : 14));
  std::string label;
  for (int i = 0; i < acts; i++) {
    int k = r.below(n);
    S &s = ss[k];
    auto put = [&](const std::string &x) { p.ops.push_back(fmt("%d ", k) + x); };
    if (s.phase == 2) continue;
    if (s.phase == 0) {
      std::string lists = std::string(r.chance(0.3) ? " cc" : " -") + (r.chance(0.3) ? " wb -" : r.chance(0.3) ? " - mb" : " - -");
      s.skip = r.chance(0.6);
      s.phase = 1;
      if (r.chance(0.25)) {
        std::string sp;
        do sp = spec(s.rep, s.order, s.bo); while (s.rep == 'I');
        s.own = s.perp = true;
        put(std::string("own ") + (s.skip ? "1" : "0") + lists + " " + sp);
        label += s.rep; label += 'o';
        continue;
      }
      if (pre || r.chance(0.2)) {
        s.model = fmt("own%d", k);
        put("load " + s.model + " " + spec(s.rep, s.order, s.bo));
        s.own = true;
      } else {
        const M &m = shared[r.below(shared.size())];
        s.model = m.name; s.rep = m.rep; s.order = m.order; s.bo = m.bo;
      }
      s.perp = r.chance(0.65);
      put("beg " + s.model + (s.perp ? s.skip ? " 1" : " 0" : " q") + (s.perp ? lists : " - - -"));
      label += s.rep; label += s.perp ? 'p' : 'q';
      continue;
    }
    double x = r.unit();
    if (x < 0.03) { put("end"); s.phase = 2; }
    else if (s.perp && x < 0.55) {
      for (int j = r.chance(0.7) ? 1 : 1 + (int)r.below(6); j; j--) put((r.chance(0.75) ? "tok " : r.chance(0.5) ? "tlp " : "wlp ") + word());
    } else if (s.perp && x < 0.65) {
      std::string o = "sent";
      for (int j = r.below(9); j; j--) o += " " + word();
      put(o);
    } else if (s.perp && x < 0.69) put("clr");
    else if (s.perp && x < 0.72) put(fmt("hist %d", (int)r.below(3)));
    else if (s.perp && x < 0.80) put(fmt("file t%d %d", (int)r.below(2), r.chance(0.7) ? 1 : 3));
    else if (s.perp && x < 0.84) put("res");
    else if (s.perp && x < 0.88) put("cnt");
    else if (s.perp && x < 0.89) put("rst");
    else if (s.perp && x < 0.92 && s.own && s.rep != 'I') {
      put("mix " + fs[r.below(fs.size())].arpa + fmt(" 0.%d", 1 + (int)r.below(9)));
      // after that the session is judged against itself alone
    } else if (!s.perp || s.model.size()) {
      if (!s.model.size()) continue;
      bool tree = s.rep == 'T' || s.rep == 'B';
      if (s.bo && (tree || s.rep == 'I') && s.order >= 2 && r.chance(0.25)) {
        bool tri = tree && s.order >= 3 && r.chance(0.5);
        std::string o = tri ? "tri " + word() + " " + word() : "bi " + word();
        for (int j = 1 + r.below(6); j; j--) o += " " + word();
        put(o);
      } else {
        std::string o = fmt("q %d", (int)r.below(3));
        for (int j = 1 + r.below(s.order); j; j--) o += " " + word();
        put(o);
      }
    }
  }
  std::sort(label.begin(), label.end());
  p.set("label", label.substr(0, 12));
  if (!pre) {
    ex.try_plan(p);
    return;
  }
  for (int round = 0; round < 3 && !ex.stop(); round++) {
    Plan f = p;
    int k = 1 + (int)r.below(r.chance(0.4) ? 200 : 30);
    for (int i = 0; i < k; i++) {
      uint64_t b = (uint64_t)std::exp(r.unit() * std::log(r.chance(0.5) ? 200.0 : 60000.0));
      f.ops.push_back(fmt("sw %llu %d", (unsigned long long)b, (int)r.below(n)));
    }
    if (ex.try_plan(f).bad) return;
  }
}
} // namespace sim
