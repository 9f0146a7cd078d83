// What training writes: totals of counts files (C09) and recounts of the text (C10).
#include "props.h"
#include "train.h"
#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
std::string gram_text(const std::vector<int> &g) {
  std::string o = "[";
  for (int x : g) o += " " + std::to_string(x);
  return o + " ]";
}
std::string opt_value(const std::vector<std::string> &a, const std::string &o) {
  for (size_t i = 1; i + 1 < a.size(); i++)
    if (a[i] == o) return a[i + 1];
  return "";
}
bool has_opt(const std::vector<std::string> &a, const std::string &o) {
  return std::find(a.begin() + 1, a.end(), o) != a.end();
}
static std::vector<std::string> split_lines(const std::string &s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return v;
}
CountsFile parse_counts(const std::string &s) {
  CountsFile c;
  auto bad = [&](const std::string &w) { c.why = w; return c; };
  auto lines = split_lines(s);
  if (lines.empty() || sscanf(lines[0].c_str(), "\\vocabsize %ld", &c.vocabsize) != 1) return bad("no \\vocabsize line");
  int order = 0;
  bool bo = false;
  for (size_t i = 1; i < lines.size(); i++) {
    const std::string &l = lines[i];
    if (l.find_first_not_of(" \t") == std::string::npos) continue;
    if (l[0] == '\\') {
      char kind[32];
      if (sscanf(l.c_str(), "\\%d-gram %31s", &order, kind) != 2 || order < 1 || order > 60) return bad("line " + l);
      bo = !strcmp(kind, "backoffs");
      if (!bo && strcmp(kind, "counts")) return bad("line " + l);
      if (bo) c.backoffs[order]; else c.counts[order];
      continue;
    }
    auto t = tokens(l);
    size_t n = order - (bo ? 1 : 0);
    if (!order || t.size() < n + 3 || t[0] != "[" || t[n + 1] != "]") return bad("line " + l);
    CountsFile::G g;
    std::vector<long> v;
    for (size_t k = 1; k < t.size(); k++) {
      if (k == n + 1) continue;
      char *e;
      long x = strtol(t[k].c_str(), &e, 10);
      if (*e) return bad("line " + l);
      if (k <= n) g.push_back((int)x); else v.push_back(x);
    }
    if (bo) {
      if (v.size() != 3 && v.size() != 5) return bad("line " + l);
      if (!c.backoffs[order].insert({g, v}).second) return bad("twice: " + l);
    } else {
      if (v.size() != 1) return bad("line " + l);
      if (!c.counts[order].insert({g, v[0]}).second) return bad("twice: " + l);
    }
  }
  c.ok = true;
  return c;
}
// per-context totals against a recount of the n-grams in the same file
static std::string totals(const CountsFile &c) {
  for (auto &o : c.counts) {
    std::map<CountsFile::G, std::vector<long>> sum; // den, nz0, nz1, nz2
    for (auto &e : o.second) {
      if (e.second <= 0) return fmt("count %ld of ", e.second) + gram_text(e.first);
      CountsFile::G ctx(e.first.begin(), e.first.end() - 1);
      auto &v = sum[ctx];
      v.resize(4);
      v[0] += e.second;
      v[1 + std::min<long>(2, e.second - 1)]++;
    }
    auto b = c.backoffs.find(o.first);
    if (b == c.backoffs.end()) return fmt("no totals of order %d", o.first);
    for (auto &e : sum)
      if (!b->second.count(e.first)) return "no totals for the context " + gram_text(e.first);
    for (auto &e : b->second) {
      std::vector<long> r(4);
      auto i = sum.find(e.first);
      if (i != sum.end()) r = i->second;
      const auto &v = e.second;
      long den = v[v.size() - 2], pd = v.back();
      bool same = den - pd == r[0] && pd >= 0;
      if (v.size() == 5) same = same && v[0] == r[1] && v[1] == r[2] && v[2] == r[3];
      else same = same && v[0] == r[1] + r[2] + r[3];
      if (!same) {
        std::string t;
        for (long x : v) t += " " + std::to_string(x);
        return "context " + gram_text(e.first) + " is stored as" + t + fmt(" but a recount of its n-grams gives total %ld, numbers %ld %ld %ld", r[0], r[1], r[2], r[3]);
      }
    }
  }
  return "";
}
Verdict check_c09_train(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.state = q.argv[0] + " " + how_text(r);
  if (!r.ok()) return v;
  auto i = r.fs.find(opt_value(q.argv, "-W"));
  if (i == r.fs.end()) return v;
  CountsFile c = parse_counts(i->second);
  v.nontrivial = c.ok && c.order() > 1;
  std::string why = c.ok ? totals(c) : "cannot be read: " + c.why;
  if (!why.empty()) {
    v.bad = true;
    v.cls = "counts-file-totals";
    v.detail = "counts file written by " + join(q.argv) + ": " + why;
    v.sig = q.argv[0] + "/" + v.cls;
  }
  for (auto o : {"-3", "-C", "-A", "-p", "-E", "-O", "-N", "-V", "-S", "-r", "-D"})
    if (has_opt(q.argv, o)) v.state += std::string(" ") + o;
  return v;
}
void explore_c09_train(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_TRAIN);
  if (!has_opt(s.argv, "-W")) s.argv.insert(s.argv.begin() + 1, {"-W", "cnt.out"});
  Plan p = command_plan(s, gen_env(r));
  p.set("wl", "train");
  p.set("noargmin", "1");
  ex.try_plan(p);
}

// ================================================================ C10
typedef CountsFile::G G;
Recount recount(const std::vector<int> &t, int n, int ss) {
  Recount c;
  c.occ.resize(n + 1);
  c.kn.resize(n + 1);
  std::vector<int> v;
  for (int w : t) {
    if (w == ss) v.clear();
    v.push_back(w);
    if ((int)v.size() > n) v.erase(v.begin());
    for (size_t o = 1; o <= v.size(); o++) c.occ[o][G(v.end() - o, v.end())]++;
    c.kn[v.size()][v]++;
  }
  for (int o = n; o > 1; o--)
    for (auto &e : c.kn[o]) c.kn[o - 1][G(e.first.begin() + 1, e.first.end())]++;
  while (c.occ.size() > 2 && c.occ.back().empty()) { c.occ.pop_back(); c.kn.pop_back(); }
  return c;
}
static std::vector<std::string> vocab_words(const std::string &s) {
  std::vector<std::string> v;
  std::set<std::string> seen;
  for (auto &l : split_lines(s)) {
    size_t b = l.find_first_not_of(" \t\r"), e = l.find_last_not_of(" \t\r");
    if (b == std::string::npos) continue;
    std::string w = l.substr(b, e - b + 1);
    size_t cut = w.find_first_of(" (", 1);
    if (cut != std::string::npos) w = w.substr(0, cut);
    if (w == "_" || w == "__" || w == "<UNK>") continue;
    if (seen.insert(w).second) v.push_back(w);
  }
  return v;
}
// what the vocabulary of a run has to be; "" if `kept` is it
static std::string vocab_wrong(const std::vector<std::string> &a, const std::vector<std::string> &tok, const Plan &p, const std::vector<std::string> &kept) {
  std::map<std::string, long> n;
  for (auto &t : tok)
    if (t != "<UNK>") n[t]++;
  std::set<std::string> k(kept.begin(), kept.end());
  if (k.size() != kept.size()) return "a word is listed twice";
  auto diff = [&](const std::set<std::string> &want) {
    // -Z of varigram_kn leaves out the words without a probability of their own
    bool some = a[0] == "varigram_kn" && has_opt(a, "-Z") && has_opt(a, "-x");
    for (auto &w : want) if (!k.count(w) && (!some || n.count(w))) return "'" + w.substr(0, 60) + "' is missing";
    for (auto &w : k) if (!want.count(w)) return "'" + w.substr(0, 60) + "' is not wanted";
    return std::string();
  };
  std::string voc;
  if (has_opt(a, "-B") && slot_input(p, 0, "voc", voc)) {
    auto w = vocab_words(voc);
    if (!w.empty()) return diff(std::set<std::string>(w.begin(), w.end()));
  }
  long f = has_opt(a, "-f") ? atol(opt_value(a, "-f").c_str()) : 0, d = has_opt(a, "-d") ? atol(opt_value(a, "-d").c_str()) : 0;
  if (f <= 0 && d <= 0) {
    std::set<std::string> want;
    for (auto &e : n) want.insert(e.first);
    if (has_opt(a, "-C")) want.insert("<s>");
    return diff(want);
  }
  long lowest = 1L << 60, highest = 0, sure = 0;
  for (auto &w : k) {
    if (!n.count(w)) return "'" + w.substr(0, 60) + "' does not occur in the text";
    lowest = std::min(lowest, n[w]);
  }
  for (auto &e : n) {
    if (!k.count(e.first)) highest = std::max(highest, e.second);
    if (e.second > d) sure++;
  }
  if (f > 0 && (long)k.size() > f) return fmt("%ld words kept with -f %ld", (long)k.size(), f);
  if (highest > lowest) return fmt("a word seen %ld times is dropped, one seen %ld times is kept", highest, lowest);
  if (d > 0 && lowest < d) return fmt("a word seen %ld times is kept with -d %ld", lowest, d);
  if ((long)k.size() < std::min(sure, f > 0 ? f : sure)) return fmt("only %ld words are kept, %ld are frequent enough", (long)k.size(), sure);
  return "";
}
static bool pruning(const std::vector<std::string> &a) {
  if (a[0] == "varigram_kn") return true;
  for (auto o : {"-p", "-O", "-N"}) if (has_opt(a, o)) return true;
  return false;
}
std::string same_models(const RefLm &a, const RefLm &b, double tol) {
  if (a.order != b.order) return fmt("orders %d and %d", a.order, b.order);
  if (a.interp != b.interp) return "the types differ";
  std::string m = ref_missing(a, b, false);
  if (!m.empty()) return "only the first has " + m;
  m = ref_missing(b, a, false);
  if (!m.empty()) return "only the second has " + m;
  for (int n = 1; n <= a.order; n++)
    for (auto &e : a.g[n]) {
      G h;
      for (int w : e.first) h.push_back(b.id(a.words[w]));
      const RefLm::E &x = e.second, &y = b.g[n].at(h);
      if (std::fabs(x.lp - y.lp) > tol || std::fabs(x.bo - y.bo) > tol)
        return fmt("%.6g %.6g against %.6g %.6g for ", x.lp, x.bo, y.lp, y.bo) + a.text(e.first);
    }
  return "";
}
// counts2kn -Z: highest-order counts are given, everything else follows from them
static Verdict check_raw(const Plan &p) {
  Verdict v;
  const auto &a = p.procs[0].argv;
  ProcResult r = run_in(v, p.files, p.procs[0]);
  if (undecided(v, r)) return v;
  bool faulty = any_fired(r);
  v.state = std::string("counts2kn -Z ") + how_text(r) + (faulty ? " after " + fired_text(r) : "");
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = join(a) + " [" + r.describe() + "]: " + d;
    v.sig = a[0] + "/" + cls;
    return v;
  };
  std::string cin, voc, out, mdata;
  if (!slot_input(p, 0, "cnts", cin) || !slot_input(p, 0, "voc", voc)) return v;
  auto words = vocab_words(voc);
  std::map<G, long> top;
  size_t n = atoi(opt_value(a, "-n").c_str());
  for (auto &l : split_lines(cin)) {
    auto t = tokens(l);
    if (t.size() != n + 1) return v; // not what was generated
    G g;
    for (size_t k = 0; k < n; k++) {
      g.push_back(atoi(t[k].c_str()));
      if (g.back() < 0 || g.back() > (int)words.size()) return v;
    }
    long x = atol(t[n].c_str());
    if (x <= 0) return v;
    top[g] += x;
  }
  if (top.empty()) return v;
  if (!r.ok()) {
    if (faulty || r.how == ProcResult::CRASHED) return v;
    return fail("no-model", "training from sound counts fails: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
  }
  if (!slot_output(p, r, "lm", mdata)) return v;
  RefLm m = ref_parse(mdata);
  if (!m.ok) return fail("unreadable", "the model written cannot be parsed: " + m.why);
  if (std::set<std::string>(m.words.begin() + 1, m.words.end()) != std::set<std::string>(words.begin(), words.end())) return fail("vocabulary", "the model does not have the words of the vocabulary file");
  if (m.order != (int)n) return fail("order", fmt("the model has order %d, the counts have %d", m.order, (int)n));
  v.nontrivial = true;
  std::vector<std::map<G, long>> low(n + 1);
  low[n] = top;
  for (int o = n; o > 1; o--)
    for (auto &e : low[o]) low[o - 1][G(e.first.begin() + 1, e.first.end())] += has_opt(a, "-A") ? e.second : 1;
  std::set<G> part;
  for (auto &e : top)
    for (size_t i = 0; i < n; i++)
      for (size_t k = 2; i + k <= n; k++) part.insert(G(e.first.begin() + i, e.first.begin() + i + k));
  auto id = [&](int w) { return w ? m.id(words[w - 1]) : 0; };
  std::set<G> want;
  for (auto &g : part) {
    G h;
    for (int w : g) h.push_back(id(w));
    want.insert(h);
  }
  for (int o = 2; o <= m.order; o++)
    for (auto &e : m.g[o])
      if (!want.count(e.first)) return fail("extra-ngram", "the model has '" + m.text(e.first) + "' which is not in the counts");
  for (auto &g : want)
    if (!m.g[g.size()].count(g)) return fail("missing-ngram", "the model lacks '" + m.text(g) + "' which is in the counts");
  if (has_opt(a, "-W") && slot_output(p, r, "cnt", out)) {
    CountsFile f = parse_counts(out);
    if (!f.ok) return fail("counts-file", "counts file: " + f.why);
    if (f.order() != (int)n) return fail("counts-file", fmt("counts of order %d, given were %d", f.order(), (int)n));
    for (size_t o = 1; o <= n; o++) {
      for (auto &e : low[o])
        if (!f.counts[o].count(e.first) || f.counts[o][e.first] != e.second)
          return fail("counts-file", "count of " + gram_text(e.first) + fmt(" is %ld, the given counts make %ld", f.counts[o].count(e.first) ? f.counts[o][e.first] : 0L, e.second));
      for (auto &e : f.counts[o])
        if (!low[o].count(e.first)) return fail("counts-file", "count of " + gram_text(e.first) + " is not in the given counts");
    }
    std::string t = totals(f);
    if (!t.empty()) return fail("counts-file", t);
    v.state += " counts";
  }
  for (auto o : {"-3", "-s", "-L", "-A", "-a", "-x"})
    if (has_opt(a, o)) v.state += std::string(" ") + o;
  return v;
}
Verdict check_c10(const Plan &p) {
  Verdict v;
  if (p.procs[0].argv[0] == "counts2kn" && has_opt(p.procs[0].argv, "-Z")) return check_raw(p);
  const ProcSpec &q = p.procs[0];
  const auto &a = q.argv;
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  bool faulty = any_fired(r);
  std::string text, voc, data;
  v.state = a[0] + " " + how_text(r) + (faulty ? " after " + fired_text(r) : "");
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = join(a) + " [" + r.describe() + "]: " + d;
    v.sig = a[0] + "/" + cls;
    return v;
  };
  bool have_text = slot_input(p, 0, "txt", text);
  auto tok = tokens(text);
  if (!r.ok()) {
    if (faulty || !have_text || r.how == ProcResult::CRASHED) return v;
    if (r.how != ProcResult::EXITED) return fail("no-model", "training does not end normally");
    // refusals: nothing to train on, sentence start not in a restricted vocabulary, options that exclude each other
    if (tok.empty() || has_opt(a, "-C") || has_opt(a, "-B") || p.get("mayfail") == "1") return v;
    return fail("no-model", "training fails on sound input: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
  }
  if (!have_text) return v;
  std::string mdata;
  if (!slot_output(p, r, "lm", mdata)) return v; // C01's business
  RefLm m = ref_parse(mdata);
  if (!m.ok) return fail("unreadable", "the model written cannot be parsed: " + m.why);
  // the vocabulary
  std::vector<std::string> kept(m.words.begin() + 1, m.words.end());
  std::string why = vocab_wrong(a, tok, p, kept);
  if (!why.empty()) return fail("vocabulary", "model vocabulary: " + why);
  if (has_opt(a, "-U") && slot_output(p, r, "vout", voc)) {
    auto w = split_lines(voc);
    bool some = a[0] == "varigram_kn" && has_opt(a, "-Z") && has_opt(a, "-x");
    std::set<std::string> all(w.begin(), w.end());
    if (some)
      for (auto &x : kept) all.count(x) ? (void)0 : (void)(some = false);
    if (!some && (all != std::set<std::string>(kept.begin(), kept.end()) || w.size() != kept.size()))
      return fail("vocabulary", "the vocabulary file and the model's vocabulary differ");
  }
  // the n-grams
  std::vector<int> ids;
  for (auto &t : tok) ids.push_back(m.id(t));
  bool pr = pruning(a), clear = has_opt(a, "-C");
  int n = has_opt(a, "-n") ? atoi(opt_value(a, "-n").c_str()) : 0;
  if (n <= 0) n = std::max(1, m.order);
  Recount c = recount(ids, n, clear ? m.id("<s>") : -1);
  int want = (int)c.occ.size() - 1;
  if (pr ? m.order > want : m.order != std::max(1, want)) return fail("order", fmt("the model has order %d, the text allows %d", m.order, want));
  for (int o = 1; o <= m.order; o++) {
    for (auto &e : m.g[o])
      if (o > 1 && !c.occ[o].count(e.first)) return fail("extra-ngram", "the model has '" + m.text(e.first) + "' which is not in the text");
    if (!pr)
      for (auto &e : c.occ[o])
        if (!m.g[o].count(e.first)) return fail("missing-ngram", "the model lacks '" + m.text(e.first) + "' which is in the text");
  }
  if (m.interp != (!has_opt(a, "-a"))) return fail("type", "interpolated or not: the wrong one");
  v.nontrivial = tok.size() > 3;
  std::string cnt;
  if (!pr && has_opt(a, "-W") && slot_output(p, r, "cnt", cnt)) {
    CountsFile f = parse_counts(cnt);
    if (!f.ok) return fail("counts-file", "counts file: " + f.why);
    if (!voc.empty() || kept.empty()) {
      // indices of the counts file are lines of the vocabulary file
      std::map<std::string, int> pos;
      int k = 0;
      for (auto &w : split_lines(voc)) pos[w] = ++k;
      std::vector<int> idv;
      for (auto &t : tok) idv.push_back(pos.count(t) ? pos[t] : 0);
      Recount x = recount(idv, n, clear ? pos["<s>"] : -1);
      auto &ref = has_opt(a, "-A") ? x.occ : x.kn;
      if (f.order() != (int)ref.size() - 1) return fail("counts-file", fmt("counts of order %d, the text has %d", f.order(), (int)ref.size() - 1));
      for (int o = 1; o < (int)ref.size(); o++) {
        for (auto &e : ref[o])
          if (!f.counts[o].count(e.first) || f.counts[o][e.first] != e.second)
            return fail("counts-file", "count of " + gram_text(e.first) + fmt(" is %ld, the text gives %ld", f.counts[o].count(e.first) ? f.counts[o][e.first] : 0L, e.second));
        for (auto &e : f.counts[o])
          if (!ref[o].count(e.first)) return fail("counts-file", "count of " + gram_text(e.first) + " is not in the text");
      }
      std::string t = totals(f);
      if (!t.empty()) return fail("counts-file", t);
      v.state += " counts";
      // training again from the counts
      if (p.procs.size() > 1 && !faulty && !voc.empty()) {
        Fs fs = {{"rt.cnt", cnt}, {"rt.voc", voc}};
        ProcResult r2 = run_in(v, fs, p.procs[1]);
        if (undecided(v, r2)) return v;
        if (!r2.ok()) return fail("round-trip", "training from the counts file fails: " + r2.err.substr(0, 300));
        auto i = r2.fs.find("rt.lm");
        RefLm m2 = ref_parse(i == r2.fs.end() ? "" : i->second);
        if (!m2.ok) return fail("round-trip", "the model trained from the counts file cannot be parsed: " + m2.why);
        std::string d = same_models(m, m2, 1.1e-4);
        if (!d.empty()) return fail("round-trip", "the model trained from the counts file differs: " + d);
        v.state += " again";
      }
    }
  }
  for (auto o : {"-3", "-s", "-L", "-C", "-A", "-f", "-d", "-B", "-a", "-x", "-o"})
    if (has_opt(a, o)) v.state += std::string(" ") + o;
  return v;
}
void explore_c10(Rng &r, Explorer &ex) {
  Plan p;
  Scenario s;
  bool roundtrip = false, mayfail = false;
  int n = 1 + (int)r.below(5);
  if (r.chance(0.12)) { // from highest-order counts
    CmdGen g(r, s);
    auto &a = s.argv;
    s.tool = "counts2kn";
    int nw = 1 + (int)r.below(r.chance(0.3) ? 3 : 40);
    std::vector<std::string> w;
    for (int i = 0; i < nw; i++) w.push_back(r.chance(0.05) ? fmt("%d", i) : fmt("w%d", i));
    std::string c;
    int lines = 1 + (int)r.below(r.chance(0.3) ? 5 : 200), top = r.chance(0.5) ? 3 : 100;
    for (int i = 0; i < lines; i++) {
      for (int k = 0; k < n; k++) c += std::to_string(r.below(nw + 1)) + " ";
      c += std::to_string(1 + r.below(top)) + "\n";
    }
    a = {"counts2kn", "-Z", "-H", std::to_string(1 + r.below(r.chance(0.3) ? 20 : 3000)), "-n", std::to_string(n)};
    int f = r.below(3);
    if (f == 1) a.push_back("-a");
    if (f == 2) a.push_back("-x");
    g.flag(0.3, "-3");
    g.flag(0.3, "-s");
    g.flag(0.3, "-L");
    g.flag(0.2, "-A");
    a.push_back("-B"); a.push_back(g.in("voc", list_file(w), true, true));
    if (r.chance(0.7)) { a.push_back("-W"); a.push_back(g.out("cnt", true)); }
    if (r.chance(0.3)) { a.push_back("-U"); a.push_back(g.out("vout", true)); }
    a.push_back(g.in("cnts", c));
    a.push_back(g.out("lm"));
  } else if (r.chance(0.2)) {
    do s = gen_scenario(r, T_TRAIN); while (has_opt(s.argv, "-c") || (s.tool == "counts2kn" && has_opt(s.argv, "-Z")));
    mayfail = true;
  } else {
    CmdGen g(r, s);
    auto &a = s.argv;
    s.tool = "counts2kn";
    TextGen t;
    t.tags = r.chance(0.5);
    t.long_tokens = r.chance(0.05);
    if (r.chance(0.1)) t.lines = 1 + (int)r.below(2);
    if (r.chance(0.1)) t.words = 1;
    std::string text = gen_text(r, t);
    if (r.chance(0.15)) // tokens of length one and every kind of blank
      for (auto &ch : text)
        if (ch == ' ' && r.chance(0.2)) ch = "\t\n\v\f\r"[r.below(5)];
    if (r.chance(0.08)) text += " <UNK> " + text.substr(0, text.size() / 2);
    if (r.chance(0.03)) text = std::string(r.below(3), '\n');
    std::vector<std::string> wide;
    if (r.chance(0.006)) { // about as many words as 16-bit keys can number
      std::vector<std::string> some;
      wide = wide_words(r, some);
      t.vocab = some;
      t.lines = 1 + r.below(12);
      text = gen_text(r, t);
    }
    if (r.chance(0.05)) text = std::string(1000 + r.below(9000), ' ') + text;
    a = {"counts2kn"};
    g.val(0.95, "-H", std::to_string(1 + r.below(r.chance(0.3) ? 20 : 3000)));
    a.push_back("-n"); a.push_back(std::to_string(n));
    int f = r.below(3);
    if (f == 1) a.push_back("-a");
    if (f == 2) a.push_back("-x");
    g.flag(0.3, "-3");
    bool s16 = g.flag(wide.empty() ? 0.3 : 0.8, "-s");
    g.flag(0.3, "-L");
    g.flag(wide.empty() ? 0.25 : 0, "-C");
    g.flag(0.2, "-A");
    int vr = wide.empty() ? r.below(8) : 3;
    (void)s16;
    if (vr == 0 || vr == 2) g.val(1, "-f", std::to_string(1 + r.below(r.chance(0.5) ? 6 : 60)));
    if (vr == 1 || vr == 2) g.val(1, "-d", std::to_string(1 + r.below(4)));
    if (vr == 3) { a.push_back("-B"); a.push_back(g.in("voc", !wide.empty() ? list_file(wide) : list_file(some_words(r, distinct_words(text + " extra1 extra2"), 0.6)), true, true)); }
    if (r.chance(0.7)) { a.push_back("-U"); a.push_back(g.out("vout", true)); }
    if (r.chance(0.6)) { a.push_back("-W"); a.push_back(g.out("cnt", true)); }
    if (f != 2 && r.chance(0.1)) { a.push_back("-o"); a.push_back(g.in("opti", pool_text(r), false, true)); }
    else roundtrip = r.chance(0.6);
    if (!wide.empty() && r.chance(0.5)) {
      s.slots.clear();
      s.tool = "varigram_kn";
      a = {"varigram_kn", "-D", r.chance(0.5) ? "0" : "0.01", "-H", "300", "-n", std::to_string(std::max(n, 2))};
      if (f == 1) a.push_back("-a");
      if (f == 2) a.push_back("-x");
      g.flag(0.8, "-s");
      g.flag(0.3, "-3");
      g.flag(0.5, "-Z");
      g.flag(0.3, "-S");
      a.push_back("-B"); a.push_back(g.in("voc", list_file(wide), true, true));
      roundtrip = false;
    }
    a.push_back(g.in("txt", text));
    a.push_back(g.out("lm"));
  }
  assign_channels(r, s, 3);
  p = command_plan(s, gen_env(r));
  p.set("slots", slots_text(s));
  p.set("noargmin", "1");
  if (mayfail) p.set("mayfail", "1");
  if (roundtrip && has_opt(s.argv, "-U") && has_opt(s.argv, "-W")) {
    ProcSpec q;
    q.argv = {"counts2kn", "-c", "-H", "300", "-n", std::to_string(n), "-B", "rt.voc"};
    for (auto o : {"-a", "-x", "-3", "-s", "-L", "-C", "-A"})
      if (has_opt(s.argv, o)) q.argv.push_back(o);
    q.argv.push_back("rt.cnt");
    q.argv.push_back("rt.lm");
    q.env = gen_env(r);
    p.procs.push_back(q);
  }
  Verdict v = ex.try_plan(p);
  if (v.bad || ex.stop()) return;
  if (r.chance(0.3)) {
    // a run disturbed by faults may fail, but may not count wrongly
    const ProcResult &b = base_run(p.files, p.procs[0]);
    auto outs = outs_parse(p.get("outs"));
    auto fl = r.chance(0.7) ? input_faults(r, b, outs, 2) : output_faults(r, b, outs, 2);
    keep_some(r, fl, 3);
    for (auto &f : fl) {
      if (ex.stop()) return;
      Plan d = p;
      d.procs.resize(1);
      d.procs[0].faults = {f};
      ex.try_plan(d);
    }
  }
}
} // namespace sim
