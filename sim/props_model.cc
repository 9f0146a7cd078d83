// Models through save / convert / reload histories (C07).
#include "props.h"
#include "train.h"
#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
static char comp(const std::string &f) {
  if (f.size() > 3 && !f.compare(f.size() - 3, 3, ".gz")) return 'g';
  if (f.size() > 4 && !f.compare(f.size() - 4, 4, ".bz2")) return 'b';
  return 'f';
}
static bool content(const Fs &fs, const std::string &f, std::string &data) {
  auto i = fs.find(f);
  if (i == fs.end()) return false;
  if (comp(f) == 'f') { data = i->second; return true; }
  return dec(i->second, comp(f), data);
}
static int real_order(const RefLm &m) {
  int n = m.order;
  while (n > 1 && m.g[n].empty()) n--;
  return n;
}
// values of the entries both have; "" if they agree
static std::string values_differ(const RefLm &a, const RefLm &b, double abs, double rel) {
  for (int n = 1; n <= a.order; n++)
    for (auto &e : a.g[n]) {
      RefLm::G h;
      for (int w : e.first) h.push_back(b.id(a.words[w]));
      if (n > b.order) continue;
      auto i = b.g[n].find(h);
      if (i == b.g[n].end()) continue;
      auto far = [&](double x, double y) { return std::fabs(x - y) > abs + rel * std::max(std::fabs(x), std::fabs(y)) && !(x <= -45 && y <= -45); };
      if (far(e.second.lp, i->second.lp)) return fmt("the probability of '%s' was %.7g and is now %.7g", a.text(e.first).c_str(), e.second.lp, i->second.lp);
      // at the highest order no back-off is ever used
      if (n < a.order && far(e.second.bo, i->second.bo)) return fmt("the back-off weight of '%s' was %.7g and is now %.7g", a.text(e.first).c_str(), e.second.bo, i->second.bo);
    }
  return "";
}
static std::string scores_differ(const RefLm &a, RefLm::Kind ka, const RefLm &b, RefLm::Kind kb, uint64_t seed, double extra) {
  Rng r(seed);
  int V = a.words.size();
  for (int k = 0; k < 80; k++) {
    RefLm::G g;
    int n = 1 + r.below(a.order + 1);
    int from = 1 + r.below(a.order);
    if (r.chance(0.75) && !a.g[from].empty()) { // an entry, its context with another word, or with more history
      auto it = a.g[from].begin();
      std::advance(it, r.below(std::min<size_t>(a.g[from].size(), 300)));
      g = it->first;
      int how = r.below(4);
      if (how == 1) g.push_back(r.below(V));
      if (how == 2) g.back() = r.below(V);
      if (how == 3) g.insert(g.begin(), r.below(V));
    } else
      for (int i = 0; i < n; i++) g.push_back(r.below(V));
    RefLm::G h;
    for (int w : g) h.push_back(b.id(a.words[w]));
    double x = a.score(g, ka, nullptr), y = b.score(h, kb, nullptr);
    if (!lp_close(x, y, extra)) return fmt("'%s' had log-probability %.6f and now has %.6f", a.text(g).c_str(), x, y);
  }
  return "";
}
static bool improper(const RefLm &m) {
  if (!m.interp) return false;
  for (int n = 1; n <= m.order; n++)
    for (auto &e : m.g[n])
      if (m.score(e.first, RefLm::TREE, nullptr) > -1e-5) return true;
  return false;
}
Verdict check_c07(const Plan &p) {
  Verdict v;
  std::string fmodel = p.get("model"), data;
  RefLm orig, cur;
  bool have = false, zero = false, coarse = false;
  double extra = 0;
  std::string path;
  if (!fmodel.empty()) {
    if (!content(p.files, fmodel, data)) return v;
    orig = cur = ref_parse(data);
    if (!orig.ok || improper(orig)) return v;
    have = true;
    path = orig.interp ? "I" : "B";
  }
  Fs fs = p.files;
  auto kind = [&](const RefLm &m) { return m.prefixes ? RefLm::TREE : RefLm::HASH; };
  for (size_t k = 0; k < p.procs.size(); k++) {
    const ProcSpec &q = p.procs[k];
    const auto &a = q.argv;
    const std::string &tool = a[0];
    ProcResult r = run_in(v, fs, q);
    if (undecided(v, r)) return v;
    fs = r.fs;
    bool disturbed = any_fired(r) || !q.faults.empty();
    auto fail = [&](const std::string &cls, const std::string &d) {
      v.bad = true;
      v.cls = tool + "-" + cls;
      v.detail = fmt("step %d, ", (int)k + 1) + join(a) + " [" + r.describe() + "]: " + d;
      v.sig = tool + "/" + cls;
      return v;
    };
    if (tool == "perplexity") {
      if (!have) return v;
      bool tree = !has_opt(a, "-f");
      if (tree && !cur.prefixes) return v;
      if (!r.ok()) {
        if (disturbed) continue;
        return fail("fails", "a sound model is not accepted: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
      }
      std::string ps, text;
      if (!content(fs, opt_value(a, "-S"), ps) || !content(fs, a[a.size() - 2], text)) return fail("stream", "no probabilities written");
      auto tok = tokens(text);
      RefLm::G h;
      size_t i = 0, n = 0;
      while (i < ps.size()) {
        size_t e = ps.find('\n', i);
        if (e == std::string::npos || n >= tok.size()) return fail("stream", "not one record per token");
        std::string l = ps.substr(i, e - i);
        i = e + 1;
        const std::string &w = tok[n++];
        if (l.compare(0, w.size(), w)) return fail("stream", "record '" + l + "' for the token " + w);
        double pr;
        int hit;
        if (sscanf(l.c_str() + w.size(), " %lf, order %d", &pr, &hit) != 2) return fail("stream", "record '" + l + "'");
        int id = orig.id(w);
        h.push_back(id);
        if ((int)h.size() > orig.order) h.erase(h.begin());
        if (!id && !has_opt(a, "-o")) continue;
        int want = 0;
        double lp = orig.score(h, orig.prefixes ? (tree ? RefLm::TREE : RefLm::HASH) : RefLm::HASH, &want);
        if (!lp_close(pr > 0 ? std::log10(pr) : -400, lp, extra)) return fail("score", fmt("'%s' scores %.6g (%.6f), the original model gives %.6f for '%s'", w.c_str(), pr, pr > 0 ? std::log10(pr) : -400, lp, orig.text(h).c_str()));
        if (!zero && lp > -45 && hit != want) return fail("hit-order", fmt("'%s' uses order %d, the original model has order %d for '%s'", w.c_str(), hit, want, orig.text(h).c_str()));
      }
      if (n != tok.size()) return fail("stream", "not one record per token");
      v.nontrivial = true;
      path += tree ? (has_opt(a, "-A") ? " score-bin" : " score-tree") : " score-hash";
      continue;
    }
    const std::string &out = a.back();
    bool training = tool == "counts2kn" || tool == "varigram_kn";
    if (!training && (tool == "add_zeroprob_grams" ? false : !cur.prefixes)) return v;
    if (!r.ok()) {
      if (disturbed || training) { if (training && !have) return v; continue; }
      return fail("fails", "a sound model is not accepted: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
    }
    if (!content(fs, out, data)) {
      if (disturbed) continue; // C01 looks after that
      return fail("no-output", "nothing sound under " + out);
    }
    RefLm m = ref_parse(data);
    if (!m.ok) {
      if (disturbed) continue;
      return fail("output", "the model written cannot be parsed: " + m.why);
    }
    if (training && !have) {
      orig = cur = m;
      if (improper(m)) return v;
      have = true;
      path = (m.interp ? "trained-I" : m.binary ? "trained-bin" : "trained-B");
      if (!m.interp) extra += 2e-5;
      // entries that only stand for their extensions count as missing with -f
      for (int n = 2; n <= m.order; n++)
        for (auto &e : m.g[n]) zero = zero || e.second.lp <= -45;
      continue;
    }
    bool az = tool == "add_zeroprob_grams";
    std::string w = ref_missing(cur, m, true);
    if (!w.empty()) return fail("lost", "'" + w + "' is no longer in the model");
    for (int n = 1; n <= m.order; n++)
      for (auto &e : m.g[n]) {
        if (n == 1 && e.first[0] == 0) continue;
        RefLm::G h;
        bool known = true;
        for (int x : e.first) {
          auto i = cur.index.find(m.words[x]);
          known = known && i != cur.index.end();
          h.push_back(known ? i->second : 0);
        }
        if (known && n <= cur.order && cur.g[n].count(h)) continue;
        bool prefix = false;
        if (known && az)
          for (int o = n + 1; o <= cur.order && !prefix; o++) {
            auto i = cur.g[o].lower_bound(h);
            prefix = i != cur.g[o].end() && std::equal(h.begin(), h.end(), i->first.begin());
          }
        if (!prefix) return fail("extra", "'" + m.text(e.first) + "' was not in the model");
      }
    if (m.words.size() != cur.words.size()) return fail("vocabulary", fmt("%d words, there were %d", (int)m.words.size() - 1, (int)cur.words.size() - 1));
    if (real_order(m) != real_order(cur)) return fail("order", fmt("order %d, it was %d", real_order(m), real_order(cur)));
    if (m.interp && !cur.interp && !training) return fail("type", "a back-off model became an interpolated one");
    if (az && cur.interp && !m.interp) return fail("type", "an interpolated model became a back-off one");
    if (az && !m.prefixes) return fail("prefixes", "prefixes are still missing");
    if (m.interp == cur.interp && !training) {
      std::string d = tool == "arpa2bin" ? values_differ(cur, m, 0, 1e-7) : az ? values_differ(cur, m, 0.55e-4, 1e-6) : values_differ(cur, m, 1e-9, 1e-5);
      if (!d.empty()) return fail("value", d);
    }
    if (az) { extra += 0.6e-4 * (m.order + 1); zero = coarse = true; }
    else extra += 2e-5;
    if (training) extra += 1.2e-4 * (m.order + 1);
    std::string d = scores_differ(orig, kind(orig), m, kind(m), p.geti("seed") + k, extra);
    if (!d.empty()) return fail("score", d);
    v.nontrivial = true;
    path += " " + (training ? std::string(m.interp ? "x" : m.binary ? "bin" : "arpa") : tool) + (comp(out) == 'f' ? "" : "z");
    if (!training) cur = m;
  }
  (void)coarse;
  v.state = path;
  return v;
}
void explore_c07(Rng &r, Explorer &ex) {
  Plan p;
  int f = 0;
  bool bin = false, prefixes = true;
  auto name = [&](const char *stem) {
    std::string n = stem + std::to_string(f++);
    int c = r.below(6);
    return n + (c == 0 ? ".gz" : c == 1 ? ".bz2" : "");
  };
  auto file_in = [&](const std::string &n) { return comp(n) == 'g' && r.chance(0.3) ? "gzip -dc " + n + " |" : comp(n) == 'f' && r.chance(0.15) ? "cat " + n + " |" : n; };
  std::string cur;
  std::vector<std::string> words;
  p.set("seed", (int64_t)(r.next() >> 30));
  auto add = [&](const std::vector<std::string> &a) {
    ProcSpec q;
    q.argv = a;
    q.env = gen_env(r);
    if (r.chance(0.1)) { // a disturbed attempt first
      ProcSpec d = q;
      Fault t;
      int k = r.below(4);
      t = k == 0 ? mk(F_CRASH, "", r.below(20), 0, r.below(1001)) : k == 1 ? mk(F_DISK_FULL, "", r.below(4000)) : k == 2 ? mk(F_ALLOC_FAIL, "", r.below(300), 0, r.below(2)) : mk(F_READ_ERR, "", r.below(6), 0, 1, 5);
      d.faults = {t};
      p.procs.push_back(d);
    }
    p.procs.push_back(q);
  };
  if (r.chance(0.3)) {
    // trained, written in two or three forms
    TextGen t;
    t.tags = r.chance(0.5);
    std::string text = gen_text(r, t);
    words = distinct_words(text);
    p.files["text"] = text;
    std::vector<std::string> base;
    int n = 1 + r.below(4);
    if (r.chance(0.6)) {
      base = {"counts2kn", "-H", std::to_string(50 + r.below(1000)), "-n", std::to_string(n)};
      if (r.chance(0.2)) { base.push_back("-p"); base.push_back("0.01"); }
    } else
      base = {"varigram_kn", "-H", "500", "-n", std::to_string(n + 1), "-D", "0.05"};
    for (auto o : {"-3", "-C"})
      if (r.chance(0.25)) base.push_back(o);
    if (r.chance(0.2)) { base.push_back("-f"); base.push_back(std::to_string(2 + r.below(20))); }
    std::vector<std::string> forms = {"", "-a", "-x"};
    if (base[0] == "varigram_kn" && r.chance(0.5)) forms.pop_back();
    for (size_t i = forms.size(); i > 1; i--) std::swap(forms[i - 1], forms[r.below(i)]);
    for (size_t i = 0; i < forms.size(); i++) {
      auto a = base;
      if (!forms[i].empty()) a.push_back(forms[i]);
      a.push_back("text");
      std::string o = name("tr");
      if (!i) { cur = o; bin = forms[i].empty(); }
      a.push_back(o);
      add(a);
    }
  } else {
    ModelFile m = r.chance(0.5) ? gen_model(r, M_BACKOFF | M_INTERP) : synth_model(r, M_BACKOFF | M_INTERP);
    words = m.words;
    prefixes = m.tree;
    if (m.tree && !m.bin.empty() && r.chance(0.25)) bin = true;
    cur = name("m");
    std::string d = bin ? m.bin : m.arpa;
    p.files[cur] = comp(cur) == 'f' ? d : enc(d, comp(cur));
    p.set("model", cur);
  }
  TextGen t;
  t.vocab = words;
  if (t.vocab.size() > 300) t.vocab.resize(300);
  if (r.chance(0.7)) t.vocab.push_back("oov1");
  t.lines = 1 + r.below(8);
  p.files["test"] = gen_text(r, t);
  int steps = 1 + r.below(5);
  for (int i = 0; i <= steps; i++) {
    if (i == steps || r.chance(0.35)) {
      int ways = bin ? 1 : 2;
      for (int w = 0; w < ways; w++) {
        bool hash = w == 1 || (!bin && !prefixes);
        std::vector<std::string> a = {"perplexity"};
        if (hash) a.push_back("-f");
        if (hash && r.chance(0.3)) a.push_back("-s");
        if (r.chance(0.5)) a.push_back("-o");
        a.push_back(bin ? "-A" : "-a");
        a.push_back(file_in(cur));
        a.push_back("-S");
        a.push_back(name("ps"));
        a.push_back("test");
        a.push_back("res" + std::to_string(f++));
        add(a);
        if (!prefixes) break;
      }
    }
    if (i == steps) break;
    std::string out = name("m");
    if (bin) {
      add({"bin2arpa", file_in(cur), out});
      bin = false;
    } else if (!prefixes || r.chance(0.25)) {
      std::vector<std::string> a = {"add_zeroprob_grams"};
      if (r.chance(0.3)) a.push_back("-s");
      a.push_back(file_in(cur));
      a.push_back(out);
      add(a);
      prefixes = true;
    } else if (r.chance(0.5)) {
      add({"arpa2bin", file_in(cur), out});
      bin = true;
    } else {
      std::vector<std::string> a = {"arpa2arpa"};
      if (r.chance(0.4)) a.push_back("-t");
      a.push_back(file_in(cur));
      a.push_back(out);
      add(a);
    }
    cur = out;
  }
  p.set("noargmin", "1");
  ex.try_plan(p);
}
} // namespace sim
