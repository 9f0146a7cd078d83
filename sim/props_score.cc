// What perplexity reports about a text (C11).
#include "props.h"
#include "train.h"
#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>

namespace sim {
namespace {
// one model or a weighted pair
struct Scorer {
  RefLm m[2];
  int n = 1, order = 1;
  int main = 0;             // the one whose hit order is reported
  RefLm::Kind kind = RefLm::TREE;
  double w[2] = {1, 0};
  bool inter_tree = false;
  double score(const std::deque<int> &h, int *hit) const {
    RefLm::G g(h.begin(), h.end());
    if (n == 1) return m[0].score(g, kind, hit);
    double p = 0;
    for (int i = 0; i < 2; i++) {
      int x = 0;
      p += w[i] * std::pow(10, m[i].score(g, kind, &x));
      if (i == main) *hit = x;
    }
    if (inter_tree) *hit = 0;
    return p <= 0 ? -60 : std::max(-60.0, std::log10(p));
  }
};
struct Setup {
  Scorer lm;
  enum { EVERY, LISTED, MORPH } wb = EVERY;
  std::vector<std::string> mb;
  std::set<int> wbs, ccs;
  bool ccs_given = false;
  bool skip_unk = true;
  int init_hist = 0;
};
struct Account {
  struct Rec { std::string word; double lp; int hit; double wlp; };
  std::vector<Rec> recs;
  int unks = 0, tunks = 0, cues = 0, words = 0, toks = 0, ends = 0;
  double lp = 0, wlp = 0;
  std::vector<long> hits;
};
bool morph(const Setup &s, const std::string &w) {
  for (auto &p : s.mb) {
    std::string rest;
    if (p[0] == '^') {
      rest = p.substr(1);
      if (w.compare(0, rest.size(), rest) == 0) return true;
    } else if (p.back() == '$') {
      rest = p.substr(0, p.size() - 1);
      if (w.size() >= rest.size() && w.compare(w.size() - rest.size(), rest.size(), rest) == 0) return true;
    }
  }
  return false;
}
Account account(const Setup &s, const std::vector<std::string> &text) {
  Account a;
  a.hits.resize(s.lm.order + 1);
  std::deque<int> h;
  int init = s.init_hist;
  bool pending_unk = false;
  double since = 0; // log-probabilities since the last word break
  auto breaks = [&](int id) {
    if (s.wb == Setup::EVERY) return true;
    if (s.wb == Setup::LISTED) return s.wbs.count(id) > 0;
    return !morph(s, s.lm.m[0].words[id]);
  };
  for (auto &w : text) {
    Account::Rec r{w, 0, 0, 0};
    int id = s.lm.m[0].id(w);
    if (init && init == s.init_hist) h.clear();
    else if ((int)h.size() == s.lm.order) h.pop_front();
    h.push_back(id);
    [&] {
      if (init > 0) {
        if (w.compare(0, 3, "<s>") && breaks(id)) a.words++;
        init--;
        return;
      }
      if (w.compare(0, 4, "</s>") == 0) {
        init = s.init_hist;
        a.ends++;
      }
      if (!id) {
        a.tunks++;
        if (s.wb == Setup::MORPH && !morph(s, w)) {
          a.unks++;
          r.wlp = since;
          since = 0;
        } else if (s.wb == Setup::EVERY) a.unks++;
        else pending_unk = true;
        if (s.skip_unk) return;
      }
      if (s.ccs.count(id)) {
        a.cues++;
        return;
      }
      r.lp = s.lm.score(h, &r.hit);
      a.hits[0]++;
      a.hits[r.hit]++;
      a.toks++;
      since += r.lp;
      if (breaks(id)) {
        bool u = pending_unk;
        if (u) a.unks++;
        pending_unk = false;
        if (!u || !s.skip_unk) {
          r.wlp = since;
          a.words++;
        }
        since = 0;
      }
    }();
    a.lp += r.lp;
    a.wlp += r.wlp;
    a.recs.push_back(r);
  }
  a.wlp += since;
  if (s.wb == Setup::EVERY) { a.unks = a.tunks; a.tunks = 0; }
  return a;
}
std::string results(const Setup &s, const Account &a) {
  std::string o;
  bool sub = s.wb != Setup::EVERY;
  int extra_w = s.skip_unk ? a.unks : 0, extra_t = s.skip_unk ? a.tunks : 0;
  int tw = a.words + extra_w + a.cues, tt = a.toks + extra_t + a.cues;
  o += fmt("%s %d UNKS, %.2f %%\n", s.skip_unk ? "Dropped:" : "Found:", a.unks, 100.0 * a.unks / tw);
  if (sub) o += fmt("%d TUNKS, %.2f %%\n", a.tunks, 100.0 * a.tunks / tt);
  if (s.ccs_given) o += fmt("%s %d context cues\n", s.skip_unk ? "" : "Dropped:", a.cues);
  o += fmt("Processed: %d words\n", a.words);
  if (sub) o += fmt("%d tokens\n", a.toks);
  o += fmt("Total: %d words\n", tw);
  if (sub) o += fmt("%d tokens\n", tt);
  double l2 = std::log10(2.0), p = a.wlp / a.words, q = a.wlp / (a.words - a.ends), t = a.lp / a.toks;
  o += fmt("Logprob %.6f\nPerplexity %.2f (- %dth root) = %.3f bits\n", a.wlp, std::pow(10, -p), a.words, -p / l2);
  o += fmt("Perplexity (sentence ends not in normalization) %.2f (- %dth root) = %.3f bits\n", std::pow(10, -q), a.words - a.ends, -q / l2);
  if (a.words != a.toks)
    o += fmt("Tokenwise logprob %.6f\nTokenwise perplexity %.2f (- %dth root) = %.3f bits\n", a.lp, std::pow(10, -t), a.toks, -t / l2);
  if (!s.lm.inter_tree) {
    o += "Ngram hit rates:\n";
    for (int i = 1; i <= s.lm.order; i++) o += fmt("%d: %.3f\n", i, 100.0 * a.hits[i] / a.hits[0]);
  }
  return o;
}
// numbers with decimals are compared within a tolerance, everything else exactly
bool number_text(const std::string &t, double &x) {
  char *e;
  x = strtod(t.c_str(), &e);
  return e != t.c_str() && !*e;
}
bool same_number(const std::string &want, const std::string &got, bool power) {
  double a, b;
  if (!number_text(want, a) || !number_text(got, b)) return false;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b || (std::isinf(a) ? std::fabs(b) > 1e300 : std::fabs(a) > 1e300);
  size_t dot = want.find('.'), gd = got.find('.');
  if (dot == std::string::npos) return want == got;
  if (gd == std::string::npos || got.size() - gd != want.size() - dot) return false;
  if (power && a > 1 && b > 1) return std::fabs(std::log10(a) - std::log10(b)) <= 5e-3 + 2e-4 * std::log10(a);
  return std::fabs(a - b) <= 1.1 * std::pow(10, -(double)(want.size() - dot - 1)) + 2e-4 * std::max(std::fabs(a), std::fabs(b));
}
std::string compare_text(const std::string &want, const std::string &got) {
  auto a = tokens(want), b = tokens(got);
  std::string last;
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    bool power = i > 0 && (a[std::min(i, a.size()) - 1].find("erplexity") != std::string::npos || a[std::min(i, a.size()) - 1] == "normalization)");
    if (x != y && !same_number(x, y, power))
      return "after '" + last + "' the report says " + y + ", the text gives " + x;
    last += (last.empty() ? "" : " ") + x;
    if (last.size() > 60) last = last.substr(last.size() - 50);
  }
  return "";
}
std::string compare_stream(const Account &a, const std::string &got) {
  size_t i = 0, k = 0;
  while (i < got.size()) {
    size_t e = got.find('\n', i);
    if (e == std::string::npos) return "the last record is cut short";
    std::string l = got.substr(i, e - i);
    i = e + 1;
    if (k >= a.recs.size()) return fmt("more than the %d records of the text", (int)k);
    const auto &r = a.recs[k++];
    std::string head = r.word + " ", what = fmt("record %d (%s): '", (int)k, r.word.substr(0, 40).c_str()) + l.substr(0, 200) + "', the text gives ";
    double p, w;
    int hit, used = 0;
    char ps[64], ws[64];
    if (l.compare(0, head.size(), head) || sscanf(l.c_str() + head.size(), "%60[^,], order %d (cfw_lp %60[^)])%n", ps, &hit, ws, &used) != 3 ||
        head.size() + used != l.size() || !number_text(ps, p) || !number_text(ws, w))
      return what + "the word " + r.word.substr(0, 60);
    if (hit != r.hit) return what + fmt("order %d", r.hit);
    double lp = p > 0 ? std::log10(p) : -400;
    if (!lp_close(lp, r.lp)) return what + fmt("probability %g", std::pow(10, r.lp));
    if (std::fabs(w - r.wlp) > 1.1e-4 + 2e-4 * std::fabs(r.wlp)) return what + fmt("word log-probability %.4f", r.wlp);
  }
  if (k != a.recs.size()) return fmt("%d records for the %d tokens of the text", (int)k, (int)a.recs.size());
  return "";
}
void extend(RefLm &a, const RefLm &b) {
  for (auto &w : b.words)
    if (!a.index.count(w)) {
      a.index[w] = a.words.size();
      a.words.push_back(w);
    }
}
bool list_of(const Plan &p, const char *stem, std::vector<std::string> &v) {
  std::string d;
  if (!slot_input(p, 0, stem, d)) return false;
  v = tokens(d);
  return true;
}
} // namespace

Verdict check_c11(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  const auto &a = q.argv;
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.state = "perplexity " + std::string(how_text(r)) + (any_fired(r) ? " after " + fired_text(r) : "");
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = join(a) + " [" + r.describe() + "]: " + d;
    v.sig = "perplexity/" + cls;
    return v;
  };
  std::string md[2], text;
  if (!slot_input(p, 0, "lm", md[0]) || !slot_input(p, 0, "test", text)) return v;
  bool two = has_opt(a, "-i");
  if (two && !slot_input(p, 0, "lm2", md[1])) return v;
  Setup s;
  Scorer &lm = s.lm;
  bool free = has_opt(a, "-f");
  lm.n = two ? 2 : 1;
  lm.kind = free ? RefLm::HASH : two ? RefLm::INTERTREE : RefLm::TREE;
  lm.inter_tree = two && !free;
  std::string oov = has_opt(a, "-u") ? opt_value(a, "-u") : "<UNK>";
  for (int i = 0; i < lm.n; i++) {
    lm.m[i] = ref_parse(md[i], oov);
    if (!lm.m[i].ok || (!free && !lm.m[i].prefixes)) return v;
    lm.order = std::max(lm.order, lm.m[i].order);
  }
  if (free && two && lm.m[1].order > lm.m[0].order) lm.main = 1;
  if (two) {
    std::vector<std::string> before = lm.m[0].words;
    extend(lm.m[0], lm.m[1]);
    RefLm x;
    x = lm.m[1];
    // both share the first one's numbering
    x.words = lm.m[0].words;
    x.index = lm.m[0].index;
    for (auto &g : x.g) g.clear();
    for (int n = 1; n <= x.order; n++)
      for (auto &e : lm.m[1].g[n]) {
        RefLm::G h;
        for (int w : e.first) h.push_back(x.id(lm.m[1].words[w]));
        x.g[n][h] = e.second;
      }
    lm.m[1] = x;
    double c = has_opt(a, "-I") ? atof(opt_value(a, "-I").c_str()) : 0.5;
    lm.w[0] = (float)(1 - c);
    lm.w[1] = (float)c;
  }
  std::vector<std::string> w;
  if (has_opt(a, "-C")) {
    if (!list_of(p, "ccs", w)) return v;
    for (auto &x : w) s.ccs.insert(lm.m[0].id(x));
    s.ccs_given = !w.empty();
  }
  if (has_opt(a, "-W")) {
    if (!list_of(p, "wb", w)) return v;
    s.wb = Setup::LISTED;
    for (auto &x : w) s.wbs.insert(lm.m[0].id(x));
  } else if (has_opt(a, "-X")) {
    if (!list_of(p, "mb", s.mb)) return v;
    s.wb = Setup::MORPH;
  }
  s.skip_unk = !has_opt(a, "-o");
  if (has_opt(a, "-t")) s.init_hist = atoi(opt_value(a, "-t").c_str());
  if (!r.ok()) {
    if (any_fired(r) || r.how == ProcResult::CRASHED) return v;
    if (r.how == ProcResult::EXITED && has_opt(a, "-s") && lm.m[0].words.size() > 65000) return v; // more words than -s is for
    return fail("fails", "scoring fails on sound input: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
  }
  auto tok = tokens(text);
  Account acc = account(s, tok);
  std::string res, ps, why;
  if (has_opt(a, "-S") && slot_output(p, r, "ps", ps)) {
    why = compare_stream(acc, ps);
    if (!why.empty()) return fail("stream", why);
  }
  if (!slot_output(p, r, "res", res)) return v;
  why = compare_text(results(s, acc), res);
  if (!why.empty()) return fail("report", why);
  v.nontrivial = tok.size() > 1;
  for (auto o : {"-f", "-s", "-A", "-i", "-C", "-W", "-X", "-u", "-U", "-o", "-t"})
    if (has_opt(a, o)) v.state += std::string(" ") + o;
  v.state += fmt(" order %d", lm.order);
  return v;
}
void explore_c11(Rng &r, Explorer &ex) {
  Scenario s;
  CmdGen g(r, s);
  auto &a = s.argv;
  s.tool = "perplexity";
  a = {"perplexity"};
  bool free = r.chance(0.45), inter = r.chance(0.3);
  int want = M_BACKOFF | M_INTERP;
  if (!free) want |= M_TREE;
  ModelFile own;
  const ModelFile *m = &gen_model(r, want);
  if (r.chance(0.3)) {
    own = synth_model(r, want | (r.chance(0.5) ? M_UNK : 0));
    m = &own;
  }
  bool wide = r.chance(0.008);
  if (wide) { // about as many words as 16-bit keys can number
    own = wide_model(r, want);
    m = &own;
    free = free || r.chance(0.7);
    inter = false;
  }
  TextGen t;
  t.vocab = m->words;
  if (wide) t.vocab = own.some;
  if (t.vocab.size() > 400) t.vocab.resize(400);
  int oov = r.below(4);
  for (int i = 0; i < oov; i++) t.vocab.insert(t.vocab.begin() + r.below(t.vocab.size() + 1), fmt("oov%d", i));
  t.tags = r.chance(0.4);
  if (r.chance(0.05)) t.long_tokens = true;
  t.lines = r.chance(0.1) ? 40 + r.below(60) : 1 + r.below(12);
  if (free) {
    a.push_back("-f");
    g.flag(wide ? 0.8 : 0.3, "-s");
  }
  bool bin = !free && !inter && !m->bin.empty() && r.chance(0.4);
  a.push_back(bin ? "-A" : "-a");
  a.push_back(g.in("lm", bin ? m->bin : m->arpa, !inter));
  if (inter) {
    const ModelFile &m2 = gen_model(r, want);
    a.push_back("-i");
    a.push_back(g.in("lm2", m2.arpa, false, true));
    g.val(0.7, "-I", r.chance(0.1) ? (r.chance(0.5) ? "0" : "1") : fmt("%.2f", r.unit()));
    for (size_t i = 0; i < std::min<size_t>(m2.words.size(), 20); i++)
      if (r.chance(0.6)) t.vocab.insert(t.vocab.begin() + r.below(t.vocab.size() + 1), m2.words[i]);
  }
  std::string text = r.chance(0.02) ? std::string(r.below(3), '\n') : gen_text(r, t);
  if (r.chance(0.1))
    for (auto &ch : text)
      if (ch == ' ' && r.chance(0.2)) ch = "\t\n\v\f\r"[r.below(5)];
  if (!bin && r.chance(0.15)) { a.push_back("-u"); a.push_back(r.chance(0.4) ? "<UNK>" : r.chance(0.5) ? "<unk>" : m->words[r.below(m->words.size())]); }
  std::vector<std::string> lw;
  for (auto &x : m->words)
    if (lw.size() < 300) lw.push_back(x);
  bool ccs = r.chance(0.25);
  auto list = [&](double p) {
    auto w = some_words(r, lw, p);
    if (r.chance(0.15)) w.push_back("nosuchword");
    if (r.chance(0.2)) w.push_back("</s>");
    if (r.chance(0.05)) w.clear();
    return list_file(w);
  };
  if (wide) lw = own.some;
  if (ccs) { a.push_back("-C"); a.push_back(g.in("ccs", list(0.15), true, true)); }
  int wb = r.below(4);
  if (wb == 1) { a.push_back("-W"); a.push_back(g.in("wb", list(0.35), true, true)); }
  if (wb == 2) {
    std::string mb;
    int n = 1 + r.below(3);
    for (int i = 0; i < n; i++) {
      const std::string &w = lw[r.below(lw.size())];
      size_t l = std::min<size_t>(w.size(), 1 + r.below(2));
      mb += r.chance(0.5) ? "^" + w.substr(0, l) + "\n" : w.substr(w.size() - l) + "$\n";
    }
    if (r.chance(0.1)) mb += "plain\n";
    a.push_back("-X");
    a.push_back(g.in("mb", mb, true, true));
  }
  if (!ccs) g.val(0.3, "-t", std::to_string(1 + r.below(5)));
  g.flag(0.3, "-U");
  g.flag(0.4, "-o");
  if (r.chance(0.85)) { a.push_back("-S"); a.push_back(g.out("ps", true)); }
  a.push_back(g.in("test", text, true));
  a.push_back(g.out("res"));
  assign_channels(r, s, 3);
  Plan p = command_plan(s, gen_env(r));
  p.set("slots", slots_text(s));
  p.set("noargmin", "1");
  Verdict v = ex.try_plan(p);
  if (v.bad || ex.stop()) return;
  if (r.chance(0.3)) {
    const ProcResult &b = base_run(p.files, p.procs[0]);
    auto outs = outs_parse(p.get("outs"));
    auto fl = r.chance(0.8) ? input_faults(r, b, outs, 2) : output_faults(r, b, outs, 2);
    keep_some(r, fl, 3);
    for (auto &f : fl) {
      if (ex.stop()) return;
      Plan d = p;
      d.procs[0].faults = {f};
      ex.try_plan(d);
    }
  }
}
} // namespace sim
