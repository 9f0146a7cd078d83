// C06: scoring sessions over shared or separate models, advanced in any order.
#include "lib.h"
#include "coro.h"
#include "HashGram.hh"
#include "InterTreeGram.hh"
#include "PerplexityFuncs.hh"
#include "TreeGram.hh"
#include <cstring>
#include <map>
#include <memory>
#include <sstream>

namespace sim {
namespace {
struct Mod {
  std::shared_ptr<NGram> g;
  char rep = 'T';
};
struct Sess {
  Mod m;
  std::unique_ptr<Perplexity> p;
  std::map<std::string, Mod> own; // models this session loaded for itself
  std::string out;
};
struct Op { int s; std::string verb; std::vector<std::string> a; };
std::string dash(const std::string &s) { return s == "-" ? "" : s; }
std::string num(double x) { return fmt(" %a", x); }

Mod load_model(const std::vector<std::string> &a, size_t at) { // rep file...
  Mod m;
  { SutPause z; m.rep = a[at][0]; }
  if (m.rep == 'I') {
    std::vector<std::string> names;
    std::vector<float> w;
    for (size_t i = at + 1; i + 1 < a.size(); i += 2) {
      names.push_back(a[i]);
      w.push_back(strtof(a[i + 1].c_str(), nullptr));
    }
    m.g = std::make_shared<InterTreeGram>(names, w);
    return m;
  }
  if (m.rep == 'H') m.g = std::make_shared<HashGram_t<int>>();
  else if (m.rep == 'S') m.g = std::make_shared<HashGram_t<unsigned short>>();
  else m.g = std::make_shared<TreeGram>();
  m.g->set_oov("<UNK>");
  io::Stream in(a[at + 1], "r");
  m.g->read(in.file, m.rep == 'B');
  in.close();
  return m;
}
void perform(Sess &s, std::map<std::string, Mod> &shared, const Op &o) {
  const auto &a = o.a;
  if (o.verb == "load") { // name rep file...
    Mod m = load_model(a, 1);
    SutPause z;
    s.own[a[0]] = m;
    return;
  }
  auto model = [&](const std::string &n) -> Mod * {
    auto i = s.own.find(n);
    if (i != s.own.end()) return &i->second;
    i = shared.find(n);
    return i == shared.end() ? nullptr : &i->second;
  };
  if (o.verb == "beg") { // model skip cc wb mb
    Mod *m = model(a[0]);
    if (!m || s.m.g) return;
    s.m = *m;
    if (a[1] != "q") {
      s.p.reset(new Perplexity(m->g, dash(a[2]), dash(a[3]), dash(a[4]), "", a[1] == "1"));
      s.p->set_unk_warn(false);
    }
    return;
  }
  if (o.verb == "own") { // skip cc wb mb rep file: everything inside the scorer
    if (s.m.g || s.p) return;
    s.p.reset(new Perplexity(a[5], a[4] == "B", dash(a[1]), dash(a[2]), dash(a[3]), "", a[4] == "H" ? 1 : a[4] == "S" ? -1 : 0, a[0] == "1"));
    s.p->set_unk_warn(false);
    return;
  }
  if (o.verb == "end") {
    s.p.reset();
    s.m.g.reset();
    s.own.clear();
    return;
  }
  std::string res;
  if (s.p) {
    Perplexity &p = *s.p;
    if (o.verb == "tok") {
      float w = 0;
      float lp = p.logprob(a[0].c_str(), w);
      int hit = s.m.g ? s.m.g->last_order() : -1;
      SutPause z;
      res = num(lp) + num(w) + fmt(" %d", hit);
    } else if (o.verb == "tlp") {
      float lp = p.token_logprob(a[0].c_str());
      SutPause z;
      res = num(lp);
    } else if (o.verb == "wlp") {
      float lp = p.word_logprob(a[0].c_str());
      SutPause z;
      res = num(lp);
    } else if (o.verb == "sent") {
      std::string t;
      { SutPause z; for (auto &w : a) t += (t.empty() ? "" : " ") + w; }
      float lp = p.sentence_logprob(t.c_str());
      SutPause z;
      res = num(lp);
    } else if (o.verb == "clr") p.clear_history();
    else if (o.verb == "hist") p.set_init_hist(atoi(a[0].c_str()));
    else if (o.verb == "mix") {
      p.set_alpha(strtof(a[1].c_str(), nullptr));
      p.set_interpolation(a[0]);
    } else if (o.verb == "file") {
      FILE *in = fopen(a[0].c_str(), "r");
      if (!in) return;
      char *buf = nullptr;
      size_t len = 0;
      FILE *out;
      { SutPause z; out = open_memstream(&buf, &len); }
      double t = p.logprob_file(in, out, atoi(a[1].c_str()));
      fclose(in);
      SutPause z;
      fflush(out);
      res = num(t) + " " + esc(std::string(buf, len));
    } else if (o.verb == "res") {
      char *buf = nullptr;
      size_t len = 0;
      FILE *out;
      { SutPause z; out = open_memstream(&buf, &len); }
      double t = p.print_results(out);
      p.print_hitrates(out);
      SutPause z;
      fflush(out);
      res = num(t) + " " + esc(std::string(buf, len));
    } else if (o.verb == "cnt") {
      int x = p.processed_tokens(), y = p.processed_words(), w = p.get_num_tunks(), h[4];
      for (int i = 0; i < 4; i++) h[i] = p.get_hitorder(i);
      SutPause z;
      res = fmt(" %d %d %d %d,%d,%d,%d", x, y, w, h[0], h[1], h[2], h[3]);
    } else if (o.verb == "rst") p.reset_hitrates();
  }
  if (s.m.g && (o.verb == "q" || o.verb == "bi" || o.verb == "tri")) {
    NGram &g = *s.m.g;
    std::vector<int> ids;
    size_t from = o.verb == "q" ? 1 : 0;
    for (size_t i = from; i < a.size(); i++) ids.push_back(g.word_index(a[i]));
    if (ids.empty()) return;
    if (o.verb == "q") {
      float lp = 0;
      int kind = atoi(a[0].c_str());
      if (s.m.rep == 'I' || kind == 0) {
        NGram::Gram d(ids.begin(), ids.end());
        if (s.m.rep == 'I' && kind == 1) lp = static_cast<InterTreeGram &>(g).log_prob(d);
        else lp = g.log_prob(d);
      } else if (kind == 1 || s.m.rep == 'H') lp = g.log_prob(ids); // H does not offer 16-bit keys
      else {
        std::vector<unsigned short> u(ids.begin(), ids.end());
        lp = g.log_prob(u);
      }
      int hit = g.last_order();
      SutPause z;
      res = num(lp) + fmt(" %d", hit);
    } else if (s.m.rep == 'T' || s.m.rep == 'B' || (s.m.rep == 'I' && o.verb == "bi")) {
      // look-ahead: the first word(s) are the history, the rest is asked for
      size_t h = o.verb == "bi" ? 1 : 2;
      if (ids.size() <= h || (g.order() < 2 && s.m.rep != 'I')) return;
      std::vector<int> next(ids.begin() + h, ids.end());
      std::vector<float> r(next.size());
      if (s.m.rep == 'I') static_cast<InterTreeGram &>(g).fetch_bigram_list(ids[0], next, r);
      else if (h == 1) static_cast<TreeGram &>(g).fetch_bigram_list(ids[0], next, r);
      else static_cast<TreeGram &>(g).fetch_trigram_list(ids[0], ids[1], next, r);
      SutPause z;
      for (auto x : r) res += num(x);
    }
  }
  SutPause z;
  s.out += o.verb + res + "\n";
}
} // namespace
// ops: "sw blocks to" | "- load name rep file..." | "<session> verb args..."
// alone >= 0: only that session
static void run(const Plan &p, int alone) {
  std::vector<Op> *ops;
  std::vector<CoSwitch> *sw;
  std::vector<Sess> *ss;
  std::map<std::string, Mod> *shared;
  int n = p.geti("sessions", 1);
  {
    SutPause z;
    ops = new std::vector<Op>;
    sw = new std::vector<CoSwitch>;
    ss = new std::vector<Sess>(n);
    shared = new std::map<std::string, Mod>;
    for (auto &t : p.ops) {
      Op o;
      std::istringstream in(t);
      std::string f;
      in >> f;
      if (f == "sw") {
        CoSwitch c = {0, 0};
        in >> c.blocks >> c.to;
        sw->push_back(c);
        continue;
      }
      o.s = f == "-" ? -1 : atoi(f.c_str());
      in >> o.verb;
      while (in >> f) o.a.push_back(f);
      if (o.s < -1 || o.s >= n || (alone >= 0 && o.s >= 0 && o.s != alone)) continue;
      ops->push_back(o);
    }
    if (alone >= 0) { // only what it uses
      std::set<std::string> used;
      for (auto &o : *ops) if (o.verb == "beg") used.insert(o.a[0]);
      std::vector<Op> k;
      for (auto &o : *ops) if (o.s >= 0 || used.count(o.a[0])) k.push_back(o);
      *ops = k;
    }
  }
  for (auto &o : *ops)
    if (o.s == -1) {
      Mod m = load_model(o.a, 1);
      SutPause z;
      (*shared)[o.a[0]] = m;
    }
  int made = 0;
  if (p.get("mode") == "preempt" && alone < 0)
    made = coro_run(n, [&](int i) { for (auto &o : *ops) if (o.s == i) perform((*ss)[i], *shared, o); }, *sw);
  else
    for (auto &o : *ops)
      if (o.s >= 0) perform((*ss)[o.s], *shared, o);
  std::string rep;
  {
    SutPause z;
    rep = fmt("OK %d\n", made);
    for (int i = 0; i < n; i++) {
      rep += fmt("S %d\n", i);
      rep += (*ss)[i].out;
    }
  }
  for (auto &s : *ss) { s.p.reset(); s.m.g.reset(); s.own.clear(); }
  shared->clear();
  report(rep);
}
void lib_scoring_run(const Plan &p) { run(p, p.geti("alone", -1)); }
} // namespace sim
