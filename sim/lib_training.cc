// C21: training sessions through the library, side by side in one process.
#include "lib.h"
#include "InterKn.hh"
#include "PerplexityFuncs.hh"
#include "VarigramFuncs.hh"
#include <cstring>
#include <memory>
#include <sstream>

namespace sim {
namespace {
struct Sess {
  std::unique_ptr<Varigram> vg;
  std::unique_ptr<InterKn> kn;
  bool dead = false, made = false, first = false;
};
struct Op { int s; std::string verb; std::vector<std::string> a; };
std::string dash(const std::string &s) { return s == "-" ? "" : s; }
std::vector<int> ints(const std::string &s) {
  std::vector<int> v;
  if (s == "-") return v;
  std::string t = s;
  for (auto &c : t) if (c == ',') c = ' ';
  std::istringstream in(t);
  int x;
  while (in >> x) v.push_back(x);
  return v;
}
template <class KT, class CT> InterKn *make_kn(bool three, bool abs, const std::vector<std::string> &a) {
  // txt voc opti n ndrop nfirst cl hash
  int n = atoi(a[7].c_str()), nd = atoi(a[8].c_str()), nf = atoi(a[9].c_str()), h = atoi(a[11].c_str());
  if (three) return new InterKn_int_disc3<KT, CT>(abs, a[4], dash(a[5]), dash(a[6]), 0, n, nd, nf, nullptr, a[4], dash(a[10]), h);
  return new InterKn_int_disc<KT, CT>(abs, a[4], dash(a[5]), dash(a[6]), 0, n, nd, nf, nullptr, a[4], dash(a[10]), h);
}
void perform(Sess &s, const Op &o, std::string &res) {
  const auto &a = o.a;
  auto on = [&](size_t i) { return a[i] == "1"; };
  if (o.verb == "new") { // three abs short long
    if (!on(2)) s.vg.reset(on(3) ? (Varigram *)new Varigram_t<int, long>(on(0), on(1)) : new Varigram_t<int, int>(on(0), on(1)));
    else s.vg.reset(on(3) ? (Varigram *)new Varigram_t<unsigned short, long>(on(0), on(1)) : new Varigram_t<unsigned short, int>(on(0), on(1)));
  } else if (o.verb == "kn") {
    if (!on(2)) s.kn.reset(on(3) ? make_kn<int, long>(on(0), on(1), a) : make_kn<int, int>(on(0), on(1), a));
    else s.kn.reset(on(3) ? make_kn<unsigned short, long>(on(0), on(1), a) : make_kn<unsigned short, int>(on(0), on(1), a));
    s.kn->init_disc(0.71);
  } else if (o.verb == "make") { // threshold cutoffs discard_cutoffs discard_unks
    s.kn->cutoffs = ints(a[1]);
    s.kn->discard_cutoffs = on(2);
    s.kn->discard_ngrams_with_unk = on(3);
    s.kn->create_model(std::max(0.0f, strtof(a[0].c_str(), nullptr)));
  } else if (o.verb == "par") { // D E V n
    float d = std::max(0.00001, strtod(a[0].c_str(), nullptr)), e = strtod(a[1].c_str(), nullptr);
    if (d > 0) s.vg->set_datacost_scale(d);
    if (e > 0) s.vg->set_datacost_scale2(e);
    if (a[2] != "0") s.vg->set_ngram_prune_target(atoi(a[2].c_str()));
    if (a[3] != "0") s.vg->set_max_order(atoi(a[3].c_str()));
  } else if (o.verb == "init") // txt hash ndrop nfirst opti cl smallmem voc
    s.vg->initialize(a[0], atoi(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()), dash(a[4]), dash(a[5]), on(6), dash(a[7]));
  else if (o.verb == "cut") s.vg->set_cutoffs(ints(a[0]));
  else if (o.verb == "unks") s.vg->set_discard_unks(true);
  else if (o.verb == "grow") s.vg->grow(1);
  else if (o.verb == "disc") s.vg->set_all_discounts(strtof(a[0].c_str(), nullptr));
  else if (o.verb == "vocab") {
    io::Stream f(a[0], "w");
    if (s.vg) s.vg->write_vocab(f.file);
    else s.kn->vocab.write(f.file);
    f.close();
  } else if (o.verb == "counts") {
    io::Stream f(a[0], "w");
    if (s.vg) s.vg->write_debug_counts(f.file);
    else s.kn->write_counts(f.file);
    f.close();
  } else if (o.verb == "lm") { // file form
    if (s.vg && a[1] != "n") { s.vg->write_file(a[0], a[1] == "a"); return; }
    io::Stream f(a[0], "w");
    if (s.vg) s.vg->write_narpa(f.file);
    else if (a[1] == "n") s.kn->counts2asciilm(f.file);
    else {
      TreeGram lm;
      s.kn->counts2lm(&lm);
      lm.write(f.file, a[1] != "a");
    }
    f.close();
  } else if (o.verb == "score") { // file form sentence...
    Perplexity p(a[0], a[1] == "b", "", "", "", "", 0, true);
    p.set_unk_warn(false);
    float t = 0;
    for (size_t i = 2; i < a.size(); i++) t += p.token_logprob(a[i].c_str());
    SutPause z;
    res = fmt(" %a", t);
  } else if (o.verb == "end") {
    s.vg.reset();
    s.kn.reset();
  }
}
} // namespace
// ops: "<session> verb args..."; alone >= 0: only that session
void lib_training_run(const Plan &p) {
  std::vector<Op> *ops;
  std::vector<Sess> *ss;
  int n = p.geti("sessions", 1), alone = p.geti("alone", -1);
  {
    SutPause z;
    ops = new std::vector<Op>;
    ss = new std::vector<Sess>(n);
    for (auto &t : p.ops) {
      Op o;
      std::istringstream in(t);
      std::string f;
      in >> o.s >> o.verb;
      while (in >> f) o.a.push_back(f);
      if (o.s < 0 || o.s >= n || (alone >= 0 && o.s != alone)) continue;
      ops->push_back(o);
    }
  }
  io::Stream::verbose = false;
  for (auto &o : *ops) {
    Sess &s = (*ss)[o.s];
    // only what can be asked for now (a shortened plan may lack some calls)
    bool can = !s.dead;
    if (o.verb == "new" || o.verb == "kn") can = can && !s.vg && !s.kn && !s.made;
    else if (o.verb == "par") can = can && s.vg && !s.first;
    else if (o.verb == "init") can = can && s.vg && !s.first;
    else if (o.verb == "cut" || o.verb == "unks" || o.verb == "disc" || o.verb == "grow") can = can && s.vg && s.first && (o.verb == "disc" || !s.made);
    else if (o.verb == "make") can = can && s.kn && !s.made;
    else if (o.verb == "vocab" || o.verb == "counts" || o.verb == "lm") can = can && s.made && (s.vg || s.kn);
    if (!can) continue;
    std::string res;
    bool thrown = false;
    try {
      perform(s, o, res);
    } catch (std::exception &e) {
      thrown = true;
    }
    if (o.verb == "init") s.first = true;
    if (o.verb == "grow" || o.verb == "make") s.made = true;
    SutPause z;
    if (thrown && (o.verb == "new" || o.verb == "kn" || o.verb == "init" || o.verb == "grow" || o.verb == "make" || o.verb == "score")) {
      if (o.verb != "score") s.dead = true;
    }
    report(fmt("%d ", o.s) + o.verb + (o.a.empty() ? "" : " " + o.a[0]) + (thrown ? " THROWN" : res) + "\n");
  }
  for (auto &s : *ss) { s.vg.reset(); s.kn.reset(); }
  report("OK\n");
}
} // namespace sim
