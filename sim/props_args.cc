// C20: every spelling of a command line has the same effect, and a wrong one is refused.
#include "props.h"
#include "train.h"
#include <algorithm>
#include <cstring>

namespace sim {
struct Opt { char s; const char *l; char v; }; // v: 0 flag, 's' string, 'i' integer, 'f' float, 'l' list of integers
static const std::vector<Opt> &options(const std::string &tool) {
  static const std::map<std::string, std::vector<Opt>> t = {
      {"counts2kn", {{'o', "opti", 's'}, {'n', "norder", 'i'}, {'a', "arpa", 0}, {'x', "narpa", 0}, {'3', "3nzer", 0}, {'B', "vocabin", 's'},
                     {'H', "hashsize", 'i'}, {'c', "counts", 0}, {'Z', "h_counts", 0}, {'f', "nfirst", 'i'}, {'d', "ndrop", 'i'}, {'s', "smallvocab", 0},
                     {'p', "prunetreshold", 'f'}, {'A', "absolute", 0}, {'C', "clear_history", 0}, {'r', "prune_with_real_counts", 0},
                     {'R', "real_counts_data", 's'}, {'W', "write_counts", 's'}, {'U', "write_vocab", 's'}, {'O', "cutoffs", 'l'},
                     {'D', "discard_cutoffs", 0}, {'N', "discard_unks", 0}, {'L', "longint", 0}}},
      {"varigram_kn", {{'o', "opti", 's'}, {'n', "norder", 'i'}, {'D', "dscale", 'f'}, {'E', "dscale2", 'f'}, {'a', "arpa", 0}, {'x', "narpa", 0},
                       {'3', "3nzer", 0}, {'f', "nfirst", 'i'}, {'d', "ndrop", 'i'}, {'B', "vocabin", 's'}, {'H', "hashsize", 'i'}, {'s', "smallvocab", 0},
                       {'S', "smallmem", 0}, {'C', "clear_history", 0}, {'Z', "dontaddzpg", 0}, {'A', "absolute", 0}, {'W', "write_counts", 's'},
                       {'U', "write_vocab", 's'}, {'O', "cutoffs", 'l'}, {'N', "discard_unks", 0}, {'L', "longint", 0}, {'V', "numngramstarget", 'i'},
                       {'F', "forcedisc", 'f'}}},
      {"perplexity", {{'a', "arpa", 's'}, {'A', "bin", 's'}, {'C', "ccs", 's'}, {'W', "wb", 's'}, {'X', "mb", 's'}, {'u', "unk", 's'}, {'U', "unkwarn", 0},
                      {'o', "includeunks", 0}, {'i', "interpolate", 's'}, {'I', "inter_coeff", 'f'}, {'t', "init_hist", 'i'}, {'f', "freegram", 0},
                      {'s', "smallvocab", 0}, {'S', "probstream", 's'}}},
      {"arpa2arpa", {{'t', "tabs", 0}}},
      {"arpasize", {{'S', "simple", 0}, {'a', "arpa", 0}}},
      {"check_model", {{'a', "arpa", 0}, {'d', "datafile", 0}, {'f', "freegram", 0}}},
      {"add_zeroprob_grams", {{'s', "smallvocab", 0}}}};
  static const std::vector<Opt> none;
  auto i = t.find(tool);
  return i == t.end() ? none : i->second;
}
struct Item { const Opt *o; std::string val; };
static bool take_apart(const std::vector<std::string> &a, std::vector<Item> &items, std::vector<std::string> &pos) {
  const auto &os = options(a[0]);
  for (size_t i = 1; i < a.size(); i++) {
    if (a[i].size() != 2 || a[i][0] != '-') {
      if (a[i].size() > 1 && a[i][0] == '-') return false;
      pos.push_back(a[i]);
      continue;
    }
    const Opt *o = nullptr;
    for (auto &x : os)
      if (x.s == a[i][1]) o = &x;
    if (!o || (o->v && i + 1 == a.size())) return false;
    items.push_back({o, o->v ? a[++i] : std::string()});
  }
  return true;
}
static std::vector<std::string> respell(Rng &r, const std::string &tool, std::vector<Item> items, std::vector<std::string> pos) {
  // another order; of one option given twice the last value counts
  std::vector<Item> last;
  for (auto &x : items) {
    auto i = std::find_if(last.begin(), last.end(), [&](const Item &y) { return y.o == x.o; });
    if (i != last.end()) *i = x;
    else last.push_back(x);
  }
  for (size_t i = last.size(); i > 1; i--) std::swap(last[i - 1], last[r.below(i)]);
  items.clear();
  for (auto &x : last) {
    static const char *odd[] = {"elsewhere", "-1", "a=b", "--", "--help", "-h", "0.5", "", "="}; // all of them values here
    if (r.chance(0.15)) items.insert(items.begin() + r.below(items.size() + 1), Item{x.o, x.o->v ? odd[r.below(9)] : ""});
    items.push_back(x);
  }
  // units of arguments that must stay together
  std::vector<std::vector<std::string>> units;
  for (size_t i = 0; i < items.size(); i++) {
    const Item &x = items[i];
    int form = r.below(x.o->v ? 4 : 3);
    if (form == 1) {
      units.push_back({std::string("--") + x.o->l});
      if (x.o->v) units.back().push_back(x.val);
    } else if (form == 3)
      units.push_back({std::string("--") + x.o->l + "=" + x.val});
    else if (form == 0) { // a group
      std::vector<std::string> u{"-"};
      size_t n = 1 + r.below(4);
      for (; i < items.size(); i++) {
        u[0] += items[i].o->s;
        if (items[i].o->v) u.push_back(items[i].val);
        if (!--n || i + 1 == items.size()) break;
      }
      units.push_back(u);
    } else {
      units.push_back({std::string("-") + x.o->s});
      if (x.o->v) units.back().push_back(x.val);
    }
  }
  bool dashes = r.chance(0.2);
  if (dashes) units.push_back({"--"});
  size_t k = dashes || r.chance(0.4) ? units.size() : r.below(units.size() + 1);
  std::vector<std::string> a{tool};
  size_t p = 0;
  for (size_t i = 0; i <= units.size(); i++) {
    if (i >= k)
      while (p < pos.size() && (i == units.size() || r.chance(0.6))) a.push_back(pos[p++]);
    if (i < units.size()) a.insert(a.end(), units[i].begin(), units[i].end());
  }
  return a;
}
// a wrong command line; kind: what is wrong with it
static std::vector<std::string> spoil(Rng &r, const std::string &tool, std::vector<Item> items, std::vector<std::string> pos, std::string &kind) {
  const auto &os = options(tool);
  int k = r.below(5);
  std::vector<std::string> a;
  if (k == 0) {
    static const char *no[] = {"-Y", "--nosuch", "--norde", "--arpa-", "-5", "--nosuch=3"};
    kind = "unknown option";
    a = respell(r, tool, items, pos);
    a.insert(a.begin() + 1, no[r.below(6)]);
    return a;
  }
  if (k == 1) { kind = "number of arguments"; if (pos.size()) pos.pop_back(); return respell(r, tool, items, pos); }
  if (k == 2) { kind = "number of arguments"; pos.push_back("too.many"); return respell(r, tool, items, pos); }
  std::vector<const Opt *> vs, ns;
  for (auto &o : os) {
    if (o.v) vs.push_back(&o);
    if ((o.v == 'i' || o.v == 'f' || o.v == 'l') && !(tool == "perplexity" && o.s == 'I')) ns.push_back(&o);
  }
  if (k == 3 && !vs.empty()) {
    kind = "missing value";
    const Opt *o = vs[r.below(vs.size())];
    a = {tool};
    for (auto &x : items)
      if (x.o != o) { a.push_back(std::string("-") + x.o->s); if (x.o->v) a.push_back(x.val); }
    a.insert(a.end(), pos.begin(), pos.end());
    a.push_back(r.chance(0.5) ? std::string("-") + o->s : std::string("--") + o->l);
    return a;
  }
  if (!ns.empty()) {
    kind = "no number";
    const Opt *o = ns[r.below(ns.size())];
    static const char *bad[] = {"3x", "x", "--", "2,5", "0x", "1 2"}, *big[] = {"4294967299", "-4294967293", "99999999999999999999", "8589934592"};
    std::vector<Item> it;
    for (auto &x : items)
      if (x.o != o) it.push_back(x);
    std::string v = bad[r.below(o->v == 'l' ? 4 : 6)];
    if (o->v == 'i' && r.chance(0.4)) v = big[r.below(4)];
    it.push_back({o, v});
    if (v == "--") { // only as the argument of a single option
      a = {tool};
      for (auto &x : it) { a.push_back(std::string("-") + x.o->s); if (x.o->v) a.push_back(x.val); }
      a.insert(a.end(), pos.begin(), pos.end());
      return a;
    }
    return respell(r, tool, it, pos);
  }
  kind = "number of arguments";
  pos.push_back("too.many");
  return respell(r, tool, items, pos);
}
Verdict check_c20(const Plan &p) {
  Verdict v;
  if (p.procs.size() < 2) return v;
  const ProcSpec &q0 = p.procs[0], &q = p.procs[1];
  auto outs = outs_parse(p.get("outs"));
  std::string wrong = p.get("wrong");
  auto fail = [&](const std::string &cls, const std::string &d) {
    v.bad = true;
    v.cls = cls;
    v.detail = join(q0.argv) + " / " + join(q.argv) + ": " + d;
    v.sig = q.argv[0] + "/" + cls;
    return v;
  };
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.state = q.argv[0] + " " + (wrong.empty() ? "respelled" : wrong) + (any_fired(r) ? " " + fired_text(r) : "") + " -> " + how_text(r);
  if (!wrong.empty()) {
    v.nontrivial = true;
    if (r.ok()) return fail("wrong-command-accepted", "ends well in spite of the " + wrong);
    std::string d;
    if (wrong != "no number" && !fs_equal(p.files, r.fs, &d)) return fail("refused-but-acted", "refused for the " + wrong + ", but: " + d);
    return v;
  }
  const ProcResult &b = base_run(p.files, q0);
  if (undecided(v, b)) return v;
  if (!r.ok() && any_fired(r)) { v.nontrivial = true; return v; }
  if (r.ok() != b.ok()) return fail("spelling-matters", std::string(b.ok() ? "refused" : "accepted") + " in the other spelling: " + (b.ok() ? r : b).describe());
  if (!r.ok()) return v;
  v.nontrivial = true;
  std::string d;
  if (!fs_equal(b.fs, r.fs, &d) || (stdout_is_output(outs) && r.out != b.out) || (q.argv[0] == "check_model" && r.err != b.err))
    return fail("spelling-matters", "the results differ: " + (d.empty() ? std::string("report") : d));
  return v;
}
void explore_c20(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  assign_channels(r, s, r.below(4));
  Plan p = command_plan(s, gen_env(r));
  p.set("noargmin", "1");
  std::vector<Item> items;
  std::vector<std::string> pos;
  const std::vector<std::string> a = p.procs[0].argv;
  if (!take_apart(a, items, pos)) { probe("command line not understood"); return; }
  for (int k = 0; k < 4; k++) {
    if (ex.stop()) return;
    Plan q = p;
    q.procs.push_back(p.procs[0]);
    q.procs[1].env = gen_env(r);
    if (r.chance(0.3)) {
      std::string kind;
      q.procs[1].argv = spoil(r, a[0], items, pos, kind);
      q.set("wrong", kind);
    } else {
      q.procs[1].argv = respell(r, a[0], items, pos);
      if (r.chance(0.3)) {
        const ProcResult b = base_run(q.files, q.procs[1]);
        auto fl = r.chance(0.5) ? output_faults(r, b, outs_parse(p.get("outs")), 1) : input_faults(r, b, outs_parse(p.get("outs")), 1);
        keep_some(r, fl, 1);
        q.procs[1].faults = fl;
      }
    }
    ex.try_plan(q);
  }
}
} // namespace sim
