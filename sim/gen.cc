#include <sstream>
#include "gen.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
std::string raw_counts(const std::string &c, int n) { 
  std::string head = fmt("\\%d-gram counts\n", n), o;
  size_t at = c.find(head);
  if (at == std::string::npos) return "";
  std::istringstream in(c.substr(at + head.size()));
  std::string l;
  while (std::getline(in, l) && l[0] == '[') {
    size_t e = l.find(']');
    if (e == std::string::npos || e < 2) break;
    o += l.substr(2, e - 2) + l.substr(e + 2) + "\n";
  }
  return o;
}
std::string sq(const std::string &s) {
  std::string o = "'";
  for (char c : s)
    if (c == '\'') o += "'\\''";
    else o += c;
  return o + "'";
}
std::vector<std::string> tokens(const std::string &s) {
  std::vector<std::string> v;
  size_t i = 0;
  auto sp = [](unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (i < s.size()) {
    while (i < s.size() && sp(s[i])) i++;
    size_t b = i;
    while (i < s.size() && !sp(s[i])) i++;
    if (i > b) v.push_back(s.substr(b, i - b));
  }
  return v;
}
std::vector<std::string> distinct_words(const std::string &s) {
  std::vector<std::string> v;
  std::set<std::string> seen;
  for (auto &t : tokens(s))
    if (seen.insert(t).second) v.push_back(t);
  return v;
}
std::vector<std::string> gen_vocab(Rng &r, int n) {
  static const char *odd[] = {"\xc3\xa4iti", "\xe4", "#", "-", "\\data", "a-b", "1.5", "\\", "|", "<w>", "+lla", "lla+", "'", "\"x\"", "a=b", "%s", "^x", "y$", "0"};
  std::vector<std::string> v;
  std::set<std::string> seen;
  int style = r.below(4);
  while ((int)v.size() < n) {
    std::string w;
    if (style == 0) w = fmt("w%d", (int)v.size());
    else if (r.chance(0.06)) w = odd[r.below(sizeof odd / sizeof *odd)];
    else {
      int l = 1 + r.below(style == 1 ? 3 : 9);
      if (r.chance(0.004)) l = 100 + r.below(700);
      for (int i = 0; i < l; i++) w += (char)('a' + r.below(style == 1 ? 12 : 26));
    }
    if (seen.insert(w).second) v.push_back(w);
  }
  return v;
}
std::string gen_text(Rng &r, TextGen g) {
  if (g.vocab.empty()) {
    int n = r.chance(0.1) ? 2 + r.below(3) : r.chance(0.1) ? 200 + r.below(800) : 5 + r.below(60);
    g.vocab = gen_vocab(r, n);
  }
  int V = g.vocab.size();
  if (!g.lines) g.lines = r.chance(0.08) ? 1 + r.below(3) : r.chance(0.1) ? 100 + r.below(300) : 8 + r.below(60);
  double skew = 0.6 + r.unit() * 2.0;
  int markov = r.below(3); // repeat structure
  std::string o;
  bool onebig = r.chance(0.07);
  bool odd_ws = r.chance(0.15);
  bool blanks = r.chance(0.3);
  auto word = [&](int prev) {
    if (markov && prev >= 0 && r.chance(0.55)) return (int)((prev * 7 + 1 + r.below(markov == 1 ? 2 : 4)) % V);
    double u = r.unit();
    return std::min(V - 1, (int)(V * std::pow(u, skew + 1)));
  };
  for (int i = 0; i < g.lines; i++) {
    int n = g.words ? g.words : r.chance(0.05) ? 0 : 1 + r.below(r.chance(0.1) ? 60 : 12);
    std::string l;
    if (g.tags) l += "<s> ";
    int prev = -1;
    for (int j = 0; j < n; j++) {
      prev = word(prev);
      l += g.vocab[prev];
      if (odd_ws && r.chance(0.1)) l += r.chance(0.5) ? "  " : "\t";
      else if (j + 1 < n || g.tags || r.chance(0.1)) l += " ";
    }
    if (g.tags) l += "</s>";
    o += l;
    o += onebig ? " " : "\n";
    if (blanks && r.chance(0.1)) o += "\n";
  }
  if (r.chance(0.2) && !o.empty() && o.back() == '\n') o.pop_back();
  if (g.long_tokens && r.chance(0.5)) o += " " + std::string(300 + r.below(690), 'L') + "\n";
  return o;
}

// ---------------------------------------------------------------- models
static std::string num(Rng &r, double x, int style) {
  if (x == 0 && r.chance(0.5)) return r.chance(0.5) ? "0" : "-0";
  char b[64];
  switch (style) {
  case 0: snprintf(b, sizeof b, "%.4f", x); break;
  case 1: snprintf(b, sizeof b, "%g", x); break;
  case 2: snprintf(b, sizeof b, "%.7g", x); break;
  default: snprintf(b, sizeof b, "%e", x);
  }
  return b;
}
std::vector<std::string> wide_words(Rng &r, std::vector<std::string> &some) {
  int V = r.chance(0.5) ? 65530 + (int)r.below(12) : 65000 + (int)r.below(1200);
  std::vector<std::string> w;
  for (int i = 1; i <= V; i++) w.push_back(fmt("v%d", i));
  int n = 2 + r.below(6);
  for (int i = 0; i < n; i++) {
    int k = r.chance(0.4) ? (int)r.below(V) : (int)r.below(std::min(V, 8)); // one end, and the other
    some.push_back(w[k]);
    some.push_back(w[V - 1 - k]);
  }
  return w;
}
ModelFile wide_model(Rng &r, int want) {
  ModelFile m;
  m.interp = (want & M_INTERP) && (!(want & M_BACKOFF) || r.chance(0.4));
  m.words = wide_words(r, m.some);
  if (r.chance(0.8)) m.words.insert(m.words.begin(), "<UNK>");
  m.order = 2;
  std::set<std::pair<std::string, std::string>> two;
  int n = 2 + r.below(30);
  for (int i = 0; i < n; i++) two.insert({r.pick(m.some), r.pick(m.some)});
  std::set<std::string> ctx;
  for (auto &t : two) ctx.insert(t.first);
  std::string &o = m.arpa;
  if (m.interp) o += "\\interpolated\n";
  o += fmt("\\data\\\nngram 1=%d\nngram 2=%d\n\n\\1-grams:\n", (int)m.words.size(), (int)two.size());
  std::set<std::string> own(m.some.begin(), m.some.end());
  for (auto &w : m.words) {
    o += own.count(w) ? fmt("-%.4f\t", 1 + 4 * r.unit()) : "-5.1\t";
    o += w;
    if (ctx.count(w)) o += fmt("\t-%.4f", 0.05 + r.unit());
    o += "\n";
  }
  o += "\n\\2-grams:\n";
  for (auto &t : two) o += fmt("-%.4f\t", 0.2 + 2 * r.unit()) + t.first + " " + t.second + "\n";
  o += "\\end\\\n";
  m.tree = true;
  return m;
}
ModelFile synth_model(Rng &r, int want) {
  ModelFile m;
  m.interp = (want & M_INTERP) && (!(want & M_BACKOFF) || r.chance(0.4));
  m.tree = !(want & M_FREE) || r.chance(0.3);
  if (want & M_TREE) m.tree = true;
  m.order = r.chance(0.1) ? 1 : r.chance(0.15) ? 4 + r.below(3) : 2 + r.below(2);
  int V = r.chance(0.1) ? 1 + r.below(3) : r.chance(0.1) ? 60 + r.below(300) : 4 + r.below(20);
  if (want & M_SMALL) V = std::min(V, 8);
  m.words = gen_vocab(r, V);
  bool unk = (want & M_UNK) || r.chance(0.85);
  bool tags = r.chance(0.5);
  if (tags) { m.words.push_back("<s>"); m.words.push_back("</s>"); }
  if (unk) m.words.insert(m.words.begin() + (r.chance(0.7) ? 0 : r.below(m.words.size() + 1)), "<UNK>");
  V = m.words.size();
  typedef std::vector<int> G;
  std::vector<std::set<G>> grams(m.order + 1);
  for (int i = 0; i < V; i++) grams[1].insert(G{i});
  for (int o = 2; o <= m.order; o++) {
    int n = 1 + r.below((want & M_SMALL) ? 12 : r.chance(0.1) ? 400 : 40);
    for (int k = 0; k < n; k++) {
      G g;
      if (r.chance(0.7) && !grams[o - 1].empty()) {
        auto it = grams[o - 1].begin();
        std::advance(it, r.below(std::min<size_t>(grams[o - 1].size(), 200)));
        g = *it;
        g.push_back(r.below(V));
      } else
        for (int i = 0; i < o; i++) g.push_back(r.below(V));
      if (m.tree) {
        // all prefixes must be there
        for (int l = o; l >= 2; l--) grams[l].insert(G(g.begin(), g.begin() + l));
      } else
        grams[o].insert(g);
    }
  }
  int style = r.below(4);
  bool tabs = r.chance(0.5), crlf = false, blank = r.chance(0.3), shuffle = r.chance(0.4);
  bool posbow = r.chance(0.25), leafbow = r.chance(0.35);
  std::string &o = m.arpa;
  if (r.chance(0.15)) o += "some comment line\n\n";
  if (m.interp) o += "\\interpolated\n";
  (void)crlf;
  o += "\\data\\\n";
  for (int l = 1; l <= m.order; l++) o += fmt("ngram %d=%d\n", l, (int)grams[l].size());
  for (int l = 1; l <= m.order; l++) {
    o += (blank && r.chance(0.3)) ? "\n\n" : "\n";
    o += fmt("\\%d-grams:\n", l);
    std::vector<G> v(grams[l].begin(), grams[l].end());
    if (shuffle && l > 1)
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    std::set<G> ctx;
    if (l < m.order)
      for (auto &g : grams[l + 1]) ctx.insert(G(g.begin(), g.end() - 1));
    for (auto &g : v) {
      double lp = -0.05 - r.unit() * (r.chance(0.1) ? 8 : 3);
      if (l == 1 && m.words[g[0]] == "<s>" && !m.interp && r.chance(0.5)) lp = -99;
      if (m.interp && l > 1) lp -= 1;
      o += num(r, lp, style) + (tabs ? "\t" : " ");
      for (int i = 0; i < l; i++) o += (i ? " " : "") + m.words[g[i]];
      bool isctx = ctx.count(g);
      if (l < m.order && (isctx || (leafbow && r.chance(0.3)))) {
        double bo = r.chance(0.1) ? 0 : -r.unit() * 2;
        if (posbow && !m.interp && r.chance(0.2)) bo = r.unit() * 0.5;
        if (bo != 0 || r.chance(0.6)) o += (tabs ? "\t" : " ") + num(r, bo, style);
      }
      if (r.chance(0.02)) o += " ";
      o += "\n";
    }
  }
  o += (r.chance(0.8) ? "\n\\end\\" : "\\end\\");
  if (r.chance(0.9)) o += "\n";
  m.origin = "synthetic";
  return m;
}

static Env plain_env() { return Env(); }
static std::map<uint64_t, ModelFile> &pool() { static std::map<uint64_t, ModelFile> p; return p; }

static bool tool(const Fs &fs, std::vector<std::string> argv, const std::string &out, std::string &data) {
  ProcSpec s;
  s.argv = argv;
  s.env = plain_env();
  ProcResult r = run_process(fs, s);
  if (!r.ok() || !r.fs.count(out)) return false;
  data = r.fs[out];
  return true;
}
static ModelFile build_model(uint64_t id) {
  Rng r(id * 77777 + 5);
  ModelFile m;
  int kind = id % 5;
  if (kind >= 3) { // synthetic, both representable as a tree and not
    m = synth_model(r, (kind == 4 ? M_TREE : M_FREE) | M_BACKOFF | M_INTERP | M_UNK | (r.chance(0.3) ? M_SMALL : 0));
  } else {
    TextGen tg;
    tg.tags = r.chance(0.5);
    std::string text = gen_text(r, tg);
    Fs fs;
    fs["t"] = text;
    int n = 1 + r.below(4);
    std::vector<std::string> a;
    bool nar = r.chance(0.4);
    if (r.chance(0.7)) a = {"counts2kn", "-n", std::to_string(n), "-H", "500"};
    else a = {"varigram_kn", "-n", std::to_string(n + 1), "-D", "0.1", "-H", "500"};
    a.push_back(nar ? "-x" : "-a");
    if (r.chance(0.3)) a.push_back("-3");
    if (r.chance(0.3)) { a.push_back("-f"); a.push_back(std::to_string(3 + r.below(20))); }
    a.push_back("t");
    a.push_back("lm");
    if (!tool(fs, a, "lm", m.arpa) || m.arpa.find("\\end\\") == std::string::npos) {
      m = synth_model(r, M_TREE | M_BACKOFF | M_INTERP | M_UNK);
    } else {
      m.origin = join(a);
      m.interp = m.arpa.compare(0, 13, "\\interpolated") == 0;
      m.words = distinct_words(text);
      m.words.push_back("<UNK>");
      m.order = 0;
      for (int o = 1; o < 9; o++)
        if (m.arpa.find(fmt("\n\\%d-grams:", o)) != std::string::npos) m.order = o;
      m.tree = true;
    }
  }
  Fs fs;
  fs["lm"] = m.arpa;
  if (m.tree && !tool(fs, {"arpa2bin", "lm", "o"}, "o", m.bin)) {
    m.bin.clear();
    m.tree = false;
  }
  return m;
}
const ModelFile &gen_model(Rng &r, int want) {
  auto &p = pool();
  const ModelFile *any = nullptr;
  for (int i = 0; i < 400; i++) {
    uint64_t id = r.below(r.chance(0.4) ? 60 : i < 200 ? 500 : 1000);
    auto it = p.find(id);
    if (it == p.end()) it = p.emplace(id, build_model(id)).first;
    const ModelFile &m = it->second;
    any = &m;
    if ((want & (M_TREE | M_BIN)) && (!m.tree || m.bin.empty())) continue;
    if ((want & M_FREE) && m.tree) continue;
    if ((want & M_BACKOFF) && !(want & M_INTERP) && m.interp) continue;
    if ((want & M_INTERP) && !(want & M_BACKOFF) && !m.interp) continue;
    if ((want & M_SMALL) && m.words.size() > 30) continue;
    return m;
  }
  return *any;
}
const std::string &pool_text(Rng &r) {
  static std::map<uint64_t, std::string> p;
  uint64_t id = r.below(r.chance(0.3) ? 20 : 1000);
  auto it = p.find(id);
  if (it == p.end()) {
    Rng q(id * 991 + 3);
    TextGen g;
    g.tags = q.chance(0.5);
    g.long_tokens = q.chance(0.1);
    it = p.emplace(id, gen_text(q, g)).first;
  }
  return it->second;
}

// ---------------------------------------------------------------- command lines
static std::string S(int i) { return std::string("\x01") + (char)('0' + i); }
static int add_slot(Scenario &s, char dir, const std::string &stem, const std::string &data, bool std_ok, bool opt) {
  Slot x;
  x.dir = dir; x.stem = stem; x.data = data; x.std_ok = std_ok; x.opt = opt;
  s.slots.push_back(x);
  return s.slots.size() - 1;
}
static std::string cutoffs(Rng &r) {
  static const char *c[] = {"0 0 1", "0 1 1", "1 1 2", "0 1 2", "0 1", "0 2", "0 0 2", "0 0 3 1", "2", "0 3 1"};
  return c[r.below(10)];
}
std::string list_file(const std::vector<std::string> &w) {
  std::string o;
  for (auto &x : w) o += x + "\n";
  return o;
}
std::vector<std::string> some_words(Rng &r, const std::vector<std::string> &w, double p) {
  std::vector<std::string> v;
  for (auto &x : w)
    if (r.chance(p)) v.push_back(x);
  if (v.empty() && !w.empty()) v.push_back(w[0]);
  return v;
}
std::string CmdGen::in(const std::string &n, const std::string &d, bool std_ok, bool opt) { return S(add_slot(s, 'i', n, d, std_ok, opt)); }
std::string CmdGen::out(const std::string &n, bool opt) { return S(add_slot(s, 'o', n, "", true, opt)); }
bool CmdGen::flag(double p, const char *f) {
  if (!r.chance(p)) return false;
  s.argv.push_back(f);
  return true;
}
bool CmdGen::val(double p, const char *f, const std::string &v) {
  if (!flag(p, f)) return false;
  s.argv.push_back(v);
  return true;
}
static std::string kind_name(const Slot &x) {
  char k = x.chan == 'S' ? '-' : (x.chan == 'G' || x.chan == 'Z') ? 'g' : x.chan == 'B' ? 'b' : 'f';
  return std::string(1, k) + ":" + x.file;
}
std::string slots_text(const Scenario &s) {
  std::string o;
  for (auto &x : s.slots) o += x.stem + " " + x.dir + " " + kind_name(x) + "\n";
  return o;
}
static bool slot_find(const Plan &p, const std::string &stem, char dir, OutRef &o) {
  const std::string t = p.get("slots");
  for (size_t i = 0; i < t.size();) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    std::string head = stem + " " + dir + " ";
    if (l.compare(0, head.size(), head) == 0 && l.size() >= head.size() + 2) {
      o = OutRef{l[head.size()], l.substr(head.size() + 2)};
      return true;
    }
  }
  return false;
}
bool slot_input(const Plan &p, int proc, const std::string &stem, std::string &data) {
  OutRef o;
  if (!slot_find(p, stem, 'i', o)) return false;
  if (o.kind == '-') { data = p.procs[proc].stdin_data; return true; }
  auto i = p.files.find(o.name);
  if (i == p.files.end()) return false;
  if (o.kind == 'f') { data = i->second; return true; }
  return dec(i->second, o.kind, data);
}
bool slot_output(const Plan &p, const ProcResult &r, const std::string &stem, std::string &data) {
  OutRef o;
  return slot_find(p, stem, 'o', o) && out_content(o, r, data);
}
Scenario gen_scenario(Rng &r, int tools) {
  std::vector<int> t;
  for (int b = 1; b <= 512; b <<= 1)
    if (tools & b) {
      t.push_back(b);
      if (b & (T_COUNTS | T_VARI | T_PERP)) { t.push_back(b); t.push_back(b); }
    }
  int k = t[r.below(t.size())];
  Scenario s;
  auto &a = s.argv;
  auto in = [&](const char *n, const std::string &d, bool std_ok = false, bool opt = false) { return S(add_slot(s, 'i', n, d, std_ok, opt)); };
  auto out = [&](const char *n, bool opt = false) { return S(add_slot(s, 'o', n, "", true, opt)); };
  auto flag = [&](double p, const char *f) { if (r.chance(p)) { a.push_back(f); return true; } return false; };
  auto val = [&](double p, const char *f, const std::string &v) { if (r.chance(p)) { a.push_back(f); a.push_back(v); return true; } return false; };
  switch (k) {
  case T_COUNTS: {
    s.tool = "counts2kn";
    const std::string text = pool_text(r);
    int n = 1 + r.below(4);
    a = {"counts2kn"};
    int mode = r.below(12); // 0: counts input
    val(0.97, "-H", std::to_string(50 + r.below(3000)));
    a.push_back("-n"); a.push_back(std::to_string(n));
    int f = r.below(3);
    if (f == 1) a.push_back("-a");
    if (f == 2) a.push_back("-x");
    flag(0.3, "-3");
    flag(0.25, "-s");
    flag(0.25, "-L");
    flag(0.2, "-C");
    flag(0.1, "-A");
    if (val(0.3, "-p", fmt("%.3g", 0.001 * std::pow(10, r.unit() * 3)))) flag(0.3, "-r");
    else if (val(0.25, "-O", cutoffs(r))) flag(0.3, "-D");
    flag(0.1, "-N");
    val(0.2, "-f", std::to_string(2 + r.below(30)));
    val(0.15, "-d", std::to_string(1 + r.below(3)));
    if (r.chance(0.2)) { a.push_back("-B"); a.push_back(in("voc", list_file(some_words(r, distinct_words(text), 0.7)), true, true)); }
    if (r.chance(0.25)) { a.push_back("-o"); a.push_back(in("opti", r.chance(0.2) ? text : pool_text(r), false, true)); }
    if (r.chance(0.25)) { a.push_back("-W"); a.push_back(out("cnt", true)); }
    if (r.chance(0.25)) { a.push_back("-U"); a.push_back(out("vout", true)); }
    if (mode == 0) { // train from a counts file written before
      Fs fs;
      fs["t"] = text;
      ProcSpec q;
      q.argv = {"counts2kn", "-n", std::to_string(n), "-H", "500", "-W", "c", "-U", "v", "t", "m"};
      const ProcResult &b = base_run(fs, q);
      if (b.ok() && b.fs.count("c") && b.fs.count("v")) {
        std::string c = b.fs.at("c"), v = b.fs.at("v");
        s = Scenario();
        s.tool = "counts2kn";
        bool raw = r.chance(0.3) && !raw_counts(c, n).empty();
        if (raw && r.chance(0.9)) c = raw_counts(c, n);
        a = {"counts2kn", raw ? "-Z" : "-c", "-n", std::to_string(n), "-H", std::to_string(50 + r.below(1000)), "-B", in("voc", v, true, true)};
        if (r.chance(0.5)) a.push_back(r.chance(0.5) ? "-a" : "-x");
        a.push_back(in("cnts", c));
        a.push_back(out("lm"));
        s.slots.back().model = true;
        break;
      }
    }
    a.push_back(in("txt", text));
    a.push_back(out("lm"));
    s.slots.back().model = true;
    break;
  }
  case T_VARI: {
    s.tool = "varigram_kn";
    const std::string text = pool_text(r);
    a = {"varigram_kn", "-H", std::to_string(50 + r.below(3000))};
    val(0.8, "-n", std::to_string(2 + r.below(3)));
    a.push_back("-D"); a.push_back(fmt("%.3g", 0.002 * std::pow(10, r.unit() * 3)));
    val(0.3, "-E", fmt("%.3g", 0.05 * std::pow(10, r.unit() * 2)));
    int f = r.below(3);
    if (f == 1) a.push_back("-a");
    if (f == 2) { a.push_back("-x"); flag(0.3, "-Z"); }
    flag(0.3, "-3");
    flag(0.2, "-s");
    flag(0.2, "-L");
    flag(0.25, "-S");
    flag(0.2, "-C");
    flag(0.1, "-A");
    flag(0.1, "-N");
    val(0.2, "-O", cutoffs(r));
    val(0.2, "-f", std::to_string(2 + r.below(30)));
    val(0.1, "-d", std::to_string(1 + r.below(3)));
    val(0.1, "-F", "0.5");
    val(0.1, "-V", std::to_string(40 + r.below(200)));
    if (r.chance(0.2)) { a.push_back("-B"); a.push_back(in("voc", list_file(some_words(r, distinct_words(text), 0.7)), false, true)); }
    if (r.chance(0.2)) { a.push_back("-o"); a.push_back(in("opti", r.chance(0.2) ? text : pool_text(r), false, true)); }
    if (r.chance(0.25)) { a.push_back("-W"); a.push_back(out("cnt", true)); }
    if (r.chance(0.25)) { a.push_back("-U"); a.push_back(out("vout", true)); }
    a.push_back(in("txt", text));
    a.push_back(out("lm"));
    s.slots.back().model = true;
    break;
  }
  case T_PERP: {
    s.tool = "perplexity";
    a = {"perplexity"};
    bool free = r.chance(0.4), inter = r.chance(0.2);
    int want = M_BACKOFF | M_INTERP;
    if (!free) want |= M_TREE;
    const ModelFile &m = gen_model(r, want);
    TextGen g;
    g.vocab = m.words;
    if (g.vocab.size() > 400) g.vocab.resize(400);
    for (int i = 0; i < 2; i++) g.vocab.push_back(fmt("oov%d", i));
    g.tags = r.chance(0.4);
    g.lines = 1 + r.below(12);
    std::string text = gen_text(r, g);
    if (free) {
      a.push_back("-f");
      flag(0.3, "-s");
    }
    if (!free && !inter && !m.bin.empty() && r.chance(0.4)) { a.push_back("-A"); a.push_back(in("lm", m.bin, true)); }
    else { a.push_back("-a"); a.push_back(in("lm", m.arpa, !inter)); }
    if (inter) {
      const ModelFile &m2 = gen_model(r, want);
      a.push_back("-i"); a.push_back(in("lm2", m2.arpa, false, true));
      val(0.7, "-I", fmt("%.2f", r.unit()));
    }
    bool ccs = r.chance(0.2);
    if (ccs) { a.push_back("-C"); a.push_back(in("ccs", list_file(some_words(r, m.words, 0.15)), true, true)); }
    int wb = r.below(4);
    if (wb == 1) { a.push_back("-W"); a.push_back(in("wb", list_file(some_words(r, m.words, 0.3)), true, true)); }
    if (wb == 2) { a.push_back("-X"); a.push_back(in("mb", r.chance(0.5) ? "^+\n" : "^a\nb$\n+$\n", true, true)); }
    if (!ccs) val(0.15, "-t", std::to_string(1 + r.below(3)));
    flag(0.3, "-U");
    flag(0.4, "-o");
    if (r.chance(0.7)) { a.push_back("-S"); a.push_back(out("ps", true)); }
    a.push_back(in("test", text, true));
    a.push_back(out("res"));
    break;
  }
  case T_A2B: case T_A2A: {
    const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP | M_TREE);
    s.tool = k == T_A2B ? "arpa2bin" : "arpa2arpa";
    a = {s.tool};
    if (k == T_A2A) flag(0.4, "-t");
    a.push_back(in("in", m.arpa, true));
    a.push_back(out("lm"));
    s.slots.back().model = true;
    break;
  }
  case T_B2A: {
    const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP | M_BIN);
    s.tool = "bin2arpa";
    a = {s.tool, in("in", m.bin, true), out("lm")};
    s.slots.back().model = true;
    break;
  }
  case T_SIZE: {
    const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP | M_BIN);
    s.tool = "arpasize";
    a = {s.tool};
    if (r.chance(0.6)) {
      a.push_back("-a");
      flag(0.5, "-S");
      a.push_back(in("in", m.arpa, true));
    } else
      a.push_back(in("in", m.bin, true));
    a.push_back(out("sz"));
    break;
  }
  case T_CHECK: {
    bool free = r.chance(0.3);
    const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP | M_SMALL | (free ? 0 : M_TREE));
    TextGen g;
    g.vocab = m.words;
    g.lines = 1 + r.below(2);
    std::string text = gen_text(r, g);
    s.tool = "check_model";
    a = {s.tool};
    if (free) { a.push_back("-f"); a.push_back("-a"); a.push_back("-d"); }
    else {
      flag(0.7, "-d");
      if (m.bin.empty() || r.chance(0.5)) a.push_back("-a");
    }
    bool arpa = false;
    for (auto &x : a) arpa |= x == "-a";
    a.push_back(in("lm", arpa ? m.arpa : m.bin, true));
    a.push_back(in("test", text, true));
    break;
  }
  case T_ZERO: {
    const ModelFile &m = gen_model(r, M_BACKOFF | M_INTERP);
    s.tool = "add_zeroprob_grams";
    a = {s.tool};
    flag(0.3, "-s");
    a.push_back(in("in", m.arpa, true));
    a.push_back(out("lm"));
    s.slots.back().model = true;
    break;
  }
  case T_INTER: {
    int n = 2 + r.below(2);
    s.tool = "simpleinterpolate2arpa";
    std::string spec;
    for (int i = 0; i < n; i++) {
      const ModelFile &m = gen_model(r, M_BACKOFF);
      std::string sl = in(("m" + std::to_string(i)).c_str(), m.arpa, false);
      s.slots.back().pipe_ok = true;
      spec += (i ? ";" : "") + sl + "," + fmt("%.2f", 0.1 + 0.9 * r.unit() / n);
    }
    a = {s.tool, spec, out("lm")};
    s.slots.back().model = true;
    break;
  }
  }
  return s;
}

void assign_channels(Rng &r, Scenario &s, int what) {
  static const char *odd[] = {" ", "'", "\"", "$HOME", ";x", "&", "*", "(a)", "`b`", "\\", "a  b", "#", "~", "<x>", "\xc3\xa4", "?", "!", "it's", "-", "'>x'", "' x '", "';x;'"};
  bool used_in = false, used_out = false, inter = s.tool == "simpleinterpolate2arpa";
  bool names = (what & 4) && r.chance(0.6);
  for (auto &x : s.slots) {
    x.chan = 'P';
    x.file.clear();
    bool vary = x.dir == 'i' ? (what & 1) : (what & 2);
    if (vary && !r.chance(0.3)) {
      const char *c = x.pipe_ok ? "GBCZS" : "GBS";
      x.chan = c[r.below(strlen(c))];
      if (x.chan == 'S') {
        bool &u = x.dir == 'i' ? used_in : used_out;
        if (!x.std_ok || u || (x.dir == 'o' && inter)) x.chan = 'G';
        else u = true;
      }
    }
    std::string stem = x.stem + (x.dir == 'i' ? ".in" : ".out");
    if (names && r.chance(0.7)) {
      std::string o = odd[r.below(sizeof odd / sizeof *odd)];
      if (!(inter && x.dir == 'i' && o.find_first_of(";,") != std::string::npos) && !(o == "-" && false))
        stem = x.stem + o + (x.dir == 'i' ? "in" : "out");
      if (r.chance(0.1)) stem = o.substr(0, 1) == "-" || o == "|" ? stem : o + x.stem;
      if (inter && x.dir == 'i' && stem.find_first_of(";,") != std::string::npos) stem = x.stem + ".in";
    }
    if (x.chan == 'G' || x.chan == 'Z') stem += ".gz";
    if (x.chan == 'B') stem += ".bz2";
    if (x.chan != 'S') x.file = stem;
  }
}
void render(const Scenario &s, Fs &fs, ProcSpec &p) {
  p.argv.clear();
  for (auto a : s.argv) {
    std::string o;
    for (size_t i = 0; i < a.size(); i++)
      if (a[i] == 1 && i + 1 < a.size()) {
        const Slot &x = s.slots[a[++i] - '0'];
        switch (x.chan) {
        case 'C': o += x.dir == 'i' ? "cat " + sq(x.file) + " |" : "| cat > " + sq(x.file); break;
        case 'Z': o += x.dir == 'i' ? "gzip -dc " + sq(x.file) + " |" : "| gzip > " + sq(x.file); break;
        case 'S': o += "-"; break;
        default: o += x.file;
        }
      } else
        o += a[i];
    p.argv.push_back(o);
  }
  for (auto &x : s.slots)
    if (x.dir == 'i') {
      switch (x.chan) {
      case 'G': case 'Z': fs[x.file] = enc(x.data, 'g'); break;
      case 'B': fs[x.file] = enc(x.data, 'b'); break;
      case 'S': p.has_stdin = true; p.stdin_data = x.data; break;
      default: fs[x.file] = x.data;
      }
    }
}
Env gen_env(Rng &r) {
  Env e;
  e.seed = r.next() >> 20;
  e.rchunk = r.below(3) == 0 ? 0 : r.below(2) ? 1 : 1 + (int)std::pow(2, 1 + r.below(12));
  e.wchunk = r.below(3) == 0 ? 0 : r.below(2) ? 1 : 1 + (int)std::pow(2, 1 + r.below(12));
  static const int bs[] = {4096, 4096, 0, 0, 64, 512, 65536, 1};
  e.bufsize = bs[r.below(8)];
  e.fill = r.below(4);
  e.sigpipe_ignored = r.chance(0.3);
  e.crash_children = r.below(2);
  static const int ps[] = {65536, 4096, 0, 100};
  e.pipe_slack = ps[r.below(4)];
  return e;
}
std::string outs_text(const Scenario &s) {
  std::string o;
  for (auto &x : s.slots)
    if (x.dir == 'o') {
      char k = x.chan == 'S' ? '-' : (x.chan == 'G' || x.chan == 'Z') ? 'g' : x.chan == 'B' ? 'b' : 'f';
      o += std::string(1, k) + ":" + x.file + "\n";
    }
  return o;
}
std::vector<OutRef> outs_parse(const std::string &s) {
  std::vector<OutRef> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    if (e > i + 1) v.push_back(OutRef{s[i], s.substr(i + 2, e - i - 2)});
    i = e + 1;
  }
  return v;
}
bool stdout_is_output(const std::vector<OutRef> &o) {
  for (auto &x : o)
    if (x.kind == '-') return true;
  return false;
}
bool out_content(const OutRef &o, const ProcResult &r, std::string &data) {
  if (o.kind == '-') { data = r.out; return true; }
  auto i = r.fs.find(o.name);
  if (i == r.fs.end()) return false;
  if (o.kind == 'f') { data = i->second; return true; }
  return dec(i->second, o.kind, data);
}
} // namespace sim
