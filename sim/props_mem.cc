// C08 (failing allocations) and C14 (damaged model files): no memory is touched that is not owned.
#include "props.h"
#include "ref.h"
#include "train.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <csignal>
#include <sstream>

namespace sim {
// a way to end that corrupts nothing: an exit, or the defined abort after an uncaught exception
static std::string bad_end(const ProcResult &r) {
  if (!r.asan.empty()) {
    size_t i = r.asan.find("ERROR: AddressSanitizer");
    std::string t = r.asan.substr(i == std::string::npos ? 0 : i, 700);
    return "memory error: " + t;
  }
  if (!r.escape.empty()) return "escape: " + r.escape;
  if (r.how == ProcResult::SIGNALED && r.code != SIGABRT) return fmt("killed by signal %d", r.code);
  if (r.how == ProcResult::HUNG) return "no end";
  return "";
}
static std::string asan_kind(const ProcResult &r) {
  size_t i = r.asan.find("AddressSanitizer: ");
  if (i == std::string::npos) return r.how == ProcResult::HUNG ? "no-end" : "crash";
  i += 18;
  size_t e = i;
  while (e < r.asan.size() && (isalnum((unsigned char)r.asan[e]) || r.asan[e] == '-')) e++;
  return r.asan.substr(i, e - i);
}
// ================================================================ C08
Verdict check_c08(const Plan &p) {
  Verdict v;
  const ProcSpec &q = p.procs[0];
  auto outs = outs_parse(p.get("outs"));
  const ProcResult &b = base_run(p.files, q);
  if (undecided(v, b)) return v;
  if (!bad_end(b).empty()) { v.state = "base: " + bad_end(b).substr(0, 60); return v; } // not a matter of allocations
  ProcResult r = run_in(v, p.files, q);
  if (undecided(v, r)) return v;
  v.nontrivial = any_fired(r);
  v.state = q.argv[0] + " " + fired_text(r) + " -> " + how_text(r) + (r.how == ProcResult::EXITED ? "" : fmt(" %d", r.code));
  std::string e = bad_end(r), diff;
  if (!e.empty()) {
    v.bad = true;
    v.cls = asan_kind(r);
    v.detail = join(q.argv) + ": " + e + " (faults: " + fired_text(r) + ")";
  } else if (r.ok() && b.ok() && any_fired(r)) {
    bool out = stdout_is_output(outs);
    if (!fs_equal(b.fs, r.fs, &diff) || (out && r.out != b.out)) {
      v.bad = true;
      v.cls = "success-with-wrong-output";
      v.detail = join(q.argv) + " exits 0 after " + fired_text(r) + ", but " + (diff.empty() ? "its standard output differs" : diff);
    }
  } else if (r.ok() && !b.ok() && any_fired(r)) {
    v.bad = true;
    v.cls = "success-instead-of-error";
    v.detail = join(q.argv) + " exits 0 after " + fired_text(r) + ", with enough memory it " + b.describe();
  }
  if (v.bad) v.sig = q.argv[0] + "/" + v.cls;
  return v;
}
void explore_c08(Rng &r, Explorer &ex) {
  Scenario s = gen_scenario(r, T_ALL);
  for (auto &x : s.slots)
    if (x.dir == 'i' && x.data.size() > 4000 && (s.tool == "varigram_kn" || s.tool == "counts2kn") && x.stem == "txt") x.data.resize(4000);
  assign_channels(r, s, r.below(4));
  if (s.tool == "varigram_kn" && std::find(s.argv.begin(), s.argv.end(), "-n") == s.argv.end()) s.argv.insert(s.argv.begin() + 1, {std::string("-n"), "3"});
  Plan p = command_plan(s, gen_env(r));
  const ProcResult b = base_run(p.files, p.procs[0]);
  if (b.how != ProcResult::EXITED) { if (b.how == ProcResult::BROKEN) ex.try_plan(p); return; }
  if (!b.allocs) return;
  int64_t n = b.allocs;
  if (n <= 400 && r.chance(0.2)) {
    probe("every fault position of a command tried");
    for (int64_t i = 0; i < n && !ex.stop(); i++) {
      Plan q = p;
      q.procs[0].faults.push_back(mk(F_ALLOC_FAIL, "", i, 0, 0));
      ex.try_plan(q);
    }
    return;
  }
  for (int i = 0; i < 16 && !ex.stop(); i++) {
    Plan q = p;
    Fault f;
    int k = r.below(10);
    int64_t at = k < 2 ? r.below(std::min<int64_t>(n, 120)) : k == 2 ? n - 1 - r.below(std::min<int64_t>(n, 40)) : r.below(n);
    if (k == 9) f = mk(F_ALLOC_LIMIT, "", b.alloc_peak ? r.below(b.alloc_peak) : 1000);
    else f = mk(F_ALLOC_FAIL, "", at, 0, k == 8 ? 2 : r.chance(0.3) ? 1 : 0);
    q.procs[0].faults.push_back(f);
    ex.try_plan(q);
  }
}
// ================================================================ C14
// Storage damage, described in the plan: one line per change, applied to the whole file when the check runs.
//   flip POS BIT | set POS LEN BYTE | cut POS LEN | dup POS LEN TO | swap A B LEN | ins POS HEX | put POS HEX
static std::string unhex(const std::string &h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
static std::string hex(const std::string &s) {
  std::string o;
  for (unsigned char c : s) o += fmt("%02x", c);
  return o;
}
static std::string damage(const std::string &d0, const std::vector<std::string> &ops) {
  std::string d = d0;
  for (auto &o : ops) {
    char k[16] = "", h[4000] = "";
    long a = 0, b = 0, c = 0;
    sscanf(o.c_str(), "%15s", k);
    size_t n = d.size();
    std::string K = k;
    if (K == "flip" && sscanf(o.c_str(), "%*s %ld %ld", &a, &b) == 2) { if ((size_t)a < n) d[a] ^= 1 << (b & 7); }
    else if (K == "set" && sscanf(o.c_str(), "%*s %ld %ld %ld", &a, &b, &c) == 3) { for (long i = a; i < a + b && (size_t)i < n; i++) d[i] = (char)c; }
    else if (K == "cut" && sscanf(o.c_str(), "%*s %ld %ld", &a, &b) == 2) { if ((size_t)a < n) d.erase(a, b); }
    else if (K == "dup" && sscanf(o.c_str(), "%*s %ld %ld %ld", &a, &b, &c) == 3) { if ((size_t)a < n && (size_t)c <= n) d.insert(c, d.substr(a, b)); }
    else if (K == "swap" && sscanf(o.c_str(), "%*s %ld %ld %ld", &a, &b, &c) == 3) {
      if (a >= 0 && b >= 0 && (size_t)(a + c) <= n && (size_t)(b + c) <= n)
        for (long i = 0; i < c; i++) std::swap(d[a + i], d[b + i]);
    } else if (K == "ins" && sscanf(o.c_str(), "%*s %ld %3999s", &a, h) == 2) { if ((size_t)a <= n) d.insert(a, unhex(h)); }
    else if (K == "put" && sscanf(o.c_str(), "%*s %ld %3999s", &a, h) == 2) {
      std::string u = unhex(h);
      if ((size_t)a + u.size() <= n) d.replace(a, u.size(), u);
    }
  }
  return d;
}
Verdict check_c14(const Plan &p) {
  Verdict v;
  Fs fs = p.files;
  std::string f = p.get("damaged");
  std::string kind = p.get("kind", "f");
  auto it = fs.find(f);
  if (it == fs.end()) return v;
  std::string whole = it->second, d;
  if (kind != "f" && !dec(it->second, kind[0], whole)) return v;
  d = damage(whole, p.ops);
  it->second = kind == "f" ? d : enc(d, kind[0]);
  v.nontrivial = d != whole;
  for (size_t k = 0; k < p.procs.size(); k++) {
    const ProcSpec &q = p.procs[k];
    ProcResult r = run_in(v, fs, q);
    if (harness(v, r)) return v;
    if (r.how == ProcResult::HUNG) {
      // a long run, or the damage?
      ProcSpec q0 = q;
      q0.max_steps = 200000000;
      if (k || base_run(p.files, q0).how == ProcResult::HUNG) { undecided(v, r); return v; }
    }
    v.state += (k ? " " : p.get("label") + " ") + q.argv[0] + " -> " + (r.how == ProcResult::SIGNALED ? "abort" : how_text(r));
    std::string e = bad_end(r);
    if (!e.empty()) {
      v.bad = true;
      v.cls = asan_kind(r);
      v.detail = fmt("step %d, ", (int)k + 1) + join(q.argv) + " on a damaged " + f + ": " + e;
      v.sig = q.argv[0] + "/" + v.cls;
      return v;
    }
    if (!r.ok()) continue;
    // what is accepted is used with the values stored
    if (q.argv[0] == "perplexity" && !has_opt(q.argv, "-i") && k == 0 && kind == "f" && p.geti("values")) {
      RefLm m = ref_parse(d);
      std::string ps;
      if (!m.ok || !has_opt(q.argv, "-S")) continue;
      auto i = r.fs.find(opt_value(q.argv, "-S"));
      auto t = fs.find(q.argv[q.argv.size() - 2]);
      if (i == r.fs.end() || t == fs.end()) continue;
      bool tree = !has_opt(q.argv, "-f");
      if (tree && !m.prefixes) continue;
      ps = i->second;
      auto tok = tokens(t->second);
      RefLm::G h;
      size_t at = 0, n = 0;
      while (at < ps.size() && n < tok.size()) {
        size_t e = ps.find('\n', at);
        if (e == std::string::npos) break;
        std::string l = ps.substr(at, e - at);
        at = e + 1;
        const std::string &w = tok[n++];
        double pr;
        int hit;
        if (l.compare(0, w.size(), w) || sscanf(l.c_str() + w.size(), " %lf, order %d", &pr, &hit) != 2) break;
        int id = m.id(w);
        h.push_back(id);
        if ((int)h.size() > m.order) h.erase(h.begin());
        if (!id && !has_opt(q.argv, "-o")) continue;
        double lp = m.score(h, tree ? RefLm::TREE : RefLm::HASH, nullptr);
        if (std::isnan(lp) || lp > 30 || lp < -30) continue;
        if (!lp_close(pr > 0 ? std::log10(pr) : -400, lp, 1e-4)) {
          v.bad = true;
          v.cls = "value";
          v.detail = join(q.argv) + fmt(": '%s' scores %.6g (%.6f), the entries of the damaged file give %.6f for '%s'", w.c_str(), pr, std::log10(pr), lp, m.text(h).c_str());
          v.sig = q.argv[0] + "/value";
          return v;
        }
      }
      v.state += " values";
    }
    if (r.fs.count("conv")) fs = r.fs;
  }
  return v;
}
static void text_damage(Rng &r, const std::string &d, std::vector<std::string> &ops) {
  // positions of lines and fields
  std::vector<size_t> ls = {0};
  for (size_t i = 0; i + 1 < d.size(); i++)
    if (d[i] == '\n') ls.push_back(i + 1);
  size_t head = 0; // lines up to the first section
  for (size_t i = 0; i < ls.size(); i++)
    if (d.compare(ls[i], 9, "\\1-grams:") == 0) { head = i; break; }
  bool inhead = head && r.chance(0.3);
  auto pick = [&] { return (size_t)r.below(inhead ? head + 2 < ls.size() ? head + 2 : ls.size() : ls.size()); };
  auto end = [&](size_t i) { return i + 1 < ls.size() ? ls[i + 1] : d.size(); };
  size_t l = pick();
  static const char *odd[] = {"", "\n", "\\end\\\n", "\\2-grams:\n", "\\1-grams:\n", "\\data\\\n", "ngram 1=0\n", "ngram 2=5\n", "ngram 0=3\n", "ngram 40=2\n", "ngram 2=-7\n", "ngram 3=1000000000\n",
                              "ngram\n", "ngram =\n", "ngram 1\n", "\\interpolated\n", "-1.5\n", "-1\t\n", "-0.5\tword\n", "-0.5\ta b c\n", "x\ty\tz\n", "-0.5\t<s>\t-0.1\n", "-0.5\t<UNK>\n", "\\0-grams:\n", "\\9-grams:\n", "\\-1-grams:\n",
                              " \n", "\t\n", "-1\ta b c d e f g h i j\n", "nan\ta\tnan\n", "-inf\ta\n", "1e30\ta\t1e30\n", "\\\n", "\\e\n"};
  static const char *vals[] = {"0", "-1", "1", "7", "1000000000", "-1000000000", "99999999999999", "2147483647", "4294967295", "nan", "inf", "x", "", "-99", "1e9", "0.5", "100000", "\\end\\", "<s>", "<UNK>", "zzz"};
  switch (r.below(9)) {
  case 0: ops.push_back(fmt("cut %zu %zu", ls[l], end(l) - ls[l])); break;
  case 1: ops.push_back(fmt("dup %zu %zu %zu", ls[l], end(l) - ls[l], ls[pick()])); break;
  case 2: { std::string o = odd[r.below(sizeof odd / sizeof *odd)]; if (!o.empty()) ops.push_back(fmt("ins %zu %s", ls[l], hex(o).c_str())); break; }
  case 3: case 4: case 5: { // a field of a line
    std::string line = d.substr(ls[l], end(l) - ls[l]);
    std::vector<std::pair<size_t, size_t>> f;
    for (size_t i = 0; i < line.size();) {
      size_t e = line.find_first_of(" \t\n=", i);
      if (e == std::string::npos) e = line.size();
      if (e > i) f.push_back({i, e - i});
      i = e + 1;
    }
    if (f.empty()) break;
    auto x = f[r.below(f.size())];
    int how = r.below(4);
    if (how == 0) { ops.push_back(fmt("cut %zu %zu", ls[l] + x.first, x.second + r.below(2))); break; }
    if (how == 1) { ops.push_back(fmt("dup %zu %zu %zu", ls[l] + x.first, x.second + 1, ls[l] + x.first)); break; }
    std::string val = vals[r.below(sizeof vals / sizeof *vals)];
    ops.push_back(fmt("cut %zu %zu", ls[l] + x.first, x.second));
    if (!val.empty()) ops.push_back(fmt("ins %zu %s", ls[l] + x.first, hex(val).c_str()));
    break;
  }
  case 6: { // move a line
    size_t t = pick();
    std::string line = d.substr(ls[l], end(l) - ls[l]);
    size_t at = ls[t];
    ops.push_back(fmt("cut %zu %zu", ls[l], line.size()));
    if (at > ls[l]) at -= std::min(line.size(), at - ls[l]);
    if (line.size() < 1900) ops.push_back(fmt("ins %zu %s", at, hex(line).c_str()));
    break;
  }
  case 7: { // a block of lines
    size_t m = std::min(ls.size() - 1, l + 1 + (size_t)r.below(12));
    size_t n = ls[m] > ls[l] ? ls[m] - ls[l] : 1;
    if (r.chance(0.5)) ops.push_back(fmt("cut %zu %zu", ls[l], n));
    else ops.push_back(fmt("dup %zu %zu %zu", ls[l], n, ls[pick()]));
    break;
  }
  default: ops.push_back(fmt("cut %zu %zu", (size_t)r.below(d.size() + 1), d.size())); break;
  }
}
static void byte_damage(Rng &r, const std::string &d, std::vector<std::string> &ops, bool bin) {
  size_t n = d.size();
  if (!n) return;
  // binary: the header lines, the vocabulary, the order counts and the node array
  size_t nodes = 0;
  if (bin) {
    size_t i = d.rfind("varigram"); (void)i;
    nodes = n / 4;
  }
  auto pos = [&]() -> size_t { return bin && r.chance(0.6) ? nodes + r.below(n - nodes) : r.chance(0.3) ? r.below(std::min<size_t>(n, 200)) : r.below(n); };
  size_t a = pos();
  switch (r.below(7)) {
  case 0: case 1: ops.push_back(fmt("flip %zu %d", a, (int)r.below(8))); break;
  case 2: ops.push_back(fmt("set %zu %d %d", a, 1 + (int)r.below(r.chance(0.5) ? 8 : 600), r.chance(0.5) ? 0 : r.chance(0.5) ? 255 : (int)r.below(256))); break;
  case 3: ops.push_back(fmt("cut %zu %zu", a, r.chance(0.5) ? n : (size_t)1 + r.below(64))); break;
  case 4: ops.push_back(fmt("dup %zu %zu %zu", a, (size_t)1 + r.below(r.chance(0.5) ? 64 : 512), pos())); break;
  case 5: { size_t len = 1 + r.below(64); ops.push_back(fmt("swap %zu %zu %zu", a, pos(), len)); break; }
  default: {
    // a 32-bit value somewhere in the array
    static const int32_t vs[] = {-1, 0, 1, 2, 1000, 1000000, 2147483647, -2147483647 - 1, 65535, 65536, -2};
    int32_t x = r.chance(0.3) ? (int32_t)r.below(64) : vs[r.below(11)];
    std::string b((const char *)&x, 4);
    if (a + 4 > n) a = n >= 4 ? n - 4 : 0;
    if (bin) a = n - ((n - a + 3) / 4) * 4 < n ? n - ((n - a + 3) / 4) * 4 : a; // aligned from the end
    ops.push_back(fmt("put %zu %s", a, hex(b).c_str()));
  }
  }
}
// a damaged counts file or vocabulary, trained from
static void explore_counts(Rng &r, Explorer &ex) {
  Fs fs;
  int n = 1 + r.below(4);
  std::string text = pool_text(r);
  if (text.size() > 6000) text.resize(6000);
  fs["t"] = text;
  bool three = r.chance(0.4), small = r.chance(0.3), lng = r.chance(0.2), raw = r.chance(0.3);
  ProcSpec q;
  q.argv = {"counts2kn", "-n", std::to_string(n), "-H", "500", "-W", "c", "-U", "v", "t", "m"};
  if (three) q.argv.insert(q.argv.begin() + 1, "-3");
  const ProcResult &b = base_run(fs, q);
  if (!b.ok() || !b.fs.count("c") || !b.fs.count("v")) return;
  std::string c = b.fs.at("c"), voc = b.fs.at("v");
  if (raw) c = raw_counts(c, n);
  if (c.empty()) return;
  for (int round = 0; round < 5 && !ex.stop(); round++) {
    bool onvoc = r.chance(0.12);
    char kind = r.chance(0.85) ? 'f' : r.chance(0.5) ? 'g' : 'b';
    std::string file = std::string(onvoc ? "voc" : "cnt") + (kind == 'f' ? "" : kind == 'g' ? ".gz" : ".bz2");
    const std::string &data = onvoc ? voc : c;
    Plan p;
    p.files["cnt"] = c;
    p.files["voc"] = voc;
    if (kind != 'f') p.files.erase(onvoc ? "voc" : "cnt");
    p.files[file] = kind == 'f' ? data : enc(data, kind);
    p.files["t"] = text;
    p.set("damaged", file);
    p.set("kind", std::string(1, kind));
    p.set("noargmin", 1);
    int k = r.chance(0.7) ? 1 : 2 + r.below(3);
    static const char *odd[] = {"\n", "[ ]\n", "[ 1 ] 1\n", "[ 1 2 ] 1\n", "[ 1 2 ] 1 1 1\n", "1 2 3 4 5\n", "1\n", "-1 -1 5\n", "[ -1 ] 4\n", "[ 99999 2 ] 4\n", "\\1-gram counts\n", "\\2-gram counts\n", "\\9-gram counts\n",
                                "\\0-gram counts\n", "\\-1-gram counts\n", "\\1-gram backoffs\n", "\\3-gram backoffs\n", "\\0-gram backoffs\n", "\\x\n", "\\\n", "\\1000000000-gram counts\n", "\\vocabsize 3\n", "[ 1 1 1 1 1 1 1 1 ] 1\n", "x y z\n", " 1\n", "[ 1 2 ]\n", "[ 1 ] 0 0 0\n", "[ 1 ] 0 0 0 0 0\n", "[ ] -1 -1 -1\n"};
    for (int i = 0; i < k; i++) {
      int x = r.below(10);
      if (x == 0) {
        std::vector<size_t> ls = {0};
        for (size_t j = 0; j + 1 < data.size(); j++) if (data[j] == '\n') ls.push_back(j + 1);
        p.ops.push_back(fmt("ins %zu %s", r.pick(ls), hex(odd[r.below(sizeof odd / sizeof *odd)]).c_str()));
      } else if (x < 8) text_damage(r, data, p.ops);
      else byte_damage(r, data, p.ops, false);
    }
    if (p.ops.empty()) continue;
    std::string label = raw ? "raw-counts" : "counts";
    if (onvoc) label += " voc";
    for (auto &o : p.ops) label += " " + o.substr(0, o.find(' '));
    p.set("label", label);
    std::vector<std::string> a = {"counts2kn", raw ? "-Z" : "-c", "-n", std::to_string(r.chance(0.9) ? n : n + 1), "-H", std::to_string(50 + r.below(500)), "-B", onvoc ? file : "voc"};
    if (r.chance(0.9) ? three : !three) a.push_back("-3");
    if (small) a.push_back("-s");
    if (lng) a.push_back("-L");
    if (r.chance(0.5)) a.push_back(r.chance(0.5) ? "-a" : "-x");
    if (r.chance(0.25)) { a.push_back("-o"); a.push_back("t"); }
    if (r.chance(0.25)) { a.push_back("-W"); a.push_back("c2"); a.push_back("-U"); a.push_back("v2"); }
    if (r.chance(0.2)) { a.push_back("-p"); a.push_back("0.01"); if (r.chance(0.4)) { a.push_back("-r"); a.push_back("-R"); a.push_back("t"); } }
    else if (r.chance(0.15)) { a.push_back("-O"); a.push_back("1 1 2"); if (r.chance(0.4)) a.push_back("-D"); }
    if (r.chance(0.1)) a.push_back("-N");
    if (r.chance(0.1)) a.push_back("-A");
    a.push_back(onvoc ? "cnt" : file);
    a.push_back("conv");
    ProcSpec s;
    s.argv = a;
    s.env = gen_env(r);
    s.faults.push_back(mk(F_ALLOC_LIMIT, "", 200 << 20));
    p.procs.push_back(s);
    if (r.chance(0.4)) {
      ProcSpec z = s;
      bool bin = !has_opt(a, "-a") && !has_opt(a, "-x");
      z.argv = {"perplexity", bin ? "-A" : "-a", "conv", "-S", "ps", "t", "res"};
      p.procs.push_back(z);
    }
    ex.try_plan(p);
  }
}
void explore_c14(Rng &r, Explorer &ex) {
  if (r.chance(0.3)) return explore_counts(r, ex);
  bool bin = r.chance(0.45);
  ModelFile m = !bin && r.chance(0.4) ? synth_model(r, M_BACKOFF | M_INTERP) : gen_model(r, M_BACKOFF | M_INTERP | (bin ? M_BIN : 0));
  if (bin && m.bin.empty()) return;
  std::string data = bin ? m.bin : m.arpa;
  TextGen t;
  t.vocab = m.words;
  if (t.vocab.size() > 200) t.vocab.resize(200);
  t.vocab.push_back("oov1");
  t.vocab.push_back("zzz");
  t.lines = 1 + r.below(6);
  std::string text = gen_text(r, t);
  char kind = r.chance(0.8) ? 'f' : r.chance(0.5) ? 'g' : 'b';
  std::string file = kind == 'f' ? "dm" : kind == 'g' ? "dm.gz" : "dm.bz2";
  for (int round = 0; round < 5 && !ex.stop(); round++) {
    Plan p;
    p.files[file] = kind == 'f' ? data : enc(data, kind);
    p.files["test"] = text;
    p.set("damaged", file);
    p.set("kind", std::string(1, kind));
    p.set("noargmin", 1);
    int n = r.chance(0.7) ? 1 : 2 + r.below(3);
    for (int i = 0; i < n; i++)
      if (!bin && r.chance(0.75)) text_damage(r, data, p.ops);
      else byte_damage(r, data, p.ops, bin);
    if (p.ops.empty()) continue;
    p.set("values", p.ops.size() <= 4);
    std::string label = bin ? "bin" : m.interp ? "interp" : "arpa";
    for (auto &o : p.ops) label += " " + o.substr(0, o.find(' '));
    p.set("label", label);
    std::vector<std::vector<std::string>> c;
    const ModelFile *m2 = nullptr;
    if (bin) {
      c = {{"perplexity", "-A", file, "-S", "ps", "test", "res"}, {"bin2arpa", file, "conv"}, {"arpasize", file, "sz"}, {"check_model", "-d", file, "test"}};
      if (r.chance(0.3)) c.push_back({"perplexity", "-a", file, "-S", "ps", "test", "res"}); // taken for text
    } else {
      c = {{"perplexity", "-a", file, "-S", "ps", "test", "res"}, {"perplexity", "-f", "-a", file, "-S", "ps", "test", "res"}, {"perplexity", "-f", "-s", "-a", file, "-S", "ps", "-o", "test", "res"},
           {"arpa2bin", file, "conv"}, {"arpa2arpa", file, "conv"}, {"arpasize", "-a", file, "sz"}, {"arpasize", "-a", "-S", file, "sz"}, {"add_zeroprob_grams", file, "conv"}, {"check_model", "-a", "-d", file, "test"}, {"check_model", "-f", "-a", "-d", file, "test"}};
      m2 = &gen_model(r, M_BACKOFF | M_TREE);
      c.push_back({"perplexity", "-a", file, "-i", "lm2", "-I", "0.4", "-S", "ps", "test", "res"});
      c.push_back({"perplexity", "-a", "lm2", "-i", file, "-S", "ps", "test", "res"});
      c.push_back({"simpleinterpolate2arpa", file + ",0.5;lm2,0.5", "conv"});
      if (r.chance(0.1)) c.push_back({"perplexity", "-A", file, "-S", "ps", "test", "res"}); // taken for binary
    }
    auto a = c[r.below(c.size())];
    if (a[0] == "perplexity" && r.chance(0.3)) a.insert(a.begin() + 1, "-o");
    ProcSpec q;
    q.argv = a;
    q.env = gen_env(r);
    q.faults.push_back(mk(F_ALLOC_LIMIT, "", 200 << 20)); // sizes taken from the file must not eat the machine
    p.procs.push_back(q);
    for (auto &x : a)
      if (x.find("lm2") != std::string::npos) p.files["lm2"] = m2->arpa;
    if (a.back() == "conv" && r.chance(0.6)) {
      // what was made of it goes on
      ProcSpec s = q;
      bool b = a[0] == "arpa2bin";
      s.argv = b ? std::vector<std::string>{"perplexity", "-A", "conv", "-S", "ps", "test", "res"} : std::vector<std::string>{"perplexity", "-a", "conv", "-S", "ps", "test", "res"};
      if (r.chance(0.3)) s.argv = b ? std::vector<std::string>{"bin2arpa", "conv", "conv2"} : std::vector<std::string>{"arpa2bin", "conv", "conv2"};
      p.procs.push_back(s);
    }
    ex.try_plan(p);
  }
}
} // namespace sim
