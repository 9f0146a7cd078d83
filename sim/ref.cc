#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
static bool next_line(const std::string &s, size_t &i, std::string &l) {
  if (i >= s.size()) return false;
  size_t e = s.find('\n', i);
  if (e == std::string::npos) e = s.size();
  l = s.substr(i, e - i);
  i = e + 1;
  return true;
}
static std::vector<std::string> cols(const std::string &l) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < l.size()) {
    size_t b = l.find_first_not_of(" \t", i);
    if (b == std::string::npos) break;
    size_t e = l.find_first_of(" \t", b);
    if (e == std::string::npos) e = l.size();
    v.push_back(l.substr(b, e - b));
    i = e;
  }
  return v;
}
static int add(RefLm &m, const std::string &w) {
  auto i = m.index.find(w);
  if (i != m.index.end()) return i->second;
  m.index[w] = m.words.size();
  m.words.push_back(w);
  return m.words.size() - 1;
}
static void finish(RefLm &m) {
  for (int n = 2; n <= m.order; n++)
    for (auto &e : m.g[n]) {
      RefLm::G c(e.first.begin(), e.first.end() - 1);
      if (!m.g[n - 1].count(c)) { m.prefixes = false; return; }
    }
}
static bool number(const std::string &t, double &x) {
  char *e;
  x = strtod(t.c_str(), &e);
  x = (double)(float)x;
  return !t.empty() && !*e;
}
static RefLm parse_arpa(const std::string &s, const std::string &oov) {
  RefLm m;
  auto bad = [&](const std::string &w) { m.why = w; m.ok = false; return m; };
  add(m, oov);
  size_t i = 0;
  std::string l;
  bool data = false;
  while (next_line(s, i, l)) {
    if (l == "\\interpolated" || l == "iARPA") m.interp = true;
    if (l == "\\data\\") { data = true; break; }
  }
  if (!data) return bad("no \\data\\");
  bool have = false;
  while ((have = next_line(s, i, l))) {
    if (!l.empty() && l[0] == '\\') break;
    if (cols(l).empty()) continue;
    int n;
    long c;
    if (sscanf(l.c_str(), "ngram %d=%ld", &n, &c) != 2 || n != (int)m.declared.size() + 1 || c < 0) return bad("header line " + l);
    m.declared.push_back(c);
  }
  m.order = m.declared.size();
  if (!have || !m.order) return bad("header");
  m.g.resize(m.order + 1);
  for (int n = 1; n <= m.order; n++) {
    while (cols(l).empty())
      if (!next_line(s, i, l)) return bad("ends before an order");
    auto h = cols(l);
    if (h.size() != 1 || h[0] != fmt("\\%d-grams:", n)) return bad("expected order " + std::to_string(n) + ", got " + l);
    for (long k = 0; k < m.declared[n - 1]; k++) {
      std::vector<std::string> c;
      do {
        if (!next_line(s, i, l)) return bad("ends inside an order");
        c = cols(l);
      } while (c.empty());
      if ((int)c.size() < n + 1 || (int)c.size() > n + 2) return bad("line " + l);
      RefLm::E e;
      if (!number(c[0], e.lp)) return bad("number in " + l);
      if ((int)c.size() == n + 2) {
        if (!number(c[n + 1], e.bo)) return bad("number in " + l);
        e.has_bo = true;
      }
      RefLm::G g;
      for (int j = 1; j <= n; j++) {
        if (n == 1) {
          g.push_back(add(m, c[j]));
          if (c[j] == oov) m.unk_listed = true;
        } else {
          auto x = m.index.find(c[j]);
          if (x == m.index.end()) return bad("unlisted word in " + l);
          g.push_back(x->second);
        }
      }
      if (!m.g[n].insert({g, e}).second) return bad("twice: " + l);
    }
    l.clear();
  }
  while (cols(l).empty())
    if (!next_line(s, i, l)) return bad("no \\end\\");
  if (cols(l)[0] != "\\end\\") return bad("expected the end, got " + l);
  m.ok = true;
  finish(m);
  return m;
}
static RefLm parse_bin(const std::string &s, const std::string &oov) {
  RefLm m;
  (void)oov;
  m.binary = true;
  auto bad = [&](const std::string &w) { m.why = w; m.ok = false; return m; };
  size_t i = 11;
  std::string l;
  if (!next_line(s, i, l) || (l != "backoff" && l != "interpolated")) return bad("type");
  m.interp = l == "interpolated";
  if (!next_line(s, i, l)) return bad("words");
  long n = atol(l.c_str());
  if (n < 1) return bad("words");
  for (long k = 0; k < n; k++) {
    if (!next_line(s, i, l)) return bad("words");
    if (add(m, l) != k) return bad("word twice: " + l);
  }
  long nodes = 0;
  if (!next_line(s, i, l) || sscanf(l.c_str(), "%d %ld", &m.order, &nodes) != 2 || m.order < 1 || m.order > 50) return bad("order line " + l);
  long sum = 0;
  for (int k = 0; k < m.order; k++) {
    if (!next_line(s, i, l)) return bad("order counts");
    m.declared.push_back(atol(l.c_str()));
    sum += m.declared.back();
  }
  if (sum != nodes && sum + 1 != nodes) return bad("number of nodes");
  if (s.size() - std::min(s.size(), i) != (size_t)nodes * 16) return bad(fmt("size: %ld nodes in %ld bytes", nodes, (long)(s.size() - i)));
  struct N { int word; float lp, bo; int child; };
  std::vector<N> v(nodes);
  if (nodes) memcpy(&v[0], s.data() + i, nodes * 16);
  m.g.resize(m.order + 1);
  if (m.declared[0] != n || nodes < n) return bad(fmt("%ld unigrams for %ld words", m.declared[0], n));
  long seen = 0;
  std::function<bool(long, RefLm::G)> walk = [&](long k, RefLm::G g) {
    if (++seen > nodes || (int)g.size() > m.order || v[k].word < 0 || v[k].word >= n) return false;
    RefLm::E e;
    e.lp = v[k].lp;
    e.bo = v[k].bo;
    e.has_bo = true;
    if (!m.g[g.size()].insert({g, e}).second) return false;
    if (k + 1 >= nodes || v[k].child < 0 || v[k + 1].child < 0) return true;
    if (v[k + 1].child > nodes) return false;
    for (long c = v[k].child; c < v[k + 1].child; c++) {
      if (c <= k) return false;
      RefLm::G h = g;
      h.push_back(v[c].word);
      if (!walk(c, h)) return false;
    }
    return true;
  };
  for (long k = 0; k < n; k++)
    if (v[k].word != k || !walk(k, RefLm::G{(int)k})) return bad("broken tree");
  for (int k = 1; k <= m.order; k++)
    if ((long)m.g[k].size() != m.declared[k - 1]) return bad(fmt("%ld %d-grams, %ld announced", (long)m.g[k].size(), k, m.declared[k - 1]));
  m.ok = m.unk_listed = true;
  return m;
}
RefLm ref_parse(const std::string &d, const std::string &oov) {
  if (d.compare(0, 11, "cis-binlm2\n") == 0) return parse_bin(d, oov);
  return parse_arpa(d, oov);
}
static const double MINLP = -60;
double RefLm::score(const G &full, Kind k, int *hit) const {
  size_t len = std::min(full.size(), (size_t)order);
  const G gram(full.end() - len, full.end());
  auto uni = [&](int w, double &lp) {
    auto i = g[1].find(G{w});
    if (i != g[1].end()) { lp = k == HASH ? std::max(MINLP, i->second.lp) : i->second.lp; return; }
    lp = k != HASH && w == 0 ? -99 : MINLP;
  };
  auto find = [&](const G &x) -> const E * {
    auto i = g[x.size()].find(x);
    if (i == g[x.size()].end()) return nullptr;
    if (k == HASH && x.size() > 1 && i->second.lp <= MINLP) return nullptr;
    return &i->second;
  };
  auto bo = [&](const G &x) {
    auto i = g[x.size()].find(x);
    return i == g[x.size()].end() ? 0.0 : i->second.bo;
  };
  if (!interp) {
    double lp = 0;
    for (size_t n = len;; n--) {
      G x(gram.end() - n, gram.end());
      if (n == 1) {
        double u;
        uni(x[0], u);
        if (hit) *hit = 1;
        return lp + u;
      }
      if (const E *e = find(x)) {
        if (hit) *hit = n;
        return lp + e->lp;
      }
      lp += bo(G(x.begin(), x.end() - 1));
    }
  }
  double p = 0;
  for (size_t n = 1; n <= len; n++) {
    G x(gram.end() - n, gram.end());
    if (n == 1) {
      double u;
      uni(x[0], u);
      p += std::pow(10, u);
      if (hit) *hit = 1;
      continue;
    }
    p *= std::pow(10, bo(G(x.begin(), x.end() - 1)));
    if (const E *e = find(x)) {
      p += std::pow(10, e->lp);
      if (hit) *hit = n;
    }
  }
  return p <= 0 ? MINLP : std::max(MINLP, std::log10(p));
}
std::string RefLm::text(const G &x) const {
  std::string o;
  for (int w : x) o += (o.empty() ? "" : " ") + words[w];
  return o;
}
std::string ref_missing(const RefLm &a, const RefLm &b, bool ignore_unk) {
  for (int n = 1; n <= a.order; n++)
    for (auto &e : a.g[n]) {
      RefLm::G h;
      for (int w : e.first) {
        auto i = b.index.find(a.words[w]);
        if (i == b.index.end()) break;
        h.push_back(i->second);
      }
      if (ignore_unk && n == 1 && e.first[0] == 0) continue;
      if (h.size() != (size_t)n || n > b.order || !b.g[n].count(h)) return a.text(e.first);
    }
  return "";
}
bool lp_close(double a, double b, double extra) {
  if (a <= -45 && b <= -45) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
  return std::fabs(a - b) <= 1e-4 + extra + 1e-5 * std::max(std::fabs(a), std::fabs(b));
}
} // namespace sim
