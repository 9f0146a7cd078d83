// C09: histories of operations on the hash matrices and on the count stores, against plain maps.
#include "lib.h"
#include "Vocabulary.hh"
#include "InterKn.hh"
#include "MultiOrderCounts.hh"
#include "sikMatrix.hh"
#include <algorithm>
#include <cstring>
#include <map>
#include <sstream>
#include <unistd.h>

namespace sim {
[[noreturn]] void wl_bad(const std::string &cls, const std::string &text) {
  {
    SutPause p;
    report("BAD " + cls + " " + text);
  }
  _exit(0);
}
namespace {
typedef std::vector<long> Key;
std::string ktext(const Key &k) {
  std::string o;
  for (auto x : k) o += (o.empty() ? "" : ",") + std::to_string(x);
  return "[" + o + "]";
}
struct Op {
  std::string name;
  std::vector<long> a;
  long arg(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};
Op parse_op(const std::string &s) {
  Op o;
  std::istringstream in(s);
  in >> o.name;
  long v;
  while (in >> v) o.a.push_back(v);
  return o;
}
size_t cur_op;
std::string cur_text;
std::string where() { return fmt(" after operation %zu (%s)", cur_op, cur_text.c_str()); }

// ------------------------------------------------------------------ matrices
typedef MultiOrderCounts_counter_types::bo_c<int> boc;
struct Bo3 { int a[5]; Bo3 operator+=(const Bo3 o) { for (int i = 0; i < 5; i++) a[i] += o.a[i]; return *this; } };
template <class V> V mkval(long v) { return (V)v; }
template <> float mkval<float>(long v) { return v * 0.25f; }
template <> boc mkval<boc>(long v) { boc b; b.den = v; b.nzer = v / 2; b.prune_den = -v; return b; }
template <> Bo3 mkval<Bo3>(long v) { Bo3 b; for (int i = 0; i < 5; i++) b.a[i] = v * (i + 1); return b; }
template <class V> std::string vtext(const V &v) {
  std::string o;
  const unsigned char *p = (const unsigned char *)&v;
  for (size_t i = 0; i < sizeof v; i++) o += fmt("%02x", p[i]);
  return o;
}
template <class V> bool veq(const V &a, const V &b) { return !memcmp(&a, &b, sizeof a); }

template <class K, class V> struct MatrixRun {
  struct Less {
    bool operator()(const std::vector<K> &a, const std::vector<K> &b) const {
      return memcmp(&a[0], &b[0], a.size() * sizeof(K)) < 0;
    }
  };
  typedef std::map<std::vector<K>, V, Less> Model;
  struct One {
    sikMatrix<K, V> *m;
    Model model;
  };
  std::vector<One> ms;
  int dims;
  V def;
  long range;
  std::vector<K> key(const Op &o, size_t at) const {
    std::vector<K> k(dims);
    for (int i = 0; i < dims; i++) k[i] = (K)o.arg(at + i);
    return k;
  }
  std::string kt(const std::vector<K> &k) const {
    Key q(k.begin(), k.end());
    return ktext(q);
  }
  V expect(const Model &m, const std::vector<K> &k) const {
    auto i = m.find(k);
    return i == m.end() ? def : i->second;
  }
  void same(const char *what, const V &got, const V &want, const std::vector<K> &k) {
    if (!veq(got, want))
      wl_bad("matrix-value", std::string(what) + " of " + kt(k) + " gives " + vtext(got) + " instead of " + vtext(want) + where());
  }
  void step(One &x, bool ordered, int mod, int rest, long seed, bool del) {
    // visits everything once; deletes every entry that falls into the residue class
    Model seen, left = x.model;
    std::vector<K> k(dims), prev;
    V v;
    long n = 0, limit = (long)x.model.size() + 5;
    if (ordered) x.m->ordered_stepthrough(true, &k[0], &v);
    else x.m->stepthrough(true, &k[0], &v);
    while (ordered ? x.m->ordered_stepthrough(false, &k[0], &v) : x.m->stepthrough(false, &k[0], &v)) {
      SutPause p;
      if (++n > limit) wl_bad("matrix-step", fmt("stepping through does not end after %ld of %zu entries", n, x.model.size()) + where());
      if (ordered && !prev.empty() && !(Less()(prev, k)))
        wl_bad("matrix-order", "ordered stepping gives " + kt(k) + " after " + kt(prev) + where());
      prev = k;
      auto i = x.model.find(k);
      if (i == x.model.end()) wl_bad("matrix-step", "stepping gives " + kt(k) + " which is not there" + where());
      if (!veq(i->second, v)) wl_bad("matrix-step", "stepping gives " + kt(k) + " = " + vtext(v) + " instead of " + vtext(i->second) + where());
      if (!seen.insert({k, v}).second) wl_bad("matrix-step", "stepping gives " + kt(k) + " twice" + where());
      if (del && mod > 0 && (long)(hash_bytes(&k[0], dims * sizeof(K), seed) % mod) == rest) {
        left.erase(k);
        p.~SutPause();
        x.m->delete_current_st();
        new (&p) SutPause();
      }
    }
    SutPause p;
    if (seen.size() != x.model.size())
      wl_bad("matrix-step", fmt("stepping gives %zu of %zu entries", seen.size(), x.model.size()) + where());
    x.model.swap(left);
  }
  void verify(One &x, bool deep) {
    size_t n = x.m->num_entries();
    SutPause p;
    if (n != x.model.size())
      wl_bad("matrix-size", fmt("%zu entries instead of %zu", n, x.model.size()) + where());
    if (!deep) return;
    std::set<std::vector<K>> idx;
    for (size_t i = 0; i < n; i++) {
      const K *kp = x.m->Idx2Keyp(i);
      std::vector<K> k(kp, kp + dims);
      auto it = x.model.find(k);
      if (it == x.model.end() || !idx.insert(k).second) wl_bad("matrix-index", "entry " + kt(k) + " is wrong or double" + where());
      same("indexed value", *x.m->Idx2Valp(i), it->second, k);
    }
    for (auto &e : x.model) {
      V v;
      {
        p.~SutPause();
        v = x.m->getvalue(&e.first[0]);
        new (&p) SutPause();
      }
      same("value", v, e.second, e.first);
    }
  }
  void run(const Plan &p) {
    dims = (int)p.geti("dims", 2);
    def = mkval<V>(p.geti("def", 0));
    range = p.geti("range", 8);
    int nm = (int)p.geti("nm", 1);
    for (int i = 0; i < nm; i++)
      ms.push_back({new sikMatrix<K, V>(dims, (indextype)p.geti(i ? "hash2" : "hash", 10), def), Model()});
    bool capi = p.geti("capi") && sizeof(K) == sizeof(int);
    for (cur_op = 0; cur_op < p.ops.size(); cur_op++) {
      Op o;
      {
        SutPause z;
        cur_text = p.ops[cur_op];
        o = parse_op(cur_text);
      }
      One &x = ms[(size_t)o.arg(0) % ms.size()];
      std::vector<K> k;
      { SutPause z; if ((int)o.a.size() > dims) k = key(o, 1); }
      V v = mkval<V>(o.arg(1 + dims));
      bool big = false;
      if (o.name == "inc" && (int)k.size() == dims) {
        V got = o.arg(2 + dims) ? x.m->increment(&k[0], &v) : x.m->increment(&k[0], v);
        SutPause z;
        V w = expect(x.model, k);
        w += v;
        if (veq(w, def)) x.model.erase(k); else x.model[k] = w;
        same("increment", got, w, k);
      } else if (o.name == "incw" && (int)k.size() == dims) {
        V got = x.m->increment_wo_del(&k[0], v);
        SutPause z;
        V w = expect(x.model, k);
        w += v;
        x.model[k] = w;
        same("increment_wo_del", got, w, k);
      } else if ((o.name == "set" || o.name == "rm") && (int)k.size() == dims) {
        if (o.name == "rm") v = def;
        if (o.arg(2 + dims)) x.m->setvalue(&k[0], &v); else x.m->setvalue(&k[0], v);
        SutPause z;
        if (veq(v, def)) x.model.erase(k); else x.model[k] = v;
      } else if (o.name == "get" && (int)k.size() == dims) {
        V got = x.m->getvalue(&k[0]), got2;
        x.m->getvalue(&k[0], &got2);
        SutPause z;
        same("value", got, expect(x.model, k), k);
        same("value", got2, expect(x.model, k), k);
      } else if (o.name == "del" && (int)k.size() == dims) {
        FindEntry(x.m->m, (const byte *)&k[0], -1);
        SutPause z;
        x.model.erase(k);
      } else if (o.name == "step") { step(x, false, 0, 0, 0, false); }
      else if (o.name == "ostep") { step(x, true, 0, 0, 0, false); }
      else if (o.name == "stept") {
        x.m->stept_sortsearch = o.arg(1);
        std::vector<K> kk(dims);
        V vv;
        size_t n = 0;
        x.m->stept(true, &kk[0], &vv);
        while (x.m->stept(false, &kk[0], &vv)) if (++n > x.model.size()) break;
        if (n != x.model.size()) wl_bad("matrix-step", "stept gives another number of entries" + where());
        big = true;
      } else if (o.name == "sdel") { step(x, false, (int)o.arg(1, 2), (int)o.arg(2), o.arg(3), true); big = true; }
      else if (o.name == "clear") { x.m->clear(); SutPause z; x.model.clear(); big = true; }
      else if (o.name == "rdef") {
        RemoveDefaultValues(x.m->m);
        SutPause z;
        for (auto i = x.model.begin(); i != x.model.end();)
          if (veq(i->second, def)) i = x.model.erase(i); else ++i;
        big = true;
      } else if (o.name == "burst") {
        // n increments or removals of pseudo-random keys
        Rng r(o.arg(2));
        long n = o.arg(1);
        int kind = (int)o.arg(3);
        for (long i = 0; i < n; i++) {
          std::vector<K> q;
          {
            SutPause z;
            q.resize(dims);
            for (int d = 0; d < dims; d++) q[d] = (K)r.below(range);
          }
          V w = mkval<V>(1 + (long)r.below(3));
          if (kind == 0) x.m->increment(&q[0], w);
          else x.m->setvalue(&q[0], def);
          SutPause z;
          if (kind == 0) {
            V e = expect(x.model, q);
            e += w;
            if (veq(e, def)) x.model.erase(q); else x.model[q] = e;
          } else
            x.model.erase(q);
        }
        big = true;
      }
      for (auto &y : ms) verify(y, &y == &x && (big || y.model.size() < 40 || cur_op % 13 == 0));
    }
    for (auto &y : ms) {
      verify(y, true);
      step(y, false, 0, 0, 0, false);
      step(y, true, 0, 0, 0, false);
    }
    size_t tot = 0;
    for (auto &y : ms) { tot += y.model.size(); delete y.m; }
    (void)capi;
    SutPause z;
    report(fmt("OK %zu entries", tot));
  }
};

// the C interface on its own
void capi_run(const Plan &p) {
  int dims = (int)p.geti("dims", 2);
  long def = p.geti("def", 0), range = p.geti("range", 8);
  bool flt = p.get("vt") == "float";
  struct matrix *m = flt ? CreateMatrixF(dims, (indextype)p.geti("hash", 10), (float)def)
                         : CreateMatrixI(dims, (indextype)p.geti("hash", 10), (int)def);
  std::map<std::vector<int>, long> model;
  (void)range;
  for (cur_op = 0; cur_op < p.ops.size(); cur_op++) {
    Op o;
    { SutPause z; cur_text = p.ops[cur_op]; o = parse_op(cur_text); }
    std::vector<int> k(dims);
    for (int i = 0; i < dims; i++) k[i] = (int)o.arg(1 + i);
    long v = o.arg(1 + dims), got, want;
    auto cur = model.find(k);
    want = cur == model.end() ? def : cur->second;
    if (o.name == "inc" || o.name == "incw") {
      want += v;
      got = flt ? (long)IncrementF(m, &k[0], (float)v) : IncrementI(m, &k[0], (int)v);
      if (want == def) model.erase(k); else model[k] = want;
    } else if (o.name == "set") {
      if (flt) SetValueF(m, &k[0], (float)v); else SetValueI(m, &k[0], (int)v);
      want = v;
      if (v == def) model.erase(k); else model[k] = v;
      got = flt ? (long)GetValueF(m, &k[0]) : GetValueI(m, &k[0]);
    } else
      got = flt ? (long)GetValueF(m, &k[0]) : GetValueI(m, &k[0]);
    if (got != want) wl_bad("matrix-value", fmt("C interface gives %ld instead of %ld", got, want) + where());
    if ((size_t)m->num_entries != model.size()) wl_bad("matrix-size", fmt("C interface holds %ld entries instead of %zu", (long)m->num_entries, model.size()) + where());
  }
  std::vector<int> k(dims);
  size_t n = 0;
  int iv;
  float fv;
  std::vector<int> prev;
  if (flt) OrderedStepThroughF(m, &k[0], &fv); else OrderedStepThroughI(m, &k[0], &iv);
  while (flt ? OrderedStepThroughF(NULL, &k[0], &fv) : OrderedStepThroughI(NULL, &k[0], &iv)) {
    auto i = model.find(k);
    if (i == model.end() || i->second != (flt ? (long)fv : iv) || ++n > model.size()) wl_bad("matrix-step", "C interface steps to " + ktext(Key(k.begin(), k.end())) + where());
    if (!prev.empty() && memcmp(&prev[0], &k[0], dims * sizeof(int)) >= 0) wl_bad("matrix-order", "C interface out of order" + where());
    prev = k;
  }
  if (n != model.size()) wl_bad("matrix-step", "C interface steps through another number of entries" + where());
  DeleteMatrix(m);
  report(fmt("OK %zu entries", n));
}

// ------------------------------------------------------------------ count stores
template <class MOC, class KT, class CT, class BO> struct StoreRun {
  enum { NN = sizeof(BO) / sizeof(CT) - 2 }; // how many nzer fields
  struct B {
    CT den, nz[3], pd;
    bool operator==(const B &o) const { return den == o.den && nz[0] == o.nz[0] && nz[1] == o.nz[1] && nz[2] == o.nz[2] && pd == o.pd; }
    void add(const B &o, int s) { den += s * o.den; pd += s * o.pd; for (int i = 0; i < 3; i++) nz[i] += s * o.nz[i]; }
    bool zero() const { return !den && !nz[0] && !nz[1] && !nz[2] && !pd; }
  };
  static std::string bt(const B &b) {
    return fmt("{den %ld nzer %ld %ld %ld prune %ld}", (long)b.den, (long)b.nz[0], (long)b.nz[1], (long)b.nz[2], (long)b.pd);
  }
  static B zero() { B b; memset(&b, 0, sizeof b); return b; }
  static BO make(const B &b, const MultiOrderCounts_counter_types::bo_c<CT> *) {
    MultiOrderCounts_counter_types::bo_c<CT> x;
    x.den = b.den; x.nzer = b.nz[0]; x.prune_den = b.pd;
    return x;
  }
  static BO make(const B &b, const MultiOrderCounts_counter_types::bo_3c<CT> *) {
    MultiOrderCounts_counter_types::bo_3c<CT> x;
    x.den = b.den; x.prune_den = b.pd;
    for (int i = 0; i < 3; i++) x.nzer[i] = b.nz[i];
    return x;
  }
  static B take(const MultiOrderCounts_counter_types::bo_c<CT> &x) {
    B b = zero();
    b.den = x.den; b.nz[0] = x.nzer; b.pd = x.prune_den;
    return b;
  }
  static B take(const MultiOrderCounts_counter_types::bo_3c<CT> &x) {
    B b = zero();
    b.den = x.den; b.pd = x.prune_den;
    for (int i = 0; i < 3; i++) b.nz[i] = x.nzer[i];
    return b;
  }
  typedef std::vector<KT> K;
  struct State {
    int co = 0, bo = 0; // highest allocated orders
    std::map<int, std::map<K, CT>> c;
    std::map<int, std::map<K, B>> b;
    B uni = zero();
  } st, snap;
  bool trial = false;
  int snap_co = 0, snap_bo = 0;
  MOC *m;
  static std::string kt(const K &k) { return ktext(Key(k.begin(), k.end())); }
  K key(const Op &o, int n, size_t at) { K k(n); for (int i = 0; i < n; i++) k[i] = (KT)o.arg(at + i); return k; }
  void nzer_inc(MultiOrderCounts_1nzer<KT, CT> *x, int o, const K &k, int, CT v) { x->IncrementBackoffNzer(o, k.data(), v); }
  void nzer_inc(MultiOrderCounts_3nzer<KT, CT> *x, int o, const K &k, int pos, CT v) { x->IncrementBackoffNzer(o, k.data(), pos, v); }
  void nzer_cache(MultiOrderCounts_1nzer<KT, CT> *x, int o, const K &k, int, const B &b) { x->IncrementBackoffCacheNzer(o, k.data(), b.nz[0]); }
  void nzer_cache(MultiOrderCounts_3nzer<KT, CT> *x, int o, const K &k, int pos, const B &b) {
    if (pos == 3) x->IncrementBackoffCacheNzer(o, k.data(), b.nz);
    else x->IncrementBackoffCacheNzer(o, k.data(), pos, b.nz[pos]);
  }
  CT nzer_get(MultiOrderCounts_1nzer<KT, CT> *x, int o, const K &k, int) { return x->GetBackoffNzer(o, k.data()); }
  CT nzer_get(MultiOrderCounts_3nzer<KT, CT> *x, int o, const K &k, int pos) {
    MultiOrderCounts_counter_types::bo_3c<CT> b;
    x->GetBackoff(o, k.data(), &b);
    return b.nzer[pos];
  }

  void check_store(MOC *x, const State &s, const char *what, bool deep) {
    SutPause p;
    if (x->order() < s.co) wl_bad("store-order", fmt("%s has order %d instead of %d", what, x->order(), s.co) + where());
    for (int o = 1; o <= x->order(); o++) {
      static const std::map<K, CT> none;
      auto it = s.c.find(o);
      const std::map<K, CT> &mod = it == s.c.end() ? none : it->second;
      if ((size_t)x->order_size(o) != mod.size())
        wl_bad("store-size", fmt("%s holds %ld %d-grams instead of %zu", what, (long)x->order_size(o), o, mod.size()) + where());
      if (!deep) continue;
      for (auto &e : mod)
        if (x->GetCount(o, e.first.data()) != e.second)
          wl_bad("store-count", std::string(what) + fmt(" counts %ld instead of %ld for ", (long)x->GetCount(o, e.first.data()), (long)e.second) + kt(e.first) + where());
    }
    for (int o = 2; o <= s.bo; o++) {
      auto it = s.b.find(o);
      size_t n = it == s.b.end() ? 0 : it->second.size();
      if ((size_t)x->bo_order_size(o) != n)
        wl_bad("store-size", fmt("%s holds %ld back-offs of order %d instead of %zu", what, (long)x->bo_order_size(o), o, n) + where());
      if (it == s.b.end() || !deep) continue;
      for (auto &e : it->second) {
        BO v;
        x->GetBackoff(o, e.first.data(), &v);
        if (!(take(v) == e.second)) wl_bad("store-backoff", std::string(what) + " holds " + bt(take(v)) + " instead of " + bt(e.second) + " for " + kt(e.first) + where());
      }
    }
    BO u;
    K e;
    if (s.bo >= 1 || x->bo_order_size(2) >= 0) {
      if (x->GetBackoffDen(1, e.data()) != s.uni.den) wl_bad("store-unigram", fmt("%s has unigram total %ld instead of %ld", what, (long)x->GetBackoffDen(1, e.data()), (long)s.uni.den) + where());
      for (int i = 0; i < NN; i++)
        if (nzer_get(x, 1, e, i) != s.uni.nz[i]) wl_bad("store-unigram", fmt("%s has unigram nzer[%d] %ld instead of %ld", what, i, (long)nzer_get(x, 1, e, i), (long)s.uni.nz[i]) + where());
    }
    (void)u;
  }
  void inc_bo(int o, const K &k, const B &d, bool remove) {
    if (o == 1) { st.uni.add(d, 1); st.bo = std::max(st.bo, 0); return; }
    B &b = st.b[o].insert({k, zero()}).first->second;
    b.add(d, 1);
    st.bo = std::max(st.bo, o);
    if (remove && b.zero()) st.b[o].erase(k);
  }
  void run(const Plan &p) {
    m = new MOC;
    m->vocabsize = (int)p.geti("vocab", 20);
    m->hashsize = (indextype)p.geti("hash", 100);
    int maxo = (int)p.geti("maxo", 4);
    m->IncrementBackoffDen(1, NULL, 0); // as when the unigram model is made first
    for (cur_op = 0; cur_op < p.ops.size(); cur_op++) {
      Op o;
      { SutPause z; cur_text = p.ops[cur_op]; o = parse_op(cur_text); }
      int ord = (int)o.arg(0, 1);
      const std::string &n = o.name;
      bool deep = cur_op % 9 == 0;
      bool mutates = n != "reset" && n != "undo" && n != "tc" && n != "tb" && n != "tn" && n != "td" && n != "gc" && n != "gb" && n != "wr" && n != "nv" && n != "ostep";
      if (mutates) trial = false;
      if (ord < 1 || ord > maxo) continue;
      K ck, bk;
      { SutPause z; ck = key(o, ord, 1); bk = key(o, ord - 1, 1); }
      if (n == "ic") {
        CT v = (CT)o.arg(1 + ord), got = m->IncrementCount(ord, &ck[0], v);
        SutPause z;
        st.co = std::max(st.co, ord);
        CT w = st.c[ord][ck] += v;
        if (w != got) wl_bad("store-count", fmt("IncrementCount returns %ld instead of %ld", (long)got, (long)w) + where());
      } else if (n == "sc") {
        CT v = (CT)o.arg(1 + ord);
        m->SetCount(ord, &ck[0], v);
        SutPause z;
        st.co = std::max(st.co, ord);
        if (v) st.c[ord][ck] = v; else st.c[ord].erase(ck);
      } else if (n == "gc") {
        CT got = m->GetCount(ord, &ck[0]);
        SutPause z;
        auto i = st.c[ord].find(ck);
        CT w = i == st.c[ord].end() ? 0 : i->second;
        if (got != w) wl_bad("store-count", fmt("GetCount returns %ld instead of %ld", (long)got, (long)w) + where());
      } else if (n == "ib" || n == "sb") {
        B d = zero();
        d.den = (CT)o.arg(ord);
        for (int i = 0; i < NN; i++) d.nz[i] = (CT)o.arg(ord + 1 + i);
        d.pd = (CT)o.arg(ord + 4);
        BO v = make(d, (BO *)0);
        if (n == "ib") {
          m->IncrementBackoff(ord, bk.data(), &v);
          SutPause z;
          inc_bo(ord, bk, d, true);
        } else {
          m->SetBackoff(ord, bk.data(), &v);
          SutPause z;
          if (ord == 1) st.uni = d;
          else {
            st.bo = std::max(st.bo, ord);
            if (d.zero()) st.b[ord].erase(bk); else st.b[ord][bk] = d;
          }
        }
      } else if (n == "ibd") {
        B d = zero();
        d.den = (CT)o.arg(ord);
        m->IncrementBackoffDen(ord, bk.data(), d.den);
        SutPause z;
        inc_bo(ord, bk, d, true);
      } else if (n == "ibn") {
        if (ord > 1 && st.bo < ord) continue;
        B d = zero();
        int pos = (int)labs(o.arg(ord + 1)) % NN;
        d.nz[pos] = (CT)o.arg(ord);
        nzer_inc(m, ord, bk, pos, d.nz[pos]);
        SutPause z;
        inc_bo(ord, bk, d, true);
      } else if (n == "gb") {
        if (ord > 1 && st.bo < 2) continue;
        CT d = m->GetBackoffDen(ord, bk.data());
        CT nz[3];
        for (int i = 0; i < NN; i++) nz[i] = nzer_get(m, ord, bk, i);
        SutPause z;
        B w = st.uni;
        if (ord > 1) { auto i = st.b[ord].find(bk); w = i == st.b[ord].end() ? zero() : i->second; }
        bool bad = d != w.den;
        for (int i = 0; i < NN; i++) bad |= nz[i] != w.nz[i];
        if (bad) wl_bad("store-backoff", fmt("GetBackoff gives den %ld nzer %ld, expected ", (long)d, (long)nz[0]) + bt(w) + where());
      } else if (n == "step" || n == "ostep" || n == "sdel") {
        if (ord > st.co) continue;
        std::map<K, CT> seen, left = st.c[ord];
        K k(ord);
        CT v;
        bool ordered = n == "ostep";
        if (ordered) m->OrderedStepCountsOrder(true, ord, &k[0], &v); else m->StepCountsOrder(true, ord, &k[0], &v);
        while (ordered ? m->OrderedStepCountsOrder(false, ord, &k[0], &v) : m->StepCountsOrder(false, ord, &k[0], &v)) {
          bool del = false;
          {
            SutPause z;
            auto i = st.c[ord].find(k);
            if (i == st.c[ord].end() || i->second != v || !seen.insert({k, v}).second)
              wl_bad("store-step", "stepping gives " + kt(k) + fmt(" = %ld", (long)v) + " wrongly" + where());
            del = n == "sdel" && hash_bytes(&k[0], ord * sizeof(KT), (uint64_t)o.arg(2)) % (uint64_t)std::max<long>(o.arg(1, 2), 1) == 0;
            if (del) left.erase(k);
          }
          if (del) m->DeleteCurrentST(ord);
        }
        SutPause z;
        if (seen.size() != st.c[ord].size()) wl_bad("store-step", fmt("stepping gives %zu of %zu entries", seen.size(), st.c[ord].size()) + where());
        st.c[ord] = left;
        deep = true;
      } else if (n == "bstep") {
        if (ord < 2 || ord > st.bo || ord > st.co) continue;
        std::set<K> seen;
        K k(ord - 1);
        BO v;
        m->StepBackoffsOrder(true, ord, k.data(), &v);
        while (m->StepBackoffsOrder(false, ord, k.data(), &v)) {
          SutPause z;
          auto i = st.b[ord].find(k);
          if (i == st.b[ord].end() || !(i->second == take(v)) || !seen.insert(k).second)
            wl_bad("store-step", "stepping the back-offs gives " + kt(k) + " wrongly" + where());
        }
        SutPause z;
        if (seen.size() != st.b[ord].size()) wl_bad("store-step", fmt("stepping gives %zu of %zu back-offs", seen.size(), st.b[ord].size()) + where());
      } else if (n == "reset") {
        if (st.co < 1) continue;
        m->ResetCaches();
        SutPause z;
        snap = st;
        trial = true;
        snap_co = m->order();
        snap_bo = std::max(1, st.bo);
      } else if (n == "tc") {
        if (!trial || ord > snap_co + 1) continue;
        CT v = (CT)o.arg(1 + ord), got = m->IncrementCountCache(ord, &ck[0], v);
        SutPause z;
        st.co = std::max(st.co, ord);
        CT w = st.c[ord][ck] += v;
        if (w != got) wl_bad("store-count", fmt("IncrementCountCache returns %ld instead of %ld", (long)got, (long)w) + where());
      } else if (n == "tb" || n == "td" || n == "tn") {
        if (!trial || ord > std::max(snap_bo, 1) + 1) continue;
        B d = zero();
        int pos = (int)labs(o.arg(ord + 4)) % (NN == 3 ? 4 : 1);
        if (n == "tb" || n == "td") d.den = (CT)o.arg(ord);
        if (n == "tb" || n == "tn")
          for (int i = 0; i < NN; i++)
            if (n == "tb" || pos == 3 || i == pos) d.nz[i] = (CT)o.arg(ord + 1 + i);
        if (n == "tb") d.pd = (CT)o.arg(ord + 5);
        BO v = make(d, (BO *)0);
        if (n == "tb") m->IncrementBackoffCache(ord, bk.data(), &v);
        else if (n == "td") m->IncrementBackoffCacheDen(ord, bk.data(), d.den);
        else nzer_cache(m, ord, bk, pos, d);
        SutPause z;
        inc_bo(ord, bk, d, false);
      } else if (n == "undo") {
        if (!trial) continue;
        m->UndoCached();
        SutPause z;
        int co = st.co, bo = st.bo;
        st = snap;
        st.co = co; // an order that became empty again may stay
        st.bo = bo;
        trial = false;
        deep = true;
      } else if (n == "rdb") {
        if (st.bo < m->order() || m->order() < 2) continue;
        m->RemoveDefaultBackoffs();
        SutPause z;
        for (int q = 2; q <= m->order(); q++)
          for (auto i = st.b[q].begin(); i != st.b[q].end();)
            if (i->second.zero()) i = st.b[q].erase(i); else ++i;
        deep = true;
      } else if (n == "cdc") {
        if (st.bo < 2 || st.bo != m->order()) continue;
        m->clear_derived_counts();
        SutPause z;
        st.uni = zero();
        for (int q = 1; q < m->order(); q++) st.c[q].clear();
        for (int q = 2; q <= st.bo; q++) st.b[q].clear();
        deep = true;
      } else if (n == "cnz") {
        if (ord > 1 && ord > st.bo) continue;
        m->clear_nzer(ord);
        SutPause z;
        if (ord == 1) { for (int i = 0; i < 3; i++) st.uni.nz[i] = 0; }
        else for (auto &e : st.b[ord]) for (int i = 0; i < 3; i++) e.second.nz[i] = 0;
      } else if (n == "ro") {
        if (m->order() < 3 || st.bo != m->order()) continue;
        int top = m->order();
        m->RemoveOrder(top);
        SutPause z;
        st.c.erase(top);
        st.b.erase(top);
        st.co = std::min(st.co, top - 1);
        st.bo = top - 1;
        if (m->order() != top - 1) wl_bad("store-order", "RemoveOrder does not remove the order" + where());
        deep = true;
      } else if (n == "nv") {
        if (m->order() < 1) continue;
        std::set<std::pair<int, K>> seen;
        K k;
        size_t total = 0;
        for (auto &c : st.c) total += c.second.size();
        while (m->NextVector(k)) {
          SutPause z;
          if (!st.c[(int)k.size()].count(k) || !seen.insert({(int)k.size(), k}).second)
            wl_bad("store-step", "NextVector gives " + kt(k) + " wrongly" + where());
        }
        SutPause z;
        if (seen.size() != total) wl_bad("store-step", fmt("NextVector gives %zu of %zu entries", seen.size(), total) + where());
      } else if (n == "wr") {
        if (m->order() < 1 || std::max(st.bo, 1) != m->order()) continue;
        FILE *f = fopen("counts.tmp", "w");
        if (!f) wl_bad("store-file", "cannot write");
        m->WriteCounts(f);
        fclose(f);
        MOC *m2 = new MOC;
        m2->vocabsize = 7;
        m2->hashsize = m->hashsize;
        f = fopen("counts.tmp", "r");
        if (!f) wl_bad("store-file", "cannot read back");
        m2->ReadCounts(f);
        fclose(f);
        State s2 = st;
        {
          SutPause z;
          s2.co = 0;
          s2.bo = 0;
          for (auto &c : s2.c)
            for (auto i = c.second.begin(); i != c.second.end();)
              if (!i->second) i = c.second.erase(i); else { s2.co = std::max(s2.co, c.first); ++i; }
          for (auto &b : s2.b)
            for (auto i = b.second.begin(); i != b.second.end();)
              if (!i->second.den) i = b.second.erase(i); else { s2.bo = std::max(s2.bo, b.first); ++i; }
          if (m2->vocabsize != m->vocabsize) wl_bad("store-file", "the counts file gives another vocabulary size" + where());
        }
        if (m2->order() >= 1) check_store(m2, s2, "the store read back", true);
        delete m2;
      } else if (n == "burst") {
        Rng r(o.arg(2));
        long cnt = o.arg(1);
        for (long i = 0; i < cnt; i++) {
          K k;
          { SutPause z; k.resize(ord); for (auto &e : k) e = (KT)r.below(p.geti("range", 9)); }
          m->IncrementCount(ord, &k[0], 1);
          m->IncrementBackoffDen(ord, k.data(), 1);
          SutPause z;
          st.co = std::max(st.co, ord);
          st.c[ord][k] += 1;
          B d = zero();
          d.den = 1;
          K c(k.begin(), k.end() - 1);
          inc_bo(ord, c, d, true);
        }
        deep = true;
      }
      if (m->order() >= 1) check_store(m, st, "the store", deep || st.c.empty());
    }
    if (m->order() >= 1) check_store(m, st, "the store", true);
    delete m;
    SutPause z;
    size_t tot = 0;
    for (auto &c : st.c) tot += c.second.size();
    report(fmt("OK %zu entries", tot));
  }
};
} // namespace

void lib_counts_run(const Plan &p) {
  std::string w = p.get("wl"), kt = p.get("kt", "int"), vt = p.get("vt", "int");
  if (w == "capi") { capi_run(p); return; }
  if (w == "matrix") {
#define M(kn, kty, vn, vty) if (kt == kn && vt == vn) { MatrixRun<kty, vty> *x = new MatrixRun<kty, vty>; x->run(p); return; }
    M("int", int, "int", int) M("int", int, "long", long) M("int", int, "float", float) M("int", int, "bo", boc) M("int", int, "bo3", Bo3)
    M("short", unsigned short, "int", int) M("short", unsigned short, "long", long) M("short", unsigned short, "float", float)
    M("short", unsigned short, "bo", boc) M("short", unsigned short, "bo3", Bo3)
#undef M
  }
  if (w == "store") {
    int n3 = (int)p.geti("n3");
#define S(kn, kty, vn, vty) if (kt == kn && vt == vn) { \
    if (n3) { auto *x = new StoreRun<MultiOrderCounts_3nzer<kty, vty>, kty, vty, MultiOrderCounts_counter_types::bo_3c<vty>>; x->run(p); } \
    else { auto *x = new StoreRun<MultiOrderCounts_1nzer<kty, vty>, kty, vty, MultiOrderCounts_counter_types::bo_c<vty>>; x->run(p); } return; }
    S("int", int, "int", int) S("short", unsigned short, "int", int) S("int", int, "long", long) S("short", unsigned short, "long", long)
#undef S
  }
  report("BAD harness unknown workload");
}
} // namespace sim
