// Command line of the simulator worker.
#include "props.h"
#include <cstdlib>
#include <cstring>
#include <unistd.h>
using namespace sim;

namespace sim {
const std::vector<Property> &properties() {
  static const std::vector<Property> v = {
#define P(n) {"C" #n, check_c##n, explore_c##n}
      P(01), P(02), P(03), P(04), P(05), P(09), P(07), P(10), P(11), P(13), P(08), P(14), P(12), P(06), P(15), P(16), P(17), P(18), P(19), P(20), P(21),
#undef P
  };
  return v;
}
} // namespace sim

static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < ' ' || c >= 127) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
static const char *opt(int argc, char **argv, const char *n, const char *d) {
  for (int i = 2; i + 1 < argc; i++)
    if (!strcmp(argv[i], n)) return argv[i + 1];
  return d;
}
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::string mode = argv[1];
  if (!init_world()) { fprintf(stderr, "cannot set up the simulated world\n"); return 2; }
  if (const char *d = getenv("VSIM_DEBUG")) g_debug = atoi(d);
  if (mode == "replay" && argc >= 3) return replay_file(argv[2], false);
  if (mode != "run") return 2;
  std::string prop = opt(argc, argv, "--prop", "");
  const Property *P = nullptr;
  for (auto &q : properties())
    if (prop == q.id) P = &q;
  if (!P) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }
  Explorer ex;
  ex.prop = prop;
  ex.check = P->check;
  ex.seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
  uint64_t from = strtoull(opt(argc, argv, "--from", "0"), nullptr, 10);
  uint64_t step = strtoull(opt(argc, argv, "--step", "1"), nullptr, 10);
  uint64_t count = strtoull(opt(argc, argv, "--count", "10"), nullptr, 10);
  double secs = atof(opt(argc, argv, "--secs", "0"));
  bool hashes = atoi(opt(argc, argv, "--hashes", "0"));
  bool slow = getenv("VSIM_SLOW");
  ex.outdir = opt(argc, argv, "--out", "/tmp");
  if (secs > 0) ex.deadline = mono() + secs;
  if (const char *kf = opt(argc, argv, "--known", nullptr)) {
    if (FILE *f = fopen(kf, "r")) {
      char b[4096];
      while (fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0;
        if (*b) ex.known.push_back(b);
      }
      fclose(f);
    }
  }
  double t0 = mono();
  for (uint64_t i = 0; i < count && !ex.stop(); i++) {
    uint64_t idx = from + i * step;
    Rng r(mix(hash_str(prop), mix(ex.seed, idx)));
    ex.run_index = idx;
    std::set<uint64_t> before;
    if (hashes) { before.swap(ex.distinct); ex.distinct.clear(); }
    double a = mono();
    P->explore(r, ex);
    ex.runs++;
    if (slow && mono() - a > 1) fprintf(stderr, "run %llu took %.1f s\n", (unsigned long long)idx, mono() - a);
    if (hashes) {
      uint64_t h = 0;
      for (auto x : ex.distinct) h = mix(h, x);
      printf("%llu %016llx %llu\n", (unsigned long long)idx, (unsigned long long)h, (unsigned long long)ex.evaluations);
      ex.distinct.insert(before.begin(), before.end());
    }
  }
  if (hashes) return ex.error ? 2 : ex.violation_line.empty() ? 0 : 1;
  std::string o = "{";
  auto num = [&](const char *k, uint64_t v) { o += js(k) + ": " + std::to_string(v) + ", "; };
  num("runs", ex.runs);
  num("evaluations", ex.evaluations);
  num("nontrivial", ex.nontrivial);
  num("distinct", ex.distinct.size());
  num("procs", g_stats.procs);
  num("steps", g_stats.steps);
  num("io_events", g_stats.io_events);
  num("allocs", g_stats.allocs);
  num("edges", coverage_edges());
  num("unrepeatable", ex.unrepeatable);
  o += "\"secs\": " + fmt("%.2f", mono() - t0) + ", \"fired\": {";
  for (int i = 1; i < F_NKINDS; i++) o += (i > 1 ? ", " : "") + js(fault_name(i)) + ": " + std::to_string(g_stats.fired[i]);
  o += "}, \"probes\": {";
  bool first = true;
  for (auto &x : g_stats.probes) { o += (first ? "" : ", ") + js(x.first) + ": " + std::to_string(x.second); first = false; }
  o += "}, \"outcomes\": {";
  first = true;
  for (auto &x : g_stats.outcomes) { o += (first ? "" : ", ") + js(x.first) + ": " + std::to_string(x.second); first = false; }
  o += "}, \"known\": {";
  first = true;
  for (auto &x : ex.known_hits) { o += (first ? "" : ", ") + js(x.first) + ": " + std::to_string(x.second); first = false; }
  o += "}, \"states\": [";
  first = true;
  for (auto &x : ex.states) { o += (first ? "" : ", ") + js(x); first = false; }
  o += "], \"hashes\": [";
  first = true;
  size_t k = 0;
  for (auto &x : ex.distinct) { if (k++ >= 60000) break; o += (first ? "" : ", ") + std::to_string(x); first = false; }
  o += "], \"samples\": [";
  first = true;
  for (auto &x : ex.samples) { o += (first ? "" : ", ") + js(x); first = false; }
  o += "], \"violation\": " + js(ex.violation_line) + ", \"error\": " + js(ex.error ? ex.error_text : "") +
       ", \"text\": " + js(ex.error_text) + ", \"unrepeatable_text\": " + js(ex.unrepeatable_text) + "}";
  printf("%s\n", o.c_str());
  return ex.error ? 2 : ex.violation_line.empty() ? 0 : 1;
}
