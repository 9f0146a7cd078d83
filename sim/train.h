// Reading what training writes: counts files and vocabularies.
#pragma once
#include "gen.h"
namespace sim {
struct CountsFile {
  bool ok = false;
  std::string why;
  long vocabsize = 0;
  typedef std::vector<int> G;
  std::map<int, std::map<G, long>> counts;
  std::map<int, std::map<G, std::vector<long>>> backoffs; // keyed by context; nzer.. den prune_den
  int order() const { return counts.empty() ? 0 : counts.rbegin()->first; }
};
CountsFile parse_counts(const std::string &s);
struct Recount {
  std::vector<std::map<CountsFile::G, long>> occ, kn; // per order: occurrences; counts as Kneser-Ney smoothing keeps them
};
// every n-gram up to order n that ends at a token, the history being cut at each sentence start
Recount recount(const std::vector<int> &t, int n, int ss);
std::string gram_text(const std::vector<int> &g);
// value of an option in a rendered command line ("" if not there)
std::string opt_value(const std::vector<std::string> &argv, const std::string &o);
bool has_opt(const std::vector<std::string> &argv, const std::string &o);
} // namespace sim
