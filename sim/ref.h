// A small reference model: parses model files and scores by the textbook recursions.
#pragma once
#include "gen.h"
namespace sim {
struct RefLm {
  typedef std::vector<int> G;
  struct E {
    double lp = 0, bo = 0;
    bool has_bo = false;
  };
  enum Kind { TREE, HASH, INTERTREE };
  bool ok = false;
  std::string why;
  bool interp = false, binary = false, unk_listed = false, prefixes = true; // prefixes: every prefix is there
  int order = 0;
  std::vector<std::string> words; // id 0: the OOV symbol
  std::map<std::string, int> index;
  std::vector<std::map<G, E>> g;  // g[n]: n-grams
  std::vector<long> declared;
  int id(const std::string &w) const {
    auto i = index.find(w);
    return i == index.end() ? 0 : i->second;
  }
  // log10 probability of the last word of gram; hit: order used
  double score(const G &gram, Kind k, int *hit) const;
  std::string text(const G &gram) const;
};
RefLm ref_parse(const std::string &data, const std::string &oov = "<UNK>");
// n-gram sets as words; "" if a ⊆ b, otherwise one that is missing in b
std::string ref_missing(const RefLm &a, const RefLm &b, bool ignore_unk);
bool lp_close(double a, double b, double extra = 0);
} // namespace sim
