// Generators: texts, models, command lines, channels.
#pragma once
#include "plan.h"

namespace sim {
struct TextGen {
  std::vector<std::string> vocab;
  int lines = 0, words = 0; // 0: drawn
  bool tags = false;        // <s> ... </s>
  bool long_tokens = false;
};
std::vector<std::string> gen_vocab(Rng &r, int n);
std::string gen_text(Rng &r, TextGen g);
std::vector<std::string> tokens(const std::string &s);
std::vector<std::string> distinct_words(const std::string &s);

enum { M_BACKOFF = 1, M_INTERP = 2, M_TREE = 4, M_FREE = 8, M_SMALL = 16, M_UNK = 32, M_BIN = 64 };
struct ModelFile {
  std::string arpa, bin; // bin: empty if it cannot be one
  bool interp = false, tree = false;
  int order = 0;
  std::vector<std::string> words;
  std::vector<std::string> some; // of a wide model: the words its n-grams are made of
  std::string origin;
};
// a model drawn from a pool that depends on the run's random numbers only
const ModelFile &gen_model(Rng &r, int want);
ModelFile synth_model(Rng &r, int want);
ModelFile wide_model(Rng &r, int want);          // about 65536 words
std::vector<std::string> wide_words(Rng &r, std::vector<std::string> &some);
const std::string &pool_text(Rng &r);

struct Slot {
  char dir = 'i';      // i / o
  std::string stem;    // file name without compression suffix
  std::string data;    // input contents
  bool std_ok = false; // "-" allowed
  bool pipe_ok = true;
  bool opt = false;    // an option's file (not positional)
  bool model = false;
  char chan = 'P';     // P plain, G .gz, B .bz2, C cat pipe, Z gzip pipe, S "-"
  std::string file;    // file behind it after rendering ("" for S)
};
struct Scenario {
  std::string tool;
  std::vector<std::string> argv; // with \x01<digit> for slots
  std::vector<Slot> slots;
  std::string label;
};
enum {
  T_COUNTS = 1, T_VARI = 2, T_PERP = 4, T_A2B = 8, T_B2A = 16, T_A2A = 32, T_SIZE = 64, T_CHECK = 128,
  T_ZERO = 256, T_INTER = 512, T_ALL = 1023, T_WRITERS = 1 + 2 + 8 + 16 + 32 + 256 + 512, T_TRAIN = 3
};
Scenario gen_scenario(Rng &r, int tools);
// assigns channels; what: bit 0 vary inputs, bit 1 vary outputs, bit 2 odd names
void assign_channels(Rng &r, Scenario &s, int what);
void render(const Scenario &s, Fs &fs, ProcSpec &p);
Env gen_env(Rng &r);
// outputs as text for plans: one "k:name" per line
std::string outs_text(const Scenario &s);
struct OutRef { char kind; std::string name; }; // f g b -
std::vector<OutRef> outs_parse(const std::string &s);
bool stdout_is_output(const std::vector<OutRef> &o);
// contents that reached an output; false: missing or damaged
bool out_content(const OutRef &o, const ProcResult &r, std::string &data);
// every slot as "stem dir k:name" lines, and its contents before (inputs) or after (outputs) a run
std::string slots_text(const Scenario &s);
std::string raw_counts(const std::string &counts, int n); // the highest order of a counts file, the way -Z wants it
bool slot_input(const Plan &p, int proc, const std::string &stem, std::string &data);
bool slot_output(const Plan &p, const ProcResult &r, const std::string &stem, std::string &data);
std::string list_file(const std::vector<std::string> &w);
std::vector<std::string> some_words(Rng &r, const std::vector<std::string> &w, double p);
// builds command lines: adds slots and draws options
struct CmdGen {
  Rng &r;
  Scenario &s;
  CmdGen(Rng &r, Scenario &s) : r(r), s(s) {}
  std::string in(const std::string &stem, const std::string &data, bool std_ok = false, bool opt = false);
  std::string out(const std::string &stem, bool opt = false);
  bool flag(double p, const char *f);
  bool val(double p, const char *f, const std::string &v);
};
std::string sq(const std::string &s); // single-quoted for a shell
std::vector<ProcSpec> dummy();
} // namespace sim
