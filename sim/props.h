#pragma once
#include "gen.h"
namespace sim {
// fault plans against the streams a fault-free run used
std::vector<Fault> output_faults(Rng &r, const ProcResult &base, const std::vector<OutRef> &outs, int per_stream);
std::vector<Fault> input_faults(Rng &r, const ProcResult &base, const std::vector<OutRef> &outs, int per_stream);
std::string fired_text(const ProcResult &r);
bool any_fired(const ProcResult &r);
// first abnormal thing that no run may show (memory errors, escapes); empty if none
std::string unsound(const ProcResult &r);
std::string tool_class(const std::string &tool);
const char *how_text(const ProcResult &r);
Plan command_plan(const Scenario &s, const Env &e);
bool harness(Verdict &v, const ProcResult &r);
bool undecided(Verdict &v, const ProcResult &r);
void keep_some(Rng &r, std::vector<Fault> &v, size_t n);
Fault mk(int kind, const std::string &t, int64_t at, int64_t at2 = 0, int64_t arg = 0, int err = 0);

// the files of variant i of a plan whose inputs are "slot N" files
Fs variant_files(const Plan &p, size_t i, ProcSpec &q);
void add_variant(Plan &p, int i, const Scenario &t, const Env &e);

Verdict check_c09_train(const Plan &);
void explore_c09_train(Rng &, Explorer &);
#define DECL(x) Verdict check_##x(const Plan &); void explore_##x(Rng &, Explorer &)
DECL(c01); DECL(c02); DECL(c03); DECL(c04); DECL(c05); DECL(c06); DECL(c07);
DECL(c08); DECL(c09); DECL(c10); DECL(c11); DECL(c12); DECL(c13); DECL(c14); DECL(c15); DECL(c16); DECL(c17); DECL(c18); DECL(c19); DECL(c20); DECL(c21);
#undef DECL
} // namespace sim
