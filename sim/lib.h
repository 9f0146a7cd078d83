// Workloads that drive the library directly. They are compiled against the library's headers; if that fails
// (its interface changed), only the checks that need them are affected, so the declarations are weak.
#pragma once
#include "plan.h"
namespace sim {
// what a workload found: reported as "BAD <class> <text>" or "OK ..." through report()
[[noreturn]] void wl_bad(const std::string &cls, const std::string &text);
void lib_counts_run(const Plan &) __attribute__((weak));
void lib_streams_run(const Plan &) __attribute__((weak));
void lib_scoring_run(const Plan &) __attribute__((weak));
void lib_training_run(const Plan &) __attribute__((weak));
} // namespace sim
