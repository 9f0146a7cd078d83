// Coroutines switched at instrumented blocks (or explicitly), inside one simulated process.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace sim {
struct CoSwitch { uint64_t blocks; int to; };
// runs n bodies, each on its own stack; the k-th switch happens after that many more blocks;
// when the list is used up every body runs to its end, in order. Returns the number of switches made.
int coro_run(int n, const std::function<void(int)> &body, const std::vector<CoSwitch> &sw);
} // namespace sim
