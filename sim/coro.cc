#include "coro.h"
#include "core.h"
#include <ucontext.h>

namespace sim {
namespace {
struct Co { ucontext_t ctx; char *stack = nullptr; bool done = false; };
std::vector<Co> *cos;
ucontext_t home;
const std::function<void(int)> *co_body;
const std::vector<CoSwitch> *co_sw;
int cur = -1, made;
size_t next_sw;
uint64_t budget;
void arm() { budget = next_sw < co_sw->size() ? (*co_sw)[next_sw].blocks + 1 : 0; }
void hook() {
  if (cur < 0 || !budget || --budget) return;
  int to = (*co_sw)[next_sw++].to, from = cur;
  int n = (int)cos->size();
  to = ((to % n) + n) % n;
  for (int i = 0; i < n && (*cos)[to].done; i++) to = (to + 1) % n;
  arm();
  if (to == from) return;
  made++;
  cur = to;
  swapcontext(&(*cos)[from].ctx, &(*cos)[to].ctx);
}
void entry(int i) {
  (*co_body)(i);
  (*cos)[i].done = true;
  cur = -1;
  swapcontext(&(*cos)[i].ctx, &home);
}
} // namespace
int coro_run(int n, const std::function<void(int)> &body, const std::vector<CoSwitch> &sw) {
  SutPause *p = new SutPause;
  const size_t SZ = 1 << 20;
  cos = new std::vector<Co>(n);
  co_body = &body;
  co_sw = &sw;
  made = 0;
  next_sw = 0;
  for (int i = 0; i < n; i++) {
    Co &c = (*cos)[i];
    getcontext(&c.ctx);
    c.stack = new char[SZ];
    c.ctx.uc_stack.ss_sp = c.stack;
    c.ctx.uc_stack.ss_size = SZ;
    c.ctx.uc_link = nullptr;
    makecontext(&c.ctx, (void (*)())entry, 1, i);
  }
  delete p;
  arm();
  set_preempt(hook);
  for (int i = 0; i < n; i++)
    while (!(*cos)[i].done) {
      cur = i;
      swapcontext(&home, &(*cos)[i].ctx);
    }
  set_preempt(nullptr);
  return made;
}
} // namespace sim
