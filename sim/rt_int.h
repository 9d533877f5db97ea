// Internal to the runtime (rt.cc, io.cc).
#ifndef SIM_RT_INT_H_
#define SIM_RT_INT_H_
#include "rt.h"
#include <pthread.h>

namespace sim {
extern bool g_active;
extern Config g_cfg;
extern Result *g_res;
extern uint64_t g_step, g_next;
extern __thread int t_self; // -1: not a simulated thread

uint64_t rng(uint64_t *s);
extern uint64_t g_rng_io;
void mix(uint64_t v);
void mix_sched(uint64_t v);
void sync_point(int kind, uintptr_t obj);
void block_on(uintptr_t key);
int wake_key(uintptr_t key, int n);
uint64_t now_ns();
[[noreturn]] void die_crash(const char *what);
[[noreturn]] void die_abort(const char *what);
void *real_sym(const char *name);
extern char g_scratch[4096];
extern size_t g_scratch_len;
void io_init();
} // namespace sim
#endif
