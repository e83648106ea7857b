/* every edge of the instrumented code comes here; a thread under the scheduler has a hook */
#include <stdint.h>
static __thread void (*hook)(void);
static __thread int busy;
void sched_set_hook(void (*h)(void)) { hook = h; }
void sched_pause(int on) { busy = on; }
int sched_paused(void) { return busy; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (hook && !busy) { busy = 1; hook(); busy = 0; } }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { }
