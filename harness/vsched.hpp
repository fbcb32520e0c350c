/* Controlled scheduler: threads of the code under test run as coroutines in one
 * process; every access of instrumented code to shared memory, every atomic,
 * lock, condition variable, once, key and heap operation is a scheduling point.
 * All schedules up to a preemption bound are enumerated through mc::choose. */
#ifndef VSCHED_HPP
#define VSCHED_HPP
#include "mc.hpp"
#include <functional>
namespace vs {
/* scheduling granularity */
enum Gran { SYNC, ACCESS };
void begin(int preemption_bound, Gran g);        /* start of an execution (also restores statics) */
int  spawn(std::function<void()> f);             /* add a thread (before or during run) */
void run();                                      /* run until every thread ended */
int  self();
void point(const char *what);                    /* explicit scheduling point */
void access(const void *p, size_t n, bool write, const char *what);/* harness-declared access */
size_t live_blocks();                            /* heap blocks of instrumented code not freed */
size_t live_blocks_of(int thread);
void end();                                      /* end of execution: return memory */
bool is_live(const void *p);                     /* p lies in a live heap block */
bool was_freed(const void *p);                   /* p lies in a freed heap block */
void *alloc(size_t n);
void set_cond_spurious(bool on);
unsigned preemptions();
void relax();                                    /* let every other thread that can run go first */
int others();                                    /* other threads: 0 all ended, 1 all blocked, 2 some can run */
bool blocked(int thread);
void publish(const void *p);                       /* release / acquire an object of the harness */
void observe(const void *p);
bool waiting(int thread);                        /* blocked in a condition variable */
}
#endif
