// Run-time side of the controlled scheduler: what the compiler's memory-access
// call-backs (-fsanitize=thread instrumentation, linked WITHOUT libtsan) feed.
// Plain C-like interface so that no template code is shared with the
// instrumented units.
#ifndef VERIF_RACE_RT_HPP
#define VERIF_RACE_RT_HPP
#include <cstddef>
#include <cstdint>
namespace rt {
const unsigned MAX_THREADS = 1024;
extern bool recording;          // an exploration is running
extern unsigned paused;         // > 0: harness code, accesses do not count
extern unsigned cur;            // logical thread that runs
extern bool bad;                // a race / use after free was found
extern char message[1024];
extern std::uint64_t accesses;
extern void (*point)();         // called before a visible access (scheduling point)
extern unsigned points_on;       // scheduling points: 1 locks, 2 + atomics, 3 + memory two threads touch

void reset();                                   // before an execution: memory, clocks
void fork(unsigned parent, unsigned child);     // child starts with the parent's past
void join(unsigned parent, unsigned child);     // parent has seen all of child
void stack(unsigned thread, const void* lo, const void* hi);   // private stack of a thread
void dead_stack(const void* lo, const void* hi);               // frames that are gone
void learn_visible(bool on);                    // visible = granules seen by two threads with a write
std::size_t visible_count();
void keep_visible();                            // take the granules of this execution as the visible ones
void forget_visible();
extern int (*mutex_wait)(void* m);              // block until m is free
void* stack_alloc(unsigned i, std::size_t n);

struct Pause { Pause() { ++paused; } ~Pause() { --paused; } };
}
#endif
