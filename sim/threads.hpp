// Simulated POSIX threads: every synchronisation operation is a scheduling point.
#pragma once
#include "core.hpp"
namespace sim {
void thread_yield();                 // explicit scheduling point for harness code
int thread_self();
size_t threads_alive();              // not yet finished (besides main)
size_t threads_unjoined();
bool thread_joined(int tid);
size_t mutexes_live();
size_t conds_live();
size_t attrs_live();
size_t thread_stack_size(int tid);
size_t thread_created();
bool thread_blocked(int tid);
bool mutex_held_by_self();
size_t cond_waiters_total();
bool threads_multi();                // another thread has not finished
void thread_block(std::function<bool()> until, const char* why);   // the others run meanwhile
void on_deadlock(std::function<bool()> f);   // no thread can run: true if something changed (time passes)
// preemption inside the library's own code, where the build variant traces it ("guard"): draws how often
void preempt_config();
bool preempt_possible();
uint64_t preemptions();
}
