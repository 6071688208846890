#include "threads.hpp"
#include "seam.hpp"
#include <ucontext.h>
#include <cerrno>
#include <sys/mman.h>
#include <unordered_map>
#include <algorithm>

namespace sim {
static std::function<bool()>* g_deadlock;
struct Th { int id; ucontext_t ctx; int st; /*0 runnable 1 blocked 2 done*/ std::function<bool()> pred; void* (*fn)(void*); void* arg; void* ret; bool joined, detached; size_t stack; void* mem; const char* why; std::vector<char> tls; };
void tls_switch(std::vector<char>& from, std::vector<char>& to);
struct Mx { int owner = -1; bool live = true; };
struct Cv { std::vector<int> waiters; std::set<int> woken; bool live = true; };
static std::vector<Th*>* th; static int cur;
static std::map<const void*, Mx>* mx; static std::map<const void*, Cv>* cv; static std::map<const void*, size_t>* at;
static const size_t CS = 256 * 1024;
static std::vector<void*>* pool; static size_t poolused;
static int64_t pre_left = INT64_MAX; static uint32_t pre_mean; static uint64_t pre_count;   // blocks until the next preemption

void threads_reset() {
    if (!th) { th = new std::vector<Th*>; mx = new std::map<const void*, Mx>; cv = new std::map<const void*, Cv>; at = new std::map<const void*, size_t>; pool = new std::vector<void*>; g_deadlock = new std::function<bool()>; }
    *g_deadlock = nullptr;
    for (auto* t : *th) delete t;
    th->clear(); mx->clear(); cv->clear(); at->clear(); poolused = 0; cur = 0; pre_left = INT64_MAX; pre_mean = 0; pre_count = 0;
    auto* t = new Th(); t->id = 0; t->st = 0; t->joined = true; th->push_back(t);
}
static void sched() {
    step();
    std::vector<int> r;
again:
    for (auto* t : *th) { if (t->st == 1 && t->pred && t->pred()) { t->st = 0; t->pred = nullptr; } }
    if ((*th)[cur]->st == 0) r.push_back(cur);
    for (auto* t : *th) if (t->st == 0 && t->id != cur) r.push_back(t->id);
    if (r.empty() && *g_deadlock && (*g_deadlock)()) goto again;
    if (r.empty()) {
        std::string s; for (auto* t : *th) if (t->st == 1) s += "thread " + std::to_string(t->id) + " in " + t->why + "; ";
        viol("deadlock", "no thread can run: %s", s.c_str());
    }
    int n = r[choose((uint32_t)r.size())];
    if (n != cur) { int o = cur, e = errno; cur = n; ev("switch", o, n); tls_switch((*th)[o]->tls, (*th)[n]->tls); swapcontext(&(*th)[o]->ctx, &(*th)[n]->ctx); errno = e; }
}
static void block(std::function<bool()> p, const char* why) { Th* t = (*th)[cur]; t->st = 1; t->pred = p; t->why = why; sched(); }
// ---- preemption between any two basic blocks of the library
static void pre_arm() { uint32_t v = pre_mean ? choose(2 * pre_mean) : 0; pre_left = v ? (int64_t)v : INT64_MAX; }   // 0, the simplest: never again
void preempt_config() { static const uint32_t mean[] = {0, 2000, 150, 20, 4}; pre_mean = preempt_possible() ? mean[choose(5)] : 0; pre_arm(); }
uint64_t preemptions() { return pre_count; }
static void preempted() { ++pre_count; pre_arm(); sched(); }
void thread_yield() { sched(); }
bool threads_multi() { for (auto* t : *th) if (t->id != cur && t->st != 2) return true; return false; }
void thread_block(std::function<bool()> p, const char* why) { block(p, why); }
void on_deadlock(std::function<bool()> f) { *g_deadlock = f; }
int thread_self() { return cur; }
size_t threads_alive() { size_t n = 0; for (auto* t : *th) if (t->id && t->st != 2) ++n; return n; }
bool thread_joined(int id) { return th && id > 0 && (size_t)id < th->size() && (*th)[id]->joined; }
size_t threads_unjoined() { size_t n = 0; for (auto* t : *th) if (t->id && !t->joined && !t->detached) ++n; return n; }
size_t mutexes_live() { size_t n = 0; for (auto& m : *mx) n += m.second.live; return n; }
size_t conds_live() { size_t n = 0; for (auto& m : *cv) n += m.second.live; return n; }
size_t attrs_live() { return at->size(); }
size_t thread_stack_size(int t) { return (*th)[t]->stack; }
size_t thread_created() { return th->size() - 1; }
bool thread_blocked(int t) { return (*th)[t]->st == 1; }
size_t cond_waiters_total() { size_t n = 0; for (auto& c : *cv) n += c.second.waiters.size(); return n; }
static void entry() {
    Th* t = (*th)[cur]; t->ret = t->fn(t->arg); t->st = 2; ev("thread-done", t->id);
    for (;;) sched();
}
static Mx& M(const void* p, const char* op) { auto it = mx->find(p); if (it == mx->end() || !it->second.live) viol("bad-mutex", "%s on a mutex that is not initialised", op); return it->second; }
static Cv& C(const void* p, const char* op) { auto it = cv->find(p); if (it == cv->end() || !it->second.live) viol("bad-cond", "%s on a condition that is not initialised", op); return it->second; }
bool mutex_held_by_self() { for (auto& m : *mx) if (m.second.live && m.second.owner == cur) return true; return false; }
} // namespace sim
using namespace sim;
extern "C" {
int sim_pthread_attr_init(pthread_attr_t* a) { step(); if (fault(F_THREAD_ATTR_ERR)) return ENOMEM; (*at)[a] = 0; return 0; }
int sim_pthread_attr_destroy(pthread_attr_t* a) { step(); if (!at->erase(a)) viol("bad-attr", "destroying thread attributes that are not initialised"); return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { step(); if (!at->count(a)) viol("bad-attr", "setting the stack size of uninitialised attributes"); if (n < 16384 || fault(F_THREAD_ATTR_ERR)) return EINVAL; (*at)[a] = n; return 0; }
int sim_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    sched(); if (a && !at->count(a)) viol("bad-attr", "creating a thread with uninitialised attributes");
    if (fault(F_THREAD_CREATE_ERR)) return EAGAIN;
    Th* t = new Th(); t->id = (int)th->size(); t->st = 0; t->fn = fn; t->arg = arg; t->joined = t->detached = false; t->stack = a ? (*at)[a] : 0;
    if (poolused == pool->size()) pool->push_back(mmap(nullptr, CS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    t->mem = (*pool)[poolused++];
    getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->mem; t->ctx.uc_stack.ss_size = CS; t->ctx.uc_link = nullptr; makecontext(&t->ctx, entry, 0);
    th->push_back(t); *out = (pthread_t)t->id; ev("thread-create", t->id); sched(); return 0;
}
int sim_pthread_join(pthread_t p, void** r) {
    sched(); size_t id = (size_t)p; if (id >= th->size() || id == 0) viol("bad-join", "joining an unknown thread"); Th* t = (*th)[id]; if (t->joined) viol("bad-join", "joining a thread twice");
    if ((int)id == cur) return EDEADLK;
    if (t->st != 2) block([t] { return t->st == 2; }, "join");
    t->joined = true; ev("joined", id); if (fault(F_SYNC_OP_ERR)) return EINVAL; if (r) *r = t->ret; return 0;
}
int sim_pthread_detach(pthread_t p) { sched(); (*th)[(size_t)p]->detached = true; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)cur; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { step(); if (fault(F_SYNC_INIT_ERR)) return choose(2) ? ENOMEM : EAGAIN; (*mx)[m] = Mx(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { sched(); Mx& x = M(m, "destroy"); if (x.owner >= 0) viol("bad-mutex", "destroying a locked mutex"); x.live = false; mx->erase(m); if (fault(F_SYNC_OP_ERR)) return EBUSY; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    sched(); M(m, "lock"); if (fault(F_SYNC_OP_ERR)) return choose(2) ? EAGAIN : EINVAL;
    if (M(m, "lock").owner == cur) viol("self-deadlock", "thread locks a mutex it already holds");
    while (M(m, "lock").owner >= 0) block([m] { auto it = mx->find(m); return it == mx->end() || it->second.owner < 0; }, "lock");
    M(m, "lock").owner = cur; ev("lock", cur); return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { sched(); Mx& x = M(m, "trylock"); if (x.owner >= 0) return EBUSY; x.owner = cur; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    step(); Mx& x = M(m, "unlock"); if (x.owner != cur) viol("bad-unlock", "thread %d unlocks a mutex it does not hold", cur);
    if (fault(F_SYNC_OP_ERR)) return EPERM;
    x.owner = -1; ev("unlock", cur); sched(); return 0;
}
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { step(); if (fault(F_SYNC_INIT_ERR)) return choose(2) ? ENOMEM : EAGAIN; (*cv)[c] = Cv(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { sched(); Cv& x = C(c, "destroy"); if (!x.waiters.empty()) viol("bad-cond", "destroying a condition with waiters"); x.live = false; cv->erase(c); if (fault(F_SYNC_OP_ERR)) return EBUSY; return 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    step(); Mx& x = M(m, "wait"); Cv& v = C(c, "wait"); if (x.owner != cur) viol("bad-wait", "thread %d waits on a condition without holding the mutex", cur);
    if (fault(F_SYNC_OP_ERR)) return EINVAL;
    x.owner = -1; int me = cur; v.waiters.push_back(me); ev("cond-wait", me);
    bool spur = fault(F_SPURIOUS_WAKE);
    block([=] { auto it = cv->find(c); if (it == cv->end()) return true; auto& w = it->second.waiters; return spur || std::find(w.begin(), w.end(), me) == w.end(); }, "cond wait");
    auto it = cv->find(c); if (it != cv->end()) { auto& w = it->second.waiters; w.erase(std::remove(w.begin(), w.end(), me), w.end()); }
    while (M(m, "relock").owner >= 0) block([m] { auto i2 = mx->find(m); return i2 == mx->end() || i2->second.owner < 0; }, "relock after wait");
    M(m, "relock").owner = cur; ev("cond-woke", cur); return 0;
}
int sim_pthread_cond_signal(pthread_cond_t* c) { sched(); Cv& v = C(c, "signal"); if (fault(F_SYNC_OP_ERR)) return EINVAL; if (!v.waiters.empty()) { size_t i = choose((uint32_t)v.waiters.size()); ev("signal", v.waiters[i]); v.waiters.erase(v.waiters.begin() + i); } else ev("signal", -1); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { sched(); Cv& v = C(c, "broadcast"); if (fault(F_SYNC_OP_ERR)) return EINVAL; ev("broadcast", v.waiters.size()); v.waiters.clear(); return 0; }
void __sanitizer_cov_trace_pc(void) { if (__builtin_expect(--pre_left <= 0, 0)) preempted(); }
int sim_sched_yield(void) { sched(); return 0; }
int sim_pthread_yield(void) { sched(); return 0; }
}
