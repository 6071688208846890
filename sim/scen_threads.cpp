// Threads, mutexes and condition variables under a seeded scheduler with
// failing primitives and spurious wake-ups.
#include "common.hpp"
#include "threads.hpp"
#include <rcpr/thread.h>
RCPR_IMPORT_thread;

namespace {
void pause_some() { for (uint32_t n = choose(4); n > 2; --n) thread_yield(); if (choose(2)) thread_yield(); }
struct Mut { thread_mutex* m = nullptr; int owner = -1; uint64_t entries = 0; int64_t plain = 0; };
struct World {
    Alloc A; std::vector<Mut> mu; std::vector<thread_cond*> cv; std::vector<int> cvmu; uint32_t done = 0;
    void enter(Mut& m) { CHECK(m.owner < 0, "not-exclusive", "thread %d is in the critical section of thread %d", thread_self(), m.owner); m.owner = thread_self(); m.entries++; }
    void leave(Mut& m) { CHECK(m.owner == thread_self(), "not-exclusive", "the critical section of thread %d was taken by thread %d", thread_self(), m.owner); m.owner = -1; }
    // acquire: a failed acquisition holds nothing and can be repeated
    thread_mutex_lock* acquire(Mut& m) {
        for (uint32_t k = 0;; ++k) { thread_mutex_lock* l = (thread_mutex_lock*)0x31; uint64_t f0 = fault_fired(F_SYNC_OP_ERR); status r = thread_mutex_lock_acquire(&l, m.m); ev("acquire", thread_self(), r); step();
            if (r == OK) { enter(m); return l; }
            CHECK(fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "acquiring a lock returned 0x%x", r); CHECK(l == (thread_mutex_lock*)0x31 || !l, "output-changed", "a failed acquisition stored a lock"); thread_yield(); if (k > 3) faults_disable(); }
    }
    void release(Mut& m, thread_mutex_lock* l) {
        leave(m);
        for (uint32_t k = 0;; ++k) { uint64_t f0 = fault_fired(F_SYNC_OP_ERR); status r = resource_release(thread_mutex_lock_resource_handle(l)); ev("release", thread_self(), r); if (r == OK) return; CHECK(fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "releasing a lock returned 0x%x", r); CHECK(m.owner < 0, "not-exclusive", "a lock whose release failed is held by thread %d", m.owner); if (k > 3) faults_disable(); }
    }
    // wait: the lock is given up and held again afterwards, whatever the result
    void wait(Mut& m, thread_mutex_lock*& l, uint32_t c) {
        leave(m); uint64_t f0 = fault_fired(F_SYNC_OP_ERR); uint64_t e0 = m.entries; status r = thread_cond_wait(&l, cv[c]); ev("waited", thread_self(), r);
        if (r != OK) { CHECK(fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "waiting returned 0x%x", r); CHECK(m.entries == e0, "not-exclusive", "a failed wait gave up the mutex"); }
        CHECK(l != nullptr, "output-changed", "waiting lost the lock"); CHECK(mutex_held_by_self(), "lock-lost", "a wait that returned 0x%x does not hold the mutex", r); enter(m);
    }
    void signal(thread_mutex_lock* l, uint32_t c, bool all) {
        for (uint32_t k = 0;; ++k) { uint64_t f0 = fault_fired(F_SYNC_OP_ERR); status r = all ? thread_cond_signal_all(l, cv[c]) : thread_cond_signal_one(l, cv[c]); ev(all ? "signal-all" : "signal-one", thread_self(), c, r); if (r == OK) return; CHECK(fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "signalling returned 0x%x", r); if (k > 3) faults_disable(); }
    }
    void make(uint32_t nm, std::vector<uint32_t> conds) {
        mu.resize(nm); for (auto& m : mu) for (uint32_t k = 0;; ++k) { uint64_t f0 = faults_fired(); size_t lb = live_blocks(), n = mutexes_live(); status r = thread_mutex_create(&m.m, A.a); if (r == OK) break; CHECK(faults_fired() > f0, "wrong-status", "creating a mutex returned 0x%x", r); CHECK(live_blocks() == lb && mutexes_live() == n && !m.m, "memory-leak", "a failed mutex creation left something behind"); if (k > 3) faults_disable(); }
        for (uint32_t x : conds) { thread_cond* c = nullptr; for (uint32_t k = 0;; ++k) { uint64_t f0 = faults_fired(); size_t lb = live_blocks(), n = conds_live(); status r = thread_cond_create(&c, A.a); if (r == OK) break; CHECK(faults_fired() > f0, "wrong-status", "creating a condition returned 0x%x", r); CHECK(live_blocks() == lb && conds_live() == n && !c, "memory-leak", "a failed condition creation left something behind"); if (k > 3) faults_disable(); } cv.push_back(c); cvmu.push_back(x); }
        faults_enable();
    }
    void run(uint32_t n, thread_fn fn, std::vector<void*> ctx) {
        std::vector<thread*> th(n);
        for (uint32_t i = 0; i < n; ++i) for (uint32_t k = 0;; ++k) { uint64_t f0 = faults_fired(); status r = thread_create(&th[i], A.a, 65536, ctx[i], fn); if (r == OK) break; CHECK(faults_fired() > f0, "wrong-status", "creating a thread returned 0x%x", r); if (k > 3) faults_disable(); }
        for (uint32_t i = 0; i < n; ++i) { uint64_t f0 = fault_fired(F_SYNC_OP_ERR); status r = resource_release(thread_resource_handle(th[i])); CHECK(r == OK || fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "joining a thread returned 0x%x", r); }
        CHECK(done == n, "lost-progress", "only %u of %u threads finished", done, n);
    }
    void end() {
        faults_disable(); for (auto c : cv) CHECK(resource_release(thread_cond_resource_handle(c)) == OK, "wrong-status", "releasing a condition failed");
        for (auto& m : mu) { CHECK(m.owner < 0, "not-exclusive", "a thread ended holding a lock"); CHECK(resource_release(thread_mutex_resource_handle(m.m)) == OK, "wrong-status", "releasing a mutex failed"); }
        CHECK(mutexes_live() == 0 && conds_live() == 0 && attrs_live() == 0 && threads_unjoined() == 0, "object-leak", "%zu mutexes, %zu conditions, %zu attributes and %zu threads are left", mutexes_live(), conds_live(), attrs_live(), threads_unjoined()); A.release(); check_no_leaks("after releasing all thread objects");
    }
};
void t01_faults() { faults_config({F_ALLOC, F_SYNC_INIT_ERR, F_SYNC_OP_ERR, F_SPURIOUS_WAKE, F_THREAD_CREATE_ERR, F_THREAD_ATTR_ERR}, 300); set_step_limit(300000); preempt_config(); }
// ------------------------------------------------------------ plain exclusion
struct Excl { World* w; uint32_t rounds; };
status excl_fn(void* c) {
    Excl* x = (Excl*)c; World& w = *x->w;
    for (uint32_t i = 0; i < x->rounds; ++i) {
        // nested locks are taken in a fixed order
        uint32_t a = choose((uint32_t)w.mu.size()), b = choose((uint32_t)w.mu.size()); if (a > b) std::swap(a, b);
        thread_mutex_lock* la = w.acquire(w.mu[a]); thread_mutex_lock* lb = a != b ? w.acquire(w.mu[b]) : nullptr; CHECK(la != lb, "wrong-lock", "two mutexes gave the same lock");
        int64_t v = w.mu[b].plain; pause_some(); w.mu[b].plain = v + 1; pause_some();
        if (lb && choose(2)) { w.release(w.mu[a], la); pause_some(); w.release(w.mu[b], lb); } else { if (lb) w.release(w.mu[b], lb); w.release(w.mu[a], la); }
        pause_some(); mark_state((uint64_t)w.mu[b].plain * 16 + a * 4 + b);
    }
    w.done++; return OK;
}
SCENARIO(T01, critical_sections, 10) {
    t01_faults(); World w; w.make(1 + choose(3), {}); uint32_t n = 1 + choose(5); std::vector<Excl> x(n); std::vector<void*> ctx; uint64_t tot = 0; for (auto& e : x) { e = {&w, 1 + choose(6)}; tot += e.rounds; ctx.push_back(&e); }
    w.run(n, &excl_fn, ctx); uint64_t sum = 0; for (auto& m : w.mu) sum += m.plain; CHECK(sum == tot, "lost-update", "%llu updates under the lock left %llu", (unsigned long long)tot, (unsigned long long)sum); w.end();
}
// ------------------------------------------------------------ bounded queue
struct BQ { World w; std::deque<int> q; uint32_t cap, producers = 0, items; std::vector<int> got; bool one_cond; uint32_t produced = 0, consumed = 0, total = 0; };
struct BQT { BQ* b; bool prod; uint32_t n; int id; };
status bq_fn(void* c) {
    BQT* t = (BQT*)c; BQ& b = *t->b; Mut& m = b.w.mu[0]; uint32_t notempty = 0, notfull = b.one_cond ? 0 : 1;
    for (uint32_t i = 0; t->prod ? i < t->n : true; ++i) {
        thread_mutex_lock* l = b.w.acquire(m);
        if (t->prod) { while (b.q.size() >= b.cap) b.w.wait(m, l, notfull); b.q.push_back(t->id * 1000 + (int)i); b.produced++; pause_some(); b.w.signal(l, notempty, b.one_cond); }
        else {
            while (b.q.empty() && b.consumed < b.total) b.w.wait(m, l, notempty);
            if (b.q.empty()) { b.w.release(m, l); break; }
            b.got.push_back(b.q.front()); b.q.pop_front(); b.consumed++; pause_some(); if (b.consumed == b.total) b.w.signal(l, notempty, true); else b.w.signal(l, notfull, b.one_cond);
        }
        mark_state(b.q.size() * 64 + cond_waiters_total() * 8 + (b.consumed == b.total)); b.w.release(m, l); pause_some();
    }
    b.w.done++; return OK;
}
SCENARIO(T01, bounded_queue, 10) {
    t01_faults(); BQ b; b.one_cond = choose(2); b.cap = 1 + choose(3); b.w.make(1, b.one_cond ? std::vector<uint32_t>{0} : std::vector<uint32_t>{0, 0}); uint32_t np = 1 + choose(3), nc = 1 + choose(3); std::vector<BQT> t; std::vector<void*> ctx;
    for (uint32_t i = 0; i < np + nc; ++i) { BQT x{&b, i < np, i < np ? 1 + choose(5) : 0, (int)i}; if (x.prod) b.total += x.n; t.push_back(x); } for (auto& x : t) ctx.push_back(&x); for (uint32_t i = 0; i + 1 < ctx.size(); ++i) std::swap(ctx[i], ctx[i + choose((uint32_t)(ctx.size() - i))]);
    b.w.run(np + nc, &bq_fn, ctx); CHECK(b.got.size() == b.total, "lost-item", "%zu of %u items were consumed", b.got.size(), b.total);
    for (uint32_t p = 0; p < np; ++p) { int last = -1; for (int g : b.got) if (g / 1000 == (int)p) { CHECK(g % 1000 == last + 1, "wrong-order", "items of producer %u were consumed out of order", p); last++; } }
    b.w.end();
}
// ------------------------------------------------------------ rounds (broadcast)
struct Rounds { World w; uint32_t n, rounds, arrived = 0, gen = 0; std::vector<uint32_t> at; };
struct RT { Rounds* r; uint32_t i; };
status rounds_fn(void* c) {
    RT* t = (RT*)c; Rounds& r = *t->r; Mut& m = r.w.mu[0];
    for (uint32_t k = 0; k < r.rounds; ++k) {
        thread_mutex_lock* l = r.w.acquire(m); uint32_t g = r.gen;
        if (++r.arrived == r.n) { r.arrived = 0; r.gen++; pause_some(); r.w.signal(l, 0, true); } else while (r.gen == g) r.w.wait(m, l, 0);
        CHECK(r.gen == g + 1, "lost-progress", "a thread missed a round"); r.at[t->i] = r.gen; r.w.release(m, l); mark_state(r.gen * 8 + r.arrived); pause_some();
    }
    r.w.done++; return OK;
}
SCENARIO(T01, rounds, 6) {
    t01_faults(); Rounds r; r.n = 1 + choose(5); r.rounds = 1 + choose(4); r.at.resize(r.n); r.w.make(1, {0}); std::vector<RT> t(r.n); std::vector<void*> ctx; for (uint32_t i = 0; i < r.n; ++i) { t[i] = {&r, i}; ctx.push_back(&t[i]); }
    r.w.run(r.n, &rounds_fn, ctx); r.w.end();
}
// ------------------------------------------------------------ each waiter is woken by one signal
struct Tick { World w; uint32_t tickets = 0, n, waiting = 0, given = 0; };
status tick_fn(void* c) {
    Tick& r = *(Tick*)c; Mut& m = r.w.mu[0]; thread_mutex_lock* l = r.w.acquire(m); r.waiting++; while (!r.tickets) r.w.wait(m, l, 0); r.tickets--; r.waiting--; r.w.release(m, l); r.w.done++; return OK;
}
SCENARIO(T01, one_signal_each, 6) {
    t01_faults(); Tick r; r.n = 1 + choose(5); r.w.make(1, {0}); std::vector<thread*> th(r.n);
    for (auto& t : th) for (uint32_t k = 0;; ++k) { status x = thread_create(&t, r.w.A.a, 65536, &r, &tick_fn); if (x == OK) break; if (k > 3) faults_disable(); }
    while (r.given < r.n) { thread_mutex_lock* l = r.w.acquire(r.w.mu[0]); if (choose(2)) { r.tickets++; r.given++; pause_some(); r.w.signal(l, 0, false); } r.w.release(r.w.mu[0], l); thread_yield(); if (choose(64) == 63) faults_disable(); step(); if (r.given < r.n && !faults_on() && choose(8) == 0) { l = r.w.acquire(r.w.mu[0]); r.tickets++; r.given++; r.w.signal(l, 0, false); r.w.release(r.w.mu[0], l); } }
    for (auto t : th) { status x = resource_release(thread_resource_handle(t)); CHECK(x == OK || fault_fired(F_SYNC_OP_ERR), "wrong-status", "joining returned 0x%x", x); }
    CHECK(r.w.done == r.n && r.tickets == 0, "lost-progress", "%u of %u waiters were woken", r.w.done, r.n); r.w.end();
}

// ------------------------------------------------------------ thread lifetimes
struct Life; struct Job { Life* l; int id; int entered = 0; bool finished = false; status ret; size_t stack; uint32_t depth; thread* t = nullptr; int tid = -1; bool released = false; std::vector<Job*> kids; bool made = false; };
struct Life { Alloc A; std::vector<Job*> all; int creating = 0; uint32_t left; };
status life_fn(void* c);
void life_make(Life& w, std::vector<Job*>& mine, uint32_t depth) {
    static const status rets[] = {OK, (status)0x80010001, OK, (status)0x80FF0123, (status)7, (status)0x80000000, (status)256, (status)0x10000, (status)0xFFFFFFFF, (status)0x7FFF0000}; static const size_t st[] = {65536, 16384, 16385, 1 << 20, 100, 0, 16383, 8 << 20, (size_t)3 << 30, ((size_t)5 << 32) + 123, (size_t)1 << 32, SIZE_MAX};
    if (!w.left) return; w.left--; Job* j = new Job(); j->l = &w; j->id = (int)w.all.size(); j->ret = rets[choose(10)]; j->stack = st[choose(choose(4) ? 7 : 12)]; j->depth = depth; w.all.push_back(j);
    uint64_t f0 = faults_fired(); size_t made = thread_created(); bool alone = w.creating == 0 && threads_alive() == 0; size_t lb = live_blocks(); w.creating++; thread* t = nullptr; status r = thread_create(&t, w.A.a, j->stack, j, &life_fn); w.creating--; ev("create", j->id, r);
    if (r != OK) { CHECK(faults_fired() > f0 || j->stack < 16384, "wrong-status", "creating a thread returned 0x%x", r); CHECK(!t, "output-changed", "a failed creation stored a thread"); CHECK(!j->entered, "ran", "a thread whose creation failed ran"); if (alone) { CHECK(live_blocks() == lb, "memory-leak", "a failed thread creation left memory behind: %s", live_summary().c_str()); CHECK(thread_created() == made && attrs_live() == 0, "object-leak", "a failed creation left a thread or attributes behind"); } if (fault_fired(F_ALLOC) == faults_fired() && j->stack >= 16384) CHECK(is_oom(r), "wrong-status", "creating a thread without memory returned 0x%x", r); return; }
    CHECK(j->stack >= 16384, "false-success", "a thread was created with a stack of %zu bytes", j->stack); CHECK(t, "output-changed", "a created thread was not stored"); j->t = t; j->made = true; mine.push_back(j); if (!w.creating) CHECK(attrs_live() == 0, "object-leak", "creating a thread left its attributes behind");
}
void life_release(Life& w, Job* j) {
    uint64_t f0 = fault_fired(F_SYNC_OP_ERR); status r = resource_release(thread_resource_handle(j->t)); ev("join", j->id, r); j->released = true; CHECK(j->entered == 1, "entry-count", "a thread was released after entering %d times", j->entered); CHECK(j->finished, "not-joined", "releasing a thread returned before it finished");
    if (r != j->ret) CHECK(fault_fired(F_SYNC_OP_ERR) > f0, "wrong-status", "a thread that returned 0x%x was released with 0x%x", j->ret, r); else if (fault_fired(F_SYNC_OP_ERR) > f0) CHECK(true, "x", "x");
}
status life_fn(void* c) {
    Job* j = (Job*)c; Life& w = *j->l; int me = thread_self(); j->tid = me; j->entered++; CHECK(j->entered == 1, "entry-count", "the entry of a thread was called twice"); CHECK(thread_stack_size(me) == j->stack, "wrong-stack", "a thread asked for a stack of %zu bytes and got %zu", j->stack, thread_stack_size(me)); ev("run", j->id);
    std::vector<Job*> mine; if (j->depth < 3) for (uint32_t n = choose(3); n; --n) { pause_some(); life_make(w, mine, j->depth + 1); }
    pause_some(); while (!mine.empty()) { uint32_t i = choose((uint32_t)mine.size()); life_release(w, mine[i]); mine.erase(mine.begin() + i); pause_some(); }
    CHECK(thread_self() == me, "wrong-thread", "x"); mark_state(threads_alive() * 16 + j->depth); j->finished = true; return j->ret;
}
SCENARIO(T02, lifetimes, 10) {
    faults_config({F_ALLOC, F_THREAD_CREATE_ERR, F_THREAD_ATTR_ERR, F_SYNC_OP_ERR}, 300); set_step_limit(300000); preempt_config(); Life w; w.left = 1 + choose(8); std::vector<Job*> mine;
    while (w.left) { life_make(w, mine, 0); pause_some(); if (!mine.empty() && choose(3) == 0) { uint32_t i = choose((uint32_t)mine.size()); life_release(w, mine[i]); mine.erase(mine.begin() + i); } }
    while (!mine.empty()) { uint32_t i = choose((uint32_t)mine.size()); life_release(w, mine[i]); mine.erase(mine.begin() + i); }
    for (auto j : w.all) { CHECK(j->entered == (j->made ? 1 : 0), "entry-count", "a thread's entry was called %d times", j->entered); delete j; }
    CHECK(attrs_live() == 0 && threads_unjoined() == 0, "object-leak", "%zu attributes and %zu threads are left", attrs_live(), threads_unjoined()); w.A.release(); check_no_leaks("after joining all threads");
}
SCENARIO(T02, objects, 4) {
    faults_config({F_ALLOC, F_SYNC_INIT_ERR, F_SYNC_OP_ERR}, 200); Alloc A; std::vector<resource*> v; std::vector<bool> mtx; size_t nm = 0, nc = 0;
    for (uint32_t k = 1 + choose(20); k; --k) { step();
        if (choose(3) != 2 || v.empty()) { bool m = choose(2); uint64_t f0 = faults_fired(), fa = fault_fired(F_ALLOC); size_t lb = live_blocks(); thread_mutex* x = nullptr; thread_cond* c = nullptr; status r = m ? thread_mutex_create(&x, A.a) : thread_cond_create(&c, A.a); ev("create", m, r);
            if (r != OK) { CHECK(faults_fired() > f0, "wrong-status", "creation returned 0x%x", r); CHECK(!x && !c, "output-changed", "a failed creation stored something"); CHECK(live_blocks() == lb, "memory-leak", "a failed creation left memory behind"); CHECK(is_oom(r) == (fault_fired(F_ALLOC) > fa), "wrong-status", "creation returned 0x%x", r); } else { CHECK(faults_fired() == f0, "false-success", "creating a %s whose initialisation failed succeeded", m ? "mutex" : "condition"); v.push_back(m ? thread_mutex_resource_handle(x) : thread_cond_resource_handle(c)); mtx.push_back(m); (m ? nm : nc)++; } }
        else { uint32_t i = choose((uint32_t)v.size()); uint64_t f0 = faults_fired(); size_t lb = live_blocks(); status r = resource_release(v[i]); ev("release", r); CHECK((r == OK) == (faults_fired() == f0), "wrong-status", "releasing returned 0x%x", r); CHECK(live_blocks() == lb - 1, "memory-leak", "releasing left memory behind"); (mtx[i] ? nm : nc)--; v.erase(v.begin() + i); mtx.erase(mtx.begin() + i); }
        CHECK(mutexes_live() == nm && conds_live() == nc, "object-leak", "%zu mutexes and %zu conditions exist, expected %zu and %zu", mutexes_live(), conds_live(), nm, nc); mark_state(nm * 32 + nc); }
    faults_disable(); for (auto r : v) CHECK(resource_release(r) == OK, "wrong-status", "releasing failed"); CHECK(mutexes_live() == 0 && conds_live() == 0, "object-leak", "objects are left"); A.release(); check_no_leaks("after releasing all objects");
}
ALSO(V01, lifetimes, 1);
}
