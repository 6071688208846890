// Fiber scheduler: a model-checked world of fibers, disciplines, management
// events and an idle fiber.  One engine, weighted differently per property.
#include "common.hpp"
#include <rcpr/fiber.h>
#include <rcpr/rbtree.h>
#include <xmmintrin.h>
RCPR_IMPORT_fiber;

extern "C" void reg_call(void (*fn)(void*), void* arg, const uint64_t* in, uint64_t* out);
asm(R"(
.text
.globl reg_call
.type reg_call,@function
reg_call:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    pushq %rcx
    movq %rdi, %rax
    movq %rsi, %rdi
    movq 0(%rdx), %rbx
    movq 8(%rdx), %rbp
    movq 16(%rdx), %r12
    movq 24(%rdx), %r13
    movq 32(%rdx), %r14
    movq 40(%rdx), %r15
    call *%rax
    popq %rcx
    movq %rbx, 0(%rcx)
    movq %rbp, 8(%rcx)
    movq %r12, 16(%rcx)
    movq %r13, 24(%rcx)
    movq %r14, 32(%rcx)
    movq %r15, 40(%rcx)
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
.size reg_call,.-reg_call
)");

namespace {
enum FS { CREATED, RUNNING, STOPPED };
struct FB { bool pq = false, pt = false, was_blocked = false;
    uint64_t magic = 0xF1BE; fiber* f = nullptr; int id = 0; FS st = CREATED; bool added = false, removed = false, blocked = false, idle = false, main = false, manager = false;
    size_t req = 0; int entered = 0; uint32_t mxcsr = 0; uint16_t x87 = 0; uint64_t salt = 0; bool started = false; bool asked_to_stop = false; bool no_stop = false; uintptr_t lo = 0, hi = 0;
};
struct Ent { FB* f; rcpr_uuid id; int ev; void* par; int batch; };
enum PK { P_NONE, P_POP, P_RUN, P_ADD, P_STOP, P_MGMT, P_REQ, P_REQ_ALL };
struct Disc { uint64_t magic = 0xD15C; int id = 0; rcpr_uuid uuid; fiber_scheduler_discipline* d = nullptr; size_t ncb = 0; bool reg = false; std::map<int, int> codes; };
enum HK { H_APPEND_SELF, H_NEXT_SELF, H_BLOCK, H_WAKE, H_FAIL, H_WAKE_ALL };
struct Op { uint64_t magic = 0x0905; int kind; FB* target; bool front; bool self_front; int ev; void* par; int tev; void* tpar; Disc* disc; int cb; FB* by; int calls; status result; bool exhausts; };
struct Cfg { uint32_t run, add, disc, bad, stop, mgmt, req, reqall, remove, newdisc; int idle; int max_fibers; int nops; bool regs; bool deep; };
struct World {
    fiber_scheduler* s = nullptr; allocator* a = nullptr; std::vector<FB*> all; std::deque<Ent> q; FB* cur = nullptr; FB* idle = nullptr; FB* manager_waiting = nullptr; FB* main = nullptr;
    Ent last; bool have_last = false; PK pend = P_NONE; FB* pf = nullptr; int pev = 0; status pres = 0; int batch = 0; std::vector<Disc*> discs; Cfg c; int ops = 0; bool ending = false; bool lenient = false; int live = 0; int next_id = 0; std::set<int> used_codes; int seqno = 0; bool mgr_used = false; int bcast_made = 0;
    uint64_t delivered = 0;
};
World* W;
rcpr_uuid g_internal, g_mgmt; bool g_learned;
const rcpr_uuid* uu_of(int k);

void snapshot() {
    uint64_t h = 1469598103934665603ULL; for (auto& e : W->q) h = mix64(h ^ (e.f->id * 131 + e.ev)); for (auto f : W->all) if (!f->removed) h = mix64(h ^ (f->id * 7 + f->st * 3 + f->blocked)); if (W->manager_waiting) h ^= 99; mark_state(h ^ W->discs.size());
}
bool is_req(const rcpr_uuid& id, int evn) { return !memcmp(&id, &g_mgmt, 16) && (evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST || evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST); }
bool queued(FB* f) { for (auto& e : W->q) if (e.f == f) return true; return false; }
void later(FB* f, int evn) { (evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST ? f->pq : f->pt) = true; }
// a fiber is runnable once: what it waited for is delivered first, a request when it next waits
bool merged(FB* f, const rcpr_uuid& id, int evn, void* par) {
    for (auto& e : W->q) if (e.f == f) { if (is_req(id, evn)) { later(f, evn); return true; } if (is_req(e.id, e.ev)) { later(f, e.ev); e.id = id; e.ev = evn; e.par = par; f->was_blocked = false; return true; } CHECK(false, "model", "fiber %d was made runnable twice", f->id); }
    return false;
}
void apply(PK k) {
    World& w = *W;
    switch (k) {
    case P_NONE: case P_POP: break;
    case P_RUN: if (w.cur != w.idle) w.q.push_back({w.cur, g_internal, FIBER_SCHEDULER_RESUME_EVENT_RUN, nullptr, 0}); break;
    case P_ADD:
        w.q.push_front({w.cur, g_internal, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, nullptr, 0});
        if (w.manager_waiting) { w.q.push_front({w.manager_waiting, g_mgmt, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD, w.pf->f, 0}); w.manager_waiting = nullptr; }
        w.q.push_back({w.pf, g_internal, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, nullptr, 0}); w.pf->added = true; break;
    case P_STOP:
        w.cur->st = STOPPED;
        if (w.manager_waiting) { w.q.push_front({w.manager_waiting, g_mgmt, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP, w.cur->f, 0}); w.manager_waiting = nullptr; }
        break;
    case P_MGMT: w.manager_waiting = w.cur; break;
    case P_REQ:
        w.q.push_front({w.cur, g_mgmt, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, (void*)(intptr_t)w.pres, 0});
        if (w.pres == OK && !merged(w.pf, g_mgmt, w.pev, nullptr)) { w.q.push_front({w.pf, g_mgmt, w.pev, nullptr, 0}); w.pf->was_blocked = w.pf->blocked; w.pf->blocked = false; }
        break;
    case P_REQ_ALL: {
        std::vector<FB*> t; for (auto f : w.all) if (f->added && !f->removed && f->st == RUNNING && f != w.cur && f != w.manager_waiting) t.push_back(f);
        int b = ++w.batch; for (auto f : t) if (!merged(f, g_mgmt, w.pev, nullptr)) { w.q.push_back({f, g_mgmt, w.pev, nullptr, b}); f->was_blocked = f->blocked; f->blocked = false; }
        w.q.push_back({w.cur, g_mgmt, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, (void*)(intptr_t)OK, 0}); break; }
    }
}
// called first thing whenever control arrives in a fiber through the library
void arrived(FB* me) {
    World& w = *W;
    if (faults_on() == false && w.c.max_fibers) faults_enable();
    if (w.lenient) { w.cur = me; w.have_last = false; w.pend = P_NONE; return; }
    if (w.pend == P_NONE) {
        CHECK(w.cur == me, "wrong-fiber", "fiber %d continued although fiber %d was running and had not yielded", me->id, w.cur->id);
        return;
    }
    PK k = w.pend; apply(k); w.pend = P_NONE; w.pf = nullptr;
    Ent e; FB* y = w.cur;
    if (y->st == RUNNING && (y->pq || y->pt) && !queued(y)) { e = {y, g_mgmt, y->pq ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST, nullptr, 0}; (y->pq ? y->pq : y->pt) = false; }
    else if (!w.q.empty()) {
        size_t i = 0; if (w.q[0].batch) for (size_t j = 0; j < w.q.size() && w.q[j].batch == w.q[0].batch; ++j) if (w.q[j].f == me) { i = j; break; }
        e = w.q[i]; w.q.erase(w.q.begin() + i);
    } else {
        CHECK(w.idle != nullptr, "resumed-from-nothing", "fiber %d was resumed although nothing was runnable", me->id);
        e = {w.idle, g_internal, FIBER_SCHEDULER_RESUME_EVENT_IDLE, nullptr, 0}; w.idle->blocked = false;
    }
    CHECK(e.f == me, "wrong-order", "fiber %d was resumed where fiber %d was next", me->id, e.f->id);
    CHECK(me->st != STOPPED, "stopped-fiber-ran", "fiber %d was resumed after it stopped", me->id);
    if (w.manager_waiting == me) w.manager_waiting = nullptr;
    w.cur = me; w.last = e; w.have_last = true; me->blocked = me->was_blocked = false; w.delivered++;
    ev("resume", me->id, e.ev); snapshot();
    // the library agrees about who runs and about states
    fiber* c = nullptr; status s = disciplined_fiber_scheduler_current_fiber_get(&c, w.s);
    CHECK(s == OK && c == me->f, "wrong-current", "the scheduler names another fiber as the running one");
    for (auto f : w.all) if (!f->removed && !f->main) { uint64_t st = fiber_state_get(f->f); CHECK(st == (uint64_t)(f->st == CREATED ? FIBER_STATE_CREATED : f->st == RUNNING ? FIBER_STATE_RUNNING : FIBER_STATE_STOPPED) || (f == me && f->st == CREATED), "wrong-state", "fiber %d reports state %lu", f->id, (unsigned long)st); }
}
void check_event(FB* me, const rcpr_uuid* id, int evn, void* par) {
    World& w = *W; if (w.lenient) return; CHECK(w.have_last && w.last.f == me, "wrong-fiber", "bookkeeping");
    if (id && !g_learned && !memcmp(&w.last.id, &g_internal, 16)) { // the internal discipline's id is not public: learn it
        CHECK(memcmp(id, &g_mgmt, 16), "wrong-resume-id", "an internal event came under the management discipline"); for (auto d : w.discs) CHECK(memcmp(id, &d->uuid, 16), "wrong-resume-id", "an internal event came under a user discipline");
        memcpy(&g_internal, id, 16); w.last.id = g_internal; g_learned = true; for (auto& e : w.q) { static const rcpr_uuid z = {}; if (!memcmp(&e.id, &z, 16)) e.id = g_internal; } }
    CHECK(id != nullptr && !memcmp(id, &w.last.id, 16), "wrong-resume-id", "fiber %d was resumed under another discipline", me->id);
    CHECK(evn == w.last.ev, "wrong-resume-event", "fiber %d was resumed with event 0x%x instead of 0x%x", me->id, evn, w.last.ev);
    CHECK(par == w.last.par, "wrong-resume-param", "fiber %d was resumed with another parameter", me->id);
}

// ---- every yielding call goes through here: registers, floating point state
struct Call { std::function<status()>* fn; status rc; };
void call_tramp(void* a) { Call* c = (Call*)a; c->rc = (*c->fn)(); }
void set_fp(FB* me) {
    static const uint32_t rc[4] = {0x1F80, 0x3F80, 0x5F80, 0x7F80}; static const uint16_t cw[4] = {0x037F, 0x077F, 0x0B7F, 0x027F};
    me->mxcsr = rc[choose(4)]; me->x87 = cw[choose(4)]; _mm_setcsr(me->mxcsr); asm volatile("fldcw %0" ::"m"(me->x87));
}
void check_fp(FB* me) {
    uint32_t m = _mm_getcsr() & 0xFFC0; uint16_t c; asm volatile("fnstcw %0" : "=m"(c));
    CHECK(m == (me->mxcsr & 0xFFC0) && c == me->x87, "fp-state-lost", "fiber %d: floating point control state changed over a yield", me->id);
}
__attribute__((noinline)) status deep(FB* me, int depth, std::function<status()>& fn) {
    volatile uint64_t loc[24]; uint64_t salt = mix64(me->salt + depth * 77 + W->seqno);
    for (int i = 0; i < 24; ++i) loc[i] = salt * (i + 1);
    status rc;
    if (depth > 0) rc = deep(me, depth - 1, fn);
    else {
        bool regs = W->c.regs;
        if (regs) {
            uint64_t in[6], out[6]; for (int i = 0; i < 6; ++i) in[i] = mix64(salt + i), out[i] = 0;
            Call c{&fn, 0}; reg_call(&call_tramp, &c, in, out);
            for (int i = 0; i < 6; ++i) CHECK(in[i] == out[i], "register-lost", "fiber %d: callee-saved register %d changed over a yield", me->id, i);
            rc = c.rc;
        } else rc = fn();
    }
    for (int i = 0; i < 24; ++i) CHECK(loc[i] == salt * (i + 1), "stack-corrupted", "fiber %d: a local variable changed over a yield", me->id);
    return rc;
}
// performs one library call that may yield; returns its status
status yielding(FB* me, PK k, std::function<status()> fn) {
    World& w = *W; w.pend = k; w.have_last = false; w.seqno++; int seq = w.seqno;
    int depth = w.c.deep ? choose(6) * (choose(8) == 7 ? 8 : 1) : 0;
    if (w.c.deep) set_fp(me);
    // seqno is used as salt: keep it across the call
    struct Keep { int& r; int v; } kp{w.seqno, seq};
    std::function<status()> g = [&]() { status s = fn(); W->seqno = seq; return s; };
    int outer = w.seqno; (void)outer;
    status rc = deep(me, depth, g);
    if (w.c.deep) check_fp(me);
    W->seqno = ++w.batch + 1000; (void)kp;
    return rc;
}

FB* self_of(void* ctx) { FB* f = (FB*)ctx; CHECK(f && f->magic == 0xF1BE, "wrong-context", "a fiber was entered with a context that is not its own"); return f; }
void fiber_loop(FB* me);
status fiber_main(void* ctx);

__attribute__((noinline)) status fiber_main(void* ctx) {
    FB* me = self_of(ctx);
    uintptr_t fa = (uintptr_t)__builtin_frame_address(0), lo; size_t n;
    CHECK(fa % 16 == 0, "stack-misaligned", "fiber %d was entered with a misaligned stack", me->id);
    CHECK(stack_region(&lo, lo, n) || true, "x", "x");
    uintptr_t base; size_t sz; bool on = stack_region((void*)fa, base, sz);
    CHECK(on, "wrong-stack", "fiber %d does not run on a mapped fiber stack", me->id);
    CHECK(fa - base + 512 >= me->req && sz >= me->req, "stack-too-small", "fiber %d has %zu usable bytes of the %zu requested", me->id, (size_t)(fa - base), me->req);
    for (auto o : W->all) if (o != me && !o->removed && o->lo) CHECK(base >= o->hi || base + sz <= o->lo, "stack-shared", "fibers %d and %d share a stack", me->id, o->id);
    me->lo = base; me->hi = base + sz;
    CHECK(++me->entered == 1, "entered-twice", "fiber %d was entered %d times", me->id, me->entered);
    CHECK(me->added || W->idle == me || (W->pend == P_ADD && W->pf == me), "ran-unadded", "fiber %d runs although it was not added", me->id);
    arrived(me); me->st = RUNNING; me->started = true;
    ev("enter", me->id);
    fiber_loop(me);
    // stopping: from here the model says STOP is pending
    ev("stop", me->id); faults_disable(); W->pend = P_STOP; W->have_last = false;
    return (status)me->id;
}

FB* make_fiber() {
    World& w = *W; FB* f = new FB; f->id = ++w.next_id; f->salt = mix64(f->id * 77); static const size_t sizes[] = {65536, 70001, 98304, 131072, 66000}; f->req = sizes[choose(5)]; if (choose(16) == 15) { static const size_t big[] = {1 << 20, (1 << 20) + 1, 2500000, 16 << 20, ((size_t)32 << 20) + 77, (size_t)256 << 20, (size_t)3 << 30, (size_t)1 << 32, ((size_t)1 << 32) + 70000, ((size_t)3 << 33) + 1}; f->req = big[choose(10)]; }
    uint64_t ff = faults_fired(); size_t lb = live_blocks(), ls = live_stacks();
    status s = fiber_create(&f->f, w.a, w.s, f->req, f, &fiber_main); ev("create", f->id, s);
    if (s != OK) { CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "creating a fiber failed with 0x%x", s); CHECK(live_blocks() == lb && live_stacks() == ls, "memory-leak", "a failed fiber creation left something allocated"); delete f; return nullptr; }
    CHECK(f->f && fiber_state_get(f->f) == FIBER_STATE_CREATED, "wrong-state", "a new fiber is not in the created state"); CHECK(fiber_scheduler_from_fiber_get(f->f) == w.s, "wrong-scheduler", "a new fiber names another scheduler");
    CHECK(live_stacks() == ls + 1, "stack-leak", "a new fiber has no stack of its own");
    w.all.push_back(f); return f;
}
void drop_fiber(FB* f) {
    size_t ls = live_stacks(); status s = resource_release(fiber_resource_handle(f->f));
    if (fault_fired(F_MUNMAP) && s != OK) { W->lenient = true; }
    else { CHECK(s == OK, "wrong-status", "releasing a fiber returned 0x%x", s); CHECK(live_stacks() == ls - 1, "stack-leak", "releasing a fiber left its stack mapped"); }
    f->removed = true; f->f = nullptr; f->lo = 0;
}
bool op_failed_ok(status s, uint64_t ff) { return is_oom(s) && faults_fired() > ff; }

// a failing call must leave the caller running and the queue unchanged
void failed(FB* me, status s, uint64_t ff, const char* what) {
    World& w = *W;
    if (w.lenient) return;
    CHECK(w.cur == me, "wrong-fiber", "%s failed in a fiber that is not running", what);
    CHECK(w.pend != P_NONE, "wrong-status", "%s reported 0x%x after another fiber had run", what, s);
    CHECK(op_failed_ok(s, ff), "wrong-status", "%s failed with 0x%x and %lu faults", what, s, (unsigned long)(faults_fired() - ff));
    w.pend = P_NONE; w.pf = nullptr;
}

void* par_of(int x) { return x == 0 ? nullptr : (x & 3) == 3 ? (void*)(uintptr_t)mix64((uint64_t)(unsigned)x) : (void*)(uintptr_t)(0x5000 + (int64_t)x * 8); }
int ev_gen() { int k = (int)choose(1000); switch (k & 7) { case 5: return k << 20 | 0xff; case 6: return -k; case 7: return k & 8 ? INT32_MAX - 100 : INT32_MIN; default: return k; } }
void do_run(FB* me) {
    uint64_t ff = faults_fired();
    if (choose(2)) {   // the same through the raw call, which also shows the resumption
        const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = par_of(1);
        status s = yielding(me, P_RUN, [&] { return fiber_scheduler_yield(W->s, FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, &rid, &rev, &rp); });
        if (s == OK) { arrived(me); check_event(me, rid, rev, rp); } else failed(me, s, ff, "run");
        return;
    }
    status s = yielding(me, P_RUN, [] { return fiber_scheduler_run(W->s); });
    if (s == OK) arrived(me); else failed(me, s, ff, "run");
}
void do_add(FB* me) {
    World& w = *W; FB* n = make_fiber(); if (!n) return;
    uint64_t ff = faults_fired(); w.pf = n;
    status s = yielding(me, P_ADD, [n] { return fiber_scheduler_add(W->s, n->f); }); ev("add", n->id, s);
    if (s == OK) { arrived(me); w.live++; }
    else { failed(me, s, ff, "add"); n->added = false; drop_fiber(n); }
}
// -------------------------------------------------------- user disciplines
void on_call(Op* op, Disc* d, fiber* yf, int yev, int cb) {
    World& w = *W;
    CHECK(op && op->magic == 0x0905, "wrong-yield-param", "a discipline handler was called with another parameter than was yielded");
    CHECK(d && d->magic == 0xD15C, "wrong-discipline-context", "a discipline handler was called with a foreign context");
    CHECK(d == op->disc, "wrong-discipline", "discipline %d's handler was called for a yield to discipline %d", d->id, op->disc->id);
    CHECK(cb == op->cb % 12, "wrong-handler", "handler %d was called for event %d", cb, op->cb);
    CHECK(yf == op->by->f, "wrong-yielder", "a handler was told of another yielding fiber");
    CHECK(++op->calls == 1, "handler-twice", "a handler was called twice for one yield");
    cb = op->cb; auto it = d->codes.find(cb); if (it == d->codes.end()) { CHECK(w.used_codes.insert(yev).second, "event-collision", "two disciplines share event code %d", yev); d->codes[cb] = yev; } else CHECK(it->second == yev, "wrong-event", "handler %d was called with a changed event", cb);
}
status q_append(FB* f, const rcpr_uuid* id, int evn, void* par) {
    status s = disciplined_fiber_scheduler_add_fiber_to_run_queue(W->s, f->f, id, evn, par);
    if (s == OK && !merged(f, *id, evn, par)) { W->q.push_back({f, *id, evn, par, 0}); f->blocked = false; } return s;
}
status q_front(FB* f, const rcpr_uuid* id, int evn, void* par) {
    status s = disciplined_fiber_scheduler_set_next_fiber_to_run(W->s, f->f, id, evn, par);
    if (s == OK && !merged(f, *id, evn, par)) { W->q.push_front({f, *id, evn, par, 0}); f->blocked = false; } return s;
}
status handle(void* ctx, fiber* yf, int yev, void* yp, int cb) {
    World& w = *W; Op* op = (Op*)yp; Disc* d = (Disc*)ctx; on_call(op, d, yf, yev, cb);
    uint64_t ff = faults_fired(); status s = OK;
    switch (op->kind) {
    case H_FAIL: s = E_CALLBACK; break;
    case H_BLOCK: op->by->blocked = true; break;
    case H_APPEND_SELF: s = q_append(op->by, &d->uuid, op->ev, op->par); break;
    case H_NEXT_SELF: s = q_front(op->by, &d->uuid, op->ev, op->par); break;
    case H_WAKE:
        s = op->front ? q_front(op->target, &d->uuid, op->tev, op->tpar) : q_append(op->target, &d->uuid, op->tev, op->tpar);
        if (s == OK) s = op->self_front ? q_front(op->by, &d->uuid, op->ev, op->par) : q_append(op->by, &d->uuid, op->ev, op->par);
        break;
    case H_WAKE_ALL:
        for (auto f : w.all) if (s == OK && (f->blocked || f->was_blocked) && !f->removed && f != op->by) s = q_append(f, &d->uuid, op->tev + f->id, par_of(op->tev + f->id));
        if (s == OK) s = q_append(op->by, &d->uuid, op->ev, op->par);
        break;
    }
    if (s != OK && op->kind != H_FAIL) CHECK(op_failed_ok(s, ff), "wrong-status", "making a fiber runnable failed with 0x%x", s);
    op->result = s; op->exhausts = s == OK && w.q.empty() && !w.idle && !op->by->pq && !op->by->pt;
    w.pend = s == OK ? P_POP : P_POP;  // on error the caller resets it
    return s;
}
template <int K> status cbk(void* c, fiber* f, int e, void* p) { return handle(c, f, e, p, K); }
fiber_scheduler_discipline_callback_fn g_cb12[12] = {cbk<0>, cbk<1>, cbk<2>, cbk<3>, cbk<4>, cbk<5>, cbk<6>, cbk<7>, cbk<8>, cbk<9>, cbk<10>, cbk<11>};
fiber_scheduler_discipline_callback_fn* cbs() { static fiber_scheduler_discipline_callback_fn v[400]; for (int i = 0; i < 400; ++i) v[i] = g_cb12[i % 12]; return v; }
void uuid_for(rcpr_uuid* u, int id, int close) {
    for (int i = 0; i < 16; ++i) ((uint8_t*)u)[i] = (uint8_t)(mix64(close ? 5 : id * 31 + i) >> 3);
    if (close) ((uint8_t*)u)[close == 1 ? (id * 7) % 16 : close == 2 ? 15 : 0] ^= (uint8_t)(id + 1);   // differing in one byte, or in the last or first only
}
fiber_scheduler_discipline* disc_create(Disc* d) {
    uint64_t ff = faults_fired(); size_t lb = live_blocks(); fiber_scheduler_discipline* p = nullptr;
    status s = fiber_scheduler_discipline_create(&p, &d->uuid, W->a, d, d->ncb, cbs()); ev("disc-create", d->id, s);
    if (s != OK) { CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "creating a discipline failed with 0x%x", s); CHECK(live_blocks() == lb, "memory-leak", "a failed discipline creation left memory allocated"); return nullptr; }
    CHECK(fiber_scheduler_discipline_context_get(p) == d, "wrong-discipline-context", "a discipline returns another context");
    return p;
}
void find_disc(Disc* d) {
    fiber_scheduler_discipline* p = nullptr; rcpr_uuid u = d->uuid; status s = fiber_scheduler_discipline_find(&p, W->s, &u);
    if (d->reg) { CHECK(s == OK && p == d->d, "discipline-lost", "a registered discipline is not found (0x%x)", s); fiber_scheduler* os = nullptr; s = fiber_discipline_scheduler_get(&os, p); CHECK(s == OK && os == W->s, "wrong-scheduler", "a registered discipline names another scheduler"); }
    else CHECK(s == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "phantom-discipline", "an unregistered discipline is found (0x%x)", s);
}
void do_newdisc() {
    World& w = *W;
    if (w.discs.size() >= 14) return;
    Disc* d = new Disc; d->id = (int)w.discs.size(); uuid_for(&d->uuid, d->id, choose(4)); { static const uint32_t n[] = {1, 4, 4, 12, 12, 40, 400}; d->ncb = 1 + choose(n[choose(7)]); }
    for (auto o : w.discs) if (!memcmp(&o->uuid, &d->uuid, 16)) { delete d; return; }
    fiber_scheduler_discipline* p = disc_create(d); if (!p) { delete d; return; }
    w.discs.push_back(d); find_disc(d);
    for (int tries = 0; tries < 4; ++tries) {
        uint64_t ff = faults_fired(); size_t lb = live_blocks(); status s = fiber_scheduler_discipline_add(w.s, p); ev("disc-add", d->id, s);
        if (s == OK) { d->d = p; d->reg = true; break; }
        CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "adding a discipline failed with 0x%x", s); CHECK(block_live(p), "ownership", "a discipline that could not be added was taken over"); (void)lb; find_disc(d);
    }
    if (!d->reg) { status s = resource_release(fiber_scheduler_discipline_resource_handle(p)); CHECK(s == OK, "wrong-status", "releasing a discipline returned 0x%x", s); }
    for (auto o : w.discs) find_disc(o);
    // refused registrations
    if (d->reg && choose(2)) {
        status s = fiber_scheduler_discipline_add(w.s, d->d); CHECK(s == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED, "wrong-status", "adding a discipline twice returned 0x%x", s);
        Disc* o = w.discs[choose((uint32_t)w.discs.size())];
        if (o->reg) { Disc* e = new Disc; e->id = -1; e->uuid = o->uuid; e->ncb = 1 + choose(3); fiber_scheduler_discipline* q = disc_create(e);
            if (q) { s = fiber_scheduler_discipline_add(w.s, q); CHECK(s == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID, "wrong-status", "adding a duplicate discipline identifier returned 0x%x", s); CHECK(block_live(q), "ownership", "a refused discipline was taken over"); s = resource_release(fiber_scheduler_discipline_resource_handle(q)); CHECK(s == OK, "wrong-status", "releasing a refused discipline returned 0x%x", s); }
            delete e; find_disc(o); }
    }
}
Disc* any_disc() { std::vector<Disc*> v; for (auto d : W->discs) if (d->reg) v.push_back(d); return v.empty() ? nullptr : pick(v); }

std::vector<FB*> blocked_list(FB* me) { std::vector<FB*> v; for (auto f : W->all) if ((f->blocked || f->was_blocked) && !f->removed && f != me && f != W->manager_waiting) v.push_back(f); return v; }

void do_disc(FB* me, int forced_kind = -1, FB* target = nullptr) {
    World& w = *W; Disc* d = any_disc(); if (!d) { do_run(me); return; }
    std::vector<FB*> bl = blocked_list(me);
    Op op; op.disc = d; op.cb = choose(4) == 3 ? (uint32_t)d->ncb - 1 : choose((uint32_t)d->ncb); op.by = me; op.calls = 0; op.result = 0; op.exhausts = false;
    op.ev = ev_gen(); op.par = par_of(choose(1000)); op.tev = ev_gen(); op.tpar = par_of(choose(1000)); op.front = choose(2); op.self_front = choose(2); op.target = nullptr;
    if (forced_kind >= 0) op.kind = forced_kind, op.target = target;
    else {
        op.kind = weighted({4, 3, 5, bl.empty() ? 0u : 6u, 1, bl.empty() ? 0u : 2u});
        if (op.kind == H_WAKE) op.target = pick(bl);
        if (op.kind == H_BLOCK && (w.ending || me->no_stop || (w.q.empty() && !w.idle && choose(4)))) op.kind = H_APPEND_SELF;
        if (op.kind == H_BLOCK && me == w.idle) op.kind = H_APPEND_SELF;
    }
    const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = nullptr; uint64_t ff = faults_fired();
    ev("disc", me->id, d->id, op.kind, op.target ? op.target->id : -1);
    status s = yielding(me, P_NONE, [&] { return fiber_discipline_yield(d->d, op.cb, &op, &rid, &rev, &rp); });
    if (s == OK) { CHECK(op.calls == 1, "handler-not-called", "a yield succeeded without its handler being called"); CHECK(op.result == OK, "swallowed-error", "a handler failed with 0x%x and the yield succeeded", op.result); arrived(me); check_event(me, rid, rev, rp); }
    else if (!w.lenient) {
        CHECK(w.cur == me && op.calls == 1, "wrong-status", "a discipline yield failed with 0x%x", s);
        if (op.result != OK) CHECK(s == op.result, "wrong-status", "a handler's error 0x%x was reported as 0x%x", op.result, s);
        else { CHECK(s == ERROR_FIBER_SCHEDULER_EXHAUSTED && op.exhausts, "wrong-status", "a discipline yield failed with 0x%x", s); me->blocked = false; }
        w.pend = P_NONE; me->blocked = false; (void)ff;
    }
}
void do_bad(FB* me) {
    World& w = *W; Disc* d = any_disc(); const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = nullptr; Op op; op.magic = 0; status s;
    int kind = choose(4), first_free = -1; Disc* last = nullptr; for (auto x : w.discs) if (x->reg) last = x;
    if (kind == 3 && last && !last->codes.empty() && last->codes.rbegin()->first == (int)last->ncb - 1 && last->codes.rbegin()->second == *w.used_codes.rbegin() && w.used_codes.size() > last->codes.size()) first_free = *w.used_codes.rbegin() + 1;   // codes were given out in order: this is the first one nobody has
    if (kind == 0 && d) { int e = (int)d->ncb + (choose(3) ? 0 : choose(5)); s = yielding(me, P_POP, [&] { return fiber_discipline_yield(d->d, e, &op, &rid, &rev, &rp); }); }
    else if (kind == 1) { int e = 0x4000 + choose(100000); s = yielding(me, P_POP, [&] { return fiber_scheduler_yield(w.s, e, &op, &rid, &rev, &rp); }); }
    else { int e = first_free > 0 ? first_free : w.used_codes.empty() ? 6000 : *w.used_codes.rbegin() + 1 + 400 * 14 + choose(3); s = yielding(me, P_POP, [&] { return fiber_scheduler_yield(w.s, e, &op, &rid, &rev, &rp); }); }
    ev("bad-yield", kind, s); CHECK(s == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT, "wrong-status", "an unknown yield event returned 0x%x", s);
    CHECK(w.cur == me && w.pend == P_POP, "wrong-fiber", "an unknown yield event let another fiber run"); w.pend = P_NONE;
}
void do_mgmt(FB* me) {
    World& w = *W; const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = nullptr; bool ex = w.q.empty() && !w.idle && !me->pq && !me->pt; me->manager = true;
    status s = yielding(me, P_MGMT, [&] { return disciplined_fiber_scheduler_receive_management_event(w.s, &rid, &rev, &rp); }); ev("mgmt", me->id, s, rev);
    if (s == OK) { arrived(me); check_event(me, rid, rev, rp); }
    else if (!w.lenient) { CHECK(s == ERROR_FIBER_SCHEDULER_EXHAUSTED && ex && w.cur == me && w.pend == P_MGMT, "wrong-status", "waiting for management events returned 0x%x", s); w.pend = P_NONE; }
}
void do_req(FB* me) {
    World& w = *W; std::vector<FB*> t; for (auto f : w.all) if (f->added && !f->removed && f != me) t.push_back(f);
    if (t.empty()) return; FB* f = pick(t); bool quiesce = choose(2) == 0; uint64_t ff = faults_fired();
    w.pf = f; w.pres = f->st == RUNNING ? OK : ERROR_FIBER_INVALID_STATE; w.pev = quiesce ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST; status want = w.pres; if (want == OK) fault_note(F_OOB);
    status s = yielding(me, P_REQ, [&] { return quiesce ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w.s, f->f) : disciplined_fiber_scheduler_send_terminate_request_to_fiber(w.s, f->f); }); ev("request", f->id, quiesce, s, want);
    if (w.pend == P_NONE || s == want) { arrived(me); if (!w.lenient) { CHECK(s == want, "wrong-status", "a request to fiber %d returned 0x%x instead of 0x%x", f->id, s, want); CHECK(w.have_last && w.last.ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, "wrong-resume-event", "the requester was resumed by something else"); } }
    else failed(me, s, ff, "request");
}
void do_req_all(FB* me) {
    World& w = *W;
    if (me == w.idle) return;
    bool quiesce = choose(2) == 0; uint64_t ff = faults_fired(); w.pev = quiesce ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST; fault_note(F_OOB);
    bool nof = !me->main || choose(3) == 0; bool was = faults_on(); if (nof) faults_disable();
    status s = yielding(me, P_REQ_ALL, [&] { return quiesce ? disciplined_fiber_scheduler_send_quiesce_request_to_all(w.s) : disciplined_fiber_scheduler_send_terminate_request_to_all(w.s); }); ev("request-all", quiesce, s);
    if (s == OK) { arrived(me); if (!w.lenient) CHECK(w.have_last && w.last.ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, "wrong-resume-event", "the requester was resumed by something else"); }
    else if (!w.lenient) { failed(me, s, ff, "broadcast"); w.lenient = true; w.ending = true; }
    if (nof && was) faults_enable();
}
void do_remove(FB* me) {
    World& w = *W; std::vector<FB*> t; for (auto f : w.all) if (f->added && !f->removed && f->st == STOPPED && f != w.idle) t.push_back(f);
    if (t.empty()) return; FB* f = pick(t);
    uint64_t ff = faults_fired(); status s = disciplined_fiber_scheduler_remove_fiber(w.s, f->f); ev("remove", f->id, s);
    if (s != OK) { CHECK(op_failed_ok(s, ff), "wrong-status", "removing a stopped fiber returned 0x%x", s); return; }
    fiber* keep = f->f; CHECK(block_live(keep), "ownership", "a removed fiber was released by the scheduler"); s = disciplined_fiber_scheduler_remove_fiber(w.s, keep); CHECK(s != OK, "wrong-status", "a fiber could be removed twice");
    drop_fiber(f); w.live--; (void)me;
}
bool can_stop(FB* me) { World& w = *W; return !me->main && me != w.idle && !me->no_stop && (!w.q.empty() || w.idle || w.manager_waiting); }

void action(FB* me) {
    World& w = *W; step(); w.ops++;
    uint32_t live = 0; for (auto f : w.all) if (!f->removed) live++;
    Cfg& c = w.c;
    switch (weighted({c.run, live < (uint32_t)c.max_fibers ? c.add : 0, c.disc, c.bad, c.mgmt && !w.manager_waiting && !w.ending && me != w.idle && (me->manager || !w.mgr_used) ? c.mgmt : 0u, c.req, c.reqall, c.remove, c.newdisc})) {
    case 0: do_run(me); break;
    case 1: do_add(me); break;
    case 2: do_disc(me); break;
    case 3: do_bad(me); break;
    case 4: w.mgr_used = true; do_mgmt(me); break;
    case 5: do_req(me); break;
    case 6: do_req_all(me); break;
    case 7: do_remove(me); break;
    case 8: do_newdisc(); break;
    }
}
void fiber_loop(FB* me) {
    World& w = *W;
    if (me == w.idle) {
        for (;;) {
            if (w.lenient) { // hand control to anything that waits, main first
                FB* m = w.main; if (m->blocked) { do_disc(me, H_WAKE, m); continue; }
                std::vector<FB*> bl = blocked_list(me); if (!bl.empty()) { do_disc(me, H_WAKE, bl[0]); continue; } do_run(me); continue;
            }
            step(); if (me->started && w.have_last && w.last.f == me && w.last.ev == FIBER_SCHEDULER_RESUME_EVENT_IDLE) CHECK(true, "x", "x");
            std::vector<FB*> bl = blocked_list(me);
            if (w.q.empty() && (w.main->blocked || !bl.empty())) { do_disc(me, H_WAKE, w.ending && w.main->blocked ? w.main : bl.empty() ? w.main : pick(bl)); }
            else if (choose(2)) do_run(me); else { uint64_t ff = faults_fired(); w.have_last = false; status s = yielding(me, P_RUN, [] { return disciplined_fiber_scheduler_idle_fiber_yield(W->s); }); if (s == OK) arrived(me); else failed(me, s, ff, "idle yield"); if (w.q.empty() && w.manager_waiting == w.main) { do_add(me); } }
        }
    }
    while (!w.ending && w.ops < w.c.nops) {
        if (can_stop(me) && choose(100) < w.c.stop) return;
        action(me);
        if (w.have_last && w.last.f == me && !memcmp(&w.last.id, &g_mgmt, 16) && (w.last.ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST || w.last.ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST) && !me->main) { w.have_last = false; if (can_stop(me) && choose(3)) return; }
    }
    if (me->main) return;
    // ending: bring main back, then wait
    w.ending = true;
    for (;;) {
        step();
        if (w.main->blocked) { do_disc(me, H_WAKE, w.main); continue; }
        if (w.manager_waiting == w.main && !w.lenient) { NoFaults nf; if (can_stop(me)) return; do_add(me); continue; }
        do_run(me);
    }
}
void world(Cfg c, bool faults) {
    World w; W = &w; w.c = c; items_reset();
    set_step_limit(2000000);
    memset(&g_internal, 0, 16); g_learned = false; memcpy(&g_mgmt, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16);
    Alloc A; w.a = A.a;
    if (faults) { if (choose(2)) faults_config({F_ALLOC, F_MMAP}); else faults_config({}, 1000); }
    for (int t = 0;; ++t) {
        uint64_t ff = faults_fired(); size_t lb = live_blocks(); w.s = nullptr; status s = fiber_scheduler_create_with_disciplines(&w.s, A.a); ev("sched", s);
        if (s == OK) break;
        CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "creating a scheduler failed with 0x%x", s); CHECK(live_blocks() == lb, "memory-leak", "a failed scheduler creation left memory allocated");
        if (t > 2) { faults_disable(); w.c.max_fibers = std::max(1, w.c.max_fibers); }
    }
    FB* m = new FB; m->id = 0; m->main = true; m->st = RUNNING; w.main = m; w.all.push_back(m); w.cur = m;
    { fiber* f = nullptr; status s = disciplined_fiber_scheduler_main_fiber_get(&f, w.s); CHECK(s == OK && f, "wrong-status", "no main fiber"); m->f = f; s = disciplined_fiber_scheduler_current_fiber_get(&f, w.s); CHECK(s == OK && f == m->f, "wrong-current", "the main fiber is not the running one after creation"); }
    bool fo = faults_on();
    uint32_t nd = choose(4); for (uint32_t i = 0; i < nd; ++i) do_newdisc();
    if (w.discs.empty() || !any_disc()) { NoFaults nf; do_newdisc(); }
    bool idle_added = false;
    if (c.idle && choose(4)) {
        NoFaults nf; FB* i = make_fiber(); i->idle = true; i->no_stop = true; idle_added = choose(2);
        status s;
        if (idle_added) { w.pf = i; s = yielding(m, P_ADD, [i] { return fiber_scheduler_add(W->s, i->f); }); CHECK(s == OK, "wrong-status", "add failed with 0x%x", s); arrived(m); }
        s = disciplined_fiber_scheduler_set_idle_fiber(w.s, i->f); CHECK(s == OK, "wrong-status", "set idle failed"); w.idle = i;
    }
    (void)fo;
    fiber_loop(m);
    w.ending = true; faults_disable();
    // release in whatever state the fibers are; everything must go
    uint64_t ff = faults_fired(); bool relf = choose(4) == 3; if (relf) faults_enable();
    status s = resource_release(fiber_scheduler_resource_handle(w.s)); faults_disable(); ev("release", s);
    if (s != OK) CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "releasing the scheduler returned 0x%x", s);
    A.release(); check_no_leaks("after releasing the scheduler");
    CHECK(true, "x", "x"); ev("delivered", w.delivered); for (auto f : w.all) delete f; for (auto d : w.discs) delete d; W = nullptr; _mm_setcsr(0x1F80); uint16_t cw = 0x037F; asm volatile("fldcw %0" ::"m"(cw));
}
// ---- a scheduler driven by the user's own callback
struct CB { fiber_scheduler* s = nullptr; std::vector<FB*> f; FB* cur = nullptr; FB* next = nullptr; const rcpr_uuid* id; int ev; void* par; status fail = 0; int calls = 0; int yev = 0; void* ypar = nullptr; int expect_ev = -1; void* expect_par = nullptr; int mains = 0, releases = 0; bool wrong_main = false; int nops = 0; bool end = false; };
CB* B; rcpr_uuid g_u1;
status sched_cb(void* ctx, fiber* yf, int yev, void* yp, fiber** rf, const rcpr_uuid** rid, int* rev, void** rp) {
    CB* b = (CB*)ctx; CHECK(b == B, "wrong-context", "the scheduler callback was called with another context");
    if (yev == FIBER_SCHEDULER_YIELD_EVENT_MAIN) { b->mains++; b->f[0]->f = yf; *rf = yf; *rid = &g_u1; *rev = b->wrong_main ? FIBER_SCHEDULER_RESUME_EVENT_RUN : FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = nullptr; return b->fail; }
    if (yev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE) { b->releases++; *rf = yf; *rid = &g_u1; *rev = FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE; *rp = nullptr; return OK; }
    b->calls++;
    CHECK(yf == b->cur->f, "wrong-yielder", "the scheduler callback was told of another yielding fiber");
    if (b->cur->asked_to_stop) CHECK(yev == FIBER_SCHEDULER_YIELD_EVENT_STOP, "wrong-event", "a stopping fiber yielded 0x%x", yev);
    else CHECK(yev == b->yev && yp == b->ypar, "wrong-event", "the scheduler callback was called with another event or parameter");
    if (b->fail) return b->fail;
    *rf = b->next->f; *rid = b->id; *rev = b->ev; *rp = b->par; return OK;
}
void cb_arrive(FB* me, const rcpr_uuid* id, int e, void* p, bool have) {
    CHECK(B->next == me, "wrong-fiber", "fiber %d was resumed instead of %d", me->id, B->next->id); B->cur = me; ev("cb-resume", me->id, e);
    if (have) CHECK(id == B->id && e == B->ev && p == B->par, "wrong-resume-event", "fiber %d was resumed with something else than the callback chose", me->id);
}
void cb_pick_next(FB* me, bool stopping) {
    std::vector<FB*> v; for (auto f : B->f) if (f->f && f->st != STOPPED && !(stopping && f == me)) v.push_back(f);
    B->next = (B->end && me != B->f[0]) ? B->f[0] : pick(v); B->id = &g_u1; B->ev = choose(4) ? choose(100000) : ev_gen(); B->par = par_of(choose(1000)); B->fail = OK;
}
status cb_fiber(void* ctx);
void cb_loop(FB* me) {
    while (!(me->main && B->nops <= 0)) {
        step(); if (B->nops-- <= 0) B->end = true;
        if (!me->main && (B->end ? true : choose(12) == 11)) { me->asked_to_stop = true; cb_pick_next(me, true); return; }
        if (B->f.size() < 8 && choose(6) == 5) {
            FB* n = new FB; n->id = (int)B->f.size(); n->salt = n->id * 99; n->req = 65536; uint64_t ff = faults_fired(); fiber* f = nullptr;
            status s = fiber_create(&f, W->a, B->s, n->req, n, &cb_fiber); if (s != OK) { CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "creating a fiber failed with 0x%x", s); delete n; continue; }
            n->f = f; B->f.push_back(n);
            if (choose(2)) { // through the add call: the callback sees the new fiber and picks who continues
                cb_pick_next(me, false); B->next = me; B->yev = FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER; B->ypar = f; if (choose(4) == 3) B->fail = E_CALLBACK;
                status want = B->fail; int c0 = B->calls; s = fiber_scheduler_add(B->s, f); CHECK(s == want, "wrong-status", "adding returned 0x%x, the callback 0x%x", s, want); CHECK(B->calls == c0 + 1, "handler-twice", "adding called the scheduler callback %d times", B->calls - c0);
            }
            continue;
        }
        cb_pick_next(me, false); B->yev = choose(5000) + 0x100; B->ypar = par_of(choose(500)); if (choose(10) == 9) B->fail = E_CALLBACK;
        status want = B->fail; const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = nullptr; set_fp(me); FB* before = B->next;
        std::function<status()> g = [&] { return fiber_scheduler_yield(B->s, B->yev, B->ypar, &rid, &rev, &rp); };
        W->seqno = 5; status s = deep(me, choose(4), g); (void)before;
        check_fp(me);
        if (want != OK) { CHECK(s == want && B->cur == me, "wrong-status", "a failing scheduler callback was reported as 0x%x", s); continue; }
        CHECK(s == OK, "wrong-status", "a yield returned 0x%x", s); cb_arrive(me, rid, rev, rp, true);
    }
}
status cb_fiber(void* ctx) { FB* me = self_of(ctx); CHECK(++me->entered == 1, "entered-twice", "a fiber was entered twice"); me->st = RUNNING; cb_arrive(me, 0, 0, 0, false); set_fp(me); cb_loop(me); me->st = STOPPED; return 0; }
void cb_world() {
    World w; W = &w; CB b; B = &b; w.c = {}; w.c.regs = true; set_step_limit(1000000); Alloc A; w.a = A.a; faults_config({F_ALLOC, F_MMAP});
    uuid_for(&g_u1, 3, 0); FB* m = new FB; m->main = true; m->st = RUNNING; b.f.push_back(m); b.cur = m; status s;
    for (int t = 0;; ++t) {
        b.wrong_main = choose(8) == 7; b.fail = choose(8) == 7 ? E_CALLBACK : OK; if (t > 4) { faults_disable(); b.wrong_main = false; b.fail = OK; }
        uint64_t ff = faults_fired(); size_t lb = live_blocks(); b.mains = 0; s = fiber_scheduler_create(&b.s, A.a, &b, &sched_cb); ev("cb-sched", s);
        if (s == OK) { CHECK(!b.wrong_main && !b.fail, "swallowed-error", "creation succeeded though the callback failed"); CHECK(b.mains == 1, "handler-twice", "the callback was told of the main fiber %d times", b.mains); break; }
        CHECK(live_blocks() == lb, "memory-leak", "a failed scheduler creation left memory allocated");
        if (faults_fired() > ff) CHECK(is_oom(s), "wrong-status", "creation failed with 0x%x", s); else CHECK(s == (b.fail ? b.fail : ERROR_FIBER_SCHEDULER_CALLBACK_STATE) && (b.fail || b.wrong_main), "wrong-status", "creation failed with 0x%x", s);
    }
    { Disc d; uuid_for(&d.uuid, 1, 0); d.ncb = 3; NoFaults nf; fiber_scheduler_discipline* p = disc_create(&d), *q = nullptr; s = fiber_scheduler_discipline_add(b.s, p); CHECK(s == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "wrong-status", "adding a discipline to a plain scheduler returned 0x%x", s); s = fiber_scheduler_discipline_find(&q, b.s, &d.uuid); CHECK(s == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "wrong-status", "finding a discipline in a plain scheduler returned 0x%x", s); s = resource_release(fiber_scheduler_discipline_resource_handle(p)); CHECK(s == OK, "wrong-status", "release"); }
    b.releases = 0; b.nops = 10 + choose(150); m->asked_to_stop = false; set_fp(m); cb_loop(m); faults_disable();
    for (auto f : b.f) if (!f->main) { s = resource_release(fiber_resource_handle(f->f)); CHECK(s == OK, "wrong-status", "releasing a fiber returned 0x%x", s); }
    s = resource_release(fiber_scheduler_resource_handle(b.s)); CHECK(s == OK, "wrong-status", "releasing the scheduler returned 0x%x", s); CHECK(b.releases == 1, "handler-twice", "the callback was told of the release %d times", b.releases);
    A.release(); check_no_leaks("after releasing the scheduler"); for (auto f : b.f) delete f; W = nullptr; B = nullptr; _mm_setcsr(0x1F80); uint16_t cw = 0x037F; asm volatile("fldcw %0" ::"m"(cw));
}
uint32_t opt(uint32_t v) { return choose(3) == 2 ? 0 : v; }
int nops() { static const int n[] = {12, 40, 120, 300}; return n[choose(4)]; }
} // namespace
SCENARIO(F01, fiber_state) { world({8, 4, 5, 0, 12, opt(1), opt(1), 0, 2, 0, (int)choose(2), 3 + (int)choose(10), nops(), true, true}, true); }
SCENARIO(F01, callback_scheduler, 4) { cb_world(); }
SCENARIO(F02, fiber_order) { world({8, opt(4), 8, 1, 5, opt(1), opt(1), 0, 1, 0, (int)choose(2), 3 + (int)choose(10), nops(), false, false}, true); }
SCENARIO(F03, fiber_disciplines, 300) { world({2, opt(2), 10, 4, 3, 0, 0, 0, 1, 4, (int)choose(2), 2 + (int)choose(5), nops(), false, false}, true); }
SCENARIO(F04, fiber_management) { world({4, 4, 5, 0, 10, 5, 5, 3, 3, 0, (int)choose(2), 3 + (int)choose(10), nops(), false, false}, true); }
SCENARIO(F05, fiber_idle) { world({4, opt(3), 9, 0, 5, opt(1), opt(1), opt(1), 1, 0, (int)choose(4), 2 + (int)choose(6), nops(), false, false}, true); }
ALSO(V01, fiber_management, 1);
