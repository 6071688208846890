// Several schedulers in one thread, side by side and one inside another's fibers: each behaves as if it were alone.
#include "common.hpp"
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/message.h>
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_message;

namespace {
struct Nest; struct NF { Nest* n; int id; fiber* f = nullptr; bool stopped = false, entered = false, waits = false, told = false; uint64_t salt; std::vector<Nest*> kids; };
// q and expect: who runs next, kept only while nothing waits for a conditional in this scheduler
struct Nest { fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; int id, depth; bool strict; NF* outer; std::vector<NF*> f; std::deque<int> q; int expect = 0; NF* cur = nullptr; std::deque<NF*> wq; mailbox_address box = 0; conditional cond = 0; std::deque<std::pair<message*, Item*>> sent; };
struct All { Alloc A; int fuel = 0, made = 0, live = 0, turns = 0; }; All* G;
uint64_t print_of(NF* f, int k) { return mix64(f->salt + (uint64_t)k * 977); }

void arrived(NF* me) {
    Nest* n = me->n; CHECK(!me->stopped, "resumed-after-stop", "fiber %d of scheduler %d ran after it had stopped", me->id, n->id);
    if (n->strict) CHECK(n->expect == me->id, "wrong-fiber", "fiber %d of scheduler %d was resumed instead of fiber %d", me->id, n->id, n->expect);
    if (me->waits) { CHECK(me->told, "spurious-resume", "a fiber waiting on a conditional of scheduler %d was resumed before anyone notified it", n->id); me->waits = me->told = false; }
    n->cur = me; fiber* c = nullptr; CHECK(disciplined_fiber_scheduler_current_fiber_get(&c, n->s) == OK && c == me->f, "wrong-fiber", "scheduler %d reports another fiber as the current one", n->id);
    CHECK(fiber_scheduler_from_fiber_get(me->f) == n->s, "wrong-scheduler", "fiber %d names another scheduler", me->id);
}
void next_up(Nest* n) { if (!n->strict) return; CHECK(!n->q.empty(), "model", "nothing is runnable"); n->expect = n->q.front(); n->q.pop_front(); }
int others(NF* me) { int k = 0; for (auto f : me->n->f) if (f != me && !f->stopped && (!f->waits || f->told)) k++; return k; }
status nest_fiber(void* c);
void work(NF* me, bool once);

Nest* nest_make(NF* outer) {
    uint64_t f0 = faults_fired(); size_t lb = live_blocks(); Nest* n = new Nest; n->id = G->made; n->depth = outer ? outer->n->depth + 1 : 0; n->strict = choose(2); n->outer = outer;
    status r = fiber_scheduler_create_with_disciplines(&n->s, G->A.a); ev("scheduler", n->id, n->depth, r); if (r != OK) { CHECK(is_oom(r) && faults_fired() > f0, "wrong-status", "creating a scheduler inside a fiber returned 0x%x", r); CHECK(live_blocks() == lb, "memory-leak", "a failed creation left memory behind"); delete n; return nullptr; }
    NoFaults nf; G->made++; G->live++; NF* m = new NF{n, 0}; m->salt = mix64(G->made); m->entered = true; n->f.push_back(m); n->cur = m;
    r = disciplined_fiber_scheduler_main_fiber_get(&m->f, n->s); CHECK(r == OK && m->f, "wrong-status", "no main fiber");
    if (choose(4)) { r = message_discipline_get_or_create(&n->md, G->A.a, n->s); CHECK(r == OK, "wrong-status", "creating a discipline returned 0x%x", r); r = mailbox_create(&n->box, n->md); CHECK(r == OK, "wrong-status", "creating a mailbox returned 0x%x", r); arrived(m); }
    if (!n->strict) { r = condition_discipline_get_or_create(&n->cd, G->A.a, n->s); CHECK(r == OK, "wrong-status", "creating a discipline returned 0x%x", r); r = conditional_create(&n->cond, n->cd); CHECK(r == OK, "wrong-status", "creating a conditional returned 0x%x", r); arrived(m); }
    return n;
}
void nest_end(Nest* n) {
    // the schedulers its fibers made go first
    for (auto f : n->f) { while (!f->kids.empty()) { Nest* k = f->kids.back(); f->kids.pop_back(); nest_end(k); } }
    ev("release", n->id); NoFaults nf; status r = resource_release(fiber_scheduler_resource_handle(n->s)); CHECK(r == OK, "wrong-status", "releasing scheduler %d returned 0x%x", n->id, r);
    for (auto& m : n->sent) CHECK(!item_alive(m.second->id), "leaked-resource", "a message left in a mailbox of scheduler %d was not released", n->id);
    for (auto f : n->f) delete f; delete n; G->live--;
}
void work_op(NF* me) {
    Nest* n = me->n; step(); G->turns++; bool m = n->md; uint32_t op = weighted({6, 2, m ? 3u : 0u, m ? 3u : 0u, n->cd ? 2u : 0u, n->cd ? 2u : 0u, G->made < 7 && n->depth < 3 ? 2u : 0u, me->kids.empty() ? 0u : 8u, me->kids.empty() ? 0u : 1u});
    status r = OK; fiber* cf = nullptr;
    switch (op) {
    case 0: { NoFaults nf; n->q.push_back(me->id); next_up(n); r = fiber_scheduler_run(n->s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); break; }
    case 1: { if (n->f.size() > 7) return; uint64_t f0 = faults_fired(); NF* f = new NF{n, (int)n->f.size()}; f->salt = mix64(G->made * 1000 + f->id + n->id * 77); r = fiber_create(&f->f, G->A.a, n->s, 65536 + choose(3) * 4096, f, &nest_fiber); ev("create", n->id, f->id, r); if (r != OK) { CHECK(is_oom(r) && faults_fired() > f0, "wrong-status", "creating a fiber returned 0x%x", r); delete f; return; }
        NoFaults nf; n->f.push_back(f); n->q.push_back(f->id); n->expect = me->id; r = fiber_scheduler_add(n->s, f->f); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r); break; }
    case 2: { NoFaults nf; if (n->sent.size() > 6) return; Item* it = item_new((int64_t)mix64(G->turns)); message* x = nullptr; r = message_create(&x, G->A.a, 0, item_res(it)); CHECK(r == OK, "wrong-status", "creating a message returned 0x%x", r); n->sent.push_back({x, it}); n->expect = me->id; r = message_send(n->box, x, n->md); CHECK(r == OK, "wrong-status", "sending returned 0x%x", r); break; }
    case 3: { NoFaults nf; if (n->sent.empty()) return; auto w = n->sent.front(); n->sent.pop_front(); n->expect = me->id; message* x = nullptr; r = message_receive(n->box, &x, n->md); CHECK(r == OK, "wrong-status", "receiving returned 0x%x", r); CHECK(x == w.first && message_payload(x, true) == item_res(w.second), "wrong-message", "a mailbox of scheduler %d delivered another message", n->id); r = resource_release(message_resource_handle(x)); CHECK(r == OK, "wrong-status", "releasing a message returned 0x%x", r); item_drop(w.second); break; }
    case 4: { NoFaults nf; if (!others(me)) return; me->waits = true; me->told = false; n->wq.push_back(me); ev("wait", n->id, me->id); r = conditional_wait(n->cond, n->cd); CHECK(r == OK, "wrong-status", "waiting returned 0x%x", r); break; }
    case 5: { NoFaults nf; bool all = choose(2); size_t k = all ? n->wq.size() : std::min<size_t>(1, n->wq.size()); for (size_t i = 0; i < k; ++i) { n->wq.front()->told = true; n->wq.pop_front(); } ev("notify", n->id, all, (int64_t)k);
        r = all ? conditional_notify_all(n->cond, n->cd) : conditional_notify_one(n->cond, n->cd); CHECK(r == OK, "wrong-status", "notifying returned 0x%x", r); break; }
    case 6: { Nest* k = nest_make(me); if (k) me->kids.push_back(k); break; }
    case 7: { Nest* k = pick(me->kids); work(k->f[0], true); break; }
    case 8: { uint32_t i = choose((uint32_t)me->kids.size()); Nest* k = me->kids[i]; me->kids.erase(me->kids.begin() + i); nest_end(k); break; }
    }
    ev("back", n->id, me->id, op); arrived(me); (void)cf;
    mark_state(mix64(n->depth * 7 + G->live * 131 + n->f.size() * 17 + op * 1009 + n->sent.size() * 77));
}
// canaries: what a fiber keeps in its frame must be there again whoever ran in between
__attribute__((noinline)) void work(NF* me, bool once) {
    volatile uint64_t can[6]; for (int i = 0; i < 6; ++i) can[i] = print_of(me, i + G->turns % 3); int t = G->turns % 3;
    work_op(me);
    for (int i = 0; i < 6; ++i) CHECK(can[i] == print_of(me, i + t), "state-changed", "the frame of fiber %d of scheduler %d was changed while others ran", me->id, me->n->id); (void)once;
}
void wake_all(NF* me) { Nest* n = me->n; if (n->wq.empty()) return; for (auto f : n->wq) f->told = true; n->wq.clear(); status r = conditional_notify_all(n->cond, n->cd); CHECK(r == OK, "wrong-status", "notifying returned 0x%x", r); arrived(me); }
status nest_fiber(void* c) {
    NF* me = (NF*)c; CHECK(!me->entered, "entered-twice", "fiber %d of scheduler %d was entered twice", me->id, me->n->id); me->entered = true; uintptr_t a = (uintptr_t)__builtin_frame_address(0), lo; size_t sz; CHECK(stack_region((void*)a, lo, sz), "wrong-stack", "a fiber does not run on a stack of its own"); arrived(me);
    while (choose(14) != 13 && G->fuel-- > 0) work(me, false);
    Nest* n = me->n; if (G->fuel <= 0) for (;;) { step(); NoFaults nf; wake_all(me); n->q.push_back(me->id); next_up(n); status r = fiber_scheduler_run(n->s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); arrived(me); }   // over: back to whoever made the scheduler
    if (!others(me)) { NoFaults nf; wake_all(me); if (!others(me)) for (;;) work_op(me); }   // someone has to be there to go on
    while (!me->kids.empty()) { Nest* k = me->kids.back(); me->kids.pop_back(); nest_end(k); }
    ev("stop", n->id, me->id); faults_disable(); me->stopped = true; next_up(n); return OK;
}
SCENARIO(F02, several_schedulers, 3) {
    items_reset(); set_step_limit(400000); All g; G = &g; g.fuel = 5 + choose(300); faults_config({F_ALLOC, F_MMAP}, 200); std::vector<Nest*> top;
    for (uint32_t i = 1 + choose(3); i; --i) { Nest* n; while (!(n = nest_make(nullptr))) faults_disable(); top.push_back(n); }
    while (g.fuel-- > 0) { Nest* n = pick(top); work(n->f[0], true); if (choose(30) == 29 && top.size() > 1) { uint32_t i = choose((uint32_t)top.size()); Nest* k = top[i]; top.erase(top.begin() + i); nest_end(k); } }
    while (!top.empty()) { Nest* k = top.back(); top.pop_back(); nest_end(k); }
    g.A.release(); check_no_leaks("after releasing the schedulers"); CHECK(g.live == 0, "model", "schedulers left"); G = nullptr;
}
ALSO(F01, several_schedulers, 2);
}
