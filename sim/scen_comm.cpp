// Mailboxes and conditionals between fibers, with failures, out-of-band
// requests and foreign resumptions, checked against a reference model.
#include "common.hpp"
#include <rcpr/fiber.h>
#include <rcpr/message.h>
#include <rcpr/condition.h>
#include <rcpr/rbtree.h>
RCPR_IMPORT_fiber;
RCPR_IMPORT_message;
RCPR_IMPORT_condition;

namespace {
enum St { S_CUR, S_READY, S_RECV, S_WAIT, S_USER, S_STRANDED, S_STOPPED };
enum Ex { X_NONE, X_CONT, X_MSG, X_WOKEN, X_INTR, X_ENTRY, X_IDLE };
struct Msg { message* m = nullptr; Item* it = nullptr; int item_id = -1; int64_t val = 0; mailbox_address ret = 0; int id = 0; };
struct Note { int id; std::deque<int> order; };
struct CF { uint64_t magic = 0xC0FF; int id = 0; fiber* f = nullptr; St st = S_READY; Ex ex = X_NONE; Msg* got = nullptr; uint64_t where = 0; bool main = false, idle = false; int entered = 0; int must = 0; bool pq = false, pt = false; St soft = S_CUR; bool kind = false, maybe = false; std::shared_ptr<Note> note, made; std::vector<Msg*> held; };
struct Box { mailbox_address a; std::deque<Msg*> q; CF* blocked = nullptr; uint64_t sent = 0; };
struct Cond { conditional c; std::deque<CF*> w; int tainted = 0; };
struct Cfg { uint32_t run, send, recv, mkbox, clbox, badbox, wait, n1, nall, mkcond, clcond, badcond, oob, foreign, add, stop; int idle, maxf, nops, boxes, conds; bool faults; };
struct Comm {
    fiber_scheduler* s = nullptr; allocator* a = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr, *ud = nullptr; rcpr_uuid uid;
    std::vector<CF*> f; CF* cur = nullptr; CF* idle = nullptr; CF* main = nullptr; std::function<void()> pend; bool pending = false; CF* pby = nullptr; std::map<uint64_t, Box> box; std::map<uint64_t, Cond> cond; std::set<uint64_t> dead_box, dead_cond; Cfg c; int ops = 0; bool ending = false, done = false; int settles = 0, next_msg = 0, next_note = 0; int nf = 0;
    std::vector<Msg*> limbo;
};
Comm* C;

int ready_others(CF* me) { int n = 0; for (auto f : C->f) if (f != me && f->st == S_READY) n++; return n; }
void mark() {
    uint64_t h = 77; for (auto& b : C->box) h = mix64(h ^ (b.first * 3 + b.second.q.size() * 131 + (b.second.blocked ? b.second.blocked->id + 1 : 0))); for (auto& c : C->cond) { h = mix64(h ^ c.first * 7); for (auto w : c.second.w) h = mix64(h ^ w->id); } for (auto f : C->f) h = mix64(h ^ (f->id * 16 + f->st)); mark_state(h);
}
void set_pend(std::function<void()> fn) { C->pend = fn; C->pending = true; C->pby = C->cur; }
bool mine(CF* me) { return C->pending && C->pby == me; }
void drop_pend() { C->pend = nullptr; C->pending = false; }
void ready(CF* f, Ex ex, Msg* m = nullptr) {
    if (f->soft != S_CUR && f->st == S_READY && (ex == X_MSG || ex == X_WOKEN)) { // what it waited for comes first, and the request when it next waits
        (f->kind ? f->pq : f->pt) = true; f->soft = S_CUR; f->ex = ex; f->got = m; return; }
    CHECK(f->st != S_READY && f->st != S_STOPPED, "model", "fiber %d was made runnable twice", f->id);
    f->st = S_READY; f->ex = ex; f->got = m;
}
void interrupted(CF* t);
// a fiber interrupted from outside stays a waiter until it runs
void unregister(CF* t) { St k = t->soft; t->soft = S_CUR; if (k == S_RECV) { auto i = C->box.find(t->where); if (i != C->box.end() && i->second.blocked == t) i->second.blocked = nullptr; } else if (k == S_WAIT) { auto i = C->cond.find(t->where); if (i != C->cond.end()) { auto& w = i->second.w; auto j = std::find(w.begin(), w.end(), t); if (j != w.end()) w.erase(j); } } }
// first thing when control arrives in a fiber through the library
void arrive(CF* me, Ex want = X_NONE) {
    Comm& c = *C; step();
    if (c.pending) {
        auto p = c.pend; CF* y = c.pby; drop_pend(); p();
        if ((y->pq || y->pt) && (y->st == S_RECV || y->st == S_WAIT)) {  // it was asked to quiesce or terminate while it was runnable, and now waits
            CHECK(me == y, "request-lost", "fiber %d waits, and is not told of the request sent to it earlier", y->id); if (y->pq) y->pq = false; else y->pt = false;
            interrupted(y); }
    }
    else { CHECK(c.cur != me, "model", "arrival without a yield"); CHECK(false, "wrong-fiber", "fiber %d continued although fiber %d is running and has not yielded", me->id, c.cur->id); }
    if (c.cur && c.cur->st == S_CUR) CHECK(false, "model", "the yielder has no new state");
    if (me->idle && me->st != S_READY) { CHECK(ready_others(me) == 0, "idle-too-early", "the idle fiber ran while another fiber was runnable"); me->ex = X_IDLE; }
    else if (me->st == S_STRANDED) me->ex = X_INTR;
    else if (me->st == S_WAIT && c.cond[me->where].tainted) { auto& w = c.cond[me->where].w; w.erase(std::find(w.begin(), w.end(), me)); me->ex = X_WOKEN; }  // by the notification that failed half-way
    else CHECK(me->st == S_READY, "spurious-resume", "fiber %d was resumed while it was %s", me->id, me->st == S_RECV ? "waiting for a message nobody sent" : me->st == S_WAIT ? "waiting on a conditional nobody notified" : me->st == S_STOPPED ? "stopped" : "blocked");
    me->maybe = me->soft == S_WAIT && c.cond.count(me->where) && c.cond[me->where].tainted; unregister(me);
    if (me->note) { // woken by a notification: in waiting order
        CHECK(!me->note->order.empty() && me->note->order.front() == me->id, "wake-order", "fiber %d was woken before fiber %d, which had waited longer", me->id, me->note->order.empty() ? -1 : me->note->order.front());
        me->note->order.pop_front(); me->note.reset();
    }
    if (me->made) { CHECK(me->made->order.empty(), "notifier-first", "the notifier %d continued before fiber %d which it woke", me->id, me->made->order.front()); me->made.reset(); }
    me->must = 0; me->st = S_CUR; c.cur = me; ev("resume", me->id, me->ex); (void)want; mark();
}
void msg_check(CF* me, message* m, Msg* e) {
    CHECK(m != nullptr && block_live(m), "dangling-message", "fiber %d received a message that is not allocated", me->id);
    CHECK(message_return_address(m) == e->ret, "wrong-message", "fiber %d received return address %lu instead of %lu (message %d)", me->id, (unsigned long)message_return_address(m), (unsigned long)e->ret, e->id);
    resource* p = message_payload(m, false);
    CHECK(p == (e->it ? item_res(e->it) : nullptr), "wrong-message", "fiber %d received another payload than message %d was sent with", me->id, e->id);
    if (p) { Item* i = item_of(p); CHECK(i->id == e->item_id && i->val == e->val, "wrong-message", "fiber %d received message %d with a changed payload", me->id, e->id); }
    CHECK(m == e->m, "wrong-message", "fiber %d received another message object", me->id);
}
void msg_dispose(Msg* e) {
    if (e->it && choose(2)) {
        resource* p = message_payload(e->m, true); CHECK(p == item_res(e->it), "wrong-message", "payload transfer returned another resource"); CHECK(message_payload(e->m, false) == nullptr, "payload-kept", "a transferred payload is still in its message");
        status s = resource_release(message_resource_handle(e->m)); CHECK(s == OK, "wrong-status", "releasing a message returned 0x%x", s); CHECK(item_alive(e->item_id), "double-release", "a transferred payload was released with its message"); item_drop(e->it);
    } else { status s = resource_release(message_resource_handle(e->m)); CHECK(s == OK, "wrong-status", "releasing a message returned 0x%x", s); CHECK(e->item_id < 0 || !item_alive(e->item_id), "leaked-resource", "a payload was not released with its message"); }
    delete e;
}
Msg* msg_make(CF* me) {
    Comm& c = *C;
    if (!me->held.empty() && choose(2)) { Msg* e = me->held.back(); me->held.pop_back(); return e; }
    Msg* e = new Msg; e->id = c.next_msg++; e->ret = choose(3) ? choose(8) : mix64(e->id); if (choose(8) != 7) { e->val = (int64_t)mix64(e->id * 31); e->it = item_new(e->val); e->item_id = e->it->id; }
    uint64_t ff = faults_fired(); size_t lb = live_blocks(); status s = message_create(&e->m, c.a, e->ret, e->it ? item_res(e->it) : nullptr);
    if (s != OK) { CHECK(is_oom(s) && faults_fired() > ff, "wrong-status", "creating a message returned 0x%x", s); CHECK(live_blocks() == lb, "memory-leak", "a failed message creation left memory"); if (e->it) { CHECK(item_alive(e->item_id), "double-release", "a failed message creation released the payload"); item_drop(e->it); } delete e; return nullptr; }
    return e;
}
bool oom_ok(status s, uint64_t ff) { return is_oom(s) && faults_fired() > ff; }
Box* any_box() { std::vector<uint64_t> v; for (auto& b : C->box) v.push_back(b.first); return v.empty() ? nullptr : &C->box[pick(v)]; }
Cond* any_cond() { std::vector<uint64_t> v; for (auto& b : C->cond) if (!b.second.tainted) v.push_back(b.first); return v.empty() ? nullptr : &C->cond[pick(v)]; }
uint64_t bad_addr(std::set<uint64_t>& dead, uint64_t hi) { static const uint64_t odd[] = {0, ~0ull, 1ull << 32, 1ull << 63}; if (!dead.empty() && choose(3)) { auto it = dead.begin(); std::advance(it, choose((uint32_t)dead.size())); return *it; } if (choose(2)) return hi + 1 + choose(3); return odd[choose(4)]; }
bool told_now(CF* me) { return me->pq || me->pt; }  // its next wait is interrupted at once
bool would_exhaust(CF* me) { return !C->idle && !me->pq && !me->pt && ready_others(me) == 0; }

void do_run(CF* me) {
    uint64_t ff = faults_fired(); set_pend([me] { if (me->idle) me->st = S_USER; else { me->st = S_USER; ready(me, X_CONT); } });
    status s = fiber_scheduler_run(C->s); if (s == OK) arrive(me); else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "run returned 0x%x", s); drop_pend(); }
}
void send_to(CF* me, uint64_t addr, Msg* e) {
    Comm& c = *C; uint64_t ff = faults_fired(); bool open = c.box.count(addr); ev("send", me->id, addr, e->id, open);
    set_pend([=] { me->st = S_USER; ready(me, X_CONT); auto it = C->box.find(addr); if (it == C->box.end()) return; Box& b = it->second; b.sent++; if (b.blocked) { CF* r = b.blocked; b.blocked = nullptr; ready(r, X_MSG, e); } else b.q.push_back(e); });
    status s = message_send(addr, e->m, c.md); ev("sent", s);
    if (s == OK) { CHECK(open, "sent-nowhere", "sending to mailbox %lu, which is not open, succeeded", (unsigned long)addr); arrive(me); }
    else {
        CHECK(mine(me), "wrong-status", "a send failed with 0x%x after other fibers had run", s); drop_pend(); CHECK(c.cur == me, "wrong-fiber", "bookkeeping");
        if (open) CHECK(oom_ok(s, ff), "wrong-status", "sending to an open mailbox returned 0x%x", s);
        CHECK(block_live(e->m), "ownership", "a message whose send failed was released"); if (e->it) CHECK(item_alive(e->item_id), "ownership", "the payload of a message whose send failed was released");
        CHECK(message_return_address(e->m) == e->ret && message_payload(e->m, false) == (e->it ? item_res(e->it) : nullptr), "ownership", "a message whose send failed was changed");
        if (me->held.size() < 3 && choose(2)) me->held.push_back(e); else msg_dispose(e);
    }
}
void do_send(CF* me, Box* b) { uint64_t a = b->a; Msg* e = msg_make(me); if (e) send_to(me, a, e); }
void recv_from(CF* me, uint64_t addr) {
    Comm& c = *C; uint64_t ff = faults_fired(); auto it = c.box.find(addr); bool open = it != c.box.end(); bool has = open && !it->second.q.empty(), dbl = open && !has && it->second.blocked; bool ex = would_exhaust(me), self = told_now(me); ev("recv", me->id, addr, open, has);
    set_pend([=] { me->st = S_USER; auto i = C->box.find(addr); if (i == C->box.end() || dbl) { ready(me, X_CONT); return; } Box& b = i->second; if (has) { Msg* e = b.q.front(); b.q.pop_front(); ready(me, X_MSG, e); } else { b.blocked = me; me->st = S_RECV; me->where = addr; } });
    message* m = nullptr; status s = message_receive(addr, &m, c.md); ev("recvd", s);
    if (s == OK) {
        CHECK(open, "received-nowhere", "receiving from mailbox %lu, which is not open, succeeded", (unsigned long)addr); CHECK(!dbl, "double-wait", "two fibers wait on one mailbox");
        arrive(me); CHECK(me->ex == X_MSG, "spurious-message", "fiber %d received a message though none was for it", me->id); Msg* e = me->got; me->got = nullptr; msg_check(me, m, e); ev("got", e->id);
        if (me->held.size() < 3 && choose(4) == 3) me->held.push_back(e); else msg_dispose(e);
        return;
    }
    if (mine(me) && !(self && open && !has && !dbl && !oom_ok(s, ff))) {
        drop_pend(); CHECK(c.cur == me, "wrong-fiber", "bookkeeping");
        if (!open) ; else if (dbl) CHECK(s == ERROR_MESSAGE_ALREADY_BLOCKED || oom_ok(s, ff), "wrong-status", "a second receiver got 0x%x", s);
        else if (has) CHECK(oom_ok(s, ff), "wrong-status", "receiving a queued message returned 0x%x", s);
        else CHECK((s == ERROR_FIBER_SCHEDULER_EXHAUSTED && ex) || oom_ok(s, ff), "wrong-status", "waiting for a message returned 0x%x", s);
        return;
    }
    arrive(me); CHECK(me->ex == X_INTR, "lost-message", "fiber %d's receive failed with 0x%x though it was resumed for %s", me->id, s, me->ex == X_MSG ? "a message" : "nothing");
}
void do_mkbox(CF* me) {
    Comm& c = *C; uint64_t ff = faults_fired(); set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); mailbox_address a = 0xDEAD; status s = mailbox_create(&a, c.md); ev("mkbox", me->id, s, a);
    if (s == OK) { CHECK(!c.box.count(a), "duplicate-address", "a new mailbox got the address %lu of an open one", (unsigned long)a); CHECK(a != MESSAGE_ADDRESS_NONE, "duplicate-address", "a new mailbox got the address that means none"); arrive(me); Box b; b.a = a; c.box[a] = b; c.dead_box.erase(a); }
    else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "creating a mailbox returned 0x%x", s); drop_pend(); }
}
void do_clbox(CF* me, Box* b) {
    Comm& c = *C; uint64_t a = b->a; for (auto f : c.f) if (f->main && f->st == S_RECV && f->where == a) return;
    uint64_t ff = faults_fired(); std::vector<Msg*> left(b->q.begin(), b->q.end()); CF* r = b->blocked; (void)r;
    set_pend([me] { me->st = S_USER; ready(me, X_CONT); });
    status s = mailbox_close(a, c.md); ev("clbox", me->id, a, s);
    if (s == OK) arrive(me);
    else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "closing mailbox %lu returned 0x%x", (unsigned long)a, s); drop_pend(); NoFaults nf; set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); s = mailbox_close(a, c.md); CHECK(s == OK, "half-done", "closing again after running out of memory returned 0x%x", s); arrive(me); }
    if (r) { if (r->soft != S_CUR) r->soft = S_CUR; else r->st = S_STRANDED; }
    for (auto e : left) { CHECK(!block_live(e->m) || e->item_id < 0, "memory-leak", "message %d survived its mailbox", e->id); CHECK(e->item_id < 0 || !item_alive(e->item_id), "leaked-resource", "the payload of message %d survived its mailbox", e->id); delete e; }
    c.box.erase(a); c.dead_box.insert(a);
}
void do_badbox(CF* me) {
    Comm& c = *C; uint64_t hi = 0; for (auto& b : c.box) hi = std::max(hi, b.first); for (auto d : c.dead_box) hi = std::max(hi, d); uint64_t a = bad_addr(c.dead_box, hi); if (c.box.count(a)) return;
    switch (choose(4)) {
    case 0: { Msg* e = msg_make(me); if (e) send_to(me, a, e); break; }
    case 1: recv_from(me, a); break;
    case 2: { set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); status s = mailbox_close(a, c.md); ev("badclose", a, s); CHECK(s != OK, "closed-nothing", "closing mailbox %lu, which is not open, succeeded", (unsigned long)a); CHECK(mine(me), "wrong-fiber", "a refused close let other fibers run"); drop_pend(); break; }
    case 3: { std::vector<uint64_t> v; for (auto& b : c.box) if (b.second.blocked && b.second.blocked != me) v.push_back(b.first); if (!v.empty()) recv_from(me, pick(v)); break; }
    }
}
// ------------------------------------------------------------- conditionals
void do_mkcond(CF* me) {
    Comm& c = *C; uint64_t ff = faults_fired(); set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); conditional h = 0xDEAD; status s = conditional_create(&h, c.cd); ev("mkcond", me->id, s, h);
    if (s == OK) { CHECK(!c.cond.count(h), "duplicate-address", "a new conditional got the handle %lu of an open one", (unsigned long)h); arrive(me); Cond k; k.c = h; c.cond[h] = k; c.dead_cond.erase(h); }
    else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "creating a conditional returned 0x%x", s); drop_pend(); }
}
void do_clcond(CF* me, Cond* k) {
    Comm& c = *C; uint64_t h = k->c; for (auto w : k->w) if (w->main) return;
    uint64_t ff = faults_fired(); std::vector<CF*> left(k->w.begin(), k->w.end()); set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); status s = conditional_close(h, c.cd); ev("clcond", me->id, h, s);
    if (s == OK) arrive(me);
    else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "closing a conditional returned 0x%x", s); drop_pend(); NoFaults nf; set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); s = conditional_close(h, c.cd); CHECK(s == OK, "half-done", "closing again after running out of memory returned 0x%x", s); arrive(me); }
    for (auto w : left) if (w->soft != S_CUR) w->soft = S_CUR; else w->st = S_STRANDED; c.cond.erase(h); c.dead_cond.insert(h);
}
void wait_on(CF* me, uint64_t h) {
    Comm& c = *C; uint64_t ff = faults_fired(); bool open = c.cond.count(h); bool ex = would_exhaust(me), self = told_now(me); ev("wait", me->id, h, open);
    set_pend([=] { me->st = S_USER; auto i = C->cond.find(h); if (i == C->cond.end()) { ready(me, X_CONT); return; } i->second.w.push_back(me); me->st = S_WAIT; me->where = h; });
    status s = conditional_wait(h, c.cd); ev("waited", me->id, s);
    if (s == OK) { CHECK(open, "waited-nowhere", "waiting on conditional %lu, which is not open, succeeded", (unsigned long)h); CHECK(!mine(me), "spurious-wake", "fiber %d's wait succeeded at once", me->id); arrive(me); if (me->ex == X_INTR && me->maybe) { me->ex = X_WOKEN; (me->kind ? me->pq : me->pt) = true; } CHECK(me->ex == X_WOKEN, "spurious-wake", "fiber %d's wait succeeded though it was not notified", me->id); return; }
    if (mine(me) && !(self && open && !oom_ok(s, ff))) { drop_pend(); if (open) CHECK((s == ERROR_FIBER_SCHEDULER_EXHAUSTED && ex) || oom_ok(s, ff), "wrong-status", "waiting on a conditional returned 0x%x", s); return; }
    arrive(me); CHECK(me->ex == X_INTR, "lost-wake", "fiber %d's wait failed with 0x%x though it was notified", me->id, s);
}
void notify(CF* me, uint64_t h, bool all) {
    Comm& c = *C; uint64_t ff = faults_fired(); bool open = c.cond.count(h); bool tainted_by = false; bool* tp = &tainted_by; ev("notify", me->id, h, all, open);
    bool committed = false; bool* cp = &committed; int sel = -1; (void)sel;
    set_pend([=] {
        me->st = S_USER; ready(me, X_CONT); auto i = C->cond.find(h); if (i == C->cond.end()) return; Cond& k = i->second; *cp = true;
        if (faults_fired() != ff) { // an allocation failed on the way: some prefix of the waiters may have been woken
            *tp = true; k.tainted++; return; }
        size_t n = k.w.empty() ? 0 : all ? k.w.size() : 1; auto note = std::make_shared<Note>(); note->id = C->next_note++;
        for (size_t j = 0; j < n; ++j) { CF* w = k.w.front(); k.w.pop_front(); bool early = w->soft != S_CUR; ready(w, X_WOKEN); if (early) continue; w->note = note; note->order.push_back(w->id); }
        me->made = note; });
    status s = all ? conditional_notify_all(h, c.cd) : conditional_notify_one(h, c.cd); ev("notified", s);
    if (s == OK) CHECK(open, "notified-nowhere", "notifying conditional %lu, which is not open, succeeded", (unsigned long)h);
    if (mine(me) && s != OK) {  // returned at once
        drop_pend(); if (!open) return;
        CHECK(oom_ok(s, ff), "wrong-status", "notifying returned 0x%x", s); tainted_by = true; c.cond[h].tainted++;
    } else { arrive(me); if (!open) { CHECK(s != OK, "x", "x"); return; } if (!tainted_by) CHECK(s == OK, "wrong-status", "a notification that woke its fibers returned 0x%x", s); }
    if (tainted_by) { // settle: with no more failures everybody who still waits must wake now
        NoFaults nf; int my = ++c.settles; auto it = c.cond.find(h); if (it == c.cond.end()) return; std::vector<CF*> left(it->second.w.begin(), it->second.w.end());
        set_pend([=] { me->st = S_USER; ready(me, X_CONT); auto i = C->cond.find(h); Cond& k = i->second; for (auto w : k.w) { if (w->soft == S_CUR) w->st = S_USER; ready(w, X_WOKEN); w->must = my; } k.w.clear(); });
        s = conditional_notify_all(h, c.cd); CHECK(s == OK, "wrong-status", "notifying again without faults returned 0x%x", s); arrive(me);
        for (auto w : left) CHECK(w->must != my, "lost-wake", "fiber %d was not woken by a notification of everybody", w->id);
        if (c.cond.count(h)) c.cond[h].tainted--;
    }
}
void do_badcond(CF* me) {
    Comm& c = *C; uint64_t hi = 0; for (auto& b : c.cond) hi = std::max(hi, b.first); for (auto d : c.dead_cond) hi = std::max(hi, d); uint64_t h = bad_addr(c.dead_cond, hi); if (c.cond.count(h)) return;
    switch (choose(4)) { case 0: wait_on(me, h); break; case 1: notify(me, h, false); break; case 2: notify(me, h, true); break;
    case 3: { set_pend([me] { me->st = S_USER; ready(me, X_CONT); }); status s = conditional_close(h, c.cd); CHECK(s != OK, "closed-nothing", "closing a conditional that is not open succeeded"); CHECK(mine(me), "wrong-fiber", "a refused close let other fibers run"); drop_pend(); break; } }
}
// ----------------------------------------------------- interruptions
void interrupted(CF* t) { // model effect of resuming a blocked fiber from outside
    if (t->st == S_RECV) C->box[t->where].blocked = nullptr;
    if (t->st == S_WAIT) { auto& w = C->cond[t->where].w; w.erase(std::find(w.begin(), w.end(), t)); }
    ready(t, X_INTR);
}
bool started(CF* f) { return f->main || f->entered; }
void told(CF* t, bool q) { // model effect of a request
    if (t->st == S_READY) { (q ? t->pq : t->pt) = true; return; }
    St k = t->st; ready(t, X_INTR); if (k == S_RECV || k == S_WAIT) { t->soft = k; t->kind = q; }
}
bool tainted(CF* f) { return f->st == S_WAIT && C->cond[f->where].tainted; }
std::vector<CF*> targets(CF* me) { std::vector<CF*> v; for (auto f : C->f) if (f != me && !f->main && !f->idle && (f->st == S_RECV || f->st == S_WAIT || f->st == S_STRANDED || f->st == S_USER) && !tainted(f)) v.push_back(f); return v; }
void oob(CF* me, CF* t) {
    uint64_t ff = faults_fired(); bool q = choose(2); fault_note(F_OOB); ev("oob", me->id, t->id, q);
    set_pend([=] { me->st = S_USER; ready(me, X_CONT); told(t, q); });
    status s = q ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(C->s, t->f) : disciplined_fiber_scheduler_send_terminate_request_to_fiber(C->s, t->f);
    if (s == OK) arrive(me); else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "a request returned 0x%x", s); drop_pend(); }
}
// also to fibers that are already about to run, or to everybody
void oob_any(CF* me) {
    std::vector<CF*> v; bool bad = false; for (auto f : C->f) { if (f != me && started(f) && f->st != S_STOPPED && f->st != S_CUR && !f->idle && !tainted(f)) v.push_back(f); bad |= tainted(f); }
    if (choose(3) || bad) { if (!v.empty()) oob(me, pick(v)); return; }
    bool q = choose(2); fault_note(F_OOB); ev("oob-all", me->id, q); NoFaults nf;
    std::vector<CF*> to; for (auto f : C->f) if (f != me && !f->main && !f->idle && started(f) && f->st != S_STOPPED) to.push_back(f);  // every fiber that was added and runs
    set_pend([=] { me->st = S_USER; ready(me, X_CONT); for (auto f : to) told(f, q); });
    status s = q ? disciplined_fiber_scheduler_send_quiesce_request_to_all(C->s) : disciplined_fiber_scheduler_send_terminate_request_to_all(C->s); CHECK(s == OK, "wrong-status", "a request to everybody returned 0x%x", s); arrive(me);
}
struct UOp { CF* by; CF* t; int ev; void* p; };
status user_cb(void* ctx, fiber* yf, int, void* yp) {
    Comm* c = (Comm*)ctx; UOp* o = (UOp*)yp; CHECK(yf == o->by->f, "wrong-yielder", "a handler was told of another fiber");
    if (!o->t) return OK;
    NoFaults nf;  // delivered in front so that nothing runs in between
    status s = disciplined_fiber_scheduler_set_next_fiber_to_run(c->s, yf, &c->uid, 0, nullptr); CHECK(s == OK, "wrong-status", "set next");
    s = disciplined_fiber_scheduler_set_next_fiber_to_run(c->s, o->t->f, &c->uid, o->ev, o->p); CHECK(s == OK, "wrong-status", "set next"); return OK;
}
void foreign(CF* me, CF* t) { // another discipline resumes the blocked fiber with an event code of its own
    UOp o{me, t, (int)choose(12), choose(2) ? nullptr : (void*)0x10}; const rcpr_uuid* id; int e; void* p; ev("foreign", me->id, t->id, o.ev);
    set_pend([=] { me->st = S_USER; ready(me, X_CONT); interrupted(t); });
    status s = fiber_discipline_yield(C->ud, 0, &o, &id, &e, &p); CHECK(s == OK, "wrong-status", "a yield returned 0x%x", s); arrive(me);
}
void loop(CF* me);
status entry(void* ctx) {
    CF* me = (CF*)ctx; CHECK(me && me->magic == 0xC0FF && ++me->entered == 1, "wrong-context", "a fiber was entered wrongly"); arrive(me); CHECK(me->ex == X_ENTRY || me->idle, "wrong-fiber", "entry"); loop(me);
    for (auto e : me->held) C->main->held.push_back(e); me->held.clear(); faults_disable(); ev("stop", me->id); set_pend([me] { me->st = S_STOPPED; if (C->c.faults) faults_enable(); }); return 0;
}
CF* mk(bool idle) {
    Comm& c = *C; CF* n = new CF; n->id = ++c.nf; n->st = S_USER; n->idle = idle; uint64_t ff = faults_fired(); status s = fiber_create(&n->f, c.a, c.s, 65536, n, &entry);
    if (s != OK) { CHECK(oom_ok(s, ff), "wrong-status", "creating a fiber returned 0x%x", s); delete n; return nullptr; } return n;
}
void do_add(CF* me) {
    Comm& c = *C; CF* n = mk(false); if (!n) return; uint64_t ff = faults_fired(); c.f.push_back(n);
    set_pend([=] { me->st = S_USER; ready(me, X_CONT); ready(n, X_ENTRY); }); status s = fiber_scheduler_add(c.s, n->f);
    if (s == OK) arrive(me); else { CHECK(mine(me) && oom_ok(s, ff), "wrong-status", "adding a fiber returned 0x%x", s); drop_pend(); c.f.pop_back(); s = resource_release(fiber_resource_handle(n->f)); CHECK(s == OK, "wrong-status", "release"); delete n; }
}
void wake(CF* me, CF* t) { // wake a particular blocked fiber the regular way
    NoFaults nf;
    if (t->st == S_RECV) { Msg* e = msg_make(me); if (e) send_to(me, t->where, e); }
    else if (t->st == S_WAIT) { if (!C->cond[t->where].tainted) notify(me, t->where, choose(2)); else do_run(me); }
    else if (t->st == S_STRANDED) { if (choose(2)) oob(me, t); else foreign(me, t); }
}
void action(CF* me) {
    Comm& c = *C; c.ops++; Box* b = any_box(); Cond* k = any_cond(); Cfg& g = c.c; auto t = targets(me); size_t live = 0; for (auto f : c.f) if (f->st != S_STOPPED) live++;
    bool nb = me->idle;   // the idle fiber never blocks
    switch (weighted({g.run, b ? g.send : 0, b && !nb ? g.recv : 0, c.box.size() < (size_t)g.boxes ? g.mkbox : 0, b ? g.clbox : 0, nb ? 0 : g.badbox, k && !nb ? g.wait : 0, k ? g.n1 : 0, k ? g.nall : 0, c.cond.size() < (size_t)g.conds ? g.mkcond : 0, k ? g.clcond : 0, nb ? 0 : g.badcond, t.empty() ? 0 : g.oob, t.empty() ? 0 : g.foreign, nb ? 0 : g.oob, live < (size_t)g.maxf && !nb ? g.add : 0})) {
    case 0: do_run(me); break; case 1: do_send(me, b); break; case 2: recv_from(me, b->a); break; case 3: do_mkbox(me); break; case 4: do_clbox(me, b); break; case 5: do_badbox(me); break; case 6: wait_on(me, k->c); break; case 7: notify(me, k->c, false); break; case 8: notify(me, k->c, true); break; case 9: do_mkcond(me); break; case 10: do_clcond(me, k); break; case 11: do_badcond(me); break; case 12: oob(me, pick(t)); break; case 13: foreign(me, pick(t)); break; case 14: oob_any(me); break; case 15: do_add(me); break;
    }
}
void loop(CF* me) {
    Comm& c = *C;
    while (!c.ending && c.ops < c.c.nops) {
        step();
        if (!me->main && !me->idle && ready_others(me) && choose(1000) < c.c.stop) return;
        if (me->idle && ready_others(me) == 0) { std::vector<CF*> v; for (auto f : c.f) if (f->st == S_RECV || f->st == S_WAIT || f->st == S_STRANDED) v.push_back(f); if (!v.empty()) { c.ops++; wake(me, pick(v)); continue; } }
        if (me->idle && choose(2)) { do_run(me); continue; }
        action(me);
    }
    if (me->main) return;
    c.ending = true; faults_disable(); c.c.faults = false;
    for (;;) { step(); if (c.main->st == S_RECV || c.main->st == S_WAIT) wake(me, c.main); else do_run(me); }
}
void comm(Cfg g) {
    Comm w; C = &w; w.c = g; items_reset(); set_step_limit(400000); Alloc A; w.a = A.a; status s;
    s = fiber_scheduler_create_with_disciplines(&w.s, A.a); CHECK(s == OK, "wrong-status", "creating a scheduler returned 0x%x", s);
    w.c.faults = choose(3) != 0; if (w.c.faults) faults_config({F_ALLOC, F_MMAP}); else faults_config({}, 1000);
    auto get = [&](fiber_scheduler_discipline** d, bool msg) { for (int t = 0;; ++t) { if (t > 3) faults_disable(); uint64_t ff = faults_fired(); size_t lb = live_blocks(); *d = nullptr; status s = msg ? message_discipline_get_or_create(d, A.a, w.s) : condition_discipline_get_or_create(d, A.a, w.s); if (s == OK) break; CHECK(oom_ok(s, ff), "wrong-status", "creating a discipline returned 0x%x", s); CHECK(live_blocks() == lb, "memory-leak", "a failed discipline creation left memory allocated"); }
        fiber_scheduler_discipline* again = nullptr; status s = msg ? message_discipline_get_or_create(&again, A.a, w.s) : condition_discipline_get_or_create(&again, A.a, w.s); CHECK(s == OK && again == *d, "wrong-discipline", "asking for a discipline again yielded another one"); if (w.c.faults) faults_enable(); };
    if (choose(2)) { get(&w.md, true); get(&w.cd, false); } else { get(&w.cd, false); get(&w.md, true); }
    { NoFaults nf; memset(&w.uid, 0x42, 16); fiber_scheduler_discipline_callback_fn cb = &user_cb; s = fiber_scheduler_discipline_create(&w.ud, &w.uid, A.a, &w, 1, &cb); CHECK(s == OK, "setup", "x"); s = fiber_scheduler_discipline_add(w.s, w.ud); CHECK(s == OK, "setup", "x"); }
    CF* m = new CF; m->main = true; m->st = S_CUR; { fiber* f; s = disciplined_fiber_scheduler_main_fiber_get(&f, w.s); CHECK(s == OK, "setup", "x"); m->f = f; } w.main = w.cur = m; w.f.push_back(m);
    if (g.idle) { NoFaults nf; CF* i = mk(true); i->st = S_USER; w.idle = i; w.f.push_back(i); s = disciplined_fiber_scheduler_set_idle_fiber(w.s, i->f); CHECK(s == OK, "setup", "x"); }
    { NoFaults nf; for (int i = 0; i < 1 + (int)choose(3); ++i) do_add(m); if (g.boxes) do_mkbox(m); if (g.conds) do_mkcond(m); }
    loop(m); w.ending = true; faults_disable(); w.c.faults = false;
    // progress: whoever is runnable runs before main has yielded twice
    std::vector<CF*> r; for (auto f : w.f) if (f != m && f->st == S_READY && !f->idle) r.push_back(f);
    std::vector<std::pair<CF*, int>> old; for (auto f : r) old.push_back({f, f->ex});
    std::set<CF*> pendf(r.begin(), r.end());
    for (int t = 0; t < 2; ++t) { do_run(m); }
    for (auto f : pendf) CHECK(!(f->st == S_READY && f->ex != X_CONT), "starved", "fiber %d was made runnable and never ran", f->id);
    // every message still queued is received in order, or released with the scheduler
    if (choose(2)) for (auto& b : w.box) while (!b.second.q.empty()) recv_from(m, b.first);
    // and everybody who waits can still be woken
    if (choose(2)) { for (int t = 0; t < 60; ++t) { CF* x = nullptr; for (auto f : w.f) if (f->st == S_RECV || f->st == S_WAIT) { x = f; break; } if (!x) break; wake(m, x); } do_run(m); do_run(m); for (auto f : w.f) CHECK(!(f->st == S_READY && f->ex != X_CONT && !f->idle), "starved", "fiber %d was woken and never ran", f->id); }
    for (auto f : w.f) { for (auto e : f->held) msg_dispose(e); f->held.clear(); }
    s = resource_release(fiber_scheduler_resource_handle(w.s)); CHECK(s == OK, "wrong-status", "releasing the scheduler returned 0x%x", s);
    for (auto& b : w.box) for (auto e : b.second.q) { CHECK(e->item_id < 0 || !item_alive(e->item_id), "leaked-resource", "message %d survived the scheduler", e->id); delete e; }
    A.release(); check_no_leaks("after releasing the scheduler"); for (auto f : w.f) delete f; C = nullptr;
}
uint32_t opt(uint32_t v) { return choose(3) == 2 ? 0 : v; }
int nops() { static const int n[] = {15, 50, 150, 400}; return n[choose(4)]; }
} // namespace
//                                  run send recv mkb clb bad  wait n1 na mkc clc badc oob foreign add stop
SCENARIO(M01, messages, 1500)   { comm({5, 10, 10, 2, opt(1), 1, opt(2), opt(2), 0, 1, 0, 0, opt(1), opt(1), 4, opt(40), (int)choose(2), 3 + (int)choose(8), nops(), 1 + (int)choose(4), 1, true}); }
SCENARIO(M02, mailboxes, 800)  { comm({3, 6, 6, 6, 5, 5, 0, 0, 0, 0, 0, 0, opt(1), 0, 3, opt(30), (int)choose(2), 3 + (int)choose(8), nops(), 2 + (int)choose(12), 0, true}); }
SCENARIO(C01, conditionals, 800) { comm({5, opt(2), opt(2), 1, 0, 0, 12, 4, 4, 3, opt(1), opt(2), opt(1), opt(1), 4, opt(20), (int)choose(2), 3 + (int)choose(10), nops(), 1, 1 + (int)choose(4), true}); }
SCENARIO(X01, interrupted_waits) { comm({4, 6, 8, 2, opt(1), opt(1), 8, 3, 2, 2, opt(1), 0, 6, 4, 4, opt(20), (int)choose(2), 3 + (int)choose(8), nops(), 1 + (int)choose(3), 1 + (int)choose(3), true}); }
ALSO(V01, messages, 1);
ALSO(V01, conditionals, 1);
