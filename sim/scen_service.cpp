// A whole service: listener, one fiber per connection, a pool of worker fibers
// behind mailboxes, a bounded number of requests in flight (a conditional), a
// manager that reaps fibers, and a main fiber that turns signals into quiesce
// and terminate requests.  Clients are simulated peers.
#include "psockkit.hpp"
#include <rcpr/message.h>
#include <rcpr/condition.h>
#include <netinet/in.h>
#include <arpa/inet.h>
RCPR_IMPORT_fiber;
RCPR_IMPORT_message;
RCPR_IMPORT_condition;
extern "C" int sim_close(int);

namespace {
enum { OP_ECHO = 1, OP_WORK = 2, OP_BYE = 3 };
enum CKind { C_STREAM, C_LOCKSTEP, C_RESET, C_CLOSE, C_STALL, C_GARBAGE };
struct Rq { int op; Val v; uint64_t n; };
struct Cl { int id; CKind k; bool good; std::vector<Rq> rq; std::string in, got; std::vector<std::string> rep; std::vector<size_t> cut; FileP p; size_t pos = 0; size_t act_at = 0; bool acted = false, shut = false; size_t total = 0; struct Cn* cn = nullptr; bool refused = false; };
enum Ph { IDLE, BUSY };
enum End { LIVE, E_EOF, E_QUIESCE, E_TERM, E_ERR, E_BYE, E_DROP };
struct Cn { uint64_t magic = 0xC1C1; Cl* cl; fiber* f = nullptr; psock* s = nullptr; Br br; FileP weak; ChanP rx, tx; int fd = -1; Ph ph = IDLE; size_t served = 0; End end = LIVE; mailbox_address mb = 0; bool has_mb = false, closed = false, started = false; uint64_t inj = 0; uint64_t injected() { return weak ? (uint64_t)weak->injected : inj; } void forget() { if (weak) { inj = weak->injected; weak.reset(); } } int told_q = 0, told_t = 0; };
struct Wk { int id; fiber* f = nullptr; mailbox_address mb = 0; bool up = false, down = false; uint64_t jobs = 0; };
struct Svc {
    Alloc A; fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; conditional cond = 0; uint32_t inflight = 0, slots = 1; std::vector<Cn*> cn; std::vector<Cl*> cl; std::vector<Wk*> wk; psock* ls = nullptr; fiber *lf = nullptr, *mf = nullptr; bool l_done = false, m_done = false, quiesce = false, term = false, frozen = false; bool io_errs = false, af = false; int live = 0; size_t connected = 0, accepted = 0; std::deque<Cl*> pend; uint64_t rr = 0; std::vector<int> sig; size_t sigpos = 0; uint64_t fuel = 0; int how = 0; FileP sigp; int stops = 0; uint32_t served = 0; int started = 0; psock* ss = nullptr; FileP lfile; int waiting = 0;
};
Svc* S;
void fe() { if (S->af) faults_enable(); }
bool oom_only(status r) { return S->af && is_oom(r); }
void h_close(int fd) { NoFaults nf; CHECK(sim_close(fd) == 0, "harness", "close"); }
std::string reply_of(const Rq& r) { std::string s(1, (char)(0x80 + r.op)); if (r.op == OP_ECHO) return s + val_enc(r.v); Val v; v.k = V_U64; v.n = mix64(r.n); return s + val_enc(v); }
std::string request_of(const Rq& r) { std::string s(1, (char)r.op); if (r.op == OP_ECHO) return s + val_enc(r.v); if (r.op == OP_BYE) return s; Val v; v.k = V_U64; v.n = r.n; return s + val_enc(v); }
bool broke(Cn* c) { Cl* l = c->cl; return (l->acted && l->k != C_STALL) || c->injected() > 0 || c->rx->err; }
// ---- conditional-bounded section
bool slot_take(Cn* c) {
    while (S->inflight >= S->slots) {
        if (S->term) return false; S->waiting++; status r = conditional_wait(S->cond, S->cd); S->waiting--; fe(); ev("slot", c->cl->id, r);
        if (r != OK) CHECK(oom_only(r) || c->told_q || c->told_t || S->quiesce || S->term, "wrong-status", "waiting for a free slot returned 0x%x", r);
    }
    S->inflight++; CHECK(S->inflight <= S->slots, "model", "slots"); return true;
}
void slot_give() {
    S->inflight--; status r = conditional_notify_one(S->cond, S->cd); fe();
    for (int i = 0; r != OK && oom_only(r); ++i) { if (i > 8) { NoFaults nf; r = conditional_notify_one(S->cond, S->cd); } else r = conditional_notify_one(S->cond, S->cd); fe(); }
    CHECK(r == OK || S->waiting == 0, "wrong-status", "notifying returned 0x%x", r);
}
status unexpected(void* ctx, fiber* f, const rcpr_uuid* id, int evn, void*, const rcpr_uuid* want, int) {
    Cn* c = (Cn*)ctx; CHECK(c && c->magic == 0xC1C1 && c->f == f, "wrong-context", "a handler was called for another fiber"); CHECK(!memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16) && !memcmp(want, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, 16), "wrong-event", "a connection was resumed by something nobody sent");
    bool q = evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST, t = evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST; CHECK((q && S->quiesce) || (t && S->term), "wrong-event", "a connection was told of event 0x%x, which nobody requested", evn); (q ? c->told_q : c->told_t)++; ev("told", c->cl->id, q);
    return t || c->ph == IDLE ? E_UNEXP : OK;
}
bool failed(Cn* c, status r, const char* what) { // true: the connection ends
    ev("conn-error", c->cl->id, r, c->ph);
    if (r == E_UNEXP) { CHECK(c->told_t || (c->told_q && c->ph == IDLE), "wrong-status", "%s returned a handler's status", what); c->end = S->term ? E_TERM : E_QUIESCE; return true; }
    bool eof = c->rx->wclosed && c->rx->q.empty() && !c->rx->err;
    if (c->ph == IDLE && eof && !c->injected()) { c->end = E_EOF; return true; }
    CHECK(broke(c) || c->tx->rclosed || oom_only(r) || S->term, "wrong-status", "%s for client %d returned 0x%x though nothing went wrong with it", what, c->cl->id, r); c->end = oom_only(r) ? E_DROP : E_ERR; return true;
}
bool work(Cn* c, uint64_t n, uint64_t& out) {
    if (!slot_take(c)) { c->end = E_TERM; return false; }
    Wk* w = S->wk[S->rr++ % S->wk.size()]; Item* it; { NoFaults nf; it = item_new((int64_t)n); } message* m = nullptr; status r = message_create(&m, S->A.a, c->mb, item_res(it)); fe();
    if (r != OK) { CHECK(oom_only(r), "wrong-status", "creating a message returned 0x%x", r); item_drop(it); slot_give(); c->end = E_DROP; return false; }
    r = message_send(w->mb, m, S->md); fe();
    if (r != OK) { CHECK(oom_only(r) || (S->term && w->down), "wrong-status", "sending a job returned 0x%x", r); { NoFaults nf; CHECK(resource_release(message_resource_handle(m)) == OK, "wrong-status", "releasing a message failed"); } slot_give(); c->end = S->term ? E_TERM : E_DROP; return false; }
    for (;;) {
        if (S->term) { c->end = E_TERM; slot_give(); return false; }
        m = nullptr; r = message_receive(c->mb, &m, S->md); fe(); if (r == OK) break;
        CHECK(oom_only(r) || S->quiesce || S->term, "wrong-status", "waiting for a reply returned 0x%x", r);
    }
    resource* p = message_payload(m, false); CHECK(p, "wrong-message", "a reply has no payload"); Item* o = item_of(p); out = (uint64_t)o->val; CHECK(out == mix64(n), "wrong-message", "client %d's job was answered with another job's result", c->cl->id); { NoFaults nf; CHECK(resource_release(message_resource_handle(m)) == OK, "wrong-status", "releasing a reply failed"); }
    slot_give(); return true;
}
void conn_loop(Cn* c) {
    psock *rs = c->br.br ? c->br.s : c->s, *ws = c->br.br && choose(2) ? c->br.s : c->s; Cl* l = c->cl; status r = mailbox_create(&c->mb, S->md); fe();
    if (r != OK) { CHECK(oom_only(r), "wrong-status", "creating a mailbox returned 0x%x", r); c->end = E_DROP; return; } c->has_mb = true;
    for (size_t k = 0;; ++k) {
        if (S->term) { c->end = E_TERM; return; } if (S->quiesce) { c->end = E_QUIESCE; return; }
        c->ph = IDLE; uint8_t op = 0; r = psock_read_raw_uint8(rs, &op); fe(); if (r != OK) { failed(c, r, "reading a request"); return; } c->ph = BUSY;
        if (k >= l->rq.size()) { CHECK(l->k == C_GARBAGE && op == 0xEE, "bytes-invented", "client %d sent no such request", l->id); l->acted = true; c->end = E_ERR; return; }
        Rq& q = l->rq[k]; CHECK(op == q.op, "wrong-value", "client %d's request %zu was read as %d", l->id, k, op); Val rep; rep.k = V_U64;
        if (op == OP_BYE) { c->end = E_BYE; return; }
        if (op == OP_ECHO) { r = val_read(rs, S->A.a, q.v, rep, false); fe(); if (r != OK) { failed(c, r, "reading a value"); return; } CHECK(val_eq(rep, q.v), "wrong-value", "client %d: %s was read as %s", l->id, val_show(q.v).c_str(), val_show(rep).c_str()); }
        else { uint64_t n = 0; r = psock_read_raw_uint64(rs, &n); fe(); if (r != OK) { failed(c, r, "reading a job"); return; } CHECK(n == q.n, "wrong-value", "client %d's job was read as another", l->id); if (!work(c, n, rep.n)) return; }
        r = psock_write_raw_uint8(ws, (uint8_t)(0x80 + op)); fe(); if (r == OK) { r = val_write(ws, rep); fe(); } if (r != OK) { failed(c, r, "writing a reply"); return; }
        c->served++; S->served++; ev("served", l->id, k);
    }
}
status conn_main(void* ctx) {
    Cn* c = (Cn*)ctx; c->started = true; S->started++; fe(); conn_loop(c); faults_disable(); ev("conn-end", c->cl->id, c->end, c->served);
    if (c->has_mb) { status r = mailbox_close(c->mb, S->md); CHECK(r == OK, "wrong-status", "closing a mailbox returned 0x%x", r); }
    c->forget(); if (c->br.br) br_drop(c->br); psock* s = c->s; c->s = nullptr; psock_drop(s); CHECK(!c->closed, "x", "x"); c->closed = true; faults_disable(); return OK;
}
status worker_main(void* ctx) {
    Wk* w = (Wk*)ctx; S->started++; faults_disable(); status r = mailbox_create(&w->mb, S->md); CHECK(r == OK, "wrong-status", "creating a mailbox returned 0x%x", r); w->up = true; fe();
    while (!S->term) {
        message* m = nullptr; r = message_receive(w->mb, &m, S->md); fe();
        if (r != OK) { CHECK(oom_only(r) || S->quiesce || S->term, "wrong-status", "waiting for a job returned 0x%x", r); continue; }
        Item* it = item_of(message_payload(m, false)); uint64_t n = (uint64_t)it->val; mailbox_address back = message_return_address(m); ev("job", w->id, (int64_t)back); w->jobs++;
        for (uint32_t i = choose(4); i; --i) { r = fiber_scheduler_run(S->s); fe(); CHECK(r == OK || oom_only(r), "wrong-status", "run returned 0x%x", r); }
        message* o = nullptr; int t = 0; bool reuse = choose(2);
        if (reuse) { resource* p = message_payload(m, true); CHECK(p == item_res(it), "wrong-message", "payload"); CHECK(message_payload(m, false) == nullptr, "payload-kept", "a transferred payload is still in its message"); it->val = (int64_t)mix64(n); }
        else { NoFaults nf; it = item_new((int64_t)mix64(n)); }
        do { if (++t > 8) faults_disable(); r = message_create(&o, S->A.a, MESSAGE_ADDRESS_NONE, item_res(it)); CHECK(r == OK || oom_only(r), "wrong-status", "creating a reply returned 0x%x", r); } while (r != OK);
        t = 0; do { if (++t > 8) faults_disable(); r = message_send(back, o, S->md); if (t <= 8) fe(); } while (r != OK && oom_only(r) && t < 12);
        { NoFaults nf; if (r != OK) { bool gone = true; for (auto c : S->cn) if (c->has_mb && c->mb == back && !c->closed && c->end == LIVE) gone = false; CHECK(gone, "wrong-status", "replying to a live connection returned 0x%x", r); CHECK(resource_release(message_resource_handle(o)) == OK, "wrong-status", "releasing a reply failed"); } CHECK(resource_release(message_resource_handle(m)) == OK, "wrong-status", "releasing a job failed"); }
        fe();
    }
    faults_disable(); w->down = true; r = mailbox_close(w->mb, S->md); CHECK(r == OK, "wrong-status", "closing a mailbox returned 0x%x", r); faults_disable(); ev("worker-end", w->id, w->jobs); return OK;
}
status l_unexpected(void*, fiber*, const rcpr_uuid*, int evn, void*, const rcpr_uuid*, int) { CHECK(S->quiesce || S->term, "wrong-event", "the listener was told of event 0x%x, which nobody requested", evn); return E_UNEXP; }
bool dispatch(int fd, Cl* l) { // false: dropped for want of memory
    Cn* c = new Cn; c->cl = l; c->fd = fd; c->weak = fd_get(fd); c->rx = c->weak->rx; c->tx = c->weak->tx; psock *d = nullptr, *x = nullptr; fiber* f = nullptr; S->cn.push_back(c); l->cn = c; bool br = choose(2); status r = psock_create_from_descriptor(&d, S->A.a, fd);
    if (r != OK) { CHECK(oom_only(r), "wrong-status", "creating a socket returned 0x%x", r); c->forget(); h_close(fd); c->end = E_DROP; c->closed = true; return false; }
    r = fiber_create(&f, S->A.a, S->s, 65536, c, &conn_main);
    if (r == OK) { c->f = f; r = fiber_unexpected_event_callback_add(f, &unexpected, c); }
    if (r == OK) { r = psock_create_wrap_async(&x, S->A.a, f, d); if (r == OK) { c->s = x; d = nullptr; } }
    if (r == OK && br) { r = psock_br_create_from_psock(&c->br.br, S->A.a, x); if (r == OK) c->br.s = psock_br_psock_adapter(c->br.br); else c->br.br = nullptr; }
    if (r == OK) { S->live++; r = fiber_scheduler_add(S->s, f); fe(); if (r != OK) S->live--; }
    if (r == OK) return true;
    CHECK(oom_only(r) || c->injected(), "wrong-status", "starting a connection returned 0x%x", r); c->forget(); NoFaults nf; if (c->br.br) br_drop(c->br); c->br = Br(); if (c->s) psock_drop(c->s); c->s = nullptr; if (d) psock_drop(d); if (f) CHECK(resource_release(fiber_resource_handle(f)) == OK, "wrong-status", "releasing a fiber failed"); c->f = nullptr; c->end = E_DROP; c->closed = true; return false;
}
status listener_main(void*) {
    S->started++; int bad = 0;
    while (!S->quiesce && !S->term) {
        fe(); int fd = 4242; struct sockaddr_storage sa; socklen_t sl = sizeof sa; status r = psock_accept(S->ls, &fd, (struct sockaddr*)&sa, &sl); fe(); ev("accept", r);
        if (r == E_UNEXP) break;
        if (r != OK) { CHECK(oom_only(r) || S->lfile->injected > 0, "wrong-status", "accepting returned 0x%x", r); if (++bad > 60) { faults_disable(); S->af = false; } continue; }
        CHECK(!S->pend.empty(), "invented", "a connection nobody made was accepted"); Cl* l = S->pend.front(); S->pend.pop_front(); { FileP f = fd_get(fd); CHECK(f && f->rx == l->p->tx, "wrong-order", "another connection than the oldest pending one was accepted"); CHECK(sl == f->from.size() && !memcmp(&sa, f->from.data(), sl), "wrong-address", "accept did not return the address of the connecting peer"); } S->accepted++; dispatch(fd, l);
    }
    faults_disable(); psock* s = S->ls; S->ls = nullptr; psock_drop(s); S->lfile.reset(); S->l_done = true; ev("listener-end", S->accepted); faults_disable(); return OK;
}
bool all_stopped() { return S->live == 0; }
status manager_main(void*) {
    while (!(S->term && all_stopped())) {
        fe(); const rcpr_uuid* id = nullptr; int e = -1; void* p = nullptr; status r = disciplined_fiber_scheduler_receive_management_event(S->s, &id, &e, &p); CHECK(r == OK || oom_only(r), "wrong-status", "waiting for management events returned 0x%x", r); if (r != OK) continue;
        if (memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16)) CHECK(false, "wrong-resume-id", "the manager was resumed by another discipline");
        if (e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP) {
            NoFaults nf; fiber* f = (fiber*)p; CHECK(fiber_state_get(f) == FIBER_STATE_STOPPED, "wrong-state", "the manager was told that a running fiber stopped"); bool known = false; for (auto c : S->cn) if (c->f == f) { known = c->closed; c->f = nullptr; } for (auto w : S->wk) if (w->f == f) { known = w->down; w->f = nullptr; } if (S->lf == f) { known = S->l_done; S->lf = nullptr; } CHECK(known, "wrong-resume-param", "the manager was told of a fiber that did not stop");
            r = disciplined_fiber_scheduler_remove_fiber(S->s, f); CHECK(r == OK, "wrong-status", "removing a stopped fiber returned 0x%x", r); r = resource_release(fiber_resource_handle(f)); CHECK(r == OK, "wrong-status", "releasing a stopped fiber returned 0x%x", r); S->live--; S->stops++;
        } else CHECK(e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD || S->quiesce || S->term, "wrong-resume-event", "the manager was resumed with event 0x%x", e);
    }
    S->m_done = true; faults_disable(); ev("manager-end", S->stops); return OK;
}
// ---- clients
bool finished(Cl* l) { if (!l->p) return false; if (!l->good) return l->acted || (l->cn && l->cn->closed); return l->cn && l->cn->closed; }
void client(uint32_t i, bool bad_ok) {
    Cl* l = new Cl; l->id = (int)i; l->k = bad_ok && choose(3) == 0 ? (CKind)(C_RESET + choose(4)) : choose(3) ? C_STREAM : C_LOCKSTEP; l->good = l->k <= C_LOCKSTEP; uint32_t n = choose(8) ? 1 + choose(8) : 0; S->cl.push_back(l);
    for (uint32_t j = 0; j < n; ++j) { Rq q; q.op = choose(2) ? OP_WORK : OP_ECHO; q.n = mix64(i * 1000 + j); if (q.op == OP_ECHO) q.v = val_gen(choose(12) == 11 ? 20000 : 200); l->rq.push_back(q); }
    bool bye = l->good && choose(4) == 3; for (auto& q : l->rq) { l->in += request_of(q); l->cut.push_back(l->in.size()); l->rep.push_back(reply_of(q)); l->total += l->rep.back().size(); } if (bye) { Rq q; q.op = OP_BYE; l->rq.push_back(q); l->in += request_of(q); l->cut.push_back(l->in.size()); }
    if (l->k == C_GARBAGE) l->in += "\xEE\xEE\xEE"; l->act_at = l->k == C_GARBAGE ? l->in.size() : choose((uint32_t)l->in.size() + 1); size_t lim = l->k == C_STREAM || l->k == C_LOCKSTEP || l->k == C_GARBAGE ? l->in.size() : l->act_at; size_t rchunk = choose(3) ? 100000 : 1 + choose(40);
    auto allowed = [l, lim]() -> size_t { if (l->k != C_LOCKSTEP) return lim; size_t a = 0; for (size_t k = 0; k < l->cut.size(); ++k) { if (k > 0) { if (k - 1 < l->rep.size()) a += l->rep[k - 1].size(); if (l->got.size() < a) return l->cut[k - 1]; } } return l->in.size(); };
    actor_add("client", [l, allowed, lim] {
        if (S->frozen) return false; if (!l->p) return !l->refused && S->lfile != nullptr; if (l->acted) return false;
        if (peer_avail(l->p) > 0 || (l->pos < allowed() && peer_space(l->p) > 0)) return true;
        if (l->pos < lim) return false;
        return l->k == C_GARBAGE ? false : l->good ? !l->shut && l->got.size() >= l->total : true; },
    [l, allowed, lim, rchunk] {
        if (!l->p) { l->p = k_connect_to(S->lfile); if (!l->p) return; S->pend.push_back(l); S->connected++; ev("peer-connect", l->id); return; }
        size_t av = peer_avail(l->p); bool canw = l->pos < allowed() && peer_space(l->p) > 0;
        if (l->k >= C_RESET && l->k <= C_STALL && l->pos >= lim) { l->acted = true; ev("peer-act", l->id, l->k); if (l->k == C_RESET) { fault_note(F_PEER_RESET); peer_reset(l->p); } else if (l->k == C_CLOSE) { fault_note(F_PEER_CLOSE); peer_close(l->p); } else fault_note(F_PEER_STALL); return; }
        if (av && (!canw || choose(2))) { l->got += peer_read(l->p, std::min(rchunk, chunk_gen(av))); size_t off = 0; for (auto& r : l->rep) { if (off >= l->got.size()) break; size_t n = std::min(r.size(), l->got.size() - off); CHECK(!memcmp(l->got.data() + off, r.data(), n), "wrong-reply", "client %d got a reply that is not the answer to its request", l->id); off += n; } CHECK(l->got.size() <= l->total, "bytes-invented", "client %d got more replies than it made requests", l->id); return; }
        if (canw) { size_t m = std::min(peer_space(l->p), allowed() - l->pos); l->pos += peer_write(l->p, l->in.data() + l->pos, chunk_gen(m)); return; }
        if (l->good && l->pos >= lim && !l->shut) { l->shut = true; peer_shutdown_write(l->p); } });
}
bool all_finished() { for (auto l : S->cl) if (!finished(l)) return false; return true; }
bool drained() { if (!S->l_done) return false; for (auto c : S->cn) if (!c->closed && !(c->cl->k == C_STALL)) return false; return true; }
void signaller() {
    actor_add("signals", [] {
        if (S->sigpos >= S->sig.size()) return false; if (S->how == 0) return S->sigpos == 0 ? all_finished() : drained(); if (S->how == 1 && S->sigpos > 0 && S->sig[S->sigpos - 1] == 0) return drained() || S->fuel > 0; return true; },
    [] {
        if (S->how != 0) { if (S->fuel > 0) { S->fuel--; return; } S->fuel = choose(3) ? choose(50) : choose(3000); }
        int k = S->sig[S->sigpos++]; Val v; v.k = V_I64; v.boxed = true; v.n = (uint64_t)k; std::string b = val_enc(v); fault_note(F_OOB); ev("signal", k); peer_write(S->sigp, b.data(), b.size()); });
}
SCENARIO(E01, service, 10, PLAT_BOTH) {
    items_reset(); Svc w; S = &w; set_step_limit(8000000); int mode = (int)choose(4); w.io_errs = mode == 1; w.af = mode == 2;
    if (mode == 1) faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_ACCEPT_EAGAIN, F_READ_EINTR, F_WRITE_EINTR, F_READ_ERR, F_WRITE_ERR, F_ACCEPT_ERR, F_EPOLL_CTL_ERR, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL}, 0);
    else if (mode == 2) faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_ALLOC, F_MMAP, F_PEER_STALL}, 0);
    else faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_ACCEPT_EAGAIN, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL});
    faults_disable(); env_rate(choose(4) * 150); Alloc& A = w.A; status r = fiber_scheduler_create_with_disciplines(&w.s, A.a); CHECK(r == OK, "wrong-status", "creating a scheduler returned 0x%x", r);
    r = message_discipline_get_or_create(&w.md, A.a, w.s); CHECK(r == OK, "wrong-status", "creating a discipline returned 0x%x", r); r = condition_discipline_get_or_create(&w.cd, A.a, w.s); CHECK(r == OK, "wrong-status", "creating a discipline returned 0x%x", r); r = conditional_create(&w.cond, w.cd); CHECK(r == OK, "wrong-status", "creating a conditional returned 0x%x", r);
    // how it will be shut down: 0 when everything is done, 1 in the middle
    w.how = (int)choose(2); w.sig = w.how == 0 || choose(2) ? std::vector<int>{0, 1} : choose(2) ? std::vector<int>{1} : std::vector<int>{0, 0, 1}; w.fuel = choose(3) ? choose(300) : choose(5000); w.slots = 1 + choose(4);
    // fibers: manager first, then workers and listener
    r = fiber_create(&w.mf, A.a, w.s, 65536, &w, &manager_main); CHECK(r == OK, "wrong-status", "creating a fiber returned 0x%x", r); r = fiber_scheduler_add(w.s, w.mf); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r);
    struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(9001); sa.sin_addr.s_addr = htonl(0x7f000001); psock* l0 = nullptr; r = psock_create_from_listen_address(&l0, A.a, (struct sockaddr*)&sa, sizeof sa); CHECK(r == OK, "wrong-status", "listening returned 0x%x", r); w.lfile = find_listener("in:2130706433:9001"); CHECK(w.lfile, "wrong-status", "the listener does not listen");
    r = fiber_create(&w.lf, A.a, w.s, 65536, &w, &listener_main); CHECK(r == OK, "wrong-status", "creating a fiber returned 0x%x", r); r = fiber_unexpected_event_callback_add(w.lf, &l_unexpected, nullptr); CHECK(r == OK, "wrong-status", "setting a handler returned 0x%x", r); r = psock_create_wrap_async(&w.ls, A.a, w.lf, l0); CHECK(r == OK, "wrong-status", "wrapping a listener returned 0x%x", r);
    uint32_t nw = 1 + choose(3); for (uint32_t i = 0; i < nw; ++i) { Wk* k = new Wk; k->id = (int)i; w.wk.push_back(k); r = fiber_create(&k->f, A.a, w.s, 65536, k, &worker_main); CHECK(r == OK, "wrong-status", "creating a fiber returned 0x%x", r); w.live++; r = fiber_scheduler_add(w.s, k->f); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r); }
    w.live++; r = fiber_scheduler_add(w.s, w.lf); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r);
    // signals arrive on a socket of the main fiber
    { auto p = k_pair(false, 4096, 4096); w.sigp = p.second; p.first->noinject = true; int fd = fd_install(p.first); p.first.reset(); psock* d = nullptr; r = psock_create_from_descriptor(&d, A.a, fd); CHECK(r == OK, "wrong-status", "creating a socket returned 0x%x", r); fiber* m = nullptr; r = disciplined_fiber_scheduler_main_fiber_get(&m, w.s); CHECK(r == OK, "wrong-status", "no main fiber"); r = psock_create_wrap_async(&w.ss, A.a, m, d); CHECK(r == OK, "wrong-status", "wrapping a socket returned 0x%x", r); }
    uint32_t nc = 1 + choose(choose(3) ? 4 : 10); bool bad = choose(2); for (uint32_t i = 0; i < nc; ++i) client(i, bad); signaller();
    on_wait([] { if (S->af) faults_disable(); }); for (int i = 0; i < 3; ++i) { r = fiber_scheduler_run(w.s); CHECK(r == OK || oom_only(r), "wrong-status", "run returned 0x%x", r); } faults_enable();
    while (!w.term) {
        int64_t sig = -1; r = psock_read_boxed_int64(w.ss, &sig); CHECK(r == OK || oom_only(r), "wrong-status", "reading a signal returned 0x%x", r); if (r != OK) { fe(); continue; }
        bool f = w.af; if (f) faults_disable(); if (sig == 1) { w.term = true; if (choose(2)) { w.frozen = true; env_rate(0); } } else w.quiesce = true; ev("broadcast", sig);
        r = sig == 1 ? disciplined_fiber_scheduler_send_terminate_request_to_all(w.s) : disciplined_fiber_scheduler_send_quiesce_request_to_all(w.s); CHECK(r == OK, "wrong-status", "a broadcast returned 0x%x", r); if (f && !w.term) faults_enable(); if (w.term) w.af = false; }
    // every fiber stops without anything else happening
    faults_disable(); w.af = false; int turns = 0; while (!(w.live == 0 && w.m_done)) { CHECK(++turns <= 60, "not-stopped", "%d fibers still run %d turns after the termination request", w.live, turns - 1); r = fiber_scheduler_run(w.s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); }
    psock_drop(w.ss); w.ss = nullptr; w.lfile.reset();
    // what the clients got
    for (auto l : w.cl) {
        Cn* c = l->cn; if (!l->p || !c) continue; if (l->k != C_RESET && l->k != C_CLOSE) l->got += peer_read(l->p, 1 << 20); size_t off = 0, k = 0; while (k < l->rep.size() && off + l->rep[k].size() <= l->got.size()) { CHECK(!memcmp(l->got.data() + off, l->rep[k].data(), l->rep[k].size()), "wrong-reply", "client %d: reply %zu is not the answer to its request", l->id, k); off += l->rep[k].size(); ++k; }
        CHECK(c->closed, "unfinished", "a connection was never closed"); bool read_all = l->k != C_RESET && l->k != C_CLOSE && !l->acted;
        if (k < l->rep.size() || off < l->got.size()) CHECK(off >= l->got.size() || (k < l->rep.size() && !memcmp(l->got.data() + off, l->rep[k].data(), l->got.size() - off)), "wrong-reply", "client %d got bytes that answer nothing", l->id);
        if (read_all || l->k == C_STALL) CHECK(k >= c->served || c->injected(), "lost-reply", "client %d got %zu of the %zu replies that were written", l->id, k, c->served); CHECK(k <= c->served + 1, "model", "replies");
        if (c->end == E_QUIESCE || c->end == E_EOF || c->end == E_BYE) CHECK(l->got.size() == off || !read_all, "partial-reply", "client %d's connection was closed in the middle of a reply", l->id);
        if (l->good && c->end == E_BYE) CHECK(c->served == l->rep.size(), "lost-request", "the connection of client %d ended early", l->id);
        if (w.how == 0 && l->good && !c->injected() && c->end != E_DROP) { CHECK(c->served == l->rep.size(), "lost-request", "client %d was served %zu of %zu requests", l->id, c->served, l->rep.size()); CHECK(l->got.size() == l->total, "lost-reply", "client %d got %zu of %zu bytes", l->id, l->got.size(), l->total); }
        if (l->k != C_RESET && l->k != C_CLOSE) CHECK(peer_eof(l->p), "descriptor-leak", "client %d's connection is still open", l->id);
        mark_state(mix64(c->end * 97 + c->served * 5 + l->k + mode * 1000 + w.how * 7777));
    }
    if (w.how == 0 && mode != 1 && mode != 2) for (auto l : w.cl) CHECK(l->cn || !l->good, "not-served", "client %d was never accepted", l->id);
    r = conditional_close(w.cond, w.cd); CHECK(r == OK, "wrong-status", "closing a conditional returned 0x%x", r);
    r = resource_release(fiber_scheduler_resource_handle(w.s)); CHECK(r == OK, "wrong-status", "releasing the scheduler returned 0x%x", r);
    CHECK(items_live() == 0, "leaked-resource", "%zu message payloads are left", items_live()); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); A.release(); check_no_leaks("after the service ended"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
    for (auto c : w.cn) delete c; for (auto l : w.cl) delete l; for (auto k : w.wk) delete k; S = nullptr;
}
ALSO(V01, service, 1);
}
