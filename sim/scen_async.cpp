// Socket I/O by fibers over the simulated kernel: many connections, both
// readiness back ends, fragmented and failing streams, peers that stall, close
// and reset, descriptor passing, accepting, and out-of-band interruptions.
#include "psockkit.hpp"
#include <fcntl.h>
#include <arpa/inet.h>
RCPR_IMPORT_fiber;
extern "C" int sim_close(int);

namespace {
enum TK { T_READ, T_WRITE, T_PING, T_PONG, T_COMPUTE, T_ACCEPT, T_ECHO, T_DSEND, T_DRECV };
enum RS { R_VALS, R_RAW, R_BR, R_BRRAW, R_LINES, R_STYLES };
struct Conn; struct Aw;
struct Dir { std::vector<Val> plan; std::string want, got; size_t acc = 0; bool wdone = false, rdone = false, eof = false; size_t done_at = 0; };
struct End { bool lib = false; psock* s = nullptr; Br br; int fd = -1; FileP peer, weak; ChanP rx, tx; int users = 0; Sink sink; Source src; bool shut = false, injected = false; uint32_t* inj = nullptr; };
struct Conn { int id = 0; Dir d[2]; End e[2]; bool broken = false; bool actor_broke = false; size_t break_at = 0; int break_kind = 0; std::vector<int> tags[2]; std::vector<int> sent[2]; size_t rcv[2] = {0, 0}; };
struct Task { uint64_t magic = 0x7A5C; Aw* w = nullptr; int id = 0; TK k; Conn* c = nullptr; int e = 0; int dir = 0; int style = 0; fiber* f = nullptr; bool started = false, done = false, inlib = false, armed = false; int n = 0; bool fail_next = false; int dirw = 0; int oob = 0; uint32_t reported = 0, handled = 0, failed = 0; psock* ls = nullptr; int lfd = -1; int stops = 0; };
struct Aw {
    Alloc A; fiber_scheduler* s = nullptr; std::vector<Task*> t; std::vector<Conn*> c; int live = 0; int active_compute = 0; bool errors = false, oob = false; bool stopped = false; std::map<int, int> own; int tag = 0; int accepted = 0, to_accept = 0, connected = 0; std::vector<Conn*> incoming; uint64_t seed = 0; FileP listener; bool small = false;
};
Aw* W;
void h_close(int fd) { NoFaults nf; CHECK(sim_close(fd) == 0, "harness", "close"); }
FileP efile(End& e) { return fd_get(e.fd); }
uint32_t injected(End& e) { return e.weak ? e.weak->injected : 0; }
// an error the system reports to a call must not be taken for success or for "not ready"
struct Surfaces { FileP f; int d; uint32_t h; Surfaces(FileP f, int d) : f(f), d(d), h(f ? f->hard[d] : 0) {}
    void is(status r, const char* what) { if (f && f->hard[d] != h) CHECK(r != OK && r != ERROR_PSOCK_ACCEPT_WOULD_BLOCK && r != ERROR_PSOCK_READ_WOULD_BLOCK && r != ERROR_PSOCK_WRITE_WOULD_BLOCK, "error-swallowed", "the system reported an error during %s, which returned 0x%x", what, r); } };
std::vector<Val> small_vals(size_t n, size_t maxlen) { auto v = vals_gen(n, maxlen); return v; }
bool excused(Task* t) { Conn* c = t->c; return c->broken || c->actor_broke || injected(c->e[t->e]) > 0; }
void end_leave(Task* t) { // the last user of a library end closes it
    End& e = t->c->e[t->e]; if (--e.users > 0) return;
    if (e.br.br) br_drop(e.br); e.br = Br(); psock* s = e.s; e.s = nullptr; e.weak.reset(); psock_drop(s); CHECK(!fd_open(e.fd) || true, "x", "x");
}
void broke(Task* t, status r, const char* what) {
    Conn* c = t->c; ev("io-error", t->id, r); CHECK((r == E_UNEXP && t->failed) || excused(t), "wrong-status", "%s on connection %d returned 0x%x though nothing went wrong with it", what, c->id, r); c->broken = true;
}
// -- readers
bool read_some(Task* t, Dir& d) { // one raw read of arbitrary size, waiting for readiness as documented
    End& e = t->c->e[t->e]; psock* s = t->style == R_BRRAW ? e.br.s : e.s; size_t n = 1 + len_gen(t->w->small ? 300 : 20000); if (d.want.size() > 20000) n += 100; size_t n0 = n; char* b = (char*)user_alloc(n);
    Surfaces er(e.weak, 0); status r = psock_read_raw(s, b, &n); ev("read-raw", t->id, n0, r == OK ? n : 0, r); er.is(r, "a read");
    if (r == OK) { CHECK(n > 0 && n <= n0, "wrong-size", "a read of %zu bytes by a fiber gave %zu", n0, n); d.got.append(b, n); user_free(b); CHECK(d.got.size() <= d.want.size() && !memcmp(d.got.data() + d.got.size() - n, d.want.data() + d.got.size() - n, n), "wrong-value", "connection %d: bytes %zu..%zu differ from what was sent", t->c->id, d.got.size() - n, d.got.size()); return true; }
    user_free(b);
    if (r == ERROR_PSOCK_READ_WOULD_BLOCK) { t->inlib = true; uint32_t h = t->failed; uint32_t rep = t->reported; r = psock_read_block(e.s); t->inlib = false; if (r == OK) { CHECK(t->reported != rep, "not-ready", "waiting for a socket succeeded without the socket having been reported ready"); return true; } if (r == E_UNEXP && t->failed > h) return true; CHECK(r != E_UNEXP, "wrong-status", "waiting for a socket returned a handler's status though it was not called"); broke(t, r, "waiting for readability"); return false; }
    // every byte taken from the system was handed out
    if (!t->w->errors || injected(e) == 0) CHECK(d.got.size() == e.rx->rd, "lost-bytes", "connection %d: %zu bytes were read from the system and %zu handed to the caller before the error", t->c->id, (size_t)e.rx->rd, d.got.size());
    if (d.got.size() == d.want.size() && e.rx->wclosed && !e.rx->err) { d.eof = true; return false; }
    broke(t, r, "reading");
    if (!t->c->e[1 - t->e].lib && injected(e) == 0 && t->c->break_kind == 1) CHECK(e.rx->q.empty(), "data-before-close", "connection %d: reading failed with %zu bytes still to be read", t->c->id, e.rx->q.size());
    return false;
}
bool read_line(Task* t, Dir& d) { // one line, or a part of one, through the buffered reader
    End& e = t->c->e[t->e]; size_t cap = 2 + (choose(2) ? choose(12) : len_gen(t->w->small ? 300 : 20000)), n = cap; if (d.want.size() > 20000) n = cap += 100; char* b = (char*)user_alloc(cap); uint32_t h = t->failed; uint32_t inj = injected(e);
    t->inlib = true; Surfaces er(e.weak, 0); status r = psock_br_read_line(b, &n, e.br.br); t->inlib = false; ev("read-line", t->id, cap, n, r); er.is(r, "a line read"); size_t at = d.got.size(), nl = d.want.find('\n', at), left = d.want.size() - at, L = nl == std::string::npos ? left : nl - at;
    if (r == OK) { CHECK(n >= 1 && n <= cap && b[n - 1] == 0, "bad-result", "a line of %zu bytes was read into %zu", n, cap); size_t m = n - 1; bool last = e.rx->wclosed && e.rx->q.empty() && !e.rx->err && at + m == e.rx->rd && m > 0 && m <= L; CHECK((m == L && nl != std::string::npos) || last, "wrong-line", "connection %d: the line at %zu is %zu bytes long and was read as a line of %zu", t->c->id, at, L, m); CHECK(!memcmp(b, d.want.data() + at, m), "wrong-value", "connection %d: the line at %zu differs from what was sent", t->c->id, at); d.got.append(b, m); if (!last || (m == L && e.rx->rd > at + m)) d.got += '\n'; user_free(b); return true; }
    if (r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) { bool why = t->failed > h || t->c->broken || t->c->actor_broke || injected(e) > inj; CHECK(n <= L && n >= 1 && (n == cap - 1 || (why && n < cap - 1)) && b[n] == 0, "wrong-size", "connection %d: %zu bytes of a line of %zu were returned in a buffer of %zu as a truncated line", t->c->id, n, L, cap); CHECK(!memcmp(b, d.want.data() + at, n), "wrong-value", "connection %d: the part of a line at %zu differs from what was sent", t->c->id, at); d.got.append(b, n); user_free(b); return true; }
    user_free(b); CHECK(n == cap, "output-changed", "a failed line read changed the size"); if (r == E_UNEXP && t->failed > h) return true;
    broke(t, r, "reading a line"); return false;
}
void do_read(Task* t) {
    Dir& d = t->c->d[t->dir]; End& e = t->c->e[t->e];
    if (t->style == R_VALS || t->style == R_BR) {
        psock* s = t->style == R_BR ? e.br.s : e.s;
        for (auto& v : d.plan) {
            Val o; uint32_t h = t->failed; t->inlib = true; Surfaces er(e.weak, 0); status r = val_read(s, W->A.a, v, o, false); t->inlib = false; ev("read-value", t->id, v.k, r); er.is(r, "a read of a value");
            if (r == E_UNEXP && t->failed > h) { t->c->broken = true; return; }
            CHECK(r != OK || t->failed == h, "handler-ignored", "a read went on though the unexpected-event handler failed");
            if (r != OK) { broke(t, r, "reading a value"); return; }
            CHECK(val_eq(o, v), "wrong-value", "connection %d: %s was read as %s", t->c->id, val_show(v).c_str(), val_show(o).c_str()); d.done_at++;
        }
        d.got = d.want;
    } else while (d.got.size() < d.want.size()) if (!(t->style == R_LINES ? read_line(t, d) : read_some(t, d))) break;
    if (d.got.size() < d.want.size()) { CHECK(!d.eof, "short", "end of stream after %zu of %zu bytes", d.got.size(), d.want.size()); return; }
    d.rdone = true;
    if (!t->c->e[1 - t->e].lib && choose(2)) { // then the peer closes: that is an error, not data
        uint8_t x = 7; t->inlib = true; status r = psock_read_raw_uint8(e.br.br && t->style >= R_BR ? e.br.s : e.s, &x); t->inlib = false; CHECK(r != OK, "bytes-invented", "a byte was read after the end of the stream"); CHECK(x == 7, "output-changed", "a failed read changed its output"); d.eof = true; }
}
void do_write(Task* t) {
    Dir& d = t->c->d[t->dir]; End& e = t->c->e[t->e]; psock* s = e.br.br && choose(2) ? e.br.s : e.s;
    for (auto& v : d.plan) {
        uint32_t h = t->failed; t->dirw = 1; t->inlib = true; Surfaces er(e.weak, 1); status r = val_write(s, v); t->inlib = false; er.is(r, "a write"); CHECK(r != OK || t->failed == h, "handler-ignored", "a write went on though the unexpected-event handler failed"); ev("write-value", t->id, v.k, r);
        if (r != OK) { CHECK(excused(t) || e.tx->rclosed || (r == E_UNEXP && t->failed), "wrong-status", "writing on connection %d returned 0x%x though nothing went wrong with it", t->c->id, r); t->c->broken = true; return; }
        d.acc += val_enc(v).size(); CHECK(e.tx->wr >= d.acc, "false-success", "connection %d: %zu bytes were reported written and %zu reached the system", t->c->id, d.acc, (size_t)e.tx->wr); CHECK(e.tx->wr == d.acc, "duplicated-bytes", "connection %d: %zu bytes were written and %zu reached the system", t->c->id, d.acc, (size_t)e.tx->wr);
    }
    d.wdone = true;
}
// request and reply over one connection by one fiber on each side
void do_pingpong(Task* t) {
    bool ping = t->k == T_PING; Dir &o = t->c->d[t->e], &i = t->c->d[1 - t->e]; End& e = t->c->e[t->e]; psock* rs = e.br.br ? e.br.s : e.s; psock* ws = e.br.br && choose(2) ? e.br.s : e.s; size_t n = std::min(o.plan.size(), i.plan.size());
    for (size_t k = 0; k < n; ++k) for (int half = 0; half < 2; ++half) {
        t->inlib = true; status r;
        if ((half == 0) == ping) { t->dirw = 1; Surfaces er(e.weak, 1); r = val_write(ws, o.plan[k]); t->inlib = false; er.is(r, "a write"); if (r == OK) o.done_at = k + 1; else { CHECK(excused(t) || e.tx->rclosed || (r == E_UNEXP && t->failed), "wrong-status", "writing on connection %d returned 0x%x", t->c->id, r); t->c->broken = true; return; } }
        else { Val v; t->dirw = 0; Surfaces er(e.weak, 0); r = val_read(rs, W->A.a, i.plan[k], v, false); t->inlib = false; er.is(r, "a read of a reply"); if (r != OK) { broke(t, r, "reading a reply"); return; } CHECK(val_eq(v, i.plan[k]), "wrong-value", "connection %d: %s was read as %s", t->c->id, val_show(i.plan[k]).c_str(), val_show(v).c_str()); CHECK(k < i.done_at || !t->c->e[1 - t->e].lib || true, "early", "x"); }
    }
    o.wdone = i.rdone = true;
}
// copies everything back until the peer half-closes
void do_echo(Task* t) {
    Conn* c = t->c; End& e = c->e[t->e]; char b[300];
    for (;;) {
        size_t n = 1 + choose(299); Surfaces er(e.weak, 0), ew(e.weak, 1); status r = psock_read_raw(e.s, b, &n); er.is(r, "a read");
        if (r == ERROR_PSOCK_READ_WOULD_BLOCK) { t->inlib = true; r = psock_read_block(e.s); t->inlib = false; if (r != OK) { broke(t, r, "waiting for readability"); return; } continue; }
        if (r != OK) { bool end = e.rx->wclosed && e.rx->q.empty() && !e.rx->err && c->d[0].got.size() == e.rx->rd; if (injected(e) == 0) CHECK(c->d[0].got.size() == e.rx->rd, "lost-bytes", "connection %d: %zu bytes were read from the system and %zu handed out", c->id, (size_t)e.rx->rd, c->d[0].got.size()); if (end) c->d[0].rdone = c->d[0].got.size() == c->d[0].want.size(); else broke(t, r, "reading a request"); if (!c->d[0].rdone) CHECK(excused(t), "short", "connection %d ended early", c->id); return; }
        CHECK(n > 0, "wrong-size", "a read of no bytes was reported as a success"); c->d[0].got.append(b, n); t->dirw = 1; t->inlib = true; r = psock_write_raw_data(e.s, b, n); t->inlib = false; t->dirw = 0; ew.is(r, "a write"); if (r != OK) { CHECK(excused(t) || e.tx->rclosed || (r == E_UNEXP && t->failed), "wrong-status", "echoing returned 0x%x", r); c->broken = true; return; }
    }
}
void task_add(Task* t);
Task* task_new(TK k, Conn* c, int e);
End& lib_end(Conn* c, int i, int fd, fiber* f, bool br);
void do_accept(Task* t) {
    Aw& w = *t->w; int tries = 0;
    while (w.accepted < w.to_accept) {
        int fd = 12345; t->inlib = true; Surfaces er(fd_get(t->lfd), 0); struct sockaddr_storage ss; socklen_t sl = sizeof ss; bool wa = choose(2); status r = psock_accept(t->ls, &fd, wa ? (struct sockaddr*)&ss : nullptr, wa ? &sl : nullptr); t->inlib = false; ev("accept", t->id, r); er.is(r, "an accept");
        if (r != OK) { CHECK(fd == 12345 || fd < 0, "output-changed", "a failed accept stored a descriptor"); FileP f = fd_get(t->lfd); CHECK(f && f->injected > 0, "wrong-status", "accepting returned 0x%x", r); if (++tries > 50) faults_disable(); continue; }
        Conn* c = w.incoming[w.accepted]; FileP p = c->e[0].peer, f = fd_get(fd); CHECK(f && f->rx == p->tx, "wrong-order", "another connection than the oldest pending one was accepted"); if (wa) CHECK(sl == f->from.size() && !memcmp(&ss, f->from.data(), sl), "wrong-address", "accept did not return the address of the connecting peer"); f.reset(); w.accepted++;
        c->e[1].lib = true; Task* h = task_new(T_ECHO, c, 1); lib_end(c, 1, fd, h->f, false).users = 1; task_add(h);
    }
}
void do_dsend(Task* t) {
    Conn* c = t->c; int tries = 0;
    while (!c->tags[t->e].empty()) {
        int tag = c->tags[t->e].front(); int fd = -1; for (auto& o : t->w->own) if (o.second == tag) fd = o.first; if (fd < 0) { fd = fd_install(k_reg(tag)); t->w->own[fd] = tag; }
        t->inlib = true; Surfaces er(c->e[t->e].weak, 1); status r = psock_write_raw_descriptor(c->e[t->e].s, fd); t->inlib = false; ev("send-fd", t->id, tag, r); er.is(r, "sending a descriptor");
        if (r != OK) { CHECK(injected(c->e[t->e]) > 0, "wrong-status", "sending a descriptor returned 0x%x", r); if (++tries > 50) faults_disable(); continue; }
        CHECK(fd_open(fd) && file_is(fd_get(fd), tag), "descriptor-closed", "sending a descriptor closed it"); c->sent[t->e].push_back(tag); c->tags[t->e].erase(c->tags[t->e].begin()); if (choose(2)) { h_close(fd); t->w->own.erase(fd); }
    }
}
void do_drecv(Task* t) {
    Conn* c = t->c; int o = 1 - t->e, tries = 0;
    while (c->rcv[t->e] < (size_t)t->n) {
        int fd = 12345; t->inlib = true; Surfaces er(c->e[t->e].weak, 0); status r = psock_read_raw_descriptor(c->e[t->e].s, &fd); t->inlib = false; ev("recv-fd", t->id, fd, r); er.is(r, "receiving a descriptor");
        if (r != OK) { CHECK(injected(c->e[t->e]) > 0, "wrong-status", "receiving a descriptor returned 0x%x", r); CHECK(fd == 12345 || fd == -1, "output-changed", "a failed receive stored a descriptor"); if (++tries > 50) faults_disable(); continue; }
        size_t k = c->rcv[t->e]++; CHECK(k < c->sent[o].size(), "invented", "a descriptor was received that was not sent"); CHECK(!t->w->own.count(fd), "bad-result", "a received descriptor was already in use"); CHECK(file_is(fd_get(fd), c->sent[o][k]), "wrong-file", "descriptor number %zu refers to another file than was sent", k); t->w->own[fd] = c->sent[o][k];
        if (choose(2)) { h_close(fd); t->w->own.erase(fd); }
    }
}
bool sole(Task* t) { return t->k == T_ACCEPT || (t->c && t->c->e[t->e].users == 1); }
bool can_fail(Task* t) { return sole(t) && t->k != T_ACCEPT; }
// A fiber that waits is interrupted at once; one that is about to be resumed for another reason is told when it next waits.
void send_oob(Task* me) {
    Aw& w = *me->w; bool all = choose(6) == 5, q = choose(2); std::vector<Task*> v; for (auto t : w.t) if (t->inlib && t->started && !t->done) v.push_back(t);
    if (v.empty() && !all) return; if (!all) { Task* t = pick(v); v.assign(1, t); }
    std::vector<std::pair<Task*, uint32_t>> now; for (auto t : v) { t->oob++; t->fail_next = can_fail(t) && choose(t->style == R_RAW || t->style >= R_BRRAW ? 2 : 8) == 1; if (t->armed && sole(t)) now.push_back({t, t->handled}); t->armed = false; ev("oob", me->id, t->id, q, t->fail_next); }
    fault_note(F_OOB); status r;
    if (all) r = q ? disciplined_fiber_scheduler_send_quiesce_request_to_all(w.s) : disciplined_fiber_scheduler_send_terminate_request_to_all(w.s);
    else r = q ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w.s, v[0]->f) : disciplined_fiber_scheduler_send_terminate_request_to_fiber(w.s, v[0]->f);
    CHECK(r == OK, "wrong-status", "a request to %s returned 0x%x", all ? "all fibers" : "a fiber using a socket", r);
    for (auto& x : now) CHECK(x.first->handled > x.second, "not-told", "the handler of a fiber interrupted on a socket was not called");
}
status unexpected(void* ctx, fiber* f, const rcpr_uuid* id, int evn, void*, const rcpr_uuid* want, int wantev) {
    Task* t = (Task*)ctx; CHECK(t && t->magic == 0x7A5C && t->f == f, "wrong-context", "an unexpected-event handler was called for another fiber"); t->handled++; CHECK(t->handled <= t->oob, "handler-twice", "an unexpected-event handler was called without an event"); CHECK(!memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16) && (evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST || evn == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST), "wrong-event", "an unexpected-event handler was given event 0x%x", evn);
    CHECK(!memcmp(want, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, 16), "wrong-event", "an unexpected-event handler was told of another awaited discipline"); CHECK(wantev == (t->dirw ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ), "wrong-event", "an unexpected-event handler was told that the fiber waits for event %d", wantev); bool fail = t->fail_next && can_fail(t); t->failed += fail; ev("handler", t->id, fail); return fail ? E_UNEXP : OK;
}
void do_compute(Task* t) {
    Aw& w = *t->w; w.active_compute++;
    for (int i = 0; i < t->n; ++i) { step(); progress(); status r = fiber_scheduler_run(w.s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); if (w.oob && choose(3) == 2) send_oob(t); }
    w.active_compute--;
}
status task_main(void* ctx) {
    Task* t = (Task*)ctx; CHECK(t && t->magic == 0x7A5C, "wrong-context", "a fiber was entered with a foreign context"); CHECK(!t->started, "entered-twice", "a fiber was entered twice"); t->started = true; ev("start", t->id, t->k);
    switch (t->k) {
    case T_READ: do_read(t); end_leave(t); break;
    case T_WRITE: do_write(t); end_leave(t); break;
    case T_PING: case T_PONG: do_pingpong(t); end_leave(t); break;
    case T_ECHO: do_echo(t); end_leave(t); break;
    case T_COMPUTE: do_compute(t); break;
    case T_ACCEPT: do_accept(t); break;
    case T_DSEND: do_dsend(t); end_leave(t); break;
    case T_DRECV: do_drecv(t); end_leave(t); break;
    }
    ev("finish", t->id); t->done = true; return OK;
}
Task* task_new(TK k, Conn* c, int e) {
    NoFaults nf; Task* t = new Task; t->w = W; t->id = (int)W->t.size() + 1; t->k = k; t->c = c; t->e = e; t->dir = k == T_WRITE ? e : 1 - e; status r = fiber_create(&t->f, W->A.a, W->s, 65536, t, &task_main); CHECK(r == OK, "wrong-status", "creating a fiber returned 0x%x", r);
    if (W->oob) { r = fiber_unexpected_event_callback_add(t->f, &unexpected, t); CHECK(r == OK, "wrong-status", "setting an unexpected-event handler returned 0x%x", r); }
    W->t.push_back(t); return t;
}
void task_add(Task* t) { NoFaults nf; W->live++; status r = fiber_scheduler_add(W->s, t->f); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r); }
End& lib_end(Conn* c, int i, int fd, fiber* f, bool br) {
    NoFaults nf; End& e = c->e[i]; e.lib = true; e.fd = fd; FileP p = fd_get(fd); e.weak = p; e.rx = p->rx; e.tx = p->tx; psock* s = nullptr; status r = psock_create_from_descriptor(&s, W->A.a, fd); CHECK(r == OK, "wrong-status", "creating a socket returned 0x%x", r); r = psock_create_wrap_async(&e.s, W->A.a, f, s); CHECK(r == OK, "wrong-status", "wrapping a socket returned 0x%x", r); CHECK(fd_nonblocking(fd), "still-blocking", "a wrapped socket still blocks");
    if (br) e.br = br_make(W->A.a, e.s);
    // now and then a duplicate of the descriptor (in another process, say) outlives the socket for a while
    if (choose(4) == 3) { int dup = fd_install(p, 200); ev("duplicate", fd, dup); End* pe = &e; auto open = std::make_shared<bool>(true); actor_add("duplicate", [pe, open] { return *open && !pe->s; }, [dup, open] { *open = false; h_close(dup); }); }
    return e;
}
void stream_conn(Aw& w, bool allow_errors) {
    Conn* c = new Conn; c->id = (int)w.c.size(); w.c.push_back(c); bool liblib = choose(2); size_t cap0 = cap_gen(), cap1 = cap_gen(); auto p = k_pair(choose(2), cap0, cap1); FileP f[2] = {p.first, p.second}; p.first.reset(); p.second.reset();
    int shape = choose(4); // 0 one way, 1 both ways by separate fibers, 2 request and reply, 3 one way over a pipe
    bool pipe = shape == 3; if (pipe) shape = 0;
    if (shape == 1 && liblib && allow_errors) shape = 0;
    if (shape == 2 && !liblib) shape = 1;
    size_t ml = w.small || std::min(cap0, cap1) < 64 || w.c.size() > 2 ? 300 : std::min(cap0, cap1) < 4000 ? 3000 : 30000; for (int d = 0; d < 2; ++d) { c->d[d].plan = small_vals(shape == 2 ? 8 : 12, ml); c->d[d].want = enc_all(c->d[d].plan); }
    auto mk = [&](int i, TK k, int style, bool br) -> Task* { Task* t = task_new(k, c, i); t->style = style; End& e = c->e[i]; if (!e.lib) { int fd = fd_install(f[i]); lib_end(c, i, fd, t->f, br || style >= R_BR); } e.users++; return t; };
    std::vector<Task*> ts;
    if (shape == 2) { bool b0 = choose(2), b1 = choose(2); size_t n = std::min(c->d[0].plan.size(), c->d[1].plan.size()); for (int d = 0; d < 2; ++d) { c->d[d].plan.resize(n); c->d[d].want = enc_all(c->d[d].plan); } ts.push_back(mk(0, T_PING, 0, b0)); ts.push_back(mk(1, T_PONG, 0, b1)); }
    else for (int d = 0; d < (shape == 1 ? 2 : 1); ++d) { // d: written at end d, read at end 1-d
        int flip = shape == 0 && !liblib ? choose(2) : 0; if (pipe) { auto q = k_pipe(cap0); f[flip] = q.second; f[1 - flip] = q.first; } int we = flip ? 1 : d; if (flip) { std::swap(c->d[0], c->d[1]); }
        int re = 1 - we; Dir& D = c->d[we]; (void)D;
        for (int x = 0; x < 2; ++x) { int i = x ? re : we; bool lib = liblib || i == 0; if (!lib) continue; if (x) { int st = choose(R_STYLES); if (c->e[i].lib && !c->e[i].br.br && st >= R_BR) st = st == R_LINES ? R_RAW : st - 2; if (c->e[i].br.br && st < R_BR) st += 2; if (st == R_LINES) { Val v; v.k = V_DATA; v.boxed = false; v.s = "\n"; D.plan.push_back(v); D.want += v.s; } ts.push_back(mk(i, T_READ, st, false)); } else ts.push_back(mk(i, T_WRITE, 0, shape == 0 && choose(3) == 2)); }
    }
    if (shape == 0) { int we = -1; for (auto t : ts) { if (t->k == T_WRITE) we = t->e; if (t->k == T_READ) we = 1 - t->e; } c->d[1 - we].plan.clear(); c->d[1 - we].want.clear(); }
    if (!liblib) { // end 1 is a remote peer
        End& e = c->e[1]; e.peer = f[1]; e.rx = f[1]->rx; e.tx = f[1]->tx;
        bool brk = allow_errors && choose(2); c->break_kind = brk ? 1 + choose(3) : 0; c->break_at = choose((uint32_t)(c->d[0].want.size() + c->d[1].want.size() + 1)); // 1 close after writing so far, 2 close at once, 3 reset
        actor_add("peer", [c] { End& e = c->e[1]; if (c->actor_broke || e.shut) return peer_avail(e.peer) > 0 && !c->actor_broke; return peer_avail(e.peer) > 0 || (c->d[1].acc < c->d[1].want.size() ? peer_space(e.peer) > 0 : !e.shut) || c->break_kind; }, [c] {
            End& e = c->e[1];
            if (c->break_kind && !c->actor_broke && (e.rx ? e.rx->rd : 0) + (e.tx ? e.tx->wr : 0) >= c->break_at) { c->actor_broke = true; if (c->break_kind == 3) { fault_note(F_PEER_RESET); peer_reset(e.peer); } else { fault_note(F_PEER_CLOSE); peer_close(e.peer); } return; }
            bool canr = peer_avail(e.peer) > 0, canw = c->d[1].acc < c->d[1].want.size() && peer_space(e.peer) > 0;
            if (canr && (!canw || choose(2))) { c->d[0].got += peer_read(e.peer, chunk_gen(peer_avail(e.peer))); auto& D = c->d[0]; CHECK(D.got.size() <= D.want.size() && !memcmp(D.got.data(), D.want.data(), D.got.size()), "wrong-value", "connection %d: the peer received bytes that were not sent", c->id); return; }
            if (canw) { size_t m = std::min(peer_space(e.peer), c->d[1].want.size() - c->d[1].acc); c->d[1].acc += peer_write(e.peer, c->d[1].want.data() + c->d[1].acc, chunk_gen(m)); return; }
            if (c->d[1].acc >= c->d[1].want.size() && !e.shut && !c->break_kind) { e.shut = true; peer_shutdown_write(e.peer); return; }
            if (c->break_kind) { c->actor_broke = true; fault_note(F_PEER_CLOSE); peer_close(e.peer); } });
    }
    f[0].reset(); f[1].reset(); while (!ts.empty()) { uint32_t i = choose((uint32_t)ts.size()); Task* t = ts[i]; ts.erase(ts.begin() + i); task_add(t); }
}
void compute_task(Aw& w) { Task* t = task_new(T_COMPUTE, nullptr, 0); t->n = choose(40) + (w.oob ? 40 : 0); task_add(t); }
void listener(Aw& w) {
    w.to_accept = 1 + choose(6); w.listener = k_listen("un:service"); w.listener->domain = choose(2) ? AF_INET : AF_UNIX; w.listener->type = SOCK_STREAM; w.listener->backlog_max = 16; Task* t = task_new(T_ACCEPT, nullptr, 0); int fd = fd_install(w.listener); t->lfd = fd; { NoFaults nf; psock* s = nullptr; CHECK(psock_create_from_descriptor(&s, w.A.a, fd) == OK && psock_create_wrap_async(&t->ls, w.A.a, t->f, s) == OK, "wrong-status", "wrapping a listener failed"); } Aw* pw = &w;
    actor_add("connector", [pw] { return pw->connected < pw->to_accept; }, [pw] {
        FileP p = k_connect_to(pw->listener); if (!p) return; Conn* c = new Conn; c->id = 1000 + pw->connected++; pw->c.push_back(c); c->d[0].want = bytes_gen(len_gen(3000), false, c->id); End& e = c->e[0]; e.peer = p; e.rx = p->rx; e.tx = p->tx; e.src.f = p; e.src.data = c->d[0].want; e.sink.f = p; source_actor(&e.src); sink_actor(&e.sink); pw->incoming.push_back(c); ev("peer-connect", c->id); });
    w.listener.reset(); w.listener = fd_get(fd); task_add(t);
}
void dgram_conn(Aw& w) {
    Conn* c = new Conn; c->id = (int)w.c.size(); w.c.push_back(c); auto p = k_dgram_pair(1 + choose(4)); FileP f[2] = {p.first, p.second}; p.first.reset(); p.second.reset(); bool liblib = choose(2); std::vector<Task*> ts;
    for (int d = 0; d < 2; ++d) { uint32_t n = choose(2) ? choose(12) : 0; for (uint32_t i = 0; i < n; ++i) c->tags[d].push_back(++w.tag); }
    for (int i = 0; i < (liblib ? 2 : 1); ++i) { Task* t = task_new(T_DSEND, c, i); int fd = fd_install(f[i]); lib_end(c, i, fd, t->f, false).users = 2; Task* r = task_new(T_DRECV, c, i); r->n = (int)c->tags[1 - i].size(); ts.push_back(t); ts.push_back(r); }
    if (!liblib) { End& e = c->e[1]; e.peer = f[1]; actor_add("fd-peer", [c] { FileP p = c->e[1].peer; return !p->rx->msgs.empty() || (!c->tags[1].empty() && p->tx->msgs.size() < p->tx->cap); }, [c] {
        FileP p = c->e[1].peer; Dgram g; if (!p->rx->msgs.empty() && (c->tags[1].empty() || choose(2) || p->tx->msgs.size() >= p->tx->cap)) { peer_recv_dgram(p, g); size_t k = c->rcv[1]++; CHECK(k < c->sent[0].size() || (k == c->sent[0].size() && !c->tags[0].empty()), "duplicate", "the peer received more descriptors than were sent"); int want = k < c->sent[0].size() ? c->sent[0][k] : c->tags[0].front(); CHECK(g.fds.size() == 1 && file_is(g.fds[0], want), "wrong-file", "the peer received another descriptor than was sent"); return; }
        int t = c->tags[1].front(); c->tags[1].erase(c->tags[1].begin()); c->sent[1].push_back(t); peer_send_dgram(p, "x", {k_reg(t)}); }); }
    f[0].reset(); f[1].reset(); for (auto t : ts) task_add(t);
}
struct Mode { bool errors, oob, dgram_only; };
void async_world(Mode m) {
    items_reset(); Aw w; W = &w; w.errors = m.errors; w.oob = m.oob;
    if (m.dgram_only) faults_config({F_MSG_EAGAIN, F_MSG_EINTR, F_MSG_ERR, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL});
    else if (m.errors) faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_READ_EINTR, F_WRITE_EINTR, F_READ_ERR, F_WRITE_ERR, F_ACCEPT_ERR, F_EPOLL_CTL_ERR, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL});
    else faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_ACCEPT_EAGAIN, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL});
    set_step_limit(6000000); env_rate(choose(4) * 150); w.small = choose(4) != 3;
    { NoFaults nf; status r = fiber_scheduler_create_with_disciplines(&w.s, w.A.a); CHECK(r == OK, "wrong-status", "creating a scheduler returned 0x%x", r); }
    on_wait([] { CHECK(W->active_compute == 0, "starved", "the event loop waits for sockets while %d other fibers are runnable", W->active_compute); });
    on_report([](int fd) { for (auto t : W->t) if (!t->done && (t->c ? t->c->e[t->e].fd : t->lfd) == fd) t->armed = false, t->reported++; });
    on_arm([](int fd) { for (auto t : W->t) if (!t->done && (t->c ? t->c->e[t->e].fd : t->lfd) == fd) t->armed = true; });
    uint32_t nc = m.dgram_only ? 1 + choose(3) : 1 + choose(6); bool lst = !m.dgram_only && choose(3) == 2;
    for (uint32_t i = 0; i < nc; ++i) { if (m.dgram_only) dgram_conn(w); else stream_conn(w, m.errors); if (choose(4) == 3) compute_task(w); }
    if (lst) listener(w);
    if (m.oob) compute_task(w);
    // the main fiber waits for the others to stop, and takes them over
    while (w.live > 0) {
        const rcpr_uuid* rid = nullptr; int rev = -1; void* rp = nullptr; status r = disciplined_fiber_scheduler_receive_management_event(w.s, &rid, &rev, &rp); CHECK(r == OK, "wrong-status", "waiting for management events returned 0x%x", r);
        CHECK(rev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD || rev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP, "wrong-resume-event", "the manager was resumed with event 0x%x", rev);
        Task* t = nullptr; for (auto x : w.t) if (x->f == rp) t = x; CHECK(t, "wrong-resume-param", "the manager was told of an unknown fiber"); if (rev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD) continue;
        CHECK(t->done && ++t->stops == 1, "wrong-resume-param", "the manager was told that fiber %d stopped, wrongly", t->id); NoFaults nf; if (t->ls) { psock_drop(t->ls); t->ls = nullptr; } r = disciplined_fiber_scheduler_remove_fiber(w.s, t->f); CHECK(r == OK, "wrong-status", "removing a stopped fiber returned 0x%x", r); r = resource_release(fiber_resource_handle(t->f)); CHECK(r == OK, "wrong-status", "releasing a stopped fiber returned 0x%x", r); t->f = nullptr; w.live--;
    }
    w.listener.reset(); while (env_step()); faults_disable();
    // everything that was to be transferred was
    uint64_t h = 0; for (auto c : w.c) {
        h = mix64(h ^ (c->d[0].got.size() * 3 + c->d[1].got.size() * 5 + c->broken)); mark_state(h); bool ok = !c->broken && !c->actor_broke; CHECK(w.errors || w.oob || ok, "model", "a connection broke without an error");
        if (c->id >= 1000) { End& e = c->e[0]; if (ok) { same_bytes(e.sink.got, c->d[0].want, "lost-bytes", "what a client got echoed"); CHECK(c->d[0].rdone, "short", "a served connection did not end"); } else CHECK(e.sink.got.size() <= c->d[0].want.size() && !memcmp(e.sink.got.data(), c->d[0].want.data(), e.sink.got.size()), "wrong-value", "a client received bytes it did not send"); CHECK(peer_eof(e.peer) || c->actor_broke, "descriptor-leak", "a served connection is still open"); continue; }
        for (int d = 0; d < 2; ++d) { Dir& D = c->d[d]; if (D.want.empty() || !ok) continue; if (c->e[d].lib) CHECK(D.wdone, "unfinished", "connection %d: a writer did not finish", c->id); if (c->e[1 - d].lib) CHECK(D.rdone, "unfinished", "connection %d: a reader did not finish", c->id); else same_bytes(D.got, D.want, "lost-bytes", "what the peer received"); }
        for (int d = 0; d < 2; ++d) if (c->sent[d].size() && !c->e[1 - d].lib) CHECK(c->rcv[1 - d] == c->sent[d].size(), "lost", "the peer received %zu of %zu descriptors", c->rcv[1 - d], c->sent[d].size());
    }
    if (lst) CHECK(w.accepted == w.to_accept, "unfinished", "%d of %d connections were accepted", w.accepted, w.to_accept);
    status r = resource_release(fiber_scheduler_resource_handle(w.s)); CHECK(r == OK, "wrong-status", "releasing the scheduler returned 0x%x", r);
    for (auto& o : w.own) { CHECK(fd_open(o.first) && file_is(fd_get(o.first), o.second), "descriptor-closed", "a descriptor owned by the program was closed"); h_close(o.first); }
    CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); w.A.release(); check_no_leaks("after all connections ended"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
    for (auto t : w.t) delete t; for (auto c : w.c) delete c; W = nullptr;
}
// more sockets waiting at once than either readiness back end handles in one piece
struct Wide { int id; psock* s; fiber* f; FileP peer; bool done = false, sent = false, pre = false; uint32_t val; std::string got; };
std::string wide_pre(Wide* w) { std::string b; for (int i = 0; i < 100; ++i) b += (char)mix64(w->id * 1000 + i); return b; }
std::vector<Wide*>* g_wide; uint32_t g_wide_left;
status wide_main(void* c) {
    Wide* w = (Wide*)c; uint32_t v = 0; status r;
    if (w->pre) { std::string b = wide_pre(w); do { r = psock_write_raw_data(w->s, b.data(), 4); } while (r != OK && is_oom(r)); CHECK(r == OK, "wrong-status", "writing to one of %zu sockets returned 0x%x", g_wide->size(), r); size_t off = 4; while (off < b.size()) { r = psock_write_raw_uint8(w->s, (uint8_t)b[off]); CHECK(r == OK || is_oom(r), "wrong-status", "writing to one of %zu sockets returned 0x%x", g_wide->size(), r); if (r == OK) ++off; } }
    do { r = psock_read_raw_uint32(w->s, &v); } while (r != OK && is_oom(r)); CHECK(r == OK, "wrong-status", "reading from one of %zu sockets returned 0x%x", g_wide->size(), r); CHECK(w->sent && v == w->val, "wrong-value", "one of %zu sockets delivered another value than was sent", g_wide->size());
    if (w->id & 1) for (int i = 3; i >= 0; --i) { do { r = psock_write_raw_uint8(w->s, (uint8_t)(v >> (8 * i))); } while (r != OK && is_oom(r)); CHECK(r == OK, "wrong-status", "writing to one of %zu sockets returned 0x%x", g_wide->size(), r); } { NoFaults nf; psock_drop(w->s); w->s = nullptr; } w->done = true; return OK;
}
SCENARIO(P03, wide_io, 1, PLAT_BOTH) {
    Alloc A; faults_config({F_READ_SHORT, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_REALLOC}); set_step_limit(12000000); fiber_scheduler* s = nullptr; { NoFaults nf; CHECK(fiber_scheduler_create_with_disciplines(&s, A.a) == OK, "wrong-status", "creating a scheduler failed"); }
    static const uint32_t ns[] = {300, 1023, 1024, 1025, 1026, 1300, 2047, 2048, 2049, 2200}; uint32_t n = ns[choose(10)]; std::vector<Wide*> all; g_wide = &all; uint32_t batch = choose(3) ? 1 + choose(2200) : n, sent = 0; bool order = choose(2); uint32_t pre = choose(2) ? 1 + choose(5) : 0, dr = 0;
    for (uint32_t i = 0; i < n; ++i) { NoFaults nf; Wide* w = new Wide; w->id = (int)i; w->val = (uint32_t)mix64(i); w->pre = pre && i % pre == 0; auto p = k_pair(false, 64, 64); w->peer = p.second; int fd = fd_install(p.first); p.first.reset(); status r = fiber_create(&w->f, A.a, s, 16384, w, &wide_main); CHECK(r == OK, "wrong-status", "creating fiber %u returned 0x%x", i, r); psock* d = nullptr; r = psock_create_from_descriptor(&d, A.a, fd); CHECK(r == OK, "wrong-status", "creating socket %u returned 0x%x", i, r); r = psock_create_wrap_async(&w->s, A.a, w->f, d); CHECK(r == OK, "wrong-status", "wrapping socket %u returned 0x%x", i, r); all.push_back(w); }
    std::vector<uint32_t> perm(n); for (uint32_t i = 0; i < n; ++i) perm[i] = i; if (order) for (uint32_t i = n; i > 1; --i) { uint32_t j = (uint32_t)(mix64(i * 77 + n) % i); std::swap(perm[i - 1], perm[j]); }
    actor_add("peers", [&] { return sent < n; }, [&] { uint32_t k = std::min(batch, n - sent); for (uint32_t i = 0; i < k; ++i) { Wide* w = all[perm[sent++]]; uint32_t be = htonl(w->val); w->sent = true; peer_write(w->peer, &be, 4); } });
    if (pre) actor_add("drain", [&] { for (uint32_t i = 0; i < n; ++i) { if (peer_avail(all[(dr + i) % n]->peer)) { dr = (dr + i) % n; return true; } } return false; }, [&] { for (uint32_t k = 0; k < batch; ++k) { Wide* w = all[dr]; if (peer_avail(w->peer)) w->got += peer_read(w->peer, 1000); dr = (dr + 1) % n; } });
    for (auto w : all) { NoFaults nf; status r = fiber_scheduler_add(s, w->f); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r); }
    uint32_t left = n; while (left) { const rcpr_uuid* id; int e; void* p; status r = disciplined_fiber_scheduler_receive_management_event(s, &id, &e, &p); CHECK(r == OK, "wrong-status", "waiting for management events returned 0x%x", r); if (e != FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP) continue; NoFaults nf; r = disciplined_fiber_scheduler_remove_fiber(s, (fiber*)p); CHECK(r == OK, "wrong-status", "removing a stopped fiber returned 0x%x", r); CHECK(resource_release(fiber_resource_handle((fiber*)p)) == OK, "wrong-status", "releasing a fiber failed"); --left; }
    faults_disable(); for (auto w : all) { CHECK(w->done, "unfinished", "a reader did not finish"); w->got += peer_read(w->peer, 1000); std::string want = w->pre ? wide_pre(w) : ""; uint32_t be = htonl(w->val); if (w->id & 1) want.append((char*)&be, 4); same_bytes(w->got, want, "wrong-value", "what one of many peers received"); delete w; }
    mark_state(mix64(n * 3 + batch)); CHECK(resource_release(fiber_scheduler_resource_handle(s)) == OK, "wrong-status", "releasing the scheduler failed"); CHECK(fd_count() == 0, "descriptor-leak", "descriptors are left"); A.release(); check_no_leaks("after all sockets were served"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
}
// Several fibers use one socket in the same direction.  Only one can wait: the
// others are refused, at once and without disturbing the one that waits.
struct Shared {
    int kind; psock* s = nullptr; int fd = -1; FileP peer, lf; int users = 0, inside = 0; uint32_t rep = 0; std::string want, got; std::deque<uint8_t> todo; size_t n = 0, made = 0; int refused = 0; bool closed = false; ChanP rx; std::deque<FileP> pend; std::deque<int> tags; Source* src = nullptr;
    ~Shared() { delete src; }
};
struct Sharer { Shared* h; fiber* f = nullptr; bool done = false; };
std::vector<Shared*>* g_shared;
void shared_read(Shared* h) {
    for (;;) {
        size_t n = 1 + choose(40), n0 = n; char b[64]; status r = psock_read_raw(h->s, b, &n); ev("read-raw", h->kind, n0, r == OK ? n : 0, r);
        if (r == OK) { CHECK(n > 0 && n <= n0, "wrong-size", "a read of %zu bytes gave %zu", n0, n); h->got.append(b, n); CHECK(h->got.size() <= h->want.size() && !h->want.compare(0, h->got.size(), h->got), "wrong-value", "fibers that share a socket read bytes that were not sent"); continue; }
        if (r != ERROR_PSOCK_READ_WOULD_BLOCK) { CHECK(h->got.size() == h->want.size() && h->rx->wclosed, "wrong-status", "reading a shared socket returned 0x%x after %zu of %zu bytes", r, h->got.size(), h->want.size()); return; }
        uint32_t rep = h->rep; bool other = h->inside > 0; h->inside++; r = psock_read_block(h->s); h->inside--; ev("read-block", h->kind, r); if (r == OK) CHECK(h->rep != rep, "not-ready", "waiting for a shared socket succeeded though it was never reported ready"); else { CHECK(other, "wrong-status", "waiting for a socket nobody else waits for returned 0x%x", r); h->refused++; return; }
    }
}
void shared_write(Shared* h) {
    while (!h->todo.empty()) {
        uint8_t v = h->todo.front(); h->todo.pop_front(); bool other = h->inside > 0; h->inside++; status r = psock_write_raw_uint8(h->s, v); h->inside--; ev("write", h->kind, v, r);
        if (r == OK) { h->n++; continue; }
        CHECK(other, "wrong-status", "writing to a socket nobody else waits for returned 0x%x", r); h->refused++; h->todo.push_front(v); return;
    }
}
void shared_accept(Shared* h) {
    while (h->n < h->want.size()) {
        int fd = 12345; bool other = h->inside > 0; h->inside++; status r = psock_accept(h->s, &fd, nullptr, nullptr); h->inside--; ev("accept", h->kind, fd, r);
        if (r == OK) { FileP f = fd_get(fd); CHECK(f && !h->pend.empty() && f->rx == h->pend.front()->tx, "wrong-order", "another connection than the oldest pending one was accepted"); h->pend.pop_front(); f.reset(); h_close(fd); h->n++; continue; }
        CHECK(other, "wrong-status", "accepting on a socket nobody else waits for returned 0x%x", r); CHECK(fd == 12345 || fd < 0, "output-changed", "a refused accept stored a descriptor"); h->refused++; return;
    }
}
void shared_recv(Shared* h) {
    while (h->n < h->want.size()) {
        int fd = 12345; bool other = h->inside > 0; h->inside++; status r = psock_read_raw_descriptor(h->s, &fd); h->inside--; ev("receive", h->kind, fd, r);
        if (r == OK) { CHECK(!h->tags.empty() && file_is(fd_get(fd), h->tags.front()), "wrong-file", "another descriptor than the oldest one sent was received"); h->tags.pop_front(); h_close(fd); h->n++; continue; }
        CHECK(other, "wrong-status", "receiving on a socket nobody else waits for returned 0x%x", r); CHECK(fd == 12345 || fd < 0, "output-changed", "a refused receive stored a descriptor"); h->refused++; return;
    }
}
status sharer_main(void* c) {
    Sharer* t = (Sharer*)c; Shared* h = t->h; switch (h->kind) { case 0: shared_read(h); break; case 1: shared_write(h); break; case 2: shared_accept(h); break; default: shared_recv(h); }
    if (--h->users == 0) { NoFaults nf; h->lf.reset(); psock* s = h->s; h->s = nullptr; psock_drop(s); CHECK(!fd_open(h->fd), "descriptor-leak", "a released socket is still open"); } t->done = true; return OK;
}
SCENARIO(P03, shared_sockets, 30, PLAT_BOTH) {
    Alloc A; faults_config({F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_ACCEPT_EAGAIN, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL}); set_step_limit(1000000); env_rate(choose(4) * 100);
    fiber_scheduler* s = nullptr; { NoFaults nf; CHECK(fiber_scheduler_create_with_disciplines(&s, A.a) == OK, "wrong-status", "creating a scheduler failed"); }
    std::vector<Shared*> all; g_shared = &all; std::vector<Sharer*> ts; uint32_t n = 1 + choose(3); int tag = 0; on_report([](int fd) { for (auto h : *g_shared) if (h->fd == fd) h->rep++; });
    for (uint32_t i = 0; i < n; ++i) {
        NoFaults nf; Shared* h = new Shared; h->kind = choose(4); all.push_back(h); FileP mine;
        switch (h->kind) {
        case 0: { auto p = k_pair(choose(2), 4096, cap_gen()); mine = p.first; h->peer = p.second; h->rx = mine->rx; h->want = bytes_gen(choose(300), false, 7 + i); h->src = new Source{h->peer, h->want}; source_actor(h->src); break; }
        case 1: { auto p = k_pair(choose(2), 1 + choose(9), 4096); mine = p.first; h->peer = p.second; uint32_t m = choose(200); for (uint32_t k = 0; k < m; ++k) h->todo.push_back((uint8_t)k); h->want.resize(m); actor_add("drain", [h] { return peer_avail(h->peer) > 0; }, [h] { h->got += peer_read(h->peer, 1 + choose(8)); }); break; }
        case 2: { h->lf = mine = k_listen("un:shared" + std::to_string(i)); mine->domain = AF_UNIX; mine->type = SOCK_STREAM; h->want.resize(choose(12)); actor_add("connect", [h] { return h->users > 0 && h->lf && h->lf->backlog.size() < 2; }, [h] { FileP p = k_connect_to(h->lf); if (p) h->pend.push_back(p); }); break; }
        default: { auto p = k_dgram_pair(4); mine = p.first; h->peer = p.second; h->want.resize(choose(12)); actor_add("send", [h] { return h->users > 0 && h->tags.size() < 2; }, [h, &tag] { h->tags.push_back(++tag); peer_send_dgram(h->peer, "x", {k_reg(tag)}, {}); }); break; }
        }
        h->fd = fd_install(mine); mine.reset(); psock* d = nullptr; CHECK(psock_create_from_descriptor(&d, A.a, h->fd) == OK, "wrong-status", "creating a socket failed"); uint32_t m = 1 + choose(5); bool wrapped = false;
        for (uint32_t k = 0; k < m; ++k) { Sharer* t = new Sharer; t->h = h; h->users++; ts.push_back(t); CHECK(fiber_create(&t->f, A.a, s, 32768, t, &sharer_main) == OK, "wrong-status", "creating a fiber failed"); if (!wrapped) { CHECK(psock_create_wrap_async(&h->s, A.a, t->f, d) == OK, "wrong-status", "wrapping a socket failed"); wrapped = true; } }
    }
    for (size_t i = ts.size(); i > 1; --i) std::swap(ts[i - 1], ts[choose((uint32_t)i)]);
    for (auto t : ts) { NoFaults nf; status r = fiber_scheduler_add(s, t->f); CHECK(r == OK, "wrong-status", "adding a fiber returned 0x%x", r); }
    size_t left = ts.size(); while (left) { const rcpr_uuid* id; int e; void* p; status r = disciplined_fiber_scheduler_receive_management_event(s, &id, &e, &p); CHECK(r == OK, "wrong-status", "waiting for management events returned 0x%x", r); if (e != FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP) continue; NoFaults nf; r = disciplined_fiber_scheduler_remove_fiber(s, (fiber*)p); CHECK(r == OK, "wrong-status", "removing a stopped fiber returned 0x%x", r); CHECK(resource_release(fiber_resource_handle((fiber*)p)) == OK, "wrong-status", "releasing a fiber failed"); --left; }
    faults_disable(); uint64_t sum = 0; for (auto t : ts) { CHECK(t->done, "unfinished", "a fiber did not finish"); delete t; }
    for (auto h : all) {
        sum = mix64(sum ^ (h->kind * 100 + h->refused)); if (h->kind == 0) same_bytes(h->got, h->want, "lost-bytes", "what fibers read from a shared socket");
        if (h->kind == 1) { h->got += peer_read(h->peer, 10000); std::string g = h->got, w; std::sort(g.begin(), g.end(), [](char a, char b) { return (uint8_t)a < (uint8_t)b; }); for (size_t k = 0; k < h->want.size(); ++k) w += (char)k; same_bytes(g, w, "lost-bytes", "what fibers wrote to a shared socket"); }
        if (h->kind >= 2) CHECK(h->n >= h->want.size(), "unfinished", "%zu of %zu were taken", h->n, h->want.size());
    }
    on_report([](int) {}); actors_clear(); for (auto h : all) delete h; mark_state(sum); CHECK(resource_release(fiber_scheduler_resource_handle(s)) == OK, "wrong-status", "releasing the scheduler failed"); CHECK(fd_count() == 0, "descriptor-leak", "descriptors are left"); A.release(); check_no_leaks("after fibers shared sockets"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
}
SCENARIO(P03, fiber_io, 100, PLAT_BOTH) { async_world({false, false, false}); }
SCENARIO(P09, fiber_io_errors, 10, PLAT_BOTH) { async_world({true, false, false}); }
SCENARIO(P07, fdpass_fibers, 5, PLAT_BOTH) { async_world({false, false, true}); }
ALSO(P08, fiber_io_errors, 2);
SCENARIO(X01, fiber_io_interrupted, 5, PLAT_BOTH) { async_world({false, true, false}); }
ALSO(P03, fiber_io_interrupted, 20, PLAT_BOTH);
}
ALSO(V01, fiber_io, 1);
