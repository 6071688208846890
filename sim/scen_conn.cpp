// Descriptor passing and connection set-up/teardown outside the event loop.
#include "psockkit.hpp"
#include <fcntl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
RCPR_IMPORT_fiber;
extern "C" int sim_close(int);

namespace {
void h_close(int fd) { NoFaults nf; CHECK(sim_close(fd) == 0, "harness", "close"); }
// ---------------------------------------------------------------- P07
struct Chn { psock* s[2] = {}; psock* top[2] = {}; Br br[2]; FileP peer; std::deque<std::vector<int>> q[2]; size_t cap; bool nb[2] = {}; int fd[2] = {-1, -1}; };
struct PW {
    Alloc A; std::map<int, int> own; std::vector<Chn> ch; int tag = 0;
    std::set<int> socks;
    void table(const char* after) {
        for (int fd : fds_open()) if (!socks.count(fd)) { auto it = own.find(fd); CHECK(it != own.end(), "descriptor-leak", "after %s descriptor %d is open and nobody owns it", after, fd); CHECK(file_is(fd_get(fd), it->second), "wrong-file", "after %s descriptor %d refers to another file", after, fd); }
        for (auto& o : own) CHECK(fd_open(o.first), "descriptor-closed", "after %s descriptor %d is no longer open", after, o.first);
        for (int s : socks) CHECK(fd_open(s), "descriptor-closed", "after %s a socket's own descriptor is closed", after);
    }
    int open() { int t = ++tag; int fd = fd_install(k_reg(t)); own[fd] = t; ev("open", fd, t); return fd; }
};
void fdpass() {
    items_reset(); PW w; faults_config({F_MSG_EINTR, F_MSG_ERR, F_MSG_EAGAIN}); set_step_limit(200000); env_rate(choose(3) * 150);
    // some descriptors are open before, so that numbers vary
    for (uint32_t i = choose(4); i > 0; --i) w.open();
    uint32_t nc = 1 + choose(2);
    for (uint32_t i = 0; i < nc; ++i) {
        Chn c; c.cap = 1 + choose(5); auto p = k_dgram_pair(c.cap); bool lib2 = choose(2);
        for (int e = 0; e < (lib2 ? 2 : 1); ++e) {
            FileP f = e ? p.second : p.first; c.nb[e] = choose(2); if (c.nb[e]) f->flags |= O_NONBLOCK; c.fd[e] = fd_install(f); f.reset(); w.socks.insert(c.fd[e]);
            NoFaults nf; status r = psock_create_from_descriptor(&c.s[e], w.A.a, c.fd[e]); CHECK(r == OK, "wrong-status", "creating a datagram socket returned 0x%x", r); c.top[e] = c.s[e]; if (choose(3) == 2) { c.br[e] = br_make(w.A.a, c.s[e]); c.top[e] = c.br[e].s; }
        }
        if (!lib2) c.peer = p.second;
        w.ch.push_back(c);
    }
    uint32_t nops = 5 + choose(60); uint64_t h = nc;
    for (uint32_t o = 0; o < nops; ++o) {
        Chn& c = w.ch[choose(nc)]; int e = c.s[1] ? choose(2) : 0, d = 1 - e; int k = weighted({5, 2, 6, 3, 1, 1}); uint64_t ff = faults_fired(); h = mix64(h ^ (k * 4 + e) ^ (c.q[0].size() * 64 + c.q[1].size() * 1024)); mark_state(h);
        switch (k) {
        case 0: { // send; the datagram queued towards d
            int fd; if (choose(5) == 4) fd = choose(2) ? -1 : 999 + choose(3); else if (w.own.empty() || choose(4) == 3) fd = w.open(); else { auto it = w.own.begin(); std::advance(it, choose(w.own.size())); fd = it->first; }
            bool bad = !w.own.count(fd), full = c.q[d].size() >= c.cap; if (full && !c.nb[e] && !bad) break;
            status r = psock_write_raw_descriptor(c.top[e], fd); ev("send", fd, r);
            if (r == OK) { CHECK(!bad, "bad-descriptor-sent", "sending descriptor %d, which is not open, succeeded", fd); CHECK(!full, "wrong-status", "sending on a full socket succeeded"); c.q[d].push_back({w.own[fd]}); if (choose(2)) { h_close(fd); w.own.erase(fd); } }
            else CHECK(bad || full || faults_fired() > ff, "wrong-status", "sending a descriptor returned 0x%x", r);
            break; }
        case 1: { // the peer sends something: one, none or several descriptors
            if (!c.peer || c.q[0].size() >= c.cap) break; std::vector<FileP> fs; std::vector<int> tags; int n = weighted({3, 5, 2, 1}); if (n == 0) {} ; if (n >= 1) for (int i = 0; i < n; ++i) { int t = ++w.tag; tags.push_back(t); fs.push_back(k_reg(t)); }
            static const size_t ls[] = {1, 1, 0, 2, 99, 100, 101, 200}; std::vector<Cmsg> other; if (choose(4) == 3) { // credentials, a time stamp, or something unheard of comes along
                static const int lt[][3] = {{SOL_SOCKET, SCM_CREDENTIALS, 12}, {SOL_SOCKET, 29, 16}, {SOL_SOCKET, 40, 4}, {0, 8, 4}, {41, SCM_RIGHTS, 4}, {0, SCM_RIGHTS, 8}}; auto& x = lt[choose(6)]; std::string v(x[2], 0); int first = choose(2) || w.own.empty() ? (int)choose(20) : w.own.begin()->first; memcpy(&v[0], &first, 4); other.push_back({x[0], x[1], v}); }
            peer_send_dgram(c.peer, bytes_gen(ls[choose(8)], false, 7), fs, other); if (!other.empty() && !tags.empty()) { tags.push_back(-1); } c.q[0].push_back(tags); break; }
        case 2: { // receive at e
            bool empty = c.q[e].empty(); if (empty && !c.nb[e]) break;
            int fd = 12345; size_t n0 = fd_count(); status r = psock_read_raw_descriptor(c.top[e], &fd); ev("receive", fd, r);
            bool failed_before = false; // did the datagram leave the queue?
            size_t left; { FileP f = fd_get(c.fd[e]); left = f->rx->msgs.size(); f.reset(); } failed_before = left == c.q[e].size();
            if (r == OK) {
                CHECK(!empty, "wrong-status", "receiving from an empty socket succeeded"); CHECK(!failed_before, "wrong-status", "a descriptor was received without a message");
                auto t = c.q[e].front(); c.q[e].pop_front(); CHECK(!t.empty(), "wrong-status", "a message without a descriptor was reported as one"); CHECK(fd_open(fd), "bad-result", "the received descriptor %d is not open", fd); CHECK(!w.own.count(fd) && !w.socks.count(fd), "bad-result", "the received descriptor %d was already in use", fd);
                CHECK(file_is(fd_get(fd), t[0]), "wrong-file", "the received descriptor refers to another file than was sent"); w.own[fd] = t[0];
            } else {
                CHECK(fd_count() == n0, "descriptor-leak", "a failed receive left a descriptor open"); CHECK(fd == 12345 || fd == -1, "output-changed", "a failed receive stored descriptor %d", fd);
                if (!failed_before) { auto t = c.q[e].front(); c.q[e].pop_front(); CHECK(t.size() != 1, "wrong-status", "receiving a descriptor returned 0x%x", r); }
                else CHECK(empty || faults_fired() > ff, "wrong-status", "receiving a descriptor that is there returned 0x%x", r);
            }
            break; }
        case 3: if (!w.own.empty()) { auto it = w.own.begin(); std::advance(it, choose(w.own.size())); int fd = it->first; w.own.erase(it); h_close(fd); } break;
        case 4: { // the peer takes a message
            if (!c.peer || c.q[1].empty()) break; Dgram d; CHECK(peer_recv_dgram(c.peer, d), "message-lost", "a sent descriptor did not arrive at the peer"); auto t = c.q[1].front(); c.q[1].pop_front(); CHECK(d.fds.size() == 1 && file_is(d.fds[0], t[0]), "wrong-file", "the peer received %zu descriptors or another file", d.fds.size()); break; }
        case 5: { // sockets that cannot carry descriptors
            UCtx u; psock* s = nullptr; int how = choose(3); std::string in = "abc"; NoFaults nf; int fds = -1; size_t n0 = 0;
            if (how == 0) { s = buf_psock(w.A.a, choose(2) ? &in : nullptr); n0 = fd_count(); } else if (how == 1) { make([&] { return user_psock(&s, w.A.a, &u); }, "a user-defined socket"); n0 = fd_count(); } else { auto p = k_pair(false, 100, 100); fds = fd_install(p.first); p.first.reset(); w.socks.insert(fds); make([&] { return psock_create_from_descriptor(&s, w.A.a, fds); }, "a socket"); n0 = fd_count(); peer_write_anc(p.second, "x", {k_reg(1)}); }
            int fd = 12345, sf = w.own.empty() ? 0 : w.own.begin()->first; status r = psock_read_raw_descriptor(s, &fd); CHECK(r != OK, "wrong-status", "receiving a descriptor from a socket that carries none succeeded"); r = psock_write_raw_descriptor(s, sf); CHECK(r != OK, "wrong-status", "sending a descriptor over a socket that carries none succeeded");
            CHECK(fd_count() == n0, "descriptor-leak", "refused descriptor operations changed the descriptor table"); psock_drop(s); if (fds >= 0) w.socks.erase(fds); break; }
        }
        w.table(k == 0 ? "sending" : k == 2 ? "receiving" : "an operation");
    }
    for (auto& c : w.ch) for (int e = 0; e < 2; ++e) if (c.s[e]) { if (c.br[e].br) br_drop(c.br[e]); psock_drop(c.s[e]); w.socks.erase(c.fd[e]); CHECK(!fd_open(c.fd[e]), "descriptor-leak", "releasing a socket left its descriptor open"); w.table("releasing a socket"); }
    for (auto& o : w.own) h_close(o.first); CHECK(fd_count() == 0, "descriptor-leak", "descriptors are left"); w.A.release(); check_no_leaks("after passing descriptors");
}
SCENARIO(P07, fdpass_s) { fdpass(); }

// ---------------------------------------------------------------- P08
// a user-defined socket that hands everything to another socket
status f_read(psock*, void* c, void* d, size_t* n, bool b) { psock* s = (psock*)c; return b ? psock_read_raw(s, d, n) : psock_read_raw(s, d, n); }
status f_write(psock*, void*, const void*, size_t*) { return 0x7001; }
status f_accept(psock*, void* c, int* fd, struct sockaddr* a, socklen_t* n) { return psock_accept((psock*)c, fd, a, n); }
RCPR_VTABLE psock_vtable forward_vtable = { {nullptr}, &f_read, &f_write, &f_accept, nullptr, nullptr, nullptr, nullptr };
struct LS { uint32_t ip = 0x7f000001; std::string key; struct sockaddr_storage sa; socklen_t len; int port; bool v6 = false; FileP file; psock* s = nullptr; psock* fwd = nullptr; Br br; bool lib = false; bool gone = false; std::deque<FileP> pend; };
struct CS { psock* s = nullptr; Br br; int fd = -1; ChanP rx, tx; FileP peer; bool wrapped = false; LS* listener = nullptr; };
struct CW {
    Alloc A; fiber_scheduler* sched = nullptr; fiber* fib = nullptr; std::vector<LS*> ls; std::vector<CS*> cs; std::map<int, FileP> dummy; std::map<int, int> ids; int epfd = -1; int port = 1000;
};
std::map<int, int> table() { std::map<int, int> m; for (int fd : fds_open()) m[fd] = fd_get(fd)->id; return m; }
std::string tdiff(const std::map<int, int>& a, const std::map<int, int>& b) { std::string s; char t[64]; for (auto& x : b) if (!a.count(x.first)) { snprintf(t, sizeof t, " +%d", x.first); s += t; } else if (a.at(x.first) != x.second) { snprintf(t, sizeof t, " *%d", x.first); s += t; } for (auto& x : a) if (!b.count(x.first)) { snprintf(t, sizeof t, " -%d", x.first); s += t; } return s; }
void unchanged(const std::map<int, int>& a, const char* what) { auto b = table(); if (a != b) viol(b.size() > a.size() ? "descriptor-leak" : "descriptor-closed", "%s changed the descriptor table:%s", what, tdiff(a, b).c_str()); }
int the_new(const std::map<int, int>& a, const char* what) {
    auto b = table(); int nw = -1; for (auto& x : b) if (!a.count(x.first)) { CHECK(nw < 0, "descriptor-leak", "%s left more than one new descriptor:%s", what, tdiff(a, b).c_str()); nw = x.first; }
    for (auto& x : a) CHECK(b.count(x.first) && b[x.first] == x.second, "descriptor-closed", "%s changed another descriptor:%s", what, tdiff(a, b).c_str());
    CHECK(nw >= 0, "bad-result", "%s succeeded without a descriptor", what); return nw;
}
void ping(CW& w, CS* c) { // the socket works in both directions (only plain ones, outside the event loop)
    if (c->wrapped || !c->peer) return; NoFaults nf; uint8_t b = (uint8_t)choose(256); if (peer_space(c->peer) > 0 && peer_avail(c->peer) == 0) {
        psock* s = c->br.br && choose(2) ? c->br.s : c->s; status r = psock_write_raw_uint8(s, b); CHECK(r == OK, "unusable", "writing to a fresh connection returned 0x%x", r); std::string g = peer_read(c->peer, 10); CHECK(g.size() == 1 && (uint8_t)g[0] == b, "wrong-connection", "what was written did not arrive at this connection's peer");
        peer_write(c->peer, &b, 1); uint8_t x = 0; psock* s2 = c->br.br ? c->br.s : c->s; r = psock_read_raw_uint8(s2, &x); CHECK(r == OK && x == b, "wrong-connection", "what the peer wrote was not read (0x%x)", r); }
}
CS* adopt(CW& w, int fd, psock* s, LS* l) { CS* c = new CS; c->s = s; c->fd = fd; c->listener = l; FileP f = fd_get(fd); c->rx = f->rx; c->tx = f->tx; w.cs.push_back(c); return c; }
int next_port(CW& w) { w.port = (w.port + 1 + (int)choose(3) * 21013) & 0xffff; return w.port ? w.port : next_port(w); }
LS* mkaddr(CW& w) {
    LS* l = new LS; memset(&l->sa, 0, sizeof l->sa); l->port = next_port(w); l->v6 = choose(6) == 5; static const uint32_t ips[] = {0x7f000001, 0x0a010203, 0xc0a8ff80, 0xfffefdfc, 0x80000001, 0x01000000}; l->ip = ips[choose(6)];
    if (l->v6) { auto* a = (struct sockaddr_in6*)&l->sa; a->sin6_family = AF_INET6; a->sin6_port = htons(l->port); a->sin6_addr = in6addr_loopback; l->len = sizeof *a; l->key = "in6:" + std::string((const char*)&in6addr_loopback, 16) + std::to_string(l->port); }
    else { auto* a = (struct sockaddr_in*)&l->sa; a->sin_family = AF_INET; a->sin_port = htons(l->port); a->sin_addr.s_addr = htonl(l->ip); l->len = sizeof *a; l->key = "in:" + std::to_string(l->ip) + ":" + std::to_string(l->port); }
    return l;
}
void connections() {
    items_reset(); CW w; faults_config({F_ALLOC, F_MMAP, F_RESOLVE_ERR, F_SOCKET_ERR, F_BIND_ERR, F_LISTEN_ERR, F_CONNECT_ERR, F_ACCEPT_ERR, F_FCNTL_ERR, F_SOCKOPT_ERR, F_CLOSE_ERR, F_EPOLL_CREATE_ERR}); set_step_limit(200000);
    { NoFaults nf; CHECK(fiber_scheduler_create_with_disciplines(&w.sched, w.A.a) == OK, "wrong-status", "creating a scheduler failed"); CHECK(fiber_create(&w.fib, w.A.a, w.sched, 65536, nullptr, [](void*) -> status { return OK; }) == OK, "wrong-status", "creating a fiber failed"); }
    uint32_t nops = 5 + choose(45); bool sched_gone = false; uint64_t h = 0;
    auto live_l = [&](bool lib) { std::vector<LS*> v; for (auto l : w.ls) if (!l->gone && (!lib || l->lib)) v.push_back(l); return v; };
    auto release = [&](CS* c) {
        auto before = table(); if (c->br.br) { br_drop(c->br); c->br = Br(); unchanged(before, "releasing a buffered reader"); if (choose(2)) return; }
        status r = resource_release(psock_resource_handle(c->s)); ev("release", c->fd, r); before.erase(c->fd); unchanged(before, "releasing a connection"); if (r != OK) CHECK(faults_on(), "wrong-status", "releasing a connection returned 0x%x", r);
        if (c->peer) CHECK(peer_eof(c->peer) || peer_avail(c->peer), "descriptor-leak", "the peer does not see the released connection close"); for (size_t i = 0; i < w.cs.size(); ++i) if (w.cs[i] == c) { w.cs.erase(w.cs.begin() + i); break; } delete c; };
    auto release_l = [&](LS* l) { auto before = table(); int fd = -1; for (auto& x : before) if (fd_get(x.first)->kind == K_LISTEN && fd_get(x.first)->addr == l->key) fd = x.first; CHECK(fd >= 0, "descriptor-closed", "a listener's descriptor is gone"); if (l->br.br) { br_drop(l->br); l->br = Br(); } if (l->fwd) { psock_drop(l->fwd); l->fwd = nullptr; } unchanged(before, "releasing what wraps a listener"); (void)!resource_release(psock_resource_handle(l->s)); before.erase(fd); unchanged(before, "releasing a listener"); l->gone = true; l->s = nullptr; l->pend.clear(); };
    for (uint32_t o = 0; o < nops; ++o) {
        int k = weighted({4, 4, 4, 6, 3, 2, 3, 1, 2, 1, 1}); uint64_t ff = faults_fired(); auto before = table(); size_t lb = live_blocks(), lst = live_stacks(); h = mix64(h ^ k ^ (w.cs.size() << 8)); mark_state(h);
        switch (k) {
        case 0: { // listen
            LS* l = mkaddr(w); bool dup = false; if (choose(5) == 4 && !live_l(false).empty()) { auto v = live_l(false); LS* m = pick(v); l->sa = m->sa; l->len = m->len; l->key = m->key; l->v6 = m->v6; l->port = m->port; l->ip = m->ip; dup = true; }
            psock* s = (psock*)0x5151; status r = psock_create_from_listen_address(&s, w.A.a, (struct sockaddr*)&l->sa, l->len); ev("listen", r);
            if (r != OK) { unchanged(before, "a failed listen"); CHECK(live_blocks() == lb, "memory-leak", "a failed listen left memory: %s", live_summary().c_str()); CHECK(dup || l->v6 || faults_fired() > ff, "wrong-status", "listening returned 0x%x", r); CHECK(s == (psock*)0x5151 || !s, "output-changed", "a failed listen stored a socket"); delete l; break; }
            CHECK(!dup, "wrong-status", "listening twice on one address succeeded"); l->s = s; l->lib = true; int fd = the_new(before, "listening"); FileP f = fd_get(fd); CHECK(f->kind == K_LISTEN && f->addr == l->key, "wrong-address", "the new socket does not listen on the address asked for"); f.reset(); w.ls.push_back(l); CHECK(psock_socket_type(s) == PSOCK_SOCKET_TYPE_STREAM || faults_fired() > ff, "wrong-type", "a listener is not a stream socket"); if (choose(3) == 2) { make([&] { return psock_create_from_user_methods(&l->fwd, w.A.a, l->s, &forward_vtable); }, "a user-defined socket"); } if (choose(3) == 2) l->br = br_make(w.A.a, l->fwd ? l->fwd : l->s); break; }
        case 1: { // connect by host name
            auto v = live_l(false); LS* t = v.empty() || choose(5) == 4 ? nullptr : pick(v); if (!t && choose(2)) { // a remote listener
                LS* l = mkaddr(w); l->file = k_listen(l->key); l->file->domain = l->v6 ? AF_INET6 : AF_INET; l->file->backlog_max = 1 + choose(3); w.ls.push_back(l); t = l; }
            char dotted[32]; uint32_t ip = t ? t->ip : 0x7f000001; snprintf(dotted, sizeof dotted, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); const char* host = ip == 0x7f000001 && choose(2) ? "localhost" : dotted; if (choose(8) == 7) host = "no.such.host"; int port = t ? t->port : 7; bool v6host = !strcmp(host, "no.such.host"); // the simulated resolver knows such names only by IPv6
            size_t bl = t ? find_listener(t->key)->backlog.size() : 0; bool room = t && bl < find_listener(t->key)->backlog_max && t->v6 == v6host;
            psock* s = (psock*)0x5151; uint64_t rf = fault_fired(F_RESOLVE_ERR); status r = psock_create_from_hostname_and_port(&s, w.A.a, host, port); ev("connect", r); bool other = fault_fired(F_RESOLVE_ERR) > rf;
            if (r != OK) { unchanged(before, "a failed connect"); CHECK(live_blocks() == lb, "memory-leak", "a failed connect left memory: %s", live_summary().c_str()); CHECK(!room || faults_fired() > ff, "wrong-status", "connecting returned 0x%x", r); CHECK(s == (psock*)0x5151 || !s, "output-changed", "a failed connect stored a socket"); if (t && find_listener(t->key)->backlog.size() > bl) { CHECK(is_oom(r), "wrong-status", "connecting returned 0x%x after the connection was made", r); t->pend.push_back(nullptr); } break; }
            int fd = the_new(before, "connecting"); CHECK(t && find_listener(t->key)->backlog.size() == bl + 1, "wrong-address", "connecting did not reach the listener asked for"); (void)other; CS* c = adopt(w, fd, s, nullptr); t->pend.push_back(fd_get(fd)); if (!t->lib) { FileP p = find_listener(t->key)->backlog.back(); if (choose(2)) { find_listener(t->key)->backlog.pop_back(); t->pend.pop_back(); c->peer = p; ping(w, c); } } break; }
        case 2: { // a remote peer connects
            auto v = live_l(true); if (v.empty()) break; LS* l = pick(v); FileP p = k_connect_to(find_listener(l->key)); if (p) l->pend.push_back(p); break; }
        case 3: { // accept
            auto v = live_l(true); if (v.empty()) break; LS* l = pick(v); if (l->pend.empty()) break; struct sockaddr_storage ss; socklen_t sl = sizeof ss; bool wa = choose(2); int fd = 12345; psock* via = l->s; if (l->fwd && choose(2)) via = l->fwd; else if (l->br.br && choose(2)) via = l->br.s; FileP lf = l->file; uint32_t hard = lf ? lf->hard[0] : 0; status r = psock_accept(via, &fd, wa ? (struct sockaddr*)&ss : nullptr, wa ? &sl : nullptr); ev("accept", fd, r); CHECK(!lf || lf->hard[0] == hard || (r != OK && r != ERROR_PSOCK_ACCEPT_WOULD_BLOCK), "error-swallowed", "the system refused to accept and the accept returned 0x%x", r);
            if (r != OK) { unchanged(before, "a failed accept"); CHECK(faults_fired() > ff, "wrong-status", "accepting a pending connection returned 0x%x", r); CHECK(fd == 12345 || fd == -1, "output-changed", "a failed accept stored a descriptor"); break; }
            CHECK(the_new(before, "accepting") == fd, "bad-result", "accept returned another descriptor"); if (wa) { std::string from = fd_get(fd)->from; CHECK(sl == from.size() && !memcmp(&ss, from.data(), sl), "wrong-address", "accept did not return the address of the connecting peer"); } FileP p = l->pend.front(); l->pend.pop_front(); FileP f = fd_get(fd); if (p) CHECK(f->rx == p->tx && f->tx == p->rx, "wrong-order", "accept returned another connection than the oldest pending one"); f.reset();
            before = table(); lb = live_blocks(); psock* s = nullptr; r = psock_create_from_descriptor(&s, w.A.a, fd); if (r != OK) { CHECK(oom_ok(r, ff), "wrong-status", "wrapping a descriptor returned 0x%x", r); unchanged(before, "a failed socket creation"); CHECK(live_blocks() == lb, "memory-leak", "a failed socket creation left memory"); h_close(fd); break; }
            CS* c = adopt(w, fd, s, l); bool remote = p != nullptr; for (int q : fds_open()) if (fd_get(q) == p) remote = false; if (remote) { c->peer = p; ping(w, c); } break; }
        case 4: { // wrap for use by a fiber
            std::vector<CS*> v; for (auto c : w.cs) if (!c->wrapped && !c->br.br) v.push_back(c); if (v.empty() || sched_gone) break; CS* c = pick(v); fiber_scheduler_discipline* d = nullptr; psock* s = (psock*)0x5151; status r = psock_create_wrap_async(&s, w.A.a, w.fib, c->s); ev("wrap", c->fd, r);
            bool reg; { NoFaults nf; reg = fiber_scheduler_discipline_find(&d, w.sched, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE) == OK; }
            auto now = before; if (reg && w.epfd < 0) { for (int q : fds_open()) if (!before.count(q) && fd_get(q)->kind == K_EPOLL) { CHECK(w.epfd < 0, "descriptor-leak", "two readiness queues"); w.epfd = q; now[q] = fd_get(q)->id; } }
            unchanged(now, "wrapping a socket"); if (!reg) CHECK(live_stacks() == lst, "stack-leak", "a failed wrap left a fiber stack");
            if (r != OK) { CHECK(faults_fired() > ff, "wrong-status", "wrapping a socket returned 0x%x", r); CHECK(s == (psock*)0x5151 || !s, "output-changed", "a failed wrap stored a socket"); if (!reg || now == before) CHECK(live_blocks() == lb || reg, "memory-leak", "a failed wrap left memory: %s", live_summary().c_str()); ping(w, c); break; }
            CHECK(fd_nonblocking(c->fd), "still-blocking", "a wrapped socket's descriptor still blocks"); CHECK(reg, "wrong-status", "wrapping succeeded without registering the socket discipline"); c->s = s; c->wrapped = true; break; }
        case 5: { // buffered reader over a connection
            if (w.cs.empty()) break; CS* c = pick(w.cs); if (c->br.br) break; c->br = br_make(w.A.a, c->s); unchanged(before, "creating a buffered reader"); ping(w, c); break; }
        case 6: if (!w.cs.empty()) release(pick(w.cs)); break;
        case 7: { auto v = live_l(true); if (!v.empty() && choose(2)) release_l(pick(v)); else if (!v.empty()) { LS* l = pick(v); std::string d = "x"; size_t n = 1; char b[2]; NoFaults nf; status r = choose(2) ? psock_read_raw(l->s, b, &n) : psock_write_raw_data(l->s, "x", 1); CHECK(r != OK, "wrong-status", "a listener carried data"); unchanged(before, "using a listener for data"); } break; }
        case 8: { // socket options
            std::vector<std::pair<psock*, int>> v; for (auto c : w.cs) if (!c->wrapped) v.push_back({c->s, c->fd}); for (auto l : live_l(true)) for (int fd : fds_open()) if (fd_get(fd) == find_listener(l->key)) v.push_back({l->s, fd}); if (v.empty()) break; auto t = pick(v); int lv = (int)choose(3), op = (int)choose(5); std::string val = bytes_gen(1 + choose(12), false, choose(100)); std::string keep = val; auto oth = [&] { size_t k = 0; for (int fd : fds_open()) if (fd != t.second) k += fd_get(fd)->opts.size(); return k; }; size_t ob = oth(); auto old = fd_get(t.second)->opts;
            status r = psock_setsockopt(t.first, lv, op, val.data(), (socklen_t)val.size()); ev("setsockopt", t.second, r); CHECK(val == keep, "memory-changed", "setting an option changed the caller's value"); unchanged(before, "setting a socket option"); CHECK(oth() == ob, "wrong-socket", "setting an option changed another socket"); auto now = fd_get(t.second)->opts;
            if (r == OK) { CHECK(faults_fired() == ff, "false-success", "setting an option succeeded although the system refused it"); auto key = std::make_pair(lv, op); CHECK(now.count(key) && now[key] == val, "wrong-option", "the option was not set as asked for"); old[key] = val; } else CHECK(faults_fired() > ff, "wrong-status", "setting an option returned 0x%x", r); CHECK(now == old, "wrong-option", "another option was changed"); break; }
        case 9: { // the kind of a socket follows from its descriptor
            int how = choose(4); FileP f; std::pair<FileP, FileP> p; if (how == 0) f = k_reg(5); else { p = how == 2 ? k_dgram_pair(2) : k_pair(false, 10, 10); f = p.first; f->type = how == 1 ? SOCK_STREAM : how == 2 ? SOCK_DGRAM : SOCK_SEQPACKET; p.first.reset(); } int fd = fd_install(f); f.reset(); auto b2 = table(); psock* s = nullptr; status r = psock_create_from_descriptor(&s, w.A.a, fd); if (r != OK) { CHECK(faults_fired() > ff, "wrong-status", "wrapping a descriptor returned 0x%x", r); unchanged(b2, "a failed socket creation"); h_close(fd); break; }
            auto t = psock_socket_type(s); int want = how == 1 ? PSOCK_SOCKET_TYPE_STREAM : how == 2 ? PSOCK_SOCKET_TYPE_DATAGRAM : PSOCK_SOCKET_TYPE_OTHER; CHECK((int)t == want || (faults_fired() > ff && t == PSOCK_SOCKET_TYPE_OTHER), "wrong-type", "a socket of type %d is reported as %d", want, (int)t); CHECK(psock_resource_handle_to_psock(psock_resource_handle(s)) == s, "bad-result", "a socket's resource does not lead back to it"); if (choose(4) == 3) { r = choose(2) ? psock_read_block(s) : psock_write_block(s); CHECK(r == ERROR_PSOCK_UNSUPPORTED_TYPE, "wrong-status", "blocking on a blocking socket returned 0x%x", r); }
            { NoFaults nf; psock_drop(s); } unchanged(before, "creating and releasing a socket"); break; }
        case 10: { // sockets that no fiber can wait for
            if (sched_gone) break; UCtx u; psock* s = nullptr; psock* x = (psock*)0x5151; std::string in = "abc"; { NoFaults nf; if (choose(2)) s = buf_psock(w.A.a, choose(2) ? &in : nullptr); else { status r = user_psock(&s, w.A.a, &u); CHECK(r == OK, "wrong-status", "creating a socket returned 0x%x", r); } } lb = live_blocks(); bool had = w.epfd >= 0;
            status r = psock_create_wrap_async(&x, w.A.a, w.fib, s); CHECK(r != OK, "false-success", "a socket without a descriptor was wrapped for asynchronous use"); CHECK(x == (psock*)0x5151 || !x, "output-changed", "a failed wrap stored a socket"); if (had) { unchanged(before, "a refused wrap"); CHECK(live_blocks() == lb, "memory-leak", "a refused wrap left memory: %s", live_summary().c_str()); }
            else { fiber_scheduler_discipline* d = nullptr; NoFaults nf; if (fiber_scheduler_discipline_find(&d, w.sched, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE) == OK) { for (int q : fds_open()) if (!before.count(q) && fd_get(q)->kind == K_EPOLL) { w.epfd = q; before[q] = fd_get(q)->id; } } unchanged(before, "a refused wrap"); }
            if (choose(2)) { r = psock_setsockopt(s, 1, 1, "x", 1); CHECK(r != OK, "false-success", "setting an option of a socket without a descriptor succeeded"); }
            { NoFaults nf; Br b; if (choose(2)) b = br_make(w.A.a, s); psock* q = b.s ? b.s : s; int fd = 12345; struct sockaddr_storage sa; socklen_t sl = sizeof sa; auto b3 = table(); bool addr = choose(2);
              r = psock_accept(q, &fd, addr ? (struct sockaddr*)&sa : nullptr, addr ? &sl : nullptr); CHECK(r != OK, "false-success", "accepting a connection on a socket that cannot listen succeeded"); CHECK(fd == 12345 || fd < 0, "output-changed", "a refused accept stored a descriptor");
              if (choose(2)) { r = psock_setsockopt(q, 1, 1, "x", 1); CHECK(r != OK, "false-success", "setting an option of a socket without a descriptor succeeded"); }
              if (choose(2)) { r = choose(2) ? psock_read_block(q) : psock_write_block(q); CHECK(r == ERROR_PSOCK_UNSUPPORTED_TYPE, "wrong-status", "blocking on a socket without a descriptor returned 0x%x", r); }
              unchanged(b3, "refused operations"); if (b.br) br_drop(b); }
            psock_drop(s); break; }
        }
    }
    // tear everything down in any order
    while (!w.cs.empty() || !live_l(true).empty() || !sched_gone) {
        auto v = live_l(true); std::vector<int> can; if (!w.cs.empty()) can.push_back(0); if (!v.empty()) can.push_back(1); if (!sched_gone) can.push_back(2); switch (pick(can)) {
        case 0: if (!w.cs.empty()) release(pick(w.cs)); break;
        case 1: if (!v.empty()) release_l(pick(v)); break;
        case 2: if (!sched_gone) { auto before = table(); NoFaults nf; CHECK(resource_release(fiber_resource_handle(w.fib)) == OK, "wrong-status", "releasing a fiber failed"); status r = resource_release(fiber_scheduler_resource_handle(w.sched)); CHECK(r == OK, "wrong-status", "releasing the scheduler returned 0x%x", r); if (w.epfd >= 0) before.erase(w.epfd); unchanged(before, "releasing the scheduler"); sched_gone = true; } break;
        }
    }
    CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); for (auto l : w.ls) delete l; w.ls.clear(); w.A.release(); check_no_leaks("after closing every connection");
}
SCENARIO(P08, connections_s) { connections(); }
ALSO(V01, connections_s, 1);
}
