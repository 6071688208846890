#include "kernel.hpp"
#include "threads.hpp"
#include "seam.hpp"
#include "bsd/sys/event.h"
#include <fcntl.h>
#include <cerrno>
#include <algorithm>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>

namespace sim {
static std::map<int, FileP>* T;
static std::map<int, int>* FDF;
static std::map<std::string, std::weak_ptr<File>>* L;
static std::vector<Actor>* A;
static uint32_t g_env_rate; static size_t g_pair_min;
static bool g_on_big;
static uint64_t g_progress, g_last_progress, g_futile;
static std::function<void()>* g_onwait;
static std::function<void(int)>* g_onreport, *g_onarm;
static std::function<bool()>* g_stuck;
static std::function<void()>* g_blocked; static std::function<void()>* g_onaccept;
static int g_ids;
static uint64_t g_closed, g_waits; static bool g_close_any;
static int g_port;
SysCount syscount;

void fd_base(int);
void kernel_reset() {
    if (!T) { T = new std::map<int, FileP>; FDF = new std::map<int, int>; L = new std::map<std::string, std::weak_ptr<File>>; A = new std::vector<Actor>; g_stuck = new std::function<bool()>; g_blocked = new std::function<void()>; g_onwait = new std::function<void()>; g_onreport = new std::function<void(int)>; g_onarm = new std::function<void(int)>; g_onaccept = new std::function<void()>; }
    T->clear(); FDF->clear(); L->clear(); A->clear(); g_env_rate = 0; g_pair_min = 0; *g_stuck = nullptr; *g_blocked = nullptr; *g_onwait = nullptr; *g_onreport = nullptr; *g_onarm = nullptr; *g_onaccept = nullptr; g_progress = g_last_progress = g_futile = 0; g_on_big = false; g_ids = 0; g_close_any = false; g_closed = 0; g_waits = 0; g_port = 40000;
    memset(&syscount, 0, sizeof syscount); fd_base(-1);
}
static FileP mk(Kind k) { auto f = std::make_shared<File>(); f->id = ++g_ids; f->kind = k; return f; }
static void detach(File* f) {
    if (f->closed) return; f->closed = true;
    if (f->rx) { if (--f->rx->readers <= 0) f->rx->rclosed = true; }
    if (f->tx) { if (--f->tx->writers <= 0) f->tx->wclosed = true; }
    if (f->kind == K_LISTEN && L) L->erase(f->addr);
}
File::~File() { detach(this); }
static void attach(FileP f, ChanP rx, ChanP tx) { f->rx = rx; f->tx = tx; if (rx) rx->readers++; if (tx) tx->writers++; }
// The rest of the program may hold any number of descriptors: how many is
// decided once in a run.
static int g_fd_base;
void fd_base(int n) { g_fd_base = n; }
int fd_install(FileP f, int lowest) {
    if (lowest < 0) { if (g_fd_base < 0) { static const int b[] = {3, 3, 3, 3, 120, 250, 1020, 32760, 65530, 300000}; g_fd_base = b[choose(10)]; } lowest = g_fd_base; }
    int fd = lowest; while (T->count(fd)) ++fd; (*T)[fd] = f; (*FDF)[fd] = 0; return fd;
}
FileP fd_get(int fd) { auto it = T->find(fd); return it == T->end() ? nullptr : it->second; }
bool fd_open(int fd) { return T->count(fd) != 0; }
std::vector<int> fds_open() { std::vector<int> v; for (auto& x : *T) v.push_back(x.first); return v; }
size_t fd_count() { return T->size(); }
uint64_t fd_closed_count() { return g_closed; }
void close_any(bool on) { g_close_any = on; }
bool fd_nonblocking(int fd) { auto f = fd_get(fd); return f && (f->flags & O_NONBLOCK); }
int fd_flags(int fd) { return FDF->count(fd) ? (*FDF)[fd] : -1; }
FileP k_reg(int tag) { auto f = mk(K_REG); f->type = tag; return f; }
bool file_is(FileP f, int tag) { return f && f->kind == K_REG && f->type == tag; }
std::pair<FileP, FileP> k_pair(bool tcp, size_t c1, size_t c2) {
    auto a = mk(K_STREAM), b = mk(K_STREAM); auto ab = std::make_shared<Chan>(), ba = std::make_shared<Chan>(); ab->cap = c1; ba->cap = c2;
    attach(a, ba, ab); attach(b, ab, ba); a->tcp = b->tcp = tcp; a->type = b->type = SOCK_STREAM; return {a, b};
}
std::pair<FileP, FileP> k_dgram_pair(size_t cap) {
    auto a = mk(K_DGRAM), b = mk(K_DGRAM); auto ab = std::make_shared<Chan>(), ba = std::make_shared<Chan>(); ab->cap = ba->cap = cap;
    attach(a, ba, ab); attach(b, ab, ba); a->type = b->type = SOCK_DGRAM; return {a, b};
}
std::pair<FileP, FileP> k_pipe(size_t cap) {
    auto r = mk(K_PIPE_R), w = mk(K_PIPE_W); auto c = std::make_shared<Chan>(); c->cap = cap; attach(r, c, nullptr); attach(w, nullptr, c); return {r, w};
}
FileP k_listen(const std::string& addr) { auto f = mk(K_LISTEN); f->addr = addr; (*L)[addr] = f; return f; }
FileP find_listener(const std::string& a) { auto it = L->find(a); return it == L->end() ? nullptr : it->second.lock(); }
FileP k_connect_to(FileP l) {
    if (!l || l->kind != K_LISTEN || l->closed || l->backlog.size() >= l->backlog_max) return nullptr;
    size_t cs[] = {4096, 1, 7, 64, 512}; auto p = k_pair(l->domain != AF_UNIX, cs[choose(5)], cs[choose(5)]);
    p.first->domain = p.second->domain = l->domain;
    l->backlog.push_back(p.second); return p.first;
}
size_t peer_space(FileP f) { if (!f->tx || f->tx->rclosed) return 0; return f->tx->q.size() >= f->tx->cap ? 0 : f->tx->cap - f->tx->q.size(); }
size_t peer_avail(FileP f) { return f->rx ? f->rx->q.size() : 0; }
size_t peer_write(FileP f, const void* p, size_t n) {
    n = std::min(n, peer_space(f)); const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) f->tx->q.push_back(b[i]); f->tx->wr += n; ev("peer-write", f->id, n); return n;
}
std::string peer_read(FileP f, size_t m) {
    std::string s; while (s.size() < m && !f->rx->q.empty()) { s += (char)f->rx->q.front(); f->rx->q.pop_front(); } f->rx->rd += s.size();
    while (!f->rx->anc.empty() && f->rx->anc.front().off < f->rx->rd) f->rx->anc.pop_front();
    ev("peer-read", f->id, s.size()); return s;
}
void peer_send_dgram(FileP f, const std::string& d, const std::vector<FileP>& fds, const std::vector<Cmsg>& other) { f->tx->msgs.push_back({d, fds, other}); ev("peer-dgram", f->id, d.size(), fds.size(), other.size()); }
bool peer_recv_dgram(FileP f, Dgram& d) { if (f->rx->msgs.empty()) return false; d = f->rx->msgs.front(); f->rx->msgs.pop_front(); return true; }
void peer_write_anc(FileP f, const std::string& d, const std::vector<FileP>& fds) { f->tx->anc.push_back({f->tx->wr, fds}); for (char c : d) f->tx->q.push_back((uint8_t)c); f->tx->wr += d.size(); ev("peer-anc", f->id, d.size(), fds.size()); }
bool peer_eof(FileP f) { return f->rx && f->rx->q.empty() && f->rx->msgs.empty() && f->rx->wclosed; }
void peer_close(FileP f) { ev("peer-close", f->id); detach(f.get()); }
void peer_shutdown_write(FileP f) { if (f->tx) { f->tx->wclosed = true; ev("peer-shut", f->id); } }
void peer_reset(FileP f) { ev("peer-reset", f->id); if (f->tx) { f->tx->err = ECONNRESET; f->tx->q.clear(); f->tx->wclosed = true; } if (f->rx) { f->rx->rclosed = true; } detach(f.get()); }

void actor_add(std::string n, std::function<bool()> r, std::function<void()> a) { A->push_back({r, a, n}); }
void actors_clear() { A->clear(); }
static bool env_ready() { for (auto& a : *A) if (a.ready()) return true; return false; }
bool env_step() {
    std::vector<size_t> v, u; for (size_t i = 0; i < A->size(); ++i) if ((*A)[i].ready()) { u.push_back(i); if ((*A)[i].stalled) (*A)[i].stalled--; else v.push_back(i); }
    if (u.empty()) return false;
    step(); g_progress++; if (v.empty()) v = u;
    size_t i = v[choose((uint32_t)v.size())]; if (v.size() > 1 && fault(F_PEER_STALL)) { (*A)[i].stalled = 1 + choose(40); ev("peer-stall", i, (*A)[i].stalled); return true; }
    (*A)[i].act(); return true;
}
void on_accept(std::function<void()> f) { *g_onaccept = f; }
void socketpair_room(size_t n) { g_pair_min = n; }
void progress() { g_progress++; }
void on_wait(std::function<void()> f) { *g_onwait = f; }
void on_report(std::function<void(int)> f) { *g_onreport = f; }
void on_arm(std::function<void(int)> f) { *g_onarm = f; }
// the event loop may wake up without cause only as often as faults make it
static void wait_begins() {
    step(); g_waits++; syscount.waits++; if (*g_onwait) (*g_onwait)();
    uint64_t p = g_progress + faults_fired(); if (p == g_last_progress) { if (++g_futile > 60) viol("spin", "the event loop woke up %lu times in a row without anything having happened", (unsigned long)g_futile); } else { g_last_progress = p; g_futile = 0; }
}
void env_rate(uint32_t r) { g_env_rate = r; }
static void maybe_env() { step(); if (g_env_rate && chance(g_env_rate)) env_step(); }
void on_stuck(std::function<bool()> f) { *g_stuck = f; }
void on_blocked(std::function<void()> f) { *g_blocked = f; }
uint64_t wait_calls() { return g_waits; }
static void block_until(std::function<bool()> pred, const char* what) {
    while (!pred()) {
        if (threads_multi()) { thread_block([&] { return pred() || env_ready(); }, what); if (!pred()) env_step(); }   // another thread, or a peer, may change it
        else if (!env_step()) { if (*g_blocked) (*g_blocked)(); if (pred()) return; viol("blocked-forever", "a blocking %s can never complete: no peer has anything left to do", what); }
    }
}

static uint32_t ready_events(FileP f) {
    uint32_t e = 0;
    switch (f->kind) {
    case K_STREAM: case K_DGRAM:
        if (f->rx) { if (!f->rx->q.empty() || !f->rx->msgs.empty() || f->rx->wclosed || f->rx->err) e |= EPOLLIN; if (f->rx->wclosed) e |= EPOLLRDHUP; if (f->rx->err) e |= EPOLLERR | EPOLLHUP; }
        if (f->tx) {
            if (f->tx->rclosed) e |= EPOLLOUT; else if (f->kind == K_DGRAM ? f->tx->msgs.size() < f->tx->cap : f->tx->q.size() < f->tx->cap) e |= EPOLLOUT;
            if (f->tx->rclosed && f->rx && f->rx->wclosed) e |= EPOLLHUP;
        }
        break;
    case K_PIPE_R: if (!f->rx->q.empty()) e |= EPOLLIN; if (f->rx->wclosed) e |= EPOLLHUP; break;
    case K_PIPE_W: if (f->tx->rclosed) e |= EPOLLERR; if (f->tx->q.size() < f->tx->cap) e |= EPOLLOUT; break;
    case K_LISTEN: if (!f->backlog.empty()) e |= EPOLLIN; break;
    case K_REG: e |= EPOLLIN | EPOLLOUT; break;
    case K_UNBOUND: e |= EPOLLHUP | EPOLLOUT; break;
    case K_EPOLL: break;
    }
    return e;
}
static void close_cleanup(int fd) {
    FileP f = fd_get(fd); T->erase(fd); FDF->erase(fd);
    for (auto& x : *T) if (x.second->kind == K_EPOLL) { x.second->kq.erase({fd, EVFILT_READ}); x.second->kq.erase({fd, EVFILT_WRITE}); }
    bool other = false; for (auto& x : *T) if (x.second == f) other = true;
    if (!other) for (auto& x : *T) if (x.second->kind == K_EPOLL) { auto& m = x.second->ep; for (auto it = m.begin(); it != m.end();) { auto s = it->second.f.lock(); if (!s || s == f) it = m.erase(it); else ++it; } }
}
static int install_or_fail(FileP f, int flags = 0) { int fd = fd_install(f); (*FDF)[fd] = flags & O_CLOEXEC ? FD_CLOEXEC : 0; return fd; }
#define ERR(e) do { errno = (e); return -1; } while (0)

static ssize_t do_read(int fd, void* buf, size_t n, bool dontwait, bool peek = false) {
    maybe_env(); syscount.reads++;
    FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (!f->noinject && fault(F_READ_EINTR)) { f->injected++; ev("read", fd, -EINTR); ERR(EINTR); }
    bool nb = (f->flags & O_NONBLOCK) || dontwait;
    if (f->kind == K_REG) return 0;
    if (f->kind == K_LISTEN || f->kind == K_UNBOUND) ERR(ENOTCONN);
    if (!f->rx) ERR(EBADF);
    if (n == 0) return 0;
    if (nb && fault(F_READ_EAGAIN)) { ev("read", fd, -EAGAIN); ERR(EAGAIN); }
    auto rdy = [&] { return !f->rx->q.empty() || !f->rx->msgs.empty() || f->rx->wclosed || f->rx->err; };
    if (!rdy()) { if (nb) { ev("read", fd, -EAGAIN); ERR(EAGAIN); } block_until(rdy, "read"); }
    if (!f->noinject && fault(F_READ_ERR)) { f->injected++; f->hard[0]++; ev("read", fd, -EIO); ERR(choose(2) ? ECONNRESET : EIO); }
    if (f->rx->err) { int e = f->rx->err; f->rx->err = 0; f->hard[0]++; ev("read", fd, -e); g_progress++; ERR(e); }
    if (f->kind == K_DGRAM) {
        if (f->rx->msgs.empty()) { ev("read", fd, 0); return 0; }
        Dgram d = f->rx->msgs.front(); if (!peek) f->rx->msgs.pop_front(); size_t m = std::min(n, d.data.size()); memcpy(buf, d.data.data(), m); ev("read", fd, m); g_progress++; return m;
    }
    size_t m = std::min(n, f->rx->q.size());
    if (m > 1 && fault(F_READ_SHORT)) m = 1 + choose((uint32_t)std::min<size_t>(m - 1, 1000000));
    for (size_t i = 0; i < m; ++i) { ((uint8_t*)buf)[i] = f->rx->q[i]; }
    if (!peek) { f->rx->q.erase(f->rx->q.begin(), f->rx->q.begin() + m); f->rx->rd += m; while (!f->rx->anc.empty() && f->rx->anc.front().off < f->rx->rd) f->rx->anc.pop_front(); }
    ev("read", fd, m); g_progress++; return m;
}
static ssize_t do_write(int fd, const void* buf, size_t n, bool dontwait) {
    maybe_env(); syscount.writes++;
    FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (!f->noinject && fault(F_WRITE_EINTR)) { f->injected++; ev("write", fd, -EINTR); ERR(EINTR); }
    bool nb = (f->flags & O_NONBLOCK) || dontwait;
    if (f->kind == K_REG) return n;
    if (f->kind == K_LISTEN || f->kind == K_UNBOUND) ERR(ENOTCONN);
    if (!f->tx) ERR(EBADF);
    if (f->tx->rclosed || f->tx->wclosed) { ev("write", fd, -EPIPE); ERR(EPIPE); }
    if (f->kind == K_DGRAM) { if (f->tx->msgs.size() >= f->tx->cap) { if (nb) ERR(EAGAIN); block_until([&] { return f->tx->msgs.size() < f->tx->cap || f->tx->rclosed; }, "write"); } f->tx->msgs.push_back({std::string((const char*)buf, n), {}}); ev("write", fd, n); g_progress++; return n; }
    if (n == 0) return 0;
    if (nb && fault(F_WRITE_EAGAIN)) { ev("write", fd, -EAGAIN); ERR(EAGAIN); }
    if (!f->noinject && fault(F_WRITE_ERR)) { f->injected++; f->hard[1]++; ev("write", fd, -EIO); ERR(choose(2) ? ECONNRESET : EIO); }
    const uint8_t* b = (const uint8_t*)buf; size_t done = 0;
    auto space = [&] { return f->tx->q.size() >= f->tx->cap ? (size_t)0 : f->tx->cap - f->tx->q.size(); };
    size_t limit = n; if (n > 1 && fault(F_WRITE_SHORT)) limit = 1 + choose((uint32_t)std::min<size_t>(n - 1, 1000000));
    for (;;) {
        size_t m = std::min(limit - done, space()); for (size_t i = 0; i < m; ++i) f->tx->q.push_back(b[done + i]); done += m; f->tx->wr += m;
        if (done >= limit) break;
        if (nb) { if (!done) { ev("write", fd, -EAGAIN); ERR(EAGAIN); } break; }
        block_until([&] { return space() > 0 || f->tx->rclosed; }, "write");
        if (f->tx->rclosed) { if (!done) { ev("write", fd, -EPIPE); ERR(EPIPE); } break; }
    }
    ev("write", fd, done, n); g_progress++; return done;
}
static FileP retype(FileP f, Kind k) { f->kind = k; return f; }
} // namespace sim

// The event loop's own fiber has a small stack that the real system calls would
// not need; the simulated ones run on a stack of their own.
extern "C" void sim_on_stack(void (*fn)(void*), void* arg, void* top);
asm(R"(
.text
.globl sim_on_stack
.type sim_on_stack,@function
sim_on_stack:
    pushq %rbp
    movq %rsp, %rbp
    movq %rdx, %rsp
    movq %rdi, %rax
    movq %rsi, %rdi
    call *%rax
    movq %rbp, %rsp
    popq %rbp
    ret
.size sim_on_stack,.-sim_on_stack
)");
static char g_big[1 << 20] __attribute__((aligned(64)));
template <class F> static int big_stack(F f) {
    if (sim::g_on_big) return f();
    struct P { F* f; int r; int e; } p{&f, 0, 0}; sim::g_on_big = true;
    sim_on_stack([](void* a) { P* p = (P*)a; p->r = (*p->f)(); p->e = errno; }, &p, g_big + sizeof g_big - 64);
    sim::g_on_big = false; errno = p.e; return p.r;
}

using namespace sim;
extern "C" {
ssize_t sim_read(int fd, void* b, size_t n) { return do_read(fd, b, n, false); }
ssize_t sim_write(int fd, const void* b, size_t n) { return do_write(fd, b, n, false); }
ssize_t sim_recv(int fd, void* b, size_t n, int fl) { return do_read(fd, b, n, fl & MSG_DONTWAIT, fl & MSG_PEEK); }
ssize_t sim_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return do_read(fd, b, n, fl & MSG_DONTWAIT, fl & MSG_PEEK); }
ssize_t sim_send(int fd, const void* b, size_t n, int fl) { return do_write(fd, b, n, fl & MSG_DONTWAIT); }
ssize_t sim_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return do_write(fd, b, n, fl & MSG_DONTWAIT); }
ssize_t sim_readv(int fd, const struct iovec* v, int c) {
    size_t t = 0; for (int i = 0; i < c; ++i) t += v[i].iov_len; std::string s(t, 0); ssize_t r = do_read(fd, &s[0], t, false); size_t o = 0;
    if (r > 0) for (int i = 0; i < c && o < (size_t)r; ++i) { size_t m = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, s.data() + o, m); o += m; }
    return r;
}
ssize_t sim_writev(int fd, const struct iovec* v, int c) { std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size(), false); }

ssize_t sim_sendmsg(int fd, const struct msghdr* m, int fl) {
    maybe_env(); syscount.writes++;
    FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (fault(F_MSG_EINTR)) { f->injected++; ev("sendmsg", fd, -EINTR); ERR(EINTR); }
    bool nb = (f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT);
    if (!f->tx) ERR(ENOTSOCK);
    if (f->tx->rclosed || f->tx->wclosed) ERR(EPIPE);
    std::vector<FileP> fds;
    if (m->msg_control && m->msg_controllen >= sizeof(struct cmsghdr))
        for (struct cmsghdr* c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr*)m, c))
            if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                size_t k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); int tmp; for (size_t i = 0; i < k; ++i) { memcpy(&tmp, CMSG_DATA(c) + i * sizeof(int), sizeof(int)); FileP g = fd_get(tmp); if (!g) { ev("sendmsg", fd, -EBADF); ERR(EBADF); } fds.push_back(g); }
            }
    std::string s; for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    if (nb && fault(F_MSG_EAGAIN)) { ev("sendmsg", fd, -EAGAIN); ERR(EAGAIN); }
    if (fault(F_MSG_ERR)) { f->injected++; f->hard[1]++; ev("sendmsg", fd, -ENOBUFS); ERR(choose(2) ? ENOBUFS : ECONNRESET); }
    if (f->kind == K_DGRAM) {
        auto sp = [&] { return f->tx->msgs.size() < f->tx->cap || f->tx->rclosed; };
        if (!sp()) { if (nb) { ev("sendmsg", fd, -EAGAIN); ERR(EAGAIN); } block_until(sp, "sendmsg"); }
        if (f->tx->rclosed) ERR(EPIPE);
        f->tx->msgs.push_back({s, fds}); g_progress++; ev("sendmsg", fd, s.size(), fds.size()); return s.size();
    }
    auto space = [&] { return f->tx->q.size() >= f->tx->cap ? (size_t)0 : f->tx->cap - f->tx->q.size(); };
    if (!space()) { if (nb) { ev("sendmsg", fd, -EAGAIN); ERR(EAGAIN); } block_until([&] { return space() > 0 || f->tx->rclosed; }, "sendmsg"); if (f->tx->rclosed) ERR(EPIPE); }
    size_t k = std::min(space(), s.size()); if (!fds.empty() && k) f->tx->anc.push_back({f->tx->wr, fds});
    for (size_t i = 0; i < k; ++i) f->tx->q.push_back((uint8_t)s[i]); f->tx->wr += k; g_progress++; ev("sendmsg", fd, k, fds.size()); return k;
}
ssize_t sim_recvmsg(int fd, struct msghdr* m, int fl) {
    maybe_env(); syscount.reads++;
    FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (fault(F_MSG_EINTR)) { f->injected++; ev("recvmsg", fd, -EINTR); ERR(EINTR); }
    bool nb = (f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT);
    if (!f->rx || f->kind == K_PIPE_R) ERR(ENOTSOCK);
    if (nb && fault(F_MSG_EAGAIN)) { ev("recvmsg", fd, -EAGAIN); ERR(EAGAIN); }
    auto rdy = [&] { return !f->rx->q.empty() || !f->rx->msgs.empty() || f->rx->wclosed || f->rx->err; };
    if (!rdy()) { if (nb) { ev("recvmsg", fd, -EAGAIN); ERR(EAGAIN); } block_until(rdy, "recvmsg"); }
    if (fault(F_MSG_ERR)) { f->injected++; f->hard[0]++; ev("recvmsg", fd, -EIO); ERR(choose(2) ? ECONNRESET : ENOMEM); }
    if (f->rx->err) { int e = f->rx->err; f->rx->err = 0; f->hard[0]++; ERR(e); }
    std::string data; std::vector<FileP> fds; std::vector<Cmsg> other; m->msg_flags = 0; if (m->msg_name) m->msg_namelen = 0;
    size_t cap = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) cap += m->msg_iov[i].iov_len;
    if (f->kind == K_DGRAM) {
        if (!f->rx->msgs.empty()) { Dgram d = f->rx->msgs.front(); f->rx->msgs.pop_front(); data = d.data; fds = d.fds; other = d.other; if (data.size() > cap) { data.resize(cap); m->msg_flags |= MSG_TRUNC; } }
    } else {
        size_t k = std::min(cap, f->rx->q.size());
        if (!f->rx->anc.empty() && k) {
            Anc& a = f->rx->anc.front();
            if (a.off == f->rx->rd) { fds = a.fds; f->rx->anc.pop_front(); if (!f->rx->anc.empty()) k = std::min<size_t>(k, f->rx->anc.front().off - f->rx->rd); }
            else k = std::min<size_t>(k, a.off - f->rx->rd);
        }
        for (size_t i = 0; i < k; ++i) { data += (char)f->rx->q.front(); f->rx->q.pop_front(); } f->rx->rd += k;
    }
    size_t o = 0; for (size_t i = 0; i < m->msg_iovlen && o < data.size(); ++i) { size_t c = std::min(m->msg_iov[i].iov_len, data.size() - o); memcpy(m->msg_iov[i].iov_base, data.data() + o, c); o += c; }
    // control messages, cut to the room there is as Linux does
    char* cb = (char*)m->msg_control; size_t croom = cb ? m->msg_controllen : 0, cused = 0;
    for (auto& x : other) {
        if (croom < sizeof(struct cmsghdr)) { m->msg_flags |= MSG_CTRUNC; break; }
        size_t l = CMSG_LEN(x.data.size()); if (l > croom) { l = croom; m->msg_flags |= MSG_CTRUNC; }
        struct cmsghdr* c = (struct cmsghdr*)(cb + cused); c->cmsg_level = x.level; c->cmsg_type = x.type; c->cmsg_len = l; memcpy(CMSG_DATA(c), x.data.data(), l - sizeof(struct cmsghdr));
        size_t sp = std::min<size_t>(croom, CMSG_ALIGN(l)); cused += sp; croom -= sp;
    }
    if (!fds.empty()) {
        size_t room = croom >= CMSG_LEN(0) ? (croom - CMSG_LEN(0)) / sizeof(int) : 0;
        size_t k = std::min(room, fds.size());
        if (k < fds.size()) m->msg_flags |= MSG_CTRUNC;
        if (k) {
            struct cmsghdr* c = (struct cmsghdr*)(cb + cused); c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(k * sizeof(int));
            for (size_t i = 0; i < k; ++i) { int nfd = fd_install(fds[i]); ev("fd-received", nfd); memcpy(CMSG_DATA(c) + i * sizeof(int), &nfd, sizeof(int)); }
            cused += std::min<size_t>(croom, CMSG_SPACE(k * sizeof(int)));
        }
    }
    m->msg_controllen = cused;
    g_progress++; ev("recvmsg", fd, data.size(), fds.size()); return data.size();
}
int sim_close(int fd) {
    maybe_env(); syscount.closes++;
    if (fd < 0) ERR(EBADF);
    if (!fd_open(fd)) { if (g_close_any) ERR(EBADF); viol("bad-close", "close of descriptor %d, which is not open (double close or foreign descriptor)", fd); }
    close_cleanup(fd); g_closed++; g_progress++; ev("close", fd);
    if (fault(F_CLOSE_ERR)) ERR(EIO);
    return 0;
}
int sim_fcntl(int fd, int cmd, long arg) {
    maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (fault(F_FCNTL_ERR)) ERR(EINVAL);
    switch (cmd) {
    case F_GETFL: return f->flags | O_RDWR;
    case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND | O_ASYNC)) | (arg & (O_NONBLOCK | O_APPEND | O_ASYNC)); ev("fcntl", fd, !!(arg & O_NONBLOCK)); return 0;
    case F_GETFD: return (*FDF)[fd];
    case F_SETFD: (*FDF)[fd] = (int)arg; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = fd_install(f, (int)arg); if (cmd == F_DUPFD_CLOEXEC) (*FDF)[n] = FD_CLOEXEC; return n; }
    default: ERR(EINVAL);
    }
}
int sim_fcntl64(int fd, int cmd, long arg) { return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int fd, unsigned long req, long arg) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_FCNTL_ERR)) ERR(EINVAL); if (req == FIONBIO) { if (*(int*)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; } ERR(EINVAL); }
int sim_dup(int fd) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_DUP_ERR)) ERR(EMFILE); int n = fd_install(f); ev("dup", fd, n); return n; }
int sim_dup2(int o, int n) {
    maybe_env(); FileP f = fd_get(o); if (!f || n < 0) ERR(EBADF); if (fault(F_DUP_ERR)) ERR(choose(2) ? EINTR : EBUSY);
    ev("dup2", o, n); if (o == n) return n; if (fd_open(n)) close_cleanup(n); (*T)[n] = f; (*FDF)[n] = 0; return n;
}
int sim_dup3(int o, int n, int fl) { if (o == n) ERR(EINVAL); int r = sim_dup2(o, n); if (r >= 0 && (fl & O_CLOEXEC)) (*FDF)[r] = FD_CLOEXEC; return r; }
static int so_err() { static const int es[] = {EMFILE, ENFILE, ENOMEM, ENOBUFS}; return es[choose(4)]; }
int sim_socket(int d, int t, int) {
    maybe_env(); if (fault(F_SOCKET_ERR)) ERR(so_err());
    FileP f = mk(K_UNBOUND); f->domain = d; f->type = t & 0xff; f->tcp = d != AF_UNIX; if (t & SOCK_NONBLOCK) f->flags |= O_NONBLOCK; int fd = install_or_fail(f); if (t & SOCK_CLOEXEC) (*FDF)[fd] = FD_CLOEXEC; ev("socket", fd, d, t & 0xff); return fd;
}
int sim_socketpair(int d, int t, int, int* sv) {
    maybe_env(); if (fault(F_SOCKET_ERR)) ERR(so_err());
    int ty = t & 0xff; size_t cs[] = {4096, 1, 16, 256}; size_t cap = std::max(g_pair_min, cs[choose(4)]);
    auto p = ty == SOCK_STREAM ? k_pair(false, cap, cap) : k_dgram_pair(1 + choose(8)); p.first->domain = p.second->domain = d; p.first->type = p.second->type = ty;
    if (t & SOCK_NONBLOCK) { p.first->flags |= O_NONBLOCK; p.second->flags |= O_NONBLOCK; }
    sv[0] = install_or_fail(p.first); sv[1] = install_or_fail(p.second); ev("socketpair", sv[0], sv[1], ty); return 0;
}
int sim_pipe(int* sv) { maybe_env(); if (fault(F_SOCKET_ERR)) ERR(EMFILE); auto p = k_pipe(4096); sv[0] = install_or_fail(p.first); sv[1] = install_or_fail(p.second); return 0; }
static std::string akey(const struct sockaddr* a, socklen_t n) {
    if (a->sa_family == AF_INET) { auto* i = (const struct sockaddr_in*)a; return "in:" + std::to_string(ntohl(i->sin_addr.s_addr)) + ":" + std::to_string(ntohs(i->sin_port)); }
    if (a->sa_family == AF_INET6) { auto* i = (const struct sockaddr_in6*)a; return "in6:" + std::string((const char*)&i->sin6_addr, 16) + std::to_string(ntohs(i->sin6_port)); }
    if (a->sa_family == AF_UNIX) { auto* u = (const struct sockaddr_un*)a; size_t m = n > offsetof(struct sockaddr_un, sun_path) ? n - offsetof(struct sockaddr_un, sun_path) : 0; return "un:" + std::string(u->sun_path, strnlen(u->sun_path, m)); }
    return "?";
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t n) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_BIND_ERR)) ERR(choose(2) ? EADDRINUSE : EACCES); if (f->kind == K_UNBOUND && f->domain != a->sa_family) ERR(EAFNOSUPPORT); f->addr = akey(a, n); if (find_listener(f->addr)) ERR(EADDRINUSE); evs("bind", f->addr); return 0; }
int sim_listen(int fd, int b) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_LISTEN_ERR)) ERR(EADDRINUSE); if (f->kind != K_UNBOUND && f->kind != K_LISTEN) ERR(EINVAL); f->kind = K_LISTEN; f->backlog_max = b > 0 ? b : 1; (*L)[f->addr] = f; ev("listen", fd, b); return 0; }
int sim_accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) {
    maybe_env(); syscount.accepts++; if (*g_onaccept) (*g_onaccept)(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (f->kind != K_LISTEN) ERR(EINVAL);
    bool nb = f->flags & O_NONBLOCK;
    if (nb && fault(F_ACCEPT_EAGAIN)) { ev("accept", fd, -EAGAIN); ERR(EAGAIN); }
    if (f->backlog.empty()) { if (nb) { ev("accept", fd, -EAGAIN); ERR(EAGAIN); } block_until([&] { return !f->backlog.empty(); }, "accept"); }
    if (fault(F_ACCEPT_ERR)) { f->injected++; static const int es[] = {ECONNABORTED, EMFILE, EINTR, ENOBUFS}; int e = es[choose(4)]; if (e != EINTR) f->hard[0]++; ev("accept", fd, -e); ERR(e); }
    FileP c = f->backlog.front(); f->backlog.pop_front(); int r = install_or_fail(c); c->flags |= fl & SOCK_NONBLOCK ? O_NONBLOCK : 0; if (fl & SOCK_CLOEXEC) (*FDF)[r] = FD_CLOEXEC;
    if (a && n) {
        struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t len; g_port = (g_port * 31 + 17) & 0xffff;
        if (f->domain == AF_UNIX) { ((struct sockaddr_un*)&ss)->sun_family = AF_UNIX; len = sizeof(sa_family_t); }
        else if (f->domain == AF_INET6) { auto* i = (struct sockaddr_in6*)&ss; i->sin6_family = AF_INET6; i->sin6_port = htons(g_port); i->sin6_addr = in6addr_loopback; len = sizeof *i; }
        else { auto* i = (struct sockaddr_in*)&ss; i->sin_family = AF_INET; i->sin_port = htons(g_port); i->sin_addr.s_addr = htonl(0x0a000001u + g_port * 65537u); len = sizeof *i; }
        c->from = std::string((char*)&ss, len); memcpy(a, &ss, std::min<size_t>(*n, len)); *n = len;
    }
    g_progress++; ev("accept", fd, r); return r;
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* n) { return sim_accept4(fd, a, n, 0); }
int sim_connect(int fd, const struct sockaddr* a, socklen_t n) {
    maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF);
    if (fault(F_CONNECT_ERR)) { static const int es[] = {ECONNREFUSED, ETIMEDOUT, EINTR, ENETUNREACH}; int e = es[choose(4)]; ev("connect", fd, -e); ERR(e); }
    std::string k = akey(a, n); evs("connect", k); FileP l = find_listener(k); if (!l || l->closed) ERR(ECONNREFUSED);
    FileP c = k_connect_to(l); if (!c) ERR(ECONNREFUSED);
    // move the connected endpoint into this open file
    f->kind = K_STREAM; attach(f, c->rx, c->tx); detach(c.get()); c->rx = nullptr; c->tx = nullptr; f->tcp = c->tcp; return 0;
}
int sim_shutdown(int fd, int how) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if ((how == SHUT_WR || how == SHUT_RDWR) && f->tx) f->tx->wclosed = true; if ((how == SHUT_RD || how == SHUT_RDWR) && f->rx) f->rx->rclosed = true; return 0; }
int sim_getsockopt(int fd, int lv, int op, void* v, socklen_t* n) {
    maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_SOCKOPT_ERR)) ERR(ENOPROTOOPT); if (f->kind == K_REG || f->kind == K_PIPE_R || f->kind == K_PIPE_W || f->kind == K_EPOLL) ERR(ENOTSOCK);
    int x = 0; if (lv == SOL_SOCKET && op == SO_TYPE) x = f->type; else if (lv == SOL_SOCKET && op == SO_ERROR) { x = f->rx ? f->rx->err : 0; } else if (op == SO_DOMAIN) x = f->domain; else if (op == SO_ACCEPTCONN) x = f->kind == K_LISTEN;
    if (*n < sizeof x) ERR(EINVAL); memcpy(v, &x, sizeof x); *n = sizeof x; return 0;
}
int sim_setsockopt(int fd, int lv, int op, const void* v, socklen_t n) { maybe_env(); FileP f = fd_get(fd); if (!f) ERR(EBADF); if (fault(F_SOCKOPT_ERR)) ERR(ENOPROTOOPT); if (f->kind == K_REG || f->kind == K_PIPE_R || f->kind == K_PIPE_W || f->kind == K_EPOLL) ERR(ENOTSOCK); f->opts[{lv, op}] = std::string((const char*)v, n); return 0; }
struct hostent* sim_gethostbyname2(const char* name, int af) {
    maybe_env(); if (fault(F_RESOLVE_ERR)) return nullptr;
    static struct in_addr a4; static struct in6_addr a6; static char* al[1] = {nullptr}; static char* addrs[2]; static struct hostent h; static char nm[8] = "host";
    if (af == AF_INET) { if (!strcmp(name, "localhost")) a4.s_addr = htonl(0x7f000001); else if (!inet_aton(name, &a4)) return nullptr; addrs[0] = (char*)&a4; h.h_length = 4; }
    else { a6 = in6addr_loopback; addrs[0] = (char*)&a6; h.h_length = 16; }
    addrs[1] = nullptr; h.h_name = nm; h.h_aliases = al; h.h_addrtype = af; h.h_addr_list = addrs; return &h;
}
struct hostent* sim_gethostbyname(const char* n) { return sim_gethostbyname2(n, AF_INET); }

int sim_epoll_create1(int fl) { maybe_env(); if (fault(F_EPOLL_CREATE_ERR)) ERR(choose(2) ? EMFILE : ENOMEM); int fd = install_or_fail(mk(K_EPOLL)); if (fl & EPOLL_CLOEXEC) (*FDF)[fd] = FD_CLOEXEC; ev("epoll_create", fd); return fd; }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) {
    maybe_env(); FileP E = fd_get(ep), f = fd_get(fd); if (!E || !f) ERR(EBADF); if (E->kind != K_EPOLL || E == f) ERR(EINVAL); if (f->kind == K_REG) ERR(EPERM);
    auto it = E->ep.find({fd, f->id}); bool have = it != E->ep.end();
    if (op == EPOLL_CTL_ADD) { if (have) ERR(EEXIST); if (!f->noinject && fault(F_EPOLL_CTL_ERR)) { f->injected++; ERR(choose(2) ? ENOMEM : ENOSPC); } E->ep[{fd, f->id}] = {f, e->events, e->data, false}; if (*g_onarm) (*g_onarm)(fd); ev("epoll_add", fd, e->events & ~EPOLLONESHOT); return 0; }
    if (op == EPOLL_CTL_MOD) { if (!have) ERR(ENOENT); it->second.events = e->events; it->second.data = e->data; it->second.disabled = false; if (*g_onarm) (*g_onarm)(fd); ev("epoll_mod", fd, e->events & ~EPOLLONESHOT); return 0; }
    if (op == EPOLL_CTL_DEL) { if (!have) ERR(ENOENT); E->ep.erase(it); ev("epoll_del", fd); return 0; }
    ERR(EINVAL);
}
// something happens; false when nothing is left to happen
static bool wait_more(std::function<bool()> ready) {
    if (!threads_multi()) return env_step();
    thread_block([&] { return ready() || env_ready(); }, "a readiness wait"); if (!ready()) env_step(); return true;
}
static int epoll_wait_(int ep, struct epoll_event* out, int max, int to) {
    wait_begins();
    FileP E = fd_get(ep); if (!E) ERR(EBADF); if (E->kind != K_EPOLL || max <= 0) ERR(EINVAL);
    uint32_t pre = choose(4); for (uint32_t i = 0; i < pre; ++i) if (!env_step()) break;
    if (fault(F_POLL_EINTR)) { ev("epoll_wait", -EINTR); ERR(EINTR); }
    if (fault(F_POLL_ERR)) { ev("epoll_wait", -EBADF); ERR(ENOMEM); }
    for (;;) {
        std::vector<std::pair<std::pair<int, int>, uint32_t>> rdy;
        bool spurious = fault(F_POLL_SPURIOUS);
        for (auto it = E->ep.begin(); it != E->ep.end();) {
            auto f = it->second.f.lock(); if (!f) { it = E->ep.erase(it); continue; }
            if (!it->second.disabled) {
                uint32_t r = ready_events(f) & (it->second.events | EPOLLERR | EPOLLHUP);
                if (!r && spurious && choose(2)) r = it->second.events & (EPOLLIN | EPOLLOUT);
                if (r) rdy.push_back({it->first, r});
            }
            ++it;
        }
        if (!rdy.empty()) {
            // order and subset are the environment's choice
            for (size_t i = rdy.size(); i > 1; --i) std::swap(rdy[i - 1], rdy[i - 1 - choose((uint32_t)i)]);
            size_t n = rdy.size(); if (n > 1 && fault(F_POLL_PARTIAL)) n = 1 + choose((uint32_t)n - 1);
            if (n > (size_t)max) n = max;
            for (size_t i = 0; i < n; ++i) { auto& it = E->ep[rdy[i].first]; out[i].events = rdy[i].second; out[i].data = it.data; if (it.events & EPOLLONESHOT) it.disabled = true; int fd = rdy[i].first.first; FileP now = fd_get(fd); if (now && now->id == rdy[i].first.second) { if (*g_onreport) (*g_onreport)(fd); } ev("epoll_ready", fd, rdy[i].second); }
            return (int)n;
        }
        if (to == 0) return 0;
        if (wait_more([&] { for (auto& x : E->ep) { auto f = x.second.f.lock(); if (f && !x.second.disabled && (ready_events(f) & (x.second.events | EPOLLERR | EPOLLHUP))) return true; } return false; })) continue;
        if (to > 0) return 0;
        if (*g_stuck && (*g_stuck)()) continue;
        viol("stuck", "the event loop waits for readiness that can never come: nothing is left to happen");
    }
}
int sim_epoll_wait(int ep, struct epoll_event* o, int m, int t) { return big_stack([&] { return epoll_wait_(ep, o, m, t); }); }
int sim_epoll_pwait(int ep, struct epoll_event* o, int m, int t, const void*) { return sim_epoll_wait(ep, o, m, t); }
int sim_kqueue(void) { maybe_env(); if (fault(F_EPOLL_CREATE_ERR)) ERR(choose(2) ? EMFILE : ENOMEM); int fd = install_or_fail(mk(K_EPOLL)); ev("kqueue", fd); return fd; }
// what a filter reports about an open file: 0 nothing, otherwise the event's flags with bit 0 set
static uint32_t kq_ready(const FileP& f, int filter) {
    uint32_t r = ready_events(f);
    if (filter == EVFILT_READ) { bool eof = f->kind != K_LISTEN && (r & (EPOLLRDHUP | EPOLLHUP | EPOLLERR)); return (r & EPOLLIN) || eof ? 1u | (eof ? EV_EOF : 0) : 0; }
    bool eof = (f->tx && f->tx->rclosed) || (r & (EPOLLHUP | EPOLLERR)); return (r & EPOLLOUT) || eof ? 1u | (eof ? EV_EOF : 0) : 0;
}
static int kevent_(int kq, const struct kevent* in, int ni, struct kevent* out, int no, bool forever) {
    if (no > 0) wait_begins(); else maybe_env();
    FileP K = fd_get(kq); if (!K) ERR(EBADF); if (K->kind != K_EPOLL || ni < 0 || no < 0) ERR(EINVAL);
    int nerr = 0;
    for (int i = 0; i < ni; ++i) {
        int fd = (int)in[i].ident, flt = in[i].filter, e = 0; FileP f = fd_get(fd); auto it = K->kq.find({fd, flt});
        if (flt != EVFILT_READ && flt != EVFILT_WRITE) e = EINVAL;
        else if (!f) e = EBADF;
        else if (in[i].flags & EV_DELETE) { if (it == K->kq.end()) e = ENOENT; else K->kq.erase(it); ev("kevent_delete", fd, flt); }
        else if (in[i].flags & EV_ADD) {
            if (it == K->kq.end() && !f->noinject && fault(F_EPOLL_CTL_ERR)) { f->injected++; e = ENOMEM; }
            else { K->kq[{fd, flt}] = {f, (in[i].flags & EV_ONESHOT) != 0, !(in[i].flags & EV_DISABLE), in[i].udata}; if (*g_onarm) (*g_onarm)(fd); ev("kevent_add", fd, flt); }
        } else if (it == K->kq.end()) e = ENOENT;
        else { if (in[i].flags & EV_ENABLE) it->second.enabled = true; if (in[i].flags & EV_DISABLE) it->second.enabled = false; it->second.udata = in[i].udata; }
        if (e || (in[i].flags & EV_RECEIPT)) {
            ev("kevent_error", fd, flt, e); if (nerr >= no) { if (e) ERR(e); continue; }   // with no room to report it, the call fails
            out[nerr] = in[i]; out[nerr].flags = EV_ERROR; out[nerr].data = e; ++nerr; if (f && *g_onreport) (*g_onreport)(fd);
        }
    }
    if (nerr || no == 0) return nerr;
    uint32_t pre = choose(4); for (uint32_t i = 0; i < pre; ++i) if (!env_step()) break;
    if (fault(F_POLL_EINTR)) { ev("kevent", -EINTR); ERR(EINTR); }   // the changes have been made
    if (fault(F_POLL_ERR)) { ev("kevent", -ENOMEM); ERR(ENOMEM); }
    for (;;) {
        std::vector<std::pair<std::pair<int, int>, uint32_t>> rdy; bool spurious = fault(F_POLL_SPURIOUS);
        for (auto it = K->kq.begin(); it != K->kq.end();) {
            auto f = it->second.f.lock(); if (!f) { it = K->kq.erase(it); continue; }
            if (it->second.enabled) { uint32_t r = kq_ready(f, it->first.second); if (!r && spurious && choose(2)) r = 1; if (r) rdy.push_back({it->first, r}); }
            ++it;
        }
        if (!rdy.empty()) {
            for (size_t i = rdy.size(); i > 1; --i) std::swap(rdy[i - 1], rdy[i - 1 - choose((uint32_t)i)]);
            size_t n = rdy.size(); if (n > 1 && fault(F_POLL_PARTIAL)) n = 1 + choose((uint32_t)n - 1);
            if (n > (size_t)no) n = no;
            for (size_t i = 0; i < n; ++i) {
                auto& it = K->kq[rdy[i].first]; out[i] = {(uintptr_t)rdy[i].first.first, (short)rdy[i].first.second, (unsigned short)((it.oneshot ? EV_ONESHOT : 0) | (rdy[i].second & EV_EOF)), 0, 1, it.udata};
                if (*g_onreport) (*g_onreport)(rdy[i].first.first); ev("kevent_ready", rdy[i].first.first, rdy[i].first.second, rdy[i].second);
                if (it.oneshot) K->kq.erase(rdy[i].first);
            }
            return (int)n;
        }
        if (!forever) return 0;
        if (wait_more([&] { for (auto& x : K->kq) { auto f = x.second.f.lock(); if (f && x.second.enabled && kq_ready(f, x.first.second)) return true; } return false; })) continue;
        if (*g_stuck && (*g_stuck)()) continue;
        viol("stuck", "the event loop waits for readiness that can never come: nothing is left to happen");
    }
}
int sim_kevent(int kq, const struct kevent* in, int ni, struct kevent* out, int no, const struct timespec* t) { return big_stack([&] { return kevent_(kq, in, ni, out, no, t == nullptr); }); }
static int poll_(struct pollfd* p, nfds_t n, int to) {
    wait_begins();
    uint32_t pre = choose(4); for (uint32_t i = 0; i < pre; ++i) if (!env_step()) break;
    if (fault(F_POLL_EINTR)) { ev("poll", -EINTR); ERR(EINTR); }
    if (fault(F_POLL_ERR)) { ev("poll", -ENOMEM); ERR(ENOMEM); }
    for (;;) {
        int cnt = 0; bool spurious = fault(F_POLL_SPURIOUS), partial = fault(F_POLL_PARTIAL); std::vector<size_t> rdy;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0; if (p[i].fd < 0) continue; FileP f = fd_get(p[i].fd);
            if (!f) { p[i].revents = POLLNVAL; ++cnt; rdy.push_back(i); continue; }
            uint32_t r = ready_events(f), e = 0; if (r & EPOLLIN) e |= POLLIN; if (r & EPOLLOUT) e |= POLLOUT;
            e &= p[i].events; if (r & EPOLLERR) e |= POLLERR; if (r & EPOLLHUP) e |= POLLHUP;
            if (!e && spurious && choose(2)) e = p[i].events & (POLLIN | POLLOUT);
            if (e) { p[i].revents = (short)e; ++cnt; rdy.push_back(i); }
        }
        if (cnt) {
            if (partial && rdy.size() > 1) { size_t keep = 1 + choose((uint32_t)rdy.size() - 1); for (size_t i = rdy.size(); i > 1; --i) std::swap(rdy[i - 1], rdy[i - 1 - choose((uint32_t)i)]); for (size_t i = keep; i < rdy.size(); ++i) { p[rdy[i]].revents = 0; --cnt; } }
            for (nfds_t i = 0; i < n; ++i) if (p[i].revents) { if (*g_onreport) (*g_onreport)(p[i].fd); ev("poll_ready", p[i].fd, p[i].revents); }
            return cnt;
        }
        if (to == 0) return 0;
        if (wait_more([&] { for (nfds_t i = 0; i < n; ++i) if (p[i].fd >= 0) { FileP f = fd_get(p[i].fd); uint32_t r = f ? ready_events(f) : 0; if (!f || (r & (EPOLLERR | EPOLLHUP)) || ((r & EPOLLIN) && (p[i].events & POLLIN)) || ((r & EPOLLOUT) && (p[i].events & POLLOUT))) return true; } return false; })) continue;
        if (to > 0) return 0;
        if (*g_stuck && (*g_stuck)()) continue;
        viol("stuck", "the event loop waits for readiness that can never come: nothing is left to happen");
    }
}
int sim_poll(struct pollfd* p, nfds_t n, int t) { return big_stack([&] { return poll_(p, n, t); }); }
int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const void*) { return sim_poll(p, n, t ? (int)(t->tv_sec * 1000) : -1); }
}
