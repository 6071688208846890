// E02: the example echo server, as it is.  Its main function runs in the first
// simulated thread, its signal thread in another; clients are simulated peers,
// and signals and the passing of time are events of the schedule.
#include "psockkit.hpp"
#include "threads.hpp"
#include <cerrno>
#include <csignal>
#include <unistd.h>
extern "C" int sim_echo_server_main(int, char**) __attribute__((weak));

namespace {
enum How { STREAM, LOCKSTEP, HALFCLOSE, CLOSES, RESETS, STALLS };
struct Peer { int id; How how; std::string out, back; size_t pos = 0, stop = 0; FileP f; bool good, refused = false, acted = false, ended = false, late = false; uint64_t mem = 0; };
struct Shop {
    std::vector<std::unique_ptr<Peer>> peers; int pending = 0, seen = 0, sig = 0; bool sleeping = false, wake = false, told = false, listening = false, returned = false, starved = false; uint64_t wake_at = 0, accepted = 0; bool early = false; uint64_t fuel = 0; int64_t nth = -1;
    uint64_t mem() { return fault_fired(F_ALLOC) + fault_fired(F_MMAP); }
};
Shop* Z;
FileP listener() { return find_listener("in:0:9001"); }
bool done(Peer* p) { return p->refused || p->ended || (p->good ? p->f && p->back.size() == p->out.size() && (p->how != HALFCLOSE || p->acted) : p->acted); }
bool all_done() { for (auto& p : Z->peers) if (!p->late && !done(p.get())) return false; return true; }
}
extern "C" {
int sim_printf(const char* f, ...) {
    if (!Z) return 0; bool acc = !strncmp(f, "Accepted connection", 19); if (acc) Z->accepted++; ev("print", (int64_t)(f[0] * 256 + f[1])); if (acc) { if (Z->nth >= 0) memory_faults(true), faults_nth(Z->nth, false), Z->nth = -1; else memory_faults(true, 1); } return 1;
}
int sim_puts(const char* f) { if (Z) { ev("print", (int64_t)(f[0] * 256 + f[1])); memory_faults(false); if (!strncmp(f, "Listening", 9)) Z->listening = true; } return 1; }
int sim_putchar(int c) { return c; }
int sim_fprintf(FILE*, const char*, ...) { return 1; }
pid_t sim_getpid(void) { return 4711; }
int sim_kill(pid_t p, int s) { CHECK(p == 4711, "kill", "the server sends a signal to process %d", (int)p); ev("kill", s); if (Z) Z->pending++, Z->sig = s; return 0; }
int sim_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int sim_sigprocmask(int, const sigset_t*, sigset_t*) { return 0; }
int sim_sigwait(const sigset_t*, int* s) { thread_block([] { return Z->pending > Z->seen; }, "sigwait"); Z->seen++; Z->told = true; *s = Z->sig; ev("signal-taken", Z->sig); return 0; }
unsigned sim_sleep(unsigned n) { Z->sleeping = true; Z->wake = false; Z->wake_at = steps() + choose(2000); ev("sleep", n); thread_block([] { return Z->wake || steps() >= Z->wake_at; }, "sleep"); Z->sleeping = false; ev("awake"); return 0; }
int sim_usleep(unsigned) { return 0; }
int sim_nanosleep(const void*, void*) { return 0; }
void sim_exit(int s) { viol("exit", "the server ended its process with status %d", s); }
void (*sim_signal(int, void (*h)(int)))(int) { return h; }
int sim_sigaction(int, const void*, void*) { return 0; }
}
namespace {
void client(int id, bool late) {
    Z->peers.push_back(std::make_unique<Peer>()); Peer* p = Z->peers.back().get(); p->id = id; p->late = late; p->how = choose(3) ? (How)choose(3) : (How)choose(6); p->good = p->how <= HALFCLOSE;
    for (uint32_t n = choose(5) ? choose(60) : choose(6000); n; --n) p->out += (char)mix64(id * 100000 + n); p->stop = p->good ? p->out.size() : choose((uint32_t)p->out.size() + 1); size_t rc = choose(3) ? 100000 : 1 + choose(40);
    auto lim = [p] { return p->how == LOCKSTEP ? std::min(p->stop, p->back.size() + 1 + p->out.size() / 7) : p->stop; };
    actor_add("client", [p, lim] {
        if (p->ended || p->refused || Z->returned) return false; if (!p->f) { FileP l = listener(); return l && l->backlog.size() < l->backlog_max && (!p->late || Z->told); }
        if (peer_avail(p->f) || peer_eof(p->f) || (p->pos < lim() && peer_space(p->f))) return true;
        if (p->acted || p->pos < p->stop) return false; return p->how >= CLOSES ? true : p->how == HALFCLOSE ? true : false; },
    [p, lim, rc] {
        if (!p->f) { p->f = k_connect_to(listener()); p->mem = Z->mem(); ev("peer-connect", p->id, !p->f); return; }
        if (peer_eof(p->f)) {
            bool whole = p->back.size() == p->out.size(); p->ended = true; ev("peer-sees-end", p->id, p->back.size()); if (!whole) p->refused = true;
            CHECK(!p->good || Z->told || Z->mem() > p->mem || (Z->mem() > 0 && !Z->listening) || (whole && p->how == HALFCLOSE && p->acted), "dropped-client", "client %d, which did nothing wrong, was disconnected after %zu of %zu bytes had been returned", p->id, p->back.size(), p->out.size());
            CHECK(whole || Z->told || !p->good || p->back.empty(), "dropped-client", "client %d was accepted, and disconnected in the middle", p->id); return; }
        size_t av = peer_avail(p->f), sp = p->pos < lim() ? std::min(peer_space(p->f), lim() - p->pos) : 0;
        if (av && (!sp || choose(2))) { if (p->how == STALLS && p->pos >= p->stop) { p->acted = p->ended = true; fault_note(F_PEER_STALL); return; } size_t o = p->back.size(); p->back += peer_read(p->f, std::min(rc, chunk_gen(av))); CHECK(p->back.size() <= p->pos && !memcmp(p->back.data() + o, p->out.data() + o, p->back.size() - o), "wrong-echo", "client %d got back other bytes than it sent", p->id); return; }
        if (sp) { p->pos += peer_write(p->f, p->out.data() + p->pos, chunk_gen(sp)); return; }
        p->acted = true; switch (p->how) { case HALFCLOSE: peer_shutdown_write(p->f); break; case CLOSES: fault_note(F_PEER_CLOSE); p->ended = true; peer_close(p->f); break; case RESETS: fault_note(F_PEER_RESET); p->ended = true; peer_reset(p->f); break; default: p->ended = true; } });
}
void shop_open(Shop& w) { CHECK(sim_echo_server_main, "harness", "the example server is not there"); Z = &w; set_step_limit(2000000); }
void shop_run(Shop& w, int n) {
    on_accept([] { memory_faults(false); }); on_wait([] { memory_faults(false); });
    actor_add("signals", [] { return !Z->returned && Z->pending == 0 && (Z->early || (Z->listening ? all_done() : Z->mem() > 0 && wait_calls() > 0)); }, [] { if (Z->early && Z->fuel) { Z->fuel--; return; } Z->pending++; Z->sig = 15; fault_note(F_OOB); ev("signal"); });
    on_deadlock([] { if (Z->sleeping && !Z->wake) { Z->wake = true; return true; } if (env_step()) return true; return false; });
    int r = sim_echo_server_main(1, nullptr); ev("returned", r); w.returned = true;
    CHECK(r == 0 || w.mem() > 0, "wrong-status", "the server's main function returned 0x%x", r); CHECK(r != 0 || w.told, "wrong-status", "the server ended without having been asked to"); CHECK(threads_alive() == 0, "thread-left", "the server ended and its signal thread still runs");
    mark_state(w.accepted * 64 + w.told * 32 + all_done() * 16 + n);
    Z = nullptr;
}
SCENARIO(E02, echo_server, 10, PLAT_BOTH) {
    Shop w; shop_open(w);
    faults_config({F_ALLOC, F_MMAP, F_READ_SHORT, F_WRITE_SHORT, F_READ_EAGAIN, F_WRITE_EAGAIN, F_ACCEPT_EAGAIN, F_POLL_EINTR, F_POLL_SPURIOUS, F_POLL_PARTIAL, F_PEER_STALL}, 300);
    socketpair_room(64); env_rate(choose(4) * 100); memory_faults(choose(4) == 3);   // memory runs out while the server starts, or later for the socket of a client it takes on; when it runs out further on, see the known findings
    uint32_t n = choose(7); for (uint32_t i = 0; i < n; ++i) client((int)i, i > 0 && choose(5) == 4);
    w.early = choose(2); w.fuel = choose(400); shop_run(w, (int)n);
}
// known findings: memory runs out while a client is taken on, after its socket was made
bool dispatch_fails(int64_t nth) { Shop w; shop_open(w); w.nth = nth; client(0, false); Peer* p = w.peers[0].get(); p->out = "hello"; p->stop = 5; shop_run(w, 1); return false; }
RegProbe probe_twice("E02", "dispatch-closes-twice", [](std::string&) { return dispatch_fails(1); });
RegProbe probe_null("E02", "dispatch-releases-null", [](std::string&) { return dispatch_fails(2); });
}
