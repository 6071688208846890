// Deterministic simulation core: choice stream, event log, violations, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>

namespace sim {

// ---- choice stream ------------------------------------------------------
// Every nondeterministic decision of a run is one call to choose().  While
// exploring, values come from a PRNG seeded with the run seed and are
// recorded; while replaying they come from the recorded trace (mod n, and 0
// once it is exhausted).  0 is always the simplest / fault-free decision.
uint32_t choose(uint32_t n);
inline bool chance(uint32_t permille) {
    if (permille == 0) return false;
    return choose(1000) >= 1000 - (permille > 1000 ? 1000 : permille);
}
inline uint32_t between(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t weighted(std::initializer_list<uint32_t> w);
// stable data stream derived from the run seed only (not recorded choices).
uint64_t mix64(uint64_t x);

// ---- event log ----------------------------------------------------------
void ev(const char* name, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);
void evs(const char* name, const std::string& s);
uint64_t ev_hash();
// abstract state fingerprint; counted as distinct states over all runs
void mark_state(uint64_t fp);

// ---- violations ---------------------------------------------------------
[[noreturn]] void viol(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) ::sim::viol(cls, __VA_ARGS__); } while (0)

// counts one simulated step, ends the run with a violation when too many
void step();
uint64_t steps();
void set_step_limit(uint64_t n);

// ---- faults -------------------------------------------------------------
#define SIM_FAULTS(X) \
    X(ALLOC, "allocation failure") \
    X(MMAP, "stack mapping failure") \
    X(MUNMAP, "stack unmapping failure") \
    X(RELEASE, "user resource release failure") \
    X(RECLAIM, "memory release reported as failed") \
    X(READ_SHORT, "short read") \
    X(READ_EINTR, "read interrupted by signal") \
    X(READ_EAGAIN, "spurious would-block on read") \
    X(READ_ERR, "hard read error") \
    X(WRITE_SHORT, "short write") \
    X(WRITE_EINTR, "write interrupted by signal") \
    X(WRITE_EAGAIN, "spurious would-block on write") \
    X(WRITE_ERR, "hard write error") \
    X(MSG_EINTR, "message I/O interrupted by signal") \
    X(MSG_EAGAIN, "spurious would-block on message I/O") \
    X(MSG_ERR, "hard message I/O error") \
    X(ACCEPT_ERR, "accept failure") \
    X(ACCEPT_EAGAIN, "spurious would-block on accept") \
    X(SOCKET_ERR, "socket/socketpair creation failure") \
    X(BIND_ERR, "bind failure") \
    X(LISTEN_ERR, "listen failure") \
    X(CONNECT_ERR, "connect failure") \
    X(FCNTL_ERR, "fcntl failure") \
    X(SOCKOPT_ERR, "socket option failure") \
    X(DUP_ERR, "descriptor duplication failure") \
    X(CLOSE_ERR, "close reports failure") \
    X(RESOLVE_ERR, "host lookup failure") \
    X(POLL_EINTR, "readiness wait interrupted by signal") \
    X(POLL_SPURIOUS, "spurious readiness") \
    X(POLL_PARTIAL, "partial/reordered readiness report") \
    X(POLL_ERR, "readiness wait failure") \
    X(EPOLL_CREATE_ERR, "readiness queue creation failure") \
    X(EPOLL_CTL_ERR, "readiness registration failure") \
    X(PEER_RESET, "peer reset") \
    X(PEER_CLOSE, "peer closed early") \
    X(PEER_STALL, "peer stalled") \
    X(TRUNCATE, "truncated stream") \
    X(CORRUPT, "corrupted stream byte") \
    X(USER_IO_ERR, "user I/O callback failure") \
    X(CALLBACK_ERR, "user callback failure") \
    X(OOB, "out-of-band quiesce/terminate request") \
    X(THREAD_CREATE_ERR, "thread creation failure") \
    X(THREAD_ATTR_ERR, "thread attribute failure") \
    X(SYNC_INIT_ERR, "mutex/condition creation failure") \
    X(SYNC_OP_ERR, "mutex/condition operation failure") \
    X(SPURIOUS_WAKE, "spurious condition wakeup") \
    X(REALLOC, "failing reallocation") \
    X(TABLE, "overwritten function table pointer")
enum Fault {
#define X(n, d) F_##n,
    SIM_FAULTS(X)
#undef X
    F_COUNT
};
extern const char* fault_names[F_COUNT];
// swarm configuration: which of the kinds given are enabled, and how often.
void faults_config(std::initializer_list<Fault> kinds, uint32_t fault_free_permille = 250);
void faults_disable();          // stop injecting (enter the fault-free phase)
void faults_enable();
bool faults_on();
void memory_faults(bool on, int64_t only = -1);   // whether allocations and mappings may fail (set by faults_config); only: just the next so many
bool fault(Fault f);            // true: inject now (counted)
uint64_t faults_fired();        // in this run
uint64_t fault_fired(Fault f);  // in this run
void fault_note(Fault f);       // count a fault decided elsewhere
void faults_nth(int64_t n, bool onwards);   // fail the n-th allocation or mapping from now (n < 0: stop)
void fault_force_rate(Fault f, uint32_t permille);
uint64_t thread_faults();       // faults that hit the calling simulated thread
struct ThreadNoFaults { ThreadNoFaults(); ~ThreadNoFaults(); };   // none for the calling simulated thread

// a critical section in which no allocation fault may fire (harness set-up)
struct NoFaults { bool was; NoFaults() { was = faults_on(); faults_disable(); } ~NoFaults() { if (was) faults_enable(); } };

// ---- memory -------------------------------------------------------------
// live library allocations in this run
void alloc_owner(int o);
size_t live_blocks();
bool block_live(const void* p);
size_t block_size(const void* p);
std::string live_summary();
uint64_t alloc_count();
size_t live_stacks();
bool stack_region(const void* p, uintptr_t& lo, size_t& n);  // fiber stack holding p
void* user_alloc(size_t n);     // tracked allocation that never fails
void user_free(void* p);
int64_t block_seq(const void* p);  // deterministic id of a live block, or -1

// ---- kernel ------------------------------------------------------------
void kernel_reset();
void threads_reset();
void memory_reset();

// ---- scenarios ----------------------------------------------------------
struct Scenario { const char* prop; const char* name; void (*fn)(); uint32_t weight; int plat; };
enum { PLAT_ANY = 0, PLAT_BOTH = 1 };
struct Reg { Reg(const char* prop, const char* name, void (*fn)(), uint32_t weight = 10, int plat = PLAT_ANY); };
std::vector<Scenario>& scenarios();
#define SCENARIO(prop, name, ...) \
    static void name(); \
    static ::sim::Reg reg_##name##prop(#prop, #name, name, ##__VA_ARGS__); \
    static void name()
#define ALSO(prop, name, ...) static ::sim::Reg reg2_##name##prop(#prop, #name, name, ##__VA_ARGS__)

// known findings: scripted histories kept out of the random workloads
struct Probe { const char* prop; const char* id; bool (*still_fails)(std::string& what); };
std::vector<Probe>& probes();
struct RegProbe { RegProbe(const char* prop, const char* id, bool (*fn)(std::string&)); };

bool verbose();
extern bool g_probe_mode;
struct ProbeFail { };
bool other_back_end();

template <class T> T& pick(std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }

} // namespace sim
