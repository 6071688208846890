#include "core.hpp"
#include <link.h>
#include "threads.hpp"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstdlib>
#include <ctime>
#include <atomic>
#include <unordered_set>
#include <algorithm>
#include <cerrno>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:handle_segv=1:"
           "handle_sigbus=1:handle_sigill=1:handle_sigfpe=1:allow_user_segv_handler=0:use_sigaltstack=1:"
           "detect_stack_use_after_return=0:symbolize=0:print_legend=0:print_full_thread_history=0:"
           "allocator_may_return_null=1:detect_odr_violation=0:alloc_dealloc_mismatch=0:"
           "check_initialization_order=0:malloc_context_size=0:quarantine_size_mb=1:"
           "fast_unwind_on_fatal=1:print_stats=0:print_module_map=0:intercept_tls_get_addr=0";
}

namespace sim {

static const uint32_t MAX_TRACE = 1u << 22;
static const uint32_t MAX_STATES = 1u << 14;

enum SlotState { S_IDLE = 0, S_RUNNING = 1, S_DONE = 2, S_VIOL = 3 };
struct Slot {
    volatile int state;
    uint64_t seed;
    uint64_t scen;
    uint64_t hash;
    uint64_t nsteps;
    char cls[128];
    char msg[1024];
    uint32_t ntrace;
    uint32_t trace[MAX_TRACE];
};
struct Shared {
    std::atomic<uint64_t> runs, steps, choices, faulty_runs, nfaults, maxchoices, maxsteps;
    std::atomic<uint64_t> fired[F_COUNT];
    std::atomic<uint64_t> armed[F_COUNT];   // runs with the kind enabled
    std::atomic<uint64_t> scen_runs[512];
    std::atomic<uint64_t> nhash;
    std::atomic<uint64_t> nstate;
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
};
static const uint64_t HASH_CAP = 1u << 23;
static Shared* g_sh;
static uint64_t* g_hashes;
static uint64_t* g_states;
static Slot* g_slot;

const char* fault_names[F_COUNT] = {
#define X(n, d) d,
    SIM_FAULTS(X)
#undef X
};

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Reg::Reg(const char* prop, const char* name, void (*fn)(), uint32_t weight, int plat) {
    scenarios().push_back({prop, name, fn, weight, plat});
}
std::vector<Probe>& probes() { static std::vector<Probe> v; return v; }
RegProbe::RegProbe(const char* prop, const char* id, bool (*fn)(std::string&)) { probes().push_back({prop, id, fn}); }

// ---------------------------------------------------------------- run state
static bool g_replay;
static std::vector<uint32_t> g_in;
static size_t g_inpos;
static uint64_t rs[4];
static uint64_t g_hash, g_steps, g_step_limit, g_nchoices;
static bool g_verbose;
static FILE* g_log;
bool g_probe_mode;
static std::vector<std::string>* g_loglines;

static bool g_faults_on, g_faults_cfg;
static uint32_t g_rate[F_COUNT];
static uint64_t g_fired[F_COUNT];
static uint64_t g_budget;
static uint64_t g_total_fired;
static uint64_t g_tfired[64]; static int g_tmask[64];   // by simulated thread
static int64_t g_nth_alloc;         // -1: off
static bool g_nth_all, g_nth_on;    // n-th allocation or mapping, see faults_nth
static uint64_t g_alloc_opps;
static std::vector<uint64_t>* g_local_states;

bool verbose() { return g_verbose; }
static const char* plat_name() {
#if defined(SIM_POLL)
    return "poll";
#elif defined(SIM_GUARD)
    return "guard";
#elif defined(SIM_KQUEUE)
    return "kqueue";
#else
    return "epoll";
#endif
}
bool preempt_possible() {
#ifdef SIM_GUARD
    return true;
#else
    return false;
#endif
}
bool other_back_end() {
#if defined(SIM_POLL) || defined(SIM_KQUEUE)
    return true;
#else
    return false;
#endif
}

uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd() {
    uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
    rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
    return r;
}
static void seed_rng(uint64_t s) { for (int i = 0; i < 4; ++i) { s = mix64(s); rs[i] = s; } }

uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (g_replay) { v = g_inpos < g_in.size() ? g_in[g_inpos++] % n : 0; }
    else v = (uint32_t)((rnd() >> 32) * (uint64_t)n >> 32);
    if (g_slot->ntrace < MAX_TRACE) g_slot->trace[g_slot->ntrace++] = v;
    else viol("runaway", "one run needed more than %u decisions without coming to an end", MAX_TRACE);
    ++g_nchoices;
    return v;
}
uint32_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t t = 0; for (auto x : w) t += x;
    uint32_t v = choose(t), i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}

static void hash_bytes(const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { g_hash ^= b[i]; g_hash *= 0x100000001b3ULL; }
}
static void hash_word(uint64_t w) { g_hash = mix64(g_hash ^ w); }
uint64_t ev_hash() { return g_hash; }
void ev(const char* name, int64_t a, int64_t b, int64_t c, int64_t d) {
    hash_bytes(name, strlen(name)); hash_word(a); hash_word(b); hash_word(c); hash_word(d);
    if (g_verbose) fprintf(g_log, "  [%6lu] %s %ld %ld %ld %ld\n", (unsigned long)g_steps, name, (long)a, (long)b, (long)c, (long)d);
}
void evs(const char* name, const std::string& s) {
    hash_bytes(name, strlen(name)); hash_bytes(s.data(), s.size());
    if (g_verbose) fprintf(g_log, "  [%6lu] %s %s\n", (unsigned long)g_steps, name, s.c_str());
}
void mark_state(uint64_t fp) {
    if (g_local_states && g_local_states->size() < MAX_STATES) g_local_states->push_back(mix64(fp));
}

static void finish_slot(int st) {
    g_slot->hash = g_hash; g_slot->nsteps = g_steps; g_slot->state = st;
}

void viol(const char* cls, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, ap);
    va_end(ap);
    snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
    if (g_verbose) { fprintf(g_log, "  VIOLATION %s: %s\n", cls, g_slot->msg); fflush(g_log); }
    finish_slot(S_VIOL);
    _exit(42);
}

static void death_cb() {
    if (g_slot && g_slot->state == S_RUNNING) {
        const char* d = "crash";
        char buf[100];
        if (__asan_report_present()) { snprintf(buf, sizeof buf, "%s", __asan_get_report_description()); d = buf; }
        else d = "fatal-signal";
        snprintf(g_slot->cls, sizeof g_slot->cls, "memory-error:%s", d);
        snprintf(g_slot->msg, sizeof g_slot->msg, "the program under test crashed or corrupted memory (%s)", d);
        if (g_verbose) { fprintf(g_log, "  VIOLATION %s\n", g_slot->cls); fflush(g_log); }
        finish_slot(S_VIOL);
    }
}
static void on_vtalrm(int) {
    snprintf(g_slot->cls, sizeof g_slot->cls, "no-progress:cpu");
    snprintf(g_slot->msg, sizeof g_slot->msg, "a call of the program under test did not return within the CPU limit");
    if (g_verbose) { fprintf(g_log, "  VIOLATION no-progress:cpu\n"); fflush(g_log); }
    g_slot->hash = 0; g_slot->state = S_VIOL;
    _exit(42);
}

void step() {
    if (++g_steps > g_step_limit)
        viol("no-progress:steps", "the run did not finish within %lu simulated steps", (unsigned long)g_step_limit);
}
uint64_t steps() { return g_steps; }
void set_step_limit(uint64_t n) { g_step_limit = n; }

// ---------------------------------------------------------------- faults
static bool g_mem_faults = true;   // allocations and mappings may fail
static int64_t g_mem_left = -1;    // so many more times
void faults_config(std::initializer_list<Fault> kinds, uint32_t ff) {
    memset(g_rate, 0, sizeof g_rate); memory_faults(true);
    g_budget = UINT64_MAX; g_nth_alloc = -1; g_alloc_opps = 0;
    g_faults_cfg = true;
    // 0 must be the fault-free choice
    if (choose(1000) < ff) { g_faults_on = false; g_faults_cfg = false; return; }
    g_faults_on = true;
    static const uint32_t rates[] = {2, 10, 40, 120, 300, 600};
    static const uint64_t budgets[] = {1, 2, 5, UINT64_MAX};
    for (auto k : kinds) {
        uint32_t c = choose(10);
        if (c < 4) continue;                 // disabled in this run
        g_rate[k] = rates[c - 4];
        if (k == F_ALLOC && choose(2)) {     // fail exactly the n-th allocation
            g_rate[k] = 0; g_nth_alloc = choose(64);
        }
    }
    g_budget = budgets[choose(4)];
    for (auto k : kinds) if (g_rate[k] || (k == F_ALLOC && g_nth_alloc >= 0)) g_sh->armed[k]++;
}
void fault_force_rate(Fault f, uint32_t pm) { g_rate[f] = pm; g_faults_cfg = true; }
void faults_disable() { g_faults_on = false; }
void faults_enable() { if (g_faults_cfg) g_faults_on = true; }
bool faults_on() { return g_faults_on; }

void faults_nth(int64_t n, bool onwards) {
    if (n < 0) { g_nth_all = false; g_nth_alloc = -1; g_faults_on = false; return; }
    if (!g_nth_on) { g_nth_on = true; g_sh->armed[F_ALLOC]++; g_sh->armed[F_MMAP]++; }
    g_nth_all = true; g_nth_alloc = n; g_alloc_opps = 0; g_budget = onwards ? UINT64_MAX : 1; g_faults_on = true; g_faults_cfg = true; ev("fail-allocation", n, onwards);
}

void memory_faults(bool on, int64_t only) { g_mem_faults = on; g_mem_left = only; }
bool fault(Fault f) {
    if (f == F_ALLOC || f == F_MMAP) { if (!g_mem_faults || g_mem_left == 0) return false; if (g_mem_left > 0) --g_mem_left; }
    if (!g_faults_on || g_budget == 0 || g_tmask[thread_self() & 63]) return false;
    bool hit = false;
    if (g_nth_all && (f == F_ALLOC || f == F_MMAP)) hit = (int64_t)g_alloc_opps++ >= g_nth_alloc;
    else if (f == F_ALLOC && g_nth_alloc >= 0) {
        hit = (int64_t)g_alloc_opps++ == g_nth_alloc;
    } else {
        if (!g_rate[f]) return false;
        hit = chance(g_rate[f]);
    }
    if (hit) { if (g_budget != UINT64_MAX) --g_budget; fault_note(f); ev("fault", f); }
    return hit;
}
void fault_note(Fault f) { g_fired[f]++; g_total_fired++; g_tfired[thread_self() & 63]++; }
uint64_t thread_faults() { return g_tfired[thread_self() & 63]; }
ThreadNoFaults::ThreadNoFaults() { g_tmask[thread_self() & 63]++; }
ThreadNoFaults::~ThreadNoFaults() { g_tmask[thread_self() & 63]--; }
uint64_t faults_fired() { return g_total_fired; }
uint64_t fault_fired(Fault f) { return g_fired[f]; }

// ---------------------------------------------------------------- one run
static std::vector<uint32_t> scen_index(const char* prop) {
    std::vector<uint32_t> r;
    auto& v = scenarios();
    for (uint32_t i = 0; i < v.size(); ++i)
        if (!strcmp(v[i].prop, prop)) {
            if (other_back_end() && v[i].plat != PLAT_BOTH) continue;
            r.push_back(i);
        }
    std::sort(r.begin(), r.end(), [&](uint32_t a, uint32_t b) { return strcmp(v[a].name, v[b].name) < 0; });
    return r;
}
// what the library keeps in static storage: every run starts with it as a new process would
extern "C" { extern char __start_rcpr_lib_state[] __attribute__((weak)); extern char __stop_rcpr_lib_state[] __attribute__((weak)); }
static void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }   // (there are guard zones between the objects)
static char* g_lib_image; static char* g_tls; static size_t g_tls_size; static char* g_tls_image;
static void lib_state_reset() {
    size_t n = __stop_rcpr_lib_state - __start_rcpr_lib_state;
    if (!g_lib_image) {
        g_lib_image = new char[n + 1]; raw_copy(g_lib_image, __start_rcpr_lib_state, n);
        dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { g_tls = (char*)i->dlpi_tls_data; g_tls_size = i->dlpi_phdr[k].p_memsz; } return 1; }, nullptr);   // (1: the program itself only)
        if (g_tls_size) { g_tls_image = new char[g_tls_size]; raw_copy(g_tls_image, g_tls, g_tls_size); }
    } else { raw_copy(__start_rcpr_lib_state, g_lib_image, n); if (g_tls_size) raw_copy(g_tls, g_tls_image, g_tls_size); }
}
void tls_switch(std::vector<char>& from, std::vector<char>& to) {
    if (!g_tls_size) return;
    from.resize(g_tls_size); raw_copy(from.data(), g_tls, g_tls_size); raw_copy(g_tls, to.empty() ? g_tls_image : to.data(), g_tls_size);
}
static void reset_run() {
    lib_state_reset();
    g_hash = 0xcbf29ce484222325ULL; g_steps = 0; g_step_limit = 200000; g_nchoices = 0;
    g_faults_on = false; g_faults_cfg = false; g_total_fired = 0; g_budget = UINT64_MAX; g_nth_alloc = -1; g_alloc_opps = 0; g_nth_all = g_nth_on = false;
    memset(g_rate, 0, sizeof g_rate); memset(g_fired, 0, sizeof g_fired); memset(g_tfired, 0, sizeof g_tfired); memset(g_tmask, 0, sizeof g_tmask);
    g_slot->ntrace = 0; g_slot->cls[0] = 0; g_slot->msg[0] = 0; g_slot->hash = 0;
    g_inpos = 0;
    if (g_local_states) g_local_states->clear();
    memory_reset(); kernel_reset(); threads_reset();
    errno = 0;
}
static const char* g_only_scenario;
static void run_one(const char* prop) {
    reset_run();
    g_slot->state = S_RUNNING;
    auto idx = scen_index(prop);
    if (g_only_scenario) {
        std::vector<uint32_t> f; for (auto i : idx) if (!strcmp(scenarios()[i].name, g_only_scenario)) f.push_back(i);
        idx = f;
    }
    if (idx.empty()) { fprintf(stderr, "no scenario for %s\n", prop); _exit(3); }
    uint32_t tot = 0; for (auto i : idx) tot += scenarios()[i].weight;
    uint32_t v = choose(tot); uint32_t s = idx[0];
    for (auto i : idx) { if (v < scenarios()[i].weight) { s = i; break; } v -= scenarios()[i].weight; }
    g_slot->scen = s;
    evs("scenario", scenarios()[s].name);
    struct itimerval it = {{0, 0}, {8, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    scenarios()[s].fn();
    faults_disable();
    ev("end", (int64_t)g_nchoices);
    finish_slot(S_DONE);
    g_sh->runs++; g_sh->steps += g_steps; g_sh->choices += g_nchoices; if (g_nchoices > g_sh->maxchoices) g_sh->maxchoices = g_nchoices; if (g_steps > g_sh->maxsteps) g_sh->maxsteps = g_steps; g_sh->nfaults += g_total_fired;
    if (g_total_fired) g_sh->faulty_runs++;
    if (s < 512) g_sh->scen_runs[s]++;
    for (int i = 0; i < F_COUNT; ++i) if (g_fired[i]) g_sh->fired[i] += g_fired[i];
}
static void account_viol() {}

static void child_setup() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_vtalrm; sa.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    __sanitizer_set_death_callback(death_cb);
}

static uint64_t run_seed(uint64_t base, const char* prop, uint64_t idx) {
    uint64_t h = base; for (const char* p = prop; *p; ++p) h = mix64(h ^ (uint8_t)*p);
    return mix64(h ^ mix64(idx + 1));
}

// fork one run; returns true if violated. Result in slot.
struct Result { bool viol; bool ok; std::string cls, msg; uint64_t hash; std::vector<uint32_t> trace; std::string scen; };
static Result fork_run(Slot* slot, const char* prop, bool replay, const std::vector<uint32_t>& in, uint64_t seed, bool verbose_, bool stderr_on) {
    slot->state = S_IDLE;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = slot;
        if (!stderr_on) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
        child_setup();
        g_replay = replay; g_in = in; g_verbose = verbose_; g_log = stdout;
        seed_rng(seed);
        run_one(prop);
        if (g_verbose) fflush(g_log);
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; r.viol = slot->state == S_VIOL; r.ok = slot->state == S_DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    r.cls = slot->cls; r.msg = slot->msg; r.hash = slot->hash;
    if (!r.viol && !r.ok) {
        // died without passing through any of our reporting paths
        r.viol = true; r.cls = "abnormal-exit"; r.hash = 0;
        char b[128]; snprintf(b, sizeof b, "the simulated process ended abnormally (wait status 0x%x)", st); r.msg = b;
    }
    r.trace.assign(slot->trace, slot->trace + slot->ntrace);
    if (slot->scen < scenarios().size()) r.scen = scenarios()[slot->scen].name;
    return r;
}

// crashes are one family: what a wild access hits first may depend on garbage
static bool crashy(const std::string& c) { return c.compare(0, 12, "memory-error") == 0 || c == "abnormal-exit"; }
static bool same_class(const std::string& a, const std::string& b) { return a == b || (crashy(a) && crashy(b)); }
static bool same_run(const std::string& a, uint64_t ha, const std::string& b, uint64_t hb) { return crashy(a) ? crashy(b) : a == b && ha == hb; }
static void* shmap(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
    return o + "\"";
}
static void write_trace(FILE* f, const std::vector<uint32_t>& t) {
    size_t n = t.size(); while (n && t[n - 1] == 0) --n;
    for (size_t i = 0; i < n; ++i) fprintf(f, "%s%u", i ? " " : "", t[i]);
}

static void minimise(Slot* slot, const char* prop, Result& best, double budget_s) {
    auto now = [] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
    double t0 = now();
    auto strip = [](std::vector<uint32_t>& t) { while (!t.empty() && t.back() == 0) t.pop_back(); };
    strip(best.trace);
    auto attempt = [&](std::vector<uint32_t> t) {
        strip(t);
        if (t == best.trace) return false;
        Result r = fork_run(slot, prop, true, t, 0, false, false);
        if (r.viol && same_class(r.cls, best.cls) && r.scen == best.scen) {
            // the executed trace may be shorter than what was offered
            std::vector<uint32_t> ex = r.trace; strip(ex);
            auto cost = [](const std::vector<uint32_t>& v) { uint64_t s = 0; for (auto x : v) s += x ? 1 : 0; return std::make_pair(v.size(), s); };
            if (cost(ex) <= cost(t)) r.trace = ex; else r.trace = t;
            best = r; strip(best.trace); return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget_s) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.trace.size() / 2); chunk >= 1 && now() - t0 < budget_s; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.trace.size() && now() - t0 < budget_s;) {
                auto t = best.trace; t.erase(t.begin() + i, t.begin() + i + chunk);
                if (attempt(t)) progress = true; else i += chunk;
            }
            for (size_t i = 0; i < best.trace.size() && now() - t0 < budget_s; i += chunk) {
                auto t = best.trace; bool nz = false;
                for (size_t k = i; k < std::min(t.size(), i + chunk); ++k) { nz |= t[k] != 0; t[k] = 0; }
                if (nz && attempt(t)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.trace.size() && now() - t0 < budget_s; ++i) {
            if (best.trace[i] > 1) { auto t = best.trace; t[i] = t[i] / 2; if (attempt(t)) { progress = true; continue; } t = best.trace; t[i] -= 1; if (attempt(t)) progress = true; }
        }
    }
}

static int cmd_explore(int argc, char** argv) {
    // explore PROP SEED SECONDS WORKERS MAXRUNS OUTPREFIX
    const char* prop = argv[2]; uint64_t base = strtoull(argv[3], 0, 10); double secs = atof(argv[4]);
    int W = atoi(argv[5]); uint64_t maxruns = strtoull(argv[6], 0, 10); std::string out = argv[7];
    if (scen_index(prop).empty()) { fprintf(stderr, "no scenario for %s on this platform\n", prop); return 5; }
    auto now = [] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
    double t0 = now(), tend = t0 + secs;
    std::vector<Slot*> slots; for (int i = 0; i < W; ++i) slots.push_back((Slot*)shmap(sizeof(Slot)));
    const uint64_t BATCH = 250;
    std::map<pid_t, int> kids;
    std::vector<std::pair<uint64_t, Result>> found;
    bool nondet = false; std::string ndmsg;
    auto spawn = [&](int w) {
        fflush(nullptr);
        slots[w]->state = S_IDLE;
        pid_t pid = fork();
        if (pid == 0) {
            g_slot = slots[w];
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
            child_setup();
            static std::vector<uint64_t> ls; g_local_states = &ls;
            uint64_t b = g_sh->next.fetch_add(BATCH);
            for (uint64_t i = b; i < b + BATCH; ++i) {
                if (i >= maxruns || g_sh->stop || now() > tend) break;
                uint64_t sd = run_seed(base, prop, i);
                g_slot->seed = sd;
                g_replay = false; seed_rng(sd);
                run_one(prop);
                uint64_t h = g_slot->hash;
                uint64_t k = g_sh->nhash.fetch_add(1); if (k < HASH_CAP) g_hashes[k] = h;
                std::sort(ls.begin(), ls.end()); ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
                for (auto x : ls) { uint64_t q = g_sh->nstate.fetch_add(1); if (q < HASH_CAP) g_states[q] = x; }
                if (i % 64 == 17) {       // determinism spot check
                    uint64_t r0 = g_sh->runs, s0 = g_sh->steps; (void)r0; (void)s0;
                    seed_rng(sd); run_one(prop);
                    if (g_slot->hash != h) {
                        snprintf(g_slot->cls, sizeof g_slot->cls, "harness-nondeterminism");
                        snprintf(g_slot->msg, sizeof g_slot->msg, "seed %lu gave two different histories", (unsigned long)sd);
                        g_slot->state = S_VIOL; _exit(42);
                    }
                }
            }
            g_slot->state = S_DONE;
            _exit(0);
        }
        kids[pid] = w;
    };
    for (int w = 0; w < W; ++w) spawn(w);
    while (!kids.empty()) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        auto it = kids.find(p); if (it == kids.end()) continue;
        int w = it->second; kids.erase(it);
        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->state == S_DONE;
        if (!clean) {
            Result r; r.viol = true; r.cls = slots[w]->cls; r.msg = slots[w]->msg; r.hash = slots[w]->hash;
            if (slots[w]->state != S_VIOL) { r.cls = "abnormal-exit"; r.msg = "the simulated process ended abnormally"; r.hash = 0; }
            r.trace.assign(slots[w]->trace, slots[w]->trace + slots[w]->ntrace);
            r.scen = slots[w]->scen < scenarios().size() ? scenarios()[slots[w]->scen].name : "";
            if (r.cls == "harness-nondeterminism") { nondet = true; ndmsg = r.cls + ": " + r.msg + " (" + r.scen + ")"; }
            found.push_back({slots[w]->seed, r});
            g_sh->stop = 1;
        } else if (!g_sh->stop && now() < tend && g_sh->next < maxruns) spawn(w);
    }
    double wall = now() - t0;
    // distinct histories / states
    auto distinct = [](uint64_t* a, uint64_t n) { std::sort(a, a + n); return (uint64_t)(std::unique(a, a + n) - a); };
    uint64_t nh = std::min<uint64_t>(g_sh->nhash, HASH_CAP), ns = std::min<uint64_t>(g_sh->nstate, HASH_CAP);
    uint64_t dh = distinct(g_hashes, nh), ds = distinct(g_states, ns);
    FILE* f = fopen((out + ".json").c_str(), "w");
    if (!f) { perror("fopen"); return 3; }
    fprintf(f, "{\"property\":%s,\"platform\":\"%s\",\"runs\":%lu,\"wall_s\":%.3f,\"steps\":%lu,\"choices\":%lu,\"longest_run_choices\":%lu,\"longest_run_steps\":%lu,\"faulty_runs\":%lu,\"faults_injected\":%lu,\"distinct_histories\":%lu,\"distinct_states\":%lu,\n",
            jstr(prop).c_str(), plat_name(), (unsigned long)g_sh->runs, wall, (unsigned long)g_sh->steps, (unsigned long)g_sh->choices, (unsigned long)g_sh->maxchoices, (unsigned long)g_sh->maxsteps,
            (unsigned long)g_sh->faulty_runs, (unsigned long)g_sh->nfaults, (unsigned long)dh, (unsigned long)ds);
    fprintf(f, "\"faults\":{"); bool first = true;
    for (int i = 0; i < F_COUNT; ++i) if (g_sh->armed[i] || g_sh->fired[i]) { fprintf(f, "%s%s:{\"runs_armed\":%lu,\"fired\":%lu}", first ? "" : ",", jstr(fault_names[i]).c_str(), (unsigned long)g_sh->armed[i], (unsigned long)g_sh->fired[i]); first = false; }
    fprintf(f, "},\n\"scenarios\":{"); first = true;
    for (size_t i = 0; i < scenarios().size() && i < 512; ++i) if (g_sh->scen_runs[i]) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(scenarios()[i].name).c_str(), (unsigned long)g_sh->scen_runs[i]); first = false; }
    fprintf(f, "},\n\"samples\":[");
    // a few actual cases, written out
    if (!nondet) {
        for (int k = 0; k < 3; ++k) {
            uint64_t sd = run_seed(base, prop, k * 7 + 1);
            int pfd[2]; if (pipe(pfd)) break;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) { dup2(pfd[1], 1); close(pfd[0]); g_slot = slots[0]; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); child_setup(); g_replay = false; g_verbose = true; g_log = stdout; seed_rng(sd); run_one(prop); fflush(stdout); _exit(0); }
            close(pfd[1]); std::string txt; char b[4096]; ssize_t r; while ((r = read(pfd[0], b, sizeof b)) > 0) if (txt.size() < 2500) txt.append(b, r);
            close(pfd[0]); int st; waitpid(pid, &st, 0); if (txt.size() > 2500) { txt.resize(2500); txt += " ..."; }
            char sb[32]; snprintf(sb, sizeof sb, "%lu", (unsigned long)sd);
            fprintf(f, "%s{\"seed\":\"%s\",\"scenario\":%s,\"history\":%s}", k ? "," : "", sb, jstr(scenarios()[slots[0]->scen].name).c_str(), jstr(txt).c_str());
        }
    }
    fprintf(f, "]}\n"); fclose(f);
    if (nondet) { fprintf(stderr, "rsim: %s\n", ndmsg.c_str()); return 4; }
    if (found.empty()) return 0;
    // gate: reproduce from the seed twice, in fresh processes
    for (auto& fr : found) {
        Result a = fork_run(slots[0], prop, false, {}, fr.first, false, false);
        Result b = fork_run(slots[0], prop, false, {}, fr.first, false, false);
        if (!(a.viol && b.viol && same_run(a.cls, a.hash, b.cls, b.hash) && a.scen == b.scen)) {
            fprintf(stderr, "rsim: seed %lu (scenario %s, %s: %s) did not reproduce: first %d %s %lx, second %d %s %lx\n", (unsigned long)fr.first, fr.second.scen.c_str(), fr.second.cls.c_str(), fr.second.msg.c_str(),
                    a.viol, a.cls.c_str(), (unsigned long)a.hash, b.viol, b.cls.c_str(), (unsigned long)b.hash);
            continue;
        }
        Result best = a; size_t n0 = best.trace.size();
        minimise(slots[0], prop, best, 20.0);
        // final: fix the class/hash that the minimised trace gives, twice
        Result c = fork_run(slots[0], prop, true, best.trace, 0, false, false);
        Result d = fork_run(slots[0], prop, true, best.trace, 0, false, false);
        if (!(c.viol && d.viol && same_run(c.cls, c.hash, d.cls, d.hash))) { fprintf(stderr, "rsim: minimised trace is not stable\n"); return 4; }
        std::string rf = out + ".replay";
        FILE* g = fopen(rf.c_str(), "w");
        fprintf(g, "rsim-replay 1\nproperty %s\nplatform %s\nseed %lu\nscenario %s\nclass %s\nhash %016lx\nmessage %s\noriginal_choices %zu\nchoices ", prop, plat_name(),
                (unsigned long)fr.first, c.scen.c_str(), c.cls.c_str(), (unsigned long)c.hash, c.msg.c_str(), n0);
        write_trace(g, c.trace); fprintf(g, "\n"); fclose(g);
        printf("FOUND scenario=%s class=%s choices=%zu->%zu msg=%s\n", c.scen.c_str(), c.cls.c_str(), n0, best.trace.size(), c.msg.c_str());
        return 1;
    }
    return 4;
}

static int cmd_replay(int argc, char** argv) {
    // replay FILE: exit 1 if reproduces exactly, 0 if no violation, 4 otherwise
    FILE* f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; }
    std::string prop, cls; uint64_t hash = 0; std::vector<uint32_t> tr; bool quiet = argc > 3 && !strcmp(argv[3], "-q");
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n && (line[n - 1] == '\n')) line[--n] = 0;
        if (!strncmp(line, "property ", 9)) prop = line + 9;
        else if (!strncmp(line, "class ", 6)) cls = line + 6;
        else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, 0, 16);
        else if (!strncmp(line, "choices ", 8)) { char* p = line + 8; while (*p) { char* e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; tr.push_back(v); p = e; } }
        else if (!strncmp(line, "platform ", 9)) { if (strcmp(line + 9, plat_name())) { fprintf(stderr, "wrong platform binary\n"); return 3; } }
    }
    fclose(f);
    Slot* s = (Slot*)shmap(sizeof(Slot));
    Result r = fork_run(s, prop.c_str(), true, tr, 0, !quiet, !quiet);
    if (!r.viol) { printf("REPLAY no violation\n"); return 0; }
    bool same = same_run(r.cls, r.hash, cls, hash);
    printf("REPLAY %s scenario=%s class=%s hash=%016lx msg=%s\n", same ? "reproduced" : "DIFFERENT", r.scen.c_str(), r.cls.c_str(), (unsigned long)r.hash, r.msg.c_str());
    return same ? 1 : 4;
}

static int cmd_probe(int argc, char** argv) {
    // probe PROP: runs every known-finding probe of the property
    const char* prop = argv[2]; int rc = 0;
    for (auto& p : probes()) {
        if (strcmp(p.prop, prop)) continue;
        if (argc > 3 && strcmp(argv[3], p.id)) continue;
        Slot* s = (Slot*)shmap(sizeof(Slot));
        int pfd[2]; if (pipe(pfd)) return 3;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            g_slot = s; child_setup(); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
            g_replay = true; g_in.clear(); g_probe_mode = true; reset_run(); g_slot->state = S_RUNNING;
            std::string what; bool f = p.still_fails(what);
            std::string o = (f ? "1" : "0") + what; (void)!write(pfd[1], o.data(), o.size());
            g_slot->state = S_DONE; _exit(0);
        }
        close(pfd[1]); std::string t; char b[512]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) t.append(b, n); close(pfd[0]);
        int st; waitpid(pid, &st, 0);
        if (s->state == S_VIOL) printf("PROBE %s 1 %s: %s\n", p.id, s->cls, s->msg);
        else if (t.empty()) printf("PROBE %s 1 abnormal exit\n", p.id);
        else printf("PROBE %s %c %s\n", p.id, t[0], t.c_str() + 1);
    }
    return rc;
}

} // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    // same addresses in every process: wild pointers then behave the same too
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("RSIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
        setenv("RSIM_ASLR", "0", 1); execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    g_sh = (Shared*)shmap(sizeof(Shared));
    g_hashes = (uint64_t*)shmap(HASH_CAP * 8); g_states = (uint64_t*)shmap(HASH_CAP * 8);
    if (argc >= 8 && !strcmp(argv[1], "explore")) return cmd_explore(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "probe")) return cmd_probe(argc, argv);
    if (argc >= 4 && !strcmp(argv[1], "one")) {   // one PROP RUNSEED [scenario]: verbose
        Slot* s = (Slot*)shmap(sizeof(Slot));
        if (argc > 4) g_only_scenario = argv[4];
        Result r = fork_run(s, argv[2], false, {}, strtoull(argv[3], 0, 10), true, true);
        printf("%s scenario=%s class=%s hash=%016lx msg=%s\n", r.viol ? "VIOL" : "ok", r.scen.c_str(), r.cls.c_str(), (unsigned long)r.hash, r.msg.c_str());
        return r.viol ? 1 : 0;
    }
    if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& s : scenarios()) printf("%s %s %u %d\n", s.prop, s.name, s.weight, s.plat); return 0; }
    fprintf(stderr, "usage: rsim explore|replay|probe|one|list ...\n");
    return 2;
}
