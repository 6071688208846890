// Simulated heap and stack mappings behind the library's malloc/mmap seam.
#include "core.hpp"
#include "threads.hpp"
#include "seam.hpp"
#include <sys/mman.h>
#include <unordered_map>
#include <algorithm>
#include <cerrno>
#include <sanitizer/asan_interface.h>

// (the harness itself is not instrumented, so the ASAN_ macros would be no-ops)
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
namespace sim {
static uint8_t* const ARENA = (uint8_t*)0x200000000000ULL;
static const size_t ARENA_SZ = 512u << 20;
static uint8_t* const STACKS = (uint8_t*)0x210000000000ULL;
static bool g_mapped;
static size_t g_used;
// further regions: far enough apart that differences of addresses do not fit 31 or 32 bits, the last one exactly 4 GB up
static const size_t FAR_SZ = 64u << 20; static uint8_t* const FAR[3] = {ARENA + 0x60000000ull, ARENA + 0xC0000000ull, ARENA + 0x100000000ull};
static size_t g_far[3]; static std::map<size_t, std::vector<uintptr_t>>* g_twin;
struct Blk { size_t n; uint64_t seq; int owner; };
static int g_owners[64];   // which of the run's allocators is at work in each thread (0: the library's own, or none)
#define g_owner g_owners[thread_self() & 63]
void alloc_owner(int o) { g_owner = o; }
static std::unordered_map<uintptr_t, Blk>* g_live;
static std::unordered_map<size_t, std::vector<uintptr_t>>* g_free;
static uint64_t g_seq;
static int g_reuse;
static size_t g_stack_off;
static const size_t BIG = 3 << 20;
static void clean_stack(uintptr_t p, size_t sz) { if (sz > BIG) UNPOISON((void*)(p + sz - BIG), BIG); }   // nothing else clears what frames left there
static std::map<uintptr_t, size_t>* g_stacks;

void memory_reset() {
    if (!g_mapped) {
        void* p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != ARENA) { fprintf(stderr, "arena\n"); _exit(3); }
        for (auto f : FAR) if (mmap(f, FAR_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != f) { fprintf(stderr, "arena\n"); _exit(3); } else POISON(f, 4096);
        g_twin = new std::map<size_t, std::vector<uintptr_t>>; g_mapped = true; g_used = 0; g_live = new std::unordered_map<uintptr_t, Blk>; g_free = new std::unordered_map<size_t, std::vector<uintptr_t>>;
        g_stacks = new std::map<uintptr_t, size_t>;
        g_used = 1 << 16;
    }
    POISON(ARENA, g_used + 4096);
    for (int i = 0; i < 3; ++i) { if (g_far[i]) POISON(FAR[i], g_far[i] + 4096); g_far[i] = 0; } g_twin->clear();
    g_used = 64; g_live->clear(); g_free->clear(); g_seq = 0; g_reuse = -1; memset(g_owners, 0, sizeof g_owners);
    for (auto& s : *g_stacks) { clean_stack(s.first, s.second); munmap((void*)s.first, s.second); }
    g_stacks->clear(); g_stack_off = 0;
}
static uintptr_t far_raw(size_t n) {
    size_t need = ((n + 15) & ~(size_t)15) + 48; auto& tw = (*g_twin)[n];
    if (!tw.empty()) { uintptr_t o = tw.back(); tw.pop_back(); size_t off = o - (uintptr_t)ARENA; if (off >= g_far[2] && off + need + 4096 < FAR_SZ) { POISON(FAR[2] + g_far[2], off + need - g_far[2]); g_far[2] = off + need; return (uintptr_t)FAR[2] + off; } }
    int k = (int)(mix64(g_seq * 5 + 3) & 3);
    if (k < 2) { if (g_far[k] + need + 4096 > FAR_SZ) return 0; uintptr_t p = (uintptr_t)FAR[k] + g_far[k] + 16; POISON(FAR[k] + g_far[k], need); g_far[k] += need; return p; }
    if (k == 2) tw.push_back((uintptr_t)ARENA + g_used + 16);   // the one that follows, and its twin 4 GB up
    return 0;
}
static void* alloc_raw(size_t n, uint8_t fill) {
    step();
    if (n > (96u << 20)) { errno = ENOMEM; return nullptr; }
    if (g_reuse < 0) { static const int how[] = {0, 0, 0, 0, 3, 1, 1, 2}; g_reuse = how[choose(8)]; }
    uintptr_t p = 0;
    if (g_reuse == 2) p = far_raw(n);
    if (g_reuse == 1 || g_reuse == 3) { auto it = g_free->find(n); if (it != g_free->end() && !it->second.empty()) { if (g_reuse == 3) std::swap(it->second.back(), it->second[mix64(g_seq * 7 + 1) % it->second.size()]); p = it->second.back(); it->second.pop_back(); } }
    if (!p) {
        size_t need = ((n + 15) & ~(size_t)15) + 48;
        if (g_used + need + 4096 > ARENA_SZ) { errno = ENOMEM; return nullptr; }
        p = (uintptr_t)ARENA + g_used + 16;
        POISON(ARENA + g_used, need);
        g_used += need;
    }
    if (n) UNPOISON((void*)p, n);
    if (fill != 0xFF) memset((void*)p, fill, n); else memset((void*)p, 0, n);
    (*g_live)[p] = {n, ++g_seq, g_owner};
    return (void*)p;
}
static void free_raw(void* q) {
    auto it = g_live->find((uintptr_t)q);
    if (it == g_live->end()) viol("invalid-free", "memory that is not a live allocation was released (double release or foreign pointer)");
    size_t n = it->second.n;
    memset(q, 0xDD, n);
    if (n) POISON(q, n);
    g_live->erase(it);
    if (g_reuse == 1 || g_reuse == 3) (*g_free)[n].push_back((uintptr_t)q);
}
size_t live_blocks() { return g_live->size(); }
bool block_live(const void* p) { return g_live->count((uintptr_t)p) != 0; }
size_t block_size(const void* p) { auto it = g_live->find((uintptr_t)p); return it == g_live->end() ? 0 : it->second.n; }
int64_t block_seq(const void* p) { auto it = g_live->find((uintptr_t)p); return it == g_live->end() ? -1 : (int64_t)it->second.seq; }
uint64_t alloc_count() { return g_seq; }
size_t live_stacks() { return g_stacks->size(); }
bool stack_region(const void* p, uintptr_t& lo, size_t& n) {
    auto it = g_stacks->upper_bound((uintptr_t)p); if (it == g_stacks->begin()) return false; --it;
    lo = it->first; n = it->second; return (uintptr_t)p < lo + n;
}
std::string live_summary() {
    std::vector<std::pair<uint64_t, size_t>> v; for (auto& b : *g_live) v.push_back({b.second.seq, b.second.n});
    std::sort(v.begin(), v.end()); std::string s; size_t i = 0;
    for (auto& x : v) { if (i++ > 8) { s += "..."; break; } s += "#" + std::to_string(x.first) + ":" + std::to_string(x.second) + "B "; }
    return s;
}
void* user_alloc(size_t n) { return alloc_raw(n, 0xA5); }
void user_free(void* p) { free_raw(p); }
} // namespace sim

using namespace sim;
extern "C" {
void* sim_malloc(size_t n) { if (fault(F_ALLOC)) { errno = ENOMEM; return nullptr; } return alloc_raw(n, 0xA5); }
void* sim_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } if (fault(F_ALLOC)) { errno = ENOMEM; return nullptr; } return alloc_raw(a * b, 0xFF); }
static void owner_check(void* p) { auto it = g_live->find((uintptr_t)p); if (it != g_live->end() && it->second.owner != g_owner) viol("wrong-allocator", "a block of %zu bytes was given back to another allocator than the one it came from", it->second.n); }
void sim_free(void* p) { if (p) { step(); owner_check(p); free_raw(p); } }
void* sim_realloc(void* p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!block_live(p)) viol("invalid-free", "reallocation of memory that is not a live allocation");
    owner_check(p); if (fault(F_ALLOC) || fault(F_REALLOC)) { errno = ENOMEM; return nullptr; }
    if (n == 0) { free_raw(p); return nullptr; }
    size_t o = block_size(p);
    void* q = alloc_raw(n, 0xA5); if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n); free_raw(p); return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
int sim_posix_memalign(void** o, size_t al, size_t n) { if (fault(F_ALLOC)) return ENOMEM; (void)al; *o = alloc_raw(n, 0xA5); return *o ? 0 : ENOMEM; }
void* sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

void* sim_mmap(void*, size_t n, int prot, int flags, int fd, off_t off) {
    step(); (void)prot; (void)flags; (void)fd; (void)off;
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    if (fault(F_MMAP) || n > ((size_t)64 << 30)) { errno = ENOMEM; return MAP_FAILED; }
    size_t sz = (n + 4095) & ~(size_t)4095;
    void* at = STACKS + g_stack_off + 65536; g_stack_off += sz + 131072;
    bool big = sz > BIG;   // of a big stack only the part that can be reached is usable
    void* p = mmap(at, sz, big ? PROT_NONE : PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (big && p != MAP_FAILED && mprotect((char*)p + sz - BIG, BIG, PROT_READ | PROT_WRITE)) p = MAP_FAILED;
    if (p == MAP_FAILED) { fprintf(stderr, "stack pool\n"); _exit(3); }
    if (big) UNPOISON((char*)p + sz - BIG, BIG); else UNPOISON(p, sz);
    (*g_stacks)[(uintptr_t)p] = sz;
    return p;
}
int sim_munmap(void* p, size_t n) {
    step();
    auto it = g_stacks->find((uintptr_t)p); size_t sz = (n + 4095) & ~(size_t)4095;
    if (it == g_stacks->end()) viol("invalid-unmap", "unmapping a region that is not mapped");
    if (it->second != sz) viol("invalid-unmap", "unmapping %zu bytes of a %zu byte mapping", n, it->second);
    if (fault(F_MUNMAP)) { errno = EINVAL; return -1; }
    clean_stack((uintptr_t)p, sz); munmap(p, sz); g_stacks->erase(it); return 0;
}
int sim_mprotect(void*, size_t, int) { return 0; }
void sim__exit(int rc) { viol("process-exit", "the library ended the process (status %d)", rc); }
void sim_abort(void) { viol("abort", "the library aborted"); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { const char* b = strrchr(f, '/'); (void)l; viol("assertion-failed", "library assertion failed: %s (%s, %s)", e, b ? b + 1 : f, fn); }
}
