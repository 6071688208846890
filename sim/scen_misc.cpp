// Descriptor utilities, triggers, bump allocation, and the small allocating
// helpers (strings, identifiers, big numbers), each under its faults.
#include "common.hpp"
#include "kernel.hpp"
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/fiber.h>
#include <rcpr/queue.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/string.h>
#include <fcntl.h>
#include <climits>
#include <bigint/bigint_internal.h>
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_fiber;
RCPR_IMPORT_queue;
RCPR_IMPORT_socket_utilities;
RCPR_IMPORT_string_as(rcpr);
extern "C" int sim_close(int);

namespace {
// ---------------------------------------------------------------- descriptors
typedef std::map<int, int> Fds;   // descriptor -> which file
struct FdWorld {
    Fds t; int tags = 0;
    int add(int lowest) { NoFaults nf; int fd = fd_install(k_reg(++tags), lowest); t[fd] = tags; return fd; }
    void verify(const char* what) {
        for (auto& p : t) { CHECK(fd_open(p.first), "descriptor-lost", "%s: descriptor %d is closed, it should refer to file %d", what, p.first, p.second); CHECK(file_is(fd_get(p.first), p.second), "wrong-file", "%s: descriptor %d refers to another file than number %d", what, p.first, p.second); }
        for (int fd : fds_open()) CHECK(t.count(fd), "descriptor-leak", "%s: descriptor %d is open, it should be closed", what, fd);
        uint64_t h = t.size(); for (auto& p : t) h = mix64(h ^ (p.first * 131 + p.second)); mark_state(h);
    }
};
bool excused(uint64_t f0) { return faults_fired() > f0; }
void op_move(FdWorld& w) {
    int th = choose(4) == 3 ? (int)choose(40) : 3 + (int)choose(14); uint32_t n = choose(6); int v[6]; int tag[6]; bool bad = choose(6) == 5; std::vector<int> open; for (auto& p : w.t) open.push_back(p.first);
    if (choose(30) == 29) th = -1 - (int)choose(5);
    uint32_t k = 0; for (; k < n && !open.empty(); ++k) { uint32_t i = choose((uint32_t)open.size()); v[k] = open[i]; tag[k] = w.t[v[k]]; open.erase(open.begin() + i); } n = k;
    int badat = -1; if (bad && n) { badat = (int)choose(n); w.t[v[badat]] = tag[badat]; v[badat] = choose(2) ? -1 : 900 + (int)choose(5); }
    int* p[7]; for (uint32_t i = 0; i < 7; ++i) p[i] = i < n ? &v[i] : nullptr;
    int before[6]; for (uint32_t i = 0; i < n; ++i) before[i] = v[i];
    uint64_t f0 = faults_fired(); ev("move", th, n, badat); status r = choose(2) ? RCPR_SYM(socket_utility_move_descriptors)(th, p[0], p[1], p[2], p[3], p[4], p[5], p[6]) : socket_utility_move_descriptors(th, p[0], p[1], p[2], p[3], p[4], p[5], p[6]); ev("moved", r);
    if (th < 0) { CHECK(r != OK, "false-success", "moving descriptors below zero succeeded"); w.verify("after a refused move"); return; }
    if (n == 0) { CHECK(r == OK, "wrong-status", "moving no descriptors returned 0x%x", r); w.verify("after moving nothing"); return; }
    if (r == OK) CHECK(badat < 0, "false-success", "moving a list that contains an invalid descriptor succeeded"); else CHECK(badat >= 0 || excused(f0), "wrong-status", "moving %u open descriptors to %d returned 0x%x", n, th, r);
    // how far did it get: the prefix that was moved is in its slots
    Fds t = w.t; uint32_t done = 0; if (r == OK) done = n; else { while (done < n && (int)done != badat && v[done] == th + (int)done && fd_open(v[done]) && file_is(fd_get(v[done]), tag[done])) ++done; }
    for (uint32_t i = 0; i < n; ++i) if ((int)i != badat) t.erase(before[i]);
    for (uint32_t i = 0; i < done; ++i) { CHECK(v[i] == th + (int)i, "wrong-slot", "descriptor number %u was moved to %d, not to %d", i, v[i], th + (int)i); t[v[i]] = tag[i]; }
    if (r == OK) for (uint32_t i = 0; i < n; ++i) CHECK(fd_open(v[i]) && file_is(fd_get(v[i]), tag[i]), "descriptor-lost", "descriptor number %u of %u, moved from %d to %d, does not refer to its file", i, n, before[i], v[i]);
    // those that were not moved are still reachable through the caller's variables
    for (uint32_t i = done; i < n; ++i) if ((int)i != badat) { CHECK(v[i] >= 0 && fd_open(v[i]) && file_is(fd_get(v[i]), tag[i]), "descriptor-lost", "after a failed move, variable number %u no longer names its file", i); t[v[i]] = tag[i]; }
    w.t = t; w.verify(r == OK ? "after a move" : "after a failed move");
}
void op_setfds(FdWorld& w) {
    std::vector<int> open; for (auto& p : w.t) open.push_back(p.first); uint32_t n = 0, want = 1 + choose(4); int c[5], m[5], tag[5];
    while (n < want && !open.empty()) { uint32_t i = choose((uint32_t)open.size()); c[n] = open[i]; tag[n] = w.t[c[n]]; open.erase(open.begin() + i); ++n; }
    if (!n) return;
    std::set<int> used; for (uint32_t i = 0; i < n; ++i) { // a slot is not a descriptor that is still to be mapped
        int s = 0; for (int k = 0; k < 40; ++k) { s = choose(4) == 3 ? c[i] : (int)choose(24); bool ok = !used.count(s); for (uint32_t j = i + 1; j < n; ++j) if (c[j] == s) ok = false; if (ok) break; s = 60 + (int)i; } m[i] = s; used.insert(s); }
    bool odd = choose(8) == 7, bad = choose(8) == 7; int badat = -1; if (bad) { badat = (int)choose(n); c[badat] = 900; }
    int a[12]; for (int& x : a) x = -1; for (uint32_t i = 0; i < n; ++i) { a[2 * i] = c[i]; a[2 * i + 1] = m[i]; } if (odd) a[2 * n - 1] = -1;
    uint64_t f0 = faults_fired(); ev("setfds", n, odd, badat); status r = choose(2) ? RCPR_SYM(socket_utility_setfds)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], -1, -1) : socket_utility_setfds(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], -1, -1); ev("set", r);
    if (r == OK) CHECK(!odd && badat < 0, "false-success", "mapping an invalid list of descriptors succeeded"); else CHECK(odd || badat >= 0 || excused(f0), "wrong-status", "mapping %u open descriptors returned 0x%x", n, r);
    Fds t = w.t; for (uint32_t i = 0; i < n; ++i) {
        if ((int)i == badat || (odd && i == n - 1)) { CHECK(r != OK, "false-success", "x"); break; }
        if (r != OK && !(fd_open(m[i]) && file_is(fd_get(m[i]), tag[i]))) { CHECK(fd_open(c[i]) && file_is(fd_get(c[i]), tag[i]), "descriptor-lost", "after a failed mapping the file of descriptor %d is gone", c[i]); break; }
        if (r != OK && c[i] == m[i] && i + 1 < n) { bool later = false; for (uint32_t j = i + 1; j < n; ++j) if ((int)j != badat && c[j] != m[j] && !fd_open(c[j])) later = true; (void)later; }
        t.erase(c[i]); t[m[i]] = tag[i];
    }
    w.t = t; w.verify(r == OK ? "after mapping descriptors" : "after a failed mapping");
}
SCENARIO(U01, descriptor_moves, 10) {
    fd_base(3); FdWorld w; faults_config({F_DUP_ERR, F_CLOSE_ERR, F_FCNTL_ERR, F_SOCKET_ERR}, 400); set_step_limit(100000);
    for (uint32_t i = 0, n = 1 + choose(10); i < n; ++i) w.add(choose(3) ? 3 + (int)choose(18) : (int)choose(40));
    for (uint32_t i = 0, n = 1 + choose(12); i < n; ++i) {
        step(); switch (choose(8)) {
        case 0: case 1: case 2: op_move(w); break;
        case 3: case 4: op_setfds(w); break;
        case 5: w.add((int)choose(25)); break;
        case 6: if (choose(3) == 0) { int fd = (int)choose(20); if (choose(5) == 4) { close_any(true); status r = socket_utility_close_standard_fds(); close_any(false); CHECK(r == OK, "wrong-status", "closing the standard descriptors returned 0x%x", r); for (int k = 0; k < 3; ++k) w.t.erase(k); w.verify("after closing the standard descriptors"); }
            else { ev("close-other", fd); close_any(true); status r = socket_utility_close_other_fds(fd); close_any(false); CHECK(r == OK, "wrong-status", "closing other descriptors returned 0x%x", r); for (auto it = w.t.begin(); it != w.t.end();) if (it->first > fd) it = w.t.erase(it); else ++it; w.verify("after closing all descriptors above one"); } } break;
        case 7: {
            uint64_t f0 = faults_fired();
            if (choose(2) && !w.t.empty()) { auto it = w.t.begin(); std::advance(it, choose((uint32_t)w.t.size())); int fd = it->first; FileP f = fd_get(fd); int fl = f->flags = choose(2) ? O_APPEND : 0; status r = socket_utility_set_nonblock(fd); ev("nonblock", fd, r); if (r == OK) CHECK(fd_nonblocking(fd) && (f->flags & O_APPEND) == fl, "false-success", "a descriptor set non-blocking has flags 0x%x", f->flags); else { CHECK(excused(f0), "wrong-status", "setting a descriptor non-blocking returned 0x%x", r); CHECK(f->flags == fl, "changed", "a failed operation changed the flags of a descriptor"); } f->flags = 0; }
            else if (choose(4) == 3) { status r = socket_utility_set_nonblock(950); CHECK(r != OK, "false-success", "setting a closed descriptor non-blocking succeeded"); }
            else { int l = -77, q = -78; bool st = choose(2); status r = socket_utility_socketpair(1, st ? SOCK_STREAM : SOCK_DGRAM, 0, &l, &q); ev("pair", l, q, r); if (r != OK) { CHECK(excused(f0), "wrong-status", "creating a socket pair returned 0x%x", r); CHECK(l == -77 && q == -78, "output-changed", "a failed socket pair creation changed its outputs"); } else { CHECK(l != q && fd_open(l) && fd_open(q) && fd_get(l)->tx == fd_get(q)->rx && fd_get(q)->tx == fd_get(l)->rx, "wrong-file", "the two ends of a new socket pair are not connected"); sim_close(l); sim_close(q); } w.verify("after a socket pair"); }
            break; } }
    }
}
// known finding: descriptors numbered FD_SETSIZE and above are left open
RegProbe probe_close_high("U01", "close-other-above-fdsetsize", [](std::string& what) { NoFaults nf; int fd = fd_install(k_reg(1), 1500); close_any(true); status r = socket_utility_close_other_fds(2); close_any(false); bool left = r == OK && fd_open(fd); if (fd_open(fd)) sim_close(fd); what = "closing all descriptors above 2 succeeds and leaves descriptor 1500 open"; return left; });

// ---------------------------------------------------------------- trigger
struct Trig; struct Listener { Trig* w; int id; int fired = 0; };
struct Trig {
    fiber_scheduler* s = nullptr; auto_reset_trigger* t = nullptr; bool raised = false; Listener* reg = nullptr; std::vector<Listener*> all; int depth = 0; Listener* expect = nullptr; int yields = 0; uint32_t stopped = 0; std::vector<fiber*> f; uint32_t ops = 0; bool fibers = false; int delivered = 0, raises = 0;
};
void trig_op(Trig& w);
void trig_cb(void* c) {
    Listener* l = (Listener*)c; Trig& w = *l->w; CHECK(w.expect == l, "wrong-delivery", w.expect ? "listener %d was notified instead of another" : "listener %d was notified though nothing was to be delivered", l->id); w.expect = nullptr; l->fired++; CHECK(l->fired == 1, "notified-twice", "listener %d was notified twice for one registration", l->id); w.delivered++; ev("delivered", l->id);
    w.depth++; if (w.fibers && choose(2)) for (uint32_t n = choose(3); n; --n) { status r = fiber_scheduler_run(w.s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); }
    if (w.depth < 4) for (uint32_t n = choose(3); n; --n) trig_op(w);
    w.depth--;
}
void trig_step(Trig& w) {
    if (w.raised && w.reg) { w.expect = w.reg; w.raised = false; w.reg = nullptr; ev("step", 1); auto_reset_trigger_step(w.t); CHECK(!w.expect || w.depth, "lost-delivery", "a raised trigger with a listener was stepped and nobody was notified"); }
    else { ev("step", 0); CHECK(!w.expect, "lost-delivery", "x"); auto_reset_trigger_step(w.t); }
}
void trig_op(Trig& w) {
    step(); switch (choose(3)) {
    case 0: ev("raise"); auto_reset_trigger_signal(w.t); w.raised = true; w.raises++; break;
    case 1: { Listener* l = new Listener{&w, (int)w.all.size()}; w.all.push_back(l); status r = auto_reset_trigger_register(w.t, &trig_cb, l); ev("register", l->id, r); if (w.reg) CHECK(r == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED, "false-success", "a second listener was accepted: 0x%x", r); else { CHECK(r == OK, "wrong-status", "registering a listener with none registered returned 0x%x", r); w.reg = l; } break; }
    case 2: { Listener* e = w.raised ? w.reg : nullptr; int f = e ? e->fired : 0; trig_step(w); if (e) CHECK(e->fired == f + 1, "lost-delivery", "a raised trigger with a listener was stepped and listener %d was not notified", e->id); break; }
    }
    mark_state((uint64_t)w.raised * 2 + !!w.reg + 4 * (uint64_t)w.depth);
}
status trig_fiber(void* c) { Trig& w = *(Trig*)c; for (uint32_t n = choose(15); n; --n) { trig_op(w); if (choose(2)) { status r = fiber_scheduler_run(w.s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); } } NoFaults nf; faults_disable(); w.stopped++; return OK; }
SCENARIO(G01, trigger_deliveries, 10) {
    Alloc A; faults_config({F_ALLOC}, 800); set_step_limit(200000); Trig w; auto_reset_trigger* t = nullptr; w.fibers = choose(3) != 0;
    for (;;) { uint64_t f0 = faults_fired(); size_t lb = live_blocks(); status r = auto_reset_trigger_create(&t, A.a); if (r == OK) break; CHECK(is_oom(r) && faults_fired() > f0, "wrong-status", "creating a trigger returned 0x%x", r); CHECK(live_blocks() == lb, "memory-leak", "a failed creation leaked"); CHECK(!t, "output-changed", "a failed creation stored something"); if (faults_fired() > 3) faults_disable(); }
    w.t = t; faults_disable();
    if (w.fibers) {
        CHECK(fiber_scheduler_create_with_disciplines(&w.s, A.a) == OK, "wrong-status", "creating a scheduler failed"); uint32_t n = 1 + choose(5);
        for (uint32_t i = 0; i < n; ++i) { fiber* f; CHECK(fiber_create(&f, A.a, w.s, 32768, &w, &trig_fiber) == OK, "wrong-status", "creating a fiber failed"); CHECK(fiber_scheduler_add(w.s, f) == OK, "wrong-status", "adding a fiber failed"); }
        while (w.stopped < n) { trig_op(w); CHECK(fiber_scheduler_run(w.s) == OK, "wrong-status", "run failed"); }
    } else for (uint32_t n = choose(60); n; --n) trig_op(w);
    // whatever is still raised is delivered to the next listener, once
    if (w.raised && !w.reg) { Listener* l = new Listener{&w, (int)w.all.size()}; w.all.push_back(l); CHECK(auto_reset_trigger_register(w.t, &trig_cb, l) == OK, "wrong-status", "registering a listener failed"); w.reg = l; trig_step(w); CHECK(l->fired == 1, "lost-delivery", "a trigger raised before anybody registered was not delivered"); }
    CHECK(w.delivered <= w.raises, "invented", "more deliveries than triggers"); CHECK(resource_release(auto_reset_trigger_resource_handle(w.t)) == OK, "wrong-status", "releasing a trigger failed");
    if (w.s) CHECK(resource_release(fiber_scheduler_resource_handle(w.s)) == OK, "wrong-status", "releasing the scheduler failed"); A.release(); check_no_leaks("after releasing the trigger"); for (auto l : w.all) delete l;
}

// ---------------------------------------------------------------- bump allocator
struct Blk { uint8_t* p; size_t n; uint8_t pat; };
SCENARIO(A03, bump_regions, 10) {
    items_reset(); faults_config({F_RELEASE}, 500); set_step_limit(200000); static const size_t rs[] = {4096, 0, 1, 16, 39, 40, 41, 48, 56, 57, 63, 64, 65, 80, 96, 128, 200, 1000, 65536};
    size_t n = rs[choose(19)]; size_t off = choose(2) * 8; uint8_t* mem = (uint8_t*)user_alloc(n + off + 16); uint8_t* reg = mem + off; memset(mem, 0x5C, n + off + 16);
    auto guards = [&](const char* w) { for (size_t i = 0; i < off; ++i) CHECK(mem[i] == 0x5C, "out-of-region", "%s: memory before the region was written", w); for (size_t i = off + n; i < n + off + 16; ++i) CHECK(mem[i] == 0x5C, "out-of-region", "%s: memory after the region was written", w); };
    allocator* a = (allocator*)0x77; status r = bump_allocator_create(&a, reg, n); guards("creation"); ev("create", n, off, r);
    if (r != OK) { CHECK(is_oom(r) && a == nullptr, "wrong-status", "creating an allocator in %zu bytes returned 0x%x and stored something", n, r); CHECK(n < 128, "false-failure", "an allocator cannot be created in %zu bytes", n); user_free(mem); return; }
    std::vector<Blk> v; std::set<uint8_t*> dead; uint8_t* end = nullptr; std::vector<queue*> qs; std::vector<std::vector<Item*>> qm; uint32_t ops = choose(200); uint64_t h = n;
    auto take = [&](size_t m, const char* what) -> bool { // what the region must hold
        void* p = (void*)0x99; r = allocator_allocate(a, &p, m); ev("alloc", (int64_t)m, r == OK ? (int64_t)((uint8_t*)p - reg) : -1); guards(what);
        uint8_t* e = end ? end : reg + 128; uint8_t* st = (uint8_t*)(((uintptr_t)e + 15) & ~(uintptr_t)15); bool fits = st <= reg + n && m < (size_t)(reg + n - st);
        if (r != OK) { CHECK(is_oom(r), "wrong-status", "%s: 0x%x", what, r); CHECK(!fits, "false-failure", "%zu bytes were refused though %zu are left", m, (size_t)(reg + n - st)); CHECK(p == (void*)0x99 || !p, "output-changed", "a failed allocation stored a pointer"); return false; }
        uint8_t* q = (uint8_t*)p; CHECK(q >= reg && q <= reg + n && m <= (size_t)(reg + n - q), "out-of-region", "an allocation of %zu bytes was placed at offset %td of a region of %zu bytes", m, q - reg, n); CHECK(((uintptr_t)q & 15) == 0, "misaligned", "a block was placed at %p", p);
        CHECK(q > reg, "overlap", "a block overlaps the allocator itself"); for (auto& b : v) CHECK(q + m <= b.p || b.p + b.n <= q || !m || !b.n, "overlap", "a block of %zu bytes overlaps a live one", m);
        uint8_t pat = (uint8_t)(v.size() * 37 + 11); memset(q, pat, m); v.push_back({q, m, pat}); end = q + m; return true;
    };
    auto intact = [&] { for (auto& b : v) for (size_t i = 0; i < b.n; ++i) CHECK(b.p[i] == b.pat, "overwritten", "byte %zu of a live block of %zu bytes changed", i, b.n); };
    for (uint32_t k = 0; k < ops; ++k) {
        step(); switch (choose(9)) {
        case 0: case 1: case 2: { static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 64, SIZE_MAX / 2 + 1, (size_t)1 << 32, (size_t)SSIZE_MAX}; size_t m = choose(8) == 7 ? (choose(2) ? big[choose(7)] : SIZE_MAX - choose(5000)) : choose(4) == 3 ? choose((uint32_t)n + 20) : choose(60); take(m, "allocation"); break; }
        case 3: { uint8_t* e = end ? end : reg + 128; size_t left = e < reg + n ? (size_t)(reg + n - e) : 0; long m = (long)left - 24 + (long)choose(40); if (m >= 0) take((size_t)m, "allocation close to the end"); break; }
        case 4: if (!v.empty()) { auto& b = v[choose((uint32_t)v.size())]; r = allocator_reclaim(a, b.p); CHECK(r == OK, "wrong-status", "reclaiming returned 0x%x", r); } break;
        case 5: if (!v.empty()) { auto& b = v[choose((uint32_t)v.size())]; void* p = b.p; r = allocator_reallocate(a, &p, choose(5000)); ev("realloc", r); guards("reallocation"); if (r != OK) CHECK(p == b.p, "output-changed", "a refused reallocation changed the pointer"); else CHECK(false, "false-success", "a bump allocator claims to support reallocation"); } break;
        case 6: if (choose(4) == 0) { ev("reset"); int x = 0; r = allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, &x, sizeof(x)); CHECK(r == OK, "wrong-status", "a reset returned 0x%x", r); v.clear(); end = nullptr; qs.clear(); for (auto& m : qm) for (auto* i : m) item_drop(i); qm.clear(); guards("a reset"); } break;
        case 7: { r = allocator_control(a, 0x7777, nullptr, 0); CHECK(r != OK, "false-success", "an unknown control key was accepted"); break; }
        case 8: { // the library's own objects live in the region until it is full
            queue* q = nullptr; if (qs.empty() || choose(4) == 0) { r = queue_create(&q, a); ev("queue", r); guards("creating a queue"); if (r == OK) { uint8_t* s = (uint8_t*)q; CHECK(s > reg && s < reg + n, "out-of-region", "a queue lies outside the region"); qs.push_back(q); qm.push_back({}); if (!end || end < s + 200) end = s + 200 > reg + n ? reg + n : s + 200; v.push_back({nullptr, 0, 0}); } else { CHECK(is_oom(r), "wrong-status", "creating a queue in a full region returned 0x%x", r); end = reg + n; } }
            else { uint32_t i = choose((uint32_t)qs.size()); if (choose(3)) { Item* it = item_new(); r = queue_append(qs[i], item_res(it)); guards("appending"); if (r == OK) { qm[i].push_back(it); uint8_t* e = end ? end : reg + 128; end = e + 80 > reg + n ? reg + n : e + 80; } else { CHECK(is_oom(r), "wrong-status", "appending in a full region returned 0x%x", r); end = reg + n; item_drop(it); } }
                else if (!qm[i].empty()) { resource* x = nullptr; r = queue_pop(qs[i], &x); CHECK(r == OK && item_of(x) == qm[i].front(), "wrong-element", "a queue in a bump region lost its order"); qm[i].erase(qm[i].begin()); item_drop(item_of(x)); } }
            break; } }
        intact(); h = mix64(h ^ (uint64_t)(end - reg)); mark_state(h & 0xffff);
    }
    for (auto& m : qm) for (auto* i : m) item_drop(i);
    r = resource_release(allocator_resource_handle(a)); CHECK(r == OK, "wrong-status", "releasing returned 0x%x", r); guards("release"); intact(); user_free(mem); check_no_leaks("after releasing a bump allocator");
}

// ---------------------------------------------------------------- small allocating helpers
std::string text(size_t max) { size_t n = choose(3) ? choose(12) : choose((uint32_t)max + 1); std::string s; uint64_t k = choose(1000); for (size_t i = 0; i < n; ++i) s += (char)(1 + (mix64(k * 1000 + i) % 255)); return s; }
void failed_alloc(status r, uint64_t f0, size_t lb, const char* what) { CHECK(is_oom(r), "wrong-status", "%s returned 0x%x", what, r); CHECK(faults_fired() > f0, "wrong-status", "%s reported running out of memory though no allocation failed", what); CHECK(live_blocks() == lb, "memory-leak", "a failed %s left memory behind: %s", what, live_summary().c_str()); }
SCENARIO(S01, string_copies, 200) {
    Alloc A; faults_config({F_ALLOC}, 300); set_step_limit(100000); struct K { char* first; std::string second; allocator* al; }; std::vector<K> kept;
    for (uint32_t k = 1 + choose(20); k; --k) {
        step(); allocator* al = A.a; uint64_t f0 = faults_fired(); size_t lb = live_blocks(); char* out = (char*)0x55; status r; std::string want; std::vector<std::string> in; std::vector<char*> p; uint32_t n = choose(6); bool dup = choose(2); if (dup) n = 1;
        for (uint32_t i = 0; i < n; ++i) { if (choose(5) == 4 && !kept.empty()) in.push_back(kept[choose((uint32_t)kept.size())].second); else in.push_back(text(choose(4) == 3 ? 3000 : 60)); want += in.back(); char* c = (char*)user_alloc(in.back().size() + 1); memcpy(c, in.back().c_str(), in.back().size() + 1); p.push_back(c); lb++; }
        if (dup && choose(12) == 11) { r = choose(2) ? rcpr_strdup(&out, al, nullptr) : rcpr_strdup(nullptr, al, p[0]); CHECK(r == ERROR_STRING_INVALID_PARAMETER, "wrong-status", "copying an invalid string returned 0x%x", r); for (auto c : p) user_free(c); continue; }
        if (dup) r = rcpr_strdup(&out, al, p[0]); else { p.resize(6, nullptr); r = rcpr_strcatv(&out, al, p[0], p[1], p[2], p[3], p[4], p[5], (char*)nullptr); p.resize(n); } ev(dup ? "copy" : "join", n, (int64_t)want.size(), r);
        for (uint32_t i = 0; i < n; ++i) { CHECK(!memcmp(p[i], in[i].c_str(), in[i].size() + 1), "input-changed", "copying or joining strings changed input number %u", i); }
        if (r != OK) { failed_alloc(r, f0, lb, dup ? "copy" : "join"); CHECK(out == (char*)0x55 || !out, "output-changed", "a failed operation stored a pointer"); }
        else { CHECK(block_live(out) && live_blocks() == lb + 1, "memory-leak", "a new string is not one live allocation"); CHECK(block_size(out) >= want.size() + 1, "bad-result", "a string of %zu bytes lies in %zu bytes", want.size() + 1, block_size(out)); CHECK(!memcmp(out, want.c_str(), want.size() + 1), "wrong-value", "a string of %zu bytes was not copied exactly", want.size()); kept.push_back({out, want, al}); }
        for (auto c : p) user_free(c);
        if (!kept.empty() && choose(3) == 2) { uint32_t i = choose((uint32_t)kept.size()); CHECK(!memcmp(kept[i].first, kept[i].second.c_str(), kept[i].second.size() + 1), "wrong-value", "an earlier string changed"); CHECK(allocator_reclaim(kept[i].al, kept[i].first) == OK, "wrong-status", "reclaiming a string failed"); kept.erase(kept.begin() + i); }
        mark_state(n * 100 + (r == OK) + 10 * kept.size());
    }
    faults_disable(); for (auto& k : kept) { CHECK(!memcmp(k.first, k.second.c_str(), k.second.size() + 1), "wrong-value", "an earlier string changed"); CHECK(allocator_reclaim(k.al, k.first) == OK, "wrong-status", "reclaiming a string failed"); } A.release(); check_no_leaks("after reclaiming all strings");
}
struct Num { bigint* b; std::vector<uint64_t> limbs; size_t bits; };
SCENARIO(N01, numbers_and_identifiers, 10) {
    Alloc A; faults_config({F_ALLOC}, 300); set_step_limit(100000); std::vector<Num> v;
    auto same = [&](Num& n) { CHECK(n.b->length == n.limbs.size() && !memcmp(n.b->array, n.limbs.data(), n.limbs.size() * 8), "wrong-value", "a big number of %zu bits changed", n.bits); CHECK(block_live(n.b->array) && block_size(n.b->array) * 8 >= n.bits, "bad-result", "a big number of %zu bits lies in %zu bytes", n.bits, block_size(n.b->array)); };
    for (uint32_t k = 1 + choose(25); k; --k) {
        step(); uint64_t f0 = faults_fired(); size_t lb = live_blocks(); status r;
        switch (choose(5)) {
        case 0: { if (choose(8) == 7) {   // more bits than there is memory for
                static const size_t huge[] = {((size_t)1 << 33) + 1, ((size_t)1 << 35) + 64, (size_t)1 << 40, (size_t)1 << 63, SIZE_MAX, SIZE_MAX - 6, SIZE_MAX - 7, SIZE_MAX - 63, ((size_t)1 << 38) + 5};
                size_t bits = huge[choose(9)]; bigint* b = (bigint*)0x44; r = bigint_create_zero(&b, A.a, bits); ev("zero", (int64_t)bits, r); CHECK(r != OK, "false-success", "a number of %zu bits was made", bits); CHECK(is_oom(r), "wrong-status", "creating a number of %zu bits returned 0x%x", bits, r);
                CHECK(live_blocks() == lb, "memory-leak", "a failed number creation left memory behind: %s", live_summary().c_str()); CHECK(b == (bigint*)0x44 || !b, "output-changed", "a failed creation stored a pointer"); break; }
            static const size_t bs[] = {64, 1, 7, 8, 9, 63, 65, 127, 128, 129, 512, 2048, 4095, 100000}; size_t bits = choose(2) ? bs[choose(14)] : 1 + choose(700); bigint* b = (bigint*)0x44; r = bigint_create_zero(&b, A.a, bits); ev("zero", (int64_t)bits, r); if (r != OK) { failed_alloc(r, f0, lb, "number creation"); CHECK(b == (bigint*)0x44 || !b, "output-changed", "a failed creation stored a pointer"); break; }
            CHECK(block_live(b) && live_blocks() == lb + 2 && b->length * 64 >= bits, "bad-result", "a number of %zu bits was made with %zu limbs", bits, (size_t)b->length); for (size_t i = 0; i < b->length; ++i) CHECK(b->array[i] == 0, "wrong-value", "a new number is not zero"); CHECK(!b->sign, "wrong-value", "a new number is negative"); Num n{b, std::vector<uint64_t>(b->length), bits}; for (size_t i = 0; i < b->length; ++i) n.limbs[i] = b->array[i] = mix64(i * 31 + choose(100)); b->sign = choose(2); v.push_back(n); break; }
        case 1: if (!v.empty()) { uint32_t i = choose((uint32_t)v.size()); bigint* b = (bigint*)0x44; r = bigint_clone(&b, A.a, v[i].b); ev("clone", i, r); if (r != OK) { failed_alloc(r, f0, lb, "number copy"); CHECK(b == (bigint*)0x44 || !b, "output-changed", "a failed copy stored a pointer"); break; } CHECK(block_live(b) && live_blocks() == lb + 2 && b != v[i].b && b->array != v[i].b->array && b->sign == v[i].b->sign, "bad-result", "a copy shares its storage or lost its sign"); Num n{b, v[i].limbs, v[i].bits}; v.push_back(n); same(v.back()); if (!n.limbs.empty()) { size_t l = choose((uint32_t)n.limbs.size()); v.back().limbs[l] = b->array[l] = ~b->array[l]; } } break;
        case 2: if (!v.empty()) { uint32_t i = choose((uint32_t)v.size()); same(v[i]); r = resource_release(bigint_resource_handle(v[i].b)); ev("release", i, r); CHECK(r == OK, "wrong-status", "releasing a number returned 0x%x", r); CHECK(live_blocks() == lb - 2, "memory-leak", "releasing a number left memory behind"); v.erase(v.begin() + i); } break;
        default: { allocator* al = A.a; rcpr_uuid u, w; for (int i = 0; i < 16; ++i) u.data[i] = (uint8_t)choose(256); char* s = (char*)0x55; r = rcpr_uuid_to_string(&s, al, &u); ev("print", r); if (r != OK) { failed_alloc(r, f0, lb, "printing an identifier"); CHECK(s == (char*)0x55 || !s, "output-changed", "a failed print stored a pointer"); break; }
            char want[40]; const uint8_t* d = u.data; snprintf(want, sizeof want, "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]); CHECK(block_live(s) && block_size(s) >= 37 && live_blocks() == lb + 1, "bad-result", "a printed identifier is not one allocation"); CHECK(!memcmp(s, want, 37), "wrong-value", "an identifier was printed as %.36s instead of %s", s, want);
            memset(&w, 0, sizeof w); r = rcpr_uuid_parse_string(&w, s); CHECK(r == OK && !memcmp(&u, &w, 16), "wrong-value", "a printed identifier does not parse back"); CHECK(allocator_reclaim(al, s) == OK, "wrong-status", "reclaiming failed"); break; }
        }
        for (auto& n : v) same(n); mark_state(v.size() * 8 + (faults_fired() > 0));
    }
    faults_disable(); for (auto& n : v) CHECK(resource_release(bigint_resource_handle(n.b)) == OK, "wrong-status", "releasing a number failed"); A.release(); check_no_leaks("after releasing all numbers");
}
}
