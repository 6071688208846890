// Rare large histories: more elements, identifiers, callbacks or bytes than fit sixteen bits.
#include "psockkit.hpp"
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/string.h>
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_string_as(rcpr);

namespace {
const size_t K64 = 65536;
void must(status r, const char* what) { CHECK(r == OK, "wrong-status", "%s returned 0x%x", what, r); }
size_t large() { static const size_t n[] = {K64 + 1, K64, K64 + 2, K64 + 300, K64 + 3000}; return n[choose(5)]; }

// ---------------------------------------------------------------- sequences
SCENARIO(L01, large_sequences, 1) {
    items_reset(); Alloc A; set_step_limit(20000000); allocator* a = A.a; size_t n = large(); int kind = choose(3); uint32_t heads = choose(3) ? 0 : 1 + choose(1000); std::deque<Item*> m; list* l = nullptr; slist* s = nullptr; queue* q = nullptr;
    if (kind == 0) must(list_create(&l, a), "creating a list"); else if (kind == 1) must(slist_create(&s, a), "creating a list"); else must(queue_create(&q, a), "creating a queue");
    auto count = [&]() -> size_t { return kind == 0 ? list_count(l) : kind == 1 ? slist_count(s) : queue_count(q); };
    auto counted = [&] { CHECK(count() == m.size(), "wrong-count", "%zu elements are counted, %zu are stored", count(), m.size()); };
    auto pop = [&] { resource* r = nullptr; must(kind == 0 ? list_pop(l, &r) : kind == 1 ? slist_pop(s, &r) : queue_pop(q, &r), "pop"); CHECK(r && item_of(r) == m.front(), "wrong-element", "another element was popped than the first one"); m.pop_front(); item_drop(item_of(r)); };
    ev("large", kind, (int64_t)n, heads);
    for (size_t i = 0; i < n; ++i) {
        Item* it = item_new((int64_t)i); bool h = heads && i % heads == 0; resource* r = item_res(it);
        if (h) { must(kind == 0 ? list_insert_head(l, r) : kind == 1 ? slist_insert_head(s, r) : queue_insert(q, r), "insert"); m.push_front(it); } else { must(kind == 0 ? list_append_tail(l, r) : kind == 1 ? slist_append_tail(s, r) : queue_append(q, r), "append"); m.push_back(it); }
        if (i % 4096 < 2 || i + 2 > K64) counted();
    }
    size_t i = 0;
    if (kind == 0) { list_node *x = nullptr, *y = nullptr; must(list_head(&x, l), "head"); for (; x; x = y, ++i) { resource* r = nullptr; must(list_node_child(&r, x), "child"); CHECK(i < n && item_of(r) == m[i], "wrong-element", "position %zu holds another element", i); must(list_node_next(&y, x), "next"); } CHECK(i == n, "lost-element", "%zu of %zu elements were visited", i, n); }
    if (kind == 1) { slist_node *x = nullptr, *y = nullptr; must(slist_head(&x, s), "head"); for (; x; x = y, ++i) { resource* r = nullptr; must(slist_node_child(&r, x), "child"); CHECK(i < n && item_of(r) == m[i], "wrong-element", "position %zu holds another element", i); must(slist_node_next(&y, x), "next"); } CHECK(i == n, "lost-element", "%zu of %zu elements were visited", i, n); }
    for (size_t k = choose(2) ? choose(4000) : m.size() - choose(20); k; --k) { pop(); if (m.size() % 4096 < 2 || (m.size() + 4 > K64 && m.size() < K64 + 4)) counted(); }
    counted(); mark_state(mix64(n * 4 + kind));
    must(resource_release(kind == 0 ? list_resource_handle(l) : kind == 1 ? slist_resource_handle(s) : queue_resource_handle(q)), "releasing a container"); CHECK(items_live() == 0, "leaked-resource", "%zu elements were not released with their container", items_live()); A.release(); check_no_leaks("after a large container");
}
// ---------------------------------------------------------------- tree
struct TC { uint64_t n; };
rcpr_comparison_result tcmp(void* c, const void* l, const void* r) { ((TC*)c)->n++; int64_t a = *(const int64_t*)l, b = *(const int64_t*)r; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* tkey(void*, const resource* r) { return &((const Item*)r)->val; }
SCENARIO(R01, large_tree, 1) {
    items_reset(); Alloc A; set_step_limit(20000000); TC tc{0}; rbtree* t = nullptr; must(rbtree_create(&t, A.a, &tcmp, &tkey, &tc), "creating a tree"); size_t n = large(); int how = choose(3); std::map<int64_t, Item*> m;
    auto key = [&](size_t i) -> int64_t { return how == 0 ? (int64_t)i : how == 1 ? -(int64_t)i : (int64_t)(i * 40503u % 131072u); };  // (odd factor: a permutation)
    auto counted = [&] { CHECK(rbtree_count(t) == m.size(), "wrong-count", "%zu elements are counted, %zu are stored", (size_t)rbtree_count(t), m.size()); };
    ev("large", how, (int64_t)n);
    for (size_t i = 0; i < n; ++i) { Item* it = item_new(key(i)); uint64_t c0 = tc.n; must(rbtree_insert(t, item_res(it)), "insert"); CHECK(tc.n - c0 <= 80, "superlogarithmic", "inserting into %zu elements took %lu comparisons", i, (unsigned long)(tc.n - c0)); m[it->val] = it; if (i % 4096 < 2 || i + 2 > K64) counted(); }
    auto walk = [&] { auto e = m.begin(); size_t i = 0; for (rbtree_node* x = rbtree_minimum_node(t, rbtree_root_node(t)); x != rbtree_nil_node(t); x = rbtree_successor_node(t, x), ++e, ++i) CHECK(e != m.end() && item_of(rbtree_node_value(t, x)) == e->second, "wrong-order", "position %zu holds another element", i); CHECK(e == m.end(), "lost-element", "%zu of %zu elements were visited", i, m.size()); };
    walk(); uint32_t k = choose(5000);
    for (; k && !m.empty(); --k) { int64_t want = key(choose(2) ? k : n - k); auto e = m.find(want); resource* r = nullptr; status s = rbtree_delete(&r, t, &want); if (e == m.end()) { CHECK(s == ERROR_RBTREE_NOT_FOUND, "wrong-status", "deleting an absent key returned 0x%x", s); continue; } must(s, "delete"); CHECK(item_of(r) == e->second, "wrong-element", "another element was deleted"); m.erase(e); item_drop(item_of(r)); if (m.size() + 4 > K64 && m.size() < K64 + 4) counted(); }
    counted(); walk(); for (int i = 0; i < 50; ++i) { int64_t want = key(choose((uint32_t)n)); resource* r = nullptr; uint64_t c0 = tc.n; status s = rbtree_find(&r, t, &want); CHECK(m.count(want) ? s == OK && item_of(r) == m[want] : s == ERROR_RBTREE_NOT_FOUND, "wrong-element", "finding a key returned 0x%x", s); CHECK(tc.n - c0 <= 80, "superlogarithmic", "a search among %zu elements took %lu comparisons", m.size(), (unsigned long)(tc.n - c0)); }
    mark_state(mix64(n * 4 + how)); must(resource_release(rbtree_resource_handle(t)), "releasing a tree"); CHECK(items_live() == 0, "leaked-resource", "%zu elements were not released with their tree", items_live()); A.release(); check_no_leaks("after a large tree");
}
// ---------------------------------------------------------------- strings
SCENARIO(S01, large_strings, 1) {
    Alloc A; set_step_limit(1000000); static const size_t ls[] = {K64, K64 - 1, K64 + 1, 2 * K64, 2 * K64 - 1, 100000, 300000, 1, 0};
    for (uint32_t k = 1 + choose(3); k; --k) {
        uint32_t n = choose(4); std::vector<std::string> in; std::string want; for (uint32_t i = 0; i <= n; ++i) { size_t l = ls[choose(9)]; std::string s(l, 'x'); for (size_t j = 0; j < l; j += 1 + l / 97) s[j] = (char)('a' + (j * 7 + i) % 26); want += s; in.push_back(s); }
        char* out = nullptr; allocator* al = A.a; if (n == 0) must(rcpr_strdup(&out, al, in[0].c_str()), "copying a string"); else { auto at = [&](uint32_t i) { return i < in.size() ? in[i].c_str() : (const char*)nullptr; }; must(rcpr_strcatv(&out, al, at(0), at(1), at(2), at(3), (char*)nullptr), "joining strings"); } ev("large", n, (int64_t)want.size());
        CHECK(block_live(out) && block_size(out) >= want.size() + 1, "bad-result", "a string of %zu bytes lies in %zu bytes", want.size() + 1, block_size(out)); CHECK(!memcmp(out, want.c_str(), want.size() + 1), "wrong-value", "a string of %zu bytes was not copied exactly", want.size()); must(allocator_reclaim(al, out), "reclaiming a string"); mark_state(mix64(want.size()));
    }
    A.release(); check_no_leaks("after large strings");
}
// ---------------------------------------------------------------- long lines and large reads of a buffered reader
SCENARIO(P05, large_lines, 1) {
    Alloc A; faults_config({F_READ_SHORT}); set_step_limit(8000000); static const size_t ls[] = {K64, K64 - 1, K64 + 1, 70000, 2 * K64, 2 * K64 + 1, 16384, 10, 0}; std::string c; std::vector<size_t> lines; uint32_t n = 1 + choose(4);
    for (uint32_t i = 0; i < n; ++i) { size_t l = ls[choose(9)]; lines.push_back(l); std::string s(l, 'y'); for (size_t j = 0; j < l; j += 1 + l / 211) s[j] = (char)('a' + (j * 11 + i) % 26); c += s + "\n"; }
    UCtx u; psock* s = nullptr; bool fd = choose(2); Source q; if (fd) { auto p = k_pair(false, 300000, 300000); s = fd_psock(A.a, std::move(p.first)); q.f = p.second; q.data = c; source_actor(&q); } else s = buf_psock(A.a, &c); (void)u;
    Br b = br_make(A.a, s); size_t pos = 0; ev("large", n, (int64_t)c.size(), fd);
    while (pos < c.size()) {
        step(); size_t nl = c.find('\n', pos), L = nl - pos; static const int d[] = {2, 1, 0, 3, 1000}; size_t cap = choose(3) ? std::max<size_t>(2, L + d[choose(5)]) : choose(2) ? K64 + choose(4) : choose(2) ? 2 * K64 + choose(4) : 200000, sz = cap; char* buf = (char*)user_alloc(cap); status r = psock_br_read_line(buf, &sz, b.br); ev("line", (int64_t)cap, (int64_t)L, r);
        if (L + 1 < cap || r == OK) { CHECK(r == OK, "wrong-status", "reading a line of %zu bytes into %zu bytes returned 0x%x", L, cap, r); CHECK(sz == L + 1, "wrong-line", "a line of %zu bytes was returned as one of %zu", L, sz - 1); CHECK(!memcmp(buf, c.data() + pos, L) && buf[L] == 0, "wrong-value", "a line of %zu bytes was not read exactly", L); pos += L + 1; }
        else { CHECK(r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED && sz == cap - 1, "wrong-size", "a line of %zu bytes read into %zu bytes returned 0x%x with size %zu", L, cap, r, sz); CHECK(!memcmp(buf, c.data() + pos, sz) && buf[sz] == 0, "wrong-value", "a part of a line of %zu bytes was not read exactly", L); pos += sz; }
        user_free(buf); mark_state(mix64(L * 3 + (r == OK)));
    }
    faults_disable(); br_drop(b); psock_drop(s); CHECK(fd_count() == 0, "descriptor-leak", "descriptors are left"); A.release(); check_no_leaks("after reading large lines");
}
// ---------------------------------------------------------------- fibers
struct Big { fiber_scheduler* s = nullptr; psock* p[2] = {nullptr, nullptr}; fiber* f[2] = {nullptr, nullptr}; std::string data[2]; bool wdone[2] = {false, false}, rdone[2] = {false, false}; bool duplex = false, whole = true; size_t cap[2]; int left = 2; Alloc::Pick* a = nullptr; struct Arg { Big* w; int i; } arg[2]; Big* inner = nullptr; };
void big_events(Big& w);
void big_write(Big* B, int i, const std::string& d) { char* c = (char*)user_alloc(d.size()); memcpy(c, d.data(), d.size()); must(psock_write_raw_data(B->p[i], c, d.size()), "a large write"); CHECK(!memcmp(c, d.data(), d.size()), "memory-changed", "a large write changed the caller's memory"); user_free(c); B->wdone[i] = true; }
void big_read(Big* B, int i, const std::string& d) {
    size_t want = d.size(), pos = 0; char* c = (char*)user_alloc(want); if (B->whole) { void* o = nullptr; allocator* a = *B->a; must(psock_read_raw_data(B->p[i], a, &o, want), "a large read"); CHECK(block_live(o) && block_size(o) >= want, "bad-result", "a large read did not yield an allocation of that size"); memcpy(c, o, want); must(allocator_reclaim(a, o), "reclaiming"); pos = want; }
    while (pos < want) { size_t n = want - pos; status r = psock_read_raw(B->p[i], c + pos, &n); if (r == ERROR_PSOCK_READ_WOULD_BLOCK) { must(psock_read_block(B->p[i]), "waiting for bytes"); continue; } CHECK(r == OK && n >= 1 && n <= want - pos, "wrong-size", "a large read of %zu bytes returned 0x%x with %zu bytes", want - pos, r, n); pos += n; }
    CHECK(!memcmp(c, d.data(), want), "wrong-value", "%zu bytes were not transferred exactly", want); user_free(c); B->rdone[i] = true;
}
status big_main(void* x) { Big::Arg* g = (Big::Arg*)x; Big* B = g->w; int i = g->i; if (i == 0) { big_write(B, 0, B->data[0]); if (B->inner) while (B->inner->left) big_events(*B->inner); if (B->duplex) big_read(B, 0, B->data[1]); } else { big_read(B, 1, B->data[0]); if (B->duplex) big_write(B, 1, B->data[1]); } return OK; }
void big_make(Big& w, Alloc& A, bool small, uint32_t stack) {
    { NoFaults nf; w.a = &A.a; must(fiber_scheduler_create_with_disciplines(&w.s, A.a), "creating a scheduler"); }
    static const size_t cs[] = {300000, K64, 4096, 2 * K64, K64 + 1}, ns[] = {K64, 2 * K64, 4 * K64, K64 - 1, K64 + 1, 3 * K64 + 1, 200000}, cs2[] = {1, 7, 64, 4096, 300000}, ns2[] = {1, 63, 64, 65, 1000, 4097, 10000}; for (int i = 0; i < 2; ++i) w.cap[i] = (small ? cs2 : cs)[choose(5)]; w.duplex = choose(2); w.whole = choose(2) == 0;
    for (int i = 0; i < 2; ++i) { size_t n = (small ? ns2 : ns)[choose(7)]; w.data[i].assign(n, 0); uint64_t x = mix64(n + i + choose(100)); for (size_t j = 0; j < n; ++j) { if (j % 8 == 0) x = mix64(x + 1); w.data[i][j] = (char)(x >> (8 * (j % 8))); } ev("large", i, (int64_t)n, (int64_t)w.cap[i]); mark_state(mix64(n * 8 + w.cap[i])); }
    auto p = k_pair(false, w.cap[0], w.cap[1]); int fd[2] = {fd_install(p.first), fd_install(p.second)}; p.first.reset(); p.second.reset();
    for (int i = 0; i < 2; ++i) { NoFaults nf; w.arg[i] = {&w, i}; must(fiber_create(&w.f[i], A.a, w.s, stack, &w.arg[i], &big_main), "creating a fiber"); psock* d = nullptr; must(psock_create_from_descriptor(&d, A.a, fd[i]), "creating a socket"); must(psock_create_wrap_async(&w.p[i], A.a, w.f[i], d), "wrapping a socket"); }
    for (int i = 0; i < 2; ++i) { NoFaults nf; must(fiber_scheduler_add(w.s, w.f[i]), "adding a fiber"); }
}
void big_events(Big& w) { const rcpr_uuid* id; int e; void* x; must(disciplined_fiber_scheduler_receive_management_event(w.s, &id, &e, &x), "waiting for management events"); ev("event", e); if (e != FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP) return; NoFaults nf; must(disciplined_fiber_scheduler_remove_fiber(w.s, (fiber*)x), "removing a fiber"); CHECK(x == w.f[0] || x == w.f[1], "foreign-fiber", "a scheduler reported a fiber that is not its own as stopped"); for (int i = 0; i < 2; ++i) if (w.f[i] == x) psock_drop(w.p[i]); must(resource_release(fiber_resource_handle((fiber*)x)), "releasing a fiber"); --w.left; }
void big_end(Big& w) { CHECK(w.wdone[0] && w.rdone[1] && (!w.duplex || (w.wdone[1] && w.rdone[0])), "unfinished", "a transfer did not finish"); must(resource_release(fiber_scheduler_resource_handle(w.s)), "releasing the scheduler"); }
void big_closed(Alloc& A) { CHECK(fd_count() == 0, "descriptor-leak", "descriptors are left"); A.release(); check_no_leaks("after transfers"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left"); }
SCENARIO(P03, large_io, 4, PLAT_BOTH) {
    Alloc A; faults_config({F_READ_SHORT, F_WRITE_SHORT, F_POLL_EINTR, F_POLL_SPURIOUS}); set_step_limit(8000000); Big w; big_make(w, A, false, 65536); while (w.left) big_events(w);
    faults_disable(); big_end(w); big_closed(A);
}
// several schedulers of one thread, each with an event loop and sockets of its own, in turn or one inside a fiber of another
SCENARIO(P03, several_loops, 40, PLAT_BOTH) {
    Alloc A; faults_config({F_READ_SHORT, F_WRITE_SHORT, F_POLL_EINTR, F_POLL_SPURIOUS}); set_step_limit(2000000); uint32_t n = 2 + choose(3); std::deque<Big> ws(n); std::vector<Big*> top;
    for (uint32_t i = 0; i < n; ++i) big_make(ws[i], A, true, 262144);
    for (uint32_t i = 0; i < n; ++i) if (i && choose(3) == 0 && !ws[i - 1].inner) { ws[i - 1].inner = &ws[i]; ev("inside", i, i - 1); } else top.push_back(&ws[i]);
    for (;;) { step(); std::vector<Big*> c; for (auto w : top) if (w->left) c.push_back(w); if (c.empty()) break; Big* w = c[choose((uint32_t)c.size())]; ev("turn", (int64_t)(std::find(top.begin(), top.end(), w) - top.begin())); big_events(*w); if (!w->left && choose(2)) { bool f = true; for (Big* x = w; x; x = x->inner) if (x->left) f = false; CHECK(f, "unfinished", "a scheduler inside another one did not finish"); } }
    faults_disable(); while (n) { uint32_t i = choose((uint32_t)ws.size()); if (!ws[i].s) continue; big_end(ws[i]); ws[i].s = nullptr; --n; } big_closed(A);
}
// identifiers are handed out, taken back and handed out again while a few stay in use
struct Churn { fiber_scheduler* s = nullptr; fiber_scheduler_discipline* d = nullptr; std::vector<uint64_t> keep; std::set<uint64_t> open; };
template <class Mk, class Cl> void churn(Churn& c, size_t n, uint32_t at_once, Mk mk, Cl cl) {
    std::deque<uint64_t> q; size_t every = 1 + choose(40000);
    for (size_t i = 0; i < n; ++i) {
        uint64_t a = mk(); CHECK(c.open.insert(a).second, "duplicate-address", "a new one got the number %lu of one that is open", (unsigned long)a);
        if (i % every == 0 && c.keep.size() < 6) c.keep.push_back(a); else { q.push_back(a); if (q.size() >= at_once) { cl(q.front()); c.open.erase(q.front()); q.pop_front(); } }
    }
    for (auto a : q) { cl(a); c.open.erase(a); }
}
SCENARIO(M02, many_mailboxes, 1) {
    items_reset(); Alloc A; set_step_limit(20000000); Churn c; must(fiber_scheduler_create_with_disciplines(&c.s, A.a), "creating a scheduler"); must(message_discipline_get_or_create(&c.d, A.a, c.s), "creating a discipline"); size_t n = large(); ev("large", (int64_t)n);
    static std::map<uint64_t, std::pair<message*, Item*>>* sent; std::map<uint64_t, std::pair<message*, Item*>> ms; sent = &ms; uint32_t at_once = 1 + choose(3) * choose(20); size_t nk = 0;
    churn(c, n, at_once, [&]() -> uint64_t {
        for (; nk < c.keep.size(); ++nk) { Item* it = item_new((int64_t)nk); message* m = nullptr; must(message_create(&m, A.a, nk, item_res(it)), "creating a message"); must(message_send(c.keep[nk], m, c.d), "sending a message"); ms[c.keep[nk]] = {m, it}; }
        mailbox_address a = 0; must(mailbox_create(&a, c.d), "creating a mailbox"); CHECK(a != MESSAGE_ADDRESS_NONE, "duplicate-address", "a new mailbox got the address that means none"); return a; }, [&](uint64_t a) { must(mailbox_close(a, c.d), "closing a mailbox"); });
    for (auto& m : ms) { message* r = nullptr; must(message_receive(m.first, &r, c.d), "receiving a message sent earlier"); CHECK(r == m.second.first && message_payload(r, false) == item_res(m.second.second), "wrong-message", "mailbox %lu delivered another message than was sent to it", (unsigned long)m.first); must(resource_release(message_resource_handle(r)), "releasing a message"); }
    for (auto a : c.keep) if (choose(2)) must(mailbox_close(a, c.d), "closing a mailbox");
    mark_state(mix64(n + c.keep.size() + at_once)); must(resource_release(fiber_scheduler_resource_handle(c.s)), "releasing the scheduler"); CHECK(items_live() == 0, "leaked-resource", "a payload was not released"); A.release(); check_no_leaks("after many mailboxes");
}
// more messages than fit sixteen bits wait in one mailbox while a fiber takes some of them
struct Drain { fiber_scheduler_discipline* d; mailbox_address a; std::deque<std::pair<message*, Item*>> q; size_t take; mailbox_address ret; };
void drain(Drain* w, size_t n) { for (; n && !w->q.empty(); --n) { message* r = nullptr; must(message_receive(w->a, &r, w->d), "receiving a message sent earlier"); CHECK(r == w->q.front().first, "wrong-message", "with %zu messages waiting, another one than the oldest was received", w->q.size()); CHECK(message_payload(r, false) == item_res(w->q.front().second), "wrong-payload", "a message lost its payload"); CHECK(message_return_address(r) == w->ret + (uint64_t)w->q.front().second->val, "wrong-address", "a message lost its return address"); w->q.pop_front(); must(resource_release(message_resource_handle(r)), "releasing a message"); } }
status drain_main(void* x) { Drain* w = (Drain*)x; drain(w, w->take); return OK; }
SCENARIO(M01, large_mailbox, 1) {
    items_reset(); Alloc A; set_step_limit(20000000); fiber_scheduler* s = nullptr; must(fiber_scheduler_create_with_disciplines(&s, A.a), "creating a scheduler"); Drain w; must(message_discipline_get_or_create(&w.d, A.a, s), "creating a discipline"); must(mailbox_create(&w.a, w.d), "creating a mailbox"); size_t n = large(); static const uint64_t rs[] = {1, 0xffffffffull - 100, 1ull << 32, 1ull << 63, ~0ull - 200000}; w.ret = rs[choose(5)]; w.take = choose(2) ? choose(3000) : n; ev("large", (int64_t)n, (int64_t)w.take, (int64_t)w.ret);
    size_t burst = 1 + choose(20000);
    for (size_t i = 0; i < n; ++i) { Item* it = item_new((int64_t)i); message* m = nullptr; must(message_create(&m, A.a, w.ret + i, item_res(it)), "creating a message"); must(message_send(w.a, m, w.d), "sending a message"); w.q.push_back({m, it}); if (i % burst == 0 && choose(2)) drain(&w, choose(3)); }
    fiber* f = nullptr; must(fiber_create(&f, A.a, s, 65536, &w, &drain_main), "creating a fiber"); size_t before = w.q.size(); must(fiber_scheduler_add(s, f), "adding a fiber"); must(fiber_scheduler_run(s), "running the fiber"); CHECK(before - w.q.size() == std::min(before, w.take), "lost-wakeup", "a fiber that can receive %zu messages received %zu", std::min(before, w.take), before - w.q.size());
    if (choose(2)) drain(&w, w.q.size()); if (choose(2)) must(mailbox_close(w.a, w.d), "closing a mailbox"); mark_state(mix64(n * 3 + w.take));
    must(resource_release(fiber_scheduler_resource_handle(s)), "releasing the scheduler"); CHECK(items_live() == 0, "leaked-resource", "%zu payloads were not released", items_live()); A.release(); check_no_leaks("after a large mailbox"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
}
Churn* CH; int g_woken;
status wait_main(void* x) { uint64_t a = *(uint64_t*)x; must(conditional_wait(a, CH->d), "waiting on a conditional"); CHECK(CH->open.count(a | 1ull << 63), "spurious-resume", "a fiber waiting on conditional %lu was woken by another one", (unsigned long)a); g_woken++; return OK; }
SCENARIO(C01, many_conditionals, 1) {
    Alloc A; set_step_limit(20000000); Churn c; CH = &c; g_woken = 0; must(fiber_scheduler_create_with_disciplines(&c.s, A.a), "creating a scheduler"); must(condition_discipline_get_or_create(&c.d, A.a, c.s), "creating a discipline"); size_t n = large(); ev("large", (int64_t)n); uint32_t at_once = 1 + choose(3) * choose(20);
    std::vector<uint64_t*> ctx; size_t nk = 0;
    churn(c, n, at_once, [&]() -> uint64_t {
        for (; nk < c.keep.size(); ++nk) { ctx.push_back(new uint64_t(c.keep[nk])); fiber* f = nullptr; must(fiber_create(&f, A.a, c.s, 65536, ctx.back(), &wait_main), "creating a fiber"); must(fiber_scheduler_add(c.s, f), "adding a fiber"); must(fiber_scheduler_run(c.s), "running the others"); }
        conditional a = 0; must(conditional_create(&a, c.d), "creating a conditional"); return a; }, [&](uint64_t a) { must(conditional_notify_all(a, c.d), "notifying"); must(conditional_close(a, c.d), "closing a conditional"); });
    for (size_t i = 0; i < nk; ++i) { CHECK(g_woken == (int)i, "lost-wakeup", "%d fibers were woken by %zu notifications", g_woken, i); c.open.insert(c.keep[i] | 1ull << 63); must(conditional_notify_one(c.keep[i], c.d), "notifying"); if (g_woken == (int)i) must(fiber_scheduler_run(c.s), "running the others"); c.open.erase(c.keep[i] | 1ull << 63); }
    CHECK(g_woken == (int)nk, "lost-wakeup", "%d fibers were woken by %zu notifications", g_woken, nk);
    for (auto a : c.keep) if (choose(2)) must(conditional_close(a, c.d), "closing a conditional");
    mark_state(mix64(n + c.keep.size() + at_once)); must(resource_release(fiber_scheduler_resource_handle(c.s)), "releasing the scheduler"); A.release(); check_no_leaks("after many conditionals"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left"); for (auto p : ctx) delete p; CH = nullptr;
}
// ---------------------------------------------------------------- disciplines with many request codes
struct Wd { fiber_scheduler* s; int id; rcpr_uuid u; size_t n; int calls = 0; int which = -1; };
template <int J> status wide_cb(void* ctx, fiber* yf, int ev_, void* yp) { Wd* d = (Wd*)ctx; d->calls++; d->which = J; CHECK(yp == d, "wrong-discipline", "a request reached a handler of another discipline"); (void)ev_; return disciplined_fiber_scheduler_set_next_fiber_to_run(d->s, yf, &d->u, J, d); }
SCENARIO(F03, many_codes, 1) {
    Alloc A; set_step_limit(8000000); fiber_scheduler* s = nullptr; must(fiber_scheduler_create_with_disciplines(&s, A.a), "creating a scheduler"); static const size_t ns[] = {40000, K64, 30000, 3, K64 - 1, K64 + 1, 100000}; std::vector<Wd*> ds; std::vector<fiber_scheduler_discipline*> dp; uint32_t nd = 1 + choose(4);
    fiber_scheduler_discipline_callback_fn fn[7] = {&wide_cb<0>, &wide_cb<1>, &wide_cb<2>, &wide_cb<3>, &wide_cb<4>, &wide_cb<5>, &wide_cb<6>};
    for (uint32_t i = 0; i < nd; ++i) {
        Wd* d = new Wd{s, (int)i, {}, ns[choose(7)]}; memset(&d->u, (int)(0x40 + i), sizeof d->u); std::vector<fiber_scheduler_discipline_callback_fn> v(d->n); for (size_t k = 0; k < d->n; ++k) v[k] = fn[(k + i) % 7]; fiber_scheduler_discipline* p = nullptr; must(fiber_scheduler_discipline_create(&p, &d->u, A.a, d, d->n, v.data()), "creating a discipline"); must(fiber_scheduler_discipline_add(s, p), "adding a discipline"); ds.push_back(d); dp.push_back(p); ev("codes", i, (int64_t)d->n);
        for (int k = 0; k < 8; ++k) {
            uint32_t j = choose(i + 1); Wd* t = ds[j]; size_t code = choose(3) == 0 ? 0 : choose(2) ? t->n - 1 : choose((uint32_t)t->n); int c0 = t->calls; t->which = -1; const rcpr_uuid* id = nullptr; int e = -1; void* x = nullptr; status r = fiber_discipline_yield(dp[j], (int)code, t, &id, &e, &x); ev("yield", j, (int64_t)code, r);
            must(r, "a request to a discipline"); CHECK(t->calls == c0 + 1 && t->which == (int)((code + j) % 7), "wrong-handler", "request %zu of discipline %u of %zu requests reached handler %d instead of %d", code, j, t->n, t->which, (int)((code + j) % 7)); CHECK(id && !memcmp(id, &t->u, sizeof *id) && e == t->which && x == t, "wrong-event", "a fiber was resumed with another event than it was given"); mark_state(mix64(t->n * 8 + e));
        }
    }
    must(resource_release(fiber_scheduler_resource_handle(s)), "releasing the scheduler"); for (auto d : ds) delete d; A.release(); check_no_leaks("after disciplines with many requests");
}
}
// ---------------------------------------------------------------- sizes beyond 32 bits, over address space that is reserved and hardly touched
#include <rcpr/allocator.h>
#include <rcpr/resource.h>
#include <rcpr/vtable.h>
#include <sys/mman.h>
#include <unistd.h>
namespace {
const size_t G1 = (size_t)1 << 30, G4 = 4 * G1, SPACE = 14 * G1; uint8_t* const SPACE_AT = (uint8_t*)0x6f0000000000ull;
// `folded`: every 64 MiB show the same memory, so that code gone wrong cannot use up the machine's memory
struct Space {
    uint8_t* p; Space(bool folded) {
        const int how = PROT_READ | PROT_WRITE; const size_t F = 64 << 20; p = (uint8_t*)mmap(SPACE_AT, SPACE, how, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); bool ok = p == SPACE_AT;
        if (ok && folded) { int fd = memfd_create("space", 0); ok = fd >= 0 && !ftruncate(fd, F); for (size_t o = 0; ok && o < SPACE; o += F) ok = mmap(SPACE_AT + o, F, how, MAP_SHARED | MAP_FIXED, fd, 0) == SPACE_AT + o; if (fd >= 0) close(fd); }
        if (!ok) { fprintf(stderr, "no address space\n"); _exit(3); }
    }
    ~Space() { munmap(SPACE_AT, SPACE); }
};
size_t huge() { static const size_t n[] = {G4 + 1, G4, G4 + 7, G4 - 1, G4 + 4096, 5 * G1, 2 * G1, 2 * G1 - 1, 2 * G1 + 1, 6 * G1 - 1}; return n[choose(10)]; }
struct HCtx { const uint8_t* base; size_t total, pos = 0; std::function<size_t(size_t)> share; const char* what; };
size_t h_take(HCtx* c, const void* data, size_t n) {
    step(); CHECK((const uint8_t*)data == c->base + c->pos, "wrong-place", "after %zu of %zu bytes, %s went on at offset %td", c->pos, c->total, c->what, (const uint8_t*)data - c->base); CHECK(n >= 1 && n <= c->total - c->pos, "wrong-size", "after %zu of %zu bytes, %s went on with %zu bytes", c->pos, c->total, c->what, n); n = c->share(n); ev("share", (int64_t)c->pos, (int64_t)n); c->pos += n; return n;
}
status h_read(psock*, void* x, void* data, size_t* size, bool) { *size = h_take((HCtx*)x, data, *size); return OK; }
status h_write(psock*, void* x, const void* data, size_t* size) { *size = h_take((HCtx*)x, data, *size); return OK; }
status h_release(psock*, void*) { return OK; }
RCPR_VTABLE psock_vtable huge_psock_vtable = { {nullptr}, &h_read, &h_write, nullptr, nullptr, nullptr, nullptr, &h_release };
size_t h_share(size_t n) { static const size_t k[] = {1, G1, 2 * G1, G4, 65536, G4 - 1, G4 + 1, 3 * G1}; size_t v = choose(3) == 0 ? n : k[choose(8)]; return std::min(v, n); }
SCENARIO(P01, huge_transfers, 2) {
    Space sp(true); Alloc A; set_step_limit(4000000); allocator* region = nullptr; must(bump_allocator_create(&region, sp.p + 7 * G1, 7 * G1), "creating an allocator"); size_t tot = huge(); HCtx c{sp.p, tot, 0, nullptr, "a write"}; int left = 40; c.share = [&](size_t n) { return left-- > 0 ? h_share(n) : n; }; psock* s = nullptr; must(psock_create_from_user_methods(&s, A.a, &c, &huge_psock_vtable), "creating a socket"); ev("huge", (int64_t)tot);
    if (choose(2)) { must(psock_write_raw_data(s, sp.p, tot), "a write"); CHECK(c.pos == tot, "lost-bytes", "a write of %zu bytes ended after %zu", tot, c.pos); }
    else { void* o = nullptr; uint8_t* at = nullptr; { void* q = nullptr; must(allocator_allocate(region, &q, 16), "allocating"); at = (uint8_t*)q + 16; } c.base = at; c.what = "a read"; must(psock_read_raw_data(s, region, &o, tot), "a read"); CHECK(o == at, "bad-result", "a read of %zu bytes returned memory at offset %td from where its bytes are", tot, (uint8_t*)o - at); CHECK(c.pos == tot, "lost-bytes", "a read of %zu bytes ended after %zu", tot, c.pos); }
    mark_state(mix64(tot ^ c.pos << 1)); psock_drop(s); must(resource_release(allocator_resource_handle(region)), "releasing an allocator"); A.release(); check_no_leaks("after huge transfers");
}
// boxed values whose length just fits, or does not fit, the four bytes it has on the wire
struct XCtx { std::string head; const uint8_t* base = nullptr; uint64_t len = 0, pos = 0; const char* what = ""; };
status x_write(psock*, void* p, const void* data, size_t* size) {
    XCtx* c = (XCtx*)p; step(); ev("piece", (int64_t)*size); if (c->head.size() < 8) { CHECK(*size <= 8 - c->head.size(), "wire-encoding", "a boxed value starts with a piece of %zu bytes", *size); c->head.append((const char*)data, *size); return OK; }
    CHECK((const uint8_t*)data == c->base + c->pos, "wrong-place", "%s went on at offset %td", c->what, (const uint8_t*)data - c->base); c->pos += *size; return OK;
}
status x_read(psock*, void* p, void* data, size_t* size, bool) {
    XCtx* c = (XCtx*)p; step(); if (c->pos < 8) { *size = std::min<size_t>(*size, 8 - c->pos); memcpy(data, c->head.data() + c->pos, *size); c->pos += *size; return OK; }
    CHECK((uint8_t*)data == c->base + (c->pos - 8), "wrong-place", "the bytes of %s are stored somewhere else", c->what); CHECK(*size <= c->len - (c->pos - 8), "wrong-size", "%zu bytes are read of %s of %lu", *size, c->what, (unsigned long)c->len); c->pos += *size; return OK;
}
RCPR_VTABLE psock_vtable boxed_psock_vtable = { {nullptr}, &x_read, &x_write, nullptr, nullptr, nullptr, nullptr, &h_release };
std::string be32(uint64_t v) { std::string s; for (int i = 3; i >= 0; --i) s += (char)(v >> (8 * i)); return s; }
SCENARIO(P01, huge_boxed, 2) {
    Space sp(true); Alloc A; set_step_limit(4000); static const uint64_t ls[] = {G4 - 1, G4, G4 + 1, 2 * G1, 2 * G1 - 1, 2 * G1 + 1, G4 - 2, G4 + 5, 5 * G1, 3 * G1}; uint64_t n = ls[choose(10)]; bool write = choose(2), text = choose(24) == 0; if (write && !text && n > 0xffffffffull) n = 0xffffffffull; /* (more data may not be passed) */ XCtx c; c.what = text ? "a string" : "data"; c.len = n; psock* s = nullptr; must(psock_create_from_user_methods(&s, A.a, &c, &boxed_psock_vtable), "creating a socket"); ev("huge", (int64_t)n, text, write); int tag = vk_tag(text ? V_STR : V_DATA);
    if (write) {
        c.base = sp.p; if (text) { const size_t F = 64 << 20; memset(sp.p, 'x', F); uint8_t* last = sp.p + (n & ~(F - 1)); if (mmap(last, F, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != last) _exit(3); memset(last, 'x', n & (F - 1)); }
        status r = text ? psock_write_boxed_string(s, (const char*)sp.p) : psock_write_boxed_data(s, sp.p, n); ev("written", r); std::string want = be32(tag) + be32(n);
        if (n > 0xffffffffull) CHECK(r != OK, "false-success", "%s of %lu bytes, a length that cannot be sent, was sent as %s bytes", c.what, (unsigned long)n, std::to_string(n & 0xffffffffu).c_str());
        else if (r != OK) CHECK(text && n == 0xffffffffull && r == ERROR_PSOCK_WRITE_INVALID_SIZE, "wrong-status", "writing %s of %lu bytes returned 0x%x", c.what, (unsigned long)n, r);
        else { CHECK(c.head == want, "wire-encoding", "%s of %lu bytes starts with other bytes than its type and length", c.what, (unsigned long)n); CHECK(c.pos == n, "lost-bytes", "%lu of %lu bytes were sent", (unsigned long)c.pos, (unsigned long)n); }
    } else if (n <= 0xffffffffull) {
        allocator* region = nullptr; must(bump_allocator_create(&region, sp.p + 7 * G1, 7 * G1), "creating an allocator"); void* q = nullptr; must(allocator_allocate(region, &q, 16), "allocating"); c.base = (uint8_t*)q + 16; c.head = be32(tag) + be32(n); void* o = (void*)0x5; size_t m = 77; status r = text ? psock_read_boxed_string(s, region, (char**)&o, &m) : psock_read_boxed_data(s, region, &o, &m); ev("read", r, (int64_t)m);
        if (r != OK) CHECK(text && n == 0xffffffffull && r == ERROR_PSOCK_READ_BOXED_INVALID_SIZE && o == (void*)0x5 && m == 77, "wrong-status", "reading %s of %lu bytes returned 0x%x", c.what, (unsigned long)n, r);
        else { CHECK(o == c.base && m == n && c.pos == n + 8, "wrong-size", "%s of %lu bytes was read as one of %zu", c.what, (unsigned long)n, m); if (text) CHECK(!((char*)o)[n], "unterminated", "a string of %lu bytes is not terminated", (unsigned long)n); }
        must(resource_release(allocator_resource_handle(region)), "releasing an allocator");
    }
    mark_state(mix64(n * 4 + text * 2 + write)); psock_drop(s); A.release(); check_no_leaks("after huge boxed values");
}
SCENARIO(P05, huge_windows, 8) {
    Space sp(true); Alloc A; set_step_limit(400000); std::string t = bytes_gen(20 + choose(30000), true, choose(1000)); for (uint32_t k = choose(20); k; --k) t[choose((uint32_t)t.size())] = '\n'; UCtx u; u.in = t; u.chunk = chunk_gen; psock* s = nullptr; if (choose(2)) must(user_psock(&s, A.a, &u), "creating a socket"); else s = buf_psock(A.a, &t); bool buffered = choose(4) != 0; Br b; if (buffered) b = br_make(A.a, s); size_t pos = 0; uint8_t* w = sp.p + choose(3); ev("huge", (int64_t)t.size(), buffered);
    while (pos < t.size()) {
        step(); size_t cap = huge(), n = cap, had = t.size() - pos; memset(w, 0xEE, 8); bool line = buffered && choose(2);
        if (line) { size_t nl = t.find('\n', pos), L = nl == std::string::npos ? had : nl - pos; status r = psock_br_read_line(w, &n, b.br); ev("line", (int64_t)cap, r, (int64_t)n); CHECK(r == OK && n == L + 1, "wrong-line", "a line of %zu bytes read into a buffer of %zu returned 0x%x with %zu bytes", L, cap, r, n); CHECK(!memcmp(w, t.data() + pos, L) && !w[L], "wrong-value", "a line of %zu bytes was not read exactly", L); pos += L + (nl != std::string::npos); if (nl == std::string::npos) break; }
        else { status r = psock_read_raw(buffered ? b.s : s, w, &n); ev("read", (int64_t)cap, r, (int64_t)n); CHECK(r == OK && n >= 1 && n <= had, "wrong-size", "a read of up to %zu bytes with %zu left returned 0x%x with %zu bytes", cap, had, r, n); CHECK(!memcmp(w, t.data() + pos, n), "wrong-value", "%zu bytes were not read exactly", n); pos += n; }
        mark_state(mix64(cap * 4 + line));
    }
    if (buffered) br_drop(b); psock_drop(s); A.release(); check_no_leaks("after huge buffers");
}
SCENARIO(A03, huge_regions, 1) {
    Space sp(false); set_step_limit(200000); static const size_t ns[] = {G4, G4 + 64, G4 + 4096, 8 * G1, 12 * G1, G4 + 1000, 5 * G1 + 3, 2 * G1 + 100}; size_t n = ns[choose(8)]; uint8_t* reg = sp.p + choose(2) * 8; allocator* a = nullptr; must(bump_allocator_create(&a, reg, n), "creating an allocator"); uint8_t* end = reg + 128; ev("huge", (int64_t)n); struct B { uint8_t* p; size_t n; uint8_t v; }; std::vector<B> bs;
    for (uint32_t k = choose(40); k; --k) {
        step(); size_t left = end < reg + n ? (size_t)(reg + n - end) : 0, m = choose(3) == 0 ? huge() : choose(3) ? choose(100000) : choose(2) ? left + choose(3) * G4 : left > 200 ? left - choose(200) : left; void* p = nullptr; status r = allocator_allocate(a, &p, m); ev("alloc", (int64_t)m, r); uint8_t* st = (uint8_t*)(((uintptr_t)end + 15) & ~(uintptr_t)15); bool fits = st <= reg + n && m < (size_t)(reg + n - st);
        if (r != OK) { CHECK(is_oom(r), "wrong-status", "an allocation returned 0x%x", r); CHECK(!fits, "false-failure", "%zu bytes were refused though %zu are left", m, (size_t)(reg + n - st)); continue; }
        uint8_t* q = (uint8_t*)p; CHECK(q > reg && q <= reg + n && m <= (size_t)(reg + n - q), "out-of-region", "an allocation of %zu bytes was placed at offset %td of a region of %zu bytes", m, q - reg, n); CHECK(((uintptr_t)q & 15) == 0, "misaligned", "a block was placed at %p", p); for (auto& b : bs) CHECK(q + m <= b.p || b.p + b.n <= q || !m || !b.n, "overlap", "a block of %zu bytes overlaps a live one of %zu", m, b.n);
        uint8_t v = (uint8_t)(bs.size() + 1); if (m) { q[0] = v; q[m - 1] = v; q[m / 2] = v; } bs.push_back({q, m, v}); end = q + m; for (auto& b : bs) CHECK(!b.n || (b.p[0] == b.v && b.p[b.n - 1] == b.v && b.p[b.n / 2] == b.v), "overwritten", "a live block of %zu bytes changed", b.n); mark_state(mix64(m + bs.size()));
    }
    must(resource_release(allocator_resource_handle(a)), "releasing an allocator"); check_no_leaks("after a huge region");
}
}
// ---------------------------------------------------------------- several schedulers in one thread: messages and conditions of one are none of the others' business
namespace sim { namespace {
struct SMsg { message* m; Item* it; uint64_t ret; };
struct SSch; struct SWait { SSch* k; uint64_t a; bool done = false; };
struct SSch { fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; int id; std::map<uint64_t, std::deque<SMsg>> boxes; std::map<uint64_t, SWait*> rcv; std::map<uint64_t, std::deque<SWait*>> conds; std::vector<SWait*> all; uint64_t top = 3; };
void s_take(SSch* k, uint64_t a, message* r) {
    auto& q = k->boxes.at(a); CHECK(!q.empty(), "spurious-resume", "a message was received from mailbox %lu of scheduler %d, which holds none", (unsigned long)a, k->id); CHECK(r == q.front().m, "wrong-message", "another message than the oldest one of mailbox %lu of scheduler %d was received", (unsigned long)a, k->id); CHECK(message_payload(r, false) == item_res(q.front().it) && message_return_address(r) == q.front().ret, "wrong-payload", "a message of mailbox %lu was changed on its way", (unsigned long)a); q.pop_front(); must(resource_release(message_resource_handle(r)), "releasing a message");
}
status s_receiver(void* x) { SWait* w = (SWait*)x; message* r = nullptr; must(message_receive(w->a, &r, w->k->md), "waiting for a message"); ev("fiber-got", w->k->id, (int64_t)w->a); s_take(w->k, w->a, r); w->k->rcv.erase(w->a); w->done = true; return OK; }
status s_waiter(void* x) { SWait* w = (SWait*)x; must(conditional_wait(w->a, w->k->cd), "waiting on a conditional"); ev("fiber-woken", w->k->id, (int64_t)w->a); auto& q = w->k->conds.at(w->a); CHECK(!q.empty() && q.front() == w, "wrong-order", "a fiber waiting on conditional %lu of scheduler %d woke though it was not its turn", (unsigned long)w->a, w->k->id); q.pop_front(); w->done = true; return OK; }
void several_schedulers() {
    items_reset(); Alloc A; set_step_limit(4000000); std::vector<SSch*> ks; int ids = 0;
    auto open = [&] { auto* k = new SSch; k->id = ids++; must(fiber_scheduler_create_with_disciplines(&k->s, A.a), "creating a scheduler"); auto m = [&] { must(message_discipline_get_or_create(&k->md, A.a, k->s), "creating a discipline"); }; auto c = [&] { must(condition_discipline_get_or_create(&k->cd, A.a, k->s), "creating a discipline"); }; if (choose(2)) { m(); c(); } else { c(); m(); } ev("open", k->id); ks.push_back(k); };
    auto run = [&](SSch* k) { must(fiber_scheduler_run(k->s), "running the others"); };
    auto spawn = [&](SSch* k, uint64_t a, fiber_fn fn) { auto* w = new SWait{k, a}; k->all.push_back(w); fiber* f = nullptr; must(fiber_create(&f, A.a, k->s, 32768, w, fn), "creating a fiber"); must(fiber_scheduler_add(k->s, f), "adding a fiber"); run(k); return w; };
    auto shut = [&](size_t i) { SSch* k = ks[i]; ev("shut", k->id); ks.erase(ks.begin() + i); must(resource_release(fiber_scheduler_resource_handle(k->s)), "releasing a scheduler"); for (auto* w : k->all) delete w; delete k; };
    auto pick = [&](auto& m) { auto it = m.begin(); std::advance(it, choose((uint32_t)m.size())); return it->first; };
    for (uint32_t n = 2 + choose(2); n; --n) open();
    uint32_t brief = choose(3); for (uint32_t n = 20 + choose(200); n; --n) {
        if (brief == 2 && choose(5) == 0) { if (ks.size() > 1 && choose(2)) shut(choose((uint32_t)ks.size())); else if (ks.size() < 3) open(); }
        SSch* k = ks[choose((uint32_t)ks.size())]; mark_state(mix64(k->boxes.size() * 31 + k->conds.size() * 7 + k->rcv.size() + ks.size() * 1000));
        switch (choose(14)) {
        case 0: { mailbox_address a = 0; must(mailbox_create(&a, k->md), "creating a mailbox"); ev("mailbox", k->id, (int64_t)a); CHECK(a && !k->boxes.count(a), "duplicate-address", "a new mailbox has the address %lu of an open one", (unsigned long)a); k->boxes[a]; k->top = std::max<uint64_t>(k->top, a); break; }
        case 1: { conditional a = 0; must(conditional_create(&a, k->cd), "creating a conditional"); ev("conditional", k->id, (int64_t)a); CHECK(a && !k->conds.count(a), "duplicate-address", "a new conditional has the handle %lu of an open one", (unsigned long)a); k->conds[a]; k->top = std::max<uint64_t>(k->top, a); break; }
        case 2: case 3: case 4: case 5: { // sending, also to addresses that are open in another scheduler only
            uint64_t a = choose(4) == 0 || k->boxes.empty() ? 1 + choose((uint32_t)k->top + 1) : pick(k->boxes), ret = choose(100); Item* it = item_new((int64_t)n); message* m = nullptr; must(message_create(&m, A.a, ret, item_res(it)), "creating a message"); ev("send", k->id, (int64_t)a); bool known = k->boxes.count(a), waits = k->rcv.count(a); if (known) k->boxes[a].push_back({m, it, ret});
            status r = message_send(a, m, k->md); if (known) must(r, "sending a message"); else { CHECK(r != OK, "false-success", "a message was sent to address %lu, which is not open in scheduler %d", (unsigned long)a, k->id); must(resource_release(message_resource_handle(m)), "releasing a refused message"); }
            if (waits) { run(k); CHECK(!k->rcv.count(a), "lost-wakeup", "the fiber waiting on mailbox %lu of scheduler %d was not woken by a message", (unsigned long)a, k->id); } break; }
        case 6: case 7: { if (k->boxes.empty()) break; uint64_t a = pick(k->boxes); if (k->boxes[a].empty() || k->rcv.count(a)) break; ev("receive", k->id, (int64_t)a); message* r = nullptr; must(message_receive(a, &r, k->md), "receiving a message sent earlier"); s_take(k, a, r); break; }
        case 8: { if (k->boxes.empty()) break; uint64_t a = pick(k->boxes); if (k->rcv.count(a)) break; ev("receiver", k->id, (int64_t)a); bool have = !k->boxes[a].empty(); if (!have) { auto it = k->rcv.emplace(a, nullptr).first; SWait* v = spawn(k, a, &s_receiver); if (k->rcv.count(a)) it->second = v; CHECK(!v->done, "spurious-resume", "a fiber received from an empty mailbox"); } else { SWait* v = spawn(k, a, &s_receiver); CHECK(v->done, "lost-message", "a fiber waits though its mailbox %lu of scheduler %d holds a message", (unsigned long)a, k->id); } break; }
        case 9: { uint64_t a = choose(4) == 0 || k->boxes.empty() ? 1 + choose((uint32_t)k->top + 1) : pick(k->boxes); if (k->rcv.count(a)) break; ev("close", k->id, (int64_t)a); bool known = k->boxes.count(a); status r = mailbox_close(a, k->md); if (known) { must(r, "closing a mailbox"); k->boxes.erase(a); } else CHECK(r != OK, "false-success", "address %lu, which is not open in scheduler %d, was closed", (unsigned long)a, k->id); break; }
        case 10: { if (k->conds.empty()) break; uint64_t a = pick(k->conds); ev("waiter", k->id, (int64_t)a); auto& q = k->conds[a]; size_t before = q.size(); SWait* w = new SWait{k, a}; k->all.push_back(w); q.push_back(w); fiber* f = nullptr; must(fiber_create(&f, A.a, k->s, 32768, w, &s_waiter), "creating a fiber"); must(fiber_scheduler_add(k->s, f), "adding a fiber"); run(k); CHECK(!w->done && q.size() == before + 1, "spurious-resume", "a fiber that waits on conditional %lu of scheduler %d did not wait", (unsigned long)a, k->id); break; }
        case 11: case 12: { uint64_t a = choose(4) == 0 || k->conds.empty() ? 1 + choose((uint32_t)k->top + 1) : pick(k->conds); bool all = choose(2), known = k->conds.count(a); size_t had = known ? k->conds[a].size() : 0; ev("notify", k->id, (int64_t)a, all); status r = all ? conditional_notify_all(a, k->cd) : conditional_notify_one(a, k->cd); if (!known) { CHECK(r != OK, "false-success", "conditional %lu, which is not open in scheduler %d, was notified", (unsigned long)a, k->id); break; } must(r, "notifying"); run(k); size_t left = all || !had ? 0 : had - 1; CHECK(k->conds[a].size() == left, "lost-wakeup", "%zu of %zu fibers still wait on conditional %lu of scheduler %d after a notification of %s", k->conds[a].size(), had, (unsigned long)a, k->id, all ? "all" : "one"); break; }
        default: if (ks.size() < 4 && choose(3) == 0) open(); else if (ks.size() > 1 && choose(3) == 0) shut(choose((uint32_t)ks.size())); else if (choose(2)) { ev("run", k->id); run(k); } else { fiber_scheduler_discipline *d = nullptr, *e = nullptr; must(message_discipline_get_or_create(&d, A.a, k->s), "getting a discipline"); must(condition_discipline_get_or_create(&e, A.a, k->s), "getting a discipline"); CHECK(d == k->md && e == k->cd, "wrong-discipline", "scheduler %d has other disciplines than before", k->id); }
        }
    }
    while (!ks.empty()) shut(choose((uint32_t)ks.size()));
    CHECK(items_live() == 0, "leaked-resource", "%zu payloads were not released", items_live()); A.release(); check_no_leaks("after several schedulers"); CHECK(live_stacks() == 0, "stack-leak", "fiber stacks are left");
}
SCENARIO(M01, several_schedulers_m, 80) { several_schedulers(); }
SCENARIO(M02, several_schedulers_a, 50) { several_schedulers(); }
SCENARIO(C01, several_schedulers_c, 50) { several_schedulers(); }
} }
