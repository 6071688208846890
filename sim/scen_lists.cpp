// Sequence containers (list, slist, queue) against a reference sequence.
#include "common.hpp"
#include <rcpr/list.h>
#include <rcpr/slist.h>
#include <rcpr/queue.h>
RCPR_IMPORT_list;
RCPR_IMPORT_slist;
RCPR_IMPORT_queue;

typedef std::vector<Item*> Seq;
static void same(resource* got, Item* want, const char* what) {
    if (!want) { CHECK(got == nullptr, "wrong-element", "%s: a node without a resource holds one", what); return; }
    CHECK(got != nullptr, "lost-element", "%s: the resource of a node was lost", what);
    CHECK(item_of(got) == want, "wrong-element", "%s: another resource was found than the one stored here", what);
}
static uint64_t seq_fp(const Seq& m) { uint64_t h = m.size(); size_t k = 0; for (auto* i : m) { h = mix64(h ^ (i ? (uint64_t)(i->val & 3) + 1 : 0)); if (++k > 6) break; } return h; }
static void alloc_failed(status s, Item* it, int id, size_t lb, const char* what) {
    CHECK(is_oom(s), "wrong-status", "%s failed with 0x%x", what, s);
    CHECK(faults_fired() > 0, "wrong-status", "%s failed without a fault", what);
    CHECK(item_alive(id), "ownership", "a failed %s released the caller's resource", what);
    CHECK(live_blocks() == lb, "memory-leak", "a failed %s leaked memory", what);
    item_drop(it);
}
// what a removal hands back / releases
static void dropped(Seq& m) { for (auto* i : m) if (i) CHECK(!item_alive(i->id), "leaked-resource", "a cleared container left a resource unreleased"); }

// ---- doubly linked list -------------------------------------------------
struct DL { list* l; Seq m; };
static list_node* dl_node(DL& d, size_t i) {
    list_node* n = nullptr;
    bool back = choose(2);
    if (!back) { CHECK(list_head(&n, d.l) == OK, "wrong-status", "head failed"); for (size_t k = 0; k < i; ++k) { CHECK(n, "lost-element", "walking forwards ends early"); CHECK(list_node_next(&n, n) == OK, "wrong-status", "next failed"); } }
    else { CHECK(list_tail(&n, d.l) == OK, "wrong-status", "tail failed"); for (size_t k = d.m.size() - 1; k > i; --k) { CHECK(n, "lost-element", "walking backwards ends early"); CHECK(list_node_prev(&n, n) == OK, "wrong-status", "prev failed"); } }
    CHECK(n, "lost-element", "walking to position %zu of %zu found nothing", i, d.m.size());
    return n;
}
static void dl_verify(DL& d) {
    CHECK(list_count(d.l) == d.m.size(), "wrong-count", "the list counts %zu elements, %zu are stored", (size_t)list_count(d.l), d.m.size());
    list_node* n = nullptr; size_t i = 0; CHECK(list_head(&n, d.l) == OK, "wrong-status", "head failed");
    for (; n; ++i) { step(); CHECK(i < d.m.size(), "extra-element", "forward traversal visits more than %zu elements", d.m.size()); resource* r = nullptr; CHECK(list_node_child(&r, n) == OK, "wrong-status", "child failed"); same(r, d.m[i], "forward traversal"); list_node* nx = nullptr; CHECK(list_node_next(&nx, n) == OK, "wrong-status", "next failed"); n = nx; }
    CHECK(i == d.m.size(), "lost-element", "forward traversal visits %zu of %zu elements", i, d.m.size());
    CHECK(list_tail(&n, d.l) == OK, "wrong-status", "tail failed"); i = d.m.size();
    for (; n; --i) { step(); CHECK(i > 0, "extra-element", "backward traversal visits more than %zu elements", d.m.size()); resource* r = nullptr; CHECK(list_node_child(&r, n) == OK, "wrong-status", "child failed"); same(r, d.m[i - 1], "backward traversal"); list_node* nx = nullptr; CHECK(list_node_prev(&nx, n) == OK, "wrong-status", "prev failed"); n = nx; }
    CHECK(i == 0, "lost-element", "backward traversal misses %zu elements", i);
    mark_state(seq_fp(d.m));
}
// returns false when a failing release ended the comparable part
// A pop whose node could not be given back: a failure that stores nothing, and
// the popped element does not remain without an owner.
template <class F> static bool pop_fails(status& s, resource*& r, Seq& m, size_t at, const char* what, F f) {
    uint64_t c0 = fault_fired(F_RECLAIM), f0 = fault_fired(F_RELEASE); reclaim_failures(true); s = f(); reclaim_failures(false); if (fault_fired(F_RECLAIM) == c0) return false;
    ev("pop-fails", s); CHECK(s != OK, "swallowed-error", "%s hid that a node could not be released", what); CHECK(!r, "output-changed", "%s failed and stored an element", what); CHECK(at < m.size(), "extra-element", "a node beyond the end was released");
    Item* w = m[at]; m.erase(m.begin() + at); if (w && item_alive(w->id)) { CHECK(fault_fired(F_RELEASE) > f0, "leaked-resource", "%s failed and dropped an element", what); item_drop(w); } return true;
}
static bool release_status(status s, uint64_t f0, const char* what) {
    if (fault_fired(F_RELEASE) > f0) { CHECK(s != OK, "swallowed-error", "%s hid the failing release of an element", what); return false; }
    CHECK(s == OK, "wrong-status", "%s returned 0x%x", what, s); return true;
}
// after a failing clear: what is left must be a valid suffix of the sequence
static void suffix_after_failure(Seq& m, size_t left) {
    CHECK(left <= m.size(), "wrong-count", "a failed clear left more elements than there were");
    Seq rest(m.end() - left, m.end());
    size_t failed = 0;
    for (size_t i = 0; i < m.size() - left; ++i) if (m[i] && item_alive(m[i]->id)) { failed++; item_drop(m[i]); }
    CHECK(failed <= 1, "leaked-resource", "a failed clear dropped %zu elements without releasing them", failed);
    m = rest;
}
static void dl_history() {
    items_reset(); Alloc A; faults_config({F_ALLOC, F_RELEASE, F_RECLAIM});
    int nl = choose(3) == 2 ? 2 : 1; DL D[2]; set_step_limit(5000000);
    for (int i = 0; i < nl; ++i) { list* l = nullptr; status s = list_create(&l, A.a); if (s != OK) { CHECK(is_oom(s) && faults_fired(), "wrong-status", "create failed 0x%x", s); NoFaults nf; CHECK(list_create(&l, A.a) == OK, "wrong-status", "create fails"); } D[i].l = l; }
    uint32_t nops = 1 + choose(80); int64_t val = 0;
    uint32_t maxn = 1 + choose(20);
    for (uint32_t k = 0; k < nops; ++k) {
        DL& d = D[nl == 2 ? choose(2) : 0]; bool full = d.m.size() >= maxn;
        uint32_t op = weighted({full ? 0u : 6u, full ? 0u : 4u, full ? 0u : 5u, full ? 0u : 5u, 6, 3, 1, nl == 2 ? 2u : 0u});
        Item* it = nullptr; int id = -1; size_t lb = 0; status s;
        if (op < 4) { it = item_new(++val); id = it->id; lb = live_blocks(); }
        switch (op) {
        case 0: s = list_append_tail(d.l, item_res(it)); ev("append_tail", val, s); if (s == OK) d.m.push_back(it); else alloc_failed(s, it, id, lb, "append at the tail"); break;
        case 1: s = list_insert_head(d.l, item_res(it)); ev("insert_head", val, s); if (s == OK) d.m.insert(d.m.begin(), it); else alloc_failed(s, it, id, lb, "insert at the head"); break;
        case 2: case 3: {
            if (d.m.empty()) { item_drop(it); break; }
            size_t i = choose(d.m.size()); list_node* n = dl_node(d, i);
            if (op == 2) { s = list_append(n, item_res(it)); ev("append", i, s); if (s == OK) d.m.insert(d.m.begin() + i + 1, it); else alloc_failed(s, it, id, lb, "append after a node"); }
            else { s = list_insert(n, item_res(it)); ev("insert", i, s); if (s == OK) d.m.insert(d.m.begin() + i, it); else alloc_failed(s, it, id, lb, "insert before a node"); }
            break; }
        case 4: { resource* r = nullptr; if (pop_fails(s, r, d.m, 0, "pop", [&] { return list_pop(d.l, &r); })) break; ev("pop", s, d.m.size()); CHECK(s == OK, "wrong-status", "pop returned 0x%x", s);
            if (d.m.empty()) CHECK(r == nullptr, "extra-element", "popping an empty list gave a resource"); else { Item* w = d.m[0]; d.m.erase(d.m.begin()); same(r, w, "pop"); if (w) { CHECK(item_alive(w->id), "ownership", "the popped resource was released"); item_drop(w); } } break; }
        case 5: { if (d.m.empty()) break; size_t i = choose(d.m.size()); list_node* n = dl_node(d, i); Item* nw = choose(5) == 4 ? nullptr : item_new(++val); resource* r = nw ? item_res(nw) : nullptr; s = list_node_child_swap(n, &r); ev("child_swap", i, s); CHECK(s == OK, "wrong-status", "swap failed"); same(r, d.m[i], "value swap"); if (d.m[i]) item_drop(d.m[i]); d.m[i] = nw; break; }
        case 6: { if (choose(4)) break; uint64_t f0 = fault_fired(F_RELEASE); s = list_clear(d.l); ev("clear", s); if (release_status(s, f0, "clear")) { dropped(d.m); d.m.clear(); } else suffix_after_failure(d.m, list_count(d.l)); break; }
        case 7: list_swap(D[0].l, D[1].l); std::swap(D[0].m, D[1].m); ev("swap"); dl_verify(D[0]); dl_verify(D[1]); break;
        }
        dl_verify(d);
    }
    for (int i = 0; i < nl; ++i) {
        for (int tries = 0;; ++tries) {
            uint64_t f0 = fault_fired(F_RELEASE); status s = resource_release(list_resource_handle(D[i].l));
            if (release_status(s, f0, "release")) { dropped(D[i].m); break; }
            if (!block_live(D[i].l)) { for (auto* x : D[i].m) if (x && item_alive(x->id)) item_drop(x); break; }
            suffix_after_failure(D[i].m, list_count(D[i].l)); dl_verify(D[i]);
            if (tries > 2) faults_disable();
        }
    }
    A.release(); check_no_leaks("after releasing the lists");
}
SCENARIO(L01, list_history, 1000) { dl_history(); }

// ---- singly linked list --------------------------------------------------
struct SL { slist* l; Seq m; };
static slist_node* sl_node(SL& d, size_t i) {
    slist_node* n = nullptr;
    if (i + 1 == d.m.size() && choose(2)) { CHECK(slist_tail(&n, d.l) == OK, "wrong-status", "tail failed"); }
    else { CHECK(slist_head(&n, d.l) == OK, "wrong-status", "head failed"); for (size_t k = 0; k < i; ++k) { CHECK(n, "lost-element", "walking ends early"); CHECK(slist_node_next(&n, n) == OK, "wrong-status", "next failed"); } }
    CHECK(n, "lost-element", "walking to position %zu of %zu found nothing", i, d.m.size()); return n;
}
static void sl_verify(SL& d) {
    CHECK(slist_count(d.l) == d.m.size(), "wrong-count", "the list counts %zu elements, %zu are stored", (size_t)slist_count(d.l), d.m.size());
    slist_node *n = nullptr, *last = nullptr, *t = nullptr; size_t i = 0; CHECK(slist_head(&n, d.l) == OK, "wrong-status", "head failed");
    for (; n; ++i) { step(); CHECK(i < d.m.size(), "extra-element", "traversal visits more than %zu elements", d.m.size()); resource* r = nullptr; CHECK(slist_node_child(&r, n) == OK, "wrong-status", "child failed"); same(r, d.m[i], "traversal"); last = n; slist_node* nx = nullptr; CHECK(slist_node_next(&nx, n) == OK, "wrong-status", "next failed"); n = nx; }
    CHECK(i == d.m.size(), "lost-element", "traversal visits %zu of %zu elements", i, d.m.size());
    CHECK(slist_tail(&t, d.l) == OK && t == last, "bad-structure", "the tail is not the last node reached from the head");
    mark_state(seq_fp(d.m) ^ 77);
}
static void sl_history() {
    items_reset(); Alloc A; faults_config({F_ALLOC, F_RELEASE, F_RECLAIM});
    int nl = choose(3) == 2 ? 2 : 1; SL D[2]; set_step_limit(5000000);
    for (int i = 0; i < nl; ++i) { slist* l = nullptr; status s = slist_create(&l, A.a); if (s != OK) { CHECK(is_oom(s) && faults_fired(), "wrong-status", "create failed 0x%x", s); NoFaults nf; CHECK(slist_create(&l, A.a) == OK, "wrong-status", "create fails"); } D[i].l = l; }
    uint32_t nops = 1 + choose(80); int64_t val = 0; uint32_t maxn = 1 + choose(20);
    for (uint32_t k = 0; k < nops; ++k) {
        SL& d = D[nl == 2 ? choose(2) : 0]; bool full = d.m.size() >= maxn;
        uint32_t op = weighted({full ? 0u : 6u, full ? 0u : 4u, full ? 0u : 6u, 4, 4, 3, 1, nl == 2 ? 2u : 0u});
        Item* it = nullptr; int id = -1; size_t lb = 0; status s;
        if (op < 3) { it = item_new(++val); id = it->id; lb = live_blocks(); }
        switch (op) {
        case 0: s = slist_append_tail(d.l, item_res(it)); ev("append_tail", val, s); if (s == OK) d.m.push_back(it); else alloc_failed(s, it, id, lb, "append at the tail"); break;
        case 1: s = slist_insert_head(d.l, item_res(it)); ev("insert_head", val, s); if (s == OK) d.m.insert(d.m.begin(), it); else alloc_failed(s, it, id, lb, "insert at the head"); break;
        case 2: { if (d.m.empty()) { item_drop(it); break; } size_t i = choose(d.m.size()); slist_node* n = sl_node(d, i); s = slist_append(n, item_res(it)); ev("append", i, s); if (s == OK) d.m.insert(d.m.begin() + i + 1, it); else alloc_failed(s, it, id, lb, "append after a node"); break; }
        case 3: { resource* r = nullptr; if (pop_fails(s, r, d.m, 0, "pop", [&] { return slist_pop(d.l, &r); })) break; ev("pop", s, d.m.size()); CHECK(s == OK, "wrong-status", "pop returned 0x%x", s); if (d.m.empty()) CHECK(r == nullptr, "extra-element", "popping an empty list gave a resource"); else { Item* w = d.m[0]; d.m.erase(d.m.begin()); same(r, w, "pop"); if (w) { CHECK(item_alive(w->id), "ownership", "the popped resource was released"); item_drop(w); } } break; }
        case 4: { if (d.m.empty()) break; size_t i = choose(d.m.size()); slist_node* n = sl_node(d, i); resource* r = nullptr; if (pop_fails(s, r, d.m, i + 1, "next_pop", [&] { return slist_node_next_pop(n, &r); })) break; ev("next_pop", i, s); CHECK(s == OK, "wrong-status", "next_pop returned 0x%x", s); if (i + 1 >= d.m.size()) CHECK(r == nullptr, "extra-element", "popping after the last node gave a resource"); else { Item* w = d.m[i + 1]; d.m.erase(d.m.begin() + i + 1); same(r, w, "next_pop"); if (w) { CHECK(item_alive(w->id), "ownership", "released"); item_drop(w); } } break; }
        case 5: { if (d.m.empty()) break; size_t i = choose(d.m.size()); slist_node* n = sl_node(d, i); Item* nw = choose(5) == 4 ? nullptr : item_new(++val); resource* r = nw ? item_res(nw) : nullptr; s = slist_node_child_swap(n, &r); ev("child_swap", i, s); CHECK(s == OK, "wrong-status", "swap failed"); same(r, d.m[i], "value swap"); if (d.m[i]) item_drop(d.m[i]); d.m[i] = nw; break; }
        case 6: { if (choose(4)) break; uint64_t f0 = fault_fired(F_RELEASE); s = slist_clear(d.l); ev("clear", s); if (release_status(s, f0, "clear")) { dropped(d.m); d.m.clear(); } else suffix_after_failure(d.m, slist_count(d.l)); break; }
        case 7: slist_swap(D[0].l, D[1].l); std::swap(D[0].m, D[1].m); ev("swap"); sl_verify(D[0]); sl_verify(D[1]); break;
        }
        sl_verify(d);
    }
    for (int i = 0; i < nl; ++i) {
        for (int tries = 0;; ++tries) {
            uint64_t f0 = fault_fired(F_RELEASE); status s = resource_release(slist_resource_handle(D[i].l));
            if (release_status(s, f0, "release")) { dropped(D[i].m); break; }
            if (!block_live(D[i].l)) { for (auto* x : D[i].m) if (x && item_alive(x->id)) item_drop(x); break; }
            suffix_after_failure(D[i].m, slist_count(D[i].l)); sl_verify(D[i]);
            if (tries > 2) faults_disable();
        }
    }
    A.release(); check_no_leaks("after releasing the lists");
}
SCENARIO(L01, slist_history, 1000) { sl_history(); }

// ---- queue ----------------------------------------------------------------
static void q_history() {
    items_reset(); Alloc A; faults_config({F_ALLOC, F_RELEASE, F_RECLAIM});
    queue* q = nullptr; status s = queue_create(&q, A.a); set_step_limit(5000000);
    if (s != OK) { CHECK(is_oom(s) && faults_fired(), "wrong-status", "create failed 0x%x", s); }
    if (s != OK) { NoFaults nf; CHECK(queue_create(&q, A.a) == OK, "wrong-status", "create fails"); }
    Seq m; int64_t val = 0; uint32_t nops = 1 + choose(120); uint32_t bias = choose(3);
    for (uint32_t k = 0; k < nops; ++k) {
        uint32_t op = weighted({bias == 0 ? 6u : 3u, bias == 1 ? 5u : 2u, 5}); Item* it = nullptr; int id = -1; size_t lb = 0;
        if (op < 2) { it = item_new(++val); id = it->id; lb = live_blocks(); }
        if (op == 0) { s = queue_append(q, item_res(it)); ev("append", val, s); if (s == OK) m.push_back(it); else alloc_failed(s, it, id, lb, "append"); }
        else if (op == 1) { s = queue_insert(q, item_res(it)); ev("insert", val, s); if (s == OK) m.insert(m.begin(), it); else alloc_failed(s, it, id, lb, "insert"); }
        else { resource* r = nullptr; if (pop_fails(s, r, m, 0, "pop", [&] { return queue_pop(q, &r); })) {} else { ev("pop", s, m.size()); CHECK(s == OK, "wrong-status", "pop returned 0x%x", s); if (m.empty()) CHECK(!r, "extra-element", "popping an empty queue gave a resource"); else { Item* w = m[0]; m.erase(m.begin()); same(r, w, "pop"); CHECK(item_alive(w->id), "ownership", "released"); item_drop(w); } } }
        CHECK(queue_count(q) == m.size(), "wrong-count", "the queue counts %zu elements, %zu are stored", (size_t)queue_count(q), m.size());
        mark_state(seq_fp(m) ^ 991);
    }
    for (int tries = 0;; ++tries) {
        uint64_t f0 = fault_fired(F_RELEASE); s = resource_release(queue_resource_handle(q));
        if (release_status(s, f0, "release")) { dropped(m); break; }
        if (!block_live(q)) { for (auto* x : m) if (x && item_alive(x->id)) item_drop(x); break; }
        suffix_after_failure(m, queue_count(q));
        if (tries > 2) faults_disable();
    }
    A.release(); check_no_leaks("after releasing the queue");
}
SCENARIO(L01, queue_history, 1000) { q_history(); }
ALSO(V01, slist_history, 1);
