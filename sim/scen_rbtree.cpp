#include "common.hpp"
#include <rcpr/rbtree.h>
#include <cmath>
RCPR_IMPORT_rbtree;

struct TreeCtx { int64_t sign; uint64_t compares; uint64_t tag; };
static rcpr_comparison_result cmp(void* c, const void* l, const void* r) {
    TreeCtx* t = (TreeCtx*)c; t->compares++; step();
    int64_t a = *(const int64_t*)l * t->sign, b = *(const int64_t*)r * t->sign;
    return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* keyof(void* c, const resource* r) { (void)c; return &((const Item*)r)->val; }

struct Model { rbtree* t = nullptr; std::map<int64_t, Item*> m; TreeCtx* ctx; };

static double bound(size_t n) { return 2.0 * std::log2((double)n + 1.0) + 0.0001; }

static size_t height(rbtree* t, rbtree_node* n, rbtree_node* nil, size_t depth) {
    if (n == nil) return 0;
    CHECK(depth < 100, "unbalanced", "tree depth exceeds 100");
    step();
    rbtree_node *l = rbtree_left_node(t, n), *r = rbtree_right_node(t, n);
    if (l != nil) CHECK(rbtree_parent_node(t, l) == n, "bad-structure", "a child node does not name its parent");
    if (r != nil) CHECK(rbtree_parent_node(t, r) == n, "bad-structure", "a child node does not name its parent");
    return 1 + std::max(height(t, l, nil, depth + 1), height(t, r, nil, depth + 1));
}
static void verify(Model& M, bool full) {
    rbtree* t = M.t;
    CHECK(rbtree_count(t) == M.m.size(), "wrong-count", "count is %zu, %zu elements were stored", (size_t)rbtree_count(t), M.m.size());
    if (!full) return;
    rbtree_node *nil = rbtree_nil_node(t), *root = rbtree_root_node(t);
    std::vector<int64_t> keys; for (auto& k : M.m) keys.push_back(k.first);
    if (M.ctx->sign < 0) std::reverse(keys.begin(), keys.end());
    size_t i = 0;
    for (rbtree_node* n = rbtree_minimum_node(t, root); n != nil; n = rbtree_successor_node(t, n)) {
        step();
        CHECK(i < keys.size(), "extra-element", "iteration visits more than %zu elements", keys.size());
        Item* it = item_of(rbtree_node_value(t, n));
        CHECK(it->val == keys[i] && M.m[keys[i]] == it, "wrong-order", "in-order position %zu holds key %ld, expected %ld", i, (long)it->val, (long)keys[i]);
        ++i;
    }
    CHECK(i == keys.size(), "lost-element", "in-order iteration visits %zu of %zu elements", i, keys.size());
    i = 0;
    for (rbtree_node* n = rbtree_maximum_node(t, root); n != nil; n = rbtree_predecessor_node(t, n)) {
        step();
        CHECK(i < keys.size(), "extra-element", "reverse iteration visits too many elements");
        Item* it = item_of(rbtree_node_value(t, n));
        CHECK(it->val == keys[keys.size() - 1 - i], "wrong-order", "reverse position %zu holds key %ld", i, (long)it->val); ++i;
    }
    CHECK(i == keys.size(), "lost-element", "reverse iteration visits %zu of %zu elements", i, keys.size());
    size_t h = height(t, root, nil, 0);
    CHECK((double)h <= bound(keys.size()), "unbalanced", "height %zu exceeds the balanced bound %.2f for %zu elements", h, bound(keys.size()), keys.size());
    mark_state(mix64(h * 1000 + keys.size()) ^ 0x5b);
}
static void find_one(Model& M, int64_t k) {
    resource* r = (resource*)1; uint64_t c0 = M.ctx->compares;
    status s = rbtree_find(&r, M.t, &k);
    uint64_t cs = M.ctx->compares - c0;
    auto it = M.m.find(k);
    if (it != M.m.end()) { CHECK(s == OK, "lost-element", "find(%ld) returned 0x%x though the key is stored", (long)k, s); CHECK(item_of(r) == it->second, "wrong-element", "find(%ld) returned another element", (long)k); }
    else { CHECK(s == ERROR_RBTREE_NOT_FOUND, "wrong-status", "find of an absent key returned 0x%x", s); CHECK(r == nullptr, "output-on-failure", "find of an absent key did not null its result"); }
    // logarithmic work: at most two comparisons per level of a balanced tree
    CHECK((double)cs <= 2.0 * (bound(M.m.size()) + 1.0), "superlogarithmic", "find took %lu comparisons with %zu elements", (unsigned long)cs, M.m.size());
}

// a deleted element whose node could not be reclaimed: told to the caller, who has the element or is rid of it
static void unreclaimed(status s, resource* out, Item* i, int id) {
    CHECK(s == E_RECLAIM, "swallowed-error", "deleting hid that the node could not be reclaimed (0x%x)", s);
    CHECK(!out || out == item_res(i), "wrong-element", "delete returned another element"); CHECK(out ? item_alive(id) : !item_alive(id), "ownership", "a deleted element was lost"); if (out) item_drop(i);
}
static void tree_history(bool with_release_faults) {
    items_reset();
    Alloc A;
    static TreeCtx ctx[2]; ctx[0] = {choose(3) == 2 ? -1 : 1, 0, 1}; ctx[1] = {ctx[0].sign, 0, 2};
    if (with_release_faults) faults_config({F_ALLOC, F_RELEASE, F_RECLAIM}, 200); else faults_config({F_ALLOC});
    Model M[2];
    int ntrees = choose(4) == 3 ? 2 : 1;
    for (int i = 0; i < ntrees; ++i) {
        M[i].ctx = &ctx[i];
        rbtree* t = nullptr; status s = rbtree_create(&t, A.a, &cmp, &keyof, &ctx[i]); size_t lb = live_blocks();
        if (s != OK) { CHECK(is_oom(s) && faults_fired(), "wrong-status", "create failed with 0x%x", s); NoFaults nf; s = rbtree_create(&t, A.a, &cmp, &keyof, &ctx[i]); CHECK(s == OK, "wrong-status", "create fails without a fault"); (void)lb; }
        M[i].t = t;
    }
    static const uint32_t spans[] = {8, 24, 80, 300, 2000};
    uint32_t span = spans[choose(5)];
    uint32_t nops = 1 + choose(span < 100 ? 160 : 500);
    uint32_t mode = choose(4);     // 0 mixed 1 ascending 2 descending 3 build-up/tear-down
    int64_t seq = 0;
    set_step_limit(30000000);
    bool building = true; std::vector<int64_t> maybe;
    bool released_badly = false;
    for (uint32_t n = 0; n < nops; ++n) {
        Model& X = M[ntrees == 2 ? choose(2) : 0];
        uint32_t op;
        if (mode == 3) { if (X.m.size() > span * 3 / 4) building = false; if (X.m.empty()) building = true; op = building ? weighted({8, 1, 1, 1, 0, 0}) : weighted({1, 1, 6, 4, 0, 0}); }
        else op = weighted({10, 4, 5, 3, ntrees == 2 ? 1u : 0u, 1});
        switch (op) {
        case 0: { // insert a fresh key
            int64_t k = mode == 1 ? ++seq : mode == 2 ? --seq : (int64_t)choose(span);
            if (X.m.count(k)) { find_one(X, k); break; }
            Item* it = item_new(k); int id = it->id; size_t lb = live_blocks();
            status s = rbtree_insert(X.t, item_res(it)); ev("insert", k, s);
            if (s == OK) X.m[k] = it;
            else {
                CHECK(is_oom(s), "wrong-status", "insert failed with 0x%x", s); CHECK(faults_fired() > 0, "wrong-status", "insert failed without a fault");
                CHECK(item_alive(id), "ownership", "a failed insert released the caller's resource"); CHECK(live_blocks() == lb, "memory-leak", "a failed insert leaked memory"); item_drop(it);
            }
            break;
        }
        case 1: find_one(X, choose(4) == 3 && !X.m.empty() ? std::next(X.m.begin(), choose((uint32_t)X.m.size()))->first : (int64_t)choose(span + 4)); break;
        case 2: { // delete by key
            int64_t k = X.m.empty() || choose(5) == 4 ? (int64_t)choose(span + 4) : std::next(X.m.begin(), choose((uint32_t)X.m.size()))->first;
            bool want = choose(2) == 0; resource* out = nullptr; auto it = X.m.find(k); int id = it != X.m.end() ? it->second->id : -1; uint64_t f0 = fault_fired(F_RELEASE), c0 = fault_fired(F_RECLAIM); reclaim_failures(with_release_faults);
            status s = rbtree_delete(want ? &out : nullptr, X.t, &k); reclaim_failures(false); ev("delete", k, s, want);
            if (it == X.m.end()) { CHECK(s == ERROR_RBTREE_NOT_FOUND, "wrong-status", "delete of an absent key returned 0x%x", s); break; }
            Item* i = it->second; X.m.erase(it);
            if (want && fault_fired(F_RECLAIM) > c0) { unreclaimed(s, out, i, id); break; }
            if (want) { CHECK(s == OK, "wrong-status", "delete returned 0x%x", s); CHECK(item_of(out) == i && item_alive(id), "wrong-element", "delete returned another element"); item_drop(i); }
            else if (fault_fired(F_RELEASE) > f0) { CHECK(s == E_RELEASE || (s == E_RECLAIM && fault_fired(F_RECLAIM) > c0), "swallowed-error", "the failing release of a deleted element was reported as 0x%x", s); CHECK(item_alive(id), "ownership", "element vanished"); item_drop(i); }
            else { CHECK(fault_fired(F_RECLAIM) > c0 ? s == E_RECLAIM : s == OK, "wrong-status", "delete returned 0x%x", s); CHECK(!item_alive(id), "leaked-resource", "a deleted element was not released"); }
            break;
        }
        case 3: { // delete by node
            if (X.m.empty()) break;
            rbtree_node* nd = choose(2) ? rbtree_minimum_node(X.t, rbtree_root_node(X.t)) : rbtree_root_node(X.t);
            for (uint32_t h = choose(4); h; --h) { rbtree_node* s = rbtree_successor_node(X.t, nd); if (s == rbtree_nil_node(X.t)) break; nd = s; }
            Item* i = item_of(rbtree_node_value(X.t, nd)); resource* out = nullptr; uint64_t c0 = fault_fired(F_RECLAIM); int id = i->id; int64_t iv = i->val; reclaim_failures(with_release_faults); status s = rbtree_delete_node(&out, X.t, nd); reclaim_failures(false); ev("delete-node", iv, s);
            if (fault_fired(F_RECLAIM) > c0) { X.m.erase(iv); unreclaimed(s, out, i, id); break; }
            CHECK(s == OK && out == item_res(i), "wrong-element", "node deletion returned 0x%x / another element", s); CHECK(X.m.erase(i->val) == 1, "wrong-element", "unknown element"); item_drop(i);
            break;
        }
        case 4: rbtree_swap(M[0].t, M[1].t); std::swap(M[0].m, M[1].m); std::swap(M[0].ctx, M[1].ctx); ev("swap", M[0].m.size(), M[1].m.size()); verify(M[0], true); verify(M[1], true); break;
        case 5: if (choose(12) == 11) {
            uint64_t f0 = fault_fired(F_RELEASE), c0 = fault_fired(F_RECLAIM); reclaim_failures(with_release_faults); status s = rbtree_clear(X.t); reclaim_failures(false); ev("clear", s);
            if (fault_fired(F_RELEASE) + fault_fired(F_RECLAIM) > f0 + c0) {   // everything else goes all the same, and the tree stays usable
                CHECK(s != OK, "swallowed-error", "clear hid a failing release"); CHECK(rbtree_count(X.t) == 0, "wrong-count", "a cleared tree counts %zu elements", (size_t)rbtree_count(X.t));
                for (auto& k : X.m) { int id = k.second->id; if (items().live.count(id) && items().live[id] == k.second) { CHECK(items().last_failed.count(id), "leaked-resource", "clearing the tree forgot an element"); item_drop(k.second); } } X.m.clear(); break;
            }
            CHECK(s == OK, "wrong-status", "clear returned 0x%x", s); for (auto& k : X.m) (void)k;
            for (auto& k : X.m) CHECK(true, "x", "x"); X.m.clear(); size_t others = 0; for (int q = 0; q < ntrees; ++q) others += M[q].m.size();
            CHECK(items_live() == others, "leaked-resource", "clear left %zu elements unreleased", items_live() - others);
        } break;
        }
        verify(X, n % 16 == 0 || X.m.size() < 12 || choose(8) == 7);
    }
done:
    if (!released_badly) for (int i = 0; i < ntrees; ++i) { verify(M[i], true); for (auto& k : M[i].m) if (M[i].m.size() < 40) find_one(M[i], k.first); }
    uint64_t f0 = fault_fired(F_RELEASE); status bad = OK; bool lost = false;
    for (int i = 0; i < ntrees; ++i) { uint64_t c0 = fault_fired(F_RECLAIM); reclaim_failures(with_release_faults); status s = resource_release(rbtree_resource_handle(M[i].t)); reclaim_failures(false); if (fault_fired(F_RECLAIM) > c0) { CHECK(s != OK, "swallowed-error", "releasing a tree hid that memory could not be reclaimed"); lost = true; } if (s != OK) bad = s; }
    if (lost) { }
    else if (fault_fired(F_RELEASE) > f0) CHECK(bad == E_RELEASE, "swallowed-error", "releasing a tree hid a failing element release (0x%x)", bad);
    else if (!released_badly) CHECK(bad == OK, "wrong-status", "releasing a tree returned 0x%x", bad);
    for (int id : items().last_failed) if (item_alive(id)) item_drop(items().live[id]);
    A.release();
    check_no_leaks("after releasing the trees");
}
SCENARIO(R01, rbtree_history, 1000) { tree_history(false); }
SCENARIO(A02, rbtree_releases, 3) { tree_history(true); }
ALSO(R01, rbtree_releases, 300);
ALSO(V01, rbtree_history, 1);
