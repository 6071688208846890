#include "common.hpp"
#include "kernel.hpp"
static Items* g_items;
Items& items() { if (!g_items) g_items = new Items; return *g_items; }
void items_reset() { items() = Items(); }
static status item_release(resource* r) {
    Item* i = (Item*)r;
    if (!block_live(i)) viol("double-release", "a user resource was released twice (or after it was given back)");
    CHECK(i->magic == 0x17E417E4, "bad-release", "release of something that is not the user resource");
    if (fault(F_RELEASE)) { items().failed++; items().last_failed.insert(i->id); ev("item-release-fails", i->id); return E_RELEASE; }
    ev("item-release", i->id);
    items().live.erase(i->id); items().released++; i->magic = 0; user_free(i);
    return STATUS_SUCCESS;
}
RCPR_VTABLE resource_vtable item_vtable = { &item_release };
Item* item_new(int64_t v) {
    Item* i = (Item*)user_alloc(sizeof(Item)); memset((void*)i, 0, sizeof *i); resource_init(&i->hdr, &item_vtable); i->magic = 0x17E417E4; i->id = items().next++; i->val = v; items().live[i->id] = i; return i;
}
bool item_alive(int id) { return items().live.count(id) != 0; }
Item* item_of(resource* r) {
    CHECK(r != nullptr, "lost-item", "a null pointer was handed out as a stored resource");
    CHECK(block_live(r), "dangling-item", "a released or foreign pointer was handed out as a stored resource");
    Item* i = (Item*)r; CHECK(i->magic == 0x17E417E4, "dangling-item", "a foreign pointer was handed out as a stored resource"); return i;
}
void item_drop(Item* i) { items().live.erase(i->id); i->magic = 0; user_free(i); }
size_t items_live() { return items().live.size(); }
static const allocator_vtable* g_real_alloc;
static std::vector<std::pair<allocator*, int>> g_owned;
static int owner_of(allocator* a) { for (auto& o : g_owned) if (o.first == a) return o.second; return 0; }
struct Owned { Owned(allocator* a) { alloc_owner(owner_of(a)); } ~Owned() { alloc_owner(0); } };
static status owned_release(resource* r) { NoFaults nf; return g_real_alloc->hdr.release(r); }
static status owned_allocate(allocator* a, void** p, size_t n) { Owned o(a); return g_real_alloc->allocate_fn(a, p, n); }
static bool g_reclaim_fails; static int g_reclaim_nth;
void reclaim_failures(bool on, int nth) { g_reclaim_fails = on; g_reclaim_nth = nth; }
static status owned_reclaim(allocator* a, void* p) { Owned o(a); status s = g_real_alloc->reclaim_fn(a, p); if (s == OK && g_reclaim_fails && (g_reclaim_nth ? --g_reclaim_nth == 0 : fault(F_RECLAIM))) { ev("reclaim-fails"); return E_RECLAIM; } return s; }   // the memory is gone all the same
static status owned_reallocate(allocator* a, void** p, size_t n) { Owned o(a); return g_real_alloc->reallocate_fn(a, p, n); }
static status owned_control(allocator* a, int k, void* v, size_t n) { return g_real_alloc->control_fn(a, k, v, n); }
RCPR_VTABLE allocator_vtable owned_vtable = { .hdr = { &owned_release }, .allocate_fn = &owned_allocate, .reclaim_fn = &owned_reclaim, .reallocate_fn = &owned_reallocate, .control_fn = &owned_control };
Alloc::Pick::operator allocator*() const { return v.size() == 1 ? v[0] : v[choose((uint32_t)v.size())]; }
Alloc::Alloc(int how_many) {
    NoFaults nf; int n = how_many ? how_many : choose(3) == 2 ? 2 + choose(2) : 1;
    g_owned.clear(); g_reclaim_fails = false;
    for (int i = 0; i < n; ++i) {
        allocator* x = nullptr; status s = malloc_allocator_create(&x); CHECK(s == OK, "setup", "malloc allocator creation failed without a fault");
        if (i) { resource* r = allocator_resource_handle(x); g_real_alloc = (const allocator_vtable*)r->vtable; resource_init(r, &owned_vtable.hdr); g_owned.push_back({x, i}); }
        a.v.push_back(x);
    }
}
void Alloc::release() { NoFaults nf; for (auto x : a.v) { status s = resource_release(allocator_resource_handle(x)); CHECK(s == OK, "allocator-release", "releasing the allocator failed"); } a.v.clear(); g_owned.clear(); }
void check_no_leaks(const char* w) {
    CHECK(items_live() == 0, "leaked-resource", "%s: %zu stored user resource(s) were never released", w, items_live());
    CHECK(live_blocks() == 0, "memory-leak", "%s: %zu block(s) still allocated: %s", w, live_blocks(), live_summary().c_str());
    CHECK(live_stacks() == 0, "stack-leak", "%s: %zu fiber stack(s) still mapped", w, live_stacks());
}
bool is_oom(status s) { return s == ERROR_GENERAL_OUT_OF_MEMORY; }
