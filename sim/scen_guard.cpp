// V01: the library built with run-time checking of function tables, and
// objects whose table pointer is overwritten (build variant "guard" only).
#include "psockkit.hpp"
#include "threads.hpp"
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/thread.h>
#include <netinet/in.h>
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_thread;
extern "C" const void* __start_rcpr_vtable;
extern "C" const void* __stop_rcpr_vtable;
#define MUST(e) do { status r_ = (e); CHECK(r_ == OK, "refused", "%s returned 0x%x", #e, r_); } while (0)

namespace {
allocator* g_a;
status read_n(psock* s, char* b, size_t n) { void* p; status r = psock_read_raw_data(s, g_a, &p, n); if (r == OK) { memcpy(b, p, n); r = allocator_reclaim(g_a, p); } return r; }
uint64_t g_forged;
status forged_release(resource*) { g_forged++; return OK; }
status forged_any() { g_forged++; return OK; }
// as large as any table of the library
void* forged_table(bool heap) { static void* st[16]; void** t = heap ? (void**)user_alloc(sizeof st) : st; t[0] = (void*)&forged_release; for (int i = 1; i < 16; ++i) t[i] = (void*)&forged_any; return t; }
struct Obj { std::string what; resource* r; std::vector<std::pair<const char*, std::function<status()>>> ops; std::vector<Item*> kids; std::function<void()> works; std::function<status()> drop; bool item = false; int id = 0; };
struct GuardWorld { Alloc A; std::vector<Obj> o; std::vector<void*> tabs; std::vector<UCtx*> u; std::vector<FileP> peers; int port = 0; int64_t key = 0; uint64_t refused = 0; char buf[64]; };
rcpr_comparison_result g_cmp(void*, const void* a, const void* b) { int64_t x = *(const int64_t*)a, y = *(const int64_t*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* g_key(void*, const resource* r) { return &((const Item*)r)->val; }
status nop_thread(void*) { return OK; }
status nop_fiber(void*) { return OK; }
void sock_ops(GuardWorld& w, Obj& o, psock* s) {
    char* b = w.buf;
    auto add = [&](const char* n, std::function<status()> f) { o.ops.push_back({n, f}); };
    add("reading an int8", [=] { return psock_read_raw_int8(s, (int8_t*)b); }); add("reading an int16", [=] { return psock_read_raw_int16(s, (int16_t*)b); }); add("reading an int32", [=] { return psock_read_raw_int32(s, (int32_t*)b); }); add("reading an int64", [=] { return psock_read_raw_int64(s, (int64_t*)b); });
    add("reading a uint8", [=] { return psock_read_raw_uint8(s, (uint8_t*)b); }); add("reading a uint16", [=] { return psock_read_raw_uint16(s, (uint16_t*)b); }); add("reading a uint32", [=] { return psock_read_raw_uint32(s, (uint32_t*)b); }); add("reading a uint64", [=] { return psock_read_raw_uint64(s, (uint64_t*)b); }); add("reading a bool", [=] { return psock_read_raw_bool(s, (bool*)b); });
    add("reading data", [=, &w] { void* p; return psock_read_raw_data(s, w.A.a, &p, 5); }); add("reading some", [=] { size_t n = 5; return psock_read_raw(s, b, &n); }); add("reading a boxed string", [=, &w] { char* p; size_t n; return psock_read_boxed_string(s, w.A.a, &p, &n); }); add("reading a boxed packet", [=, &w] { void* p; size_t n; return psock_read_boxed_data(s, w.A.a, &p, &n); }); add("reading a boxed int32", [=] { return psock_read_boxed_int32(s, (int32_t*)b); }); add("reading a descriptor", [=] { return psock_read_raw_descriptor(s, (int*)b); });
    add("writing an int8", [=] { return psock_write_raw_int8(s, 1); }); add("writing an int16", [=] { return psock_write_raw_int16(s, 1); }); add("writing an int32", [=] { return psock_write_raw_int32(s, 1); }); add("writing an int64", [=] { return psock_write_raw_int64(s, 1); });
    add("writing a uint8", [=] { return psock_write_raw_uint8(s, 1); }); add("writing a uint16", [=] { return psock_write_raw_uint16(s, 1); }); add("writing a uint32", [=] { return psock_write_raw_uint32(s, 1); }); add("writing a uint64", [=] { return psock_write_raw_uint64(s, 1); }); add("writing a bool", [=] { return psock_write_raw_bool(s, true); });
    add("writing data", [=] { return psock_write_raw_data(s, "abcde", 5); }); add("writing a boxed string", [=] { return psock_write_boxed_string(s, "abc"); }); add("writing a boxed packet", [=] { return psock_write_boxed_data(s, "abc", 3); }); add("writing a boxed int64", [=] { return psock_write_boxed_int64(s, 3); }); add("writing a descriptor", [=] { return psock_write_raw_descriptor(s, 0); });
    add("accepting", [=] { int d; struct sockaddr_in sa; socklen_t n = sizeof sa; return psock_accept(s, &d, (struct sockaddr*)&sa, &n); }); add("setting an option", [=] { int v = 1; return psock_setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &v, sizeof v); });
}
Item* kid(GuardWorld& w, Obj& o) { Item* i = item_new((int64_t)(mix64(w.key) % 1000) * 1000 + w.key); w.key++; o.kids.push_back(i); return i; }
void make_obj(GuardWorld& w) {
    step(); allocator* a = w.A.a; Obj o; uint32_t n = choose(4);
    switch (choose(20)) {
    case 0: { Item* i = item_new(w.key++); o = {"a user's resource", item_res(i)}; o.item = true; o.id = i->id; break; }
    case 1: { list* l; MUST(list_create(&l, a)); o = {"a list", list_resource_handle(l)}; while (n--) MUST(choose(2) ? list_append_tail(l, item_res(kid(w, o))) : list_insert_head(l, item_res(kid(w, o)))); break; }
    case 2: { slist* l; MUST(slist_create(&l, a)); o = {"a single list", slist_resource_handle(l)}; while (n--) MUST(choose(2) ? slist_append_tail(l, item_res(kid(w, o))) : slist_insert_head(l, item_res(kid(w, o)))); break; }
    case 3: { queue* q; MUST(queue_create(&q, a)); o = {"a queue", queue_resource_handle(q)}; while (n--) MUST(queue_append(q, item_res(kid(w, o)))); break; }
    case 4: { rbtree* t; MUST(rbtree_create(&t, a, &g_cmp, &g_key, nullptr)); o = {"a tree", rbtree_resource_handle(t)}; while (n--) MUST(rbtree_insert(t, item_res(kid(w, o)))); break; }
    case 5: { message* m; Obj k; Item* i = choose(3) ? kid(w, k) : nullptr; MUST(message_create(&m, a, 0, i ? item_res(i) : nullptr)); o = {"a message", message_resource_handle(m)}; o.kids = k.kids; break; }
    case 6: { fiber_scheduler* s; MUST(fiber_scheduler_create_with_disciplines(&s, a)); fiber_scheduler_discipline* d; if (choose(2)) { MUST(message_discipline_get_or_create(&d, a, s)); for (uint32_t k = choose(3); k; --k) { mailbox_address b; MUST(mailbox_create(&b, d)); if (choose(2)) { message* m; MUST(message_create(&m, a, 0, nullptr)); MUST(message_send(b, m, d)); } } } if (choose(2)) { MUST(condition_discipline_get_or_create(&d, a, s)); conditional c; if (choose(2)) MUST(conditional_create(&c, d)); }
        for (uint32_t k = choose(3); k; --k) { fiber* f; MUST(fiber_create(&f, a, s, 16384, nullptr, &nop_fiber)); MUST(fiber_scheduler_add(s, f)); } o = {"a scheduler", fiber_scheduler_resource_handle(s)}; o.works = [s] { MUST(fiber_scheduler_run(s)); }; break; }
    case 7: { stack* s; MUST(stack_create(&s, a, 4096)); o = {"a stack", stack_resource_handle(s)}; break; }
    case 8: { thread_mutex* m; MUST(thread_mutex_create(&m, a)); o = {"a mutex", thread_mutex_resource_handle(m)}; break; }
    case 9: { thread_cond* c; MUST(thread_cond_create(&c, a)); o = {"a condition", thread_cond_resource_handle(c)}; break; }
    case 10: { thread* t; MUST(thread_create(&t, a, 65536, nullptr, &nop_thread)); o = {"a thread", thread_resource_handle(t)}; break; }
    case 11: { auto_reset_trigger* t; MUST(auto_reset_trigger_create(&t, a)); o = {"a trigger", auto_reset_trigger_resource_handle(t)}; break; }
    case 12: { bigint* b; MUST(bigint_create_zero(&b, a, 100)); o = {"a number", bigint_resource_handle(b)}; break; }
    case 13: { psock* s; std::string in = bytes_gen(64, false, w.key++); bool out = choose(2); MUST(psock_create_from_buffer(&s, a, out ? nullptr : in.data(), out ? 0 : in.size())); o = {"a memory socket", psock_resource_handle(s)}; sock_ops(w, o, s); if (out) o.works = [s] { MUST(psock_write_raw_data(s, "xy", 2)); }; break; }
    case 14: { auto p = k_pair(choose(2), 4096, 4096); int fd = fd_install(p.first); w.peers.push_back(p.second); psock* s; MUST(psock_create_from_descriptor(&s, a, fd)); o = {"a socket", psock_resource_handle(s)}; sock_ops(w, o, s); FileP f = p.second; o.works = [s, f] { if (peer_space(f) >= 3) { peer_write(f, "abc", 3); char b[3]; MUST(read_n(s, b, 3)); CHECK(!memcmp(b, "abc", 3), "wrong-value", "a socket read something else"); } }; break; }
    case 15: { UCtx* u = new UCtx; w.u.push_back(u); u->in = std::string(200, 'q'); psock* s; MUST(user_psock(&s, a, u)); o = {"a user-defined socket", psock_resource_handle(s)}; sock_ops(w, o, s); o.works = [s] { char b[1]; MUST(read_n(s, b, 1)); CHECK(b[0] == 'q', "wrong-value", "a user-defined socket read something else"); }; break; }
    case 16: { struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(7000 + w.port++); psock* s; MUST(psock_create_from_listen_address(&s, a, (struct sockaddr*)&sa, sizeof sa)); o = {"a listener", psock_resource_handle(s)}; sock_ops(w, o, s); break; }
    case 17: { std::string in = bytes_gen(64, false, w.key++); psock* s; psock_br* b; MUST(psock_create_from_buffer(&s, a, in.data(), in.size())); MUST(psock_br_create_from_psock(&b, a, s)); o = {"a buffered reader", psock_br_resource_handle(b)}; sock_ops(w, o, psock_br_psock_adapter(b)); std::string first = in.substr(0, 3); bool* once = new bool(false); o.works = [b, first, once] { if (*once) return; *once = true; char c[3]; MUST(read_n(psock_br_psock_adapter(b), c, 3)); CHECK(std::string(c, 3) == first, "wrong-value", "a buffered reader read something else"); }; o.drop = [=] { status x = resource_release(psock_br_resource_handle(b)); if (x == OK) { delete once; MUST(resource_release(psock_resource_handle(s))); } return x; }; break; }
    case 18: { allocator* x; MUST(malloc_allocator_create(&x)); o = {"an allocator", allocator_resource_handle(x)}; void* p; MUST(allocator_allocate(x, &p, 16)); o.ops = {{"allocating", [x] { void* q = (void*)0x31; status r = allocator_allocate(x, &q, 8); CHECK(r != OK || q, "wrong-value", "no block"); return r; }}, {"reclaiming", [x, p] { return allocator_reclaim(x, p); }}, {"resizing", [x, p] { void* q = p; status r = allocator_reallocate(x, &q, 100); CHECK(q == p, "output-changed", "a refused resize moved the block"); return r; }}, {"controlling", [x] { int v = 0; return allocator_control(x, 1, &v, sizeof v); }},
            {"making a list from it", [x] { list* l; return list_create(&l, x); }}, {"making a tree from it", [x] { rbtree* t; return rbtree_create(&t, x, &g_cmp, &g_key, nullptr); }}, {"making a message from it", [x] { message* m; return message_create(&m, x, 0, nullptr); }}};
        o.works = [p] { CHECK(block_live(p), "wrong-value", "a block was lost"); }; o.drop = [x, p] { if (block_live(p)) { status r = allocator_reclaim(x, p); if (r != OK) return r; } return (status)resource_release(allocator_resource_handle(x)); }; break; }
    case 19: { auto p = k_pair(choose(2), 4096, 4096); int fd = fd_install(p.first); w.peers.push_back(p.second); fiber_scheduler* s; fiber* f; psock *d, *x; MUST(fiber_scheduler_create_with_disciplines(&s, a)); MUST(disciplined_fiber_scheduler_main_fiber_get(&f, s)); MUST(psock_create_from_descriptor(&d, a, fd)); MUST(psock_create_wrap_async(&x, a, f, d)); o = {"an asynchronous socket", psock_resource_handle(x)}; sock_ops(w, o, x); FileP q = p.second; o.works = [x, q] { if (peer_space(q) >= 3) { peer_write(q, "abc", 3); char b[3]; MUST(read_n(x, b, 3)); CHECK(!memcmp(b, "abc", 3), "wrong-value", "an asynchronous socket read something else"); } };
        o.drop = [x, s] { status r = resource_release(psock_resource_handle(x)); if (r == OK) MUST(resource_release(fiber_scheduler_resource_handle(s))); return r; }; break; }
    }
    if (!o.drop) { resource* r = o.r; o.drop = [r] { return (status)resource_release(r); }; }
    ev(o.what.c_str()); w.o.push_back(o);
}
const resource_vtable* bad_pointer(GuardWorld& w, const char*& how) {
    uintptr_t lo = (uintptr_t)&__start_rcpr_vtable, hi = (uintptr_t)&__stop_rcpr_vtable;
    switch (choose(7)) {
    case 0: how = "a forged table in memory"; { void* t = forged_table(true); w.tabs.push_back(t); return (const resource_vtable*)t; }
    case 1: how = "a forged static table"; return (const resource_vtable*)forged_table(false);
    case 2: how = "nothing"; return nullptr;
    case 3: how = "just below the tables"; return (const resource_vtable*)(lo - 1 - choose(64));
    case 4: how = "the end of the tables"; return (const resource_vtable*)hi;
    case 5: how = "just above the tables"; return (const resource_vtable*)(hi + 1 + choose(64));
    default: how = "anywhere"; return (const resource_vtable*)(choose(2) ? ~(uintptr_t)choose(4096) : (uintptr_t)(1 + choose(4096)) << choose(52));
    }
}
// overwrites a table pointer for as long as f runs
template <class F> void corrupted(GuardWorld& w, resource* r, const std::string& what, F f) {
    const char* how; const resource_vtable* t = bad_pointer(w, how); const resource_vtable* was = r->vtable; uintptr_t v = (uintptr_t)t; if (v >= (uintptr_t)&__start_rcpr_vtable && v < (uintptr_t)&__stop_rcpr_vtable) return;
    fault_note(F_TABLE); r->vtable = t; ev("corrupt", what.size()); uint64_t g0 = g_forged; f(how); CHECK(g_forged == g0, "forged-call", "a function of %s was called through %s", how, what.c_str()); CHECK(r->vtable == t, "changed", "the table pointer changed"); r->vtable = was; w.refused++; mark_state(mix64(std::hash<std::string>()(what + how)));
}
void refuse_op(GuardWorld& w) {
    Obj& o = w.o[choose((uint32_t)w.o.size())];
    corrupted(w, o.r, o.what, [&](const char* how) {
        for (uint32_t n = 1 + choose(3); n; --n) {
            step(); size_t lb = live_blocks(), ls = live_stacks(), fds = fd_count(), it = items_live(); bool rl = o.ops.empty() || choose(4) == 3; size_t k = rl ? 0 : choose((uint32_t)o.ops.size()); status r; const char* op = rl ? "releasing" : o.ops[k].first; memset(w.buf, 0x5a, sizeof w.buf); r = rl ? (status)resource_release(o.r) : o.ops[k].second(); ev(op, r);
            CHECK(r == ERROR_GENERAL_BAD_VTABLE || (!strncmp(op, "making", 6) && is_oom(r)), "wrong-status", "%s %s whose table pointer was overwritten with %s returned 0x%x", op, o.what.c_str(), how, r);
            CHECK(live_blocks() == lb && live_stacks() == ls && fd_count() == fds && items_live() == it, "changed", "%s %s, refused, changed something: %s", op, o.what.c_str(), live_summary().c_str());
            for (char c : w.buf) CHECK(c == 0x5a, "output-changed", "%s %s, refused, stored something", op, o.what.c_str());
        } });
}
bool retained(const Obj& o) { return o.what == "a list" || o.what == "a single list" || o.what == "a queue"; }
void drop_obj(GuardWorld& w, size_t i) {
    Obj o = w.o[i]; w.o.erase(w.o.begin() + i); if (o.works && choose(2)) o.works();
    if (!o.kids.empty() && choose(3) == 0) { // something it owns cannot be released
        Item* k = o.kids[choose((uint32_t)o.kids.size())]; int id = k->id; status r = OK; std::vector<int> ids; for (auto x : o.kids) ids.push_back(x->id);
        corrupted(w, item_res(k), "what " + o.what + " owns", [&](const char* how) { r = o.drop(); ev("release", r); CHECK(r == ERROR_GENERAL_BAD_VTABLE, "failure-hidden", "releasing %s returned 0x%x though what it owns points to %s", o.what.c_str(), r, how); CHECK(item_alive(id), "forged-call", "an item whose table was overwritten was released"); });
        if (r != OK && !retained(o)) { for (int x : ids) if (x != id) { CHECK(!item_alive(x), "not-released", "%s was given up, but what else it owned was not released", o.what.c_str()); } CHECK(resource_release(item_res(k)) == OK, "wrong-status", "the item could not be released after its repair"); return; }
        if (r != OK) { r = o.drop(); CHECK(r == OK, "wrong-status", "releasing %s again returned 0x%x", o.what.c_str(), r); for (int x : ids) if (x != id) CHECK(!item_alive(x), "not-released", "%s is gone, but not all it owned", o.what.c_str()); if (item_alive(id)) CHECK(resource_release(item_res(k)) == OK, "wrong-status", "the item could not be released after its repair"); return; }
    }
    status r = o.drop(); ev("release", r); CHECK(r == OK, "refused", "releasing %s returned 0x%x", o.what.c_str(), r); if (o.item) CHECK(!item_alive(o.id), "not-released", "a user's resource was not released");
}
SCENARIO(V01, corrupted_tables, 40) {
    items_reset(); g_forged = 0; set_step_limit(100000); GuardWorld w; g_a = w.A.a; { NoFaults nf;
    for (uint32_t n = 3 + choose(30); n; --n) { step(); uint32_t k = choose(6); if (w.o.empty() || k < 2) make_obj(w); else if (k < 4) refuse_op(w); else if (k == 4) { Obj& o = w.o[choose((uint32_t)w.o.size())]; if (o.works) o.works(); } else drop_obj(w, choose((uint32_t)w.o.size())); }
    while (!w.o.empty()) drop_obj(w, w.o.size() - 1); }
    for (auto t : w.tabs) user_free(t); for (auto u : w.u) { CHECK(u->released == 1, "not-released", "a user-defined socket was released %d times", u->released); delete u; }
    CHECK(items_live() == 0, "not-released", "%zu items are left", items_live()); w.peers.clear(); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); CHECK(live_stacks() == 0, "stack-leak", "%zu stacks are left", live_stacks()); CHECK(mutexes_live() + conds_live() + attrs_live() + threads_unjoined() == 0, "object-leak", "system objects are left");
    w.A.release(); CHECK(live_blocks() == 0, "memory-leak", "%zu blocks are left: %s", live_blocks(), live_summary().c_str());
}
}
