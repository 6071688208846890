// A01: every operation that allocates, with the n-th allocation failing.
// A02: any reachable object graph, released with failing nested releases.
#include "psockkit.hpp"
#include "threads.hpp"
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <netinet/in.h>
#include <sys/un.h>
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_string_as(rcpr);
RCPR_IMPORT_thread;
extern "C" int sim_close(int);

namespace {
struct Held { std::string what; resource* r; std::vector<Item*> items; int fd = -1; };
struct Snap { size_t blocks, stacks, fds, mtx, cnd, att, items; std::set<int> alive; };
Snap snap() { return {live_blocks(), live_stacks(), fd_count(), mutexes_live(), conds_live(), attrs_live(), items_live(), {}}; }
rcpr_comparison_result key_cmp(void*, const void* a, const void* b) { int64_t x = *(const int64_t*)a, y = *(const int64_t*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* key_of(void*, const resource* r) { return &((const Item*)r)->val; }

struct OomWorld {
    Alloc A; std::vector<Held> held; std::vector<char*> mem; uint64_t failed = 0, ops = 0; int64_t nextkey = 0;
    queue* q = nullptr; list* l = nullptr; slist* sl = nullptr; rbtree* t = nullptr; std::deque<Item*> inq, inl, ins; std::set<int64_t> keys;
    fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; std::vector<mailbox_address> box; std::map<mailbox_address, int> queued; std::vector<conditional> cond; int fibers = 0, ran = 0; std::vector<bigint*> nums; std::vector<std::string> lst; int port = 0;
    std::vector<UCtx*> uctx;
    // runs f with the n-th allocation failing, then again without
    template <class F> void op(const char* what, F f, std::function<void()> unchanged = nullptr) {
        step(); ops++; Snap b = snap(); uint64_t f0 = faults_fired(); int64_t n = choose(4) == 0 ? -1 : (int64_t)choose(choose(2) ? 4 : 40); bool on = choose(3) == 2; faults_nth(n, on); status r = f(); bool fired = faults_fired() > f0; faults_nth(-1, false); ev(what, n, r);
        mark_state(mix64(std::hash<std::string>()(what) ^ (fired ? n + 1 : 0) * 1000 ^ on));
        if (!fired) { CHECK(r == OK, "wrong-status", "%s returned 0x%x though no allocation failed", what, r); return; }
        failed++; CHECK(r != OK, "false-success", "%s succeeded though allocation number %lld failed", what, (long long)n); CHECK(is_oom(r), "wrong-status", "%s returned 0x%x when allocation number %lld failed", what, r, (long long)n);
        Snap a = snap(); CHECK(a.blocks == b.blocks, "memory-leak", "%s, whose allocation number %lld failed, changed the number of live blocks from %zu to %zu: %s", what, (long long)n, b.blocks, a.blocks, live_summary().c_str());
        CHECK(a.stacks == b.stacks, "stack-leak", "%s, whose allocation number %lld failed, changed the number of stacks from %zu to %zu", what, (long long)n, b.stacks, a.stacks); CHECK(a.fds == b.fds, "descriptor-leak", "%s, whose allocation number %lld failed, changed the number of descriptors from %zu to %zu", what, (long long)n, b.fds, a.fds);
        CHECK(a.mtx == b.mtx && a.cnd == b.cnd && a.att == b.att, "object-leak", "%s, whose allocation number %lld failed, left a system object behind", what, (long long)n); CHECK(a.items == b.items, "taken-over", "%s, whose allocation number %lld failed, released what it was given", what, (long long)n);
        if (unchanged) unchanged();
        r = f(); CHECK(r == OK, "wrong-status", "%s, repeated after a failed allocation, returned 0x%x", what, r);
    }
    void hold(const char* w, resource* r, std::vector<Item*> i = {}, int fd = -1) { CHECK(r, "output-changed", "%s stored nothing", w); held.push_back({w, r, i, fd}); }
};
#define UNSET(p) [&] { CHECK(!(p) || (void*)(p) == (void*)0x31, "output-changed", "a failed operation stored something"); }
OomWorld* W;
struct FibCtx { OomWorld* w; int rounds; };
status oom_fiber(void* c) { FibCtx* f = (FibCtx*)c; for (int i = 0; i < f->rounds; ++i) { status r = fiber_scheduler_run(f->w->s); CHECK(r == OK, "wrong-status", "run returned 0x%x", r); } f->w->ran++; return OK; }
status oom_thread(void* c) { ++*(int*)c; return OK; }
status oom_sched_cb(void* ctx, fiber* yf, int ev, void*, fiber** next, const rcpr_uuid** rd, int* re, void** rp) { (void)ctx; (void)yf; if (ev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE) return OK; *next = yf; static const rcpr_uuid none = {{0}}; *rd = &none; *re = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rp = nullptr; return OK; }
status oom_disc_cb(void*, fiber*, int, void*) { return OK; }
fiber_scheduler_discipline_callback_fn oom_cbs[4] = {&oom_disc_cb, &oom_disc_cb, &oom_disc_cb, &oom_disc_cb};
const char* NM[] = {"a", "bb", "some text", "a longer piece of text that is joined"};
void oom_op(OomWorld& w) {
    allocator* a = w.A.a;
    switch (choose(31)) {
    // containers
    case 0: if (!w.q) { w.q = (queue*)0x31; w.op("creating a queue", [&] { return queue_create(&w.q, a); }, UNSET(w.q)); } else { Item* i = item_new(w.nextkey++); w.op("appending to a queue", [&] { return queue_append(w.q, item_res(i)); }, [&] { CHECK((size_t)queue_count(w.q) == w.inq.size(), "changed", "a failed append changed the queue"); }); w.inq.push_back(i); } break;
    case 1: if (!w.q) break; { Item* i = item_new(w.nextkey++); w.op("inserting into a queue", [&] { return queue_insert(w.q, item_res(i)); }, [&] { CHECK((size_t)queue_count(w.q) == w.inq.size(), "changed", "a failed insert changed the queue"); }); w.inq.push_front(i); } break;
    case 2: if (!w.l) { w.l = (list*)0x31; w.op("creating a list", [&] { return list_create(&w.l, a); }, UNSET(w.l)); break; } { Item* i = item_new(w.nextkey++); int k = choose(4); list_node* n = nullptr; if (k >= 2) { if (w.inl.empty()) { item_drop(i); break; } CHECK(list_head(&n, w.l) == OK && n, "wrong-status", "no head"); }
        w.op("adding to a list", [&] { return k == 0 ? list_append_tail(w.l, item_res(i)) : k == 1 ? list_insert_head(w.l, item_res(i)) : k == 2 ? list_append(n, item_res(i)) : list_insert(n, item_res(i)); }); if (k == 0) w.inl.push_back(i); else if (k == 2) w.inl.insert(w.inl.begin() + 1, i); else w.inl.push_front(i); break; }
    case 3: if (!w.sl) { w.sl = (slist*)0x31; w.op("creating a single list", [&] { return slist_create(&w.sl, a); }, UNSET(w.sl)); break; } { Item* i = item_new(w.nextkey++); int k = choose(3); slist_node* n = nullptr; if (k == 2) { if (w.ins.empty()) { item_drop(i); break; } CHECK(slist_head(&n, w.sl) == OK && n, "wrong-status", "no head"); }
        w.op("adding to a single list", [&] { return k == 0 ? slist_append_tail(w.sl, item_res(i)) : k == 1 ? slist_insert_head(w.sl, item_res(i)) : slist_append(n, item_res(i)); }); if (k == 0) w.ins.push_back(i); else if (k == 2) w.ins.insert(w.ins.begin() + 1, i); else w.ins.push_front(i); break; }
    case 4: case 5: if (!w.t) { w.t = (rbtree*)0x31; w.op("creating a tree", [&] { return rbtree_create(&w.t, a, &key_cmp, &key_of, nullptr); }, UNSET(w.t)); } else { Item* i = item_new((int64_t)(mix64(w.nextkey++) % 100000) * 1000 + w.nextkey % 1000); w.op("inserting into a tree", [&] { return rbtree_insert(w.t, item_res(i)); }, [&] { CHECK((size_t)rbtree_count(w.t) == w.keys.size(), "changed", "a failed insert changed the tree"); for (int64_t k : w.keys) { resource* r; CHECK(rbtree_find(&r, w.t, &k) == OK, "changed", "a failed insert lost a key"); } }); w.keys.insert(i->val); } break;
    // schedulers and fibers
    case 6: { fiber_scheduler* s = (fiber_scheduler*)0x31; w.op("creating a plain scheduler", [&] { return fiber_scheduler_create(&s, a, nullptr, &oom_sched_cb); }, UNSET(s)); w.hold("a plain scheduler", fiber_scheduler_resource_handle(s)); break; }
    case 7: case 8: { fiber_scheduler* s = (fiber_scheduler*)0x31; w.op("creating a scheduler", [&] { return fiber_scheduler_create_with_disciplines(&s, a); }, UNSET(s)); if (!w.s) w.s = s; else w.hold("a scheduler", fiber_scheduler_resource_handle(s)); break; }
    case 9: case 10: if (w.s) { FibCtx* c = (FibCtx*)user_alloc(sizeof(FibCtx)); *c = {&w, (int)choose(3)}; w.mem.push_back((char*)c); fiber* f = (fiber*)0x31; w.op("creating a fiber", [&] { return fiber_create(&f, a, w.s, 16384 + choose(3) * 4096, c, &oom_fiber); }, UNSET(f)); if (choose(4) == 3) w.hold("a fiber", fiber_resource_handle(f)); else { w.op("adding a fiber", [&] { return fiber_scheduler_add(w.s, f); }, [&] { CHECK(block_live(f), "taken-over", "a fiber whose addition failed was released"); }); w.fibers++; } } break;
    case 11: { rcpr_uuid id; for (int i = 0; i < 16; ++i) id.data[i] = (uint8_t)mix64(w.nextkey * 16 + i); w.nextkey++; fiber_scheduler_discipline* d = (fiber_scheduler_discipline*)0x31; uint32_t n = 1 + choose(4); w.op("creating a discipline", [&] { return fiber_scheduler_discipline_create(&d, &id, a, nullptr, n, oom_cbs); }, UNSET(d));
        if (w.s && choose(2)) { w.op("adding a discipline", [&] { return fiber_scheduler_discipline_add(w.s, d); }, [&] { CHECK(block_live(d), "taken-over", "a discipline whose addition failed was released"); fiber_scheduler_discipline* x; CHECK(fiber_scheduler_discipline_find(&x, w.s, &id) != OK, "half-made", "a discipline whose addition failed can be found"); }); fiber_scheduler_discipline* x = nullptr; CHECK(fiber_scheduler_discipline_find(&x, w.s, &id) == OK && x == d, "half-made", "an added discipline cannot be found"); } else w.hold("a discipline", fiber_scheduler_discipline_resource_handle(d)); break; }
    case 12: { stack* st = (stack*)0x31; w.op("creating a stack", [&] { return stack_create(&st, a, 4096 * (1 + choose(4))); }, UNSET(st)); w.hold("a stack", stack_resource_handle(st)); break; }
    // messages and conditions
    case 13: if (w.s) { fiber_scheduler_discipline* d = (fiber_scheduler_discipline*)0x31; w.op("getting the message discipline", [&] { return message_discipline_get_or_create(&d, a, w.s); }, UNSET(d)); CHECK(!w.md || w.md == d, "half-made", "another message discipline was made"); w.md = d; } break;
    case 14: if (w.md) { mailbox_address x = 0; w.op("creating a mailbox", [&] { return mailbox_create(&x, w.md); }); CHECK(std::find(w.box.begin(), w.box.end(), x) == w.box.end(), "half-made", "a mailbox address was given twice"); w.box.push_back(x); } break;
    case 15: case 16: { Item* it = choose(3) ? item_new(0) : nullptr; message* m = (message*)0x31; w.op("creating a message", [&] { return message_create(&m, a, 0, it ? item_res(it) : nullptr); }, UNSET(m));
        if (!w.box.empty() && choose(3)) { mailbox_address b = w.box[choose((uint32_t)w.box.size())]; w.op("sending a message", [&] { return message_send(b, m, w.md); }, [&] { CHECK(block_live(m), "taken-over", "a message whose sending failed was released"); }); w.queued[b]++; } else w.hold("a message", message_resource_handle(m), it ? std::vector<Item*>{it} : std::vector<Item*>{}); break; }
    case 17: if (w.s) { fiber_scheduler_discipline* d = (fiber_scheduler_discipline*)0x31; w.op("getting the condition discipline", [&] { return condition_discipline_get_or_create(&d, a, w.s); }, UNSET(d)); CHECK(!w.cd || w.cd == d, "half-made", "another condition discipline was made"); w.cd = d; } break;
    case 18: if (w.cd) { conditional c = 0; w.op("creating a conditional", [&] { return conditional_create(&c, w.cd); }); CHECK(std::find(w.cond.begin(), w.cond.end(), c) == w.cond.end(), "half-made", "a conditional was given twice"); w.cond.push_back(c); } break;
    // sockets
    case 19: { bool dg = choose(3) == 2; auto p = dg ? k_dgram_pair(4) : k_pair(choose(2), 100, 100); int fd = fd_install(p.first); p.first.reset(); psock* s = (psock*)0x31; w.op("creating a socket from a descriptor", [&] { return psock_create_from_descriptor(&s, a, fd); }, UNSET(s)); CHECK(fd_open(fd), "taken-over", "the descriptor was closed");
        if (w.s && choose(2)) { fiber* f; CHECK(disciplined_fiber_scheduler_main_fiber_get(&f, w.s) == OK, "wrong-status", "no main fiber"); psock* x = (psock*)0x31; // the scheduler may keep its event discipline, with descriptors and an idle fiber
                fiber_scheduler_discipline* d = nullptr; bool had = fiber_scheduler_discipline_find(&d, w.s, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE) == OK; if (!had) { // first use: only the result and the descriptor are checked
                    int64_t n = choose(40); faults_nth(n, choose(3) == 2); uint64_t f0 = faults_fired(); status r = psock_create_wrap_async(&x, a, f, s); bool fired = faults_fired() > f0; faults_nth(-1, false); ev("first wrap", n, r); CHECK(fired ? is_oom(r) : r == OK, "wrong-status", "wrapping a socket returned 0x%x, allocation number %lld failed: %d", r, (long long)n, fired); if (r != OK) { CHECK(fd_open(fd), "taken-over", "a failed wrap closed the descriptor"); w.failed++; r = psock_create_wrap_async(&x, a, f, s); CHECK(r == OK, "wrong-status", "wrapping again returned 0x%x", r); } }
                else w.op("wrapping a socket", [&] { return psock_create_wrap_async(&x, a, f, s); }, [&] { CHECK(fd_open(fd), "taken-over", "a failed wrap closed the descriptor"); UNSET(x)(); }); s = x; }
        else if (choose(3) == 2) { psock_br* b = (psock_br*)0x31; w.op("creating a buffered reader", [&] { return psock_br_create_from_psock(&b, a, s); }, UNSET(b)); w.hold("a buffered reader", psock_br_resource_handle(b)); } 
        w.held.push_back({"a socket", psock_resource_handle(s), {}, fd}); if (w.held.size() > 1 && w.held[w.held.size() - 2].what == "a buffered reader") std::swap(w.held[w.held.size() - 1], w.held[w.held.size() - 2]); break; }
    case 20: { std::string in(choose(3) == 0 ? 0 : 1 + choose(100), 'x'); psock* s = (psock*)0x31; bool out = in.empty(); w.op("creating a memory socket", [&] { return psock_create_from_buffer(&s, a, out ? nullptr : in.data(), in.size()); }, UNSET(s));
        if (out) { std::string all; for (uint32_t n = choose(4); n; --n) { std::string d = bytes_gen(1 + choose(choose(3) == 2 ? 5000 : 40), false, choose(50)); w.op("writing to a memory socket", [&] { return psock_write_raw_data(s, d.data(), d.size()); }); all += d; } void* b = (void*)0x31; size_t bn = 77; w.op("copying the output", [&] { return psock_from_buffer_get_output_buffer(s, a, &b, &bn); }, UNSET(b)); CHECK(bn == all.size() && !memcmp(b, all.data(), bn), "half-made", "the output holds %zu bytes instead of %zu", bn, all.size()); if (b) CHECK(allocator_reclaim(a, b) == OK, "wrong-status", "reclaiming failed"); }
        w.hold("a memory socket", psock_resource_handle(s)); break; }
    case 21: { UCtx* u = new UCtx; w.uctx.push_back(u); psock* s = (psock*)0x31; w.op("creating a user-defined socket", [&] { return user_psock(&s, a, u); }, [&] { UNSET(s)(); CHECK(!u->released, "taken-over", "a failed creation released the user's context"); }); w.hold("a user-defined socket", psock_resource_handle(s)); break; }
    case 22: { psock* s = (psock*)0x31; struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(5000 + w.port++); sa.sin_addr.s_addr = htonl(0x7f000001); w.op("creating a listener", [&] { return psock_create_from_listen_address(&s, a, (struct sockaddr*)&sa, sizeof sa); }, UNSET(s)); w.hold("a listener", psock_resource_handle(s)); break; }
    // values
    case 23: { Val v = val_gen(200); v.boxed = true; v.k = choose(2) ? V_STR : V_DATA; std::string e = val_enc(v); psock* s = nullptr; CHECK(psock_create_from_buffer(&s, a, e.data(), e.size()) == OK, "wrong-status", "creating a memory socket failed"); char* p = (char*)0x31; void* d = (void*)0x31; size_t n = 0; Snap b = snap(); int64_t k = choose(4) ? (int64_t)choose(2) : -1; uint64_t f0 = faults_fired(); faults_nth(k, false); status r = v.k == V_STR ? psock_read_boxed_string(s, a, &p, &n) : psock_read_boxed_data(s, a, &d, &n); bool fired = faults_fired() > f0; faults_nth(-1, false); ev("read", k, r);
        if (fired) { w.failed++; CHECK(is_oom(r), "wrong-status", "reading a value returned 0x%x when an allocation failed", r); CHECK(snap().blocks == b.blocks, "memory-leak", "a failed read left memory behind"); } else { CHECK(r == OK, "wrong-status", "reading returned 0x%x", r); void* x = v.k == V_STR ? (void*)p : d; CHECK(x && !memcmp(x, v.s.data(), v.s.size()), "wrong-value", "a value was not read"); CHECK(allocator_reclaim(a, x) == OK, "wrong-status", "reclaiming failed"); } psock_drop(s); break; }
    case 24: { char* p = (char*)0x31; const char *x = NM[choose(4)], *y = NM[choose(4)]; if (choose(2)) w.op("copying a string", [&] { return rcpr_strdup(&p, a, x); }, UNSET(p)); else w.op("joining strings", [&] { return rcpr_strcatv(&p, a, x, y, (char*)nullptr); }, UNSET(p)); CHECK(!strncmp(p, x, strlen(x)), "half-made", "a wrong string"); w.mem.push_back(p); break; }
    case 25: if (w.nums.empty() || choose(2)) { bigint* b = (bigint*)0x31; w.op("creating a number", [&] { return bigint_create_zero(&b, a, 1 + choose(500)); }, UNSET(b)); w.nums.push_back(b); w.hold("a number", bigint_resource_handle(b)); } else { bigint* b = (bigint*)0x31; bigint* o = w.nums[choose((uint32_t)w.nums.size())]; w.op("copying a number", [&] { return bigint_clone(&b, a, o); }, UNSET(b)); w.hold("a number", bigint_resource_handle(b)); } break;
    case 26: { rcpr_uuid u; for (int i = 0; i < 16; ++i) u.data[i] = (uint8_t)choose(256); char* p = (char*)0x31; w.op("printing an identifier", [&] { return rcpr_uuid_to_string(&p, a, &u); }, UNSET(p)); w.mem.push_back(p); break; }
    case 27: { auto_reset_trigger* t = (auto_reset_trigger*)0x31; w.op("creating a trigger", [&] { return auto_reset_trigger_create(&t, a); }, UNSET(t)); w.hold("a trigger", auto_reset_trigger_resource_handle(t)); break; }
    // threads
    case 28: { thread* t = (thread*)0x31; static int n; n = 0; w.op("creating a thread", [&] { return thread_create(&t, a, 65536, &n, &oom_thread); }, [&] { UNSET(t)(); CHECK(n == 0, "half-made", "a thread that was not created ran"); }); CHECK(resource_release(thread_resource_handle(t)) == OK, "wrong-status", "joining failed"); CHECK(n == 1, "half-made", "a thread ran %d times", n); break; }
    case 29: if (choose(2)) { thread_mutex* m = (thread_mutex*)0x31; w.op("creating a mutex", [&] { return thread_mutex_create(&m, a); }, UNSET(m)); w.hold("a mutex", thread_mutex_resource_handle(m)); } else { thread_cond* c = (thread_cond*)0x31; w.op("creating a condition", [&] { return thread_cond_create(&c, a); }, UNSET(c)); w.hold("a condition", thread_cond_resource_handle(c)); } break;
    case 30: { allocator* x = (allocator*)0x31; w.op("creating an allocator", [&] { return malloc_allocator_create(&x); }, UNSET(x)); void* p = (void*)0x31; w.op("allocating", [&] { return allocator_allocate(x, &p, 100); }, UNSET(p)); memset(p, 7, 100); if (choose(2)) w.op("resizing", [&] { return allocator_reallocate(x, &p, 300); }, [&] { CHECK(block_live(p) && *(char*)p == 7, "changed", "a failed resize lost the block"); }); CHECK(*(char*)p == 7 && allocator_reclaim(x, p) == OK, "wrong-status", "reclaiming failed"); w.hold("an allocator", allocator_resource_handle(x)); break; }
    }
}
SCENARIO(A01, nth_allocation_fails, 10, PLAT_BOTH) {
    items_reset(); set_step_limit(400000); OomWorld w; W = &w; for (uint32_t n = 1 + choose(30); n; --n) oom_op(w);
    // what was made works
    for (auto& b : w.queued) for (int i = 0; i < b.second; ++i) { message* m = nullptr; CHECK(message_receive(b.first, &m, w.md) == OK && m, "wrong-status", "a message that was sent cannot be received"); resource* p = message_payload(m, false); (void)p; CHECK(resource_release(message_resource_handle(m)) == OK, "wrong-status", "releasing a message failed"); if (choose(3) == 2) break; }
    if (w.s && choose(4)) { for (int i = 0; i < 40 && w.ran < w.fibers; ++i) CHECK(fiber_scheduler_run(w.s) == OK, "wrong-status", "run failed"); CHECK(w.ran == w.fibers, "lost-progress", "%d of %d fibers ran", w.ran, w.fibers); }
    if (w.q) { for (auto i : w.inq) { resource* r; CHECK(queue_pop(w.q, &r) == OK && item_of(r) == i, "wrong-element", "a queue lost its order"); item_drop(i); } CHECK(resource_release(queue_resource_handle(w.q)) == OK, "wrong-status", "releasing failed"); }
    if (w.l) { for (auto i : w.inl) { resource* r; CHECK(list_pop(w.l, &r) == OK && item_of(r) == i, "wrong-element", "a list lost its order"); item_drop(i); } CHECK(resource_release(list_resource_handle(w.l)) == OK, "wrong-status", "releasing failed"); }
    if (w.sl) { for (auto i : w.ins) { resource* r; CHECK(slist_pop(w.sl, &r) == OK && item_of(r) == i, "wrong-element", "a single list lost its order"); item_drop(i); } CHECK(resource_release(slist_resource_handle(w.sl)) == OK, "wrong-status", "releasing failed"); }
    if (w.t) { for (int64_t k : w.keys) { resource* r = nullptr; CHECK(rbtree_find(&r, w.t, &k) == OK && item_of(r)->val == k, "wrong-element", "a tree lost a key"); } CHECK(resource_release(rbtree_resource_handle(w.t)) == OK, "wrong-status", "releasing failed"); }
    // sockets before their buffered readers were created stay valid: readers first
    for (size_t i = w.held.size(); i-- > 0;) { auto& h = w.held[i]; CHECK(resource_release(h.r) == OK, "wrong-status", "releasing %s failed", h.what.c_str()); if (h.fd >= 0) CHECK(!fd_open(h.fd), "descriptor-leak", "releasing %s left its descriptor open", h.what.c_str()); }
    if (w.s) CHECK(resource_release(fiber_scheduler_resource_handle(w.s)) == OK, "wrong-status", "releasing the scheduler failed");
    for (auto m : w.mem) { if (block_live(m)) user_free(m); } for (auto u : w.uctx) delete u;
    CHECK(items_live() == 0, "object-leak", "%zu values were not released", items_live()); CHECK(live_stacks() == 0, "stack-leak", "%zu stacks are left", live_stacks()); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); CHECK(mutexes_live() + conds_live() + attrs_live() + threads_unjoined() == 0, "object-leak", "system objects are left"); w.A.release(); check_no_leaks("after releasing everything");
}
}
// ============================================================ A02
namespace {
struct Own { resource hdr; uint64_t magic; int id; resource* kid; };
struct Rel {
    Alloc A; std::map<int, int> attempts; std::set<const void*> live; int next = 0; uint64_t must_report = 0; std::vector<UCtx*> uctx; std::vector<status*> codes; uint64_t made = 0; uint32_t budget = 40;
    fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; std::vector<mailbox_address> box; std::map<mailbox_address, bool> listened; std::vector<conditional> cond; std::vector<std::pair<psock*, FileP>> async; std::set<psock*> busy; std::vector<psock*> plain; int fibers = 0; uint32_t left = 0; bool quit = false; int port = 0; uint64_t shape = 7; std::map<psock*, int> fdof; std::vector<fiber*> stopped; int running = 0; bool managed = false, failing = false, kept = false, syncerr = false; std::vector<int> bad_threads; uint64_t bad_joined() { uint64_t n = 0; for (int t : bad_threads) n += thread_joined(t); return n; }
};
Rel* R;
status own_release(resource* r) {
    Own* o = (Own*)r; if (!block_live(o)) viol("double-release", "a user resource was released twice"); CHECK(o->magic == 0x0117E0, "bad-release", "release of something that is not the user resource");
    Rel& w = *R; CHECK(++w.attempts[o->id] == 1, "double-release", "user resource %d was released twice", o->id); resource* k = o->kid; bool fail = fault(F_RELEASE); ev("own-release", o->id, fail); o->magic = 0; w.live.erase(o); user_free(o); status x = k ? resource_release(k) : OK; if (fail) { w.must_report++; return E_RELEASE; } return x;
}
RCPR_VTABLE resource_vtable own_vtable = { &own_release };
rcpr_comparison_result ptr_cmp(void*, const void* a, const void* b) { return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* ptr_key(void*, const resource* r) { return r; }
struct ThArg { Rel* w; status ret; int ran; };
status rel_thread(void* c) { ThArg* t = (ThArg*)c; t->ran++; for (int i = choose(3); i > 0; --i) thread_yield(); return t->ret; }
#define MUST(x) { status r_ = (x); CHECK(r_ == OK, "wrong-status", #x " returned 0x%x", r_); }
template <class F> void clear_all(Rel& w, F f) { uint64_t b = w.bad_joined(); for (status x; (x = f()) != OK;) { CHECK(w.bad_joined() > b, "wrong-status", "clearing returned 0x%x", x); b = w.bad_joined(); } }
resource* make_res(Rel& w, int depth) {
    NoFaults nf; allocator* a = w.A.a; w.made++; int kind = depth >= 4 || !w.budget ? 0 : (int)choose(20); if (w.budget) w.budget--; if (w.failing && ((depth && ((kind >= 1 && kind <= 3) || kind == 12)) || kind == 16)) kind = 18; w.shape = mix64(w.shape ^ (kind + depth * 32)); mark_state(w.shape & 0xffffff);
    uint32_t n = depth >= 4 ? 0 : choose(5);
    bool keep = !depth && ((kind >= 1 && kind <= 3) || kind == 12); if (!depth) w.kept = keep;
    switch (kind) {
    case 1: { queue* q; MUST(queue_create(&q, a)); for (; n; --n) { resource* r = make_res(w, depth + 1); if (choose(2)) { MUST(queue_append(q, r)); } else { MUST(queue_insert(q, r)); } } if (choose(3) == 2) { resource* r = nullptr; if (queue_pop(q, &r) == OK && r) { (void)resource_release(r); } } return queue_resource_handle(q); }
    case 2: { list* l; MUST(list_create(&l, a)); for (; n; --n) { resource* r = make_res(w, depth + 1); if (choose(2)) { MUST(list_append_tail(l, r)); } else { MUST(list_insert_head(l, r)); } } if (choose(3) == 2) { resource* r = nullptr; if (list_pop(l, &r) == OK && r) { (void)resource_release(r); } } else if (choose(4) == 3) clear_all(w, [&] { return list_clear(l); }); return list_resource_handle(l); }
    case 3: { slist* l; MUST(slist_create(&l, a)); for (; n; --n) { resource* r = make_res(w, depth + 1); if (choose(2)) { MUST(slist_append_tail(l, r)); } else { MUST(slist_insert_head(l, r)); } } if (choose(3) == 2) { resource* r = nullptr; if (slist_pop(l, &r) == OK && r) { (void)resource_release(r); } } else if (choose(4) == 3) clear_all(w, [&] { return slist_clear(l); }); return slist_resource_handle(l); }
    case 4: case 5: { rbtree* t; MUST(rbtree_create(&t, a, &ptr_cmp, &ptr_key, nullptr)); std::vector<resource*> v; if (n) n += choose(12); for (; n; --n) { resource* r = make_res(w, depth + 2); MUST(rbtree_insert(t, r)); v.push_back(r); } for (uint32_t k = choose((uint32_t)v.size() + 1); k && choose(2); --k) { uint32_t i = choose((uint32_t)v.size()); resource* r = nullptr; { uint64_t b0 = w.bad_joined(); status x = rbtree_delete(choose(2) ? &r : nullptr, t, v[i]); CHECK((x != OK) == (w.bad_joined() > b0), "wrong-status", "deleting from a tree returned 0x%x", x); } if (r) (void)!resource_release(r); v.erase(v.begin() + i); } if (choose(8) == 7) (void)!rbtree_clear(t); return rbtree_resource_handle(t); }
    case 6: { message* m; MUST(message_create(&m, a, 0, choose(4) ? make_res(w, depth + 1) : nullptr)); return message_resource_handle(m); }
    case 7: { psock* s; if (choose(2)) { std::string in(1 + choose(40), 'y'); MUST(psock_create_from_buffer(&s, a, in.data(), in.size())); uint8_t x; if (choose(2)) MUST(psock_read_raw_uint8(s, &x)); } else { MUST(psock_create_from_buffer(&s, a, nullptr, 0)); for (uint32_t k = choose(3); k; --k) { std::string d(1 + choose(3000), 'z'); MUST(psock_write_raw_data(s, d.data(), d.size())); } } return psock_resource_handle(s); }
    case 8: { UCtx* u = new UCtx; w.uctx.push_back(u); psock* s; MUST(user_psock(&s, a, u)); return psock_resource_handle(s); }
    case 9: { auto p = k_pair(choose(2), 100, 100); int fd = fd_install(p.first); psock* s; MUST(psock_create_from_descriptor(&s, a, fd)); return psock_resource_handle(s); }
    case 10: { bigint* b; MUST(bigint_create_zero(&b, a, 1 + choose(300))); return bigint_resource_handle(b); }
    case 11: { auto_reset_trigger* t; MUST(auto_reset_trigger_create(&t, a)); if (choose(2)) auto_reset_trigger_signal(t); return auto_reset_trigger_resource_handle(t); }
    case 12: { stack* st; MUST(stack_create(&st, a, 4096 * (1 + choose(3)))); return stack_resource_handle(st); }
    case 13: { ThArg* t = (ThArg*)user_alloc(sizeof(ThArg)); *t = {&w, choose(3) == 2 && w.failing ? (status)0x80010005 : OK, 0}; w.codes.push_back((status*)t); bool bad = t->ret != OK; thread* th; MUST(thread_create(&th, a, 65536, t, &rel_thread)); if (bad) w.bad_threads.push_back((int)thread_created()); return thread_resource_handle(th); }
    case 14: { thread_mutex* m; MUST(thread_mutex_create(&m, a)); return thread_mutex_resource_handle(m); }
    case 15: { thread_cond* c; MUST(thread_cond_create(&c, a)); return thread_cond_resource_handle(c); }
    case 16: { fiber_scheduler* s; MUST(fiber_scheduler_create_with_disciplines(&s, a)); for (uint32_t k = choose(3); k; --k) { fiber* f; MUST(fiber_create(&f, a, s, 16384, nullptr, nullptr)); MUST(fiber_scheduler_add(s, f)); } return fiber_scheduler_resource_handle(s); }
    case 17: { psock* s; struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(6000 + w.port++); MUST(psock_create_from_listen_address(&s, a, (struct sockaddr*)&sa, sizeof sa)); return psock_resource_handle(s); }
    default: { Own* o = (Own*)user_alloc(sizeof(Own)); memset((void*)o, 0, sizeof *o); resource_init(&o->hdr, &own_vtable); o->magic = 0x0117E0; o->id = w.next++; w.attempts[o->id] = 0; w.live.insert(o); o->kid = depth < 4 && choose(4) == 3 ? make_res(w, depth + 1) : nullptr; return &o->hdr; }
    }
}
// What a release must report: everything that failed on the way. A list, a
// queue or a stack that could not be released still belongs to the caller, who
// tries again; everything else is gone even when something below it failed.
bool retained(const char* what) { return !strcmp(what, "a container"); }
void let_go(Rel& w, resource* r, const char* what) {
    for (;;) {
        uint64_t m0 = w.must_report, u0 = fault_fired(F_MUNMAP), s0 = fault_fired(F_SYNC_OP_ERR), b0 = w.bad_joined(), c0 = fault_fired(F_RECLAIM); reclaim_failures(w.failing && strcmp(what, "a scheduler")); status x = resource_release(r); reclaim_failures(false); ev("let-go", x); uint64_t fails = w.must_report - m0 + fault_fired(F_MUNMAP) - u0 + fault_fired(F_SYNC_OP_ERR) - s0;
        fails += w.bad_joined() - b0 + fault_fired(F_RECLAIM) - c0; if (fails) CHECK(x != OK, "failure-hidden", "releasing %s succeeded though %llu nested releases failed", what, (unsigned long long)fails); else CHECK(x == OK, "wrong-status", "releasing %s returned 0x%x though nothing failed", what, x);
        if (x == OK || !retained(what) || fault_fired(F_RECLAIM) > c0) return; step();   // memory that could not be given back cannot be given back again
    }
}
status rel_fiber(void* c);
void rel_op(Rel& w, bool inmain) {
    step(); allocator* a = w.A.a;
    switch (choose(inmain ? 9 : 13)) {
    case 0: case 1: MUST(fiber_scheduler_run(w.s)); break;
    case 2: if (w.left) { w.left--; fiber* f; MUST(fiber_create(&f, a, w.s, 65536, &w, &rel_fiber)); if (choose(8) == 7) { w.fibers++; let_go(w, fiber_resource_handle(f), "a fiber that was never added"); } else { MUST(fiber_scheduler_add(w.s, f)); w.fibers++; w.running++; } } break;
    case 3: if (w.md && w.box.size() < 5) { mailbox_address b; MUST(mailbox_create(&b, w.md)); w.box.push_back(b); w.listened[b] = false; } break;
    case 4: case 5: if (!w.box.empty()) { mailbox_address b = w.box[choose((uint32_t)w.box.size())]; message* m; resource* p = choose(4) ? make_res(w, 1) : nullptr; MUST(message_create(&m, a, 0, p)); MUST(message_send(b, m, w.md)); } break;
    case 6: if (w.cd && w.cond.size() < 4) { conditional x; MUST(conditional_create(&x, w.cd)); w.cond.push_back(x); } break;
    case 7: if (!w.cond.empty()) { conditional x = w.cond[choose((uint32_t)w.cond.size())]; status r = choose(2) ? conditional_notify_one(x, w.cd) : conditional_notify_all(x, w.cd); (void)r; } break;
    case 8: if (!w.box.empty() && choose(3) == 2) { uint32_t i = choose((uint32_t)w.box.size()); if (!w.listened[w.box[i]]) { uint64_t m0 = w.bad_joined() + w.must_report + fault_fired(F_MUNMAP) + fault_fired(F_SYNC_OP_ERR); status r = mailbox_close(w.box[i], w.md); ev("close", r); bool failed = w.bad_joined() + w.must_report + fault_fired(F_MUNMAP) + fault_fired(F_SYNC_OP_ERR) > m0; (void)failed; if (!failed) CHECK(r == OK, "wrong-status", "closing a mailbox returned 0x%x", r); w.box.erase(w.box.begin() + i); } } break;
    case 9: if (!w.box.empty()) { mailbox_address b = w.box[choose((uint32_t)w.box.size())]; if (w.listened[b]) break; w.listened[b] = true; message* m = nullptr; status r = message_receive(b, &m, w.md); CHECK(r == OK && m, "wrong-status", "receiving returned 0x%x", r); w.listened[b] = false; if (choose(3) == 2) { if (std::find(w.box.begin(), w.box.end(), b) != w.box.end()) { MUST(message_send(b, m, w.md)); break; } } else if (choose(3) == 2) { resource* p = message_payload(m, true); let_go(w, message_resource_handle(m), "an emptied message"); if (p) let_go(w, p, "a payload"); break; } let_go(w, message_resource_handle(m), "a message"); } break;
    case 10: if (!w.cond.empty()) { conditional x = w.cond[choose((uint32_t)w.cond.size())]; MUST(conditional_wait(x, w.cd)); } break;
    case 11: case 12: { if (w.async.empty()) break; auto& p = w.async[choose((uint32_t)w.async.size())]; if (w.busy.count(p.first)) break; w.busy.insert(p.first); psock* s = p.first; uint8_t x; status r = psock_read_raw_uint8(s, &x); w.busy.erase(s); (void)r; break; }
    }
}
status rel_fiber(void* c) { Rel& w = *(Rel*)c; for (uint32_t n = choose(8); n; --n) rel_op(w, false); w.running--; return !w.failing || choose(3) < 2 ? OK : (status)0x80010009; }
RegProbe probe_reclaim("A02", "scheduler-release-reclaim", [](std::string& what) {
    NoFaults nf; Alloc A(2); fiber_scheduler* s = nullptr; MUST(fiber_scheduler_create_with_disciplines(&s, A.a.v[1]));
    reclaim_failures(true, 1); status x = resource_release(fiber_scheduler_resource_handle(s)); reclaim_failures(false); what = "releasing the scheduler survives the failing reclaim of a run queue node"; return x == OK; });
SCENARIO(A02, release_any_state, 10, PLAT_BOTH) {
    items_reset(); set_step_limit(400000); Rel w; R = &w; w.failing = choose(2); bool sched = choose(4) != 0; if (!w.failing) faults_config({F_CLOSE_ERR}); else if ((w.syncerr = choose(2))) faults_config({F_RELEASE, F_CLOSE_ERR, F_SYNC_OP_ERR, F_RECLAIM}, 300); else if (sched) faults_config({F_RELEASE, F_CLOSE_ERR, F_RECLAIM}, 300); else faults_config({F_RELEASE, F_MUNMAP, F_CLOSE_ERR, F_RECLAIM}, 300); allocator* a = w.A.a; std::vector<std::pair<resource*, const char*>> roots; w.budget = 5 + choose(80);
    if (sched) {
        { NoFaults nf; MUST(fiber_scheduler_create_with_disciplines(&w.s, a)); if (choose(4)) MUST(message_discipline_get_or_create(&w.md, a, w.s)); if (choose(3)) MUST(condition_discipline_get_or_create(&w.cd, a, w.s)); w.left = choose(8); }
        bool asy = choose(2); fiber* mf; MUST(disciplined_fiber_scheduler_main_fiber_get(&mf, w.s));
        if (asy) { NoFaults nf; for (uint32_t n = 1 + choose(3); n; --n) { auto p = k_pair(choose(2), 100, 100); int fd = fd_install(p.first); psock *s, *x; MUST(psock_create_from_descriptor(&s, a, fd)); MUST(psock_create_wrap_async(&x, a, mf, s)); if (choose(2)) peer_write(p.second, "abcdefg", choose(7)); w.async.push_back({x, p.second}); w.fdof[x] = fd; roots.push_back({psock_resource_handle(x), "an asynchronous socket"}); } }
        for (uint32_t n = choose(40); n; --n) { rel_op(w, true); if (choose(6) == 5 && !w.async.empty()) { auto& p = w.async[choose((uint32_t)w.async.size())]; peer_write(p.second, "hi", 2); } }
        roots.push_back({fiber_scheduler_resource_handle(w.s), "a scheduler"});
    }
    for (uint32_t n = choose(4) + !sched; n; --n) { w.kept = false; resource* r = make_res(w, 0); roots.push_back({r, w.kept ? "a container" : "an object"}); }
    // release in any order; asynchronous sockets may outlive their scheduler
    while (!roots.empty()) { uint32_t i = choose((uint32_t)roots.size()); auto r = roots[i]; roots.erase(roots.begin() + i); let_go(w, r.first, r.second); }
    faults_disable(); w.async.clear();
    // messages behind one that could not be released stay in their mailbox
    if (sched && (fault_fired(F_RELEASE) || fault_fired(F_RECLAIM) || fault_fired(F_SYNC_OP_ERR) || w.bad_joined())) return;
    if (fault_fired(F_RECLAIM)) return;
    for (auto& x : w.attempts) CHECK(x.second == 1, "not-released", "user resource %d of %d was never released", x.first, w.next);
    for (auto u : w.uctx) { CHECK(u->released == 1, "not-released", "a user-defined socket's release was called %d times", u->released); delete u; } for (auto c : w.codes) { CHECK(((ThArg*)c)->ran == 1, "entry-count", "a thread ran %d times", ((ThArg*)c)->ran); user_free(c); }
    CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); CHECK(mutexes_live() + conds_live() + attrs_live() + threads_unjoined() == 0, "object-leak", "system objects are left"); w.A.release();
    CHECK(live_blocks() == 0, "memory-leak", "%zu blocks are left: %s", live_blocks(), live_summary().c_str()); CHECK(live_stacks() == 0, "stack-leak", "%zu stacks are left", live_stacks());
}
ALSO(V01, release_any_state, 1);
}
ALSO(V01, nth_allocation_fails, 1);
