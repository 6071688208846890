// T03: threads that use different objects, or the same object one after the
// other, preempted at any basic block of the library (build variant "guard").
#include "psockkit.hpp"
#include "threads.hpp"
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <bigint/bigint_internal.h>
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_socket_utilities;
RCPR_IMPORT_string_as(rcpr);
RCPR_IMPORT_thread;

extern "C" int sim_close(int);
namespace {
// an operation of this thread may fail only for a failure injected into this thread
template <class F> void must(const char* what, F f) {
    for (int k = 0;; ++k) { uint64_t f0 = thread_faults(); status r = f(); if (r == OK) return; CHECK(is_oom(r) && thread_faults() > f0, "disturbed", "%s returned 0x%x though nothing failed in its thread", what, r); ev("retry", thread_self()); if (k > 3) faults_disable(); }
}
#define SAME(c, what) CHECK(c, "disturbed", "%s: a thread found its object not as it left it", what)
struct Work { allocator* a = nullptr; uint64_t salt; int hands = 0; virtual ~Work() {} virtual void start() = 0; virtual void op() = 0; virtual void end() = 0; };
struct Guest { int inside = -1; void in() { CHECK(inside < 0, "model", "x"); inside = thread_self(); } void out() { CHECK(inside == thread_self(), "model", "x"); inside = -1; } };
// ---- a tree
struct WTree : Work {
    rbtree* t = nullptr; std::map<int64_t, Item*> m; int user = -1; uint64_t magic = 0x7433;
    static rcpr_comparison_result cmp(void* c, const void* l, const void* r) { WTree* w = (WTree*)c; CHECK(w && w->magic == 0x7433, "disturbed", "a comparison was given another tree's context"); CHECK(w->user == thread_self(), "disturbed", "a comparison was made by another thread"); int64_t a = *(const int64_t*)l, b = *(const int64_t*)r; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
    static const void* key(void* c, const resource* r) { WTree* w = (WTree*)c; CHECK(w && w->magic == 0x7433 && w->user == thread_self(), "disturbed", "a key was asked for in another thread"); return &((const Item*)r)->val; }
    void start() override { user = thread_self(); must("creating a tree", [&] { return rbtree_create(&t, a, &cmp, &key, this); }); }
    void op() override {
        user = thread_self(); int64_t k = choose(24);
        switch (choose(6)) {
        case 5: if (choose(3) == 0) { std::vector<int> ids; for (auto& x : m) ids.push_back(x.second->id); SAME(rbtree_clear(t) == OK && rbtree_count(t) == 0, "clearing a tree"); for (int i : ids) SAME(!item_alive(i), "clearing a tree"); m.clear(); } else { rbtree* o = nullptr; must("creating a tree", [&] { return rbtree_create(&o, a, &cmp, &key, this); }); rbtree_swap(t, o); SAME(rbtree_count(o) == m.size() && rbtree_count(t) == 0, "swapping trees"); rbtree_swap(o, t); SAME(resource_release(rbtree_resource_handle(o)) == OK, "swapping trees"); } break;
        case 0: case 1: if (!m.count(k)) { Item* i = item_new(k); must("inserting", [&] { return rbtree_insert(t, item_res(i)); }); m[k] = i; } break;
        case 2: { resource* r = nullptr; status s = rbtree_find(&r, t, &k); SAME(m.count(k) ? s == OK && r == item_res(m[k]) : s != OK, "finding in a tree"); break; }
        case 3: { resource* r = nullptr; if (!m.count(k)) break; status s = rbtree_delete(&r, t, &k); SAME(s == OK && r == item_res(m[k]), "deleting from a tree"); item_drop(m[k]); m.erase(k); break; }
        case 4: { auto it = m.begin(); size_t n = 0; for (rbtree_node* x = rbtree_minimum_node(t, rbtree_root_node(t)); x != rbtree_nil_node(t); x = rbtree_successor_node(t, x)) { SAME(it != m.end() && rbtree_node_value(t, x) == item_res(it->second), "walking a tree"); ++it; ++n; } SAME(n == m.size() && rbtree_count(t) == n, "walking a tree"); break; }
        }
    }
    void end() override { user = thread_self(); std::vector<int> ids; for (auto& x : m) ids.push_back(x.second->id); SAME(resource_release(rbtree_resource_handle(t)) == OK, "releasing a tree"); for (int i : ids) SAME(!item_alive(i), "releasing a tree"); }
};
// ---- sequences
struct WSeq : Work {
    int kind; list* l = nullptr; slist* s = nullptr; queue* q = nullptr; std::deque<Item*> m; WSeq(int k) : kind(k) {}
    void start() override { must("creating a sequence", [&] { return kind == 0 ? list_create(&l, a) : kind == 1 ? slist_create(&s, a) : queue_create(&q, a); }); }
    void op() override {
        switch (choose(4)) {
        case 0: case 1: { Item* i = item_new(7); bool front = choose(2); must("adding to a sequence", [&] { return kind == 0 ? (front ? list_insert_head(l, item_res(i)) : list_append_tail(l, item_res(i))) : kind == 1 ? (front ? slist_insert_head(s, item_res(i)) : slist_append_tail(s, item_res(i))) : front ? queue_insert(q, item_res(i)) : queue_append(q, item_res(i)); }); front ? m.push_front(i) : m.push_back(i); break; }
        case 2: if (!m.empty()) { resource* r = nullptr; status x = kind == 0 ? list_pop(l, &r) : kind == 1 ? slist_pop(s, &r) : queue_pop(q, &r); SAME(x == OK && r == item_res(m.front()), "taking from a sequence"); item_drop(m.front()); m.pop_front(); } break;
        case 3: { size_t n = kind == 0 ? list_count(l) : kind == 1 ? slist_count(s) : queue_count(q); SAME(n == m.size(), "counting a sequence"); if (kind == 0) { list_node* x; size_t i = 0; SAME(list_head(&x, l) == OK, "walking a list"); while (x) { resource* r; SAME(list_node_child(&r, x) == OK && i < m.size() && r == item_res(m[i]), "walking a list"); ++i; SAME(list_node_next(&x, x) == OK, "walking a list"); } SAME(i == m.size(), "walking a list"); } break; }
        }
    }
    void end() override { std::vector<int> ids; for (auto x : m) ids.push_back(x->id); resource* r = kind == 0 ? list_resource_handle(l) : kind == 1 ? slist_resource_handle(s) : queue_resource_handle(q); SAME(resource_release(r) == OK, "releasing a sequence"); for (int i : ids) SAME(!item_alive(i), "releasing a sequence"); }
};
// ---- strings, identifiers, numbers
struct WText : Work {
    std::vector<std::pair<char*, std::string>> v; uint64_t n = 0;
    std::string text() { std::string s; for (uint32_t k = choose(40); k; --k) s += (char)('a' + mix64(salt + ++n) % 26); return s; }
    void start() override {}
    void op() override {
        char* o = nullptr; std::string x = text(), y = text(), z = text();
        switch (choose(7)) {
        case 0: must("copying a string", [&] { return rcpr_strdup(&o, a, x.c_str()); }); v.push_back({o, x}); break;
        case 1: must("joining strings", [&] { return rcpr_strcatv(&o, a, x.c_str(), y.c_str(), z.c_str(), (char*)nullptr); }); v.push_back({o, x + y + z}); break;
        case 2: { rcpr_uuid u, w; for (int i = 0; i < 16; ++i) u.data[i] = (uint8_t)mix64(salt * 16 + ++n); must("printing an identifier", [&] { return rcpr_uuid_to_string(&o, a, &u); }); char want[40]; const uint8_t* d = u.data; snprintf(want, sizeof want, "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]); v.push_back({o, want}); SAME(rcpr_uuid_parse_string(&w, want) == OK && !memcmp(&u, &w, 16), "parsing an identifier"); break; }
        case 3: { bigint *b = nullptr, *c = nullptr; size_t bits = 1 + choose(300); must("making a number", [&] { return bigint_create_zero(&b, a, bits); }); std::vector<uint64_t> want; for (size_t i = 0; i < b->length; ++i) want.push_back(b->array[i] = mix64(salt + i)); must("copying a number", [&] { return bigint_clone(&c, a, b); }); SAME(c->length == want.size() && !memcmp(c->array, want.data(), want.size() * 8), "copying a number"); SAME(resource_release(bigint_resource_handle(b)) == OK && resource_release(bigint_resource_handle(c)) == OK, "releasing a number"); break; }
        case 5: case 6: word(); break;
        case 4: { std::string s = x + "," + y + "," + z; std::vector<char> b(s.begin(), s.end()); b.push_back(0); char *l, *r; char* p = b.data(); const char* want[] = {x.c_str(), y.c_str(), z.c_str()}; int i = 0; for (; p && i < 3; ++i) { bool more = rcpr_split((const char**)&l, (const char**)&r, p, ',') == OK; SAME(!strcmp(p, want[i]) && more == (i < 2), "splitting a string"); p = more ? (char*)r : nullptr; } break; }
        }
        if (v.size() > 4) drop();
    }
    // taking a string apart word by word, over several operations
    std::vector<char> line; std::vector<std::string> words; size_t at = 0; rcpr_string_iterator it; bool open = false, multi = false;
    static bool comma(int ch) { return ch == ','; }
    void word() {
        char* o = nullptr;
        if (!open) { words.clear(); at = 0; multi = choose(2); std::string s; for (uint32_t k = choose(6); k; --k) { std::string w = "w" + text(); words.push_back(w); s += (s.empty() ? "" : multi ? "," : " \t") + w; } line.assign(s.begin(), s.end()); line.push_back(0); }
        status r = multi ? rcpr_multisplit((const char**)&o, &it, open ? nullptr : line.data(), &comma) : rcpr_words((const char**)&o, &it, open ? nullptr : line.data());
        if (at < words.size()) { SAME(r == OK && o && words[at] == o, "taking words from a string"); ++at; open = true; } else { SAME(r == ERROR_STRING_END_OF_INPUT, "taking words from a string"); open = false; }
    }
    void drop() { SAME(!strcmp(v[0].first, v[0].second.c_str()), "reading a string"); SAME(allocator_reclaim(a, v[0].first) == OK, "reclaiming a string"); v.erase(v.begin()); }
    void end() override { while (!v.empty()) drop(); }
};
// ---- a socket over memory: values written, taken out, and read back
struct WMem : Work {
    psock* s = nullptr; std::vector<Val> vals; std::string want;
    void start() override { must("creating a socket", [&] { return psock_create_from_buffer(&s, a, nullptr, 0); }); }
    void op() override {
        if (vals.size() < 6) { Val v = val_gen(60); must("writing a value", [&] { uint64_t f0 = thread_faults(); status r = val_write(s, v); if (r != OK && thread_faults() > f0) { flush(false); return r; } return r; }); vals.push_back(v); want += val_enc(v); return; }
        flush(true);
    }
    void flush(bool check) { // a write that failed half-way leaves an unknown part of it: start again
        ThreadNoFaults tf; void* b = nullptr; size_t n = 0; SAME(psock_from_buffer_get_output_buffer(s, a, &b, &n) == OK, "taking the output"); std::string o((char*)b, n); SAME(allocator_reclaim(a, b) == OK, "reclaiming the output"); SAME(o.substr(0, want.size()) == want && (!check || o.size() == want.size()), "writing values");
        psock* r = nullptr; SAME(psock_create_from_buffer(&r, a, o.data(), o.size()) == OK, "creating a reader"); for (auto& v : vals) { Val g; SAME(val_read(r, a, v, g, false) == OK && val_eq(g, v), "reading values"); } psock_drop(r);
        SAME(resource_release(psock_resource_handle(s)) == OK, "releasing a socket"); s = nullptr; SAME(psock_create_from_buffer(&s, a, nullptr, 0) == OK, "creating a socket"); vals.clear(); want.clear();
    }
    void end() override { flush(true); SAME(resource_release(psock_resource_handle(s)) == OK, "releasing a socket"); }
};
// ---- a bump allocator over its own region
struct WBump : Work {
    char* reg = nullptr; allocator* b = nullptr; size_t n = 0; std::vector<std::pair<uint8_t*, size_t>> v;
    void start() override { n = 256 + choose(2000); reg = (char*)user_alloc(n); SAME(bump_allocator_create(&b, reg, n) == OK, "creating a bump allocator"); }
    void op() override {
        void* p = nullptr; size_t k = 1 + choose(100); status r = allocator_allocate(b, &p, k); if (r == OK) { SAME((char*)p >= reg && (char*)p + k <= reg + n, "bump allocation"); for (auto& x : v) SAME((uint8_t*)p >= x.first + x.second || (uint8_t*)p + k <= x.first, "bump allocation"); memset(p, (int)(v.size() * 7 + salt), k); v.push_back({(uint8_t*)p, k}); }
        else { SAME(is_oom(r), "bump allocation"); size_t used = 0; for (auto& x : v) used += x.second + 32; SAME(used + 200 + k > n, "bump allocation"); check(); SAME(allocator_control(b, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, &k, sizeof k) == OK, "resetting a bump allocator"); v.clear(); }
    }
    void check() { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].second; ++j) SAME(v[i].first[j] == (uint8_t)(i * 7 + salt), "reading bump memory"); }
    void end() override { check(); SAME(resource_release(allocator_resource_handle(b)) == OK, "releasing a bump allocator"); user_free(reg); }
};
// ---- a trigger
struct WTrig : Work {
    auto_reset_trigger* t = nullptr; bool raised = false, reg = false; int calls = 0, want = 0;
    static void cb(void* c) { WTrig* w = (WTrig*)c; w->calls++; }
    void start() override { must("creating a trigger", [&] { return auto_reset_trigger_create(&t, a); }); }
    void op() override { switch (choose(3)) { case 0: auto_reset_trigger_signal(t); raised = true; break; case 1: { status r = auto_reset_trigger_register(t, &cb, this); SAME((r == OK) == !reg, "registering with a trigger"); reg = true; break; } case 2: if (raised && reg) { want++; raised = reg = false; } auto_reset_trigger_step(t); break; } SAME(calls == want, "a trigger"); }
    void end() override { SAME(resource_release(auto_reset_trigger_resource_handle(t)) == OK, "releasing a trigger"); }
};
// ---- lines read through a buffered reader
struct WLine : Work {
    psock* s = nullptr; psock_br* b = nullptr; std::vector<std::string> ls; std::string c; size_t at = 0;
    void start() override {
        ThreadNoFaults tf; ls.clear(); c.clear(); at = 0; for (uint32_t n = 1 + choose(6); n; --n) { std::string x; for (uint32_t k = choose(30); k; --k) x += (char)('a' + mix64(salt + c.size() + k) % 26); ls.push_back(x); c += x + "\n"; }
        SAME(psock_create_from_buffer(&s, a, c.data(), c.size()) == OK && psock_br_create_from_psock(&b, a, s) == OK, "creating a buffered socket");
    }
    void op() override {
        if (at == ls.size()) { end(); start(); return; }
        char buf[64]; size_t n = sizeof buf; status r = psock_br_read_line(buf, &n, b); SAME(r == OK && n == ls[at].size() + 1 && ls[at] == buf, "reading a line"); ++at;
    }
    void end() override { SAME(resource_release(psock_br_resource_handle(b)) == OK && resource_release(psock_resource_handle(s)) == OK, "releasing a buffered socket"); }
};
// ---- descriptors passed over a socket
struct WPass : Work {
    psock* s[2] = {nullptr, nullptr}; int own = -1, tag = 0; std::deque<int> q;
    void start() override { ThreadNoFaults tf; auto p = k_dgram_pair(3); int f0 = fd_install(p.first), f1 = fd_install(p.second); SAME(psock_create_from_descriptor(&s[0], a, f0) == OK && psock_create_from_descriptor(&s[1], a, f1) == OK, "creating a socket"); }
    void op() override {
        if (q.size() < 3 && choose(2)) { tag = (int)(salt * 100 + tag % 100 + 1); int fd = fd_install(k_reg(tag)); SAME(psock_write_raw_descriptor(s[0], fd) == OK, "sending a descriptor"); sim_close(fd); q.push_back(tag); }
        else if (!q.empty()) { int fd = -1; SAME(psock_read_raw_descriptor(s[1], &fd) == OK && fd_open(fd) && file_is(fd_get(fd), q.front()), "receiving a descriptor"); q.pop_front(); sim_close(fd); }
    }
    void end() override { SAME(resource_release(psock_resource_handle(s[0])) == OK && resource_release(psock_resource_handle(s[1])) == OK, "releasing a socket"); }
};
// ---- a lock with its condition, and threads of its own
struct WLock : Work {
    thread_mutex* m = nullptr; thread_cond* c = nullptr; uint64_t count = 0;
    struct Child { uint64_t in, out = 0; int parent; }; static status child(void* p) { Child* k = (Child*)p; CHECK(thread_self() != k->parent, "disturbed", "a new thread is its own creator"); k->out = mix64(k->in); return (status)(k->in & 0xffff); }
    void make() { must("creating a lock", [&] { return thread_mutex_create(&m, a); }); must("creating a condition", [&] { return thread_cond_create(&c, a); }); }
    void drop() { SAME(resource_release(thread_cond_resource_handle(c)) == OK && resource_release(thread_mutex_resource_handle(m)) == OK, "releasing a lock"); }
    void start() override { make(); }
    void op() override {
        switch (choose(5)) {
        case 0: drop(); make(); break;
        case 1: { Child k{mix64(salt + ++count), 0, thread_self()}; thread* x = nullptr; must("creating a thread", [&] { return thread_create(&x, a, 65536, &k, &child); }); SAME(resource_release(thread_resource_handle(x)) == (status)(k.in & 0xffff), "joining a thread"); SAME(k.out == mix64(k.in), "a thread of its own"); break; }
        default: { thread_mutex_lock* l = nullptr; must("acquiring a lock", [&] { return thread_mutex_lock_acquire(&l, m); }); SAME(mutex_held_by_self(), "acquiring a lock"); if (choose(2)) SAME((choose(2) ? thread_cond_signal_one(l, c) : thread_cond_signal_all(l, c)) == OK, "signalling"); SAME(resource_release(thread_mutex_lock_resource_handle(l)) == OK, "releasing a held lock"); SAME(!mutex_held_by_self(), "releasing a held lock"); }
        }
    }
    void end() override { drop(); }
};
// ---- a pair of blocking sockets
struct WPair : Work {
    psock* s[2] = {nullptr, nullptr}; std::deque<Val> q[2];
    void start() override { ThreadNoFaults tf; auto p = k_pair(false, 4096, 4096); int fd[2] = {fd_install(p.first), fd_install(p.second)}; for (int i = 0; i < 2; ++i) SAME(psock_create_from_descriptor(&s[i], a, fd[i]) == OK, "creating a socket"); }
    void op() override {
        int i = choose(2); if (q[i].size() < 4 && choose(2)) { Val v = val_gen(60); must("writing a value", [&] { ThreadNoFaults tf; return val_write(s[i], v); }); q[i].push_back(v); }
        else if (!q[i].empty()) { Val g; ThreadNoFaults tf; SAME(val_read(s[!i], a, q[i].front(), g, false) == OK && val_eq(g, q[i].front()), "reading a value"); q[i].pop_front(); }
    }
    void end() override { for (auto x : s) SAME(resource_release(psock_resource_handle(x)) == OK, "releasing a socket"); }
};
// ---- a scheduler of this thread: a ring of fibers passing messages, and a conditional
struct WRing;
struct RFib { WRing* w; uint32_t i; mailbox_address in, out; bool ended = false; };
struct WRing {
    allocator* a; uint64_t salt; fiber_scheduler* s = nullptr; fiber_scheduler_discipline *md = nullptr, *cd = nullptr; std::vector<RFib> f; uint32_t rounds; conditional c = 0; int me; uint32_t waiting = 0, woken = 0, at_gate = 0;
    static status ring(void* p) {
        RFib* r = (RFib*)p; WRing& w = *r->w; uint64_t loc[4]; for (int i = 0; i < 4; ++i) loc[i] = mix64(w.salt * 64 + r->i * 4 + i);
        auto here = [&] { CHECK(thread_self() == w.me, "disturbed", "a fiber ran in a thread that is not its scheduler's"); for (int i = 0; i < 4; ++i) CHECK(loc[i] == mix64(w.salt * 64 + r->i * 4 + i), "disturbed", "a fiber lost its local state"); };
        here();
        for (uint32_t k = 0; k < w.rounds; ++k) {
            message* m = nullptr; must("receiving", [&] { return message_receive(r->in, &m, w.md); }); here();
            resource* x = message_payload(m, true); SAME(x && item_of(x)->val == (int64_t)(k * 1000 + r->i), "a message"); item_of(x)->val++; SAME(resource_release(message_resource_handle(m)) == OK, "releasing a message");
            must("creating a message", [&] { return message_create(&m, w.a, 0, x); }); must("sending", [&] { return message_send(r->out, m, w.md); }); here(); if (choose(3) == 0) { must("yielding", [&] { return fiber_scheduler_run(w.s); }); here(); }
        }
        w.waiting++; must("waiting", [&] { return conditional_wait(w.c, w.cd); }); w.waiting--; w.woken++; here(); ThreadNoFaults tf; SAME(mailbox_close(r->in, w.md) == OK, "closing a mailbox"); r->ended = true; return OK;
    }
    struct RQ { WRing* w; conditional c; int st; };
    static status sleeper(void* p) { RQ* q = (RQ*)p; ThreadNoFaults tf; q->st = 1; status r = conditional_wait(q->c, q->w->cd); CHECK(thread_self() == q->w->me, "disturbed", "a fiber ran in a thread that is not its scheduler's"); SAME(r != OK, "interrupting a fiber"); q->st = 2; return OK; }
    void interrupt() { // asks a waiting fiber to stop
        RQ q{this, 0, 0}; SAME(conditional_create(&q.c, cd) == OK, "creating a conditional"); fiber* x = nullptr; SAME(fiber_create(&x, a, s, 65536, &q, &sleeper) == OK && fiber_scheduler_add(s, x) == OK, "creating a fiber");
        for (uint32_t k = 0; !q.st; ++k) { CHECK(k < 100, "disturbed", "a fiber does not start"); SAME(fiber_scheduler_run(s) == OK, "yielding"); }
        status r = choose(2) ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, x) : disciplined_fiber_scheduler_send_terminate_request_to_fiber(s, x); SAME(r == OK, "interrupting a fiber");
        for (uint32_t k = 0; q.st < 2; ++k) { CHECK(k < 100, "disturbed", "an interrupted fiber does not continue"); SAME(fiber_scheduler_run(s) == OK, "yielding"); }
        for (uint32_t k = 0; k < 3; ++k) SAME(fiber_scheduler_run(s) == OK, "yielding"); SAME(conditional_close(q.c, cd) == OK, "closing a conditional");
    }
    void run() {
        me = thread_self(); must("creating a scheduler", [&] { return fiber_scheduler_create_with_disciplines(&s, a); }); must("message discipline", [&] { return message_discipline_get_or_create(&md, a, s); }); must("condition discipline", [&] { return condition_discipline_get_or_create(&cd, a, s); });
        uint32_t n = 1 + choose(4); rounds = 1 + choose(3); f.resize(n); std::vector<mailbox_address> mb(n + 1); for (auto& b : mb) must("creating a mailbox", [&] { return mailbox_create(&b, md); }); must("creating a conditional", [&] { return conditional_create(&c, cd); });
        for (uint32_t i = 0; i < n; ++i) { f[i] = {this, i, mb[i], mb[i + 1]}; fiber* x = nullptr; must("creating a fiber", [&] { return fiber_create(&x, a, s, 65536, &f[i], &ring); }); must("adding a fiber", [&] { return fiber_scheduler_add(s, x); }); }
        for (uint32_t k = 0; k < rounds; ++k) { Item* it = item_new(k * 1000); message* m = nullptr; must("creating a message", [&] { return message_create(&m, a, 0, item_res(it)); }); must("sending", [&] { return message_send(mb[0], m, md); }); }
        for (uint32_t k = 0; k < rounds; ++k) { message* m = nullptr; must("receiving", [&] { return message_receive(mb[n], &m, md); }); CHECK(thread_self() == me, "disturbed", "a scheduler's first fiber continued in another thread"); SAME(item_of(message_payload(m, false))->val == (int64_t)(k * 1000 + n), "a message"); SAME(resource_release(message_resource_handle(m)) == OK, "releasing a message"); }
        for (uint32_t k = 0; waiting < n; ++k) { CHECK(k < 100, "disturbed", "fibers of one thread do not reach their conditional"); must("yielding", [&] { return fiber_scheduler_run(s); }); }
        if (choose(2)) must("notifying", [&] { return conditional_notify_all(c, cd); }); else for (uint32_t k = 0; k < n; ++k) must("notifying", [&] { return conditional_notify_one(c, cd); });
        for (uint32_t k = 0; woken < n; ++k) { CHECK(k < 100, "disturbed", "notified fibers of one thread do not continue"); must("yielding", [&] { return fiber_scheduler_run(s); }); }
        for (uint32_t k = 0; k < 3; ++k) must("yielding", [&] { return fiber_scheduler_run(s); });
        for (auto& x : f) SAME(x.ended, "a fiber"); ThreadNoFaults tf; for (uint32_t k = choose(3); k; --k) interrupt(); SAME(conditional_close(c, cd) == OK && mailbox_close(mb[n], md) == OK, "closing"); SAME(resource_release(fiber_scheduler_resource_handle(s)) == OK, "releasing a scheduler");
    }
};
// ---- a scheduler of this thread whose fibers talk over a socket
struct WSock;
struct SFib { WSock* w; psock* s; int side; mailbox_address done; };
struct WSock {
    allocator* a; uint64_t salt; fiber_scheduler* s = nullptr; fiber_scheduler_discipline* md = nullptr; std::vector<Val> vals[2]; int me;
    static status talk(void* p) {
        SFib* f = (SFib*)p; WSock& w = *f->w; ThreadNoFaults tf;
        for (size_t k = 0; k < w.vals[0].size(); ++k) for (int turn = 0; turn < 2; ++turn) {
            if (turn == f->side) { status r = val_write(f->s, w.vals[turn][k]); SAME(r == OK, "writing to a socket"); }
            else { Val g; status r = val_read(f->s, w.a, w.vals[turn][k], g, false); SAME(r == OK && val_eq(g, w.vals[turn][k]), "reading from a socket"); }
            CHECK(thread_self() == w.me, "disturbed", "a fiber ran in a thread that is not its scheduler's");
        }
        message* m = nullptr; SAME(message_create(&m, w.a, 0, nullptr) == OK && message_send(f->done, m, w.md) == OK, "sending"); return OK;
    }
    void run() {
        ThreadNoFaults tf; me = thread_self(); SAME(fiber_scheduler_create_with_disciplines(&s, a) == OK && message_discipline_get_or_create(&md, a, s) == OK, "creating a scheduler"); int fd[2]; SAME(socket_utility_socketpair(AF_UNIX, SOCK_STREAM, 0, &fd[0], &fd[1]) == OK, "a socket pair");
        for (uint32_t n = 1 + choose(3); n; --n) for (auto& v : vals) v.push_back(val_gen(200));
        SFib f[2]; mailbox_address b; SAME(mailbox_create(&b, md) == OK, "creating a mailbox"); for (int i = 0; i < 2; ++i) { fiber* x; psock *d, *as; f[i] = {this, nullptr, i, b}; SAME(fiber_create(&x, a, s, 65536, &f[i], &talk) == OK && psock_create_from_descriptor(&d, a, fd[i]) == OK && psock_create_wrap_async(&as, a, x, d) == OK, "creating a socket"); f[i].s = as; SAME(fiber_scheduler_add(s, x) == OK, "adding a fiber"); }
        for (int i = 0; i < 2; ++i) { message* m; status r = message_receive(b, &m, md); SAME(r == OK, "receiving"); SAME(resource_release(message_resource_handle(m)) == OK, "releasing a message"); }
        for (int i = 0; i < 3; ++i) SAME(fiber_scheduler_run(s) == OK, "yielding"); SAME(mailbox_close(b, md) == OK, "closing a mailbox"); for (auto& x : f) psock_drop(x.s); SAME(resource_release(fiber_scheduler_resource_handle(s)) == OK, "releasing a scheduler");
    }
};
// ---- the threads
struct Party { std::vector<std::pair<Work*, allocator*>> table; uint64_t salt = 0; uint32_t done = 0; bool hand; uint32_t mask; };
struct Seat { Party* p; uint32_t n; };
allocator* own_allocator() { allocator* a = nullptr; must("creating an allocator", [&] { return malloc_allocator_create(&a); }); return a; }
void drop_allocator(allocator* a) { SAME(resource_release(allocator_resource_handle(a)) == OK, "releasing an allocator"); }
Work* new_work(Party& p) { for (;;) { step(); uint32_t k = choose(12); if (k > 9) k += 2; if (!(p.mask >> k & 1)) continue; switch (k) { case 0: return new WTree; case 1: return new WSeq(0); case 2: return new WSeq(1); case 3: return new WSeq(2); case 4: return new WText; case 5: return new WMem; case 6: return new WBump; case 8: return new WLine; case 9: return new WPass; case 12: return new WLock; case 13: return new WPair; default: return new WTrig; } } }
status seat_main(void* c) {
    Seat* s = (Seat*)c; Party& p = *s->p;
    for (uint32_t k = 0; k < s->n; ++k) {
        step(); uint32_t how = choose(8);
        if (how == 6 && (p.mask & 0x400)) { WRing w; w.a = own_allocator(); w.salt = ++p.salt; w.run(); drop_allocator(w.a); mark_state(0x100000 + thread_self() * 16 + p.table.size()); continue; }
        if (how == 7 && (p.mask & 0x800)) { WSock w; w.a = own_allocator(); w.salt = ++p.salt; w.run(); drop_allocator(w.a); mark_state(0x200000 + thread_self() * 16 + p.table.size()); continue; }
        Work* w; if (p.hand && !p.table.empty() && choose(2)) { size_t i = choose((uint32_t)p.table.size()); w = p.table[i].first; p.table.erase(p.table.begin() + i); w->hands++; ev("take", thread_self(), (int64_t)w->salt); }
        else { w = new_work(p); w->a = own_allocator(); w->salt = ++p.salt; w->start(); ev("new", thread_self(), (int64_t)w->salt); }
        for (uint32_t n = choose(20); n; --n) w->op();
        if (p.hand && choose(2)) { ev("leave", thread_self(), (int64_t)w->salt); p.table.push_back({w, w->a}); } else { w->end(); drop_allocator(w->a); mark_state(w->hands * 64 + thread_self() * 8 + p.table.size()); delete w; }
    }
    p.done++; return OK;
}
SCENARIO(T03, strangers, 10) {
    items_reset(); faults_config({F_ALLOC, F_MMAP}, 500); set_step_limit(2000000); Party p; p.hand = choose(2); p.mask = choose(3) ? 0x3fff : 1u << choose(14); if (!(p.mask & 0x33ff)) p.mask |= 1u << choose(10); uint32_t n = 2 + choose(4); std::vector<Seat> seats(n); std::vector<thread*> th(n); allocator* a; { ThreadNoFaults tf; a = own_allocator(); }
    preempt_config(); for (uint32_t i = 0; i < n; ++i) { seats[i] = {&p, 1 + choose(4)}; must("creating a thread", [&] { return thread_create(&th[i], a, 65536, &seats[i], &seat_main); }); }
    for (auto t : th) SAME(resource_release(thread_resource_handle(t)) == OK, "joining a thread"); CHECK(p.done == n, "lost-progress", "%u of %u threads finished", p.done, n); drop_allocator(a);
    while (!p.table.empty()) { Work* w = p.table.back().first; p.table.pop_back(); w->op(); w->end(); drop_allocator(w->a); delete w; }
    CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are left", fd_count()); check_no_leaks("after all threads finished");
}
}
