// Typed values over sockets: generation, reference encoding and decoding.
#pragma once
#include "common.hpp"
#include "kernel.hpp"
#include <rcpr/psock.h>
#include <rcpr/fiber.h>
RCPR_IMPORT_psock;
enum VKind { V_I64, V_U64, V_I32, V_U32, V_I16, V_U16, V_I8, V_U8, V_BOOL, V_STR, V_DATA, V_KINDS };
struct Val { int k = V_U8; bool boxed = false; uint64_t n = 0; std::string s; };
extern const char* vk_name[V_KINDS];
int vk_width(int k);                      // bytes of an integer kind
uint32_t vk_tag(int k);
std::string bytes_gen(size_t n, bool text, uint64_t salt);
size_t len_gen(size_t maxlen);
Val val_gen(size_t maxlen);
std::string val_enc(const Val& v);        // documented wire format
std::vector<std::string> val_parts(const Val& v);   // the pieces it is written in
bool val_eq(const Val& a, const Val& b);
std::string val_show(const Val& v);
status val_write(psock* s, const Val& v);
// reads one value of the kind of `want`; out is filled on success.  Checks the
// outputs are untouched on failure and that returned memory is the caller's.
status val_read(psock* s, allocator* a, const Val& want, Val& out, bool alone = true);
// reference decoder: 0 decoded, 1 wrong type, 2 bad/oversize length, 3 too short
int val_dec(const std::string& st, size_t& pos, const Val& want, Val& out);
// user-defined socket over strings
struct UCtx {
    std::string in; size_t pos = 0; std::string out; bool partial = false; std::function<size_t(size_t)> chunk; int64_t err_at = -1; int errs = 0; int released = 0; bool eof_is_error = false; uint64_t reads = 0, writes = 0; bool werr = false; int werrs = 0;
};
status user_psock(psock** s, allocator* a, UCtx* u);
void psock_drop(psock* s);
// ---- scenario helpers
inline bool oom_ok(status s, uint64_t ff) { return is_oom(s) && faults_fired() > ff; }
// creation under allocation faults, retried without them: never leaks
template <class F> void make(F f, const char* what) {
    uint64_t ff = faults_fired(); size_t lb = live_blocks(); size_t fds = fd_count(); status s = f(); if (s == OK) return;
    CHECK(oom_ok(s, ff), "wrong-status", "creating %s returned 0x%x", what, s); CHECK(live_blocks() == lb, "memory-leak", "a failed creation of %s left memory: %s", what, live_summary().c_str()); CHECK(fd_count() == fds, "descriptor-leak", "a failed creation of %s changed the descriptor table", what);
    NoFaults nf; s = f(); CHECK(s == OK, "wrong-status", "creating %s again returned 0x%x", what, s);
}
inline size_t cap_gen() { static const size_t c[] = {4096, 1, 2, 3, 5, 8, 17, 64, 1000, 16384, 65536}; return c[choose(11)]; }
inline size_t chunk_gen(size_t n) { static const size_t c[] = {1, 2, 3, 4, 5, 7, 8, 16, 100, 1000, 4096, 16383, 16384}; size_t v = choose(3) == 2 ? n : c[choose(13)]; return std::min(std::max(v, n / 64), n); }
// a peer that reads whatever arrives, in pieces
struct Sink { FileP f; std::string got; };
inline void sink_actor(Sink* s) { actor_add("sink", [s] { return peer_avail(s->f) > 0; }, [s] { s->got += peer_read(s->f, chunk_gen(peer_avail(s->f))); }); }
// a peer that writes a prepared stream in pieces and then closes
struct Source { FileP f; std::string data; size_t pos = 0; bool close_at_end = true, closed = false; };
inline void source_actor(Source* s) {
    actor_add("source", [s] { return !s->closed && (s->pos < s->data.size() ? peer_space(s->f) > 0 : s->close_at_end); }, [s] {
        if (s->pos < s->data.size()) s->pos += peer_write(s->f, s->data.data() + s->pos, chunk_gen(std::min(peer_space(s->f), s->data.size() - s->pos)));
        else { s->closed = true; peer_shutdown_write(s->f); } });
}
inline std::vector<Val> vals_gen(size_t maxn, size_t maxlen) { std::vector<Val> v; uint32_t n = 1 + choose((uint32_t)maxn); for (uint32_t i = 0; i < n; ++i) v.push_back(val_gen(maxlen)); return v; }
inline std::string enc_all(const std::vector<Val>& v) { std::string s; for (auto& x : v) s += val_enc(x); return s; }
inline void same_bytes(const std::string& got, const std::string& want, const char* cls, const char* what) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    CHECK(got == want, cls, "%s: %zu bytes instead of %zu, first difference at offset %zu", what, got.size(), want.size(), i);
}
inline void mark_stream(const std::vector<Val>& v, int how) { uint64_t h = 1000 + how; for (auto& x : v) h = mix64(h ^ (x.k * 2 + x.boxed) ^ ((x.s.size() ? 64 - __builtin_clzll(x.s.size()) : 0) << 8)); mark_state(h); }
struct Br { psock_br* br = nullptr; psock* s = nullptr; };
inline Br br_make(allocator* a, psock* under) { Br b; make([&] { return psock_br_create_from_psock(&b.br, a, under); }, "a buffered reader"); b.s = psock_br_psock_adapter(b.br); CHECK(b.s, "wrong-value", "no adapter"); return b; }
inline void br_drop(Br b) { NoFaults nf; status r = resource_release(psock_br_resource_handle(b.br)); CHECK(r == OK, "wrong-status", "releasing a buffered reader returned 0x%x", r); }
inline psock* fd_psock(allocator* a, FileP&& f) { int fd = fd_install(f); f.reset(); psock* s = nullptr; make([&] { return psock_create_from_descriptor(&s, a, fd); }, "a socket over a descriptor"); return s; }
inline psock* buf_psock(allocator* a, const std::string* in) {
    psock* s = nullptr; char* c = nullptr; if (in) { c = (char*)user_alloc(in->size()); memcpy(c, in->data(), in->size()); }
    make([&] { return psock_create_from_buffer(&s, a, c, in ? in->size() : choose(2) * 77); }, "an in-memory socket");
    if (in) { CHECK(!memcmp(c, in->data(), in->size()), "memory-changed", "creating an in-memory socket changed the caller's buffer"); memset(c, 0xEE, in->size()); user_free(c); }
    return s;
}
inline std::string get_output(psock* s, allocator* a) {
    NoFaults nf; void* b = nullptr; size_t n = 0; size_t lb = live_blocks(); status r = psock_from_buffer_get_output_buffer(s, a, &b, &n); CHECK(r == OK, "wrong-status", "retrieving output returned 0x%x", r);
    CHECK(b && block_live(b) && block_size(b) >= n, "bad-result", "the output buffer is not %zu allocated bytes", n); CHECK(live_blocks() == lb + 1, "memory-leak", "retrieving output allocated %zd blocks", (ssize_t)(live_blocks() - lb)); std::string o((char*)b, n); CHECK(allocator_reclaim(a, b) == OK, "bad-result", "reclaiming output failed"); return o;
}
