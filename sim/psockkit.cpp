#include "psockkit.hpp"
const char* vk_name[V_KINDS] = {"int64", "uint64", "int32", "uint32", "int16", "uint16", "int8", "uint8", "bool", "string", "data"};
int vk_width(int k) { switch (k) { case V_I64: case V_U64: return 8; case V_I32: case V_U32: return 4; case V_I16: case V_U16: return 2; case V_I8: case V_U8: case V_BOOL: return 1; } return 0; }
uint32_t vk_tag(int k) { static const uint32_t t[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x20, 0x22}; return t[k]; }
std::string bytes_gen(size_t n, bool text, uint64_t salt) { std::string s(n, 0); for (size_t i = 0; i < n; i += 8) { uint64_t x = mix64(salt * 1000003 + i); for (size_t j = i; j < i + 8 && j < n; ++j, x >>= 8) { s[j] = (char)(x & 0xff); if (text && !s[j]) s[j] = 'z'; } } return s; }
size_t len_gen(size_t m) {
    static const size_t e[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 16379, 16383, 16384, 16385, 20000, 32768, 65535, 65536, 70000};
    size_t v; switch (weighted({6, 4, 2})) { case 0: v = choose(24); break; case 1: v = e[choose(17)]; break; default: v = e[choose(sizeof e / sizeof *e)]; }
    return std::min(v, m);
}
Val val_gen(size_t maxlen) {
    Val v; v.k = choose(V_KINDS); v.boxed = v.k == V_STR || choose(2) == 1;
    if (v.k == V_STR || v.k == V_DATA) { v.s = bytes_gen(len_gen(maxlen), v.k == V_STR, choose(1u << 16)); return v; }
    if (v.k == V_BOOL) { v.n = choose(2); return v; }
    int w = vk_width(v.k) * 8; uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1; uint64_t top = 1ull << (w - 1);
    switch (choose(8)) { case 0: v.n = 0; break; case 1: v.n = 1; break; case 2: v.n = mask; break; case 3: v.n = top; break; case 4: v.n = top - 1; break; case 5: v.n = 0x0102030405060708ull; break; default: v.n = mix64(choose(1u << 20)); }
    v.n &= mask; return v;
}
static std::string be(uint64_t n, int w) { std::string s; for (int i = w - 1; i >= 0; --i) s += (char)(n >> (8 * i)); return s; }
std::vector<std::string> val_parts(const Val& v) {
    std::vector<std::string> p; if (v.boxed) p.push_back(be(vk_tag(v.k), 4));
    if (v.k == V_STR || v.k == V_DATA) { if (v.boxed) p.push_back(be(v.s.size(), 4)); p.push_back(v.s); } else p.push_back(be(v.n, vk_width(v.k)));
    return p;
}
std::string val_enc(const Val& v) { std::string s; for (auto& p : val_parts(v)) s += p; return s; }
bool val_eq(const Val& a, const Val& b) { return a.k == b.k && a.boxed == b.boxed && a.n == b.n && a.s == b.s; }
std::string val_show(const Val& v) { char b[96]; if (v.k == V_STR || v.k == V_DATA) snprintf(b, sizeof b, "%s %s of %zu bytes", v.boxed ? "boxed" : "raw", vk_name[v.k], v.s.size()); else snprintf(b, sizeof b, "%s %s 0x%llx", v.boxed ? "boxed" : "raw", vk_name[v.k], (unsigned long long)v.n); return b; }
status val_write(psock* s, const Val& v) {
    if (v.boxed) switch (v.k) {
        case V_I64: return psock_write_boxed_int64(s, (int64_t)v.n); case V_U64: return psock_write_boxed_uint64(s, v.n);
        case V_I32: return psock_write_boxed_int32(s, (int32_t)v.n); case V_U32: return psock_write_boxed_uint32(s, (uint32_t)v.n);
        case V_I16: return psock_write_boxed_int16(s, (int16_t)v.n); case V_U16: return psock_write_boxed_uint16(s, (uint16_t)v.n);
        case V_I8: return psock_write_boxed_int8(s, (int8_t)v.n); case V_U8: return psock_write_boxed_uint8(s, (uint8_t)v.n);
        case V_BOOL: return psock_write_boxed_bool(s, v.n != 0); case V_STR: return psock_write_boxed_string(s, v.s.c_str());
        default: return psock_write_boxed_data(s, v.s.data(), v.s.size());
    }
    switch (v.k) {
    case V_I64: return psock_write_raw_int64(s, (int64_t)v.n); case V_U64: return psock_write_raw_uint64(s, v.n);
    case V_I32: return psock_write_raw_int32(s, (int32_t)v.n); case V_U32: return psock_write_raw_uint32(s, (uint32_t)v.n);
    case V_I16: return psock_write_raw_int16(s, (int16_t)v.n); case V_U16: return psock_write_raw_uint16(s, (uint16_t)v.n);
    case V_I8: return psock_write_raw_int8(s, (int8_t)v.n); case V_U8: return psock_write_raw_uint8(s, (uint8_t)v.n);
    case V_BOOL: return psock_write_raw_bool(s, v.n != 0); default: return psock_write_raw_data(s, v.s.data(), v.s.size());
    }
}
template <class T, class F> static status rd_int(F f, psock* s, Val& out, uint64_t mask) {
    T x = (T)0x5a5a5a5a5a5a5a5aull, y = x; status r = f(s, &x); if (r != OK) CHECK(!memcmp(&x, &y, sizeof x), "output-changed", "a read that failed with 0x%x changed its output", r); else out.n = (uint64_t)x & mask; return r;
}
status val_read(psock* s, allocator* a, const Val& w, Val& out, bool alone) {
    out = Val(); out.k = w.k; out.boxed = w.boxed;
    if (w.k == V_BOOL) { bool x = choose(2) != 0, x0 = x; status r = w.boxed ? psock_read_boxed_bool(s, &x) : psock_read_raw_bool(s, &x); if (r == OK) out.n = x; else CHECK(x == x0, "output-changed", "a read that failed with 0x%x changed its output", r); return r; }
    if (w.k == V_STR || w.k == V_DATA) {
        void* sent = (void*)0x51515151; void* p = sent; size_t n = 0x77777777, n0 = n; size_t lb = live_blocks(); status r;
        if (w.k == V_STR) r = psock_read_boxed_string(s, a, (char**)&p, &n); else if (w.boxed) r = psock_read_boxed_data(s, a, &p, &n); else { n = n0 = w.s.size(); r = psock_read_raw_data(s, a, &p, n); }
        if (r != OK) { CHECK((p == sent || p == nullptr) && n == n0, "output-changed", "a read that failed with 0x%x changed its outputs", r); CHECK(!alone || live_blocks() <= lb, "memory-leak", "a failed read left memory allocated: %s", live_summary().c_str()); return r; }
        CHECK(p && block_live(p), "bad-result", "a read returned memory that is not allocated"); CHECK(!alone || live_blocks() == lb + 1, "memory-leak", "a read allocated %zd blocks for one result", (ssize_t)(live_blocks() - lb));
        size_t have = block_size(p), need = n + (w.k == V_STR); CHECK(have >= need, "bad-result", "a read returned %zu bytes in a block of %zu", need, have);
        if (w.k == V_STR) CHECK(((char*)p)[n] == 0, "bad-result", "a string of length %zu is not terminated there", n);
        out.s.assign((char*)p, n); status q = allocator_reclaim(a, p); CHECK(q == OK, "bad-result", "reclaiming a read result failed"); return r;
    }
    if (w.boxed) switch (w.k) {
        case V_I64: return rd_int<int64_t>(psock_read_boxed_int64, s, out, ~0ull); case V_U64: return rd_int<uint64_t>(psock_read_boxed_uint64, s, out, ~0ull);
        case V_I32: return rd_int<int32_t>(psock_read_boxed_int32, s, out, 0xffffffff); case V_U32: return rd_int<uint32_t>(psock_read_boxed_uint32, s, out, 0xffffffff);
        case V_I16: return rd_int<int16_t>(psock_read_boxed_int16, s, out, 0xffff); case V_U16: return rd_int<uint16_t>(psock_read_boxed_uint16, s, out, 0xffff);
        case V_I8: return rd_int<int8_t>(psock_read_boxed_int8, s, out, 0xff); default: return rd_int<uint8_t>(psock_read_boxed_uint8, s, out, 0xff);
    }
    switch (w.k) {
    case V_I64: return rd_int<int64_t>(psock_read_raw_int64, s, out, ~0ull); case V_U64: return rd_int<uint64_t>(psock_read_raw_uint64, s, out, ~0ull);
    case V_I32: return rd_int<int32_t>(psock_read_raw_int32, s, out, 0xffffffff); case V_U32: return rd_int<uint32_t>(psock_read_raw_uint32, s, out, 0xffffffff);
    case V_I16: return rd_int<int16_t>(psock_read_raw_int16, s, out, 0xffff); case V_U16: return rd_int<uint16_t>(psock_read_raw_uint16, s, out, 0xffff);
    case V_I8: return rd_int<int8_t>(psock_read_raw_int8, s, out, 0xff); default: return rd_int<uint8_t>(psock_read_raw_uint8, s, out, 0xff);
    }
}
static bool take(const std::string& st, size_t& p, size_t n, std::string& o) { if (st.size() - p < n) return false; o = st.substr(p, n); p += n; return true; }
static uint64_t unbe(const std::string& s) { uint64_t n = 0; for (char c : s) n = n << 8 | (uint8_t)c; return n; }
int val_dec(const std::string& st, size_t& pos, const Val& w, Val& out) {
    std::string t; out = Val(); out.k = w.k; out.boxed = w.boxed;
    if (w.boxed) { if (!take(st, pos, 4, t)) return 3; if (unbe(t) != vk_tag(w.k)) return 1; }
    if (w.k == V_STR || w.k == V_DATA) {
        size_t n = w.s.size(); if (w.boxed) { if (!take(st, pos, 4, t)) return 3; n = unbe(t); }
        if (st.size() - pos < n) return n > (1u << 24) ? 2 : 3;
        take(st, pos, n, out.s); return 0;
    }
    if (!take(st, pos, vk_width(w.k), t)) return 3;
    out.n = unbe(t); if (w.k == V_BOOL) out.n = out.n != 0; return 0;
}
// ---- user-defined sockets
static status u_read(psock*, void* ctx, void* data, size_t* size, bool block) {
    UCtx* u = (UCtx*)ctx; u->reads++; step(); size_t n = std::min(*size, u->in.size() - u->pos);
    if (u->err_at >= 0 && u->pos + (n ? n : 0) >= (size_t)u->err_at) {
        size_t before = (size_t)u->err_at > u->pos ? u->err_at - u->pos : 0;
        if (!before || block) { u->err_at = -1; u->errs++; fault_note(F_USER_IO_ERR); ev("user-read-error", u->pos); return E_USERIO; }
        n = std::min(n, before);
    }
    if (u->eof_is_error && !n && *size) return ERROR_PSOCK_READ_EOF;
    if (u->chunk && n && (!block || u->partial)) n = std::max<size_t>(1, std::min(n, u->chunk(n)));
    memcpy(data, u->in.data() + u->pos, n); u->pos += n; *size = n; ev("user-read", n); return OK;
}
static status u_write(psock*, void* ctx, const void* data, size_t* size) {
    UCtx* u = (UCtx*)ctx; u->writes++; step(); if (u->werr) { u->werr = false; u->werrs++; fault_note(F_USER_IO_ERR); return E_USERIO; }
    size_t n = *size; if (u->partial && u->chunk && n) n = std::max<size_t>(1, std::min(n, u->chunk(n))); u->out.append((const char*)data, n); *size = n; ev("user-write", n); return OK;
}
static status u_release(psock*, void* ctx) { UCtx* u = (UCtx*)ctx; CHECK(u->released == 0, "double-release", "a user socket's release method was called twice"); u->released++; return OK; }
RCPR_VTABLE psock_vtable user_psock_vtable = { {nullptr}, &u_read, &u_write, nullptr, nullptr, nullptr, nullptr, &u_release };
status user_psock(psock** s, allocator* a, UCtx* u) { return psock_create_from_user_methods(s, a, u, &user_psock_vtable); }
void psock_drop(psock* s) { NoFaults nf; status r = resource_release(psock_resource_handle(s)); CHECK(r == OK, "wrong-status", "releasing a socket returned 0x%x", r); }
