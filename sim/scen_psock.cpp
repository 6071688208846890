// Sockets outside the event loop: typed values, hostile input, buffered
// readers and in-memory sockets over fragmented, failing byte streams.
#include "psockkit.hpp"
#include <fcntl.h>

namespace {
// one raw-data write on a socket that may be partial, typed ones otherwise
void write_all(psock* s, const std::vector<Val>& v, UCtx* u = nullptr) {
    for (auto& x : v) { if (u) u->partial = !x.boxed && x.k == V_DATA; status r = val_write(s, x); ev("write-value", x.k, x.boxed, r); CHECK(r == OK, "wrong-status", "writing %s returned 0x%x", val_show(x).c_str(), r); }
}
void read_all(psock* s, allocator* a, const std::vector<Val>& v, UCtx* u = nullptr) {
    for (size_t i = 0; i < v.size(); ++i) {
        if (u) u->partial = !v[i].boxed && v[i].k == V_DATA; Val o; uint64_t ff = faults_fired(); status r = val_read(s, a, v[i], o); ev("read-value", v[i].k, v[i].boxed, r);
        (void)ff; CHECK(r == OK, "wrong-status", "reading value %zu (%s) returned 0x%x", i, val_show(v[i]).c_str(), r);
        CHECK(val_eq(o, v[i]), "wrong-value", "value %zu was written as %s and read as %s", i, val_show(v[i]).c_str(), val_show(o).c_str());
    }
}

// ---------------------------------------------------------------- P01
void roundtrip(uint32_t many = 0) {
    items_reset(); Alloc A; faults_config({F_READ_SHORT, F_WRITE_SHORT}); set_step_limit(4000000); env_rate(choose(4) * 200);
    int how = choose(9); auto v = many ? vals_gen(many, 40) : vals_gen(how == 8 ? 12 : 25, 70000); std::string want = enc_all(v); ev("how", how, v.size(), want.size()); mark_stream(v, how);
    switch (how) {
    case 0: case 1: { // library writes, peer reads; possibly through the adapter of a buffered reader
        auto p = k_pair(choose(2), cap_gen(), 4096); psock* s = fd_psock(A.a, std::move(p.first)); Sink k{p.second}; sink_actor(&k); Br b; if (how == 1) b = br_make(A.a, s);
        write_all(how == 1 ? b.s : s, v); if (how == 1) br_drop(b); psock_drop(s); while (env_step()); same_bytes(k.got, want, "wire-encoding", "what the peer received"); CHECK(peer_eof(p.second), "descriptor-leak", "the connection is still open after releasing its socket"); break; }
    case 2: case 3: { // peer writes, library reads; possibly buffered
        auto p = k_pair(choose(2), 4096, cap_gen()); psock* s = fd_psock(A.a, std::move(p.first)); Source q{p.second, want}; source_actor(&q); Br b; if (how == 3) b = br_make(A.a, s);
        read_all(how == 3 ? b.s : s, A.a, v); if (how == 3) br_drop(b); psock_drop(s); break; }
    case 4: { // library to library, alternating batches in both directions
        auto p = k_pair(choose(2), 1 << 22, 1 << 22); psock* s[2] = {fd_psock(A.a, std::move(p.first)), fd_psock(A.a, std::move(p.second))}; Br b[2]; bool br = choose(2); if (br) for (int i = 0; i < 2; ++i) b[i] = br_make(A.a, s[i]);
        std::deque<Val> fl[2]; size_t i = 0; while (i < v.size() || !fl[0].empty() || !fl[1].empty()) {
            int d = choose(2); psock *w = br && choose(2) ? b[d].s : s[d], *r = br ? b[1 - d].s : s[1 - d];
            if (i < v.size() && choose(2)) { write_all(w, {v[i]}); fl[d].push_back(v[i++]); } else if (!fl[d].empty()) { read_all(r, A.a, {fl[d].front()}); fl[d].pop_front(); } else if (i < v.size()) { write_all(w, {v[i]}); fl[d].push_back(v[i++]); }
        }
        if (br) { br_drop(b[0]); br_drop(b[1]); } psock_drop(s[0]); psock_drop(s[1]); break; }
    case 5: { // memory to memory
        psock* o = buf_psock(A.a, nullptr); write_all(o, v); std::string got = get_output(o, A.a); same_bytes(got, want, "wire-encoding", "what was collected in memory"); psock_drop(o);
        psock* in = buf_psock(A.a, &got); Br b; bool br = choose(2); if (br) b = br_make(A.a, in); read_all(br ? b.s : in, A.a, v); if (br) br_drop(b); psock_drop(in); break; }
    case 6: { // user-defined methods
        UCtx u; u.chunk = chunk_gen; psock* s = nullptr; make([&] { return user_psock(&s, A.a, &u); }, "a user-defined socket"); Br b; bool br = choose(2); if (br) b = br_make(A.a, s);
        write_all(br && choose(2) ? b.s : s, v, &u); same_bytes(u.out, want, "wire-encoding", "what the user-defined socket was given"); u.in = u.out; read_all(br ? b.s : s, A.a, v, br ? nullptr : &u); CHECK(u.pos == u.in.size(), "wrong-value", "%zu of %zu bytes were consumed", u.pos, u.in.size());
        if (br) br_drop(b); psock_drop(s); CHECK(u.released == 1, "not-released", "the user-defined socket's release method was called %d times", u.released); break; }
    case 7: { // raw reads of arbitrary sizes
        auto p = k_pair(choose(2), 4096, cap_gen()); psock* s = fd_psock(A.a, std::move(p.first)); Source q{p.second, want}; source_actor(&q); Br b; bool br = choose(2); if (br) b = br_make(A.a, s); std::string got;
        for (;;) { size_t n = 1 + len_gen(70000), n0 = n; char* buf = (char*)user_alloc(n); status r = psock_read_raw(br ? b.s : s, buf, &n); ev("read-raw", n0, n, r); if (r != OK || n == 0) { CHECK(got.size() == want.size(), "wrong-status", "reading after %zu of %zu bytes returned 0x%x, size %zu", got.size(), want.size(), r, n); CHECK(r == OK || br, "wrong-status", "reading at the end returned 0x%x", r); user_free(buf); break; } CHECK(n <= n0, "wrong-size", "reading %zu bytes gave %zu", n0, n); got.append(buf, n); user_free(buf); CHECK(got.size() <= want.size(), "wrong-value", "more bytes were read than sent"); }
        same_bytes(got, want, "wrong-value", "what was read"); if (br) br_drop(b); psock_drop(s); break; }
    case 8: { // duplex: requests and replies through one connection, both ends blocking
        auto p = k_pair(choose(2), cap_gen(), cap_gen()); psock* s = fd_psock(A.a, std::move(p.first)); std::string back; auto v2 = many ? vals_gen(many, 40) : vals_gen(12, 5000); std::string want2 = enc_all(v2); Sink k{p.second}; Source q{p.second, want2}; sink_actor(&k); source_actor(&q);
        size_t i = 0, j = 0; while (i < v.size() || j < v2.size()) { if (j >= v2.size() || (i < v.size() && choose(2))) write_all(s, {v[i++]}); else read_all(s, A.a, {v2[j++]}); }
        psock_drop(s); while (env_step()); same_bytes(k.got, want, "wire-encoding", "what the peer received"); break; }
    }
    CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are still open", fd_count()); A.release(); check_no_leaks("after the transfers");
}
SCENARIO(P01, roundtrip_s) { roundtrip(); }
SCENARIO(P01, many_values, 3) { roundtrip(100 + choose(1500)); }
// Writes that transfer only a part and report success, or fail, underneath the
// typed calls: a value that was reported written arrived whole, and bytes
// never arrive twice or out of order.
SCENARIO(P01, short_writes, 25) {
    items_reset(); Alloc A; faults_config({F_WRITE_SHORT, F_WRITE_EAGAIN}); set_step_limit(2000000); env_rate(choose(4) * 200);
    bool user = choose(2), keep = choose(2); auto v = vals_gen(12, 3000); UCtx u; Sink k; psock* s = nullptr; size_t cap = 0;
    if (user) { u.partial = true; u.chunk = chunk_gen; make([&] { return user_psock(&s, A.a, &u); }, "a user-defined socket"); }
    else { cap = cap_gen(); auto p = k_pair(choose(2), cap, 4096); p.first->flags |= O_NONBLOCK; k.f = p.second; sink_actor(&k); s = fd_psock(A.a, std::move(p.first)); }
    Br b; if (choose(2)) b = br_make(A.a, s); psock* q = b.s ? b.s : s; std::string lo; size_t refused = 0;
    for (auto& x : v) {
        std::string e = val_enc(x); if (user && choose(6) == 0) u.werr = true;
        while (!user && choose(3) && env_step()); if (!user) while (env_step() && choose(4));
        int we = u.werrs; status r = val_write(q, x); ev("write-value", x.k, x.boxed, r); bool failed = u.werrs > we;
        std::string got; if (user) got = u.out; else { while (env_step()); got = k.got; }
        CHECK(got.size() >= lo.size() && !got.compare(0, lo.size(), lo), "wrong-value", "bytes already written changed"); std::string part = got.substr(lo.size());
        CHECK(e.size() >= part.size() && !e.compare(0, part.size(), part), "wire-encoding", "%zu bytes that are no beginning of %s arrived", part.size(), val_show(x).c_str());
        if (r == OK) { CHECK(part.size() == e.size(), "false-success", "writing %s succeeded, but only %zu of %zu bytes arrived", val_show(x).c_str(), part.size(), e.size()); CHECK(!failed, "false-success", "a failed write was reported as success"); }
        else { CHECK(part.size() < e.size() || e.empty(), "wrong-status", "writing %s wrote everything and returned 0x%x", val_show(x).c_str(), r); refused++; }
        lo = got; u.werr = false; if (r != OK && !keep) break;
    }
    mark_stream(v, 40 + user * 2 + (refused > 0)); if (b.br) br_drop(b); psock_drop(s); if (user) CHECK(u.released == 1, "not-released", "the user-defined socket's release method was called %d times", u.released); while (env_step()); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are still open", fd_count()); A.release(); check_no_leaks("after short writes");
}

// ---------------------------------------------------------------- P02
void hostile() {
    items_reset(); Alloc A; faults_config({F_ALLOC, F_READ_SHORT, F_READ_EINTR, F_READ_ERR, F_TRUNCATE, F_CORRUPT}); set_step_limit(3000000); env_rate(choose(4) * 200);
    auto v = vals_gen(6, 20000); std::vector<Val> ask = v; std::string st; std::vector<size_t> heads;
    for (auto& x : v) { heads.push_back(st.size()); st += val_enc(x); }
    // mutate what is sent and what is asked for
    for (uint32_t m = choose(4); m > 0; --m) switch (choose(6)) {
    case 0: { size_t n = choose(2) ? choose((uint32_t)st.size() + 1) : std::min<size_t>(st.size(), heads[choose(heads.size())] + choose(12)); if (n < st.size()) { st.resize(n); fault_note(F_TRUNCATE); ev("truncate", n); } break; }
    case 1: if (!st.empty()) { size_t i = choose(2) ? choose((uint32_t)st.size()) : std::min(st.size() - 1, heads[choose(heads.size())] + choose(12)); st[i] ^= 1 << choose(8); fault_note(F_CORRUPT); ev("corrupt", i); } break;
    case 2: { size_t i = choose(heads.size()); if ((v[i].k == V_STR || v[i].k == V_DATA) && v[i].boxed && heads[i] + 8 <= st.size()) { static const uint32_t ls[] = {0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x10000000, 0, 1, 70000, 0x06000001, 0x01000000}; uint32_t l = choose(3) == 2 ? (uint32_t)v[i].s.size() + choose(5) - 2 : ls[choose(10)]; for (int b = 0; b < 4; ++b) st[heads[i] + 4 + b] = (char)(l >> (24 - 8 * b)); fault_note(F_CORRUPT); ev("length", i, l); } break; }
    case 3: { size_t i = choose(ask.size()); ask[i].k = choose(V_KINDS); if (ask[i].k == V_STR) ask[i].boxed = true; if (ask[i].k == V_DATA && !ask[i].boxed) ask[i].s = bytes_gen(len_gen(100), false, 1); ev("ask-other", i, ask[i].k); break; }
    case 4: { size_t i = choose(ask.size()); ask[i].k = ask[i].k ^ 1; if (ask[i].k >= V_KINDS) ask[i].k = V_BOOL; ask[i].boxed = true; ev("ask-sibling", i); break; }
    case 5: { size_t n = 1 + choose(40); st.insert(choose((uint32_t)st.size() + 1), bytes_gen(n, false, choose(1 << 16))); fault_note(F_CORRUPT); ev("insert", n); break; }
    }
    for (uint32_t x = choose(3); x > 0; --x) ask.push_back(val_gen(100));
    int how = choose(5); psock *s = nullptr, *rd; Br b; Source q; UCtx u; bool br = choose(2);
    if (how <= 1) { auto p = k_pair(choose(2), 4096, cap_gen()); s = fd_psock(A.a, std::move(p.first)); q.f = p.second; q.data = st; source_actor(&q); }
    else if (how == 2) s = buf_psock(A.a, &st);
    else { u.in = st; u.chunk = chunk_gen; u.eof_is_error = choose(2); make([&] { return user_psock(&s, A.a, &u); }, "a user-defined socket"); if (choose(3) == 2) u.err_at = choose((uint32_t)st.size() + 1); }
    if (br) b = br_make(A.a, s); rd = br ? b.s : s;
    size_t pos = 0; uint64_t h = 5 + how; int done = 0;
    for (auto& w : ask) {
        Val want, got; size_t p0 = pos; (void)p0; int e = val_dec(st, pos, w, want); u.partial = !br && !w.boxed && w.k == V_DATA; uint64_t ff = faults_fired(); int ue = u.errs; uint64_t ia = fault_fired(F_ALLOC); size_t lb = live_blocks();
        status r = val_read(rd, A.a, w, got); ev("read", w.k, w.boxed, r, e); h = mix64(h ^ (w.k * 8 + e * 2 + (r == OK))); mark_state(h);
        bool injected = faults_fired() > ff || u.errs > ue;
        if (r == OK) {
            CHECK(e == 0, e == 1 ? "wrong-type-accepted" : "short-accepted", "reading %s returned success though the stream holds %s", val_show(w).c_str(), e == 1 ? "another type" : "too few bytes");
            CHECK(val_eq(got, want), "wrong-value", "reading %s returned %s instead of %s", val_show(w).c_str(), val_show(got).c_str(), val_show(want).c_str()); ++done; continue;
        }
        CHECK(live_blocks() == lb, "memory-leak", "a failed read left memory: %s", live_summary().c_str());
        if (e == 0) CHECK(injected, "wrong-status", "reading %s, which the stream holds, returned 0x%x", val_show(w).c_str(), r);
        if (e == 1 && !injected) CHECK(r == ERROR_PSOCK_READ_BOXED_INVALID_TYPE, "wrong-status", "reading %s where another type is stored returned 0x%x", val_show(w).c_str(), r);
        if (is_oom(r)) CHECK(e == 2 || fault_fired(F_ALLOC) > ia, "wrong-status", "reading %s returned out of memory without a reason", val_show(w).c_str());
        break;
    }
    if (br) br_drop(b); psock_drop(s); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are still open", fd_count()); A.release(); check_no_leaks("after reading hostile input");
}
SCENARIO(P02, hostile_s) { hostile(); }

// ---------------------------------------------------------------- P05
void buffered() {
    items_reset(); Alloc A; faults_config({F_READ_SHORT, F_USER_IO_ERR, F_READ_EINTR, F_READ_ERR, F_ALLOC}); set_step_limit(4000000); env_rate(choose(4) * 200);
    static const size_t tot[] = {0, 1, 20, 200, 2000, 16383, 16384, 16385, 20000, 40000, 60000}; size_t n = choose(2) ? choose(400) : tot[choose(11)];
    std::string c = bytes_gen(n, false, choose(1 << 20)); uint32_t dens = choose(5); static const uint32_t per[] = {10000000, 3, 20, 200, 9000}; for (size_t i = 0; i < c.size(); ++i) { if (c[i] == '\n') c[i] = 'x'; if (mix64(i * 77 + n) % per[dens] == 0) c[i] = '\n'; if (dens == 2 && mix64(i * 7 + n) % 17 == 0) c[i] = '\r'; }
    if (choose(3) == 2 && n) c[n - 1] = '\n';
    int how = choose(5); psock* s = nullptr; Source q; UCtx u; ev("content", n, dens, how);
    if (how <= 1) { auto p = k_pair(choose(2), 4096, cap_gen()); s = fd_psock(A.a, std::move(p.first)); q.f = p.second; q.data = c; source_actor(&q); }
    else if (how == 2) s = buf_psock(A.a, &c);
    else { u.in = c; u.chunk = chunk_gen; u.eof_is_error = choose(2); make([&] { return user_psock(&s, A.a, &u); }, "a user-defined socket"); if (faults_on() && choose(2)) u.err_at = choose((uint32_t)n + 1); }
    auto delivered = [&]() -> size_t { return how <= 1 ? q.f->tx->rd : how == 2 ? n : u.pos; };
    Br b = br_make(A.a, s); size_t pos = 0; int fails = 0; uint64_t h = how * 10 + dens; uint32_t mode = choose(4);
    for (int k = 0; k < 4000 && fails < 3; ++k) {
        size_t left = n - pos; uint64_t ff = faults_fired(), ia = fault_fired(F_ALLOC); int ue = u.errs; auto injected = [&] { return faults_fired() - (fault_fired(F_READ_SHORT)) > ff || u.errs > ue; }; ff -= fault_fired(F_READ_SHORT);
        int op = mode == 0 ? 0 : mode == 1 ? (int)weighted({4, 1}) : (int)weighted({3, 2, 2, 1}); (void)ia;
        if (op == 0) {
            static const size_t caps[] = {80, 0, 1, 2, 3, 5, 16, 200, 4096, 16384, 16386, 20000}; size_t cap = choose(3) == 2 ? 2 + choose(60) : caps[choose(12)], sz = cap; char* buf = (char*)user_alloc(cap ? cap : 1); memset(buf, 0x5a, cap ? cap : 1);
            size_t nl = c.find('\n', pos); bool has = nl != std::string::npos; size_t L = has ? nl - pos : left;
            status r = psock_br_read_line(buf, &sz, b.br); ev("line", cap, sz, r); h = mix64(h ^ (r != OK) ^ (L < cap ? 2 : 0) ^ (has ? 4 : 0));
            if (cap <= 1) { CHECK(r == ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL && sz == cap, "wrong-status", "reading a line into %zu bytes returned 0x%x", cap, r); }
            else if (r == OK) {
                CHECK(sz >= 1 && sz <= cap, "wrong-size", "a line of size %zu was returned in a buffer of %zu", sz, cap); size_t m = sz - 1; CHECK(buf[m] == 0, "bad-result", "a line is not terminated"); CHECK(m <= left && !memcmp(buf, c.data() + pos, m), "wrong-value", "the line read at offset %zu differs from the stream", pos);
                CHECK(m == L && (has || L > 0), "wrong-line", "the line at offset %zu is %zu bytes long and was returned as a whole line of %zu", pos, L, m); pos += L + has;
            } else if (r == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) {
                CHECK(sz <= L && (sz == cap - 1 || (injected() && sz >= 1 && sz < cap - 1)), "wrong-size", "a line of %zu bytes was reported as truncated to %zu in a buffer of %zu", L, sz, cap); CHECK(buf[sz] == 0, "bad-result", "a truncated line is not terminated"); CHECK(!memcmp(buf, c.data() + pos, sz), "wrong-value", "the partial line read at offset %zu differs from the stream", pos); pos += sz; }
            else { CHECK(sz == cap, "output-changed", "a failed line read changed the size"); CHECK(left == 0 || injected(), "wrong-status", "reading a line with %zu bytes left returned 0x%x", left, r); if (u.errs > ue) CHECK(r == E_USERIO, "wrong-status", "the wrapped socket's read failed and the line read returned 0x%x", r); ++fails; if (left && mode != 0) fails = 1; }
            user_free(buf);
        } else if (op == 1) {
            size_t want = choose(4) ? 1 + choose(60) : 1 + len_gen(40000), sz = want; char* buf = (char*)user_alloc(want); status r = psock_read_raw(b.s, buf, &sz); ev("raw", want, sz, r);
            if (r == OK) { CHECK(sz <= want && sz >= 1, "wrong-size", "a read of %zu bytes returned %zu", want, sz); CHECK(sz <= left && !memcmp(buf, c.data() + pos, sz), "wrong-value", "the bytes read at offset %zu differ from the stream", pos); pos += sz; }
            else { CHECK(left == 0 || injected(), "wrong-status", "reading with %zu bytes left returned 0x%x", left, r); ++fails; }
            user_free(buf);
        } else {
            Val w, o; if (op == 2) { w.k = choose(9); w.boxed = false; } else { w.k = V_DATA; w.boxed = false; w.s.resize(choose(5) == 4 ? len_gen(40000) : choose(300)); }
            size_t need = op == 2 ? vk_width(w.k) : w.s.size(); Val ref; size_t p2 = pos; int e = val_dec(c, p2, w, ref); status r = val_read(b.s, A.a, w, o); ev("value", w.k, need, r);
            if (r == OK) { CHECK(e == 0, "short-accepted", "a value of %zu bytes was read with %zu left", need, left); CHECK(val_eq(o, ref), "wrong-value", "the value read at offset %zu is %s instead of %s", pos, val_show(o).c_str(), val_show(ref).c_str()); pos = p2; }
            else { CHECK(e != 0 || injected(), "wrong-status", "reading %zu bytes with %zu left returned 0x%x", need, left, r); ++fails; if (need > 1024) break; }
        }
        mark_state(mix64(h + op)); if (pos == n && choose(2)) ++fails;
    }
    br_drop(b); CHECK(u.released == 0, "ownership", "releasing a buffered reader released the socket it reads from"); if (choose(2) && how <= 1) CHECK(fd_count() == 1, "ownership", "releasing a buffered reader closed the descriptor"); psock_drop(s); CHECK(fd_count() == 0, "descriptor-leak", "%zu descriptors are still open", fd_count()); A.release(); check_no_leaks("after buffered reading");
}
SCENARIO(P05, buffered_s, 100) { buffered(); }

// ---------------------------------------------------------------- P06
void refused_ops(psock* s, bool input) {
    switch (choose(4)) {
    case 0: { int fd = -7; status r = psock_read_raw_descriptor(s, &fd); CHECK(r != OK && fd == -7, "wrong-direction", "receiving a descriptor from memory returned 0x%x", r); break; }
    case 1: { status r = psock_write_raw_descriptor(s, 1); CHECK(r != OK, "wrong-direction", "sending a descriptor to memory succeeded"); break; }
    case 2: { int fd = -7; struct sockaddr_storage ss; socklen_t l = sizeof ss; status r = psock_accept(s, &fd, (struct sockaddr*)&ss, &l); CHECK(r != OK, "wrong-direction", "accepting from memory succeeded"); break; }
    case 3: { int one = 1; status r = psock_setsockopt(s, 1, 2, &one, sizeof one); CHECK(r != OK, "wrong-direction", "setting a socket option on memory succeeded"); break; }
    } (void)input;
}
void mem_output() {
    items_reset(); Alloc A; faults_config({F_ALLOC}); set_step_limit(3000000); psock* s = buf_psock(A.a, nullptr); std::string m; uint32_t nops = 1 + choose(40); uint64_t h = 9;
    for (uint32_t k = 0; k < nops; ++k) {
        uint64_t ff = faults_fired(); int op = weighted({8, 3, 1, 1, 2});
        if (op == 0 || op == 4) {
            Val v = op == 0 ? val_gen(9000) : Val(); if (op == 4) { v.k = V_DATA; size_t off = m.size() % 4096; static const int d[] = {0, 1, -1, 2, -2, 4096}; int64_t l = (int64_t)4096 - (int64_t)off + d[choose(6)]; v.s = bytes_gen(l < 0 ? 0 : l, false, k); }
            char* copy = nullptr; status r;
            if (v.k == V_DATA && !v.boxed) { copy = (char*)user_alloc(v.s.size()); memcpy(copy, v.s.data(), v.s.size()); r = psock_write_raw_data(s, copy, v.s.size()); CHECK(!memcmp(copy, v.s.data(), v.s.size()), "memory-changed", "a write changed the caller's memory"); user_free(copy); } else r = val_write(s, v);
            ev("write", v.k, v.boxed, r); h = mix64(h ^ v.k ^ (r != OK ? 64 : 0) ^ (m.size() / 512 << 8)); mark_state(h);
            if (r == OK) m += val_enc(v);
            else { CHECK(oom_ok(r, ff), "wrong-status", "writing %s returned 0x%x", val_show(v).c_str(), r); std::string o = get_output(s, A.a); std::string p = m; bool hit = o == p; auto parts = val_parts(v); for (size_t i = 0; i + 1 < parts.size() && !hit; ++i) { p += parts[i]; if (o == p) hit = true; } CHECK(hit, "torn-output", "after a failed write the socket holds %zu bytes, %zu were collected before", o.size(), m.size()); m = o; }
        } else if (op == 1) {
            void* sent = (void*)0x5151; void* b = sent; size_t n = 12345; size_t lb = live_blocks(); allocator* al = A.a; status r = psock_from_buffer_get_output_buffer(s, al, &b, &n); ev("output", r, n);
            if (r == OK) { CHECK(block_live(b) && block_size(b) >= n, "bad-result", "the output buffer is not %zu allocated bytes", n); same_bytes(std::string((char*)b, n), m, "wrong-output", "the collected output"); memset(b, 0xdd, n); CHECK(allocator_reclaim(al, b) == OK, "bad-result", "reclaim failed"); }
            else { CHECK(oom_ok(r, ff), "wrong-status", "retrieving output returned 0x%x", r); CHECK((b == sent || !b) && n == 12345, "output-changed", "a failed retrieval changed its outputs"); CHECK(live_blocks() == lb, "memory-leak", "a failed retrieval left memory"); }
        } else if (op == 2) { Val w = val_gen(50), o; status r = val_read(s, A.a, w, o); if (w.k == V_DATA && !w.boxed && w.s.empty()) ; else CHECK(r != OK, "wrong-direction", "reading %s from an output-only socket succeeded", val_show(w).c_str()); char bb[8]; size_t z = 8; r = psock_read_raw(s, bb, &z); CHECK(r != OK || z == 0, "wrong-direction", "reading bytes from an output-only socket gave %zu", z); }
        else refused_ops(s, false);
    }
    same_bytes(get_output(s, A.a), m, "wrong-output", "the collected output"); psock_drop(s); A.release(); check_no_leaks("after releasing an output socket");
}
SCENARIO(P06, mem_output_s) { mem_output(); }
void mem_input() {
    items_reset(); Alloc A; faults_config({F_ALLOC}); set_step_limit(3000000); auto v = vals_gen(10, 9000); std::string c = choose(8) == 7 ? std::string() : enc_all(v); if (choose(3) == 2 && c.size()) c.resize(choose((uint32_t)c.size()));
    psock* s = buf_psock(A.a, &c); size_t pos = 0, n = c.size(); bool lost = false;
    for (uint32_t k = 0, e = 1 + choose(60); k < e && !lost; ++k) {
        uint64_t ff = faults_fired(); size_t left = n - pos;
        switch (weighted({5, 4, 1, 1, 1})) {
        case 0: { size_t want = choose(3) ? choose(40) : len_gen(20000), sz = want; char* b = (char*)user_alloc(want); status r = psock_read_raw(s, b, &sz); ev("raw", want, sz, r); if (!want) { CHECK(r == OK ? sz == 0 : left == 0, "wrong-size", "an empty read returned 0x%x, size %zu", r, sz); } else if (!left) CHECK((r != OK && sz == want) || (r == OK && sz == 0), "read-past-end", "reading past the end returned 0x%x with %zu bytes", r, sz); else { CHECK(r == OK, "wrong-status", "reading with %zu bytes left returned 0x%x", left, r); CHECK(sz == std::min(want, left), "wrong-size", "reading %zu of %zu bytes left gave %zu", want, left, sz); CHECK(!memcmp(b, c.data() + pos, sz), "wrong-value", "the bytes at offset %zu differ", pos); pos += sz; } user_free(b); break; }
        case 1: { Val w = val_gen(2000), o, ref; size_t p2 = pos; int d = val_dec(c, p2, w, ref); status r = val_read(s, A.a, w, o); ev("value", w.k, r, d); if (r == OK) { CHECK(d == 0, "read-past-end", "reading %s succeeded with %zu bytes left", val_show(w).c_str(), left); CHECK(val_eq(o, ref), "wrong-value", "%s was read as %s", val_show(ref).c_str(), val_show(o).c_str()); pos = p2; } else { CHECK(d != 0 || oom_ok(r, ff), "wrong-status", "reading %s returned 0x%x", val_show(w).c_str(), r); if (!is_oom(r) || w.boxed) lost = true; if (lost) { char b[4]; size_t z = 4; (void)psock_read_raw(s, b, &z); } } break; }
        case 2: { Val w = val_gen(50); status r = val_write(s, w); if (w.k == V_DATA && !w.boxed && w.s.empty()) break; CHECK(r != OK, "wrong-direction", "writing to an input socket succeeded"); break; }
        case 3: { void* b = (void*)0x5151; size_t z = 5; status r = psock_from_buffer_get_output_buffer(s, A.a, &b, &z); CHECK(r != OK && b == (void*)0x5151 && z == 5, "wrong-direction", "retrieving output from an input socket returned 0x%x", r); break; }
        case 4: refused_ops(s, true); break;
        }
    }
    if (!lost && choose(2)) { NoFaults nf; std::string rest; for (;;) { char b[777]; size_t z = 1 + choose(777); status r = psock_read_raw(s, b, &z); if (r != OK || !z) break; rest.append(b, z); } same_bytes(rest, c.substr(pos), "wrong-value", "the rest of the input"); }
    psock_drop(s); A.release(); check_no_leaks("after releasing an input socket");
}
SCENARIO(P06, mem_input_s) { mem_input(); }
ALSO(V01, roundtrip_s, 1);
}
ALSO(V01, buffered_s, 1);
ALSO(V01, mem_output_s, 1);
