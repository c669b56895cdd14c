// S17: TLS delivers exactly what was sent or fails.
#include "tls.h"
#include "msg.h"

namespace {
// everything that crossed the wire towards one end
struct Wire { std::string log; };
void tap(const std::shared_ptr<fr::SSLSocket> &s, std::shared_ptr<Wire> w) { set_tamper(sock_of(s->get_socket_descriptor()), [w](std::string &d) { if(w->log.size() < 400000) w->log += d; }); }
void check_secret(const Wire &w, const std::string &plain)
{
    for(int i = 0; i < 3 && plain.size() >= 12; ++i)
    {
        size_t at = i == 0 ? 0 : i == 1 ? plain.size() - 12 : wl((uint32_t)(plain.size() - 11));
        if(w.log.find(plain.substr(at, 12)) != std::string::npos) fail("plaintext", "plaintext of offset %zu is on the wire", at);
    }
}
struct Side
{
    std::shared_ptr<fr::SSLSocket> s; uint64_t id = 0, peer_id = 0; size_t total = 0, sent = 0, want = 0, got = 0, announced = 0; int mode = 0; Side *other = nullptr; bool failed = false; const char *name = "";
};

// one step of sending: a buffer, resumed until it is gone
void push(Side &d, size_t n, const std::function<void()> &meanwhile)
{
    n = std::min(n, d.total - d.sent);
    if(!n) return;
    std::string b = patstr(d.id, d.sent, n), orig = b; size_t sent = 0; int tries = 0;
    for(;;)
    {
        size_t before = sent;
        St r = LIB(d.s->send_raw(b.data(), n, sent));
        if(sent < before || sent > n) fail("count", "send_raw reports %zu of %zu bytes sent (was %zu)", sent, n, before);
        if(b != orig) fail("buffer", "send_raw changed the caller's buffer");
        if(r == St::Success) { if(sent != n) fail("count", "send_raw returned Success with %zu of %zu bytes sent", sent, n); break; }
        if(!idle(r)) fail("failed", "a send on a healthy connection failed with %s (-0x%x)", sname(r), -errno);
        if(r == St::WouldBlock && d.mode != 2) fail("status", "WouldBlock on a blocking socket");
        if(r == St::Timeout && d.mode != 1) fail("status", "Timeout on a socket without a timeout");
        probe("send interrupted");
        if(sent > before) tries = 0;
        if(++tries > 3000) fail("no-progress", "3000 fruitless sends");
        meanwhile();
        backoff(tries);
    }
    d.sent += n;
}
// one receive; false if nothing came
bool pull(Side &d, size_t n)
{
    std::string b(n + 16, '\x5a'); size_t g = 424242; bool all = wchance(0.15) && d.got + n <= d.other->announced && d.mode == 0;
    St r;
    if(all) { r = LIB(d.s->receive_all(&b[0], n)); g = r == St::Success ? n : 0; }
    else r = LIB(d.s->receive_raw(&b[0], n, g));
    if(b.compare(n, 16, std::string(16, '\x5a'))) fail("overflow", "a receive wrote past the %zu byte buffer", n);
    if(r == St::Success)
    {
        if(!g || g > n) fail("count", "a successful receive of %zu of %zu bytes", g, n);
        std::string w = patstr(d.peer_id, d.got, g); b.resize(g);
        if(b != w) fail("corrupt", "%s at %zu: %s", d.name, d.got, first_diff(b, w).c_str());
        d.got += g;
        if(d.got > d.want) fail("corrupt", "more data than was sent");
        nontrivial();
        return true;
    }
    if(g) fail("count", "a receive which returned %s reports %zu bytes", sname(r), g);
    if(!idle(r)) fail("failed", "a receive on a healthy connection failed with %s (-0x%x), %zu of %zu", sname(r), -errno, d.got, d.want);
    if(r == St::WouldBlock && d.mode != 2) fail("status", "WouldBlock on a blocking socket");
    if(r == St::Timeout && d.mode != 1) fail("status", "Timeout on a socket without a timeout");
    probe("receive interrupted");
    return false;
}
void set_mode(Side &d)
{
    d.mode = (int)wl(3);
    if(d.mode == 1) { d.s->set_receive_timeout(10 + wl(2000)); d.s->set_send_timeout(10 + wl(2000)); }
    if(d.mode == 2 && d.s->set_blocking(false) != St::Success) fail("setup", "set_blocking");
}

void stream()
{
    static const size_t caps[] = {0, 5, 300, 2000, 20000};
    TlsPair p; size_t cap = caps[wl(5)]; next_connect_cap(cap); make_tls_pair(p);
    auto wa = std::make_shared<Wire>(), wb = std::make_shared<Wire>(); tap(p.a, wa); tap(p.b, wb);
    Side A, B; A.s = p.a; B.s = p.b; A.id = B.peer_id = 1; B.id = A.peer_id = 2; A.other = &B; B.other = &A; A.name = "client"; B.name = "server";
    set_mode(A); set_mode(B);
    size_t big = cap && cap < 100 ? 3000 : wchance(0.25) ? 60000 : 6000;
    A.total = B.want = wl((uint32_t)big) + 1; B.total = A.want = wchance(0.6) ? wl((uint32_t)big) : 0;
    bool duplex = A.mode == 2 && B.mode == 2; // both directions at once; otherwise turn by turn
    note("stream %zu/%zu bytes, buffers %zu, modes %d %d", A.total, B.total, cap, A.mode, B.mode);
    swarm({{F_SEGMENT, 0.5}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_RECV_EINTR, 0.25}, {F_SEND_EINTR, 0.25}, {F_SHORT_READ, 0.3}, {F_SHORT_WRITE, 0.3}, {F_SPURIOUS_TIMEOUT, 0.1}, {F_CPU_STALL, 0.005}});
    int turn = 0; int *tp = &turn;
    auto run = [tp, duplex](Side &d, int me) {
        int k = 0;
        if(duplex)
        {
            while(d.sent < d.total || d.got < d.want)
            {
                if(d.sent < d.total) push(d, wsize(20000), [&] { if(d.got < d.want) pull(d, wsize(5000)); });
                if(d.got < d.want) { if(pull(d, wsize(20000))) k = 0; else backoff(++k); if(k > 3000) fail("no-progress", "3000 idle receives"); }
            }
            return;
        }
        // turn by turn: one side sends a burst, the other reads all of it
        while(d.sent < d.total || d.got < d.want)
        {
            if(d.sent < d.total && (*tp == me || d.other->sent >= d.other->total))
            {
                size_t n = d.total - d.sent; if(wchance(0.5)) n = std::min(n, wsize(20000));
                d.announced = d.sent + n; push(d, n, [] {});
                if(d.other->sent < d.other->total) *tp = 1 - me;
            }
            else if(d.got < d.other->announced) { if(pull(d, wsize(20000))) k = 0; else backoff(++k); if(k > 3000) fail("no-progress", "3000 idle receives"); }
            else { int o = me; if(!block_until([tp, o, &d] { return (*tp == o && d.sent < d.total) || (d.other->sent >= d.other->total && d.sent < d.total) || d.got < d.other->announced; }, now() + 30000 * SEC)) fail("setup", "nobody's turn"); }
        }
    };
    (void)0;
    // a turn is passed when a burst has been sent; the other side may then send before it has read everything only if it fits in the buffers
    if(!duplex && cap && A.total && B.total) { B.total = A.want = 0; }
    int t = spawn("server", [&] { run(B, 1); });
    run(A, 0);
    join(t);
    if(A.got != B.total || B.got != A.total) fail("lost", "%zu of %zu and %zu of %zu arrived", A.got, B.total, B.got, A.total);
    check_secret(*wb, patstr(1, 0, A.total)); check_secret(*wa, patstr(2, 0, B.total));
    quiesce();
    bool first = wchance(0.5);
    auto x = first ? p.a : p.b, y = first ? p.b : p.a;
    LIBV((x->disconnect(), 0));
    char b[4]; size_t g = 0; St r = St::Timeout;
    for(int k = 0; k < 2000 && idle(r); ++k) { r = LIB(y->receive_raw(b, 4, g)); if(idle(r)) sleep_ns(SEC); }
    if(r == St::Success || idle(r)) fail("end", "after the peer has disconnected a receive returns %s", sname(r));
}

// framed messages
void framed()
{
    bool accepted = wchance(0.5);
    ScriptedTls p; make_scripted_tls(p, accepted);
    auto wire = std::make_shared<Wire>(); tap(p.sock, wire);
    p.peer->deadline = now() + 50000 * SEC;
    int mode = (int)wl(3); uint32_t tmo = 0;
    if(mode == 1) { static const uint32_t t[] = {20, 300, 2500}; tmo = t[wl(3)]; p.sock->set_receive_timeout(tmo); }
    if(mode == 2 && p.sock->set_blocking(false) != St::Success) fail("setup", "set_blocking");
    swarm({{F_SEGMENT, 0.5}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_RECV_EINTR, 0.25}, {F_SHORT_READ, 0.3}, {F_SPURIOUS_TIMEOUT, 0.1}, {F_CPU_STALL, 0.005}});
    Kind k0 = (Kind)wl(K_COUNT); int n = 1 + (int)wl(k0 >= K_REQUEST ? 3 : 6);
    std::vector<Msg> msgs; for(int i = 0; i < n; ++i) msgs.push_back(make_msg(k0, 40 + i, wchance(0.15) ? 0 : wsize(wchance(0.2) ? 9000 : 300)));
    bool turns = k0 >= K_REQUEST || wchance(0.4), gaps = wchance(0.4); int done = 0; bool gave_up = false; XTls *x = p.peer.get();
    note("%d %s over TLS, mode %d timeout %u", n, kind_names[k0], mode, tmo);
    int t = spawn("peer", [&, x] {
        for(int i = 0; i < n && !gave_up; ++i)
        {
            const std::string &w = msgs[i].wire; size_t at = 0; int pieces = 0;
            while(at < w.size())
            {
                size_t k = w.size() - at; if(pieces < 8 && wchance(0.6)) k = std::min(k, (size_t)(wchance(0.5) && msgs[i].body_at > at ? std::max<size_t>(1, msgs[i].body_at - at + wl(3) - 1) : 1 + wl(12)));
                if(!x->send(w.substr(at, k))) return;
                at += k; ++pieces;
                if(gaps && wchance(0.3)) { static const ns g[] = {1 * MS, 25 * MS, 400 * MS, 3 * SEC}; sleep_ns(g[wl(4)]); }
            }
            if(turns) block_until([&, i] { return done > i || gave_up; }, now() + 3000 * SEC);
            else if(wchance(0.3)) sleep_ns((ns)wl(60) * 50 * MS);
        }
    });
    Receiver r; r.reuse = wchance(0.5); int idles = 0;
    while(done < n)
    {
        const Msg &m = msgs[done]; std::string diff;
        St st = r.recv(*p.sock, m, diff);
        if(st == St::Success) { if(!diff.empty()) fail("wrong-message", "%s %d over TLS: %s", kind_names[k0], done, diff.c_str()); ++done; idles = 0; nontrivial(); continue; }
        if(idle(st))
        {
            if(st == St::WouldBlock && mode != 2) fail("status", "WouldBlock on a blocking socket");
            if(st == St::Timeout && mode != 1) fail("status", "Timeout on a socket that is %s", mode == 2 ? "non-blocking" : "blocking without a timeout");
            if(++idles > 3000) fail("no-progress", "3000 idle receives");
            backoff(idles); continue;
        }
        if(!(mode == 1 && st == St::Disconnected)) fail("failed", "receiving a %s over TLS failed with %s (-0x%x)", kind_names[k0], sname(st), -errno);
        probe("timeout inside a message");
        break; // given up: a timeout inside a message
    }
    gave_up = true;
    for(int i = 0; i < done; ++i) if(msgs[i].payload.size() >= 12) { check_secret(*wire, msgs[i].payload); break; }
    LIBV((p.sock->disconnect(), 0));
    join(t);
}

// the library sends messages, the scripted TLS peer sees exactly their wire form
void framed_out()
{
    bool accepted = wchance(0.5);
    next_connect_cap(wchance(0.4) ? 1 + wl(3000) : 0);
    ScriptedTls p; make_scripted_tls(p, accepted);
    p.peer->deadline = now() + 50000 * SEC;
    int mode = (int)wl(2) * 2;
    if(mode == 2 && p.sock->set_blocking(false) != St::Success) fail("setup", "set_blocking");
    swarm({{F_SEGMENT, 0.3}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_SEND_EINTR, 0.3}, {F_SHORT_WRITE, 0.4}, {F_CPU_STALL, 0.005}});
    int n = 1 + (int)wl(6); std::string want, got; bool fin = false; XTls *x = p.peer.get();
    int t = spawn("peer", [&, x] { char b[3000]; while(got.size() < want.size() || !fin) { int k = x->recv(b, 1 + wl(3000)); if(k <= 0) return; got.append(b, k); if(wchance(0.2)) sleep_ns((ns)wl(20) * 20 * MS); } });
    for(int i = 0; i < n; ++i)
    {
        std::string d = patstr(50 + i, 0, wchance(0.1) ? 0 : wsize(20000));
        if(wchance(0.6)) { fr::Packet pk; pk.add_raw(d.data(), d.size()); want += be(d.size(), 4) + d; St r = LIB(p.sock->send(pk)); if(r != St::Success && !(idle(r) && mode == 2)) fail("failed", "sending a packet: %s", sname(r)); for(int k = 0; idle(r) && k < 3000; ++k) { backoff(k); r = LIB(p.sock->send(pk)); } if(r != St::Success) fail("failed", "sending a packet: %s", sname(r)); }
        else
        {
            if(accepted) { fr::ServerWebFrame f; f.set_opcode(fr::WebFrame::Opcode::Binary); f.set_payload(d); want += ws_encode(2, true, d, false, ""); St r = LIB(p.sock->send(f)); if(r != St::Success) fail("failed", "sending a frame: %s", sname(r)); }
            else { fr::HttpRequest q; q.set_type(fr::Http::RequestType::Put); q.set_uri("/x"); q.header("Host") = "h"; q.set_body(d); std::string c = LIB(q.construct(p.sock->get_remote_address())); want += c; St r = LIB(p.sock->send(q)); (void)r; if(r != St::Success) fail("failed", "sending a request: %s", sname(r)); }
        }
        nontrivial();
    }
    fin = true;
    LIBV((p.sock->disconnect(), 0));
    join(t);
    (void)x;
    if(got != want) fail("wrong-bytes", "%s", first_diff(got, want).c_str());
}

// an attacker on the wire
struct Attack { int kind = 0, record = 0, count = 0; uint32_t where = 0, bit = 0; std::string acc, held, old; bool done = false; std::string junk; size_t after = 0; /* record from which on nothing may follow without an error */ };
void attack()
{
    static const char *const kinds[] = {"flipped bit", "dropped record", "replayed record", "swapped records", "inserted bytes", "cut bytes", "rewritten length", "rewritten type", "forged close", "replay of an older record", "raw flip", "truncated stream"};
    TlsPair p; make_tls_pair(p);
    bool c2s = wchance(0.5); auto tx = c2s ? p.a : p.b, rx = c2s ? p.b : p.a;
    auto a = std::make_shared<Attack>(); a->kind = (int)wl(12); int n = 1 + (int)wl(6); a->record = (int)wl(n); a->where = wl(5000); a->bit = wl(8); int jn = 1 + (int)wl(60); a->junk = patstr(77, 0, jn);
    if(wchance(0.3)) a->junk = std::string("\x17\x03\x03", 3) + be(jn, 2) + a->junk;
    std::vector<size_t> sizes; size_t total = 0; std::vector<size_t> upto; // plaintext before record i
    for(int i = 0; i < n; ++i) { sizes.push_back(wsize(wchance(0.2) ? 16000 : 200)); upto.push_back(total); total += sizes.back(); }
    note("attack: %s on record %d of %d", kinds[a->kind], a->record, n);
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_RECV_EINTR, 0.2}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_SEND_EINTR, 0.2}, {F_CPU_STALL, 0.005}});
    set_tamper(sock_of(rx->get_socket_descriptor()), [a](std::string &d) {
        a->acc += d; d.clear();
        if(a->kind == 10 && !a->done && a->acc.size() > 0 && a->count >= a->record) { size_t i = a->where % a->acc.size(); a->acc[i] ^= (char)(1 << a->bit); d = a->acc; a->acc.clear(); a->done = true; count_fault(F_TAMPER); a->kind = -1; return; }
        if(a->kind == -1) { d = a->acc; a->acc.clear(); return; }
        for(;;)
        {
            if(a->acc.size() < 5) return;
            size_t len = 5 + ((unsigned char)a->acc[3] << 8 | (unsigned char)a->acc[4]);
            if(a->acc.size() < len) return;
            std::string r = a->acc.substr(0, len); a->acc.erase(0, len);
            int i = a->count++;
            if(a->kind == 11 && a->done) continue;
            if(i != a->record) { d += r; if(!a->held.empty()) { d += a->held; a->held.clear(); } a->old = r; continue; }
            a->done = true; count_fault(F_TAMPER);
            a->after = i + (a->kind == 2 || (a->kind == 9 && a->old.empty()) || (a->kind == 4 && a->where % (r.size() + 1) == r.size()));
            switch(a->kind)
            {
                case 0: r[5 + a->where % (r.size() - 5)] ^= (char)(1 << a->bit); d += r; break;
                case 1: break;
                case 2: d += r + r; break;
                case 3: a->held = r; break;
                case 4: { size_t at = a->where % (r.size() + 1); r.insert(at, a->junk); d += r; break; }
                case 5: { size_t at = a->where % r.size(); r.erase(at, 1 + a->junk.size() % 7); d += r; break; }
                case 6: { uint32_t l = (uint32_t)(len - 5) ^ (1u << (a->where % 15)); r[3] = (char)(l >> 8); r[4] = (char)l; d += r; break; }
                case 7: r[a->where % 3] ^= (char)(1 << a->bit); d += r; break;
                case 8: d += std::string("\x15\x03\x03\x00\x02\x01\x00", 7); d += r; break;
                case 9: d += a->old.empty() ? r + r : a->old + r; break;
                case 11: { size_t at = a->where % r.size(); d += r.substr(0, at); break; }
                default: d += r;
            }
        }
    });
    int kind = a->kind, record = a->record; bool full = false;
    int t = spawn("sender", [&] {
        uint64_t pos = 0;
        for(int i = 0; i < n; ++i)
        {
            std::string b = patstr(5, pos, sizes[i]); size_t sent = 0;
            if(LIB(tx->send_raw(b.data(), b.size(), sent)) != St::Success) return; // the other end may have ended it
            pos += sizes[i];
            if(wchance(0.2)) sleep_ns((ns)wl(20) * 50 * MS);
        }
        full = true;
        sleep_ns(SEC * wl(20));
        LIBV((tx->disconnect(), 0));
    });
    bool timed = wchance(0.3); if(timed) rx->set_receive_timeout(3000);
    bool nonblock = wchance(0.3); if(nonblock && rx->set_blocking(false) != St::Success) fail("setup", "set_blocking");
    std::string in; St r = St::Success; int errors = 0, idles = 0, after = 0;
    bool retry = wchance(0.4); // an application that does not stop at an error
    for(;;)
    {
        std::string b(1 + wl(wchance(0.5) ? 20 : 20000), 0); size_t g = 0;
        r = LIB(rx->receive_raw(&b[0], b.size(), g));
        if(r == St::Success)
        {
            in.append(b, 0, g); if(errors) ++after;
            if(a->done && kind != 10 && !errors && a->after < upto.size() && in.size() > upto[a->after]) fail("unnoticed", "%s, and what followed was delivered without an error", kinds[kind]);
            if(in.size() > total || in != patstr(5, 0, in.size())) fail("altered", "data that was not sent got through (%s): %s", kinds[kind], first_diff(in, patstr(5, 0, std::min(in.size(), total))).c_str());
            continue;
        }
        if(g) fail("count", "a receive which returned %s reports %zu bytes", sname(r), g);
        if(r == St::WouldBlock && !nonblock) fail("status", "WouldBlock on a blocking socket (%s)", kinds[kind]);
        if(r == St::Timeout && (nonblock || !timed)) fail("status", "Timeout on a socket that is %s (%s)", nonblock ? "non-blocking" : "blocking without a timeout", kinds[kind]);
        if(idle(r)) { if(++idles > 3000) fail("no-progress", "neither data nor an end"); sleep_ns(100 * MS); continue; }
        ++errors;
        if(errors > (retry ? 5 : 0)) break;
    }
    nontrivial(); probe(kinds[kind]);
    if(a->done && kind != 2 && kind != 8 && kind != 9 && kind != 4 && kind != 11 && kind != 3 && kind != 10 && full && in.size() > upto[record]) fail("altered", "a record was changed on the wire (%s) and its data was delivered all the same", kinds[kind]);
    if(a->done && (kind == 1 || kind == 11) && in.size() > upto[record]) fail("altered", "%s, but what followed was delivered", kinds[kind]);
    LIBV((rx->disconnect(), 0));
    join(t);
    // neither the listener nor the contexts are harmed
    quiesce();
    if(wchance(0.3))
    {
        TlsPair q; q.cc = p.cc; q.sc = p.sc; q.listener = std::move(p.listener); make_tls_pair(q);
        std::string d = patstr(6, 0, 100); size_t sent = 0;
        if(LIB(q.a->send_raw(d.data(), 100, sent)) != St::Success || LIB(q.b->receive_all(&d[0], 100)) != St::Success || d != patstr(6, 0, 100)) fail("after", "the next connection does not work");
    }
}
}

SCENARIO(S17)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    switch(wl(8)) { case 0: case 1: case 2: stream(); break; case 3: case 4: framed(); break; case 5: framed_out(); break; default: attack(); }
}
