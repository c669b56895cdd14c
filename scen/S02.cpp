// S02: packets over a connection.
#include "common.h"
#include <map>

namespace {
enum Color : uint16_t { Red = 1, Blue = 40000 };
struct Obj : fr::Packetable
{
    uint32_t a = 0; std::string b; std::vector<uint16_t> c;
    void pack(fr::Packet &p) const override { p << a << b << c; }
    void unpack(fr::Packet &p) override { p >> a >> b >> c; }
};
// One packet is a list of fields generated from recorded choices; field i of packet k is a function of (stream, k, i, kind, size).
struct Field { int kind; size_t n; uint64_t v; };
typedef std::vector<Field> Plan;
uint64_t val(uint64_t id, int k, int i) { uint64_t v = 0; for(int b = 0; b < 8; ++b) v = v << 8 | pat(id, k * 1000 + i * 8 + b); return v; }

Plan make_plan(uint64_t id, int k)
{
    Plan p; int n = (int)pick_biased(W, 6, 0.25);
    if(wchance(0.1)) n += 20;
    for(int i = 0; i < n; ++i)
    {
        Field f; f.kind = (int)wl(15); f.n = 0; f.v = val(id, k, i);
        if(f.kind == 8 || f.kind == 14) f.n = wchance(0.15) ? 0 : wsize(wchance(0.05) ? 70000 : 600);
        if(f.kind == 9 || f.kind == 10 || f.kind == 11) f.n = wl(9);
        p.push_back(f);
    }
    return p;
}
void put(fr::Packet &p, const Field &f)
{
    switch(f.kind)
    {
        case 0: p << (uint8_t)f.v; break;
        case 1: p << (uint16_t)f.v; break;
        case 2: p << (uint32_t)f.v; break;
        case 3: p << (uint64_t)f.v; break;
        case 4: p << (int16_t)f.v; break;
        case 5: p << (int32_t)f.v; break;
        case 6: p << (int64_t)f.v; break;
        case 7: p << (bool)(f.v & 1); break;
        case 8: p << patstr(f.v, 0, f.n); break;
        case 9: { std::vector<uint32_t> v; for(size_t i = 0; i < f.n; ++i) v.push_back((uint32_t)(f.v + i)); p << v; break; }
        case 10: { std::vector<std::string> v; for(size_t i = 0; i < f.n; ++i) v.push_back(patstr(f.v, i, i * 3)); p << v; break; }
        case 11: { std::map<uint16_t, std::string> m; for(size_t i = 0; i < f.n; ++i) m[(uint16_t)(f.v + i)] = patstr(f.v, i, 5); p << m; break; }
        case 12: { Obj o; o.a = (uint32_t)f.v; o.b = patstr(f.v, 3, f.v % 40); o.c.assign(f.v % 5, (uint16_t)f.v); p << o; break; }
        case 13: p << (f.v & 1 ? Red : Blue); p << (double)(int32_t)f.v; p << (float)(int16_t)f.v; break;
        case 14: p.add_raw(patstr(f.v, 0, f.n).data(), f.n); break;
    }
}
template<class T> void want(T got, T exp, int k, int i, const Field &f)
{
    if(got != exp) fail("packet-contents", "packet %d field %d (kind %d) reads back as a different value", k, i, f.kind);
}
void get(fr::Packet &p, const Field &f, int k, int i)
{
    switch(f.kind)
    {
        case 0: { uint8_t v; p >> v; want<uint8_t>(v, (uint8_t)f.v, k, i, f); break; }
        case 1: { uint16_t v; p >> v; want<uint16_t>(v, (uint16_t)f.v, k, i, f); break; }
        case 2: { uint32_t v; p >> v; want<uint32_t>(v, (uint32_t)f.v, k, i, f); break; }
        case 3: { uint64_t v; p >> v; want<uint64_t>(v, f.v, k, i, f); break; }
        case 4: { int16_t v; p >> v; want<int16_t>(v, (int16_t)f.v, k, i, f); break; }
        case 5: { int32_t v; p >> v; want<int32_t>(v, (int32_t)f.v, k, i, f); break; }
        case 6: { int64_t v; p >> v; want<int64_t>(v, (int64_t)f.v, k, i, f); break; }
        case 7: { bool v; p >> v; want<bool>(v, f.v & 1, k, i, f); break; }
        case 8: { std::string v; p >> v; if(v != patstr(f.v, 0, f.n)) fail("packet-contents", "packet %d field %d: %s", k, i, first_diff(v, patstr(f.v, 0, f.n)).c_str()); break; }
        case 9: { std::vector<uint32_t> v; p >> v; want<size_t>(v.size(), f.n, k, i, f); for(size_t j = 0; j < v.size(); ++j) want<uint32_t>(v[j], (uint32_t)(f.v + j), k, i, f); break; }
        case 10: { std::vector<std::string> v; p >> v; want<size_t>(v.size(), f.n, k, i, f); for(size_t j = 0; j < v.size(); ++j) if(v[j] != patstr(f.v, j, j * 3)) fail("packet-contents", "packet %d string list", k); break; }
        case 11: { std::map<uint16_t, std::string> m; p >> m; want<size_t>(m.size(), f.n, k, i, f); for(size_t j = 0; j < f.n; ++j) if(m[(uint16_t)(f.v + j)] != patstr(f.v, j, 5)) fail("packet-contents", "packet %d map", k); break; }
        case 12: { Obj o; p >> o; want<uint32_t>(o.a, (uint32_t)f.v, k, i, f); if(o.b != patstr(f.v, 3, f.v % 40) || o.c != std::vector<uint16_t>(f.v % 5, (uint16_t)f.v)) fail("packet-contents", "packet %d object", k); break; }
        case 13: { Color c; double d; float x; p >> c; p >> d; p >> x; want<int>(c, f.v & 1 ? Red : Blue, k, i, f); want<double>(d, (double)(int32_t)f.v, k, i, f); want<float>(x, (float)(int16_t)f.v, k, i, f); break; }
        case 14: { std::string s(f.n, 0); p.extract_raw(&s[0], f.n); if(s != patstr(f.v, 0, f.n)) fail("packet-contents", "packet %d raw field", k); break; }
    }
}
struct Flow
{
    uint64_t id; std::shared_ptr<fr::TcpSocket> tx, rx;
    std::vector<Plan> plans; size_t sent_ok = 0, received = 0;
    bool tx_done = false, rx_over = false, tx_failed = false, rx_failed = false; St rx_status = St::Success;
    bool reuse_tx, reuse_rx, slow = false;
    Flow *echo = nullptr; // the receiver sends every packet back as it is
};
void tx(Flow &f)
{
    fr::Packet shared;
    for(size_t k = 0; k < f.plans.size(); ++k)
    {
        fr::Packet own; fr::Packet &p = f.reuse_tx ? shared : own;
        bool grow = f.reuse_tx && k && f.plans[k - 1].size() < 8 && p.size() < 20000 && wchance(0.4); // more is added to what has been sent already
        if(f.reuse_tx && !grow) p.clear();
        for(auto &x : f.plans[k]) put(p, x);
        if(grow) { f.plans[k].insert(f.plans[k].begin(), f.plans[k - 1].begin(), f.plans[k - 1].end()); probe("packet added to and sent again"); }
        size_t before = p.size();
        int fd = f.tx->get_socket_descriptor();
        uint64_t w0 = fd_written(fd);
        St st = LIB(f.tx->send(p));
        for(int i = 0; st == St::Timeout && i < 400; ++i) // nothing went out: the same packet, or the next one, can still be sent
        {
            if(uint64_t part = fd_written(fd) - w0) fail("send-status", "sending a packet returned Timeout after %llu bytes of it had gone out", (unsigned long long)part);
            probe("packet send that timed out");
            sleep_ns((ns)wl(50) * 10 * MS);
            st = LIB(f.tx->send(p));
        }
        if(p.size() != before) fail("packet-changed", "sending changed the size of the packet from %zu to %zu", before, p.size());
        if(st != St::Success)
        {
            f.tx_failed = true;
            note("flow %d: send of packet %zu failed with %s", (int)f.id, k, sname(st));
            if(st == St::WouldBlock) fail("send-status", "sending a packet on a non-blocking socket returned WouldBlock (partly sent, cannot be resumed)");
            break;
        }
        uint64_t w = fd_written(fd) - w0;
        if(w != before + 4) fail("framing", "a packet of %zu bytes put %llu bytes on the wire", before, (unsigned long long)w);
        f.sent_ok = k + 1;
        if(wchance(0.15)) { // send the very same object again
            f.plans.insert(f.plans.begin() + k, f.plans[k]);
            if(f.plans.size() > 60) { f.plans.erase(f.plans.begin() + k); continue; }
            St s2 = LIB(f.tx->send(p));
            if(s2 != St::Success) { f.tx_failed = true; break; }
            f.sent_ok = ++k + 1;
        }
        if(wchance(0.2)) sleep_ns((ns)wl(40) * 10 * MS);
    }
    f.tx_done = true;
    if(f.tx_failed) LIBV((f.tx->shutdown(), 0));
}
void rx(Flow &f)
{
    fr::Packet shared; int idles = 0;
    if(f.reuse_rx && wchance(0.5)) { shared << patstr(7, 7, wsize(3000)); if(wchance(0.5)) { uint32_t x; shared >> x; } }
    for(;;)
    {
        if(f.tx_done && !f.tx_failed && f.received == f.sent_ok) return;
        if(f.slow && wchance(0.4)) sleep_ns((ns)wl(300) * 10 * MS);
        fr::Packet own; fr::Packet &p = f.reuse_rx ? shared : own;
        St st = LIB(f.rx->receive(p));
        if(st == St::Success)
        {
            idles = 0;
            int k = (int)f.received;
            if(f.received >= f.plans.size()) fail("packet-order", "a packet was received that was never sent");
            const Plan plan = f.plans[f.received];
            f.received++;
            if(p.get_cursor() != 0) fail("packet-cursor", "a received packet is not positioned at its beginning (%zu)", p.get_cursor());
            try { for(size_t i = 0; i < plan.size(); ++i) get(p, plan[i], k, (int)i); }
            catch(const std::out_of_range &) { fail("packet-contents", "packet %d is shorter than what was sent", k); }
            if(p.get_bytes_remaining() != 0) fail("packet-contents", "packet %d has %zu bytes more than what was sent", k, p.get_bytes_remaining());
            nontrivial();
            if(f.echo && !f.echo->tx_failed)
            {
                f.echo->plans.push_back(plan);
                if(LIB(f.rx->send(p)) != St::Success) { f.echo->tx_failed = true; LIBV((f.rx->shutdown(), 0)); }
                else { ++f.echo->sent_ok; probe("packet sent back"); }
            }
            continue;
        }
        if(idle(st)) { if(f.tx_failed && ++idles > 100) { f.rx_failed = true; return; } ++idles; backoff(idles); continue; }
        f.rx_failed = true; f.rx_status = st;
        note("flow %d: receive failed with %s after %zu packets", (int)f.id, sname(st), f.received);
        give_up(*f.rx);
        return;
    }
}
}

SCENARIO(S02)
{
    sched_mode();
    size_t cap[] = {0, 1, 3, 64, 1500, 20000};
    size_t cp = cap[wl(6)];
    TcpPair p;
    bool huge = !cp && wchance(0.03); // a packet of megabytes, in large pieces
    next_connect_cap(huge ? 1 << 20 : cp);
    make_pair(p);
    bool lossy = wchance(0.3), timeouts = wchance(0.3);
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_RESET, lossy ? 0.01 : 0}, {F_SPURIOUS_TIMEOUT, timeouts ? 0.1 : 0}, {F_CPU_STALL, 0.01}});
    if(huge) for(auto x : {F_SHORT_WRITE, F_SHORT_READ, F_SEGMENT, F_DELAY, F_STALL, F_RESET, F_SPURIOUS_TIMEOUT}) enable(x, 0);
    Flow f[2];
    int flows = wchance(0.4) ? 2 : 1;
    for(int i = 0; i < flows; ++i)
    {
        f[i].id = 10 + i; f[i].tx = i ? p.b : p.a; f[i].rx = i ? p.a : p.b;
        f[i].reuse_tx = wchance(0.4); f[i].reuse_rx = wchance(0.6); f[i].slow = timeouts && wchance(0.7);
        int n = 1 + (int)wl(8);
        for(int k = 0; k < n; ++k)
        {
            Plan pl = make_plan(f[i].id, k);
            if(cp && cp < 64) for(auto &x : pl) if((x.kind == 8 || x.kind == 14) && x.n > 300) x.n = 300; // tiny windows: keep it short
            f[i].plans.push_back(pl);
        }
    }
    if(huge) { static const size_t at[] = {1 << 20, 1 << 22, 1 << 24}; size_t n = at[wl(3)] - 6 + wl(12); f[0].plans[0].push_back(Field{wchance(0.5) ? 14 : 8, n, val(f[0].id, 0, 99)}); probe("megabytes"); }
    bool echo = flows == 1 && wchance(0.4);
    if(echo) { f[1].id = 11; f[1].tx = p.b; f[1].rx = p.a; f[1].reuse_tx = false; f[1].reuse_rx = wchance(0.6); f[0].echo = &f[1]; flows = 2; }
    bool any_timeout = false;
    for(auto s : {p.a, p.b})
        switch(wl(4))
        {
            case 0: break;
            case 1: if(s->set_blocking(false) != St::Success) fail("setup", "set_blocking"); break;
            case 2: case 3: if(timeouts) { any_timeout = true; s->set_receive_timeout(5 + wl(2000)); if(wchance(0.5)) s->set_send_timeout(5 + wl(2000)); } break;
        }
    std::vector<int> t;
    for(int i = 0; i < flows; ++i)
    {
        Flow *x = &f[i];
        if(i && echo) t.push_back(spawn("echo", [] {}));
        else t.push_back(spawn("tx" + std::to_string(i), [x] { tx(*x); }));
        t.push_back(spawn("rx" + std::to_string(i), [x] { rx(*x); x->rx_over = true; if(x->rx_failed) { /* the receiver gives up: its side is shut down already */ } }));
    }
    // when a sender has finished normally, its stream stays open; receivers stop after the last packet.  A receiver waiting for a packet that will never come
    // (only possible when something was lost) is released by ending the stream once everything has settled.
    for(int i = 0; i < flows; ++i) join(t[2 * i]);
    for(int i = 0; i < flows; ++i)
    {
        auto *x = &f[i]; int rt = t[2 * i + 1], from = t[1]; bool e = echo && i; Flow *f0 = &f[0];
        block_until([x, rt, e, f0, from] { return finished(rt) || (x->received >= x->sent_ok && (!e || x->tx_failed || finished(from) || x->sent_ok >= f0->received)); }, now() + 2000 * SEC, "settle");
        if(!finished(rt) && f[i].received < f[i].sent_ok) fail("packet-lost", "flow %d: %zu of %zu packets received and nothing more is coming", i, f[i].received, f[i].sent_ok);
    }
    p.a->shutdown();
    for(int x : t) join(x);
    bool disturbed = faults_fired(F_RESET) > 0 || any_timeout;
    for(int i = 0; i < flows; ++i) disturbed |= f[i].rx_failed && f[i].received < f[i].sent_ok && any_timeout;
    for(int i = 0; i < flows; ++i)
    {
        if(f[i].received > f[i].sent_ok) fail("packet-partial", "flow %d: %zu packets received but only %zu sends succeeded", i, f[i].received, f[i].sent_ok);
        if(!disturbed && (f[i].tx_failed || f[i].received != f[i].plans.size()))
            fail("packet-lost", "flow %d: %zu of %zu packets received on a healthy connection (sent %zu, last status %s)", i, f[i].received, f[i].plans.size(), f[i].sent_ok, sname(f[i].rx_status));
        note("flow %d: %zu packets", i, f[i].received);
    }
}
