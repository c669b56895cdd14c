// S09: WebSocket frames over a connection.
#include "wsutil.h"

namespace {
size_t wire_size(size_t n, bool mask) { return 2 + (n > 125 ? n > 65535 ? 8 : 2 : 0) + (mask ? 4 : 0) + n; }
size_t wframe_size(size_t max)
{
    static const size_t hot[] = {0, 1, 124, 125, 126, 127, 65534, 65535, 65536, 65537};
    if(wchance(0.35)) { int n = 0; while(n < 10 && hot[n] <= max) ++n; return hot[wl(n)]; }
    return wchance(0.1) ? 0 : wsize(wchance(0.15) ? max : std::min<size_t>(max, 400));
}
struct Flow
{
    uint64_t id; bool client; // the sender's role
    std::shared_ptr<fr::TcpSocket> tx, rx;
    std::vector<Frame> frames; size_t sent_ok = 0, received = 0;
    bool tx_done = false, tx_failed = false, rx_failed = false; St rx_status = St::Success;
    bool reuse_tx, reuse_rx, slow = false;
};
template<class F> void check_unchanged(F &f, const Frame &w)
{
    std::string d = same_frame(f, w);
    if(!d.empty()) fail("frame-changed", "sending changed the frame: %s", d.c_str());
}
template<class F> void tx(Flow &f)
{
    F shared;
    for(size_t k = 0; k < f.frames.size(); ++k)
    {
        F own; F &fr = f.reuse_tx ? shared : own;
        fill(fr, f.frames[k]);
        int again = wchance(0.25) ? 1 + (int)wl(2) : 0; // the very same object once more
        for(int r = 0; r <= again; ++r)
        {
            if(r) { if(f.frames.size() > 40) break; Frame c = f.frames[k]; f.frames.insert(f.frames.begin() + k, c); ++k; }
            const Frame w = f.frames[k];
            uint64_t w0 = fd_written(f.tx->get_socket_descriptor());
            St st = LIB(f.tx->send(fr));
            for(int i = 0; st == St::Timeout && i < 400; ++i) // nothing went out: the same frame can still be sent
            {
                if(uint64_t part = fd_written(f.tx->get_socket_descriptor()) - w0) fail("send-status", "sending a frame returned Timeout after %llu bytes of it had gone out", (unsigned long long)part);
                probe("frame send that timed out");
                sleep_ns((ns)wl(50) * 10 * MS);
                st = LIB(f.tx->send(fr));
            }
            check_unchanged(fr, w);
            if(st != St::Success)
            {
                f.tx_failed = true;
                if(st == St::WouldBlock) fail("send-status", "sending a frame on a non-blocking socket returned WouldBlock (partly sent, cannot be resumed)");
                note("flow %d: send of frame %zu failed with %s", (int)f.id, k, sname(st));
                f.tx_done = true;
                LIBV((f.tx->shutdown(), 0));
                return;
            }
            uint64_t n = fd_written(f.tx->get_socket_descriptor()) - w0;
            if(n != wire_size(w.payload.size(), f.client)) fail("framing", "a frame of %zu bytes put %llu bytes on the wire", w.payload.size(), (unsigned long long)n);
            f.sent_ok = k + 1;
        }
        if(wchance(0.2)) sleep_ns((ns)wl(40) * 10 * MS);
    }
    f.tx_done = true;
}
template<class F> void rx(Flow &f)
{
    F shared; int idles = 0;
    if(f.reuse_rx && wchance(0.5)) { Frame j = make_frame(99, wsize(500)); fill(shared, j); }
    for(;;)
    {
        if(f.tx_done && !f.tx_failed && f.received == f.sent_ok) return;
        if(f.slow && wchance(0.4)) sleep_ns((ns)wl(300) * 10 * MS);
        F own; F &fr = f.reuse_rx ? shared : own;
        St st = LIB(f.rx->receive(fr));
        if(st == St::Success)
        {
            idles = 0;
            if(f.received >= f.frames.size()) fail("frame-order", "a frame was received that was never sent");
            const Frame w = f.frames[f.received++];
            std::string d = same_frame(fr, w);
            if(!d.empty()) fail("frame-contents", "frame %zu: %s", f.received - 1, d.c_str());
            nontrivial();
            continue;
        }
        if(idle(st)) { if(f.tx_failed && ++idles > 100) { f.rx_failed = true; return; } backoff(++idles); continue; }
        f.rx_failed = true; f.rx_status = st;
        note("flow %d: receive failed with %s after %zu frames", (int)f.id, sname(st), f.received);
        give_up(*f.rx);
        return;
    }
}
void faults(bool lossy, bool timeouts)
{
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.5}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_RESET, lossy ? 0.01 : 0}, {F_SPURIOUS_TIMEOUT, timeouts ? 0.1 : 0}, {F_CPU_STALL, 0.01}});
}
void lib_to_lib()
{
    size_t cap[] = {0, 1, 3, 64, 1500, 20000};
    size_t cp = cap[wl(6)];
    bool huge = !cp && wchance(0.05); // a frame of megabytes, in large pieces
    TcpPair p; next_connect_cap(huge ? 1 << 20 : cp); make_pair(p);
    bool lossy = wchance(0.3), timeouts = wchance(0.3);
    faults(lossy, timeouts);
    if(huge) for(auto x : {F_SHORT_WRITE, F_SHORT_READ, F_SEGMENT, F_DELAY, F_STALL, F_RESET, F_SPURIOUS_TIMEOUT}) enable(x, 0);
    bool a_client = wchance(0.7);
    Flow f[2]; int flows = wchance(0.5) ? 2 : 1;
    size_t budget = cp && cp < 64 ? 600 : 140000;
    for(int i = 0; i < flows; ++i)
    {
        f[i].id = 20 + i; f[i].client = a_client == !i; f[i].tx = i ? p.b : p.a; f[i].rx = i ? p.a : p.b;
        f[i].reuse_tx = wchance(0.4); f[i].reuse_rx = wchance(0.6); f[i].slow = timeouts && wchance(0.7);
        for(int k = 0, n = 1 + (int)wl(8); k < n; ++k) { f[i].frames.push_back(make_frame(f[i].id * 50 + k, wframe_size(std::min<size_t>(budget, 70000)))); budget -= std::min(budget, f[i].frames.back().payload.size()); }
    }
    if(huge) { f[0].frames.push_back(make_frame(f[0].id * 50 + 40, wchance(0.5) ? (1 << 20) - 5 + wl(10) : (size_t)wl(3 << 20))); probe("megabytes"); }
    bool any_timeout = false;
    for(auto s : {p.a, p.b})
        switch(wl(4))
        {
            case 0: break;
            case 1: if(s->set_blocking(false) != St::Success) fail("setup", "set_blocking"); break;
            case 2: case 3: if(timeouts) { any_timeout = true; s->set_receive_timeout(5 + wl(2000)); if(wchance(0.5)) s->set_send_timeout(5 + wl(2000)); } break;
        }
    std::vector<int> t;
    for(int i = 0; i < flows; ++i)
    {
        Flow *x = &f[i];
        t.push_back(spawn("tx" + std::to_string(i), [x] { if(x->client) tx<fr::ClientWebFrame>(*x); else tx<fr::ServerWebFrame>(*x); }));
        t.push_back(spawn("rx" + std::to_string(i), [x] { if(x->client) rx<fr::ServerWebFrame>(*x); else rx<fr::ClientWebFrame>(*x); }));
    }
    for(int i = 0; i < flows; ++i) join(t[2 * i]);
    for(int i = 0; i < flows; ++i)
    {
        auto *x = &f[i]; int rt = t[2 * i + 1];
        block_until([x, rt] { return finished(rt) || x->received >= x->sent_ok; }, now() + 2000 * SEC, "settle");
        if(!finished(rt) && x->received < x->sent_ok) fail("frame-lost", "flow %d: %zu of %zu frames received and nothing more is coming", i, x->received, x->sent_ok);
    }
    p.a->shutdown();
    for(int x : t) join(x);
    bool disturbed = faults_fired(F_RESET) > 0 || any_timeout;
    for(int i = 0; i < flows; ++i)
    {
        if(f[i].received > f[i].sent_ok) fail("frame-partial", "flow %d: %zu frames received but only %zu sends succeeded", i, f[i].received, f[i].sent_ok);
        if(!disturbed && (f[i].tx_failed || f[i].received != f[i].frames.size()))
            fail("frame-lost", "flow %d: %zu of %zu frames received on a healthy connection (sent %zu, last status %s)", i, f[i].received, f[i].frames.size(), f[i].sent_ok, sname(f[i].rx_status));
        note("flow %d: %zu frames", i, f[i].received);
    }
}
// what the library puts on the wire, judged by an independent decoder; several peers may get the same frame object
void lib_to_wire()
{
    int np = 1 + (int)wl(2); bool client = wchance(0.6);
    std::vector<Scripted> p(np);
    for(int i = 0; i < np; ++i) make_scripted(p[i], i ? "9102" : "9101");
    faults(false, false);
    for(auto &x : p) if(wchance(0.25)) x.sock->set_blocking(false);
    std::vector<Frame> fr; size_t budget = 140000;
    for(int k = 0, n = 1 + (int)wl(6); k < n; ++k) { fr.push_back(make_frame(2000 + k, wframe_size(std::min<size_t>(budget, 70000)))); budget -= std::min(budget, fr.back().payload.size() * np); }
    std::vector<int> t; auto *pfr = &fr;
    for(int i = 0; i < np; ++i)
    {
        SockP peer = p[i].peer;
        t.push_back(spawn("peer" + std::to_string(i), [peer, pfr, client] {
            std::string b; std::vector<char> tmp(40000); size_t at = 0;
            for(size_t k = 0; k < pfr->size();)
            {
                WsDec d = ws_decode(b, at);
                if(!d.ok)
                {
                    size_t n = xrecv(peer, tmp.data(), tmp.size(), now() + 900 * SEC);
                    if(!n) fail("frame-lost", "frame %zu did not arrive completely", k);
                    b.append(tmp.data(), n);
                    continue;
                }
                const Frame &w = (*pfr)[k];
                if(d.rsv) fail("framing", "reserved bits are set");
                if(d.masked != client) fail("framing", "a frame sent by a %s is %smasked", client ? "client" : "server", d.masked ? "" : "not ");
                if(d.opcode != w.opcode || d.fin != w.fin) fail("framing", "opcode %d final %d on the wire instead of %d %d", d.opcode, d.fin, w.opcode, w.fin);
                if(d.payload != w.payload) fail("framing", "payload on the wire: %s", first_diff(d.payload, w.payload).c_str());
                int form = w.payload.size() < 126 ? 1 : w.payload.size() < 65536 ? 2 : 8;
                if(d.form != form) fail("framing", "a payload of %zu bytes is announced in the %d byte form", w.payload.size(), d.form);
                at += d.used; ++k; nontrivial();
            }
            if(at != b.size()) fail("framing", "%zu bytes behind the last frame", b.size() - at);
        }));
    }
    auto send_all = [&](auto &obj) {
        for(auto &w : fr)
        {
            fill(obj, w);
            for(auto &x : p)
            {
                St st = LIB(x.sock->send(obj));
                if(st != St::Success) fail("frame-lost", "sending a frame on a healthy connection returned %s", sname(st));
                check_unchanged(obj, w);
            }
        }
    };
    if(client) { fr::ClientWebFrame o; send_all(o); } else { fr::ServerWebFrame o; send_all(o); }
    for(int x : t) join(x);
    probe(client ? "client frames judged" : "server frames judged");
    note("%zu frames to %d peers", fr.size(), np);
}
// frames masked the wrong way are refused, right ones are taken
template<class F> void roles(bool reader_is_server)
{
    Scripted p; make_scripted(p, "9103"); faults(false, false);
    int n = 1 + (int)wl(4), bad = (int)wl(n);
    std::vector<Frame> fr; std::string w; size_t hot = 2;
    for(int k = 0; k < n; ++k)
    {
        fr.push_back(make_frame(2200 + k, wframe_size(3000)));
        bool mask = (k == bad) != reader_is_server;
        w += ws_encode(fr[k].opcode, fr[k].fin, fr[k].payload, mask, be(wl(0xffffffff), 4));
    }
    if(wchance(0.3)) p.sock->set_blocking(false);
    SockP peer = p.peer;
    int t = spawn("peer", [&, peer] { x_send_cut(peer, w, hot); });
    F obj;
    for(int k = 0; k <= bad; ++k)
    {
        F own; bool use_own = wchance(0.5); F &o = use_own ? own : obj; int idles = 0; St st;
        while(idle(st = LIB(p.sock->receive(o)))) { if(idles > 60) fail("frame-lost", "nothing arrives"); backoff(++idles); }
        if(k < bad)
        {
            if(st != St::Success) fail("refused", "a correctly masked frame was refused with %s", sname(st));
            std::string d = same_frame(o, fr[k]); if(!d.empty()) fail("frame-contents", "frame %d: %s", k, d.c_str());
        }
        else
        {
            if(st == St::Success) fail("mask-role", "a frame to a %s that is %smasked was accepted", reader_is_server ? "server" : "client", reader_is_server ? "not " : "");
            probe("wrong mask refused"); nontrivial();
        }
    }
    give_up(*p.sock);
    LIBV((p.sock->disconnect(), 0));
    join(t);
}
}

SCENARIO(S09)
{
    sched_mode();
    switch(wl(5)) { case 0: case 1: lib_to_lib(); break; case 2: case 3: lib_to_wire(); break; case 4: if(wchance(0.5)) roles<fr::ServerWebFrame>(true); else roles<fr::ClientWebFrame>(false); break; }
}
