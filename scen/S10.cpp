// S10: WebSocket disconnect.
#include "wsutil.h"

namespace {
// Disconnects and checks what it did to the descriptor.
void disconnect_checked(WS &ws, bool expect_open)
{
    int fd = ws.get_socket_descriptor();
    bool was = ws.connected();
    if(expect_open && !was) fail("setup", "the socket is not connected");
    if(was && !fd_open(fd)) fail("setup", "the descriptor is not open");
    SockP before = was ? sock_of(fd) : nullptr; uint64_t bad = bad_closes();
    LIBV((ws.disconnect(), 0));
    if(ws.connected()) fail("left-open", "the socket is still connected after disconnect");
    if(was && sock_of(fd) == before) fail("left-open", "disconnect left the descriptor open");
    if(bad_closes() != bad) fail("double-close", "disconnect closed a descriptor that was not open");
    int again = 1 + (int)wl(2), d = wchance(0.7) ? decoy() : -1; // the number may belong to somebody else by now
    while(again--)
    {
        uint64_t sys = syscalls_of(self());
        LIBV((ws.disconnect(), 0));
        if(bad_closes() != bad || decoy_kills()) fail("double-close", "disconnecting again closed something");
        if(syscalls_of(self()) != sys) fail("not-idle", "disconnecting again without a connection did %llu system calls", (unsigned long long)(syscalls_of(self()) - sys));
        if(ws.connected()) fail("left-open", "connected after a second disconnect");
    }
    if(d >= 0) decoy_close(d);
}
struct Party { std::string name; std::vector<Frame> tx; int to_send = 0; bool client = false; };
template<class F> int send_some(WS &ws, const std::vector<Frame> &fr, bool must)
{
    int n = 0;
    for(auto &w : fr)
    {
        F f; fill(f, w); St s = LIB(ws.send(f));
        if(s != St::Success) { if(must) fail("setup", "sending a frame failed with %s", sname(s)); break; }
        ++n;
        if(wchance(0.2)) sleep_ns((ns)wl(30) * 10 * MS);
    }
    return n;
}
std::vector<Frame> frames(uint64_t id, int max)
{
    std::vector<Frame> v;
    for(int i = (int)wl(max + 1); i > 0; --i) v.push_back(make_frame(id + i, wchance(0.2) ? 0 : wsize(wchance(0.1) ? 20000 : 300)));
    return v;
}
typedef std::pair<Fault, double> FR;
void faults(int rough)
{
    swarm({FR{F_RECV_EINTR, 0.2}, FR{F_SEND_EINTR, 0.25}, FR{F_SHORT_WRITE, 0.3}, FR{F_SHORT_READ, 0.3}, FR{F_SEGMENT, 0.4}, FR{F_DELAY, 0.05}, FR{F_STALL, 0.02}, FR{F_CPU_STALL, 0.01},
           FR{F_RESET, rough ? 0.05 : 0}, FR{F_SEND_FAIL, rough ? 0.1 : 0}});
}
// Handshake without disturbances, so that the run starts with a connection.
void connect_ws(fr::TcpListener &l, WS &cl, WS &sv, const char *port)
{
    l.set_inet_version(fr::Socket::IP::v4);
    if(l.listen(port) != St::Success) fail("setup", "listen");
    WS *pc = &cl; std::string prt = port;
    int t = spawn("connect", [pc, prt] { St s = pc->connect("10.0.0.1", prt, std::chrono::seconds(60)); if(s != St::Success) fail("setup", "connect: %s", sname(s)); });
    St s = l.accept(sv);
    if(s != St::Success) fail("setup", "accept: %s", sname(s));
    join(t);
}
// the far end is the library: frames, the close frame, the end of the stream
template<class F> void drain(WS &ws, const std::vector<Frame> &want, bool exact, bool reply, int mode)
{
    size_t got = 0; int idles = 0;
    for(;;)
    {
        F f; St s = LIB(ws.receive(f));
        if(idle(s)) { if(mode == 0) fail("status", "%s on a blocking socket", sname(s)); if(++idles > 80) { if(exact) fail("no-close", "no close frame arrived"); break; } backoff(idles); continue; }
        idles = 0;
        if(s != St::Success)
        {
            if(exact) fail("no-close", "receiving ended with %s after %zu of %zu frames and no close frame", sname(s), got, want.size());
            break;
        }
        if(got < want.size())
        {
            std::string d = same_frame(f, want[got]);
            if(!d.empty() && exact) fail("order", "frame %zu before the close frame: %s", got, d.c_str());
            ++got; continue;
        }
        if(!exact && (int)f.get_opcode() != 8) break;
        if((int)f.get_opcode() != 8) fail("no-close", "a frame with opcode %d arrived where the close frame was due", (int)f.get_opcode());
        if(!f.is_final()) fail("no-close", "the close frame is not final");
        probe("close frame received by the library"); nontrivial();
        if(reply) break;
        F g; int k = 0;
        while(idle(s = LIB(ws.receive(g)))) { if(++k > 80) fail("left-open", "the stream does not end after the close frame"); backoff(k); }
        if(s == St::Success) fail("extra", "something follows the close frame (opcode %d)", (int)g.get_opcode());
        if(exact && s != St::Disconnected) fail("status", "the end of the stream after a close frame was reported as %s", sname(s));
        break;
    }
}
void both_run()
{
    fr::TcpListener l; WS cl, sv;
    int rough = wchance(0.3);
    bool by_client = wchance(0.5), cross = wchance(0.25);
    next_connect_cap(cross ? 200000 : (size_t[]){0, 1, 5, 700}[wl(4)]); // two sides that close without reading need room for what they send
    connect_ws(l, cl, sv, "8090");
    WS &d = by_client ? cl : sv, &o = by_client ? sv : cl;
    std::vector<Frame> mine = frames(3000, 4);
    int dm = (int)wl(3), om = (int)wl(3);
    if(dm == 1) d.set_blocking(false);
    if(om == 1) o.set_blocking(false); else if(om == 2) o.set_receive_timeout(50 + wl(3000));
    if(dm == 2) d.set_receive_timeout(50 + wl(3000));
    faults(rough);
    note("%s disconnects after %zu frames%s%s", by_client ? "client" : "server", mine.size(), cross ? ", both at once" : "", rough ? ", rough" : "");
    WS *po = &o; auto *pm = &mine; bool bc = by_client; int omode = om;
    // with both sides closing at once a reset may swallow what is still unread, so only the closing itself is judged then
    int t = spawn("other", [po, pm, bc, rough, cross, omode] {
        if(cross) { if(wchance(0.5)) sleep_ns((ns)wl(40) * 5 * MS); if(wchance(0.5)) { if(bc) drain<fr::ServerWebFrame>(*po, *pm, false, true, omode); else drain<fr::ClientWebFrame>(*po, *pm, false, true, omode); } disconnect_checked(*po, true); return; }
        bool reply = wchance(0.4);
        // a timeout in the middle of a frame (possible with delays) ends the exchange
        bool exact = !rough && omode != 2;
        if(bc) drain<fr::ServerWebFrame>(*po, *pm, exact, reply, omode); else drain<fr::ClientWebFrame>(*po, *pm, exact, reply, omode);
        if(omode == 2 || rough) give_up(*po);
        disconnect_checked(*po, true);
    });
    if(by_client) send_some<fr::ClientWebFrame>(d, mine, !rough && !cross && om != 2); else send_some<fr::ServerWebFrame>(d, mine, !rough && !cross && om != 2);
    if(wchance(0.3)) sleep_ns((ns)wl(50) * 10 * MS);
    disconnect_checked(d, true);
    join(t);
    l.close_socket();
    if(open_fds() != 0) fail("left-open", "%d descriptors are still open", open_fds());
    nontrivial();
}
// the far end is scripted and judges the bytes
void wire_run()
{
    bool client = wchance(0.5); // role of the library
    fr::TcpListener l; WS ws; SockP peer; int rough = (int)pick_biased(W, 5, 0.5); // 1 faults, 2 peer closed first, 3 peer reset first, 4 peer stops reading with a send timeout
    next_connect_cap((size_t[]){0, 1, 5, 700}[wl(4)]);
    SockP *pp = &peer;
    if(client)
    {
        SockP xl = xlisten("10.9.0.4", 8091);
        int t = spawn("peer", [pp, xl] {
            *pp = xaccept(xl, now() + 100 * SEC);
            std::string h = x_read_header(*pp, now() + 100 * SEC);
            std::string a = "HTTP/1.1 101 Ok\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + x_accept(x_header(h, "sec-websocket-key")) + "\r\n\r\n";
            xsend(*pp, a.data(), a.size());
        });
        St s = ws.connect("10.9.0.4", "8091", std::chrono::seconds(60));
        if(s != St::Success) fail("setup", "connect: %s", sname(s));
        join(t); xclose(xl);
    }
    else
    {
        l.set_inet_version(fr::Socket::IP::v4);
        if(l.listen("8092") != St::Success) fail("setup", "listen");
        int t = spawn("peer", [pp] {
            *pp = xconnect("10.0.0.1", 8092, "10.7.0.9", now() + 100 * SEC);
            std::string a = "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
            xsend(*pp, a.data(), a.size());
            x_read_header(*pp, now() + 100 * SEC);
        });
        St s = l.accept(ws);
        if(s != St::Success) fail("setup", "accept: %s", sname(s));
        join(t);
    }
    std::vector<Frame> mine = frames(3100, 4);
    if(rough == 4) ws.set_send_timeout(200 + wl(2000));
    else if(wchance(0.3)) ws.set_blocking(false);
    faults(rough == 1);
    note("%s disconnects after %zu frames, roughness %d", client ? "client" : "server", mine.size(), rough);
    struct { std::vector<Frame> *m; bool client; int rough; SockP p; bool gone = false; } sh{&mine, client, rough, peer}; auto *h = &sh;
    int t = spawn("judge", [h] {
        if(h->rough == 2) { xclose(h->p); h->gone = true; return; }
        if(h->rough == 3) { xreset(h->p); h->gone = true; return; }
        if(h->rough == 4) return;
        std::string b; std::vector<char> tmp(30000); size_t at = 0; size_t k = 0; bool closed = false, err = false;
        for(;;)
        {
            WsDec d; if(!h->rough) d = ws_decode(b, at); // after a send that failed half way the stream makes no sense
            if(d.ok)
            {
                if(d.masked != h->client) fail("mask", "a %s sent a frame that is %smasked (opcode %d)", h->client ? "client" : "server", d.masked ? "" : "not ", d.opcode);
                if(closed) fail("extra", "a frame with opcode %d follows the close frame", d.opcode);
                if(k < h->m->size()) { if(d.payload != (*h->m)[k].payload || d.opcode != (*h->m)[k].opcode) fail("order", "frame %zu is not the one sent", k); ++k; }
                else { if(d.opcode != 8 || !d.fin || d.rsv) fail("no-close", "the last frame has opcode %d final %d", d.opcode, d.fin); closed = true; if(d.payload.size() == 1) fail("no-close", "the close frame has a payload of one byte"); }
                at += d.used; continue;
            }
            bool to = false; size_t n = xrecv(h->p, tmp.data(), tmp.size(), now() + 900 * SEC, &to, &err);
            if(!n) { if(to) fail("left-open", "the connection does not end"); break; }
            b.append(tmp.data(), n);
        }
        if(h->rough) return;
        if(err) fail("status", "the connection was reset instead of closed");
        if(!closed) fail("no-close", "the stream ended without a close frame after %zu of %zu frames", k, h->m->size());
        if(at != b.size()) fail("no-close", "the stream ends with %zu bytes of an incomplete frame", b.size() - at);
        probe("close frame judged"); nontrivial();
    });
    if(rough >= 2 && rough < 4 && wchance(0.6)) join(t);
    if(client) send_some<fr::ClientWebFrame>(ws, mine, !rough); else send_some<fr::ServerWebFrame>(ws, mine, !rough);
    if(rough == 4)
    { // fill the pipe
        std::string junk(5000, 'x'); size_t sent = 0; int k = 0;
        while(ws.send_raw(junk.data(), junk.size(), sent = 0) == St::Success && ++k < 100) {}
        probe("disconnect with a full pipe");
    }
    disconnect_checked(ws, true);
    if(rough) nontrivial();
    join(t);
    xclose(peer);
    l.close_socket();
    if(open_fds() != 0) fail("left-open", "%d descriptors are still open", open_fds());
}
// histories: connect, disconnect, again; never connected; failed connects
void history_run()
{
    fr::TcpListener l; l.set_inet_version(fr::Socket::IP::v4);
    if(l.listen("8093") != St::Success) fail("setup", "listen");
    faults(wchance(0.3));
    {
        WS ws;
        for(int i = 1 + (int)wl(4); i > 0; --i)
        {
            int what = (int)wl(4);
            if(what == 0) { int b = open_fds(); LIBV((ws.disconnect(), 0)); if(open_fds() > b || bad_closes() || decoy_kills()) fail("double-close", "disconnect without a connection"); }
            else if(what == 1)
            {
                St s = LIB(ws.connect("10.9.0.77", "1", std::chrono::seconds(2))); // nobody there
                if(s == St::Success) fail("setup", "connected to nobody");
                LIBV((ws.disconnect(), 0));
                if(ws.connected()) fail("left-open", "connected");
            }
            else
            {
                WS sv; WS *ps = &sv; fr::TcpListener *pl = &l;
                int t = spawn("server", [ps, pl] {
                    try { if(LIB(pl->accept(*ps)) != St::Success) return; } catch(const std::runtime_error &) { LIBV((ps->disconnect(), 0)); return; }
                    fr::ServerWebFrame f; St s; int k = 0;
                    do { s = LIB(ps->receive(f)); } while(s == St::Success && (int)f.get_opcode() != 8 && ++k < 10);
                    LIBV((ps->disconnect(), 0));
                });
                St s = LIB(ws.connect("10.0.0.1", "8093", std::chrono::seconds(60)));
                if(s == St::Success && what == 3) { fr::ClientWebFrame f; f.set_payload("x"); LIBV(ws.send(f)); }
                if(s == St::Success) disconnect_checked(ws, true); else LIBV((ws.disconnect(), 0));
                join(t);
                if(sv.connected()) fail("left-open", "the server side is still connected after its disconnect");
            }
        }
        if(wchance(0.5)) LIBV((ws.disconnect(), 0));
    }
    l.close_socket();
    if(bad_closes()) fail("double-close", "%llu closes of descriptors that were not open", (unsigned long long)bad_closes());
    if(open_fds() != 0) fail("left-open", "%d descriptors are still open", open_fds());
    nontrivial();
}
}

SCENARIO(S10)
{
    sched_mode();
    switch(wl(5)) { case 0: case 1: both_run(); break; case 2: case 3: wire_run(); break; case 4: history_run(); break; }
}
