// S13: every descriptor is released exactly once, through any history of lifecycle operations and failures.
#include "tls.h"
#include "wsutil.h"
#include <frnetlib/SocketSelector.h>
#include <unistd.h>
#include <set>

namespace {
typedef fr::WebSocket<fr::TcpSocket> WSock;
struct Sk { std::shared_ptr<fr::Socket> s; int kind; SockP peer; }; // 0 tcp, 1 tls, 2 websocket
struct Ls { std::unique_ptr<fr::TcpListener> t; std::unique_ptr<fr::SSLListener> x; int port; fr::Listener &l() { if(t) return *t; return *x; } };

struct Run
{
    std::vector<Sk> sk; std::vector<std::weak_ptr<fr::Socket>> all; std::vector<Ls> ls; std::vector<std::unique_ptr<fr::SocketSelector>> sel; std::vector<int> decoys, owned; // owned: descriptors taken over by the application
    std::shared_ptr<fr::SSLContext> cc, sc; std::vector<SockP> outside; SockP far, silent; bool tls; std::string last = "start";

    int fd(fr::Socket &s) { return s.get_socket_descriptor(); }
    // the books balance: what is open is exactly what somebody reports as its own
    void audit()
    {
        if(bad_closes()) fail("double-close", "a descriptor number that was not open was closed (after %s)", last.c_str());
        if(decoy_kills()) fail("foreign-close", "a descriptor that belongs to somebody else was closed (after %s)", last.c_str());
        std::set<int> own; size_t n = 0;
        auto add = [&](int f, const char *what) {
            if(f < 0) return;
            if(!fd_open(f)) fail("stale", "a %s reports descriptor %d, which is not open (after %s)", what, f, last.c_str());
            if(!own.insert(f).second) fail("shared", "descriptor %d is reported by two owners, one of them a %s (after %s)", f, what, last.c_str());
            ++n;
        };
        for(auto &w : all) if(auto s = w.lock()) { add(fd(*s), "socket"); if(s->connected() != (fd(*s) >= 0)) fail("stale", "connected() disagrees with the descriptor (after %s)", last.c_str()); }
        for(auto &l : ls) add(l.l().get_socket_descriptor(), "listener");
        for(int d : decoys) add(d, "decoy");
        for(int d : owned) add(d, "application");
        n += sel.size();
        if(open_fds() != (int)n) fail(open_fds() > (int)n ? "leak" : "foreign-close", "%d descriptors are open, %zu are accounted for (after %s)", open_fds(), n, last.c_str());
        if(live_addrinfo()) fail("leak", "%d address lists were not freed (after %s)", live_addrinfo(), last.c_str());
    }
    std::shared_ptr<fr::SSLSocket> tls_socket() { auto s = std::make_shared<fr::SSLSocket>(cc); if(wchance(0.4)) s->verify_certificates(false); return s; }
    void new_socket()
    {
        Sk s; s.kind = tls && wchance(0.4) ? 1 : (int)wl(3) == 2 ? 2 : 0;
        s.s = s.kind == 1 ? std::static_pointer_cast<fr::Socket>(tls_socket()) : s.kind == 2 ? std::static_pointer_cast<fr::Socket>(std::make_shared<WSock>()) : std::make_shared<fr::TcpSocket>();
        s.s->set_receive_timeout(20000);
        if(wchance(0.5)) s.s->set_inet_version(wchance(0.8) ? fr::Socket::IP::v4 : fr::Socket::IP::v6);
        put(s);
    }
    void put(Sk &s) { sk.push_back(s); all.push_back(s.s); }
    void new_listener()
    {
        Ls l; l.port = 9500 + (int)wl(4);
        if(tls && wchance(0.4)) { l.x = tls_listener(sc, "good"); l.port += 10; } else l.t = std::make_unique<fr::TcpListener>();
        l.l().set_inet_version(wchance(0.6) ? fr::Socket::IP::v4 : wchance(0.5) ? fr::Socket::IP::v6 : fr::Socket::IP::any);
        ls.push_back(std::move(l));
    }
    // the other end of an outgoing connection of any kind: answers what is needed, or not
    void far_end(SockP *out, int kind)
    {
        SockP p = xaccept(far, now() + 40 * SEC);
        if(!p) return;
        *out = p;
        if(kind == 0) return;
        if(kind == 1) { if(wchance(0.5)) xsend(p, "HTTP/1.0 400 what\r\n\r\n", 21, now() + SEC); sleep_ns((ns)wl(3) * 100 * MS); wchance(0.5) ? xclose(p) : xreset(p); return; }
        std::string h = x_read_header(p, now() + 30 * SEC);
        switch(wl(4))
        {
            case 0: case 1: { std::string a = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + x_accept(x_header(h, "sec-websocket-key")) + "\r\n\r\n"; xsend(p, a.data(), a.size(), now() + SEC); break; }
            case 2: { std::string a = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"; xsend(p, a.data(), a.size(), now() + SEC); break; }
            default: wchance(0.5) ? xclose(p) : xreset(p);
        }
    }
    void connect(Sk &s)
    {
        static const char *names[] = {"10.9.0.1", "many.test", "refused.test", "hole.test", "nowhere.test", "server.test"};
        const char *to = names[wl(6)];
        if(s.kind != 0) to = wchance(0.3) ? "refused.test" : wchance(0.5) ? "far-away-server.test" : "10.9.0.1";
        last = std::string("connect to ") + to;
        SockP pr; auto *pp = &pr; int kind = s.kind;
        // whatever still waits for an answer from before is dropped
        while(SockP q = xaccept(far, now())) xclose(q);
        int t = spawn("far", [this, pp, kind] { far_end(pp, kind); });
        bool was_blocking = s.s->get_blocking(); (void)was_blocking;
        St st;
        int tmo = 1 + (int)wl(3); bool oom = false;
        try { sim::Lib lib; st = s.s->connect(to, "9600", std::chrono::seconds(tmo)); } catch(const std::bad_alloc &) { st = St::Error; oom = true; probe("out of memory in connect"); }
        last += oom ? " (out of memory)" : st == St::Success ? " (done)" : std::string(" (") + sname(st) + ")";
        join(t);
        if(pr) outside.push_back(pr);
        probe(st == St::Success ? "connected" : "connect failed");
    }
    void tls_meet(Ls &l, Sk &s) // both ends in the library
    {
        Sk c; c.kind = l.x ? 1 : 0; c.s = l.x ? std::static_pointer_cast<fr::Socket>(tls_socket()) : std::make_shared<fr::TcpSocket>(); c.s->set_receive_timeout(20000);
        int port = l.port; auto *cp = c.s.get(); bool v6 = false; (void)v6;
        int t = spawn("client", [cp, port] { try { sim::Lib lib; cp->connect("server.test", std::to_string(port), std::chrono::seconds(5)); } catch(const std::bad_alloc &) { cp->disconnect(); } });
        St st = St::Unknown;
        // the acceptor must not wait for a client that could not come: the fault may hit the connect
        if(!block_until([&] { return fd_ready(l.l().get_socket_descriptor()) || finished(t); }, now() + 60 * SEC) || !fd_ready(l.l().get_socket_descriptor())) { join(t); last = "connect to a listener (failed)"; put(c); return; }
        try { sim::Lib lib; st = l.l().accept(*s.s); } catch(const std::runtime_error &) { } catch(const std::bad_alloc &) { probe("out of memory in accept"); }
        // a client whose handshake partner is gone is told so
        if(st != St::Success) { if(l.x) { l.l().close_socket(); } else { l.l().close_socket(); } }
        join(t);
        last = std::string("accept with a library client: ") + sname(st);
        if(st == St::Success) probe(l.x ? "TLS accepted" : "TCP accepted");
        put(c);
    }
    void accept(Ls &l, Sk &s)
    {
        if((bool)l.x != (s.kind == 1)) return;
        if(!l.l().connected() || !sock_of(l.l().get_socket_descriptor()) ) return;
        if(wchance(0.4) && s.kind != 2) { tls_meet(l, s); return; }
        int n = 0; SockP p;
        int t = spawn("knock", [&] { p = xconnect("10.0.0.1", (uint16_t)l.port, "10.8.0.1", now() + 10 * SEC); if(!p) return;
            if(s.kind == 2) { std::string h = wchance(0.7) ? "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: abc\r\n\r\n" : "BLAH\r\n\r\n"; xsend(p, h.data(), h.size(), now() + SEC); if(wchance(0.2)) xclose(p); }
            if(s.kind == 1) { if(wchance(0.5)) xsend(p, "\x16\x03\x01\x00\x05hello", 10, now() + SEC); wchance(0.5) ? xclose(p) : xreset(p); } });
        block_until([&] { return fd_ready(l.l().get_socket_descriptor()) || finished(t); }, now() + 30 * SEC);
        if(!fd_ready(l.l().get_socket_descriptor())) { join(t); last = "accept (nobody came)"; return; }
        St st = St::Unknown; bool threw = false;
        try { sim::Lib lib; st = l.l().accept(*s.s); } catch(const std::runtime_error &) { threw = true; } catch(const std::bad_alloc &) { threw = true; probe("out of memory in accept"); }
        join(t); (void)n;
        if(p) outside.push_back(p);
        last = std::string("accept: ") + (threw ? "refused by the websocket" : sname(st));
        probe(threw ? "handshake refused" : st == St::Success ? "accepted" : "accept failed");
    }
};
}

SCENARIO(S13)
{
    sched_mode();
    if(wchance(0.15)) fd_base(wchance(0.5) ? 250 : 1018);
    Run r; r.tls = wchance(0.35);
    if(r.tls) { r.cc = tls_context(); r.sc = tls_context(false); }
    dns("server.test", {Addr{"10.0.0.1"}}); dns("far-away-server.test", {Addr{"10.9.0.1"}});
    dns("many.test", {Addr{"10.9.1.1", Refuse}, Addr{"10.9.1.2", Blackhole}, Addr{"fd00::9", UnreachNow}, Addr{"10.9.1.3", UnreachLater}, Addr{"10.9.0.1"}});
    dns("refused.test", {Addr{"10.9.1.1", Refuse}, Addr{"10.9.1.4", UnreachNow}});
    dns("hole.test", {Addr{"10.9.1.2", Blackhole}, Addr{"10.9.1.1", Refuse}});
    r.far = xlisten("10.9.0.1", 9600);
    int taken = wchance(0.3) ? 9501 : 0;
    SockP blocker; if(taken) blocker = xlisten("10.7.0.1", 9501);
    // something to begin with, made without faults
    if(wchance(0.8))
    {
        int a = 1 + (int)wl(4); for(int i = 0; i < a; ++i) r.new_socket();
        int b = 1 + (int)wl(3); for(int i = 0; i < b; ++i) { r.new_listener(); if(wchance(0.8)) r.ls.back().l().listen(std::to_string(r.ls.back().port)); }
        if(wchance(0.6)) r.sel.push_back(std::make_unique<fr::SocketSelector>());
        r.audit();
    }
    swarm({{F_SOCKET_FAIL, 0.3}, {F_SETSOCKOPT_FAIL, 0.3}, {F_FCNTL_FAIL, 0.3}, {F_GETSOCKOPT_FAIL, 0.3}, {F_CONNECT_FAIL, 0.3}, {F_SELECT_EINTR, 0.3}, {F_SELECT_FAIL, 0.3}, {F_ACCEPT_FAIL, 0.4},
           {F_BIND_FAIL, 0.3}, {F_LISTEN_FAIL, 0.4}, {F_EPOLL_CREATE_FAIL, 0.4}, {F_EPOLL_CTL_FAIL, 0.3}, {F_DNS_FAIL, 0.3}, {F_NAMEINFO_FAIL, 0.3}, {F_PEERNAME_FAIL, 0.3},
           {F_RECV_FAIL, 0.05}, {F_SEND_FAIL, 0.05}, {F_RESET, 0.02}, {F_CPU_STALL, 0.005}, {F_ALLOC_FAIL, 1.0}});
    double oom = deep() ? rate(F_ALLOC_FAIL) : 0; enable(F_ALLOC_FAIL, 0);
    int steps = 6 + (int)wl(r.tls ? 40 : 80);
    for(int k = 0; k < steps; ++k)
    {
        r.last = "?";
        int op = (int)wl(19);
        size_t ns_ = r.sk.size(), nl = r.ls.size();
        if(op < 6 && !ns_) op = 14;
        if(op >= 6 && op < 10 && !nl) op = 15;
        // somewhere within some operations, memory runs out: early, later or late
        if(oom > 0) { static const double at[] = {0, 0, 0.3, 0.1, 0.01}; enable(F_ALLOC_FAIL, at[wl(5)]); }
        try { switch(op)
        {
            case 0: case 1: r.connect(r.sk[wl((uint32_t)ns_)]); break;
            case 2: { auto &s = r.sk[wl((uint32_t)ns_)]; r.last = "disconnect"; if(s.kind == 1 || wchance(0.7)) LIBV((s.s->disconnect(), 0)); else { r.last = "shutdown"; LIBV((s.s->shutdown(), 0)); } break; }
            case 3: { size_t i = wl((uint32_t)ns_); r.last = "destruction of a socket"; { sim::Lib lib; r.sk.erase(r.sk.begin() + i); } break; }
            case 4: // the descriptor changes hands
            {
                auto &s = r.sk[wl((uint32_t)ns_)];
                if(s.kind != 0) break;
                if(s.s->connected() && wchance(0.6)) { int d = s.s->get_socket_descriptor(); r.last = "releasing the descriptor"; LIBV((s.s->set_descriptor(nullptr), 0)); r.owned.push_back(d); probe("descriptor released"); }
                else if(!r.owned.empty()) { size_t i = wl((uint32_t)r.owned.size()); int d = r.owned[i]; r.owned.erase(r.owned.begin() + i); r.last = s.s->connected() ? "replacing the descriptor" : "taking a descriptor"; LIBV((s.s->set_descriptor(&d), 0)); probe("descriptor taken"); if(s.s->get_socket_descriptor() != d) fail("not-taken", "a socket given a descriptor reports another one"); }
                break;
            }
            case 5: { auto &s = r.sk[wl((uint32_t)ns_)]; if(!s.s->connected()) break; r.last = "changing modes"; if(s.kind != 1) LIBV(s.s->set_blocking(wchance(0.5))); if(wchance(0.3)) s.s->set_receive_timeout(200 + wl(500)); break; }
            case 6: { auto &l = r.ls[wl((uint32_t)nl)]; r.last = l.l().connected() ? "listening again" : "listen"; St st = LIB(l.l().listen(std::to_string(l.port))); r.last += std::string(": ") + sname(st); probe(st == St::Success ? "listening" : "listen failed"); if((st == St::Success) != l.l().connected()) fail("stale", "listen returned %s but connected() is %d", sname(st), l.l().connected()); break; }
            case 7: { auto &l = r.ls[wl((uint32_t)nl)]; if(wchance(0.5)) { r.last = "closing a listener"; LIBV((l.l().close_socket(), 0)); } else { size_t i = &l - &r.ls[0]; r.last = "destruction of a listener"; sim::Lib lib; r.ls.erase(r.ls.begin() + i); } break; }
            case 8: case 17: case 18: // prefer a pair that fits
            {
                if(!nl || !ns_) break;
                size_t li = wl((uint32_t)nl), si = wl((uint32_t)ns_);
                for(size_t j = 0; j < ns_ && (bool)r.ls[li].x != (r.sk[si].kind == 1); ++j) si = (si + 1) % ns_;
                r.accept(r.ls[li], r.sk[si]); break;
            }
            case 9: // moving, and handing over, a listening socket
            {
                auto &l = r.ls[wl((uint32_t)nl)];
                if(!l.t) break;
                if(wchance(0.7)) { r.last = "moving a listener"; int d = l.t->get_socket_descriptor(); sim::Lib lib; auto m = std::make_unique<fr::TcpListener>(std::move(*l.t)); if(m->get_socket_descriptor() != d) fail("move", "the moved-to listener has another descriptor"); if(wchance(0.3)) { l.t->close_socket(); l.t->shutdown(); } l.t = std::move(m); probe("listener moved"); }
                else if(l.t->connected()) { r.last = "releasing a listening descriptor"; int d = l.t->get_socket_descriptor(); LIBV((l.t->set_socket_descriptor(-1), 0)); auto m = std::make_unique<fr::TcpListener>(); if(wchance(0.5)) { m->set_socket_descriptor(d); l.t = std::move(m); } else r.owned.push_back(d); }
                break;
            }
            case 10: { r.last = "creating a selector"; try { sim::Lib lib; r.sel.push_back(std::make_unique<fr::SocketSelector>()); } catch(const std::runtime_error &) { r.last = "failing to create a selector"; probe("selector creation failed"); } break; }
            case 11: if(!r.sel.empty()) { r.last = "destruction of a selector"; sim::Lib lib; r.sel.erase(r.sel.begin() + wl((uint32_t)r.sel.size())); } break;
            case 12: if(!r.sel.empty() && ns_) { r.last = "selector add/remove/wait"; auto &se = *r.sel[wl((uint32_t)r.sel.size())]; auto s = r.sk[wl((uint32_t)ns_)].s; for(auto &o : r.sk) if(!s->connected()) s = o.s; try { sim::Lib lib; switch(wl(3)) { case 0: se.add(s, nullptr); break; case 1: se.remove(s); break; default: se.wait(std::chrono::milliseconds(0)); } } catch(const std::exception &) {} } break;
            case 13: if(r.decoys.size() < 12 && wchance(0.7)) r.decoys.push_back(decoy()); else if(!r.decoys.empty()) { size_t i = wl((uint32_t)r.decoys.size()); decoy_close(r.decoys[i]); r.decoys.erase(r.decoys.begin() + i); } break;
            case 14: if(ns_ < 8) { r.last = "creating a socket"; r.new_socket(); } break;
            case 15: if(nl < 5) { r.last = "creating a listener"; r.new_listener(); } break;
            case 16: if(!r.owned.empty()) { size_t i = wl((uint32_t)r.owned.size()); ::close(r.owned[i]); r.owned.erase(r.owned.begin() + i); } break;
        } } catch(const std::bad_alloc &) { r.last += " (out of memory)"; probe("out of memory"); }
        enable(F_ALLOC_FAIL, 0);
        r.audit();
        nontrivial();
    }
    r.last = "destroying everything";
    {
        sim::Lib lib;
        // selectors hold references to sockets: either may go first
        if(wchance(0.5)) r.sel.clear();
        r.sk.clear(); r.ls.clear(); r.sel.clear();
    }
    r.audit();
    for(int d : r.owned) ::close(d);
    for(int d : r.decoys) decoy_close(d);
    if(open_fds()) fail("leak", "%d descriptors are open at the end", open_fds());
}
