// S14: connecting through lists of addresses which accept, refuse, stay silent, are slow or unreachable.
#include "tls.h"
#include "wsutil.h"

namespace {
typedef fr::WebSocket<fr::TcpSocket> WSock;
struct Target { std::string name; std::vector<Addr> addrs; bool resolves = true; };
// one connection served: echoes what arrives until the client is done
void serve(SockP p, bool ws)
{
    if(ws)
    {
        std::string h = x_read_header(p, now() + 200 * SEC);
        if(h.empty()) { xclose(p); return; }
        std::string a = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + x_accept(x_header(h, "sec-websocket-key")) + "\r\n\r\n";
        xsend(p, a.data(), a.size(), now() + 100 * SEC);
    }
    char b[256]; size_t k;
    while((k = xrecv(p, b, sizeof b, now() + 3000 * SEC)) > 0) if(!xsend(p, b, k, now() + 100 * SEC)) break;
    xclose(p);
}
// a peer that takes the connection, and then leaves the handshake unanswered
void unanswered(fr::Socket &s, SockP l, bool tls)
{
    static const int tm[] = {100, 1000, 2500, 7000, 30000}; int R = tm[wl(5)]; bool part = wchance(0.3);
    s.set_receive_timeout(R); s.set_inet_version(fr::Socket::IP::any);
    if(s.connected() && wchance(0.5)) LIBV((s.disconnect(), 0));
    SockP p; bool over = false;
    int t = spawn("mute", [&] {
        p = xaccept(l, now() + 100 * SEC); if(!p) return;
        if(part) { std::string d = tls ? std::string("\x16\x03\x03\x00\x50\x02", 6) : "HTTP/1.1 101 Switching"; xsend(p, d.data(), d.size() - wl(3), now() + SEC); }
        block_until([&] { return over; }, now() + 100000 * SEC);
        char b[4000]; bool to = false; ns end = now() + 20 * SEC + stalled(); while(xrecv(p, b, sizeof b, end, &to)) {}
        if(to) fail("half-connected", "the peer of a connect that failed still has its connection");
        xclose(p);
    });
    uint64_t f0 = faults_fired(F_SELECT_FAIL) + faults_fired(F_GETSOCKOPT_FAIL) + faults_fired(F_FCNTL_FAIL) + faults_fired(F_SOCKET_FAIL) + faults_fired(F_CONNECT_FAIL) + faults_fired(F_DNS_FAIL);
    ns t0 = now(), st0 = stalled();
    St r = LIB(s.connect("mute.test", "9700", std::chrono::seconds(10)));
    ns took = now() - t0, stall = stalled() - st0; over = true;
    bool clean = f0 == faults_fired(F_SELECT_FAIL) + faults_fired(F_GETSOCKOPT_FAIL) + faults_fired(F_FCNTL_FAIL) + faults_fired(F_SOCKET_FAIL) + faults_fired(F_CONNECT_FAIL) + faults_fired(F_DNS_FAIL);
    note("unanswered handshake, receive timeout %dms -> %s after %.3fs", R, sname(r), took / 1e9);
    if(r == St::Success) fail("wrong-address", "connect succeeded although the handshake was not answered");
    if(s.connected() || s.get_socket_descriptor() != -1) fail("half-connected", "connect reported %s but the socket claims to be connected", sname(r));
    if(took > (part ? 2 : 1) * R * MS + 10 * MS + 2 * stall) fail("deadline", "a handshake without an answer took %.3fs with a receive timeout of %dms", took / 1e9, R);
    if(clean && took < R * MS) fail("early", "a handshake without an answer was given up after %.3fs with a receive timeout of %dms", took / 1e9, R);
    nontrivial(); probe("unanswered handshake");
    if(!p) if(SockP h = xconnect("10.40.0.1", 9700, "10.7.0.3", now() + SEC)) xclose(h); // it never got that far: releases the server
    join(t);
    s.set_receive_timeout(0);
}
const char *mname(AddrMode m) { static const char *n[] = {"up", "refuses", "silent", "unreachable", "unreachable later", "slow"}; return n[m]; }
}

SCENARIO(S14)
{
    sched_mode();
    int kind = (int)wl(8); kind = kind < 4 ? 0 : kind < 6 ? 2 : kind == 6 ? 1 : 0; // tcp, websocket, tls
    if(wchance(0.15)) fd_base(1010 + (int)wl(40));
    time_limit(200 * 3600 * SEC);
    bool stop = false;
    SockP l4; TlsPair tp; std::vector<int> tasks;
    if(kind == 1)
    {
        tp.cc = tls_context(); tp.sc = tls_context(false); tp.listener = tls_listener(tp.sc); tp.listener->set_inet_version(fr::Socket::IP::v6);
        if(tp.listener->listen("9600") != St::Success) fail("setup", "listen");
        spawn("tls server", [&] {
            while(!stop)
            {
                auto s = std::make_shared<fr::SSLSocket>(tp.sc);
                if(tp.listener->accept(*s) != St::Success) continue;
                char b[256]; size_t g, n;
                while(s->receive_raw(b, sizeof b, g) == St::Success) { n = 0; if(s->send_raw(b, g, n) != St::Success) break; }
            }
        }, true);
    }
    else
    {
        l4 = xlisten("", 9600);
        spawn("server", [&, kind] { while(SockP p = xaccept(l4)) spawn("echo", [p, kind] { serve(p, kind == 2); }, true); }, true);
    }
    std::shared_ptr<fr::Socket> s;
    auto ctx = tp.cc;
    if(kind == 0) s = std::make_shared<fr::TcpSocket>(); else if(kind == 1) s = std::make_shared<fr::SSLSocket>(ctx); else s = std::make_shared<WSock>();
    int base = open_fds();
    swarm({{F_SELECT_EINTR, 0.6}, {F_CONNECT_NOW, 0.5}, {F_CPU_STALL, 0.004}, {F_SOCKET_FAIL, 0.15}, {F_CONNECT_FAIL, 0.15}, {F_SELECT_FAIL, 0.15}, {F_GETSOCKOPT_FAIL, 0.15}, {F_FCNTL_FAIL, 0.1}, {F_DNS_FAIL, 0.1}});
    if(kind == 1) { enable(F_GETSOCKOPT_FAIL, 0); enable(F_FCNTL_FAIL, 0); }
    if(wchance(0.5)) for(Fault f : {F_SOCKET_FAIL, F_CONNECT_FAIL, F_SELECT_FAIL, F_GETSOCKOPT_FAIL, F_FCNTL_FAIL, F_DNS_FAIL}) enable(f, 0);
    int rounds = 1 + (int)wl(4);
    static const int tmo[] = {1, 2, 5, 10, 30, 0, 200, 4000};
    SockP mute = xlisten("10.40.0.1", 9700); dns("mute.test", {Addr{"10.40.0.1"}});
    for(int k = 0; k < rounds; ++k)
    {
        if(kind && wchance(0.3)) { unanswered(*s, mute, kind == 1); continue; }
        Target t; t.name = kind == 1 ? "server.test" : "t" + std::to_string(k) + ".test";
        int T = tmo[wl(wchance(0.2) ? 8 : 6)]; ns lim = std::min<ns>(T ? T : 20, 127) * SEC; // the kernel gives up after 127s
        int ver = (int)wl(4); // 0,1 any, 2 v4, 3 v6
        s->set_inet_version(ver < 2 ? fr::Socket::IP::any : ver == 2 ? fr::Socket::IP::v4 : fr::Socket::IP::v6);
        int n = 1 + (int)wl(5);
        for(int i = 0; i < n; ++i)
        {
            Addr a; bool six = wchance(0.3);
            a.ip = (six ? "fd00::" : "10.20." + std::to_string(k) + ".") + std::to_string(k * 10 + i + 1);
            a.mode = (AddrMode)wl(6);
            // slow ones are clearly within, or clearly beyond, the time allowed
            if(a.mode == Slow) a.delay = wchance(0.5) ? lim / 4 + (ns)wl(1000) * (lim / 4000) : lim * 2 + (ns)wl(1000) * (lim / 1000);
            t.addrs.push_back(a);
        }
        t.resolves = !wchance(0.05);
        if(t.resolves) dns(t.name, t.addrs); else dns_error(t.name, EAI_NONAME);
        int good = 0, usable = 0; bool v6ok = false;
        for(auto &a : t.addrs)
        {
            bool six = a.ip.find(':') != std::string::npos;
            if((ver == 2 && six) || (ver == 3 && !six)) continue;
            ++usable;
            if(a.mode == Up || (a.mode == Slow && a.delay < lim)) { ++good; v6ok |= six; }
        }
        if(!t.resolves) good = 0;
        if(s->connected() && wchance(0.5)) LIBV((s->disconnect(), 0));
        bool again = s->connected();
        uint64_t lost0 = 0; for(Fault f : {F_SOCKET_FAIL, F_CONNECT_FAIL, F_SELECT_FAIL, F_GETSOCKOPT_FAIL, F_FCNTL_FAIL, F_DNS_FAIL}) lost0 += faults_fired(f);
        uint64_t whole0 = faults_fired(F_FCNTL_FAIL) + faults_fired(F_DNS_FAIL), eintr0 = faults_fired(F_SELECT_EINTR);
        ns t0 = now(), st0 = stalled();
        St r; { sim::Lib lib; r = s->connect(t.name, "9600", std::chrono::seconds(T)); }
        ns took = now() - t0, stall = stalled() - st0;
        uint64_t lost = 0; for(Fault f : {F_SOCKET_FAIL, F_CONNECT_FAIL, F_SELECT_FAIL, F_GETSOCKOPT_FAIL, F_FCNTL_FAIL, F_DNS_FAIL}) lost += faults_fired(f);
        lost -= lost0; uint64_t whole = faults_fired(F_FCNTL_FAIL) + faults_fired(F_DNS_FAIL) - whole0;
        std::string desc; for(auto &a : t.addrs) desc += a.ip + " " + mname(a.mode) + "; ";
        note("%s timeout %ds: %s-> %s after %.2fs, %llu failing calls", t.name.c_str(), T, desc.c_str(), sname(r), took / 1e9, (unsigned long long)lost);
        nontrivial();
        if(took > usable * lim + stall + 5 * SEC) fail("deadline", "connecting to %s took %.2fs with a timeout of %ds", desc.c_str(), took / 1e9, T);
        int fd = s->get_socket_descriptor();
        if(r == St::Success)
        {
            probe("connected"); if(again) probe("reconnected"); if(faults_fired(F_SELECT_EINTR) != eintr0) probe("connected although interrupted");
            if(!s->connected() || fd < 0 || !fd_open(fd)) fail("not-connected", "connect reported success but the socket isn't connected");
            std::string ip = xpeer_ip(sock_of(fd)); const Addr *at = nullptr;
            for(auto &a : t.addrs) if(a.ip == ip) at = &a;
            if(!at || (at->mode != Up && at->mode != Slow)) fail("wrong-address", "connected to %s, which does not accept", ip.c_str());
            bool six = ip.find(':') != std::string::npos;
            if((ver == 2 && six) || (ver == 3 && !six)) fail("wrong-version", "connected to %s with the other IP version asked for", ip.c_str());
            if(fd_nonblocking(fd) || !s->get_blocking()) fail("mode", "a freshly connected socket isn't in blocking mode");
            if(s->get_remote_address().find(t.name) == std::string::npos) fail("label", "the remote address is '%s'", s->get_remote_address().c_str());
            if(open_fds() > base + (kind == 1 ? 2 : 1) + 1) fail("leak", "%d descriptors are open after connecting", open_fds() - base);
            // it works both ways
            double keep = rate(F_SELECT_EINTR); (void)keep;
            std::string m = patstr(50 + k, 0, 1 + wl(200)), b(m.size(), 0); size_t sent = 0;
            if(LIB(s->send_raw(m.data(), m.size(), sent)) != St::Success) fail("unusable", "sending on a fresh connection failed");
            if(LIB(s->receive_all(&b[0], b.size())) != St::Success || b != m) fail("unusable", "receiving on a fresh connection failed");
        }
        else
        {
            probe("failed");
            if(s->connected() || fd != -1) fail("half-connected", "connect reported %s but the socket claims to be connected", sname(r));
            if(kind != 1 && open_fds() != base) fail("leak", "%d descriptors are left after a failed connect", open_fds() - base);
            char b; size_t g = 9; St e = LIB(s->receive_raw(&b, 1, g));
            if(e == St::Success || idle(e)) fail("half-connected", "receiving on an unconnected socket returns %s", sname(e));
            if((uint64_t)good > lost && !whole && stall < lim / 4)
                fail("gave-up", "connecting to %s (timeout %ds) failed with %s although %d of the addresses accept; %llu calls failed on the way", desc.c_str(), T, sname(r), good, (unsigned long long)lost);
        }
        if(!good && r == St::Success && stall < lim / 4) fail("wrong-address", "connect succeeded although no address accepts in time");
        (void)v6ok;
    }
    quiesce();
    // whatever happened, the object can still be connected
    std::string last = kind == 1 ? "server.test" : "last.test";
    dns(last, {Addr{"10.30.0.1"}});
    s->set_inet_version(fr::Socket::IP::any);
    St r = LIB(s->connect(last, "9600", std::chrono::seconds(10)));
    if(r != St::Success) fail("unusable", "connecting after all that fails with %s", sname(r));
    LIBV((s->disconnect(), 0));
    if(s->connected()) fail("half-connected", "connected after disconnect");
    stop = true;
}
