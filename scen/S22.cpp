// S22: what a connection used is given back when it is gone: nothing stays allocated, nothing grows from one connection to the next.
#include "tls.h"
#include "wsutil.h"
#include <frnetlib/SocketSelector.h>
#include <functional>

namespace {
typedef fr::WebSocket<fr::TcpSocket> WSock;
enum { TCP, TLS, WSK };
const char *const kinds[] = {"TCP", "TLS", "WebSocket"};
const char *const bad_servers[] = {"other", "unknown", "expired", "badsig", "self", "notca", "cnonly"};

struct Run
{
    std::shared_ptr<fr::SSLContext> cc, sc; std::string last = "start"; std::unique_ptr<fr::SocketSelector> lasting; bool tls, hold = false; int theme = 0; // 1: strange hosts say nothing for longer than anybody waits


    // library calls that may run out of memory, or refuse a handshake
    bool guarded(const std::function<void()> &f)
    {
        try { sim::Lib lib; f(); return true; }
        catch(const std::bad_alloc &) { probe("out of memory"); }
        catch(const std::runtime_error &e) { probe("call that threw"); }
        return false;
    }
    std::shared_ptr<fr::Socket> socket(int kind)
    {
        std::shared_ptr<fr::Socket> s;
        guarded([&] {
            if(kind == TLS) { auto x = std::make_shared<fr::SSLSocket>(cc); if(wchance(0.4)) x->verify_certificates(false); s = x; }
            else if(kind == WSK) s = std::make_shared<WSock>(); else s = std::make_shared<fr::TcpSocket>();
            s->set_receive_timeout(5000 + (int)wl(10000)); s->set_send_timeout(5000 + (int)wl(10000));
            if(wchance(0.3)) s->set_max_receive_size(1 + wl(20000));
        });
        return s;
    }
    std::shared_ptr<fr::Listener> listener(int kind)
    {
        std::shared_ptr<fr::Listener> l;
        const char *name = wchance(0.8) ? "good" : bad_servers[wl(7)];
        guarded([&] {
            if(kind == TLS) l = std::make_shared<fr::SSLListener>(sc, wchance(0.05) ? cert("missing") : cert((std::string(name) + ".pem").c_str()), wchance(0.05) ? cert("ca.pem") : cert((std::string(name) + ".key").c_str()));
            else l = std::make_shared<fr::TcpListener>();
            l->set_inet_version(fr::Socket::IP::v4);
        });
        return l;
    }
    bool listen(fr::Listener &l, int port) { bool ok = false; guarded([&] { ok = l.listen(std::to_string(port)) == St::Success; }); return ok; }
    // a library client meets a library listener; either may fail
    bool meet(fr::Listener &l, int port, fr::Socket &c, fr::Socket &s)
    {
        int fd = -1; guarded([&] { auto *t = dynamic_cast<fr::TcpListener *>(&l); fd = t ? t->get_socket_descriptor() : dynamic_cast<fr::SSLListener &>(l).get_socket_descriptor(); });
        if(fd < 0) return false;
        St cs = St::Unknown, ss = St::Unknown; std::string prt = std::to_string(port); auto *cp = &c; auto *csp = &cs;
        int t = spawn("client", [this, cp, csp, prt] { if(!guarded([&] { *csp = cp->connect("server.test", prt, std::chrono::seconds(5)); }) || *csp != St::Success) close(*cp); });
        if(block_until([&] { return fd_ready(fd) || finished(t); }, now() + 120 * SEC) && fd_ready(fd))
            if(!guarded([&] { ss = l.accept(s); }) || ss != St::Success) { close(s); }
        // somebody who is still in the queue is turned away
        if(ss != St::Success) listener_close(l);
        join(t);
        probe(cs == St::Success && ss == St::Success ? "met" : "did not meet");
        return cs == St::Success && ss == St::Success;
    }
    void listener_close(fr::Listener &l) { guarded([&] { l.close_socket(); }); }
    void close(fr::Socket &s) { try { sim::Lib lib; s.disconnect(); } catch(const std::bad_alloc &) { sim::Lib lib; s.shutdown(); s.set_descriptor(nullptr); } }
    // messages in both directions, ended by whatever happens
    void send_some(fr::Socket &s, int kind, bool client, int n)
    {
        for(int i = 0; i < n; ++i)
        {
            St st = St::Success; size_t sz = wchance(0.2) ? wsize(30000) : wsize(600); uint32_t k = wl(3);
            bool ok = guarded([&] {
                if(kind == WSK) { fr::ClientWebFrame cf; fr::ServerWebFrame sf; fr::WebFrame &f = client ? (fr::WebFrame &)cf : (fr::WebFrame &)sf; f.set_payload(std::string(sz, 'f')); st = s.send(f); }
                else if(k == 0 || !client) { fr::Packet p; p << std::string(sz, 'p') << (uint32_t)i; st = s.send(p); }
                else if(k == 1) { fr::HttpRequest r; r.set_type(fr::Http::RequestType::Post); r.post("a") = "b"; r.header("x-some-header-name") = std::string(sz % 200, 'h'); r.get("q") = "1"; st = s.send(r); }
                else { std::string raw(sz, 'r'); size_t sent = 0; st = s.send_raw(raw.data(), raw.size(), sent); }
            });
            if(!ok || st != St::Success) return;
        }
    }
    void receive_some(fr::Socket &s, int kind, bool client, int n)
    {
        fr::Packet p;
        for(int i = 0; i < n; ++i)
        {
            St st = St::Success; uint32_t k = wl(4);
            bool ok = guarded([&] {
                if(kind == WSK) { fr::ClientWebFrame cf; fr::ServerWebFrame sf; fr::WebFrame &f = client ? (fr::WebFrame &)cf : (fr::WebFrame &)sf; st = s.receive(f); }
                else if(k < 2) { st = s.receive(p); if(st == St::Success) { try { std::string t; uint32_t v; p >> t >> v; } catch(const std::out_of_range &) {} } }
                else if(k == 2) { fr::HttpRequest r; st = s.receive(r); } else { fr::HttpResponse r; st = s.receive(r); }
            });
            if(!ok || (st != St::Success && st != St::Timeout)) return;
            probe(st == St::Success ? "message received" : "nothing received");
        }
    }
    void talk(fr::Socket &c, fr::Socket &s, int kind)
    {
        auto *cp = &c, *sp = &s; int n = 1 + (int)wl(5), m = 1 + (int)wl(5);
        // one direction after the other: the classes don't promise more for TLS
        int t = spawn("talk", [=] { send_some(*cp, kind, true, n); if(wchance(0.3)) { close(*cp); return; } receive_some(*cp, kind, true, m); });
        receive_some(s, kind, false, n); send_some(s, kind, false, m); (void)sp;
        if(!hold && wchance(0.5)) close(s);
        join(t);
        probe("talked");
    }
    // a scripted host on the other side of a connecting socket
    void strange_server(int kind)
    {
        auto c = socket(kind); if(!c) return;
        SockP l = xlisten("10.9.0.1", 9600); auto *cp = c.get(); St st = St::Unknown; auto *stp = &st;
        const char *to = kind == TCP && wchance(0.5) ? (wchance(0.5) ? "many.test" : "refused.test") : "far.test";
        last = std::string(kinds[kind]) + " client and a strange server";
        int t = spawn("client", [=] { guarded([&] { *stp = cp->connect(to, "9600", std::chrono::seconds(4)); }); if(*stp == St::Success) { receive_some(*cp, kind, true, 4); } });
        SockP p = xaccept(l, now() + 30 * SEC);
        if(p && theme == 1) { if(wchance(0.3)) hostile(p); sleep_ns(20 * SEC); }
        else if(p && kind == TLS)
        {
            auto x = std::make_unique<XTls>(); x->deadline = now() + 30 * SEC;
            if(wchance(0.6)) { if(wchance(0.5)) x->left = wl(1500); x->start(p, true, wchance(0.4) ? "good" : bad_servers[wl(7)]); if(wchance(0.5)) x->send(std::string(wl(3000), 'a')); if(wchance(0.5)) x->notify(); }
            else { std::string g = wchance(0.5) ? std::string("\x15\x03\x03\x00\x02\x02\x28", 7) : std::string(1 + wl(600), 'g'); xsend(p, g.data(), g.size(), now() + SEC); }
        }
        else if(p && kind == WSK)
        {
            std::string h = x_read_header(p, now() + 30 * SEC), a;
            switch(wl(4))
            {
                case 0: case 1: a = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + (wchance(0.7) ? x_accept(x_header(h, "sec-websocket-key")) : std::string("AAAA")) + "\r\n\r\n"; a += ws_encode(2, true, std::string(wsize(3000), 'w'), wchance(0.1), "abcd"); break;
                case 2: a = "HTTP/1.1 404 Not Found\r\nContent-Length: 5\r\n\r\nhello"; break;
                default: a = std::string(1 + wl(900), 'x');
            }
            if(wchance(0.3)) a.resize(wl((uint32_t)a.size()));
            xsend(p, a.data(), a.size(), now() + 5 * SEC);
        }
        else if(p) hostile(p);
        if(p && wchance(0.3)) sleep_ns(20 * SEC); // longer than any receive timeout
        if(p) { if(wchance(0.6)) xclose(p); else xreset(p); }
        join(t); xclose(l);
        if(wchance(0.5)) close(*c);
        probe(st == St::Success ? "strange server accepted" : "strange server refused");
        sim::Lib lib; c.reset();
    }
    void hostile(const SockP &p)
    {
        std::string d;
        switch(wl(6))
        {
            case 0: d = be(1 + wl(50000), 4) + std::string(wl(3000), 'p'); break;
            case 1: d = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n" + std::string(wchance(0.5) ? "zz\r\n" : "fffffff\r\n"); break;
            case 2: d = "POST /a?b=c&d=e HTTP/1.1\r\nContent-Length: " + std::to_string(wl(90000)) + "\r\nX: " + std::string(wl(7000), 'h') + "\r\n\r\n" + std::string(wl(3000), 'b'); break;
            case 3: d = ws_encode((int)wl(16), true, std::string(wsize(4000), 'q'), wchance(0.5), "abcd"); break;
            case 4: d = std::string("\xff\xff\xff\xff", 4) + std::string(wl(5000), 'z'); break;
            default: d = "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n" + std::string(wl(100), 'b');
        }
        xsend(p, d.data(), d.size(), now() + 5 * SEC);
    }
    // a scripted client of a library listener
    void strange_client(fr::Listener &l, int port, fr::Socket &s, int kind)
    {
        last = std::string(kinds[kind]) + " listener and a strange client";
        int mode = (int)wl(4); size_t left = wl(1500); int keep = (int)wl(3);
        int t = spawn("knock", [=] {
            SockP p = xconnect("10.0.0.1", (uint16_t)port, "10.8.0.1", now() + 10 * SEC);
            if(!p) return;
            if(kind == TLS && mode) { XTls x; x.deadline = now() + 30 * SEC; if(mode == 1) x.left = left; if(x.start(p, false) == 0) { x.send(std::string(wl(3000), 'a')); if(keep) x.notify(); } }
            else if(kind == WSK) { std::string h = mode ? "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: abc\r\n\r\n" : "BLAH\r\n\r\n"; if(mode == 1) h.resize(wl((uint32_t)h.size())); xsend(p, h.data(), h.size(), now() + SEC); hostile(p); }
            else hostile(p);
            if(keep) sleep_ns(SEC);
            keep == 1 ? xreset(p) : xclose(p);
        });
        int fd = -1; { auto *tl = dynamic_cast<fr::TcpListener *>(&l); fd = tl ? tl->get_socket_descriptor() : dynamic_cast<fr::SSLListener &>(l).get_socket_descriptor(); }
        block_until([&] { return fd_ready(fd) || finished(t); }, now() + 60 * SEC);
        St st = St::Unknown;
        if(fd_ready(fd)) { if(!guarded([&] { st = l.accept(s); })) close(s); else if(st == St::Success) receive_some(s, kind, false, 3); }
        probe(st == St::Success ? "strange client accepted" : "strange client refused");
        if(!hold && wchance(0.7)) close(s);
        join(t);
    }
    void selectors(int port)
    {
        last = "selectors"; std::vector<std::shared_ptr<fr::SSLSocket>> x; std::vector<std::shared_ptr<fr::Socket>> v; std::unique_ptr<fr::SocketSelector> se, two; SockP l = xlisten("10.9.0.1", 9600);
        guarded([&] { if(!lasting) se = std::make_unique<fr::SocketSelector>(); if(wchance(0.3)) two = std::make_unique<fr::SocketSelector>(); });
        if(!se && !lasting) { xclose(l); return; }
        int n = 1 + (int)wl(5); std::vector<SockP> peers;
        for(int i = 0; i < n; ++i)
        {
            auto s = socket(TCP); if(!s) continue;
            SockP p; auto *pp = &p; int t = spawn("far", [pp, l] { *pp = xaccept(l, now() + 10 * SEC); });
            guarded([&] { s->connect("10.9.0.1", "9600", std::chrono::seconds(3)); });
            join(t); if(p) { peers.push_back(p); if(wchance(0.5)) xsend(p, "abc", 3, now() + SEC); }
            v.push_back(s);
        }
        int k = 3 + (int)wl(12);
        for(int i = 0; i < k && !v.empty(); ++i)
        {
            auto &s = v[wl((uint32_t)v.size())]; auto &e = two && wchance(0.3) ? *two : lasting ? *lasting : *se;
            try { sim::Lib lib; switch(wl(7)) { case 0: case 1: e.add(s, &k); break; case 2: e.remove(s); break; case 3: case 4: { auto r = e.wait(std::chrono::milliseconds(wl(20))); break; } case 5: if(wchance(0.4)) s->disconnect(); break;
                default: { auto &o = v[wl((uint32_t)v.size())]; if(o == s || !o->connected()) break; auto *t = dynamic_cast<fr::TcpSocket *>(s.get()), *u = dynamic_cast<fr::TcpSocket *>(o.get()); int fd = u->get_socket_descriptor(); u->set_descriptor(nullptr); t->set_descriptor(&fd); probe("descriptor handed over"); } } } catch(const std::exception &) { probe("selector refused"); }
        }
        std::vector<std::weak_ptr<fr::Socket>> w(v.begin(), v.end());
        sim::Lib lib;
        if(lasting)
        {
            // the selector stays, the sockets go: it must not hold on to those that were removed
            for(auto &s : v) for(int tries = 0; tries < 40; ++tries) { try { lasting->remove(s); break; } catch(const std::exception &) { probe("removal refused"); } }
            v.clear(); two.reset();
            for(auto &x : w) if(!x.expired()) fail("kept", "a selector holds on to a socket that was removed from it");
        }
        else if(wchance(0.5)) { v.clear(); se.reset(); two.reset(); } else { se.reset(); two.reset(); v.clear(); }
        for(auto &p : peers) xclose(p);
        xclose(l); (void)port;
    }
    void library_pair(int kind, int port)
    {
        last = std::string(kinds[kind]) + " pair";
        auto l = listener(kind), c_ = std::shared_ptr<fr::Listener>(); auto c = socket(kind), s = socket(kind);
        if(l && c && s && listen(*l, port) && meet(*l, port, *c, *s)) talk(*c, *s, kind);
        sim::Lib lib;
        switch(wl(3)) { case 0: l.reset(); c.reset(); s.reset(); break; case 1: s.reset(); c.reset(); l.reset(); break; default: c.reset(); l.reset(); s.reset(); }
    }
    void guest(int kind, int port)
    {
        auto l = listener(kind); auto s = socket(kind);
        if(l && s && listen(*l, port)) strange_client(*l, port, *s, kind);
        sim::Lib lib; if(wchance(0.5)) { l.reset(); s.reset(); } else { s.reset(); l.reset(); }
    }
    void context()
    {
        last = "TLS contexts and listeners"; std::shared_ptr<fr::SSLContext> c;
        guarded([&] { c = std::make_shared<fr::SSLContext>(); c->load_ca_certs_from_file(cert(wchance(0.5) ? "ca.pem" : "missing")); if(wchance(0.3)) c->load_ca_certs_from_memory("-----BEGIN CERTIFICATE-----\nnonsense\n-----END CERTIFICATE-----\n"); });
        auto l = listener(TLS); if(l && wchance(0.5)) listen(*l, 9777);
        sim::Lib lib; l.reset(); c.reset();
    }
};
}

SCENARIO(S22)
{
    sched_mode();
    Run r; r.tls = wchance(0.4);
    r.cc = tls_context(); r.sc = tls_context(false);
    dns("server.test", {Addr{"10.0.0.1"}}); dns("far.test", {Addr{"10.9.0.1"}});
    dns("many.test", {Addr{"10.9.1.1", Refuse}, Addr{"10.9.1.2", Blackhole}, Addr{"fd00::9", UnreachNow}, Addr{"10.9.0.1"}});
    dns("refused.test", {Addr{"10.9.1.1", Refuse}, Addr{"10.9.1.4", UnreachNow}});
    swarm({{F_RECV_EINTR, 0.1}, {F_SEND_EINTR, 0.1}, {F_SHORT_WRITE, 0.3}, {F_SEGMENT, 0.4}, {F_DELAY, 0.2}, {F_RECV_FAIL, 0.03}, {F_SEND_FAIL, 0.03}, {F_RESET, 0.03},
           {F_SOCKET_FAIL, 0.1}, {F_CONNECT_FAIL, 0.2}, {F_ACCEPT_FAIL, 0.2}, {F_LISTEN_FAIL, 0.1}, {F_BIND_FAIL, 0.1}, {F_FCNTL_FAIL, 0.1}, {F_SETSOCKOPT_FAIL, 0.1}, {F_DNS_FAIL, 0.1}, {F_NAMEINFO_FAIL, 0.2},
           {F_PEERNAME_FAIL, 0.2}, {F_EPOLL_CTL_FAIL, 0.2}, {F_EPOLL_CREATE_FAIL, 0.2}, {F_ALLOC_FAIL, 0.02}, {F_CPU_STALL, 0.005}});
    if(wchance(0.2)) r.theme = 1;
    auto kind = [&] { return r.tls && wchance(0.6) ? (int)TLS : wchance(0.5) ? (int)TCP : (int)WSK; };
    std::vector<uint64_t> marks;
    if(wchance(0.55))
    {
        // everything made is destroyed again: nothing may be left
        int n = r.tls ? 7 : 10; uint32_t op = wl(14); int k = kind(); bool mixed = wchance(0.3);
        if(wchance(0.5)) r.guarded([&] { r.lasting = std::make_unique<fr::SocketSelector>(); });
        for(int i = 0; i < n; ++i)
        {
            if(mixed && wchance(0.5)) { op = wl(14); k = kind(); }
            marks.push_back(alloc_mark()); int port = 9700 + i;
            if(op < 4) r.library_pair(k, port);
            else if(op < 7) r.strange_server(k);
            else if(op < 10) r.guest(k, port);
            else if(op < 13) r.selectors(port);
            else if(r.tls) r.context(); else r.strange_server(k);
            nontrivial();
        }
        std::string l = leaks(marks, 3);
        if(!l.empty()) fail("leak", "memory is left although everything that used it is gone (%s): %s", r.last.c_str(), l.c_str());
        probe("books balanced without objects");
    }
    else
    {
        // the same objects serve one connection after another: what they hold does not grow
        int k = kind(), rounds = k == TLS ? 9 : 14;
        auto l = r.listener(k); auto c = r.socket(k), s = r.socket(k); std::unique_ptr<fr::SocketSelector> se; r.guarded([&] { se = std::make_unique<fr::SocketSelector>(); });
        bool closing = wchance(0.4); r.hold = !closing && wchance(0.6); int mode = (int)wl(3); bool add = se && wchance(0.5);
        if(l && c && s) for(int i = 0; i < rounds; ++i)
        {
            marks.push_back(alloc_mark()); int port = 9700;
            if(r.listen(*l, port))
            {
                r.last = std::string(kinds[k]) + " objects used again";
                if(mode == 0 || (mode == 1 && wchance(0.5)))
                {
                    if(r.meet(*l, port, *c, *s))
                    {
                        if(add) { try { sim::Lib lib; se->add(s, nullptr); se->wait(std::chrono::milliseconds(0)); if(wchance(0.7)) se->remove(s); } catch(const std::exception &) { probe("selector refused"); } }
                        r.talk(*c, *s, k);
                    }
                }
                else r.strange_client(*l, port, *s, k);
            }
            if(se) { sim::Lib lib; se->remove(s); }
            if(closing || (!r.hold && wchance(0.2))) { r.close(*c); r.close(*s); }
            if(wchance(0.7)) r.listener_close(*l);
            nontrivial();
        }
        std::string lk = leaks(marks, 5);
        if(!lk.empty()) fail("growth", "what is kept grows with every connection (%s): %s", r.last.c_str(), lk.c_str());
        probe("books balanced with the objects alive");
        sim::Lib lib; l.reset(); c.reset(); s.reset(); se.reset();
    }
    { sim::Lib lib; r.lasting.reset(); }
    if(open_fds()) fail("descriptor-leak", "%d descriptors are open at the end (%s)", open_fds(), r.last.c_str());
}
