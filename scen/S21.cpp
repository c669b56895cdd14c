// S21: every incoming connection is accepted exactly once, is labelled correctly, and outlives its listener.
#include "tls.h"
#include <map>
#include <set>

namespace {
const size_t HELLO = 48;
std::string hello(int id) { char h[5]; snprintf(h, sizeof h, "%c%03d", 'h', id); return h + patstr(4000 + id, 0, HELLO - 4); }
struct Client { int id; std::string ip; int port = 0; bool tls = false, lib = false; int kind = 0; SockP s; int greeted = 0; bool answered = false; };
enum { GOOD, LATE, ABORT, BYE, GARBAGE, RESET_LATE, POISON };
struct Kept { std::shared_ptr<fr::Socket> s; int id; };
struct Lis
{
    std::unique_ptr<fr::TcpListener> t; std::unique_ptr<fr::SSLListener> x; int port = 0; bool v6 = false;
    fr::Listener &l() { if(t) return *t; return *x; }
};
struct Run
{
    std::shared_ptr<fr::SSLContext> cc, sc; std::vector<std::unique_ptr<Client>> cl; std::map<Sock *, SockP> seen; std::vector<Kept> kept; int good = 0;

    void label(fr::Socket &s, const Client &c, uint64_t excused)
    {
        std::string got = s.get_remote_address();
        if(got == c.ip || got == "::ffff:" + c.ip) return;
        if(got == "unknown" && (faults_fired(F_NAMEINFO_FAIL) + faults_fired(F_PEERNAME_FAIL) != excused || (c.tls && c.kind == RESET_LATE))) { probe("label unavailable"); return; }
        fail("label", "the connection of client %d (%s) is labelled '%s'", c.id, c.ip.c_str(), got.c_str());
    }
    std::shared_ptr<fr::Socket> fresh(bool tls)
    {
        std::shared_ptr<fr::Socket> s;
        if(tls) s = std::make_shared<fr::SSLSocket>(sc); else s = std::make_shared<fr::TcpSocket>();
        s->set_receive_timeout(30000); s->set_send_timeout(30000);
        return s;
    }
    // serves until the poisonous client turns up
    void acceptor(Lis *l)
    {
        bool tls = (bool)l->x; std::shared_ptr<fr::Socket> s; int idle_ = 0; int owner = -1;
        for(;;)
        {
            if(!s || wchance(0.5)) { s = fresh(tls); owner = -1; }
            bool was = s->connected(); int fd = s->get_socket_descriptor(); std::string addr = s->get_remote_address();
            uint64_t ex = faults_fired(F_NAMEINFO_FAIL) + faults_fired(F_PEERNAME_FAIL), ex2 = faults_fired(F_ACCEPT_FAIL) + faults_fired(F_ACCEPT_EINTR);
            St st = LIB(l->l().accept(*s));
            if(st != St::Success)
            {
                if(!tls && st != St::AcceptError) fail("status", "a failed accept reports %s", sname(st));
                if(!tls && ex2 == faults_fired(F_ACCEPT_FAIL) + faults_fired(F_ACCEPT_EINTR)) fail("spurious", "accept failed though nothing went wrong");
                if(s->connected() != was || s->get_socket_descriptor() != fd || s->get_remote_address() != addr) fail("touched", "a failed accept changed the socket object (connected %d -> %d, descriptor %d -> %d, '%s' -> '%s')", was, s->connected(), fd, s->get_socket_descriptor(), addr.c_str(), s->get_remote_address().c_str());
                if(was && owner >= 0) talk(*s, owner);
                probe(tls ? "TLS accept failed" : "accept failed");
                if(++idle_ > 3) sleep_ns(10 * MS);
                continue;
            }
            if(!s->connected() || !fd_open(s->get_socket_descriptor())) fail("not-connected", "an accepted socket is not connected");
            SockP k = sock_of(s->get_socket_descriptor());
            if(!seen.emplace(k.get(), k).second) fail("twice", "one connection was handed out twice");
            owner = -1;
            std::string b(HELLO, 0); size_t at = 0; bool dead = false;
            while(at < HELLO && !dead) { size_t g = 0; St r = LIB(s->receive_raw(&b[at], HELLO - at, g)); if(r == St::Success) at += g; else dead = true; }
            if(dead) { probe("client gone before its greeting"); continue; }
            if(b[0] == 'Q') return;
            int id = atoi(b.substr(1, 3).c_str());
            if(id < 0 || id >= (int)cl.size() || b != hello(id)) fail("content", "the greeting read from an accepted connection is none: %s", hexs(b).c_str());
            Client &c = *cl[id];
            label(*s, c, ex);
            ++c.greeted;
            if(c.tls != tls) fail("wrong-port", "client %d turned up at another listener", id);
            size_t sent = 0; std::string a = patstr(5000 + id, 0, HELLO);
            LIB(s->send_raw(a.data(), a.size(), sent));
            nontrivial();
            if(c.kind == GOOD && c.lib && wchance(0.4)) { kept.push_back({s, id}); s = nullptr; } // stays open beyond the listener
            else if(c.kind == LATE) { owner = id; if(wchance(0.6)) { kept.push_back({s, id}); s = nullptr; owner = -1; } }
        }
    }
    // a round trip on a connection that has been accepted earlier
    void talk(fr::Socket &s, int id)
    {
        std::string a = patstr(6000 + id, 0, 700); size_t sent = 0; St r = LIB(s.send_raw(a.data(), a.size(), sent));
        if(r != St::Success) fail("broken", "an accepted connection can't be sent on later: %s", sname(r));
        std::string b(700, 0); size_t at = 0;
        while(at < b.size()) { size_t g = 0; r = LIB(s.receive_raw(&b[at], b.size() - at, g)); if(r != St::Success) fail("broken", "an accepted connection can't be read from later: %s (client %d)", sname(r), id); at += g; }
        if(b != a) fail("content", "an accepted connection returned something else later: %s", first_diff(b, a).c_str());
        probe("used again later");
    }
    void client(Client *c, ns wait)
    {
        sleep_ns(wait);
        bool v6 = c->ip.find(':') != std::string::npos; std::string to = v6 ? "fd00::10" : "10.0.0.1";
        for(int attempt = 0; attempt < 60; ++attempt)
        {
            uint64_t ex = faults_fired(F_ACCEPT_FAIL); ns bound = now() + 2000 * SEC;
            std::string h = c->kind == POISON ? "Q" + std::string(HELLO - 1, 'q') : hello(c->id), got(HELLO, 0); bool reset = false, ok = false;
            if(c->lib)
            {
                auto s = fresh(c->tls); if(c->tls) s = std::make_shared<fr::SSLSocket>(cc); s->set_receive_timeout(1000000);
                if(v6) s->set_inet_version(fr::Socket::IP::v6); else s->set_inet_version(fr::Socket::IP::v4);
                next_source(c->ip);
                St r = LIB(s->connect(c->tls ? "server.test" : to, std::to_string(c->port), std::chrono::seconds(300)));
                next_source("");
                if(r != St::Success) { if(ex == faults_fired(F_ACCEPT_FAIL) && !(c->tls && r == St::Timeout)) fail("refused", "client %d can't connect: %s", c->id, sname(r)); sleep_ns(SEC); continue; }
                size_t sent = 0; St w = LIB(s->send_raw(h.data(), h.size(), sent));
                if(c->kind == POISON) { sleep_ns(5 * SEC); return; }
                size_t at = 0; r = St::Success;
                while(at < HELLO && r == St::Success) { size_t g = 0; r = LIB(s->receive_raw(&got[at], HELLO - at, g)); at += g; }
                ok = at == HELLO; reset = !ok && (w != St::Success || r != St::Disconnected || c->tls) && r != St::Timeout;
                if(ok)
                {
                    if(got != patstr(5000 + c->id, 0, HELLO)) fail("content", "client %d got another one's answer", c->id);
                    c->answered = true; ++good;
                    if(c->kind == GOOD || c->kind == LATE) echo([&](char *b, size_t n) { size_t g = 0; return LIB(s->receive_raw(b, n, g)) == St::Success ? (long)g : 0L; }, [&](const std::string &d) { size_t z = 0; return LIB(s->send_raw(d.data(), d.size(), z)) == St::Success; });
                    return;
                }
            }
            else
            {
                SockP s = xconnect(to, (uint16_t)c->port, c->ip, now() + 900 * SEC);
                if(!s) { if(c->kind == ABORT) return; fail("refused", "client %d can't connect", c->id); }
                c->s = s;
                if(c->kind == ABORT) { if(wchance(0.5)) sleep_ns((ns)wl(300) * US); if(wchance(0.7)) xreset(s); else xclose(s); return; }
                if(c->kind == GARBAGE) { std::string d = patstr(77, 0, 1 + wl(400)); xsend(s, d.data(), c->tls ? d.size() : std::min<size_t>(d.size(), HELLO - 1), now() + SEC); if(wchance(0.5)) xreset(s); else xclose(s); return; }
                XTls x; int hs = 0;
                if(c->tls) { x.deadline = now() + 2000 * SEC; hs = x.start(s, false); if(hs) { reset = true; if(xgot_reset(s) || xpeer_closed(s)) { if(ex == faults_fired(F_ACCEPT_FAIL)) fail("handshake", "client %d: the handshake broke off", c->id); xclose(s); sleep_ns(SEC); continue; } fail("handshake", "client %d: handshake -0x%x", c->id, -hs); } }
                auto snd = [&](const std::string &d) { return c->tls ? x.send(d) : xsend(s, d.data(), d.size(), bound); };
                auto rcv = [&](char *b, size_t n) -> long { if(c->tls) { int k = x.recv(b, n); return k > 0 ? k : 0; } return (long)xrecv(s, b, n, bound); };
                if(wchance(0.3) && !c->tls) { snd(h.substr(0, 20)); sleep_ns((ns)wl(3000) * MS); snd(h.substr(20)); } else snd(h);
                if(c->kind == POISON) { sleep_ns(5 * SEC); xclose(s); return; }
                if(c->kind == BYE) { xclose(s); return; }
                if(c->kind == RESET_LATE) { xreset(s); return; }
                size_t at = 0; while(at < HELLO) { long g = rcv(&got[at], HELLO - at); if(g <= 0) break; at += g; }
                ok = at == HELLO; reset = !ok && xgot_reset(s);
                if(!ok && now() >= bound) fail("unanswered", "client %d waits for an answer forever", c->id);
                if(ok)
                {
                    if(got != patstr(5000 + c->id, 0, HELLO)) fail("content", "client %d got another one's answer", c->id);
                    c->answered = true; ++good; bound = now() + 4000 * SEC;
                    if(c->kind == LATE || c->kind == GOOD) echo(rcv, snd);
                    xclose(s); return;
                }
                xclose(s);
            }
            if(!reset || ex == faults_fired(F_ACCEPT_FAIL)) fail("dropped", "the connection of client %d ended without an answer (%s)", c->id, reset ? "reset" : "closed");
            probe("aborted in the queue");
            sleep_ns(SEC);
        }
    }
    // returns what it gets until the server closes the connection
    void echo(const std::function<long(char *, size_t)> &rcv, const std::function<bool(const std::string &)> &snd)
    {
        char b[800];
        for(;;) { long g = rcv(b, sizeof b); if(g <= 0) return; if(!snd(std::string(b, g))) return; }
    }
};

void faults()
{
    swarm({{F_ACCEPT_EINTR, 0.3}, {F_ACCEPT_FAIL, 0.3}, {F_NAMEINFO_FAIL, 0.2}, {F_PEERNAME_FAIL, 0.2}, {F_RECV_EINTR, 0.2}, {F_SEGMENT, 0.3}, {F_DELAY, 0.05}, {F_SHORT_READ, 0.2}, {F_CPU_STALL, 0.003}});
}
}

namespace {
// one socket object takes a connection after the other, from several listeners which come and go
void history(bool tls)
{
    std::shared_ptr<fr::SSLContext> cc, sc;
    if(tls) { cc = tls_context(); dns("server.test", {Addr{"10.0.0.1"}, Addr{"fd00::10"}}); }
    struct L { std::unique_ptr<fr::Listener> l; int port; bool v6; };
    std::vector<L> ls(1 + wl(3));
    std::shared_ptr<fr::Socket> s; int id = 0; std::shared_ptr<fr::Socket> peer;
    auto talk = [&](const char *when) {
        std::string a = patstr(7000 + id, 0, 1 + wl(900)), b(a.size(), 0), c(a.size(), 0); size_t sent = 0;
        St r = LIB(s->send_raw(a.data(), a.size(), sent)); if(r != St::Success) fail("broken", "sending on an accepted connection %s: %s", when, sname(r));
        r = LIB(peer->receive_all(&b[0], b.size())); if(r != St::Success || b != a) fail("broken", "what was sent on an accepted connection %s did not arrive: %s", when, sname(r));
        sent = 0; r = LIB(peer->send_raw(a.data(), a.size(), sent)); if(r != St::Success) fail("broken", "sending to an accepted connection %s: %s", when, sname(r));
        r = LIB(s->receive_all(&c[0], c.size())); if(r != St::Success || c != a) fail("broken", "receiving on an accepted connection %s: %s", when, sname(r));
        probe("used again"); nontrivial();
    };
    for(int step = 0, n = 2 + (int)wl(6); step < n; ++step)
    {
        size_t i = wl((uint32_t)ls.size()); L &l = ls[i];
        if(!l.l)
        {
            l.port = 9700 + step; l.v6 = wchance(0.4);
            if(tls) { if(!sc || wchance(0.5)) sc = tls_context(false); l.l = tls_listener(sc, wchance(0.5) ? "good" : "chain"); } else l.l = std::make_unique<fr::TcpListener>();
            l.l->set_inet_version(l.v6 ? fr::Socket::IP::v6 : fr::Socket::IP::v4);
            if(LIB(l.l->listen(std::to_string(l.port))) != St::Success) fail("listen", "listening with nothing in the way failed");
        }
        if(!s || wchance(0.3)) { if(tls) s = std::make_shared<fr::SSLSocket>(sc); else s = std::make_shared<fr::TcpSocket>(); }
        else if(wchance(0.4)) LIBV((s->disconnect(), 0));
        std::shared_ptr<fr::Socket> np; if(tls) np = std::make_shared<fr::SSLSocket>(cc); else np = std::make_shared<fr::TcpSocket>();
        bool six = l.v6 && wchance(0.5); std::string src = six ? "fd00:1234:5678:9abc:def0:1234:5678:" + std::to_string(1000 + step) : "10.111.222." + std::to_string(100 + step);
        np->set_inet_version(six ? fr::Socket::IP::v6 : fr::Socket::IP::v4);
        St cs = St::Unknown; int port = l.port;
        auto *pn = np.get();
        int t = spawn("client", [&cs, pn, src, port, tls, six] { next_source(src); cs = LIB(pn->connect(tls ? "server.test" : six ? "fd00::10" : "10.0.0.1", std::to_string(port), std::chrono::seconds(60))); next_source(""); });
        St r = LIB(l.l->accept(*s)); join(t);
        if(r != St::Success || cs != St::Success) fail("refused", "accept: %s, connect: %s", sname(r), sname(cs));
        if(!s->connected() || s->get_socket_descriptor() < 0) fail("not-connected", "an accepted socket is not connected");
        std::string got = s->get_remote_address();
        if(got != src && got != "::ffff:" + src) fail("label", "the connection from %s is labelled '%s'", src.c_str(), got.c_str());
        if(peer && peer->connected()) { char b[4]; size_t g; St e = LIB(peer->receive_raw(b, 4, g)); if(e == St::Success || idle(e)) fail("left-open", "a connection whose socket object has taken another one still delivers something (%s)", sname(e)); }
        peer = np; ++id;
        talk("at once");
        for(auto &o : ls) if(o.l && wchance(0.4)) { bool own = &o == &l; if(wchance(0.3)) LIBV((o.l->shutdown(), 0)); { sim::Lib lib; o.l = nullptr; } if(listening((uint16_t)o.port)) fail("leak", "a destroyed listener still listens"); probe(own ? "its listener destroyed" : "another listener destroyed"); }
        if(wchance(0.3)) sc = nullptr;
        talk("after listeners went away");
    }
    LIBV((s->disconnect(), 0)); peer = nullptr; s = nullptr; for(auto &o : ls) o.l = nullptr;
    if(open_fds()) fail("leak", "%d descriptors are left", open_fds());
}
// several listeners on one port, as the server example suggests
void shared_port()
{
    int k = 2 + (int)wl(3), n = 1 + (int)wl(30); bool v6 = wchance(0.3); std::vector<std::unique_ptr<fr::TcpListener>> ls; std::vector<int> ts; std::set<int> greeted; int served = 0;
    for(int i = 0; i < k; ++i)
    {
        ls.push_back(std::make_unique<fr::TcpListener>()); ls[i]->set_inet_version(v6 ? fr::Socket::IP::v6 : fr::Socket::IP::v4);
        St r = LIB(ls[i]->listen("9770")); if(r != St::Success) fail("listen", "listener %d on a port shared by listeners of this library: %s", i, sname(r));
    }
    swarm({{F_ACCEPT_EINTR, 0.3}, {F_NAMEINFO_FAIL, 0.1}, {F_SEGMENT, 0.3}, {F_DELAY, 0.05}, {F_CPU_STALL, 0.003}});
    bool stop = false;
    for(int i = 0; i < k; ++i)
        ts.push_back(spawn("acceptor", [&, i] {
            fr::TcpSocket s;
            while(!stop)
            {
                if(LIB(ls[i]->accept(s)) != St::Success) continue;
                std::string b(HELLO, 0); if(LIB(s.receive_all(&b[0], HELLO)) != St::Success) continue;
                int id = atoi(b.substr(1, 3).c_str()); if(b != hello(id)) fail("content", "the greeting read from an accepted connection is none");
                if(!greeted.insert(id).second) fail("twice", "client %d was accepted twice", id);
                std::string a = patstr(5000 + id, 0, HELLO); size_t z = 0; LIB(s.send_raw(a.data(), a.size(), z));
            }
        }));
    std::vector<int> ct;
    for(int id = 0; id < n; ++id)
        ct.push_back(spawn("client", [&, id] {
            sleep_ns((ns)wl(300) * MS);
            SockP c = xconnect(v6 ? "fd00::10" : "10.0.0.1", 9770, v6 ? "fd00::77" : "10.77.0.1", now() + 60 * SEC); if(!c) fail("refused", "client %d can't connect", id);
            std::string h = hello(id), b; xsend(c, h.data(), h.size(), now() + 60 * SEC);
            if(!xread_exact(c, b, HELLO, now() + 600 * SEC) || b != patstr(5000 + id, 0, HELLO)) fail("unanswered", "client %d is not answered", id);
            ++served; nontrivial(); xclose(c);
        }));
    for(int t : ct) join(t);
    quiesce(); stop = true;
    for(auto &l : ls) LIBV((l->shutdown(), 0));
    for(int t : ts) join(t);
    if(served != n || (int)greeted.size() != n) fail("lost", "%d clients, %zu greeted", n, greeted.size());
    probe("listeners sharing a port");
}
}

SCENARIO(S21)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    if(wchance(0.15)) { if(wchance(0.25)) shared_port(); else history(wchance(0.4)); return; }
    auto *r = new Run; bool any_tls = wchance(0.2);
    if(any_tls) { r->cc = tls_context(); r->sc = tls_context(false); dns("server.test", {Addr{"10.0.0.1"}, Addr{"fd00::10"}}); }
    int nl = 1 + (int)wl(2); std::vector<Lis> ls(nl);
    bool low = !any_tls; int epochs = 1 + (int)wl(low ? 4 : 2);
    for(int i = 0; i < nl; ++i)
    {
        Lis &l = ls[i]; bool tls = any_tls && (i == 0 || wchance(0.5));
        if(tls) l.x = tls_listener(r->sc); else l.t = std::make_unique<fr::TcpListener>();
        l.v6 = wchance(0.4); l.port = 9700 + i;
        l.l().set_inet_version(l.v6 ? fr::Socket::IP::v6 : fr::Socket::IP::v4);
    }
    for(int e = 0; e < epochs; ++e)
    {
        // the listeners are set up, moved around, or left as they are
        for(int i = 0; i < nl; ++i)
        {
            Lis &l = ls[i]; int how = l.l().connected() ? (int)wl(6) : 1;
            if(how == 2 && l.t)
            {
                int fd = l.t->get_socket_descriptor(); std::unique_ptr<fr::TcpListener> m; { sim::Lib lib; m = std::make_unique<fr::TcpListener>(std::move(*l.t)); }
                if(l.t->connected()) fail("move", "a listener that was moved from still reports a connection");
                if(!m->connected() || m->get_socket_descriptor() != fd) fail("move", "a moved listener does not have the descriptor");
                if(wchance(0.3)) { St s = LIB(l.t->listen(std::to_string(9750 + i))); if(s != St::Success) fail("move", "a listener that was moved from can't be used again: %s", sname(s)); }
                l.t = std::move(m); probe("moved");
            }
            else if(how == 3)
            {
                int fd = l.l().get_socket_descriptor(); auto m = std::make_unique<fr::TcpListener>();
                l.l().set_socket_descriptor(-1);
                if(l.x) { auto n = tls_listener(r->sc); n->set_socket_descriptor(fd); l.x = std::move(n); }
                else { m->set_socket_descriptor(fd); m->set_inet_version(l.v6 ? fr::Socket::IP::v6 : fr::Socket::IP::v4); l.t = std::move(m); }
                probe("handed over");
            }
            else if(how == 1 || how == 4)
            {
                if(how == 4 && wchance(0.5)) { LIBV((l.l().close_socket(), 0)); if(l.l().connected()) fail("close", "a closed listener reports a connection"); }
                bool other = wchance(0.3); if(other) l.port = 9700 + i + 10 * (int)wl(3);
                if(wchance(0.25)) // the port is taken at first
                {
                    int p = 9790 + i; SockP o = xoccupy((uint16_t)p);
                    St s = LIB(l.l().listen(std::to_string(p)));
                    if(s == St::Success) fail("taken", "listening on a port that is taken succeeded");
                    if(s != St::BindFailed) fail("taken", "listening on a port that is taken reports %s", sname(s));
                    if(l.l().connected()) fail("taken", "a listener that failed to bind reports a connection");
                    xclose(o); probe("port taken");
                    if(wchance(0.5)) { l.port = p; other = true; }
                }
                if(wchance(0.3)) // something goes wrong
                {
                    swarm({{F_BIND_FAIL, 0.5}, {F_LISTEN_FAIL, 0.5}, {F_SOCKET_FAIL, 0.4}, {F_SETSOCKOPT_FAIL, 0.3}, {F_DNS_FAIL, 0.4}});
                    St s = LIB(l.l().listen(std::to_string(l.port)));
                    quiesce();
                    if((s == St::Success) != l.l().connected()) fail("stale", "listen: %s, connected() is %d", sname(s), l.l().connected());
                    if(s == St::Success && !listening((uint16_t)l.port)) fail("deaf", "listen reported success, nobody listens");
                    if(s != St::Success && listening((uint16_t)l.port)) fail("stale", "listen failed (%s), the port is still open", sname(s));
                    if(s != St::Success) probe("listen failed");
                }
                if(!l.l().connected() || other || wchance(0.3))
                {
                    St s = LIB(l.l().listen(std::to_string(l.port)));
                    if(s != St::Success) fail("listen", "listening with nothing in the way: %s", sname(s));
                    probe(e ? "listening again" : "listening");
                }
                if(!listening((uint16_t)l.port)) fail("deaf", "nobody listens on the port");
            }
        }
        faults();
        std::vector<int> ct, at; int per[2] = {0, 0};
        for(int i = 0; i < nl; ++i)
        {
            Lis *l = &ls[i]; per[i] = 1 + (int)wl(l->x ? 2 : 3);
            for(int k = 0; k < per[i]; ++k) at.push_back(spawn("acceptor" + std::to_string(i) + std::to_string(k), [r, l] { r->acceptor(l); }));
        }
        int n = 1 + (int)wl(any_tls ? 4 : wchance(0.1) ? 70 : 12); std::vector<int> enders;
        for(int k = 0; k < n && r->cl.size() < 900; ++k)
        {
            r->cl.emplace_back(new Client); Client *c = r->cl.back().get(); c->id = (int)r->cl.size() - 1;
            Lis &l = ls[wl(nl)]; c->port = l.port; c->tls = (bool)l.x;
            c->lib = wchance(0.4); bool v6 = l.v6 && wchance(0.5);
            int who = wchance(0.2) ? 1 : k + 1; char ip[64]; snprintf(ip, sizeof ip, v6 ? "fd00:1234:5678:9abc:def0:1234:5678:%x" : "10.%d.200.%d", v6 ? 0x1000 + who : 1 + who, who); c->ip = ip;
            c->kind = wchance(0.5) || c->lib ? (wchance(0.3) ? LATE : GOOD) : (int)wl(6);
            ns w = wchance(0.5) ? 0 : (ns)wl(2000) * MS;
            int t = spawn("client" + std::to_string(c->id), [r, c, w] { r->client(c, w); });
            ct.push_back(t);
        }
        // all the greetings are answered; what the servers still hold is released, or kept beyond the listener
        std::vector<Client *> must; for(size_t k = r->cl.size() - ct.size(); k < r->cl.size(); ++k) if(r->cl[k]->kind == GOOD || r->cl[k]->kind == LATE) must.push_back(r->cl[k].get());
        auto all = [&] { for(auto *c : must) if(!c->answered) return false; return true; };
        if(!block_until(all, now() + 20000 * SEC)) for(auto *c : must) if(!c->answered) fail("unanswered", "client %d (%s) is not served", c->id, c->lib ? "library" : "scripted");
        for(size_t k = 0; k < ct.size(); ++k) { auto *c = r->cl[r->cl.size() - ct.size() + k].get(); if(c->kind != GOOD && c->kind != LATE) join(ct[k]); }
        for(size_t k = 0; k < at.size(); ++k) // acceptors stop
        {
            int i = k < (size_t)per[0] ? 0 : 1; r->cl.emplace_back(new Client); Client *c = r->cl.back().get(); c->id = (int)r->cl.size() - 1; c->ip = "10.250.0.1"; c->kind = POISON; c->port = ls[i].port; c->tls = (bool)ls[i].x;
            // the poison may be lost in the queue too
            int a = at[k]; (void)a;
            int alive0 = 0; for(size_t q = i ? per[0] : 0; q < (i ? at.size() : (size_t)per[0]); ++q) alive0 += !finished(at[q]);
            for(int tries = 0; tries < 50; ++tries)
            {
                r->client(c, 0);
                auto fewer = [&] { int v = 0; for(size_t q = i ? per[0] : 0; q < (i ? at.size() : (size_t)per[0]); ++q) v += !finished(at[q]); return v < alive0; };
                if(block_until(fewer, now() + 200 * SEC)) break;
            }
        }
        for(int t : at) join(t);
        quiesce();
        if(wchance(0.4) && !r->kept.empty())
        {
            // the listeners go away, the connections stay
            for(auto &l : ls)
            {
                int how = (int)wl(3); if(how == 0) continue;
                probe("listener gone");
                if(how == 1) { LIBV((l.l().close_socket(), 0)); continue; }
                sim::Lib lib; if(l.x) { l.x.reset(); l.x = tls_listener(r->sc); } else { l.t = std::make_unique<fr::TcpListener>(); }
                l.l().set_inet_version(l.v6 ? fr::Socket::IP::v6 : fr::Socket::IP::v4);
            }
        }
        for(auto &k : r->kept) r->talk(*k.s, k.id);
        r->kept.clear();
        for(int t : ct) join(t);
        for(auto &c : r->cl) if(c->greeted > 1 && (c->kind != GOOD && c->kind != LATE)) fail("twice", "client %d was greeted %d times", c->id, c->greeted);
    }
    for(auto &l : ls) { uint16_t p = (uint16_t)l.port; { sim::Lib lib; l.t.reset(); l.x.reset(); } if(listening(p)) fail("leak", "a destroyed listener still listens"); }
    if(r->good) nontrivial();
}
