// S18: a TLS client only talks to the server it asked for; handshakes that go wrong leave nothing usable behind.
#include "tls.h"
#include "msg.h"

namespace {
const ns BASE = 1700000000ll; // unix seconds at the start of a run
int64_t unix_s(int y) { struct tm t = {}; t.tm_year = y - 1900; t.tm_mday = 1; return (int64_t)timegm(&t); }
struct Cert { const char *name; bool ca1, names_server; int from, to; };
const Cert certs[] = {{"good", true, true, 2020, 2040}, {"other", true, false, 2020, 2040}, {"expired", true, true, 2010, 2020}, {"future", true, true, 2035, 2050}, {"unknown", false, true, 2020, 2040}, {"self", false, true, 2020, 2040}, {"chain", true, true, 2020, 2040}, {"notca", false, true, 2020, 2040}, {"chainold", true, true, 2020, 2030 /* its intermediate; the leaf: 2040 */}, {"cnonly", true, true, 2020, 2040}, {"badsig", false, true, 2020, 2040}};

struct Server // a library listener, or a scripted server that can do more
{
    std::unique_ptr<fr::SSLListener> lib; SockP raw; int port;
};
bool names(const Cert &c, const std::string &host)
{
    if(!strcmp(c.name, "other")) return host == "other.test";
    if(host == "server.test") return true;
    if(!strcmp(c.name, "cnonly")) return false;
    // *.wild.test
    return host.size() > 10 && host.compare(host.size() - 10, 10, ".wild.test") == 0 && host.find('.') == host.size() - 10;
}
// an exchange in both directions proves that the connection works
void talk(fr::Socket &s)
{
    char b[8]; size_t sent = 0;
    St r = LIB(s.send_raw("ping", 4, sent)); if(r != St::Success) fail("unusable", "sending on the new connection: %s", sname(r));
    r = LIB(s.receive_all(b, 4)); if(r != St::Success || memcmp(b, "pong", 4)) fail("unusable", "receiving on the new connection: %s", sname(r));
}
void check_dead(fr::SSLSocket &s, const char *what)
{
    if(s.connected()) fail("half-open", "%s: connect failed but the socket is connected", what);
    if(s.get_socket_descriptor() != -1) fail("half-open", "%s: connect failed but the socket has descriptor %d", what, s.get_socket_descriptor());
}

void matrix()
{
    static const char *const hosts[] = {"server.test", "server.test", "server.test", "a.wild.test", "b.wild.test", "x.y.wild.test", "wild.test", "other.test", "server.test.evil.test", "evil.test", "SERVER.TEST", "10.0.0.1", "10.0.0.1"};
    for(const char *h : hosts) dns(h, {Addr{"10.0.0.1"}});
    bool ca1 = !wchance(0.15), ca2 = wchance(0.15);
    auto cc = tls_context(false);
    if(wchance(0.5)) { if(ca1 && !cc->load_ca_certs_from_file(cert("ca.pem"))) fail("setup", "ca"); if(ca2 && !cc->load_ca_certs_from_file(cert("ca2.pem"))) fail("setup", "ca2"); }
    else
    {
        for(int i = 0; i < 2; ++i)
        {
            if(!(i ? ca2 : ca1)) continue;
            FILE *f = fopen(cert(i ? "ca2.pem" : "ca.pem").c_str(), "r"); char b[4000]; size_t n = fread(b, 1, sizeof b, f); fclose(f);
            if(!cc->load_ca_certs_from_memory(std::string(b, n + 0) + std::string(1, 0))) if(!cc->load_ca_certs_from_memory(std::string(b, n))) fail("setup", "load_ca_certs_from_memory");
        }
    }
    auto sc = tls_context(false);
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_RECV_EINTR, 0.15}, {F_SEND_EINTR, 0.15}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_CPU_STALL, 0.005}, {F_ACCEPT_EINTR, 0.05}});
    int steps = 1 + (int)wl(3);
    auto s = std::make_shared<fr::SSLSocket>(cc); s->set_inet_version(fr::Socket::IP::v4);
    std::vector<std::pair<std::string, std::unique_ptr<fr::SSLListener>>> ls; int port = 9800;
    bool verify = true;
    for(int i = 0; i < steps; ++i)
    {
        if(wchance(0.3)) { s = std::make_shared<fr::SSLSocket>(cc); s->set_inet_version(fr::Socket::IP::v4); verify = true; }
        if(wchance(0.3)) { verify = !wchance(0.6); s->verify_certificates(verify); }
        const Cert &c = certs[wl(wchance(0.4) ? 1 : sizeof certs / sizeof *certs)];
        std::string host = hosts[wl(wchance(0.5) ? 1 : sizeof hosts / sizeof *hosts)];
        // the clock: now, somewhere in the validity of another certificate, or right at a boundary
        int64_t t;
        switch(wl(5)) { case 3: t = unix_s(c.from) + (int64_t)wrange(-3, 3) * 3600; break; case 4: t = unix_s(c.to) + (int64_t)wrange(-3, 3) * 3600; break; case 2: { static const int y[] = {2005, 2012, 2023, 2034, 2037, 2045, 2060}; t = unix_s(y[wl(7)]); break; } default: t = BASE; }
        set_wall_offset((t - BASE) * SEC - now());
        bool lib = wchance(0.5), stolen = !lib && wchance(0.3); // stolen: it presents a certificate whose key it doesn't have
        bool chains = (c.ca1 && ca1) || (!strcmp(c.name, "unknown") && ca2);
        bool named = names(c, host) || (host == "SERVER.TEST" && names(c, "server.test"));
        bool in_time = t >= unix_s(c.from) + 3600 && t <= unix_s(c.to) - 3600, at_edge = llabs(t - unix_s(c.from)) < 3600 || llabs(t - unix_s(c.to)) < 3600;
        if(t < unix_s(2000) || t > unix_s(2099) - 3600) chains = false;
        bool good = chains && named && in_time, ok = (good || !verify) && !stolen;
        note("%s certificate, host %s, time %lld, verify %d, authorities %d%d%s%s", c.name, host.c_str(), (long long)t, verify, ca1, ca2, stolen ? ", key not owned" : "", lib ? "" : ", scripted server");
        bool done = false; int sr = 0; St as = St::Unknown; int srv; std::shared_ptr<fr::SSLSocket> acc; fr::SSLListener *ll = nullptr; SockP xl;
        if(lib)
        {
            for(auto &l : ls) if(l.first == c.name) { ll = l.second.get(); port = 9800 + (int)(&l - &ls[0]); }
            if(!ll) { port = 9800 + (int)ls.size(); ls.emplace_back(c.name, tls_listener(sc, c.name)); ll = ls.back().second.get(); if(ll->listen(std::to_string(port)) != St::Success) fail("setup", "TLS listen"); }
            acc = std::make_shared<fr::SSLSocket>(sc);
            srv = spawn("server", [&] {
                for(int k = 0; k < 100; ++k) { as = LIB(ll->accept(*acc)); if(as != St::AcceptError) break; }
                if(as == St::Success)
                {
                    char b[8]; size_t sent = 0; acc->set_receive_timeout(100000); acc->reconfigure_socket();
                    if(LIB(acc->receive_all(b, 4)) == St::Success) LIB(acc->send_raw("pong", 4, sent));
                }
                done = true;
            });
        }
        else
        {
            port = 9700 + i; xl = xlisten("10.0.0.1", port); std::string cn = c.name; bool st = stolen;
            srv = spawn("server", [&, cn, st] {
                SockP p = xaccept(xl, now() + 100 * SEC); if(!p) { done = true; return; }
                XTls x; x.deadline = now() + 1000 * SEC; x.keyname = st ? (cn == "other" ? "good" : "other") : "";
                sr = x.start(p, true, cn.c_str());
                char b[4]; size_t g = 0; if(!sr) { while(g < 4) { int k = x.recv(b + g, 4 - g); if(k <= 0) break; g += k; } if(g == 4) x.send("pong"); }
                xclose(p); done = true;
            });
        }
        St r = LIB(s->connect(host, std::to_string(port), std::chrono::seconds(30)));
        nontrivial();
        if(r == St::Success)
        {
            if(verify && stolen) fail("impostor", "connected to a server that doesn't own the key of its certificate");
            if(verify && !at_edge && !good) fail("unverified", "connect with verification on succeeded: %s certificate, host %s, unix time %lld, authorities %d%d", c.name, host.c_str(), (long long)t, ca1, ca2);
            if(stolen) fail("impostor", "connected to a server that doesn't own the key of its certificate");
            if(verify && at_edge && !(chains && named)) fail("unverified", "connect with verification on succeeded: %s certificate, host %s", c.name, host.c_str());
            if(!s->connected()) fail("status", "a successful connect left the socket unconnected");
            talk(*s); probe(verify ? "verified connection" : "unverified connection");
            if(lib && !acc->connected()) { if(!block_until([&] { return as != St::Unknown; }, now() + 100 * SEC) || as != St::Success) fail("server", "the server's accept: %s", sname(as)); }
        }
        else
        {
            if(ok && !at_edge) fail("refused", "connect failed with %s (-0x%x) although all is well: %s certificate, host %s, unix time %lld, verify %d", sname(r), -errno, c.name, host.c_str(), (long long)t, verify);
            check_dead(*s, "bad certificate"); probe("refused connection");
            char b[4]; size_t g = 0; (void)b; (void)g;
        }
        if(wchance(0.7)) LIBV((s->disconnect(), 0)); else if(r == St::Success) probe("reconnected");
        if(!block_until([&] { return done; }, now() + 2000 * SEC)) { if(s->connected()) s->disconnect(); if(!block_until([&] { return done; }, now() + 2000 * SEC)) fail("server-hang", "the server end never finished"); }
        join(srv);
        if(lib && r != St::Success && as == St::Success && acc->connected()) { char q[4]; size_t g = 0; acc->set_receive_timeout(1000); acc->reconfigure_socket(); St e = LIB(acc->receive_raw(q, 4, g)); if(e == St::Success || idle(e)) fail("half-open", "the client refused the connection but the server's end still waits (%s)", sname(e)); }
        if(xl) xclose(xl);
    }
}

// handshakes that go wrong: what the other end (or someone on the wire) does
void disturbed()
{
    static const char *const ways[] = {"closes", "resets", "flips a bit", "cuts the stream", "sends noise", "speaks plain text", "is silent", "inserts bytes", "drops bytes", "client alert", "a record that is too long", "the kernel fails"};
    bool client = wchance(0.5); // the library is the client under attack, or the server
    auto cc = tls_context(), sc = tls_context(false);
    dns("server.test", {Addr{"10.0.0.1"}});
    int way = (int)wl(12); size_t at = wl(wchance(0.5) ? 1200 : 120); uint32_t bit = wl(8), extra = 1 + wl(40);
    bool verify = wchance(0.8);
    note("%s, the other end %s at byte %zu", client ? "client" : "server", ways[way], at);
    std::unique_ptr<fr::SSLListener> l = tls_listener(sc); fr::SSLListener *lp = l.get();
    if(l->listen("9443") != St::Success) fail("setup", "TLS listen");
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_RECV_EINTR, 0.15}, {F_SEND_EINTR, 0.15}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_CPU_STALL, 0.005}});
    if(way == 11) { enable(wchance(0.5) ? F_RECV_FAIL : F_SEND_FAIL, 0.05 + 0.1 * wl(5)); }
    int rounds = 1 + (int)wl(2);
    for(int round = 0; round < rounds; ++round)
    {
        auto seen = std::make_shared<size_t>(0); auto hit = std::make_shared<bool>(false), benign = std::make_shared<bool>(false);
        struct Rec { size_t hdr = 0, left = 0; }; auto rec = std::make_shared<Rec>();
        // the attacker: bytes flowing into the library's end
        auto mangle = [=](std::string &d) {
            size_t o = *seen; *seen += d.size();
            for(size_t k = 0; k < d.size(); ++k) // where the attacked byte is: the version in a record header isn't protected before the keys are in use
            {
                if(o + k == at && (rec->hdr == 1 || rec->hdr == 2)) *benign = true;
                if(rec->hdr < 5) { if(rec->hdr >= 3) rec->left = (rec->left << 8 | (unsigned char)d[k]) & 0xffff; if(++rec->hdr == 5 && !rec->left) rec->hdr = 0; }
                else if(--rec->left == 0) rec->hdr = 0;
            }
            if(*hit && way == 3) { d.clear(); return; }
            if(*hit || *seen <= at) return;
            size_t i = at - o; *hit = true; count_fault(F_TAMPER);
            switch(way)
            {
                case 2: d[i] ^= (char)(1 << bit); break;
                case 3: d.erase(i); break;
                case 7: d.insert(i, patstr(3, at, extra)); break;
                case 8: d.erase(i, extra); break;
                default: break;
            }
        };
        bool scripted = way == 0 || way == 1 || way == 4 || way == 5 || way == 6 || way == 9 || way == 10;
        St cs = St::Unknown, as = St::Unknown;
        auto c = std::make_shared<fr::SSLSocket>(cc), a = std::make_shared<fr::SSLSocket>(sc); c->set_inet_version(fr::Socket::IP::v4); c->verify_certificates(verify); c->set_receive_timeout(20000);
        bool gone = false;
        auto junk = [&](const SockP &p) { // what a scripted end sends
            std::string d; char b[3000];
            if(way == 4) d = patstr(8, at, extra * 20);
            if(way == 5) d = client ? "HTTP/1.1 400 Bad Request\r\n\r\n" : "GET / HTTP/1.1\r\nHost: x\r\n\r\n";
            if(way == 9) d = std::string("\x15\x03\x03\x00\x02\x02\x28", 7);
            if(way == 10) d = std::string("\x16\x03\x01\xff\xff", 5) + patstr(8, 0, 3000);
            if(client && at % 2) { bool to; xrecv(p, b, sizeof b, now() + 20 * SEC, &to); }
            if(!d.empty()) xsend(p, d.data(), d.size(), now() + 100 * SEC);
            sleep_ns((ns)wl(3) * SEC);
            if(way == 6) { sleep_ns(200 * SEC); }
            else if(way != 0 && way != 1 && wchance(0.5)) while(xrecv(p, b, sizeof b, now() + 100 * SEC)) {}
            if(way == 1) xreset(p); else xclose(p);
            gone = true;
        };
        // partial handshake: a real one whose transport is cut after `at` bytes
        auto half = [&](const SockP &p, bool server) { XTls x; x.left = at; x.deadline = now() + 500 * SEC; int r = x.start(p, server); if(r == 0) x.completed = true; if(way == 1) xreset(p); else xclose(p); gone = true; return x.completed; };
        bool completed = false; std::string what = ways[way];
        if(client)
        {
            SockP xl; int srv;
            if(scripted)
            {
                xl = xlisten("10.0.0.1", 9500 + round);
                srv = spawn("server", [&] { SockP p = xaccept(xl, now() + 60 * SEC); if(!p) return; if((way == 0 || way == 1) && at > 3) completed = half(p, true); else junk(p); });
            }
            else srv = spawn("server", [&] { as = LIB(lp->accept(*a)); if(as == St::Success) { char b[4]; size_t g; LIBV(a->receive_raw(b, 4, g)); } });
            if(!scripted && way != 11) on_next_connection([=](const SockP &mine, const SockP &) { set_tamper(mine, mangle); });
            ns t0 = now();
            cs = LIB(c->connect("server.test", std::to_string(scripted ? 9500 + round : 9443), std::chrono::seconds(10)));
            if(now() - t0 > 400 * SEC + stalled()) fail("slow", "connect took %.0fs", (now() - t0) / 1e9);
            nontrivial();
            if(cs == St::Success)
            {
                if(scripted && !completed && !(way == 0 || way == 1)) fail("fooled", "connect succeeded with a peer that %s", ways[way]);
                if(*hit && (way == 3 || way == 7 || way == 8 || (way == 2 && !*benign))) fail("fooled", "connect succeeded although someone %s inside the handshake", ways[way]);
                LIBV((c->disconnect(), 0));
            }
            else { check_dead(*c, ways[way]); probe(ways[way]); }
            LIBV((c->disconnect(), 0));
            if(!block_until([srv] { return finished(srv); }, now() + 2000 * SEC)) fail("server-hang", "accept does not return after the client failed (%s)", ways[way]);
            if(!scripted && cs != St::Success && as == St::Success && a->connected()) { char q[4]; size_t g = 0; a->set_receive_timeout(100); a->reconfigure_socket(); St e = LIB(a->receive_raw(q, 4, g)); if(e == St::Success) fail("half-open", "data from a client that gave up"); }
            if(!scripted && as != St::Success && a->connected()) fail("half-open", "accept failed but the socket is connected");
            if(xl) xclose(xl);
        }
        else
        {
            int cl;
            if(scripted) cl = spawn("client", [&] { SockP p = xconnect("10.0.0.1", 9443, "10.3.3.3", now() + 60 * SEC); if(!p) fail("setup", "no connection"); if((way == 0 || way == 1) && at > 3) completed = half(p, false); else junk(p); });
            else
            {
                if(way != 11) on_next_connection([=](const SockP &, const SockP &theirs) { set_tamper(theirs, mangle); });
                cl = spawn("client", [&] { cs = LIB(c->connect("server.test", "9443", std::chrono::seconds(10))); if(cs == St::Success) { char b[4]; size_t g; LIBV(c->receive_raw(b, 4, g)); } c->disconnect(); });
            }
            // somebody who takes part no longer holds accept up no longer than the timeout that is set
            ns rt = way == 6 && wchance(0.8) ? (ns)(wchance(0.5) ? 1 + wl(2000) : 1 + wl(60000)) * MS : 0, t0 = now(); uint64_t eintr = faults_fired(F_RECV_EINTR);
            if(rt) a->set_receive_timeout((uint32_t)(rt / MS));
            as = LIB(lp->accept(*a));
            if(rt && now() - t0 > rt * (ns)(1 + faults_fired(F_RECV_EINTR) - eintr) + 10 * SEC + stalled()) fail("held-up", "a client that %s held up accept for %.1fs, the receive timeout is %.3fs", ways[way], (now() - t0) / 1e9, rt / 1e9);
            if(rt) probe("silent client given up on");
            nontrivial();
            if(as == St::Success)
            {
                if(*hit && (way == 3 || way == 7 || way == 8 || (way == 2 && !*benign))) fail("fooled", "accept succeeded although someone %s inside the handshake", ways[way]);
                if(scripted && !completed && way != 0 && way != 1) fail("fooled", "accept succeeded with a peer that %s", ways[way]);
                LIBV((a->disconnect(), 0));
            }
            else { if(a->connected() || a->get_socket_descriptor() != -1) fail("half-open", "accept failed (%s) but the socket is connected", ways[way]); probe(ways[way]); }
            if(!block_until([cl] { return finished(cl); }, now() + 2000 * SEC)) fail("client-hang", "the client's connect does not return (%s)", ways[way]);
            if(!scripted && cs != St::Success) check_dead(*c, ways[way]);
        }
    }
    // the listener goes on, and the client's object works
    quiesce();
    auto c = std::make_shared<fr::SSLSocket>(cc), a = std::make_shared<fr::SSLSocket>(sc); c->set_inet_version(fr::Socket::IP::v4);
    int t = spawn("server", [&] { for(int k = 0; k < 20; ++k) { St r = LIB(lp->accept(*a)); if(r == St::Success) { char b[8]; size_t s = 0; if(LIB(a->receive_all(b, 4)) == St::Success) LIBV(a->send_raw("pong", 4, s)); return; } } });
    St r = LIB(c->connect("server.test", "9443", std::chrono::seconds(60)));
    if(r != St::Success) fail("listener", "after a failed handshake the next client gets %s (-0x%x)", sname(r), -errno);
    talk(*c); join(t);
}
}

SCENARIO(S18)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    if(wl(2)) disturbed(); else matrix();
}
