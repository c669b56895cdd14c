// S19: connections used from different threads do not affect each other.
#include "tls.h"
#include "wsutil.h"
#include <frnetlib/Sha1.h>
#include <frnetlib/Base64.h>
#include <frnetlib/URL.h>
#include <frnetlib/SocketSelector.h>

namespace {
enum Job { J_PACKETS, J_FRAMES, J_HTTP, J_LIMIT, J_TIMEOUT, J_DUPLEX, J_PURE, J_VICTIM, J_SELECTOR, J_CONNECTS, J_WEBSOCKET, J_COUNT };
const char *const job_names[] = {"packets", "frames", "http", "limit", "timeout", "full duplex", "pure functions", "victim", "selector", "connects", "websocket"};

struct Conn { int i = 0; Job job = J_PACKETS; std::shared_ptr<fr::Socket> a, b; int rounds = 1; uint32_t limit = 0, tmo = 0; bool bad = false; std::shared_ptr<WS> wa, wb; };

void need(St r, const Conn &c, const char *what) { if(r != St::Success) fail("affected", "%s on connection %d (%s): %s, on a healthy connection", what, c.i, job_names[c.job], sname(r)); }
size_t jsize(const Conn &c, int k) { (void)c; (void)k; return wchance(0.1) ? wl(20000) : wl(300); }

void packets_out(Conn &c, fr::Socket &s, int side)
{
    for(int k = 0; k < c.rounds; ++k)
    {
        fr::Packet p; std::string d = patstr(100 * c.i + 10 * side, k, jsize(c, k));
        LIBV((p << (uint32_t)(c.i * 1000 + k) << d << (uint8_t)side << (double)(c.i + k / 8.0) << (bool)(k & 1) << (int64_t)-k, 0));
        need(LIB(s.send(p)), c, "sending a packet");
    }
}
void packets_in(Conn &c, fr::Socket &s, int side)
{
    fr::Packet q;
    for(int k = 0; k < c.rounds; ++k)
    {
        fr::Packet fresh; fr::Packet &p = k & 1 ? q : fresh;
        need(LIB(s.receive(p)), c, "receiving a packet");
        uint32_t n = 0; std::string d; uint8_t sd = 9; double f = 0; bool b = false; int64_t m = 1;
        LIBV((p >> n >> d >> sd >> f >> b >> m, 0));
        if(n != (uint32_t)(c.i * 1000 + k) || sd != side || f != c.i + k / 8.0 || b != (bool)(k & 1) || m != -k || d != patstr(100 * c.i + 10 * side, k, d.size())) fail("mixed-up", "packet %d of connection %d holds other values (%u, side %d)", k, c.i, n, sd);
        nontrivial();
    }
}
template<class F> void frames_out(Conn &c, fr::Socket &s, int side)
{
    for(int k = 0; k < c.rounds; ++k)
    {
        F f; f.set_opcode(k & 1 ? fr::WebFrame::Opcode::Text : fr::WebFrame::Opcode::Binary); f.set_final(k % 3 != 0);
        std::string d = patstr(100 * c.i + 10 * side + 1, k, jsize(c, k)); f.set_payload(d);
        need(LIB(s.send(f)), c, "sending a frame");
        if(f.get_payload() != d) fail("mixed-up", "sending changed a frame");
    }
}
template<class F> void frames_in(Conn &c, fr::Socket &s, int side)
{
    F f;
    for(int k = 0; k < c.rounds; ++k)
    {
        need(LIB(s.receive(f)), c, "receiving a frame");
        if(f.get_opcode() != (k & 1 ? fr::WebFrame::Opcode::Text : fr::WebFrame::Opcode::Binary) || f.is_final() != (k % 3 != 0) || f.get_payload() != patstr(100 * c.i + 10 * side + 1, k, f.get_payload().size())) fail("mixed-up", "frame %d of connection %d holds something else", k, c.i);
        nontrivial();
    }
}
// what each end of a connection does
void client(Conn &c)
{
    fr::Socket &s = *c.a;
    switch(c.job)
    {
        case J_PACKETS: packets_out(c, s, 0); packets_in(c, s, 1); break;
        case J_FRAMES: frames_out<fr::ClientWebFrame>(c, s, 0); frames_in<fr::ClientWebFrame>(c, s, 1); break;
        case J_WEBSOCKET: break;
        case J_HTTP:
            for(int k = 0; k < c.rounds; ++k)
            {
                std::string id = std::to_string(c.i * 1000 + k), body = patstr(100 * c.i + 2, k, jsize(c, k));
                fr::HttpRequest q; q.set_type(fr::Http::RequestType::Put); q.set_uri("/c" + id); q.get("id") = id; q.header("X-Id") = id; q.set_body(body);
                need(LIB(s.send(q)), c, "sending a request");
                fr::HttpResponse r; need(LIB(s.receive(r)), c, "receiving a response");
                if(r.header("X-Id") != id || r.get_body() != "re:" + id + body || (int)r.get_status() != (k & 1 ? 404 : 200)) fail("mixed-up", "response %d of connection %d holds something else", k, c.i);
                nontrivial();
            }
            break;
        case J_LIMIT:
        {
            s.set_max_receive_size(c.limit);
            for(int k = 0; k < c.rounds; ++k)
            {
                fr::Packet p; size_t n = k + 1 < c.rounds ? c.limit - (size_t)k % c.limit : c.limit + 1;
                St r = LIB(s.receive(p));
                if(n <= c.limit ? r != St::Success : r != St::MaxPacketSizeExceeded) fail("affected", "a packet of %zu bytes with a limit of %u: %s", n, c.limit, sname(r));
            }
            nontrivial(); break;
        }
        case J_TIMEOUT:
        {
            s.set_receive_timeout(c.tmo);
            for(int k = 0; k < c.rounds; ++k)
            {
                char b[4]; size_t g = 0; ns t0 = now(), s0 = stalled(); St r = LIB(s.receive_raw(b, 4, g)); ns d = now() - t0;
                if(r != St::Timeout) fail("affected", "a receive with nothing to receive: %s", sname(r));
                if(d < (ns)c.tmo * MS || d > (ns)c.tmo * MS + 20 * MS + 5 * (ns)c.tmo * MS * (faults_fired(F_RECV_EINTR) > 0) * 40 + (stalled() - s0) * 2) fail("affected", "a receive with a timeout of %u ms returned after %.1f ms", c.tmo, d / 1e6);
            }
            nontrivial(); break;
        }
        case J_VICTIM:
        {
            fr::HttpResponse r; St st = LIB(s.receive(r));
            if(st == St::Success) fail("setup", "noise was received as a response");
            LIBV((s.disconnect(), 0)); break;
        }
        default: break;
    }
}
void server(Conn &c)
{
    fr::Socket &s = *c.b;
    switch(c.job)
    {
        case J_PACKETS: packets_in(c, s, 0); packets_out(c, s, 1); break;
        case J_FRAMES: frames_in<fr::ServerWebFrame>(c, s, 0); frames_out<fr::ServerWebFrame>(c, s, 1); break;
        case J_HTTP:
            for(int k = 0; k < c.rounds; ++k)
            {
                fr::HttpRequest q; need(LIB(s.receive(q)), c, "receiving a request");
                std::string id = std::to_string(c.i * 1000 + k);
                if(q.get_type() != fr::Http::RequestType::Put || q.get_uri() != "/c" + id || q.get("id") != id || q.header("X-Id") != id || q.get_body() != patstr(100 * c.i + 2, k, q.get_body().size())) fail("mixed-up", "request %d of connection %d holds something else (%s)", k, c.i, q.get_uri().c_str());
                fr::HttpResponse r; r.set_status(k & 1 ? fr::Http::RequestStatus::NotFound : fr::Http::RequestStatus::Ok); r.header("X-Id") = id; r.set_body("re:" + id + q.get_body());
                need(LIB(s.send(r)), c, "sending a response");
            }
            break;
        case J_LIMIT:
            for(int k = 0; k < c.rounds; ++k) { size_t n = k + 1 < c.rounds ? c.limit - (size_t)k % c.limit : c.limit + 1; fr::Packet p; std::string d = patstr(3, k, n); p.add_raw(d.data(), d.size()); St r = LIB(s.send(p)); if(n <= c.limit) need(r, c, "sending a packet"); }
            break;
        case J_SELECTOR:
            for(int k = 0; k < c.rounds; ++k)
            {
                size_t sent = 0; std::string d = patstr(100 * c.i + 7, 16 * (size_t)k, 16); need(LIB(s.send_raw(d.data(), d.size(), sent)), c, "sending");
                if(wchance(0.5)) sleep_ns((ns)wl(4) * 20 * MS);
            }
            break;
        case J_VICTIM:
        {
            std::string d = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + patstr(4, 0, 200); size_t sent = 0;
            LIBV(s.send_raw(d.data(), d.size(), sent)); LIBV((s.disconnect(), 0)); break;
        }
        default: break;
    }
}
void pure(int i, int rounds)
{
    for(int k = 0; k < rounds; ++k)
    {
        std::string d = patstr(500 + i, k, 3 + wl(120));
        // computed alone, then again with the others running
        std::string s1, b1, e1, d1; { Atomic alone; s1 = fr::Sha1::sha1_digest(d); b1 = fr::Base64::encode(d); e1 = fr::Http::url_encode(d); d1 = fr::Http::url_decode(e1); }
        if(LIB(fr::Sha1::sha1_digest(d)) != s1) fail("mixed-up", "SHA-1 of %zu bytes is wrong", d.size());
        if(LIB(fr::Base64::encode(d)) != b1) fail("mixed-up", "Base64 of %zu bytes is wrong", d.size());
        if(LIB(fr::Http::url_encode(d)) != e1) fail("mixed-up", "percent-encoding is wrong");
        if(LIB(fr::Http::url_decode(e1)) != d1) fail("mixed-up", "percent-decoding is wrong");
        const char *f[] = {"a.html", "b.png", "c.unknown"}, *m[] = {"text/html", "image/png", "application/octet-stream"};
        if(LIB(fr::Http::get_mimetype(f[k % 3])) != m[k % 3]) fail("mixed-up", "the type of %s is %s", f[k % 3], fr::Http::get_mimetype(f[k % 3]).c_str());
        fr::URL u; LIBV((u = fr::URL("http://host" + std::to_string(i) + ".test:80" + std::to_string(k) + "/p" + std::to_string(i) + "?q=" + std::to_string(k)), 0));
        if(u.get_host() != "host" + std::to_string(i) + ".test" || u.get_port() != "80" + std::to_string(k)) fail("mixed-up", "URL parsed to host %s port %s", u.get_host().c_str(), u.get_port().c_str());
        nontrivial();
    }
}
}

SCENARIO(S19)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    int n = 2 + (int)wl(4);
    bool tls = wchance(0.08), same = wchance(0.3); Job j0 = (Job)wl(J_COUNT);
    std::vector<Conn> cs(n);
    for(int i = 0; i < n; ++i)
    {
        Conn &c = cs[i]; c.i = i; c.job = same ? j0 : (Job)wl(J_COUNT); c.rounds = 1 + (int)wl(5); c.limit = 1 + wl(2000); c.tmo = 100 * (1 + wl(30));
        if(tls && (c.job == J_DUPLEX || c.job == J_WEBSOCKET)) c.job = J_PACKETS;
    }
    note("%d connections%s: %s %s %s ...", n, tls ? " over TLS" : "", job_names[cs[0].job], job_names[cs[1].job], n > 2 ? job_names[cs[2].job] : "");
    fr::TcpListener tl; std::unique_ptr<fr::SSLListener> xl; std::shared_ptr<fr::SSLContext> cc, sc; fr::Listener *l = &tl;
    if(tls) { cc = tls_context(); sc = tls_context(false); xl = tls_listener(sc); l = xl.get(); dns("server.test", {Addr{"10.0.0.1"}}); }
    l->set_inet_version(fr::Socket::IP::v4);
    if(l->listen("9850") != St::Success) fail("setup", "listen");
    swarm({{F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_STALL, 0.01}, {F_RECV_EINTR, 0.1}, {F_SEND_EINTR, 0.15}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_CPU_STALL, 0.002}, {F_EPOLL_EINTR, 0.1}, {F_EPOLL_SHUFFLE, 0.3}});
    auto mk = [&](const std::shared_ptr<fr::SSLContext> &x) -> std::shared_ptr<fr::Socket> { if(tls) return std::make_shared<fr::SSLSocket>(x); return std::make_shared<fr::TcpSocket>(); };
    std::vector<int> ts;
    // every connection: one thread connects and is the client, one accepts and is the server (whichever connection it got)
    auto with_conn = [](const Conn &c) { return c.job != J_PURE && c.job != J_WEBSOCKET && c.job != J_CONNECTS; };
    int accepts = 0; for(auto &c : cs) accepts += with_conn(c);
    Conn *cp = cs.data();
    for(int k = 0; k < accepts; ++k)
        ts.push_back(spawn("server" + std::to_string(k), [&, cp] {
            auto s = mk(sc); St r = St::Unknown;
            for(int q = 0; q < 50; ++q) { r = LIB(l->accept(*s)); if(r == St::Success) break; }
            if(r != St::Success) fail("affected", "accept: %s", sname(r));
            unsigned char id = 255; r = LIB(s->receive_all(&id, 1));
            if(r != St::Success || id >= n || cp[id].b) fail("affected", "the first byte of an accepted connection: %s, %d", sname(r), id);
            Conn &c = cp[id]; c.b = s;
            if(s->get_remote_address() != "10.2.0." + std::to_string(id + 1)) fail("mixed-up", "the connection of client %d is labelled %s", id, s->get_remote_address().c_str());
            if(c.job == J_DUPLEX)
            {
                int t = spawn("server-send", [&c] { packets_out(c, *c.b, 1); });
                packets_in(c, *c.b, 0); join(t);
            }
            else server(c);
            // keep the connection until the client is done
            if(c.job != J_VICTIM) { char b[8]; size_t g = 0; if(c.job == J_LIMIT || c.job == J_TIMEOUT || c.job == J_SELECTOR) LIBV(c.b->receive_raw(b, 8, g)); }
        }));
    for(int i = 0; i < n; ++i)
        ts.push_back(spawn("client" + std::to_string(i), [&, cp, i] {
            Conn &c = cp[i];
            next_source("10.2.0." + std::to_string(i + 1));
            if(c.job == J_PURE) { pure(i, c.rounds * 2); return; }
            if(c.job == J_CONNECTS)
            {
                // names of its own, each with one address that refuses and one that works
                for(int k = 0; k < c.rounds; ++k)
                {
                    std::string h = "h" + std::to_string(i) + "-" + std::to_string(k) + ".test", a = "10.20." + std::to_string(i) + "." + std::to_string(k + 1);
                    dns(h, {Addr{"10.21.0.9", Refuse}, Addr{a}}); SockP x = xlisten(a, 9900);
                    fr::TcpSocket s; s.set_inet_version(fr::Socket::IP::v4);
                    St r = LIB(s.connect(h, "9900", std::chrono::seconds(20))); need(r, c, "connecting");
                    if(s.get_remote_address() != h + ":9900") fail("mixed-up", "labelled %s instead of %s", s.get_remote_address().c_str(), h.c_str());
                    SockP p = xaccept(x, now() + 20 * SEC); if(!p) fail("mixed-up", "connected elsewhere");
                    fr::TcpSocket t; r = LIB(t.connect("10.21.0.8", "1", std::chrono::seconds(1))); if(r == St::Success || t.connected()) fail("mixed-up", "connected to nobody");
                    xclose(p); xclose(x); nontrivial();
                }
                return;
            }
            if(c.job == J_WEBSOCKET)
            {
                std::string port = std::to_string(9860 + i);
                fr::TcpListener wl_; wl_.set_inet_version(fr::Socket::IP::v4); if(LIB(wl_.listen(port)) != St::Success) fail("setup", "listen");
                c.wa = std::make_shared<WS>(); c.wb = std::make_shared<WS>();
                int t = spawn("ws-server", [&c, &wl_] {
                    St r = St::Unknown; for(int q = 0; q < 50; ++q) { r = LIB(wl_.accept(*c.wb)); if(r == St::Success) break; }
                    need(r, c, "accepting a WebSocket"); frames_in<fr::ServerWebFrame>(c, *c.wb, 0); frames_out<fr::ServerWebFrame>(c, *c.wb, 1);
                });
                need(LIB(c.wa->connect("10.0.0.1", port, std::chrono::seconds(30))), c, "connecting a WebSocket");
                frames_out<fr::ClientWebFrame>(c, *c.wa, 0); frames_in<fr::ClientWebFrame>(c, *c.wa, 1);
                join(t); return;
            }
            c.a = mk(cc); c.a->set_inet_version(fr::Socket::IP::v4);
            need(LIB(c.a->connect(tls ? "server.test" : "10.0.0.1", "9850", std::chrono::seconds(60))), c, "connecting");
            size_t sent = 0; char id = (char)i; need(LIB(c.a->send_raw(&id, 1, sent)), c, "sending");
            if(c.job == J_DUPLEX)
            {
                int t = spawn("client-send", [&c] { packets_out(c, *c.a, 0); });
                packets_in(c, *c.a, 1); join(t);
            }
            else if(c.job == J_SELECTOR)
            {
                fr::SocketSelector sel; LIBV((sel.add(c.a, &c), 0)); int fd = c.a->get_socket_descriptor(); unsigned have = 0; ns t0 = now();
                auto other = std::make_shared<fr::TcpSocket>(); bool two = wchance(0.3); SockP xl, xp; // a second socket in the same selector, with nothing to read
                if(two)
                {
                    std::string ip = "10.22.0." + std::to_string(i + 1); xl = xlisten(ip, 9901);
                    need(LIB(other->connect(ip, "9901", std::chrono::seconds(20))), c, "connecting"); LIBV((sel.add(other, &other), 0));
                }
                while(have < 16 * (unsigned)c.rounds)
                {
                    if(now() - t0 > 5000 * SEC + stalled()) fail("affected", "a selector doesn't report what arrives on its socket");
                    bool was = fd_ready(fd); uint64_t e0 = faults_fired(F_EPOLL_EINTR);
                    auto v = LIB(sel.wait(std::chrono::milliseconds(50)));
                    if(v.empty() && was && faults_fired(F_EPOLL_EINTR) == e0) fail("affected", "a selector doesn't report a socket with data");
                    for(auto &x : v)
                    {
                        if(x.first.get() != c.a.get() || x.second != &c) fail("mixed-up", "the selector of connection %d reports something else", i);
                        if(!fd_ready(fd)) fail("mixed-up", "a selector reports a socket with nothing to read");
                        char b[16]; size_t g = 0; need(LIB(c.a->receive_raw(b, sizeof b, g)), c, "receiving");
                        if(std::string(b, g) != patstr(100 * c.i + 7, have, g)) fail("mixed-up", "connection %d receives something else", i);
                        have += (unsigned)g;
                    }
                    nontrivial();
                }
                if(two && LIB(sel.remove(other)) != &other) fail("mixed-up", "the selector returns another value");
                if(LIB(sel.remove(c.a)) != &c) fail("mixed-up", "the selector returns another value");
            }
            else client(c);
            LIBV((c.a->disconnect(), 0));
        }));
    for(int t : ts) if(!block_until([t] { return finished(t); }, 90000 * SEC)) fail("hang", "a thread does not finish");
}
