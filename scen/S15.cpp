// S15: blocking modes and timeouts, through any history of changes and connections.
#include "tls.h"
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/WebSocket.h>

namespace {
struct Far // the other end: the scripted kernel endpoint, or the library's TLS on it
{
    SockP x; std::shared_ptr<fr::SSLSocket> t;
    bool send(const std::string &d) { if(x) return xsend(x, d.data(), d.size(), now() + 1000 * SEC); size_t n = 0; return t->send_raw(d.data(), d.size(), n) == St::Success; }
    size_t recv(char *b, size_t n) { if(x) return xrecv(x, b, n, now() + 100000 * SEC); size_t g = 0; return t->receive_raw(b, n, g) == St::Success ? g : 0; }
    void close() { if(x) xclose(x); else if(t) t->disconnect(); x = nullptr; t = nullptr; }
};
struct Run
{
    bool tls; std::shared_ptr<fr::Socket> s; Far far; TlsPair tp; fr::TcpListener lis; SockP xl;
    bool connected = false, blocking = true; uint32_t rto = 0, sto = 0; uint64_t up = 0, down = 0; // bytes towards us, from us
    std::string hist;

    void check_mode(const char *when)
    {
        if(!connected) return;
        if(s->get_blocking() != blocking) fail("reported-mode", "%s the socket says it is %s [%s]", when, s->get_blocking() ? "blocking" : "non-blocking", hist.c_str());
        if(fd_nonblocking(s->get_socket_descriptor()) == blocking) fail("actual-mode", "%s the descriptor is %s [%s]", when, blocking ? "non-blocking" : "blocking", hist.c_str());
    }
    void patient() // the timeouts apply to the handshake too, on either side
    {
        if(rto && rto < 60000) { rto = wchance(0.5) ? 0 : 61000; s->set_receive_timeout(rto); }
        if(sto && sto < 60000) { sto = wchance(0.5) ? 0 : 61000; s->set_send_timeout(sto); }
    }
    void fresh() { connected = true; blocking = true; up = down = 0; }
    void connect()
    {
        far.close();
        hist += "connect ";
        if(tls)
        {
            patient();
            auto f = std::make_shared<fr::SSLSocket>(tp.sc); auto *l = tp.listener.get();
            int t = spawn("far", [f, l] { if(l->accept(*f) != St::Success) fail("setup", "TLS accept"); });
            St r = s->connect("server.test", "9443", std::chrono::seconds(50)); join(t);
            if(r != St::Success) fail("setup", "TLS connect: %s", sname(r));
            far.t = f;
        }
        else
        {
            SockP p; auto *pp = &p; SockP l = xl;
            int t = spawn("far", [pp, l] { *pp = xaccept(l, now() + 100 * SEC); });
            St r = s->connect("10.9.0.7", "9444", std::chrono::seconds(50)); join(t);
            if(r != St::Success || !p) fail("setup", "connect: %s", sname(r));
            far.x = p;
        }
        fresh();
    }
    void accept()
    {
        far.close();
        hist += "accept ";
        if(tls)
        {
            patient();
            auto f = std::make_shared<fr::SSLSocket>(tp.cc); f->set_inet_version(fr::Socket::IP::v4);
            int t = spawn("far", [f] { if(f->connect("server.test", "9443", std::chrono::seconds(50)) != St::Success) fail("setup", "TLS connect"); });
            St r = tp.listener->accept(*s); join(t);
            if(r != St::Success) fail("setup", "TLS accept: %s", sname(r));
            far.t = f;
        }
        else
        {
            SockP p; auto *pp = &p;
            int t = spawn("far", [pp] { *pp = xconnect("10.0.0.1", 9445, "10.4.0.4", now() + 100 * SEC); });
            St r = lis.accept(*s); join(t);
            if(r != St::Success || !p) fail("setup", "accept: %s", sname(r));
            far.x = p;
        }
        fresh();
    }
    void set_mode(bool b)
    {
        hist += b ? "blocking " : "non-blocking ";
        St r = LIB(s->set_blocking(b));
        if(!connected) { return; }
        if(r == St::Success) blocking = b;
        else { if(!faults_fired(F_FCNTL_FAIL)) fail("refused", "set_blocking(%d) on a connection failed with %s", b, sname(r)); hist += "(failed) "; probe("failed mode change"); }
    }
    void probe_receive()
    {
        // what the other side does, and when
        int what = (int)wl(3); ns D = (ns)(1 + wl(3000)) * MS; // 0: nothing for long, 1: data after D, 2: close after D
        if(what == 0 && blocking && !rto) what = 1;
        bool now_ = wchance(0.2); if(now_) D = 0;
        size_t n = 1 + wl(300); std::string data = patstr(5, up, n), b(wchance(0.5) ? n : n + wl(wchance(0.4) ? 20000 : 50), 0);
        int t = -1;
        ns T = (ns)rto * MS;
        if(what == 1) { t = spawn("data", [this, D, data] { sleep_ns(D); far.send(data); }); }
        if(what == 2 && !wchance(0.5)) what = 0;
        if(what == 0 && blocking && !rto) what = 1, t = spawn("data", [this, D, data] { sleep_ns(D); far.send(data); });
        if(what == 2) t = spawn("close", [this, D] { sleep_ns(D); far.close(); });
        if(now_ && t >= 0) { join(t); sleep_ns(100 * MS); }
        bool all = wchance(0.4); if(all) b.resize(n);
        size_t g = 777; ns t0 = now(), s0 = stalled(); uint64_t e0 = faults_fired(F_RECV_EINTR);
        St r; { sim::Lib lib; r = all ? s->receive_all(&b[0], b.size()) : s->receive_raw(&b[0], b.size(), g); }
        ns took = now() - t0, stall = stalled() - s0, slack = stall + 100 * MS;
        hist += std::string("[recv ") + (what == 0 ? "idle" : what == 1 ? "data" : "close") + "@" + std::to_string(D / MS) + "ms " + sname(r) + " " + std::to_string(took / MS) + "ms] ";
        bool there = now_ && what != 0;
        if(!all && r != St::Success && g != 0 ) fail("count", "a receive that returned %s claims %zu bytes", sname(r), g);
        if(!there && !blocking && r != St::WouldBlock && took <= D) fail("nonblocking", "a non-blocking receive with nothing there returned %s [%s]", sname(r), hist.c_str());
        if(!blocking && took > slack + (what && !now_ ? 0 : 0)) fail("waited", "a non-blocking receive took %.3fs [%s]", took / 1e9, hist.c_str());
        if(blocking && r == St::WouldBlock) fail("status", "a blocking receive returned WouldBlock [%s]", hist.c_str());
        if(r == St::Timeout)
        {
            if(!blocking) fail("status", "a non-blocking receive timed out [%s]", hist.c_str());
            if(!rto) fail("timed-out", "a receive without a timeout timed out after %.3fs [%s]", took / 1e9, hist.c_str());
            if(took < T) fail("early", "a receive with a timeout of %ums timed out after %.3fs [%s]", rto, took / 1e9, hist.c_str());
            if(what && D + slack < T && !faults_fired(F_RECV_EINTR)) fail("timed-out", "a receive timed out although data was there before [%s]", hist.c_str());
            if(there) fail("timed-out", "a receive timed out although data was there [%s]", hist.c_str());
            probe("receive timed out"); nontrivial();
        }
        if(blocking && rto && took > T * (ns)(1 + faults_fired(F_RECV_EINTR) - e0) + slack) fail("late", "a receive with a timeout of %ums took %.3fs [%s]", rto, took / 1e9, hist.c_str());
        if(blocking && what && took > D + slack) fail("late", "a receive took %.3fs although there was something after %.3fs [%s]", took / 1e9, D / 1e9, hist.c_str());
        if(blocking && r != St::Timeout)
        {
            if(!there && took + 1 < D && what) fail("early", "a blocking receive returned %s after %.3fs, before anything happened [%s]", sname(r), took / 1e9, hist.c_str());
            if(what == 1 && r != St::Success) fail("blocking", "a blocking receive with data to come returned %s [%s]", sname(r), hist.c_str());
            if(what == 2 && r != St::Disconnected) fail("blocking", "a blocking receive at the end of the connection returned %s [%s]", sname(r), hist.c_str());
            nontrivial();
        }
        if(t >= 0) join(t);
        if(what == 1)
        {
            size_t have = r == St::Success ? (all ? b.size() : g) : 0;
            if(r == St::Success && b.compare(0, have, data, 0, have)) fail("data", "wrong bytes");
            // the rest, so that the next probe starts from nothing
            sleep_ns(200 * MS + stall);
            for(int k = 0; have < n && k < 10000; ++k)
            {
                std::string rest(n - have, 0); St e = s->receive_raw(&rest[0], rest.size(), g);
                if(e == St::Success) { if(data.compare(have, g, rest, 0, g)) fail("data", "wrong bytes"); have += g; }
                else if(idle(e)) sleep_ns(SEC); else fail("data", "the rest of the data doesn't arrive: %s", sname(e));
            }
            up += n;
        }
        if(what == 2) { LIBV((s->disconnect(), 0)); far.close(); connected = false; hist += "disconnect "; }
    }
    void probe_send()
    {
        // more than the other side's buffers take; it reads from D on (or only after the call)
        size_t n = 20000 + wl(20000); std::string data = patstr(6, down, n);
        bool late = (!blocking || sto) && wchance(0.6); ns D = (ns)(1 + wl(3000)) * MS;
        std::string got; bool go = false;
        int t = spawn("reader", [&, late, D, n] { if(late) block_until([&] { return go; }); else sleep_ns(D); char b[3000]; while(got.size() < n) { size_t k = far.recv(b, std::min(sizeof b, n - got.size())); if(!k) break; got.append(b, k); } });
        size_t sent = 0; ns t0 = now(), s0 = stalled(); ns T = (ns)sto * MS; uint64_t e0 = faults_fired(F_SEND_EINTR);
        St r; { sim::Lib lib; r = s->send_raw(data.data(), n, sent); }
        ns took = now() - t0, stall = stalled() - s0, slack = stall + 100 * MS;
        hist += std::string("[send ") + (late ? "unread" : "read@" + std::to_string(D / MS) + "ms") + " " + sname(r) + " " + std::to_string(took / MS) + "ms] ";
        if(!blocking && took > slack) fail("waited", "a non-blocking send took %.3fs [%s]", took / 1e9, hist.c_str());
        if(!blocking && r == St::Success && late) fail("nonblocking", "a send succeeded without room");
        if(!blocking && r != St::WouldBlock && r != St::Success) fail("nonblocking", "a non-blocking send without room returned %s [%s]", sname(r), hist.c_str());
        if(blocking && r == St::WouldBlock) fail("status", "a blocking send returned WouldBlock [%s]", hist.c_str());
        if(blocking && late && r != St::Timeout) fail("blocking", "a blocking send without room returned %s [%s]", sname(r), hist.c_str());
        if(blocking && !sto && r != St::Success) fail("blocking", "a blocking send without a timeout returned %s [%s]", sname(r), hist.c_str());
        if(r == St::Timeout)
        {
            if(took < T) fail("early", "a send with a timeout of %ums timed out after %.3fs [%s]", sto, took / 1e9, hist.c_str());
            if(!late && D + slack < T && faults_fired(F_SEND_EINTR) == e0) fail("timed-out", "a send timed out although there was room before [%s]", hist.c_str());
            probe("send timed out");
        }
        if(blocking && sto && late && took > 2 * T + T * (ns)(faults_fired(F_SEND_EINTR) - e0) + slack) fail("late", "a send with a timeout of %ums took %.3fs [%s]", sto, took / 1e9, hist.c_str());
        if(blocking && !late && r == St::Success && took + 1 < D) fail("early", "a send that has to wait returned after %.3fs [%s]", took / 1e9, hist.c_str());
        if(blocking && !late && took > D + (sto ? 3 * T : 0) + 20 * SEC + slack) fail("late", "a send took %.3fs although there was room after %.3fs", took / 1e9, D / 1e9);
        nontrivial();
        go = true;
        for(int k = 0; r != St::Success && k < 100000; ++k)
        {
            if(!idle(r)) fail("send", "the send that was interrupted goes on with %s", sname(r));
            if(k > 3) sleep_ns(100 * MS);
            sim::Lib lib; r = s->send_raw(data.data(), n, sent);
        }
        join(t);
        if(got != data) fail("data", "%s", first_diff(got, data).c_str());
        down += n;
    }
    // the same through the message classes
    void framed_receive()
    {
        if(blocking && !rto) return;
        static const char *const kinds[] = {"packet", "frame", "request", "response"};
        int k = (int)wl(4); ns T = (ns)rto * MS; uint64_t e0 = faults_fired(F_RECV_EINTR);
        ns t0 = now(), s0 = stalled(); St r;
        {
            sim::Lib lib;
            if(k == 0) { fr::Packet m; r = s->receive(m); } else if(k == 1) { fr::ServerWebFrame m; r = s->receive(m); } else if(k == 2) { fr::HttpRequest m; r = s->receive(m); } else { fr::HttpResponse m; r = s->receive(m); }
        }
        ns took = now() - t0, slack = stalled() - s0 + 100 * MS;
        hist += std::string("[receive ") + kinds[k] + " " + sname(r) + " " + std::to_string(took / MS) + "ms] ";
        if(r != (blocking ? St::Timeout : St::WouldBlock)) fail("status", "receiving a %s with nothing there returned %s [%s]", kinds[k], sname(r), hist.c_str());
        if(blocking && took < T) fail("early", "receiving a %s with a timeout of %ums timed out after %.3fs [%s]", kinds[k], rto, took / 1e9, hist.c_str());
        if(took > (blocking ? T * (ns)(1 + faults_fired(F_RECV_EINTR) - e0) : 0) + slack) fail("late", "receiving a %s with a timeout of %ums took %.3fs [%s]", kinds[k], rto, took / 1e9, hist.c_str());
        probe("framed receive with nothing there");
    }
    void framed_send()
    {
        if(!blocking || !sto) return;
        static const char *const kinds[] = {"packet", "frame", "request", "response"};
        int k = (int)wl(4); ns T = (ns)sto * MS; St r;
        std::string d = patstr(7, 0, tls || wchance(0.5) ? 40000 : 1 + wl(500));
        if(!tls && (d.size() < 40000 || wchance(0.5))) // nothing goes any more
        {
            std::string fill = patstr(6, down, 40000); size_t sent = 0; { sim::Lib lib; r = s->send_raw(fill.data(), fill.size(), sent); }
            if(r != St::Timeout) fail("blocking", "a blocking send without room returned %s [%s]", sname(r), hist.c_str());
        }
        int fd = s->get_socket_descriptor(); uint64_t w0 = fd_written(fd);
        ns t0 = now(), s0 = stalled(); uint64_t e0 = faults_fired(F_SEND_EINTR);
        {
            sim::Lib lib;
            if(k == 0) { fr::Packet m; m.add_raw(d.data(), d.size()); r = s->send(m); } else if(k == 1) { fr::ClientWebFrame m; m.set_payload(d); r = s->send(m); } else if(k == 2) { fr::HttpRequest m; m.set_body(d); r = s->send(m); } else { fr::HttpResponse m; m.set_body(d); r = s->send(m); }
        }
        ns took = now() - t0, slack = stalled() - s0 + 100 * MS;
        hist += std::string("[send ") + kinds[k] + " " + sname(r) + " " + std::to_string(took / MS) + "ms] ";
        if(!(r == St::Timeout && (tls || fd_written(fd) == w0)) && !(r == St::Disconnected && fd_written(fd) != w0)) fail("status", "sending a %s without room returned %s after %llu bytes [%s]", kinds[k], sname(r), (unsigned long long)(fd_written(fd) - w0), hist.c_str());
        if(took < T) fail("early", "sending a %s with a timeout of %ums timed out after %.3fs [%s]", kinds[k], sto, took / 1e9, hist.c_str());
        if(took > 2 * T + T * (ns)(faults_fired(F_SEND_EINTR) - e0) + slack) fail("late", "sending a %s with a timeout of %ums took %.3fs [%s]", kinds[k], sto, took / 1e9, hist.c_str());
        probe("framed send without room"); nontrivial();
        LIBV((s->disconnect(), 0)); far.close(); connected = false; hist += "disconnect ";
    }
};
}

SCENARIO(S15)
{
    sched_mode();
    Run r; r.tls = wchance(0.35);
    time_limit(40000 * 3600 * SEC);
    next_connect_cap(r.tls ? 6000 : 2000);
    if(r.tls)
    {
        r.tp.cc = tls_context(); r.tp.sc = tls_context(false); dns("server.test", {Addr{"10.0.0.1"}});
        r.tp.listener = tls_listener(r.tp.sc); if(r.tp.listener->listen("9443") != St::Success) fail("setup", "listen");
        r.s = std::make_shared<fr::SSLSocket>(r.tp.cc);
    }
    else
    {
        r.xl = xlisten("10.9.0.7", 9444); r.lis.set_inet_version(fr::Socket::IP::v4); if(r.lis.listen("9445") != St::Success) fail("setup", "listen");
        r.s = std::make_shared<fr::TcpSocket>();
    }
    r.s->set_inet_version(fr::Socket::IP::v4);
    swarm({{F_RECV_EINTR, 0.3}, {F_SEND_EINTR, 0.3}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_CPU_STALL, 0.002}});
    double fcntl_rate = wchance(0.2) ? 0.3 : 0;
    static const uint32_t tmo[] = {0, 1, 10, 250, 999, 1000, 1001, 1500, 2000, 2750, 61000, 4000000, 4294967295u};
    int steps = 4 + (int)wl(r.tls ? 14 : 24);
    for(int k = 0; k < steps; ++k)
    {
        r.hist = r.hist.size() > 1000 ? r.hist.substr(r.hist.size() - 800) : r.hist;
        switch(wl(10))
        {
            case 0: if(wchance(0.5)) r.connect(); else r.accept(); break;
            case 1: case 2: case 3: { enable(F_FCNTL_FAIL, fcntl_rate); r.set_mode(wchance(0.5)); enable(F_FCNTL_FAIL, 0); break; }
            case 4: case 5: { r.rto = tmo[wl(13)]; r.hist += "rto=" + std::to_string(r.rto) + " "; LIBV((r.s->set_receive_timeout(r.rto), 0)); if(r.s->get_receive_timeout() != r.rto) fail("reported", "get_receive_timeout"); break; }
            case 6: { r.sto = tmo[wl(13)]; r.hist += "sto=" + std::to_string(r.sto) + " "; LIBV((r.s->set_send_timeout(r.sto), 0)); if(r.s->get_send_timeout() != r.sto) fail("reported", "get_send_timeout"); break; }
            case 7: if(r.connected && wchance(0.3)) { r.hist += "disconnect "; LIBV((r.s->disconnect(), 0)); r.far.close(); r.connected = false; } break;
            case 8: // the connection moves to another object, which finds out about the mode itself
                if(!r.tls && r.connected && wchance(0.5))
                {
                    r.hist += "handed over "; auto o = std::make_shared<fr::TcpSocket>(); int d = r.s->get_socket_descriptor();
                    sim::Lib lib; o->set_receive_timeout(r.rto); o->set_send_timeout(r.sto); r.s->set_descriptor(nullptr); o->set_descriptor(&d); r.s = o; r.s->set_inet_version(fr::Socket::IP::v4);
                    probe("handed over");
                }
                break;
            default: if(!r.connected) { if(wchance(0.5)) r.connect(); else r.accept(); }
        }
        r.check_mode("after this");
        if(r.connected && wchance(0.6)) { if(wchance(0.2)) { if(wchance(0.5)) r.framed_receive(); else r.framed_send(); } else if(wchance(0.65)) r.probe_receive(); else r.probe_send(); }
        r.check_mode("after a transfer");
    }
    quiesce();
    r.far.close();
}
