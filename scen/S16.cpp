// S16: ends and failures of connections are noticed.
#include "tls.h"
#include "msg.h"

namespace {
enum Event { E_CLOSE, E_HALF, E_RESET, E_SHUTDOWN, E_VANISH, E_NOTIFY, E_N };
const char *const ev_names[] = {"peer closes", "peer half-closes", "peer resets", "local shutdown", "peer's host vanishes", "peer ends the TLS session"};

struct Conn
{
    std::shared_ptr<fr::Socket> s; SockP peer; XTls *x = nullptr; Scripted sc; ScriptedTls st;
    bool send(const std::string &d) { return x ? x->send(d) : xsend(peer, d.data(), d.size(), now() + 4000 * SEC); }
};

void connection(bool tls)
{
    Conn c;
    if(wchance(0.3)) next_connect_cap(300 + wl(5000));
    if(tls) { next_connect_cap(8000); make_scripted_tls(c.st, wchance(0.5)); c.s = c.st.sock; c.x = c.st.peer.get(); c.peer = c.x->s; c.x->deadline = now() + 100000 * SEC; }
    else { make_scripted(c.sc); c.s = c.sc.sock; c.peer = c.sc.peer; }
    int mode = (int)wl(3); // blocking, blocking with a timeout, non-blocking
    bool patient = wchance(0.4);
    if(mode == 1) { c.s->set_receive_timeout(patient ? 1000000 : 50 + wl(3000)); if(wchance(0.5)) c.s->set_send_timeout(50 + wl(3000)); }
    if(mode == 2 && c.s->set_blocking(false) != St::Success) fail("setup", "set_blocking");
    swarm({{F_SEGMENT, 0.5}, {F_DELAY, 0.1}, {F_STALL, 0.03}, {F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_READ, 0.2}, {F_SHORT_WRITE, 0.2}, {F_CPU_STALL, 0.005}});
    int what = (int)wl(4) ? (int)wl(K_COUNT) : -1; // framed, or raw
    Event e = (Event)wl(tls ? E_N : E_NOTIFY);
    int n = (int)wl(what >= K_REQUEST ? 2 : 4); // HTTP messages are not pipelined
    std::vector<Msg> msgs; std::string raw; size_t partial = 0; Msg cut;
    for(int i = 0; i < n; ++i) { size_t z = wl(2) ? wl(2000) : wl(20); if(what >= 0) { msgs.push_back(make_msg((Kind)what, i, z)); } else raw += patstr(9, raw.size(), z); }
    if(what >= 0 && (what < K_REQUEST || !n) && wchance(0.4)) { cut = make_msg((Kind)what, 99, 1 + wl(500)); partial = 1 + wl((uint32_t)cut.wire.size() - 1); }
    ns D = wchance(0.3) ? 0 : (ns)wl(4000) * MS; bool race = wchance(0.5); // the event follows the data at once, or later
    bool reads = wchance(0.6) || e == E_HALF;    // the peer takes what is sent to it
    bool with_writer = wchance(0.5) && !tls, pending = wchance(0.8);
    const ns grace = (e == E_VANISH ? 1300 : 300) * SEC; // a host that is gone is noticed when what is sent to it stays unacknowledged
    if(e == E_VANISH && tls) pending = false;
    note("%s, %s, mode %d, %d messages, %zu bytes of another, %s after %.3fs%s", tls ? "TLS" : "TCP", what < 0 ? "raw" : kind_names[what], mode, n, partial, ev_names[e], D / 1e9, with_writer ? ", with a writer" : "");

    bool happened = false, starting = false; auto gone = std::make_shared<bool>(false); bool &peer_gone = *gone; SockP prs = c.peer; ns when = 0; bool alldata = true; Conn *cp = &c;
    int peer = spawn("peer", [&] {
        std::string w; for(auto &m : msgs) w += m.wire;
        w += raw; w += cut.wire.substr(0, partial);
        if(!w.empty() && !c.send(w)) alldata = false;
        if(!race) sleep_ns(20 * SEC);
        sleep_ns(D);
        starting = true;
        note("event: %s", ev_names[e]);
        switch(e)
        {
            case E_CLOSE: xclose(c.peer); peer_gone = true; break;
            case E_HALF: xshutdown(c.peer); break;
            case E_RESET: xreset(c.peer); peer_gone = true; break;
            case E_SHUTDOWN: LIBV((cp->s->shutdown(), 0)); peer_gone = true; break;
            case E_VANISH: xvanish(c.peer); peer_gone = true; break;
            case E_NOTIFY: c.x->notify(); xclose(c.peer); peer_gone = true; break;
            default: break;
        }
        happened = true; when = now();
    });
    if(reads && !tls) spawn("peer reads", [gone, prs] { char b[2000]; while(!*gone && xrecv(prs, b, sizeof b, now() + 5000 * SEC)) {} }, true);
    bool writer_done = false, half_ok = true;
    auto heartbeat = [&] {
        St r; int k = 0; size_t sent = 0;
        do { r = LIB(c.s->send_raw("h", 1, sent)); if(idle(r)) sleep_ns(200 * MS); } while(idle(r) && ++k < 20000);
        if(r != St::Success && !with_writer) fail("send-failed", "a send failed with %s before anything was noticed", sname(r));
        when = now(); probe("heartbeat to a vanished host");
    };
    if(e == E_VANISH && !tls && !with_writer) spawn("heartbeat", [&] { block_until([&] { return happened; }); sleep_ns((ns)wl(10) * SEC); heartbeat(); }, true);
    int wr = -1;
    if(with_writer)
        wr = spawn("writer", [&] {
            uint64_t pos = 0; bool stop = false;
            for(int k = 0; !stop; ++k)
            {
                std::string d = patstr(10, pos, 1 + wl(3000)); size_t sent = 0;
                St r = LIB(c.s->send_raw(d.data(), d.size(), sent));
                for(int j = 0; idle(r) && j < 2000; ++j) { sleep_ns(200 * MS); r = LIB(c.s->send_raw(d.data(), d.size(), sent)); if(peer_gone && now() > when + grace + stalled()) fail("send-unaware", "sends still report %s %.0fs after: %s", sname(r), (now() - when) / 1e9, ev_names[e]); }
                pos += sent;
                if(r != St::Success) { if(idle(r)) return; if(!starting) fail("send-failed", "a send failed with %s on a healthy connection", sname(r)); if(e == E_HALF) half_ok = false; break; }
                if(peer_gone && now() > when + grace + stalled()) fail("send-unaware", "sends to a dead peer still succeed after %.0fs", (now() - when) / 1e9);
                if(e == E_HALF && happened && now() > when + 10 * SEC) break;
                sleep_ns((ns)(1 + wl(50)) * 5 * MS);
            }
            writer_done = true;
        });
    if(!pending) { block_until([&] { return happened; }); sleep_ns((ns)wl(100) * SEC); }
    if(e == E_VANISH && tls) heartbeat();
    // read until the end
    size_t got = 0; std::string in; St r; Receiver rv; rv.reuse = wchance(0.5); std::string diff; ns quiet = 0;
    for(int k = 0;; ++k)
    {
        if(what < 0)
        {
            std::string b(1 + wl(3000), 0); size_t g = 55; r = LIB(c.s->receive_raw(&b[0], b.size(), g));
            if(r == St::Success) { if(!g) fail("data", "a success with no bytes"); in.append(b, 0, g); if(in != raw.substr(0, in.size())) fail("data", "data was made up: %s", first_diff(in, raw).c_str()); }
        }
        else
        {
            const Msg &m = got < msgs.size() ? msgs[got] : cut;
            Msg none; none.kind = (Kind)what;
            r = rv.recv(*c.s, got < msgs.size() || partial ? m : none, diff);
            if(r == St::Success) { if(got >= msgs.size()) fail("data", "a %s that never arrived completely is reported as received", kind_names[what]); if(!diff.empty()) fail("data", "%s: %s", kind_names[what], diff.c_str()); ++got; }
        }
        if(r == St::Success) { quiet = 0; continue; }
        if(!idle(r)) break;
        if(mode == 0 || r != (mode == 1 ? St::Timeout : St::WouldBlock)) fail("status", "a receive reports %s (%s)", sname(r), mode == 0 ? "blocking, without a timeout" : mode == 1 ? "blocking, with a timeout" : "non-blocking");
        if(happened && now() > when + grace + stalled()) fail("unaware", "a receive still reports %s %.0fs after: %s", sname(r), (now() - when) / 1e9, ev_names[e]);
        if(mode == 2) sleep_ns((ns)(1 + wl(40)) * 20 * MS);
        (void)quiet;
    }
    if(!happened) // only a message that was cut short by a timeout may end a receive before that
    {
        if(!starting && !(what >= 0 && mode == 1)) fail("early", "a receive returned %s before anything happened", sname(r));
        block_until([&] { return happened; });
    }
    if((what >= 0 && mode == 1) || e == E_NOTIFY) sleep_ns(grace);
    nontrivial();
    // a close behind unread data is a reset; a reset may destroy data on its way
    bool orderly = (e == E_CLOSE || e == E_HALF || e == E_NOTIFY) && alldata && !(with_writer && e != E_HALF) && !(e == E_CLOSE && tls && false);
    if(e == E_SHUTDOWN) orderly = false;
    if(what >= 0 && mode == 1 && !patient) orderly = false; // a timeout in the middle of a message gives it up
    if(orderly)
    {
        if(what < 0 ? in.size() != raw.size() : got != msgs.size()) fail("lost", "%s: only %zu of %zu arrived before the end was reported (%s)", ev_names[e], what < 0 ? in.size() : got, what < 0 ? raw.size() : msgs.size(), sname(r));
        if((what < 0 || !partial) && r != St::Disconnected) fail("status", "%s: the end is reported as %s", ev_names[e], sname(r));
    }
    if(e == E_SHUTDOWN && (what < 0 || !partial) && r != St::Disconnected && !with_writer && !tls && alldata) { /* a shut down socket may also see a reset */ }
    probe(ev_names[e]);
    if(what >= 0 && mode == 1 && !patient) for(int k = 0; k < 5000; ++k) { char b[4000]; size_t g = 0; if(LIB(c.s->receive_raw(b, sizeof b, g)) != St::Success) break; } // the rest of what was given up
    for(int k = 0; k < 3; ++k)
    {
        char b[10]; size_t g = 3; St q = LIB(c.s->receive_raw(b, sizeof b, g));
        if(q == St::Success || idle(q)) { if(!(partial && q == St::Success && !tls)) fail("forgot", "after the end of the connection a receive returns %s", sname(q)); }
    }
    if(wr >= 0) { if(!block_until([&] { return finished(wr); }, now() + 6000 * SEC)) fail("send-hang", "a send to a dead peer does not return"); if(writer_done && e == E_HALF && !half_ok) fail("send-failed", "sends fail after the peer ended only its own direction"); }
    else if(e != E_HALF)
    {
        // sending now fails, sooner or later, and kills nobody
        std::string d(2000, 'x'); bool failed = false;
        for(int k = 0; k < 50 && !failed; ++k) { size_t sent = 0; St q = LIB(c.s->send_raw(d.data(), d.size(), sent)); failed = q != St::Success && !idle(q); if(!failed) sleep_ns(10 * SEC); }
        if(!failed) fail("send-unaware", "sending to a dead peer never fails (%s)", ev_names[e]);
    }
    join(peer);
}

void listening(bool tls)
{
    fr::TcpListener tl; std::unique_ptr<fr::SSLListener> xl; std::shared_ptr<fr::SSLContext> sc; fr::Listener *l = &tl;
    if(tls) { sc = tls_context(false); xl = tls_listener(sc); l = xl.get(); }
    l->set_inet_version(fr::Socket::IP::v4);
    if(l->listen("9700") != St::Success) fail("setup", "listen");
    swarm({{F_ACCEPT_EINTR, 0.2}, {F_CPU_STALL, 0.01}, {F_NAMEINFO_FAIL, 0.2}});
    int n = 1 + (int)wl(3), clients = tls ? 0 : (int)wl(4); ns D = (ns)wl(3000) * MS; ns when = 0; bool shut = false; int accepted = 0;
    std::vector<int> ts;
    for(int i = 0; i < n; ++i)
        ts.push_back(spawn("acceptor", [&] {
            for(int k = 0; k < 1000; ++k)
            {
                std::shared_ptr<fr::Socket> s = tls ? std::static_pointer_cast<fr::Socket>(std::make_shared<fr::SSLSocket>(sc)) : std::make_shared<fr::TcpSocket>();
                uint64_t f = faults_fired(F_ACCEPT_EINTR);
                St r = LIB(l->accept(*s));
                if(r == St::Success) { ++accepted; if(shut && now() > when + 10 * SEC + stalled()) fail("accept", "a connection was accepted after the listener was shut down"); continue; }
                if(s->connected()) fail("accept", "accept failed but the socket is connected");
                if(shut) return;
                if(faults_fired(F_ACCEPT_EINTR) == f && !shut) fail("accept", "accept failed with %s for no reason", sname(r));
            }
            fail("accept", "accept keeps returning");
        }));
    std::vector<SockP> cl(clients); SockP *cp = cl.data();
    for(int i = 0; i < clients; ++i) ts.push_back(spawn("client", [cp, i, D] { sleep_ns((ns)wl(3000) * MS); cp[i] = xconnect("10.0.0.1", 9700, "10.3.0.1", now() + 10 * SEC); }));
    sleep_ns(D); shut = true; when = now();
    LIBV((l->shutdown(), 0));
    if(wchance(0.3)) LIBV((l->shutdown(), 0));
    for(int t : ts) if(!block_until([t] { return finished(t); }, when + 600 * SEC + stalled())) fail("accept-hang", "shutting the listener down did not wake the thread in accept");
    std::shared_ptr<fr::Socket> s = tls ? std::static_pointer_cast<fr::Socket>(std::make_shared<fr::SSLSocket>(sc)) : std::make_shared<fr::TcpSocket>();
    if(LIB(l->accept(*s)) == St::Success) fail("accept", "a connection was accepted after the listener was shut down");
    quiesce();
    // and it can be used again
    if(LIB(l->listen("9700")) != St::Success) fail("relisten", "listening again after a shutdown fails");
    if(!tls) { SockP p; int t = spawn("client", [&] { p = xconnect("10.0.0.1", 9700, "10.3.0.2", now() + 10 * SEC); }); St r = LIB(l->accept(*s)); join(t); if(r != St::Success || !p) fail("relisten", "accept after listening again: %s", sname(r)); }
    nontrivial(); probe("listener shut down");
}
}

SCENARIO(S16)
{
    sched_mode();
    time_limit(100 * 3600 * SEC);
    switch(wl(10)) { case 8: listening(wchance(0.4)); break; case 6: case 7: connection(true); break; default: connection(false); }
}
