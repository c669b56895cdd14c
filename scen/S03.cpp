// S03: idle statuses of framed receives.
#include "msg.h"

SCENARIO(S03)
{
    sched_mode();
    Scripted p; make_scripted(p);
    swarm({{F_RECV_EINTR, 0.25}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.4}, {F_DELAY, 0.06}, {F_STALL, 0.02}, {F_RESET, wchance(0.2) ? 0.01 : 0}, {F_SPURIOUS_TIMEOUT, 0.15}, {F_CPU_STALL, 0.01}});
    fr::TcpSocket &s = *p.sock;
    int fd = s.get_socket_descriptor();
    int mode = (int)wl(3); // 0 blocking, 1 blocking with timeout, 2 non-blocking
    uint32_t tmo = 0;
    if(mode == 1) { static const uint32_t t[] = {1, 20, 300, 1000, 2500, 5000}; tmo = t[wl(6)]; s.set_receive_timeout(tmo); }
    if(mode == 2)
    {
        if(wchance(0.3)) s.set_receive_timeout(50); // must not matter
        if(s.set_blocking(false) != St::Success) fail("setup", "set_blocking");
    }
    int n = 1 + (int)wl(5);
    std::vector<Msg> msgs;
    bool same = wchance(0.6);
    Kind k0 = (Kind)wl(K_COUNT);
    for(int i = 0; i < n; ++i)
    {
        Kind k = same ? k0 : (Kind)wl(K_COUNT);
        size_t len = wchance(0.15) ? 0 : wsize(wchance(0.2) ? 9000 : 300);
        if((k == K_WS_SERVER || k == K_WS_CLIENT) && wchance(0.35)) len = wchance(0.5) ? 126 + wl(400) : 65536 + wl(300); // the longer forms of the length
        msgs.push_back(make_msg(k, 300 + i, len));
    }
    static const size_t fields[] = {1, 2, 2, 2, 4, 6, 8, 10}; // where the fields of a packet or frame end
    // how the stream ends: 0 stays open until everything is received, 1..3 the peer goes away inside (or right before) message `cut_msg`
    int end = (int)wl(4);
    if(end == 3 && mode != 1) end = 1; // only a receive timeout (or the end of the stream) can release a receive whose peer has vanished
    int cut_msg = end ? (int)wl(n) : n;
    size_t cut_at = 0;
    if(end)
    {
        const Msg &m = msgs[cut_msg];
        switch(wl(5)) { case 0: cut_at = wl((uint32_t)m.wire.size()); break; case 4: cut_at = std::min<size_t>(fields[wl(8)], m.wire.size() - 1); break; case 1: cut_at = 0; break; case 2: cut_at = m.wire.size() - 1; break; case 3: cut_at = std::min(m.body_at ? m.body_at - 1 + wl(2) : 0, m.wire.size() - 1); break; }
    }
    note("mode %d timeout %u, %d messages, first %s of %zu bytes, end %d in message %d at %zu", mode, tmo, n, kind_names[msgs[0].kind], msgs[0].wire.size(), end, cut_msg, cut_at);
    struct Sh { std::vector<Msg> *m; SockP peer; int done = 0; bool ended = false, gave_up = false; int n, end, cut_msg; size_t cut_at; bool wait_each; } sh;
    sh.m = &msgs; sh.peer = p.peer; sh.n = n; sh.end = end; sh.cut_msg = cut_msg; sh.cut_at = cut_at;
    bool http = false; for(auto &m : msgs) http |= m.kind >= K_REQUEST;
    sh.wait_each = http || wchance(0.5); // an HTTP receive takes whatever is there, so these peers wait their turn
    Sh *h = &sh;
    int t = spawn("peer", [h] {
        for(int i = 0; i < h->n && !h->gave_up; ++i)
        {
            const Msg &m = (*h->m)[i];
            std::string w = m.wire; bool last = false;
            if(i == h->cut_msg) { w = w.substr(0, h->cut_at); last = true; }
            if(wchance(0.5)) sleep_ns((ns)wl(60) * 50 * MS);
            size_t at = 0; int pieces = 0;
            while(at < w.size())
            {
                size_t k = w.size() - at;
                if(at == 0 && m.kind <= K_WS_CLIENT && wchance(0.4)) k = std::min(k, fields[wl(8)]);
                else if(pieces < 12 && wchance(0.6)) { size_t a = wchance(0.5) && m.body_at > at ? m.body_at - at + wl(3) : 1 + wl((uint32_t)std::min<size_t>(k, 12)); if(a < 1) a = 1; k = std::min(k, a); }
                if(!xsend(h->peer, w.data() + at, k, now() + 600 * SEC)) return;
                at += k; ++pieces;
                if(at < w.size() && wchance(0.5)) { static const ns g[] = {1 * MS, 15 * MS, 25 * MS, 400 * MS, 1100 * MS, 6 * SEC}; sleep_ns(wchance(0.03) ? 200 * SEC : g[wl(6)]); }
            }
            if(last)
            {
                if(h->end == 1) { if(wchance(0.5)) xshutdown(h->peer); else xclose(h->peer); }
                else if(h->end == 2) xreset(h->peer);
                else xvanish(h->peer);
                h->ended = true;
                return;
            }
            if(h->wait_each) block_until([h, i] { return h->done > i || h->gave_up; }, now() + 3000 * SEC, "turn");
        }
    });
    Receiver r; r.reuse = wchance(0.5);
    int got = 0, idles = 0; bool failed = false;
    while(got < n)
    {
        const Msg &m = msgs[got];
        uint64_t r0 = fd_read(fd); ns t0 = now();
        std::string diff;
        St st = r.recv(s, m, diff);
        uint64_t used = fd_read(fd) - r0;
        if(st == St::Success)
        {
            idles = 0;
            if(end && got == cut_msg) fail("partial-success", "a %s of which only %zu of %zu bytes were ever sent was reported as received", kind_names[m.kind], cut_at, m.wire.size());
            if(!diff.empty()) fail("wrong-message", "%s %d: %s", kind_names[m.kind], got, diff.c_str());
            if(used != m.wire.size()) fail("consumed", "a %s of %zu bytes was received by consuming %llu bytes", kind_names[m.kind], m.wire.size(), (unsigned long long)used);
            sh.done = ++got; nontrivial();
            continue;
        }
        if(idle(st))
        {
            if(used) fail("idle-consumed", "receiving a %s returned %s after consuming %llu bytes", kind_names[m.kind], sname(st), (unsigned long long)used);
            if(st == St::WouldBlock && mode != 2) fail("idle-status", "WouldBlock on a blocking socket");
            if(st == St::Timeout && mode != 1) fail("idle-status", "Timeout on a socket that is %s", mode == 2 ? "non-blocking" : "blocking without a timeout");
            probe("idle receive");
            if(end == 3 && sh.ended && ++idles > 20) { failed = true; break; }
            if(mode == 2 || tmo < 300) { backoff(++idles); }
            (void)t0;
            continue;
        }
        failed = true;
        bool reset = faults_fired(F_RESET) > 0;
        bool by_peer = end && (got == cut_msg || (end == 2 && sh.ended)); // a reset may overtake data that is still on its way
        bool by_timeout = mode == 1 && used > 0;
        if(used) probe("interrupted mid-message");
        if(!reset && !by_peer && !by_timeout) fail("false-failure", "receiving a %s failed with %s although nothing was wrong (consumed %llu)", kind_names[m.kind], sname(st), (unsigned long long)used);
        if(by_peer && !reset && end == 1 && st != St::Disconnected) fail("status", "the stream ended inside a %s and the receive returned %s", kind_names[m.kind], sname(st));
        if(by_timeout && !by_peer && !reset && st != St::Disconnected) fail("status", "a timeout inside a %s was reported as %s", kind_names[m.kind], sname(st));
        if(st == St::Unknown || st == St::NotEnoughData) fail("status", "a receive ended with %s", sname(st));
        nontrivial();
        break;
    }
    sh.gave_up = true;
    note("%d of %d messages%s", got, n, failed ? ", then a failure" : "");
    if(failed) { LIBV((s.disconnect(), 0)); }
    join(t);
}
