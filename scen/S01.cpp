// S01: raw byte stream over TCP.
#include "common.h"

static bool locally_shut;
struct Dir
{
    uint64_t id; size_t total;
    std::shared_ptr<fr::TcpSocket> tx, rx;
    size_t accepted = 0, delivered = 0;
    bool tx_failed = false, rx_ended = false, gave_up = false, rx_error = false, rx_reset = false, timed = false;
};

static void sender(Dir &d)
{
    fr::TcpSocket &s = *d.tx;
    int fd = s.get_socket_descriptor();
    while(d.accepted < d.total)
    {
        size_t n = std::min(d.total - d.accepted, d.total > 1000000 && wchance(0.5) ? d.total : wsize(d.total > 100000 ? 200000 : 20000));
        std::string data = patstr(d.id, d.accepted, n);
        size_t sent = 0, before = 0;
        int tries = 0;
        for(;;)
        {
            before = sent;
            St st = LIB(s.send_raw(data.data(), n, sent));
            if(sent > n || sent < before) fail("send-count", "send_raw reported %zu of %zu bytes sent (was %zu) with status %s", sent, n, before, sname(st));
            uint64_t k = fd_written(fd);
            if(s.connected() && k != d.accepted + sent)
                fail("send-count", "stream %llu: the kernel accepted %llu bytes but the caller was told %zu (status %s)", (unsigned long long)d.id, (unsigned long long)k, d.accepted + sent, sname(st));
            if(st == St::Success)
            {
                if(sent != n) fail("send-count", "send_raw returned Success after sending %zu of %zu bytes", sent, n);
                break;
            }
            if(idle(st)) { probe("send interrupted part way");
                if(st != (s.get_blocking() ? St::Timeout : St::WouldBlock) || (st == St::Timeout && !s.get_send_timeout())) fail("status", "a send ended with %s (blocking %d, timeout %u)", sname(st), (int)s.get_blocking(), s.get_send_timeout());
                if(d.rx_ended) { d.tx_failed = true; break; } // the receiver has given up
                if(sent > before) tries = 0;
                if(++tries > 2000) fail("no-progress", "2000 fruitless retries of one send while the receiver is reading");
                backoff(tries); continue; }
            d.tx_failed = true;
            break;
        }
        d.accepted += sent;
        if(d.tx_failed) { note("stream %d: send failed after %zu bytes", (int)d.id, d.accepted); return; }
        if(wchance(0.1)) sleep_ns(wrange(0, 3) * 10 * MS);
    }
}

static void receiver(Dir &d)
{
    fr::TcpSocket &s = *d.rx;
    int fd = s.get_socket_descriptor();
    int idles = 0;
    while(true)
    {
        size_t n = wsize(9000);
        bool all = wchance(0.3);
        std::string buf(n + 16, '\x5a');
        size_t got = 777777;
        St st;
        if(all)
        {
            if(d.delivered + n > d.total) n = d.total > d.delivered ? d.total - d.delivered : 1;
            uint64_t r0 = fd_read(fd);
            st = LIB(s.receive_all(&buf[0], n));
            uint64_t used = fd_read(fd) - r0;
            if(st == St::Success) { got = n; if(used != n) fail("receive-all", "receive_all(%zu) returned Success after consuming %llu bytes", n, (unsigned long long)used); }
            else
            {
                got = 0;
                if(idle(st) && used) fail("receive-all", "receive_all returned %s after consuming %llu bytes", sname(st), (unsigned long long)used);
                if(!idle(st)) { d.delivered += 0; }
            }
        }
        else
        {
            st = LIB(s.receive_raw(&buf[0], n, got));
            if(st == St::Success && (got == 0 || got > n)) fail("receive-count", "receive_raw(%zu) returned Success with %zu bytes", n, got);
            if(st != St::Success && got != 0) fail("receive-count", "receive_raw returned %s but reported %zu bytes", sname(st), got);
        }
        if(buf.compare(n, 16, std::string(16, '\x5a')) != 0) fail("overflow", "receive wrote past the %zu byte buffer", n);
        if(st == St::Success)
        {
            idles = 0;
            std::string want = patstr(d.id, d.delivered, got);
            if(buf.compare(0, got, want) != 0)
                fail("corrupt-stream", "stream %llu at offset %zu: %s", (unsigned long long)d.id, d.delivered, first_diff(buf.substr(0, got), want).c_str());
            d.delivered += got;
            uint64_t k = fd_read(fd);
            if(k != d.delivered) fail("lost-bytes", "stream %llu: the kernel handed out %llu bytes, the caller got %zu", (unsigned long long)d.id, (unsigned long long)k, d.delivered);
            if(d.delivered > d.total) fail("corrupt-stream", "stream %llu: more bytes delivered than sent", (unsigned long long)d.id);
            nontrivial();
            continue;
        }
        if(idle(st))
        {
            if(st != (s.get_blocking() ? St::Timeout : St::WouldBlock) || (st == St::Timeout && !s.get_receive_timeout())) fail("status", "a receive ended with %s (blocking %d, timeout %u)", sname(st), (int)s.get_blocking(), s.get_receive_timeout());
            if(++idles > 3000) fail("no-progress", "3000 idle receives");
            backoff(idles);
            continue;
        }
        d.rx_ended = true;
        d.rx_reset = fd_reset(fd);
        if(st != St::Disconnected) d.rx_error = true;
        if(st == St::Disconnected && !all && !fd_eof(fd) && !d.rx_reset && !locally_shut) fail("false-disconnect", "Disconnected reported while the connection was alive");
        // a receive_all that ends mid-way has consumed the tail
        if(all) { d.delivered = fd_read(fd); if((!fd_eof(fd) || fd_avail(fd)) && !d.rx_reset) { if(!d.timed && !locally_shut) fail("gave-up", "receive_all gave up on a live connection although no timeout is set"); d.gave_up = true; locally_shut = true; give_up(s); probe("receive_all interrupted mid-message"); } }
        note("stream %d: receiver ended with %s after %zu bytes", (int)d.id, sname(st), d.delivered);
        return;
    }
}

SCENARIO(S01)
{
    sched_mode();
    size_t cap[] = {0, 1, 2, 64, 1500, 4096, 20000};
    TcpPair p;
    size_t cp = cap[wl(7)];
    bool huge = !cp && wchance(0.03); // megabytes, in large pieces
    next_connect_cap(huge ? 1 << 20 : cp);
    make_pair(p);
    swarm({{F_RECV_EINTR, 0.2}, {F_SEND_EINTR, 0.2}, {F_SHORT_WRITE, 0.3}, {F_SHORT_READ, 0.3}, {F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_STALL, 0.02}, {F_RESET, 0.003}, {F_SPURIOUS_TIMEOUT, 0.1}, {F_CPU_STALL, 0.01}});
    if(huge) for(auto x : {F_SHORT_WRITE, F_SHORT_READ, F_SEGMENT, F_DELAY, F_STALL, F_RESET, F_SPURIOUS_TIMEOUT}) enable(x, 0);
    Dir d[2];
    size_t big = wchance(0.2) ? (wchance(0.2) ? 300000 : 60000) : wchance(0.5) ? 3000 : 200;
    if(cp && big > cp * 300) big = cp * 300;
    for(int i = 0; i < 2; ++i)
    {
        d[i].id = 100 + i;
        d[i].total = i == 0 || wchance(0.5) ? wsize(big) : 0;
        if(huge && i == 0) { d[i].total = (size_t)wl(20) * (1 << 20) + (1 << 20) - 2 + wl(5); probe("megabytes"); }
        d[i].tx = i == 0 ? p.a : p.b; d[i].rx = i == 0 ? p.b : p.a;
    }
    uint64_t resets0 = faults_fired(F_RESET);
    for(auto s : {p.a, p.b})
    {
        switch(wl(4))
        {
            case 0: break;
            case 1: if(s->set_blocking(false) != St::Success) fail("setup", "set_blocking"); break;
            case 2: d[s == p.a].timed = true; s->set_receive_timeout(50 + wl(3000)); break;
            case 3: d[s == p.a].timed = true; s->set_send_timeout(5 + wl(500)); s->set_receive_timeout(5 + wl(500)); break;
        }
    }
    note("totals %zu/%zu blocking %d/%d", d[0].total, d[1].total, (int)p.a->get_blocking(), (int)p.b->get_blocking());
    if(d[1].total == 0 && wchance(0.5))
    {
        // one direction only, and the sender closes at once: what was sent successfully still arrives
        int ts = spawn("a.send", [&d, &p] { sender(d[0]); LIBV((p.a->disconnect(), 0)); });
        locally_shut = false;
        int tr = spawn("b.recv", [&d] { receiver(d[0]); });
        join(ts); join(tr);
        if(faults_fired(F_RESET) == resets0 && !d[0].gave_up)
        {
            if(d[0].tx_failed) fail("send-status", "a send failed on a healthy connection");
            if(d[0].delivered != d[0].total) fail("lost-bytes", "%zu of %zu bytes delivered before an orderly close", d[0].delivered, d[0].total);
            if(d[0].rx_error) fail("receive-status", "a receive failed on a connection that was closed in order");
            probe("sent and closed at once");
        }
        return;
    }
    int t[4]; int n = 0;
    for(int i = 0; i < 2; ++i)
    {
        Dir *x = &d[i];
        t[n++] = spawn(i ? "b.send" : "a.send", [x] { sender(*x); LIBV(0); });
        t[n++] = spawn(i ? "a.recv" : "b.recv", [x] { receiver(*x); });
    }
    // when both directions have been written, end the streams (shutdown of both directions after the data is read)
    join(t[0]); join(t[2]);
    Dir *dd = d;
    uint64_t (*rd)(int) = fd_read;
    auto drained = [dd, rd] {
        for(int i = 0; i < 2; ++i)
        {
            if(dd[i].rx_ended || dd[i].tx_failed) continue;
            if(rd(dd[i].rx->get_socket_descriptor()) < dd[i].accepted) return false;
        }
        return true;
    };
    bool ok = block_until(drained, now() + 3600 * SEC, "drain");
    if(!ok) fail("lost-bytes", "bytes accepted by the kernel were never handed to the receiver: %zu/%zu and %zu/%zu", d[0].delivered, d[0].accepted, d[1].delivered, d[1].accepted);
    locally_shut = true;
    p.a->shutdown();
    join(t[1]); join(t[3]);
    bool disturbed = faults_fired(F_RESET) != resets0 || d[0].gave_up || d[1].gave_up;
    for(int i = 0; i < 2; ++i)
    {
        if(!d[i].gave_up && d[i].delivered > d[i].accepted) fail("corrupt-stream", "more delivered than accepted");
        if(!disturbed)
        {
            if(d[i].tx_failed) fail("send-status", "a send failed on a healthy connection");
            if(d[i].rx_error) fail("receive-status", "a receive failed on a healthy connection");
            if(d[i].delivered != d[i].total) fail("lost-bytes", "stream %d: %zu of %zu bytes delivered on a healthy connection", i, d[i].delivered, d[i].total);
        }
    }
    note("delivered %zu/%zu", d[0].delivered, d[1].delivered);
}
