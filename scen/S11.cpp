// S11: what the selector reports.
#include "tls.h"
#include <frnetlib/SocketSelector.h>
#include <map>
#include <set>

namespace {
struct Item
{
    std::shared_ptr<fr::SocketDescriptor> s; fr::Socket *sock = nullptr; fr::TcpListener *lis = nullptr; int port = 0;
    int fd = -1; SockP peer; bool peer_gone = false; bool added = false; void *opaque = nullptr; int unreported = 0; uint64_t reports = 0;
    // TLS: which records (by their last byte on the wire) bring how much; what mbedtls has taken off the descriptor is waiting until it is received
    std::unique_ptr<ScriptedTls> tls; std::vector<std::pair<uint64_t, uint64_t>> records; uint64_t wire = 0, plain = 0, pending = 0, got = 0; bool sending = false;
    bool buffered() { if(!tls) return false; uint64_t t = fd_read(fd), p = 0; for(auto &r : records) if(r.first <= t) p = r.second; return p > got; }
    bool ready() { return fd_ready(fd) || buffered(); }
    void send(const std::string &d)
    {
        if(!tls) { xsend(peer, d.data(), d.size(), now() + SEC); return; }
        while(sending) sleep_ns(10 * MS);
        if(peer_gone) return;
        sending = true; pending = d.size(); tls->peer->deadline = now() + SEC;
        if(!tls->peer->send(d)) { peer_gone = true; xshutdown(peer); } // a record that is cut short
        sending = false;
    }
};
struct World { std::vector<std::unique_ptr<Item>> v; std::vector<SockP> dialled; bool stop = false, actions_done = false; int backlog = 0; };

std::shared_ptr<fr::TcpListener> make_listener(int port)
{
    auto l = std::make_shared<fr::TcpListener>();
    l->set_inet_version(fr::Socket::IP::v4);
    if(l->listen(std::to_string(port)) != St::Success) fail("setup", "listen");
    return l;
}
void add_pair(World &w, fr::TcpListener &l, int port)
{
    auto it = std::make_unique<Item>();
    auto s = std::make_shared<fr::TcpSocket>();
    SockP peer; SockP *pp = &peer;
    int t = spawn("dial", [pp, port] { *pp = xconnect("10.0.0.1", (uint16_t)port, "10.7.0.3", now() + 100 * SEC); });
    if(l.accept(*s) != St::Success) fail("setup", "accept");
    join(t);
    if(!peer) fail("setup", "no peer");
    it->s = s; it->sock = s.get(); it->fd = s->get_socket_descriptor(); it->peer = peer;
    w.v.push_back(std::move(it));
}
void add_tls(World &w)
{
    auto it = std::make_unique<Item>(); Item *i = it.get();
    it->tls = std::make_unique<ScriptedTls>();
    make_scripted_tls(*it->tls, wchance(0.5));
    it->tls->tp.listener.reset();
    it->s = it->tls->sock; it->sock = it->tls->sock.get(); it->fd = it->sock->get_socket_descriptor(); it->peer = it->tls->peer->s; it->wire = fd_read(it->fd);
    it->tls->peer->on_out = [i](size_t n) { i->wire += n; i->plain += i->pending; i->pending = 0; i->records.push_back({i->wire, i->plain}); };
    it->sock->set_blocking(false);
    w.v.push_back(std::move(it));
}
void act(World &w) // something happens at the far end
{
    Item &i = *w.v[wl((uint32_t)w.v.size())];
    if(i.lis) { if(w.backlog < 40) { ++w.backlog; SockP p = xconnect("10.0.0.1", (uint16_t)i.port, "10.7.0.4", now() + 50 * SEC); if(p) { w.dialled.push_back(p); if(wchance(0.2)) { if(wchance(0.5)) xreset(p); else xclose(p); } } } return; }
    if(i.peer_gone) return;
    switch(pick_biased(W, 5, 0.7))
    {
        case 0: { std::string d = patstr(1, 0, wsize(wchance(0.1) ? 9000 : 50)); i.send(d); break; }
        case 1: xshutdown(i.peer); i.peer_gone = true; break;
        case 2: xclose(i.peer); i.peer_gone = true; break;
        case 3: xreset(i.peer); i.peer_gone = true; break;
        case 4: xshutdown(i.peer); i.peer_gone = true; break;
    }
}
}

SCENARIO(S11)
{
    sched_mode();
    World w; World *pw = &w;
    bool many = wchance(0.14), far = wchance(0.02);
    int n = many ? 90 + (int)wl(60) : 1 + (int)wl(8), nl = (int)wl(3);
    auto base = make_listener(9300);
    int nt = !many && wchance(0.25) ? 1 + (int)wl(2) : 0;
    for(int i = 0; i < n; ++i) add_pair(w, *base, 9300);
    for(int i = 0; i < nt; ++i) add_tls(w);
    for(int i = 0; i < nl; ++i)
    {
        auto l = make_listener(9310 + i);
        auto it = std::make_unique<Item>(); it->s = l; it->lis = l.get(); it->port = 9310 + i; it->fd = l->get_socket_descriptor();
        w.v.push_back(std::move(it));
    }
    fr::SocketSelector sel;
    std::map<fr::SocketDescriptor *, Item *> by;
    for(auto &i : w.v) by[i->s.get()] = i.get();
    swarm({{F_EPOLL_EINTR, 0.15}, {F_EPOLL_FEW, 0.5}, {F_EPOLL_SHUFFLE, 0.6}, {F_SEGMENT, 0.4}, {F_DELAY, 0.05}, {F_RECV_EINTR, 0.2}, {F_SHORT_READ, 0.3}, {F_CPU_STALL, 0.01}});
    int steps = 15 + (int)wl(50), token = 0;
    note("%d sockets, %d listeners, %d steps", n, nl, steps);
    auto add = [&](Item &i) {
        i.opaque = wchance(0.1) ? nullptr : (void *)(uintptr_t)(0x1000 + ++token);
        LIBV((sel.add(i.s, i.opaque), 0));
        i.added = true; i.unreported = 0;
    };
    for(auto &i : w.v) if(many ? !wchance(0.05) : wchance(0.75)) add(*i);
    int world = spawn("world", [pw, many] {
        for(int k = (many ? 100 : 5) + (int)wl(many ? 200 : 40); k > 0 && !pw->stop; --k)
        {
            act(*pw);
            if(wchance(many ? 0.05 : 0.6)) { static const ns d[] = {1 * MS, 10 * MS, 100 * MS, 2 * SEC}; sleep_ns(d[wl(4)]); }
        }
        pw->actions_done = true;
    });
    auto do_wait = [&](int64_t tmo, bool must) {
        std::set<Item *> before; for(auto &i : w.v) if(i->added && i->ready()) before.insert(i.get());
        uint64_t eintr = faults_fired(F_EPOLL_EINTR);
        ns t0 = now(), s0 = stalled();
        auto r = LIB(sel.wait(std::chrono::milliseconds(tmo)));
        bool interrupted = faults_fired(F_EPOLL_EINTR) != eintr;
        ns took = now() - t0, lag = stalled() - s0;
        std::set<Item *> got;
        for(auto &x : r)
        {
            auto f = by.find(x.first.get());
            if(f == by.end()) fail("unknown", "wait returned a socket that was never added");
            Item &i = *f->second;
            if(!i.added) fail("unregistered", "wait returned a %s that is not registered", i.lis ? "listener" : "socket");
            if(x.second != i.opaque) fail("opaque", "wait returned %p with a socket registered with %p", x.second, i.opaque);
            if(!i.ready()) fail("not-ready", "wait returned a %s for which nothing is waiting", i.lis ? "listener without a pending connection" : "socket");
            got.insert(&i); ++i.reports; i.unreported = 0;
            if(i.lis) probe("pending connection reported"); else if(fd_reset(i.fd)) probe("reset reported"); else if(fd_eof(i.fd)) probe("end of stream reported"); else if(!fd_ready(i.fd)) probe("decrypted data reported"); else probe("data reported");
        }
        if(r.empty())
        {
            if(!interrupted && tmo < 0) fail("early", "a wait without a timeout returned nothing and was not interrupted");
            if(!interrupted && tmo >= 0 && took < tmo * MS) fail("early", "a wait with a timeout of %lld ms returned nothing after %lld us", (long long)tmo, (long long)(took / US));
            if(!interrupted && !before.empty()) fail("missed", "wait returned nothing although %zu sockets were ready all along", before.size());
            if(must && !interrupted) fail("missed", "wait returned nothing although something was bound to happen");
            probe(interrupted ? "interrupted wait" : "timed out wait");
        }
        if(tmo >= 0 && took > tmo * MS + lag + 200 * MS) fail("late", "a wait with a timeout of %lld ms took %lld ms", (long long)tmo, (long long)(took / MS));
        if(!interrupted) for(auto *i : before) if(i->added && !got.count(i) && ++i->unreported > 80) fail("starved", "a ready %s was not reported by %d waits in a row", i->lis ? "listener" : "socket", i->unreported);
        if(before.size() > 100) probe("more than 100 sockets ready");
        nontrivial();
        return r;
    };
    auto deal = [&](Item &i) {
        if(i.lis)
        {
            auto c = std::make_shared<fr::TcpSocket>();
            if(fd_ready(i.fd)) { LIBV((i.lis->accept(*c), 0)); if(w.backlog) --w.backlog; }
            return;
        }
        char b[600]; size_t g = 0; size_t k = wchance(0.5) ? 1 + wl(20) : sizeof b;
        if(!i.ready()) return;
        LIB(i.sock->receive_raw(b, k, g)); i.got += g;
    };
    for(int k = 0; k < steps; ++k)
    {
        switch(wl(8))
        {
            case 0: { Item &i = *w.v[wl((uint32_t)w.v.size())]; if(!i.added) add(i); break; }
            case 1: { Item &i = *w.v[wl((uint32_t)w.v.size())]; if(i.added && wchance(0.5)) { if(LIB(sel.remove(i.s)) != i.opaque) fail("opaque", "remove returned something else than what was registered"); i.added = false; } break; }
            case 2: if(wchance(0.3)) deal(*w.v[wl((uint32_t)w.v.size())]); break;
            case 3: // a wait without a timeout, with something on its way
            {
                std::vector<Item *> c; for(auto &i : w.v) if(i->added && !i->lis && !i->peer_gone) c.push_back(i.get());
                if(c.empty()) break;
                Item *i = c[wl((uint32_t)c.size())]; ns d = (ns)wl(40) * 50 * MS;
                if(far && wchance(0.5)) d += 60 * 24 * 3600 * SEC; // two months
                if(far) time_limit(now() + 90 * 24 * 3600 * SEC);
                int t = spawn("waker", [i, d] { sleep_ns(d); if(!i->peer_gone) i->send("!"); });
                do_wait(-1 - (int64_t)wl(3), false);
                join(t);
                break;
            }
            default:
            {
                static const int64_t tm[] = {0, 1, 10, 100, 1000, 30000};
                int64_t tmo = tm[wl(6)];
                if(far && wchance(0.2)) { tmo = 0x100000000ll + 40; time_limit(now() + 200 * 24 * 3600 * SEC); }
                auto r = do_wait(tmo, false);
                int style = (int)wl(4); // deal with all, some, none, or only drop the dead ones
                for(auto &x : r)
                {
                    Item &i = *by[x.first.get()];
                    if(style == 0 || (style == 1 && wchance(0.5))) deal(i);
                    if(style == 3 && !i.lis && (fd_eof(i.fd) || fd_reset(i.fd))) { if(LIB(sel.remove(i.s)) != i.opaque) fail("opaque", "remove returned something else than what was registered"); i.added = false; }
                }
                break;
            }
        }
    }
    w.stop = true;
    join(world);
    // whatever is still ready is reported within a bounded number of waits, without being touched in between
    for(auto &i : w.v) i->reports = 0;
    std::set<Item *> left; for(auto &i : w.v) if(i->added && i->ready()) left.insert(i.get());
    for(int k = 0; k < 200 && !left.empty(); ++k) for(auto &x : do_wait(0, false)) left.erase(by[x.first.get()]);
    if(!left.empty()) fail("starved", "%zu ready sockets were not reported by 200 waits", left.size());
    for(auto &i : w.v) if(!i->peer_gone && i->peer) xclose(i->peer);
    note("%zu connections dialled", w.dialled.size());
}
