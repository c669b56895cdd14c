// S12: registration in selectors through close, reconnect and descriptor reuse.
#include "common.h"
#include <frnetlib/SocketSelector.h>
#include <map>
#include <set>
#include <unistd.h>

namespace {
struct Item { std::shared_ptr<fr::SocketDescriptor> s; fr::TcpSocket *sock = nullptr; fr::TcpListener *lis = nullptr; SockP peer; int port = 0; };
struct Reg { void *opaque; SockP kernel; int fd; };
struct Sel { std::unique_ptr<fr::SocketSelector> s; std::map<Item *, Reg> m; };

struct Run
{
    std::vector<std::unique_ptr<Item>> v; std::map<fr::SocketDescriptor *, Item *> by; std::vector<Sel> sel;
    fr::TcpListener base; std::vector<int> released; int token = 0, next_port = 9410; std::set<int> forgotten; double oom = 0;

    bool live(const Reg &r) { return sock_of(r.fd) == r.kernel; }
    bool connect(Item &i)
    {
        SockP *pp = &i.peer; i.peer = nullptr;
        SockP xl = xlisten("10.9.0.6", 9400);
        int t = spawn("far", [pp, xl] { *pp = xaccept(xl, now() + 60 * SEC); });
        St s = i.sock->connect("10.9.0.6", "9400", std::chrono::seconds(30));
        join(t); xclose(xl);
        if(s != St::Success || !i.peer) fail("setup", "connect: %s", sname(s));
        return true;
    }
    void add(Sel &sl, Item &i)
    {
        bool conn = i.s->connected(), dup = sl.m.count(&i);
        void *op = wchance(0.1) ? nullptr : (void *)(uintptr_t)(0x2000 + ++token);
        uint64_t f = faults_fired(F_EPOLL_CTL_FAIL);
        int outcome = 0; uint64_t g = faults_fired(F_ALLOC_FAIL);
        enable(F_ALLOC_FAIL, oom);
        try { sim::Lib lib; sl.s->add(i.s, op); } catch(const std::logic_error &) { outcome = 1; } catch(const std::runtime_error &) { outcome = 2; } catch(const std::bad_alloc &) { outcome = 3; } catch(const std::exception &) { outcome = 4; }
        enable(F_ALLOC_FAIL, 0);
        if(faults_fired(F_ALLOC_FAIL) != g) { if(!outcome) fail("bad-add", "an add that ran out of memory was not reported"); if(!conn || dup) return; probe("out of memory in add"); return; }
        bool failed = faults_fired(F_EPOLL_CTL_FAIL) != f;
        if(!conn || dup) { if(!outcome) fail("bad-add", "adding a %s socket was not refused", conn ? "socket twice / an already added" : "disconnected"); probe(dup ? "duplicate refused" : "disconnected refused"); return; }
        if(failed) { if(!outcome) fail("bad-add", "an add whose registration failed was not reported"); probe("failed add"); return; }
        if(outcome) fail("refused-add", "adding a connected socket that is not registered was refused (%s)", outcome == 1 ? "logic_error" : "runtime_error");
        sl.m[&i] = Reg{op, sock_of(i.s->get_socket_descriptor()), i.s->get_socket_descriptor()};
    }
    void remove(Sel &sl, Item &i)
    {
        auto it = sl.m.find(&i);
        void *r = nullptr;
        try { sim::Lib lib; r = sl.s->remove(i.s); }
        catch(const std::exception &e) { fail("remove-threw", "removing a %s socket%s threw: %s", it == sl.m.end() ? "not registered" : "registered", it != sl.m.end() && !live(it->second) ? " that has been closed" : "", e.what()); }
        void *want = it == sl.m.end() ? nullptr : it->second.opaque;
        if(r != want) fail("opaque", "remove returned %p instead of %p", r, want);
        if(it != sl.m.end()) { if(!live(it->second)) probe("closed socket removed"); sl.m.erase(it); } else probe("unregistered socket removed");
    }
    void check(Sel &sl, int tmo)
    {
        auto r = [&] { sim::Lib lib; return sl.s->wait(std::chrono::milliseconds(tmo)); }();
        for(auto &x : r)
        {
            auto f = by.find(x.first.get());
            if(f == by.end()) fail("unregistered", "wait returned something that was never added");
            auto it = sl.m.find(f->second);
            if(it == sl.m.end()) fail("unregistered", "wait returned a socket that is not registered");
            if(!live(it->second)) fail("closed", "wait returned a socket that was closed after it was added");
            if(x.second != it->second.opaque) fail("opaque", "wait returned %p with a socket registered with %p", x.second, it->second.opaque);
            if(!fd_ready(it->second.fd)) fail("not-ready", "wait returned an idle socket");
        }
        nontrivial();
    }
    void close_released(size_t k) { ::close(released[k]); released.erase(released.begin() + k); }
    void settle(Sel &sl)
    {
        // every registration that is still good is reported once there is something to report, and nothing else is
        for(int round = 0; round < 2; ++round)
        {
            std::set<Item *> want;
            for(auto &x : sl.m) if(live(x.second)) { if(x.first->peer && !fd_ready(x.second.fd)) xsend(x.first->peer, "x", 1, now() + 10 * SEC); want.insert(x.first); }
            sleep_ns(50 * SEC);
            for(auto it = want.begin(); it != want.end();) if(!fd_ready(sl.m[*it].fd)) it = want.erase(it); else ++it;
            std::set<Item *> seen;
            for(int k = 0; k < 60 && seen.size() < want.size(); ++k)
            {
                auto r = [&] { sim::Lib lib; return sl.s->wait(std::chrono::milliseconds(0)); }();
                for(auto &x : r)
                {
                    auto f = by.find(x.first.get());
                    if(f == by.end() || !sl.m.count(f->second)) fail("unregistered", "wait returned a socket that is not registered");
                    if(x.second != sl.m[f->second].opaque) fail("opaque", "wait returned the wrong opaque value");
                    if(!want.count(f->second)) fail("closed", "wait returned a socket that was closed after it was added");
                    seen.insert(f->second);
                }
            }
            if(seen.size() < want.size()) fail("lost-registration", "%zu of %zu registered sockets with data waiting are not reported", want.size() - seen.size(), want.size());
        }
    }
};
}

SCENARIO(S12)
{
    sched_mode();
    if(wchance(0.3)) fd_base(wchance(0.5) ? 250 : 1018);
    Run r; r.base.set_inet_version(fr::Socket::IP::v4);
    if(r.base.listen("9401") != St::Success) fail("setup", "listen");
    int n = 2 + (int)wl(4);
    for(int i = 0; i < n; ++i)
    {
        auto it = std::make_unique<Item>();
        if(wchance(0.2)) { auto l = std::make_shared<fr::TcpListener>(); it->s = l; it->lis = l.get(); it->port = r.next_port++; l->set_inet_version(fr::Socket::IP::v4); }
        else { auto s = std::make_shared<fr::TcpSocket>(); s->set_inet_version(fr::Socket::IP::v4); it->s = s; it->sock = s.get(); }
        r.by[it->s.get()] = it.get();
        r.v.push_back(std::move(it));
    }
    int ns_ = wchance(0.3) ? 2 : 1;
    for(int i = 0; i < ns_; ++i) { Sel s; s.s = std::make_unique<fr::SocketSelector>(); r.sel.push_back(std::move(s)); }
    swarm({{F_EPOLL_EINTR, 0.1}, {F_EPOLL_FEW, 0.4}, {F_EPOLL_SHUFFLE, 0.5}, {F_EPOLL_CTL_FAIL, 0.25}, {F_CPU_STALL, 0.01}, {F_ALLOC_FAIL, 0.3}});
    r.oom = deep() ? rate(F_ALLOC_FAIL) : 0; enable(F_ALLOC_FAIL, 0);
    double rc = rate(F_EPOLL_CTL_FAIL);
    int steps = 10 + (int)wl(60);
    note("%d objects, %d selectors, %d steps", n, ns_, steps);
    for(int k = 0; k < steps; ++k)
    {
        Item &i = *r.v[wl(n)]; Sel &sl = r.sel[wl(ns_)];
        switch(wl(12))
        {
            case 0: case 1: // make it usable
                if(i.lis) { if(!i.s->connected() && LIB(i.lis->listen(std::to_string(i.port))) != St::Success) fail("setup", "listen"); }
                else if(!i.s->connected() || wchance(0.1)) r.connect(i);
                break;
            case 2: case 3: // close it, registered or not
                if(i.lis) LIBV((i.lis->close_socket(), 0));
                else if(i.s->connected()) LIBV((i.sock->disconnect(), 0));
                break;
            case 4: case 5: case 6: r.add(sl, i); break;
            case 7: case 8: r.remove(sl, i); break;
            case 9: r.check(sl, wchance(0.7) ? 0 : (int)wl(50)); break;
            case 10: if(i.peer && i.s->connected()) { switch(wl(3)) { case 0: xsend(i.peer, "abc", 3, now() + SEC); break; case 1: { xshutdown(i.peer); break; } default: { char b[64]; size_t g; if(fd_avail(i.s->get_socket_descriptor())) LIB(i.sock->receive_raw(b, sizeof b, g)); } } } break;
            case 11: // hand the descriptor over to somebody else, without closing it; that one closes it some time
                if(wchance(0.4) && i.sock && i.s->connected()) { r.released.push_back(i.s->get_socket_descriptor()); LIBV((i.sock->set_descriptor(nullptr), 0)); i.peer = nullptr; probe("descriptor handed over"); }
                else if(!r.released.empty()) r.close_released(wl((uint32_t)r.released.size()));
                else if(wchance(0.1)) { sl.m.clear(); sl.s = nullptr; sl.s = std::make_unique<fr::SocketSelector>(); }
                break;
        }
    }
    (void)rc;
    quiesce();
    for(auto &s : r.sel) r.settle(s);
    for(auto &s : r.sel) { while(!s.m.empty() && wchance(0.7)) r.remove(s, *s.m.begin()->first); r.settle(s); }
    r.sel.clear();
    while(!r.released.empty()) r.close_released(0);
    r.v.clear(); r.base.close_socket();
    if(bad_closes()) fail("double-close", "a descriptor that was not open was closed");
    if(open_fds()) fail("leak", "%d descriptors are still open", open_fds());
}
