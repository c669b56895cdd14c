// Model of the kernel's TCP sockets, epoll and name resolution.
#include "net.h"
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <algorithm>
#include <fcntl.h>

namespace sim
{
    File *fdtab[FD_END];
    int fd_first = FD_BASE;
    void fd_base(int n) { fd_first = n; }
    int addrinfo_live;
    uint64_t n_bad_closes, n_decoy_kills;

    struct Net
    {
        std::map<std::string, std::pair<int, std::vector<Addr>>> names;
        std::map<std::string, Addr> hosts;
        std::vector<Sock *> listeners;
        std::set<void *> infos;
        uint64_t conn_id = 0;
        uint16_t eph = 40000;
        size_t next_cap = 0;
        std::function<void(const SockP &, const SockP &)> on_conn;
    };
    static Net *N;
    void net_reset()
    {
        for(auto &f : fdtab) f = nullptr;
        signal(SIGPIPE, SIG_DFL); // as in a process whose parent did not change it
        fd_first = FD_BASE; addrinfo_live = 0; n_bad_closes = n_decoy_kills = 0;
        N = new Net;
    }

    Sock::Sock() {}
    Sock::~Sock()
    {
        if(st == S_LISTEN || bound)
            N->listeners.erase(std::remove(N->listeners.begin(), N->listeners.end(), this), N->listeners.end());
    }

    // ------------------------------------------------------------------ addresses
    std::string ip_of(const sockaddr *a)
    {
        char b[64] = "?";
        if(a->sa_family == AF_INET) inet_ntop(AF_INET, &((const sockaddr_in *)a)->sin_addr, b, sizeof b);
        else if(a->sa_family == AF_INET6) inet_ntop(AF_INET6, &((const sockaddr_in6 *)a)->sin6_addr, b, sizeof b);
        return b;
    }
    uint16_t port_of(const sockaddr *a)
    {
        if(a->sa_family == AF_INET) return ntohs(((const sockaddr_in *)a)->sin_port);
        return ntohs(((const sockaddr_in6 *)a)->sin6_port);
    }
    static socklen_t fill_addr(sockaddr_storage &o, const std::string &ip, uint16_t port, int family_hint)
    {
        memset(&o, 0, sizeof o);
        in_addr a4; in6_addr a6;
        if(inet_pton(AF_INET, ip.c_str(), &a4) == 1)
        {
            if(family_hint == AF_INET6)
            {
                auto *s = (sockaddr_in6 *)&o; s->sin6_family = AF_INET6; s->sin6_port = htons(port);
                std::string m = "::ffff:" + ip; inet_pton(AF_INET6, m.c_str(), &s->sin6_addr);
                return sizeof(sockaddr_in6);
            }
            auto *s = (sockaddr_in *)&o; s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr = a4;
            return sizeof(sockaddr_in);
        }
        if(inet_pton(AF_INET6, ip.c_str(), &a6) == 1)
        {
            auto *s = (sockaddr_in6 *)&o; s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = a6;
            return sizeof(sockaddr_in6);
        }
        auto *s = (sockaddr_in *)&o; s->sin_family = AF_INET; s->sin_port = htons(port);
        return sizeof(sockaddr_in);
    }
    static socklen_t addr_len(const sockaddr_storage &a) { return a.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }
    static bool is_wild(const std::string &ip) { return ip.empty() || ip == "0.0.0.0" || ip == "::"; }
    static bool is_v6(const std::string &ip) { return ip.find(':') != std::string::npos; }

    void dns(const std::string &name, const std::vector<Addr> &addrs)
    {
        Core core;
        N->names[name] = {0, addrs};
        for(auto &a : addrs) N->hosts[a.ip] = a;
    }
    void dns_error(const std::string &name, int eai) { Core core; N->names[name] = {eai, {}}; }
    void set_mode(const std::string &ip, AddrMode m, ns delay) { Core core; N->hosts[ip] = Addr{ip, m, delay}; }
    void next_source(const std::string &ip) { Core core; cur()->source_ip = ip; }
    void next_connect_cap(size_t b) { N->next_cap = b; }
    bool listening(uint16_t port) { for(auto *l : N->listeners) if(l->st == S_LISTEN && l->port == port && !l->lis_shut) return true; return false; }

    // ------------------------------------------------------------------ descriptors
    static int fd_install(const SockP &s, const EpollP &e)
    {
        for(int fd = fd_first; fd < FD_END; ++fd)
            if(!fdtab[fd]) { fdtab[fd] = new File{s, e}; if(s) s->refs++; return fd; }
        return -EMFILE;
    }
    SockP fd_sock(int fd) { return is_sim_fd(fd) ? fdtab[fd]->s : nullptr; }
    SockP sock_of(int fd) { return fd_sock(fd); }
    int open_fds() { int n = 0; for(auto *f : fdtab) if(f) ++n; return n; }
    bool fd_ready(int fd) { auto s = fd_sock(fd); return s && (s->events() & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR)); }
    bool fd_open(int fd) { return is_sim_fd(fd); }
    bool fd_nonblocking(int fd) { auto s = fd_sock(fd); return s && s->nonblock; }
    ns opt_timeo(int fd, bool rcv) { auto s = fd_sock(fd); return s ? (rcv ? s->rcvtimeo : s->sndtimeo) : -1; }
    uint64_t bad_closes() { return n_bad_closes; }
    uint64_t decoy_kills() { return n_decoy_kills; }
    int live_addrinfo() { return addrinfo_live; }
    uint64_t syscalls() { return shm->syscalls; }
    uint64_t fd_written(int fd) { auto s = fd_sock(fd); return s && s->c ? s->other().in.written : 0; }
    uint64_t fd_read(int fd) { auto s = fd_sock(fd); return s && s->c ? s->me().in.read : 0; }
    bool fd_reset(int fd) { auto s = fd_sock(fd); return s && s->c && s->me().rst_rcvd; }
    bool fd_eof(int fd) { auto s = fd_sock(fd); return s && s->c && s->me().in.fin_rcvd; }
    size_t fd_avail(int fd) { auto s = fd_sock(fd); return s && s->c ? s->me().in.avail() : 0; }
    uint64_t faults_fired(Fault f) { return shm->fault[f]; }
    int decoy()
    {
        Core core;
        auto s = std::make_shared<Sock>(); s->decoy = true; s->ext = true;
        return fd_install(s, nullptr);
    }
    void decoy_close(int fd)
    {
        Core core;
        if(!is_sim_fd(fd)) return;
        auto *f = fdtab[fd]; fdtab[fd] = nullptr; delete f;
    }

    // ------------------------------------------------------------------ connections
    static void send_rst(const ConnP &c, int to, ns extra = 0);
    static void arm_rto(const ConnP &c, int side);
    static void deliver(const ConnP &c, int to);
    static void schedule_head(const ConnP &c, int to)
    {
        Pipe &p = c->e[to].in;
        if(p.fly.empty()) return;
        at(p.fly.front().when, [c, to] { deliver(c, to); });
    }
    static void kill_ep(Ep &e, int err)
    {
        e.rst_rcvd = true;
        if(!e.so_error) e.so_error = err;
    }
    static void deliver(const ConnP &c, int to)
    {
        Ep &e = c->e[to];
        Pipe &p = e.in;
        if(p.fly.empty()) return;
        if(c->vanished[to] || c->vanished[1 - to]) return; // lost in a black hole; the stream stops here
        if(now() < c->held_until) { at(c->held_until, [c, to] { deliver(c, to); }); return; }
        if(now() < p.fly.front().when) { schedule_head(c, to); return; }
        Seg s = std::move(p.fly.front());
        p.fly.pop_front();
        p.inflight -= s.data.size();
        if(e.rst_rcvd) { p.fly.clear(); p.inflight = 0; return; }
        if(s.fin) { p.fin_rcvd = true; ev("deliver-fin", c->id, to); }
        else if(e.closed)
        {
            ev("data-to-closed", c->id, to);
            p.fly.clear(); p.inflight = 0;
            send_rst(c, 1 - to);
            return;
        }
        else
        {
            if(e.tamper) e.tamper(s.data);
            ev("deliver", c->id, to, s.data.size()); moved(s.data.size());
            if(e.rd_shut && e.wr_shut)
            {
                // as Linux does in FIN_WAIT: data for a socket shut down both ways resets the connection
                p.fly.clear(); p.inflight = 0;
                kill_ep(e, ECONNRESET);
                send_rst(c, 1 - to);
                return;
            }
            {
                if(p.rx_off > 65536) { p.rx.erase(0, p.rx_off); p.rx_off = 0; }
                p.rx += s.data;
            }
        }
        if(!p.fly.empty()) schedule_head(c, to);
    }
    static void send_rst(const ConnP &c, int to, ns extra)
    {
        ns when = now() + c->lat + extra;
        at(when, [c, to] {
            if(c->vanished[0] || c->vanished[1]) return;
            Ep &e = c->e[to];
            if(e.rst_rcvd || e.closed) return;
            ev("deliver-rst", c->id, to);
            kill_ep(e, e.in.fin_rcvd ? EPIPE : ECONNRESET);
            e.in.fly.clear(); e.in.inflight = 0;
            // what this end had in flight is gone too
            Pipe &o = c->e[1 - to].in; o.fly.clear(); o.inflight = 0;
        });
    }
    static void enqueue(const ConnP &c, int to, std::string data, bool fin)
    {
        Pipe &p = c->e[to].in;
        Ep &from = c->e[1 - to];
        if(c->vanished[to]) arm_rto(c, 1 - to);
        bool was_empty = p.fly.empty();
        size_t off = 0;
        ns t = now() + c->lat;
        auto push = [&](std::string d, bool f) {
            if(t < p.last) t = p.last;
            p.last = t;
            p.inflight += d.size();
            p.fly.push_back(Seg{std::move(d), f, t});
        };
        bool explicit_cuts = from.cut_i < from.cuts.size();
        bool split = !explicit_cuts && data.size() > 1 && c->seg && fire(F_SEGMENT);
        while(off < data.size())
        {
            size_t n = data.size() - off;
            if(explicit_cuts)
            {
                if(from.cut_i < from.cuts.size()) { size_t want = from.cuts[from.cut_i++]; if(want < 1) want = 1; if(want < n) n = want; }
            }
            else if(split && n > 1)
            {
                // cut sizes: everything / 1 byte / a few bytes / anywhere
                switch(pick(F, 5))
                {
                    case 0: break;
                    case 1: n = 1; break;
                    case 2: n = std::min<size_t>(n, 1 + pick(F, 8)); break;
                    case 3: n = 1 + pick(F, (uint32_t)std::min<size_t>(n, 1u << 20)); break;
                    case 4: n = n - std::min<size_t>(n - 1, 1 + pick(F, 4)); break;
                }
            }
            if(off || explicit_cuts)
            {
                static const ns gaps[4] = {1 * US, 300 * US, 8 * MS, 400 * MS};
                t = std::max(t, p.last) + gaps[explicit_cuts ? pick(F, 3) : pick(F, 4)];
            }
            push(data.substr(off, n), false);
            off += n;
        }
        if(fin) push(std::string(), true);
        if(c->seg && fire(F_DELAY))
        {
            static const ns d[4] = {1 * MS, 40 * MS, 900 * MS, 7 * SEC};
            p.last += d[pick(F, 4)]; p.fly.back().when = p.last;
        }
        if(c->seg && fire(F_STALL))
        {
            static const ns d[4] = {20 * MS, 1 * SEC, 12 * SEC, 45 * SEC};
            ns u = now() + d[pick(F, 4)];
            if(u > c->held_until) c->held_until = u;
        }
        if(was_empty) schedule_head(c, to);
    }
    static void reset_conn(const ConnP &c) // an intermediate reset: both ends see it
    {
        send_rst(c, 0); send_rst(c, 1);
    }
    // nothing is acknowledged any more: the kernel gives the connection up after its retransmissions
    static void arm_rto(const ConnP &c, int side)
    {
        if(c->rto[side] || c->e[side].closed) return;
        c->rto[side] = true;
        at(now() + 924 * SEC, [c, side] { Ep &e = c->e[side]; if(e.closed || e.rst_rcvd) return; ev("retransmission-timeout", c->id, side); kill_ep(e, ETIMEDOUT); bump(); });
    }
    static Pipe &out_of(const ConnP &c, int side) { return c->e[1 - side].in; }
    static void close_ep(const ConnP &c, int side)
    {
        Ep &e = c->e[side];
        if(e.closed) return;
        e.closed = true; e.owner = nullptr;
        if(e.rst_rcvd) return;
        bool unread = e.in.avail() > 0 || (e.linger0 && !(out_of(c, side).fin_sent)) ;
        Pipe &out = c->e[1 - side].in;
        if(unread) { ev("close-rst", c->id, side); out.fly.clear(); out.inflight = 0; send_rst(c, 1 - side); }
        else if(!out.fin_sent) { out.fin_sent = true; enqueue(c, 1 - side, "", true); }
    }
    void sock_release(const SockP &s)
    {
        // last descriptor closed
        bump();
        if(s->c) { s->me().linger0 = s->linger0; close_ep(s->c, s->side); s->st = S_CLOSED; }
        if(s->st == S_LISTEN)
        {
            for(auto &q : s->q) { if(q->c) { q->c->e[q->side].closed = true; send_rst(q->c, 1 - q->side); } }
            s->q.clear();
        }
        if(s->st == S_CONNECTING) s->st = S_CLOSED;
        if(s->bound) { N->listeners.erase(std::remove(N->listeners.begin(), N->listeners.end(), s.get()), N->listeners.end()); s->bound = false; }
        if(s->st == S_LISTEN) s->st = S_CLOSED;
    }

    bool Sock::readable()
    {
        if(st == S_LISTEN) return lis_shut || !q.empty();
        if(st == S_CONNECTED && c) { Ep &e = me(); return e.in.avail() || e.in.fin_rcvd || e.rst_rcvd || e.rd_shut; }
        if(st == S_CONNECTING) return connect_done && so_error;
        return true;
    }
    bool Sock::writable()
    {
        if(st == S_CONNECTED && c)
        {
            Ep &e = me(); Pipe &out = other().in;
            if(e.rst_rcvd || e.wr_shut) return true;
            return out.inflight + out.avail() < c->cap;
        }
        if(st == S_CONNECTING) return connect_done;
        return st != S_LISTEN;
    }
    uint32_t Sock::events()
    {
        uint32_t r = 0;
        if(st == S_LISTEN) { if(!q.empty()) r |= EPOLLIN; if(lis_shut) r |= EPOLLIN | EPOLLHUP; return r; }
        if(st == S_NEW) return EPOLLOUT | EPOLLHUP;
        if(st == S_CONNECTED && c)
        {
            Ep &e = me();
            bool rdhup = e.in.fin_rcvd || e.rd_shut || e.rst_rcvd;
            if(e.in.avail() || rdhup) r |= EPOLLIN;
            if(rdhup) r |= EPOLLRDHUP;
            if(writable()) r |= EPOLLOUT;
            if(e.rst_rcvd || (rdhup && e.wr_shut)) r |= EPOLLHUP;
            if(e.so_error) r |= EPOLLERR;
            return r;
        }
        if(st == S_CONNECTING) { if(connect_done) { r |= EPOLLOUT; if(so_error) r |= EPOLLERR | EPOLLHUP | EPOLLIN; } return r; }
        return EPOLLHUP;
    }

    // ------------------------------------------------------------------ socket calls
    int k_socket(int family, int type, int)
    {
        if(fire(F_SOCKET_FAIL)) { static const int e[4] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; return -e[pick(F, 4)]; }
        if(family != AF_INET && family != AF_INET6) return -EAFNOSUPPORT;
        auto s = std::make_shared<Sock>();
        s->family = family;
        if(type & SOCK_NONBLOCK) s->nonblock = true;
        return fd_install(s, nullptr);
    }
    int k_close(int fd)
    {
        if(!is_sim_fd(fd)) { if(fd >= 0) { n_bad_closes++; ev("bad-close", fd); } return -EBADF; }
        File *f = fdtab[fd];
        if(f->s && f->s->decoy) { n_decoy_kills++; ev("decoy-kill", fd); }
        fdtab[fd] = nullptr;
        // epoll sets forget a file when its last descriptor goes away (the weak pointer expires or refs drops to 0)
        if(f->s && --f->s->refs == 0) sock_release(f->s);
        delete f;
        bump();
        return 0;
    }
    static void deliver_sigpipe()
    {
        struct sigaction sa;
        sigaction(SIGPIPE, nullptr, &sa);
        if(sa.sa_handler == SIG_DFL && !(sa.sa_flags & SA_SIGINFO))
            fail("killed-by-sigpipe", "a send to a closed connection raised SIGPIPE with its default action: the process dies");
    }
    long k_send(const SockP &s, const void *buf, size_t n, int flags)
    {
        if(s->st != S_CONNECTED || !s->c)
        {
            if(s->st == S_LISTEN || s->st == S_NEW || s->st == S_CLOSED) { if(!(flags & MSG_NOSIGNAL)) deliver_sigpipe(); return -EPIPE; }
            return -EAGAIN;
        }
        bool nb = s->nonblock || (flags & MSG_DONTWAIT);
        ns deadline = s->sndtimeo > 0 ? now() + s->sndtimeo : -1;
        size_t done = 0;
        if(!s->ext)
        {
            if(fire(F_SEND_FAIL)) { static const int e[2] = {ENOBUFS, ENOMEM}; return -e[pick(F, 2)]; }
            if(fire(F_RESET)) reset_conn(s->c);
        }
        for(;;)
        {
            ConnP c = s->c;
            Ep &e = s->me(); Pipe &out = s->other().in;
            if(e.rst_rcvd || e.wr_shut)
            {
                if(done) return done;
                if(e.so_error) { int r = e.so_error; e.so_error = 0; if(r != EPIPE) return -r; }
                if(!(flags & MSG_NOSIGNAL)) deliver_sigpipe();
                return -EPIPE;
            }
            size_t used = out.inflight + out.avail();
            size_t space = used < c->cap ? c->cap - used : 0;
            if(s->other().closed || c->vanished[1 - s->side]) { size_t u = out.inflight; space = u < c->cap ? c->cap - u : 0; }
            if(n == done) return done;
            if(space)
            {
                size_t k = std::min(space, n - done);
                if(!s->ext && k > 1 && fire(F_SHORT_WRITE))
                {
                    k = 1 + pick(F, (uint32_t)std::min<size_t>(k - 1, 1u << 20));
                    out.written += k;
                    enqueue(c, 1 - s->side, std::string((const char *)buf + done, k), false);
                    bump();
                    return done + k;
                }
                out.written += k;
                if(!s->ext) spin_note(true);
                enqueue(c, 1 - s->side, std::string((const char *)buf + done, k), false);
                bump();
                done += k;
                if(done == n) return done;
                continue;
            }
            if(nb) { if(!done && !s->ext) spin_note(false); return done ? (long)done : -EAGAIN; }
            if(!s->ext && fire(F_SEND_EINTR)) return done ? (long)done : -EINTR;
            if(!s->ext && s->sndtimeo > 0 && fire(F_SPURIOUS_TIMEOUT)) { sleep_ns(s->sndtimeo); return done ? (long)done : -EAGAIN; }
            probe("send blocked on a full buffer");
            if(c->vanished[1 - s->side]) arm_rto(c, s->side);
            bool ok = block_until([s, c] { return s->writable() || s->other().closed; }, deadline, "send");
            if(s->other().closed && !s->writable() && !s->me().rst_rcvd) { sleep_ns(c->lat); }
            if(!ok) return done ? (long)done : -EAGAIN;
        }
    }
    long k_recv(const SockP &s, void *buf, size_t n, int flags)
    {
        if(s->st != S_CONNECTED || !s->c)
        {
            if(s->so_error) { int r = s->so_error; s->so_error = 0; return -r; }
            return -ENOTCONN;
        }
        bool nb = s->nonblock || (flags & MSG_DONTWAIT);
        ns deadline = s->rcvtimeo > 0 ? now() + s->rcvtimeo : -1;
        size_t done = 0;
        if(!s->ext)
        {
            if(fire(F_RECV_FAIL)) { static const int e[2] = {ENOMEM, ETIMEDOUT}; return -e[pick(F, 2)]; }
            if(fire(F_RESET)) reset_conn(s->c);
        }
        if(n == 0) return 0;
        for(;;)
        {
            Ep &e = s->me(); Pipe &in = e.in;
            if(in.avail())
            {
                size_t k = std::min(in.avail(), n - done);
                if(!s->ext && k > 1 && !(flags & MSG_WAITALL) && fire(F_SHORT_READ)) k = 1 + pick(F, (uint32_t)std::min<size_t>(k - 1, 1u << 20));
                if(!(flags & MSG_TRUNC)) memcpy((char *)buf + done, in.rx.data() + in.rx_off, k); // on TCP: thrown away
                if(!(flags & MSG_PEEK))
                {
                    in.rx_off += k; in.read += k;
                    if(in.rx_off == in.rx.size()) { in.rx.clear(); in.rx_off = 0; }
                    bump();
                }
                done += k;
                if(!s->ext) spin_note(true);
                if(done == n || !(flags & MSG_WAITALL) || (flags & MSG_PEEK)) return done;
                continue;
            }
            if(done) { if(in.fin_rcvd || e.rst_rcvd || e.rd_shut) return done; }
            if(in.fin_rcvd) return 0;
            if(e.so_error) { int r = e.so_error; e.so_error = 0; return -r; }
            if(e.rst_rcvd || e.rd_shut) return 0;
            if(nb) { if(!done && !s->ext) spin_note(false); return done ? (long)done : -EAGAIN; }
            if(!s->ext && fire(F_RECV_EINTR)) return done ? (long)done : -EINTR;
            if(!s->ext && s->rcvtimeo > 0 && fire(F_SPURIOUS_TIMEOUT)) { sleep_ns(s->rcvtimeo); if(s->me().in.avail()) continue; return done ? (long)done : -EAGAIN; }
            bool ok = block_until([s] { return s->readable(); }, deadline, "recv");
            if(!ok) return done ? (long)done : -EAGAIN;
        }
    }
    static Sock *find_listener(const std::string &ip, uint16_t port, std::vector<Sock *> &all)
    {
        all.clear();
        bool v6 = is_v6(ip);
        for(auto *l : N->listeners)
            if(l->st == S_LISTEN && !l->lis_shut && l->port == port && !is_wild(l->bind_ip) && l->bind_ip == ip) all.push_back(l);
        if(all.empty())
            for(auto *l : N->listeners)
                if(l->st == S_LISTEN && !l->lis_shut && l->port == port && is_wild(l->bind_ip))
                {
                    if(v6 && l->family != AF_INET6) continue;
                    if(!v6 && l->family == AF_INET6 && l->v6only) continue;
                    all.push_back(l);
                }
        return all.empty() ? nullptr : all[0];
    }
    static void finish_connect(const SockP &s, int err)
    {
        if(s->st != S_CONNECTING) return;
        ev("connect-done", err);
        bump();
        s->connect_done = true;
        if(err) { s->so_error = err; return; }
        s->st = S_CONNECTED;
    }
    static bool default_conn_profile(const ConnP &c)
    {
        c->seg = true;
        c->id = ++N->conn_id;
        if(N->next_cap) c->cap = N->next_cap;
        else if(rate(F_TINY_BUF) > 0 && fire(F_TINY_BUF))
        {
            static const size_t caps[6] = {1, 3, 17, 130, 1400, 5000};
            c->cap = caps[pick(F, 6)];
        }
        return true;
    }
    static int try_establish(const SockP &s, const std::string &ip, uint16_t port)
    {
        std::vector<Sock *> ls;
        if(!find_listener(ip, port, ls)) return ECONNREFUSED;
        Sock *l = ls.size() == 1 ? ls[0] : ls[pick(S, (uint32_t)ls.size())];
        if((int)l->q.size() > l->backlog) return EAGAIN; // SYN dropped, the client retries
        auto c = std::make_shared<Conn>();
        default_conn_profile(c);
        auto srv = std::make_shared<Sock>();
        srv->family = l->family; srv->ext = l->ext;
        srv->st = S_CONNECTED; srv->c = c; srv->side = 1;
        s->c = c; s->side = 0;
        c->e[0].owner = s.get(); c->e[1].owner = srv.get();
        fill_addr(srv->local, ip, port, l->family);
        std::string src = ip_of((sockaddr *)&s->local);
        if(src.compare(0, 7, "::ffff:") == 0) src = src.substr(7);
        fill_addr(srv->peer, src, port_of((sockaddr *)&s->local), is_v6(src) ? AF_INET6 : l->family);
        l->q.push_back(srv);
        if(N->on_conn) { auto f = std::move(N->on_conn); N->on_conn = nullptr; f(s, srv); }
        return 0;
    }
    static void attempt(const SockP &s, const std::string &ip, uint16_t port, int tries)
    {
        if(s->st != S_CONNECTING || s->connect_done) return;
        int r = try_establish(s, ip, port);
        if(r == EAGAIN)
        {
            probe("listen backlog overflow");
            if(tries > 6) { finish_connect(s, ETIMEDOUT); return; }
            at(now() + (1 * SEC << tries), [s, ip, port, tries] { attempt(s, ip, port, tries + 1); });
            return;
        }
        finish_connect(s, r);
    }
    int k_connect(const SockP &s, const sockaddr *a, socklen_t)
    {
        if(s->st == S_CONNECTED) return -EISCONN;
        if(s->st == S_CONNECTING)
        {
            if(!s->connect_done) return -EALREADY;
            int r = s->so_error; s->so_error = 0;
            s->connect_done = false; s->st = S_NEW;
            return r ? -r : 0;
        }
        if(s->st == S_LISTEN) return -EISCONN;
        std::string ip = ip_of(a);
        uint16_t port = port_of(a);
        if(ip.compare(0, 7, "::ffff:") == 0) ip = ip.substr(7);
        if(!s->ext && fire(F_CONNECT_FAIL)) { static const int e[4] = {EADDRNOTAVAIL, EACCES, ENETUNREACH, ETIMEDOUT}; return -e[pick(F, 4)]; }
        std::string src = cur() && !cur()->source_ip.empty() ? cur()->source_ip : (is_v6(ip) ? "fd00::1" : "10.99.0.1");
        if(is_v6(src) != is_v6(ip)) src = is_v6(ip) ? "fd00::1" : "10.99.0.1";
        fill_addr(s->local, src, ++N->eph, AF_UNSPEC);
        fill_addr(s->peer, ip, port, AF_UNSPEC);
        auto h = N->hosts.find(ip);
        Addr ad = h == N->hosts.end() ? Addr{ip, Up, 0} : h->second;
        AddrMode mode = ad.mode;
        if(mode != Up) count_fault(F_ADDR_DOWN);
        ns lat = 100 * US;
        if(mode == UnreachNow) return -ENETUNREACH;
        s->st = S_CONNECTING; s->connect_done = false; s->so_error = 0;
        SockP keep = s;
        if(s->nonblock && !s->ext && (mode == Up || mode == Refuse) && fire(F_CONNECT_NOW)) // a local peer: the answer is there at once
        {
            if(mode == Refuse) finish_connect(keep, ECONNREFUSED); else attempt(keep, ip, port, 0);
            if(s->connect_done && !s->so_error) return 0;
            if(s->connect_done) { int r = s->so_error; s->so_error = 0; s->st = S_NEW; s->connect_done = false; return -r; }
            return -EINPROGRESS;
        }
        if(mode == Blackhole) at(now() + 127 * SEC, [keep] { finish_connect(keep, ETIMEDOUT); });
        else if(mode == UnreachLater)
        {
            static const int e[] = {EHOSTUNREACH, ENETUNREACH, ECONNRESET, ETIMEDOUT, EACCES, ENETDOWN, EHOSTDOWN, EPROTO}; int err = e[pick(F, 8)];
            at(now() + 3 * SEC, [keep, err] { finish_connect(keep, err); });
        }
        else if(mode == Slow && ad.delay >= 127 * SEC) at(now() + 127 * SEC, [keep] { finish_connect(keep, ETIMEDOUT); });
        else if(mode == Refuse) at(now() + lat, [keep] { finish_connect(keep, ECONNREFUSED); });
        else at(now() + lat + (mode == Slow ? ad.delay : 0), [keep, ip, port] { attempt(keep, ip, port, 0); });
        if(s->nonblock) return -EINPROGRESS;
        ns deadline = s->sndtimeo > 0 ? now() + s->sndtimeo : -1;
        if(!s->ext && fire(F_SELECT_EINTR)) return -EINTR;
        bool ok = block_until([keep] { return keep->connect_done; }, deadline, "connect");
        if(!ok) return -EINPROGRESS;
        if(s->so_error) { int r = s->so_error; s->so_error = 0; s->st = S_NEW; s->connect_done = false; return -r; }
        return 0;
    }
    int k_bind(const SockP &s, const sockaddr *a, socklen_t)
    {
        if(!s->ext && fire(F_BIND_FAIL)) { static const int e[2] = {EADDRINUSE, EACCES}; return -e[pick(F, 2)]; }
        if(s->bound) return -EINVAL;
        std::string ip = ip_of(a); uint16_t port = port_of(a);
        if(port == 0) port = ++N->eph;
        for(auto *l : N->listeners)
        {
            if(l->port != port) continue;
            bool both_reuse = l->reuseport && s->reuseport;
            bool overlap = is_wild(l->bind_ip) || is_wild(ip) || l->bind_ip == ip;
            if(l->family != s->family && (l->family == AF_INET6 ? l->v6only : s->v6only)) overlap = false;
            if(overlap && !both_reuse) return -EADDRINUSE;
        }
        s->bind_ip = ip; s->port = port; s->bound = true;
        memcpy(&s->local, a, s->family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in));
        N->listeners.push_back(s.get());
        return 0;
    }
    int k_listen(const SockP &s, int backlog)
    {
        if(!s->ext && fire(F_LISTEN_FAIL)) return -EADDRINUSE;
        if(!s->bound) { s->bound = true; s->port = ++N->eph; s->bind_ip = ""; N->listeners.push_back(s.get()); }
        if(s->st != S_NEW && s->st != S_LISTEN) return -EINVAL;
        s->st = S_LISTEN; s->backlog = backlog < 0 ? 0 : backlog;
        bump();
        return 0;
    }
    int k_accept(const SockP &s, sockaddr *a, socklen_t *len, int flags)
    {
        if(s->st != S_LISTEN) return -EINVAL;
        if(!s->ext && fire(F_ACCEPT_FAIL))
        {
            static const int e[5] = {ECONNABORTED, EMFILE, ENFILE, ENOMEM, EPROTO};
            int k = e[pick(F, 5)];
            if(k == ECONNABORTED || k == EPROTO)
            {
                if(s->q.empty()) return s->nonblock ? -EAGAIN : -EINTR;
                auto v = s->q.front(); s->q.pop_front(); // that connection died in the queue
                v->c->e[1].closed = true; send_rst(v->c, 0);
            }
            return -k;
        }
        for(;;)
        {
            if(s->lis_shut) return -EINVAL;
            if(!s->q.empty()) break;
            if(s->nonblock) return -EAGAIN;
            if(!s->ext && fire(F_ACCEPT_EINTR)) return -EINTR;
            ns deadline = s->rcvtimeo > 0 ? now() + s->rcvtimeo : -1;
            if(!block_until([s] { return !s->q.empty() || s->lis_shut; }, deadline, "accept")) return -EAGAIN;
        }
        auto v = s->q.front();
        int fd = fd_install(v, nullptr);
        if(fd < 0) return fd;
        s->q.pop_front();
        bump(); ev("accepted", v->c->id, fd);
        if(flags & SOCK_NONBLOCK) v->nonblock = true;
        if(a && len)
        {
            socklen_t l = addr_len(v->peer);
            memcpy(a, &v->peer, std::min(l, *len));
            *len = l;
        }
        return fd;
    }
    int k_shutdown(const SockP &s, int how)
    {
        bump();
        if(s->st == S_LISTEN)
        {
            if(how == SHUT_RD || how == SHUT_RDWR)
            {
                s->lis_shut = true;
                for(auto &q : s->q) { q->c->e[q->side].closed = true; send_rst(q->c, 1 - q->side); }
                s->q.clear();
            }
            return 0;
        }
        if(s->st != S_CONNECTED || !s->c) return -ENOTCONN;
        Ep &e = s->me();
        if(e.rst_rcvd) return -ENOTCONN;
        if(how == SHUT_RD || how == SHUT_RDWR) e.rd_shut = true;
        if((how == SHUT_WR || how == SHUT_RDWR) && !e.wr_shut)
        {
            e.wr_shut = true;
            Pipe &out = s->other().in;
            if(!out.fin_sent) { out.fin_sent = true; enqueue(s->c, 1 - s->side, "", true); }
        }
        return 0;
    }
    int k_setsockopt(const SockP &s, int level, int name, const void *v, socklen_t len)
    {
        if(level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO))
        {
            if(len < sizeof(timeval)) return -EINVAL;
            auto *tv = (const timeval *)v;
            if(tv->tv_usec < 0 || tv->tv_usec >= 1000000) return -EDOM;
            ns d = tv->tv_sec * SEC + tv->tv_usec * US;
            (name == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = d;
            return 0;
        }
        if(level == SOL_SOCKET && name == SO_LINGER && len >= sizeof(linger)) { auto *l = (const linger *)v; s->linger0 = l->l_onoff && !l->l_linger; return 0; }
        int i = len >= sizeof(int) ? *(const int *)v : 0;
        if(level == SOL_SOCKET && (name == SO_REUSEADDR || name == SO_REUSEPORT))
        {
            if(fire(F_SETSOCKOPT_FAIL)) return name == SO_REUSEPORT ? -ENOPROTOOPT : -ENOBUFS;
            (name == SO_REUSEADDR ? s->reuseaddr : s->reuseport) = i != 0;
            return 0;
        }
        if(level == IPPROTO_IPV6 && name == IPV6_V6ONLY) { s->v6only = i != 0; return 0; }
        return 0;
    }
    int k_getsockopt(const SockP &s, int level, int name, void *v, socklen_t *len)
    {
        if(fire(F_GETSOCKOPT_FAIL)) return -ENOBUFS;
        if(level == SOL_SOCKET && name == SO_ERROR)
        {
            int e = 0;
            if(s->st == S_CONNECTED && s->c) { e = s->me().so_error; s->me().so_error = 0; }
            else { e = s->so_error; s->so_error = 0; }
            if(*len >= sizeof(int)) { *(int *)v = e; *len = sizeof(int); }
            return 0;
        }
        if(level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO))
        {
            ns d = name == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo;
            timeval tv; tv.tv_sec = d / SEC; tv.tv_usec = (d % SEC) / US;
            if(*len >= sizeof tv) { memcpy(v, &tv, sizeof tv); *len = sizeof tv; }
            return 0;
        }
        if(level == SOL_SOCKET && name == SO_TYPE && *len >= sizeof(int)) { *(int *)v = SOCK_STREAM; *len = sizeof(int); return 0; }
        if(level == SOL_SOCKET && name == SO_ACCEPTCONN && *len >= sizeof(int)) { *(int *)v = s->st == S_LISTEN; *len = sizeof(int); return 0; }
        if(*len >= sizeof(int)) { *(int *)v = 0; *len = sizeof(int); }
        return 0;
    }

    // ------------------------------------------------------------------ epoll
    int k_epoll_create()
    {
        if(fire(F_EPOLL_CREATE_FAIL)) return pick(F, 2) ? -ENOMEM : -EMFILE;
        return fd_install(nullptr, std::make_shared<Epoll>());
    }
    static void epoll_purge(Epoll &ep)
    {
        for(auto it = ep.items.begin(); it != ep.items.end();)
        {
            auto s = it->second.s.lock();
            if(!s || s->refs == 0) it = ep.items.erase(it);
            else ++it;
        }
    }
    int k_epoll_ctl(int epfd, int op, int fd, epoll_event *e)
    {
        if(!is_sim_fd(epfd) || !is_sim_fd(fd)) return -EBADF;
        if(!fdtab[epfd]->ep) return -EINVAL;
        Epoll &ep = *fdtab[epfd]->ep;
        epoll_purge(ep);
        auto s = fdtab[fd]->s;
        if(!s) return -EPERM;
        auto it = ep.items.find(fd);
        bool have = it != ep.items.end() && it->second.s.lock() == s;
        // an entry under the same number but for an older file that is still open elsewhere: keyed by (file, fd) in Linux
        if(op == EPOLL_CTL_ADD)
        {
            if(have) return -EEXIST;
            if(fire(F_EPOLL_CTL_FAIL)) return pick(F, 2) ? -ENOMEM : -ENOSPC;
            EpollItem i; i.fd = fd; i.s = s; i.ev = e->events; i.data = e->data; i.seq = ++ep.seq;
            ep.items[fd] = i;
            bump();
            return 0;
        }
        if(!have) return -ENOENT;
        if(op == EPOLL_CTL_DEL) { ep.items.erase(it); return 0; }
        if(op == EPOLL_CTL_MOD)
        {
            if(fire(F_EPOLL_CTL_FAIL)) return -ENOMEM;
            it->second.ev = e->events; it->second.data = e->data; it->second.disabled = false; it->second.last = 0; bump(); return 0;
        }
        return -EINVAL;
    }
    static uint32_t item_ready(EpollItem &i)
    {
        auto s = i.s.lock();
        if(!s || i.disabled) return 0;
        uint32_t now_ev = s->events() & (i.ev | EPOLLERR | EPOLLHUP);
        return now_ev;
    }
    int k_epoll_wait(int epfd, epoll_event *evs, int max, int64_t timeout_ms)
    {
        if(!is_sim_fd(epfd)) return -EBADF;
        if(!fdtab[epfd]->ep || max <= 0) return -EINVAL;
        EpollP ep = fdtab[epfd]->ep;
        if(timeout_ms != 0 && fire(F_EPOLL_EINTR))
        {
            // a signal arrives some time into the wait
            ns d = timeout_ms > 0 ? timeout_ms * MS * pick(F, 4) / 4 : (ns)pick(F, 4) * 20 * MS;
            if(d) sleep_ns(d);
            return -EINTR;
        }
        ns deadline = timeout_ms < 0 ? -1 : now() + timeout_ms * MS;
        auto ready = [ep] {
            for(auto &i : ep->items)
            {
                uint32_t r = item_ready(i.second);
                if(!(i.second.ev & EPOLLET)) { if(r) return true; }
                else if(r & ~i.second.last) return true;
            }
            return false;
        };
        epoll_purge(*ep);
        if(!ready())
        {
            if(timeout_ms == 0) return 0;
            if(!block_until(ready, deadline, "epoll_wait")) return 0;
        }
        epoll_purge(*ep);
        std::vector<EpollItem *> r;
        for(auto &i : ep->items)
        {
            uint32_t e = item_ready(i.second);
            if(i.second.ev & EPOLLET)
            {
                uint32_t fresh = e & ~i.second.last;
                // edge triggered: reported again only after it was not ready, or on new data (approximated by a not-ready observation)
                if(!fresh) { i.second.last &= e; continue; }
            }
            if(e) r.push_back(&i.second);
        }
        if(r.empty()) return 0;
        // Linux hands out level-triggered items round robin; any order is possible in practice
        if(r.size() > 1)
        {
            if(fire(F_EPOLL_SHUFFLE))
                for(size_t i = r.size() - 1; i > 0; --i) std::swap(r[i], r[pick(F, (uint32_t)i + 1)]);
            else if((int)r.size() > max) std::rotate(r.begin(), r.begin() + (ep->rotor % r.size()), r.end());
        }
        int n = (int)std::min<size_t>(r.size(), (size_t)max);
        if(n > 1 && fire(F_EPOLL_FEW)) n = 1 + pick(F, n - 1);
        ep->rotor += n;
        for(int k = 0; k < n; ++k)
        {
            evs[k].events = item_ready(*r[k]);
            evs[k].data = r[k]->data;
            if(r[k]->ev & EPOLLONESHOT) r[k]->disabled = true;
            if(r[k]->ev & EPOLLET) r[k]->last = evs[k].events;
        }
        return n;
    }

    // ------------------------------------------------------------------ name resolution
    int k_getaddrinfo(const char *node, const char *svc, const addrinfo *hints, addrinfo **res)
    {
        if(fire(F_DNS_FAIL)) { static const int e[4] = {EAI_AGAIN, EAI_NONAME, EAI_MEMORY, EAI_FAIL}; return e[pick(F, 4)]; }
        int fam = hints ? hints->ai_family : AF_UNSPEC;
        uint16_t port = 0;
        if(svc)
        {
            char *end; long p = strtol(svc, &end, 10);
            if(*end || end == svc)
            {
                if(!strcmp(svc, "http")) p = 80; else if(!strcmp(svc, "https")) p = 443;
                else return EAI_SERVICE;
            }
            port = (uint16_t)p;
        }
        else if(!node) return EAI_NONAME;
        std::vector<std::string> ips;
        if(!node)
        {
            bool passive = hints && (hints->ai_flags & AI_PASSIVE);
            if(passive) ips = {"0.0.0.0", "::"}; else ips = {"::1", "127.0.0.1"};
        }
        else
        {
            in_addr a4; in6_addr a6;
            auto it = N->names.find(node);
            if(it != N->names.end())
            {
                if(it->second.first) return it->second.first;
                for(auto &a : it->second.second) ips.push_back(a.ip);
            }
            else if(inet_pton(AF_INET, node, &a4) == 1 || inet_pton(AF_INET6, node, &a6) == 1) ips.push_back(node);
            else if(!strcmp(node, "localhost")) ips = {"127.0.0.1"};
            else return EAI_NONAME;
        }
        // resolving takes time (a remote lookup)
        sleep_ns(node ? 200 * US : 1 * US);
        addrinfo *head = nullptr, **tail = &head;
        for(auto &ip : ips)
        {
            int f = is_v6(ip) ? AF_INET6 : AF_INET;
            if(fam != AF_UNSPEC && fam != f) continue;
            auto *blk = (char *)malloc(sizeof(addrinfo) + sizeof(sockaddr_storage));
            auto *ai = (addrinfo *)blk;
            memset(blk, 0, sizeof(addrinfo) + sizeof(sockaddr_storage));
            ai->ai_family = f; ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP;
            ai->ai_flags = hints ? hints->ai_flags : 0;
            ai->ai_addr = (sockaddr *)(blk + sizeof(addrinfo));
            sockaddr_storage ss;
            ai->ai_addrlen = fill_addr(ss, ip, port, f);
            memcpy(ai->ai_addr, &ss, ai->ai_addrlen);
            *tail = ai; tail = &ai->ai_next;
        }
        if(!head) return node ? EAI_NONAME : EAI_ADDRFAMILY;
        N->infos.insert(head);
        addrinfo_live++;
        *res = head;
        return 0;
    }
    void k_freeaddrinfo(addrinfo *a)
    {
        if(!a) return;
        if(N->infos.erase(a)) addrinfo_live--;
        while(a) { auto *n = a->ai_next; free(a); a = n; }
    }

    // ------------------------------------------------------------------ scripted endpoints
    SockP xlisten(const std::string &ip, uint16_t port, int backlog)
    {
        Core core;
        auto s = std::make_shared<Sock>();
        s->ext = true; s->family = is_v6(ip) || ip.empty() ? AF_INET6 : AF_INET;
        s->bind_ip = ip; s->port = port; s->bound = true; s->st = S_LISTEN; s->backlog = backlog; s->reuseport = true; s->refs = 1;
        N->listeners.insert(N->listeners.begin(), s.get());
        bump();
        return s;
    }
    SockP xoccupy(uint16_t port) { SockP s = xlisten("", port); s->reuseport = false; s->v6only = false; return s; }
    SockP xaccept(const SockP &l, ns deadline)
    {
        Core core;
        if(!block_until([l] { return !l->q.empty(); }, deadline, "xaccept")) return nullptr;
        auto v = l->q.front(); l->q.pop_front();
        v->refs = 1; v->ext = true;
        ev("xaccept", v->c->id);
        bump();
        return v;
    }
    SockP xconnect(const std::string &ip, uint16_t port, const std::string &source, ns deadline)
    {
        Core core;
        auto s = std::make_shared<Sock>();
        s->ext = true; s->refs = 1; s->family = is_v6(ip) ? AF_INET6 : AF_INET;
        std::string save = cur()->source_ip;
        if(!source.empty()) cur()->source_ip = source;
        sockaddr_storage ss; fill_addr(ss, ip, port, AF_UNSPEC);
        s->nonblock = true;
        int r = k_connect(s, (sockaddr *)&ss, addr_len(ss));
        cur()->source_ip = save;
        if(r != -EINPROGRESS) return nullptr;
        if(!block_until([s] { return s->connect_done; }, deadline, "xconnect")) { s->st = S_CLOSED; return nullptr; }
        s->nonblock = false;
        if(s->so_error) return nullptr;
        ev("xconnect", s->c->id);
        return s;
    }
    size_t xrecv(const SockP &s, void *buf, size_t n, ns deadline, bool *timeout, bool *err)
    {
        Core core;
        if(timeout) *timeout = false;
        if(err) *err = false;
        if(!block_until([s] { return s->readable(); }, deadline, "xrecv")) { if(timeout) *timeout = true; return 0; }
        s->nonblock = true;
        long r = k_recv(s, buf, n, 0);
        s->nonblock = false;
        ev("xrecv", s->c ? s->c->id : 0, r);
        if(r < 0) { if(err) *err = true; return 0; }
        return (size_t)r;
    }
    bool xsend(const SockP &s, const void *buf, size_t n, ns deadline)
    {
        Core core;
        ev("xsend", s->c ? s->c->id : 0, n);
        size_t off = 0;
        while(off < n)
        {
            if(!block_until([s] { return s->writable() || (s->c && s->other().closed); }, deadline, "xsend")) return false;
            s->nonblock = true;
            long r = k_send(s, (const char *)buf + off, n - off, MSG_NOSIGNAL);
            s->nonblock = false;
            if(r == -EAGAIN) { if(s->c && s->other().closed) return false; continue; }
            if(r < 0) return false;
            off += r;
        }
        return true;
    }
    bool xread_exact(const SockP &s, std::string &out, size_t n, ns deadline)
    {
        out.clear();
        char buf[2048];
        while(out.size() < n)
        {
            size_t k = xrecv(s, buf, std::min(sizeof buf, n - out.size()), deadline);
            if(!k) return false;
            out.append(buf, k);
        }
        return true;
    }
    void xshutdown(const SockP &s) { Core core; ev("xshutdown", s->c ? s->c->id : 0); k_shutdown(s, SHUT_WR); }
    void xclose(const SockP &s) { Core core; ev("xclose", s->c ? s->c->id : 0); if(s->refs && --s->refs == 0) sock_release(s); }
    void xreset(const SockP &s)
    {
        Core core;
        ev("xreset", s->c ? s->c->id : 0);
        if(!s->c || s->me().closed) return;
        Ep &e = s->me(); e.closed = true; e.owner = nullptr;
        Pipe &out = s->other().in;
        // the reset travels behind what is already on the wire, or overtakes it
        bool overtake = pick(F, 2);
        ns extra = overtake || out.fly.empty() ? 0 : std::max<ns>(0, out.last - now());
        send_rst(s->c, 1 - s->side, extra);
        s->st = S_CLOSED; s->refs = 0;
    }
    void xvanish(const SockP &s) { Core core; ev("xvanish", s->c->id); s->c->vanished[s->side] = true; s->c->vanished[1 - s->side] = false; if(s->me().in.inflight || s->me().in.avail() >= s->c->cap /* a window probe */) arm_rto(s->c, 1 - s->side); bump(); }
    std::string xpeer_ip(const SockP &s) { Core core; std::string i = ip_of((sockaddr *)&s->peer); return i.compare(0, 7, "::ffff:") == 0 ? i.substr(7) : i; }
    uint16_t xpeer_port(const SockP &s) { return port_of((sockaddr *)&s->peer); }
    bool xpeer_closed(const SockP &s) { return s->c && (s->me().in.fin_rcvd || s->me().rst_rcvd); }
    bool xgot_reset(const SockP &s) { return s->c && s->me().rst_rcvd; }
    size_t xinflight(const SockP &s) { return s->c ? s->other().in.inflight + s->other().in.avail() : 0; }
    void xstall(const SockP &s, ns d) { Core core; if(!s->c) return; ns u = now() + d; if(u > s->c->held_until) s->c->held_until = u; count_fault(F_STALL); ev("xstall", s->c->id, d); }
    void xsegment(const SockP &s, const std::vector<size_t> &cuts) { Core core; if(!s->c) return; s->me().cuts = cuts; s->me().cut_i = 0; count_fault(F_SEGMENT); }
    void on_next_connection(std::function<void(const SockP &, const SockP &)> f) { Core core; N->on_conn = std::move(f); }
    void set_tamper(const SockP &s, Tamper t) { Core core; if(s->c) s->me().tamper = std::move(t); }
    void kill_fd_peer(int fd, bool rst)
    {
        Core core;
        auto s = fd_sock(fd);
        if(!s || !s->c) return;
        if(rst) reset_conn(s->c); else close_ep(s->c, 1 - s->side);
        count_fault(rst ? F_RESET : F_PEER_CRASH);
    }
}
