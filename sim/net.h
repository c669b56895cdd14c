#pragma once
#include "core.h"
#include <set>
#include <sys/epoll.h>
#include <netdb.h>

namespace sim
{
    struct Conn;
    enum SockState { S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_CLOSED };

    struct Seg { std::string data; bool fin; ns when; };
    struct Pipe
    {
        std::string rx; size_t rx_off = 0;     // delivered, not yet read
        std::deque<Seg> fly;                   // sent, not delivered
        size_t inflight = 0;
        bool fin_sent = false, fin_rcvd = false;
        ns last = 0;
        uint64_t written = 0, read = 0;
        size_t avail() const { return rx.size() - rx_off; }
    };
    struct Ep // one end of a connection
    {
        Pipe in;             // data flowing into this end
        bool rst_rcvd = false;
        bool closed = false; // the owner closed it (no reader any more)
        bool rd_shut = false, wr_shut = false, linger0 = false;
        int so_error = 0;
        Tamper tamper;
        Sock *owner = nullptr;
        std::vector<size_t> cuts; size_t cut_i = 0; // explicit segmentation of what this end sends
    };
    struct Conn
    {
        Ep e[2];
        size_t cap = 65536;   // bytes a writer may have outstanding
        ns lat = 50 * US;
        ns held_until = 0;    // partition / stall
        bool vanished[2] = {false, false}, rto[2] = {false, false};
        bool seg = false;     // random segmentation enabled on this connection
        uint64_t id = 0;
    };
    typedef std::shared_ptr<Conn> ConnP;

    struct Sock : std::enable_shared_from_this<Sock>
    {
        int family = AF_INET;
        SockState st = S_NEW;
        bool ext = false, decoy = false;
        bool nonblock = false, linger0 = false;
        ns rcvtimeo = 0, sndtimeo = 0;
        bool reuseport = false, reuseaddr = false, v6only = false, bound = false;
        ConnP c; int side = 0;
        int so_error = 0;      // pending error of a failed connect
        bool connect_done = false;
        sockaddr_storage local{}, peer{};
        std::deque<SockP> q; int backlog = 0;
        bool lis_shut = false;
        std::string bind_ip; uint16_t port = 0;
        int refs = 0;          // descriptors referring to it
        Sock();
        ~Sock();
        Ep &me() { return c->e[side]; }
        Ep &other() { return c->e[1 - side]; }
        bool readable();
        bool writable();
        uint32_t events();
    };

    struct EpollItem { int fd; std::weak_ptr<Sock> s; uint32_t ev; epoll_data_t data; bool disabled = false; uint32_t last = 0; uint64_t seq; };
    struct Epoll { std::map<int, EpollItem> items; uint64_t seq = 0; size_t rotor = 0; };
    typedef std::shared_ptr<Epoll> EpollP;
    struct File { SockP s; EpollP ep; };

    constexpr int FD_BASE = 200, FD_END = 2100;
    extern int fd_first; // lowest number handed out
    extern File *fdtab[FD_END];
    inline bool is_sim_fd(int fd) { return fd >= FD_BASE && fd < FD_END && fdtab[fd]; }
    inline bool in_sim_range(int fd) { return fd >= FD_BASE && fd < FD_END; }
    SockP fd_sock(int fd);

    // kernel-side operations: return value or -errno
    int k_socket(int family, int type, int proto);
    int k_close(int fd);
    void sock_release(const SockP &s);
    struct Hold { SockP s; Hold(const SockP &s_) : s(s_) { s->refs++; } ~Hold() { if(--s->refs == 0) sock_release(s); } }; // a call in progress keeps the file open
    long k_send(const SockP &s, const void *buf, size_t n, int flags);
    long k_recv(const SockP &s, void *buf, size_t n, int flags);
    int k_connect(const SockP &s, const sockaddr *a, socklen_t len);
    int k_bind(const SockP &s, const sockaddr *a, socklen_t len);
    int k_listen(const SockP &s, int backlog);
    int k_accept(const SockP &s, sockaddr *a, socklen_t *len, int flags);
    int k_shutdown(const SockP &s, int how);
    int k_setsockopt(const SockP &s, int level, int name, const void *v, socklen_t len);
    int k_getsockopt(const SockP &s, int level, int name, void *v, socklen_t *len);
    int k_epoll_create();
    int k_epoll_ctl(int epfd, int op, int fd, epoll_event *e);
    int k_epoll_wait(int epfd, epoll_event *evs, int max, int64_t timeout_ms);
    int k_getaddrinfo(const char *node, const char *svc, const addrinfo *hints, addrinfo **res);
    void k_freeaddrinfo(addrinfo *a);
    std::string ip_of(const sockaddr *a);
    uint16_t port_of(const sockaddr *a);
    extern int addrinfo_live;
    extern uint64_t n_bad_closes, n_decoy_kills;
}
