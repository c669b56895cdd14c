// Deterministic simulator: tasks, virtual time, recorded choices, network model.
// Everything here runs while exactly one task holds the baton.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <sys/socket.h>
#include <netinet/in.h>

namespace sim
{
    // ---------------------------------------------------------------- choices
    // Every nondeterministic decision is one entry in one of three recorded streams.  Value 0 is always the
    // simplest alternative (no fault, keep running, smallest input), so deleting an entry simplifies the run.
    enum Stream { W = 0 /*workload*/, S = 1 /*schedule*/, F = 2 /*faults*/, NSTREAM = 3 };
    uint32_t pick(Stream s, uint32_t n);                      // uniform in [0, n)
    uint32_t pick_biased(Stream s, uint32_t n, double p0);    // 0 with probability p0, else uniform in [1, n)
    bool chance(Stream s, double p);                          // true with probability p
    inline uint32_t wl(uint32_t n) { return pick(W, n); }
    inline bool wchance(double p) { return chance(W, p); }
    inline int64_t wrange(int64_t lo, int64_t hi) { return lo + (int64_t)pick(W, (uint32_t)(hi - lo + 1)); }
    uint64_t run_index();

    // ---------------------------------------------------------------- time
    typedef int64_t ns;
    constexpr ns US = 1000, MS = 1000 * US, SEC = 1000 * MS;
    ns now();                       // virtual nanoseconds since the start of the run
    ns stalled();                   // virtual time the scheduler has injected as scheduling stalls so far
    ns wall_base();                 // unix time (ns) at virtual 0
    void set_wall_offset(ns off);   // clock skew/jump: unix time = wall_base + now + off
    void at(ns when, std::function<void()> fn); // schedule an event

    // ---------------------------------------------------------------- tasks
    int spawn(const std::string &name, std::function<void()> fn, bool daemon = false);
    void join(int task);
    bool finished(int task);
    void sleep_ns(ns d);
    bool block_until(const std::function<bool()> &pred, ns deadline = -1, const char *what = "wait"); // false on timeout
    void yield();
    int self();
    struct Lib { Lib(); ~Lib(); };  // marks "inside a library call": basic-block preemption, allocation and edge accounting
    struct Atomic { Atomic(); ~Atomic(); }; // scenario critical section: no switches at all

    // ---------------------------------------------------------------- verdicts & evidence
    [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // trace line, hashed
    void probe(const char *name);         // "this condition was reached"
    void nontrivial();                    // this run exercised the property (counted)
    void set_alloc_limit(size_t single, size_t live); // bounds on memory requested inside library calls of this run (0 = off)
    size_t live_bytes();
    uint64_t alloc_mark();                // a point in time, in allocations
    std::string leaks(const std::vector<uint64_t> &marks, size_t episodes); // what several of the episodes that began at the marks left behind ("" if nothing)
    void time_limit(ns d);                // bound on the simulated time of a run (8 hours unless set)
    void expect_progress(ns within);      // liveness: the run must finish within this much more virtual time

    // ---------------------------------------------------------------- faults
    enum Fault
    {
        F_RECV_EINTR, F_SEND_EINTR, F_SHORT_WRITE, F_SHORT_READ, F_SEGMENT, F_DELAY, F_STALL, F_RESET, F_PEER_CRASH,
        F_TINY_BUF, F_SPURIOUS_TIMEOUT, F_SOCKET_FAIL, F_SETSOCKOPT_FAIL, F_FCNTL_FAIL, F_GETSOCKOPT_FAIL, F_CONNECT_FAIL,
        F_SELECT_EINTR, F_SELECT_FAIL, F_ACCEPT_FAIL, F_ACCEPT_EINTR, F_BIND_FAIL, F_LISTEN_FAIL, F_EPOLL_CREATE_FAIL, F_EPOLL_CTL_FAIL,
        F_EPOLL_EINTR, F_EPOLL_FEW, F_EPOLL_SHUFFLE, F_DNS_FAIL, F_NAMEINFO_FAIL, F_PEERNAME_FAIL, F_RECV_FAIL, F_SEND_FAIL, F_CLOCK_JUMP,
        F_TAMPER, F_CPU_STALL, F_PREEMPT, F_SWITCH, F_SPURIOUS_READY, F_ADDR_DOWN, F_PEER_BYTES, F_CONNECT_NOW, F_ALLOC_FAIL,
        NFAULT
    };
    extern const char *const fault_names[NFAULT];
    void enable(Fault f, double rate);     // per-site probability for this run
    double rate(Fault f);
    bool deep();               // the thorough tier: also faults whose handling is a matter of the exact order of harmless steps
    void set_deep(bool);
    bool fire(Fault f);                    // draws from the fault stream; counts when it fires
    void count_fault(Fault f);
    void quiesce();                        // "faults stop": disables every fault from now on
    void swarm(std::initializer_list<std::pair<Fault, double>> menu); // enables a random subset with random intensities
    void sched_mode();                     // picks switch rate / preemption density / cpu stalls for this run

    // ---------------------------------------------------------------- network
    enum AddrMode { Up = 0, Refuse, Blackhole, UnreachNow, UnreachLater, Slow };
    struct Addr { std::string ip; AddrMode mode = Up; ns delay = 0; };
    void dns(const std::string &name, const std::vector<Addr> &addrs);      // several addresses per name
    void dns_error(const std::string &name, int eai);
    void set_mode(const std::string &ip, AddrMode m, ns delay = 0);
    void next_source(const std::string &ip);  // source address of the next outgoing connections made by this task

    struct Sock;
    typedef std::shared_ptr<Sock> SockP;

    // scripted peers: endpoints without a descriptor, never subject to syscall faults
    SockP xlisten(const std::string &ip, uint16_t port, int backlog = 64);   // ip "" = wildcard
    SockP xaccept(const SockP &l, ns deadline = -1);                           // null on timeout
    SockP xconnect(const std::string &ip, uint16_t port, const std::string &source = "", ns deadline = -1);
    size_t xrecv(const SockP &s, void *buf, size_t n, ns deadline = -1, bool *timeout = nullptr, bool *err = nullptr); // 0 = eof/err/timeout
    bool xsend(const SockP &s, const void *buf, size_t n, ns deadline = -1);   // all or false
    bool xread_exact(const SockP &s, std::string &out, size_t n, ns deadline = -1);
    void xshutdown(const SockP &s);                 // FIN
    void xclose(const SockP &s);                    // FIN, or RST with unread data
    void xreset(const SockP &s);                    // RST
    void xvanish(const SockP &s);                   // host crash: nothing is ever delivered again
    std::string xpeer_ip(const SockP &s);
    uint16_t xpeer_port(const SockP &s);
    bool xpeer_closed(const SockP &s);              // peer's FIN or RST arrived here
    bool xgot_reset(const SockP &s);
    size_t xinflight(const SockP &s);               // bytes this endpoint sent that the other side has not read
    void xstall(const SockP &s, ns dur);            // deliveries in both directions are held for dur
    void xsegment(const SockP &s, const std::vector<size_t> &cuts); // explicit segmentation of what this endpoint sends next

    // man in the middle: called for each segment delivered, may edit the bytes
    typedef std::function<void(std::string &)> Tamper;
    void set_tamper(const SockP &s, Tamper t);       // on data flowing *into* s

    void on_next_connection(std::function<void(const SockP &, const SockP &)> f); // called once with (client end, server end)

    // looking at the process under test from outside
    SockP sock_of(int fd);
    int open_fds();                                  // sim descriptors open right now
    void fd_base(int n);                             // descriptor numbers start here (beyond what an fd_set holds, say)
    bool fd_open(int fd);
    bool fd_ready(int fd);                           // unread data, closed or failed peer, or a pending connection
    bool fd_nonblocking(int fd);                     // the O_NONBLOCK flag the kernel has
    int decoy();                                     // opens an unrelated descriptor (closed by nobody but the scenario)
    void decoy_close(int fd);
    uint64_t bad_closes();                           // close() on a descriptor number that was not open
    uint64_t decoy_kills();                          // close() on a decoy by somebody else
    int live_addrinfo();
    uint64_t syscalls();
    uint64_t syscalls_of(int task);
    bool task_blocked(int task);                     // parked in a wait
    void next_connect_cap(size_t bytes);              // buffer size for connections made from now on (0 = default policy)
    void kill_fd_peer(int fd, bool rst);             // crash of the process at the other end
    ns opt_timeo(int fd, bool rcv);                  // SO_RCVTIMEO/SO_SNDTIMEO as the kernel has them
    bool listening(uint16_t port);
    SockP xoccupy(uint16_t port);                    // somebody else's listener that shares its port with nobody
    uint64_t fd_written(int fd);                     // bytes the kernel accepted from this descriptor
    uint64_t fd_read(int fd);                        // bytes the kernel handed out on this descriptor
    bool fd_reset(int fd);                           // a reset reached this end
    bool fd_eof(int fd);                             // the peer's FIN reached this end
    size_t fd_avail(int fd);                         // bytes waiting
    uint64_t faults_fired(Fault f);
    ns wall_now();

    // ---------------------------------------------------------------- scenario registry
    struct Scenario
    {
        const char *id;
        std::function<void()> body;      // runs as task 0
    };
    struct Register { Register(const char *id, void (*fn)()); };
#define SCENARIO(ID) static void scen_body_##ID(); static sim::Register scen_reg_##ID(#ID, scen_body_##ID); static void scen_body_##ID()

    uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
    std::string certs_dir();
}
