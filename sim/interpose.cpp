// The libc seam: definitions in the executable take precedence over libc's, for the library under test, for the
// static mbedtls it links and for libstdc++.  Calls on descriptors the simulator does not own, and calls from
// threads that are not simulated tasks, go straight to the kernel.
#include "net.h"
#include <cerrno>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <poll.h>
#include <netdb.h>
#include <dlfcn.h>
#include <arpa/inet.h>
#include <cstdio>
#include <random>

namespace sim { ns wall_now(); }
using namespace sim;

static inline bool on() { return active && cur() && cur()->in_core == 0; }
template<class R> static inline R fin(R r) { if(r < 0) { errno = (int)-r; return -1; } return r; }

// One simulated system call: switch point, body, switch point; errno is set last.
#define SIMCALL(NAME, ARG, BODY)                       \
    do                                                 \
    {                                                  \
        long r_;                                       \
        {                                              \
            Core core_;                                \
            enter_syscall(NAME, ARG);                  \
            r_ = [&]() -> long { BODY }();             \
            leave_syscall(r_);                         \
        }                                              \
        return fin(r_);                                \
    } while(0)

#define NO_EXC noexcept

extern "C"
{
    // ---------------------------------------------------------------- sockets
    int socket(int d, int t, int p) NO_EXC
    {
        if(!on()) return syscall(SYS_socket, d, t, p);
        SIMCALL("socket", d, return k_socket(d, t, p););
    }
    int connect(int fd, const sockaddr *a, socklen_t l)
    {
        if(!on()) return syscall(SYS_connect, fd, a, l);
        SIMCALL("connect", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; Hold h(s); return k_connect(s, a, l););
    }
    int bind(int fd, const sockaddr *a, socklen_t l) NO_EXC
    {
        if(!on()) return syscall(SYS_bind, fd, a, l);
        SIMCALL("bind", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; return k_bind(s, a, l););
    }
    int listen(int fd, int b) NO_EXC
    {
        if(!on()) return syscall(SYS_listen, fd, b);
        SIMCALL("listen", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; return k_listen(s, b););
    }
    int accept4(int fd, sockaddr *a, socklen_t *l, int fl)
    {
        if(!on()) return syscall(SYS_accept4, fd, a, l, fl);
        SIMCALL("accept", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; Hold h(s); return k_accept(s, a, l, fl););
    }
    int accept(int fd, sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
    int shutdown(int fd, int how) NO_EXC
    {
        if(!on()) return syscall(SYS_shutdown, fd, how);
        SIMCALL("shutdown", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; return k_shutdown(s, how););
    }
    int close(int fd)
    {
        if(!on() || (!in_sim_range(fd) && fd >= 0 && fd < FD_BASE)) return syscall(SYS_close, fd);
        SIMCALL("close", fd, return k_close(fd););
    }
    ssize_t sendto(int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t l)
    {
        if(!on()) return syscall(SYS_sendto, fd, b, n, fl, a, l);
        SIMCALL("send", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; Hold h(s); return k_send(s, b, n, fl););
    }
    ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
    ssize_t recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *l)
    {
        if(!on()) return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
        SIMCALL("recv", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; Hold h(s); if(l) *l = 0; return k_recv(s, b, n, fl););
    }
    ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
    ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
    ssize_t __recvfrom_chk(int fd, void *b, size_t n, size_t, int fl, sockaddr *a, socklen_t *l) { return recvfrom(fd, b, n, fl, a, l); }
    static ssize_t iov_send(int fd, const iovec *v, size_t cnt, int fl)
    {
        std::string all;
        for(size_t i = 0; i < cnt; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
        return send(fd, all.data(), all.size(), fl);
    }
    static ssize_t iov_recv(int fd, const iovec *v, size_t cnt, int fl)
    {
        size_t tot = 0; for(size_t i = 0; i < cnt; ++i) tot += v[i].iov_len;
        std::string all(tot, 0);
        ssize_t r = recv(fd, &all[0], tot, fl);
        size_t off = 0;
        for(size_t i = 0; r > 0 && i < cnt && off < (size_t)r; ++i)
        {
            size_t k = std::min(v[i].iov_len, (size_t)r - off);
            memcpy(v[i].iov_base, all.data() + off, k); off += k;
        }
        return r;
    }
    ssize_t sendmsg(int fd, const msghdr *m, int fl)
    {
        if(!on()) return syscall(SYS_sendmsg, fd, m, fl);
        return iov_send(fd, m->msg_iov, m->msg_iovlen, fl);
    }
    ssize_t recvmsg(int fd, msghdr *m, int fl)
    {
        if(!on()) return syscall(SYS_recvmsg, fd, m, fl);
        m->msg_controllen = 0; m->msg_flags = 0; m->msg_namelen = 0;
        return iov_recv(fd, m->msg_iov, m->msg_iovlen, fl);
    }
    ssize_t read(int fd, void *b, size_t n)
    {
        if(!on() || !in_sim_range(fd)) return syscall(SYS_read, fd, b, n);
        return recv(fd, b, n, 0);
    }
    ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
    ssize_t write(int fd, const void *b, size_t n)
    {
        if(!on() || !in_sim_range(fd)) return syscall(SYS_write, fd, b, n);
        return send(fd, b, n, 0);
    }
    ssize_t readv(int fd, const iovec *v, int c)
    {
        if(!on() || !in_sim_range(fd)) return syscall(SYS_readv, fd, v, c);
        return iov_recv(fd, v, c, 0);
    }
    ssize_t writev(int fd, const iovec *v, int c)
    {
        if(!on() || !in_sim_range(fd)) return syscall(SYS_writev, fd, v, c);
        return iov_send(fd, v, c, 0);
    }
    int setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) NO_EXC
    {
        if(!on()) return syscall(SYS_setsockopt, fd, lv, nm, v, l);
        SIMCALL("setsockopt", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; return k_setsockopt(s, lv, nm, v, l););
    }
    int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) NO_EXC
    {
        if(!on()) return syscall(SYS_getsockopt, fd, lv, nm, v, l);
        SIMCALL("getsockopt", fd, SockP s = fd_sock(fd); if(!s) return -EBADF; return k_getsockopt(s, lv, nm, v, l););
    }
    int getpeername(int fd, sockaddr *a, socklen_t *l) NO_EXC
    {
        if(!on()) return syscall(SYS_getpeername, fd, a, l);
        SIMCALL("getpeername", fd, SockP s = fd_sock(fd); if(!s) return -EBADF;
            if(fire(F_PEERNAME_FAIL)) return -ENOTCONN;
            if(s->st != S_CONNECTED || s->me().rst_rcvd) return -ENOTCONN;
            socklen_t n = s->peer.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
            memcpy(a, &s->peer, std::min(n, *l)); *l = n; return 0;);
    }
    int getsockname(int fd, sockaddr *a, socklen_t *l) NO_EXC
    {
        if(!on()) return syscall(SYS_getsockname, fd, a, l);
        SIMCALL("getsockname", fd, SockP s = fd_sock(fd); if(!s) return -EBADF;
            socklen_t n = s->local.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
            memcpy(a, &s->local, std::min(n, *l)); *l = n; return 0;);
    }
    static long do_fcntl(int fd, int cmd, long arg)
    {
        SockP s = fd_sock(fd);
        if(!s) return is_sim_fd(fd) ? 0 : -EBADF;
        switch(cmd)
        {
            case F_GETFL: if(fire(F_FCNTL_FAIL)) return -EINVAL; return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
            case F_SETFL: if(fire(F_FCNTL_FAIL)) return -EINVAL; s->nonblock = arg & O_NONBLOCK; bump(); return 0;
            case F_GETFD: return FD_CLOEXEC;
            case F_SETFD: return 0;
            case F_DUPFD: case F_DUPFD_CLOEXEC: return -EMFILE;
        }
        return -EINVAL;
    }
    int fcntl(int fd, int cmd, ...)
    {
        va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
        if(!on() || !in_sim_range(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
        SIMCALL("fcntl", fd, return do_fcntl(fd, cmd, arg););
    }
    int fcntl64(int fd, int cmd, ...)
    {
        va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
        if(!on() || !in_sim_range(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
        SIMCALL("fcntl", fd, return do_fcntl(fd, cmd, arg););
    }
    int ioctl(int fd, unsigned long req, ...) NO_EXC
    {
        va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
        if(!on() || !in_sim_range(fd)) return syscall(SYS_ioctl, fd, req, arg);
        SIMCALL("ioctl", fd, SockP s = fd_sock(fd); if(!s) return -EBADF;
            if(req == FIONBIO) { s->nonblock = *(int *)arg != 0; bump(); return 0; }
            if(req == FIONREAD) { *(int *)arg = s->c ? (int)s->me().in.avail() : 0; return 0; }
            return -EINVAL;);
    }

    // ---------------------------------------------------------------- readiness
    static int poll_scan(pollfd *p, nfds_t n)
    {
        int k = 0;
        for(nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0;
            if(p[i].fd < 0) continue;
            SockP s = fd_sock(p[i].fd);
            if(!s) { p[i].revents = POLLNVAL; ++k; continue; }
            uint32_t e = s->events();
            short r = (short)(e & (uint32_t)(p[i].events | POLLERR | POLLHUP));
            p[i].revents = r;
            if(r) ++k;
        }
        return k;
    }
    static long do_poll(pollfd *p, nfds_t n, ns timeout)
    {
        if(fire(F_SELECT_FAIL)) return -ENOMEM;
        int k = poll_scan(p, n);
        if(k || timeout == 0) return k;
        if(fire(F_SELECT_EINTR))
        {
            // a signal arrives some time into the wait, unless there's something to report first
            ns lim = timeout < 0 ? 100 * MS : timeout;
            if(!block_until([&] { return poll_scan(p, n) > 0; }, now() + lim * pick(F, 4) / 4, "poll")) return -EINTR;
            return poll_scan(p, n);
        }
        ns dl = timeout < 0 ? -1 : now() + timeout;
        if(!block_until([&] { return poll_scan(p, n) > 0; }, dl, "poll")) return 0;
        return poll_scan(p, n);
    }
    int poll(pollfd *p, nfds_t n, int t)
    {
        if(!on()) return syscall(SYS_poll, p, n, t);
        SIMCALL("poll", n, return do_poll(p, n, t < 0 ? -1 : (ns)t * MS););
    }
    int __poll_chk(pollfd *p, nfds_t n, int t, size_t) { return poll(p, n, t); }
    int ppoll(pollfd *p, nfds_t n, const timespec *t, const sigset_t *)
    {
        SIMCALL("poll", n, return do_poll(p, n, t ? t->tv_sec * SEC + t->tv_nsec : -1););
    }
    static long do_select(int n, fd_set *r, fd_set *w, fd_set *x, ns timeout)
    {
        if(n > FD_SETSIZE) fail("fd-set-overflow", "select() was used with a descriptor that doesn't fit in an fd_set");
        fd_set ri, wi, xi;
        FD_ZERO(&ri); FD_ZERO(&wi); FD_ZERO(&xi);
        if(r) ri = *r;
        if(w) wi = *w;
        if(x) xi = *x;
        for(int i = 0; i < n; ++i)
            if((FD_ISSET(i, &ri) || FD_ISSET(i, &wi) || FD_ISSET(i, &xi)) && !fd_sock(i)) return -EBADF;
        if(fire(F_SELECT_FAIL)) return -ENOMEM;
        auto scan = [&](bool store) -> long {
            long k = 0;
            if(store) { if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(x) FD_ZERO(x); }
            for(int i = 0; i < n; ++i)
            {
                bool a = FD_ISSET(i, &ri), b = FD_ISSET(i, &wi);
                if(!a && !b) continue;
                SockP s = fd_sock(i);
                if(!s) continue;
                if(a && s->readable()) { ++k; if(store) FD_SET(i, r); }
                if(b && s->writable()) { ++k; if(store) FD_SET(i, w); }
            }
            return k;
        };
        if(scan(false) == 0 && timeout != 0 && fire(F_SELECT_EINTR))
        {
            ns lim = timeout < 0 ? 100 * MS : timeout;
            if(!block_until([&] { return scan(false) > 0; }, now() + lim * pick(F, 4) / 4, "select")) return -EINTR;
        }
        if(scan(false) == 0 && timeout != 0)
            block_until([&] { return scan(false) > 0; }, timeout < 0 ? -1 : now() + timeout, "select");
        return scan(true);
    }
    int select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *t)
    {
        if(!on()) return syscall(SYS_select, n, r, w, x, t);
        ns t0 = now(); ns lim = t ? t->tv_sec * SEC + t->tv_usec * US : -1;
        if(t && (t->tv_sec < 0 || t->tv_usec < 0)) { errno = EINVAL; return -1; }
        auto body = [&]() -> int { SIMCALL("select", n, return do_select(n, r, w, x, lim);); };
        int k = body();
        if(t) { ns left = lim - (now() - t0); if(left < 0) left = 0; t->tv_sec = left / SEC; t->tv_usec = (left % SEC) / US; }
        return k;
    }
    int pselect(int n, fd_set *r, fd_set *w, fd_set *x, const timespec *t, const sigset_t *)
    {
        SIMCALL("select", n, return do_select(n, r, w, x, t ? t->tv_sec * SEC + t->tv_nsec : -1););
    }
    int epoll_create1(int f) NO_EXC
    {
        if(!on()) return syscall(SYS_epoll_create1, f);
        SIMCALL("epoll_create", f, return k_epoll_create(););
    }
    int epoll_create(int) NO_EXC { return epoll_create1(0); }
    int epoll_ctl(int ep, int op, int fd, epoll_event *e) NO_EXC
    {
        if(!on()) return syscall(SYS_epoll_ctl, ep, op, fd, e);
        SIMCALL("epoll_ctl", fd, return k_epoll_ctl(ep, op, fd, e););
    }
    int epoll_wait(int ep, epoll_event *e, int m, int t)
    {
        if(!on()) return syscall(SYS_epoll_wait, ep, e, m, t);
        SIMCALL("epoll_wait", ep, long r = k_epoll_wait(ep, e, m, t); return r;);
    }
    int epoll_pwait(int ep, epoll_event *e, int m, int t, const sigset_t *) { return epoll_wait(ep, e, m, t); }

    // ---------------------------------------------------------------- names
    int getaddrinfo(const char *node, const char *svc, const addrinfo *h, addrinfo **res)
    {
        if(!on()) return EAI_FAIL;
        int r;
        {
            Core core;
            enter_syscall("getaddrinfo");
            r = k_getaddrinfo(node, svc, h, res);
            leave_syscall(r);
        }
        return r;
    }
    void freeaddrinfo(addrinfo *a) NO_EXC { Core core; k_freeaddrinfo(a); }
    int getnameinfo(const sockaddr *a, socklen_t, char *host, socklen_t hl, char *svc, socklen_t sl, int flags)
    {
        if(!on()) return EAI_FAIL;
        Core core;
        enter_syscall("getnameinfo");
        int r = 0;
        if(fire(F_NAMEINFO_FAIL)) r = pick(F, 2) ? EAI_MEMORY : EAI_AGAIN;
        else if(host)
        {
            std::string ip = ip_of(a);
            if(!(flags & NI_NUMERICHOST)) // a reverse lookup
            {
                for(char &c : ip) if(c == '.' || c == ':') c = '-';
                ip = "host-" + ip + ".dyn.test";
                if(flags & NI_NAMEREQD && ip.size() % 2) ip.clear();
            }
            if(ip.size() + 1 > hl) r = EAI_OVERFLOW;
            else strcpy(host, ip.c_str());
        }
        if(!r && svc && sl) snprintf(svc, sl, "%u", port_of(a));
        leave_syscall(r);
        return r;
    }

    // ---------------------------------------------------------------- time
    static bool sim_time() { return active && cur(); }
    int clock_gettime(clockid_t id, timespec *ts) NO_EXC
    {
        if(!sim_time())
        {
            if(!active && !shm) { ts->tv_sec = wall_base() / SEC; ts->tv_nsec = 0; return 0; } // static initialisation
            return syscall(SYS_clock_gettime, id, ts);
        }
        ns t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_now() : now() + 1000 * SEC;
        ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
        return 0;
    }
    int gettimeofday(timeval *tv, void *) NO_EXC
    {
        ns t = sim_time() || !shm ? wall_now() : 0;
        if(!t) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
        tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / US;
        return 0;
    }
    time_t time(time_t *p) NO_EXC
    {
        ns t = wall_now();
        if(shm && !sim_time()) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec * SEC; }
        time_t r = t / SEC;
        if(p) *p = r;
        return r;
    }
    static void sim_sleep(ns d) { Core core; enter_syscall("sleep", d); sleep_ns(d); leave_syscall(0); }
    int nanosleep(const timespec *r, timespec *m)
    {
        if(!on()) return syscall(SYS_nanosleep, r, m);
        sim_sleep(r->tv_sec * SEC + r->tv_nsec); return 0;
    }
    int clock_nanosleep(clockid_t id, int fl, const timespec *r, timespec *m)
    {
        if(!on()) return syscall(SYS_clock_nanosleep, id, fl, r, m);
        ns d = r->tv_sec * SEC + r->tv_nsec;
        if(fl & TIMER_ABSTIME) d -= id == CLOCK_REALTIME ? wall_now() : now() + 1000 * SEC;
        sim_sleep(d); return 0;
    }
    int usleep(useconds_t u) { if(!on()) { timespec t{u / 1000000, (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); } sim_sleep((ns)u * US); return 0; }
    unsigned sleep(unsigned s) { if(!on()) { timespec t{s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } sim_sleep((ns)s * SEC); return 0; }
    int sched_yield() NO_EXC
    {
        if(!on()) return syscall(SYS_sched_yield);
        Core core; spin_note(false); yield(); return 0;
    }

    // ---------------------------------------------------------------- randomness
    static uint64_t rnd_state = 0x1234567;
    ssize_t getrandom(void *b, size_t n, unsigned fl)
    {
        if(!sim_time()) return syscall(SYS_getrandom, b, n, fl);
        for(size_t i = 0; i < n; ++i) { rnd_state = mix(rnd_state); ((unsigned char *)b)[i] = (unsigned char)rnd_state; }
        return n;
    }
    // TLS handshakes use P-256 only: the default order prefers P-521, which costs 20 times as much (linked with --wrap)
    const int *__wrap_mbedtls_ecp_grp_id_list(void) { static const int only[] = {3 /*MBEDTLS_ECP_DP_SECP256R1*/, 0}; return only; }
    // mbedtls' entropy source (linked with --wrap=mbedtls_entropy_func)
    int __wrap_mbedtls_entropy_func(void *, unsigned char *out, size_t len)
    {
        for(size_t i = 0; i < len; ++i) { rnd_state = mix(rnd_state); out[i] = (unsigned char)rnd_state; }
        return 0;
    }

    // ---------------------------------------------------------------- memory: inside library calls an allocation may fail (mbedtls' calloc is linked with --wrap)
    static bool alloc_fails() { if(!on() || !cur()->in_lib || rate(F_ALLOC_FAIL) <= 0) return false; Core core; return fire(F_ALLOC_FAIL); }
    void *__real_calloc(size_t a, size_t b);
    void *__wrap_calloc(size_t a, size_t b) { if(alloc_fails()) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }

    // ---------------------------------------------------------------- locks: a contended lock is a wait the scheduler sees
    typedef int (*mfn)(pthread_mutex_t *);
    static mfn real_lock, real_try, real_unlock;
    static void resolve_locks()
    {
        if(real_unlock) return;
        real_lock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
        real_try = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
        real_unlock = (mfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    }
    int pthread_mutex_lock(pthread_mutex_t *m) NO_EXC
    {
        resolve_locks();
        if(!on()) return real_lock(m);
        Core core;
        yield();
        int r = real_try(m);
        if(r != EBUSY) return r;
        probe("contended lock");
        block_until([m] { if(real_try(m) == 0) { real_unlock(m); return true; } return false; }, -1, "mutex");
        while((r = real_try(m)) == EBUSY) block_until([m] { if(real_try(m) == 0) { real_unlock(m); return true; } return false; }, -1, "mutex");
        return r;
    }
    int pthread_mutex_trylock(pthread_mutex_t *m) NO_EXC { resolve_locks(); return real_try(m); }
    int pthread_mutex_unlock(pthread_mutex_t *m) NO_EXC
    {
        resolve_locks();
        int r = real_unlock(m);
        if(on()) { Core core; bump(); yield(); }
        return r;
    }
    // std::call_once and std::shared_mutex: not used by the library as it is, but a change to it may
    int pthread_once(pthread_once_t *o, void (*f)())
    {
        static int (*real)(pthread_once_t *, void (*)());
        if(!real) real = (int (*)(pthread_once_t *, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
        if(!on()) return real(o, f);
        volatile int *c = (volatile int *)o; // 0: not yet, 2: done, as in glibc; 1: running
        while(*c == 1) { probe("contended once"); Core core; block_until([c] { return *c != 1; }, -1, "once"); }
        if(*c == 2) return 0;
        *c = 1;
        try { f(); } catch(...) { *c = 0; throw; }
        *c = 2;
        { Core core; bump(); yield(); }
        return 0;
    }
#define RW(name, try_name) \
    int name(pthread_rwlock_t *l) NO_EXC \
    { \
        static int (*real)(pthread_rwlock_t *), (*tr)(pthread_rwlock_t *); \
        if(!real) { real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, #name); tr = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, #try_name); } \
        if(!on()) return real(l); \
        Core core; \
        yield(); \
        int r; \
        while((r = tr(l)) == EBUSY) { probe("contended lock"); block_until([l] { if(tr(l) == 0) { pthread_rwlock_unlock(l); return true; } return false; }, -1, "rwlock"); } \
        return r; \
    }
    int pthread_rwlock_unlock(pthread_rwlock_t *l) NO_EXC
    {
        static int (*real)(pthread_rwlock_t *);
        if(!real) real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
        int r = real(l);
        if(on()) { Core core; bump(); }
        return r;
    }
    RW(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
    RW(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
    // function-local statics: the guard byte protocol with simulated waiting
    int __cxa_guard_acquire(int64_t *g)
    {
        volatile char *c = (volatile char *)g;
        if(c[0]) return 0;
        if(on())
        {
            while(c[1])
            {
                probe("contended static initialiser");
                Core core;
                block_until([c] { return !c[1]; }, -1, "static-init");
            }
            if(c[0]) return 0;
        }
        c[1] = 1;
        return 1;
    }
    void __cxa_guard_release(int64_t *g) NO_EXC { volatile char *c = (volatile char *)g; c[1] = 0; c[0] = 1; }
    void __cxa_guard_abort(int64_t *g) NO_EXC { volatile char *c = (volatile char *)g; c[1] = 0; }
}

// std::random_device would read the processor's own source of randomness
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { result_type v = 0; getrandom(&v, sizeof v, 0); return v; }

// operator new is AddressSanitizer's, with a chance to fail in front of it
void *operator new(size_t n)
{
    static void *(*real)(size_t);
    if(!real) real = (void *(*)(size_t))dlsym(RTLD_NEXT, "_Znwm");
    if(alloc_fails()) throw std::bad_alloc();
    return real(n);
}
void *operator new[](size_t n)
{
    static void *(*real)(size_t);
    if(!real) real = (void *(*)(size_t))dlsym(RTLD_NEXT, "_Znam");
    if(alloc_fails()) throw std::bad_alloc();
    return real(n);
}
