#include "core.h"
#include <cstdio>
#include <string>
#include <vector>
#include <algorithm>
#include <set>
#include <map>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <queue>
#include <exception>
#include <cxxabi.h>
#include <csignal>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
size_t __asan_get_alloc_stack(void *addr, void **trace, size_t size, int *thread_id);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out_buf, size_t out_buf_size);
void __asan_set_error_report_callback(void (*callback)(const char *));
}

namespace sim
{
    RunShm *shm = nullptr;
    CovShm *cov = nullptr;
    bool active = false;
    bool verbose_trace = false;

    const char *const fault_names[NFAULT] = {
        "recv_eintr", "send_eintr", "short_write", "short_read", "segmentation", "delay", "link_stall", "connection_reset", "peer_crash",
        "tiny_buffers", "spurious_timeout", "socket_fail", "setsockopt_fail", "fcntl_fail", "getsockopt_fail", "connect_fail",
        "select_eintr", "select_fail", "accept_fail", "accept_eintr", "bind_fail", "listen_fail", "epoll_create_fail", "epoll_ctl_fail",
        "epoll_eintr", "epoll_partial_report", "epoll_reorder", "dns_fail", "getnameinfo_fail", "getpeername_fail", "recv_fail", "send_fail", "clock_jump",
        "tamper", "cpu_stall", "preemption", "task_switch", "spurious_ready", "address_down", "hostile_bytes", "immediate_connect", "allocation_fail"};

    struct Event { ns when; uint64_t seq; std::function<void()> fn; };
    struct EvCmp { bool operator()(const Event &a, const Event &b) const { return a.when != b.when ? a.when > b.when : a.seq > b.seq; } };

    struct G_
    {
        RunConfig cfg{};
        uint64_t rng[NSTREAM][2];
        size_t cursor[NSTREAM]{};
        std::vector<Task *> tasks;
        std::priority_queue<Event, std::vector<Event>, EvCmp> q;
        uint64_t evseq = 0;
        ns now = 0, stalled = 0, wall_off = 0;
        uint64_t version = 0;
        uint64_t hash = 1469598103934665603ull, sched_hash = 1469598103934665603ull;
        double rates[NFAULT]{};
        double sw = 0.05;      // probability of a switch at a switch point
        double evjump = 0.0;   // probability of letting the next event overtake at a switch point
        uint32_t preempt_range = 0;
        uint64_t moved = 0, moved_at = 0; // bytes that arrived; the system call count at the last arrival
        ns progress_deadline = -1; ns time_limit = 8 * 3600 * SEC;
        size_t alloc_single = 256u << 20, alloc_live = 1u << 30; // no scenario legitimately comes near these
        int64_t live = 0;
        bool hooks_on = false;
    };
    static G_ *G;
    static __thread Task *tls_task = nullptr;

    Task *cur() { return tls_task; }
    Core::Core() : t(tls_task), e(errno) { if(t) ++t->in_core; }
    Core::~Core() { if(t) --t->in_core; errno = e; }
    // note: errno is restored on exit; the libc seam sets it after its Core scope ends.

    std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
    Register::Register(const char *id, void (*fn)()) { scenarios().push_back({id, fn}); }

    uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    uint64_t fnv(const void *p, size_t n, uint64_t h)
    {
        auto *c = (const unsigned char *)p;
        for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return h;
    }
    static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9fb21c651e98df25ull; return h ^ (h >> 29); }

    // ------------------------------------------------------------------ verdicts
    [[noreturn]] static void leave_process()
    {
        shm->hash = G->hash; shm->sched_hash = G->sched_hash; shm->sim_ns = G->now; shm->stall_ns = G->stalled;
        __sync_synchronize();
        _exit(0);
    }
    void fail(const char *cls, const char *fmt, ...)
    {
        active = false;
        if(tls_task) ++tls_task->in_core;
        if(shm->verdict == V_NONE)
        {
            va_list ap; va_start(ap, fmt);
            snprintf(shm->cls, sizeof shm->cls, "%s", cls);
            vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
            va_end(ap);
            G->hash = fnv(shm->cls, strlen(shm->cls), G->hash);
            shm->verdict = V_VIOLATION;
        }
        leave_process();
    }
    // The run outgrew what a replay file can hold: it says nothing either way and is counted as abandoned.
    static void abandon(const char *why)
    {
        active = false;
        if(tls_task) ++tls_task->in_core;
        snprintf(shm->cls, sizeof shm->cls, "abandoned"); snprintf(shm->msg, sizeof shm->msg, "%s", why);
        shm->verdict = V_ABANDONED;
        leave_process();
    }
    void harness_error(const char *fmt, ...)
    {
        active = false;
        if(tls_task) ++tls_task->in_core;
        va_list ap; va_start(ap, fmt);
        snprintf(shm->cls, sizeof shm->cls, "harness-error");
        vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
        va_end(ap);
        shm->verdict = V_ERROR;
        leave_process();
    }
    static void trace_line(const char *line, size_t n)
    {
        if(!verbose_trace) return;
        if(shm->trace_len + n + 1 >= TRACE_CAP) return;
        memcpy(shm->trace + shm->trace_len, line, n);
        shm->trace_len += n;
        shm->trace[shm->trace_len] = 0;
    }
    void ev(const char *kind, int64_t a, int64_t b, int64_t c)
    {
        Task *t = tls_task;
        int id = t ? t->id : -1;
        uint64_t kh = fnv(kind, strlen(kind));
        G->hash = hmix(hmix(hmix(hmix(hmix(hmix(G->hash, kh), id), a), b), c), G->now);
        if(t) G->sched_hash = hmix(hmix(G->sched_hash, kh), id);
        if(verbose_trace)
        {
            char buf[256];
            int n = snprintf(buf, sizeof buf, "%12.6f [%s] %s %lld %lld %lld\n", G->now / 1e9, t ? t->name.c_str() : "-", kind, (long long)a, (long long)b, (long long)c);
            trace_line(buf, n);
        }
    }
    void note(const char *fmt, ...)
    {
        Core core;
        char buf[400];
        va_list ap; va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if(n >= (int)sizeof buf) n = sizeof buf - 1;
        G->hash = hmix(fnv(buf, n, G->hash), G->now);
        char line[500];
        int m = snprintf(line, sizeof line, "%12.6f [%s] # %s\n", G->now / 1e9, tls_task ? tls_task->name.c_str() : "-", buf);
        if(m >= (int)sizeof line) m = sizeof line - 1;
        trace_line(line, m);
        if(shm->note_len + m + 1 < sizeof shm->first_notes)
        {
            memcpy(shm->first_notes + shm->note_len, line, m);
            shm->note_len += m;
            shm->first_notes[shm->note_len] = 0;
        }
    }
    void probe(const char *name)
    {
        for(auto &p : shm->probes)
        {
            if(!p.name[0]) snprintf(p.name, sizeof p.name, "%s", name);
            if(strncmp(p.name, name, sizeof p.name - 1) == 0) { p.hits++; return; }
        }
    }
    void nontrivial() { shm->nontrivial = 1; }
    void set_alloc_limit(size_t single, size_t live) { G->alloc_single = single; G->alloc_live = live ? live + (size_t)(G->live > 0 ? G->live : 0) : 0; }
    size_t live_bytes() { return G->live > 0 ? (size_t)G->live : 0; }
    void time_limit(ns d) { G->time_limit = d; }
    void expect_progress(ns within) { G->progress_deadline = G->now + within; }

    // ------------------------------------------------------------------ choices
    static uint64_t next_rng(Stream s)
    {
        uint64_t *st = G->rng[s];
        uint64_t s1 = st[0]; const uint64_t s0 = st[1];
        st[0] = s0; s1 ^= s1 << 23;
        st[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        return st[1] + s0;
    }
    static inline double next_unit(Stream s) { return (next_rng(s) >> 11) * (1.0 / 9007199254740992.0); }
    template<class Gen> static uint32_t choose(Stream s, uint32_t n, Gen gen)
    {
        if(n <= 1) return 0;
        uint32_t pos = shm->count[s]++;
        uint32_t v = 0;
        if(G->cfg.replay)
        {
            auto &st = G->cfg.streams[s];
            size_t &c = G->cursor[s];
            while(c < st.size() && st[c].pos < pos) ++c;
            if(c < st.size() && st[c].pos == pos) v = st[c].val % n;
        }
        else v = gen();
        if(v)
        {
            uint32_t k = shm->nent[s];
            if(k >= MAXENT) abandon("more choices than a replay file holds");
            shm->ent[s][k] = {pos, v, n};
            shm->nent[s] = k + 1;
        }
        G->hash = hmix(G->hash, v);
        return v;
    }
    uint32_t pick(Stream s, uint32_t n) { return choose(s, n, [&] { return (uint32_t)(next_rng(s) % n); }); }
    uint32_t pick_biased(Stream s, uint32_t n, double p0)
    {
        return choose(s, n, [&]() -> uint32_t { if(next_unit(s) < p0) return 0; return 1 + (uint32_t)(next_rng(s) % (n - 1)); });
    }
    bool chance(Stream s, double p)
    {
        return choose(s, 2, [&]() -> uint32_t { return next_unit(s) < p ? 1 : 0; }) != 0;
    }
    uint64_t run_index() { return G->cfg.index; }

    // ------------------------------------------------------------------ faults
    void enable(Fault f, double r) { G->rates[f] = r; }
    static bool deep_tier = false;
    bool deep() { return deep_tier; }
    void set_deep(bool d) { deep_tier = d; }
    double rate(Fault f) { return G->rates[f]; }
    void count_fault(Fault f) { shm->fault[f]++; }
    bool fire(Fault f)
    {
        if(G->rates[f] <= 0) return false;
        if(!chance(F, G->rates[f])) return false;
        if(G->now > G->time_limit / 4) return false; // disturbances cease, so that a workload that is merely slow gets to its end
        shm->fault[f]++;
        ev(fault_names[f]);
        return true;
    }
    void quiesce()
    {
        for(auto &r : G->rates) r = 0;
        G->preempt_range = 0;
        note("faults stop");
    }
    void swarm(std::initializer_list<std::pair<Fault, double>> menu)
    {
        // one third of the runs are fault free, the rest enable each kind independently at one of three intensities
        uint32_t mode = pick(F, 3);
        if(mode == 0) return;
        for(auto &m : menu)
        {
            static const double scale[4] = {0, 0.25, 1.0, 2.5};
            uint32_t k = pick_biased(F, 4, mode == 1 ? 0.7 : 0.35);
            if(k) { double r = m.second * scale[k]; enable(m.first, r > 0.9 ? 0.9 : r); }
        }
    }
    void sched_mode()
    {
        static const double sws[5] = {0.0, 0.03, 0.12, 0.35, 0.6};
        static const double evs[4] = {0.0, 0.02, 0.1, 0.3};
        static const uint32_t pre[6] = {0, 0, 20, 200, 2000, 20000};
        G->sw = sws[pick(S, 5)];
        G->evjump = evs[pick(S, 4)];
        G->preempt_range = pre[pick(S, 6)];
        if(chance(S, 0.15)) G->rates[F_CPU_STALL] = 0.01;
    }

    // ------------------------------------------------------------------ time
    ns now() { return G ? G->now : 0; }
    ns stalled() { return G->stalled; }
    ns wall_base() { return 1700000000ll * SEC; } // 2023-11-14T22:13:20Z
    void set_wall_offset(ns off) { G->wall_off = off; }
    ns wall_now() { return G ? wall_base() + G->now + G->wall_off : wall_base(); }
    void at(ns when, std::function<void()> fn)
    {
        Core core;
        if(when < G->now) when = G->now;
        G->q.push(Event{when, G->evseq++, std::move(fn)});
    }
    void bump() { G->version++; }

    // ------------------------------------------------------------------ scheduler
    static void futex_wait(std::atomic<int> &a)
    {
        while(a.load(std::memory_order_acquire) == 0)
            syscall(SYS_futex, (int *)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        a.store(0, std::memory_order_relaxed);
    }
    static void futex_post(std::atomic<int> &a)
    {
        a.store(1, std::memory_order_release);
        syscall(SYS_futex, (int *)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    static void run_due()
    {
        while(!G->q.empty() && G->q.top().when <= G->now)
        {
            auto fn = std::move(const_cast<Event &>(G->q.top()).fn);
            G->q.pop();
            fn();
            G->version++;
        }
    }
    static void check_limits()
    {
        if(G->progress_deadline >= 0 && G->now > G->progress_deadline + G->stalled)
        {
            std::string w;
            for(auto *t : G->tasks) if(!t->done && !t->daemon) w += t->name + "(" + (t->blocked ? t->what : "running") + ") ";
            fail("no-progress", "the run did not finish within its liveness bound after faults stopped: %s", w.c_str());
        }
        if(G->now > G->time_limit) fail("no-progress", "%lld hours of simulated time passed without the workload finishing", (long long)(G->time_limit / (3600 * SEC)));
    }
    static bool wakeable(Task *t)
    {
        if(t->done) return false;
        if(!t->blocked) return true;
        if(t->pred && t->pred()) { t->timed_out = false; return true; }
        if(t->deadline >= 0 && G->now >= t->deadline) { t->timed_out = true; return true; }
        return false;
    }
    static void all_done_check()
    {
        for(auto *t : G->tasks) if(!t->done && !t->daemon) return;
        active = false;
        shm->verdict = V_OK;
        leave_process();
    }
    static void rearm_preempt(Task *t)
    {
        if(G->preempt_range == 0) { t->preempt_in = 0; return; }
        // distances spread over three scales
        uint32_t v = pick(S, 3 * G->preempt_range);
        if(v == 0) { t->preempt_in = 0; return; }
        uint32_t r = G->preempt_range;
        t->preempt_in = v < r ? v : v < 2 * r ? 1 + (v - r) / 4 : 1 + (v - 2 * r) / 32;
    }
    // Picks who runs next; the calling task may itself be blocked or done.
    static void reschedule(Task *me, bool force)
    {
        ++me->in_core;
        for(;;)
        {
            run_due();
            check_limits();
            Task *run[64]; uint32_t n = 0;
            // default first: keep running; otherwise the next task in cyclic order
            size_t cnt = G->tasks.size();
            for(size_t k = 0; k < cnt; ++k)
            {
                Task *t = G->tasks[(me->id + k) % cnt];
                if(n < 64 && wakeable(t)) run[n++] = t;
            }
            if(n == 0)
            {
                ns next = -1;
                if(!G->q.empty()) next = G->q.top().when;
                for(auto *t : G->tasks) if(!t->done && t->blocked && t->deadline >= 0 && (next < 0 || t->deadline < next)) next = t->deadline;
                if(next < 0)
                {
                    std::string w;
                    for(auto *t : G->tasks) if(!t->done && !t->daemon) w += t->name + " blocked in " + t->what + "; ";
                    fail("hang", "nothing can ever wake up: %s", w.c_str());
                }
                if(next > G->now) G->now = next;
                continue;
            }
            uint32_t c = 0;
            bool can_stay = run[0] == me;
            if(force && can_stay && n > 1) c = 1 + pick(S, n - 1);
            else if(can_stay)
            {
                if(n > 1) c = pick_biased(S, n, 1.0 - G->sw); // also when it can only be 0: a replay has to count the same choices
            }
            else if(n > 1) c = pick_biased(S, n, 0.5);
            if(G->evjump > 0 && !G->q.empty() && G->q.top().when < G->now + 2 * SEC && chance(S, G->evjump))
            {
                ns d = G->q.top().when - G->now;
                if(d > 0) { G->stalled += d; G->now = G->q.top().when; shm->fault[F_CPU_STALL]++; }
                continue;
            }
            Task *t = run[c];
            if(t->blocked) { t->blocked = false; t->pred = nullptr; }
            if(t != me)
            {
                shm->switches++;
                if(can_stay) { shm->fault[force ? F_PREEMPT : F_SWITCH]++; ev(force ? "preempt" : "switch", t->id); }
                if(me->done) { futex_post(t->go); for(;;) pause(); } // a finished thread never unwinds: nothing runs without the baton
                futex_post(t->go);
                futex_wait(me->go);
            }
            break;
        }
        --me->in_core;
    }
    void yield()
    {
        Task *t = tls_task;
        if(!t || !active || t->atomic) return;
        int e = errno;
        G->now += 1 * US;
        if(fire(F_CPU_STALL))
        {
            static const ns d[4] = {100 * US, 5 * MS, 200 * MS, 2 * SEC};
            ns k = d[pick(F, 4)];
            G->stalled += k;
            t->blocked = true; t->pred = nullptr; t->deadline = G->now + k; t->what = "cpu-stall";
        }
        reschedule(t, false);
        errno = e;
    }
    bool block_until(const std::function<bool()> &pred, ns deadline, const char *what)
    {
        Task *t = tls_task;
        int e = errno;
        ++t->in_core;
        if(t->atomic) harness_error("blocking inside an atomic section: %s", what);
        G->now += 1 * US;
        t->blocked = true; t->pred = pred; t->deadline = deadline; t->what = what; t->timed_out = false;
        reschedule(t, false);
        bool ok = !t->timed_out;
        --t->in_core;
        errno = e;
        return ok;
    }
    void sleep_ns(ns d) { block_until(nullptr, G->now + (d < 0 ? 0 : d), "sleep"); }
    bool task_blocked(int task) { return G->tasks[task]->blocked; }
    int self() { return tls_task ? tls_task->id : -1; }

    static void *task_main(void *p)
    {
        Task *t = (Task *)p;
        tls_task = t;
        futex_wait(t->go);
        --t->in_core; // started inside the core
        const char *what = nullptr; std::string msg;
        try { t->fn(); }
        catch(const std::exception &e) { what = "exception"; int st; char *nm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); msg = std::string(nm ? nm : "?") + ": " + e.what(); }
        catch(...) { what = "exception"; msg = "unknown exception"; }
        if(what) fail("uncaught-exception", "task %s died with %s", t->name.c_str(), msg.c_str());
        ++t->in_core;
        t->done = true;
        G->version++;
        ev("task-end", t->id);
        all_done_check();
        reschedule(t, false);
        return nullptr;
    }
    int spawn(const std::string &name, std::function<void()> fn, bool daemon)
    {
        Core core;
        auto *t = new Task;
        t->id = (int)G->tasks.size(); t->name = name; t->fn = std::move(fn); t->daemon = daemon;
        t->in_core = 1;
        G->tasks.push_back(t);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
        if(pthread_create(&t->th, &a, task_main, t) != 0) harness_error("pthread_create failed");
        pthread_attr_destroy(&a);
        return t->id;
    }
    bool finished(int task) { return G->tasks[task]->done; }
    void join(int task) { block_until([task] { return G->tasks[task]->done; }, -1, "join"); }

    Lib::Lib()
    {
        Task *t = tls_task;
        if(t->in_lib++ == 0) { t->edges = 0; if(!t->preempt_in) rearm_preempt(t); }
    }
    Lib::~Lib() { Task *t = tls_task; --t->in_lib; }
    Atomic::Atomic() { ++tls_task->atomic; }
    Atomic::~Atomic() { --tls_task->atomic; }

    void enter_syscall(const char *name, int64_t a)
    {
        Task *t = tls_task;
        shm->syscalls++; t->syscalls++;
        t->edges = 0;
        if(shm->syscalls - G->moved_at > 600000) fail("no-progress", "more than 600000 system calls in a row while nothing arrives anywhere (livelock)");
        if(G->moved > 200000000) fail("no-progress", "more than 200 MB moved in one run (livelock)");
        if(shm->syscalls > 3000000) abandon("the run is too slow: 3000000 system calls");
        yield();
        ev(name, a);
    }
    void leave_syscall(int64_t ret)
    {
        ev("=", ret);
        yield();
    }
    void moved(size_t n) { G->moved += n; G->moved_at = shm->syscalls; }
    uint64_t syscalls_of(int task) { return G->tasks[task]->syscalls; }
    // Called after a non-blocking call made no progress: a task that keeps polling lets the world move on.
    void spin_note(bool progress)
    {
        Task *t = tls_task;
        if(progress) { t->spin = 0; return; }
        if(++t->spin < 4) return;
        int k = t->spin - 4; if(k > 12) k = 12;
        uint64_t v = G->version;
        // the longer it has polled for nothing, the longer it is preempted (the world moving on ends that only early in a spin)
        if(t->atomic) return;
        block_until(k < 3 ? std::function<bool()>([v] { return G->version != v; }) : nullptr, G->now + (k < 6 ? 1 * MS << k : 64 * MS), "polling");
    }

    // ------------------------------------------------------------------ hooks
    // Blocks allocated inside library calls and not freed yet: open addressing, so that the hook itself allocates nothing.
    static struct { const volatile void *p; size_t n; uint64_t seq; } blocks[1u << 16];
    static uint32_t nblocks = 0; static uint64_t block_seq = 0;
    static inline uint32_t slot_of(const volatile void *p) { return (uint32_t)(mix((uint64_t)p) & 0xffff); }
    static void on_malloc(const volatile void *p, size_t n)
    {
        if(!active || !G) return;
        Task *t = tls_task;
        if(!t || !t->in_lib || t->in_core) return;
        if(p && nblocks < 50000)
        {
            uint32_t i = slot_of(p);
            while(blocks[i].p) i = (i + 1) & 0xffff;
            blocks[i].p = p; blocks[i].n = n; blocks[i].seq = ++block_seq; ++nblocks;
            G->live += n;
        }
        if(G->alloc_single && n > G->alloc_single)
            fail("memory", "a single allocation of %zu bytes was requested inside a library call (bound %zu)", n, G->alloc_single);
        if(G->alloc_live && (size_t)G->live > G->alloc_live)
            fail("memory", "memory held by the library grew to %lld bytes (bound %zu)", (long long)G->live, G->alloc_live);
    }
    static void on_free(const volatile void *p)
    {
        if(!active || !G || !p || !nblocks) return;
        uint32_t i = slot_of(p);
        while(blocks[i].p && blocks[i].p != p) i = (i + 1) & 0xffff;
        if(!blocks[i].p) return;
        G->live -= blocks[i].n; --nblocks;
        for(uint32_t j = i;;) // backward shift deletion
        {
            blocks[i].p = nullptr;
            uint32_t h;
            do { j = (j + 1) & 0xffff; if(!blocks[j].p) return; h = slot_of(blocks[j].p); } while(i <= j ? (i < h && h <= j) : (i < h || h <= j));
            blocks[i] = blocks[j]; i = j;
        }
    }
    uint64_t alloc_mark() { return block_seq; }
    // A thing that is made once and kept is no leak, one that is made again and again is: blocks from one place in the code, left over from several episodes.
    std::string leaks(const std::vector<uint64_t> &marks, size_t episodes)
    {
        struct Site { std::set<size_t> ep; size_t n = 0, bytes = 0; const volatile void *one = nullptr; };
        std::map<uint64_t, Site> sites;
        for(auto &b : blocks)
        {
            if(!b.p || marks.empty() || b.seq <= marks[0]) continue;
            void *pc[16]; int tid = 0; uint64_t h = 1;
            size_t n = __asan_get_alloc_stack((void *)b.p, pc, 16, &tid);
            for(size_t i = 0; i < n; ++i) h = mix(h ^ (uint64_t)pc[i]);
            auto &s = sites[h];
            s.ep.insert(std::upper_bound(marks.begin(), marks.end(), b.seq - 1) - marks.begin()); ++s.n; s.bytes += b.n; s.one = b.p;
        }
        const Site *worst = nullptr;
        for(auto &s : sites) if(s.second.ep.size() >= episodes && (!worst || s.second.bytes > worst->bytes)) worst = &s.second;
        if(!worst) return "";
        void *pc[16]; int tid = 0; size_t n = __asan_get_alloc_stack((void *)worst->one, pc, 16, &tid);
        std::string out = std::to_string(worst->n) + " blocks, " + std::to_string(worst->bytes) + " bytes, left over from " + std::to_string(worst->ep.size()) + " of " + std::to_string(marks.size()) + " episodes, made in";
        for(size_t i = 0; i < n && i < 14; ++i)
        {
            char buf[512] = ""; __sanitizer_symbolize_pc(pc[i], "%f", buf, sizeof buf); buf[sizeof buf - 1] = 0;
            if(char *q = strchr(buf, '(')) *q = 0;
            if(*buf && !strstr(buf, "operator new") && !strstr(buf, "malloc") && !strstr(buf, "std::") && !strstr(buf, "gnu_cxx")) out += std::string(" < ") + buf;
        }
        return out;
    }
    static void on_asan(const char *rep)
    {
        if(!shm || shm->verdict != V_NONE) return;
        const char *k = strstr(rep, "AddressSanitizer: ");
        char kind[48] = "error";
        if(k) { sscanf(k + 18, "%40[a-zA-Z-]", kind); }
        snprintf(shm->cls, sizeof shm->cls, "memory-error:%s", kind);
        snprintf(shm->msg, sizeof shm->msg, "%.900s", rep);
        for(char *c = shm->msg; *c; ++c) if(*c == '\n') *c = ' ';
    }

    static void *first_task_kick(void *) { return nullptr; }

    void run_child(const RunConfig &cfg)
    {
        static bool installed = false;
        G = new G_;
        G->cfg = cfg;
        verbose_trace = cfg.verbose;
        for(int s = 0; s < NSTREAM; ++s)
        {
            G->rng[s][0] = mix(cfg.seed * 3 + s) | 1;
            G->rng[s][1] = mix(~cfg.seed + 77 * s + 5);
        }
        if(!installed) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); __asan_set_error_report_callback(on_asan); installed = true; }
        net_reset();
        (void)first_task_kick;
        active = true;
        auto *fn = &cfg.scen->body;
        spawn("main", [fn] { (*fn)(); });
        futex_post(G->tasks[0]->go);
        for(;;) pause();
    }
}

// ------------------------------------------------------------------ basic-block preemption (gcc -fsanitize-coverage=trace-pc)
extern "C" void __sanitizer_cov_trace_pc()
{
    using namespace sim;
    Task *t = tls_task;
    if(!t || !t->in_lib || t->in_core || !active) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    cov->bits[(pc >> 1) & 0xffff] = 1;
    shm->edges++;
    if(++t->edges > 30000000ull) fail("runaway", "a library call executed 30 million basic blocks without a system call or returning");
    if(t->preempt_in && --t->preempt_in == 0)
    {
        if(t->atomic) { t->preempt_in = 1; return; }
        int e = errno;
        ++t->in_core;
        reschedule(t, true);
        rearm_preempt(t);
        --t->in_core;
        errno = e;
    }
}
