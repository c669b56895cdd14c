// Internal interface between the scheduler (core.cpp), the network model (net.cpp), the libc seam (interpose.cpp)
// and the batch driver (main.cpp).
#pragma once
#include "sim.h"
#include <pthread.h>
#include <atomic>

namespace sim
{
    struct Ent { uint32_t pos, val, n; };
    constexpr uint32_t MAXENT = 120000;
    constexpr uint32_t MAXPROBE = 64;
    constexpr uint32_t TRACE_CAP = 4u << 20;
    struct ProbeSlot { char name[48]; uint64_t hits; };
    enum Verdict { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_ERROR = 3, V_ABANDONED = 4 };

    struct RunShm
    {
        volatile int verdict;
        char cls[128];
        char msg[2048];
        uint64_t hash, sched_hash, steps, syscalls, switches, edges;
        int64_t sim_ns, stall_ns;
        uint32_t fault[NFAULT];
        ProbeSlot probes[MAXPROBE];
        int nontrivial;
        uint32_t nent[NSTREAM];
        uint32_t count[NSTREAM];
        uint32_t trace_len;
        uint32_t note_len;
        char first_notes[1500];
        Ent ent[NSTREAM][MAXENT];
        char trace[TRACE_CAP];
    };
    struct CovShm { uint8_t bits[1 << 16]; };

    struct RunConfig
    {
        const Scenario *scen;
        uint64_t seed;
        uint64_t index;
        bool replay;
        const std::vector<Ent> *streams; // [NSTREAM] when replaying, sorted by pos
        bool verbose;                    // record the trace text
    };

    struct Task
    {
        int id;
        std::string name;
        std::function<void()> fn;
        bool daemon = false, done = false;
        bool blocked = false;
        std::function<bool()> pred;
        ns deadline = -1;
        bool timed_out = false;
        const char *what = "";
        int in_lib = 0, atomic = 0, in_core = 0;
        uint64_t preempt_in = 0;
        uint64_t edges = 0;
        uint64_t syscalls = 0;
        int spin = 0;
        std::string source_ip;
        std::atomic<int> go{0};
        pthread_t th;
    };

    extern RunShm *shm;
    extern CovShm *cov;
    extern bool active;          // a run is in progress in this process
    extern bool verbose_trace;
    Task *cur();                 // the calling thread's task, or null

    void run_child(const RunConfig &cfg); // never returns
    void ev(const char *kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
    void moved(size_t n); // bytes arrived somewhere: the run is not stuck
    void bump();                 // the world changed
    void spin_note(bool progress);
    void enter_syscall(const char *name, int64_t a = 0);
    void leave_syscall(int64_t ret);
    void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    std::vector<Scenario> &scenarios();
    void net_reset();
    uint64_t mix(uint64_t x);
    void mode_for_edges(Task *t);

    struct Core // marks "inside the simulator": no accounting, no preemption
    {
        Task *t; int e;
        Core();
        ~Core();
    };
}
