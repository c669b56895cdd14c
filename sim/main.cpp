// Batch driver: seeds -> forked runs -> verdicts; gating, minimisation, replay, evidence.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>

using namespace sim;

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=0:handle_abort=0:handle_sigfpe=1:detect_stack_use_after_return=0:"
           "quarantine_size_mb=8:malloc_context_size=14:detect_odr_violation=0:max_free_fill_size=4096:free_fill_byte=85:max_allocation_size_mb=4000";
}

static double wall()
{
    timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
static void *shared(size_t n)
{
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}
namespace sim { std::string certs_path; std::string certs_dir() { return certs_path; } }

static const double WALL_LIMIT_DEFAULT = 30.0;
static double wall_limit = WALL_LIMIT_DEFAULT;

struct Outcome { int verdict; std::string cls, msg; uint64_t hash; bool wall_hang; };

static void reset_shm(RunShm *s)
{
    s->verdict = V_NONE; s->cls[0] = 0; s->msg[0] = 0;
    s->hash = s->sched_hash = s->steps = s->syscalls = s->switches = s->edges = 0;
    s->sim_ns = s->stall_ns = 0;
    memset(s->fault, 0, sizeof s->fault);
    memset(s->probes, 0, sizeof s->probes);
    s->nontrivial = 0;
    for(int i = 0; i < NSTREAM; ++i) s->nent[i] = s->count[i] = 0;
    s->trace_len = 0; s->trace[0] = 0; s->note_len = 0; s->first_notes[0] = 0;
}

static double cpu_of(pid_t pid) // of our own child
{
    clockid_t c; timespec t;
    if(clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return 1e9;
    return t.tv_sec + t.tv_nsec / 1e9;
}
// The bounded wait for a child: a pipe-free poll on waitpid with a real-time limit.
static bool wait_child(pid_t pid, int *st)
{
    double t0 = wall();
    sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD);
    for(;;)
    {
        pid_t r = waitpid(pid, st, WNOHANG);
        if(r == pid) return true;
        double el = wall() - t0;
        if(el > wall_limit && (cpu_of(pid) > wall_limit * 0.8 || el > wall_limit * 6)) { kill(pid, SIGKILL); waitpid(pid, st, 0); return false; } // on a loaded machine, only time it really had counts
        timespec ts{0, 200 * 1000 * 1000};
        siginfo_t si;
        syscall(SYS_rt_sigtimedwait, &set, &si, &ts, 8);
    }
}
// Runs that have ended may not have given back their memory yet: wait for it rather than run the machine out of it.
static void memory_pressure()
{
    for(int i = 0; i < 100; ++i)
    {
        FILE *f = fopen("/proc/meminfo", "r");
        if(!f) return;
        char line[128]; long kb = -1;
        while(fgets(line, sizeof line, f)) if(sscanf(line, "MemAvailable: %ld", &kb) == 1) break;
        fclose(f);
        if(kb < 0 || kb > 3l << 20) return;
        usleep(100 * 1000);
    }
}
static Outcome execute(const RunConfig &cfg, bool quiet = true)
{
    reset_shm(shm);
    sigset_t set, old; sigemptyset(&set); sigaddset(&set, SIGCHLD); sigprocmask(SIG_BLOCK, &set, &old);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); exit(2); }
    if(pid == 0)
    {
        sigprocmask(SIG_SETMASK, &old, nullptr);
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if(quiet)
        {
            int n = open("/dev/null", O_RDWR);
            if(n >= 0) { dup2(n, 1); dup2(n, 2); }
        }
        // The kernel's per-process futex hash, made when the first thread is, defers the release of the whole address space to a single
        // kernel worker: at this rate of processes it falls behind by gigabytes. The shared hash does for us. (PR_FUTEX_HASH, SET_SLOTS, 0)
        prctl(78, 1, 0, 0, 0);
        run_child(cfg);
        _exit(3);
    }
    int st = 0;
    bool done = wait_child(pid, &st);
    Outcome o{shm->verdict, shm->cls, shm->msg, shm->hash, false};
    if(!done) { o.verdict = V_VIOLATION; o.cls = "wall-hang"; o.msg = "the run made no progress in real time (an endless loop outside instrumented code)"; o.wall_hang = true; o.hash = 0; }
    else if(shm->verdict == V_NONE)
    {
        o.verdict = V_VIOLATION; o.hash = 0;
        if(WIFSIGNALED(st)) { o.cls = std::string("crash:") + strsignal(WTERMSIG(st)); o.msg = "the process was killed by a signal"; }
        else if(shm->cls[0]) { o.cls = shm->cls; o.msg = shm->msg; }
        else { char b[96]; snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st)); o.cls = b; o.msg = "the process ended by itself"; }
    }
    return o;
}

// ------------------------------------------------------------------ replay files
static bool write_replay(const std::string &path, const std::string &prop, uint64_t seed, uint64_t index, const Outcome &o, const std::vector<Ent> *st,
                         const std::string &trace, const std::string &extra)
{
    std::ofstream f(path);
    f << "# deterministic-simulation replay file; run: /verif/replay " << path << "\n";
    f << "scenario " << prop << "\nseed " << seed << "\nindex " << index << (sim::deep() ? "\ndeep 1" : "") << "\nclass " << o.cls << "\nhash " << o.hash << "\n";
    std::string m = o.msg; std::replace(m.begin(), m.end(), '\n', ' ');
    f << "message " << m << "\n";
    const char *nm[NSTREAM] = {"W", "S", "F"};
    for(int s = 0; s < NSTREAM; ++s)
    {
        f << "stream " << nm[s] << " " << st[s].size() << "\n";
        for(auto &e : st[s]) f << e.pos << " " << e.val << "\n";
    }
    f << extra;
    f << "# ---- trace of the minimised run (informative) ----\n";
    std::istringstream is(trace); std::string line;
    while(std::getline(is, line)) f << "# " << line << "\n";
    return (bool)f;
}
struct ReplayFile { std::string scen, cls; uint64_t seed = 0, index = 0, hash = 0; std::vector<Ent> st[NSTREAM]; };
static bool read_replay(const std::string &path, ReplayFile &r)
{
    std::ifstream f(path); std::string line;
    if(!f) return false;
    while(std::getline(f, line))
    {
        if(line.empty() || line[0] == '#') continue;
        std::istringstream is(line); std::string k; is >> k;
        if(k == "scenario") is >> r.scen;
        else if(k == "seed") is >> r.seed;
        else if(k == "index") is >> r.index;
        else if(k == "deep") { int v = 0; is >> v; set_deep(v); }
        else if(k == "class") { std::getline(is, r.cls); if(!r.cls.empty()) r.cls.erase(0, 1); }
        else if(k == "hash") is >> r.hash;
        else if(k == "stream")
        {
            std::string n; size_t c; is >> n >> c;
            int s = n == "W" ? 0 : n == "S" ? 1 : 2;
            for(size_t i = 0; i < c && std::getline(f, line); ++i) { std::istringstream e(line); Ent x{0, 0, 0}; e >> x.pos >> x.val; r.st[s].push_back(x); }
        }
    }
    return !r.scen.empty();
}

// ------------------------------------------------------------------ minimisation
struct Shrinker
{
    RunConfig base; std::string cls; std::vector<Ent> st[NSTREAM]; int budget; double until; int runs = 0;
    bool test(std::vector<Ent> *cand)
    {
        if(budget <= 0 || wall() > until) return false;
        --budget; ++runs;
        RunConfig c = base; c.replay = true; c.streams = cand; c.verbose = false;
        Outcome o = execute(c);
        return o.verdict == V_VIOLATION && o.cls == cls;
    }
    bool try_set(int s, std::vector<Ent> v)
    {
        std::vector<Ent> cand[NSTREAM];
        for(int i = 0; i < NSTREAM; ++i) cand[i] = i == s ? v : st[i];
        if(test(cand)) { st[s] = std::move(v); return true; }
        return false;
    }
    void run()
    {
        static const int order[NSTREAM] = {F, S, W};
        for(int round = 0; round < 3; ++round)
        {
            size_t before = st[0].size() + st[1].size() + st[2].size();
            for(int s : order)
            {
                if(!st[s].empty()) try_set(s, {});
                // binary search for a sufficient prefix
                size_t lo = 0, hi = st[s].size();
                while(lo < hi)
                {
                    size_t mid = (lo + hi) / 2;
                    if(try_set(s, std::vector<Ent>(st[s].begin(), st[s].begin() + mid))) hi = mid; else lo = mid + 1;
                    if(hi > st[s].size()) hi = st[s].size();
                }
                // delete chunks
                for(size_t chunk = std::max<size_t>(1, st[s].size() / 2); chunk >= 1; chunk /= 2)
                {
                    for(size_t i = 0; i < st[s].size();)
                    {
                        std::vector<Ent> v(st[s].begin(), st[s].begin() + i);
                        size_t e = std::min(st[s].size(), i + chunk);
                        v.insert(v.end(), st[s].begin() + e, st[s].end());
                        if(!try_set(s, v)) i += chunk;
                        if(budget <= 0 || wall() > until) return;
                    }
                    if(chunk == 1) break;
                }
                // smaller values
                if(st[s].size() < 200)
                    for(size_t i = 0; i < st[s].size(); ++i)
                    {
                        uint32_t v0 = st[s][i].val;
                        for(uint32_t nv : {1u, v0 / 2, v0 - 1})
                        {
                            if(nv == 0 || nv >= v0) continue;
                            auto v = st[s]; v[i].val = nv;
                            if(try_set(s, v)) break;
                        }
                    }
            }
            if(st[0].size() + st[1].size() + st[2].size() == before) break;
        }
    }
};

// ------------------------------------------------------------------ batch
struct WorkerAgg
{
    uint64_t runs, violations, nontrivial, syscalls, switches, edges, errors, abandoned;
    uint64_t vio_idx; char vio_cls[128];
    double sim_s, stall_s, wall_s;
    uint64_t fault[NFAULT]; uint64_t fault_runs[NFAULT];
    ProbeSlot probes[MAXPROBE]; uint64_t probe_runs[MAXPROBE];
    uint64_t hashes_n;
    char err[512];
};
constexpr uint64_t HASH_CAP = 1u << 20;
struct Shared { std::atomic<uint64_t> best; std::atomic<uint64_t> next; };

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static uint64_t seed_of(uint64_t base, const std::string &scen, uint64_t i) { return mix(mix(base) ^ fnv(scen.data(), scen.size()) ^ mix(i * 2654435761ull + 17)); }

static std::string agg_cls(const WorkerAgg *a, int n, uint64_t i) { for(int w = 0; w < n; ++w) if(a[w].violations && a[w].vio_idx == i) return a[w].vio_cls; return "?"; }
int main(int argc, char **argv)
{
    std::string scen, evidence, replay, tier = "quick", out_dir = ".", extra_json, self = "/proc/self/exe", replay_extra;
    uint64_t seed = 1, runs = 2000, only = ~0ull; double wall_cap = 30; int workers = 8; bool list = false, hashes = false, show = false, selftest = false;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--scenario") scen = val();
        else if(a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--wall") wall_cap = atof(val().c_str());
        else if(a == "--workers") workers = atoi(val().c_str());
        else if(a == "--evidence") evidence = val();
        else if(a == "--tier") { tier = val(); set_deep(tier == "thorough"); }
        else if(a == "--out") out_dir = val();
        else if(a == "--certs") sim::certs_path = val();
        else if(a == "--replay") replay = val();
        else if(a == "--extra") extra_json = val();
        else if(a == "--one") { only = strtoull(val().c_str(), nullptr, 10); }
        else if(a == "--show") show = true;
        else if(a == "--hashes") hashes = true;
        else if(a == "--selftest") selftest = true;
        else if(a == "--run-limit") wall_limit = atof(val().c_str());
        else if(a == "--list") list = true;
    }
    int pers = personality(0xffffffff);
    if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
    {
        setenv("SIM_NO_REEXEC", "1", 1);
        if(personality(pers | ADDR_NO_RANDOMIZE) != -1) execv(self.c_str(), argv);
    }
    unsetenv("SIM_NO_REEXEC");
    if(list) { for(auto &s : scenarios()) puts(s.id); return 0; }
    shm = (RunShm *)shared(sizeof(RunShm));
    cov = (CovShm *)shared(sizeof(CovShm));
    RunShm *main_shm = shm;

    auto find = [&](const std::string &id) -> const Scenario * { for(auto &s : scenarios()) if(id == s.id) return &s; return nullptr; };

    if(!replay.empty())
    {
        ReplayFile r;
        if(!read_replay(replay, r)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        const Scenario *sc = find(r.scen);
        if(!sc) { fprintf(stderr, "no scenario %s\n", r.scen.c_str()); return 2; }
        RunConfig c{sc, r.seed, r.index, true, r.st, true};
        Outcome o = execute(c, !show);
        if(show) fwrite(shm->trace, 1, shm->trace_len, stdout);
        printf("replay verdict=%d class=%s hash=%llu expected class=%s hash=%llu\n%s\n", o.verdict, o.cls.c_str(), (unsigned long long)o.hash, r.cls.c_str(), (unsigned long long)r.hash, o.msg.c_str());
        if(o.verdict == V_VIOLATION && o.cls == r.cls && o.hash == r.hash) { printf("REPRODUCED\n"); return 1; }
        if(o.verdict == V_VIOLATION) { printf("DIFFERENT\n"); return 3; }
        printf("NOT REPRODUCED\n");
        return 0;
    }

    const Scenario *sc = find(scen);
    if(!sc) { fprintf(stderr, "no scenario '%s'\n", scen.c_str()); return 2; }
    if(only != ~0ull)
    {
        RunConfig c{sc, seed_of(seed, scen, only), only, false, nullptr, true};
        Outcome o = execute(c, !show);
        fwrite(shm->trace, 1, shm->trace_len, stdout);
        printf("verdict=%d class=%s hash=%llu syscalls=%llu switches=%llu sim=%.3fs\n%s\n", o.verdict, o.cls.c_str(), (unsigned long long)o.hash,
               (unsigned long long)shm->syscalls, (unsigned long long)shm->switches, shm->sim_ns / 1e9, o.msg.c_str());
        return 0;
    }

    if(selftest) // every run twice from its seed and once from its recorded choices: the event histories have to be identical
    {
        uint64_t bad = 0;
        for(uint64_t i = 0; i < runs; ++i)
        {
            RunConfig c{sc, seed_of(seed, scen, i), i, false, nullptr, false};
            Outcome a = execute(c), b = execute(c);
            std::vector<Ent> st[NSTREAM];
            for(int s = 0; s < NSTREAM; ++s) st[s].assign(shm->ent[s], shm->ent[s] + shm->nent[s]);
            RunConfig rc = c; rc.replay = true; rc.streams = st;
            Outcome r = execute(rc);
            // an abandoned run has more choices than are recorded
            bool cut = a.verdict == V_ABANDONED;
            if(a.hash != b.hash || a.verdict != b.verdict || (!cut && (a.hash != r.hash || a.verdict != r.verdict))) { ++bad; printf("run %llu: %llx %llx, replayed %llx (%s)\n", (unsigned long long)i, (unsigned long long)a.hash, (unsigned long long)b.hash, (unsigned long long)r.hash, r.cls.c_str()); }
        }
        printf("%s: %llu of %llu runs differ\n", scen.c_str(), (unsigned long long)bad, (unsigned long long)runs);
        return bad != 0;
    }

    auto *sh = (Shared *)shared(sizeof(Shared));
    sh->best = ~0ull; sh->next = 0;
    auto *agg = (WorkerAgg *)shared(sizeof(WorkerAgg) * workers);
    auto *hv = (uint64_t *)shared(sizeof(uint64_t) * HASH_CAP);
    auto *nt = (uint8_t *)shared(HASH_CAP);
    auto *rh = (uint64_t *)shared(sizeof(uint64_t) * HASH_CAP);
    constexpr int NSAMP = 4;
    struct Samp { uint64_t idx; char text[1400]; };
    auto *samples = (Samp *)shared(sizeof(Samp) * NSAMP);
    if(runs > HASH_CAP) runs = HASH_CAP;
    double t0 = wall(), deadline = t0 + wall_cap;
    int unrepro = 0, unrepro_serious = 0; std::string unrepro_msg;
search:
    std::vector<pid_t> pids;
    for(int w = 0; w < workers; ++w)
    {
        pid_t p = fork();
        if(p == 0)
        {
            cpu_set_t cs; CPU_ZERO(&cs);
            cpu_set_t avail; sched_getaffinity(0, sizeof avail, &avail);
            int ncpu = CPU_COUNT(&avail), want = w % std::max(1, ncpu), seen = 0;
            for(int k = 0; k < CPU_SETSIZE; ++k) if(CPU_ISSET(k, &avail)) { if(seen++ == want) { CPU_SET(k, &cs); break; } }
            sched_setaffinity(0, sizeof cs, &cs);
            shm = (RunShm *)shared(sizeof(RunShm));
            WorkerAgg &a = agg[w];
            double w0 = wall();
            for(;;)
            {
                // run 0..k in order: every index below the first violation is executed, whatever the worker count
                uint64_t i = sh->next.fetch_add(1);
                if(i >= runs || wall() > deadline) break;
                if(i > sh->best.load()) break;
                if(a.runs % 32 == 0) memory_pressure();
                RunConfig c{sc, seed_of(seed, scen, i), i, false, nullptr, false};
                Outcome o = execute(c);
                a.runs++;
                if(o.verdict == V_ABANDONED) a.abandoned++;
                if(o.verdict == V_ERROR) { a.errors++; snprintf(a.err, sizeof a.err, "run %llu: %s", (unsigned long long)i, o.msg.c_str()); }
                if(o.verdict == V_VIOLATION)
                {
                    a.violations++; a.vio_idx = i; snprintf(a.vio_cls, sizeof a.vio_cls, "%s", o.cls.c_str());
                    uint64_t b = sh->best.load();
                    while(i < b && !sh->best.compare_exchange_weak(b, i)) {}
                }
                a.nontrivial += shm->nontrivial; a.syscalls += shm->syscalls; a.switches += shm->switches; a.edges += shm->edges;
                a.sim_s += shm->sim_ns / 1e9; a.stall_s += shm->stall_ns / 1e9;
                for(int f = 0; f < NFAULT; ++f) { a.fault[f] += shm->fault[f]; a.fault_runs[f] += shm->fault[f] ? 1 : 0; }
                for(auto &p2 : shm->probes)
                {
                    if(!p2.name[0]) break;
                    for(uint32_t k = 0; k < MAXPROBE; ++k)
                    {
                        if(!a.probes[k].name[0]) memcpy(a.probes[k].name, p2.name, sizeof p2.name);
                        if(!strcmp(a.probes[k].name, p2.name)) { a.probes[k].hits += p2.hits; a.probe_runs[k]++; break; }
                    }
                }
                hv[i] = shm->sched_hash | 1; nt[i] = shm->nontrivial; rh[i] = shm->hash;
                if(i >= 8 && i < 8 + NSAMP) { samples[i - 8].idx = i; snprintf(samples[i - 8].text, sizeof samples[i - 8].text, "%s", shm->first_notes); }
            }
            a.wall_s += wall() - w0;
            _exit(0);
        }
        pids.push_back(p);
    }
    for(pid_t p : pids) { int st; waitpid(p, &st, 0); }
    double t1 = wall();
    if(sh->best.load() != ~0ull && unrepro < 8)
    {
        // a failure that doesn't come back on the same choices is no verdict: the search goes on behind it
        uint64_t b = sh->best.load(); auto *keep = shm; shm = main_shm;
        RunConfig c{sc, seed_of(seed, scen, b), b, false, nullptr, false};
        Outcome o = execute(c), o2 = o.verdict == V_VIOLATION ? execute(c) : o;
        shm = keep;
        if(o.verdict != V_VIOLATION || o2.verdict != V_VIOLATION)
        {
            ++unrepro; unrepro_msg = "run " + std::to_string(b) + " failed (" + agg_cls(agg, workers, b) + ") but not when repeated";
            if(agg_cls(agg, workers, b) != "wall-hang" && agg_cls(agg, workers, b) != "crash:Killed") ++unrepro_serious;
            printf("note: %s\n", unrepro_msg.c_str()); fflush(stdout);
            sh->best = ~0ull; sh->next = b + 1;
            deadline += wall() - t1;
            goto search;
        }
    }

    WorkerAgg T; memset(&T, 0, sizeof T);
    std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
    std::string err;
    for(int w = 0; w < workers; ++w)
    {
        auto &a = agg[w];
        T.runs += a.runs; T.violations += a.violations; T.nontrivial += a.nontrivial; T.syscalls += a.syscalls; T.switches += a.switches; T.edges += a.edges; T.errors += a.errors; T.abandoned += a.abandoned;
        T.sim_s += a.sim_s; T.stall_s += a.stall_s;
        for(int f = 0; f < NFAULT; ++f) { T.fault[f] += a.fault[f]; T.fault_runs[f] += a.fault_runs[f]; }
        for(uint32_t k = 0; k < MAXPROBE && a.probes[k].name[0]; ++k) { auto &p = probes[a.probes[k].name]; p.first += a.probes[k].hits; p.second += a.probe_runs[k]; }
        if(a.errors) err = a.err;
    }
    std::unordered_set<uint64_t> distinct, distinct_nt;
    for(uint64_t i = 0; i < runs; ++i) if(hv[i]) { distinct.insert(hv[i]); if(nt[i]) distinct_nt.insert(hv[i]); }
    size_t covered = 0;
    for(auto b : cov->bits) covered += b;
    if(hashes) for(uint64_t i = 0; i < runs; ++i) if(hv[i]) printf("H %llu %016llx %016llx\n", (unsigned long long)i, (unsigned long long)rh[i], (unsigned long long)hv[i]);

    int rc = 0;
    uint64_t best = sh->best.load();
    std::string vio_cls, vio_msg, vio_path; int shrink_runs = 0;
    if(err.empty() && T.abandoned > 5 + T.runs / 50) err = "too many runs outgrew the replay format: " + std::to_string(T.abandoned) + " of " + std::to_string(T.runs);
    if(err.empty() && best == ~0ull && unrepro_serious) err = unrepro_msg;
    if(err.size()) { fprintf(stderr, "HARNESS ERROR: %s\n", err.c_str()); rc = 2; }
    if(best != ~0ull)
    {
        shm = main_shm;
        uint64_t rs = seed_of(seed, scen, best);
        RunConfig c{sc, rs, best, false, nullptr, false};
        // gate 1: the same seed twice more, identical verdict and event hash
        Outcome a = execute(c);
        std::vector<Ent> st[NSTREAM];
        for(int s = 0; s < NSTREAM; ++s) st[s].assign(shm->ent[s], shm->ent[s] + shm->nent[s]);
        Outcome b = execute(c);
        // Code that reads memory it must not read may depend on more than the choices; it is still a violation if it fails each time.
        bool exact = a.verdict == V_VIOLATION && b.verdict == V_VIOLATION && a.cls == b.cls && a.hash == b.hash;
        if(a.verdict != V_VIOLATION || b.verdict != V_VIOLATION)
        {
            fprintf(stderr, "HARNESS ERROR: run %llu is not reproducible: [%s %llx] vs [%s %llx]\n", (unsigned long long)best, a.cls.c_str(), (unsigned long long)a.hash, b.cls.c_str(), (unsigned long long)b.hash);
            return 2;
        }
        Shrinker k; k.base = c; k.cls = a.cls; k.budget = 1500; k.until = wall() + 45;
        for(int s = 0; s < NSTREAM; ++s) k.st[s] = st[s];
        if(!a.wall_hang && exact)
        {
            if(!k.test(k.st))
            {
                fprintf(stderr, "HARNESS ERROR: recorded choices of run %llu do not replay: [%s %llx] after %s %llx\n", (unsigned long long)best, shm->cls, (unsigned long long)shm->hash, a.cls.c_str(), (unsigned long long)a.hash);
                write_replay(out_dir + "/" + scen + "-unreplayed.replay", scen, rs, best, a, k.st, "", "");
                return 2;
            }
            k.run();
        }
        shrink_runs = k.runs;
        RunConfig rcfg = c; rcfg.replay = true; rcfg.streams = k.st; rcfg.verbose = true;
        Outcome m = execute(rcfg);
        if(m.verdict != V_VIOLATION || (exact && m.cls != a.cls)) { fprintf(stderr, "HARNESS ERROR: the minimised run does not replay\n"); return 2; }
        vio_cls = m.cls; vio_msg = m.msg;
        vio_path = out_dir + "/" + scen + "-" + std::to_string(seed) + "-" + std::to_string(best) + ".replay";
        std::string tr(shm->trace, shm->trace_len);
        if(tr.size() > 60000) tr = tr.substr(0, 20000) + "\n...\n" + tr.substr(tr.size() - 40000);
        write_replay(vio_path, scen, rs, best, m, k.st, tr, "");
        // gate 2: a fresh process must fail the same way from the file alone
        pid_t p = fork();
        if(p == 0)
        {
            int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2);
            execl(self.c_str(), "simrun", "--replay", vio_path.c_str(), "--certs", sim::certs_path.c_str(), (char *)nullptr);
            _exit(9);
        }
        int st2; waitpid(p, &st2, 0);
        if(!WIFEXITED(st2) || (WEXITSTATUS(st2) != 1 && (exact || WEXITSTATUS(st2) != 3))) { fprintf(stderr, "HARNESS ERROR: %s does not reproduce in a fresh process (status %x)\n", vio_path.c_str(), st2); return 2; }
        printf("violation class=%s run=%llu seed=%llu choices W=%zu S=%zu F=%zu (from %zu/%zu/%zu, %d shrink runs)\n%s\n", vio_cls.c_str(), (unsigned long long)best, (unsigned long long)rs,
               k.st[0].size(), k.st[1].size(), k.st[2].size(), st[0].size(), st[1].size(), st[2].size(), k.runs, vio_msg.c_str());
        if(!exact) printf("note: the failure recurs on every execution of these choices, but not with an identical event history (the code under test depends on memory contents)\n");
        printf("VIOLATION property=%s replay=%s\n", scen.c_str(), vio_path.c_str());
        rc = 1;
    }
    double w = t1 - t0;
    printf("%s: %llu runs (%llu non-trivial, %zu distinct interleavings) in %.1fs, %.0f simulated s, %llu syscalls, %zu edges\n", scen.c_str(), (unsigned long long)T.runs,
           (unsigned long long)T.nontrivial, distinct.size(), w, T.sim_s, (unsigned long long)T.syscalls, covered);
    for(int f = 0; f < NFAULT; ++f) if(T.fault[f]) printf("  fault %-22s fired %llu times in %llu runs\n", fault_names[f], (unsigned long long)T.fault[f], (unsigned long long)T.fault_runs[f]);
    for(auto &p : probes) printf("  probe %-40s %llu hits in %llu runs\n", p.first.c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second);

    if(!evidence.empty())
    {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(scen) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << T.runs << ",\n  \"distinct_nontrivial\": " << distinct_nt.size() << ",\n";
        f << "  \"rule\": \"one evaluation = one simulated execution decided by (VERIF_SEED, scenario, index); non-trivial = the scenario reached the point where its oracle compared real library output "
             "(see the scenario's nontrivial() call); distinct = different hash of the sequence of (system call, task) events, i.e. a different interleaving\",\n";
        f << "  \"abandoned_runs\": " << T.abandoned << ",\n  \"distinct_interleavings\": " << distinct.size() << ",\n  \"seeds_per_hour\": " << (uint64_t)(T.runs / std::max(0.001, w) * 3600) << ",\n  \"simulated_seconds\": " << T.sim_s
          << ",\n  \"injected_cpu_stall_seconds\": " << T.stall_s << ",\n  \"simulated_syscalls\": " << T.syscalls << ",\n  \"task_switches\": " << T.switches << ",\n  \"basic_blocks_executed_in_library_calls\": " << T.edges
          << ",\n  \"distinct_basic_block_edges\": " << covered << ",\n  \"workers\": " << workers << ",\n";
        f << "  \"faults_injected\": {";
        bool first = true;
        for(int k = 0; k < NFAULT; ++k) if(T.fault[k]) { f << (first ? "" : ", ") << jstr(fault_names[k]) << ": {\"fired\": " << T.fault[k] << ", \"runs\": " << T.fault_runs[k] << "}"; first = false; }
        f << "},\n  \"probes\": {";
        first = true;
        for(auto &p : probes) { f << (first ? "" : ", ") << jstr(p.first) << ": {\"hits\": " << p.second.first << ", \"runs\": " << p.second.second << "}"; first = false; }
        f << "},\n  \"samples\": [";
        first = true;
        for(int k = 0; k < NSAMP; ++k) if(samples[k].idx) { f << (first ? "" : ", ") << "{\"index\": " << samples[k].idx << ", \"seed\": \"" << seed_of(seed, scen, samples[k].idx) << "\", \"trace\": " << jstr(samples[k].text) << "}"; first = false; }
        if(first) f << "{\"index\": 0, \"seed\": \"" << seed_of(seed, scen, 0) << "\"}";
        f << "]";
        if(!extra_json.empty()) f << ",\n  " << extra_json;
        f << "\n },\n \"assumptions\": [\"the kernel model (TCP streams, epoll, resolver) in /verif/sim/net.cpp behaves like Linux where the library can observe it\", \"tasks are preempted at basic-block edges and system calls; data races inside one basic block and weak-memory effects are not explored\"],\n";
        f << " \"wall_s\": " << (wall() - t0) << ",\n \"violations\": " << (best != ~0ull ? 1 : 0);
        if(best != ~0ull) f << ",\n \"violation\": {\"class\": " << jstr(vio_cls) << ", \"message\": " << jstr(vio_msg) << ", \"replay\": " << jstr(vio_path) << ", \"shrink_runs\": " << shrink_runs << "}";
        f << "\n}\n";
    }
    return rc;
}
