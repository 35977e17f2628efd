// See rt.h and DESIGN.md.  Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <atomic>
#include <bits/atomic_futex.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#undef sem_open

namespace sim {
std::function<void(const std::string&)> onUnlock;

enum Kind { K_YIELD, K_MUTEX, K_COND, K_SEM, K_JOIN, K_SLEEP, K_FUTEX, K_ONCE, K_PRED, K_GUARD, K_NEVER };

struct NamedSem {
    int id;
    std::string name;
    long value;
    bool unlinked = false;
    bool isLock = false;
    int holder = -1;
    int openRefs = 0;
};
static const uint64_t SEM_MAGIC = 0x53454d48414e444cULL;
struct SemHandle {
    uint64_t magic;
    NamedSem* obj;
    int proc;
    int refs;
    uint64_t pad[4];
};
struct ShmObj {
    int id;
    std::string name;
    int memfd;
    bool unlinked = false;
};
struct Mapping {
    uint8_t* addr;
    size_t len;
    ShmObj* obj;
    int proc;
};

struct Mx {
    int owner = -1;
    int count = 0;
};
static bool orphan(int owner, int proc);

struct Thread {
    int id = 0;
    int proc = 0;
    std::string name;
    pthread_t real{};
    std::atomic<int> baton{0};
    bool done = false;
    bool dead = false;
    bool detached = false;
    // pending operation
    int kind = K_YIELD;
    void* obj = nullptr;
    int64_t deadline = -1;  // ns
    bool signalled = false;
    unsigned fval = 0;
    bool intr = false;  // a signal arrived while it waits for a semaphore
    const std::function<bool()>* pred = nullptr;
    int64_t stalledUntil = 0;
    // start
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()> body;
    uintptr_t slo = 0, shi = 0;
    int quiet = 0;
    int internal = 0;  // what it allocates is this runtime's own
    int inInit = 0;
    int inStart = 0;
    int inst = 0, inst0 = 0;  // on whose behalf it runs now / was created
    int64_t countdown = INT64_MAX;
    int64_t prio = 0;
    bool armed = false;  // pauses at its next scheduling point
    int64_t heldUntil = 0;  // step
};

static Config g_cfg;
static Shared* g_sh;
static size_t g_shCap;
static std::atomic<bool> g_on{false};
static std::vector<Thread*> g_threads;
static __thread Thread* t_cur;
static int64_t g_now;  // ns
static uint64_t g_rng;
static int g_step;
static std::set<int> g_change;
static int64_t g_lowPrio = -1;
static std::unordered_map<void*, Mx> g_mx;
static std::map<std::string, NamedSem*> g_sems;
static std::vector<NamedSem*> g_allSems;
static std::vector<SemHandle*> g_handles;
static std::map<std::string, ShmObj*> g_shms;
static std::vector<ShmObj*> g_allShms;
static std::map<int, ShmObj*> g_fds;
static std::vector<Mapping> g_maps;
static std::set<int> g_dead;
static std::map<int, int> g_killAfter;
static std::map<int, uint64_t> g_prand;
static std::set<std::tuple<int, int, int>> g_raced;
static const uintptr_t WIN_LO = 0x600000000000ULL;
static const size_t WIN_SZ = 1ULL << 36;
static uintptr_t g_winNext = WIN_LO;
static int64_t g_failIn = -1;
static int g_dbg = -1;
static const int64_t WALL0 = 1700000000LL;

// ---------------------------------------------------------------- real functions
template <typename F>
static F realFn(const char* name) {
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name) realFn<decltype(&::name)>(#name)

static void futexWait(std::atomic<int>* a, int v) {
    syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futexWake(std::atomic<int>* a) {
    syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- random numbers
static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
uint64_t rnd() { return splitmix(g_rng); }
static double rnd01() { return (double)(rnd() >> 11) / 9007199254740992.0; }

// ST_HOLD: a thread that has just given something up pauses soon, while the others run on
static void maybeHold(Thread* t) {
    if (g_cfg.strategy != ST_HOLD || rnd() % (uint64_t)g_cfg.holdMean != 0)
        return;
    t->armed = true;
    t->countdown = 1 + (int64_t)(rnd() % 30);
}

static void newCountdown(Thread* t) {
    if (g_cfg.memMean == 0)
        t->countdown = INT64_MAX;
    else
        t->countdown = 1 + (int64_t)(rnd() % (2 * (uint64_t)g_cfg.memMean));
}

// ---------------------------------------------------------------- trace
void ev(const char* fmt, ...) {
    if (!g_sh || g_sh->overflow)
        return;
    va_list ap;
    va_start(ap, fmt);
    size_t room = g_shCap - sizeof(Shared) - g_sh->len;
    if (room < 4096) {  // more than any scenario asks for: something repeats itself for ever
        g_sh->overflow = 1;
        _exit(0);
    }
    int n = vsnprintf(&g_sh->text[0] + g_sh->len, room, fmt, ap);
    va_end(ap);
    if (n < 0 || (size_t)n + 2 > room) {
        g_sh->overflow = 1;
        return;
    }
    g_sh->text[g_sh->len + n] = '\n';
    g_sh->len = g_sh->len + n + 1;
}

// ---------------------------------------------------------------- scheduler
// Mutexes in static memory are shared by the simulated processes although each real process would have its own:
// one held by a killed process must not stop the others.
static bool orphan(int owner, int proc) { return g_threads[owner]->dead && g_threads[owner]->proc != proc; }
static std::map<void*, int> g_guards;  // who is initialising a static variable
static bool enabled(Thread* t) {
    if (t->done || t->dead)
        return false;
    if (t->stalledUntil > g_now)
        return false;
    switch (t->kind) {
        case K_YIELD:
            return true;
        case K_MUTEX: {
            Mx& m = g_mx[t->obj];
            if (m.owner >= 0 && orphan(m.owner, t->proc))
                m = Mx();
            return m.owner < 0 || (m.owner == t->id && m.count < 0) || (t->deadline >= 0 && g_now >= t->deadline);
        }
        case K_COND:
            return t->signalled || (t->deadline >= 0 && g_now >= t->deadline);
        case K_SEM:
            return t->intr || ((NamedSem*)t->obj)->value > 0 || (t->deadline >= 0 && g_now >= t->deadline);
        case K_JOIN:
            return ((Thread*)t->obj)->done;
        case K_SLEEP:
            return g_now >= t->deadline;
        case K_FUTEX:
            return t->signalled || __atomic_load_n((unsigned*)t->obj, __ATOMIC_RELAXED) != t->fval ||
                   (t->deadline >= 0 && g_now >= t->deadline);
        case K_ONCE:
            return *(volatile int*)t->obj != 1;
        case K_GUARD:
        {
            auto it = g_guards.find(t->obj);
            return ((volatile char*)t->obj)[1] == 0 || (it != g_guards.end() && orphan(it->second, t->proc));
        }
        case K_PRED:
        {
            bool v;
            if (t_cur)
                t_cur->quiet++;
            v = (*t->pred)();
            if (t_cur)
                t_cur->quiet--;
            return v || (t->deadline >= 0 && g_now >= t->deadline);
        }
        default:
            return false;
    }
}

static void handTo(Thread* n) {
    g_sh->curThread = n->id;
    g_sh->curProc = n->proc;
    g_sh->curInst = n->inst;
    n->baton.store(1, std::memory_order_release);
    futexWake(&n->baton);
}

static void waitBaton(Thread* t) {
    while (t->baton.load(std::memory_order_acquire) == 0)
        futexWait(&t->baton, 0);
    t->baton.store(0, std::memory_order_relaxed);
}

[[noreturn]] static void endRun(const char* why) {
    ev("[\"%s\",%lld]", why, (long long)(g_now / 1000));
    _exit(0);
}

static void doKill(int proc) {
    if (g_dead.count(proc))
        return;
    g_dead.insert(proc);
    for (Thread* t : g_threads)
        if (t->proc == proc && !t->done)
            t->dead = true;
    // which locks die with it
    std::string held;
    for (NamedSem* s : g_allSems)
        if (s->isLock && s->holder >= 0 && g_threads[s->holder]->proc == proc) {
            if (!held.empty())
                held += ",";
            held += std::to_string(s->id);
        }
    ev("[\"kill\",%lld,%d,[%s]]", (long long)(g_now / 1000), proc, held.c_str());
}

// The calling thread has set its pending operation; returns when it has been chosen to perform it.
static void block() {
    Thread* me = t_cur;
    ++g_step;
    g_sh->steps = g_step;
    g_now += 1000;
    if (g_dbg < 0)
        g_dbg = getenv("SIM_STEPS") != nullptr;
    if (g_dbg > 0)
        fprintf(stderr, "%u t%d k%d now %lld cd %lld rng %llx\n", (unsigned)g_step, me->id, me->kind, (long long)g_now, (long long)me->countdown, (unsigned long long)g_rng);
    if (g_step > g_cfg.maxSteps) {
        g_sh->livelock = 1;
        endRun("livelock");
    }
    auto ka = g_killAfter.find(me->proc);
    if (ka != g_killAfter.end() && --ka->second <= 0) {
        int p = me->proc;
        g_killAfter.erase(ka);
        doKill(p);
    }
    if (g_cfg.stallProb > 0 && !me->done && me->proc != 0 && rnd01() < g_cfg.stallProb)
        me->stalledUntil = g_now + 1000 * (int64_t)(1 + rnd() % (uint64_t)g_cfg.stallMaxUs);
    if (g_cfg.strategy == ST_PCT && g_change.count(g_step))
        me->prio = g_lowPrio--;
    if (me->armed) {
        me->armed = false;
        me->heldUntil = g_step + 20 + (int64_t)(rnd() % 800);
    }
    Thread* cand[512];
    for (;;) {
        int n = 0;
        bool meOk = false;
        int64_t minDl = -1;
        Thread* paused = nullptr;
        for (Thread* t : g_threads) {
            if (t->heldUntil > g_step && enabled(t)) {
                if (!paused || t->heldUntil < paused->heldUntil)
                    paused = t;
            }
            else if (enabled(t)) {
                if (n < 512)
                    cand[n++] = t;
                if (t == me)
                    meOk = true;
            }
            else if (!t->done && !t->dead) {
                int64_t d = -1;
                if (t->stalledUntil > g_now)
                    d = t->stalledUntil;
                else if (t->deadline >= 0)
                    d = t->deadline;
                if (d >= 0 && (minDl < 0 || d < minDl))
                    minDl = d;
            }
        }
        if (n == 0 && paused) {  // (no time passes while somebody pauses)
            paused->heldUntil = 0;
            continue;
        }
        if (n == 0) {
            if (minDl < 0)
                endRun("deadlock");
            if (g_cfg.spurious > 0 && rnd01() < g_cfg.spurious) {
                std::vector<Thread*> w;
                for (Thread* t : g_threads)
                    if (!t->done && !t->dead && t->kind == K_COND && !t->signalled)
                        w.push_back(t);
                if (!w.empty()) {
                    w[rnd() % w.size()]->signalled = true;
                    continue;
                }
            }
            if (minDl > g_now)
                g_now = minDl;
            continue;
        }
        Thread* nx = nullptr;
        switch (g_cfg.strategy) {
            case ST_STICKY:
            case ST_HOLD:
                if (meOk && rnd01() < g_cfg.sticky) {
                    nx = me;
                    break;
                }
                nx = cand[rnd() % n];
                break;
            case ST_PCT:
                if (rnd() % 128 == 0) {
                    nx = cand[rnd() % n];
                    break;
                }
                nx = cand[0];
                for (int i = 1; i < n; ++i)
                    if (cand[i]->prio > nx->prio)
                        nx = cand[i];
                break;
            default:
                nx = cand[rnd() % n];
        }
        if (nx == me) {
            g_sh->curThread = me->id;
            g_sh->curProc = me->proc;
            g_sh->curInst = me->inst;
            return;
        }
        bool done = me->done;
        handTo(nx);
        if (done)
            return;
        waitBaton(me);
        return;
    }
}

static inline bool active() {
    return g_on.load(std::memory_order_relaxed) && t_cur && t_cur->quiet == 0;
}
static inline bool managed();
struct Internal {
    Thread* t;
    Internal();
    ~Internal();
};
static inline bool managed() { return g_on.load(std::memory_order_relaxed) && t_cur; }
inline Internal::Internal() :
    t(managed() ? t_cur : nullptr) {
    if (t)
        t->internal++;
}
inline Internal::~Internal() {
    if (t)
        t->internal--;
}

static void point(int kind, void* obj = nullptr, int64_t deadline = -1) {
    Internal in;
    Thread* t = t_cur;
    t->kind = kind;
    t->obj = obj;
    t->deadline = deadline;
    t->signalled = false;
    block();
    t->kind = K_YIELD;
    t->obj = nullptr;
    t->deadline = -1;
    newCountdown(t);
}

void yield() {
    if (active())
        point(K_YIELD);
}
void interrupt(int tid) {
    Thread* t = g_threads[tid];
    if (!t->done && !t->dead && t->kind == K_SEM)
        t->intr = true;
}
void stopStalls() {
    g_cfg.stallProb = 0;
    for (Thread* t : g_threads)
        t->stalledUntil = 0;
}
void setInst(int i) {
    if (t_cur)
        t_cur->inst = i;
    if (g_sh)
        g_sh->curInst = i;
}
int getInst() { return t_cur ? t_cur->inst : 0; }

static void stackBounds(Thread* t) {
    pthread_attr_t a;
    void* lo;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        t->slo = (uintptr_t)lo;
        t->shi = (uintptr_t)lo + sz;
        pthread_attr_destroy(&a);
    }
}

static Thread* newThread(int proc) {
    Thread* t = new Thread();
    t->id = (int)g_threads.size();
    t->proc = proc;
    t->prio = (int64_t)(rnd() % 1000000);
    g_threads.push_back(t);
    newCountdown(t);
    return t;
}

void start(const Config& c, Shared* sh, size_t cap) {
    g_cfg = c;
    g_sh = sh;
    g_shCap = cap;
    g_rng = c.seed * 0x9E3779B97F4A7C15ULL + 12345;
    void* w = REAL(mmap)((void*)WIN_LO, WIN_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (w != (void*)WIN_LO) {
        fprintf(stderr, "sim: cannot reserve window\n");
        _exit(3);
    }
    if (c.strategy == ST_PCT)
        for (int i = 0; i < c.pctDepth; ++i)
            g_change.insert(1 + (int)(rnd() % (uint64_t)c.pctSteps));
    Thread* t = newThread(0);
    t->name = "env";
    t->real = pthread_self();
    stackBounds(t);
    t_cur = t;
    g_on.store(true);
}
void finish() { g_on.store(false); }

int self() { return t_cur ? t_cur->id : -1; }
int selfProc() { return t_cur ? t_cur->proc : -1; }
int threadProc(int tid) { return g_threads[tid]->proc; }
bool procDead(int p) { return g_dead.count(p) != 0; }
bool threadDone(int tid) { return g_threads[tid]->done; }
int instThreads(int inst) {
    int n = 0;
    for (Thread* t : g_threads)
        if (t->inst0 == inst && !t->done && !t->dead)
            ++n;
    return n;
}
int liveThreads(int proc) {
    int n = 0;
    for (Thread* t : g_threads)
        if (t->proc == proc && !t->done)
            ++n;
    return n;
}
int64_t nowUs() { return g_now / 1000; }
void wallPhase(int64_t ns) { g_cfg.wallBaseNs = ns + 1000000000 - g_now % 1000000000; }
void sleepUs(int64_t us) {
    if (active())
        point(K_SLEEP, nullptr, g_now + us * 1000);
}
void killProc(int proc) {
    if (g_dead.count(proc))
        return;
    doKill(proc);
    if (t_cur->proc == proc)
        point(K_NEVER);
}
void killProcAfter(int proc, int n) { g_killAfter[proc] = n; }
void failIn(int64_t n) { g_failIn = n; }

Quiet::Quiet() {
    if (t_cur)
        t_cur->quiet++;
}
Quiet::~Quiet() {
    if (t_cur)
        t_cur->quiet--;
}
InInit::InInit() {
    if (t_cur)
        t_cur->inInit++;
}
InStart::InStart() {
    if (t_cur)
        t_cur->inStart++;
}
InStart::~InStart() {
    if (t_cur)
        t_cur->inStart--;
}
InInit::~InInit() {
    if (t_cur)
        t_cur->inInit--;
}

// ---------------------------------------------------------------- happens-before: conflicting accesses that nothing orders
// Vector clocks over every synchronisation the program performs (mutexes, semaphores, thread creation and joining,
// atomics by their stated order, once, static guards); a cell per 8 bytes of heap and static memory remembers the
// latest accesses. Over-approximates the order (sync objects are never reset), so that a report is a real race.
namespace hb {
typedef std::vector<uint32_t> VC;
static std::vector<VC> C;
static std::unordered_map<uintptr_t, VC> L;
struct Acc {
    uint16_t tid;
    uint8_t mask;
    uint8_t fl;  // 1 write, 2 atomic, 4 while the instance is created or started, 128 used
    uint32_t clk;
    void* pc;
};
struct Cell {
    Acc a[4];
};
static const size_t NPG = 1 << 18;
static uintptr_t g_key[NPG];
static Cell* g_val[NPG];
static size_t g_pages;
static std::set<std::pair<void*, void*>> g_seen;
static size_t slot(uintptr_t pg) {
    size_t i = (size_t)((pg * 0x9E3779B97F4A7C15ULL) >> 46) & (NPG - 1);
    while (g_key[i] && g_key[i] != pg)
        i = (i + 1) & (NPG - 1);
    return i;
}
static void fresh(void* p, size_t n) {  // new memory: nothing has happened to it yet
    if (!p || !n)
        return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t pg = a >> 12; pg <= (e - 1) >> 12; ++pg) {
        size_t i = slot(pg);
        if (!g_key[i]) {
            if (g_pages > NPG / 2)
                return;
            g_key[i] = pg;
            g_pages++;
        }
        if (g_val[i]) {
            uintptr_t lo = pg << 12, hi = lo + 4096;
            uintptr_t x = (a > lo ? a : lo), y = (e < hi ? e : hi);
            size_t c0 = (x - lo) >> 3, c1 = (y - lo + 7) >> 3;
            for (size_t c = c0; c < c1; ++c)
                for (Acc& k : g_val[i][c].a)
                    k.fl = 0;
        }
    }
}
static inline VC& vc(int t) {
    if ((size_t)t >= C.size())
        C.resize(t + 1);
    VC& v = C[t];
    if ((size_t)t >= v.size())
        v.resize(t + 1);
    if (v[t] == 0)
        v[t] = 1;
    return v;
}
static void join(VC& a, const VC& b) {
    if (a.size() < b.size())
        a.resize(b.size());
    for (size_t i = 0; i < b.size(); ++i)
        if (a[i] < b[i])
            a[i] = b[i];
}
static void acq(const void* o) {
    Internal in;
    auto it = L.find((uintptr_t)o >> 3);
    if (it != L.end())
        join(vc(t_cur->id), it->second);
}
static void rel(const void* o) {
    Internal in;
    VC& v = vc(t_cur->id);
    join(L[(uintptr_t)o >> 3], v);
    v[t_cur->id]++;
}
static void fork(int child) {
    Internal in;
    vc(child);
    VC& v = vc(t_cur->id);
    join(C[child], v);
    v[t_cur->id]++;
}
static void joined(int child) {
    Internal in;
    vc(child);
    vc(t_cur->id);
    join(C[t_cur->id], C[child]);
}
static void report(Acc& k, int w, void* pc);
static inline bool before(const VC& v, const Acc& k) { return k.tid < v.size() && v[k.tid] >= k.clk; }
static void one(Cell& c, uint8_t m, uint8_t fl, void* pc) {
    Thread* t = t_cur;
    VC& v = vc(t->id);
    Acc* put = nullptr;
    Acc* spare = nullptr;
    for (Acc& k : c.a) {
        if (!k.fl) {
            if (!spare)
                spare = &k;
            continue;
        }
        if (k.tid == t->id) {
            if (k.mask == m && (k.fl & 7) == fl)
                put = &k;
            else if ((k.mask & ~m) == 0 && (fl & 1) && !(fl & 2)) {
                k.fl = 0;
                if (!spare)
                    spare = &k;
            }
            continue;
        }
        if (k.mask & m) {
            bool ord = before(v, k);
            if (((k.fl | fl) & 1) && !((k.fl & 2) && (fl & 2)) && !((k.fl | fl) & 4) && !ord && g_threads[k.tid]->proc == t->proc)
                report(k, fl & 1, pc);
            if (ord && (fl & 1) && (k.mask & ~m) == 0) {
                k.fl = 0;
                if (!spare)
                    spare = &k;
            }
        }
    }
    if (!put)
        put = spare;
    if (!put) {
        put = &c.a[(uint8_t)(v[t->id] + t->id) & 3];
    }
    put->tid = (uint16_t)t->id;
    put->mask = m;
    put->fl = 128 | fl;
    put->clk = v[t->id];
    put->pc = pc;
}
extern "C" char __data_start, _end;
static void access(const void* p, size_t n, int w, int at, void* pc) {
    Thread* t = t_cur;
    if (t->proc == 0 || !n)
        return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t pg = a >> 12;
        size_t i = slot(pg);
        if (!g_key[i]) {
            if (!(a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) || g_pages > NPG / 2) {
                a = (pg + 1) << 12;
                continue;
            }
            g_key[i] = pg;
            g_pages++;
        }
        if (!g_val[i]) {
            void* q = (void*)syscall(SYS_mmap, 0, 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (q == MAP_FAILED)
                return;
            g_val[i] = (Cell*)q;
        }
        uintptr_t ge = (a | 7) + 1;
        uintptr_t to = ge < e ? ge : e;
        uint8_t m = (uint8_t)((0xff << (a & 7)) & (0xff >> (ge - to)));
        one(g_val[i][(a & 4095) >> 3], m, (uint8_t)(w | at << 1 | (t->inStart ? 4 : 0)), pc);
        a = to;
    }
}
static std::string where(void* pc) {
    Dl_info d;
    char b[64];
    if (pc && dladdr(pc, &d) && d.dli_sname) {
        int st = 0;
        char* dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string r = dm ? dm : d.dli_sname;
        free(dm);
        std::string o;
        for (char ch : r)
            if (o.size() < 120)
                o += (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ? '_' : ch;
        snprintf(b, sizeof b, "+0x%lx", (long)((char*)pc - (char*)d.dli_saddr));
        return o + b;
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
static void report(Acc& k, int w, void* pc) {
    Internal in;
    Thread* t = t_cur;
    if (g_seen.size() >= 3 || !g_seen.insert(std::make_pair(k.pc, pc)).second)
        return;
    Quiet q;
    std::string a = where(k.pc), b = where(pc);
    ev("[\"race\",%lld,%d,%d,%d,\"%s %s\",\"%s %s\"]", (long long)(g_now / 1000), t->inst, t->id, (int)k.tid, w ? "write" : "read", b.c_str(),
       (k.fl & 1) ? "write" : "read", a.c_str());
}
static void atomic(const void* p, size_t n, int w, int order, void* pc) {
    Internal in;
    if (!managed() || t_cur->quiet || (uintptr_t)p - WIN_LO < WIN_SZ)
        return;
    access(p, n, w & 1, 1, pc);
    bool a = order == 1 || order == 2 || order == 4 || order == 5;
    bool r = order >= 3;
    if (a && w != 1)  // 0 load, 1 store, 3 read-modify-write
        acq(p);
    if (r && w != 0)
        rel(p);
}
}  // namespace hb

static long g_env;  // what the actors of a scenario tell each other
bool waitUntil(const std::function<bool()>& pred, int64_t deadlineUs) {
    Thread* t = t_cur;
    t->pred = &pred;
    point(K_PRED, nullptr, deadlineUs < 0 ? -1 : deadlineUs * 1000);
    hb::acq(&g_env);
    return pred();
}
void passOn() { hb::rel(&g_env); }
static void* trampoline(void* p) {
    Thread* t = (Thread*)p;
    t_cur = t;
    waitBaton(t);
    stackBounds(t);
    if (t->body)
        t->body();
    else
        t->ret = t->fn(t->arg);
    if (!g_on.load())
        return t->ret;
    t->quiet = 0;
    t->done = true;
    t->kind = K_NEVER;
    block();
    // The real thread stays: if it ended, when its memory is freed would depend on real time.
    for (;;)
        pause();
}

static int startThread(Thread* t, const pthread_attr_t* attr) {
    int r = REAL(pthread_create)(&t->real, attr, trampoline, t);
    return r;
}

int spawn(int proc, const std::string& name, std::function<void()> f) {
    Thread* t = newThread(proc);
    t->name = name;
    t->body = f;
    if (g_dead.count(proc))
        t->dead = true;
    hb::fork(t->id);
    startThread(t, nullptr);
    return t->id;
}

// ---------------------------------------------------------------- named objects
std::vector<std::string> names() {
    std::vector<std::string> r;
    for (auto& k : g_shms)
        r.push_back(k.first);
    for (auto& k : g_sems)
        r.push_back("sem." + k.first);
    return r;
}
int openHandles(int proc) {
    int n = 0;
    for (SemHandle* h : g_handles)
        if (h->proc == proc && h->refs > 0)
            n++;
    for (Mapping& m : g_maps)
        if (m.proc == proc)
            n++;
    return n;
}
int queueObj(const std::string& n) {
    auto it = g_shms.find(n);
    return it == g_shms.end() ? 0 : it->second->id;
}
Region observe(int obj) {
    Region r{nullptr, 0};
    for (ShmObj* o : g_allShms)
        if (o->id == obj) {
            struct stat st;
            if (fstat(o->memfd, &st) != 0 || st.st_size <= 0)
                return r;
            void* p = REAL(mmap)(nullptr, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, o->memfd, 0);
            if (p == MAP_FAILED)
                return r;
            r.addr = (uint8_t*)p;
            r.size = st.st_size;
        }
    return r;
}
int semValue(const std::string& n) {
    auto it = g_sems.find(n);
    return it == g_sems.end() ? -1 : (int)it->second->value;
}

static bool holdsLockFor(Thread* t, ShmObj* o) {
    const std::string& n = o->name;
    if (n.size() < 4)
        return true;
    std::string lock = n.substr(0, n.size() - 4) + "_rwlock";
    for (NamedSem* s : g_allSems)
        if (s->isLock && s->holder == t->id && s->name == lock)
            return true;
    return false;
}

static void shmAccess(const void* a, size_t n, int w) {
    Internal in;
    Thread* t = t_cur;
    if (!managed() || t->quiet || t->proc == 0 || t->inInit)
        return;
    for (Mapping& m : g_maps) {
        if ((uintptr_t)a >= (uintptr_t)m.addr && (uintptr_t)a < (uintptr_t)m.addr + m.len) {
            // Not queue storage: the constant total size (first word, read to find the end) and the record
            // behind the queue that tells the geometry and whether the owner closed it.
            size_t off = (uintptr_t)a - (uintptr_t)m.addr;
            if ((!w && off < 8) || off + 24 >= m.len)
                break;
            if (m.obj->name.size() > 4 && !holdsLockFor(t, m.obj)) {
                if (g_raced.insert(std::make_tuple(m.obj->id, t->id, w)).second)
                    ev("[\"rc\",%lld,%d,%d,%d,%d]", (long long)(g_now / 1000), m.obj->id, t->id, t->proc, w);
            }
            break;
        }
    }
}


static inline void mem(const void* a, size_t n, int w, int weight = 1, void* pc = nullptr) {
    if (!g_on.load(std::memory_order_relaxed))
        return;
    Thread* t = t_cur;
    if (!t || t->quiet)
        return;
    if ((uintptr_t)a - WIN_LO < WIN_SZ) {
        shmAccess(a, n, w);
        weight = 4;
    }
    else if ((uintptr_t)a >= t->slo && (uintptr_t)a < t->shi)
        return;
    else if (pc)
        hb::access(a, n, w, 0, pc);
    if ((t->countdown -= weight) <= 0) {
        newCountdown(t);
        if (t->proc != 0)
            point(K_YIELD);
    }
}
}  // namespace sim

using namespace sim;

// ================================================================= interposed functions
extern "C" {

// ---- memory: to know what is new, and whether somebody wrote beyond the end (or before the beginning) of what it got
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
struct Guard {
    uint64_t n, magic;
};
static const uint64_t GUARD = 0x5afe9eadc0ffee11ull;
static inline uint64_t guardOf(const void* p, uint64_t n) { return GUARD ^ (uint64_t)p ^ (n * 0x9e3779b97f4a7c15ull); }
static void overrun() {
    static const char m[] = "memory overrun\n";
    (void)!write(2, m, sizeof m - 1);
    __builtin_trap();
}
static inline void tail(char* p, size_t n, bool set) {  // 16 bytes behind the block
    uint64_t c = guardOf(p, n) ^ 0x7777777777777777ull, d[2] = {c, ~c};
    if (set)
        memcpy(p + n, d, 16);
    else if (memcmp(p + n, d, 16) != 0)
        overrun();
}
static int64_t g_blocks;  // in use, of the code under test
static const uint64_t OURS = 0x5555555555555555ull;
static inline bool ours() { return managed() && !t_cur->quiet && !t_cur->internal; }
static inline void* guarded(void* q, size_t n, bool count) {
    if (!q)
        return nullptr;
    Guard* g = (Guard*)q;
    char* p = (char*)(g + 1);
    g->n = n;
    g->magic = guardOf(p, n);
    if (count) {
        g->magic ^= OURS;
        ++g_blocks;
    }
    tail(p, n, true);
    return p;
}
// the block p belongs to, p itself if it is none of ours
static inline void* unguarded(void* p, size_t* n) {
    Guard* g = (Guard*)p - 1;
    const uint64_t x = g->magic ^ guardOf(p, g->n);
    if (x != 0 && x != OURS)
        return p;
    if (x)
        --g_blocks;
    tail((char*)p, g->n, false);
    *n = g->n;
    g->magic = 0;
    return g;
}
void* malloc(size_t n) {
    if (n > (size_t)1 << 40)
        return __libc_malloc(n);
    void* p = guarded(__libc_malloc(n + 32), n, ours());
    if (managed())
        hb::fresh(p, n);
    return p;
}
void free(void* p) {
    size_t n = 0;
    if (p)
        __libc_free(unguarded(p, &n));
}
void* calloc(size_t k, size_t n) {
    size_t t;
    if (__builtin_mul_overflow(k, n, &t) || t > (size_t)1 << 40)
        return __libc_malloc((size_t)1 << 62);
    void* p = guarded(__libc_malloc(t + 32), t, ours());
    if (p) {
        memset(p, 0, t);
        if (managed())
            hb::fresh(p, t);
    }
    return p;
}
void* realloc(void* q, size_t n) {
    if (!q)
        return malloc(n);
    if (n > (size_t)1 << 40)
        return __libc_malloc(n);
    if (n == 0) {
        free(q);
        return nullptr;
    }
    Guard* g = (Guard*)q - 1;
    const uint64_t x = g->magic ^ guardOf(q, g->n);
    if (x != 0 && x != OURS) {
        void* p = __libc_realloc(q, n);
        if (managed())
            hb::fresh(p, n);
        return p;
    }
    tail((char*)q, g->n, false);
    void* r = __libc_realloc(g, n + 32);
    if (r && x)
        --g_blocks;
    void* p = guarded(r, n, x != 0);
    if (p && managed())
        hb::fresh(p, n);
    return p;
}

}
namespace sim {
int64_t blocks() { return g_blocks; }
int openFiles() { return (int)g_fds.size(); }
}  // namespace sim
extern "C" {
// ---- threads
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!managed())
        return REAL(pthread_create)(th, attr, fn, arg);
    Internal in;
    Thread* t = newThread(t_cur->proc);
    t->fn = fn;
    t->arg = arg;
    t->inst = t->inst0 = t_cur->inst;
    int r = startThread(t, attr);
    if (r != 0) {
        t->done = true;
        return r;
    }
    *th = t->real;
    hb::fork(t->id);
    if (active())
        point(K_YIELD);
    return 0;
}
static Thread* byReal(pthread_t th) {
    for (size_t i = g_threads.size(); i-- > 0;)
        if (pthread_equal(g_threads[i]->real, th) && !g_threads[i]->detached)
            return g_threads[i];
    return nullptr;
}
int pthread_join(pthread_t th, void** ret) {
    if (!managed())
        return REAL(pthread_join)(th, ret);
    Thread* t = byReal(th);
    if (!t)
        return ESRCH;
    if (t == t_cur)
        return EDEADLK;
    point(K_JOIN, t);
    hb::joined(t->id);
    t->detached = true;
    if (ret)
        *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t th) {
    if (managed()) {
        Thread* t = byReal(th);
        if (!t)
            return ESRCH;
        t->detached = true;
        return 0;
    }
    return REAL(pthread_detach)(th);
}

// ---- mutexes
static bool orphan2(int owner) { return owner >= 0 && g_threads[owner]->dead; }
static bool recursiveMx(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int mxLock(pthread_mutex_t* m, int64_t deadline, bool tryOnly) {
    Internal in;
    Thread* t = t_cur;
    if (t->quiet) {
        return 0;
    }
    {
        Mx& x = g_mx[m];
        if (x.owner == t->id && recursiveMx(m)) {
            x.count++;
            return 0;
        }
    }
    if (tryOnly) {
        point(K_YIELD);
        if (g_mx[m].owner >= 0)
            return EBUSY;
    }
    else
        point(K_MUTEX, m, deadline);
    Mx& x = g_mx[m];
    if (x.owner >= 0)
        return ETIMEDOUT;
    x.owner = t->id;
    x.count = 1;
    hb::acq(m);
    return 0;
}
static int64_t toNow(const struct timespec* ts, clockid_t c);
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!managed())
        return REAL(pthread_mutex_lock)(m);
    return mxLock(m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed())
        return REAL(pthread_mutex_trylock)(m);
    return mxLock(m, -1, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!managed())
        return REAL(pthread_mutex_timedlock)(m, ts);
    return mxLock(m, toNow(ts, CLOCK_REALTIME), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    return mxLock(m, toNow(ts, c), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!managed())
        return REAL(pthread_mutex_unlock)(m);
    if (t_cur->quiet)
        return 0;
    Mx& x = g_mx[m];
    if (x.owner == t_cur->id) {
        if (--x.count > 0)
            return 0;
    }
    else if (!orphan2(x.owner) && hb::g_seen.size() < 3 && hb::g_seen.insert(std::make_pair((void*)m, nullptr)).second)
        ev("[\"race\",%lld,%d,%d,%d,\"unlock %s\",\"lock\"]", (long long)(g_now / 1000), t_cur->inst, t_cur->id, x.owner,
           hb::where(__builtin_return_address(0)).c_str());
    point(K_YIELD);
    hb::rel(m);
    Mx& y = g_mx[m];
    y.owner = -1;
    y.count = 0;
    maybeHold(t_cur);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (managed())
        g_mx.erase(m);
    return REAL(pthread_mutex_destroy)(m);
}

// ---- condition variables
static int64_t toNow(const struct timespec* ts, clockid_t c) {
    __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    if (c == CLOCK_REALTIME)
        v -= (__int128)WALL0 * 1000000000 + g_cfg.wallBaseNs;
    else
        v -= (__int128)1000 * 1000000000;
    if (v < 0)
        return 0;
    if (v > (__int128)INT64_MAX / 2)
        return -1;  // practically never
    return (int64_t)v;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    Internal in;
    Thread* t = t_cur;
    if (t->quiet)
        return ETIMEDOUT;
    // a scheduling point with the mutex held, then release + wait atomically
    hb::rel(m);
    int saved = g_mx[m].count;
    g_mx[m].owner = -1;
    g_mx[m].count = 0;
    point(K_COND, c, deadline);
    (void)0;
    bool timedOut = (deadline >= 0 && g_now >= deadline);
    point(K_MUTEX, m);
    g_mx[m].owner = t->id;
    g_mx[m].count = saved > 0 ? saved : 1;
    hb::acq(m);
    return timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!managed())
        return REAL(pthread_cond_wait)(c, m);
    return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!managed())
        return REAL(pthread_cond_timedwait)(c, m, ts);
    return condWait(c, m, toNow(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!managed())
        return REAL(pthread_cond_clockwait)(c, m, clk, ts);
    return condWait(c, m, toNow(ts, clk));
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!managed())
        return REAL(pthread_cond_broadcast)(c);
    if (t_cur->quiet)
        return 0;
    point(K_YIELD);
    for (Thread* t : g_threads)
        if (t->kind == K_COND && t->obj == c)
            t->signalled = true;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!managed())
        return REAL(pthread_cond_signal)(c);
    if (t_cur->quiet)
        return 0;
    point(K_YIELD);
    std::vector<Thread*> w;
    for (Thread* t : g_threads)
        if (t->kind == K_COND && t->obj == c && !t->signalled && !t->dead)
            w.push_back(t);
    if (!w.empty())
        w[rnd() % w.size()]->signalled = true;
    return 0;
}

// ---- once, static guards
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!managed())
        return REAL(pthread_once)(o, f);
    volatile int* v = (volatile int*)o;
    if (*v == 2) {
        hb::acq(o);
        return 0;
    }
    if (*v == 1)
        point(K_ONCE, (void*)o);
    if (*v == 2) {
        hb::acq(o);
        return 0;
    }
    *v = 1;
    try {
        f();
    } catch (...) {
        *v = 0;
        throw;
    }
    hb::rel(o);
    *v = 2;
    return 0;
}
int __cxa_guard_acquire(int64_t* g) {
    volatile char* c = (volatile char*)g;
    for (;;) {
        if (c[0]) {
            if (managed())
                hb::acq(g);
            return 0;
        }
        auto it = sim::g_guards.find(g);
        if (!c[1] || (managed() && it != sim::g_guards.end() && sim::orphan(it->second, t_cur->proc))) {
            c[1] = 1;
            if (managed())
                sim::g_guards[g] = t_cur->id;
            return 1;
        }
        if (managed())
            point(K_GUARD, g);
        else
            sched_yield();
    }
}
void __cxa_guard_release(int64_t* g) {
    volatile char* c = (volatile char*)g;
    if (managed())
        hb::rel(g);
    c[0] = 1;
    c[1] = 0;
}
void __cxa_guard_abort(int64_t* g) { ((volatile char*)g)[1] = 0; }

// ---- time
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!managed())
        return (int)syscall(SYS_clock_gettime, c, ts);
    __int128 v;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        v = (__int128)WALL0 * 1000000000 + g_cfg.wallBaseNs + g_now;
    else
        v = (__int128)1000 * 1000000000 + g_now;
    if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE)
        v -= v % 4000000;  // the kernel's tick
    ts->tv_sec = (time_t)(v / 1000000000);
    ts->tv_nsec = (long)(v % 1000000000);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
    if (!managed())
        return (int)syscall(SYS_nanosleep, r, rem);
    sim::sleepUs((int64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
    if (!managed())
        return (int)syscall(SYS_clock_nanosleep, c, flags, r, rem);
    if (flags & TIMER_ABSTIME) {
        int64_t d = toNow(r, c);
        if (active() && d > g_now)
            point(K_SLEEP, nullptr, d);
    }
    else
        sim::sleepUs((int64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000);
    return 0;
}
int usleep(useconds_t us) {
    if (!managed())
        return REAL(usleep)(us);
    sim::sleepUs(us);
    return 0;
}
unsigned sleep(unsigned s) {
    sim::sleepUs((int64_t)s * 1000000);
    return 0;
}
int sched_yield(void) {
    if (!managed())
        return (int)syscall(SYS_sched_yield);
    sim::yield();
    return 0;
}

// ---- random numbers, one deterministic stream per process (as with rand() never seeded)
int rand(void) {
    uint64_t& s = g_prand.emplace(t_cur ? t_cur->proc * 0 + t_cur->proc : -1, 1).first->second;
    return (int)(splitmix(s) & 0x7fffffff);
}
void srand(unsigned v) { g_prand[t_cur ? t_cur->proc : -1] = v; }
long random(void) { return rand(); }
void srandom(unsigned v) { srand(v); }
ssize_t getrandom(void* b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i)
        ((uint8_t*)b)[i] = (uint8_t)rnd();
    return (ssize_t)n;
}
int getentropy(void* b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}

// ---- named semaphores
static bool nameOk(const char* name, std::string& out, size_t maxLen) {
    while (*name == '/')
        ++name;
    out = name;
    if (out.empty() || out.find('/') != std::string::npos) {
        errno = EINVAL;
        return false;
    }
    if (out.size() > maxLen) {
        errno = ENAMETOOLONG;
        return false;
    }
    return true;
}
static bool injected() {
    if (g_failIn > 0 && t_cur->proc != 0 && --g_failIn == 0)
        return true;
    return false;
}
static SemHandle* handleFor(NamedSem* s, int proc) {
    for (SemHandle* h : g_handles)
        if (h->obj == s && h->proc == proc && h->refs > 0) {
            h->refs++;
            return h;
        }
    SemHandle* h = (SemHandle*)calloc(1, sizeof(SemHandle));
    h->magic = SEM_MAGIC;
    h->obj = s;
    h->proc = proc;
    h->refs = 1;
    g_handles.push_back(h);
    return h;
}
sem_t* sem_open(const char* name, int oflag, ...) {
    unsigned value = 0;
    if (oflag & O_CREAT) {
        va_list ap;
        va_start(ap, oflag);
        (void)va_arg(ap, unsigned);
        value = va_arg(ap, unsigned);
        va_end(ap);
    }
    if (!managed())
        return SEM_FAILED;
    if (active())
        point(K_YIELD);
    std::string n;
    if (!nameOk(name, n, 251))
        return SEM_FAILED;
    if (!t_cur->quiet && injected()) {
        errno = EMFILE;
        return SEM_FAILED;
    }
    Internal in;
    auto it = g_sems.find(n);
    if (it != g_sems.end()) {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) {
            errno = EEXIST;
            return SEM_FAILED;
        }
        return (sem_t*)handleFor(it->second, t_cur->quiet ? -1 : t_cur->proc);
    }
    if (!(oflag & O_CREAT)) {
        errno = ENOENT;
        return SEM_FAILED;
    }
    if (value > 0x7fffffffu) {
        errno = EINVAL;
        return SEM_FAILED;
    }
    NamedSem* s = new NamedSem();
    s->id = (int)g_allSems.size() + 1;
    s->name = n;
    s->value = value;
    s->isLock = n.size() > 7 && n.compare(n.size() - 7, 7, "_rwlock") == 0;
    g_allSems.push_back(s);
    g_sems[n] = s;
    ev("[\"mk\",%lld,%d,%d,\"sem.%s\",%d,%u]", (long long)(g_now / 1000), t_cur->inst, t_cur->proc, n.c_str(), s->id, value);
    return (sem_t*)handleFor(s, t_cur->quiet ? -1 : t_cur->proc);
}
static SemHandle* H(sem_t* s) {
    SemHandle* h = (SemHandle*)s;
    if (!s || s == SEM_FAILED || h->magic != SEM_MAGIC || h->refs <= 0) {
        // use of a semaphore that is not open: the real thing reads unmapped memory
        ev("[\"badsem\",%lld]", (long long)(g_now / 1000));
        abort();
    }
    return h;
}
int sem_close(sem_t* s) {
    if (active())
        point(K_YIELD);
    SemHandle* h = H(s);
    h->refs--;
    return 0;
}
int sem_unlink(const char* name) {
    if (active())
        point(K_YIELD);
    std::string n;
    if (!nameOk(name, n, 251)) {
        errno = ENOENT;
        return -1;
    }
    auto it = g_sems.find(n);
    if (it == g_sems.end()) {
        errno = ENOENT;
        return -1;
    }
    it->second->unlinked = true;
    g_sems.erase(it);
    return 0;
}
static int semWait(sem_t* s, int64_t deadline, bool tryOnly, bool badNs) {
    Internal in;
    SemHandle* h = H(s);
    NamedSem* o = h->obj;
    Thread* t = t_cur;
    if (t->quiet) {
        if (o->value > 0) {
            o->value--;
            return 0;
        }
        errno = EAGAIN;
        return -1;
    }
    int64_t t0 = g_now;
    t->intr = false;
    if (badNs) {
        point(K_YIELD);
        errno = EINVAL;
        if (o->isLock)
            ev("[\"lt\",%lld,%d,%d,%d,%d,%d,%d]", (long long)(g_now / 1000), o->id, t->id, t->proc, t->inst, 0, -1);
        return -1;
    }
    if (tryOnly)
        point(K_YIELD);
    else
        point(K_SEM, o, deadline);
    if (t->intr) {
        t->intr = false;
        errno = EINTR;
        return -1;
    }
    if (o->value > 0) {
        o->value--;
        hb::acq(o);
        if (o->isLock) {
            ev("[\"lk\",%lld,%d,%d,%d,%d]", (long long)(g_now / 1000), o->id, t->id, t->proc, t->inst);
            o->holder = t->id;
        }
        return 0;
    }
    if (o->isLock)
        ev("[\"lt\",%lld,%d,%d,%d,%d,%lld,%lld]", (long long)(g_now / 1000), o->id, t->id, t->proc, t->inst, (long long)((g_now - t0) / 1000),
           tryOnly ? 0LL : (long long)((deadline - t0) / 1000));
    errno = tryOnly ? EAGAIN : ETIMEDOUT;
    return -1;
}
int sem_wait(sem_t* s) { return semWait(s, -1, false, false); }
int sem_trywait(sem_t* s) { return semWait(s, -1, true, false); }
int sem_timedwait(sem_t* s, const struct timespec* ts) {
    bool bad = ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000;
    return semWait(s, toNow(ts, CLOCK_REALTIME), false, bad);
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) {
    bool bad = ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000;
    return semWait(s, toNow(ts, c), false, bad);
}
int sem_post(sem_t* s) {
    SemHandle* h = H(s);
    NamedSem* o = h->obj;
    Thread* t = t_cur;
    if (t->quiet) {
        o->value++;
        return 0;
    }
    point(K_YIELD);
    H(s);
    if (o->isLock) {
        if (onUnlock) {
            Quiet q;
            onUnlock(o->name.substr(0, o->name.size() - 7));
        }
        ev("[\"ul\",%lld,%d,%d,%d,%d]", (long long)(g_now / 1000), o->id, t->id, t->proc, t->inst);
        o->holder = -1;
    }
    hb::rel(o);
    o->value++;
    maybeHold(t);
    return 0;
}
int sem_getvalue(sem_t* s, int* v) {
    *v = (int)H(s)->obj->value;
    return 0;
}

// ---- shared memory
int shm_open(const char* name, int oflag, mode_t) {
    if (!managed()) {
        errno = EACCES;
        return -1;
    }
    if (active())
        point(K_YIELD);
    std::string n;
    if (!nameOk(name, n, 255)) {
        errno = EINVAL;
        return -1;
    }
    if (!t_cur->quiet && injected()) {
        errno = EMFILE;
        return -1;
    }
    Internal in;
    auto it = g_shms.find(n);
    ShmObj* o;
    if (it != g_shms.end()) {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        o = it->second;
        if (oflag & O_TRUNC)
            if (REAL(ftruncate)(o->memfd, 0)) {
            }
    }
    else {
        if (!(oflag & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        o = new ShmObj();
        o->id = (int)g_allShms.size() + 1;
        o->name = n;
        o->memfd = memfd_create("simshm", 0);
        g_allShms.push_back(o);
        g_shms[n] = o;
        ev("[\"mk\",%lld,%d,%d,\"%s\",%d,0]", (long long)(g_now / 1000), t_cur->inst, t_cur->proc, n.c_str(), o->id);
    }
    int fd = dup(o->memfd);
    g_fds[fd] = o;
    return fd;
}
int shm_unlink(const char* name) {
    if (active())
        point(K_YIELD);
    std::string n;
    if (!nameOk(name, n, 255)) {
        errno = ENOENT;
        return -1;
    }
    auto it = g_shms.find(n);
    if (it == g_shms.end()) {
        errno = ENOENT;
        return -1;
    }
    it->second->unlinked = true;
    g_shms.erase(it);
    return 0;
}
int ftruncate(int fd, off_t len) __THROW;
int ftruncate(int fd, off_t len) __THROW {
    if (managed() && g_fds.count(fd)) {
        if (active())
            point(K_YIELD);
        if (!t_cur->quiet && injected()) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off64_t len) __THROW { return ftruncate(fd, len); }
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) __THROW {
    if (managed() && fd >= 0) {
        auto it = g_fds.find(fd);
        if (it != g_fds.end()) {
            if (active())
                point(K_YIELD);
            if (!t_cur->quiet && injected()) {
                errno = ENOMEM;
                return MAP_FAILED;
            }
            if (len == 0) {
                errno = EINVAL;
                return MAP_FAILED;
            }
            size_t rl = (len + 4095) & ~(size_t)4095;
            if (rl < len || g_winNext + rl + 8192 > WIN_LO + WIN_SZ) {
                errno = ENOMEM;
                return MAP_FAILED;
            }
            void* p = (void*)syscall(SYS_mmap, g_winNext, len, prot, (flags & ~MAP_FIXED_NOREPLACE) | MAP_FIXED, fd, off);
            if (p == MAP_FAILED)
                return p;
            Internal in;
            g_winNext += rl + 4096;
            g_maps.push_back(Mapping{(uint8_t*)p, len, it->second, t_cur->quiet ? -1 : t_cur->proc});
            return p;
        }
    }
    return (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
}
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off64_t off) __THROW {
    return mmap(addr, len, prot, flags, fd, off);
}
int munmap(void* addr, size_t len) __THROW {
    if (managed() && (uintptr_t)addr - WIN_LO < WIN_SZ) {
        if (active())
            point(K_YIELD);
        for (size_t i = 0; i < g_maps.size(); ++i)
            if (g_maps[i].addr == addr) {
                g_maps.erase(g_maps.begin() + i);
                break;
            }
        syscall(SYS_mmap, addr, (len + 4095) & ~(size_t)4095, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        return 0;
    }
    return (int)syscall(SYS_munmap, addr, len);
}
int close(int fd) {
    if (managed()) {
        auto it = g_fds.find(fd);
        if (it != g_fds.end()) {
            if (active())
                point(K_YIELD);
            g_fds.erase(fd);
        }
    }
    return (int)syscall(SYS_close, fd);
}

// ---- memory copying: any order of copying is allowed for memcpy, so copy in the order callers do not expect
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
    volatile uint8_t* dd = (volatile uint8_t*)d;
    const volatile uint8_t* ss = (const volatile uint8_t*)s;
    if ((uintptr_t)d - WIN_LO < WIN_SZ || (uintptr_t)s - WIN_LO < WIN_SZ) {
        if (g_on.load(std::memory_order_relaxed) && n > 0) {
            size_t half = n / 2;
            if ((uintptr_t)s - WIN_LO < WIN_SZ)
                mem(s, n, 0);
            if ((uintptr_t)d - WIN_LO < WIN_SZ)
                mem(d, n, 1);
            // descending halves with a possible preemption in between
            for (size_t i = n; i > half; --i)
                dd[i - 1] = ss[i - 1];
            if ((uintptr_t)d - WIN_LO < WIN_SZ)
                mem(d, 1, 1);
            for (size_t i = half; i > 0; --i)
                dd[i - 1] = ss[i - 1];
            return d;
        }
    }
    if (n >= 64 && !((uintptr_t)d + n <= (uintptr_t)s || (uintptr_t)s + n <= (uintptr_t)d)) {
        for (size_t i = n; i > 0; --i)
            dd[i - 1] = ss[i - 1];
        return d;
    }
    uint8_t* a = (uint8_t*)d;
    const uint8_t* b = (const uint8_t*)s;
    asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    return d;
}
void* __memcpy_chk(void* __restrict d, const void* __restrict s, size_t n, size_t) { return memcpy(d, s, n); }
void* memmove(void* d, const void* s, size_t n) {
    bool shm = (uintptr_t)d - WIN_LO < WIN_SZ || (uintptr_t)s - WIN_LO < WIN_SZ;
    if (shm && n > 0) {
        if ((uintptr_t)s - WIN_LO < WIN_SZ)
            mem(s, n, 0);
        if ((uintptr_t)d - WIN_LO < WIN_SZ)
            mem(d, n, 1);
    }
    volatile uint8_t* dd = (volatile uint8_t*)d;
    const volatile uint8_t* ss = (const volatile uint8_t*)s;
    if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n) {
        uint8_t* a = (uint8_t*)d;
        const uint8_t* b = (const uint8_t*)s;
        asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    }
    else
        for (size_t i = n; i > 0; --i)
            dd[i - 1] = ss[i - 1];
    return d;
}
void* __memmove_chk(void* d, const void* s, size_t n, size_t) { return memmove(d, s, n); }
void* memset(void* d, int c, size_t n) {
    if ((uintptr_t)d - WIN_LO < WIN_SZ && n > 0)
        mem(d, n, 1);
    uint8_t* a = (uint8_t*)d;
    asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(c) : "memory");
    return d;
}

// ---- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                    \
    void __tsan_read##N(void* a) { mem(a, N, 0, 1, __builtin_return_address(0)); }               \
    void __tsan_write##N(void* a) { mem(a, N, 1, 1, __builtin_return_address(0)); }              \
    void __tsan_unaligned_read##N(void* a) { mem(a, N, 0, 1, __builtin_return_address(0)); }     \
    void __tsan_unaligned_write##N(void* a) { mem(a, N, 1, 1, __builtin_return_address(0)); }    \
    void __tsan_volatile_read##N(void* a) { mem(a, N, 0, 4, __builtin_return_address(0)); }   \
    void __tsan_volatile_write##N(void* a) { mem(a, N, 1, 4, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* a, unsigned long n) { mem(a, n, 0, 1, __builtin_return_address(0)); }
void __tsan_write_range(void* a, unsigned long n) { mem(a, n, 1, 1, __builtin_return_address(0)); }

#define PC __builtin_return_address(0)
#define RMW(T, N, NAME, BI)                                                 \
    T __tsan_atomic##N##_##NAME(volatile T* a, T v, int o) {                \
        mem((const void*)a, sizeof(T), 1, 8);                               \
        hb::atomic((const void*)a, sizeof(T), 3, o, PC);                    \
        return BI(a, v, __ATOMIC_SEQ_CST);                                  \
    }
#define AT(T, N)                                                                                            \
    T __tsan_atomic##N##_load(const volatile T* a, int o) {                                                 \
        mem((const void*)a, sizeof(T), 0, 8);                                                               \
        hb::atomic((const void*)a, sizeof(T), 0, o, PC);                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                       \
    void __tsan_atomic##N##_store(volatile T* a, T v, int o) {                                              \
        mem((const void*)a, sizeof(T), 1, 8);                                                               \
        hb::atomic((const void*)a, sizeof(T), 1, o, PC);                                                    \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                       \
    RMW(T, N, exchange, __atomic_exchange_n)                                                                \
    RMW(T, N, fetch_add, __atomic_fetch_add)                                                                \
    RMW(T, N, fetch_sub, __atomic_fetch_sub)                                                                \
    RMW(T, N, fetch_and, __atomic_fetch_and)                                                                \
    RMW(T, N, fetch_or, __atomic_fetch_or)                                                                  \
    RMW(T, N, fetch_xor, __atomic_fetch_xor)                                                                \
    RMW(T, N, fetch_nand, __atomic_fetch_nand)                                                              \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int) {                  \
        mem((const void*)a, sizeof(T), 1, 8);                                                               \
        hb::atomic((const void*)a, sizeof(T), 3, o, PC);                                                    \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    }                                                                                                       \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int) {                    \
        mem((const void*)a, sizeof(T), 1, 8);                                                               \
        hb::atomic((const void*)a, sizeof(T), 3, o, PC);                                                    \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    }                                                                                                       \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int o, int) {                        \
        mem((const void*)a, sizeof(T), 1, 8);                                                               \
        hb::atomic((const void*)a, sizeof(T), 3, o, PC);                                                    \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
        return c;                                                                                           \
    }
AT(uint8_t, 8)
AT(uint16_t, 16)
AT(uint32_t, 32)
AT(uint64_t, 64)
#undef AT
void __tsan_atomic_thread_fence(int) {
    static long all;
    if (managed() && !t_cur->quiet) {
        hb::acq(&all);
        hb::rel(&all);
    }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- std::future's futex and std::random_device live in libstdc++.so; these definitions take precedence
namespace std {
static bool futexWaitUntil(unsigned* addr, unsigned val, bool hasTimeout, chrono::seconds s, chrono::nanoseconds ns, clockid_t c) {
    if (!managed())
        return true;
    Thread* t = t_cur;
    if (t->quiet)
        return true;
    int64_t dl = -1;
    if (hasTimeout) {
        struct timespec ts;
        ts.tv_sec = s.count();
        ts.tv_nsec = ns.count();
        dl = toNow(&ts, c);
    }
    t->fval = val;
    point(K_FUTEX, addr, dl);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val)
        return true;
    return !(dl >= 0 && g_now >= dl);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool h, chrono::seconds s, chrono::nanoseconds n) {
    return futexWaitUntil(a, v, h, s, n, CLOCK_REALTIME);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool h, chrono::seconds s, chrono::nanoseconds n) {
    return futexWaitUntil(a, v, h, s, n, CLOCK_MONOTONIC);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
    if (!managed() || t_cur->quiet)
        return;
    point(K_YIELD);
    for (Thread* t : g_threads)
        if (t->kind == K_FUTEX && t->obj == a)
            t->signalled = true;
}
random_device::result_type random_device::_M_getval() { return (random_device::result_type)rnd(); }
}  // namespace std
