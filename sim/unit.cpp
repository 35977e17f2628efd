// Replays behaviours of the component specifications (MsgQueue, TimedSem) into the real components.
//   unit CASES OUT       OUT: per case "ok NAME" or "bad NAME line L: what" or "crash NAME signal line"
// The expected answers were printed by TLC; this program only performs the requests and compares.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "message_queue.h"
#include "rt.h"
#include "semaphore.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <memory>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace veigar;
typedef std::vector<std::string> Words;
typedef long long ll;

struct Case {
    std::string name;
    std::vector<Words> lines;
};
struct Report {
    volatile int bad;
    volatile int line;
    char what[400];
};
static Report* R;
static int g_line;

[[noreturn]] static void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->what, sizeof R->what, fmt, ap);
    va_end(ap);
    R->bad = 1;
    R->line = g_line;
    _exit(0);
}
[[noreturn]] static void unusable(const char* why) {
    snprintf(R->what, sizeof R->what, "%s", why);
    R->bad = 2;
    R->line = g_line;
    _exit(0);
}
static ll num(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }

// a buffer that ends at an inaccessible page
struct Guarded {
    uint8_t *base = nullptr, *p = nullptr;
    size_t len = 0, total = 0;
    explicit Guarded(size_t n) :
        len(n) {
        size_t pg = 4096, body = (n + 64 + pg - 1) / pg * pg;
        total = body + pg;
        base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED)
            unusable("mmap");
        mprotect(base + body, pg, PROT_NONE);
        p = base + body - n;
        memset(base, 0xC3, body);
    }
    ~Guarded() { munmap(base, total); }
    bool intact() const {
        for (uint8_t* c = base; c < p; ++c)
            if (*c != 0xC3)
                return false;
        return true;
    }
};
static uint8_t cell(ll id, size_t k) {
    uint64_t z = (uint64_t)id * 0x9E3779B97F4A7C15ULL + (k / 5) * 0xBF58476D1CE4E5B9ULL + k;
    z ^= z >> 29;
    return (uint8_t)(z * 31 >> 3);
}

// ------------------------------------------------------------------ queues
// queue CAP EXP HANDLES REOPEN     then requests
static void queueCase(const Case& c) {
    const Words& h = c.lines[0];
    int cap = (int)num(h[1]), exp = (int)num(h[2]);
    size_t handles = (size_t)num(h[3]);
    int reopen = (int)num(h[4]);
    const std::string path = "vgunit_call";
    std::vector<std::shared_ptr<MessageQueue>> H;
    auto other = [&](size_t i) {
        static const int G[][2] = {{8, 512}, {1, 1}, {7, 3}, {1000, 1000}, {3, 1}};
        int k = (int)(i + (size_t)cap) % 6;
        return k == 5 ? std::make_shared<MessageQueue>(cap, exp) : std::make_shared<MessageQueue>(G[k][0], G[k][1]);
    };
    H.push_back(std::make_shared<MessageQueue>(cap, exp));
    if (!H[0]->create(path))
        fail("create(%d messages of %d bytes) failed", cap, exp);
    for (size_t i = 1; i < handles; ++i) {
        H.push_back(other(i));
        if (!H[i]->open(path))
            fail("open by handle %zu failed", i);
    }
    std::deque<std::pair<ll, size_t>> shadow;  // identity of the content the specification expects
    ll id = 0;
    uint64_t r = 88172645463325252ULL ^ (uint64_t)cap << 20 ^ (uint64_t)exp;
    auto rnd = [&]() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; };
    auto pop = [&](MessageQueue& q, ll buf, bool null, int ok, ll len, bool judgeLen) {
        Guarded g((size_t)buf);
        int64_t w = -77;
        bool res = q.popFront(null ? nullptr : g.p, null ? 0 : buf, w);
        if (res != (ok != 0))
            fail("popFront(buffer of %lld) gave %d, expected %d (first message: %lld bytes, %zu queued)", buf, res, ok, len, shadow.size());
        if (!g.intact())
            fail("popFront wrote outside its buffer");
        if (judgeLen && w != len)
            fail("popFront(buffer of %lld) reported %lld bytes, expected %lld", buf, (ll)w, len);
        if (ok) {
            if (shadow.empty() || (ll)shadow.front().second != len)
                unusable("shadow");
            for (ll k = 0; k < len; ++k)
                if (g.p[k] != cell(shadow.front().first, (size_t)k))
                    fail("byte %lld of the popped message of %lld bytes is not the one pushed", k, len);
            shadow.pop_front();
        }
    };
    for (size_t i = 1; i < c.lines.size(); ++i) {
        const Words& w = c.lines[i];
        g_line = (int)i;
        R->line = g_line;
        if (reopen && rnd() % (uint64_t)reopen == 0 && H.size() > 1) {
            size_t k = 1 + rnd() % (H.size() - 1);
            H[k] = other(k + i);
            if (!H[k]->open(path))
                fail("open of the queue in use failed");
        }
        MessageQueue& q = *H[rnd() % H.size()];
        if (!q.processRWLock(30))
            fail("the queue lock is not free");
        if (w[0] == "push") {
            ll len = num(w[1]);
            Guarded g((size_t)len);
            ++id;
            for (ll k = 0; k < len; ++k)
                g.p[k] = cell(id, (size_t)k);
            bool res = q.pushBack(g.p, len);
            if (res != (num(w[2]) != 0))
                fail("pushBack(%lld bytes) gave %d, expected %s", len, res, w[2].c_str());
            if (res)
                shadow.push_back({id, (size_t)len});
        }
        else if (w[0] == "pop")
            pop(q, num(w[1]), false, (int)num(w[2]), num(w[3]), num(w[3]) > 0);
        else if (w[0] == "popnull")
            pop(q, 0, true, 0, num(w[3]), num(w[3]) > 0);
        else if (w[0] == "check") {
            bool waitable = num(w[3]) == 0;
            bool res = q.checkSpaceSufficient(num(w[1]), waitable);
            if (res != (num(w[2]) != 0))
                fail("checkSpaceSufficient(%s) gave %d, expected %s", w[1].c_str(), res, w[2].c_str());
            if (!res && waitable != (num(w[3]) != 0))
                fail("checkSpaceSufficient(%s) says waitable=%d, expected %s", w[1].c_str(), waitable, w[3].c_str());
        }
        else if (w[0] == "num") {
            if (q.msgNumber() != num(w[1]))
                fail("msgNumber gave %lld, expected %s", (ll)q.msgNumber(), w[1].c_str());
        }
        else
            unusable("request");
        q.processRWUnlock();
    }
    while (!shadow.empty())
        pop(*H[rnd() % H.size()], (ll)shadow.front().second, false, 1, (ll)shadow.front().second, true);
    int64_t x = 0;
    uint8_t b[8];
    if (H[0]->popFront(b, 8, x))
        fail("a message that was never accepted is in the queue");
}

// ------------------------------------------------------------------ timed waits
// sem INITIAL                       value of the semaphore at first
// w MS SUCC ELAPSED_US MAXLATE_US   a wait (MS "inf": the wait without timeout), in order
// e AT_US post|take|intr            what others do, in order of time
// v VALUE                           units left at the end
static void semCase(const Case& c) {
    const std::string name = "vgunit_sem";
    std::vector<Words> waits, env;
    ll left = -1;
    for (size_t i = 1; i < c.lines.size(); ++i) {
        if (c.lines[i][0] == "w")
            waits.push_back(c.lines[i]);
        else if (c.lines[i][0] == "e")
            env.push_back(c.lines[i]);
        else
            left = num(c.lines[i][1]);
    }
    Semaphore creator;
    if (!creator.open(name, (int)num(c.lines[0][1])))
        fail("open failed");
    int waiter = sim::spawn(1, "waiter", [&]() {
        Semaphore s;
        if (!s.openExist(name))
            fail("openExist failed");
        for (size_t i = 0; i < waits.size(); ++i) {
            const Words& w = waits[i];
            g_line = (int)i;
            R->line = g_line;
            if (i == 0)
                sim::wallPhase(num(c.lines[0][3]));
            ll t0 = sim::nowUs();
            bool res = true;
            if (w[1] == "inf")
                s.wait();
            else
                res = s.wait((int64_t)num(w[1]));
            ll el = sim::nowUs() - t0, exp = num(w[3]), late = num(w[4]);
            if (res != (num(w[2]) != 0))
                fail("wait %zu (%s ms) gave %d after %lld us, expected %s after %lld us", i, w[1].c_str(), res, el, w[2].c_str(), exp);
            // a failure may not come before its time; a success may not come later than the unit
            if (!res && el < exp)
                fail("wait %zu (%s ms) failed after %lld us, expected not before %lld us", i, w[1].c_str(), el, exp);
            if (el > exp + late)
                fail("wait %zu (%s ms) ended (%d) after %lld us, expected within %lld us of %lld us", i, w[1].c_str(), res, el, late, exp);
        }
    });
    int others = sim::spawn(2, "others", [&]() {
        Semaphore s;
        if (!s.openExist(name))
            fail("openExist failed");
        ll start = 0;
        for (const Words& e : env) {
            ll d = start + num(e[1]) - sim::nowUs();
            if (d > 0)
                sim::sleepUs(d);
            if (e[2] == "post")
                s.release();
            else if (e[2] == "post2") {
                sim::Quiet q;
                s.release();
                s.release();
            }
            else if (e[2] == "take") {
                if (s.wait((int64_t)0) != (num(e[3]) != 0))
                    fail("wait(0) by another process at %s us did not give %s", e[1].c_str(), e[3].c_str());
            }
            else
                sim::interrupt(waiter);
        }
    });
    sim::waitUntil([&]() { return sim::threadDone(waiter) && sim::threadDone(others); }, -1);
    if (left >= 0 && sim::semValue(name) != left)
        fail("%d units are left, expected %lld", sim::semValue(name), left);
}

static bool readCases(const char* f, std::vector<Case>& out) {
    std::ifstream is(f);
    if (!is)
        return false;
    std::string l;
    while (std::getline(is, l)) {
        std::istringstream s(l);
        Words w;
        std::string x;
        while (s >> x)
            w.push_back(x);
        if (w.empty())
            continue;
        if (w[0] == "#case") {
            out.push_back(Case());
            out.back().name = w[1];
        }
        else if (!out.empty())
            out.back().lines.push_back(w);
    }
    return true;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::vector<Case> cases;
    if (argc < 3 || !readCases(argv[1], cases))
        return 2;
    FILE* out = strcmp(argv[2], "-") == 0 ? stdout : fopen(argv[2], "w");
    if (!out)
        return 2;
    size_t cap = 1 << 20;
    sim::Shared* sh = (sim::Shared*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (const Case& c : cases) {
        memset((void*)sh, 0, sizeof *sh);
        memset((void*)R, 0, sizeof *R);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(600);
            struct rlimit rc = {60, 61};
            setrlimit(RLIMIT_CPU, &rc);
            cpu_set_t cs;
            CPU_ZERO(&cs);
            int cpu = sched_getcpu();
            CPU_SET(cpu < 0 ? 0 : cpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            int nul = fileno(fopen("/dev/null", "w"));
            dup2(nul, 1);
            dup2(nul, 2);
            const Words& h = c.lines[0];
            sim::Config cfg;
            cfg.maxSteps = 100000000;
            cfg.strategy = sim::ST_STICKY;
            bool sem = h[0] == "sem";
            if (sem) {
                cfg.seed = (uint64_t)num(h[2]);
                cfg.wallBaseNs = num(h[3]);
                cfg.maxSteps = 200000;
            }
            sim::start(cfg, sh, cap);
            if (sem)
                semCase(c);
            else if (h[0] == "queue")
                queueCase(c);
            else
                _exit(4);
            R->bad = -1;
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
            fprintf(out, "broken %s no end\n", c.name.c_str());
        else if (WIFSIGNALED(st))
            fprintf(out, "bad %s line %d: ended by signal %d\n", c.name.c_str(), R->line, WTERMSIG(st));
        else if (R->bad == 1)
            fprintf(out, "bad %s line %d: %s\n", c.name.c_str(), R->line, R->what);
        else if (R->bad == -1)
            fprintf(out, "ok %s\n", c.name.c_str());
        else if (WEXITSTATUS(st) == 0 && R->bad == 0)
            fprintf(out, "bad %s line %d: does not end (%s)\n", c.name.c_str(), R->line, sh->livelock ? "too many steps" : "nothing can run any more");
        else
            fprintf(out, "broken %s %d %s\n", c.name.c_str(), st, R->what);
    }
    fclose(out);
    return 0;
}
