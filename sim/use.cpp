// use CASES OUT: repeats walks of spec/Usage.tla in one process and records what is in use after every step.
// Case file:  #case NAME REPETITIONS SEED [ONCE]   then one request per line
// Output:     case NAME / per place "u PLACE IDLE blocks handles threads files ..." / end, or "bad NAME line L: what"
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include "message_queue.h"
#include "rt.h"
#include "veigar/veigar.h"

using namespace veigar;
typedef std::string S;
typedef std::vector<S> Words;
struct Case {
    S name;
    int reps;
    uint64_t seed;
    int once;  // so many lines are not repeated
    std::vector<Words> lines;
};
enum { MAXU = 60000 };
struct Report {
    volatile int bad, line, done;
    char what[400];
    int32_t u[MAXU][4];
};
static Report* R;
static int g_line, g_rep;

[[noreturn]] static void say(const char* what) {
    snprintf(R->what, sizeof R->what, "%s (repetition %d)", what, g_rep);
    R->bad = 1;
    R->line = g_line;
    _exit(0);
}

static const int N = 2;
// (nobody is somebody else every time)
static S chan(int j) {
    static int absent = 100000;
    return j == 0 ? "nobody" + std::to_string(++absent) : j > N ? "silent" : "c" + std::to_string(j);
}
static const int CAP = 4, EXP = 900;
static volatile int g_answers;

struct World {
    std::unique_ptr<Veigar> v[N + 1];
    std::unique_ptr<MessageQueue> mute, packed;  // the queues of the owner that takes nothing out; that for replies is full
    S waiting[N + 1];
};

static void drain(MessageQueue& q) {
    char buf[CAP * EXP];
    int64_t n = 0;
    if (!q.processRWLock(1000))
        say("the lock of a queue that nobody serves cannot be had");
    while (q.msgNumber() > 0 && q.popFront(buf, sizeof buf, n)) {
    }
    q.processRWUnlock();
}

// calls that wait for room, and replies that wait for room, when the instance is uninitialised
static void abandon(World& w, int i) {
    Veigar& v = *w.v[i];
    std::vector<std::shared_ptr<AsyncCallResult>> ps;
    int before = g_answers;
    const int n = CAP + 6;
    for (int k = 0; k < n; ++k)
        if (k & 1)
            ps.push_back(v.asyncCall(chan(N + 1), 60000, "f", S("an argument that is longer than a small string")));
        else
            v.asyncCall([](const CallResult&) { ++g_answers; }, chan(N + 1), 60000, "f", S("an argument that is longer than a small string"));
    MessageQueue q(1, 1);
    if (!q.open(chan(i) + VEIGAR_CALL_QUEUE_NAME_SUFFIX))
        say("the queue of an instance cannot be opened");
    veigar_msgpack::sbuffer b;
    veigar_msgpack::packer<veigar_msgpack::sbuffer> p(b);
    p.pack_array(5);
    p.pack(0);
    p.pack(S("an identifier that is longer than a small string"));
    p.pack(chan(N + 1));
    p.pack(S("ok"));
    p.pack_array(1);
    p.pack(S("an argument that is longer than a small string"));
    for (int k = 0; k < 12; ++k) {  // more than there are threads to send replies
        if (!q.processRWLock(1000))
            say("the lock of a queue cannot be had");
        if (q.pushBack(b.data(), (int64_t)b.size()))
            q.notifyRead();
        q.processRWUnlock();
        sim::sleepUs(4000);
    }
    q.close();
    sim::sleepUs(40000);
    v.uninit();
    if (!sim::waitUntil([before] { return g_answers == before + n / 2; }, sim::nowUs() + 5000000))
        say("no result");
    for (size_t k = 0; k < ps.size(); ++k)
        if (!ps[k] || ps[k]->second.wait_for(std::chrono::milliseconds(5000)) != std::future_status::ready)
            say("no result");
}

static void junk(int i, int k) {
    for (int w = 0; w < 2; ++w) {
        MessageQueue q(1, 1);
        if (!q.open(chan(i) + (w ? VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX : VEIGAR_CALL_QUEUE_NAME_SUFFIX)))
            say("a queue of an instance cannot be opened");
        S m;
        if (k == 1)
            m = S("\xc1\x00\xff garbage that is longer than a small string", 42);
        else if (k == 2)  // a list that ends too early
            m = S("\x95\xd9\x20" "abc", 6);
        else {
            veigar_msgpack::sbuffer b;
            veigar_msgpack::packer<veigar_msgpack::sbuffer> p(b);
            if (w == 0 || k == 4) {  // a call of a function that is not there, from somebody who is not there; of the wrong type
                p.pack_array(5);
                p.pack(k == 4 ? 7 : 0);
                p.pack(S("an identifier that is longer than a small string"));
                p.pack(S("nobody"));
                p.pack(S("none"));
                p.pack_array(0);
            }
            else {  // a reply nobody waits for
                p.pack_array(4);
                p.pack(1);
                p.pack(S("an identifier that is longer than a small string"));
                p.pack_nil();
                p.pack(S("a value that is longer than a small string"));
            }
            m.assign(b.data(), b.size());
        }
        if (!q.processRWLock(1000))
            say("the lock of a queue cannot be had");
        if (q.pushBack(m.data(), (int64_t)m.size()))
            q.notifyRead();
        q.processRWUnlock();
        q.close();
    }
}

static void call(World& w, int i, int j, char k, const S& how) {
    Veigar& v = *w.v[i];
    const S fn = how == "err" ? "a function that is not bound" : how == "slow" ? "slow" : how == "throw" ? "throw" : how == "bigret" ? "bigret" : "ok";
    const S arg = how == "big" ? S(CAP * EXP + 1, 'b') : S("an argument that is longer than a small string");
    const uint32_t tmo = j > N || how == "slow" || how == "bigret" ? 120 : 2000;
    const bool alone = j == 0 || (j <= N && !w.v[j]->isInit());
    int before = g_answers, want = 1;
    if (k == 's') {
        CallResult r = how == "bad" ? v.syncCall(chan(j), tmo, fn, 7, arg) : v.syncCall(chan(j), tmo, fn, arg);
        if (alone && r.errCode != ErrorCode::FAILED)
            say("a call to nobody does not fail");
        want = 0;
    }
    else if (k == 'p') {
        std::shared_ptr<AsyncCallResult> r = v.asyncCall(chan(j), tmo, fn, arg);
        if (!r)
            say("no future");
        if (how == "bigret" && r->second.wait_for(std::chrono::milliseconds(60)) != std::future_status::ready)
            v.releaseCall(r->first);
        else if (r->second.wait_for(std::chrono::milliseconds(5000)) != std::future_status::ready)
            say("no result");
        else
            CallResult c = r->second.get();
        want = 0;
    }
    else {
        v.asyncCall([](const CallResult&) { ++g_answers; }, chan(j), tmo, fn, arg);
    }
    if (want && !sim::waitUntil([before] { return g_answers > before; }, sim::nowUs() + 5000000))
        say("no result");
}

static void play(const Case& c) {
    World w;
    for (int i = 1; i <= N; ++i)
        w.v[i].reset(new Veigar);
    w.mute.reset(new MessageQueue(CAP, EXP));
    if (!w.mute->create(chan(N + 1) + VEIGAR_CALL_QUEUE_NAME_SUFFIX))
        say("create");
    w.packed.reset(new MessageQueue(CAP, EXP));
    if (!w.packed->create(chan(N + 1) + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX))
        say("create");
    for (int k = 0; k < CAP; ++k)
        if (!w.packed->processRWLock(1000) || !w.packed->pushBack("full", 5) || (w.packed->processRWUnlock(), false))
            say("push");
    const int handles = sim::openHandles(sim::selfProc()), threads = sim::liveThreads(sim::selfProc());
    int n = 0;
    for (g_rep = 0; g_rep < c.reps; ++g_rep)
        for (size_t l = 0; l < c.lines.size(); ++l) {
            const Words& x = c.lines[l];
            g_line = (int)l + 1;
            R->line = g_line;
            int i = x.size() > 1 ? atoi(x[1].c_str()) : 0;
            if (c.once > (int)l && g_rep > 0) {
                // leads to where the rest goes round
            }
            else if (x[0] == "initfail") {
                sim::failIn(atoi(x[2].c_str()));
                if (w.v[i]->init(chan(i), CAP, EXP))
                    w.v[i]->uninit();  // (fewer things to create than that)
                sim::failIn(-1);
            }
            else if (x[0] == "init") {
                if (!w.v[i]->init(chan(i), CAP, EXP))
                    say("init fails");
            }
            else if (x[0] == "initbad") {
                if (x[2] == "empty" ? w.v[i]->init("", CAP, EXP) : x[2] == "slash" ? w.v[i]->init("a/b", CAP, EXP) : w.v[i]->init(chan(i), 0, EXP))
                    say("an init that must fail succeeds");
            }
            else if (x[0] == "renew") {
                w.v[i].reset();
                w.v[i].reset(new Veigar);
            }
            else if (x[0] == "uninit")
                w.v[i]->uninit();
            else if (x[0] == "abandon")
                abandon(w, i);
            else if (x[0] == "bind") {
                w.v[i]->bind("ok", [](S s) { return s; });
                w.v[i]->bind("throw", [](S s) -> S { throw std::runtime_error(s); });
                w.v[i]->bind("bigret", [](S) { return S(CAP * EXP + 1, 'r'); });
                w.v[i]->bind("slow", [](S s) {
                    sim::sleepUs(200000);
                    return s;
                });
            }
            else if (x[0] == "unbind") {
                w.v[i]->unbind("ok");
                w.v[i]->unbind("throw");
                w.v[i]->unbind("slow");
                w.v[i]->unbind("bigret");
            }
            else if (x[0] == "call")
                call(w, i, atoi(x[2].c_str()), x[3][0], x[4]);
            else if (x[0] == "await") {
                std::shared_ptr<AsyncCallResult> r = w.v[i]->asyncCall(chan(N + 1), 500, "f", S("an argument that is longer than a small string"));
                if (!r)
                    say("no future");
                w.waiting[i] = r->first;
            }
            else if (x[0] == "release") {
                w.v[i]->releaseCall(w.waiting[i]);
                S().swap(w.waiting[i]);
            }
            else if (x[0] == "junk")
                junk(i, atoi(x[2].c_str()));
            else
                say("unknown request");
            sim::sleepUs(x[0] == "call" && x[4] == "slow" ? 300000 : 90000);
            drain(*w.mute);
            if (n < MAXU) {
                R->u[n][0] = (int32_t)sim::blocks();
                R->u[n][1] = sim::openHandles(sim::selfProc()) - handles;
                R->u[n][2] = sim::liveThreads(sim::selfProc()) - threads;
                R->u[n][3] = sim::openFiles();
                ++n;
            }
        }
    for (int i = 1; i <= N; ++i)
        w.v[i]->uninit();
    R->done = n;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        setenv("MALLOC_PERTURB_", "165", 1);
        setenv("MALLOC_ARENA_MAX", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (argc < 3)
        return 2;
    std::vector<Case> cases;
    std::ifstream in(argv[1]);
    S l;
    while (std::getline(in, l)) {
        std::istringstream is(l);
        Words w;
        for (S x; is >> x;)
            w.push_back(x);
        if (w.empty())
            continue;
        if (w[0] == "#case")
            cases.push_back({w[1], atoi(w[2].c_str()), strtoull(w[3].c_str(), nullptr, 10), w.size() > 4 ? atoi(w[4].c_str()) : 0, {}});
        else if (w[0][0] != '#' && !cases.empty())
            cases.back().lines.push_back(w);
    }
    FILE* out = strcmp(argv[2], "-") == 0 ? stdout : fopen(argv[2], "w");
    if (!out)
        return 2;
    size_t cap = 1 << 20;
    sim::Shared* sh = (sim::Shared*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (const Case& c : cases) {
        memset((void*)sh, 0, sizeof *sh);
        R->bad = R->line = R->done = 0;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(600);
            struct rlimit rc = {120, 121};
            setrlimit(RLIMIT_CPU, &rc);
            cpu_set_t cs;
            CPU_ZERO(&cs);
            int cpu = sched_getcpu();
            CPU_SET(cpu < 0 ? 0 : cpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            int nul = fileno(fopen("/dev/null", "w"));
            dup2(nul, 1);
            if (!getenv("USE_DEBUG"))
                dup2(nul, 2);
            sim::Config cfg;
            cfg.seed = c.seed;
            cfg.maxSteps = 100000000;
            cfg.strategy = sim::ST_STICKY;
            sim::start(cfg, sh, cap);
            sim::spawn(1, "u", [&c] {
                play(c);
                R->bad = -1;
                _exit(0);
            });
            while (true)
                sim::sleepUs(1000000);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
            fprintf(out, "broken %s no end\n", c.name.c_str());
        else if (WIFSIGNALED(st))
            fprintf(out, "bad %s line %d: ended by signal %d\n", c.name.c_str(), R->line, WTERMSIG(st));
        else if (R->bad == 1)
            fprintf(out, "bad %s line %d: %s\n", c.name.c_str(), R->line, R->what);
        else if (R->bad == -1) {
            fprintf(out, "use %s\n", c.name.c_str());
            bool up[N + 1] = {};
            for (size_t l = 0; l < c.lines.size(); ++l) {
                if (c.lines[l][0] == "init" || c.lines[l][0] == "uninit" || c.lines[l][0] == "abandon")
                    up[atoi(c.lines[l][1].c_str())] = c.lines[l][0] == "init";
                fprintf(out, "%d", up[1] || up[2] ? 0 : 1);
                for (int p = 0; p < c.reps; ++p) {
                    const int32_t* u = R->u[p * c.lines.size() + l];
                    fprintf(out, " %d %d %d %d", u[0], u[1], u[2], u[3]);
                }
                fprintf(out, "\n");
            }
            fprintf(out, "ok %s\n", c.name.c_str());
        }
        else if (WEXITSTATUS(st) == 0 && R->bad == 0)
            fprintf(out, "bad %s line %d: does not end\n", c.name.c_str(), R->line);
        else
            fprintf(out, "broken %s %d %s\n", c.name.c_str(), st, R->what);
    }
    fclose(out);
    return 0;
}
