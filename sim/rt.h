// Deterministic cooperative runtime: every thread of the code under test is a real pthread, but exactly one
// runs at a time, time is virtual, and every synchronisation operation (and, in some runs, every memory access)
// is a scheduling point.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
void failIn(int64_t n);  // the n-th request for a shared object from now on fails
enum Strategy { ST_RANDOM = 0, ST_STICKY = 1, ST_PCT = 2, ST_HOLD = 3 };

struct Config {
    uint64_t seed = 1;
    int strategy = ST_RANDOM;
    double sticky = 0.9;        // ST_STICKY: probability of not switching
    int holdMean = 40;          // ST_HOLD: of so many releases one is followed by a pause of the thread
    int pctDepth = 3;           // ST_PCT: number of priority change points
    int pctSteps = 600;         // ST_PCT: steps over which they are spread
    uint32_t memMean = 0;       // mean number of memory accesses between preemptions, 0 = none
    double stallProb = 0;       // probability per step that the running thread is descheduled for a while
    int64_t stallMaxUs = 0;     // for at most this long (virtual time)
    double spurious = 0;        // probability of a spurious condition variable wake-up (per blocked pick)
    int64_t wallBaseNs = 0;     // sub-second phase of the wall clock at time 0
    int64_t maxSteps = 400000;  // bound on scheduling steps
};

// Shared with the parent process; survives a crash of the child.
struct Shared {
    volatile uint32_t len;       // bytes of trace text
    volatile uint32_t overflow;
    volatile int32_t curThread;  // running thread, its process
    volatile int32_t curProc;
    volatile int32_t curInst;    // instance whose thread / API call is running, if known
    volatile uint32_t steps;
    volatile uint32_t finished;
    volatile uint32_t livelock;
    volatile uint32_t pad[8];
    char text[1];
};

void start(const Config& c, Shared* sh, size_t shCap);  // the calling thread becomes thread 0 of process 0
void finish();                                          // stop scheduling; the calling thread keeps running alone

int spawn(int proc, const std::string& name, std::function<void()> f);
int self();
int selfProc();
int threadProc(int tid);
bool procDead(int proc);
bool threadDone(int tid);
int instThreads(int inst);  // threads created on behalf of the instance that have not ended
int liveThreads(int proc);  // threads of the process that have not ended
void killProc(int proc);
void killProcAfter(int proc, int steps);  // kill after that many further scheduling points of the process
int64_t nowUs();
void wallPhase(int64_t ns);  // the wall clock reads so many nanoseconds past a full second now
void sleepUs(int64_t us);
bool waitUntil(const std::function<bool()>& pred, int64_t deadlineUs);  // deadline < 0: none
void yield();
void interrupt(int tid);  // a signal handler runs in the thread: a semaphore wait it is blocked in returns EINTR
void stopStalls();  // from here on no thread is descheduled for a while

struct Quiet {  // everything inside is invisible to the scheduler and the monitors
    Quiet();
    ~Quiet();
};
struct InInit {  // the calling thread is creating/retiring a channel
    InInit();
    ~InInit();
};
struct InStart {  // the calling thread is creating or starting an instance: nobody else may use it yet
    InStart();
    ~InStart();
};
void passOn();  // what the thread did so far is ordered before whatever follows any wait of an actor
void setInst(int inst);  // the calling thread runs on behalf of this instance (inherited by threads it creates)
int getInst();

void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // one trace event (JSON array)
uint64_t rnd();

// Called (in Quiet mode) after the holder released the lock named <prefix>_rwlock.
extern std::function<void(const std::string& prefix)> onUnlock;
// Names of live shared objects (shm and semaphores) in the simulated system.
std::vector<std::string> names();
int64_t blocks();  // memory blocks the code under test has in use
int openFiles();
int openHandles(int proc);  // semaphore handles + shm mappings of the process still open
int queueObj(const std::string& shmName);  // object number currently known under the name, 0 if none
struct Region {
    uint8_t* addr;
    int64_t size;
};
Region observe(int obj);  // private mapping of the object for the observer
int semValue(const std::string& name);  // -1 if absent
}  // namespace sim
