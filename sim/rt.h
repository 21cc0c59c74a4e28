// Deterministic simulation runtime: scheduler, virtual clock, fault injection,
// memory and race checking.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sim
{

// ---------------------------------------------------------------- faults ---
enum Fault
{
	F_PREEMPT,      // scheduler switched away from a runnable thread
	F_PREEMPT_MEM,  // ... in the middle of plain (non synchronising) code
	F_STALL,        // a thread was frozen for some virtual time
	F_SPURIOUS,     // a condition variable wait returned for no reason
	F_CLOCKJUMP,    // the wall clock jumped
	F_THREADFAIL,   // pthread_create failed with EAGAIN
	F_TIMEADV,      // the clock advanced while threads were runnable
	F_NOTIFY_ORDER, // notify_one woke a waiter other than the first one
	F_SLOWACT,      // a callback took virtual time
	F_THROW,        // a callback threw
	F_GATEACT,      // a callback blocked until released
	F_ALLOCFAIL,    // operator new failed
	F_DISK_SHORT,   // a file was cut at a byte limit while being written
	F_DISK_FULL,    // no space left on device
	F_DISK_OPEN,    // open failed
	F_DISK_TORN,    // a file was read back cut short (crash while writing)
	F_CRASH,        // engine dropped at an arbitrary point, restored from its last export
	F_COUNT
};
extern const char *const faultNames[F_COUNT];

// ------------------------------------------------------------- features ----
enum Strategy
{
	ST_DEFAULT = 0,
	ST_WALK,
	ST_PCT,
	ST_DELAY,
	ST_FAIRWALK
};

struct Config
{
	uint64_t seed = 1;
	int strategy = ST_WALK;
	uint32_t switchInv = 10;      // random walk: switch with probability 1/switchInv
	uint32_t pctDepth = 3;
	uint32_t pctLen = 3000;
	uint32_t plainInv = 0;        // preempt at plain accesses with probability 1/plainInv (0: off)
	uint32_t spuriousInv = 0;     // spurious wake-up probability 1/x at condition waits (0: off)
	uint32_t stallInv = 0;        // stall probability 1/x at synchronisation points (0: off)
	uint64_t stallMaxNs = 0;
	uint32_t timeAdvInv = 0;      // let a timer fire early relative to runnable threads, probability 1/x
	uint32_t clockJumpInv = 0;    // wall clock jump
	uint32_t threadFailInv = 0;   // pthread_create failure probability 1/x
	uint32_t threadFailMax = 0;   // at most so many
	uint32_t threadFailScope = 0; // 0: threads started by client threads only, 1: any
	uint32_t allocFailAt = 0;     // see allocFailArm
	bool race = false;            // report data races
	uint32_t quantum = 400;
	uint64_t fairAfter = 60000;
	uint64_t maxSteps = 400000;
	// replay
	bool replay = false;
	uint32_t ndev = 0;
	const uint32_t *devIdx = nullptr;
	const uint16_t *devVal = nullptr;
	bool trace = false;
};

constexpr uint32_t MAXDEV = 1u << 15;
constexpr uint32_t MAPBITS = 1u << 16;

enum Status : uint32_t
{
	RUNNING = 0,
	OK = 1,
	VIOLATION = 2,
	DISCARDED = 3,
	HARNESS_ERROR = 4
};

struct Result
{
	uint32_t status;
	char kind[96];     // class of the violation, stable under minimisation
	char msg[8192];    // human readable
	uint64_t traceHash, steps, switches, vtime, idleAdvances, plain, choices, allocs;
	uint32_t threads, ndev, devOverflow;
	uint64_t faults[F_COUNT];
	uint32_t devIdx[MAXDEV];
	uint16_t devVal[MAXDEV];
	uint64_t pcs[8];
	uint64_t counters[16]; // harness specific
	uint8_t pairMap[MAPBITS / 8];
	uint64_t nameslen;
	char note[4096];
};

// Runs body as simulated thread 0 in the calling (freshly forked) process; never returns.
[[noreturn]] void runChild(const Config &cfg, Result *res, const std::function<void()> &body);

// ------------------------------------------------- to be used by harness ---
bool active();
int tid();
uint64_t now();              // virtual monotonic nanoseconds since the start of the run
uint64_t steps();
uint64_t idleAdvances();     // how often the clock jumped because nothing could run
uint64_t fault(Fault f);     // count so far
void countFault(Fault f);
void point();                // a scheduling point
void sleepNs(uint64_t ns);
void waitIdle();             // returns once no other thread can run without time passing
void blockOn(const void *key);
void wake(const void *key);
void hbRelease(const void *key); // happens-before edges between harness threads
void hbAcquire(const void *key);
void userAccess(uint32_t cell, bool write, const char *what); // data of the user that the engine's order must protect
int spawn(const char *name, std::function<void()> fn); // returns simulated tid
void join(int tid);
void joinAll();              // every other thread
int liveThreads();           // not finished, without the caller
bool isHarnessThread(int tid);
void setNoFaults(bool on);   // faults stop: fair scheduling, no stalls, no failures
void allocFailArm(uint32_t n, bool *fired = nullptr); // the n-th allocation from now by this thread fails (0: disarm)
bool allocFailFired();
uint64_t rnd();              // scenario independent data (random_device)
void setRandomData(uint64_t seed);
uint64_t leakedBlocks(std::string *what); // engine allocated, live and unreachable from engine statics
const char *describeThreads();
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);
[[noreturn]] void finishOk();
void traceLine(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uintptr_t engineBase();
Result *result();

} // namespace sim
