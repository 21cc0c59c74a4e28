// Deterministic simulation runtime.  One simulated run = one forked process.  Every simulated
// thread is a real pthread, but exactly one of them (the baton holder) executes at any moment and
// the seeded scheduler decides who is next at every scheduling point.
//
// The engine is compiled with -fsanitize=thread for the instrumentation only; this file is the
// "sanitizer runtime": the __tsan_* entry points below are the scheduling points and the inputs of
// the race and lifetime checker.  pthread, futex, clock, sleep, random device and operator new are
// interposed by symbol precedence (this file is linked into the executable, the engine is a .so).
#include "rt.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <map>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

#define NOINSTR
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define CALLER ((uintptr_t)__builtin_return_address(0))

namespace sim
{
const char *const faultNames[F_COUNT] = {
	"preemption_at_sync_point", "preemption_in_plain_code", "thread_stall",      "spurious_wakeup",
	"wall_clock_jump",          "thread_creation_failure",  "timer_before_runnable_threads",
	"notify_one_reordered",     "slow_callback",            "throwing_callback", "blocked_callback",
	"allocation_failure",       "disk_short_write",         "disk_full",         "disk_open_failure",
	"disk_torn_file",           "engine_crash_restart"
};

namespace
{
constexpr int MAXT = 128;
constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 96ull << 20;
constexpr uintptr_t STKS = 0x110000000000ull;
constexpr size_t STK_SZ = 256 * 1024;
constexpr uintptr_t STKS_SZ = STK_SZ * MAXT;
constexpr uint64_t NEVER = ~0ull;
constexpr uint64_t TICK = 100; // virtual ns per synchronisation step
// Late in a run the clock goes faster: a run that still has runnable threads by then waits, in a
// net without end, for something that takes its time (a long action, a held-back place).
constexpr uint64_t LATE_TICK = 20000;

enum TState : uint8_t
{
	T_NONE,
	T_RUN,
	T_BLOCKED,
	T_IDLEWAIT,
	T_FINISHED
};
enum Kind : uint8_t
{
	K_POINT,
	K_ATOMIC,
	K_LOCK,
	K_UNLOCK,
	K_RDLOCK,
	K_WRLOCK,
	K_RWUNLOCK,
	K_CWAIT,
	K_CSIGNAL,
	K_CREATE,
	K_JOIN,
	K_SLEEP,
	K_YIELD,
	K_FUTEX,
	K_ONCE,
	K_SEM,
	K_EXIT,
	K_PLAIN,
	K_HARNESS,
	K_START
};
const char *const kindNames[] = { "point",    "atomic",  "lock",     "unlock", "rdlock", "wrlock",  "rwunlock",
	                              "condwait", "notify",  "create",   "join",   "sleep",  "yield",   "futex",
	                              "once",     "sem",     "exit",     "plain",  "harness", "start" };

struct VC
{
	uint32_t c[MAXT];
	void join(const VC &o)
	{
		for (int i = 0; i < MAXT; i++)
			c[i] = c[i] > o.c[i] ? c[i] : o.c[i];
	}
};

struct TlsDtor
{
	void (*fn)(void *);
	void *obj;
};

struct Thread
{
	int id;
	uint32_t go;
	TState state;
	bool timed, timedOut, stalled, detached, realtimeDl, harness, signalled, joinedBy;
	Kind waitKind;
	uint64_t key;
	uint64_t deadline;
	void *(*fn)(void *);
	void *arg;
	void *ret;
	pthread_t real;
	int64_t prio;
	uint32_t q; // steps since scheduled
	uint32_t spins; // yields while nobody else could run
	uintptr_t lastPc;
	VC vc, acqPend, relFence;
	char name[48];
	TlsDtor dtors[16];
	int ndtors;
	uintptr_t stack[64];
	int depth;
	uint32_t allocFail;
	bool allocFailFired;
	std::function<void()> *hfn;
};

struct SyncVar
{
	uint64_t key;
	VC vc;
	VC readVc;       // released by readers of an rwlock, for the next writer only
	int16_t owner;   // mutex owner or rwlock writer
	uint16_t count;  // recursion
	int16_t readers;
	int32_t sem;
	uint8_t rd[MAXT];
	uint8_t waiters[MAXT];
	int nw;
};

struct Slot
{
	uint32_t clk;
	uint8_t tid;
	uint8_t mask;
	uint8_t flags; // 1 write 2 atomic 4 free 8 valid
	uint8_t pad;
	uintptr_t pc;
};
struct Granule
{
	Slot s[4];
};

bool g_active = false;
Config C;
Result *R = nullptr;
Thread T[MAXT];
int nT = 0;
int cur = -1;
uint64_t runnable[2];
uint64_t vnow = 0, nextDeadline = NEVER;
int64_t rtOffset = 0;
uint64_t clockBase = 0;
uint64_t rngState, dataState;
bool noFaults = false;
uint64_t pctPoints[16];
int64_t pctLow = -1;
uint64_t plainCountdown = 0;
uint32_t devPos = 0;
uint32_t threadFails = 0;
uint64_t hashv = 0xcbf29ce484222325ull;
uintptr_t soLo = 0, soHi = 0, soTextLo = 0, soTextHi = 0, soDataLo = 0, soDataHi = 0;
thread_local Thread *me __attribute__((tls_model("initial-exec"))) = nullptr;

// memory
uintptr_t arenaCur = ARENA;
uint8_t *memState = nullptr; // per 8 bytes: 0 untouched, 1 live, 2 freed, 3 red zone
Granule *shArena = nullptr, *shStk = nullptr, *shSo = nullptr;
SyncVar *svPool = nullptr;
uint32_t svUsed = 0;
constexpr uint32_t SV_MAX = 1 << 14, SVT = 1 << 15;
struct SvEnt
{
	uint64_t key;
	SyncVar *v;
};
SvEnt *svTab = nullptr;

struct Hdr
{
	uint64_t size;
	uint32_t magic;
	uint32_t engine;
	uintptr_t allocPc;
	uintptr_t freePc;
};
constexpr uint32_t MAGIC = 0x5afe5afe, MAGIC_FREED = 0xdeaddead;

// ---------------------------------------------------------------- utils ----
uint64_t splitmix(uint64_t &s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t rng()
{
	return splitmix(rngState);
}
uint32_t rngn(uint32_t n)
{
	return (uint32_t)((rng() >> 11) % n);
}
long rawSyscall(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall"
	                 : "=a"(ret)
	                 : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
	                 : "rcx", "r11", "memory");
	return ret;
}
uint64_t norm(const void *p)
{
	auto a = (uintptr_t)p;
	if (a - ARENA < ARENA_SZ)
		return a - ARENA;
	if (a - STKS < STKS_SZ)
		return a - STKS + (1ull << 40);
	if (a >= soLo && a < soHi)
		return a - soLo + (2ull << 40);
	// somewhere else: only what address space randomisation leaves alone
	return (a >> 32 ? a & 0xfff : a) | (3ull << 40);
}
uintptr_t normPc(uintptr_t pc)
{
	if (pc >= soLo && pc < soHi)
		return pc - soLo;
	return (pc >> 32 ? pc & 0xfff : pc) | (1ull << 40);
}
void mix(uint64_t v)
{
	hashv = (hashv ^ v) * 0x100000001b3ull;
	hashv ^= hashv >> 29;
}

template <typename F>
F real(const char *name)
{
	return (F)dlsym(RTLD_NEXT, name);
}

void setRun(int t, bool on)
{
	if (on)
		runnable[t >> 6] |= 1ull << (t & 63);
	else
		runnable[t >> 6] &= ~(1ull << (t & 63));
}
int popRun()
{
	return __builtin_popcountll(runnable[0]) + __builtin_popcountll(runnable[1]);
}
// k-th runnable thread in cyclic order starting at thread "from"
int nthRun(int from, int k)
{
	for (int i = 0; i < MAXT; i++)
	{
		int t = from + i;
		if (t >= MAXT)
			t -= MAXT;
		if (runnable[t >> 6] >> (t & 63) & 1)
			if (k-- == 0)
				return t;
	}
	return -1;
}
int rankRun(int from, int who)
{
	int k = 0;
	for (int i = 0; i < MAXT; i++)
	{
		int t = from + i;
		if (t >= MAXT)
			t -= MAXT;
		if (t == who)
			return k;
		if (runnable[t >> 6] >> (t & 63) & 1)
			k++;
	}
	return 0;
}

uintptr_t maps[16][2]; // address and size of the large mappings
int nMaps = 0;

[[noreturn]] void finish(Status st)
{
	R->traceHash = hashv;
	R->vtime = vnow;
	R->threads = (uint32_t)nT;
	__atomic_store_n(&R->status, (uint32_t)st, __ATOMIC_SEQ_CST);
	// give the memory back here: some kernels tear a dead process down later, from a work queue, and that
	// queue grows without bound when runs end faster than it is served
	const uintptr_t sp = (uintptr_t)__builtin_frame_address(0) & ~4095ull;
	for (int i = 0; i < nMaps; i++)
	{
		const uintptr_t lo = maps[i][0], hi = lo + ((maps[i][1] + 4095) & ~4095ull);
		const uintptr_t keepLo = sp - 16384, keepHi = sp + 8192;
		if (keepHi <= lo || keepLo >= hi)
			rawSyscall(SYS_munmap, (long)lo, (long)(hi - lo), 0);
		else
		{
			if (keepLo > lo)
				rawSyscall(SYS_munmap, (long)lo, (long)(keepLo - lo), 0);
			if (keepHi < hi)
				rawSyscall(SYS_munmap, (long)keepHi, (long)(hi - keepHi), 0);
		}
	}
	rawSyscall(SYS_exit_group, 0, 0, 0);
	__builtin_unreachable();
}

int recorded(int n, int def, int strat)
{
	(void)n;
	const uint64_t idx = R->choices++;
	int v;
	if (C.replay)
	{
		while (devPos < C.ndev && C.devIdx[devPos] < idx)
			devPos++;
		if (devPos < C.ndev && C.devIdx[devPos] == idx)
		{
			v = C.devVal[devPos++];
			if (v >= n)
				v = def;
		}
		else
			v = def;
	}
	else
		v = strat;
	if (v != def)
	{
		if (R->ndev < MAXDEV)
		{
			R->devIdx[R->ndev] = (uint32_t)idx;
			R->devVal[R->ndev++] = (uint16_t)v;
		}
		else
			R->devOverflow = 1;
	}
	return v;
}

void appendThreads(char *buf, size_t n);

void futexWait(uint32_t *a, uint32_t v)
{
	rawSyscall(SYS_futex, (long)a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0);
}
void futexWake(uint32_t *a)
{
	rawSyscall(SYS_futex, (long)a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
void waitBaton(Thread *t)
{
	while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
		futexWait(&t->go, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void handOff(int to)
{
	Thread *t = &T[to];
	cur = to;
	t->q = 0;
	R->switches++;
	__atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
	futexWake(&t->go);
}

void recomputeDeadline()
{
	nextDeadline = NEVER;
	for (int i = 0; i < nT; i++)
		if (T[i].state == T_BLOCKED && T[i].deadline < nextDeadline)
			nextDeadline = T[i].deadline;
}
void fireTimers()
{
	if (likely(vnow < nextDeadline))
		return;
	for (int i = 0; i < nT; i++)
	{
		Thread &t = T[i];
		if (t.state == T_BLOCKED && t.deadline <= vnow)
		{
			t.timedOut = true;
			t.state = T_RUN;
			t.deadline = NEVER;
			setRun(i, true);
		}
	}
	recomputeDeadline();
}

void notePair(uintptr_t a, uintptr_t b)
{
	uint64_t h = (normPc(a) * 0x9e3779b97f4a7c15ull) ^ (normPc(b) * 0xc2b2ae3d27d4eb4full);
	h ^= h >> 31;
	h &= MAPBITS - 1;
	R->pairMap[h >> 3] |= (uint8_t)(1u << (h & 7));
}

// strategy decision among n runnable threads when cur is runnable; returns rank in cyclic order
int strategyPick(int n, int def, Kind kind, bool curRunnable)
{
	if (C.replay || noFaults || R->steps > C.fairAfter)
		return def;
	switch (C.strategy)
	{
	default:
		return def;
	case ST_WALK:
	case ST_FAIRWALK:
		if (!curRunnable)
			return (int)rngn((uint32_t)n);
		if (kind == K_YIELD)
			return def;
		if (rngn(C.switchInv) == 0)
			return (int)rngn((uint32_t)n);
		return def == 0 ? 0 : def;
	case ST_DELAY:
		if (!curRunnable)
			return rngn(8) == 0 ? (int)rngn((uint32_t)n) : def;
		for (uint32_t i = 0; i < C.pctDepth; i++)
			if (pctPoints[i] == R->steps)
				return (int)(1 + rngn((uint32_t)n - 1));
		return def;
	case ST_PCT:
	{
		if (curRunnable)
		{
			for (uint32_t i = 0; i < C.pctDepth; i++)
				if (pctPoints[i] == R->steps)
					T[cur].prio = pctLow--;
			if (kind == K_YIELD)
				T[cur].prio = pctLow--;
		}
		int best = -1;
		for (int i = 0; i < nT; i++)
			if ((runnable[i >> 6] >> (i & 63) & 1) && (best < 0 || T[i].prio > T[best].prio))
				best = i;
		return rankRun(cur, best);
	}
	}
}

void traceEvent(Kind k, const void *obj, uintptr_t pc)
{
	Dl_info di;
	const char *fn = "?";
	uintptr_t off = normPc(pc);
	if (dladdr((void *)pc, &di) && di.dli_sname)
		fn = di.dli_sname;
	traceLine("t%d %-8s obj=%llx pc=%llx %s", cur, kindNames[k], (unsigned long long)norm(obj),
	          (unsigned long long)off, fn);
}

[[noreturn]] void livelock()
{
	char buf[4096];
	appendThreads(buf, sizeof buf);
	violation("hang", "livelock: no progress after %llu steps (%llu plain accesses), virtual time %llu ns\n%s",
	          (unsigned long long)R->steps, (unsigned long long)R->plain, (unsigned long long)vnow, buf);
}

// choose and switch when the current thread cannot continue
// returns true if the baton was handed to another thread (the caller must wait for it)
bool switchAway(Thread *t)
{
	for (;;)
	{
		fireTimers();
		int n = popRun();
		if (n == 0)
		{
			bool stalled = false;
			int idle = 0;
			for (int i = 0; i < nT; i++)
			{
				if (T[i].state == T_BLOCKED && T[i].stalled)
					stalled = true;
				if (T[i].state == T_IDLEWAIT)
					idle++;
			}
			if (!stalled && idle)
			{
				for (int i = 0; i < nT; i++)
					if (T[i].state == T_IDLEWAIT)
					{
						T[i].state = T_RUN;
						setRun(i, true);
						break;
					}
				continue;
			}
			if (nextDeadline == NEVER)
			{
				char buf[6000];
				appendThreads(buf, sizeof buf);
				violation("hang", "deadlock: no thread can ever run again\n%s", buf);
			}
			if (!stalled)
				R->idleAdvances++;
			if (nextDeadline > vnow)
				vnow = nextDeadline;
			if (++R->steps > C.maxSteps)
				livelock();
			continue;
		}
		int r = 0;
		if (n > 1)
			r = recorded(n, 0, strategyPick(n, 0, K_POINT, false));
		int to = nthRun(t->id, r);
		mix(0x5000 + (uint64_t)to);
		if (to == t->id)
		{
			t->q = 0;
			return false; // became runnable again (timer)
		}
		notePair(t->lastPc, T[to].lastPc);
		handOff(to);
		return true;
	}
}

// blocks the calling thread; returns true on timeout
bool block(Kind k, uint64_t key, uint64_t deadline, bool realtime = false)
{
	Thread *t = me;
	t->spins = 0;
	t->state = T_BLOCKED;
	t->waitKind = k;
	t->key = key;
	t->deadline = deadline;
	t->realtimeDl = realtime;
	t->timedOut = false;
	setRun(t->id, false);
	if (deadline < nextDeadline)
		nextDeadline = deadline;
	if (switchAway(t))
		waitBaton(t);
	t->key = 0;
	t->waitKind = K_POINT;
	bool to = t->timedOut;
	t->timedOut = false;
	return to;
}
void wakeKey(uint64_t key)
{
	for (int i = 0; i < nT; i++)
	{
		Thread &t = T[i];
		if (t.state == T_BLOCKED && t.key == key && !t.stalled)
		{
			t.state = T_RUN;
			t.deadline = NEVER;
			setRun(i, true);
		}
	}
}
void wakeThread(Thread &t)
{
	if (t.state == T_BLOCKED)
	{
		t.state = T_RUN;
		t.deadline = NEVER;
		setRun(t.id, true);
	}
}

void yieldBaton(Thread *t, int to)
{
	notePair(t->lastPc, T[to].lastPc);
	mix(0x5000 + (uint64_t)to);
	handOff(to);
	waitBaton(t);
}

void syncPoint(Kind kind, const void *obj, uintptr_t pc)
{
	Thread *t = me;
	t->lastPc = pc;
	R->steps++;
	vnow += unlikely(R->steps > C.maxSteps / 4) ? LATE_TICK : TICK;
	mix(((uint64_t)t->id << 56) ^ ((uint64_t)kind << 48) ^ norm(obj));
	if (unlikely(C.trace))
		traceEvent(kind, obj, pc);
	if (unlikely(R->steps > C.maxSteps))
		livelock();
	fireTimers();
	if (!noFaults)
	{
		if (C.stallInv && kind != K_HARNESS)
		{
			int v = recorded(9, 0, (!C.replay && R->steps < C.fairAfter && rngn(C.stallInv) == 0) ? 1 + (int)rngn(8) : 0);
			if (v)
			{
				R->faults[F_STALL]++;
				t->stalled = true;
				block(K_SLEEP, 0, vnow + C.stallMaxNs * (uint64_t)v / 8 + 1);
				t->stalled = false;
			}
		}
		if (C.timeAdvInv && nextDeadline != NEVER)
		{
			int v = recorded(2, 0, (!C.replay && R->steps < C.fairAfter && rngn(C.timeAdvInv) == 0) ? 1 : 0);
			if (v && nextDeadline != NEVER)
			{
				R->faults[F_TIMEADV]++;
				if (vnow < nextDeadline)
					vnow = nextDeadline;
				fireTimers();
			}
		}
		if (C.clockJumpInv)
		{
			int v = recorded(5, 0, (!C.replay && R->steps < C.fairAfter && rngn(C.clockJumpInv) == 0) ? 1 + (int)rngn(4) : 0);
			if (v)
			{
				static const int64_t d[5] = { 0, 3600000000000ll, -3600000000000ll, 1500000000ll, -1500000000ll };
				R->faults[F_CLOCKJUMP]++;
				rtOffset += d[v];
				for (int i = 0; i < nT; i++)
					if (T[i].state == T_BLOCKED && T[i].realtimeDl && T[i].deadline != NEVER)
					{
						int64_t nd = (int64_t)T[i].deadline - d[v];
						T[i].deadline = nd < (int64_t)vnow ? vnow : (uint64_t)nd;
					}
				recomputeDeadline();
				fireTimers();
			}
		}
	}
	int n = popRun();
	t->q++;
	if (n > 1)
	{
		bool turn = t->q > C.quantum;
		if (noFaults || R->steps > C.fairAfter)
		{
			// fair phase: the turn ends at points that no periodic program can stay in step with
			uint64_t z = (R->steps + 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 29)) * 0x94d049bb133111ebull;
			turn |= ((z ^ (z >> 32)) & 127) == 0;
		}
		int def = (kind == K_YIELD || turn) ? 1 : 0;
		int r = recorded(n, def, strategyPick(n, def, kind, true));
		if (r)
		{
			if (r != def)
				R->faults[F_PREEMPT]++;
			yieldBaton(t, nthRun(t->id, r));
		}
		else if (t->q > C.quantum)
			t->q = 0;
	}
	else if (kind == K_YIELD && n == 1 && ++t->spins > 64)
	{
		// nobody else can run: a spinning thread must let time pass
		t->spins = 0;
		if (nextDeadline != NEVER)
		{
			bool stalled = false;
			for (int i = 0; i < nT; i++)
				stalled |= T[i].state == T_BLOCKED && T[i].stalled;
			if (!stalled)
				R->idleAdvances++;
			if (nextDeadline > vnow)
				vnow = nextDeadline;
			fireTimers();
		}
	}
	if (n > 1)
		t->spins = 0;
}

SyncVar *sv(const void *p)
{
	const uint64_t key = (uint64_t)p;
	uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> 49) & (SVT - 1);
	for (;;)
	{
		SvEnt &e = svTab[h];
		if (e.key == key)
			return e.v;
		if (e.key == 0)
		{
			if (svUsed + 1 >= SV_MAX)
				discard("too many synchronisation objects");
			e.key = key;
			e.v = &svPool[svUsed++];
			e.v->key = key;
			e.v->owner = -1;
			return e.v;
		}
		h = (h + 1) & (SVT - 1);
	}
}

// ------------------------------------------------------- memory checker ----
void symbolNote(uintptr_t pc)
{
	for (auto &x : R->pcs)
		if (x == 0)
		{
			x = normPc(pc);
			break;
		}
}

std::string stackText(Thread *t, uintptr_t pc)
{
	char b[64];
	std::string s;
	snprintf(b, sizeof b, "@%llx", (unsigned long long)normPc(pc));
	s += b;
	for (int i = t->depth - 1, n = 0; i >= 0 && n < 6 && i < 64; i--, n++)
	{
		snprintf(b, sizeof b, " @%llx", (unsigned long long)normPc(t->stack[i]));
		s += b;
	}
	return s;
}

Hdr *blockOf(uintptr_t a)
{
	// search backwards for the header's red zone mark
	uintptr_t g = (a - ARENA) >> 3;
	for (; g > 0; g--)
		if (memState[g] == 4) // first granule of header
			return (Hdr *)(ARENA + (g << 3));
	return nullptr;
}

[[noreturn]] void reportMem(const char *what, uintptr_t a, size_t sz, bool w, uintptr_t pc)
{
	std::string blk = "?";
	if (a - ARENA < ARENA_SZ)
	{
		Hdr *h = blockOf(a);
		if (h)
		{
			char b[160];
			snprintf(b, sizeof b, "%llu-byte block offset %lld, allocated at @%llx, freed at @%llx",
			         (unsigned long long)h->size, (long long)(a - (uintptr_t)(h + 1)),
			         (unsigned long long)normPc(h->allocPc), (unsigned long long)(h->freePc ? normPc(h->freePc) : 0));
			blk = b;
		}
	}
	symbolNote(pc);
	violation(what, "%s of %zu bytes by thread t%d (%s) in %s; stack %s", w ? "write" : "read", sz, me->id, me->name,
	          blk.c_str(), stackText(me, pc).c_str());
}

[[noreturn]] void reportRace(uintptr_t a, const Slot &o, size_t sz, uint8_t fl, uintptr_t pc)
{
	symbolNote(pc);
	symbolNote(o.pc);
	auto kind = [](uint8_t f) { return f & 4 ? "free" : f & 2 ? (f & 1 ? "atomic write" : "atomic read") : f & 1 ? "write" : "read"; };
	std::string blk;
	if (a - ARENA < ARENA_SZ)
		if (Hdr *h = blockOf(a))
		{
			char b[128];
			snprintf(b, sizeof b, " (offset %lld in %llu-byte block allocated at @%llx)",
			         (long long)(a - (uintptr_t)(h + 1)), (unsigned long long)h->size,
			         (unsigned long long)normPc(h->allocPc));
			blk = b;
		}
	violation("data-race",
	          "unordered conflicting accesses%s:\n  %s of %zu bytes by t%d (%s) stack %s\n  earlier %s by t%d (%s) at @%llx",
	          blk.c_str(), kind(fl), sz, me->id, me->name, stackText(me, pc).c_str(), kind(o.flags), o.tid, T[o.tid].name,
	          (unsigned long long)normPc(o.pc));
}

Granule *shadow(uintptr_t a)
{
	if (a - ARENA < ARENA_SZ)
		return &shArena[(a - ARENA) >> 3];
	if (a - STKS < STKS_SZ)
		return &shStk[(a - STKS) >> 3];
	if (a >= soDataLo && a < soDataHi)
		return &shSo[(a - soDataLo) >> 3];
	return nullptr;
}

inline void raceOne(uintptr_t a, unsigned sz, uint8_t fl, uintptr_t pc)
{
	Granule *g = shadow(a);
	if (!g)
		return;
	Thread *t = me;
	const uint8_t mask = (uint8_t)(((1u << sz) - 1) << (a & 7));
	int same = -1, empty = -1, old = 0;
	for (int i = 0; i < 4; i++)
	{
		Slot &s = g->s[i];
		if (!(s.flags & 8))
		{
			if (empty < 0)
				empty = i;
			continue;
		}
		if (s.tid == t->id)
		{
			if (s.mask == mask && ((s.flags ^ fl) & 7) == 0)
				same = i;
			else if ((s.mask & ~mask) == 0 && s.clk == t->vc.c[t->id] && (fl & 1) && !(fl & 2))
				same = i; // superseded by a stronger access
			continue;
		}
		const bool ordered = s.clk <= t->vc.c[s.tid];
		if ((s.mask & mask) && ((s.flags | fl) & 1) && !((s.flags & fl) & 2) && !ordered)
			reportRace(a, s, sz, fl, pc);
		if (ordered && (s.mask & ~mask) == 0)
			old = i, empty = empty < 0 ? i : empty; // ordered before us: may be replaced if we are a write
	}
	int k = same >= 0 ? same : empty >= 0 ? empty : (int)((hashv ^ R->plain) & 3);
	(void)old;
	Slot &s = g->s[k];
	s.clk = t->vc.c[t->id];
	s.tid = (uint8_t)t->id;
	s.mask = mask;
	s.flags = (uint8_t)(fl | 8);
	s.pc = pc;
}

inline void memCheck(uintptr_t a, size_t sz, bool w, uintptr_t pc)
{
	if (a - ARENA < ARENA_SZ)
	{
		uint8_t st = memState[(a - ARENA) >> 3];
		if (unlikely(st != 1))
			reportMem(st == 2 ? "use-after-free" : "wild-access", a, sz, w, pc);
		uint8_t st2 = memState[(a + sz - 1 - ARENA) >> 3];
		if (unlikely(st2 != 1))
			reportMem(st2 == 2 ? "use-after-free" : "wild-access", a, sz, w, pc);
	}
	else if (unlikely(a < 4096))
		reportMem("null-access", a, sz, w, pc);
}

void plainPoint(uintptr_t pc)
{
	// a possible preemption in plain code; choices are numbered, deviations recorded
	const uint64_t idx = R->choices;
	bool hit;
	if (C.replay)
		hit = devPos < C.ndev && C.devIdx[devPos] == idx;
	else
	{
		if (plainCountdown == 0)
			plainCountdown = 1 + rng() % (2ull * C.plainInv);
		hit = --plainCountdown == 0;
	}
	if (likely(!hit))
	{
		R->choices++;
		return;
	}
	int n = popRun();
	if (n <= 1 || R->steps > C.fairAfter)
	{
		R->choices++;
		return;
	}
	int r = recorded(n, 0, (int)(1 + rngn((uint32_t)n - 1)));
	if (r)
	{
		R->faults[F_PREEMPT_MEM]++;
		me->lastPc = pc;
		mix(((uint64_t)me->id << 56) ^ ((uint64_t)K_PLAIN << 48) ^ (R->plain));
		if (unlikely(C.trace))
			traceEvent(K_PLAIN, nullptr, pc);
		R->steps++;
		yieldBaton(me, nthRun(me->id, r));
	}
}

inline void access(const void *p, size_t sz, uint8_t fl, uintptr_t pc)
{
	Thread *t = me;
	if (unlikely(!t))
		return;
	if (unlikely(++R->plain > 60000000))
		livelock();
	auto a = (uintptr_t)p;
	if (C.plainInv && !noFaults)
		plainPoint(pc);
	memCheck(a, sz, fl & 1, pc);
	if (C.race)
	{
		while (sz)
		{
			unsigned k = 8 - (unsigned)(a & 7);
			if (k > sz)
				k = (unsigned)sz;
			raceOne(a, k, fl, pc);
			a += k;
			sz -= k;
		}
	}
}
void rangeAccess(const void *p, size_t n, bool w, uintptr_t pc)
{
	if (!me || n == 0)
		return;
	if (n > (1u << 20))
		n = 1u << 20;
	auto a = (uintptr_t)p;
	if (C.plainInv && !noFaults)
		plainPoint(pc);
	for (uintptr_t x = a; x < a + n;)
	{
		unsigned k = 8 - (unsigned)(x & 7);
		if (x + k > a + n)
			k = (unsigned)(a + n - x);
		memCheck(x, k, w, pc);
		if (C.race)
			raceOne(x, k, w ? 1 : 0, pc);
		x += k;
	}
}
// access to a synchronisation object: lifetime check, and race against free / plain writes
inline void syncAccess(const void *p, bool w, uintptr_t pc)
{
	memCheck((uintptr_t)p, 1, w, pc);
	if (C.race)
		raceOne((uintptr_t)p, 1, (uint8_t)(2 | (w ? 1 : 0)), pc);
}

void acquire(SyncVar *s)
{
	if (C.race)
		me->vc.join(s->vc);
}
void release(SyncVar *s)
{
	if (C.race)
	{
		s->vc.join(me->vc);
		me->vc.c[me->id]++;
	}
}

// ------------------------------------------------------------ operator new -
void *arenaAlloc(size_t n, size_t align, uintptr_t pc)
{
	R->allocs++;
	Thread *t = me;
	if (t->allocFail && --t->allocFail == 0)
	{
		t->allocFailFired = true;
		R->faults[F_ALLOCFAIL]++;
		throw std::bad_alloc();
	}
	if (align < 16)
		align = 16;
	uintptr_t p = (arenaCur + 16 + sizeof(Hdr) + align - 1) & ~(align - 1);
	size_t len = (n + 7) & ~size_t(7);
	if (len == 0)
		len = 8;
	if (p + len + 64 > ARENA + ARENA_SZ)
		discard("simulated heap exhausted");
	Hdr *h = (Hdr *)p - 1;
	h->size = n;
	h->magic = MAGIC;
	h->engine = pc >= soTextLo && pc < soTextHi;
	h->allocPc = pc;
	h->freePc = 0;
	memState[((uintptr_t)h - ARENA) >> 3] = 4;
	memset(&memState[((uintptr_t)h - ARENA + 8) >> 3], 3, (sizeof(Hdr) - 8) >> 3);
	memset(&memState[(p - ARENA) >> 3], 1, len >> 3);
	memset((void *)p, 0xCD, len);
	arenaCur = p + len;
	return (void *)p;
}
void arenaFree(void *p, uintptr_t pc)
{
	auto a = (uintptr_t)p;
	Hdr *h = (Hdr *)p - 1;
	if (memState[((uintptr_t)h - ARENA) >> 3] != 4)
		reportMem("bad-free", a, 0, true, pc);
	if (h->magic == MAGIC_FREED)
		reportMem("double-free", a, 0, true, pc);
	if (h->magic != MAGIC)
		reportMem("bad-free", a, 0, true, pc);
	size_t len = (h->size + 7) & ~size_t(7);
	if (len == 0)
		len = 8;
	if (C.race && me)
		for (size_t o = 0; o < len; o += 8)
			raceOne(a + o, 8, 1 | 4, pc);
	h->magic = MAGIC_FREED;
	h->freePc = pc;
	memset(&memState[(a - ARENA) >> 3], 2, len >> 3);
	memset(p, 0xDD, len);
}
void *doNew(size_t n, size_t align, uintptr_t pc)
{
	if (g_active && me)
		return arenaAlloc(n, align, pc);
	void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void doDelete(void *p, uintptr_t pc)
{
	if (!p)
		return;
	if ((uintptr_t)p - ARENA < ARENA_SZ)
		arenaFree(p, pc);
	else
		free(p);
}

// ------------------------------------------------------------- threads -----
void finishThread(Thread *t)
{
	while (t->ndtors > 0)
	{
		TlsDtor d = t->dtors[--t->ndtors];
		d.fn(d.obj);
	}
	syncPoint(K_EXIT, nullptr, 0);
	if (C.race)
		t->vc.c[t->id]++;
	t->state = T_FINISHED;
	setRun(t->id, false);
	wakeKey((7ull << 60) | (uint64_t)t->id);
	wakeKey(7ull << 60 | 0xffff);
	Thread *self = t;
	// pick somebody else; main (t0) never gets here
	me = nullptr;
	switchAway(self);
}

void *tramp(void *p)
{
	Thread *t = (Thread *)p;
	waitBaton(t);
	me = t;
	t->ret = t->fn(t->arg);
	finishThread(t);
	return nullptr;
}

int newThread(void *(*fn)(void *), void *arg, const char *name, bool harness)
{
	if (nT >= MAXT)
		discard("too many simulated threads");
	int id = nT++;
	Thread &t = T[id];
	t.id = id;
	t.fn = fn;
	t.arg = arg;
	t.state = T_RUN;
	t.deadline = NEVER;
	t.harness = harness;
	t.prio = (int64_t)(rng() >> 2) + 1000;
	snprintf(t.name, sizeof t.name, "%s", name);
	if (me)
	{
		t.vc = me->vc;
		me->vc.c[me->id]++;
	}
	t.vc.c[id] = 1;
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, (void *)(STKS + STK_SZ * (size_t)id), STK_SZ);
	pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
	static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
	int e = rc(&t.real, &a, tramp, &t);
	if (e)
	{
		snprintf(R->msg, sizeof R->msg, "real pthread_create failed: %d", e);
		finish(HARNESS_ERROR);
	}
	setRun(id, true);
	return id;
}

Thread *byReal(pthread_t p)
{
	for (int i = 0; i < nT; i++)
		if (T[i].real == p)
			return &T[i];
	return nullptr;
}

const char *blockDesc(Thread &t, char *b, size_t n)
{
	switch (t.state)
	{
	case T_FINISHED:
		return "finished";
	case T_RUN:
		snprintf(b, n, "runnable at @%llx", (unsigned long long)normPc(t.lastPc));
		return b;
	case T_IDLEWAIT:
		return "waiting for idleness";
	default:
		break;
	}
	int owner = -1;
	if (t.waitKind == K_LOCK || t.waitKind == K_WRLOCK || t.waitKind == K_RDLOCK)
		owner = sv((void *)(t.key & ((1ull << 48) - 1)))->owner;
	snprintf(b, n, "blocked in %s obj=%llx%s%d at @%llx%s", kindNames[t.waitKind],
	         (unsigned long long)norm((void *)(t.key & ((1ull << 48) - 1))), owner >= 0 ? " held by t" : " owner ", owner,
	         (unsigned long long)normPc(t.lastPc), t.deadline != NEVER ? " (timed)" : "");
	return b;
}
void appendThreads(char *buf, size_t n)
{
	size_t o = 0;
	for (int i = 0; i < nT && o + 200 < n; i++)
	{
		char b[256];
		if (T[i].state == T_FINISHED && nT > 12)
			continue;
		o += (size_t)snprintf(buf + o, n - o, "  t%d (%s): %s", i, T[i].name, blockDesc(T[i], b, sizeof b));
		if (T[i].state == T_BLOCKED)
			for (int d = T[i].depth - 1, k = 0; d >= 0 && k < 4 && d < 64 && o + 40 < n; d--, k++)
				o += (size_t)snprintf(buf + o, n - o, " @%llx", (unsigned long long)normPc(T[i].stack[d]));
		o += (size_t)snprintf(buf + o, n - o, "\n");
	}
	buf[n - 1] = 0;
}

void onSignal(int sig, siginfo_t *si, void *uc)
{
	auto *u = (ucontext_t *)uc;
	uintptr_t pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
	if (sig == SIGALRM)
	{
		snprintf(R->msg, sizeof R->msg, "simulated run exceeded its real-time limit (t%d pc=%llx steps=%llu plain=%llu)", cur,
		         (unsigned long long)normPc(pc), (unsigned long long)R->steps, (unsigned long long)R->plain);
		snprintf(R->kind, sizeof R->kind, "stuck");
		finish(HARNESS_ERROR);
	}
	Thread *t = me;
	if (!t)
	{
		snprintf(R->msg, sizeof R->msg, "signal %d outside the simulation, pc=%llx addr=%p", sig, (unsigned long long)pc,
		         si->si_addr);
		finish(HARNESS_ERROR);
	}
	symbolNote(pc);
	char b[64] = "";
	if (sig == SIGSEGV || sig == SIGBUS)
		snprintf(b, sizeof b, " at address %p", si->si_addr);
	violation("crash", "signal %d (%s)%s in t%d (%s); stack %s", sig, strsignal(sig), b, t->id, t->name,
	          stackText(t, pc).c_str());
}

void onTerminate()
{
	if (!me || !R)
		_exit(99);
	const char *what = "no exception";
	char b[512] = "";
	if (std::type_info *ti = abi::__cxa_current_exception_type())
	{
		snprintf(b, sizeof b, "%s", ti->name());
		what = b;
		try
		{
			throw;
		}
		catch (const std::exception &e)
		{
			snprintf(b + strlen(b), sizeof b - strlen(b), ": %s", e.what());
		}
		catch (...)
		{
		}
	}
	violation("terminate", "std::terminate called in t%d (%s): %s; stack %s", me->id, me->name, what,
	          stackText(me, me->lastPc).c_str());
}

int phdrCb(dl_phdr_info *info, size_t, void *)
{
	if (!info->dlpi_name || !strstr(info->dlpi_name, "libptnsim"))
		return 0;
	soLo = info->dlpi_addr;
	for (int i = 0; i < info->dlpi_phnum; i++)
	{
		const auto &p = info->dlpi_phdr[i];
		if (p.p_type != PT_LOAD)
			continue;
		uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
		if (hi > soHi)
			soHi = hi;
		if (p.p_flags & PF_X)
			soTextLo = lo, soTextHi = hi;
		if (p.p_flags & PF_W)
			soDataLo = lo & ~7ull, soDataHi = (hi + 7) & ~7ull;
	}
	return 1;
}

void *mapAt(uintptr_t at, size_t n)
{
	void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (p == MAP_FAILED || (at && (uintptr_t)p != at))
	{
		if (R)
		{
			snprintf(R->msg, sizeof R->msg, "mmap failed: %s", strerror(errno));
			finish(HARNESS_ERROR);
		}
		abort();
	}
	if (nMaps < 16)
	{
		maps[nMaps][0] = (uintptr_t)p;
		maps[nMaps++][1] = n;
	}
	return p;
}

const std::function<void()> *g_body;
void *mainEntry(void *)
{
	try
	{
		(*g_body)();
	}
	catch (const std::exception &e)
	{
		violation("escaped-exception", "exception escaped from the scenario: %s", e.what());
	}
	finishOk();
}

} // namespace

// ------------------------------------------------------------- public API --
[[noreturn]] void runChild(const Config &cfg, Result *res, const std::function<void()> &body)
{
	C = cfg;
	R = res;
	rngState = cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	dataState = cfg.seed ^ 0xabcdef;
	uint64_t cb = cfg.seed ^ 0x77777;
	clockBase = 1000000000000ull + (splitmix(cb) % 1000000) * 1000003;
	rtOffset = 1700000000ll * 1000000000ll + (int64_t)(splitmix(cb) % 1000000007) * 1000;
	if (C.switchInv == 0)
		C.switchInv = 1;
	for (uint32_t i = 0; i < 16; i++)
		pctPoints[i] = 1 + rng() % (C.pctLen ? C.pctLen : 1);
	if (C.pctDepth > 16)
		C.pctDepth = 16;
	dl_iterate_phdr(phdrCb, nullptr);
	mapAt(ARENA, ARENA_SZ);
	mapAt(STKS, STKS_SZ);
	memState = (uint8_t *)mapAt(0, ARENA_SZ >> 3);
	shArena = (Granule *)mapAt(0, (ARENA_SZ >> 3) * sizeof(Granule));
	shStk = (Granule *)mapAt(0, (STKS_SZ >> 3) * sizeof(Granule));
	shSo = (Granule *)mapAt(0, ((soDataHi - soDataLo) >> 3) * sizeof(Granule) + 4096);
	svPool = (SyncVar *)mapAt(0, sizeof(SyncVar) * SV_MAX);
	svTab = (SvEnt *)mapAt(0, sizeof(SvEnt) * SVT);
	__libc_single_threaded = 0;
	std::set_terminate(onTerminate);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onSignal;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM })
		sigaction(s, &sa, nullptr);
	signal(SIGXFSZ, SIG_IGN);
	signal(SIGPIPE, SIG_IGN);
	alarm(40);
	g_body = &body;
	g_active = true;
	cur = 0;
	newThread(mainEntry, nullptr, "main", true);
	R->switches = 0;
	__atomic_store_n(&T[0].go, 1, __ATOMIC_RELEASE);
	futexWake(&T[0].go);
	for (;;)
		pause();
}

bool active()
{
	return g_active && me;
}
int tid()
{
	return me ? me->id : -1;
}
uint64_t now()
{
	return vnow;
}
uint64_t steps()
{
	return R->steps;
}
uint64_t idleAdvances()
{
	return R->idleAdvances;
}
uint64_t fault(Fault f)
{
	return R->faults[f];
}
void countFault(Fault f)
{
	R->faults[f]++;
}
void point()
{
	syncPoint(K_HARNESS, nullptr, CALLER);
}
void sleepNs(uint64_t ns)
{
	me->lastPc = CALLER;
	block(K_SLEEP, 0, vnow + (ns ? ns : 1));
}
void waitIdle()
{
	Thread *t = me;
	t->lastPc = CALLER;
	t->state = T_IDLEWAIT;
	setRun(t->id, false);
	if (switchAway(t))
		waitBaton(t);
}
void blockOn(const void *key)
{
	me->lastPc = CALLER;
	block(K_HARNESS, (6ull << 60) | (uint64_t)key, NEVER);
}
void wake(const void *key)
{
	wakeKey((6ull << 60) | (uint64_t)key);
}
void hbRelease(const void *key)
{
	release(sv(key));
}
void hbAcquire(const void *key)
{
	acquire(sv(key));
}
void userAccess(uint32_t cell, bool write, const char *what)
{
	struct Cell
	{
		int writer = -1;
		uint32_t clk = 0;
		const char *by = "";
		std::map<int, uint32_t> readers;
	};
	static auto &cells = *new std::map<uint32_t, Cell>();
	if (!C.race || !me)
		return;
	Cell &x = cells[cell];
	auto check = [&](int t, uint32_t clk, const char *how)
	{
		if (t >= 0 && t != me->id && clk > me->vc.c[t])
			violation("user-data-race", "%s of user data by t%d (%s: %s) is not ordered after the %s by t%d (%s: %s)",
			          write ? "write" : "read", me->id, me->name, what, how, t, T[t].name, x.by);
	};
	check(x.writer, x.clk, "write");
	if (write)
	{
		for (auto &[t, clk] : x.readers)
			check(t, clk, "read");
		x.readers.clear();
		x.writer = me->id;
		x.clk = me->vc.c[me->id];
		x.by = what;
	}
	else
		x.readers[me->id] = me->vc.c[me->id];
}
static void *hEntry(void *p)
{
	auto *t = (Thread *)p;
	try
	{
		(*t->hfn)();
	}
	catch (const std::exception &e)
	{
		violation("escaped-exception", "exception escaped from a client: %s", e.what());
	}
	return nullptr;
}
int spawn(const char *name, std::function<void()> fn)
{
	auto *f = new std::function<void()>(std::move(fn));
	int id = newThread(hEntry, &T[nT], name, true);
	T[id].hfn = f;
	return id;
}
void join(int id)
{
	me->lastPc = CALLER;
	while (T[id].state != T_FINISHED)
		block(K_JOIN, (7ull << 60) | (uint64_t)id, NEVER);
	if (C.race)
		me->vc.join(T[id].vc);
}
void joinAll()
{
	me->lastPc = CALLER;
	for (;;)
	{
		bool any = false;
		for (int i = 0; i < nT; i++)
			if (i != me->id && T[i].state != T_FINISHED)
				any = true;
		if (!any)
			break;
		block(K_JOIN, (7ull << 60) | 0xffff, NEVER);
	}
	if (C.race)
		for (int i = 0; i < nT; i++)
			if (i != me->id)
				me->vc.join(T[i].vc);
}
int liveThreads()
{
	int n = 0;
	for (int i = 0; i < nT; i++)
		if (i != me->id && T[i].state != T_FINISHED)
			n++;
	return n;
}
bool isHarnessThread(int id)
{
	return T[id].harness;
}
void setNoFaults(bool on)
{
	noFaults = on;
}
void allocFailArm(uint32_t n, bool *fired)
{
	if (fired)
		*fired = me->allocFailFired;
	me->allocFail = n;
	if (n || fired)
		me->allocFailFired = false;
}
bool allocFailFired()
{
	return me->allocFailFired;
}
uint64_t rnd()
{
	return splitmix(dataState);
}
void setRandomData(uint64_t s)
{
	dataState = s;
}
const char *describeThreads()
{
	static char b[6000];
	appendThreads(b, sizeof b);
	return b;
}
Result *result()
{
	return R;
}
uintptr_t engineBase()
{
	return soLo;
}

uint64_t leakedBlocks(std::string *what)
{
	// conservative mark phase: roots are the engine's static data, the executable's static data, the
	// caller's stack and every live block the harness allocated
	const uintptr_t gEnd = (arenaCur - ARENA) >> 3;
	size_t known = 0;
	for (uintptr_t g = 0; g < gEnd; g++)
			known += memState[g] == 4 && ((Hdr *)(ARENA + (g << 3)))->magic == MAGIC;
	auto **all = (Hdr **)malloc((known + 1) * sizeof(Hdr *));
	auto *mark = (uint8_t *)calloc(known + 1, 1);
	auto *work = (size_t *)malloc((known + 1) * sizeof(size_t));
	size_t nWork = 0;
	known = 0;
	for (uintptr_t g = 0; g < gEnd; g++)
		if (memState[g] == 4)
		{
			Hdr *h = (Hdr *)(ARENA + (g << 3));
			if (h->magic == MAGIC)
				all[known++] = h;
		}
	auto find = [&](uintptr_t v) -> long
	{
		if (v - ARENA >= ARENA_SZ)
			return -1;
		size_t lo = 0, hi = known;
		while (lo < hi)
		{
			size_t m = (lo + hi) / 2;
			if ((uintptr_t)all[m] <= v)
				lo = m + 1;
			else
				hi = m;
		}
		if (lo == 0)
			return -1;
		Hdr *h = all[lo - 1];
		uintptr_t b = (uintptr_t)(h + 1);
		if (v >= b && v < b + (h->size ? h->size : 1))
			return (long)(lo - 1);
		return -1;
	};
	auto scan = [&](uintptr_t lo, uintptr_t hi)
	{
		for (lo = (lo + 7) & ~7ull; lo + 8 <= hi; lo += 8)
		{
			long k = find(*(uintptr_t *)lo);
			if (k >= 0 && !mark[(size_t)k])
			{
				mark[(size_t)k] = 1;
				work[nWork++] = (size_t)k;
			}
		}
	};
	extern char __data_start asm("__data_start"), _end asm("_end");
	scan(soDataLo, soDataHi);
	scan((uintptr_t)&__data_start, (uintptr_t)&_end);
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	scan(sp, STKS + STK_SZ * (size_t)(me->id + 1));
	for (size_t i = 0; i < known; i++)
		if (!all[i]->engine && !mark[i])
		{
			mark[i] = 1;
			work[nWork++] = i;
		}
	while (nWork)
	{
		size_t i = work[--nWork];
		scan((uintptr_t)(all[i] + 1), (uintptr_t)(all[i] + 1) + all[i]->size);
	}
	uint64_t n = 0;
	for (size_t i = 0; i < known; i++)
		if (!mark[i])
		{
			if (what && n < 6)
			{
				char b[96];
				snprintf(b, sizeof b, " %llu bytes allocated at @%llx;", (unsigned long long)all[i]->size,
				         (unsigned long long)normPc(all[i]->allocPc));
				*what += b;
			}
			n++;
		}
	return n;
}

void traceLine(const char *fmt, ...)
{
	if (!C.trace)
		return;
	char b[1024];
	int n = snprintf(b, sizeof b, "[%8llu %12llu] ", (unsigned long long)R->steps, (unsigned long long)vnow);
	va_list ap;
	va_start(ap, fmt);
	n += vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof b - 2)
		n = sizeof b - 2;
	b[n++] = '\n';
	rawSyscall(SYS_write, 2, (long)b, n);
}

[[noreturn]] void violation(const char *kind, const char *fmt, ...)
{
	static bool once = false;
	if (!once)
	{
		once = true;
		snprintf(R->kind, sizeof R->kind, "%s", kind);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(R->msg, sizeof R->msg, fmt, ap);
		va_end(ap);
	}
	finish(VIOLATION);
}
[[noreturn]] void discard(const char *why)
{
	snprintf(R->kind, sizeof R->kind, "discarded");
	snprintf(R->msg, sizeof R->msg, "%s", why);
	finish(DISCARDED);
}
[[noreturn]] void finishOk()
{
	finish(OK);
}

} // namespace sim

// ===========================================================================
// Interposed symbols
// ===========================================================================
using namespace sim;

void *operator new(size_t n)
{
	return doNew(n, 16, CALLER);
}
void *operator new[](size_t n)
{
	return doNew(n, 16, CALLER);
}
void *operator new(size_t n, std::align_val_t a)
{
	return doNew(n, (size_t)a, CALLER);
}
void *operator new[](size_t n, std::align_val_t a)
{
	return doNew(n, (size_t)a, CALLER);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
	try
	{
		return doNew(n, 16, CALLER);
	}
	catch (...)
	{
		return nullptr;
	}
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept
{
	return operator new(n, t);
}
void operator delete(void *p) noexcept
{
	doDelete(p, CALLER);
}
void operator delete[](void *p) noexcept
{
	doDelete(p, CALLER);
}
void operator delete(void *p, size_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete[](void *p, size_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete(void *p, std::align_val_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept
{
	doDelete(p, CALLER);
}
void operator delete(void *p, const std::nothrow_t &) noexcept
{
	doDelete(p, CALLER);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept
{
	doDelete(p, CALLER);
}

static uint64_t toMono(clockid_t clk, const timespec *ts)
{
	int64_t v = (int64_t)ts->tv_sec;
	if (v > 9000000000ll)
		return NEVER;
	if (v < -9000000000ll)
		v = -9000000000ll;
	v = v * 1000000000ll + ts->tv_nsec;
	int64_t base = (clk == CLOCK_REALTIME ? rtOffset : 0) + (int64_t)clockBase;
	if (clk == CLOCK_REALTIME)
		base = rtOffset;
	v -= base;
	if (v < (int64_t)vnow)
		return vnow;
	return (uint64_t)v;
}

extern "C"
{
	// ------------------------------------------------------------- mutex ---
	static int mutexLock(pthread_mutex_t *m, uint64_t dl, bool rt, uintptr_t pc)
	{
		syncPoint(K_LOCK, m, pc);
		syncAccess(m, true, pc);
		SyncVar *s = sv(m);
		Thread *t = me;
		if (s->owner == t->id)
		{
			int k = m->__data.__kind & 3;
			if (k == PTHREAD_MUTEX_RECURSIVE)
			{
				s->count++;
				return 0;
			}
			if (k == PTHREAD_MUTEX_ERRORCHECK)
				return EDEADLK;
		}
		while (s->owner != -1)
			if (block(K_LOCK, (1ull << 60) | (uint64_t)m, dl, rt))
				if (s->owner != -1)
					return ETIMEDOUT;
		memCheck((uintptr_t)m, 1, true, pc);
		s->owner = (int16_t)t->id;
		s->count = 1;
		acquire(s);
		return 0;
	}
	int pthread_mutex_lock(pthread_mutex_t *m)
	{
		if (!me)
			return 0;
		return mutexLock(m, NEVER, false, CALLER);
	}
	int pthread_mutex_trylock(pthread_mutex_t *m)
	{
		if (!me)
			return 0;
		syncPoint(K_LOCK, m, CALLER);
		syncAccess(m, true, CALLER);
		SyncVar *s = sv(m);
		if (s->owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
		{
			s->count++;
			return 0;
		}
		if (s->owner != -1)
			return EBUSY;
		s->owner = (int16_t)me->id;
		s->count = 1;
		acquire(s);
		return 0;
	}
	int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts)
	{
		if (!me)
			return 0;
		return mutexLock(m, toMono(CLOCK_REALTIME, ts), true, CALLER);
	}
	int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts)
	{
		if (!me)
			return 0;
		return mutexLock(m, toMono(c, ts), c == CLOCK_REALTIME, CALLER);
	}
	static int mutexUnlock(pthread_mutex_t *m, uintptr_t pc)
	{
		SyncVar *s = sv(m);
		if (s->owner != me->id)
		{
			symbolNote(pc);
			violation("bad-unlock", "t%d (%s) unlocks a mutex held by t%d; stack %s", me->id, me->name, s->owner,
			          stackText(me, pc).c_str());
		}
		if (--s->count > 0)
			return 0;
		release(s);
		s->owner = -1;
		wakeKey((1ull << 60) | (uint64_t)m);
		return 0;
	}
	int pthread_mutex_unlock(pthread_mutex_t *m)
	{
		if (!me)
			return 0;
		syncAccess(m, true, CALLER);
		int r = mutexUnlock(m, CALLER);
		syncPoint(K_UNLOCK, m, CALLER);
		return r;
	}
	int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
	{
		memset(m, 0, sizeof *m);
		if (a)
			m->__data.__kind = *(const int *)a & 3;
		if (me)
		{
			SyncVar *s = sv(m);
			s->owner = -1;
			s->count = 0;
		}
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t *m)
	{
		(void)m;
		return 0;
	}

	// ------------------------------------------------------------ rwlock ---
	static int rwLock(pthread_rwlock_t *l, bool wr, bool tryOnly, uint64_t dl, bool rt, uintptr_t pc)
	{
		syncPoint(wr ? K_WRLOCK : K_RDLOCK, l, pc);
		syncAccess(l, true, pc);
		SyncVar *s = sv(l);
		Thread *t = me;
		if (s->owner == t->id)
			return tryOnly ? EBUSY : EDEADLK;
		for (;;)
		{
			bool ok = wr ? (s->owner == -1 && s->readers == 0) : s->owner == -1;
			if (ok)
				break;
			if (tryOnly)
				return EBUSY;
			if (block(wr ? K_WRLOCK : K_RDLOCK, (2ull << 60) | (uint64_t)l, dl, rt))
			{
				ok = wr ? (s->owner == -1 && s->readers == 0) : s->owner == -1;
				if (!ok)
					return ETIMEDOUT;
			}
		}
		memCheck((uintptr_t)l, 1, true, pc);
		if (wr)
			s->owner = (int16_t)t->id;
		else
		{
			s->readers++;
			s->rd[t->id]++;
		}
		acquire(s);
		if (wr && C.race)
			t->vc.join(s->readVc);
		return 0;
	}
	int pthread_rwlock_rdlock(pthread_rwlock_t *l)
	{
		return me ? rwLock(l, false, false, NEVER, false, CALLER) : 0;
	}
	int pthread_rwlock_wrlock(pthread_rwlock_t *l)
	{
		return me ? rwLock(l, true, false, NEVER, false, CALLER) : 0;
	}
	int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
	{
		return me ? rwLock(l, false, true, NEVER, false, CALLER) : 0;
	}
	int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
	{
		return me ? rwLock(l, true, true, NEVER, false, CALLER) : 0;
	}
	int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const timespec *ts)
	{
		return me ? rwLock(l, false, false, toMono(CLOCK_REALTIME, ts), true, CALLER) : 0;
	}
	int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const timespec *ts)
	{
		return me ? rwLock(l, true, false, toMono(CLOCK_REALTIME, ts), true, CALLER) : 0;
	}
	int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts)
	{
		return me ? rwLock(l, false, false, toMono(c, ts), c == CLOCK_REALTIME, CALLER) : 0;
	}
	int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts)
	{
		return me ? rwLock(l, true, false, toMono(c, ts), c == CLOCK_REALTIME, CALLER) : 0;
	}
	int pthread_rwlock_unlock(pthread_rwlock_t *l)
	{
		if (!me)
			return 0;
		syncAccess(l, true, CALLER);
		SyncVar *s = sv(l);
		Thread *t = me;
		if (s->owner == t->id)
		{
			release(s);
			s->owner = -1;
		}
		else if (s->rd[t->id] > 0)
		{
			if (C.race)
			{
				s->readVc.join(t->vc);
				t->vc.c[t->id]++;
			}
			s->rd[t->id]--;
			s->readers--;
		}
		else
			violation("bad-unlock", "t%d (%s) unlocks a shared mutex it does not hold; stack %s", t->id, t->name,
			          stackText(t, CALLER).c_str());
		if (s->owner == -1)
			wakeKey((2ull << 60) | (uint64_t)l);
		syncPoint(K_RWUNLOCK, l, CALLER);
		return 0;
	}
	int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
	{
		memset(l, 0, sizeof *l);
		if (me)
		{
			SyncVar *s = sv(l);
			s->owner = -1;
			s->readers = 0;
			memset(s->rd, 0, sizeof s->rd);
		}
		return 0;
	}
	int pthread_rwlock_destroy(pthread_rwlock_t *)
	{
		return 0;
	}

	// -------------------------------------------------------------- cond ---
	static int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl, bool rt, uintptr_t pc)
	{
		Thread *t = me;
		syncPoint(K_CWAIT, c, pc);
		syncAccess(c, true, pc);
		SyncVar *s = sv(c);
		int ret = 0;
		SyncVar *ms = sv(m);
		if (ms->owner != t->id)
			violation("bad-unlock", "t%d (%s) waits on a condition without holding the mutex; stack %s", t->id, t->name,
			          stackText(t, pc).c_str());
		bool spurious = false;
		if (C.spuriousInv && !noFaults)
			spurious = recorded(2, 0, (!C.replay && rngn(C.spuriousInv) == 0) ? 1 : 0);
		const uint16_t savedCount = ms->count;
		ms->count = 1;
		if (spurious)
		{
			R->faults[F_SPURIOUS]++;
			mutexUnlock(m, pc);
			syncPoint(K_UNLOCK, m, pc);
		}
		else
		{
			t->signalled = false;
			s->waiters[s->nw++] = (uint8_t)t->id;
			mutexUnlock(m, pc);
			while (!t->signalled)
			{
				bool to = block(K_CWAIT, (3ull << 60) | (uint64_t)c, dl, rt);
				if (to && !t->signalled)
				{
					ret = ETIMEDOUT;
					break;
				}
			}
			for (int i = 0; i < s->nw; i++)
				if (s->waiters[i] == t->id)
				{
					memmove(&s->waiters[i], &s->waiters[i + 1], (size_t)(s->nw - i - 1));
					s->nw--;
					break;
				}
		}
		syncPoint(K_LOCK, m, pc);
		while (ms->owner != -1)
			block(K_LOCK, (1ull << 60) | (uint64_t)m, NEVER);
		syncAccess(m, true, pc);
		ms->owner = (int16_t)t->id;
		ms->count = savedCount;
		acquire(ms);
		return ret;
	}
	int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
	{
		if (!me)
			abort();
		return condWait(c, m, NEVER, false, CALLER);
	}
	int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
	{
		if (!me)
			abort();
		return condWait(c, m, toMono(CLOCK_REALTIME, ts), true, CALLER);
	}
	int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const timespec *ts)
	{
		if (!me)
			abort();
		return condWait(c, m, toMono(clk, ts), clk == CLOCK_REALTIME, CALLER);
	}
	int pthread_cond_signal(pthread_cond_t *c)
	{
		if (!me)
			return 0;
		syncPoint(K_CSIGNAL, c, CALLER);
		syncAccess(c, true, CALLER);
		SyncVar *s = sv(c);
		if (s->nw > 0)
		{
			int k = 0;
			if (s->nw > 1)
			{
				k = recorded(s->nw, 0, (!C.replay && !noFaults && rngn(2)) ? (int)rngn((uint32_t)s->nw) : 0);
				if (k)
					R->faults[F_NOTIFY_ORDER]++;
			}
			Thread &w = T[s->waiters[k]];
			memmove(&s->waiters[k], &s->waiters[k + 1], (size_t)(s->nw - k - 1));
			s->nw--;
			w.signalled = true;
			wakeThread(w);
		}
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t *c)
	{
		if (!me)
			return 0;
		syncPoint(K_CSIGNAL, c, CALLER);
		syncAccess(c, true, CALLER);
		SyncVar *s = sv(c);
		for (int i = 0; i < s->nw; i++)
		{
			Thread &w = T[s->waiters[i]];
			w.signalled = true;
			wakeThread(w);
		}
		s->nw = 0;
		return 0;
	}
	int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
	{
		memset(c, 0, sizeof *c);
		if (me)
			sv(c)->nw = 0;
		return 0;
	}
	int pthread_cond_destroy(pthread_cond_t *c)
	{
		if (me)
		{
			syncAccess(c, true, CALLER);
			// POSIX: destroying a condition variable somebody still waits on; glibc blocks until
			// they left
			SyncVar *s = sv(c);
			while (s->nw > 0)
			{
				syncPoint(K_YIELD, c, CALLER);
				if (popRun() <= 1 && nextDeadline == NEVER)
					violation("hang", "condition variable destroyed while t%d still waits on it\n%s", s->waiters[0],
					          describeThreads());
			}
		}
		return 0;
	}

	// --------------------------------------------------------------- sem ---
	int sem_init(sem_t *x, int, unsigned v)
	{
		if (me)
			sv(x)->sem = (int)v;
		return 0;
	}
	int sem_destroy(sem_t *)
	{
		return 0;
	}
	static int semWait(sem_t *x, uint64_t dl, bool rt, bool tryOnly, uintptr_t pc)
	{
		syncPoint(K_SEM, x, pc);
		syncAccess(x, true, pc);
		SyncVar *s = sv(x);
		while (s->sem <= 0)
		{
			if (tryOnly)
			{
				errno = EAGAIN;
				return -1;
			}
			if (block(K_SEM, (5ull << 60) | (uint64_t)x, dl, rt) && s->sem <= 0)
			{
				errno = ETIMEDOUT;
				return -1;
			}
		}
		s->sem--;
		acquire(s);
		return 0;
	}
	int sem_wait(sem_t *x)
	{
		return me ? semWait(x, NEVER, false, false, CALLER) : 0;
	}
	int sem_trywait(sem_t *x)
	{
		return me ? semWait(x, NEVER, false, true, CALLER) : 0;
	}
	int sem_timedwait(sem_t *x, const timespec *ts)
	{
		return me ? semWait(x, toMono(CLOCK_REALTIME, ts), true, false, CALLER) : 0;
	}
	int sem_clockwait(sem_t *x, clockid_t c, const timespec *ts)
	{
		return me ? semWait(x, toMono(c, ts), c == CLOCK_REALTIME, false, CALLER) : 0;
	}
	int sem_post(sem_t *x)
	{
		if (!me)
			return 0;
		syncAccess(x, true, CALLER);
		SyncVar *s = sv(x);
		release(s);
		s->sem++;
		wakeKey((5ull << 60) | (uint64_t)x);
		syncPoint(K_SEM, x, CALLER);
		return 0;
	}

	// ------------------------------------------------------------- threads -
	int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
	{
		if (!me)
			return real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(
			out, attr, fn, arg);
		syncPoint(K_CREATE, nullptr, CALLER);
		if (C.threadFailInv && !noFaults && threadFails < C.threadFailMax && (C.threadFailScope || me->harness))
		{
			if (recorded(2, 0, (!C.replay && rngn(C.threadFailInv) == 0) ? 1 : 0))
			{
				threadFails++;
				R->faults[F_THREADFAIL]++;
				traceLine("t%d pthread_create fails with EAGAIN", me->id);
				return EAGAIN;
			}
		}
		char nm[48];
		snprintf(nm, sizeof nm, "engine thread started by t%d", me->id);
		int id = newThread(fn, arg, nm, false);
		if (attr)
		{
			int ds = 0;
			pthread_attr_getdetachstate(attr, &ds);
			T[id].detached = ds == PTHREAD_CREATE_DETACHED;
		}
		*out = T[id].real;
		syncPoint(K_CREATE, nullptr, CALLER);
		return 0;
	}
	static int doJoin(pthread_t p, void **ret, uint64_t dl, bool rt, uintptr_t pc)
	{
		syncPoint(K_JOIN, nullptr, pc);
		Thread *t = byReal(p);
		if (!t)
			return ESRCH;
		if (t == me)
			return EDEADLK;
		if (t->detached || t->joinedBy)
			return EINVAL;
		while (t->state != T_FINISHED)
			if (block(K_JOIN, (7ull << 60) | (uint64_t)t->id, dl, rt) && t->state != T_FINISHED)
				return ETIMEDOUT;
		t->joinedBy = true;
		if (ret)
			*ret = t->ret;
		if (C.race)
			me->vc.join(t->vc);
		return 0;
	}
	int pthread_join(pthread_t p, void **ret)
	{
		if (!me)
			return real<int (*)(pthread_t, void **)>("pthread_join")(p, ret);
		return doJoin(p, ret, NEVER, false, CALLER);
	}
	int pthread_detach(pthread_t p)
	{
		if (!me)
			return 0;
		syncPoint(K_POINT, nullptr, CALLER);
		Thread *t = byReal(p);
		if (!t)
			return ESRCH;
		if (t->detached)
			return EINVAL;
		t->detached = true;
		return 0;
	}
	int sched_yield()
	{
		if (!me)
			return 0;
		syncPoint(K_YIELD, nullptr, CALLER);
		return 0;
	}

	// --------------------------------------------------------------- time --
	static int simSleep(uint64_t dl, bool rt, uintptr_t pc)
	{
		syncPoint(K_SLEEP, nullptr, pc);
		me->lastPc = pc;
		block(K_SLEEP, 0, dl, rt);
		return 0;
	}
	int nanosleep(const timespec *rq, timespec *rm)
	{
		if (!me)
			return (int)rawSyscall(SYS_nanosleep, (long)rq, (long)rm, 0);
		// rq and rm may be the same object
		return simSleep(vnow + (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec, false, CALLER);
	}
	int clock_nanosleep(clockid_t c, int flags, const timespec *rq, timespec *rm)
	{
		if (!me)
			return (int)-rawSyscall(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm);
		if (flags & TIMER_ABSTIME)
			return simSleep(toMono(c, rq), c == CLOCK_REALTIME, CALLER);
		return simSleep(vnow + (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec, false, CALLER);
	}
	int usleep(useconds_t us)
	{
		if (!me)
		{
			timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
			return (int)rawSyscall(SYS_nanosleep, (long)&ts, 0, 0);
		}
		return simSleep(vnow + us * 1000ull, false, CALLER);
	}
	unsigned sleep(unsigned s)
	{
		if (!me)
		{
			timespec ts = { (time_t)s, 0 };
			rawSyscall(SYS_nanosleep, (long)&ts, 0, 0);
			return 0;
		}
		simSleep(vnow + s * 1000000000ull, false, CALLER);
		return 0;
	}
	int clock_gettime(clockid_t c, timespec *ts)
	{
		if (!me)
			return (int)rawSyscall(SYS_clock_gettime, c, (long)ts, 0);
		vnow += 10;
		uint64_t v;
		if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)
			v = (uint64_t)((int64_t)vnow + rtOffset);
		else
			v = vnow + clockBase;
		ts->tv_sec = (time_t)(v / 1000000000ull);
		ts->tv_nsec = (long)(v % 1000000000ull);
		return 0;
	}
	int gettimeofday(timeval *tv, void *)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
		return 0;
	}
	time_t time(time_t *t)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		if (t)
			*t = ts.tv_sec;
		return ts.tv_sec;
	}

	// -------------------------------------------------------------- futex --
	long syscall(long n, ...)
	{
		va_list ap;
		va_start(ap, n);
		long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
		     f = va_arg(ap, long);
		va_end(ap);
		if (!me || n != SYS_futex)
		{
			long r = rawSyscall(n, a, b, c, d, e, f);
			if (r < 0 && r > -4096)
			{
				errno = (int)-r;
				return -1;
			}
			return r;
		}
		auto *w = (uint32_t *)a;
		int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
		bool rt = (b & FUTEX_CLOCK_REALTIME) != 0;
		uintptr_t pc = CALLER;
		switch (op)
		{
		case FUTEX_WAIT:
		case FUTEX_WAIT_BITSET:
		{
			syncPoint(K_FUTEX, w, pc);
			syncAccess(w, false, pc);
			if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != (uint32_t)c)
			{
				errno = EAGAIN;
				return -1;
			}
			uint64_t dl = NEVER;
			if (d)
			{
				auto *ts = (const timespec *)d;
				if (op == FUTEX_WAIT)
					dl = vnow + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
				else
					dl = toMono(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
			}
			SyncVar *s = sv(w);
			s->waiters[s->nw++] = (uint8_t)me->id;
			me->signalled = false;
			bool to = block(K_FUTEX, (4ull << 60) | (uint64_t)w, dl, rt);
			for (int i = 0; i < s->nw; i++)
				if (s->waiters[i] == me->id)
				{
					memmove(&s->waiters[i], &s->waiters[i + 1], (size_t)(s->nw - i - 1));
					s->nw--;
					break;
				}
			if (to && !me->signalled)
			{
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		case FUTEX_WAKE:
		case FUTEX_WAKE_BITSET:
		{
			SyncVar *s = sv(w);
			int k = 0;
			while (s->nw > 0 && k < (int)c)
			{
				Thread &t = T[s->waiters[0]];
				memmove(&s->waiters[0], &s->waiters[1], (size_t)(s->nw - 1));
				s->nw--;
				t.signalled = true;
				wakeThread(t);
				k++;
			}
			syncPoint(K_FUTEX, w, pc);
			return k;
		}
		default:
			errno = ENOSYS;
			return -1;
		}
	}

	// ----------------------------------------------------- once / guards ---
	int pthread_once(pthread_once_t *o, void (*fn)())
	{
		if (*o == 2)
		{
			if (me)
			{
				syncPoint(K_ONCE, o, CALLER);
				acquire(sv(o));
			}
			return 0;
		}
		if (!me)
		{
			fn();
			*o = 2;
			return 0;
		}
		syncPoint(K_ONCE, o, CALLER);
		while (*o == 1)
			block(K_ONCE, (8ull << 60) | (uint64_t)o, NEVER);
		if (*o == 2)
		{
			acquire(sv(o));
			return 0;
		}
		*o = 1;
		try
		{
			fn();
		}
		catch (...)
		{
			*o = 0;
			wakeKey((8ull << 60) | (uint64_t)o);
			throw;
		}
		*o = 2;
		release(sv(o));
		wakeKey((8ull << 60) | (uint64_t)o);
		return 0;
	}
	int __cxa_guard_acquire(long long *g)
	{
		auto *b = (uint8_t *)g;
		if (b[0])
		{
			if (me)
				acquire(sv(g));
			return 0;
		}
		if (!me)
		{
			b[1] = 1;
			return 1;
		}
		syncPoint(K_ONCE, g, CALLER);
		while (b[1])
			block(K_ONCE, (8ull << 60) | (uint64_t)g, NEVER);
		if (b[0])
		{
			acquire(sv(g));
			return 0;
		}
		b[1] = 1;
		return 1;
	}
	void __cxa_guard_release(long long *g)
	{
		auto *b = (uint8_t *)g;
		b[0] = 1;
		b[1] = 0;
		if (me)
		{
			release(sv(g));
			wakeKey((8ull << 60) | (uint64_t)g);
		}
	}
	void __cxa_guard_abort(long long *g)
	{
		auto *b = (uint8_t *)g;
		b[1] = 0;
		if (me)
			wakeKey((8ull << 60) | (uint64_t)g);
	}
	int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso)
	{
		if (me)
		{
			if (me->ndtors < 16)
				me->dtors[me->ndtors++] = { fn, obj };
			return 0;
		}
		return real<int (*)(void (*)(void *), void *, void *)>("__cxa_thread_atexit_impl")(fn, obj, dso);
	}

	// ------------------------------------------------------------- random --
	void sim_rd_init(void *, const std::string &) __asm__(
	"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
	void sim_rd_init(void *, const std::string &)
	{
	}
	void sim_rd_init2(void *, const char *, size_t) __asm__("_ZNSt13random_device7_M_initEPKcm");
	void sim_rd_init2(void *, const char *, size_t)
	{
	}
	void sim_rd_initp(void *, const std::string &) __asm__(
	"_ZNSt13random_device16_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
	void sim_rd_initp(void *, const std::string &)
	{
	}
	void sim_rd_fini(void *) __asm__("_ZNSt13random_device7_M_finiEv");
	void sim_rd_fini(void *)
	{
	}
	unsigned sim_rd_get(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
	unsigned sim_rd_get(void *)
	{
		R->counters[15]++;
		return (unsigned)rnd();
	}
	unsigned sim_rd_getp(void *) __asm__("_ZNSt13random_device16_M_getval_pretr1Ev");
	unsigned sim_rd_getp(void *)
	{
		return (unsigned)rnd();
	}
	ssize_t getrandom(void *b, size_t n, unsigned f)
	{
		if (!me)
			return rawSyscall(SYS_getrandom, (long)b, (long)n, f);
		for (size_t i = 0; i < n; i++)
			((uint8_t *)b)[i] = (uint8_t)rnd();
		return (ssize_t)n;
	}
	int getentropy(void *b, size_t n)
	{
		return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
	}
	uint32_t arc4random()
	{
		uint32_t v = 0;
		getrandom(&v, sizeof v, 0);
		return v;
	}

	// -------------------------------------------------- tsan entry points ---
	void __tsan_init()
	{
	}
	void __tsan_func_entry(void *pc)
	{
		Thread *t = me;
		if (t)
		{
			if (t->depth < 64)
				t->stack[t->depth] = (uintptr_t)pc;
			t->depth++;
		}
	}
	void __tsan_func_exit()
	{
		Thread *t = me;
		if (t && t->depth > 0)
			t->depth--;
	}
#define RW(n)                                                                                                         \
	void __tsan_read##n(void *p)                                                                                      \
	{                                                                                                                 \
		access(p, n, 0, CALLER);                                                                                      \
	}                                                                                                                 \
	void __tsan_write##n(void *p)                                                                                     \
	{                                                                                                                 \
		access(p, n, 1, CALLER);                                                                                      \
	}                                                                                                                 \
	void __tsan_unaligned_read##n(void *p)                                                                            \
	{                                                                                                                 \
		access(p, n, 0, CALLER);                                                                                      \
	}                                                                                                                 \
	void __tsan_unaligned_write##n(void *p)                                                                           \
	{                                                                                                                 \
		access(p, n, 1, CALLER);                                                                                      \
	}                                                                                                                 \
	void __tsan_volatile_read##n(void *p)                                                                             \
	{                                                                                                                 \
		access(p, n, 0, CALLER);                                                                                      \
	}                                                                                                                 \
	void __tsan_volatile_write##n(void *p)                                                                            \
	{                                                                                                                 \
		access(p, n, 1, CALLER);                                                                                      \
	}
	RW(1)
	RW(2)
	RW(4)
	RW(8)
	RW(16)
	void __tsan_vptr_update(void **p, void *v)
	{
		if (*p != v)
			access(p, 8, 1, CALLER);
		else
			access(p, 8, 0, CALLER);
	}
	void __tsan_vptr_read(void **p)
	{
		access(p, 8, 0, CALLER);
	}
	void __tsan_read_range(void *p, unsigned long n)
	{
		rangeAccess(p, n, false, CALLER);
	}
	void __tsan_write_range(void *p, unsigned long n)
	{
		rangeAccess(p, n, true, CALLER);
	}

	static inline bool isAcq(int mo)
	{
		return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	}
	static inline bool isRel(int mo)
	{
		return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	}
	static void atomicHb(const void *p, size_t sz, bool rd, bool wr, int mo, uintptr_t pc)
	{
		memCheck((uintptr_t)p, sz, wr, pc);
		if (!C.race)
			return;
		auto a = (uintptr_t)p;
		raceOne(a, (unsigned)(sz > 8 ? 8 : sz), (uint8_t)(2 | (wr ? 1 : 0)), pc);
		SyncVar *s = sv(p);
		Thread *t = me;
		if (rd)
		{
			if (isAcq(mo))
				t->vc.join(s->vc);
			else
				t->acqPend.join(s->vc);
		}
		if (wr)
		{
			if (isRel(mo))
			{
				if (rd)
					s->vc.join(t->vc);
				else
					s->vc = t->vc;
				t->vc.c[t->id]++;
			}
			else if (rd)
				s->vc.join(t->relFence);
			else
				s->vc = t->relFence;
		}
	}
#define PRE(rdv, wrv)                                                                                                 \
	if (likely(me != nullptr))                                                                                        \
	{                                                                                                                 \
		if (unlikely(++R->plain > 60000000))                                                                          \
			livelock();                                                                                               \
		syncPoint(K_ATOMIC, (const void *)p, CALLER);                                                                 \
		atomicHb((const void *)p, sizeof *p, rdv, wrv, mo, CALLER);                                                   \
	}
#define AT(bits, TY)                                                                                                  \
	TY __tsan_atomic##bits##_load(const volatile TY *p, int mo)                                                       \
	{                                                                                                                 \
		PRE(true, false) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                 \
	}                                                                                                                 \
	void __tsan_atomic##bits##_store(volatile TY *p, TY v, int mo)                                                    \
	{                                                                                                                 \
		PRE(false, true) __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                    \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_exchange(volatile TY *p, TY v, int mo)                                                   \
	{                                                                                                                 \
		PRE(true, true) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                           \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_add(volatile TY *p, TY v, int mo)                                                  \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                            \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_sub(volatile TY *p, TY v, int mo)                                                  \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                            \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_and(volatile TY *p, TY v, int mo)                                                  \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                            \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_or(volatile TY *p, TY v, int mo)                                                   \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                             \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_xor(volatile TY *p, TY v, int mo)                                                  \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                            \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_fetch_nand(volatile TY *p, TY v, int mo)                                                 \
	{                                                                                                                 \
		PRE(true, true) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                           \
	}                                                                                                                 \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo)                   \
	{                                                                                                                 \
		if (unlikely(!me))                                                                                            \
			return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
		syncPoint(K_ATOMIC, (const void *)p, CALLER);                                                                 \
		memCheck((uintptr_t)p, sizeof *p, true, CALLER);                                                              \
		int ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
		atomicHb((const void *)p, sizeof *p, true, ok, ok ? mo : fmo, CALLER);                                        \
		return ok;                                                                                                    \
	}                                                                                                                 \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo)                     \
	{                                                                                                                 \
		return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);                                       \
	}                                                                                                                 \
	TY __tsan_atomic##bits##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo)                        \
	{                                                                                                                 \
		__tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo);                                             \
		return c;                                                                                                     \
	}
	AT(8, unsigned char)
	AT(16, unsigned short)
	AT(32, unsigned int)
	AT(64, unsigned long)
	void __tsan_atomic_thread_fence(int mo)
	{
		if (!me)
			return;
		syncPoint(K_ATOMIC, nullptr, CALLER);
		if (!C.race)
			return;
		if (isAcq(mo))
			me->vc.join(me->acqPend);
		if (isRel(mo))
		{
			me->relFence = me->vc;
			me->vc.c[me->id]++;
		}
	}
	void __tsan_atomic_signal_fence(int)
	{
	}

	// --wrap'ed in the engine library
	void *__wrap_memcpy(void *d, const void *s, size_t n)
	{
		rangeAccess(s, n, false, CALLER);
		rangeAccess(d, n, true, CALLER);
		return __builtin_memcpy(d, s, n);
	}
	void *__wrap_memmove(void *d, const void *s, size_t n)
	{
		rangeAccess(s, n, false, CALLER);
		rangeAccess(d, n, true, CALLER);
		return __builtin_memmove(d, s, n);
	}
	void *__wrap_memset(void *d, int c, size_t n)
	{
		rangeAccess(d, n, true, CALLER);
		return __builtin_memset(d, c, n);
	}
	int __wrap_memcmp(const void *a, const void *b, size_t n)
	{
		rangeAccess(a, n, false, CALLER);
		rangeAccess(b, n, false, CALLER);
		return __builtin_memcmp(a, b, n);
	}
}
