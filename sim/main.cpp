// Worker: seeded search, gating of violations, minimisation, replay.
#include "gen.h"
#include "profiles.h"
#include "world.h"
#include <fcntl.h>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace
{
sim::Result *R;
using Clock = std::chrono::steady_clock;
double secsSince(Clock::time_point t)
{
	return std::chrono::duration<double>(Clock::now() - t).count();
}
const Profile *find(const std::string &id)
{
	for (auto &p : profiles())
		if (id == p.id)
			return &p;
	return nullptr;
}
uint64_t hashStr(const std::string &s)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (unsigned char c : s)
		h = (h ^ c) * 0x100000001b3ull;
	return h;
}
Scenario makeScenario(const Profile &p, uint64_t seed, uint64_t idx)
{
	Rng r{ seed * 0x9e3779b97f4a7c15ull ^ hashStr(p.id) ^ (idx * 0xd1342543de82ef95ull + 1) };
	r.next();
	Scenario S;
	S.prop = p.id;
	S.dataSeed = r.next();
	p.gen(r, S);
	return S;
}
void clearResult()
{
	// the deviation table is large; only its used part matters
	memset((void *)R, 0, offsetof(sim::Result, devIdx));
	memset((void *)R->pcs, 0, sizeof(sim::Result) - offsetof(sim::Result, pcs));
}
std::vector<pid_t> g_kids;
// one simulated run in a child process
// wait (for a bounded time) while the machine is short of memory
void throttle()
{
	static unsigned n = 0;
	if (++n % 64)
		return;
	for (int i = 0; i < 200; i++)
	{
		char b[512];
		const int fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC);
		if (fd < 0)
			return;
		const ssize_t k = read(fd, b, sizeof b - 1);
		close(fd);
		if (k <= 0)
			return;
		b[k] = 0;
		const char *t = strstr(b, "MemTotal:"), *a = strstr(b, "MemAvailable:");
		if (!t || !a || strtoull(a + 13, nullptr, 10) * 4 > strtoull(t + 9, nullptr, 10))
			return;
		usleep(50000);
	}
}

void runOne(const Profile &p, const Scenario &S, bool trace = false, const std::vector<std::pair<uint32_t, uint16_t>> *devs = nullptr)
{
	clearResult();
	std::vector<uint32_t> di;
	std::vector<uint16_t> dv;
	sim::Config cfg = S.cfg;
	cfg.trace = trace;
	if (devs)
	{
		for (auto &[a, b] : *devs)
		{
			di.push_back(a);
			dv.push_back(b);
		}
		cfg.replay = true;
		cfg.ndev = (uint32_t)di.size();
		cfg.devIdx = di.data();
		cfg.devVal = dv.data();
	}
	fflush(stdout);
	throttle();
	const pid_t pid = fork();
	if (pid < 0)
	{
		perror("fork");
		exit(3);
	}
	if (pid == 0)
	{
		if (!trace)
			signal(SIGINT, SIG_DFL);
		sim::runChild(cfg, R,
		              [&]
		              {
			              sim::setRandomData(S.dataSeed);
			              {
				              World w(S);
				              p.body(w);
			              }
			              sim::finishOk();
		              });
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (R->status == sim::RUNNING)
	{
		R->status = sim::HARNESS_ERROR;
		snprintf(R->msg, sizeof R->msg, "child ended without a result (wait status %x)", st);
	}
}
std::vector<std::pair<uint32_t, uint16_t>> devsOf()
{
	std::vector<std::pair<uint32_t, uint16_t>> v;
	for (uint32_t i = 0; i < R->ndev; i++)
		v.push_back({ R->devIdx[i], R->devVal[i] });
	return v;
}

struct Found
{
	Scenario S;
	std::vector<std::pair<uint32_t, uint16_t>> devs;
	std::string kind, msg;
	uint64_t hash = 0, steps = 0;
	size_t devs0 = 0, ops0 = 0;
};
size_t opCount(const Scenario &S)
{
	size_t n = 0;
	for (auto &c : S.clients)
		n += c.size();
	return n;
}
bool same(const std::string &kind)
{
	return R->status == sim::VIOLATION && kind == R->kind;
}

// Tries a smaller scenario under the original schedule and some fresh ones.
bool stillFails(const Profile &p, Scenario &S, const std::string &kind, std::vector<std::pair<uint32_t, uint16_t>> &devs, int tries,
                Clock::time_point deadline)
{
	runOne(p, S, false, &devs);
	if (same(kind) && !R->devOverflow)
	{
		devs = devsOf();
		return true;
	}
	const auto cfg0 = S.cfg;
	for (int i = 0; i < tries && Clock::now() < deadline; i++)
	{
		S.cfg.seed = cfg0.seed * 31 + (uint64_t)i;
		if (i % 3 == 2)
		{
			S.cfg.strategy = sim::ST_WALK;
			S.cfg.switchInv = i % 2 ? 5 : 20;
		}
		runOne(p, S);
		if (same(kind) && !R->devOverflow)
		{
			devs = devsOf();
			return true;
		}
		S.cfg = cfg0;
	}
	return false;
}

void minimise(const Profile &p, Found &f, double budget)
{
	const auto t0 = Clock::now();
	const auto deadline = t0 + std::chrono::milliseconds((long)(budget * 1000));
	auto tryS = [&](const Scenario &cand)
	{
		if (Clock::now() > deadline)
			return false;
		Scenario c = cand;
		auto d = f.devs;
		if (!stillFails(p, c, f.kind, d, 14, Clock::now() + std::chrono::milliseconds(2500)))
			return false;
		f.S = c;
		f.devs = d;
		return true;
	};
	bool progress = true;
	while (progress && Clock::now() < deadline)
	{
		progress = false;
		for (size_t c = f.S.clients.size(); c-- > 0;)
		{
			if (f.S.prop != "C08" || f.S.clients.size() > 1)
			{
				Scenario s = f.S;
				s.clients.erase(s.clients.begin() + (long)c);
				if (!s.clients.empty() && tryS(s))
				{
					progress = true;
					continue;
				}
			}
			for (size_t chunk = std::max<size_t>(1, f.S.clients[c].size() / 2);; chunk /= 2)
			{
				for (size_t i = 0; c < f.S.clients.size() && i + chunk <= f.S.clients[c].size();)
				{
					Scenario s = f.S;
					s.clients[c].erase(s.clients[c].begin() + (long)i, s.clients[c].begin() + (long)(i + chunk));
					if (tryS(s))
						progress = true;
					else
						i += chunk;
				}
				if (chunk <= 1)
					break;
			}
		}
		for (size_t k = f.S.trans.size(); k-- > 0;)
		{
			if (f.S.prop == "C13")
				break;
			Scenario s = f.S;
			s.trans.erase(s.trans.begin() + (long)k);
			for (auto &c : s.clients)
				for (auto &x : c)
					if (x.code == O_BUILD || x.code == O_REWIRE)
					{
						if (x.a == (long)k)
							x = Op{};
						else if (x.a > (long)k)
							x.a--;
					}
			if (tryS(s))
				progress = true;
		}
		for (size_t i = 0; i < f.S.places.size(); i++)
			for (int e = 0; e < 2; e++)
			{
				auto &A = e ? f.S.places[i].ex : f.S.places[i].en;
				if (!A.on || f.S.prop == "C02")
					continue;
				Scenario s = f.S;
				(e ? s.places[i].ex : s.places[i].en) = ActS{};
				if (tryS(s))
					progress = true;
			}
		for (size_t k = 0; k < f.S.trans.size(); k++)
			for (int which = 0; which < 3; which++)
			{
				auto sel = [&](Scenario &s) -> std::vector<ArcS> & { return which == 0 ? s.trans[k].inh : which == 1 ? s.trans[k].act : s.trans[k].dst; };
				for (size_t i = sel(f.S).size(); i-- > 0;)
				{
					if (which == 2 && sel(f.S)[i].place == f.S.trans[k].counter)
						continue;
					if (sel(f.S)[i].late >= 2 || (which == 1 && sel(f.S).size() <= 1) || f.S.prop == "C13")
						continue;
					Scenario s = f.S;
					sel(s).erase(sel(s).begin() + (long)i);
					if (tryS(s))
						progress = true;
				}
			}
		// fewer kinds of faults
		for (int k = 0; k < 5; k++)
		{
			Scenario s = f.S;
			auto &g = s.cfg;
			uint32_t *x[5] = { &g.plainInv, &g.spuriousInv, &g.stallInv, &g.timeAdvInv, &g.clockJumpInv };
			if (!*x[k])
				continue;
			*x[k] = 0;
			if (tryS(s))
				progress = true;
		}
	}
	// the schedule: remove deviations from the default schedule
	const auto dl2 = Clock::now() + std::chrono::milliseconds((long)(budget * 500));
	for (size_t chunk = std::max<size_t>(1, f.devs.size() / 2); !f.devs.empty() && Clock::now() < dl2; chunk /= 2)
	{
		for (size_t i = 0; i < f.devs.size() && Clock::now() < dl2;)
		{
			auto d = f.devs;
			d.erase(d.begin() + (long)i, d.begin() + (long)std::min(d.size(), i + chunk));
			runOne(p, f.S, false, &d);
			if (same(f.kind))
			{
				auto got = devsOf();
				if (got.size() < f.devs.size())
					f.devs = got;
				else
					i += chunk;
			}
			else
				i += chunk;
		}
		if (chunk <= 1)
			break;
	}
	runOne(p, f.S, false, &f.devs);
	f.msg = R->msg;
	f.hash = R->traceHash;
	f.steps = R->steps;
}

void writeReplay(const std::string &path, const Found &f, uint64_t seed, uint64_t idx)
{
	std::ofstream o(path);
	o << "# replay of a violation of " << f.S.prop << ": " << f.kind << "\n";
	o << "# seed " << seed << " run " << idx << "; minimised from " << f.ops0 << " to " << opCount(f.S) << " client operations and from "
	  << f.devs0 << " to " << f.devs.size() << " schedule deviations\n";
	std::istringstream m(f.msg);
	std::string l;
	while (std::getline(m, l))
		o << "#   " << l << "\n";
	o << toText(f.S) << "end\n";
	o << "kind " << f.kind << "\nhash " << f.hash << "\ndevs " << f.devs.size();
	for (auto &[a, b] : f.devs)
		o << " " << a << ":" << b;
	o << "\n";
}
bool readReplay(const std::string &path, Found &f)
{
	std::ifstream i(path);
	if (!i || !fromText(i, f.S))
		return false;
	std::string k;
	while (i >> k)
	{
		if (k == "kind")
			i >> f.kind;
		else if (k == "hash")
			i >> f.hash;
		else if (k == "devs")
		{
			size_t n = 0;
			i >> n;
			for (size_t j = 0; j < n; j++)
			{
				uint32_t a;
				unsigned b;
				char c;
				i >> a >> c >> b;
				f.devs.push_back({ a, (uint16_t)b });
			}
		}
	}
	return true;
}

std::string json(const std::string &s)
{
	std::string o;
	for (unsigned char c : s)
		if (c == '"' || c == '\\')
			(o += '\\') += (char)c;
		else if (c == '\n')
			o += "\\n";
		else if (c < 32 || c > 126)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += (char)c;
	return o;
}

struct Known
{
	std::string prop, kind, text;
};
std::vector<Known> loadKnown(const std::string &path)
{
	// property<TAB>kind<TAB>substring of the message
	std::vector<Known> v;
	std::ifstream i(path);
	std::string l;
	while (std::getline(i, l))
	{
		auto a = l.find('\t'), b = l.find('\t', a == std::string::npos ? a : a + 1);
		if (a != std::string::npos && b != std::string::npos)
			v.push_back({ l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1) });
	}
	return v;
}
// files written by a run, in memory if possible: waiting for a disk is no part of a simulation
void makeScratch()
{
	for (const char *dir : { "/dev/shm", "/tmp" })
	{
		std::string t = std::string(dir) + "/ptnsim-XXXXXX";
		if (mkdtemp(t.data()))
		{
			g_scratch = t;
			return;
		}
	}
}

int cmdRun(int argc, char **argv)
{
	std::string id = argv[2], out = ".", known;
	uint64_t seed = 1, start = 0, stride = 1, maxRuns = ~0ull;
	double secs = 10, minSecs = 40;
	for (int i = 3; i + 1 < argc; i += 2)
	{
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--seed")
			seed = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--start")
			start = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--stride")
			stride = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--secs")
			secs = atof(v.c_str());
		else if (a == "--runs")
			maxRuns = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--out")
			out = v;
		else if (a == "--known")
			known = v;
		else if (a == "--minimise")
			minSecs = atof(v.c_str());
		else if (a == "--core")
		{
			cpu_set_t all, one;
			CPU_ZERO(&all);
			CPU_ZERO(&one);
			sched_getaffinity(0, sizeof all, &all);
			int want = atoi(v.c_str()), n = 0, cnt = CPU_COUNT(&all);
			for (int c = 0; c < CPU_SETSIZE; c++)
				if (CPU_ISSET(c, &all) && n++ == want % cnt)
					CPU_SET(c, &one);
			sched_setaffinity(0, sizeof one, &one);
		}
	}
	const Profile *p = find(id);
	if (!p)
		return 2;
	const auto kn = loadKnown(known);
	const std::string tag = out + "/" + id + "." + std::to_string(start);
	const std::string stopFlag = out + "/" + id + ".stop";
	makeScratch();
	const auto t0 = Clock::now();
	uint64_t runs = 0, ok = 0, discarded = 0, herr = 0, nontrivial = 0, nondet = 0;
	uint64_t steps = 0, switches = 0, vtime = 0, choices = 0, plain = 0, threads = 0, idle = 0, allocs = 0;
	uint64_t faults[sim::F_COUNT] = {}, runsWith[sim::F_COUNT] = {}, counters[16] = {}, strat[8] = {}, modes[8] = {};
	std::vector<uint8_t> pairs(sim::MAPBITS / 8, 0);
	std::unordered_set<uint64_t> hashes, hashesNt;
	std::map<std::string, uint64_t> knownHits;
	std::string herrMsg;
	std::string samples;
	int nSamples = 0;
	Found f;
	bool found = false;
	uint64_t foundIdx = 0;
	for (uint64_t idx = start; runs < maxRuns && secsSince(t0) < secs; idx += stride)
	{
		if ((runs & 15) == 0 && access(stopFlag.c_str(), F_OK) == 0)
			break;
		Scenario S = makeScenario(*p, seed, idx);
		runOne(*p, S);
		runs++;
		steps += R->steps;
		switches += R->switches;
		vtime += R->vtime / 1000;
		choices += R->choices;
		plain += R->plain;
		threads += R->threads;
		idle += R->idleAdvances;
		allocs += R->allocs;
		strat[S.cfg.strategy & 7]++;
		modes[S.mode & 7]++;
		for (int i = 0; i < sim::F_COUNT; i++)
		{
			faults[i] += R->faults[i];
			runsWith[i] += R->faults[i] != 0;
		}
		for (int i = 0; i < 16; i++)
			counters[i] += R->counters[i];
		for (size_t i = 0; i < pairs.size(); i++)
			pairs[i] |= R->pairMap[i];
		if (R->status == sim::OK)
		{
			ok++;
			if (hashes.size() < 4000000)
				hashes.insert(R->traceHash);
			uint64_t nf = 0;
			for (int i = 0; i < sim::F_COUNT; i++)
				nf += R->faults[i];
			const bool nt = (R->counters[0] + R->counters[2] + R->counters[1] >= 2) && (nf > 0 || R->switches > 10);
			if (nt)
			{
				nontrivial++;
				if (hashesNt.size() < 4000000)
					hashesNt.insert(R->traceHash);
			}
			if (nt && nSamples < 2 && (R->counters[0] + R->counters[2] > 0 || runs > 100))
			{
				nSamples++;
				char b[400];
				snprintf(b, sizeof b,
				         "seed %llu run %llu: mode %d, %zu places, %zu transitions, %zu clients, strategy %d: %llu steps, %llu context switches, %llu "
				         "API calls, %llu firings, %llu actions, %llu condition evaluations, %.3f s simulated",
				         (unsigned long long)seed, (unsigned long long)idx, S.mode, S.places.size(), S.trans.size(), S.clients.size(), S.cfg.strategy,
				         (unsigned long long)R->steps, (unsigned long long)R->switches, (unsigned long long)R->counters[1],
				         (unsigned long long)R->counters[0], (unsigned long long)R->counters[2], (unsigned long long)R->counters[3],
				         (double)R->vtime / 1e9);
				samples += (samples.empty() ? "\"" : ", \"") + json(b) + "\"";
			}
			continue;
		}
		if (R->status == sim::DISCARDED)
		{
			discarded++;
			continue;
		}
		if (R->status != sim::VIOLATION)
		{
			herr++;
			herrMsg = std::string(R->kind) + ": " + R->msg + " at run " + std::to_string(idx);
			continue;
		}
		// gate: the same seed must give the same violation again
		const std::string kind = R->kind, msg = R->msg;
		bool isKnown = false;
		for (auto &k : kn)
			if (k.prop == id && (k.kind == "*" || k.kind == kind) && msg.find(k.text) != std::string::npos)
			{
				knownHits[k.kind + "\t" + k.text]++;
				isKnown = true;
				break;
			}
		if (isKnown)
			continue;
		const uint64_t h = R->traceHash;
		const bool overflow = R->devOverflow;
		auto devs = devsOf();
		runOne(*p, S);
		if (!same(kind) || R->traceHash != h)
		{
			nondet++;
			herrMsg = "run " + std::to_string(idx) + " not repeatable: " + kind + ": " + msg;
			bool again = false;
			for (int i = 0; i < 3 && !again; i++)
			{
				runOne(*p, S);
				again = same(kind);
			}
			if (!again)
				continue;
			devs = devsOf();
		}
		f.S = S;
		f.kind = kind;
		f.msg = msg;
		f.devs = devs;
		f.hash = R->traceHash;
		f.steps = R->steps;
		f.devs0 = devs.size();
		f.ops0 = opCount(S);
		found = true;
		foundIdx = idx;
		if (!overflow)
		{
			// one worker minimises, the others stop
			std::ofstream(stopFlag) << idx << "\n";
			runOne(*p, S, false, &devs);
			if (same(kind))
				minimise(*p, f, minSecs);
			else
				herrMsg = "replay by deviations failed for run " + std::to_string(idx) + ": got " + std::string(R->kind) + ": " + R->msg;
		}
		else
			std::ofstream(stopFlag) << idx << "\n";
		writeReplay(tag + ".replay", f, seed, foundIdx);
		break;
	}
	{
		std::ofstream o(tag + ".pairs", std::ios::binary);
		o.write((const char *)pairs.data(), (long)pairs.size());
		std::ofstream o2(tag + ".hashes", std::ios::binary);
		for (auto x : hashes)
			o2.write((const char *)&x, 8);
		std::ofstream o3(tag + ".hashesnt", std::ios::binary);
		for (auto x : hashesNt)
			o3.write((const char *)&x, 8);
	}
	std::ofstream o(tag + ".json");
	o << "{\"runs\":" << runs << ",\"ok\":" << ok << ",\"nontrivial\":" << nontrivial << ",\"discarded\":" << discarded << ",\"harness_errors\":" << herr
	  << ",\"nondeterministic\":" << nondet << ",\"harness_error\":\"" << json(herrMsg) << "\",\"steps\":" << steps << ",\"switches\":" << switches
	  << ",\"vtime_us\":" << vtime << ",\"choices\":" << choices << ",\"plain_accesses\":" << plain << ",\"threads\":" << threads
	  << ",\"idle_advances\":" << idle << ",\"allocations\":" << allocs << ",\"wall_s\":" << secsSince(t0) << ",\"faults\":{";
	for (int i = 0; i < sim::F_COUNT; i++)
		o << (i ? "," : "") << "\"" << sim::faultNames[i] << "\":[" << faults[i] << "," << runsWith[i] << "]";
	o << "},\"counters\":[";
	for (int i = 0; i < 16; i++)
		o << (i ? "," : "") << counters[i];
	o << "],\"strategies\":[";
	for (int i = 0; i < 5; i++)
		o << (i ? "," : "") << strat[i];
	o << "],\"modes\":[";
	for (int i = 0; i < 4; i++)
		o << (i ? "," : "") << modes[i];
	o << "],\"samples\":[" << samples << "],\"known\":{";
	bool first = true;
	for (auto &[k, n] : knownHits)
	{
		o << (first ? "" : ",") << "\"" << json(k) << "\":" << n;
		first = false;
	}
	o << "}";
	if (found)
		o << ",\"violation\":{\"kind\":\"" << json(f.kind) << "\",\"msg\":\"" << json(f.msg) << "\",\"idx\":" << foundIdx << ",\"replay\":\""
		  << json(tag + ".replay") << "\",\"ops\":[" << f.ops0 << "," << opCount(f.S) << "],\"devs\":[" << f.devs0 << "," << f.devs.size() << "]}";
	o << "}\n";
	std::error_code ec;
	std::filesystem::remove_all(g_scratch, ec);
	return found ? 1 : 0;
}

int cmdReplay(int argc, char **argv)
{
	Found f;
	if (argc < 3 || !readReplay(argv[2], f))
	{
		fprintf(stderr, "cannot read replay file\n");
		return 2;
	}
	const Profile *p = find(f.S.prop);
	if (!p)
		return 2;
	makeScratch();
	const bool trace = argc > 3 && !strcmp(argv[3], "--trace");
	runOne(*p, f.S, trace, &f.devs);
	std::filesystem::remove_all(g_scratch);
	printf("status %u kind %s hash %llu (recorded: %s %llu)\n%s\n", R->status, R->kind, (unsigned long long)R->traceHash, f.kind.c_str(),
	       (unsigned long long)f.hash, R->msg);
	if (R->status == sim::VIOLATION)
		return f.kind == R->kind ? 1 : 4;
	return 0;
}
int cmdOne(int argc, char **argv)
{
	if (argc < 5)
		return 2;
	const Profile *p = find(argv[2]);
	if (!p)
		return 2;
	makeScratch();
	Scenario S = makeScenario(*p, strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10));
	printf("%s", toText(S).c_str());
	fflush(stdout);
	runOne(*p, S, argc > 5);
	std::filesystem::remove_all(g_scratch);
	printf("status %u kind %s hash %llx steps %llu switches %llu devs %u vtime %llu plain %llu\n%s\n", R->status, R->kind,
	       (unsigned long long)R->traceHash, (unsigned long long)R->steps, (unsigned long long)R->switches, R->ndev, (unsigned long long)R->vtime,
	       (unsigned long long)R->plain, R->msg);
	return R->status == sim::VIOLATION;
}
} // namespace

int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	R = (sim::Result *)mmap(nullptr, sizeof(sim::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (R == MAP_FAILED)
		return 3;
	const std::string c = argc > 1 ? argv[1] : "";
	if (c == "run" && argc > 2)
		return cmdRun(argc, argv);
	if (c == "replay")
		return cmdReplay(argc, argv);
	if (c == "one")
		return cmdOne(argc, argv);
	fprintf(stderr, "usage: sim run PROP [--seed N --start I --stride K --secs T --out DIR --known FILE --core C]\n       sim replay FILE [--trace]\n       sim one PROP SEED INDEX [trace]\n");
	return 2;
}
