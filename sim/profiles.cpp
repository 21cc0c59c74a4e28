// One profile per property: how scenarios are generated and what is checked in and after a run.
#include "profiles.h"
#include "checks.h"
#include "gen.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

std::string g_scratch = "/tmp";

namespace
{
enum
{
	MD_S = 0,
	MD_E = 1,
	MD_D = 2,
	MD_J = 3
};

// ------------------------------------------------------------- common flow -
void begin(World &w)
{
	w.create();
	if (w.S.startFirst && w.S.mode != MD_S)
		w.run1(O_START);
}
void joinClients(const std::vector<int> &ids)
{
	for (int i : ids)
		sim::join(i);
}
bool isSingle(World &w)
{
	return w.eng->getActionsThreadOption() == Mode::SINGLE_THREAD;
}
// faults stop, the engine runs until nothing moves any more; then it is stopped
void rest(World &w, bool stop = true, bool log = false)
{
	sim::setNoFaults(true);
	w.openGates();
	if (!isSingle(w) && !w.eng->isEventLoopRunning())
	{
		const size_t i = w.run1(O_START, log);
		if (w.ops[i].ok != 1)
			FAIL("start-refused", "starting the stopped engine failed: %s", w.ops[i].str.c_str());
	}
	if (isSingle(w))
		w.run1(O_START, log);
	w.settle();
	if (stop && !isSingle(w))
	{
		w.run1(O_STOP);
		sim::waitIdle();
	}
}
// the same for a net that never comes to rest
void halt(World &w)
{
	sim::setNoFaults(true);
	w.openGates();
	w.run1(O_STOP);
	sim::waitIdle();
}
void shutdown(World &w)
{
	w.callbacksOff = true;
	w.openGates();
	w.run1(O_DESTROY);
	sim::joinAll();
}
// from here on no action calls the engine any more
void quietCallbacks(World &w, bool spin)
{
	w.callbacksOff = true;
	while (w.inAction)
		if (spin)
			sim::point();
		else
			sim::sleepNs(1000000);
}
int pickMode(Rng &R, int s, int e, int d, int j)
{
	const int x = R.n(s + e + d + j);
	return x < s ? MD_S : x < s + e ? MD_E : x < s + e + d ? MD_D : MD_J;
}
bool async(int mode)
{
	return mode == MD_D || mode == MD_J;
}
// -------------------------------------------------------------------- C01 --
void genC01(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 2, 2, 3);
	NetOpts o;
	o.slowPct = 20;
	o.reqPct = R.p(30) ? 30 : 0;
	o.bigPct = 4;
	o.slowCondPct = 5;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100, 1000 });
	OpW w = { { 50, O_INC }, { 20, O_GET }, { 5, O_PROPS }, { 5, O_PRINT }, { 10, O_COND }, { 6, O_YIELD }, { 4, O_SLEEP } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(30))
	{
		w.push_back({ 10, O_STOP });
		w.push_back({ 14, O_START });
		if (R.p(40))
			w.push_back({ 6, O_SETMODE });
	}
	if (R.p(20))
		w.push_back({ 4, O_SETPER });
	genClients(R, S, 1, 3, 2, 8, w);
	if (R.p(3))
		addCrowd(R, S);
	bool modes = false;
	for (auto &c : S.clients)
		for (auto &x : c)
			modes |= x.code == O_SETMODE;
	if (async(S.mode) && !modes)
		genCallbackOps(R, S, 25, { { 40, O_INC }, { 60, O_GET } });
	if (S.mode != MD_S && R.p(10))
	{
		S.variant = 1;
		addSpin(R, S, S.mode == MD_D ? 0 : 30);
	}
	addBuilding(R, S);
	S.p1 = R.p(20);     // the last start logs
	S.p2 = !S.p1 && R.p(40); // so does the first
	genConfig(R, S);
	if (S.variant == 1)
		spinConfig(S);
}
void bodyC01(World &w)
{
	w.keepLogs = true;
	w.create();
	if (w.S.startFirst && w.S.mode != MD_S)
		w.run1(O_START, w.S.p2);
	joinClients(w.spawnClients());
	if (w.S.variant == 1)
		halt(w);
	else
		rest(w, true, w.S.p1);
	auto m = w.marking();
	checkIncsAccepted(w);
	checkViewsAgree(w, m);
	checkConservation(w, m);
	checkReads(w);
	checkLogs(w, m, w.S.variant != 1);
	for (auto &r : w.ops)
		if (r.op.code == O_GET && r.ok == 1 && r.val >> 60)
			FAIL("read-out-of-bounds", "place %s read as %llu", w.placeName(r.op.a).c_str(), (unsigned long long)r.val);
	shutdown(w);
}

// -------------------------------------------------------------------- C02 --
void genC02(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 2, 5, 1, 1);
	NetOpts o;
	o.actPct = async(S.mode) ? 20 : 100;
	o.counterActPct = async(S.mode) ? 0 : 100;
	o.ownConds = true;
	o.inhibPct = 50;
	o.condTruePct = 65;
	// with a period of an hour nothing but the inputs themselves makes the net go on
	S.periodMs = R.pick<long>({ 10, 50, 100, 3600000 });
	const bool quiet = S.periodMs > 1000;
	o.slowPct = quiet ? 0 : 3;
	o.reqPct = !quiet && R.p(25) ? 40 : 0;
	o.bigPct = 2;
	o.slowCondPct = quiet ? 0 : 6;
	genNet(R, S, o);
	for (auto &p : S.places)
		if (!async(S.mode))
			p.en.on = p.ex.on = 1;
	OpW w = { { 50, O_INC }, { 25, O_COND }, { 8, O_YIELD }, { 4, O_SLEEP }, { 4, O_GET } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(30))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	genClients(R, S, 1, 3, 2, 9, w);
	if (S.mode == MD_S && R.p(25))
	{
		// a place with room for a few tokens only: firings that do not fit must not happen at all
		S.variant = 1;
		std::vector<int> fed;
		for (auto &t : S.trans)
			for (auto &a : t.dst)
				if (a.place != t.counter)
					fed.push_back(a.place);
		for (auto &t : S.trans)
			for (auto &a : t.act)
			{
				// it must not be what a transition lives on, or the net would never come to rest
				bool back = false;
				for (auto &d : t.dst)
					back |= d.place == a.place && d.w == a.w;
				if (!back)
					std::erase(fed, a.place);
			}
		if (!fed.empty())
			S.places[(size_t)R.of(fed)].init = ~0ull - (uint64_t)R.n(4);
	}
	addBuilding(R, S, quiet ? 0 : 8, 15, quiet ? 0 : 6);
	CfgOpts c;
	if (quiet)
		c.stall = c.timeAdv = 0;
	genConfig(R, S, c);
}
void bodyC02(World &w)
{
	begin(w);
	joinClients(w.spawnClients());
	if (w.S.variant == 1)
	{
		for (auto &r : w.ops)
			if (r.ok > 1)
				FAIL("wrong-exception", "%s failed unexpectedly: %s", opNames[r.op.code], r.str.c_str());
		size_t last = 0;
		for (int i = 0; i < 3; i++)
			last = w.run1(O_START);
		sim::setNoFaults(true);
		auto m = w.marking();
		checkConservation(w, m, "partial-firing");
		checkFiringTrace(w);
		bool anyFull = false;
		for (auto &t : w.S.trans)
			if (w.tokenEnabled(t, m) && w.condsTrue(t))
			{
				bool full = false;
				for (auto &a : t.dst)
				{
					uint64_t left = m[(size_t)a.place];
					for (auto &x : t.act)
						left -= x.place == a.place ? x.w : 0;
					full |= left > ~0ull - a.w;
				}
				anyFull |= full;
				if (!full && w.ops[last].ok == 1)
					FAIL("stuck-net", "transition %s can fire but does not; marking: %s", t.name.c_str(), w.markingText(m).c_str());
			}
		if (w.ops[last].ok != 1 && !anyFull)
			FAIL("stuck-net", "no place is too full for a firing, but the net stopped with: %s; marking: %s", w.ops[last].str.c_str(),
			     w.markingText(m).c_str());
		shutdown(w);
		return;
	}
	if (isSingle(w))
	{
		// execute returns when nothing can fire any more
		w.run1(O_START);
		checkRest(w, w.marking());
	}
	else if (w.S.periodMs > 1000)
	{
		w.run1(O_STOP);
		w.run1(O_START);
		sim::waitIdle();
		checkRest(w, w.marking());
		for (int i : inputsOf(w.S))
		{
			w.run1(O_INC, i);
			sim::waitIdle();
			checkRest(w, w.marking());
		}
	}
	rest(w);
	auto m = w.marking();
	checkRest(w, m);
	if (!async(w.S.mode))
		checkFiringTrace(w);
	checkYesCount(w, m);
	checkConservation(w, m, "partial-firing");
	shutdown(w);
}

// -------------------------------------------------------------------- C03 --
void genC03(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 2, 3, 4);
	NetOpts o;
	o.actPct = 70;
	o.counterActPct = 50;
	o.slowPct = 25;
	o.maxDur = R.pick<int>({ 5, 300 });
	o.reqPct = R.p(25) ? 30 : 0;
	o.bigPct = 4;
	o.slowCondPct = 5;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	OpW w = { { 60, O_INC }, { 10, O_COND }, { 10, O_YIELD }, { 6, O_SLEEP } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(30))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	genClients(R, S, 1, 3, 2, 8, w);
	if (R.p(3))
		addCrowd(R, S, 0, true);
	if (R.p(5))
	{
		// a place without room: a refused input must not run the action
		PlaceS p;
		p.name = "Full";
		p.init = ~0ull - (uint64_t)R.n(3);
		p.input = true;
		p.en.on = true;
		p.named = R.p(50);
		Op o;
		o.code = O_INC;
		o.a = (long)S.places.size();
		S.places.push_back(p);
		for (auto &c : S.clients)
			for (int i = R.r(1, 4); i > 0; i--)
				c.insert(c.begin() + R.n((int)c.size() + 1), o);
	}
	if (async(S.mode))
		genCallbackOps(R, S, 20, { { 40, O_INC }, { 60, O_GET } });
	if ((S.mode == MD_E || S.mode == MD_J) && R.p(10))
	{
		S.variant = 1;
		addSpin(R, S, 60);
	}
	addBuilding(R, S);
	genConfig(R, S);
	if (S.variant == 1)
		spinConfig(S);
}
void bodyC03(World &w)
{
	begin(w);
	joinClients(w.spawnClients());
	if (w.S.variant == 1)
		halt(w);
	else
		rest(w);
	auto m = w.marking();
	checkActionCounts(w, m);
	checkConservation(w, m);
	shutdown(w);
}

// -------------------------------------------------------------------- C04 --
void genC04(Rng &R, Scenario &S)
{
	S.mode = MD_J;
	NetOpts o;
	o.actPct = 80;
	o.counterActPct = 60;
	o.slowPct = 25;
	o.maxDur = R.pick<int>({ 3, 200 });
	o.pureInputs = true;
	o.bigPct = 2;
	o.slowCondPct = 5;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	OpW w = { { 70, O_INC }, { 8, O_COND }, { 10, O_YIELD }, { 6, O_SLEEP } };
	if (R.p(20))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	const bool reads = R.p(40);
	genClients(R, S, 1, 3, 2, 8, w);
	if (R.p(3))
		addCrowd(R, S);
	if (reads)
	{
		// look at the places between the inputs
		const auto in = inputsOf(S);
		for (auto &c : S.clients)
			for (size_t i = 1; i < c.size() && c.size() < 16; i++)
				if (c[i].code == O_INC && R.p(60))
				{
					Op o;
					o.code = O_GET;
					o.a = R.p(70) ? c[i - 1].code == O_INC ? c[i - 1].a : R.of(in) : R.r(0, (int)S.places.size() - 1);
					c.insert(c.begin() + (long)i, R.r(1, 3), o);
					i += 3;
				}
	}
	if (R.p(60))
		genCallbackOps(R, S, 30, { { 50, O_INC }, { 50, O_GET } });
	if (R.p(15))
	{
		// the option is set anew; in between to another one if nothing else can happen meanwhile
		auto &c = S.clients[(size_t)R.n((int)S.clients.size())];
		std::vector<Op> v = { { O_STOP }, { O_SETMODE, MD_J }, { O_START } };
		if (S.clients.size() == 1 && S.cbOps.empty() && R.p(60))
			v.insert(v.begin() + 1, { O_SETMODE, R.r(0, 2) });
		if (R.p(20))
			v = { { O_SETMODE, MD_J } };
		c.insert(c.begin() + R.r(0, (int)c.size()), v.begin(), v.end());
	}
	addBuilding(R, S, 0, 15, 0);
	genConfig(R, S);
}
// The sequence of actions started by the queue, without the on-enter actions of input places, must be
// a concatenation of whole firings: exits in arc order are not promised, only exits before entries
// and all of them together, each at a point where the tokens it took had arrived.
void checkBlocks(World &w, const std::vector<uint64_t> &m)
{
	const Scenario &S = w.S;
	std::vector<std::pair<int, bool>> seq;
	std::vector<uint8_t> input(S.places.size());
	for (size_t i = 0; i < S.places.size(); i++)
		input[i] = (uint8_t)S.places[i].input;
	// tokens that inputs can have added by then
	std::vector<std::vector<long>> in;
	std::vector<long> seen(S.places.size(), 0);
	for (size_t i = 0; i < S.places.size(); i++)
		seen[i] = (long)w.base[i] + (S.places[i].en.on ? 0 : w.okIncs[i]);
	for (auto &e : w.ev)
		if (e.type == E_AS)
		{
			if (input[(size_t)e.a] && !e.b)
			{
				seen[(size_t)e.a]++;
				continue;
			}
			seq.push_back({ e.a, (bool)e.b });
			in.push_back(seen);
		}
	in.push_back(seen);
	struct Blk
	{
		std::vector<int> ex, en;
	};
	std::vector<Blk> blks;
	std::vector<long> left;
	for (auto &t : S.trans)
	{
		Blk b;
		for (auto &a : t.act)
			if (S.places[(size_t)a.place].ex.on)
				b.ex.push_back(a.place);
		for (auto &a : t.dst)
			if (S.places[(size_t)a.place].en.on)
				b.en.push_back(a.place);
		std::sort(b.ex.begin(), b.ex.end());
		std::sort(b.en.begin(), b.en.end());
		blks.push_back(b);
		left.push_back((long)w.fires(t, m));
	}
	// firings without any action are invisible and may have happened at any time
	auto affordable = [&](size_t k, const std::vector<long> &given)
	{
		for (auto &a : S.trans[k].act)
		{
			long tok = given[(size_t)a.place];
			for (size_t j = 0; j < S.trans.size(); j++)
			{
				const bool visible = blks[j].ex.size() + blks[j].en.size() > 0;
				const long all = (long)w.fires(S.trans[j], m), n = all - left[j];
				for (auto &d : S.trans[j].dst)
					if (d.place == a.place)
						tok += (long)d.w * (visible ? n : all);
				for (auto &d : S.trans[j].act)
					if (d.place == a.place && visible)
						tok -= (long)d.w * n;
			}
			if (tok < (long)a.w)
				return false;
		}
		return true;
	};
	std::set<std::pair<size_t, std::vector<long>>> dead;
	auto fits = [&](size_t pos, size_t k)
	{
		const auto &b = blks[k];
		const size_t n = b.ex.size() + b.en.size();
		if (left[k] <= 0 || n == 0 || pos + n > seq.size())
			return false;
		std::vector<int> ex, en;
		for (size_t i = 0; i < n; i++)
		{
			if (seq[pos + i].second)
			{
				if (!en.empty())
					return false;
				ex.push_back(seq[pos + i].first);
			}
			else
				en.push_back(seq[pos + i].first);
		}
		std::sort(ex.begin(), ex.end());
		std::sort(en.begin(), en.end());
		return ex == b.ex && en == b.en && affordable(k, in[pos]);
	};
	auto parse = [&]
	{
		// (position, firing to try there); the firings chosen so far are those below the top
		std::vector<std::pair<size_t, size_t>> stack{ { 0, 0 } };
		while (!stack.empty())
		{
			auto &[pos, k] = stack.back();
			if (pos == seq.size())
				return true;
			if (dead.size() > 20000)
				sim::discard("block parse too large");
			if (k == 0 && dead.count({ pos, left }))
				k = blks.size();
			while (k < blks.size() && !fits(pos, k))
				k++;
			if (k < blks.size())
			{
				left[k]--;
				stack.push_back({ pos + blks[k].ex.size() + blks[k].en.size(), 0 });
				continue;
			}
			dead.insert({ pos, left });
			stack.pop_back();
			if (!stack.empty())
				left[stack.back().second++]++;
		}
		return false;
	};
	if (!parse())
	{
		std::string s;
		for (auto &[p, e] : seq)
			s += (e ? " -" : " +") + S.places[(size_t)p].name;
		FAIL("queue-order", "the order in which queued actions ran is not an order in which the tokens moved:%s", s.c_str());
	}
}
void checkOverlap(World &w)
{
	int open = -1;
	for (auto &e : w.ev)
	{
		if (e.type == E_AS)
		{
			if (open >= 0)
				FAIL("queued-actions-overlap", "action of %s started while the action of %s was still running",
				     w.S.places[(size_t)e.a].name.c_str(), w.S.places[(size_t)open].name.c_str());
			open = e.a;
		}
		if (e.type == E_AE)
			open = -1;
	}
}
void checkThreads(World &w)
{
	// which threads evaluate conditions: the net's thread
	std::set<int> net;
	for (auto &e : w.ev)
		if (e.type == E_COND)
			net.insert(e.tid);
	for (auto &e : w.ev)
		if (e.type == E_AS && (sim::isHarnessThread(e.tid) || net.count(e.tid)))
			FAIL("action-in-wrong-thread", "action of %s ran in %s", w.S.places[(size_t)e.a].name.c_str(),
			     sim::isHarnessThread(e.tid) ? "a thread calling the engine" : "the thread that fires transitions");
}
void checkFifoOfInputs(World &w)
{
	// inputs given one after the other: their on-enter actions run in that order
	struct I
	{
		int place;
		uint64_t inv, ret;
	};
	std::vector<I> incs;
	for (auto &r : w.ops)
		if (r.op.code == O_INC && r.ok == 1 && w.S.places[(size_t)r.op.a].en.on)
			incs.push_back({ (int)r.op.a, r.evInv, r.evRet });
	std::vector<int> order; // places of input on-enter actions as run
	for (auto &e : w.ev)
		if (e.type == E_AS && !e.b && w.S.places[(size_t)e.a].input)
			order.push_back(e.a);
	if (order.size() != incs.size())
		return;
	bool one = true;
	for (size_t i = 1; i < incs.size(); i++)
		one &= incs[i - 1].ret && incs[i - 1].ret < incs[i].inv;
	if (one)
		for (size_t i = 0; i < incs.size(); i++)
			if (incs[i].place != order[i])
				FAIL("queue-order", "the action that ran as number %zu is that of %s, the input was into %s", i + 1,
				     w.S.places[(size_t)order[i]].name.c_str(), w.S.places[(size_t)incs[i].place].name.c_str());
	if (one || incs.size() > 24)
		return;
	// is order a linear extension of the real-time order of the calls?
	std::set<uint32_t> seen;
	std::function<bool(size_t, uint32_t)> go = [&](size_t pos, uint32_t mask) -> bool
	{
		if (pos == order.size())
			return true;
		if (!seen.insert(mask).second)
			return false;
		uint64_t minRet = ~0ull;
		for (size_t i = 0; i < incs.size(); i++)
			if (!(mask >> i & 1))
				minRet = std::min(minRet, incs[i].ret);
		for (size_t i = 0; i < incs.size(); i++)
			if (!(mask >> i & 1) && incs[i].place == order[pos] && incs[i].inv <= minRet && go(pos + 1, mask | 1u << i))
				return true;
		return false;
	};
	if (!go(0, 0))
	{
		std::string s;
		for (int p : order)
			s += " " + w.S.places[(size_t)p].name;
		FAIL("queue-order", "input actions ran in the order%s, which is not the order of the input calls", s.c_str());
	}
}
// A client that has seen the effect of a movement of tokens and adds an input afterwards must find the
// action of that movement ahead of the action of its input.
void checkOrderByReads(World &w)
{
	const Scenario &S = w.S;
	const size_t n = S.places.size();
	std::vector<uint64_t> inW(n, 1), outW(n, 0);
	std::vector<uint8_t> fed(n);
	for (auto &t : S.trans)
	{
		for (auto &a : t.act)
			outW[(size_t)a.place] = std::max(outW[(size_t)a.place], a.w);
		for (auto &a : t.dst)
		{
			inW[(size_t)a.place] = std::max(inW[(size_t)a.place], a.w);
			fed[(size_t)a.place] = 1;
		}
	}
	for (auto &g : w.ops)
	{
		if (g.op.code != O_GET || g.ok != 1 || !g.evRet || g.op.a < 0 || g.op.a >= (long)n)
			continue;
		const auto x = (size_t)g.op.a;
		uint64_t in = w.base[x];
		for (auto &r : w.ops)
			if (r.op.code == O_INC && r.op.a == (long)x && r.ok == 1 && r.evRet && r.evRet < g.evInv)
				in++;
		uint64_t need[2] = { 0, 0 }; // on-enter, on-exit actions queued by then
		if (S.places[x].en.on && g.val > w.base[x])
			need[0] = (g.val - w.base[x] + inW[x] - 1) / inW[x];
		if (S.places[x].ex.on && in > g.val && outW[x])
			need[1] = (in - g.val + outW[x] - 1) / outW[x];
		if (!need[0] && !need[1])
			continue;
		for (size_t p = 0; p < n; p++)
		{
			if (!S.places[p].input || !S.places[p].en.on || fed[p])
				continue;
			uint64_t before = 0, seen = 0, had[2] = { 0, 0 };
			for (auto &r : w.ops)
				if (r.op.code == O_INC && r.op.a == (long)p && r.evInv < g.evRet)
					before++;
			for (auto &e : w.ev)
			{
				if (e.type != E_AS)
					continue;
				if ((size_t)e.a == x)
					had[e.b ? 1 : 0]++;
				if ((size_t)e.a != p || e.b || ++seen <= before)
					continue;
				for (int k = 0; k < 2; k++)
					if (had[k] < need[k])
						FAIL("queue-order", "place %s was read as %llu, so %llu on-%s actions of it were due; the action of an input into %s made "
						     "afterwards ran after only %llu of them", S.places[x].name.c_str(), (unsigned long long)g.val,
						     (unsigned long long)need[k], k ? "exit" : "enter", S.places[p].name.c_str(), (unsigned long long)had[k]);
				break;
			}
		}
	}
}
void bodyC04(World &w)
{
	begin(w);
	joinClients(w.spawnClients());
	rest(w);
	auto m = w.marking();
	checkOverlap(w);
	checkThreads(w);
	checkFifoOfInputs(w);
	checkOrderByReads(w);
	checkBlocks(w, m);
	checkConservation(w, m);
	shutdown(w);
}

// -------------------------------------------------------------------- C05 --
void genC05(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 2, 4, 4);
	NetOpts o;
	o.actPct = 80;
	o.counterActPct = 40;
	o.condPct = 60;
	o.condTruePct = 95;
	o.bigPct = 4;
	genNet(R, S, o);
	S.periodMs = 3600000;
	if (async(S.mode))
	{
		std::vector<ActS *> a;
		for (auto &p : S.places)
			for (auto *x : { &p.en, &p.ex })
				if (x->on)
					a.push_back(x);
		const int n = R.p(20) ? (int)a.size() : R.r(1, 2);
		for (int i = 0; i < n && !a.empty(); i++)
			(n > 2 ? a[(size_t)i] : R.of(a))->gate = 0;
	}
	OpW w = { { 60, O_INC }, { 12, O_GET }, { 6, O_PROPS }, { 4, O_PRINT }, { 4, O_RUNNING }, { 4, O_GETPER }, { 10, O_YIELD } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(30))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	genClients(R, S, 1, 3, 2, 8, w);
	if (S.mode == MD_D && R.p(15))
	{
		// a crowd of blocked actions
		Op o;
		o.code = O_INC;
		const auto in = inputsOf(S);
		for (int i = R.r(10, 50); i > 0; i--)
		{
			o.a = R.of(in);
			S.clients[0].push_back(o);
		}
		for (int i : in)
			S.places[(size_t)i].en = ActS{ 1, 0, 0 };
	}
	else if (S.mode == MD_J && R.p(8))
	{
		// a long queue behind a blocked action
		const auto in = inputsOf(S);
		const int i = R.of(in);
		S.places[(size_t)i].en = ActS{ 1, 0, 0 };
		Op o;
		o.code = O_INC;
		o.a = i;
		const int n = R.p(60) ? R.r(20, 100) : R.p(70) ? R.r(100, 400) : 1100;
		S.clients[0].insert(S.clients[0].end(), (size_t)n, o);
	}
	CfgOpts c;
	c.stall = c.timeAdv = 0;
	addBuilding(R, S, 0, 15, 0);
	genConfig(R, S, c);
}
void bodyC05(World &w)
{
	const Scenario &S = w.S;
	begin(w);
	joinClients(w.spawnClients());
	if (!isSingle(w) && !w.eng->isEventLoopRunning())
		w.run1(O_START);
	if (isSingle(w))
		w.run1(O_START);
	for (auto &r : w.ops)
		if (r.idle)
			FAIL("call-blocked", "the call %s of client %d had to wait for time to pass", opNames[r.op.code], r.client);
	sim::waitIdle();
	sim::setNoFaults(true);
	if (async(S.mode))
	{
		// the gates are still closed: blocked actions must not have held anything up
		auto m = w.marking();
		for (auto &t : S.trans)
			if (w.tokenEnabled(t, m) && w.condsTrue(t))
				FAIL("net-blocked-by-action", "transition %s can fire but does not, while an action is blocked; marking: %s", t.name.c_str(),
				     w.markingText(m).c_str());
		int blocked = 0;
		for (size_t p = 0; p < S.places.size(); p++)
			for (int k = 0; k < 2; k++)
			{
				auto &A = k ? S.places[p].ex : S.places[p].en;
				const int open = w.cnt[p][(size_t)k] - w.done[p][(size_t)k];
				blocked += open;
				if (open && A.gate < 0)
					FAIL("action-blocked-by-action", "action of %s does not finish", S.places[p].name.c_str());
			}
		if (S.mode == MD_J && blocked > 1)
			FAIL("queued-actions-overlap", "%d queued actions run at the same time", blocked);
		if (S.mode == MD_D)
		{
			// every action runs on its own: all are started, only the gated ones are unfinished
			for (size_t p = 0; p < S.places.size(); p++)
			{
				long en = w.okIncs[p], ex = 0;
				for (auto &t : S.trans)
				{
					const long f = (long)w.fires(t, m);
					for (auto &a : t.dst)
						en += a.place == (int)p ? f : 0;
					for (auto &a : t.act)
						ex += a.place == (int)p ? f : 0;
				}
				if ((S.places[p].en.on && w.cnt[p][0] < en) || (S.places[p].ex.on && w.cnt[p][1] < ex))
					FAIL("action-blocked-by-action", "an action of %s has not started while another action is blocked",
					     S.places[p].name.c_str());
			}
		}
	}
	w.openGates();
	sim::waitIdle();
	if (async(S.mode))
	{
		checkThreads(w);
		if (S.mode == MD_J)
			checkOverlap(w);
		else
		{
			std::set<int> used;
			for (auto &e : w.ev)
				if (e.type == E_AS && !used.insert(e.tid).second)
					FAIL("detached-action-shares-thread", "two detached actions ran in the same thread");
		}
	}
	else
	{
		// actions and conditions run in the firing thread; input actions in the caller, before it returns
		std::map<int, int> opOf;
		for (auto &e : w.ev)
		{
			if (e.type == E_INV)
				opOf[e.tid] = e.a;
			else if (e.type == E_RET)
				opOf[e.tid] = -1;
			else
			{
				auto it = opOf.find(e.tid);
				const int code = it == opOf.end() || it->second < 0 ? -1 : w.ops[(size_t)it->second].op.code;
				const bool caller = sim::isHarnessThread(e.tid);
				bool ok;
				if (S.mode == MD_S)
					ok = caller && (code == O_START || (code == O_INC && e.type != E_COND));
				else
					ok = caller ? code == O_INC && e.type != E_COND : true;
				if (!ok)
					FAIL("callback-in-wrong-thread", "a callback ran in a thread it must not run in (thread %d, mode %d, during %s)", e.tid, S.mode,
					     code < 0 ? "no call" : opNames[code]);
			}
		}
		std::vector<int> entered(S.places.size(), 0);
		for (auto &r : w.ops)
			if (r.op.code == O_INC && r.ok == 1 && S.places[(size_t)r.op.a].en.on)
			{
				int n = 0;
				for (auto k = r.evInv; k < r.evRet; k++)
					n += w.ev[k].type == E_AE && w.ev[k].tid == r.tid && w.ev[k].a == r.op.a && !w.ev[k].b;
				if (n != 1)
					FAIL("action-in-wrong-thread", "on-enter action of %s ran %d times inside the input call", S.places[(size_t)r.op.a].name.c_str(),
					     n);
			}
	}
	auto m = w.marking();
	checkRest(w, m);
	sim::setNoFaults(false);
	if (!isSingle(w))
	{
		const size_t i = w.run1(O_STOP);
		if (w.ops[i].idle)
			FAIL("call-blocked", "stop had to wait for time to pass");
	}
	sim::setNoFaults(true);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C06 --
void genC06(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 2, 4, 4);
	NetOpts o;
	o.actPct = 60;
	o.counterActPct = 30;
	o.slowPct = 50;
	o.maxDur = R.pick<int>({ 5, 250, 1500 });
	o.reqPct = R.pick<int>({ 60, 100 });
	o.condTruePct = 90;
	o.bigPct = 4;
	o.widePct = 8;
	o.slowCondPct = 15;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	OpW w = { { 70, O_INC }, { 6, O_COND }, { 6, O_GET }, { 10, O_YIELD }, { 8, O_SLEEP } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(25))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	genClients(R, S, 1, 3, 2, 8, w);
	if (async(S.mode) && R.p(40))
		genCallbackOps(R, S, 30, { { 60, O_INC }, { 40, O_GET } });
	if (S.mode == MD_J && R.p(2))
	{
		// more actions pending at once than a small counter holds, each longer than the period
		addCrowd(R, S, R.r(250, 300));
		for (auto &p : S.places)
			if (p.input && p.en.on)
				p.en.durMs = (int)S.periodMs + 1;
	}
	addBuilding(R, S);
	genConfig(R, S);
}
void bodyC06(World &w)
{
	const Scenario &S = w.S;
	std::vector<uint8_t> guarded(S.places.size(), 0);
	for (auto &t : S.trans)
		for (auto &a : t.act)
			guarded[(size_t)a.place] |= t.req ? 1 : 2;
	std::map<int, uint64_t> atStart; // by thread
	std::vector<int> open(S.places.size(), 0);
	const bool viaApi = async(S.mode);
	w.onActionStart = [&](int p, bool ex, int)
	{
		if (!viaApi)
		{
			if (ex && open[(size_t)p] && guarded[(size_t)p] == 1)
				FAIL("fired-during-action", "tokens left place %s while its on-enter action was running", S.places[(size_t)p].name.c_str());
			if (!ex)
				open[(size_t)p]++;
			return;
		}
		if (!ex && guarded[(size_t)p] == 1 && w.eng && !w.callbacksOff)
		{
			// nothing may take the tokens whose actions are about to run or run
			const int running = ++open[(size_t)p];
			const uint64_t n = atStart[sim::tid()] = w.eng->getNumberOfTokens(S.places[(size_t)p].name);
			if (n < (uint64_t)running)
				FAIL("fired-during-action", "place %s holds %llu tokens while the on-enter actions of %d of its tokens run",
				     S.places[(size_t)p].name.c_str(), (unsigned long long)n, running);
		}
	};
	w.onActionEnd = [&](int p, bool ex, int)
	{
		if (!viaApi)
		{
			if (!ex)
				open[(size_t)p]--;
			return;
		}
		if (!ex && guarded[(size_t)p] == 1 && w.eng && !w.callbacksOff && atStart.count(sim::tid()))
		{
			const uint64_t now = w.eng->getNumberOfTokens(S.places[(size_t)p].name);
			open[(size_t)p]--;
			if (now < atStart[sim::tid()])
				FAIL("fired-during-action", "place %s went from %llu to %llu tokens while its on-enter action was running",
				     S.places[(size_t)p].name.c_str(), (unsigned long long)atStart[sim::tid()], (unsigned long long)now);
		}
	};
	// A condition of such a transition counts if it was asked when the actions had ended.
	std::vector<int> owner(S.condInit.size(), -1);
	for (size_t t = 0; t < S.trans.size(); t++)
		for (int c : S.trans[t].conds)
			owner[(size_t)c] = owner[(size_t)c] == -1 ? (int)t : -2;
	std::vector<uint8_t> fed(S.places.size(), 0);
	for (auto &t : S.trans)
		for (auto &a : t.dst)
			fed[(size_t)a.place] = 1;
	w.onCondStart = [&](int c)
	{
		if (!viaApi || owner[(size_t)c] < 0 || !S.trans[(size_t)owner[(size_t)c]].req)
			return false;
		for (auto &a : S.trans[(size_t)owner[(size_t)c]].act)
		{
			const size_t p = (size_t)a.place;
			if (!S.places[p].en.on)
				continue;
			if (w.cnt[p][0] > w.done[p][0] || (!fed[p] && (long long)w.okIncs[p] > (long long)w.done[p][0]))
				return true;
		}
		return false;
	};
	begin(w);
	joinClients(w.spawnClients());
	rest(w, false);
	auto m = w.marking();
	checkRest(w, m);
	checkConservation(w, m);
	checkActionCounts(w, m);
	for (size_t c = 0; c < owner.size(); c++)
		if (owner[c] >= 0 && w.fires(S.trans[(size_t)owner[c]], m) > w.lateYes[c])
			FAIL("decided-before-actions-ended", "%s fired %llu times, after its actions had ended its condition c%zu was true only %llu times",
			     S.trans[(size_t)owner[c]].name.c_str(), (unsigned long long)w.fires(S.trans[(size_t)owner[c]], m), c,
			     (unsigned long long)w.lateYes[c]);
	if (!isSingle(w))
		w.run1(O_STOP);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C07 --
void genC07(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 3, 3, 4);
	NetOpts o;
	o.actPct = 35;
	o.condPct = 20;
	o.condTruePct = 90;
	o.bigPct = 4;
	genNet(R, S, o);
	S.periodMs = 3600000;
	OpW w = { { 70, O_INC }, { 8, O_GET }, { 3, O_PROPS }, { 2, O_PRINT }, { 2, O_RUNNING }, { 15, O_YIELD }, { 2, O_SETPER }, { 2, O_GETPER } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else
	{
		if (R.p(30))
		{
			w.push_back({ 8, O_STOP });
			w.push_back({ 10, O_START });
		}
		if (R.p(30))
			w.push_back({ 8, O_WAITIDLE });
	}
	genClients(R, S, 1, 3, 1, 7, w);
	for (auto &c : S.clients)
		for (auto &x : c)
			if (x.code == O_SETPER)
				x.a = 3600000 + R.n(3);
	if (R.p(3))
		addCrowd(R, S);
	if (async(S.mode))
		genCallbackOps(R, S, 25, { { 60, O_INC }, { 40, O_GET } });
	CfgOpts c;
	c.stall = c.timeAdv = 0;
	addBuilding(R, S, 0, 15, 6);
	genConfig(R, S, c);
}
void noIdle(World &w)
{
	for (auto &r : w.ops)
		if (r.idle)
			FAIL("call-waited", "the call %s of client %d had to wait for a timer", opNames[r.op.code], r.client);
}
void bodyC07(World &w)
{
	begin(w);
	joinClients(w.spawnClients());
	noIdle(w);
	if (isSingle(w))
		w.run1(O_START);
	else if (!w.eng->isEventLoopRunning())
		w.run1(O_START);
	sim::waitIdle();
	if (sim::idleAdvances())
		FAIL("call-waited", "something waited for a timer before the net came to rest");
	auto m = w.marking();
	checkRest(w, m);
	checkConservation(w, m);
	checkActionCounts(w, m);
	if (w.S.variant == 0 && !isSingle(w))
	{
		w.run1(O_STOP);
		noIdle(w);
	}
	w.callbacksOff = true;
	w.run1(O_DESTROY);
	noIdle(w);
	sim::joinAll();
}

// -------------------------------------------------------------------- C08 --
// periods so long that the clock cannot count them, and such that are none
void genC08far(Rng &R, Scenario &S)
{
	S.variant = 1;
	S.mode = pickMode(R, 0, 3, 3, 4);
	NetOpts o;
	o.actPct = 30;
	o.ownConds = true;
	o.condTruePct = 30;
	o.inhibPct = 20;
	genNet(R, S, o);
	auto far = [&] {
		return R.pick<long>({ LONG_MAX, LONG_MAX - 1, LONG_MAX / 1000, LONG_MAX / 1000000 + 1, LONG_MAX / 1000000, LONG_MAX / 1000000 - 1,
		                      10000000000000l, 315360000000l });
	};
	S.periodMs = far();
	S.startFirst = R.p(60);
	genClients(R, S, 1, 1, 2, 7, { { 40, O_INC }, { 30, O_COND }, { 20, O_SETPER }, { 6, O_GETPER }, { 5, O_STOP }, { 8, O_START }, { 4, O_YIELD } });
	for (auto &x : S.clients[0])
		if (x.code == O_SETPER)
			x.a = far();
	S.p1 = R.pick<long>({ 0, 0, -1, -1000, LONG_MIN, LONG_MIN + 1, LONG_MIN / 1000000 - 1 });
	CfgOpts c;
	c.stall = c.timeAdv = 0;
	c.jump = 25;
	genConfig(R, S, c);
}
void genC08(Rng &R, Scenario &S)
{
	if (R.p(12))
		return genC08far(R, S);
	S.mode = pickMode(R, 0, 3, 3, 4);
	NetOpts o;
	o.actPct = 30;
	o.ownConds = true;
	o.condTruePct = 30;
	o.inhibPct = 20;
	o.reqPct = async(S.mode) ? 30 : 0;
	o.slowPct = o.reqPct ? 40 : 0;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 1, 3, 10, 37, 100, 255, 1000, 2500, 5000, 60001 });
	// one driver: inputs and flips one after the other, each flip is timed
	genClients(R, S, 1, 1, 3, 9,
	           { { 30, O_INC }, { 40, O_COND }, { 12, O_SETPER }, { 20, O_SLEEP }, { 6, O_GETPER }, { 5, O_STOP }, { 8, O_START }, { 4, O_YIELD } });
	for (auto &x : S.clients[0])
		if (x.code == O_SETPER && R.p(60))
			x.a = R.pick<long>({ 1, 2, 5, 99, 256, 999, 1001, 4000, 70000 });
	// a run of an hour with a period of a millisecond would take too many steps
	long least = S.periodMs;
	for (auto &x : S.clients[0])
		if (x.code == O_SETPER)
			least = std::min(least, x.a);
	S.periodMs = std::min(S.periodMs, least * 80);
	for (auto &x : S.clients[0])
		if (x.code == O_SETPER)
			x.a = std::min(x.a, least * 80);
	CfgOpts c;
	c.stall = c.timeAdv = 0;
	c.jump = 25;
	genConfig(R, S, c);
	S.cfg.maxSteps = 4000000;
}
void bodyC08far(World &w)
{
	const Scenario &S = w.S;
	begin(w);
	long cur = S.periodMs;
	auto expectPeriod = [&] {
		const size_t i = w.run1(O_GETPER);
		if ((long)w.ops[i].val != cur)
			FAIL("period-lost", "the watchdog period was set to %ld ms but reads %ld ms", cur, (long)w.ops[i].val);
	};
	auto stop = [&] {
		const uint64_t t0 = sim::now();
		w.run1(O_STOP);
		if (sim::now() - t0 > 1000000000)
			FAIL("stop-waits", "stop took %llu ms with a watchdog period of %ld ms", (unsigned long long)((sim::now() - t0) / 1000000), cur);
	};
	for (auto &op : S.clients[0])
	{
		const size_t i = w.doOp(op, 0);
		if (op.code == O_SETPER && w.ops[i].ok == 1)
			cur = op.a;
		expectPeriod();
	}
	sim::setNoFaults(true);
	if (!w.eng->isEventLoopRunning())
		w.run1(O_START);
	w.settle();
	// an input is the only thing that makes the net look around now
	int in = -1;
	for (size_t p = 0; p < S.places.size(); p++)
		if (S.places[p].input)
			in = (int)p;
	if (in >= 0)
	{
		w.run1(O_INC, in);
		w.settle();
		checkRest(w, w.marking());
	}
	const uint64_t e0 = w.condEvals;
	sim::sleepNs(3600ull * 1000000000);
	sim::waitIdle();
	if (w.condEvals - e0 > 14ull * S.condInit.size() + 8)
		FAIL("busy-loop", "%llu condition evaluations in an hour at rest with a watchdog period of %ld ms", (unsigned long long)(w.condEvals - e0), cur);
	stop();
	w.run1(O_SETPER, cur = 20);
	expectPeriod();
	w.run1(O_START);
	w.settle();
	if (!w.cond.empty())
		w.cond[0] = 1;
	sim::sleepNs(70000000);
	sim::waitIdle();
	w.settle();
	checkRest(w, w.marking());
	// no period: the net is looked at all the time
	w.run1(O_SETPER, cur = S.p1);
	expectPeriod();
	for (auto &c : w.cond)
		c = 1;
	sim::sleepNs(400000000);
	checkRest(w, w.marking());
	if (in >= 0)
	{
		w.run1(O_INC, in);
		sim::sleepNs(400000000);
		checkRest(w, w.marking());
	}
	stop();
	sim::waitIdle();
	shutdown(w);
}
void bodyC08(World &w)
{
	const Scenario &S = w.S;
	if (S.variant == 1)
		return bodyC08far(w);
	begin(w);
	// effective period: the largest that may still be in force
	long per = S.periodMs, cur = S.periodMs;
	uint64_t curSince = 0;
	for (auto &op : S.clients[0])
	{
		const size_t i = w.doOp(op, 0);
		if (w.ops[i].op.code == O_SETPER && w.ops[i].ok == 1)
		{
			if (op.a != cur)
			{
				per = std::max(per, op.a);
				curSince = sim::now() + (uint64_t)per * 1000000;
			}
			cur = op.a;
		}
		if (w.ops[i].op.code == O_GETPER && (long)w.ops[i].val != cur)
			FAIL("period-lost", "the watchdog period was set to %ld ms but reads %llu ms", cur, (unsigned long long)w.ops[i].val);
		if (curSince && sim::now() > curSince)
		{
			per = cur;
			curSince = 0;
		}
	}
	sim::setNoFaults(true);
	if (!w.eng->isEventLoopRunning())
		w.run1(O_START);
	// let everything that is possible now happen, actions included; a wait already
	// under way may last as long as the longest period set so far
	sim::sleepNs((uint64_t)std::max(per, cur) * 1000000 + 1000000);
	w.settle();
	per = cur;
	// a condition becomes true with no input at all: must be noticed within one period
	for (int round = 0; round < 4; round++)
	{
		auto m = w.marking();
		checkRest(w, m);
		int pickT = -1;
		for (size_t k = 0; k < S.trans.size(); k++)
		{
			auto &t = S.trans[k];
			bool busy = false;
			for (auto &a : t.act)
				busy |= w.cnt[(size_t)a.place][0] != w.done[(size_t)a.place][0];
			if (w.tokenEnabled(t, m) && !(t.req && busy))
				pickT = (int)k;
		}
		// no activity without a reason: about one look per period
		const uint64_t e0 = w.condEvals;
		sim::sleepNs((uint64_t)per * 1000000 * 10);
		const uint64_t lim = 14ull * S.condInit.size() + 8;
		if (w.condEvals - e0 > lim)
			FAIL("busy-loop", "%llu condition evaluations in ten watchdog periods at rest", (unsigned long long)(w.condEvals - e0));
		if (pickT < 0)
			break;
		auto &t = S.trans[(size_t)pickT];
		if (w.condEvals == e0 && !t.conds.empty())
			FAIL("watchdog-dead", "no condition was looked at during ten watchdog periods");
		const uint64_t before = w.fires(t, m);
		for (int c : t.conds)
			w.cond[(size_t)c] = 1;
		sim::sleepNs((uint64_t)per * 1000000 + 50000000);
		sim::waitIdle();
		auto m2 = w.marking();
		if (w.fires(t, m2) == before && w.tokenEnabled(t, m2))
		{
			bool busy = false;
			for (auto &a : t.act)
				busy |= w.cnt[(size_t)a.place][0] != w.done[(size_t)a.place][0];
			if (!(t.req && busy))
				FAIL("condition-not-noticed", "the condition of %s became true but it did not fire within the watchdog period of %ld ms",
				     t.name.c_str(), per);
		}
		w.settle();
		if (round == 1)
		{
			const long np = per == 20 ? 300 : 20;
			w.run1(O_SETPER, np);
			sim::sleepNs((uint64_t)per * 1000000 + 1000000);
			sim::waitIdle();
			per = np;
		}
	}
	w.settle();
	checkRest(w, w.marking());
	w.run1(O_STOP);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C09 --
void genC09(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 0, 3, 2, 4);
	NetOpts o;
	o.actPct = 25;
	o.condPct = 70;
	o.condTruePct = 90;
	o.maxInit = 6;
	o.slowPct = 10;
	o.bigPct = 3;
	o.slowCondPct = 5;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100, 1000 });
	S.startFirst = R.p(60);
	genClients(R, S, 1, 3, 2, 5,
	           { { 25, O_INC }, { 20, O_START }, { 20, O_STOP }, { 12, O_RUNNING }, { 6, O_YIELD }, { 3, O_SLEEP }, { 4, O_SETPER },
	             { 3, O_GETMODE } });
	if (R.p(40))
		for (auto &c : S.clients)
			for (auto &x : c)
				if (x.code == O_INC && R.p(25))
				{
					// calls the running engine must refuse
					x.code = R.pick<int>({ O_ADDARC, O_SETMODE });
					x.a = x.code == O_SETMODE ? S.mode : -3; // unknown transition: never succeeds
				}
	if (R.p(20))
	{
		S.variant = 1;
		addSpin(R, S, S.mode == MD_D ? 0 : 30);
	}
	if (async(S.mode) && R.p(40))
		genCallbackOps(R, S, 50, { { 30, O_STOP }, { 25, O_START }, { 20, O_RUNNING }, { 15, O_INC }, { 10, O_GET } });
	else if (S.mode != MD_D && R.p(4))
	{
		// a long life with many stops and starts
		auto &c = S.clients[(size_t)R.n((int)S.clients.size())];
		for (int n = R.p(50) ? R.r(10, 40) : R.r(40, 90); n > 0; n--)
		{
			c.push_back({ O_STOP });
			c.push_back({ O_START });
			if (R.p(10))
				c.push_back(genOp(R, S, { { 70, O_INC }, { 20, O_RUNNING }, { 10, O_YIELD } }));
		}
	}
	addBuilding(R, S, 0, 15, 0);
	genConfig(R, S);
	if (S.variant == 1)
		spinConfig(S);
}
void bodyC09(World &w)
{
	const Scenario &S = w.S;
	begin(w);
	joinClients(w.spawnClients());
	sim::setNoFaults(true);
	w.openGates();
	quietCallbacks(w, S.variant == 1);
	w.run1(O_RUNNING);
	const bool running = w.ops.back().val;
	if (S.variant == 1)
	{
		// only a stop brings this net to rest
		if (!running && w.ops[w.run1(O_START)].ok != 1)
			FAIL("start-refused", "starting the stopped engine failed");
		const std::string counter = S.places.back().name;
		for (uint64_t n = w.eng->getNumberOfTokens(counter); w.eng->getNumberOfTokens(counter) == n;)
			sim::point();
		w.run1(O_STOP);
		const uint64_t c0 = w.condEvals;
		w.run1(O_RUNNING);
		if (w.ops.back().val)
			FAIL("running", "the engine still runs after it was stopped");
		auto m0 = w.marking();
		for (int i = 0; i < 50; i++)
			sim::point();
		sim::waitIdle();
		if (m0 != w.marking() || c0 != w.condEvals)
			FAIL("moved-while-stopped", "a stopped engine went on: %s -> %s", w.markingText(m0).c_str(), w.markingText(w.marking()).c_str());
	}
	else if (!running)
	{
		// stopped: nothing may move, whatever is given
		auto in = inputsOf(S);
		const uint64_t c0 = w.condEvals;
		sim::waitIdle();
		auto m0 = w.marking();
		if (!in.empty())
		{
			w.run1(O_INC, in[0]);
			m0[(size_t)in[0]]++;
		}
		sim::sleepNs(3000000000ull);
		sim::waitIdle();
		auto m1 = w.marking();
		if (m0 != m1)
			FAIL("moved-while-stopped", "tokens moved in a stopped engine: %s -> %s", w.markingText(m0).c_str(), w.markingText(m1).c_str());
		if (w.condEvals != c0)
			FAIL("moved-while-stopped", "a stopped engine evaluated conditions");
		if (w.ops[w.run1(O_START)].ok != 1)
			FAIL("start-refused", "starting the stopped engine failed");
		w.run1(O_RUNNING);
		if (!w.ops.back().val)
			FAIL("not-running", "the engine does not run after it was started");
	}
	if (S.variant != 1)
		w.settle();
	auto m = w.marking();
	if (S.variant != 1)
		checkRest(w, m);
	checkConservation(w, m);
	// life cycle calls are linearizable
	std::vector<const OpRec *> h;
	for (auto &r : w.ops)
		switch (r.op.code)
		{
		case O_START:
		case O_STOP:
		case O_RUNNING:
		case O_SETPER:
		case O_GETPER:
		case O_GETMODE:
		case O_SETMODE:
		case O_ADDARC:
			h.push_back(&r);
			break;
		default:
			break;
		}
	NetModel model(w);
	checkLinearizable(w, h, model, "lifecycle-not-linearizable");
	// nothing fires between the return of stop and the next start
	for (auto &s : w.ops)
	{
		if (s.op.code != O_STOP || s.ok != 1)
			continue;
		bool clean = true;
		uint64_t next = ~0ull;
		for (auto &r : w.ops)
			if (r.op.code == O_START)
			{
				if (r.evInv < s.evRet && r.evRet > s.evInv)
					clean = false;
				if (r.evInv >= s.evRet)
					next = std::min(next, r.evInv);
			}
		if (!clean)
			continue;
		for (uint64_t k = s.evRet; k < w.ev.size() && k < next; k++)
			if (w.ev[k].type == E_COND || (S.mode == MD_E && w.ev[k].type == E_AS && !sim::isHarnessThread(w.ev[k].tid)))
				FAIL("moved-while-stopped", "a transition was examined after stop had returned");
	}
	w.run1(O_STOP);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C10 --
// Data of the user: actions, conditions and clients touch it without locks of their own where the engine
// runs them one after the other.
void genC10user(Rng &R, Scenario &S)
{
	S.variant = 2;
	S.mode = pickMode(R, 1, 3, 4, 5);
	NetOpts o;
	o.actPct = 60;
	o.counterActPct = 40;
	o.slowPct = 25;
	o.reqPct = R.pick<int>({ 30, 100 });
	o.condPct = 60;
	o.condTruePct = 85;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	OpW w = { { 60, O_INC }, { 10, O_COND }, { 5, O_GET }, { 8, O_YIELD }, { 8, O_SLEEP } };
	if (S.mode == MD_S)
		w.push_back({ 30, O_START });
	else if (R.p(40))
	{
		w.push_back({ 8, O_STOP });
		w.push_back({ 10, O_START });
	}
	genClients(R, S, 1, 3, 2, 8, w);
	if (async(S.mode) && R.p(30))
		genCallbackOps(R, S, 30, { { 60, O_INC }, { 40, O_GET } });
	CfgOpts c;
	c.race = true;
	genConfig(R, S, c);
}
void bodyC10user(World &w)
{
	const Scenario &S = w.S;
	enum : uint32_t
	{
		QUEUE = 1,
		CONDS,
		INPUT = 1000,      // + place
		ENTER = 1u << 20,  // + place * 4096 + number
		YES = 1u << 28     // + condition * 4096 + number
	};
	// places that get exactly one token, by an input
	std::vector<int> inputs(S.places.size(), 0), waited(S.places.size(), 0), owner(S.condInit.size(), -1), counterOf(S.places.size(), -1);
	auto count = [&](const Op &op)
	{
		if (op.code == O_INC && op.a >= 0 && op.a < (long)inputs.size())
			inputs[(size_t)op.a]++;
	};
	for (auto &c : S.clients)
		for (auto &op : c)
			count(op);
	for (auto &op : S.cbOps)
		count(op), count(op);
	for (size_t t = 0; t < S.trans.size(); t++)
	{
		auto &x = S.trans[t];
		for (auto &a : x.dst)
			inputs[(size_t)a.place] += 2;
		for (auto &a : x.act)
			waited[(size_t)a.place] |= x.req;
		counterOf[(size_t)x.counter] = (int)t;
		for (int c : x.conds)
			owner[(size_t)c] = owner[(size_t)c] == -1 ? (int)t : -2;
	}
	w.beforeOp = [&](const Op &op)
	{
		if (op.code == O_INC && op.a >= 0 && op.a < (long)inputs.size() && inputs[(size_t)op.a] == 1)
			sim::userAccess(INPUT + (uint32_t)op.a, true, "before an input");
	};
	auto act = [&](int p, bool ex, int k, bool start)
	{
		if (S.mode == MD_J || S.mode == MD_S)
			sim::userAccess(QUEUE, true, S.mode == MD_J ? "queued action" : "action");
		if (!ex && inputs[(size_t)p] == 1)
			sim::userAccess(INPUT + (uint32_t)p, false, "action of that input");
		if (!ex && waited[(size_t)p] && k < 4096)
			sim::userAccess(ENTER + (uint32_t)p * 4096 + (uint32_t)k, true, "action a transition waits for");
		// the k-th firing was allowed by one of the first answers at least k
		if (!ex && start && S.mode != MD_D && counterOf[(size_t)p] >= 0 && k < 4096)
			for (int c : S.trans[(size_t)counterOf[(size_t)p]].conds)
				if (owner[(size_t)c] >= 0 && k <= w.condYes[(size_t)c])
					sim::userAccess(YES + (uint32_t)c * 4096 + (uint32_t)k, false, "action of the firing it allowed");
	};
	w.onActionStart = [&](int p, bool ex, int k) { act(p, ex, k, true); };
	w.onActionEnd = [&](int p, bool ex, int k) { act(p, ex, k, false); };
	w.onCondStart = [&](int c)
	{
		sim::userAccess(CONDS, true, "condition");
		if (S.mode == MD_S)
			sim::userAccess(QUEUE, true, "condition");
		if (owner[(size_t)c] >= 0 && S.trans[(size_t)owner[(size_t)c]].req)
			for (auto &a : S.trans[(size_t)owner[(size_t)c]].act)
				for (int k = 1; k <= w.done[(size_t)a.place][0] && k < 4096; k++)
					sim::userAccess(ENTER + (uint32_t)a.place * 4096 + (uint32_t)k, false, "condition after that action");
		return false;
	};
	w.onCondEnd = [&](int c, bool v)
	{
		sim::userAccess(CONDS, true, "condition");
		if (v && owner[(size_t)c] >= 0 && w.condYes[(size_t)c] < 4096)
			sim::userAccess(YES + (uint32_t)c * 4096 + (uint32_t)w.condYes[(size_t)c], true, "condition");
	};
	begin(w);
	joinClients(w.spawnClients());
	sim::setNoFaults(true);
	w.openGates();
	if (!S.cbOps.empty())
		quietCallbacks(w, false);
	if (!isSingle(w))
	{
		w.run1(O_STOP);
		sim::userAccess(CONDS, true, "after stop");
	}
	sim::waitIdle();
	sim::sleepNs(5000000000ull);
	sim::waitIdle();
	shutdown(w);
}
void genC10(Rng &R, Scenario &S)
{
	if (R.p(20))
		return genC10user(R, S);
	S.mode = pickMode(R, 1, 3, 4, 4);
	NetOpts o;
	o.actPct = 50;
	o.slowPct = 10;
	o.reqPct = 25;
	o.bigPct = 4;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	S.startFirst = R.p(80);
	OpW w = { { 30, O_INC }, { 10, O_GET }, { 14, O_PROPS }, { 8, O_PRINT }, { 6, O_RUNNING }, { 6, O_START }, { 6, O_STOP }, { 8, O_SETPER },
		      { 8, O_GETPER }, { 4, O_SETMODE }, { 4, O_GETMODE }, { 8, O_MKPLACE }, { 8, O_MKTRANS }, { 3, O_ADDARC }, { 3, O_RMARC },
		      { 3, O_REGACT }, { 3, O_REGCOND }, { 2, O_CLEAR }, { 3, O_YIELD } };
	genClients(R, S, 2, 4, 2, 7, w);
	bool modes = false;
	for (auto &c : S.clients)
		for (auto &x : c)
		{
			modes |= x.code == O_SETMODE || x.code == O_CLEAR;
			const int nP = (int)S.places.size(), nT = (int)S.trans.size();
			if (x.code == O_MKPLACE)
				x = { O_MKPLACE, nP + R.n(3), R.n(3), R.n(2), R.p(30) ? 1 : 0 };
			if (x.code == O_MKTRANS)
				x = { O_MKTRANS, nT + R.n(3), R.n(nP), R.n(nP), 1 };
			if (x.code == O_ADDARC || x.code == O_RMARC)
				x = { x.code, R.n(nT), R.n(nP), R.n(4), 1 };
			if (x.code == O_REGACT || x.code == O_REGCOND)
				x.a = R.r(1, 2);
		}
	// a changed net may never come to rest, execute() would not return then
	bool single = S.mode == MD_S;
	for (auto &c : S.clients)
		for (auto &x : c)
			single |= x.code == O_SETMODE && x.a == MD_S;
	if (single)
		for (auto &c : S.clients)
			for (auto &x : c)
				if (x.code == O_MKTRANS || x.code == O_ADDARC || x.code == O_RMARC)
					x = { O_PROPS, 0, 0, 0, 0 };
	if (async(S.mode) && !modes)
		genCallbackOps(R, S, 30, { { 30, O_INC }, { 40, O_GET }, { 10, O_PROPS }, { 10, O_RUNNING }, { 10, O_GETPER }, { 5, O_STOP }, { 5, O_START } });
	S.p1 = R.p(30);
	if (!single && R.p(10))
	{
		S.variant = 1;
		addSpin(R, S, S.mode == MD_D ? 0 : 30);
	}
	CfgOpts c;
	c.race = true;
	genConfig(R, S, c);
	if (S.variant == 1)
		spinConfig(S);
}
void bodyC10(World &w)
{
	if (w.S.variant == 2)
		return bodyC10user(w);
	begin(w);
	joinClients(w.spawnClients());
	if (w.S.cbOps.empty() && w.S.p1)
	{
		// destroyed in the middle of whatever is going on
		w.callbacksOff = true;
		w.openGates();
		w.run1(O_DESTROY);
		sim::setNoFaults(true);
		sim::joinAll();
		return;
	}
	sim::setNoFaults(true);
	w.openGates();
	if (!w.S.cbOps.empty())
		quietCallbacks(w, w.S.variant == 1);
	w.run1(O_STOP);
	sim::waitIdle();
	sim::sleepNs(5000000000ull);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C11 --
void genC11(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 1, 3, 4, 5);
	NetOpts o;
	o.actPct = 75;
	o.counterActPct = 40;
	o.slowPct = 40;
	o.maxDur = R.pick<int>({ 5, 300 });
	o.reqPct = 20;
	o.bigPct = 4;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100, 3600000 });
	// 0,1: destroy; 2: clear, then destroy; 3: mode switch, then destroy; 4: clear and rebuild;
	// 5, 6: as 3 and 4, but at rest and with a look at what comes after
	S.variant = R.n(7);
	S.p1 = R.n(60);
	S.p2 = R.n(4);
	S.p3 = R.p(40);
	genClients(R, S, 1, 2, 1, 6, { { 70, O_INC }, { 10, O_YIELD }, { 6, O_SLEEP }, { 6, O_STOP }, { 8, O_START } });
	genConfig(R, S);
}
// all actions from event `from` on ran where `mode` says
void checkModeThreads(World &w, int mode, size_t from)
{
	std::set<int> net, used;
	for (size_t k = from; k < w.ev.size(); k++)
		if (w.ev[k].type == E_COND)
			net.insert(w.ev[k].tid);
	std::map<int, int> opOf;
	int open = -1;
	for (size_t k = 0; k < w.ev.size(); k++)
	{
		auto &e = w.ev[k];
		if (e.type == E_INV)
			opOf[e.tid] = e.a;
		if (e.type == E_RET)
			opOf[e.tid] = -1;
		if (k < from || (e.type != E_AS && e.type != E_AE))
			continue;
		auto it = opOf.find(e.tid);
		const int code = it == opOf.end() || it->second < 0 ? -1 : w.ops[(size_t)it->second].op.code;
		const bool caller = sim::isHarnessThread(e.tid);
		bool ok = true;
		if (mode == MD_S)
			ok = caller && (code == O_START || (code == O_INC && !e.b));
		else if (mode == MD_E)
			ok = caller ? code == O_INC && !e.b : net.size() != 1 || net.count(e.tid);
		else
			ok = !caller && !net.count(e.tid);
		if (mode == MD_D && e.type == E_AS && !used.insert(e.tid).second)
			FAIL("mode-not-applied", "two detached actions ran in one thread after the actions thread option was changed");
		if (mode == MD_J)
		{
			if (e.type == E_AS && open >= 0)
				FAIL("mode-not-applied", "queued actions overlap after the actions thread option was changed");
			open = e.type == E_AS ? e.a : -1;
			used.insert(e.tid);
		}
		if (!ok)
			FAIL("mode-not-applied", "an action of %s ran in %s after the actions thread option was changed to %d",
			     w.S.places[(size_t)e.a].name.c_str(), caller ? "a calling thread" : net.count(e.tid) ? "the net's thread" : "another thread", mode);
	}
}
void goOn(World &w, int mode)
{
	const Scenario &S = w.S;
	if (S.p3)
		w.run1(O_SETPER, 50);
	if (mode != MD_S)
		w.run1(O_START);
	for (int k = 0; k < 2; k++)
		for (int i : inputsOf(S))
			w.run1(O_INC, i);
}
void checkAfter(World &w)
{
	rest(w);
	if (isSingle(w))
		w.run1(O_START); // actions left by the former mode may have ended since
	auto m = w.marking();
	// with the period of an hour, transitions that wait for actions do not get their turn
	if (w.eng->getEventLoopSleepDuration().count() <= 1000)
		checkRest(w, m);
	checkConservation(w, m);
	checkActionCounts(w, m);
}
void bodyC11(World &w)
{
	const Scenario &S = w.S;
	begin(w);
	joinClients(w.spawnClients());
	for (long i = 0; i < S.p1; i++)
		sim::point();
	if (S.p3)
		sim::sleepNs((uint64_t)S.p1 * 4000000);
	auto setMode = [&]
	{
		if (w.ops[w.run1(O_SETMODE, S.p2)].ok != 1)
			FAIL("mode-switch-refused", "the stopped engine refused to change its actions thread option");
		if ((long)w.eng->getActionsThreadOption() != S.p2)
			FAIL("mode-switch-lost", "the actions thread option did not change");
	};
	auto clear = [&]
	{
		if (w.ops[w.run1(O_CLEAR)].ok != 1)
			FAIL("clear-refused", "the stopped engine refused to clear its net");
		if (!w.eng->getPlacesProperties().empty() || !w.eng->getTransitionsProperties().empty())
			FAIL("clear-incomplete", "the cleared net still has elements");
	};
	if (S.variant >= 5)
	{
		rest(w);
		size_t from;
		if (S.variant == 5)
		{
			from = w.newSegment(w.marking());
			setMode();
		}
		else
		{
			clear();
			w.buildPlaces(*w.eng);
			w.buildTrans(*w.eng);
			from = w.newSegment(w.marking());
			for (size_t i = 0; i < S.places.size(); i++)
				if (w.base[i] != S.places[i].init)
					FAIL("clear-incomplete", "place %s of the rebuilt net has %llu tokens", S.places[i].name.c_str(), (unsigned long long)w.base[i]);
		}
		sim::setNoFaults(false);
		const int mode = S.variant == 5 ? (int)S.p2 : S.mode;
		goOn(w, mode);
		checkAfter(w);
		checkModeThreads(w, mode, from);
	}
	else if (S.variant >= 2)
	{
		w.run1(O_STOP);
		if (S.variant == 3)
		{
			setMode();
			if (S.p1 & 1)
			{
				goOn(w, (int)S.p2);
				if (S.p1 & 2)
					checkAfter(w);
			}
		}
		else
		{
			clear();
			if (S.variant == 4)
			{
				w.buildPlaces(*w.eng);
				w.buildTrans(*w.eng);
				goOn(w, S.mode);
			}
		}
		for (long i = 0; i < S.p1 % 7; i++)
			sim::point();
	}
	const bool detached = w.S.mode == MD_D || ((S.variant == 3 || S.variant == 5) && S.p2 == MD_D);
	w.run1(O_DESTROY);
	const auto evGone = w.ev.size();
	sim::setNoFaults(true);
	w.openGates();
	sim::joinAll();
	if (!detached)
	{
		for (size_t k = evGone; k < w.ev.size(); k++)
			if (w.ev[k].type == E_AS || w.ev[k].type == E_COND)
				FAIL("callback-after-destruction", "a user callback started after the engine had been destroyed");
	}
	else
		for (size_t k = evGone; k < w.ev.size(); k++)
			if (w.ev[k].type == E_COND)
				FAIL("callback-after-destruction", "a condition was evaluated after the engine had been destroyed");
	if (w.inAction)
		FAIL("callback-after-destruction", "an action is still running after all threads ended");
	if (w.life.use_count() != 1)
		FAIL("leak", "%ld user callbacks are still alive after the engine is gone", w.life.use_count() - 1);
	std::string what;
	if (uint64_t n = sim::leakedBlocks(&what))
		FAIL("leak", "%llu memory blocks leaked: %s", (unsigned long long)n, what.c_str());
}

// -------------------------------------------------------------------- C12 --
void genC12(Rng &R, Scenario &S)
{
	S.mode = R.n(4);
	const int nP = R.r(1, 3), nT = R.r(0, 2);
	for (int i = 0; i < nP; i++)
	{
		PlaceS p;
		p.name = "P" + std::to_string(i);
		p.init = R.p(10) ? ~0ull - (uint64_t)R.n(2) : (uint64_t)R.n(3);
		p.input = R.p(70);
		S.places.push_back(p);
	}
	S.condInit = { 0 };
	for (int k = 0; k < nT; k++)
	{
		TransS t;
		t.name = "T" + std::to_string(k);
		for (auto *v : { &t.act, &t.dst, &t.inh })
			if (R.p(60))
				v->push_back({ R.n(nP), (uint64_t)R.r(1, 2), 0 });
		t.conds.push_back(0);
		t.namedConds = R.p(50);
		t.req = R.p(20);
		S.trans.push_back(t);
	}
	S.periodMs = R.pick<long>({ 1, 100 });
	S.startFirst = 0;
	OpW all = { { 14, O_INC }, { 14, O_GET }, { 14, O_PROPS }, { 6, O_PRINT }, { 6, O_RUNNING }, { 8, O_START }, { 8, O_STOP }, { 3, O_SETPER },
		        { 3, O_GETPER }, { 4, O_SETMODE }, { 4, O_GETMODE }, { 14, O_MKPLACE }, { 12, O_MKTRANS }, { 12, O_ADDARC }, { 10, O_RMARC },
		        { 6, O_REGACT }, { 6, O_REGCOND }, { 4, O_CLEAR } };
	// a random subset keeps collisions likely
	OpW wv;
	for (auto &x : all)
		if (R.p(60))
			wv.push_back(x);
	if (wv.empty())
		wv = all;
	// or few kinds that have to do with each other
	switch (R.n(16))
	{
	case 0:
		wv = { { 25, O_CLEAR }, { 45, O_PROPS }, { 10, O_MKPLACE }, { 10, O_MKTRANS }, { 10, O_GET } };
		break;
	case 1:
		wv = { { 20, O_START }, { 20, O_STOP }, { 20, O_ADDARC }, { 20, O_RMARC }, { 20, O_PROPS } };
		break;
	case 2:
		wv = { { 25, O_REGACT }, { 25, O_REGCOND }, { 25, O_MKPLACE }, { 25, O_MKTRANS } };
		break;
	case 3:
		wv = { { 25, O_MKPLACE }, { 25, O_INC }, { 25, O_GET }, { 25, O_PROPS } };
		break;
	case 4:
		wv = { { 25, O_SETMODE }, { 25, O_GETMODE }, { 20, O_START }, { 15, O_STOP }, { 15, O_RUNNING } };
		break;
	case 5:
		wv = { { 25, O_CLEAR }, { 25, O_START }, { 10, O_STOP }, { 20, O_PROPS }, { 20, O_MKTRANS } };
		break;
	default:
		break;
	}
	// arcs that are added and taken away, and little else
	const bool arcsOnly = nT && R.p(8);
	if (arcsOnly)
	{
		wv = { { 40, O_ADDARC }, { 40, O_RMARC }, { 20, O_PROPS } };
		const int p = R.n(nP);
		S.trans[0].act = S.trans[0].dst = { { p, 1, 0 } };
		S.trans[0].inh.clear();
	}
	genClients(R, S, 2, 3, 2, 4, wv);
	for (auto &c : S.clients)
		for (auto &x : c)
		{
			if (x.code == O_INC || x.code == O_GET)
				x.a = R.p(85) ? R.n(nP + 2) : -1;
			if (x.code == O_MKPLACE)
				x = { O_MKPLACE, R.p(90) ? R.n(nP + 2) : -1, R.p(10) ? -1 : R.n(3), R.n(4), R.p(40) ? R.r(1, 2) : 0 };
			if (x.code == O_MKTRANS)
				x = { O_MKTRANS, R.p(90) ? R.n(nT + 2) : -1, R.p(20) ? -2 : R.n(nP + 1), R.p(20) ? -2 : R.n(nP + 1),
					  (R.p(90) ? R.r(1, 2) : 0) | (R.p(40) ? R.r(1, 3) << 8 : 0) | (R.n(2) << 16) | (R.p(40) ? R.n(8) << 17 : 0) };
			if (x.code == O_ADDARC || x.code == O_RMARC)
				x = { x.code, R.n(arcsOnly && R.p(80) ? 1 : nT + 1), arcsOnly && R.p(60) ? S.trans[0].act[0].place : R.n(nP + 1), arcsOnly && R.p(60) ? 2 : R.n(4), R.p(10) ? 0 : R.r(1, 2) };
			if (x.code == O_REGACT || x.code == O_REGCOND)
			{
				x.a = R.p(90) ? R.r(1, 2) : 0;
				x.b = x.code == O_REGACT && R.p(20);
			}
			if (x.code == O_SETPER)
				x.a = R.pick<long>({ 1, 50 });
		}
	CfgOpts c;
	c.stall = 5;
	genConfig(R, S, c);
}
// queries everything
void probeNet(World &w)
{
	for (int c : { O_RUNNING, O_GETMODE, O_GETPER })
		w.run1(c);
	w.run1(O_PROPS, 0);
	w.run1(O_PROPS, 1);
	w.run1(O_PRINT);
	// which function each name stands for
	for (long k = 1; k <= 2; k++)
		w.run1(O_PROBEACT, k);
	w.run1(O_STOP);
	for (long k = 1; k <= 2; k++)
		w.run1(O_PROBECOND, k);
}
void bodyC12(World &w)
{
	begin(w);
	joinClients(w.spawnClients());
	sim::setNoFaults(true);
	probeNet(w);
	std::vector<const OpRec *> h;
	for (auto &r : w.ops)
		h.push_back(&r);
	checkLinearizable(w, h, NetModel(w), "not-linearizable");
	for (auto &r : w.ops)
		if (r.ok != 1 && r.ok != 0)
			FAIL("wrong-exception", "%s failed with an error that is not one of the engine's exceptions: %s", opNames[r.op.code], r.str.c_str());
	w.run1(O_STOP);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C13 --
// A token in Arena is wanted by k transitions; Return puts it back until the fuel is used up.
void genC13(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 8, 1, 0, 1);
	const int k = R.r(2, 4);
	const int n = S.mode == MD_S ? R.pick<int>({ 1500, 1500, 1500, 1500, 1500, 4000 }) : 250;
	S.p1 = n;
	S.p2 = k;
	auto place = [&](const std::string &name, uint64_t init)
	{
		PlaceS p;
		p.name = name;
		p.init = init;
		S.places.push_back(p);
		return (int)S.places.size() - 1;
	};
	const int arena = place("Arena", 1), home = place("Home", 0), fuel = place("Fuel", (uint64_t)n - 1);
	S.places[(size_t)arena].input = 1;
	const int extra = R.p(30) ? place("Extra", 1) : -1;
	// transitions that are enabled together with the competitors, without taking part in the conflict: some
	// never fire, because their condition is false, and some fire once for every conflict
	const int idle = R.p(60) ? R.r(1, 4) : 0, busy = R.p(30) ? R.r(1, 2) : 0;
	for (int i = 0; i < idle; i++)
	{
		TransS t;
		t.name = std::string(1, (char)('A' + R.n(26))) + "Idle" + std::to_string(i);
		if (R.p(50))
			t.act.push_back({ arena, 1, 0 });
		t.act.push_back({ place("Stand" + std::to_string(i), 1), 1, 0 });
		t.conds.push_back((int)S.condInit.size());
		S.condInit.push_back(0);
		t.counter = place("C_" + t.name, 0);
		t.dst.push_back({ t.counter, 1, 0 });
		S.trans.push_back(t);
	}
	std::vector<int> ball;
	for (int i = 0; i < busy; i++)
	{
		ball.push_back(place("Ball" + std::to_string(i), 1));
		TransS t;
		t.name = std::string(1, (char)('A' + R.n(26))) + "Busy" + std::to_string(i);
		t.act.push_back({ ball.back(), 1, 0 });
		t.counter = place("C_" + t.name, 0);
		t.dst.push_back({ t.counter, 1, 0 });
		S.trans.push_back(t);
	}
	for (int i = 0; i < k; i++)
	{
		TransS t;
		t.name = std::string(1, (char)('A' + R.n(26))) + std::to_string(i);
		t.act.push_back({ arena, 1, 0 });
		if (extra >= 0 && R.p(50))
		{
			t.act.push_back({ extra, 1, 0 });
			t.dst.push_back({ extra, 1, 0 });
		}
		t.dst.push_back({ home, 1, 0 });
		t.counter = place("C_" + t.name, 0);
		S.places.back().en.on = S.mode != MD_J;
		t.dst.push_back({ t.counter, 1, 0 });
		S.trans.insert(S.trans.begin() + R.n((int)S.trans.size() + 1), t);
	}
	TransS r;
	r.name = "Return";
	r.act = { { home, 1, 0 }, { fuel, 1, 0 } };
	r.dst = { { arena, 1, 0 } };
	for (int b : ball)
		r.dst.push_back({ b, 1, 0 });
	r.counter = place("C_Return", 0);
	r.dst.push_back({ r.counter, 1, 0 });
	S.trans.insert(S.trans.begin() + R.n((int)S.trans.size() + 1), r);
	S.periodMs = 1000;
	S.startFirst = 0;
	addBuilding(R, S, 0, 20, 0);
	genConfig(R, S);
	S.cfg.plainInv = 0;
	S.cfg.stallInv = 0;
	S.cfg.timeAdvInv = 0;
	S.cfg.maxSteps = 8000000;
	S.cfg.fairAfter = 8000000;
}
void bodyC13(World &w)
{
	const Scenario &S = w.S;
	std::vector<int> winners;
	w.onActionStart = [&](int p, bool ex, int)
	{
		if (!ex)
			winners.push_back(p);
	};
	w.ev.reserve(100000);
	w.create();
	w.run1(O_START);
	if (!isSingle(w))
	{
		sim::waitIdle();
		w.run1(O_STOP);
	}
	auto m = w.marking();
	const double N = (double)S.p1, k = (double)S.p2;
	auto competes = [&](const TransS &t) { return t.name != "Return" && t.name.find("Idle") == std::string::npos && t.name.find("Busy") == std::string::npos; };
	double sum = 0;
	for (auto &t : S.trans)
		if (competes(t))
			sum += (double)w.fires(t, m);
	sim::result()->counters[0] += (uint64_t)sum;
	if (sum != N)
		FAIL("stuck-net", "%g of %g conflicts were resolved", sum, N);
	const double lim = 7.0 * std::sqrt(N / k * (1 - 1 / k)) + 2;
	for (auto &t : S.trans)
		if (competes(t))
		{
			const double f = (double)w.fires(t, m);
			if (std::fabs(f - N / k) > lim)
				FAIL("biased-choice", "of %g conflicts among %g transitions %s won %g (expected about %g +- %g)", N, k, t.name.c_str(), f, N / k,
				     lim);
		}
	if (winners.size() == (size_t)S.p1)
	{
		double same = 0;
		for (size_t i = 1; i < winners.size(); i++)
			same += winners[i] == winners[i - 1];
		const double n1 = N - 1, l2 = 7.0 * std::sqrt(n1 / k * (1 - 1 / k)) + 2;
		if (std::fabs(same - n1 / k) > l2)
			FAIL("predictable-choice", "the previous winner won again %g times out of %g conflicts among %g (expected about %g +- %g)", same, n1, k,
			     n1 / k, l2);
	}
	sim::setNoFaults(true);
	shutdown(w);
}

// -------------------------------------------------------------------- C14 --
void genC14(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 0, 2, 4, 5);
	NetOpts o;
	o.actPct = 70;
	o.counterActPct = S.mode == MD_D ? 0 : 30;
	o.slowPct = 15;
	o.reqPct = R.p(40) ? 40 : 0;
	o.condTruePct = 100;
	genNet(R, S, o);
	if (S.mode == MD_D)
		for (auto &t : S.trans)
		{
			// an action of the net whose thread cannot be started has nobody to report to: only inputs here
			for (auto &a : t.act)
				S.places[(size_t)a.place].ex.on = 0;
			for (auto &a : t.dst)
				if (!S.places[(size_t)a.place].input)
					S.places[(size_t)a.place].en.on = 0;
			for (auto &a : t.dst)
				S.places[(size_t)a.place].en.on = 0;
		}
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	if (S.mode == MD_D && R.p(40))
	{
		// a token whose action could not be started must be noticed without the watchdog
		S.p2 = 1;
		S.periodMs = 3600000;
		for (auto &t : S.trans)
			t.req = 0;
	}
	S.startFirst = 0;
	genClients(R, S, 1, 3, 2, 7, { { 50, O_INC }, { 25, O_START }, { 12, O_STOP }, { 6, O_YIELD }, { 4, O_GET }, { 6, O_RUNNING } });
	genConfig(R, S);
	if (S.mode == MD_J)
		for (int i : inputsOf(S))
			if (R.p(60))
				S.places[(size_t)i].en.on = 1;
	S.cfg.threadFailInv = R.pick<uint32_t>({ 1, 2, 4 });
	S.cfg.threadFailMax = (uint32_t)R.r(1, 6);
	if (R.p(12))
	{
		// no thread at all until the clients are done
		S.cfg.threadFailInv = 1;
		S.cfg.threadFailMax = ~0u;
	}
	S.cfg.threadFailScope = S.mode == MD_D ? 0 : (uint32_t)R.n(2);
}
void bodyC14(World &w)
{
	const Scenario &S = w.S;
	begin(w);
	joinClients(w.spawnClients());
	std::vector<const OpRec *> h;
	for (auto &r : w.ops)
	{
		if (r.ok == 4 || r.ok == 5 || r.ok == 3)
			FAIL("wrong-exception", "%s failed unexpectedly: %s", opNames[r.op.code], r.str.c_str());
		if (r.ok == 2 && r.op.code != O_START && !(r.op.code == O_INC && S.mode == MD_D))
			FAIL("wrong-exception", "%s reported a failed thread start: %s", opNames[r.op.code], r.str.c_str());
	}
	sim::setNoFaults(true);
	// a failed start has no effect on the life cycle
	struct M
	{
		bool running = false;
		std::string key() const
		{
			return running ? "R" : "-";
		}
		bool apply(const OpRec &r)
		{
			if (r.op.code == O_START)
			{
				if (running)
					return r.ok == 0;
				if (r.ok == 2)
					return true;
				running = true;
				return r.ok == 1;
			}
			if (r.op.code == O_STOP)
			{
				running = false;
				return r.ok == 1;
			}
			return r.ok == 1 && r.val == (uint64_t)running;
		}
	};
	w.run1(O_RUNNING);
	for (auto &r : w.ops)
		if (r.op.code == O_START || r.op.code == O_STOP || r.op.code == O_RUNNING)
			h.push_back(&r);
	checkLinearizable(w, h, M{}, "failed-start-has-effect");
	if (S.p2 && w.eng->isEventLoopRunning())
	{
		sim::waitIdle();
		checkRest(w, w.marking());
	}
	rest(w, false);
	// one more input: everything that was kept waiting runs now
	for (int i : inputsOf(S))
		if (w.ops[w.run1(O_INC, i)].ok != 1)
			FAIL("not-recovered", "input refused after threads can be started again: %s", w.ops.back().str.c_str());
	w.settle();
	auto m = w.marking();
	// kept actions of the job queue run at the latest when the next action is queued: with the inputs above
	// that is certain only if some input place has an on-enter action
	bool trig = S.mode != MD_J;
	for (int i : inputsOf(S))
		trig |= S.places[(size_t)i].en.on;
	if (trig)
		checkRest(w, m);
	checkConservation(w, m, "tokens-not-conserved", true);
	if (S.mode != MD_D)
	{
		if (trig)
			checkActionCounts(w, m);
	}
	else
		for (size_t p = 0; p < S.places.size(); p++)
			if (S.places[p].en.on && (w.cnt[p][0] < w.okIncs[p] || w.cnt[p][0] > w.tryIncs[p]))
				FAIL("action-count", "on-enter action of %s ran %d times for %d successful inputs (%d attempts)", S.places[p].name.c_str(),
				     w.cnt[p][0], w.okIncs[p], w.tryIncs[p]);
	w.run1(O_STOP);
	sim::waitIdle();
	shutdown(w);
}

// -------------------------------------------------------------------- C15 --
void genC15(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 4, 1, 0, 0);
	NetOpts o;
	o.ownConds = true;
	o.condTruePct = 85;
	o.reqPct = 50;
	o.actPct = 50;
	o.counterActPct = 0;
	o.bigPct = 4;
	genNet(R, S, o);
	S.variant = S.mode == MD_E ? 2 : R.n(2); // 0: conditions throw, 1: actions throw as well, 2: input actions throw in the caller
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	if (S.variant != 2)
		S.p1 = R.r(1, 4); // which evaluations throw
	if (S.variant == 1)
		for (auto &p : S.places)
			for (auto *a : { &p.en, &p.ex })
				if (a->on && R.p(50))
					a->thr = R.r(1, 3);
	if (S.variant == 2)
	{
		// only places that no transition feeds: their on-enter action runs in the caller only
		std::vector<uint8_t> fed(S.places.size());
		for (auto &t : S.trans)
			for (auto &a : t.dst)
				fed[(size_t)a.place] = 1;
		for (size_t i = 0; i < S.places.size(); i++)
			if (S.places[i].input && !fed[i] && S.places[i].en.on)
				S.places[i].en.thr = R.r(1, 3);
	}
	OpW w = { { 40, O_INC }, { 6, O_GET }, { 4, O_YIELD }, { 4, O_PROPS } };
	// a token whose input threw must be noticed without the watchdog
	const bool noTimer = S.variant == 2 && R.p(50);
	if (noTimer)
	{
		S.periodMs = 3600000;
		S.p2 = 1;
	}
	else
		w.push_back({ 10, O_COND });
	if (S.mode == MD_S)
		w.push_back({ 35, O_START });
	genClients(R, S, 1, 3, 2, 8, w);
	genConfig(R, S);
}
void bodyC15(World &w)
{
	const Scenario &S = w.S;
	Rng R{ S.dataSeed };
	if (S.p1 && S.mode == MD_S)
		for (size_t c = 0; c < S.condInit.size(); c++)
			if (R.p(60))
				w.condThrow[c] = R.r(1, (int)S.p1);
	begin(w);
	joinClients(w.spawnClients());
	sim::setNoFaults(true);
	for (auto &r : w.ops)
	{
		if (r.ok == 3)
		{
			// the error must come from a callback of this very call
			bool own = false, same = false;
			for (auto &[k, kind] : w.threw)
				if (k >= r.evInv && k < r.evRet && w.ev[k].tid == r.tid)
				{
					own = true;
					same |= World::isUserKind(S.dataSeed, kind, (int)r.val);
				}
			if (!own)
				FAIL("foreign-exception", "%s reported another call's callback failure", opNames[r.op.code]);
			if (!same)
				FAIL("other-exception", "%s passed on another exception than the one the callback threw", opNames[r.op.code]);
			continue;
		}
		if (r.ok != 1)
			FAIL("wrong-exception", "%s failed unexpectedly: %s", opNames[r.op.code], r.str.c_str());
		for (auto &[k, kind] : w.threw)
			if (k >= r.evInv && k < r.evRet && w.ev[k].tid == r.tid)
				FAIL("exception-swallowed", "%s threw but %s reported success", w.ev[k].type == E_COND ? "a condition" : "an action",
				     opNames[r.op.code]);
	}
	if (S.variant == 2 && S.p2)
	{
		sim::waitIdle();
		checkRest(w, w.marking());
	}
	// callbacks behave from now on: the engine must be fully usable
	w.callbacksOff = true;
	for (auto &c : w.cond)
		c = 1;
	for (int i : inputsOf(S))
		if (w.ops[w.run1(O_INC, i)].ok != 1)
			FAIL("not-recovered", "input refused after a callback had thrown: %s", w.ops.back().str.c_str());
	if (S.mode == MD_S)
	{
		if (w.ops[w.run1(O_START)].ok != 1)
			FAIL("not-recovered", "execute fails after a callback had thrown: %s", w.ops.back().str.c_str());
	}
	w.settle();
	auto m = w.marking();
	checkRest(w, m);
	checkViewsAgree(w, m);
	if (S.variant != 1)
		checkConservation(w, m, "tokens-not-conserved", S.variant == 2);
	if (S.variant == 0)
		checkActionCounts(w, m);
	if (S.mode == MD_E)
		w.run1(O_STOP);
	shutdown(w);
}

// -------------------------------------------------------------- C16 / C17 --
std::string readFile(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}
void writeFile(const std::string &p, const std::string &s)
{
	std::ofstream f(p, std::ios::binary | std::ios::trunc);
	f.write(s.data(), (std::streamsize)s.size());
}
// 1 ok, 0 PTN_Exception, 2 other exception
int tryExport(const PTN_Engine &e, const std::string &path, std::string *err = nullptr)
{
	sim::result()->counters[1]++;
	try
	{
		ptne::FileExporterFactory::createXMLFileExporter()->_export(e, path);
		return 1;
	}
	catch (const PTN_Exception &x)
	{
		if (err)
			*err = x.what();
		return 0;
	}
	catch (const std::exception &x)
	{
		if (err)
			*err = x.what();
		return 2;
	}
}
int tryImport(PTN_Engine &e, const std::string &path, std::string *err = nullptr)
{
	sim::result()->counters[1]++;
	try
	{
		ptne::FileImporterFactory::createXMLFileImporter()->_import(path, e);
		return 1;
	}
	catch (const PTN_Exception &x)
	{
		if (err)
			*err = x.what();
		return 0;
	}
	catch (const std::exception &x)
	{
		if (err)
			*err = x.what();
		return 2;
	}
}
std::string imageOf(const PTN_Engine &e)
{
	return World::placesText(e.getPlacesProperties()) + "#" + World::transText(e.getTransitionsProperties()) + "#" +
	       std::to_string((int)e.getActionsThreadOption());
}
const char *const oddNames[] = { "P<&>\"'", " lead and trail ", "pl\xc3\xa4tze", "a=b;c|d", "]]>", "<!-- x -->", "..", "/etc/x", "&amp;", "p:1",
	                             "two\nlines\tand\rmore", "  ", "true", "0", "PTN-Engine", "</Places>", "\xe6\x97\xa5\xe6\x9c\xac", "\x01\x7f", "\xff\xfe\x80" };
void genC16(Rng &R, Scenario &S)
{
	S.mode = R.n(4);
	NetOpts o;
	o.namedPct = 100;
	o.actPct = 40;
	o.reqPct = 30;
	o.condPct = 50;
	o.latePct = 30;
	o.maxP = 6;
	o.maxT = 5;
	o.bigPct = 8;
	genNet(R, S, o);
	for (auto &p : S.places)
		if (R.p(10))
		{
			bool fed = false;
			for (auto &t : S.trans)
				for (auto &a : t.dst)
					fed |= a.place == (int)(&p - S.places.data());
			p.init = R.pick<uint64_t>({ 1000000ull, 4294967296ull, (1ull << 53) + 1, 9223372036854775807ull, fed ? 5 : ~0ull - 8 });
		}
	for (auto &t : S.trans)
		for (auto *v : { &t.act, &t.inh })
			for (auto &a : *v)
				if (R.p(5) && a.late < 2)
					a.w = R.pick<uint64_t>({ 1000ull, 5000000000ull, (1ull << 53) + 1, (1ull << 63) + 3, ~0ull - 4 });
	S.variant = R.n(9);
	S.p1 = (long)(R.next() % 100000);
	S.p2 = R.n(4);
	S.p3 = R.n(1000);
	S.periodMs = 1;
	S.startFirst = 0;
	CfgOpts c;
	c.race = S.variant == 8;
	addBuilding(R, S, 0, 25, 0);
	genConfig(R, S, c);
}
// The scenario's net in the layout of the sample net that comes with the engine: transitions list their own arcs;
// a part of the arcs stands in the list of arcs all the same.
std::string otherLayout(const Scenario &S, Rng &R)
{
	auto esc = [](const std::string &s)
	{
		std::string o;
		for (unsigned char c : s)
			if (c < 32 || strchr("<>&\"'", c))
				o += "&#" + std::to_string(c) + ";";
			else
				o += (char)c;
		return o;
	};
	static const char *const modes[] = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
	std::string o = std::string("<?xml version=\"1.0\"?>\n<PTN-Engine actionsThreadOption=\"") + modes[S.mode] + "\">\n<Places>\n", arcs;
	for (auto &p : S.places)
	{
		o += " <Place name=\"" + esc(p.name) + "\"";
		if (p.init || R.p(50))
			o += " tokens=\"" + std::to_string(p.init) + "\"";
		if (p.input || R.p(50))
			o += std::string(" input=\"") + (p.input ? "true" : "false") + "\"";
		if (p.en.on)
			o += " onEnterAction=\"" + esc("en_" + p.name) + "\"";
		if (p.ex.on)
			o += " onExitAction=\"" + esc("ex_" + p.name) + "\"";
		o += "/>\n";
	}
	o += "</Places>\n<Transitions>\n";
	for (auto &t : S.trans)
	{
		o += " <Transition>\n  <Name value=\"" + esc(t.name) + "\"/>\n";
		auto far = [&](const ArcS &a, const char *type)
		{
			arcs += " <Arc><Place value=\"" + esc(S.places[(size_t)a.place].name) + "\"/><Transition value=\"" + esc(t.name) + "\"/><Weight value=\"" +
			        std::to_string(a.w) + "\"/><Type value=\"" + type + "\"/></Arc>\n";
		};
		std::set<int> both;
		for (auto &a : t.act)
			for (auto &d : t.dst)
				if (a.place == d.place && a.w == d.w && R.p(60))
				{
					both.insert(a.place);
					far(a, "Bidirectional");
				}
		auto near = [&](const std::vector<ArcS> &v, const char *list, const char *elem, const char *type)
		{
			o += std::string("  <") + list + ">\n";
			for (auto &a : v)
				if (both.count(a.place) && *type != 'I')
					continue;
				else if (R.p(30))
					far(a, type);
				else
				{
					o += std::string("   <") + elem + " name=\"" + esc(S.places[(size_t)a.place].name) + "\"";
					if (a.w != 1 || R.p(30))
						o += " weight=\"" + std::to_string(a.w) + "\"";
					o += "/>\n";
				}
			o += std::string("  </") + list + ">\n";
		};
		near(t.act, "ActivationPlaces", "ActivationPlace", "Activation");
		near(t.dst, "DestinationPlaces", "DestinationPlace", "Destination");
		near(t.inh, "InhibitorPlaces", "InhibitorPlace", "Inhibitor");
		o += "  <ActivationConditions>\n";
		if (t.namedConds)
			for (int c : t.conds)
				o += "   <ActivationCondition name=\"cond_" + std::to_string(c) + "\"/>\n";
		o += std::string("  </ActivationConditions>\n  <RequireNoActionsInExecution value=\"") + (t.req ? "true" : "false") + "\"/>\n </Transition>\n";
	}
	o += "</Transitions>\n";
	if (!arcs.empty() || R.p(50))
		o += "<Arcs>\n" + arcs + "</Arcs>\n";
	return o + "</PTN-Engine>\n";
}
void bodyC16(World &w1)
{
	Scenario S = w1.S;
	if (S.p3 % 3 == 0)
	{
		// names that need care in a file
		const size_t n = sizeof oddNames / sizeof *oddNames;
		size_t k = (size_t)S.p3;
		for (auto &p : S.places)
			if (k++ % 2)
				p.name = oddNames[k % n] + (k % 3 ? p.name : std::string());
		for (auto &t : S.trans)
			if (k++ % 2)
				t.name = oddNames[k % n] + (k % 3 ? t.name : std::string());
		std::set<std::string> seen;
		for (auto &p : S.places)
			while (!seen.insert(p.name).second)
				p.name += "'";
		seen.clear();
		for (auto &t : S.trans)
			while (!seen.insert(t.name).second)
				t.name += "'";
	}
	World w(S);
	const std::string f = g_scratch + "/net.xml", d = g_scratch + "/dir";
	unlink(f.c_str());
	w.create();
	PTN_Engine &e = *w.eng;
	const std::string img = imageOf(e);
	std::string err;
	auto fresh = [&](int mode)
	{
		auto x = std::make_unique<PTN_Engine>((Mode)mode);
		w.registerAll(*x);
		return x;
	};
	auto mustImport = [&](const char *when)
	{
		auto x = fresh((int)S.p2);
		const auto ran = [&] { return w.condEvals + sim::result()->counters[2]; };
		sim::waitIdle();
		const uint64_t before = ran();
		if (tryImport(*x, f, &err) != 1)
			FAIL("import-failed", "%s: importing the exported file failed: %s", when, err.c_str());
		if (imageOf(*x) != img)
			FAIL("round-trip-differs", "%s: exported %s\nimported %s", when, img.c_str(), imageOf(*x).c_str());
		sim::waitIdle();
		if (ran() != before)
			FAIL("import-runs-functions", "%s: importing ran functions of the user", when);
	};
	if (S.variant == 0 || S.variant == 1)
	{
		// no fault
		if (tryExport(e, f, &err) != 1)
			FAIL("export-failed", "export failed: %s", err.c_str());
		if (imageOf(e) != img)
			FAIL("export-changes-net", "exporting changed the net");
		mustImport("no fault");
		// exporting the imported net gives the same net again
		auto x = fresh((int)S.p2);
		tryImport(*x, f);
		if (tryExport(*x, f, &err) != 1)
			FAIL("export-failed", "second export failed: %s", err.c_str());
		mustImport("second generation");
		// one exporter object used twice
		auto ex = ptne::FileExporterFactory::createXMLFileExporter();
		PTN_Engine other(Mode::EVENT_LOOP);
		PlaceProperties lone;
		lone.name = "Lone";
		lone.initialNumberOfTokens = 7;
		other.createPlace(lone);
		ex->_export(S.p1 % 2 ? other : e, f);
		if (S.p1 % 3 == 0)
			try
			{
				ex->_export(e, g_scratch + "/missing/net.xml");
				FAIL("failed-export-unreported", "an export into a directory that does not exist reported success");
			}
			catch (const PTN_Exception &)
			{
			}
		ex->_export(e, f);
		mustImport("exporter used twice");
		// a file in the other layout describes the same net
		bool plain = true; // no control characters, which no file can hold
		for (auto &p : S.places)
			plain &= p.name.find_first_of("\x01\x7f\xff") == std::string::npos;
		for (auto &t : S.trans)
			plain &= t.name.find_first_of("\x01\x7f\xff") == std::string::npos;
		Rng R{ S.dataSeed };
		if (plain && std::all_of(S.trans.begin(), S.trans.end(), [](const TransS &t) { return t.namedConds || t.conds.empty(); }))
		{
			writeFile(f, otherLayout(S, R));
			mustImport("other layout");
		}
		// what no file can hold is refused
		{
			PTN_Engine odd((Mode)S.mode);
			const std::string nul("a\0b", 3);
			PlaceProperties pp;
			pp.name = S.p1 % 4 == 0 ? nul : "P";
			if (S.p1 % 4 == 1)
			{
				odd.registerAction(nul, [] {});
				pp.onExitActionFunctionName = nul;
			}
			odd.createPlace(pp);
			ptne::TransitionProperties tp;
			tp.name = S.p1 % 4 == 2 ? nul : "T";
			if (S.p1 % 4 == 3)
			{
				odd.registerCondition(nul, [] { return true; });
				tp.additionalConditionsNames = { nul };
			}
			tp.activationArcs = { { 1, pp.name, tp.name, ptne::ArcProperties::Type::ACTIVATION } };
			odd.createTransition(tp);
			PTN_Engine back((Mode)S.mode);
			if (S.p1 % 4 == 1)
				back.registerAction(nul, [] {});
			if (S.p1 % 4 == 3)
				back.registerCondition(nul, [] { return true; });
			if (tryExport(odd, f, &err) == 1 && (tryImport(back, f, &err) != 1 || imageOf(odd) != imageOf(back)))
				FAIL("round-trip-differs", "an export of names with a null character reported success, but the file holds something else");
		}
		// one importer object used for several files, one of them cut off
		tryExport(e, f, &err);
		const std::string full = readFile(f);
		auto im = ptne::FileImporterFactory::createXMLFileImporter();
		for (int k = 0; k < 4; k++)
		{
			const int what = R.n(3);
			writeFile(f, what == 1 ? full.substr(0, (size_t)R.n((int)full.size() - 8)) : what == 2 ? "<PTN-Engine actionsThreadOption=\"JOB_QUEUE\"><Places><Place name=\"Lone\"/></Places></PTN-Engine>" : full);
			auto x2 = fresh((int)S.p2);
			const std::string before = imageOf(*x2);
			bool ok = true;
			try
			{
				im->_import(f, *x2);
			}
			catch (const PTN_Exception &x)
			{
				ok = false;
				err = x.what();
			}
			const std::string now = imageOf(*x2);
			if (ok != (what != 1))
				FAIL(ok ? "torn-file-accepted" : "import-failed", "importing with an importer used before: %s", ok ? "a cut file was accepted" : err.c_str());
			if (now != (what == 1 ? before : what == 2 ? "Lone|0|||;##3" : img))
				FAIL("round-trip-differs", "an importer used before (file of kind %d): imported %s", what, now.c_str());
		}
	}
	else if (S.variant == 8)
	{
		// several clients export and import at the same time
		std::vector<int> ids;
		std::vector<std::unique_ptr<PTN_Engine>> mine;
		for (int c = 0; c < 2 + (int)(S.p3 % 2); c++)
			mine.push_back(fresh((int)S.p2));
		std::vector<uint8_t> full(mine.size(), 0);
		for (int c = 0; c < (int)mine.size(); c++)
			ids.push_back(sim::spawn(("client" + std::to_string(c)).c_str(),
			                         [&, c]
			                         {
				                         const std::string own = f + std::to_string(c);
				                         std::string why;
				                         for (int k = 0; k < 2; k++)
				                         {
					                         const PTN_Engine &src = k && full[(size_t)c] ? *mine[(size_t)c] : e;
					                         if (tryExport(src, own, &why) != 1)
						                         FAIL("export-failed", "one of several exports at the same time failed: %s", why.c_str());
					                         auto x = fresh((int)S.p2);
					                         if (tryImport(*x, own, &why) != 1)
						                         FAIL("import-failed", "one of several imports at the same time failed: %s", why.c_str());
					                         if (imageOf(*x) != img || imageOf(e) != img)
						                         FAIL("round-trip-differs", "several clients at the same time: exported %s\nimported %s", img.c_str(), imageOf(*x).c_str());
					                         std::swap(mine[(size_t)c], x);
					                         full[(size_t)c] = 1;
				                         }
				                         unlink(own.c_str());
			                         }));
		joinClients(ids);
	}
	else if (S.variant == 2)
	{
		// the disk fills up while writing
		if (tryExport(e, f, &err) != 1)
			FAIL("export-failed", "export failed: %s", err.c_str());
		const std::string full = readFile(f);
		const long lim = S.p1 % ((long)full.size() + 40);
		unlink(f.c_str());
		rlimit rl{ (rlim_t)lim, RLIM_INFINITY }, old{};
		getrlimit(RLIMIT_FSIZE, &old);
		rl.rlim_max = old.rlim_max;
		setrlimit(RLIMIT_FSIZE, &rl);
		const int r = tryExport(e, f, &err);
		setrlimit(RLIMIT_FSIZE, &old);
		sim::countFault(sim::F_DISK_SHORT);
		if (r == 1)
		{
			if ((long)full.size() > lim)
				FAIL("failed-export-unreported", "only %ld of %zu bytes could be written but the export reported success", lim, full.size());
			mustImport("limit not reached");
		}
		else if ((long)full.size() <= lim)
			FAIL("export-failed", "export failed: %s", err.c_str());
		if (imageOf(e) != img)
			FAIL("export-changes-net", "a failed export changed the net");
		if (tryExport(e, f, &err) != 1)
			FAIL("export-failed", "export after a failed one: %s", err.c_str());
		mustImport("after a failed export");
	}
	else if (S.variant == 3)
	{
		sim::countFault(sim::F_DISK_FULL);
		if (tryExport(e, "/dev/full", &err) == 1)
			FAIL("failed-export-unreported", "exporting to a full device reported success");
	}
	else if (S.variant == 4)
	{
		sim::countFault(sim::F_DISK_OPEN);
		mkdir(d.c_str(), 0700);
		std::string path = S.p3 % 3 == 0 ? d : g_scratch + "/missing/net.xml";
		if (S.p3 % 3 == 2)
		{
			// no file descriptor left
			path = f;
			rlimit rl{ 3, 0 }, old{};
			getrlimit(RLIMIT_NOFILE, &old);
			int lo = dup(0);
			close(lo);
			rl.rlim_cur = (rlim_t)lo;
			rl.rlim_max = old.rlim_max;
			setrlimit(RLIMIT_NOFILE, &rl);
			const int r = tryExport(e, path, &err);
			auto x = fresh((int)S.p2);
			const std::string before = imageOf(*x);
			const int r2 = tryImport(*x, path, &err);
			const std::string after = imageOf(*x);
			setrlimit(RLIMIT_NOFILE, &old);
			if (r == 1)
				FAIL("failed-export-unreported", "no file could be opened but the export reported success");
			if (r2 == 1 || before != after)
				FAIL("failed-import-unreported", "no file could be opened but the import reported success or changed the engine");
		}
		else
		{
			if (tryExport(e, path, &err) == 1)
				FAIL("failed-export-unreported", "no file could be created but the export reported success");
			auto x = fresh((int)S.p2);
			const std::string before = imageOf(*x);
			if (tryImport(*x, path, &err) == 1 || imageOf(*x) != before)
				FAIL("failed-import-unreported", "importing from a path that cannot be read reported success or changed the engine");
		}
	}
	else if (S.variant <= 6)
	{
		// the file was cut off (crash while writing)
		if (tryExport(e, f, &err) != 1)
			FAIL("export-failed", "export failed: %s", err.c_str());
		const std::string full = readFile(f);
		for (int i = 0; i < 12; i++)
		{
			const size_t cut = i == 0 ? 0 : i == 1 ? full.size() - 1 : i == 2 ? full.size() - 2 : (size_t)sim::rnd() % full.size();
			writeFile(f, full.substr(0, cut));
			sim::countFault(sim::F_DISK_TORN);
			auto x = fresh((int)S.p2);
			if (i & 1)
			{
				// the engine has a net already
				PlaceProperties pp;
				pp.name = "Already here";
				pp.initialNumberOfTokens = 3;
				x->createPlace(pp);
				x->setEventLoopSleepDuration(std::chrono::milliseconds(1));
			}
			const std::string before = imageOf(*x);
			const int r = tryImport(*x, f, &err);
			const std::string after = imageOf(*x);
			if (r == 1 && after != img && !(i & 1 && cut + 2 >= full.size()))
				FAIL("torn-file-accepted", "the first %zu of %zu bytes were imported as a different net: %s", cut, full.size(), after.c_str());
			if (r != 1 && after != before)
				FAIL("failed-import-has-effect", "importing the first %zu of %zu bytes failed (%s) but changed the engine: %s", cut, full.size(),
				     err.c_str(), after.c_str());
			if (r == 2)
				FAIL("wrong-exception", "importing a cut file failed with a foreign exception: %s", err.c_str());
		}
		// the file names what does not exist
		static const char *const wrong[][2] = { { "actionsThreadOption=\"", "No" },      { "<Type value=\"", "No" },
			                                    { "<RequireNoActionsInExecution value=\"", "not" }, { "<Weight value=\"", "x" },
			                                    { "<Weight value=\"", "0\" x=\"" },       { "<Place value=\"", "no " },
			                                    { "<Transition value=\"", "no " },        { "<ActivationCondition name=\"", "no " },
			                                    { "onEnterAction=\"", "no " },            { "onExitAction=\"", "no " },
			                                    { " tokens=\"", "x" },                    { " tokens=\"", "-" },
			                                    { " input=\"", "un" },                    { "<Weight value=\"", "-" },
			                                    { " tokens=\"", "7 " },                   { "<Weight value=\"", "7." } };
		for (int i = 0; i < 4; i++)
		{
			const auto &[what, insert] = wrong[sim::rnd() % (sizeof wrong / sizeof *wrong)];
			std::vector<size_t> at;
			for (size_t p = full.find(what); p != std::string::npos; p = full.find(what, p + 1))
				at.push_back(p + strlen(what));
			if (at.empty())
				continue;
			std::string bad = full;
			bad.insert(at[sim::rnd() % at.size()], insert);
			writeFile(f, bad);
			auto x = fresh((int)S.p2);
			const int r = tryImport(*x, f, &err);
			if (r == 1)
				FAIL("wrong-file-accepted", "a file with %s%s... was imported as %s", what, insert, imageOf(*x).c_str());
			if (r == 2)
				FAIL("wrong-exception", "importing a file with %s%s... failed with a foreign exception: %s", what, insert, err.c_str());
		}
		writeFile(f, full);
		mustImport("restored file");
	}
	else
	{
		// a running engine cannot be exported; the file stays as it was
		writeFile(f, "precious");
		const bool wasS = S.mode == MD_S;
		if (!wasS)
		{
			for (auto &c : w.cond)
				c = 0;
			w.run1(O_START);
			const int r = tryExport(e, f, &err);
			if (r == 1)
				FAIL("running-engine-exported", "a running engine was exported");
			if (readFile(f) != "precious")
				FAIL("refused-export-has-effect", "the refused export changed the file: %s", readFile(f).c_str());
			w.run1(O_STOP);
		}
		const std::string now = imageOf(e);
		if (tryExport(e, f, &err) != 1)
			FAIL("export-failed", "export failed: %s", err.c_str());
		auto x = fresh((int)S.p2);
		// importing stops a running engine first
		if (S.p2 != MD_S && S.p3 & 1)
			x->execute();
		if (tryImport(*x, f, &err) != 1)
			FAIL("import-failed", "import failed: %s", err.c_str());
		if (x->isEventLoopRunning())
			FAIL("import-into-running", "the engine runs right after an import");
		if (imageOf(*x) != now)
			FAIL("round-trip-differs", "exported %s\nimported %s", now.c_str(), imageOf(*x).c_str());
	}
	unlink(f.c_str());
	rmdir(d.c_str());
	sim::setNoFaults(true);
	shutdown(w);
}

void genC17(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 2, 3, 2, 4);
	NetOpts o;
	o.namedPct = 100;
	o.actPct = 40;
	o.slowPct = 10;
	o.condPct = 30;
	o.reqPct = R.p(30) ? 30 : 0;
	o.bigPct = 3;
	o.slowCondPct = 5;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50 });
	S.p1 = R.r(1, 4);     // crash cycles
	S.p2 = R.n(40);       // when
	S.p3 = (long)(R.next() % 1000000);
	OpW w = { { 70, O_INC }, { 8, O_COND }, { 8, O_GET }, { 8, O_YIELD } };
	if (S.mode == MD_S)
		w.push_back({ 20, O_START });
	genClients(R, S, 1, 2, 1, 4, w);
	addBuilding(R, S, 0, 15, 0);
	genConfig(R, S);
}
// The engine works, is stopped and exported (checkpoint), works on, and is lost; a new engine is
// loaded from the checkpoint.  The tokens of the new engine must be exactly those at the checkpoint,
// and it must work on from there, crash after crash.
void bodyC17(World &w)
{
	const Scenario &S = w.S;
	Rng R{ S.dataSeed };
	const std::string f = g_scratch + "/ckpt.xml";
	unlink(f.c_str());
	w.create();
	std::string err, img;
	std::vector<std::unique_ptr<PTN_Engine>> graveyard;
	auto checkAndReset = [&]
	{
		auto m = w.marking();
		checkConservation(w, m);
		w.base = m;
		std::fill(w.okIncs.begin(), w.okIncs.end(), 0);
		std::fill(w.tryIncs.begin(), w.tryIncs.end(), 0);
	};
	for (int cycle = 0; cycle < (int)S.p1; cycle++)
	{
		// work
		if (S.mode != MD_S && !w.eng->isEventLoopRunning())
			w.run1(O_START);
		joinClients(w.spawnClients());
		for (long i = 0; i < S.p2; i++)
			sim::point();
		// checkpoint: stop, export
		if (S.mode != MD_S)
			w.run1(O_STOP);
		checkAndReset();
		img = imageOf(*w.eng);
		// inputs may arrive meanwhile: the checkpoint then holds the marking of one moment
		const bool busy = S.p3 % 3 == 0 && R.p(50);
		const size_t firstOp = w.ops.size();
		std::vector<int> feeder;
		if (busy)
		{
			std::vector<int> at;
			const auto in = inputsOf(S);
			for (int i = R.r(2, 12); i-- > 0 && !in.empty();)
				at.push_back(in[(size_t)R.n((int)in.size())]);
			feeder.push_back(sim::spawn("feeder",
			                            [&w, at]
			                            {
				                            for (int i : at)
					                            w.run1(O_INC, i);
			                            }));
			for (int i = R.n(30); i-- > 0;)
				sim::point();
		}
		if (tryExport(*w.eng, f, &err) != 1)
			FAIL("export-failed", "export failed: %s", err.c_str());
		joinClients(feeder);
		const size_t endOp = w.ops.size();
		if (!busy && imageOf(*w.eng) != img)
			FAIL("export-changes-net", "exporting changed the net");
		// work on, crash
		if (S.mode != MD_S)
			w.run1(O_START);
		else if (R.p(50))
			w.run1(O_START);
		for (int i : inputsOf(S))
			if (R.p(60))
				w.run1(O_INC, i);
		const int more = R.n(50);
		for (int i = 0; i < more; i++)
			sim::point();
		sim::countFault(sim::F_CRASH);
		w.run1(O_DESTROY);
		w.engineGone = false;
		// restart: a new process would register the callbacks and load the file
		w.eng = std::make_unique<PTN_Engine>((Mode)R.n(4));
		w.registerAll(*w.eng);
		if (tryImport(*w.eng, f, &err) != 1)
			FAIL("import-failed", "loading the checkpoint failed: %s", err.c_str());
		w.eng->setEventLoopSleepDuration(std::chrono::milliseconds(S.periodMs));
		if (busy)
		{
			std::vector<long> ins;
			for (size_t p = 0; p < S.places.size(); p++)
			{
				const long n = (long)(w.eng->getNumberOfTokens(S.places[p].name) - w.base[p]);
				if (n < 0 || n > w.tryIncs[p])
					FAIL("checkpoint-differs", "place %s had %llu tokens and got %d inputs, the checkpoint has %ld more", S.places[p].name.c_str(),
					     (unsigned long long)w.base[p], w.tryIncs[p], n);
				ins.push_back(n);
			}
			checkOneMoment(w, ins, "the checkpoint", firstOp, endOp);
		}
		else if (imageOf(*w.eng) != img)
			FAIL("checkpoint-differs", "checkpoint %s\nrestored %s", img.c_str(), imageOf(*w.eng).c_str());
		std::fill(w.okIncs.begin(), w.okIncs.end(), 0);
		std::fill(w.tryIncs.begin(), w.tryIncs.end(), 0);
		for (size_t p = 0; p < S.places.size(); p++)
			w.base[p] = w.eng->getNumberOfTokens(S.places[p].name);
	}
	sim::waitIdle();
	// the restored engine works like the original: callbacks are called, the net comes to rest
	for (auto &c : w.cnt)
		std::fill(c.begin(), c.end(), 0);
	for (auto &c : w.done)
		std::fill(c.begin(), c.end(), 0);
	w.inAction = 0;
	sim::setNoFaults(true);
	sim::sleepNs(5000000000ull);
	sim::waitIdle();
	for (auto &c : w.cnt)
		std::fill(c.begin(), c.end(), 0);
	for (auto &c : w.done)
		std::fill(c.begin(), c.end(), 0);
	w.inAction = 0;
	for (int i : inputsOf(S))
		w.run1(O_INC, i);
	rest(w);
	auto m = w.marking();
	checkRest(w, m);
	checkConservation(w, m);
	checkActionCounts(w, m);
	unlink(f.c_str());
	shutdown(w);
}

// -------------------------------------------------------------------- C18 --
void genC18(Rng &R, Scenario &S)
{
	S.mode = pickMode(R, 0, 2, 3, 4);
	NetOpts o;
	o.actPct = 60;
	o.condPct = 30;
	o.maxP = 4;
	o.maxT = 3;
	o.bigPct = 4;
	genNet(R, S, o);
	S.periodMs = 3600000;
	S.variant = R.n(2); // 1: the second engine has all its actions blocked
	S.p1 = R.n(4);      // mode of the second engine
	S.p3 = R.p(50);     // the second engine is executed by one of its clients
	S.p2 = R.n(40);     // when the second engine is destroyed
	genClients(R, S, 2, 3, 2, 6, { { 70, O_INC }, { 10, O_GET }, { 10, O_YIELD }, { 4, O_PROPS }, { 4, O_RUNNING } });
	CfgOpts c;
	c.stall = c.timeAdv = 0;
	c.race = R.p(40);
	genConfig(R, S, c);
}
void bodyC18(World &w)
{
	const Scenario &S = w.S;
	Scenario S2 = S;
	S2.mode = (int)S.p1;
	S2.periodMs = S.periodMs + 7;
	S2.clients.resize(1);
	if (S.variant)
		for (auto &p : S2.places)
			p.en.gate = p.ex.gate = 1;
	World w2(S2);
	w.create();
	w2.create();
	if (S.p3)
	{
		Op o;
		o.code = O_START;
		S2.clients[0].insert(S2.clients[0].begin() + std::min<long>((long)S2.clients[0].size(), S.p2 % 3), o);
	}
	if (S2.mode != MD_S && !(S.p3 && S.p2 & 1))
		w2.run1(O_START);
	w.run1(O_START);
	auto i2 = w2.spawnClients("other");
	auto ids = w.spawnClients();
	joinClients(ids);
	noIdle(w);
	for (long i = 0; i < S.p2; i++)
		sim::point();
	sim::waitIdle();
	// engine one is at rest whatever engine two does
	auto m = w.marking();
	checkRest(w, m);
	checkConservation(w, m, "tokens-not-conserved");
	checkActionCounts(w, m);
	if (sim::idleAdvances())
		FAIL("call-waited", "something waited for a timer");
	if (S.variant && !async(S2.mode))
	{
		// its threads, and those of its clients, are inside blocked actions
		w2.openGates();
		sim::waitIdle();
	}
	joinClients(i2);
	if (S2.mode != MD_S && !w2.eng->isEventLoopRunning())
		w2.run1(O_START);
	sim::waitIdle();
	auto m2 = w2.marking();
	if (S2.mode != MD_S)
		checkRest(w2, m2);
	checkConservation(w2, m2, "tokens-not-conserved");
	w2.openGates();
	sim::waitIdle();
	checkActionCounts(w2, m2);
	if (w.eng->getEventLoopSleepDuration().count() != S.periodMs || w2.eng->getEventLoopSleepDuration().count() != S2.periodMs ||
	    (int)w.eng->getActionsThreadOption() != S.mode || (int)w2.eng->getActionsThreadOption() != S2.mode)
		FAIL("setting-of-another", "the period or the actions thread option of an engine is that of another one");
	// destroying one leaves the other working
	w2.callbacksOff = true;
	w2.run1(O_DESTROY);
	for (int i : inputsOf(S))
		w.run1(O_INC, i);
	sim::waitIdle();
	auto m3 = w.marking();
	checkRest(w, m3);
	checkActionCounts(w, m3);
	noIdle(w);
	w.run1(O_STOP);
	sim::setNoFaults(true);
	sim::waitIdle();
	shutdown(w);
}
// -------------------------------------------------------------------- C19 --
void genC19(Rng &R, Scenario &S)
{
	auto n = [&](bool many) { return many ? R.r(1, 40) : R.r(1, 5); };
	S.longNames = R.p(50);
	S.p2 = R.r(1, 14); // the constructor's allocation that fails at first
	if (R.p(50))
	{
		// variant 0: building, changing and querying
		genC12(R, S);
		const int nP = (int)S.places.size();
		const int pct = R.pick<int>({ 20, 50 });
		for (auto &c : S.clients)
			for (auto &x : c)
				if (R.p(pct) && x.code != O_STOP && x.code != O_PRINT && !(x.code == O_INC && (x.a < 0 || x.a >= nP)))
					x.f = x.code == O_ADDARC || x.code == O_RMARC ? R.r(1, 20) : n(R.p(30));
		if (S.longNames)
		{
			for (auto &p : S.places)
				p.name = "a_long_name_of_a_place_that_needs_memory_" + p.name;
			for (auto &t : S.trans)
				t.name = "a_long_name_of_a_transition_that_needs_memory_" + t.name;
		}
		return;
	}
	S.variant = 1; // inputs and starts of a net that runs
	S.mode = pickMode(R, 0, 2, 4, 6);
	NetOpts o;
	o.actPct = 70;
	o.counterActPct = S.mode == MD_D ? 0 : 30;
	o.slowPct = 15;
	o.reqPct = R.p(50) ? 50 : 0;
	o.condTruePct = 100;
	genNet(R, S, o);
	S.periodMs = R.pick<long>({ 10, 50, 100 });
	S.startFirst = R.p(50);
	genClients(R, S, 1, 3, 2, 7,
	           { { 60, O_INC }, { 20, O_START }, { 10, O_STOP }, { 6, O_YIELD }, { 6, O_GET }, { 4, O_RUNNING }, { 4, O_PROPS }, { 3, O_PRINT } });
	genConfig(R, S);
	for (int i : inputsOf(S))
		if (R.p(60))
			S.places[(size_t)i].en.on = 1;
	const int pct = R.pick<int>({ 20, 60 });
	for (auto &c : S.clients)
		for (auto &x : c)
			if (R.p(pct) && x.code != O_STOP && x.code != O_PRINT)
				x.f = x.code == O_INC ? R.r(1, 10) : n(R.p(30));
}
void bodyC19(World &w)
{
	const Scenario &S = w.S;
	{
		bool failed = false;
		sim::allocFailArm((uint32_t)S.p2);
		try
		{
			PTN_Engine e((Mode)S.mode);
			sim::allocFailArm(0, &failed);
			failed = false;
		}
		catch (const std::bad_alloc &)
		{
			sim::allocFailArm(0, &failed);
		}
		std::string what;
		if (uint64_t n = failed ? sim::leakedBlocks(&what) : 0)
			FAIL("leak", "%llu memory blocks leaked by a constructor that failed: %s", (unsigned long long)n, what.c_str());
	}
	begin(w);
	joinClients(w.spawnClients());
	sim::setNoFaults(true);
	for (auto &r : w.ops)
	{
		if (r.ok == 4 && !r.fired)
			FAIL("wrong-exception", "%s reports that memory is short, which it is not", opNames[r.op.code]);
		if (!r.fired && r.ok > 1)
			FAIL("wrong-exception", "%s failed unexpectedly: %s", opNames[r.op.code], r.str.c_str());
	}
	if (S.variant == 0)
	{
		probeNet(w);
		std::vector<const OpRec *> h;
		for (auto &r : w.ops)
			h.push_back(&r);
		checkLinearizable(w, h, NetModel(w), "failed-allocation-has-effect");
		w.run1(O_STOP);
	}
	else
	{
		std::vector<const OpRec *> h;
		for (auto &r : w.ops)
			if (r.op.code == O_START || r.op.code == O_STOP || r.op.code == O_RUNNING)
				h.push_back(&r);
		checkLinearizable(w, h, NetModel(w), "failed-allocation-has-effect");
		rest(w, false);
		for (int i : inputsOf(S))
			if (w.ops[w.run1(O_INC, i)].ok != 1)
				FAIL("not-recovered", "input refused when memory can be allocated again: %s", w.ops.back().str.c_str());
		w.settle();
		auto m = w.marking();
		// kept actions of the job queue run at the latest when the next action is queued
		bool trig = S.mode != MD_J;
		for (int i : inputsOf(S))
			trig |= S.places[(size_t)i].en.on;
		if (trig)
			checkRest(w, m);
		checkConservation(w, m, "tokens-not-conserved", true);
		for (size_t p = 0; trig && p < S.places.size(); p++)
		{
			long en = w.okIncs[p], ex = 0;
			for (auto &t : S.trans)
			{
				for (auto &a : t.dst)
					en += a.place == (int)p ? (long)w.fires(t, m) : 0;
				for (auto &a : t.act)
					ex += a.place == (int)p ? (long)w.fires(t, m) : 0;
			}
			const long slack = w.tryIncs[p] - w.okIncs[p];
			if (S.places[p].en.on && (w.done[p][0] < en || w.done[p][0] > en + slack))
				FAIL("action-count", "on-enter action of %s ran %d times, tokens entered %ld times (and %ld inputs failed)",
				     S.places[p].name.c_str(), w.done[p][0], en, slack);
			if (S.places[p].ex.on && w.done[p][1] != ex)
				FAIL("action-count", "on-exit action of %s ran %d times, tokens left %ld times", S.places[p].name.c_str(), w.done[p][1], ex);
		}
		w.run1(O_STOP);
	}
	sim::waitIdle();
	shutdown(w);
	if (w.life.use_count() != 1)
		FAIL("leak", "%ld user callbacks are still alive after the engine is gone", w.life.use_count() - 1);
	std::string what;
	if (uint64_t n = sim::leakedBlocks(&what))
		FAIL("leak", "%llu memory blocks leaked: %s", (unsigned long long)n, what.c_str());
}

} // namespace

const std::vector<Profile> &profiles()
{
	static const std::vector<Profile> v = {
		{ "C01", genC01, bodyC01 }, { "C02", genC02, bodyC02 }, { "C03", genC03, bodyC03 }, { "C04", genC04, bodyC04 },
		{ "C05", genC05, bodyC05 }, { "C06", genC06, bodyC06 }, { "C07", genC07, bodyC07 }, { "C08", genC08, bodyC08 },
		{ "C09", genC09, bodyC09 }, { "C10", genC10, bodyC10 }, { "C11", genC11, bodyC11 }, { "C12", genC12, bodyC12 },
		{ "C13", genC13, bodyC13 }, { "C14", genC14, bodyC14 }, { "C15", genC15, bodyC15 }, { "C16", genC16, bodyC16 },
		{ "C17", genC17, bodyC17 }, { "C18", genC18, bodyC18 }, { "C19", genC19, bodyC19 },
	};
	return v;
}
