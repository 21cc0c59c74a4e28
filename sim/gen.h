// Random scenario generation helpers.
#pragma once
#include "scenario.h"
#include <algorithm>
#include <initializer_list>
#include <utility>

struct Rng
{
	uint64_t s;
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	int n(int k) // 0..k-1
	{
		return k <= 1 ? 0 : (int)(next() % (uint64_t)k);
	}
	int r(int lo, int hi) // inclusive
	{
		return lo + n(hi - lo + 1);
	}
	bool p(int pct)
	{
		return n(100) < pct;
	}
	template <typename T>
	T pick(std::initializer_list<T> l)
	{
		return *(l.begin() + n((int)l.size()));
	}
	template <typename T>
	const T &of(const std::vector<T> &v)
	{
		return v[(size_t)n((int)v.size())];
	}
};

struct NetOpts
{
	int minP = 2, maxP = 5, minT = 1, maxT = 4;
	int actPct = 40;     // on-enter / on-exit actions
	int counterActPct = 0;
	int slowPct = 0;     // of the actions
	int maxDur = 300;
	int condPct = 30;    // transitions with a shared condition
	bool ownConds = false; // every transition gets 1..2 conditions of its own
	int condTruePct = 80;
	int inhibPct = 30;
	int reqPct = 0;
	int latePct = 20;
	int namedPct = 50;
	int cyclePct = 25;
	bool pureInputs = false; // input places have no incoming arcs
	int maxInit = 3;
	int bigPct = 0;      // nets with many elements
	int sourcePct = 3;   // transitions without activation arcs
	int widePct = 3;     // nets with transitions that have many arcs and conditions
	int slowCondPct = 0; // nets whose conditions take time
};

inline void genNet(Rng &R, Scenario &S, const NetOpts &o)
{
	const bool big = R.p(o.bigPct);
	const int nP = big ? R.r(8, 24) : R.r(o.minP, o.maxP), nT = big ? R.r(5, 24) : R.r(o.minT, o.maxT);
	auto action = [&](int pct)
	{
		ActS a;
		a.on = R.p(pct);
		if (a.on && R.p(o.slowPct))
			a.durMs = R.r(1, o.maxDur);
		return a;
	};
	const int nIn = o.pureInputs ? R.r(1, std::max(1, nP / 2)) : 0;
	for (int i = 0; i < nP; i++)
	{
		PlaceS p;
		p.name = "P" + std::to_string(i);
		p.init = R.p(50) ? 0 : (uint64_t)R.r(0, o.maxInit);
		p.input = o.pureInputs ? i < nIn : (i == 0 || R.p(50));
		p.named = R.p(o.namedPct);
		p.en = action(o.actPct);
		p.ex = action(o.actPct);
		S.places.push_back(p);
	}
	int fuel = -1;
	if (R.p(o.cyclePct))
	{
		PlaceS p;
		p.name = "Fuel";
		p.init = (uint64_t)R.r(1, 6);
		fuel = (int)S.places.size();
		S.places.push_back(p);
	}
	const int nC = o.ownConds ? 0 : (o.condPct ? R.r(1, 3) : 0);
	for (int i = 0; i < nC; i++)
		S.condInit.push_back(R.p(o.condTruePct));
	auto has = [](const std::vector<ArcS> &v, int p)
	{ return std::any_of(v.begin(), v.end(), [p](const ArcS &a) { return a.place == p; }); };
	auto weight = [&] { return (uint64_t)(R.p(70) ? 1 : R.r(2, 3)); };
	for (int k = 0; k < nT; k++)
	{
		TransS t;
		t.name = "T" + std::to_string(k);
		const bool cyc = fuel >= 0 && R.p(60);
		if (cyc)
		{
			t.act.push_back({ fuel, 1, 0 });
			const int na = R.r(0, 2), nd = R.r(1, 2);
			for (int i = 0; i < na; i++)
				if (int p = R.n(nP); !has(t.act, p))
					t.act.push_back({ p, weight(), 0 });
			for (int i = 0; i < nd; i++)
				if (int p = R.r(nIn, nP - 1); !has(t.dst, p) && p >= nIn && p < nP)
					t.dst.push_back({ p, weight(), 0 });
		}
		else
		{
			int hi = 0;
			const int na = R.p(70) ? 1 : 2, nd = R.p(60) ? 1 : 2;
			for (int i = 0; i < na; i++)
				if (int p = R.n(nP - 1); !has(t.act, p))
				{
					t.act.push_back({ p, weight(), 0 });
					hi = std::max(hi, p);
				}
			const int lo = std::max(hi + 1, nIn);
			if (lo < nP)
				for (int i = 0; i < nd; i++)
					if (int p = R.r(lo, nP - 1); !has(t.dst, p))
						t.dst.push_back({ p, weight(), 0 });
		}
		if (R.p(15))
			if (int p = R.r(nIn, nP - 1); p >= nIn && p < nP && !has(t.act, p) && !has(t.dst, p))
			{
				const uint64_t wt = weight();
				const int late = R.p(o.latePct) ? 2 : 0;
				t.act.push_back({ p, wt, late });
				t.dst.push_back({ p, wt, late ? 3 : 0 });
			}
		if (R.p(o.inhibPct))
		{
			const int ni = R.p(75) ? 1 : 2;
			for (int i = 0; i < ni; i++)
				if (int p = R.n(nP); !has(t.inh, p) && (!has(t.act, p) || R.p(10)))
					t.inh.push_back({ p, weight(), 0 });
		}
		// order of arcs varies
		if (R.p(50))
			std::reverse(t.act.begin(), t.act.end());
		if (R.p(50))
			std::reverse(t.dst.begin(), t.dst.end());
		t.req = R.p(o.reqPct);
		t.namedConds = R.p(o.namedPct);
		if (o.ownConds)
		{
			const int nc = R.p(75) ? 1 : 2;
			for (int i = 0; i < nc; i++)
			{
				t.conds.push_back((int)S.condInit.size());
				S.condInit.push_back(R.p(o.condTruePct));
			}
		}
		else if (nC && R.p(o.condPct))
		{
			t.conds.push_back(R.n(nC));
			if (R.p(20))
				if (int c = R.n(nC); c != t.conds[0])
					t.conds.push_back(c);
		}
		for (auto *v : { &t.act, &t.dst, &t.inh })
			for (auto &a : *v)
				if (!a.late && R.p(o.latePct))
					a.late = 1;
		S.trans.push_back(t);
	}
	// transitions with many arcs and conditions
	if (R.p(o.widePct))
		for (int k = 0; k < nT; k++)
			if (auto &t = S.trans[(size_t)k]; R.p(60))
			{
				for (auto *v : { &t.act, &t.dst, &t.inh })
				{
					int n = R.p(60) ? R.r(2, 9) : 0;
					for (int i = 0; i < n; i++)
					{
						PlaceS p;
						p.name = "W" + std::to_string(S.places.size());
						p.input = v == &t.act ? R.p(40) : v == &t.inh ? R.p(20) : 0;
						p.named = R.p(o.namedPct);
						p.init = v == &t.act ? (uint64_t)R.r(p.input ? 0 : 1, 4) : 0;
						p.en = action(o.actPct);
						p.ex = action(o.actPct);
						v->insert(v->begin() + R.n((int)v->size() + 1), { (int)S.places.size(), 1, R.p(o.latePct) ? 1 : 0 });
						S.places.push_back(p);
					}
				}
				for (int n = o.condPct && R.p(60) ? R.r(2, 6) : 0; n > 0; n--)
				{
					t.conds.push_back((int)S.condInit.size());
					S.condInit.push_back(R.p(95));
				}
			}
	if (R.p(o.slowCondPct))
		for (size_t c = 0; c < S.condInit.size(); c++)
			S.condDur.push_back(R.p(50) ? R.pick<int>({ 1, 40, 300, 1500, 3000 }) : 0);
	// the same net in other units: a place whose tokens come and go by the thousand (or billions)
	if (R.p(12))
		for (int i = 0; i < (int)S.places.size(); i++)
			if (!S.places[(size_t)i].input && R.p(60))
			{
				const auto k = R.pick<uint64_t>({ 10, 300, 70000, 3000000000ull, 1ull << 40 });
				S.places[(size_t)i].init *= k;
				for (auto &t : S.trans)
					for (auto *v : { &t.act, &t.dst, &t.inh })
						for (auto &a : *v)
							if (a.place == i)
								a.w *= k;
			}
	for (int k = 0; k < nT; k++)
	{
		PlaceS p;
		p.name = "C_T" + std::to_string(k);
		p.en.on = R.p(o.counterActPct);
		p.named = R.p(o.namedPct);
		S.trans[(size_t)k].counter = (int)S.places.size();
		auto &d = S.trans[(size_t)k].dst;
		d.insert(d.begin() + R.n((int)d.size() + 1), { (int)S.places.size(), 1, 0 });
		if (o.sourcePct && R.p(o.sourcePct))
		{
			// a transition that takes nothing and is held back by what it has delivered
			auto &t = S.trans[(size_t)k];
			t.act.clear();
			for (auto &a : d)
				if (a.late == 3)
					a.late = 0;
			if (!has(t.inh, (int)S.places.size()))
				t.inh.push_back({ (int)S.places.size(), 1, R.p(o.latePct) ? 1 : 0 });
		}
		S.places.push_back(p);
	}
}

inline std::vector<int> inputsOf(const Scenario &S)
{
	std::vector<int> v;
	for (size_t i = 0; i < S.places.size(); i++)
		if (S.places[i].input)
			v.push_back((int)i);
	return v;
}

struct CfgOpts
{
	int plain = 25, spurious = 25, stall = 20, timeAdv = 10, jump = 5;
	bool race = false;
};
inline void genConfig(Rng &R, Scenario &S, const CfgOpts &o = {})
{
	auto &g = S.cfg;
	g.seed = R.next();
	const int x = R.n(100);
	if (x < 12)
		g.strategy = sim::ST_DEFAULT;
	else if (x < 50)
	{
		g.strategy = sim::ST_WALK;
		g.switchInv = R.pick<uint32_t>({ 2, 5, 20, 80 });
	}
	else if (x < 75)
	{
		g.strategy = sim::ST_PCT;
		g.pctDepth = (uint32_t)R.r(1, 6);
		g.pctLen = R.pick<uint32_t>({ 300, 1000, 3000 });
	}
	else
	{
		g.strategy = sim::ST_DELAY;
		g.pctDepth = (uint32_t)R.r(1, 8);
		g.pctLen = R.pick<uint32_t>({ 300, 1000, 3000 });
	}
	g.plainInv = R.p(o.plain) ? R.pick<uint32_t>({ 30, 200, 1000 }) : 0;
	g.spuriousInv = R.p(o.spurious) ? R.pick<uint32_t>({ 2, 8 }) : 0;
	if (R.p(o.stall))
	{
		g.stallInv = R.pick<uint32_t>({ 20, 100, 400 });
		g.stallMaxNs = R.pick<uint64_t>({ 1000000ull, 300000000ull, 5000000000ull });
	}
	g.timeAdvInv = R.p(o.timeAdv) ? R.pick<uint32_t>({ 20, 200 }) : 0;
	g.clockJumpInv = R.p(o.jump) ? 100 : 0;
	g.race = o.race;
	size_t ops = 0;
	for (auto &c : S.clients)
		ops += c.size();
	if (ops > 40 || S.places.size() > 14)
		g.maxSteps = 4000000;
	// where things take long the watchdog has many turns
	int dur = 0;
	for (int d : S.condDur)
		dur = std::max(dur, d);
	for (auto &p : S.places)
		dur = std::max({ dur, p.en.durMs, p.ex.durMs });
	if (dur > 300)
	{
		S.periodMs = std::max(S.periodMs, 100l);
		g.maxSteps = 4000000;
	}
	if (R.p(20))
	{
		S.mode0 = R.n(4);
		S.switchAt = R.n(3);
	}
}

using OpW = std::vector<std::pair<int, int>>; // weight, code

inline Op genOp(Rng &R, const Scenario &S, const OpW &w)
{
	int tot = 0;
	for (auto &x : w)
		tot += x.first;
	int v = R.n(tot);
	Op o;
	for (auto &x : w)
	{
		if (v < x.first)
		{
			o.code = x.second;
			break;
		}
		v -= x.first;
	}
	const auto in = inputsOf(S);
	const int nP = (int)S.places.size();
	switch (o.code)
	{
	case O_INC:
		o.a = in.empty() ? 0 : R.of(in);
		break;
	case O_GET:
		o.a = R.n(nP);
		break;
	case O_PROPS:
		o.a = R.n(2);
		break;
	case O_START:
		o.a = R.p(15);
		break;
	case O_SETPER:
		o.a = R.pick<long>({ 10, 20, 100, 700 });
		break;
	case O_SETMODE:
		o.a = R.n(4);
		break;
	case O_COND:
		if (S.condInit.empty())
			o.code = O_YIELD;
		else
			o.a = R.n((int)S.condInit.size());
		o.b = R.n(2);
		if (o.code == O_YIELD)
			o.a = R.r(1, 5);
		break;
	case O_SLEEP:
		o.a = R.pick<long>({ 1, 10, 100, 500 });
		break;
	case O_YIELD:
		o.a = R.r(1, 20);
		break;
	case O_GATE:
		o.a = R.n(3);
		break;
	default:
		break;
	}
	return o;
}
inline void genClients(Rng &R, Scenario &S, int lo, int hi, int opLo, int opHi, const OpW &w)
{
	const int n = R.r(lo, hi);
	for (int c = 0; c < n; c++)
	{
		std::vector<Op> v;
		const int k = R.r(opLo, opHi);
		for (int i = 0; i < k; i++)
			v.push_back(genOp(R, S, w));
		S.clients.push_back(v);
	}
}
// many inputs, more than any batch, buffer or small counter holds
inline void addCrowd(Rng &R, Scenario &S, int count = 0, bool deep = false)
{
	const auto in = inputsOf(S);
	if (in.empty() || S.clients.empty())
		return;
	auto &c = S.clients[(size_t)R.n((int)S.clients.size())];
	const int same = count || R.p(50) ? R.of(in) : -1;
	if (deep && !count && S.mode != 2 && R.p(12))
		count = R.pick<int>({ 300, 600, 1100 });
	for (int i = count ? count : S.mode == 2 ? R.r(10, 30) : R.r(20, R.p(30) ? 300 : 80); i > 0; i--)
	{
		Op o;
		o.code = O_INC;
		o.a = same >= 0 ? same : R.of(in);
		c.push_back(o);
	}
	for (auto &p : S.places)
		for (auto *a : { &p.en, &p.ex })
			a->durMs = std::min(a->durMs, 2);
}
// A part of the net that never comes to rest: only a stop ends it.  Nothing in such a run may wait for time to
// pass, since the clock of the simulation stands still while a thread can run.
inline void addSpin(Rng &R, Scenario &S, int actPct = 0)
{
	const int c = (int)S.condInit.size(), first = (int)S.places.size(), n = R.r(1, 2);
	S.condInit.push_back(1);
	for (int i = 0; i < n; i++)
	{
		PlaceS p;
		p.name = "Spin" + std::to_string(i);
		p.init = i == 0 ? (uint64_t)R.r(1, 2) : 0;
		p.named = R.p(50);
		p.en.on = R.p(actPct);
		p.ex.on = R.p(actPct);
		S.places.push_back(p);
	}
	for (int i = 0; i < n; i++)
	{
		TransS t;
		t.name = "TSpin" + std::to_string(i);
		const int late = n == 1 && R.p(50) ? 2 : 0;
		t.act.push_back({ first + i, 1, late });
		t.dst.push_back({ first + (i + 1) % n, 1, late ? 3 : 0 });
		if (i == 0)
			t.conds.push_back(c);
		else
		{
			t.conds.push_back((int)S.condInit.size());
			S.condInit.push_back(1);
		}
		PlaceS p;
		p.name = "C_" + t.name;
		t.counter = (int)S.places.size();
		t.dst.push_back({ t.counter, 1, 0 });
		S.places.push_back(p);
		S.trans.push_back(t);
	}
	for (auto &p : S.places)
		for (auto *a : { &p.en, &p.ex })
			a->durMs = 0;
	for (auto &t : S.trans)
		t.req = 0;
	S.condDur.clear();
	for (auto &cl : S.clients)
		for (auto &x : cl)
			if (x.code == O_SLEEP || x.code == O_WAITIDLE || x.code == O_SETMODE)
				x = { O_YIELD, R.r(1, 20), 0, 0, 0 };
}
// to be called after genConfig
inline void spinConfig(Scenario &S)
{
	S.cfg.stallInv = 0;
	S.cfg.fairAfter = 15000;
}
// some transitions are created while the net is in use
inline void addGrowth(Rng &R, Scenario &S)
{
	if (S.clients.empty())
		return;
	for (size_t k = 0; k < S.trans.size(); k++)
		if (R.p(40))
		{
			S.trans[k].deferred = 1;
			for (int n = R.p(15) ? 2 : 1; n > 0; n--)
			{
				auto &c = S.clients[(size_t)R.n((int)S.clients.size())];
				Op o;
				o.code = O_BUILD;
				o.a = (long)k;
				c.insert(c.begin() + R.r(0, (int)c.size()), o);
			}
		}
}
// the net is built with detours: arcs are added and taken away again, or replaced
inline void addDetours(Rng &R, Scenario &S)
{
	for (auto &t : S.trans)
		if (!t.deferred && R.p(50))
			t.detour = R.r(1, 127);
}
// arcs are taken away and put back between two runs of the net
inline void addRewires(Rng &R, Scenario &S)
{
	for (auto &c : S.clients)
		for (auto &x : c)
			if (x.code == O_START || x.code == O_STOP || x.code == O_SETMODE)
				if (S.clients.size() > 1)
					return;
	if (S.clients.empty() || S.trans.empty() || (S.mode == 0 && S.clients.size() > 1))
		return;
	auto &c = S.clients[(size_t)R.n((int)S.clients.size())];
	for (int n = R.r(1, 4); n > 0; n--)
	{
		Op o;
		o.code = O_REWIRE;
		o.a = R.n((int)S.trans.size());
		o.b = R.n(8);
		o.c = S.mode != 0;
		c.insert(c.begin() + R.r(0, (int)c.size()), o);
	}
}
inline void addBuilding(Rng &R, Scenario &S, int growth = 8, int detour = 15, int rewire = 6)
{
	if (R.p(growth))
		addGrowth(R, S);
	if (R.p(detour))
		addDetours(R, S);
	if (R.p(rewire))
		addRewires(R, S);
}
// engine calls made from actions (modes where the API allows it)
inline void genCallbackOps(Rng &R, Scenario &S, int pct, const OpW &w)
{
	for (auto &p : S.places)
		for (auto *a : { &p.en, &p.ex })
			if (a->on && R.p(pct))
			{
				Op o = genOp(R, S, w);
				if (o.code == O_INC && S.cbOps.size() > 3)
					o.code = O_GET;
				a->op = (int)S.cbOps.size();
				S.cbOps.push_back(o);
			}
}
