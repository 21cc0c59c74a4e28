#include <tuple>
// Oracles over a finished (or quiescent) run.
#pragma once
#include "world.h"

// ------------------------------------------------------------ conservation -
inline void checkConservation(World &w, const std::vector<uint64_t> &m, const char *kind = "tokens-not-conserved",
                              bool allowFailedIncs = false)
{
	const Scenario &S = w.S;
	std::vector<long> f;
	for (auto &t : S.trans)
		f.push_back((long)(m[(size_t)t.counter] - w.base[(size_t)t.counter]));
	for (size_t p = 0; p < S.places.size(); p++)
	{
		long exp = (long)w.base[p] + w.okIncs[p];
		for (size_t k = 0; k < S.trans.size(); k++)
		{
			for (auto &a : S.trans[k].act)
				if (a.place == (int)p)
					exp -= (long)a.w * f[k];
			for (auto &a : S.trans[k].dst)
				if (a.place == (int)p)
					exp += (long)a.w * f[k];
		}
		const long slack = allowFailedIncs ? w.tryIncs[p] - w.okIncs[p] : 0;
		if ((long)m[p] < exp || (long)m[p] > exp + slack)
		{
			std::string s;
			for (size_t k = 0; k < S.trans.size(); k++)
				s += " " + S.trans[k].name + " fired " + std::to_string(f[k]) + ";";
			FAIL(kind, "place %s holds %ld tokens, the movements add up to %ld (initial %llu, %d inputs).%s marking: %s",
			     S.places[p].name.c_str(), (long)m[p], exp, (unsigned long long)w.base[p], w.okIncs[p], s.c_str(),
			     w.markingText(m).c_str());
		}
	}
	for (auto &x : f)
		sim::result()->counters[0] += (uint64_t)x;
}

inline void checkViewsAgree(World &w, const std::vector<uint64_t> &m)
{
	auto pp = w.eng->getPlacesProperties();
	auto tt = w.eng->getTransitionsProperties();
	const auto nBuilt = (size_t)std::count(w.built.begin(), w.built.end(), 1);
	if (tt.size() != nBuilt || pp.size() != w.S.places.size())
		FAIL("views-disagree", "%zu places and %zu transitions were created, %zu and %zu are listed", w.S.places.size(), nBuilt, pp.size(), tt.size());
	for (auto &t : w.S.trans)
	{
		if (!w.built[(size_t)(&t - w.S.trans.data())])
			continue;
		auto it = std::find_if(tt.begin(), tt.end(), [&](auto &x) { return x.name == t.name; });
		if (it == tt.end())
			FAIL("views-disagree", "transition %s is missing from the transition properties", t.name.c_str());
		auto same = [&](const std::vector<ArcS> &v, const std::vector<ArcProperties> &l, ArcProperties::Type type)
		{
			bool ok = v.size() == l.size();
			for (auto &a : v)
				ok &= std::any_of(l.begin(), l.end(),
				                  [&](auto &x) { return x.placeName == w.S.places[(size_t)a.place].name && x.weight == a.w && x.transitionName == t.name && x.type == type; });
			return ok;
		};
		using enum ArcProperties::Type;
		bool ok = same(t.act, it->activationArcs, ACTIVATION) && same(t.dst, it->destinationArcs, DESTINATION) && same(t.inh, it->inhibitorArcs, INHIBITOR) &&
		          it->requireNoActionsInExecution == (t.req != 0) && it->additionalConditions.size() == t.conds.size() &&
		          it->additionalConditionsNames.size() == t.conds.size();
		for (size_t i = 0; ok && i < t.conds.size(); i++)
			ok = it->additionalConditions[i] != nullptr && it->additionalConditionsNames[i] == (t.namedConds ? "cond_" + std::to_string(t.conds[i]) : "");
		if (!ok)
			FAIL("views-disagree", "transition %s was created with other properties than those listed now", t.name.c_str());
	}
	std::ostringstream o;
	w.eng->printState(o);
	std::string txt = o.str();
	for (size_t i = 0; i < w.S.places.size(); i++)
	{
		auto &n = w.S.places[i].name;
		bool found = false;
		for (auto &p : pp)
			if (p.name == n)
			{
				found = true;
				if (p.initialNumberOfTokens != m[i])
					FAIL("views-disagree", "place %s: getNumberOfTokens says %llu, place properties say %zu", n.c_str(),
					     (unsigned long long)m[i], p.initialNumberOfTokens);
				auto &P = w.S.places[i];
				if (p.input != (P.input != 0) || (p.onEnterAction != nullptr) != (P.en.on != 0) || (p.onExitAction != nullptr) != (P.ex.on != 0) ||
				    p.onEnterActionFunctionName != (P.named && P.en.on ? "en_" + n : "") || p.onExitActionFunctionName != (P.named && P.ex.on ? "ex_" + n : ""))
					FAIL("views-disagree", "place %s was created with other properties than those listed now", n.c_str());
			}
		if (!found)
			FAIL("views-disagree", "place %s missing from the place properties", n.c_str());
		if (("\n" + txt).find("\n" + n + ": " + std::to_string(m[i]) + "\n") == std::string::npos)
			FAIL("views-disagree", "place %s holds %llu tokens but the printed state is: %s", n.c_str(), (unsigned long long)m[i],
			     txt.c_str());
	}
}

// reads of counters that only grow, and of places only touched by input calls
inline void checkReads(World &w)
{
	const Scenario &S = w.S;
	std::vector<uint8_t> consumed(S.places.size()), produced(S.places.size());
	for (auto &t : S.trans)
	{
		for (auto &a : t.act)
			consumed[(size_t)a.place] = 1;
		for (auto &a : t.dst)
			produced[(size_t)a.place] = 1;
	}
	struct Read
	{
		size_t p;
		uint64_t val, evInv, evRet;
	};
	std::vector<Read> reads;
	for (auto &r : w.ops)
	{
		if (r.ok != 1)
			continue;
		if (r.op.code == O_GET && r.op.a >= 0 && r.op.a < (long)S.places.size())
			reads.push_back({ (size_t)r.op.a, r.val, r.evInv, r.evRet });
		const bool print = r.op.code == O_PRINT, props = r.op.code == O_PROPS && r.op.a == 0;
		if (!print && !props)
			continue;
		for (size_t p = 0; p < S.places.size(); p++)
		{
			const std::string t = (print ? "\n" : ";") + r.str, k = (print ? "\n" : ";") + S.places[p].name + (print ? ": " : "|");
			const auto at = t.find(k);
			if (at == std::string::npos || !isdigit(t[at + k.size()]))
				FAIL("views-disagree", "place %s is missing from %s: %s", S.places[p].name.c_str(),
				     print ? "the printed state" : "the place properties", r.str.c_str());
			reads.push_back({ p, strtoull(t.c_str() + at + k.size(), nullptr, 10), r.evInv, r.evRet });
		}
	}
	for (size_t i = 0; i < reads.size(); i++)
	{
		auto &g = reads[i];
		const auto p = g.p;
		if (consumed[p])
			continue;
		uint64_t lo = w.base[p], hi = w.base[p];
		for (auto &x : w.ops)
		{
			if (x.op.code == O_INC && x.op.a == (long)p)
			{
				if (x.ok == 1 && x.evRet && x.evRet < g.evInv)
					lo++;
				if (x.evInv < g.evRet)
					hi++;
			}
		}
		for (auto &x : reads)
			if (&x != &g && x.p == p && x.evRet && x.evRet < g.evInv && x.val > g.val)
				FAIL("read-went-back", "place %s never loses tokens but was read as %llu and later as %llu", S.places[p].name.c_str(),
				     (unsigned long long)x.val, (unsigned long long)g.val);
		if (g.val < lo || (!produced[p] && g.val > hi))
			FAIL("read-out-of-bounds", "place %s read as %llu; completed inputs give at least %llu, started ones at most %llu",
			     S.places[p].name.c_str(), (unsigned long long)g.val, (unsigned long long)lo, (unsigned long long)hi);
	}
}

// A view of the whole net shows it at one moment: when it shows ins[p] inputs into each place p, there is a
// moment by which so many had been started and no more had returned.
inline void checkOneMoment(World &w, const std::vector<long> &ins, const char *what, size_t fromOp = 0, size_t toOp = ~(size_t)0)
{
	uint64_t lo = 0, hi = ~0ull;
	size_t lp = 0, hp = 0;
	for (size_t p = 0; p < ins.size(); p++)
	{
		std::vector<uint64_t> inv, ret;
		for (size_t i = fromOp; i < std::min(toOp, w.ops.size()); i++)
		{
			auto &x = w.ops[i];
			if (x.op.code != O_INC || x.op.a != (long)p)
				continue;
			inv.push_back(x.evInv);
			if (x.evRet && x.ok == 1)
				ret.push_back(x.evRet);
		}
		if (ins[p] < 0 || ins[p] > (long)inv.size())
			continue;
		std::sort(inv.begin(), inv.end());
		std::sort(ret.begin(), ret.end());
		const size_t k = (size_t)ins[p];
		if (k && inv[k - 1] > lo)
		{
			lo = inv[k - 1];
			lp = p;
		}
		if (k < ret.size() && ret[k] < hi)
		{
			hi = ret[k];
			hp = p;
		}
	}
	if (lo >= hi)
		FAIL("torn-view", "%s shows %ld inputs into %s, the last of which was not started before input number %ld into %s, which it does not show, had returned",
		     what, ins[lp], w.S.places[lp].name.c_str(), ins[hp] + 1, w.S.places[hp].name.c_str());
}

// What a running engine logs: every logged marking is one the net can have between two firings, and
// the last one is the marking the net came to rest with.
inline void checkLogs(World &w, const std::vector<uint64_t> &m, bool atRest)
{
	const Scenario &S = w.S;
	size_t lastStart = 0;
	bool alone = S.mode != 0; // callers that run the net themselves may do so at the same time
	for (size_t i = 0; i < w.ops.size(); i++)
	{
		if ((w.ops[i].op.code == O_START || (w.ops[i].op.code == O_REWIRE && w.ops[i].op.c)) && w.ops[i].ok == 1)
			lastStart = i;
		alone &= w.ops[i].op.code != O_SETMODE;
	}
	for (auto &x : w.ops)
		if ((x.op.code == O_START || (x.op.code == O_REWIRE && x.op.c)) && x.ok == 1 && &x != &w.ops[lastStart] && x.evRet > w.ops[lastStart].evInv)
			atRest = false; // which of the two was the last?
	for (auto &[op, out] : w.logs)
	{
		const std::string txt = out->str();
		std::vector<std::map<std::string, uint64_t>> blocks;
		std::istringstream in(txt);
		for (std::string line; std::getline(in, line);)
		{
			const auto c = line.rfind(": ");
			if (c == std::string::npos)
			{
				if (line.find("Place") != std::string::npos)
					blocks.emplace_back();
				continue;
			}
			if (blocks.empty())
				blocks.emplace_back();
			blocks.back()[line.substr(0, c)] = strtoull(line.c_str() + c + 2, nullptr, 10);
		}
		if (w.ops[op].ok == 1 && blocks.empty() && atRest && op == lastStart)
			FAIL("log-missing", "the engine was told to log and logged nothing");
		std::vector<long> before(S.places.size(), 0);
		for (size_t b = 0; b < blocks.size() && alone; b++)
		{
			auto &B = blocks[b];
			auto at = [&](size_t p) -> uint64_t
			{
				auto it = B.find(S.places[p].name);
				if (it == B.end())
					FAIL("log-wrong", "place %s is missing from logged marking %zu: %s", S.places[p].name.c_str(), b, txt.substr(0, 3000).c_str());
				return it->second;
			};
			std::vector<long> inputs;
			for (size_t p = 0; p < S.places.size(); p++)
			{
				long exp = (long)w.base[p];
				for (auto &t : S.trans)
				{
					const long f = (long)(at((size_t)t.counter) - w.base[(size_t)t.counter]);
					for (auto &a : t.act)
						if (a.place == (int)p)
							exp -= (long)a.w * f;
					for (auto &a : t.dst)
						if (a.place == (int)p)
							exp += (long)a.w * f;
				}
				const long ins = (long)at(p) - exp;
				if (ins < before[p] || ins > w.tryIncs[p])
					FAIL("log-wrong", "logged marking %zu is none the net can have: place %s holds %llu tokens, %ld more than the firings leave there (%d inputs made): %s",
					     b, S.places[p].name.c_str(), (unsigned long long)at(p), ins, w.tryIncs[p], txt.substr(0, 3000).c_str());
				before[p] = ins;
				inputs.push_back(ins);
			}
			checkOneMoment(w, inputs, "a logged marking");
		}
		if (atRest && op == lastStart && !blocks.empty())
			for (size_t p = 0; p < S.places.size(); p++)
				if (blocks.back()[S.places[p].name] != m[p])
					FAIL("log-wrong", "the net came to rest with %llu tokens in %s, the last logged marking says %llu", (unsigned long long)m[p],
					     S.places[p].name.c_str(), (unsigned long long)blocks.back()[S.places[p].name]);
	}
}

inline void checkIncsAccepted(World &w)
{
	for (auto &x : w.ops)
		if (x.op.code == O_INC && x.ok != 1 && x.op.a >= 0 && x.op.a < (long)w.S.places.size() && w.S.places[(size_t)x.op.a].input)
			FAIL("input-refused", "adding a token to input place %s failed: %s", w.S.places[(size_t)x.op.a].name.c_str(), x.str.c_str());
}

// ------------------------------------------------------------------ at rest -
inline void checkRest(World &w, const std::vector<uint64_t> &m)
{
	for (auto &t : w.S.trans)
		if (w.tokenEnabled(t, m) && w.condsTrue(t))
			FAIL("stuck-net", "transition %s can fire but the running net does not fire it; marking: %s", t.name.c_str(),
			     w.markingText(m).c_str());
}

// ------------------------------------------------------------- exactly once -
inline void checkActionCounts(World &w, const std::vector<uint64_t> &m)
{
	const Scenario &S = w.S;
	for (size_t p = 0; p < S.places.size(); p++)
	{
		long en = w.okIncs[p], ex = 0;
		for (auto &t : S.trans)
		{
			const long f = (long)w.fires(t, m);
			for (auto &a : t.dst)
				if (a.place == (int)p)
					en += f;
			for (auto &a : t.act)
				if (a.place == (int)p)
					ex += f;
		}
		for (int k = 0; k < 2; k++)
		{
			const auto &A = k ? S.places[p].ex : S.places[p].en;
			const long exp = A.on ? (k ? ex : en) : 0;
			if (w.cnt[p][(size_t)k] != exp || w.done[p][(size_t)k] != exp)
				FAIL("action-count", "place %s: on-%s action started %d and finished %d times, tokens %s %ld times", S.places[p].name.c_str(),
				     k ? "exit" : "enter", w.cnt[p][(size_t)k], w.done[p][(size_t)k], k ? "left" : "entered", exp);
		}
	}
	// never ahead of the cause: the k-th on-enter action of a pure input place starts after the k-th input call did
	for (size_t p = 0; p < S.places.size(); p++)
	{
		bool produced = false;
		for (auto &t : S.trans)
			for (auto &a : t.dst)
				produced |= a.place == (int)p;
		if (produced || !S.places[p].en.on)
			continue;
		int started = 0, invoked = 0;
		for (auto &e : w.ev)
		{
			if (e.type == E_INV && w.ops[(size_t)e.a].op.code == O_INC && w.ops[(size_t)e.a].op.a == (long)p)
				invoked++;
			if (e.type == E_AS && e.a == (int)p && !e.b && ++started > invoked)
				FAIL("action-without-cause", "on-enter action of %s started %d times after only %d input calls", S.places[p].name.c_str(),
				     started, invoked);
		}
	}
}

// ------------------------------------------------------------- legal firing -
// Synchronous modes: actions of the net run in the thread that fires, so the event log is the exact
// sequence of firings.  Every transition has at least one condition, used as decision marker.
inline void checkFiringTrace(World &w)
{
	using Count = __int128;
	const Scenario &S = w.S;
	std::vector<int> owner(S.condInit.size(), -1);
	for (size_t k = 0; k < S.trans.size(); k++)
		for (int c : S.trans[k].conds)
			owner[(size_t)c] = (int)k;
	std::vector<Count> tok(S.places.size());
	for (size_t p = 0; p < S.places.size(); p++)
		tok[p] = (Count)w.base[p];
	// which op (by thread) is in progress: an inc's on-enter action runs in the caller's thread
	std::map<int, int> opOf;
	std::vector<Count> incRet(S.places.size(), 0); // tokens of inputs that had returned
	std::vector<Count> incSeen(S.places.size(), 0), incInv(S.places.size(), 0);
	struct Net
	{
		int lastT = -1;
		std::map<int, int> verdict; // condition -> last result in this decision
		std::vector<std::pair<int, bool>> group;
		std::vector<Count> incRetAtPrev;
		bool fired = false;
	} net;
	net.incRetAtPrev = incRet;
	std::vector<Count> incRetAtDecision = incRet;
	std::vector<Count> fires(S.trans.size(), 0);
	auto closeGroup = [&](const char *when)
	{
		if (net.group.empty())
			return;
		// must be exactly one whole firing of lastT
		auto &t = S.trans[(size_t)net.lastT];
		std::vector<std::pair<int, bool>> want;
		for (auto &a : t.act)
			if (S.places[(size_t)a.place].ex.on)
				want.push_back({ a.place, true });
		for (auto &a : t.dst)
			if (S.places[(size_t)a.place].en.on)
				want.push_back({ a.place, false });
		auto got = net.group;
		std::sort(got.begin(), got.end());
		std::sort(want.begin(), want.end());
		if (got != want)
		{
			std::string g, x;
			for (auto &[p, e] : got)
				g += (e ? " -" : " +") + S.places[(size_t)p].name;
			for (auto &[p, e] : want)
				x += (e ? " -" : " +") + S.places[(size_t)p].name;
			FAIL("partial-firing", "firing of %s (%s) moved tokens:%s expected:%s", t.name.c_str(), when, g.c_str(), x.c_str());
		}
		net.group.clear();
	};
	for (size_t i = 0; i < w.ev.size(); i++)
	{
		const Event &e = w.ev[i];
		if (e.type == E_INV)
		{
			auto &r = w.ops[(size_t)e.a];
			opOf[e.tid] = e.a;
			if (r.op.code == O_INC && r.op.a >= 0 && r.op.a < (long)S.places.size())
				incInv[(size_t)r.op.a]++;
			continue;
		}
		if (e.type == E_RET)
		{
			auto &r = w.ops[(size_t)e.a];
			opOf[e.tid] = -1;
			if (r.op.code == O_INC && r.ok == 1 && r.op.a >= 0 && r.op.a < (long)S.places.size())
				incRet[(size_t)r.op.a]++;
			continue;
		}
		if (e.type == E_AE)
			continue;
		auto it = opOf.find(e.tid);
		const bool byInc = it != opOf.end() && it->second >= 0 && w.ops[(size_t)it->second].op.code == O_INC;
		if (e.type == E_AS && byInc && !e.b)
		{
			tok[(size_t)e.a]++;
			incSeen[(size_t)e.a]++;
			continue;
		}
		if (e.type == E_COND)
		{
			closeGroup("completed");
			const int t = owner[(size_t)e.a];
			if (t != net.lastT || net.fired)
			{
				net.verdict.clear();
				net.lastT = t;
				net.fired = false;
				incRetAtDecision = net.incRetAtPrev;
			}
			net.verdict[e.a] = e.b;
			// a repeated evaluation restarts the decision
			net.incRetAtPrev = incRet;
			continue;
		}
		// an action run by the net: part of a firing
		if (net.lastT < 0)
			FAIL("unsolicited-movement", "tokens moved at place %s before any condition was consulted", S.places[(size_t)e.a].name.c_str());
		auto &t = S.trans[(size_t)net.lastT];
		if (!net.fired)
		{
			for (int c : t.conds)
			{
				auto v = net.verdict.find(c);
				if (v == net.verdict.end() || v->second != 1)
					FAIL("condition-ignored", "%s fired although its condition c%d %s", t.name.c_str(), c,
					     v == net.verdict.end() ? "was not consulted for this firing" : "returned false");
			}
			for (auto &a : t.act)
			{
				const auto p = (size_t)a.place;
				const Count upper = tok[p] + (incInv[p] - incSeen[p]);
				if (upper < (Count)a.w)
					FAIL("fired-without-tokens", "%s fired with %lld tokens in %s, needs %llu", t.name.c_str(), (long long)upper, S.places[p].name.c_str(),
					     (unsigned long long)a.w);
			}
			for (auto &a : t.inh)
			{
				const auto p = (size_t)a.place;
				// tokens certainly there when the decision began: everything but inputs not returned by then
				const Count certain = tok[p] - incSeen[p] + incRetAtDecision[p];
				if (certain > 0)
					FAIL("fired-while-inhibited", "%s fired while inhibitor place %s held %lld tokens", t.name.c_str(), S.places[p].name.c_str(),
					     (long long)certain);
			}
			net.fired = true;
			fires[(size_t)net.lastT]++;
		}
		net.group.push_back({ e.a, (bool)e.b });
		if (e.b)
		{
			uint64_t wt = 0;
			for (auto &a : t.act)
				if (a.place == e.a)
					wt = a.w;
			tok[(size_t)e.a] -= wt;
		}
		else
		{
			uint64_t wt = 0;
			for (auto &a : t.dst)
				if (a.place == e.a)
					wt = a.w;
			tok[(size_t)e.a] += wt;
		}
		net.incRetAtPrev = incRet;
	}
	closeGroup("at the end");
}

// A transition never fires more often than its conditions all said yes (any mode)
inline void checkYesCount(World &w, const std::vector<uint64_t> &m)
{
	for (auto &t : w.S.trans)
	{
		if (t.conds.empty())
			continue;
		for (int c : t.conds)
		{
			uint64_t yes = 0;
			for (auto &e : w.ev)
				yes += e.type == E_COND && e.a == c && e.b == 1;
			if (w.fires(t, m) > yes)
				FAIL("condition-ignored", "%s fired %llu times, its condition c%d was true only %llu times", t.name.c_str(),
				     (unsigned long long)w.fires(t, m), c, (unsigned long long)yes);
		}
	}
}

// ------------------------------------------------------------- linearizability
// Wing-Gong search over a complete history with an executable sequential model.
template <typename Model>
struct Wgl
{
	std::vector<const OpRec *> h; // in the order of the invocations
	explicit Wgl(const std::vector<const OpRec *> &ops)
	: h(ops)
	{
		std::stable_sort(h.begin(), h.end(), [](auto *a, auto *b) { return a->evInv < b->evInv; });
	}
	// A state of the search: all operations before `base` have taken place, of the next 64 those in the mask.
	struct State
	{
		size_t base;
		uint64_t mask;
		Model m;
		size_t next = 0; // the operation to try next, relative to base
	};
	bool search(const Model &init)
	{
		std::set<std::tuple<size_t, uint64_t, std::string>> seen;
		std::vector<State> stack;
		stack.push_back({ 0, 0, init });
		while (!stack.empty())
		{
			if (stack.back().base == h.size())
				return true;
			const size_t base = stack.back().base, k = stack.back().next++;
			const uint64_t mask = stack.back().mask;
			uint64_t minRet = ~0ull;
			for (size_t i = base; i < h.size() && h[i]->evInv <= minRet; i++)
				if (i - base >= 64 || !(mask >> (i - base) & 1))
					minRet = std::min(minRet, h[i]->evRet);
			if (base + k >= h.size() || h[base + k]->evInv > minRet)
			{
				stack.pop_back();
				continue;
			}
			if (k >= 64)
				sim::discard("history too long");
			if (mask >> k & 1)
				continue;
			State n{ base, mask | 1ull << k, stack.back().m };
			if (!n.m.apply(*h[base + k]))
				continue;
			for (; n.mask & 1; n.mask >>= 1)
				n.base++;
			if (n.base == h.size() || seen.insert({ n.base, n.mask, n.m.key() }).second)
				stack.push_back(std::move(n));
		}
		return false;
	}
};
template <typename Model>
inline void checkLinearizable(World &w, const std::vector<const OpRec *> &h, const Model &init, const char *kind)
{
	if (!Wgl<Model>(h).search(init))
	{
		std::string s;
		for (auto *o : h)
		{
			char b[160];
			snprintf(b, sizeof b, "  [%llu,%llu] client %d: %s(%ld,%ld,%ld,%ld) -> %s %llu ", (unsigned long long)o->evInv,
			         (unsigned long long)o->evRet, o->client, opNames[o->op.code], o->op.a, o->op.b, o->op.c, o->op.d,
			         o->ok == 1 ? "ok" : "throws", (unsigned long long)o->val);
			s += b + o->str + "\n";
		}
		(void)w;
		FAIL(kind, "no sequential order explains the results:\n%s", s.c_str());
	}
}

// sequential model of the net's structure and of the loop's life cycle (no firing)
struct NetModel
{
	struct P
	{
		uint64_t tok = 0;
		int input = 0;
		std::string act, exitAct;
	};
	struct Tr
	{
		std::map<std::string, uint64_t> a, d, i;
		int req = 0;
		std::string conds;
	};
	std::map<std::string, P> places;
	std::map<std::string, Tr> trans;
	std::map<std::string, uint64_t> acts, conds; // name -> the registration that counts
	int mode = 0;
	bool running = false;
	long period = 0;
	const World *w = nullptr;

	explicit NetModel(const World &world)
	: w(&world)
	{
		auto &S = world.S;
		mode = S.mode;
		period = S.periodMs;
		for (auto &p : S.places)
		{
			P x;
			x.tok = p.init;
			x.input = p.input;
			if (p.named && p.en.on)
				x.act = "en_" + p.name;
			if (p.named && p.ex.on)
				x.exitAct = "ex_" + p.name;
			places[p.name] = x;
		}
		for (auto &t : S.trans)
		{
			Tr x;
			for (auto &a : t.act)
				x.a[S.places[(size_t)a.place].name] = a.w;
			for (auto &a : t.dst)
				x.d[S.places[(size_t)a.place].name] = a.w;
			for (auto &a : t.inh)
				x.i[S.places[(size_t)a.place].name] = a.w;
			x.req = t.req;
			for (int c : t.conds)
				x.conds += t.namedConds ? "cond_" + std::to_string(c) + "," : std::string(",");
			trans[t.name] = x;
		}
	}
	static std::string arcs(const std::map<std::string, uint64_t> &m)
	{
		std::vector<std::string> x;
		for (auto &[n, wt] : m)
			x.push_back(n + "*" + std::to_string(wt));
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ",";
		return s;
	}
	std::string placesText() const
	{
		std::vector<std::string> x;
		for (auto &[n, p] : places)
			x.push_back(n + "|" + std::to_string(p.tok) + "|" + (p.input ? "in" : "") + "|" + p.act + "|" + p.exitAct);
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ";";
		return s;
	}
	std::string transText() const
	{
		std::vector<std::string> x;
		for (auto &[n, t] : trans)
			x.push_back(n + "|" + (t.req ? "req" : "") + "|" + t.conds + "|A:" + arcs(t.a) + "|D:" + arcs(t.d) + "|I:" + arcs(t.i));
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ";";
		return s;
	}
	std::string key() const
	{
		std::string s = placesText() + "#" + transText() + "#";
		for (auto &[a, f] : acts)
			s += a + std::to_string(f) + ",";
		s += "#";
		for (auto &[a, f] : conds)
			s += a + std::to_string(f) + ",";
		s += "#" + std::to_string(mode) + (running ? "R" : "-") + std::to_string(period);
		return s;
	}
	bool printMatches(const std::string &txt) const
	{
		std::set<std::string> lines;
		std::istringstream in(txt);
		std::string l;
		while (std::getline(in, l))
			if (!l.empty() && l != "Place; Tokens")
				lines.insert(l);
		if (lines.size() != places.size())
			return false;
		for (auto &[n, p] : places)
			if (!lines.count(n + ": " + std::to_string(p.tok)))
				return false;
		return true;
	}
	// executes the operation; returns whether the recorded outcome is possible
	bool apply(const OpRec &r)
	{
		const Op &o = r.op;
		const bool ok = r.ok == 1;
		if (r.fired && !ok)
			return true; // a failed allocation: no effect
		switch (o.code)
		{
		case O_INC:
		{
			auto it = places.find(w->placeName(o.a));
			const bool want = it != places.end() && it->second.input && it->second.tok != ~0ull;
			if (want)
				it->second.tok++;
			return ok == want;
		}
		case O_GET:
		{
			auto it = places.find(w->placeName(o.a));
			if (it == places.end())
				return !ok;
			return ok && r.val == it->second.tok;
		}
		case O_PROPS:
			return ok && r.str == (o.a == 0 ? placesText() : transText());
		case O_PRINT:
			return ok && printMatches(r.str);
		case O_RUNNING:
			return ok && r.val == (uint64_t)running;
		case O_START:
			if (running)
				return !ok;
			if (!ok)
				return false;
			running = mode != 0;
			return true;
		case O_STOP:
			running = false;
			return ok;
		case O_SETPER:
			period = o.a;
			return ok;
		case O_GETPER:
			return ok && (long)r.val == period;
		case O_SETMODE:
			if (running)
				return !ok;
			mode = (int)o.a;
			return ok;
		case O_GETMODE:
			return ok && (int)r.val == mode;
		case O_MKPLACE:
		{
			const std::string n = w->placeName(o.a), act = o.d > 0 ? w->actName(o.d) : "";
			const bool want = !n.empty() && !places.count(n) && (act.empty() || (acts.count(act) && acts.at(act)));
			if (want)
			{
				P x;
				x.tok = (uint64_t)o.b;
				x.input = o.c & 1;
				(o.c & 2 ? x.exitAct : x.act) = act;
				places[n] = x;
			}
			return ok == want;
		}
		case O_MKTRANS:
		{
			const std::string n = w->transName(o.a);
			bool want = !n.empty() && !trans.count(n);
			Tr x;
			x.req = o.d >> 16 & 1;
			if (o.b != -2)
			{
				want = want && places.count(w->placeName(o.b)) && (o.d & 255);
				x.a[w->placeName(o.b)] = (uint64_t)(o.d & 255);
			}
			if (o.c != -2)
			{
				want = want && places.count(w->placeName(o.c)) && (o.d & 255);
				x.d[w->placeName(o.c)] = (uint64_t)(o.d & 255);
			}
			if (o.d >> 17 & 1 && o.b != -2)
				x.i[w->placeName(o.b)] = (uint64_t)(o.d & 255);
			if (o.d >> 18 & 1) // an arc is repeated
				want = want && (o.d >> 17 & 1 ? x.i : o.d >> 19 & 1 ? x.d : x.a).empty();
			x.conds = ",";
			if (const long c = o.d >> 8 & 3)
			{
				x.conds.clear();
				for (long k = 1; k <= 2; k++)
					if (c & k)
					{
						x.conds += w->condName(k) + ",";
						want = want && conds.count(w->condName(k));
					}
			}
			if (want)
				trans[n] = x;
			return ok == want;
		}
		case O_ADDARC:
		case O_RMARC:
		{
			auto t = trans.find(w->transName(o.a));
			const std::string p = w->placeName(o.b);
			if (running || t == trans.end() || !places.count(p))
				return !ok;
			std::vector<std::map<std::string, uint64_t> *> v;
			switch (o.c & 3)
			{
			case 0:
				v = { &t->second.a };
				break;
			case 1:
				v = { &t->second.d };
				break;
			case 2:
				v = { &t->second.a, &t->second.d };
				break;
			case 3:
				v = { &t->second.i };
				break;
			}
			bool want = o.code == O_RMARC || o.d != 0;
			for (auto *x : v)
				want = want && (x->count(p) != 0) == (o.code == O_RMARC);
			for (auto *x : v)
			{
				if (want && o.code == O_ADDARC)
					(*x)[p] = (uint64_t)o.d;
				else if (want)
					x->erase(p);
			}
			return ok == want;
		}
		case O_CLEAR:
			if (running)
				return !ok;
			places.clear();
			trans.clear();
			return ok;
		case O_REGACT:
		{
			const std::string n = o.a ? w->actName(o.a) : "";
			const bool want = !n.empty() && !acts.count(n);
			if (want)
				acts[n] = o.b ? 0 : (uint64_t)(&r - w->ops.data()) + 1;
			return ok == want;
		}
		case O_REGCOND:
		{
			const std::string n = o.a ? w->condName(o.a) : "";
			const bool want = !n.empty() && !conds.count(n);
			if (want)
				conds[n] = (uint64_t)(&r - w->ops.data()) + 1;
			return ok == want;
		}
		case O_PROBEACT:
		case O_PROBECOND:
		{
			auto &names = o.code == O_PROBEACT ? acts : conds;
			auto it = names.find(o.code == O_PROBEACT ? w->actName(o.a) : w->condName(o.a));
			if (it == names.end() || !it->second)
				return !ok;
			return ok && r.val == it->second;
		}
		default:
			return true;
		}
	}
};
