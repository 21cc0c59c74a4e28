// Executes a scenario against the real engine and records what happened.
#pragma once
#include "scenario.h"
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <streambuf>
#include <system_error>

using ptne::ArcProperties;
using ptne::PlaceProperties;
using ptne::PTN_Engine;
using ptne::PTN_Exception;
using ptne::TransitionProperties;
using Mode = PTN_Engine::ACTIONS_THREAD_OPTION;

struct UserError : std::exception
{
	const char *what() const noexcept override
	{
		return "user callback failed";
	}
};
// what users throw need not be an exception of the standard library, or may look like the engine's own
struct UserValue
{
	int v;
};
struct UserPtnError : PTN_Exception
{
	UserPtnError() : PTN_Exception("user callback failed") {}
};
struct UserSystemError : std::system_error
{
	UserSystemError() : std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)) {}
};

enum EvType : uint8_t
{
	E_COND,
	E_AS,
	E_AE,
	E_INV,
	E_RET
};
struct Event
{
	uint64_t step, t;
	int16_t tid;
	EvType type;
	int16_t a; // condition, place, op record index
	int16_t b; // result, 1 for exit actions
};
struct OpRec
{
	int client = 0;
	Op op;
	uint64_t inv = 0, ret = ~0ull, tInv = 0, tRet = 0, idle = 0;
	int tid = -1;
	int ok = 0;       // 1 returned, 0 threw PTN_Exception, 2 system_error, 3 UserError, 4 bad_alloc, 5 other
	uint64_t val = 0;
	std::string str;
	bool fired = false;            // the allocation that was to fail has failed
	uint64_t evInv = 0, evRet = 0; // positions in the event log
};

struct NullBuf : std::streambuf
{
	int overflow(int c) override
	{
		return c == EOF ? 0 : c;
	}
	std::streamsize xsputn(const char *, std::streamsize n) override
	{
		return n;
	}
};

struct World
{
	const Scenario &S;
	std::unique_ptr<PTN_Engine> eng;
	std::vector<uint8_t> cond;
	std::vector<int> condThrow; // throw on the n-th evaluation (0: never)
	std::vector<int> condCalls;
	std::vector<uint64_t> lateYes;           // evaluations to true that were not made early
	std::vector<int> condYes;
	std::function<void(int, bool)> onCondEnd;
	std::function<void(const Op &)> beforeOp;
	std::function<bool(int)> onCondStart;    // is this evaluation made too early to count?
	std::vector<uint8_t> gate;
	std::vector<Event> ev;
	std::vector<OpRec> ops;
	std::vector<std::vector<int>> cnt, done; // [place][exit] started / finished
	std::vector<int> okIncs, tryIncs;
	std::vector<uint8_t> built; // transitions that exist
	std::shared_ptr<int> life = std::make_shared<int>(0);
	int inAction = 0, maxInAction = 0;
	bool engineGone = false; // destructor returned
	bool gatesOpen = false;
	bool callbacksOff = false;
	std::set<int> clientTids;
	NullBuf nullBuf;
	std::ostream nullStream{ &nullBuf };
	std::vector<std::pair<size_t, std::unique_ptr<std::ostringstream>>> logs; // operation, what the engine logged since
	bool keepLogs = false;
	std::function<void(int, bool, int)> onActionStart, onActionEnd;
	std::vector<std::string> extraNames;
	std::vector<uint64_t> base; // initial tokens (changed on restore)
	uint64_t condEvals = 0;
	std::vector<int> cbUsed;
	uint64_t named[2][4] = {}; // [action, condition][name]: the registration (operation + 1) whose function was called last

	explicit World(const Scenario &s)
	: S(s)
	{
		condYes.assign(s.condInit.size(), 0);
		cond.assign(s.condInit.begin(), s.condInit.end());
		condThrow.assign(s.condInit.size(), 0);
		condCalls.assign(s.condInit.size(), 0);
		lateYes.assign(s.condInit.size(), 0);
		gate.assign(8, 0);
		cnt.assign(s.places.size(), std::vector<int>(2, 0));
		done = cnt;
		cbUsed.assign(s.cbOps.size(), 0);
		okIncs.assign(s.places.size(), 0);
		tryIncs.assign(s.places.size(), 0);
		for (auto &p : s.places)
			base.push_back(p.init);
		for (auto &t : s.trans)
			built.push_back(!t.deferred);
		ev.reserve(4096);
		ops.reserve(256);
	}

	size_t log(EvType t, int a, int b)
	{
		ev.push_back({ sim::steps(), sim::now(), (int16_t)sim::tid(), t, (int16_t)a, (int16_t)b });
		return ev.size() - 1;
	}

	std::string placeName(long i) const
	{
		if (i >= 0 && i < (long)S.places.size())
			return S.places[(size_t)i].name;
		if (i == -1)
			return "";
		return std::string(prefix()) + "X" + std::to_string(i);
	}
	std::string transName(long i) const
	{
		if (i >= 0 && i < (long)S.trans.size())
			return S.trans[(size_t)i].name;
		if (i == -1)
			return "";
		return std::string(prefix()) + "Y" + std::to_string(i);
	}
	const char *prefix() const
	{
		return S.longNames ? "name_that_is_too_long_to_be_stored_inside_a_string_object_" : "";
	}
	std::string actName(long i) const
	{
		return std::string(prefix()) + "act" + std::to_string(i);
	}
	std::string condName(long i) const
	{
		return std::string(prefix()) + "cnd" + std::to_string(i);
	}

	int cbCode(int i) const
	{
		return S.cbOps[(size_t)i].code;
	}
	// thrown so far: index of the event, kind
	std::vector<std::pair<size_t, int>> threw;
	[[noreturn]] void throwOne(int k)
	{
		switch ((S.dataSeed + (uint64_t)k) % 6)
		{
		case 0:
			throw UserValue{ k };
		case 1:
			throw UserPtnError();
		case 2:
			throw UserSystemError();
		default:
			throw UserError();
		}
	}
	static bool isUserKind(uint64_t dataSeed, int k, int how)
	{
		const int m = (int)((dataSeed + (uint64_t)k) % 6);
		return how == (m > 2 ? 3 : m);
	}
	void action(int p, bool ex)
	{
		sim::allocFailArm(0); // only allocations made by the engine fail
		const ActS &A = ex ? S.places[(size_t)p].ex : S.places[(size_t)p].en;
		const int k = ++cnt[(size_t)p][ex];
		log(E_AS, p, ex);
		sim::result()->counters[2]++;
		sim::traceLine("t%d ACTION %s %s #%d", sim::tid(), ex ? "exit" : "enter", S.places[(size_t)p].name.c_str(), k);
		inAction++;
		maxInAction = std::max(maxInAction, inAction);
		if (onActionStart)
			onActionStart(p, ex, k);
		if (A.thr && k == A.thr && !callbacksOff)
		{
			sim::countFault(sim::F_THROW);
			inAction--;
			done[(size_t)p][ex]++;
			threw.push_back({ log(E_AE, p, ex), p + k });
			throwOne(p + k);
		}
		sim::point();
		if (A.gate >= 0 && !gatesOpen && !gate[(size_t)A.gate])
		{
			sim::countFault(sim::F_GATEACT);
			while (!gate[(size_t)A.gate])
				sim::blockOn(&gate[(size_t)A.gate]);
		}
		if (A.durMs)
		{
			sim::countFault(sim::F_SLOWACT);
			sim::sleepNs((uint64_t)A.durMs * 1000000);
		}
		if (A.op >= 0 && A.op < (int)S.cbOps.size() && eng && !callbacksOff &&
		    cbUsed[(size_t)A.op]++ < (cbCode(A.op) == O_INC ? 3 : cbCode(A.op) == O_START || cbCode(A.op) == O_STOP ? 2 : 1000000))
			doOp(S.cbOps[(size_t)A.op], -1);
		sim::point();
		if (onActionEnd)
			onActionEnd(p, ex, k);
		inAction--;
		done[(size_t)p][ex]++;
		log(E_AE, p, ex);
	}
	bool condition(int c)
	{
		sim::allocFailArm(0);
		condEvals++;
		sim::result()->counters[3]++;
		sim::point();
		const int k = ++condCalls[(size_t)c];
		const bool early = onCondStart && onCondStart(c);
		if (condThrow[(size_t)c] && condThrow[(size_t)c] == k && !callbacksOff)
		{
			sim::countFault(sim::F_THROW);
			threw.push_back({ log(E_COND, c, 2), c + k });
			throwOne(c + k);
		}
		if ((size_t)c < S.condDur.size() && S.condDur[(size_t)c] && !gatesOpen && !callbacksOff)
			sim::sleepNs((uint64_t)S.condDur[(size_t)c] * 1000000);
		bool v = cond[(size_t)c];
		log(E_COND, c, v);
		lateYes[(size_t)c] += v && !early;
		condYes[(size_t)c] += v;
		if (onCondEnd)
			onCondEnd(c, v);
		sim::traceLine("t%d CONDITION c%d -> %d", sim::tid(), c, v);
		return v;
	}
	ptne::ActionFunction actionFn(int p, bool ex)
	{
		return [this, p, ex, l = life] { action(p, ex); };
	}
	ptne::ConditionFunction condFn(int c)
	{
		return [this, c, l = life] { return condition(c); };
	}

	static ArcProperties arc(const std::string &p, const std::string &t, uint64_t w, ArcProperties::Type ty)
	{
		ArcProperties a;
		a.weight = w;
		a.placeName = p;
		a.transitionName = t;
		a.type = ty;
		return a;
	}
	void registerAll(PTN_Engine &e)
	{
		for (size_t i = 0; i < S.places.size(); i++)
		{
			auto &p = S.places[i];
			if (p.named && p.en.on)
				e.registerAction("en_" + p.name, actionFn((int)i, false));
			if (p.named && p.ex.on)
				e.registerAction("ex_" + p.name, actionFn((int)i, true));
		}
		for (size_t c = 0; c < S.condInit.size(); c++)
			e.registerCondition("cond_" + std::to_string(c), condFn((int)c));
	}
	void buildPlaces(PTN_Engine &e, int switchTo = -1)
	{
		for (size_t i = 0; i < S.places.size(); i++)
		{
			if (switchTo >= 0 && i == S.places.size() / 2)
				e.setActionsThreadOption((Mode)switchTo);
			auto &p = S.places[i];
			PlaceProperties pp;
			pp.name = p.name;
			pp.initialNumberOfTokens = p.init;
			pp.input = p.input;
			if (p.named)
			{
				if (p.en.on)
					pp.onEnterActionFunctionName = "en_" + p.name;
				if (p.ex.on)
					pp.onExitActionFunctionName = "ex_" + p.name;
			}
			else
			{
				if (p.en.on)
					pp.onEnterAction = actionFn((int)i, false);
				if (p.ex.on)
					pp.onExitAction = actionFn((int)i, true);
			}
			e.createPlace(pp);
		}
	}
	ArcProperties arcOf(const TransS &t, const ArcS &a, ArcProperties::Type ty) const
	{
		return arc(S.places[(size_t)a.place].name, t.name, a.w, ty);
	}
	// all arcs of a transition, in the order activation, destination, inhibitor
	std::vector<ArcProperties> arcsOf(const TransS &t) const
	{
		using enum ArcProperties::Type;
		std::vector<ArcProperties> v;
		for (auto &a : t.act)
			v.push_back(arcOf(t, a, ACTIVATION));
		for (auto &a : t.dst)
			v.push_back(arcOf(t, a, DESTINATION));
		for (auto &a : t.inh)
			v.push_back(arcOf(t, a, INHIBITOR));
		return v;
	}
	void buildTransition(PTN_Engine &e, const TransS &t)
	{
		using enum ArcProperties::Type;
		const bool whole = t.deferred; // no arcs can be added to a running engine
		const bool replace = t.detour && t.detour % 4 == 0 && !whole;
		TransitionProperties tp;
		tp.name = t.name;
		tp.requireNoActionsInExecution = t.req;
		for (auto &a : t.act)
			if (!a.late || whole)
				tp.activationArcs.push_back(arcOf(t, a, ACTIVATION));
		for (auto &a : t.dst)
			if (!a.late || whole)
				tp.destinationArcs.push_back(arcOf(t, a, DESTINATION));
		for (auto &a : t.inh)
			if (!a.late || whole)
				tp.inhibitorArcs.push_back(arcOf(t, a, INHIBITOR));
		std::vector<ArcProperties> redo;
		if (replace)
			for (auto *v : { &tp.activationArcs, &tp.destinationArcs, &tp.inhibitorArcs })
				if (!v->empty())
				{
					auto &x = (*v)[(size_t)(t.detour / 4) % v->size()];
					redo.push_back(x);
					x.weight++;
				}
		for (int c : t.conds)
			if (t.namedConds)
				tp.additionalConditionsNames.push_back("cond_" + std::to_string(c));
			else
				tp.additionalConditions.push_back(condFn(c));
		e.createTransition(tp);
		if (whole)
			return;
		for (auto &x : redo)
			e.removeArc(x);
		ArcProperties extra;
		bool detour = t.detour % 4 != 0;
		if (detour)
		{
			extra = arc(S.places[(size_t)(t.detour / 4) % S.places.size()].name, t.name, (size_t)(1 + t.detour / 4 % 3),
			            t.detour % 4 == 1 ? ACTIVATION : t.detour % 4 == 2 ? DESTINATION : INHIBITOR);
			for (auto &x : arcsOf(t))
				detour &= !(x.placeName == extra.placeName && x.type == extra.type);
		}
		if (detour)
			e.addArc(extra);
		for (auto &a : t.act)
			if (a.late == 1)
				e.addArc(arcOf(t, a, ACTIVATION));
			else if (a.late == 2)
				e.addArc(arcOf(t, a, BIDIRECTIONAL));
		if (detour && t.detour & 64)
		{
			e.removeArc(extra);
			detour = false;
		}
		for (auto &x : redo)
			e.addArc(x);
		for (auto &a : t.dst)
			if (a.late == 1)
				e.addArc(arcOf(t, a, DESTINATION));
		for (auto &a : t.inh)
			if (a.late == 1)
				e.addArc(arcOf(t, a, INHIBITOR));
		if (detour)
			e.removeArc(extra);
	}
	void buildTrans(PTN_Engine &e)
	{
		for (auto &t : S.trans)
			if (!t.deferred)
				buildTransition(e, t);
	}
	// everything so far is settled: count from here on
	size_t newSegment(const std::vector<uint64_t> &m)
	{
		base = m;
		for (auto *v : { &cnt, &done })
			v->assign(S.places.size(), std::vector<int>(2, 0));
		okIncs.assign(S.places.size(), 0);
		tryIncs.assign(S.places.size(), 0);
		return ev.size();
	}
	void create()
	{
		const int first = S.mode0 >= 0 ? S.mode0 : S.mode;
		eng = std::make_unique<PTN_Engine>((Mode)first);
		registerAll(*eng);
		if (S.switchAt == 0 && first != S.mode)
			eng->setActionsThreadOption((Mode)S.mode);
		buildPlaces(*eng, S.switchAt == 1 && first != S.mode ? S.mode : -1);
		buildTrans(*eng);
		if (S.switchAt == 2 && first != S.mode)
			eng->setActionsThreadOption((Mode)S.mode);
		eng->setEventLoopSleepDuration(std::chrono::milliseconds(S.periodMs));
	}

	static std::string arcsText(const std::vector<ArcProperties> &v)
	{
		std::vector<std::string> x;
		for (auto &a : v)
			x.push_back(a.placeName + "*" + std::to_string(a.weight));
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ",";
		return s;
	}
	static std::string placesText(const std::vector<PlaceProperties> &v, bool tokens = true)
	{
		std::vector<std::string> x;
		for (auto &p : v)
			x.push_back(p.name + "|" + (tokens ? std::to_string(p.initialNumberOfTokens) : "") + "|" + (p.input ? "in" : "") + "|" +
			            p.onEnterActionFunctionName + "|" + p.onExitActionFunctionName);
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ";";
		return s;
	}
	static std::string transText(const std::vector<TransitionProperties> &v)
	{
		std::vector<std::string> x;
		for (auto &t : v)
		{
			std::string c;
			for (auto &n : t.additionalConditionsNames)
				c += n + ",";
			x.push_back(t.name + "|" + (t.requireNoActionsInExecution ? "req" : "") + "|" + c + "|A:" + arcsText(t.activationArcs) +
			            "|D:" + arcsText(t.destinationArcs) + "|I:" + arcsText(t.inhibitorArcs));
		}
		std::sort(x.begin(), x.end());
		std::string s;
		for (auto &y : x)
			s += y + ";";
		return s;
	}

	// Executes one operation and records it.  Returns the index of its record.
	size_t doOp(const Op &op, int client)
	{
		ops.emplace_back();
		const size_t idx = ops.size() - 1;
		{
			OpRec &r = ops[idx];
			r.client = client;
			r.op = op;
			r.tid = sim::tid();
			r.inv = sim::steps();
			r.tInv = sim::now();
			r.idle = sim::idleAdvances();
			r.evInv = log(E_INV, (int)idx, 0);
		}
		sim::traceLine("t%d client %d: %s %ld %ld %ld %ld", sim::tid(), client, opNames[op.code], op.a, op.b, op.c, op.d);
		sim::result()->counters[1]++;
		int ok = 1;
		uint64_t val = 0;
		std::string str;
		PTN_Engine *e = eng.get();
		using enum ArcProperties::Type;
		static const ArcProperties::Type types[4] = { ACTIVATION, DESTINATION, BIDIRECTIONAL, INHIBITOR };
		bool fired = false;
		struct Armed
		{
			const Op &op;
			bool &fired;
			~Armed()
			{
				if (op.f)
					sim::allocFailArm(0, &fired);
			}
		};
		try
		{
			if (beforeOp)
				beforeOp(op);
			Armed armed{ op, fired };
			if (op.f)
				sim::allocFailArm((uint32_t)op.f);
			switch (op.code)
			{
			case O_INC:
				if (op.a >= 0 && op.a < (long)tryIncs.size())
					tryIncs[(size_t)op.a]++;
				e->incrementInputPlace(placeName(op.a));
				if (op.a >= 0 && op.a < (long)okIncs.size())
					okIncs[(size_t)op.a]++;
				break;
			case O_GET:
				val = e->getNumberOfTokens(placeName(op.a));
				break;
			case O_PROPS:
				if (op.a == 0)
					str = placesText(e->getPlacesProperties());
				else
					str = transText(e->getTransitionsProperties());
				break;
			case O_PRINT:
			{
				std::ostringstream o;
				e->printState(o);
				str = o.str();
				break;
			}
			case O_RUNNING:
				val = e->isEventLoopRunning();
				break;
			case O_START:
				if (op.a && keepLogs)
				{
					logs.emplace_back(idx, std::make_unique<std::ostringstream>());
					auto &out = *logs.back().second;
					e->execute(true, out);
				}
				else if (op.a)
					e->execute(true, nullStream);
				else
					e->execute();
				break;
			case O_STOP:
				e->stop();
				break;
			case O_SETPER:
				e->setEventLoopSleepDuration(std::chrono::milliseconds(op.a));
				break;
			case O_GETPER:
				val = (uint64_t)e->getEventLoopSleepDuration().count();
				break;
			case O_SETMODE:
				e->setActionsThreadOption((Mode)op.a);
				break;
			case O_GETMODE:
				val = (uint64_t)e->getActionsThreadOption();
				break;
			case O_COND:
				if (op.a >= 0 && op.a < (long)cond.size())
					cond[(size_t)op.a] = (uint8_t)op.b;
				break;
			case O_SLEEP:
				sim::sleepNs((uint64_t)op.a * 1000000);
				break;
			case O_YIELD:
				for (long i = 0; i < op.a; i++)
					sim::point();
				break;
			case O_GATE:
				gate[(size_t)(op.a & 7)] = 1;
				sim::wake(&gate[(size_t)(op.a & 7)]);
				break;
			case O_WAITIDLE:
				sim::waitIdle();
				break;
			case O_MKPLACE:
			{
				PlaceProperties pp;
				pp.name = placeName(op.a);
				pp.initialNumberOfTokens = (size_t)op.b;
				pp.input = op.c & 1;
				if (op.d > 0)
					(op.c & 2 ? pp.onExitActionFunctionName : pp.onEnterActionFunctionName) = actName(op.d);
				e->createPlace(pp);
				break;
			}
			case O_MKTRANS:
			{
				// a: name, b: activation place, c: destination place,
				// d: weight | conditions<<8 | req<<16 | repeat an arc, or inhibitor arcs, <<17
				TransitionProperties tp;
				tp.name = transName(op.a);
				if (op.b != -2)
					tp.activationArcs.push_back(arc(placeName(op.b), tp.name, (size_t)(op.d & 255), ACTIVATION));
				if (op.c != -2)
					tp.destinationArcs.push_back(arc(placeName(op.c), tp.name, (size_t)(op.d & 255), DESTINATION));
				if (op.d >> 17 & 1 && op.b != -2)
					tp.inhibitorArcs.push_back(arc(placeName(op.b), tp.name, (size_t)(op.d & 255), INHIBITOR));
				if (op.d >> 18 & 1)
				{
					auto &v = op.d >> 17 & 1 ? tp.inhibitorArcs : op.d >> 19 & 1 ? tp.destinationArcs : tp.activationArcs;
					if (!v.empty())
						v.push_back(v[0]);
				}
				if (const long c = op.d >> 8 & 3)
				{
					for (long k = 1; k <= 2; k++)
						if (c & k)
							tp.additionalConditionsNames.push_back(condName(k));
				}
				else
					tp.additionalConditions.push_back([l = life] { return false; });
				tp.requireNoActionsInExecution = op.d >> 16 & 1;
				e->createTransition(tp);
				break;
			}
			case O_ADDARC:
				e->addArc(arc(placeName(op.b), transName(op.a), (size_t)op.d, types[op.c & 3]));
				break;
			case O_RMARC:
				e->removeArc(arc(placeName(op.b), transName(op.a), 1, types[op.c & 3]));
				break;
			case O_CLEAR:
				e->clearNet();
				break;
			case O_REGACT:
				if (op.b)
					e->registerAction(op.a ? actName(op.a) : "", nullptr);
				else
					e->registerAction(op.a ? actName(op.a) : "", [this, idx, n = op.a & 3, l = life] { named[0][n] = idx + 1; });
				break;
			case O_REGCOND:
				e->registerCondition(op.a ? condName(op.a) : "",
				                     [this, idx, n = op.a & 3, l = life]
				                     {
					                     named[1][n] = idx + 1;
					                     return false;
				                     });
				break;
			case O_PROBEACT:
			{
				// which of the registered functions does the name stand for?
				PlaceProperties pp;
				pp.name = "ProbeAct" + std::to_string(op.a);
				pp.input = true;
				pp.onEnterActionFunctionName = actName(op.a);
				e->createPlace(pp);
				named[0][op.a & 3] = 0;
				e->incrementInputPlace(pp.name);
				sim::waitIdle();
				val = named[0][op.a & 3];
				break;
			}
			case O_PROBECOND:
			{
				TransitionProperties tp;
				tp.name = "ProbeCond" + std::to_string(op.a);
				tp.additionalConditionsNames.push_back(condName(op.a));
				PlaceProperties pp;
				pp.name = tp.name;
				pp.initialNumberOfTokens = 1;
				e->createPlace(pp);
				tp.activationArcs.push_back(arc(pp.name, tp.name, 1, ACTIVATION));
				e->createTransition(tp);
				named[1][op.a & 3] = 0;
				e->execute();
				sim::waitIdle();
				e->stop();
				val = named[1][op.a & 3];
				break;
			}
			case O_BUILD:
				if (op.a >= 0 && op.a < (long)S.trans.size() && S.trans[(size_t)op.a].deferred)
				{
					buildTransition(*e, S.trans[(size_t)op.a]);
					built[(size_t)op.a] = 1;
				}
				break;
			case O_REWIRE:
				if (op.a >= 0 && op.a < (long)S.trans.size() && built[(size_t)op.a])
				{
					const auto all = arcsOf(S.trans[(size_t)op.a]);
					const auto &x = all[(size_t)op.b % all.size()];
					if (op.c)
						e->stop();
					e->removeArc(x);
					e->addArc(x);
					if (op.c)
						e->execute();
				}
				break;
			case O_DESTROY:
				// the user waits for the engine calls made by callbacks
				sim::hbAcquire(this);
				eng.reset();
				engineGone = true;
				break;
			default:
				break;
			}
		}
		catch (const UserError &)
		{
			ok = 3;
			val = 3;
		}
		catch (const UserValue &)
		{
			ok = 3;
			val = 0;
		}
		catch (const UserPtnError &)
		{
			ok = 3;
			val = 1;
		}
		catch (const UserSystemError &)
		{
			ok = 3;
			val = 2;
		}
		catch (const std::system_error &x)
		{
			ok = 2;
			str = x.what();
		}
		catch (const std::bad_alloc &)
		{
			ok = 4;
		}
		catch (const PTN_Exception &x)
		{
			ok = 0;
			str = x.what();
		}
		catch (const std::exception &x)
		{
			ok = 5;
			str = x.what();
		}
		OpRec &r = ops[idx];
		r.ok = ok;
		r.fired = fired;
		r.val = val;
		r.str = std::move(str);
		r.idle = sim::idleAdvances() - r.idle;
		r.tRet = sim::now();
		if (client == -1)
			sim::hbRelease(this);
		r.evRet = log(E_RET, (int)idx, 0);
		r.ret = sim::steps();
		sim::traceLine("t%d client %d: %s returned ok=%d val=%llu", sim::tid(), client, opNames[op.code], ok,
		               (unsigned long long)val);
		return idx;
	}
	size_t run1(int code, long a = 0, long b = 0)
	{
		Op o;
		o.code = code;
		o.a = a;
		o.b = b;
		return doOp(o, 99);
	}

	std::vector<int> spawnClients(const char *prefix = "client")
	{
		std::vector<int> ids;
		for (size_t c = 0; c < S.clients.size(); c++)
		{
			std::string n = prefix + std::to_string(c);
			ids.push_back(sim::spawn(n.c_str(),
			                         [this, c]
			                         {
				                         for (auto &o : S.clients[c])
				                         {
					                         doOp(o, (int)c);
					                         sim::point();
				                         }
			                         }));
			clientTids.insert(ids.back());
		}
		return ids;
	}
	void openGates()
	{
		gatesOpen = true;
		for (auto &g : gate)
		{
			g = 1;
			sim::wake(&g);
		}
	}
	uint64_t actionSum() const
	{
		uint64_t n = 0;
		for (auto &c : done)
			n += (uint64_t)(c[0] + c[1]);
		return n;
	}
	// faults stop; lets the engine come to rest
	void settle()
	{
		sim::setNoFaults(true);
		openGates();
		long per = S.periodMs;
		if (eng)
			per = (long)eng->getEventLoopSleepDuration().count();
		int maxDur = 0;
		for (auto &p : S.places)
			maxDur = std::max({ maxDur, p.en.durMs, p.ex.durMs });
		for (int d : S.condDur)
			maxDur = std::max(maxDur, d);
		bool req = false;
		for (auto &t : S.trans)
			req |= t.req;
		const bool longPeriod = per > 100000;
		for (int same = 0, i = 0; same < 2 && i < 200; i++)
		{
			uint64_t a = actionSum(), c = tokenHash();
			sim::waitIdle();
			sim::sleepNs((uint64_t)(longPeriod ? 1 : 2 * per + 1) * 1000000 + (uint64_t)maxDur * 2000000 + (req ? 350000000 : 0));
			sim::waitIdle();
			if (a == actionSum() && c == tokenHash() && inAction == 0)
				same++;
			else
				same = 0;
		}
	}
	uint64_t tokenHash()
	{
		uint64_t h = 0;
		if (eng)
			for (auto &p : S.places)
				h = h * 1000003 + eng->getNumberOfTokens(p.name);
		return h;
	}
	std::vector<uint64_t> marking()
	{
		std::vector<uint64_t> m;
		for (auto &p : S.places)
			m.push_back(eng->getNumberOfTokens(p.name));
		return m;
	}
	bool tokenEnabled(const TransS &t, const std::vector<uint64_t> &m) const
	{
		if (!built[(size_t)(&t - S.trans.data())])
			return false;
		for (auto &a : t.inh)
			if (m[(size_t)a.place] > 0)
				return false;
		for (auto &a : t.act)
			if (m[(size_t)a.place] < a.w)
				return false;
		return true;
	}
	bool condsTrue(const TransS &t) const
	{
		for (int c : t.conds)
			if (!cond[(size_t)c])
				return false;
		return true;
	}
	std::string markingText(const std::vector<uint64_t> &m) const
	{
		std::string s;
		for (size_t i = 0; i < m.size(); i++)
			s += S.places[i].name + "=" + std::to_string(m[i]) + " ";
		return s;
	}
	uint64_t fires(const TransS &t, const std::vector<uint64_t> &m) const
	{
		return m[(size_t)t.counter] - base[(size_t)t.counter];
	}
};

#define FAIL(kind, ...) sim::violation(kind, __VA_ARGS__)
