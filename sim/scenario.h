// Scenario description: everything a simulated run does, apart from scheduling, as plain data.
#pragma once
#include "rt.h"
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>

struct ActS
{
	int on = 0;     // has the action
	int durMs = 0;  // virtual time the body takes
	int gate = -1;  // waits for this gate
	int thr = 0;    // throws on its thr-th call (0: never)
	int op = -1;    // index into Scenario::cbOps: engine call made from the body
};
struct PlaceS
{
	std::string name;
	uint64_t init = 0;
	int input = 0, named = 0;
	ActS en, ex;
};
struct ArcS
{
	int place;
	uint64_t w;
	int late; // created with addArc instead of in the transition's properties
};
struct TransS
{
	std::string name;
	std::vector<ArcS> act, dst, inh;
	std::vector<int> conds;
	int req = 0, namedConds = 0;
	int counter = -1; // index of its counting place
	int deferred = 0; // created by an operation (O_BUILD), not with the net
	int detour = 0;   // built with arcs that are taken away or replaced again
};
enum OpCode
{
	O_INC,
	O_GET,
	O_PROPS,
	O_PRINT,
	O_RUNNING,
	O_START,
	O_STOP,
	O_SETPER,
	O_GETPER,
	O_SETMODE,
	O_GETMODE,
	O_COND,
	O_SLEEP,
	O_YIELD,
	O_GATE,
	O_WAITIDLE,
	O_MKPLACE,
	O_MKTRANS,
	O_ADDARC,
	O_RMARC,
	O_CLEAR,
	O_REGACT,
	O_REGCOND,
	O_EXPORT,
	O_IMPORT,
	O_DESTROY,
	O_PROBEACT,
	O_PROBECOND,
	O_BUILD,  // creates deferred transition a
	O_REWIRE, // takes arc b of transition a away and puts it back (stopping the engine meanwhile if c)
	O_NOP,
	O_N
};
inline const char *const opNames[O_N] = { "inc",     "get",     "props",  "print",   "running", "start",  "stop",
	                                      "setper",  "getper",  "setmode", "getmode", "cond",    "sleep",  "yield",
	                                      "gate",    "waitidle", "mkplace", "mktrans", "addarc",  "rmarc",  "clear",
	                                      "regact",  "regcond", "export", "import",  "destroy", "probeact", "probecond", "build",   "rewire", "nop" };
struct Op
{
	int code = O_NOP;
	long a = 0, b = 0, c = 0, d = 0;
	int f = 0; // this allocation made by the call fails (0: none)
};
struct Scenario
{
	std::string prop;
	int variant = 0; // profile specific
	int mode = 3;    // 0 SINGLE 1 EVENT_LOOP 2 DETACHED 3 JOB_QUEUE
	long periodMs = 100;
	uint64_t dataSeed = 1;
	int startFirst = 1; // execute before the clients start
	long p1 = 0, p2 = 0, p3 = 0;
	int longNames = 0;
	int mode0 = -1, switchAt = 0; // constructed with mode0, changed to mode before / amid / after building the net
	std::vector<PlaceS> places;
	std::vector<TransS> trans;
	std::vector<int> condInit;
	std::vector<int> condDur; // virtual time an evaluation takes, in ms (empty: none)
	std::vector<Op> cbOps;
	std::vector<std::vector<Op>> clients;
	sim::Config cfg;
};

inline std::string toText(const Scenario &s)
{
	std::ostringstream o;
	o << "prop " << s.prop << "\n";
	o << "variant " << s.variant << " mode " << s.mode << " period " << s.periodMs << " data " << s.dataSeed << " startfirst "
	  << s.startFirst << " params " << s.p1 << " " << s.p2 << " " << s.p3 << "\n";
	if (s.longNames)
		o << "longnames\n";
	if (s.mode0 >= 0)
		o << "switch " << s.mode0 << " " << s.switchAt << "\n";
	auto act = [&](const ActS &a) { o << " " << a.on << " " << a.durMs << " " << a.gate << " " << a.thr << " " << a.op; };
	for (auto &p : s.places)
	{
		o << "place " << p.name << " " << p.init << " " << p.input << " " << p.named;
		act(p.en);
		act(p.ex);
		o << "\n";
	}
	auto arcs = [&](const std::vector<ArcS> &v)
	{
		o << " " << v.size();
		for (auto &a : v)
			o << " " << a.place << " " << a.w << " " << a.late;
	};
	for (auto &t : s.trans)
	{
		o << "trans " << t.name << " " << t.req << " " << t.namedConds << " " << t.counter;
		arcs(t.act);
		arcs(t.dst);
		arcs(t.inh);
		o << " " << t.conds.size();
		for (int c : t.conds)
			o << " " << c;
		o << "\n";
		if (t.deferred || t.detour)
			o << "tflags " << t.deferred << " " << t.detour << "\n";
	}
	o << "conds " << s.condInit.size();
	for (int c : s.condInit)
		o << " " << c;
	o << "\n";
	if (!s.condDur.empty())
	{
		o << "conddur " << s.condDur.size();
		for (int c : s.condDur)
			o << " " << c;
		o << "\n";
	}
	auto op = [&](const Op &x) { o << " " << opNames[x.code] << " " << x.a << " " << x.b << " " << x.c << " " << x.d << " " << x.f; };
	for (auto &x : s.cbOps)
	{
		o << "cbop";
		op(x);
		o << "\n";
	}
	for (auto &c : s.clients)
	{
		o << "client " << c.size();
		for (auto &x : c)
			op(x);
		o << "\n";
	}
	const auto &g = s.cfg;
	o << "config " << g.seed << " " << g.strategy << " " << g.switchInv << " " << g.pctDepth << " " << g.pctLen << " "
	  << g.plainInv << " " << g.spuriousInv << " " << g.stallInv << " " << g.stallMaxNs << " " << g.timeAdvInv << " "
	  << g.clockJumpInv << " " << g.threadFailInv << " " << g.threadFailMax << " " << g.threadFailScope << " "
	  << g.allocFailAt << " " << g.race << " " << g.quantum << " " << g.fairAfter << " " << g.maxSteps << "\n";
	return o.str();
}

inline bool fromText(std::istream &in, Scenario &s)
{
	std::string line;
	while (std::getline(in, line))
	{
		if (line.empty() || line[0] == '#')
			continue;
		std::istringstream l(line);
		std::string k;
		l >> k;
		auto act = [&](ActS &a) { l >> a.on >> a.durMs >> a.gate >> a.thr >> a.op; };
		auto readOp = [&](Op &x)
		{
			std::string n;
			l >> n >> x.a >> x.b >> x.c >> x.d >> x.f;
			for (int i = 0; i < O_N; i++)
				if (n == opNames[i])
					x.code = i;
		};
		if (k == "end")
			return true;
		if (k == "prop")
			l >> s.prop;
		else if (k == "variant")
		{
			std::string d;
			l >> s.variant >> d >> s.mode >> d >> s.periodMs >> d >> s.dataSeed >> d >> s.startFirst >> d >> s.p1 >> s.p2 >> s.p3;
		}
		else if (k == "place")
		{
			PlaceS p;
			l >> p.name >> p.init >> p.input >> p.named;
			act(p.en);
			act(p.ex);
			s.places.push_back(p);
		}
		else if (k == "trans")
		{
			TransS t;
			l >> t.name >> t.req >> t.namedConds >> t.counter;
			for (auto *v : { &t.act, &t.dst, &t.inh })
			{
				size_t n = 0;
				l >> n;
				for (size_t i = 0; i < n; i++)
				{
					ArcS a;
					l >> a.place >> a.w >> a.late;
					v->push_back(a);
				}
			}
			size_t n = 0;
			l >> n;
			for (size_t i = 0; i < n; i++)
			{
				int c;
				l >> c;
				t.conds.push_back(c);
			}
			s.trans.push_back(t);
		}
		else if (k == "tflags" && !s.trans.empty())
			l >> s.trans.back().deferred >> s.trans.back().detour;
		else if (k == "conds")
		{
			size_t n = 0;
			l >> n;
			s.condInit.resize(n);
			for (auto &c : s.condInit)
				l >> c;
		}
		else if (k == "conddur")
		{
			size_t n = 0;
			l >> n;
			s.condDur.resize(n);
			for (auto &c : s.condDur)
				l >> c;
		}
		else if (k == "longnames")
			s.longNames = 1;
		else if (k == "switch")
			l >> s.mode0 >> s.switchAt;
		else if (k == "cbop")
		{
			Op x;
			readOp(x);
			s.cbOps.push_back(x);
		}
		else if (k == "client")
		{
			size_t n = 0;
			l >> n;
			std::vector<Op> v(n);
			for (auto &x : v)
				readOp(x);
			s.clients.push_back(v);
		}
		else if (k == "config")
		{
			auto &g = s.cfg;
			l >> g.seed >> g.strategy >> g.switchInv >> g.pctDepth >> g.pctLen >> g.plainInv >> g.spuriousInv >> g.stallInv >>
			g.stallMaxNs >> g.timeAdvInv >> g.clockJumpInv >> g.threadFailInv >> g.threadFailMax >> g.threadFailScope >>
			g.allocFailAt >> g.race >> g.quantum >> g.fairAfter >> g.maxSteps;
		}
	}
	return true;
}
