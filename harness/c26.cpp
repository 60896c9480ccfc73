// C26 - concurrent calls behave as if each were alone.
//
// The real operations, compiled with access announcements, run in real threads
// under a scheduler that owns every switch (sched.hpp). For every pair of
// operations it is recorded what they touch outside of their own stack. If
// they share nothing that either writes, all interleavings equal one of the
// two serial orders (independence), and those two are executed; else all
// schedules with at most two preemptions (thorough: three) at the shared
// addresses are executed, each in a fresh process, and every result must be
// the one the operation gives alone, with no data race and no deadlock.
#include "c26.hpp"
#include "sched.hpp"

namespace
{
using mc::Ctx;
using namespace num;

struct Flat
{
	int kind, n;
	double c[12];
	int len;
	char text[300];
};
void flatten(Val const & v, Flat & f)
{
	std::memset(&f, 0, sizeof f);
	f.kind = v.kind;
	f.n = v.n;
	for (int i = 0; i < v.n; ++i) { f.c[i] = v.c[i] != v.c[i] ? qnan : v.c[i]; }
	f.len = int(v.text.size());
	std::memcpy(f.text, v.text.data(), std::min<std::size_t>(v.text.size(), sizeof f.text));
}
bool eq(Flat const & a, Flat const & b) { return std::memcmp(&a, &b, sizeof a) == 0; }
std::string show(Flat const & f)
{
	Val v;
	v.kind = f.kind;
	v.n = f.n;
	for (int i = 0; i < f.n; ++i) { v.c[i] = f.c[i]; }
	v.text.assign(f.text, std::min<std::size_t>(f.len, sizeof f.text));
	return ::show(v);
}

// operands: shared, constructed before any thread starts; two generic sets, so
// that the two threads can work on the same or on different entities, and sets
// of special entities that lead operations into their rarer branches
std::vector<std::array<double, 8>> const & specials()
{
	static std::vector<std::array<double, 8>> const s
		{ { 0, 0, 0, 0, 0, 0, 0, 0 }, { 1, 0, 0, 0, 0, 0, 0, 0 }, { -1, 0, 0, 0, 0, 0, 0, 0 }, { 0, 0, 0, 0, 0, 0, 0, -2 }
		, { 0, 0, 2, 0, 0, -3, 0, 0 }, { 1, 1, 1, 1, 1, 1, 1, 1 }, { qnan, 1, 2, 3, 4, 5, 6, 7 }, { 1, 2, 3, inf, 5, 6, 7, -inf }
		, { 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310 }, { 1e-12, 2e-12, -1e-12, 1e-13, 3e-12, 1e-12, 0, 1e-12 }
		, { 1e150, -3e149, 2e150, 1e150, 7e149, 0, 1e150, -1e150 }, { 1e300, 1e300, 1e300, 1e300, 1e300, 1e300, 1e300, 1e300 }
		, { -1, 1e-17, 0, 1e-17, 0, 0, 1e-17, 0 }, { -1, 1e-9, 0, 0, 0, 0, 0, 1e-9 }, { 1, 1e-9, 0, 1e-9, 1e-9, 0, 0, 1e-9 }
		, { 12345678901., -98765.4321, 1e-7, -1e22, 0.5, 1e15, -3e-5, 7e8 }, { 0.6, 0.8, 0, 0, 0, 0.6, 0.8, 0 } };
	return s;
}
constexpr int nsets{ 19 };
alignas(64) unsigned char pool[nsets][2][kCount][512];
double const * operand(int set, int side, int kind) { return kind < 0 ? nullptr : reinterpret_cast<double const *>(pool[set][side][kind]); }
void fillPool()
{
	for (int s = 0; s < nsets; ++s) for (int side = 0; side < 2; ++side) for (int k = 0; k < kCount; ++k)
	{
		c26Make(k, s < 2 ? patterns()[(s ? 3 : 1) - side + (s ? 0 : 2 * side)].data() : specials()[std::size_t(s - 2)].data(), pool[s][side][k]);
	}
}
//! The call, its result kept on the stack of the thread until it is complete
void call(Op const & op, int set, Flat & f)
{
	Val v;
	op.fn(operand(set, 0, op.a), operand(set, 1, op.b), v);
	sched::quietly([&] { flatten(v, f); });
}

struct Message
{
	Flat r[2];
	int n;
	int capped;
	std::uint64_t accesses;
	int choice[4000];
	int enabled[4000];
	int running[4000];
	char trouble[200];
	int done;
};
template <class F> bool inChild(Message & m, F const & f)
{
	static Message * const sh{ static_cast<Message *>(mmap(nullptr, sizeof(Message), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) };
	sh->done = 0;
	sh->n = 0;
	sh->trouble[0] = 0;
	pid_t const p{ fork() };
	if (p == 0)
	{
		alarm(60);
		f(*sh);
		sh->done = 1;
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	std::memcpy(&m, sh, offsetof(Message, choice));
	std::memcpy(m.choice, sh->choice, sizeof(int) * std::size_t(m.n));
	std::memcpy(m.enabled, sh->enabled, sizeof(int) * std::size_t(m.n));
	std::memcpy(m.running, sh->running, sizeof(int) * std::size_t(m.n));
	std::memcpy(m.trouble, sh->trouble, sizeof m.trouble);
	m.done = sh->done;
	return m.done;
}

struct Body { Op const * op; int set; };
//! One schedule, in a process of its own
void once(Message & m, Body const * b, std::vector<int> const & prefix, std::set<std::uintptr_t> const & watch, bool calls, bool warm)
{
	if (warm) { for (int i = 0; i < 2; ++i) { Flat w; call(*b[i].op, b[i].set, w); } }
	std::vector<std::function<void()>> bodies;
	for (int i = 0; i < 2; ++i) { bodies.push_back([&, i] { call(*b[i].op, b[i].set, m.r[i]); }); }
	sched::Outcome const o(sched::execute(bodies, prefix, watch, calls));
	m.n = int(std::min<std::size_t>(o.choices.size(), 4000u));
	m.capped = o.capped || o.choices.size() > 4000u;
	m.accesses = o.accesses;
	for (int i = 0; i < m.n; ++i) { m.choice[i] = o.choices[i]; m.enabled[i] = o.points[i].enabled; m.running[i] = o.points[i].runningEnabled; }
	std::snprintf(m.trouble, sizeof m.trouble, "%s", o.trouble.c_str());
}

struct Search
{
	Body const * b;
	Flat want[2];
	std::set<std::uintptr_t> watch;
	bool calls{ false }, warm{ false };
	int bound{ 2 };
	long budget{ 0 };
	std::uint64_t schedules{ 0 }, points{ 0 };
	std::string bad;
	bool capped{ false };
	void go(std::vector<int> const & prefix)
	{
		if (! bad.empty() || capped) { return; }
		if (budget-- <= 0) { capped = true; return; }
		static thread_local Message m;
		bool const ok(inChild(m, [&](Message & x) { once(x, b, prefix, watch, calls, warm); }));
		++schedules;
		points += std::uint64_t(m.n);
		std::vector<int> const ch(m.choice, m.choice + m.n), en(m.enabled, m.enabled + m.n), ru(m.running, m.running + m.n);
		auto how = [&] { std::string s; for (int c : ch) { s += char('0' + c); } return std::string(warm ? " (after both have run before)" : " (first use)") + "\n  schedule " + s; };
		if (! ok) { bad = "the process did not survive" + how(); return; }
		if (m.trouble[0]) { bad = m.trouble + how(); return; }
		for (int i = 0; i < 2; ++i) { if (! eq(m.r[i], want[i])) { bad = mc::fmt("thread %d got ", i) + show(m.r[i]) + " instead of " + show(want[i]) + how(); return; } }
		if (m.capped) { capped = true; }
		int cost{ 0 };
		for (int i = 0; i < int(ch.size()); ++i)
		{
			if (i >= int(prefix.size()))
			{
				for (int alt = 1; alt < en[i]; ++alt)
				{
					if (cost + (ru[i] ? 1 : 0) > bound) { continue; }
					std::vector<int> p(ch.begin(), ch.begin() + i);
					p.push_back(alt);
					go(p);
				}
			}
			if (ru[i] && ch[i] != 0) { ++cost; }
		}
	}
};
sched::Touched touchedBy(Op const & op, int set, int times)
{
	sched::Touched all;
	for (int k = 0; k < times; ++k)
	{
		Flat f;
		sched::Touched const t(sched::record([&] { call(op, set, f); }));
		all.read.insert(t.read.begin(), t.read.end());
		all.write.insert(t.write.begin(), t.write.end());
		all.sync.insert(t.sync.begin(), t.sync.end());
	}
	return all;
}
//! The result of the operation alone, in a process of its own
Flat alone(Op const & op, int set)
{
	static Message m;
	m.r[0].kind = -9;
	inChild(m, [&](Message & x) { call(op, set, x.r[0]); });
	return m.r[0];
}
//! What first use touches of static storage, recorded in a process of its own
struct Lists { int n[3]; std::uintptr_t at[3][20000]; };
sched::Touched firstUse(Op const & op, int set)
{
	static Lists * const sh{ static_cast<Lists *>(mmap(nullptr, sizeof(Lists), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) };
	sh->n[0] = sh->n[1] = sh->n[2] = 0;
	pid_t const p{ fork() };
	if (p == 0)
	{
		sched::Touched const t(touchedBy(op, set, 1));
		std::set<std::uintptr_t> const * const l[3]{ &t.read, &t.write, &t.sync };
		for (int i = 0; i < 3; ++i) { for (std::uintptr_t a : *l[i]) { if (sh->n[i] < 20000) { sh->at[i][sh->n[i]++] = a; } } }
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	sched::Touched t;
	t.read.insert(sh->at[0], sh->at[0] + sh->n[0]);
	t.write.insert(sh->at[1], sh->at[1] + sh->n[1]);
	t.sync.insert(sh->at[2], sh->at[2] + sh->n[2]);
	return t;
}
//! An operation with the operands the two threads give it
struct Entry
{
	Op const * op;
	int set[2];
	std::string name;
};
} // namespace

void explore(Ctx & cx)
{
	fillPool();
	int const bound{ cx.thorough ? 3 : 2 };
	// controls first: the explorer must find what is there and only that
	{
		std::vector<Control> const ctl(c26Controls());
		for (Control const & c : ctl)
		{
			sched::Touched t(firstUse(c.op, 0));
			Body const b[2]{ { &c.op, 0 }, { &c.op, 1 } };
			Search s;
			s.b = b;
			s.want[0] = alone(c.op, 0);
			s.want[1] = alone(c.op, 1);
			s.watch = sched::conflicts(t, t, s.calls);
			s.bound = 2;
			s.budget = 3000;
			s.go({});
			if (c.unsafe == s.bad.empty())
			{
				fprintf(stderr, "control '%s': %s\n", c.op.name.c_str(), s.bad.empty() ? "unsafe code was not recognised" : s.bad.c_str());
				abort();
			}
			if (cx.shard == 0) { cx.info[std::string("control schedules: ") + c.op.name] += s.schedules; }
		}
	}
	std::vector<Op> const all(c26Ops());
	std::vector<Entry> ops;
	std::vector<Flat> want[2];
	std::vector<sched::Touched> touch;
	auto add = [&](Op const & op, int s0, int s1, std::string const & name, sched::Touched const & t)
	{
		ops.push_back(Entry{ &op, { s0, s1 }, name });
		want[0].push_back(alone(op, s0));
		want[1].push_back(s1 == s0 ? want[0].back() : alone(op, s1));
		touch.push_back(t);
	};
	for (Op const & op : all) { add(op, 0, 1, op.name, firstUse(op, 0)); }
	// special operands: of interest where they make an operation write what
	// is not its own and what it does not write for generic ones
	std::set<std::uintptr_t> usual;
	for (auto const & t : touch) { usual.insert(t.write.begin(), t.write.end()); usual.insert(t.sync.begin(), t.sync.end()); }
	for (Op const & op : all)
	{
		if (op.a < 0) { continue; }
		for (int s = 2; s < nsets; ++s)
		{
			sched::Touched const t(firstUse(op, s));
			if (cx.shard == 0) { cx.info["operations on special operands"] += 1; }
			bool more{ false };
			for (std::uintptr_t x : t.write) { if (! usual.count(x)) { more = true; usual.insert(x); } }
			for (std::uintptr_t x : t.sync) { if (! usual.count(x)) { more = true; usual.insert(x); } }
			if (more)
			{
				if (cx.shard == 0) { cx.info["of which with accesses of their own"] += 1; }
				add(op, s, s, op.name + mc::fmt(" (special operands %d)", s - 2), t);
			}
		}
	}
	std::uint64_t const most{ cx.thorough ? 1000000u : 60000u };
	std::uint64_t used{ 0 };
	if (cx.shard == 0) { cx.info["operations"] += ops.size(); }
	// a bounded number of pairs that conflict over the same addresses
	std::map<std::string, int> sig;
	auto enough = [&](std::set<std::uintptr_t> const & w)
	{
		std::string key;
		for (std::uintptr_t a : w) { key += mc::fmt("%zx ", std::size_t(a)); }
		return ++sig[key] > (cx.thorough ? 400 : 40);
	};
	//! All schedules of a conflicting pair, fewest preemptions first
	auto search = [&](std::size_t i, std::size_t j, int sets, std::set<std::uintptr_t> const & w, bool calls, bool warm)
	{
		Body const b[2]{ { ops[i].op, ops[i].set[0] }, { ops[j].op, ops[j].set[sets] } };
		for (int k = 0; k <= bound; ++k)
		{
			Search s;
			s.b = b;
			s.want[0] = want[0][i];
			s.want[1] = want[sets][j];
			s.watch = w;
			s.calls = calls;
			s.warm = warm;
			s.bound = k;
			s.budget = cx.thorough ? 60000 : 4000;
			s.go({});
			used += s.schedules;
			cx.did(2 * s.schedules);
			cx.trace(s.schedules);
			cx.info["schedules of conflicting pairs"] += s.schedules;
			cx.info["scheduling points of conflicting pairs"] += s.points;
			if (s.capped) { cx.info[mc::fmt("searches that hit a cap at bound %d", k)] += 1; }
			if (! s.bad.empty()) { cx.fail(mc::fmt("with %d preemption%s, ", k, k == 1 ? "" : "s") + ops[i].name + " and " + ops[j].name + " in two threads: " + s.bad); }
			if (s.capped) { break; }
		}
		cx.info[warm ? "conflicting pairs in steady state" : "conflicting pairs at first use"] += 1;
		cx.sample(ops[i].name + " || " + ops[j].name + mc::fmt(": %zu shared bytes, all schedules up to %d preemptions, %s", w.size(), bound, warm ? "after both have run" : "first use"));
	};
	// first use: no operation has run in this process so far
	for (std::size_t d = 0; d < ops.size(); ++d) for (std::size_t i = 0; i + d < ops.size(); ++i)
	{
		std::size_t const j{ i + d };
		bool calls{ false };
		std::set<std::uintptr_t> const w(sched::conflicts(touch[i], touch[j], calls));
		if (w.empty()) { continue; }
		bool const skip{ enough(w) };
		for (int sets = 0; sets < 2; ++sets)
		{
			if (sets && ops[j].set[0] == ops[j].set[1]) { continue; }
			if (! cx.next()) { continue; }
			if (skip) { cx.info["conflicting pairs left out (same addresses as others)"] += 1; continue; }
			if (used > most) { cx.info["conflicting pairs left out (schedules used up)"] += 1; continue; }
			search(i, j, sets, w, calls, false);
		}
	}
	sig.clear();
	for (std::size_t i = 0; i < ops.size(); ++i)
	{
		// the same in steady state: here addresses of kept memory are common
		sched::Touched const t(touchedBy(*ops[i].op, ops[i].set[0], 2)), u(touchedBy(*ops[i].op, ops[i].set[1], 1));
		for (auto const * x : { &t, &u })
		{
			touch[i].read.insert(x->read.begin(), x->read.end());
			touch[i].write.insert(x->write.begin(), x->write.end());
			touch[i].sync.insert(x->sync.begin(), x->sync.end());
		}
	}
	for (std::size_t d = 0; d < ops.size(); ++d) for (std::size_t i = 0; i + d < ops.size(); ++i)
	{
		std::size_t const j{ i + d };
		bool calls{ false };
		std::set<std::uintptr_t> const w(sched::conflicts(touch[i], touch[j], calls));
		bool const skip{ ! w.empty() && enough(w) };
		for (int sets = 0; sets < 2; ++sets)
		{
			if (sets && ops[j].set[0] == ops[j].set[1]) { continue; }
			if (! cx.next()) { continue; }
			if (skip) { cx.info["conflicting pairs left out (same addresses as others)"] += 1; continue; }
			Body const b[2]{ { ops[i].op, ops[i].set[0] }, { ops[j].op, ops[j].set[sets] } };
			if (w.empty())
			{
				for (int first = 0; first < 2; ++first)
				{
					Flat r[2];
					std::vector<std::function<void()>> bodies;
					for (int k = 0; k < 2; ++k) { bodies.push_back([&, k] { call(*b[k].op, b[k].set, r[k]); }); }
					sched::Outcome const o(sched::execute(bodies, { first }, w, false));
					cx.did(2);
					cx.trace();
					cx.info["schedules of independent pairs"] += 1;
					for (int k = 0; k < 2; ++k)
					{
						Flat const & f(r[k]);
						if (! o.trouble.empty()) { cx.fail(o.trouble + ": " + ops[i].name + " and " + ops[j].name); }
						if (! eq(f, want[k ? sets : 0][k ? j : i])) { cx.fail("in two threads, " + (k ? ops[j].name : ops[i].name) + " gives " + show(f) + "\n  instead of " + show(want[k ? sets : 0][k ? j : i]) + "\n  with " + (k ? ops[i].name : ops[j].name) + " in the other thread"); }
						cx.outcome(f.c, 12);
					}
				}
				continue;
			}
			if (used > most) { cx.info["conflicting pairs left out (schedules used up)"] += 1; continue; }
			search(i, j, sets, w, calls, true);
		}
		if (cx.sampleNow()) { cx.sample(ops[i].name + " || " + ops[j].name + ": independent, both orders"); }
	}
}
