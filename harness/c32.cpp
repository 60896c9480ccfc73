// C32 - a fault spoils nothing but the call it strikes.
//
// Faults are enumerated, never drawn: every single allocation of every
// operation fails in turn (alone, and all from there on), at the first use in a
// process and later; the device of a stream fails at every single character, in
// four ways, under every exception mask. Each history ends with calls without
// faults, which must give what they give in a process that never saw one.
#include "num.hpp"
#define OPTABLE_SWITCH
#include "optable.hpp"
#include "text.hpp"
#include "device.hpp"

#include <new>

namespace engabra
{
	extern std::string projectVersion();
	extern std::string sourceIdentity();
}

// the allocator of the process, which fails on demand
namespace heap
{
	long live{ 0 };
	bool armed{ false };
	long count{ 0 };
	long first{ -1 }, second{ -1 };
	bool onwards{ false };
	void arm(long k, long k2, bool on) { count = 0; first = k; second = k2; onwards = on; armed = true; }
	long disarm() { armed = false; return count; }
	void * get(std::size_t n)
	{
		if (armed)
		{
			long const me{ ++count };
			if (me == first || me == second || (onwards && first > 0 && me >= first)) { throw std::bad_alloc(); }
		}
		void * p{ malloc(n ? n : 1) };
		if (! p) { throw std::bad_alloc(); }
		++live;
		return p;
	}
	void put(void * p) { if (p) { --live; free(p); } }
}
void * operator new(std::size_t n) { return heap::get(n); }
void * operator new[](std::size_t n) { return heap::get(n); }
void operator delete(void * p) noexcept { heap::put(p); }
void operator delete(void * p, std::size_t) noexcept { heap::put(p); }
void operator delete[](void * p) noexcept { heap::put(p); }
void operator delete[](void * p, std::size_t) noexcept { heap::put(p); }

namespace
{
using mc::Ctx;
using namespace num;

struct Flat
{
	int kind, n;
	double c[12];
	int len;
	char text[300];
};
void flat(Val const & v, Flat & f)
{
	std::memset(&f, 0, sizeof f);
	f.kind = v.kind;
	f.n = v.n;
	for (int i = 0; i < v.n; ++i) { f.c[i] = v.c[i]; if (v.c[i] != v.c[i]) { f.c[i] = qnan; } }
	f.len = int(v.text.size());
	std::memcpy(f.text, v.text.data(), std::min<std::size_t>(v.text.size(), sizeof f.text));
}
bool eq(Flat const & a, Flat const & b) { return std::memcmp(&a, &b, sizeof a) == 0; }
std::string show(Flat const & f)
{
	Val v;
	v.kind = f.kind;
	v.n = f.n;
	for (int i = 0; i < f.n; ++i) { v.c[i] = f.c[i]; }
	v.text.assign(f.text, std::min<std::size_t>(f.len, sizeof f.text));
	return ::show(v);
}

struct Item
{
	Op const * op;
	double a[8], b[8];
	std::string str() const { return op->name + (op->a >= 0 ? " of " + ::show(op->a, a) : std::string()) + (op->b >= 0 ? ", " + ::show(op->b, b) : std::string()); }
	bool text() const { return op->cls == cText || op->cls == cMisc; }
};
Item item(Op const & op, double const * a, double const * b)
{
	Item it;
	it.op = &op;
	for (int i = 0; i < 8; ++i) { it.a[i] = a[i]; it.b[i] = b[i]; }
	return it;
}
void version(double const *, double const *, Val & v) { optable::store(std::string(engabra::projectVersion()), v); }
void identity(double const *, double const *, Val & v) { optable::store(std::string(engabra::sourceIdentity()), v); }

//! Memory which the processes of a history share
struct Shared
{
	int ended;             // the history came to its end
	long allocs;
	int threw;
	char msg[3000];
	Flat out;
};
Shared * shared;

void say(std::string const & s) { if (! shared->msg[0]) { std::snprintf(shared->msg, sizeof shared->msg, "%s", s.c_str()); } }

//! Do something in a process of its own; what went wrong, if anything
template <class F> std::string apart(F const & f)
{
	std::memset(shared, 0, sizeof *shared);
	pid_t const p{ fork() };
	if (p == 0)
	{
		alarm(60);
		f();
		shared->ended = 1;
		_exit(0);
	}
	int st{ 0 };
	waitpid(p, &st, 0);
	if (shared->msg[0]) { return shared->msg; }
	if (! shared->ended) { return WIFSIGNALED(st) ? mc::fmt("the process ended by signal %d (%s)", WTERMSIG(st), WTERMSIG(st) == SIGABRT ? "terminate" : WTERMSIG(st) == SIGALRM ? "no end in 60 s" : "crash") : mc::fmt("the process exited (%d)", WEXITSTATUS(st)); }
	return "";
}
//! 0: returned, 1: threw as memory exhaustion does, 2: threw something else
int call(Item const & it, Val & v)
{
	try { it.op->fn(it.a, it.b, v); }
	catch (std::bad_alloc const &) { return 1; }
	catch (std::ios_base::failure const &) { return 1; }
	catch (...) { return 2; }
	return 0;
}
void clean(Item const & it, Flat & f)
{
	Val v;
	heap::arm(-1, -1, false);
	int const how{ call(it, v) };
	shared->allocs = heap::disarm();
	if (how) { say("throws without any fault: " + it.str()); }
	flat(v, f);
}
struct Fault { long k, k2; bool on; };
std::string str(Fault const & f) { return mc::fmt("allocation %ld", f.k) + (f.k2 > 0 ? mc::fmt(" and %ld", f.k2) : "") + (f.on ? " and all after it" : "") + " failing"; }

//! the call struck by the fault
void struck(Item const & it, Fault const & f, Flat const & want)
{
	static Val v;
	v = Val();
	heap::arm(f.k, f.k2, f.on);
	int const how{ call(it, v) };
	heap::disarm();
	shared->threw += how == 1;
	if (how == 2) { say("an exception that is neither bad_alloc nor the stream's, with " + str(f) + ": " + it.str()); }
	if (how) { return; }
	Flat g;
	flat(v, g);
	if (! it.text() && ! eq(g, want)) { say("a numeric result changes with " + str(f) + ": " + it.str() + "\n  got " + show(g) + "\n  not " + show(want)); }
	if (it.op->name.compare(0, 3, ">>(") == 0)
	{
		bool nan{ false };
		for (int i = 0; i < g.n; ++i) { nan = nan || g.c[i] != g.c[i]; }
		if (! nan && ! eq(g, want)) { say("reading, with " + str(f) + ", gives a valid entity that the text does not hold: " + it.str() + "\n  got " + show(g)); }
	}
}
void after(Item const & it, Flat const & want, Item const & hit, Fault const & f, char const * when)
{
	Flat g;
	clean(it, g);
	if (! eq(g, want)) { say("a call gives something else than in a process without faults: " + it.str() + "\n  got " + show(g) + "\n  not " + show(want) + "\n  after " + hit.str() + "\n  with " + str(f) + ", " + when); }
}

// ---------------------------------------------------------------- devices

using IO = std::ios_base;
IO::iostate const masks[4]{ IO::goodbit, IO::badbit, IO::failbit, IO::badbit | IO::failbit };
struct Settings { IO::fmtflags f; int prec; char fill; };
Settings const settings[4]
	{ { IO::skipws | IO::dec, 6, ' ' }
	, { IO::skipws | IO::hex | IO::scientific | IO::showpos | IO::left | IO::uppercase, 2, '*' }
	, { IO::skipws | IO::oct | IO::fixed | IO::internal | IO::showpoint | IO::unitbuf, 0, '0' }
	, { IO::skipws | IO::dec | IO::boolalpha | IO::showbase | IO::right, 17, '_' }
	};
template <class S> void putSettings(S & s, Settings const & w) { s.flags(w.f); s.precision(w.prec); s.fill(w.fill); }
template <class S> bool kept(S & s, Settings const & w, IO::iostate mask) { return s.flags() == w.f && s.precision() == w.prec && s.fill() == w.fill && s.width() == 0 && s.exceptions() == mask && s.tie() == nullptr; }

int guarded(std::function<void()> const & f)
{
	try { f(); }
	catch (device::Broken const &) { return 1; }
	catch (std::ios_base::failure const &) { return 1; }
	catch (mc::Stop const &) { throw; }
	catch (...) { return 2; }
	return 0;
}
template <class A> void output(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	auto write = [&](std::ostream & o) { o << 1.5 << a << 42 << a; };
	for (Settings const & w : settings) for (IO::iostate mask : masks)
	{
		std::string full;
		{
			std::ostringstream o;
			putSettings(o, w);
			write(o);
			full = o.str();
		}
		long const len(full.size());
		auto one = [&](long k, int how, bool inSync)
		{
			device::Sink s;
			(inSync ? s.failSync : s.failAt) = k;
			s.how = how;
			std::ostream o(&s);
			putSettings(o, w);
			o.exceptions(mask);
			int const threw{ guarded([&] { write(o); }) };
			cx.did(2);
			cx.trace();
			auto where = [&] { return mc::fmt("%s, a device that %s %s %ld of %ld, flags 0x%x precision %d, exception mask %d", ::show(a).c_str(), inSync ? "fails" : device::name(how), inSync ? "flush" : "character", k, len, unsigned(w.f), w.prec, int(mask)); };
			std::string const t(s.text());
			if (threw == 2) { cx.fail("an exception that is not the device's nor the stream's: " + where()); }
			if (threw && ! mask) { cx.fail("an exception though the mask is empty: " + where()); }
			if (s.struck && ! o.bad()) { cx.fail("the stream does not tell that its device failed: " + where()); }
			if (! s.struck && ! o.good()) { cx.fail("the stream fails, its device did not: " + where()); }
			if (s.struck && (mask & IO::badbit) && ! threw) { cx.fail("no exception though the mask asks for it: " + where()); }
			if (! inSync && (s.struck != (k < len) || t != full.substr(0, std::min(k, len)))) { cx.fail("the device has taken \"" + t + "\", not the part of the text before its failure: " + where() + "\n  text \"" + full + "\""); }
			if (inSync && t != full.substr(0, t.size())) { cx.fail("the device has taken \"" + t + "\", which is not what the text begins with: " + where() + "\n  text \"" + full + "\""); }
			if (! kept(o, w, mask)) { cx.fail("the settings of the stream change: " + where()); }
			double g[8];
			K<A>::get(a, g);
			for (int i = 0; i < K<A>::n; ++i) { if (! sameBitsD(g[i], v[i])) { cx.fail("the entity written changes: " + where()); } }
			// the device works again
			o.exceptions(IO::goodbit);
			o.clear();
			o.exceptions(mask);
			s.heal();
			if (guarded([&] { write(o); }) || ! o.good() || s.text() != full || ! kept(o, w, mask)) { cx.fail("text written after the device works again is \"" + s.text() + "\": " + where() + "\n  not \"" + full + "\""); }
			cx.did(2);
			if (cx.sampleNow()) { cx.sample("output of " + where()); }
		};
		for (int how = 0; how < device::hCount; ++how) for (long k = 0; k <= len; ++k) { if (cx.next()) { one(k, how, false); } }
		// (libstdc++ flushes in a destructor: an exception there ends the process)
		if ((w.f & IO::unitbuf) && ! (mask & IO::badbit)) { for (long k = 0; k < 6; ++k) { if (cx.next()) { one(k, 0, true); } } }
	}
}
template <class A> void input(Ctx & cx, double const * v, char const * sep)
{
	int const n{ K<A>::n };
	std::string txt("17 ");
	std::vector<long> ends;
	for (int i = 0; i < n; ++i) { txt += mc::fmt("%.6f", v[i]); ends.push_back(txt.size()); txt += sep; }
	txt += "99 ";
	long const len(txt.size()), last{ ends.back() };
	for (Settings const & w : settings) for (IO::iostate mask : masks) for (int how = 0; how < device::hCount; ++how) for (long k = 3; k <= len; ++k)
	{
		if (! cx.next()) { continue; }
		bool const throws{ how == device::hThrow || how == device::hThrowOnce };
		device::Source s;
		s.give(txt, k, how);
		std::istream in(&s);
		putSettings(in, w);
		double head{ 0 };
		in >> std::dec >> head;
		in.flags(w.f);
		in.exceptions(mask);
		double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 };
		A a(K<A>::make(junk));
		int const threw{ guarded([&] { in >> a; }) };
		cx.did();
		cx.trace();
		auto where = [&] { return mc::fmt("%s from \"%s\", a device that %s character %ld, exception mask %d, flags 0x%x", K<A>::name(), txt.c_str(), device::name(how), k, int(mask), unsigned(w.f)); };
		// what the text before the failure holds
		bool want{ k > last || (k == last && ! throws) };
		double u[8];
		for (int i = 0; i < n; ++i) { u[i] = std::strtod(txt.c_str() + ends[i] - mc::fmt("%.6f", v[i]).size(), nullptr); }
		if (! want && ! throws)
		{
			// the last number may be cut short, and still be one
			long const from{ long(ends[n - 1] - mc::fmt("%.6f", v[n - 1]).size()) };
			if (k > from)
			{
				std::string const cut(txt.substr(from, k - from));
				char * e;
				double const x{ std::strtod(cut.c_str(), &e) };
				if (e != cut.c_str() && ! *e) { want = true; u[n - 1] = x; }
			}
		}
		double g[8];
		K<A>::get(a, g);
		bool same{ true }, nan{ false };
		for (int i = 0; i < n; ++i) { same = same && sameBitsD(g[i], u[i]); nan = nan || g[i] != g[i]; }
		bool const failed{ in.fail() };
		if (threw == 2) { cx.fail("an exception that is not the device's nor the stream's: " + where()); }
		if (threw && ! mask) { cx.fail("an exception though the mask is empty: " + where()); }
		if (want && (failed || threw || ! same)) { cx.fail("an entity that came completely is not read: " + where() + "\n  got " + ::show(a)); }
		if (! want && ! failed) { cx.fail("the stream does not tell that its device failed: " + where() + "\n  got " + ::show(a)); }
		if (! want && ! threw && ! nan) { cx.fail("an entity that did not come completely looks valid: " + where() + "\n  got " + ::show(a)); }
		if (! want && ! threw && (in.rdstate() & mask)) { cx.fail("no exception though the mask asks for it: " + where()); }
		if (! kept(in, w, mask)) { cx.fail("the settings of the stream change: " + where()); }
		cx.outcome(g, n);
		// the device works again
		in.exceptions(IO::goodbit);
		in.clear();
		in.exceptions(mask);
		s.give(txt.substr(3), -1, 0);
		A b(K<A>::make(junk));
		int const again{ guarded([&] { in >> b; }) };
		K<A>::get(b, g);
		for (int i = 0; i < n; ++i) { if (again || in.fail() || ! sameBitsD(g[i], std::strtod(mc::fmt("%.6f", v[i]).c_str(), nullptr))) { cx.fail("an entity read after the device works again is " + ::show(b) + ": " + where()); } }
		double tail{ 0 };
		in.flags(IO::skipws | IO::dec);
		in >> tail;
		if (tail != 99) { cx.fail("reading goes too far after the device works again: " + where()); }
		cx.did();
		if (cx.sampleNow()) { cx.sample("input of " + where()); }
	}
}
//! no memory while writing to, or reading from, a stream of the caller's
template <class A> void streams(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	std::string const full(text::fixedRef(K<A>::id, v, 3, 6, " "));
	std::string const line(full + " ");
	for (Settings const & w : settings) for (IO::iostate mask : masks) for (int on = 0; on < 2; ++on)
	{
		if (! cx.next()) { continue; }
		for (long k = 1; k < 200; ++k)
		{
			auto where = [&] { return mc::fmt("%s, allocation %ld%s failing, flags 0x%x, exception mask %d", ::show(a).c_str(), k, on ? " and all after it" : "", unsigned(w.f), int(mask)); };
			device::Sink s;
			std::ostream o(&s);
			device::Source src;
			src.give(line, -1, 0);
			std::istream in(&src);
			putSettings(o, w);
			putSettings(in, w);
			o.exceptions(mask);
			in.exceptions(mask);
			double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 };
			A b(K<A>::make(junk));
			auto safely = [&](auto const & f)
			{
				heap::arm(k, -1, on);
				int how{ 0 };
				try { f(); }
				catch (std::bad_alloc const &) { how = 1; }
				catch (std::ios_base::failure const &) { how = 1; }
				catch (...) { how = 2; }
				heap::disarm();
				return how;
			};
			int const h1{ safely([&] { o << a; }) };
			long const n1{ heap::count };
			int const h2{ safely([&] { in >> b; }) };
			long const n2{ heap::count };
			cx.did(2);
			cx.trace();
			if (h1 == 2 || h2 == 2) { cx.fail("an exception that is neither bad_alloc nor the stream's: " + where()); }
			if (! kept(o, w, mask) || ! kept(in, w, mask)) { cx.fail("the settings of the stream change: " + where()); }
			double g[8], u[8];
			K<A>::get(b, g);
			bool same{ true }, nan{ false };
			char const * p{ line.c_str() };
			for (int i = 0; i < K<A>::n; ++i) { char * e; u[i] = std::strtod(p, &e); p = e; same = same && sameBitsD(g[i], u[i]); nan = nan || g[i] != g[i]; }
			if (! h2 && ! (in.fail() ? nan : same)) { cx.fail("reading without memory gives " + ::show(b) + ": " + where()); }
			// memory is there again
			o.exceptions(IO::goodbit);
			in.exceptions(IO::goodbit);
			o.clear();
			in.clear();
			s.heal();
			src.give(line, -1, 0);
			o << a;
			in >> b;
			K<A>::get(b, g);
			for (int i = 0; i < K<A>::n; ++i) { if (! sameBitsD(g[i], u[i])) { cx.fail("an entity read when memory is there again is " + ::show(b) + ": " + where()); } }
			if (s.text() != full) { cx.fail("text written when memory is there again is \"" + s.text() + "\": " + where()); }
			cx.did(2);
			if (k > n1 && k > n2) { break; }
		}
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<Op> ops(optable::build());
	ops.push_back(Op{ "projectVersion()", cText, -1, -1, false, version });
	ops.push_back(Op{ "sourceIdentity()", cText, -1, -1, false, identity });
	std::vector<Item> items;
	for (Op const & op : ops)
	{
		items.push_back(item(op, patterns()[1].data(), patterns()[2].data()));
		if (op.a >= 0)
		{
			double const wide[8]{ -123456.789, 1e9, 0.25, qnan, -3e-7, 7e11, -0., 1e-9 };
			items.push_back(item(op, wide, patterns()[3].data()));
			if (th) { items.push_back(item(op, zeros24, patterns()[1].data())); items.push_back(item(op, patterns()[3].data(), zeros24)); }
		}
	}
	// what each call gives, and how often it asks for memory, as the first one of a process
	std::vector<Flat> want(items.size());
	std::vector<long> allocs(items.size());
	for (std::size_t i = 0; i < items.size(); ++i)
	{
		std::string const bad(apart([&] { clean(items[i], shared->out); }));
		if (! bad.empty()) { if (cx.next()) { cx.fail(bad + ": " + items[i].str()); } }
		want[i] = shared->out;
		allocs[i] = shared->allocs;
	}
	// what is called after each fault: one call of every operation
	std::vector<std::size_t> probes;
	for (std::size_t i = 0; i < items.size(); ++i) { if (i == 0 || items[i].op != items[i - 1].op) { probes.push_back(i); } }
	if (cx.shard == 0) { cx.info["operations"] += ops.size(); cx.info["calls (operation, operands)"] += items.size(); for (long n : allocs) { cx.info["allocations that can fail"] += n; } }
	std::uint64_t faults{ 0 }, threw{ 0 };
	for (std::size_t i = 0; i < items.size(); ++i)
	{
		Item const & it(items[i]);
		std::vector<Fault> fs;
		for (long k = 1; k <= allocs[i]; ++k) { fs.push_back(Fault{ k, -1, false }); fs.push_back(Fault{ k, -1, true }); }
		if (th) { for (long k = 1; k <= allocs[i]; ++k) for (long m = k + 1; m <= allocs[i] + 1; ++m) { fs.push_back(Fault{ k, m, false }); } }
		for (Fault const & f : fs)
		{
			if (! cx.next()) { continue; }
			// the first call of the process is the one struck
			std::string bad(apart([&]
			{
				struck(it, f, want[i]);
				after(it, want[i], it, f, "at the first use");
				for (std::size_t p : probes) { after(items[p], want[p], it, f, "at the first use"); }
			}));
			cx.did(2 + probes.size());
			cx.trace();
			threw += shared->threw;
			if (! bad.empty()) { cx.fail(bad + "\n  " + it.str() + " with " + str(f) + " at the first use in the process"); }
			// everything has been in use for a while
			bad = apart([&]
			{
				Flat g;
				for (int t = 0; t < 3; ++t) { clean(it, g); }
				long held[4];
				for (int t = 0; t < 4; ++t)
				{
					struck(it, f, want[i]);
					after(it, want[i], it, f, "in steady use");
					held[t] = heap::live;
				}
				if (held[1] > held[0] && held[2] > held[1] && held[3] > held[2]) { say("memory is lost with every fault: " + it.str() + " with " + str(f)); }
				for (std::size_t p : probes) { if (items[p].op->a == it.op->a || p % 7 == i % 7) { after(items[p], want[p], it, f, "in steady use"); } }
			});
			cx.did(11);
			cx.trace();
			if (! bad.empty()) { cx.fail(bad + "\n  " + it.str() + " with " + str(f) + " in steady use"); }
			++faults;
			if (cx.sampleNow()) { cx.sample(it.str() + " with " + str(f)); }
		}
	}
	cx.info["faults of memory (at first use and in steady use)"] += faults;
	cx.info["struck calls that threw"] += threw;
	double const odd[8]{ -0.00000051, 1e9, -3., 0.25, -123456.7890123, 5e-7, 3., -0. };
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		output<A>(cx, patterns()[1].data());
		input<A>(cx, patterns()[2].data(), " ");
		streams<A>(cx, patterns()[1].data());
		streams<A>(cx, odd);
		if (th)
		{
			output<A>(cx, odd);
			for (std::size_t q : { 0u, 1u, 3u }) { output<A>(cx, patterns()[q].data()); input<A>(cx, patterns()[q].data(), "\n"); }
			input<A>(cx, odd, " \t ");
		}
	});
}
