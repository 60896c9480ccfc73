// C25 - operations are pure: no history, no output, no altered operands.
//
// The reference is what an operation gives when it is the first one a fresh
// process executes (one forked process per operation and operands). Explored:
// every ordered pair of calls, every ordered pair among many variants of the
// operands of one operation, and (thorough) every triple of operations.
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/time.h>
#include "num.hpp"
#define OPTABLE_SWITCH
#include "optable.hpp"
#include "history.hpp"
#include "device.hpp"

#include <cerrno>
#include <cfenv>
#include <clocale>
#include <iomanip>
#include <locale>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

namespace engabra
{
	extern std::string projectVersion();
	extern std::string sourceIdentity();
}

// live heap blocks (all of the process)
static long liveBlocks{ 0 };
void * operator new(std::size_t n) { void * p{ malloc(n ? n : 1) }; if (! p) { throw std::bad_alloc(); } ++liveBlocks; return p; }
void operator delete(void * p) noexcept { if (p) { --liveBlocks; free(p); } }
void operator delete(void * p, std::size_t) noexcept { if (p) { --liveBlocks; free(p); } }

namespace
{
using mc::Ctx;
using namespace num;

struct Flat
{
	int kind, n;
	double c[12];
	int len;
	char text[300];
};
Flat flat(Val const & v)
{
	Flat f;
	std::memset(&f, 0, sizeof f);
	f.kind = v.kind;
	f.n = v.n;
	for (int i = 0; i < v.n; ++i) { f.c[i] = v.c[i]; if (v.c[i] != v.c[i]) { f.c[i] = qnan; } }
	f.len = int(v.text.size());
	std::memcpy(f.text, v.text.data(), std::min<std::size_t>(v.text.size(), sizeof f.text));
	return f;
}
std::string show(Flat const & f)
{
	Val v;
	v.kind = f.kind;
	v.n = f.n;
	for (int i = 0; i < f.n; ++i) { v.c[i] = f.c[i]; }
	v.text.assign(f.text, std::min<std::size_t>(f.len, sizeof f.text));
	return ::show(v);
}
struct Item
{
	Op const * op;
	double a[8], b[8];
	std::string str() const
	{
		return op->name + (op->a >= 0 ? " of " + ::show(op->a, a) : std::string()) + (op->b >= 0 ? ", " + ::show(op->b, b) : std::string());
	}
};

// operations outside of the table
template <class F> void text(Val & v, F const & f) { optable::store(std::string(f()), v); }
void version(double const *, double const *, Val & v) { text(v, [] { return engabra::projectVersion(); }); }
void identity(double const *, double const *, Val & v) { text(v, [] { return engabra::sourceIdentity(); }); }
template <class A> void zeroOf(double const *, double const *, Val & v) { optable::store(g3::zero<A>(), v); }
template <class A> void nullOf(double const *, double const *, Val & v) { optable::store(g3::null<A>(), v); }
void basisOf(double const *, double const *, Val & v)
{
	v.kind = kList;
	v.n = 11;
	double const w[11]{ g3::e0[0], g3::e1[0], g3::e2[1], g3::e3[2], g3::e23[0], g3::e31[1], g3::e12[2], g3::e123[0], g3::pi, g3::turnFull, g3::nan };
	std::copy(w, w + 11, v.c);
}

std::vector<Op> allOps()
{
	std::vector<Op> ops(optable::build());
	ops.push_back(Op{ "projectVersion()", cText, -1, -1, false, version });
	ops.push_back(Op{ "sourceIdentity()", cText, -1, -1, false, identity });
	ops.push_back(Op{ "the constants", cConv, -1, -1, false, basisOf });
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		ops.push_back(Op{ std::string("zero<") + K<A>::name() + ">()", cConv, -1, -1, true, zeroOf<A> });
		ops.push_back(Op{ std::string("null<") + K<A>::name() + ">()", cConv, -1, -1, true, nullOf<A> });
	});
	return ops;
}

// a global locale that is not the classic one, although it looks like it
struct Plain : std::numpunct<char> {};
char randState[128];

// everything a call could leave behind that is not in its result
struct Around
{
	std::vector<long> rest;
	std::string env, cwd;
	void takeRest()
	{
		rest.clear();
		auto add = [this](auto x) { long v{ 0 }; std::memcpy(&v, &x, std::min(sizeof x, sizeof v)); rest.push_back(v); };
		unsigned int mxcsr{ 0 };
#if defined(__SSE__)
		mxcsr = __builtin_ia32_stmxcsr() & ~0x3fu;
#endif
		add(mxcsr);
		std::uint64_t h{ 1469598103934665603ull };
		for (char c : randState) { h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull; }
		add(h);
		std::ios * const s[4]{ &std::cin, &std::cout, &std::cerr, &std::clog };
		for (auto * st : s) { add(int(st->exceptions())); add(st->rdbuf()); add(st->tie()); add(int(st->rdstate())); rest.push_back(st->getloc() == std::locale::classic()); }
		add(std::ios_base::sync_with_stdio(true));
		add(std::get_terminate());
		add(std::get_new_handler());
		sigset_t set;
		sigprocmask(SIG_SETMASK, nullptr, &set);
		for (int i = 1; i < 32; ++i)
		{
			add(sigismember(&set, i));
			if (i == SIGKILL || i == SIGSTOP) { continue; }
			struct sigaction sa;
			sigaction(i, nullptr, &sa);
			add(sa.sa_handler);
		}
		for (int which : { ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF })
		{
			itimerval t;
			getitimer(which, &t);
			add(t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec || t.it_interval.tv_usec);
		}
		for (int which : { RLIMIT_AS, RLIMIT_CORE, RLIMIT_CPU, RLIMIT_DATA, RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK })
		{
			rlimit l;
			getrlimit(__rlimit_resource_t(which), &l);
			add(l.rlim_cur);
			add(l.rlim_max);
		}
		add(getpriority(PRIO_PROCESS, 0));
		struct stat tasks;
		add(stat("/proc/self/task", &tasks) == 0 ? long(tasks.st_nlink) : 0l);
		mode_t const m{ umask(022) };
		umask(m);
		add(m);
		env.clear();
		for (char ** e = environ; e && *e; ++e) { env += *e; env += '\n'; }
		char buf[4096];
		cwd = getcwd(buf, sizeof buf) ? buf : "";
	}
	int round;
	std::ios_base::fmtflags f[3];
	std::streamsize p[3], w[3];
	char fill[3];
	std::string loc, cloc;
	void take()
	{
		round = std::fegetround();
		std::ostream * const s[3]{ &std::cout, &std::cerr, &std::clog };
		for (int i = 0; i < 3; ++i) { f[i] = s[i]->flags(); p[i] = s[i]->precision(); w[i] = s[i]->width(); fill[i] = s[i]->fill(); }
		loc = std::locale().name();
		cloc = std::setlocale(LC_ALL, nullptr);
		takeRest();
	}
	bool operator==(Around const & o) const
	{
		for (int i = 0; i < 3; ++i) { if (f[i] != o.f[i] || p[i] != o.p[i] || w[i] != o.w[i] || fill[i] != o.fill[i]) { return false; } }
		return rest == o.rest && env == o.env && cwd == o.cwd && round == o.round && loc == o.loc && cloc == o.cloc;
	}
};
Around before;
int outFd{ -1 };

Flat runItem(Item const & it)
{
	Val v;
	it.op->fn(it.a, it.b, v);
	return flat(v);
}
//! A process in which no operation was ever executed: it forks one child for each
//! question (the worker itself has a past as soon as it has tried anything)
int serverFd{ -1 };
bool transfer(int fd, void * p, std::size_t n, bool out)
{
	char * c{ static_cast<char *>(p) };
	while (n > 0)
	{
		ssize_t const k{ out ? send(fd, c, n, MSG_NOSIGNAL) : recv(fd, c, n, 0) };
		if (k < 0 && errno == EINTR) { continue; }
		if (k <= 0) { return false; }
		c += k;
		n -= std::size_t(k);
	}
	return true;
}
void startServer()
{
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { abort(); }
	pid_t const p{ fork() };
	if (p < 0) { abort(); }
	if (p != 0) { close(sv[1]); serverFd = sv[0]; return; }
	close(sv[0]);
	Item it;
	while (transfer(sv[1], &it, sizeof it, false))
	{
		pid_t const c{ fork() };
		if (c == 0)
		{
			Flat f(runItem(it));
			transfer(sv[1], &f, sizeof f, true);
			_exit(0);
		}
		int st;
		waitpid(c, &st, 0);
		if (! WIFEXITED(st) || WEXITSTATUS(st))
		{
			// a call that ends its process
			Flat f;
			std::memset(&f, 0, sizeof f);
			f.kind = -7;
			transfer(sv[1], &f, sizeof f, true);
		}
	}
	_exit(0);
}
//! What the item gives in a process that has executed nothing else
Flat fresh(Item const & it)
{
	Item q(it);
	Flat f;
	if (! transfer(serverFd, &q, sizeof q, true) || ! transfer(serverFd, &f, sizeof f, false)) { abort(); }
	return f;
}
bool eq(Flat const & a, Flat const & b) { return std::memcmp(&a, &b, sizeof a) == 0; }

void expect(Ctx & cx, Item const & q, Flat const & got, Flat const & want, std::string const & after)
{
	cx.did();
	if (! eq(got, want)) { cx.fail("the result of " + q.str() + "\n  depends on the calls before it (" + after + ")\n  got   " + show(got) + "\n  alone " + show(want)); }
}
void quiet(Ctx & cx, std::string const & what)
{
	std::cout.flush();
	std::cerr.flush();
	fflush(stdout);
	fflush(stderr);
	off_t const n{ lseek(outFd, 0, SEEK_END) };
	if (n > 0)
	{
		char buf[200];
		ssize_t const m{ pread(outFd, buf, sizeof buf - 1, 0) };
		buf[m > 0 ? m : 0] = 0;
		if (ftruncate(outFd, 0)) {}
		lseek(outFd, 0, SEEK_SET);
		cx.fail("output was written to the process' standard streams by " + what + ": " + buf);
	}
	Around now;
	now.take();
	if (! (now == before)) { cx.fail("something of the process (locale, stream settings, rounding mode, random sequence, signals, environment) changed: " + what); }
}
Item item(Op const & op, double const * a, double const * b)
{
	Item it;
	it.op = &op;
	for (int i = 0; i < 8; ++i) { it.a[i] = a[i]; it.b[i] = b[i]; }
	return it;
}
//! operands that lead operations into their rarer branches
std::vector<std::array<double, 8>> const & rare()
{
	static std::vector<std::array<double, 8>> const s
		{ { 0, 0, 0, 0, 0, 0, 0, 0 }, { 1, 0, 0, 0, 0, 0, 0, 0 }, { -1, 0, 0, 0, 0, 0, 0, 0 }, { 0, 0, 0, 0, 0, 0, 0, -2 }
		, { 0, 0, 2, 0, 0, -3, 0, 0 }, { 1, 1, 1, 1, 1, 1, 1, 1 }, { qnan, 1, 2, 3, 4, 5, 6, 7 }, { 1, 2, 3, inf, 5, 6, 7, -inf }
		, { 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310, 1e-310 }, { 1e-12, 2e-12, -1e-12, 1e-13, 3e-12, 1e-12, 0, 1e-12 }
		, { 1e150, -3e149, 2e150, 1e150, 7e149, 0, 1e150, -1e150 }, { 1e300, 1e300, 1e300, 1e300, 1e300, 1e300, 1e300, 1e300 }
		, { -1, 1e-17, 0, 1e-17, 0, 0, 1e-17, 0 }, { 1, 1e-9, 0, 1e-9, 1e-9, 0, 0, 1e-9 }, { 700, 30, -40, 1e5, 0.1, 2, 3, -700 } };
	return s;
}
//! operands of an operation: one word, then that word altered at one place
std::vector<Item> variants(Op const & op)
{
	std::vector<Item> r;
	double const * const a{ patterns()[1].data() };
	double const * const b{ patterns()[2].data() };
	r.push_back(item(op, a, b));
	int const na{ op.a >= 0 ? kindSize(op.a) : 0 }, nb{ op.b >= 0 ? kindSize(op.b) : 0 };
	auto with = [&](int side, int i, double x) { Item it(item(op, a, b)); (side ? it.b : it.a)[i] = x; r.push_back(it); };
	for (int side = 0; side < 2; ++side)
	{
		for (int i = 0; i < (side ? nb : na); ++i)
		{
			double const x{ (side ? b : a)[i] };
			with(side, i, -x);
			with(side, i, x + 0.125);
			with(side, i, x == 0 ? 1 : 0);
			// an operand that is nearly the previous one is another operand
			with(side, i, x * (1 + 1.0 / (1 << 13)));
			with(side, i, x * (1 + std::ldexp(1., -33)));
			with(side, i, std::nextafter(x, 1e9));
			with(side, i, qnan);
		}
	}
	Item sc(item(op, a, b)), ex(item(op, b, a)), ze(item(op, zeros24, zeros24)), hu(sc);
	for (int i = 0; i < 8; ++i) { sc.a[i] *= 3; sc.b[i] *= -0.25; hu.a[i] *= 1e5; }
	r.push_back(sc);
	// other sizes, places and signs of one operand
	for (int side = 0; side < 2; ++side)
	{
		int const n{ side ? nb : na };
		if (n < 1) { continue; }
		Item tw(item(op, a, b)), rv(tw), ng(tw), mz(tw), pz(tw);
		for (int i = 0; i < n; ++i)
		{
			(side ? tw.b : tw.a)[i] *= 2;
			(side ? rv.b : rv.a)[i] = (side ? b : a)[n - 1 - i];
			(side ? ng.b : ng.a)[i] *= -1;
			(side ? mz.b : mz.a)[i] = -0.;
			(side ? pz.b : pz.a)[i] = 0.;
		}
		r.push_back(tw);
		if (n > 1) { r.push_back(rv); }
		r.push_back(ng);
		r.push_back(mz);
		r.push_back(pz);
	}
	if (op.a >= 0) { r.push_back(ex); r.push_back(ze); r.push_back(hu); }
	return r;
}
//! the same object as both operands, and as operand and destination
template <class A> void aliases(Ctx & cx)
{
	for (auto const & p : patterns())
	{
		if (! cx.next()) { continue; }
		A const x(K<A>::make(p.data())), y(K<A>::make(p.data()));
		auto agree = [&](auto const & u, auto const & w, char const * what)
		{
			Val a, b;
			optable::store(u, a);
			optable::store(w, b);
			cx.did(2);
			cx.trace();
			if (! sameBits(a, b)) { cx.fail(std::string(what) + " differs when both operands are the same object: " + ::show(x) + "\n  " + ::show(a) + "\n  " + ::show(b)); }
		};
		agree(x * x, x * y, "product");
		agree(x + x, x + y, "sum");
		agree(x - x, x - y, "difference");
		agree(g3::nearlyEquals(x, x), g3::nearlyEquals(x, y), "nearlyEquals");
		auto dest = [&](auto f, char const * what)
		{
			auto const w(f(x));
			if constexpr (std::is_same<std::decay_t<decltype(w)>, A>::value)
			{
				A z(x);
				z = f(z);
				agree(z, w, what);
			}
		};
		dest([&](A const & q) { return q * q; }, "product assigned to its operand:");
		dest([&](A const & q) { return q + q; }, "sum assigned to its operand:");
		dest([&](A const & q) { return -q; }, "negative assigned to its operand:");
		dest([&](A const & q) { return g3::reverse(q); }, "reverse assigned to its operand:");
		dest([&](A const & q) { return g3::oddverse(q); }, "oddverse assigned to its operand:");
		dest([&](A const & q) { return g3::dirverse(q); }, "dirverse assigned to its operand:");
		dest([&](A const & q) { return g3::dual(q); }, "dual assigned to its operand:");
		dest([&](A const & q) { return g3::direction(q); }, "direction assigned to its operand:");
		// operands are left alone
		A held(K<A>::make(p.data()));
		A const & h(held);
		(void)(h * h); (void)(h + h); (void)(h - h); (void)(-h); (void)g3::reverse(h); (void)g3::dual(h); (void)g3::magnitude(h); (void)g3::direction(h); (void)g3::amplitude(h); (void)g3::isValid(h); (void)g3::nearlyEquals(h, h);
		cx.did(11);
		double g[8];
		K<A>::get(held, g);
		for (int i = 0; i < K<A>::n; ++i) { if (! sameBitsD(g[i], p[i])) { cx.fail("an operation altered its operand " + ::show(x) + " to " + ::show(held)); } }
	}
}
//! An object of a kind chosen at run time
struct Object
{
	alignas(64) unsigned char at[512];
	int kind{ -1 };
	double * where[8];
	void set(int k, double const * v)
	{
		kind = k;
		forKinds(AllKinds{}, [&](auto t)
		{
			using A = TY(t);
			static_assert(sizeof(A) <= 512, "entity");
			if (K<A>::id != kind) { return; }
			A * const x{ new (at) A(K<A>::make(v)) };
			for (int i = 0; i < K<A>::n; ++i) { where[i] = history::place(*x, i); }
		});
	}
	double const * p() const { return reinterpret_cast<double const *>(at); }
};
//! Operations on objects that live on: used, written, used again
void objects(Ctx & cx, Op const & op)
{
	if (op.a < 0) { return; }
	static double const starts[4][8]{ { 0.6, -0.8, 0.3, 0.7, -0.2, 0.9, -0.4, 0.5 }, { 0, 0, 0, 0, 0, 0, 0, 0 }, { -1, 0, 0, 0, 0, 0, 0, 0 }, { 3, 0, 4, 12, 0, 0, 84, 1 } };
	static Object x, y;
	for (auto const & s : starts)
	{
		if (! cx.next()) { continue; }
		int const na{ kindSize(op.a) }, nb{ op.b < 0 ? 0 : kindSize(op.b) };
		double v[16];
		for (int i = 0; i < na; ++i) { v[i] = s[i]; }
		for (int i = 0; i < nb; ++i) { v[8 + i] = s[(i + 3) % 8]; }
		x.set(op.a, v);
		if (nb) { y.set(op.b, v + 8); }
		auto live = [&] { Val r; optable::inPlace = true; op.fn(x.p(), nb ? y.p() : nullptr, r); optable::inPlace = false; cx.did(); return r; };
		auto made = [&] { Val r; op.fn(v, v + 8, r); cx.did(); return r; };
		auto judge = [&](char const * how)
		{
			Val const a(live()), b(made());
			cx.trace();
			if (! sameBits(a, b)) { cx.fail(op.name + " of objects " + how + " gives " + ::show(a) + "\n  and for new ones of the same components " + ::show(b) + "\n  first " + ::show(op.a, v) + (nb ? "\n  second " + ::show(op.b, v + 8) : std::string())); }
		};
		judge("not used before");
		for (int i = 0; i < na + nb; ++i) for (double const & w : { 0., -2., 1.5, std::numeric_limits<double>::quiet_NaN() })
		{
			double & at(v[i < na ? i : 8 + i - na]);
			double const old{ at };
			double * const o{ i < na ? x.where[i] : y.where[i - na] };
			at = *o = w;
			judge("used, then written in one component");
			at = *o = old;
			judge("used, then written and written back");
		}
	}
}
//! calls within calls: from the device of a stream at every character, and from
//! the formatting of every number
std::function<void()> atNumber;
struct Facet : std::num_put<char>
{
	explicit Facet(std::size_t r = 0) : std::num_put<char>(r) {}
	iter_type do_put(iter_type o, std::ios_base & s, char f, double v) const override
	{
		if (atNumber) { std::function<void()> const h(atNumber); atNumber = nullptr; h(); atNumber = h; }
		return std::num_put<char>::do_put(o, s, f, v);
	}
};
template <class A> void nested(Ctx & cx, std::vector<Item> const & items, std::vector<Flat> const & want)
{
	double const * const v{ patterns()[1].data() };
	A const a(K<A>::make(v));
	auto written = [&](std::ostream & o) { o << a; };
	std::string full;
	{ std::ostringstream o; written(o); full = o.str(); }
	std::string const line(full + " ");
	auto read = [&](std::istream & in) { double junk[8]{}; A b(K<A>::make(junk)); in >> b; Val r; optable::store(b, r); return r; };
	Val plain;
	{ std::istringstream in(line); plain = read(in); }
	for (std::size_t j = 0; j < items.size(); ++j)
	{
		if (! cx.next()) { continue; }
		auto inner = [&] { Flat const f(runItem(items[j])); expect(cx, items[j], f, want[j], std::string("called within a text operation of ") + K<A>::name()); };
		auto where = [&] { return std::string("text of ") + ::show(a) + ", with " + items[j].str() + " called from within"; };
		for (long k = 0; k < long(full.size()); ++k)
		{
			device::Sink s;
			s.hook = [&](long at) { if (at == k) { inner(); } };
			std::ostream o(&s);
			written(o);
			if (s.text() != full) { cx.fail(where() + mc::fmt(" at character %ld", k) + "\n  got \"" + s.text() + "\" not \"" + full + "\""); }
		}
		for (long k = 0; k < long(line.size()); ++k)
		{
			device::Source s;
			s.give(line, -1, 0);
			s.hook = [&](long at) { if (at == k) { inner(); } };
			std::istream in(&s);
			Val const r(read(in));
			if (! sameBits(r, plain)) { cx.fail(where() + mc::fmt(" at character %ld of reading", k) + "\n  got " + ::show(r) + " not " + ::show(plain)); }
		}
		// everything that formats a number calls the inner operation first
		std::locale const was(std::locale::global(std::locale(std::locale(), new Facet)));
		{
			atNumber = inner;
			std::ostringstream o;
			written(o);
			std::string more;
			if constexpr (K<A>::id != kCplx && K<A>::id != kDplx) { more = g3::io::fixed(a) + "|" + g3::io::enote(a); }
			atNumber = nullptr;
			std::string same;
			if constexpr (K<A>::id != kCplx && K<A>::id != kDplx) { same = g3::io::fixed(a) + "|" + g3::io::enote(a); }
			if (o.str() != full || more != same) { std::locale::global(was); cx.fail(where() + " at every number\n  got \"" + o.str() + "\" and \"" + more + "\"\n  not \"" + full + "\" and \"" + same + "\""); }
		}
		std::locale::global(was);
		cx.did(2 + full.size() + line.size());
		cx.trace(2 + full.size() + line.size());
	}
}
} // namespace

void held(Ctx & cx);
void held2(Ctx & cx);
void explore(Ctx & cx)
{
	std::vector<Op> const ops(allOps());
	std::fflush(nullptr);
	// from here on nothing may be written
	{
		char name[]{ "/tmp/verif-c25-XXXXXX" };
		outFd = mkstemp(name);
		if (outFd < 0) { abort(); }
		unlink(name);
		dup2(outFd, 1);
		dup2(outFd, 2);
		if (fcntl(outFd, F_SETFL, O_APPEND)) {}
	}
	std::locale::global(std::locale(std::locale::classic(), new Plain));
	std::setlocale(LC_ALL, "C.utf8");
	initstate(1, randState, sizeof randState);
	startServer();
	before.take();

	// the calls of the all-pairs exploration
	std::vector<Item> items;
	for (Op const & op : ops)
	{
		auto const v(variants(op));
		items.push_back(v[0]);
		if (op.a >= 0)
		{
			items.push_back(item(op, patterns()[3].data(), patterns()[1].data()));
			if (cx.thorough) { items.push_back(v.back()); items.push_back(v[4]); }
		}
	}
	std::vector<Flat> want;
	for (Item const & it : items) { want.push_back(fresh(it)); }
	if (cx.shard == 0) { cx.info["operations"] += ops.size(); cx.info["calls (operation, operands)"] += items.size(); cx.info["reference processes"] += items.size(); }
	for (std::size_t i = 0; i < items.size(); ++i)
	{
		for (std::size_t j = 0; j < items.size(); ++j)
		{
			if (! cx.next()) { continue; }
			Flat const p(runItem(items[i]));
			Flat const q(runItem(items[j]));
			Flat const r(runItem(items[i]));
			cx.trace();
			cx.outcome(want[j].c, 12);
			expect(cx, items[i], p, want[i], "first of a pair, after whatever ran before");
			expect(cx, items[j], q, want[j], "directly after " + items[i].op->name);
			expect(cx, items[i], r, want[i], "after itself and " + items[j].op->name);
			if (j % 64 == 63 || j + 1 == items.size() || cx.only != ~0ull) { quiet(cx, items[i].op->name + " or " + items[j].op->name); }
			if (cx.sampleNow()) { cx.sample(items[i].str() + "; " + items[j].str() + "; and the first again"); }
		}
	}
	quiet(cx, "an operation");
	// the process ends as if the operation had not been: no last words, no files
	for (Op const & op : ops)
	{
		if (! cx.next()) { continue; }
		char dir[]{ "/tmp/verif-c25-XXXXXX" };
		if (! mkdtemp(dir)) { abort(); }
		std::cout.flush();
		fflush(nullptr);
		pid_t const p{ fork() };
		if (p == 0)
		{
			if (chdir(dir)) { _exit(99); }
			setenv("HOME", dir, 1);
			setenv("TMPDIR", dir, 1);
			for (Item const & it : variants(op)) { (void)runItem(it); }
			for (auto const & a : rare()) for (auto const & b : rare()) { (void)runItem(item(op, a.data(), b.data())); }
			std::exit(0);
		}
		int st{ 0 };
		waitpid(p, &st, 0);
		cx.did();
		cx.trace();
		quiet(cx, op.name + " at the end of the process");
		if (! WIFEXITED(st) || WEXITSTATUS(st)) { cx.fail(op.name + mc::fmt(" makes the process end otherwise than asked for: status %d", st)); }
		if (rmdir(dir))
		{
			std::string const cmd(std::string("rm -rf ") + dir);
			if (std::system(cmd.c_str())) {}
			cx.fail(op.name + " leaves a file in the working directory");
		}
	}
	// one operation, operands that differ in little
	std::vector<Flat> base;
	for (std::size_t o = 0; o < ops.size(); ++o)
	{
		std::vector<Item> const vs(variants(ops[o]));
		bool have{ false };
		for (std::size_t i = 0; i < vs.size(); ++i)
		{
			if (! cx.next()) { continue; }
			if (! have) { base.clear(); for (Item const & it : vs) { base.push_back(fresh(it)); } have = true; }
			for (std::size_t j = 0; j < vs.size(); ++j)
			{
				Flat const p(runItem(vs[i]));
				Flat const q(runItem(vs[j]));
				cx.trace();
				expect(cx, vs[i], p, base[i], "same operation, other operands");
				expect(cx, vs[j], q, base[j], "directly after " + vs[i].str());
			}
			// repeated calls keep no memory
			long live[3];
			for (int k = 0; k < 3; ++k) { { Val v; vs[i].op->fn(vs[i].a, vs[i].b, v); cx.did(); } live[k] = liveBlocks; }
			if (live[2] > live[1] && live[1] > live[0]) { cx.fail("every call keeps memory: " + vs[i].str()); }
			quiet(cx, vs[i].op->name);
		}
	}
	// one operation for a long time, its operands taken in turns
	for (std::size_t o = 0; o < ops.size(); ++o)
	{
		if (! cx.next()) { continue; }
		std::vector<Item> vs(variants(ops[o]));
		if (vs.size() > 7) { vs.resize(7); }
		std::vector<Flat> alone;
		for (Item const & it : vs) { alone.push_back(fresh(it)); }
		bool const slow{ ops[o].cls == cText || ops[o].cls == cMisc };
		long const n{ (cx.thorough ? 20 : 1) * (slow ? 3000l : 70000l) };
		Val v;
		for (long k = 0; k < n; ++k)
		{
			std::size_t const j{ std::size_t(k) % vs.size() };
			v = Val();
			vs[j].op->fn(vs[j].a, vs[j].b, v);
			cx.did();
			if (v.kind != alone[j].kind || v.n != alone[j].n || ! std::equal(v.c, v.c + v.n, alone[j].c, sameBitsD) || int(v.text.size()) != alone[j].len) { expect(cx, vs[j], flat(v), alone[j], mc::fmt("call number %ld of the operation", k + 1)); }
		}
		cx.trace();
		quiet(cx, ops[o].name);
	}
	forKinds(GaKinds{}, [&](auto t) { aliases<TY(t)>(cx); });
	for (Op const & op : ops) { objects(cx, op); }
	forKinds(GaKinds{}, [&](auto t) { nested<TY(t)>(cx, items, want); });
	quiet(cx, "calls within calls");
	held(cx);
	held2(cx);
	quiet(cx, "operations of variables and temporaries");
	if (! cx.thorough) { return; }
	// every sequence of three operations
	std::vector<Item> ones;
	std::vector<Flat> wone;
	for (Op const & op : ops) { ones.push_back(variants(op)[0]); wone.push_back(fresh(ones.back())); }
	for (std::size_t i = 0; i < ones.size(); ++i) for (std::size_t j = 0; j < ones.size(); ++j)
	{
		if (! cx.next()) { continue; }
		for (std::size_t k = 0; k < ones.size(); ++k)
		{
			Flat const p(runItem(ones[i]));
			Flat const q(runItem(ones[j]));
			Flat const r(runItem(ones[k]));
			cx.trace();
			expect(cx, ones[i], p, wone[i], "sequence of three");
			expect(cx, ones[j], q, wone[j], "directly after " + ones[i].op->name);
			expect(cx, ones[k], r, wone[k], "after " + ones[i].op->name + " and " + ones[j].op->name);
		}
		quiet(cx, "a sequence of three operations");
	}
}
