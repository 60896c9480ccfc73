// C29 - every operation is total and free of undefined behaviour.
//
// Compiled with AddressSanitizer and UndefinedBehaviorSanitizer: anything they
// object to ends the worker, as do an exception or a call that does not
// return, and the engine reports the case that was being evaluated.
#include "num.hpp"
#include "optable.hpp"

extern "C" char const * __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
extern "C" char const * __ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

namespace engabra
{
	extern std::string projectVersion();
	extern std::string sourceIdentity();
}

namespace
{
using mc::Ctx;
using namespace num;

void eval(Ctx & cx, Op const & op, double const * v)
{
	double w[16]{};
	int const na{ kindSize(op.a) }, nb{ op.b >= 0 ? kindSize(op.b) : 0 };
	for (int i = 0; i < na; ++i) { w[i] = v[i]; }
	for (int i = 0; i < nb; ++i) { w[8 + i] = v[na + i]; }
	auto args = [&] { return show(op.a, w) + (op.b >= 0 ? ", " + show(op.b, w + 8) : std::string()); };
	Val r;
	try { op.fn(w, w + 8, r); }
	catch (std::exception const & ex) { cx.fail(op.name + " throws for " + args() + ": " + ex.what()); }
	catch (mc::Stop const &) { throw; }
	catch (...) { cx.fail(op.name + " throws for " + args()); }
	cx.did();
	cx.outcome(r.c, r.n);
	if (cx.sampleNow()) { cx.sample(op.name + " of " + args()); }
}
template <class A> void subscripts(Ctx & cx)
{
	// every index up to well past the end, and indices that wrap
	A a(K<A>::make(patterns()[1].data()));
	A const & c(a);
	for (int k = 0; k < 3; ++k) for (std::size_t i = 0; i < 300; ++i)
	{
		if (! cx.next()) { continue; }
		std::size_t const at{ k == 0 ? i : k == 1 ? ~std::size_t(0) - i : (std::size_t(1) << (i % 64)) };
		double const x{ c[at] };
		cx.did();
		cx.outcome(&x, 1);
		if (at < std::size_t(K<A>::n)) { if (! (x == patterns()[1][at])) { cx.fail(mc::fmt("component %zu of ", at) + show(a)); } }
	}
}
template <class A> void reads(Ctx & cx, std::string const & s)
{
	std::istringstream in(s);
	A a(K<A>::make(patterns()[1].data()));
	try { in >> a; }
	catch (std::exception const & ex) { cx.fail(std::string("extraction of ") + K<A>::name() + " from '" + s + "' throws: " + ex.what()); }
	cx.did();
}
template <class A> void widths(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	static std::size_t const w[]{ 0, 1, 2, 7, 17, 40, 340 };
	for (std::size_t l : w) for (std::size_t f : w)
	{
		std::string const s(g3::io::fixed(a, l, f));
		cx.did();
		cx.trace();
		if (s.empty()) { cx.fail("no text for " + show(a)); }
	}
	for (std::size_t f : w) { std::string const s(g3::io::enote(a, f)); cx.did(); if (s.empty()) { cx.fail("no text for " + show(a)); } }
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	double const sub{ std::numeric_limits<double>::denorm_min() }, big{ std::numeric_limits<double>::max() }, sml{ std::numeric_limits<double>::min() };
	std::vector<double> const edge{ 0., -0., 1., -1., qnan, inf, -inf, sub, -sub, sml, big, -big, 1e154, -1e155, 1e-162, 800., -800., 1e17, 0.1 };
	std::vector<double> const few{ 0., -1., qnan, inf, sub, -big, 1e160 };
	std::vector<Op> const ops(optable::build());
	if (cx.shard == 0) { cx.info["operations"] += ops.size(); }
	for (Op const & op : ops)
	{
		int const n{ kindSize(op.a) + (op.b >= 0 ? kindSize(op.b) : 0) };
		auto go = [&](double const * v) { if (cx.next()) { eval(cx, op, v); } };
		if (n <= 2) { words(n, edge, go); }
		else if (n <= (th ? 6 : 4)) { words(n, few, go); }
		double ones[24];
		for (int i = 0; i < 24; ++i) { ones[i] = 1.; }
		// every uniform word, and one or two places that differ from it
		for (double const & b : few) { double u[24]; for (int i = 0; i < 24; ++i) { u[i] = b; } sparse(n, th ? 2 : 1, u, edge, go); }
		sparse(n, 2, ones, th ? edge : few, go);
		for (auto const & p : patterns()) { sparse(n, th ? 2 : 1, p.data(), edge, go); }
		for (double const & x : edge) { double u[24]; for (int i = 0; i < n; ++i) { u[i] = x * patterns()[1][i]; } go(u); }
	}
	forKinds(GaKinds{}, [&](auto t) { subscripts<TY(t)>(cx); });
	// extraction from every short text over an alphabet of number fragments
	std::vector<std::string> const frag{ " ", "1", "-", ".", "e", "nan", "inf", "9e999", "x", "\t\n", "1e-320", std::string(400, '7') };
	int const len{ th ? 6 : 4 };
	std::vector<int> d;
	for (int n = 0; n <= len; ++n)
	{
		long total{ 1 };
		for (int i = 0; i < n; ++i) { total *= long(frag.size()); }
		for (long k = 0; k < total; ++k)
		{
			if (! cx.next()) { continue; }
			std::string s;
			long r{ k };
			for (int i = 0; i < n; ++i) { s += frag[std::size_t(r) % frag.size()]; r /= long(frag.size()); }
			forKinds(GaKinds{}, [&](auto t) { reads<TY(t)>(cx, s); });
		}
	}
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		if constexpr (! std::is_same<A, g3::ComPlex>::value && ! std::is_same<A, g3::DirPlex>::value)
		{
			for (double const & x : edge) { if (! cx.next()) { continue; } double u[8]; for (int i = 0; i < 8; ++i) { u[i] = x; } widths<A>(cx, u); }
		}
	});
	if (cx.next()) { cx.did(2); (void)engabra::projectVersion(); (void)engabra::sourceIdentity(); }
}
