// C09 - validity.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

bool good(double x) { return x == 0. || (x == x && fabs(x) <= 1.7976931348623157e308 && fabs(x) >= 2.2250738585072014e-308); }

inline double sub() { return std::numeric_limits<double>::denorm_min(); }

template <class A> void check(Ctx & cx, double const * v)
{
	bool want{ true };
	for (int i = 0; i < K<A>::n; ++i) { want = want && good(v[i]); }
	A const a(K<A>::make(v));
	bool const got{ g3::isValid(a) };
	cx.did();
	cx.outcome(want ? 1 : 0);
	if (got != want) { cx.fail(mc::fmt("isValid is %s for %s", got ? "true" : "false", show(a).c_str())); }
}

template <std::size_t N> void arrays(Ctx & cx, std::vector<double> const & al)
{
	words(N, al, [&](double const * v)
	{
		if (! cx.next()) { return; }
		std::array<double, N> a;
		bool want{ true };
		for (std::size_t i = 0; i < N; ++i) { a[i] = v[i]; want = want && good(v[i]); }
		bool const got{ g3::isValid(a) };
		cx.did();
		if (got != want) { cx.fail(mc::fmt("isValid is %s for an array of %d values, first %.17g", got ? "true" : "false", int(N), v[0])); }
	});
}

template <class A> void makers(Ctx & cx)
{
	if (! cx.next()) { return; }
	double v[8];
	K<A>::get(g3::null<A>(), v);
	cx.did(5);
	for (int i = 0; i < K<A>::n; ++i) { if (v[i] == v[i]) { cx.fail(mc::fmt("component %d of null<%s>() is %.17g", i, K<A>::name(), v[i])); } }
	if (g3::isValid(g3::null<A>())) { cx.fail(std::string("null is valid for ") + K<A>::name()); }
	K<A>::get(g3::zero<A>(), v);
	for (int i = 0; i < K<A>::n; ++i) { if (! (v[i] == 0.)) { cx.fail(mc::fmt("component %d of zero<%s>() is %.17g", i, K<A>::name(), v[i])); } }
	if (! g3::isValid(g3::zero<A>())) { cx.fail(std::string("zero is not valid for ") + K<A>::name()); }
}

//! Histories of overwriting single components, validity asked after each
template <class A> void histories(Ctx & cx, int depth)
{
	int const n{ K<A>::n };
	std::vector<double> const al{ 1.5, qnan, inf, 0., sub() };
	for (int start = 0; start < 2; ++start)
	{
		int const moves{ n * int(al.size()) };
		long total{ 1 };
		for (int i = 0; i < depth; ++i) { total *= moves; }
		for (long h = 0; h < total; ++h)
		{
			if (! cx.next()) { continue; }
			double v[8];
			A a(start ? g3::zero<A>() : g3::null<A>());
			K<A>::get(a, v);
			long rest{ h };
			std::string how{ start ? "zero" : "null" };
			for (int i = 0; i < depth; ++i)
			{
				int const mv{ int(rest % moves) };
				rest /= moves;
				v[mv / int(al.size())] = al[mv % al.size()];
				a = K<A>::make(v);
				bool want{ true };
				for (int k = 0; k < n; ++k) { want = want && good(v[k]); }
				cx.did();
				if (g3::isValid(a) != want) { cx.fail(mc::fmt("after %d writes into %s: isValid is %d for %s", i + 1, how.c_str(), int(! want), show(a).c_str())); }
			}
			cx.trace();
		}
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	double const dmin{ std::numeric_limits<double>::min() }, dmax{ std::numeric_limits<double>::max() };
	double const sub{ std::numeric_limits<double>::denorm_min() };
	double const snan{ std::numeric_limits<double>::signaling_NaN() };
	std::vector<double> const full
		{ 0., 1., qnan, -0., -1., 1e-300, -1e300, 0.1, dmin, -dmin, dmax, -dmax, sub, -sub, std::nextafter(dmin, 0.), -std::nextafter(dmin, 0.)
		, -qnan, snan, inf, -inf, 1e-5, 3e17 };
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore<A>(cx, "validity", [](auto && x) -> decltype(auto) { return g3::isValid(HELD(x)); });
		auto one = [&](double const * v) { if (cx.next()) { check<A>(cx, v); if (cx.sampleNow()) { cx.sample("isValid at " + show(K<A>::id, v)); } } };
		double const p[3][8]{ { 1, 2, 3, 4, 5, 6, 7, 8 }, { 0, 0, 0, 0, 0, 0, 0, 0 }, { -1e300, dmin, -dmin, 1e-300, -0., 0.1, 3., dmax } };
		if (std::pow(double(full.size()), n) < 3e5) { words(n, full, one); }
		else { for (auto const & b : p) { sparse(n, 3, b, full, one); } }
		words(n, { 0., qnan, -2.5, inf, sub }, one);
		sized(n, one, -322, 307);
		sized(n, [&](double const * v)
		{
			double w[8];
			for (int i = 0; i < n; ++i) for (double x : { qnan, inf, -sub, 0. }) { for (int k = 0; k < n; ++k) { w[k] = k == i ? x : v[k]; } one(w); }
		}, -304, 304);
		ladder(n, one, 2);
		words(n, { 0., qnan, -2.5, -inf }, one);
		if (th || n < 7) { words(n, { 0., qnan, -2.5, inf, sub, dmax, -dmin, -inf }, one); }
		makers<A>(cx);
		histories<A>(cx, th ? 4 : 3);
	});
	std::vector<double> const al{ 0., qnan, -2.5, inf, sub, dmin };
	arrays<1>(cx, full);
	arrays<2>(cx, full);
	arrays<3>(cx, full);
	arrays<4>(cx, al);
	arrays<5>(cx, al);
	arrays<6>(cx, al);
	arrays<7>(cx, { 0., qnan, 1. });
	arrays<8>(cx, { 0., qnan, 1. });
	// pairs
	words(2, full, [&](double const * v)
	{
		if (! cx.next()) { return; }
		cx.did();
		bool const got{ g3::bothAreValid(v[0], v[1]) };
		if (got != (good(v[0]) && good(v[1]))) { cx.fail(mc::fmt("bothAreValid(%.17g, %.17g) is %d", v[0], v[1], int(got))); }
		for (int i = 0; i < 2; ++i)
		{
			// one object twice
			bool const twice{ g3::bothAreValid(v[i], v[i]) };
			cx.did();
			if (twice != good(v[i])) { cx.fail(mc::fmt("bothAreValid(x, x) with x=%.17g is %d", v[i], int(twice))); }
		}
	});
}
