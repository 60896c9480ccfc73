// C12 - exact comparison.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v, double const * w)
{
	A const a(K<A>::make(v)), b(K<A>::make(w));
	bool want{ true };
	for (int i = 0; i < K<A>::n; ++i) { want = want && (v[i] == w[i]); }
	bool const got(a == b), back(b == a);
	cx.did(2);
	cx.outcome(want);
	// an object compares with itself by value too: null equals nothing
	bool self{ true };
	for (int i = 0; i < K<A>::n; ++i) { self = self && (v[i] == v[i]); }
	A const & same(a);
	bool const gotSelf(a == same);
	cx.did();
	if (gotSelf != self) { cx.fail(mc::fmt("== of an object and itself gives %d\n  %s", int(gotSelf), show(a).c_str())); }
	if (got != want || back != want) { cx.fail(mc::fmt("== gives %d, the other way round %d\n  %s\n  %s", int(got), int(back), show(a).c_str(), show(b).c_str())); }
}
//! a copy compares equal after any history of component changes that ends where it began
template <class A> void histories(Ctx & cx, std::vector<double> const & al)
{
	int const n{ K<A>::n };
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (double x : al) for (double y : al)
	{
		if (! cx.next()) { continue; }
		double v[8];
		std::copy(patterns()[1].begin(), patterns()[1].begin() + 8, v);
		A const a(K<A>::make(v));
		double const vi{ v[i] }, vj{ v[j] };
		v[i] = x; check<A>(cx, v, patterns()[1].data());
		v[j] = y; check<A>(cx, v, patterns()[1].data());
		v[j] = vj; if (i != j) { check<A>(cx, v, patterns()[1].data()); }
		v[i] = vi; check<A>(cx, v, patterns()[1].data());
		cx.trace();
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	double const sub{ std::numeric_limits<double>::denorm_min() };
	std::vector<double> const al
		{ 0., -0., 1., -1., 1. + eps, 1. - eps / 2, qnan, -qnan, inf, -inf, sub, -sub, 1e308, -1e308, 0.6, -0.8, std::nextafter(0.6, 1.), std::nextafter(-0.8, 0.), 0.6 + 1e-12, 0.3, 0.7, -0.2, 0.9, -0.4, 0.5 };
	forKinds(List<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::Spinor, g3::ImSpin, g3::MultiVector>{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore2<A, A>(cx, std::string("equality of ") + K<A>::name(), [](auto && x, auto && y) -> decltype(auto) { return HELD(x) == HELD(y); });
		auto one = [&](double const * v) { if (cx.next()) { check<A>(cx, v, v + n); if (cx.sampleNow()) { cx.sample("== of " + show(K<A>::id, v) + " and " + show(K<A>::id, v + n)); } } };
		std::vector<double> const ia(intAlphabet(2 * n, th ? 2e8 : 1e7));
		words(2 * n, ia, one);
		double base[16];
		for (int q = 0; q < 2; ++q)
		{
			for (int i = 0; i < n; ++i) { base[i] = base[i + n] = q ? patterns()[1][i] : 0.; }
			sparse(2 * n, th || n < 4 ? 3 : 2, base, al, one);
		}
		// both differ from the base in the same way
		sparse(n, 2, patterns()[1].data(), al, [&](double const * v)
		{
			double w[16];
			for (int i = 0; i < n; ++i) { w[i] = w[i + n] = v[i]; }
			one(w);
			for (int i = 0; i < n; ++i) { double const s{ w[i] }; w[i] = std::nextafter(s, 2.); one(w); w[i] = -s; one(w); w[i] = s; }
		});
		// numbers of every binary exponent in every place, and their neighbours
		for (int e = -1074; e <= 1023; ++e) for (double m : { 1., 1. + eps, 1.1, 1.5707963267948966, 2. - 2 * eps, -1.3, -1. }) for (int i = 0; i < n; ++i)
		{
			double const x{ std::ldexp(m, e) };
			for (double other : { x, std::nextafter(x, inf), std::nextafter(x, -inf), -x, double(float(x)), x * (1 + 1e-9) })
			{
				for (int q = 0; q < 2; ++q)
				{
					double w[16];
					for (int k = 0; k < n; ++k) { w[k] = w[k + n] = q ? patterns()[1][k] : 0.; }
					w[i] = x;
					w[n + i] = other;
					one(w);
				}
			}
		}
		// entities of every size: the same, and one step away in one place
		sized(n, [&](double const * v)
		{
			double w[16];
			for (int i = 0; i < n; ++i) { w[i] = w[i + n] = v[i]; }
			one(w);
			for (int i = 0; i < n; ++i) { double const s{ w[i] }; w[i] = std::nextafter(s, inf); one(w); w[i] = -s; one(w); w[i] = s; }
		}, -305, 305, 3);
		nearPairs(n, one);
		histories<A>(cx, al);
	});
	words(6, { 0., 1., -1., qnan, 1. + eps, -0. }, [&](double const * v)
	{
		if (! cx.next()) { return; }
		std::array<double, 3> const a{ v[0], v[1], v[2] }, b{ v[3], v[4], v[5] };
		bool const want{ v[0] == v[3] && v[1] == v[4] && v[2] == v[5] };
		cx.did(2);
		if (g3::operator==(a, a) != (a[0] == a[0] && a[1] == a[1] && a[2] == a[2])) { cx.fail(mc::fmt("== of array { %g %g %g } and itself", v[0], v[1], v[2])); }
		if (g3::operator==(a, b) != want) { cx.fail(mc::fmt("== of arrays { %g %g %g } and { %g %g %g }", v[0], v[1], v[2], v[3], v[4], v[5])); }
	});
}
