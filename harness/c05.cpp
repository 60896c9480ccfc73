// C05 - squared magnitude and magnitude.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v, bool laws)
{
	A const a(K<A>::make(v));
	double const sq{ g3::magSq(a) };
	double const mag{ g3::magnitude(a) };
	cx.did(2);
	ld want{ 0 };
	for (int i = 0; i < K<A>::n; ++i) { want += ld(v[i]) * ld(v[i]); }
	ld const root{ sqrtl(want) };
	cx.outcome(&sq, 1);
	auto text = [&] { return mc::fmt("%s\n  magSq %.17g  magnitude %.17g  reference %.17Lg / %.17Lg", show(a).c_str(), sq, mag, want, root); };
	if (std::isinf(double(want)) && std::any_of(v, v + K<A>::n, [](double x) { return std::isinf(x); }) && ! (sq > 1.7976931348623157e308 && mag > 1.7976931348623157e308)) { cx.fail("an infinite component but a finite magnitude: " + text()); }
	if (want < 1e300L && ! near(sq, want, 16 * eps * want + 1e-320L)) { cx.fail("squared magnitude of " + text()); }
	if (want < 1e300L && ! near(mag, root, 16 * eps * root + (root < 1e-145L ? 1e-150L : 0.L))) { cx.fail("magnitude of " + text()); }
	if (laws && want < 1e100L && want > 1e-100L)
	{
		ld const t{ 16 * eps * want };
		auto need = [&](double s, char const * w) { cx.did(); cx.trace(); if (! near(s, want, t)) { cx.fail(mc::fmt("magSq changes under %s: %.17g, ", w, s) + text()); } };
		need(g3::magSq(g3::reverse(a)), "reverse");
		need(g3::magSq(g3::dual(a)), "dual");
		if constexpr (K<A>::id != kD)
		{
			need(g3::magSq(-a), "negation");
			need(g3::magSq(g3::oddverse(a)), "oddverse");
			need(g3::magSq(g3::dirverse(a)), "dirverse");
			need(g3::magSq(-8. * a) / 64., "scaling by -8 (64-fold)");
			// scalar part of reverse(a)*a
			auto const p(g3::reverse(a) * a);
			M8 const r(toRef(p));
			cx.did(2);
			cx.trace();
			if (! near(r.c[0], want, t)) { cx.fail("scalar grade of reverse(a)*a is " + ref::str(r) + " for " + text()); }
		}
	}
}

template <class A, class B> void product(Ctx & cx)
{
	// |a*b| == |a| |b| when b*reverse(b) is a scalar
	if constexpr (K<A>::id != kD && K<B>::id != kD && K<B>::id != kDplx && K<B>::id != kMV && has_mul<A, B>::value)
	{
		int const n{ K<A>::n + K<B>::n };
		auto one = [&](double const * v)
		{
			if (! cx.next()) { return; }
			A const a(K<A>::make(v));
			B const b(K<B>::make(v + K<A>::n));
			double const l{ g3::magSq(a * b) }, r{ g3::magSq(a) * g3::magSq(b) };
			cx.did(4);
			cx.trace();
			if (! near(l, r, 64 * eps * r)) { cx.fail(mc::fmt("magSq(a*b) = %.17g, magSq(a)*magSq(b) = %.17g\n  a = %s\n  b = %s", l, r, show(a).c_str(), show(b).c_str())); }
		};
		double const budget{ cx.thorough ? 2e7 : 1e6 };
		std::vector<double> const al(letters(n, budget));
		if (std::pow(double(al.size()), n) <= budget) { words(n, al, one); }
		else { mixed(n, 2, { 1., 0.37, 1e5 }, one); }
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> const dec(decades(-148, 148));
	std::vector<double> few{ 1e-160, 3e-120, 2e-40, 1e-9, 3e-5, 0.7, 1., 13., 4e6, 1e17, 2e60, 1e149 };
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore<A>(cx, "squared magnitude", [](auto && x) -> decltype(auto) { return g3::magSq(HELD(x)); });
		history::explore<A>(cx, "magnitude", [](auto && x) -> decltype(auto) { return g3::magnitude(HELD(x)); });
		words(n, intAlphabet(n, th ? 2e8 : 1e7), [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); if (cx.sampleNow()) { cx.sample("magSq/magnitude and laws at " + show(K<A>::id, v)); } } });
		scaled(n, dec, letters(n, th ? 4e5 : 2e4), [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } });
		mixed(n, n > 4 ? (th ? 3 : 2) : th ? 4 : 3, few, [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } });
		wholeOnes(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } });
		ladder(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } });
		for (auto const & p : patterns()) { sparse(n, 2, p.data(), { inf, -inf, 0., 1e-300, 1e140 }, [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } }); }
	});
	forKinds(GaKinds{}, [&](auto ta) { forKinds(GaKinds{}, [&](auto tb) { product<TY(ta), TY(tb)>(cx); }); });
}
