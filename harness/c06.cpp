// C06 - squared amplitude and amplitude.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	M8 const m(toRef(a));
	M8 const want(ref::mul(m, ref::dirverse(m)));
	for (int i = 1; i < 7; ++i)
	{
		if (fabsl(want.c[i]) > 1e-15L * ref::magSq(m)) { fprintf(stderr, "reference model broken\n"); abort(); }
	}
	g3::ComPlex const sq(g3::ampSq(a));
	g3::ComPlex const am(g3::amplitude(a));
	cx.did(2);
	double s[2], z[2];
	K<g3::ComPlex>::get(sq, s);
	K<g3::ComPlex>::get(am, z);
	cx.outcome(s, 2);
	ld const m2{ ref::magSq(m) };
	ld const tol{ 32 * eps * m2 + 1e-320L };
	auto text = [&] { return mc::fmt("%s\n  ampSq     %.17g + %.17g I (reference %.17Lg + %.17Lg I)\n  amplitude %.17g + %.17g I", show(a).c_str(), s[0], s[1], want.c[0], want.c[7], z[0], z[1]); };
	if (! near(s[0], want.c[0], tol) || ! near(s[1], want.c[7], tol)) { cx.fail("squared amplitude of " + text()); }
	// root of the squared amplitude, in the right half plane
	ld const re{ ld(z[0]) * z[0] - ld(z[1]) * z[1] }, im{ 2 * ld(z[0]) * z[1] };
	ld const rt{ 32 * eps * (fabsl(want.c[0]) + fabsl(want.c[7])) + tol };
	if (! near(re, want.c[0], rt) || ! near(im, want.c[7], rt)) { cx.fail("square of the amplitude is not the squared amplitude: " + text()); }
	if (! (z[0] >= 0.)) { cx.fail("amplitude has a negative scalar part: " + text()); }
	// on the negative real axis: the root with positive trivector part
	if (s[1] == 0. && s[0] < 0. && ! (z[1] > 0.)) { cx.fail("amplitude of a negative real square has no positive trivector part: " + text()); }
}

//! An infinite component makes what it enters infinite or undefined
template <class A> void infinite(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	bool hit[8]{ };
	for (int i = 0; i < K<A>::n; ++i) for (int j = 0; j < K<A>::n; ++j)
	{
		int const p{ K<A>::at(i) }, q{ K<A>::at(j) }, to{ ref::tab.to[p][q] };
		if ((std::isinf(v[i]) || std::isinf(v[j])) && v[i] != 0. && v[j] != 0.) { hit[to] = true; }
	}
	g3::ComPlex const sq(g3::ampSq(a)), am(g3::amplitude(a));
	double s[2], z[2];
	K<g3::ComPlex>::get(sq, s);
	K<g3::ComPlex>::get(am, z);
	cx.did(2);
	cx.trace();
	if ((hit[0] && std::isfinite(s[0])) || (std::isfinite(z[0]) && std::isfinite(z[1]) && hit[0]))
	{
		cx.fail(mc::fmt("%s\n  ampSq     %.17g + %.17g I\n  amplitude %.17g + %.17g I, but a component is infinite", show(a).c_str(), s[0], s[1], z[0], z[1]));
	}
}

//! amplitude is multiplicative, and does not depend on the kind that holds it
template <class A, class B> void product(Ctx & cx)
{
	if constexpr (K<A>::id != kD && K<B>::id != kD && has_mul<A, B>::value)
	{
		int const n{ K<A>::n + K<B>::n };
		auto one = [&](double const * v)
		{
			if (! cx.next()) { return; }
			A const a(K<A>::make(v));
			B const b(K<B>::make(v + K<A>::n));
			M8 const l(toRef(g3::ampSq(a * b))), r(toRef(g3::ampSq(a) * g3::ampSq(b)));
			cx.did(5);
			cx.trace();
			ld const m2{ ref::magSq(toRef(a)) * ref::magSq(toRef(b)) };
			for (int i = 0; i < 8; ++i)
			{
				if (! near(l.c[i], r.c[i], 256 * eps * m2)) { cx.fail(mc::fmt("ampSq(a*b) = %s but ampSq(a)*ampSq(b) = %s\n  a = %s\n  b = %s", ref::str(l).c_str(), ref::str(r).c_str(), show(a).c_str(), show(b).c_str())); }
			}
		};
		double const budget{ cx.thorough ? 2e7 : 3e5 };
		std::vector<double> const al(letters(n, budget));
		if (std::pow(double(al.size()), n) <= budget) { words(n, al, one); }
		else { mixed(n, 2, { 1., 0.37, 1e5 }, one); }
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> const dec(decades(-148, 148));
	std::vector<double> const few{ 3e-120, 2e-40, 1e-9, 3e-5, 0.7, 1., 13., 4e6, 1e17, 2e60, 1e148 };
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore<A>(cx, "squared amplitude", [](auto && x) -> decltype(auto) { return g3::ampSq(HELD(x)); });
		history::explore<A>(cx, "amplitude", [](auto && x) -> decltype(auto) { return g3::amplitude(HELD(x)); });
		words(n, intAlphabet(n, th ? 2e8 : 1e7), [&](double const * v) { if (cx.next()) { check<A>(cx, v); if (cx.sampleNow()) { cx.sample("ampSq/amplitude at " + show(K<A>::id, v)); } } });
		scaled(n, dec, letters(n, th ? 4e5 : 2e4), [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		mixed(n, n > 4 ? (th ? 3 : 2) : th ? 4 : 3, few, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		wholeOnes(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		ladder(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		for (auto const & p : patterns()) { sparse(n, 2, p.data(), { inf, -inf, 0. }, [&](double const * v) { if (std::any_of(v, v + n, [](double x) { return std::isinf(x); }) && cx.next()) { infinite<A>(cx, v); } }); }
	});
	forKinds(GaKinds{}, [&](auto ta) { forKinds(GaKinds{}, [&](auto tb) { product<TY(ta), TY(tb)>(cx); }); });
}
