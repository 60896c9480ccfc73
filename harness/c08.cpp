// C08 - inverses.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;
HAS1(inv, g3::inverse<A>(DA));

//! inverse by the model: dirverse / squared amplitude
bool model(M8 const & m, M8 & inv, ld & kappa)
{
	M8 const dv(ref::dirverse(m));
	M8 const amp(ref::mul(m, dv));
	ld const d{ amp.c[0] * amp.c[0] + amp.c[7] * amp.c[7] };
	if (d == 0) { return false; }
	M8 z;
	z.c[0] = amp.c[0] / d;
	z.c[7] = -amp.c[7] / d;
	inv = ref::mul(z, dv);
	kappa = ref::magSq(m) / sqrtl(d);
	return true;
}

template <class A> void check(Ctx & cx, double const * v, bool exactZeros)
{
	A const a(K<A>::make(v));
	M8 const m(toRef(a));
	A const r(g3::inverse<A>(a));
	cx.did();
	double g[8];
	K<A>::get(r, g);
	cx.outcome(g, K<A>::n);
	M8 want;
	ld kappa{ 0 };
	auto text = [&] { return show(a) + "\n  got " + show(r); };
	if (ref::magSq(m) == 0 || (exactZeros && ! model(m, want, kappa)))
	{
		for (int i = 0; i < K<A>::n; ++i) { if (g[i] == g[i]) { cx.fail("inverse of an entity without inverse is not null: " + text()); } }
		return;
	}
	if (! exactZeros && ! model(m, want, kappa)) { return; }
	if (! (kappa < 1e8L)) { cx.info["skipped: nearly singular (condition above 1e8)"]++; return; }
	// zero products of amplitude parts far below the magnitude count as rounding
	M8 const got(toRef(r));
	ld const tol{ 128 * eps * kappa * kappa * sqrtl(1.L / ref::magSq(m)) };
	for (int i = 0; i < 8; ++i)
	{
		if (! near(got.c[i], want.c[i], tol)) { cx.fail("inverse of " + text() + "\n  reference " + ref::str(want)); }
	}
	if (kappa > 1e4L) { return; }
	// a*inverse(a) == 1 == inverse(a)*a
	M8 const p(toRef(a * r)), q(toRef(r * a)), bb(toRef(g3::inverse<A>(r)));
	cx.did(3);
	cx.trace();
	for (int i = 0; i < 8; ++i)
	{
		ld const e{ i == 0 ? 1.L : 0.L };
		ld const t{ 512 * eps * kappa * kappa };
		if (! near(p.c[i], e, t) || ! near(q.c[i], e, t)) { cx.fail("inverse is not two-sided: " + text() + "\n  a*inverse(a) = " + ref::str(p) + "\n  inverse(a)*a = " + ref::str(q)); }
		if (kappa < 1e2L && ! near(bb.c[i], m.c[i], 8 * t * kappa * ref::mag(m))) { cx.fail("inverse of the inverse of " + text() + "\n  is " + ref::str(bb)); }
	}
}

//! Entities close to one without inverse: every component is a multiple of
//! 2^-26 of the largest, so that the squared amplitude is an exact double and
//! the only loss is proportional to the condition.
template <class A> void nearSingular(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	M8 const m(toRef(a));
	M8 want;
	ld kappa{ 0 };
	if (ref::magSq(m) == 0 || ! model(m, want, kappa)) { check<A>(cx, v, true); return; }
	A const r(g3::inverse<A>(a));
	cx.did();
	double g[8];
	K<A>::get(r, g);
	cx.outcome(g, K<A>::n);
	M8 const got(toRef(r));
	ld const tol{ 64 * eps * fminl(kappa, 1e13L) * ref::mag(want) };
	for (int i = 0; i < 8; ++i)
	{
		if (! near(got.c[i], want.c[i], tol)) { cx.fail("inverse of " + show(a) + "\n  got " + show(r) + "\n  reference " + ref::str(want)); }
	}
}
template <class A> void singularLadder(Ctx & cx)
{
	int const n{ K<A>::n };
	double w[8];
	std::vector<double> const al{ -1, 0, 1 };
	words(n, al, [&](double const * v)
	{
		for (int i = 0; i < n; ++i) for (int e = 1; e <= 24; ++e) for (int s = 0; s < 2; ++s) for (int k = -40; k <= 40; k += 40)
		{
			if (v[i] == 0 && e > 20) { continue; }
			if (! cx.next()) { continue; }
			for (int j = 0; j < n; ++j) { w[j] = std::ldexp(v[j] + (j == i ? (s ? -1 : 1) * std::ldexp(1., -e) : 0.), k); }
			nearSingular<A>(cx, w);
		}
	});
}

//! Solving a*x == r and x*a == r for x
template <class A, class B> void solve(Ctx & cx)
{
	if constexpr (K<B>::id != kD && has_mul<A, B>::value && has_mul<B, A>::value)
	{
		int const n{ K<A>::n + K<B>::n };
		auto one = [&](double const * v)
		{
			if (! cx.next()) { return; }
			A const a(K<A>::make(v));
			B const b(K<B>::make(v + K<A>::n));
			M8 inv;
			ld kappa{ 0 };
			if (ref::magSq(toRef(a)) == 0 || ! model(toRef(a), inv, kappa) || kappa > 1e4L) { return; }
			A const i(g3::inverse<A>(a));
			M8 const l(toRef(i * (a * b))), r(toRef((b * a) * i)), x(toRef(b));
			cx.did(5);
			cx.trace();
			for (int k = 0; k < 8; ++k)
			{
				ld const t{ 1024 * eps * kappa * kappa * (ref::mag(x) + 1e-300L) };
				if (! near(l.c[k], x.c[k], t) || ! near(r.c[k], x.c[k], t)) { cx.fail("inverse(a)*(a*b) or (b*a)*inverse(a) is not b\n  a = " + show(a) + "\n  b = " + show(b) + "\n  got " + ref::str(l) + "\n  and " + ref::str(r)); }
			}
		};
		double const budget{ cx.thorough ? 1e7 : 2e5 };
		std::vector<double> const al(letters(n, budget));
		if (std::pow(double(al.size()), n) <= budget) { words(n, al, one); }
		else { mixed(n, 2, { 1., 0.37, 1e3 }, one); }
	}
}

template <class A> void all(Ctx & cx)
{
	if constexpr (! has_inv<A>::value) { if (cx.next()) { cx.fail(std::string("no inverse of ") + K<A>::name()); } }
	else
	{
		bool const th{ cx.thorough };
		int const n{ K<A>::n };
		history::explore<A>(cx, "inverse", [](auto && x) -> decltype(auto) { return g3::inverse<A>(HELD(x)); });
		words(n, intAlphabet(n, th ? 2e8 : 1e7), [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); if (cx.sampleNow()) { cx.sample("inverse of " + show(K<A>::id, v)); } } });
		scaled(n, decades(-60, 60), letters(n, th ? 4e5 : 2e4), [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } });
		// powers of two and small integers: squares stay exact, singular ones are exactly singular
		for (int e = -90; e <= 90; e += th ? 1 : 2)
		{
			double w[8];
			words(n, { -1, 0, 1 }, [&](double const * v)
			{
				for (int i = 0; i < n; ++i) { w[i] = std::ldexp(v[i], e); }
				if (cx.next()) { check<A>(cx, w, true); }
			});
		}
		mixed(n, n > 4 ? (th ? 3 : 2) : th ? 4 : 3, { 2e-40, 1e-9, 3e-5, 0.7, 1., 13., 4e6, 1e17, 2e60 }, [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } });
		wholeOnes(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } });
		ladder(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } });
		singularLadder<A>(cx);
		if constexpr (K<A>::id >= kS && K<A>::id <= kT)
		{
			scaled(n, decades(-140, 140, 2), letters(n, 800), [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); } });
		}
		forKinds(GaKinds{}, [&](auto tb) { solve<A, TY(tb)>(cx); });
	}
}
} // namespace

void explore(Ctx & cx)
{
	forKinds(List<g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector, g3::ComPlex, g3::MultiVector>{}, [&](auto t) { all<TY(t)>(cx); });
}
