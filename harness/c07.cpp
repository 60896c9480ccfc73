// C07 - directions.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v)
{
	int const n{ K<A>::n };
	A const a(K<A>::make(v));
	std::pair<double, A> const md(g3::pairMagDirFrom(a));
	A const d(g3::direction(a));
	cx.did(2);
	double p[8], q[8];
	K<A>::get(md.second, p);
	K<A>::get(d, q);
	ld sq{ 0 };
	bool bad{ false }, infinite{ false };
	for (int i = 0; i < n; ++i) { sq += ld(v[i]) * v[i]; bad = bad || v[i] != v[i]; infinite = infinite || std::isinf(v[i]); }
	ld const mag{ sqrtl(sq) };
	cx.outcome(q, n);
	auto text = [&] { return mc::fmt("%s\n  magnitude %.17g (reference %.17Lg)\n  direction %s\n  of pair   %s", show(a).c_str(), md.first, mag, show(d).c_str(), show(md.second).c_str()); };
	if (infinite)
	{
		bool nanP{ false }, nanQ{ false };
		for (int i = 0; i < n; ++i) { nanP = nanP || p[i] != p[i]; nanQ = nanQ || q[i] != q[i]; }
		if (! nanP || ! nanQ || std::isfinite(md.first)) { cx.fail("an infinite entity has a valid magnitude or direction: " + text()); }
		return;
	}
	for (int i = 0; i < n; ++i)
	{
		if (bad || sq == 0)
		{
			if (p[i] == p[i] || q[i] == q[i]) { cx.fail("direction of " + std::string(bad ? "an invalid entity" : "zero") + " is not null: " + text()); }
		}
		else
		{
			ld const w{ v[i] / mag };
			if (! near(p[i], w, 16 * eps * fabsl(w) + 1e-300L) || ! near(q[i], w, 16 * eps * fabsl(w) + 1e-300L)) { cx.fail(mc::fmt("component %d of the direction is not %.17Lg: ", i, w) + text()); }
			if (! near(ld(md.first) * p[i], v[i], 32 * eps * fabs(v[i]) + 1e-300L * mag)) { cx.fail("magnitude times direction is not the entity: " + text()); }
		}
	}
	if (bad) { if (md.first == md.first) { cx.fail("magnitude of an invalid entity: " + text()); } return; }
	if (! near(md.first, mag, 16 * eps * mag)) { cx.fail("magnitude: " + text()); }
	if (sq == 0) { return; }
	// laws: of the opposite, of a multiple, of the direction itself
	double r[8];
	auto need = [&](A const & got, double sign, char const * what)
	{
		cx.did();
		cx.trace();
		K<A>::get(got, r);
		for (int i = 0; i < n; ++i)
		{
			if (! near(r[i], sign * q[i], 64 * eps * fabs(q[i]) + 1e-300L)) { cx.fail(mc::fmt("direction of %s: %s\n  where direction of ", what, show(got).c_str()) + text()); }
		}
	};
	need(g3::direction(-a), -1., "the opposite");
	need(g3::direction(3. * a), 1., "three times the entity");
	need(g3::direction(-0.7 * a), -1., "-0.7 times the entity");
	need(g3::direction(d), 1., "its direction");
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	// as far as squares neither underflow nor overflow
	std::vector<double> dec(decades(-152, 150));
	dec.push_back(2e-153);
	std::vector<double> const few{ 3e-120, 2e-40, 1e-9, 3e-5, 0.7, 1., 13., 4e6, 1e17, 2e60, 1e140, qnan };
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore<A>(cx, "direction", [](auto && x) -> decltype(auto) { return g3::direction(HELD(x)); });
		history::explore<A>(cx, "magnitude and direction", [](auto && x) -> decltype(auto) { return g3::pairMagDirFrom(HELD(x)); });
		words(n, intAlphabet(n, th ? 2e8 : 1e7), [&](double const * v) { if (cx.next()) { check<A>(cx, v); if (cx.sampleNow()) { cx.sample("direction at " + show(K<A>::id, v)); } } });
		scaled(n, dec, letters(n, th ? 4e5 : 2e4), [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		mixed(n, n > 4 ? (th ? 3 : 2) : th ? 4 : 3, few, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		wholeOnes(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		ladder(n, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		words(n, n < 8 ? std::vector<double>{ inf, -inf, qnan, 0, 1 } : std::vector<double>{ inf, qnan, 0, -1 }, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
		words(n, { qnan, 0, 1 }, [&](double const * v) { if (cx.next()) { check<A>(cx, v); } });
	});
}
