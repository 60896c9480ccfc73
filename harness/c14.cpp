// C14 - exponential of a general multivector.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;
using MV = g3::MultiVector;

ld bound(M8 const & m)
{
	ld const v{ sqrtl(m.c[1] * m.c[1] + m.c[2] * m.c[2] + m.c[3] * m.c[3]) };
	ld const b{ sqrtl(m.c[4] * m.c[4] + m.c[5] * m.c[5] + m.c[6] * m.c[6]) };
	return 64 * eps * (1 + ref::magSq(m)) * (1 + std::min(v, b)) * expl(m.c[0] + v);
}
bool agree(M8 const & got, M8 const & want, ld tol, ld size)
{
	bool ok{ true };
	for (int i = 0; i < 8; ++i) { ok = ok && near(got.c[i], want.c[i], (i == 0 ? tol : tol * std::min(1.L, size)) + 1e-300L); }
	return ok;
}
void check(Ctx & cx, double const * v, bool laws)
{
	MV const m(K<MV>::make(v));
	M8 const x(toRef(m));
	MV const r(g3::exp(m));
	cx.did();
	double g[8];
	K<MV>::get(r, g);
	cx.outcome(g, 8);
	ld const tol{ bound(x) };
	ld const size{ ref::mag(x) };
	M8 const want(ref::exp(x));
	if (! agree(toRef(r), want, tol, size)) { cx.fail("exp of " + show(m) + "\n  got    " + show(r) + "\n  series " + ref::str(want)); }
	if (! laws || size > 12) { return; }
	ld const t2{ 8 * (tol * ref::mag(want) + bound(ref::neg(x)) * ref::mag(want)) * 8 + 8 * tol };
	M8 const one(toRef(r * g3::exp(-m)));
	cx.did(2);
	cx.trace();
	for (int i = 0; i < 8; ++i) { if (! near(one.c[i], i == 0 ? 1.L : 0.L, t2 * (1 + ref::mag(ref::exp(ref::neg(x)))))) { cx.fail("exp(m)*exp(-m) is " + ref::str(one) + " for m = " + show(m)); } }
	MV const rr(g3::exp(g3::reverse(m)));
	cx.did();
	cx.trace();
	if (! agree(toRef(g3::reverse(rr)), want, tol, size)) { cx.fail("exp(reverse(m)) is not reverse(exp(m)) for m = " + show(m)); }
	// the commuting part separates
	double c[8]{ v[0], 0, 0, 0, 0, 0, 0, v[7] }, d[8]{ 0, v[1], v[2], v[3], v[4], v[5], v[6], 0 };
	MV const p(g3::exp(K<MV>::make(c)) * g3::exp(K<MV>::make(d)));
	cx.did(3);
	cx.trace();
	M8 const pm(toRef(p));
	for (int i = 0; i < 8; ++i) { if (! near(pm.c[i], want.c[i], 64 * tol)) { cx.fail("exp(c + d) is not exp(c)*exp(d), c the commuting grades of m = " + show(m) + "\n  got " + ref::str(pm) + "\n  not " + ref::str(want)); } }
	if (v[1] == 0 && v[2] == 0 && v[3] == 0 && v[7] == 0)
	{
		double s[4]{ v[0], v[4], v[5], v[6] };
		M8 const q(toRef(g3::exp(K<g3::Spinor>::make(s))));
		cx.did();
		cx.trace();
		if (! agree(toRef(r), q, 2 * tol, size)) { cx.fail("exp of a spinor differs from exp of the multivector that holds it: " + show(m)); }
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	history::explore<g3::MultiVector>(cx, "exponential", [](auto && x) -> decltype(auto) { return g3::exp(HELD(x)); });
	auto one = [&](double const * v) { if (cx.next()) { check(cx, v, true); if (cx.sampleNow()) { cx.sample("exp of " + show(kMV, v)); } } };
	words(8, th ? std::vector<double>{ -2, -1, 0, .5, 1 } : std::vector<double>{ -2, -1, 0, 1 }, one);
	if (th) { words(8, { 0, .5, 1, 3 }, one); }
	scaled(8, th ? decades(-150, 0, 5) : std::vector<double>{ 1e-150, 1e-100, 1e-20, 1e-8, 1e-4, 3e-3, 0.03, 0.7 }, th ? std::vector<double>{ -1, 0, 1 } : std::vector<double>{ 0, 1 }, one);
	scaled(8, { 2., 3.14159265358979, 6., 15. }, { 0, 1 }, one);
	scaled(8, { 0.5, 1.5, 5. }, { -1, 0.6 }, one);
	// decay to the lower end of the range of numbers, and beyond
	for (double g : { -1e300, -1e9, -1000., -800., -746., -745., -720., -708., -650. })
	{
		auto decay = [&](double const * v) { double w[8]; for (int i = 1; i < 8; ++i) { w[i] = v[i]; } w[0] = g; if (cx.next()) { check(cx, w, false); } };
		scaled(8, { 1e-30, 1e-4, 0.5, 3. }, { 0, 1 }, decay);
		double const none[8]{ };
		decay(none);
	}
	// many turns, large growth, and either with a little of the other
	auto large = [&](double const * v)
	{
		if (v[0] + std::sqrt(v[1] * v[1] + v[2] * v[2] + v[3] * v[3]) < 690. && v[0] > -600.) { one(v); }
	};
	scaled(8, { 25., 70., 260. }, { 0, -1 }, large);
	mixed(8, th ? 3 : 2, { 1e-6, 0.5, 21., 64., 150., 500. }, [&](double const * v)
	{
		large(v);
		double w[8];
		for (int i = 0; i < 8; ++i) { w[i] = i > 0 && i < 4 ? v[i] * 1e-3 : v[i]; }
		large(w);
		for (int i = 0; i < 8; ++i) { w[i] = i > 3 ? v[i] * 1e-3 : v[i]; }
		large(w);
	});
	mixed(8, th ? 3 : 2, { 1e-100, 1e-9, 3e-5, 9e-4, 1.1e-3, 2e-3, 9e-3, 0.011, 0.3, 1., 3.14159265358979, 5. }, [&](double const * v)
	{
		double w[8];
		double big{ 0 };
		for (int i = 0; i < 8; ++i) { big = std::max(big, fabs(v[i])); }
		double const s{ big > 12. ? 12. / big : 1. };
		for (int i = 0; i < 8; ++i) { w[i] = s * v[i]; }
		one(w);
	});
	// vector and bivector perpendicular and of equal or almost equal size: the
	// square of the directed part is nilpotent or nearly so
	for (auto const & p : patterns()) for (int k = 0; k < 3; ++k) for (double s : decades(-6, 0)) for (double q : { 0., 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-3, 0.1 })
	for (double c : { 0., 0.4, -3. }) for (double t : { 0., 1.2 })
	{
		double const a[3]{ p[0], p[1], p[2] };
		double n[3]{}, u[3]{};
		u[k] = 1.;
		n[0] = a[1] * u[2] - a[2] * u[1];
		n[1] = a[2] * u[0] - a[0] * u[2];
		n[2] = a[0] * u[1] - a[1] * u[0];
		double const la{ std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) }, ln{ std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) };
		double v[8]{ c };
		for (int i = 0; i < 3; ++i) { v[1 + i] = s * a[i] / la; v[4 + i] = s * (1 + q) * n[i] / ln; }
		v[7] = t;
		one(v);
	}
	ladder(8, one);
	// multiples of eighth turns of the parts
	for (int i = 1; i < 8; ++i) for (int k = -32; k <= 32; ++k) { double v[8]{}; v[i] = k * .125 * M_PI; one(v); v[0] = .5; one(v); v[(i % 7) + 1] += .25; one(v); }
}
