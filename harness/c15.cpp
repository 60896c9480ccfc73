// C15 - logarithm of spinors.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;
using Sp = g3::Spinor;
using Bv = g3::BiVector;

void check(Ctx & cx, double const * v, double const * plane)
{
	Sp const s(K<Sp>::make(v));
	Sp const r(plane ? g3::logG2(s, K<Bv>::make(plane)) : g3::logG2(s));
	cx.did();
	double g[4];
	K<Sp>::get(r, g);
	cx.outcome(g, 4);
	ld const bm{ sqrtl(ld(v[1]) * v[1] + ld(v[2]) * v[2] + ld(v[3]) * v[3]) };
	ld const m{ sqrtl(ld(v[0]) * v[0] + bm * bm) };
	auto text = [&] { return "logG2 of " + show(s) + (plane ? " with plane " + show(kB, plane) : std::string()) + "\n  got " + show(r); };
	bool bad{ false };
	for (int i = 0; i < 4; ++i) { bad = bad || v[i] != v[i]; }
	if (bad || m == 0)
	{
		for (int i = 0; i < 4; ++i) { if (g[i] == g[i]) { cx.fail(text() + "\n  should be null"); } }
		return;
	}
	ld const angle{ atan2l(bm, v[0]) };
	double const pl[3]{ plane ? plane[0] : 1., plane ? plane[1] : 0., plane ? plane[2] : 0. };
	ld const pm{ sqrtl(ld(pl[0]) * pl[0] + ld(pl[1]) * pl[1] + ld(pl[2]) * pl[2]) };
	// within 1e-7 of the real axis the plane may be dropped or replaced
	bool const edge{ bm < 1e-7L * m };
	if (! near(g[0], logl(m), 16 * eps * (1 + fabsl(logl(m))))) { cx.fail(text() + mc::fmt("\n  scalar grade should be %.17Lg", logl(m))); }
	ld const a{ sqrtl(ld(g[1]) * g[1] + ld(g[2]) * g[2] + ld(g[3]) * g[3]) };
	bool const usesPlane{ bm == 0 && v[0] < 0 };
	bool const plainPlane{ pm == 0 || (pm > 1e-150L && pm < 1e150L) };
	if (edge && v[0] < 0 && ! plainPlane)
	{
		// a plane without a direction may serve no half turn
		if (usesPlane && ! (pm < 1e300L)) { bool ok{ true }; for (int i = 0; i < 4; ++i) { ok = ok && std::isfinite(g[i]); } if (ok) { cx.fail(text() + "\n  the plane has no direction: the angle should not be valid"); } }
		return;
	}
	if (usesPlane && pm == 0)
	{
		for (int i = 1; i < 4; ++i) { if (g[i] == g[i]) { cx.fail(text() + "\n  no plane is known: the angle should be null"); } }
		return;
	}
	if (edge && v[0] < 0 && pm == 0) { return; }
	if (! near(a, angle, edge ? 2e-7L : 1e-13L + 64 * eps)) { cx.fail(text() + mc::fmt("\n  angle %.17Lg should be %.17Lg", a, angle)); }
	if (! edge)
	{
		// the rounding of the cosine hardly moves an angle taken from both grades
		for (int i = 0; i < 3; ++i) { ld const w{ angle / bm * v[i + 1] }; if (! near(g[i + 1], w, 64 * eps * (fabsl(w) + angle * eps))) { cx.fail(text() + mc::fmt("\n  bivector component %d should be %.17Lg", i, w)); } }
	}
	else if (usesPlane)
	{
		for (int i = 0; i < 3; ++i) { ld const w{ angle / pm * pl[i] }; if (! near(g[i + 1], w, 64 * eps * fabsl(w))) { cx.fail(text() + mc::fmt("\n  bivector component %d should be %.17Lg (a half turn in the plane given)", i, w)); } }
	}
	else if (bm == 0)
	{
		for (int i = 0; i < 3; ++i) { if (! (g[i + 1] == 0.)) { cx.fail(text() + "\n  a positive number has no angle"); } }
	}
	// exp(logG2(s)) == s
	Sp const back(g3::exp(r));
	cx.did();
	cx.trace();
	double b[4];
	K<Sp>::get(back, b);
	for (int i = 0; i < 4; ++i)
	{
		ld const tol{ m * ((edge ? 2e-7L : 0.L) + 64 * eps * (1 + fabsl(logl(m)))) };
		if (! near(b[i], v[i], tol)) { cx.fail(text() + "\n  its exponential " + show(back) + " is not the argument"); }
	}
}
//! logG2(exp(g)) == g for angles up to a half turn
void round(Ctx & cx, double const * v)
{
	Sp const g(K<Sp>::make(v));
	Sp const r(g3::logG2(g3::exp(g)));
	cx.did(2);
	cx.trace();
	ld const a{ sqrtl(ld(v[1]) * v[1] + ld(v[2]) * v[2] + ld(v[3]) * v[3]) };
	if (a > 3.14159L) { return; }
	double q[4];
	K<Sp>::get(r, q);
	for (int i = 0; i < 4; ++i)
	{
		ld const tol{ a < 2e-7L && i > 0 ? 2e-7L : 64 * eps * (1 + fabs(v[0])) + (M_PI - a < 1e-3L ? 1e-11L : 1e-13L) };
		if (! near(q[i], v[i], tol)) { cx.fail("logG2(exp(g)) is " + show(r) + " for g = " + show(g)); }
	}
}
//! a plane, the same the other way round, and the first again
void opposed(Ctx & cx, double const * v, double const * plane)
{
	double const other[3]{ -plane[0], -plane[1], -plane[2] };
	check(cx, v, plane);
	check(cx, v, other);
	check(cx, v, plane);
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	history::explore2<g3::Spinor, g3::BiVector>(cx, "logarithm and plane", [](auto && x, auto && p) -> decltype(auto) { return g3::logG2(HELD(x), HELD(p)); });
	history::explore<g3::Spinor>(cx, "logarithm", [](auto && x) -> decltype(auto) { return g3::logG2(HELD(x)); });
	auto one = [&](double const * v) { if (cx.next()) { check(cx, v, nullptr); if (cx.sampleNow()) { cx.sample("logG2 of " + show(kSpin, v)); } } };
	words(4, intAlphabet(4, th ? 1e7 : 1e5), one);
	std::vector<double> mags(decades(-140, 140));
	for (double x : { 1e-14, 1e-9, 1e-5, 0.01, 0.5, 0.9, 1., 1.1, 3., 1e3, 1e8 }) { mags.push_back(x); }
	std::vector<double> keep;
	for (double x : mags) { if (x > 1e-14) { keep.push_back(x); } }
	scaled(4, keep, { -1, -0.3, 0, 0.3, 1 }, one);
	scaled(4, keep, { -2.5, -1, -0.7, -0.01, 0, 0.01, 0.7, 1, 2.5 }, [&](double const * v) { double q{ 0 }; for (int i = 0; i < 4; ++i) { q += fabs(v[i]); } if (q == 0 || q > 4e-15) { one(v); } });
	// angles: all multiples of a 48th turn and near the real axis, about every pattern axis, at every scale
	std::vector<double> an;
	for (int k = 0; k <= 48; ++k) { an.push_back(M_PI * k / 48.); }
	for (double d : { 1e-3, 1e-5, 1e-6, 5e-7, 2e-7, 1.2e-7, 9e-8, 3e-8, 1e-8, 1e-9, 1e-12, 1e-15 }) { an.push_back(d); an.push_back(M_PI - d); an.push_back(M_PI_2 + d); an.push_back(M_PI_2 - d); }
	std::vector<std::vector<double>> axes{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, -1 }, { .6, .8, 0 }, { 0, .6, -.8 }, { 1/3., 2/3., -2/3. }, { -2/3., 1/3., 2/3. } };
	std::vector<std::vector<double>> const planes{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 2 }, { -3, 0, 4 }, { 1e-9, 1e-9, 0 }, { 0, 0, 0 }, { inf, 0, 0 }, { 0, qnan, 1 }, { qnan, qnan, qnan }, { 1e-200, 0, 3e-200 }, { 0, -2e200, 1e200 }, { 5e-324, 0, 0 } };
	std::vector<std::vector<double>> const somePlanes{ { 0, 0, 2 }, { -3, 1, 4 } };
	for (double m : th ? decades(-13, 140, 3) : std::vector<double>{ 3e-13, 0.4, 1., 1.7e6, 1e60 }) for (double a : halfTurn(th ? 1440 : 480)) for (auto const & x : unitAxes())
	{
		double const v[4]{ m * cos(a), m * sin(a) * x[0], m * sin(a) * x[1], m * sin(a) * x[2] };
		one(v);
		for (auto const & p : somePlanes) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	for (double m : keep) for (double a : an) for (auto const & x : axes)
	{
		double v[4]{ m * cos(a), m * sin(a) * x[0], m * sin(a) * x[1], m * sin(a) * x[2] };
		one(v);
		for (auto const & p : planes) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	// real numbers of either sign with every plane
	for (double m : keep) for (int sg = -1; sg <= 1; sg += 2)
	{
		double v[4]{ sg * m, 0, 0, 0 };
		one(v);
		for (auto const & p : planes) { if (cx.next()) { opposed(cx, v, p.data()); } }
		v[1] = v[2] = v[3] = -0.;
		one(v);
	}
	words(4, { qnan, 0., 1. }, one);
	// planes of every size and shape, which matter to negative numbers only
	for (std::size_t k = 0; k < 6 * unitAxes().size() && k < (th ? 400u : 24u); ++k)
	{
		double const g{ std::vector<double>{ 0.4, 1.9, M_PI, 3.1, 0., 1e-4 }[k % 6] }, m{ k % 4 == 0 ? 1. : k % 4 == 1 ? 2.6e3 : k % 4 == 2 ? 0.1 : 7e20 };
		auto const & x(unitAxes()[k / 6 * 5 % unitAxes().size()]);
		double const s{ g == M_PI ? 0. : m * sin(g) };
		double const v[4]{ m * (g == M_PI ? -1. : cos(g)), s * x[0], s * x[1], s * x[2] };
		sized(3, [&](double const * p) { if (cx.next()) { opposed(cx, v, p); } }, -140, 140, th ? 1 : 5);
		for (auto const & p : unitAxes()) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	wholeOnes(4, [&](double const * v) { if (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3] > 1e-20) { one(v); } });
	ladder(4, [&](double const * v) { if (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3] > 1e-20) { one(v); } });
	// generalized angles
	for (double s : { 0., -12., 3.3, 50. }) for (double a : halfTurn(th ? 1440 : 480)) for (auto const & x : unitAxes())
	{
		double const v[4]{ s, a * x[0], a * x[1], a * x[2] };
		if (cx.next()) { round(cx, v); }
	}
	for (double s : { 0., -20., 20., 1., -1., 0.3, 100., -30. }) for (double a : an) for (auto const & x : axes)
	{
		double v[4]{ s, a * x[0], a * x[1], a * x[2] };
		if (cx.next()) { round(cx, v); }
	}
}
