// C16 - square root of spinors.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;
using Sp = g3::Spinor;
using Bv = g3::BiVector;

void check(Ctx & cx, double const * v, double const * plane)
{
	Sp const s(K<Sp>::make(v));
	Sp const r(plane ? g3::sqrtG2(s, K<Bv>::make(plane)) : g3::sqrtG2(s));
	cx.did();
	double g[4];
	K<Sp>::get(r, g);
	cx.outcome(g, 4);
	ld const bm{ sqrtl(ld(v[1]) * v[1] + ld(v[2]) * v[2] + ld(v[3]) * v[3]) };
	ld const m{ sqrtl(ld(v[0]) * v[0] + bm * bm) };
	auto text = [&] { return "sqrtG2 of " + show(s) + (plane ? " with plane " + show(kB, plane) : std::string()) + "\n  got " + show(r); };
	bool bad{ false };
	for (int i = 0; i < 4; ++i) { bad = bad || v[i] != v[i]; }
	if (bad)
	{
		for (int i = 0; i < 4; ++i) { if (g[i] == g[i]) { cx.fail(text() + "\n  should be null"); } }
		return;
	}
	if (m == 0)
	{
		for (int i = 0; i < 4; ++i) { if (! (g[i] == 0.)) { cx.fail(text() + "\n  should be zero"); } }
		return;
	}
	double const pl[3]{ plane ? plane[0] : 1., plane ? plane[1] : 0., plane ? plane[2] : 0. };
	ld const pm{ sqrtl(ld(pl[0]) * pl[0] + ld(pl[1]) * pl[1] + ld(pl[2]) * pl[2]) };
	bool const edge{ bm < 1e-7L * m };
	if (edge && v[0] < 0 && ! (pm == 0 || (pm > 1e-150L && pm < 1e150L)))
	{
		// a plane without a direction may serve no half turn
		if (bm == 0 && ! (pm < 1e300L)) { bool ok{ true }; for (int i = 0; i < 4; ++i) { ok = ok && std::isfinite(g[i]); } if (ok) { cx.fail(text() + "\n  the plane has no direction: the root should not be valid"); } }
		return;
	}
	if (edge && v[0] < 0 && pm == 0)
	{
		if (bm == 0) { bool ok{ true }; for (int i = 0; i < 4; ++i) { ok = ok && g[i] == g[i]; } if (ok) { cx.fail(text() + "\n  no plane is known: the root should not be valid"); } }
		return;
	}
	ld const lt{ 64 * eps * (1 + fabsl(logl(m))) };
	// squares back
	M8 const q(toRef(r * r)), x(toRef(s));
	cx.did();
	cx.trace();
	for (int i = 0; i < 8; ++i) { if (! near(q.c[i], x.c[i], m * ((edge ? 2e-7L : 0.L) + lt))) { cx.fail(text() + "\n  its square " + ref::str(q) + " is not the argument"); } }
	// principal: half the angle, which is at most a half turn
	ld const half{ atan2l(bm, v[0]) / 2 }, rm{ sqrtl(m) };
	ld const tol{ rm * ((edge ? 2e-7L : 0.L) + lt) };
	if (! near(g[0], rm * cosl(half), tol)) { cx.fail(text() + mc::fmt("\n  scalar grade should be %.17Lg", rm * cosl(half))); }
	if (g[0] < -tol) { cx.fail(text() + "\n  negative scalar grade"); }
	for (int i = 0; i < 3; ++i)
	{
		ld w;
		if (! edge) { w = rm * sinl(half) * v[i + 1] / bm; }
		else if (bm == 0 && v[0] < 0) { w = rm * pl[i] / pm; }
		else if (bm == 0) { w = 0; }
		else { continue; }
		if (! near(g[i + 1], w, tol)) { cx.fail(text() + mc::fmt("\n  bivector component %d should be %.17Lg", i, w)); }
	}
	// the root of the root squares to the root; four of them make the argument
	Sp const rr(plane ? g3::sqrtG2(r, K<Bv>::make(plane)) : g3::sqrtG2(r));
	if (rm > 1e-14L)
	{
		M8 const f(toRef(rr * rr * rr * rr));
		cx.did(4);
		cx.trace();
		for (int i = 0; i < 8; ++i) { if (! near(f.c[i], x.c[i], m * (4e-7L * (edge ? 2 : 0) + 8 * lt))) { cx.fail(text() + "\n  the fourth power of its root " + ref::str(f) + " is not the argument"); } }
	}
}
//! sqrtG2(a*reverse(b)) turns b halfway to a (interpolation of orientations)
void halfway(Ctx & cx, double t1, double t2, double const * ax)
{
	Bv const h1(Bv{ t1 * ax[0], t1 * ax[1], t1 * ax[2] }), h2(Bv{ t2 * ax[0], t2 * ax[1], t2 * ax[2] }), hm(Bv{ .5 * (t1 + t2) * ax[0], .5 * (t1 + t2) * ax[1], .5 * (t1 + t2) * ax[2] });
	if (fabs(t1 - t2) > 3.14) { return; }
	Sp const a(g3::exp(h1)), b(g3::exp(h2)), w(g3::exp(hm));
	M8 const got(toRef(g3::sqrtG2(a * g3::reverse(b)) * b)), want(toRef(w));
	cx.did(7);
	cx.trace();
	for (int i = 0; i < 8; ++i) { if (! near(got.c[i], want.c[i], 2e-7L)) { cx.fail(mc::fmt("halfway between the angles %g and %g: got ", t1, t2) + ref::str(got) + "\n  not " + ref::str(want)); } }
}
//! a plane, the same the other way round, and the first again
void opposed(Ctx & cx, double const * v, double const * plane)
{
	double const other[3]{ -plane[0], -plane[1], -plane[2] };
	check(cx, v, plane);
	check(cx, v, other);
	check(cx, v, plane);
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	history::explore2<g3::Spinor, g3::BiVector>(cx, "square root and plane", [](auto && x, auto && p) -> decltype(auto) { return g3::sqrtG2(HELD(x), HELD(p)); });
	history::explore<g3::Spinor>(cx, "square root", [](auto && x) -> decltype(auto) { return g3::sqrtG2(HELD(x)); });
	auto one = [&](double const * v) { if (cx.next()) { check(cx, v, nullptr); if (cx.sampleNow()) { cx.sample("sqrtG2 of " + show(kSpin, v)); } } };
	words(4, intAlphabet(4, th ? 1e7 : 1e5), one);
	std::vector<double> mags(decades(-140, 140));
	for (double x : { 2e-15, 1e-14, 1e-9, 1e-5, 0.01, 0.5, 0.9, 1., 1.1, 3., 1e3, 1e8 }) { mags.push_back(x); }
	std::vector<double> keep;
	for (double x : mags) { if (x > 1.5e-15) { keep.push_back(x); } }
	scaled(4, keep, { -1, -0.3, 0, 0.3, 1 }, [&](double const * v) { double q{ 0 }; for (int i = 0; i < 4; ++i) { q += fabs(v[i]); } if (q == 0 || q > 4e-15) { one(v); } });
	std::vector<double> an;
	for (int k = 0; k <= 48; ++k) { an.push_back(M_PI * k / 48.); }
	for (double d : { 1e-3, 1e-5, 1e-6, 5e-7, 2e-7, 1.2e-7, 9e-8, 3e-8, 1e-8, 1e-9, 1e-12, 1e-15 }) { an.push_back(d); an.push_back(M_PI - d); an.push_back(M_PI_2 + d); an.push_back(M_PI_2 - d); }
	std::vector<std::vector<double>> axes{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, -1 }, { .6, .8, 0 }, { 0, .6, -.8 }, { 1/3., 2/3., -2/3. }, { -2/3., 1/3., 2/3. } };
	std::vector<std::vector<double>> const planes{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 2 }, { -3, 0, 4 }, { 1e-9, 1e-9, 0 }, { 0, 0, 0 }, { inf, 0, 0 }, { 0, qnan, 1 }, { qnan, qnan, qnan }, { 1e-200, 0, 3e-200 }, { 0, -2e200, 1e200 }, { 5e-324, 0, 0 } };
	std::vector<std::vector<double>> const somePlanes{ { 0, 0, 2 }, { -3, 1, 4 } };
	for (double m : th ? decades(-13, 140, 3) : std::vector<double>{ 3e-13, 0.4, 1., 1.7e6, 1e60 }) for (double a : halfTurn(th ? 1440 : 480)) for (auto const & x : unitAxes())
	{
		double const v[4]{ m * cos(a), m * sin(a) * x[0], m * sin(a) * x[1], m * sin(a) * x[2] };
		one(v);
		for (auto const & p : somePlanes) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	for (double m : keep) for (double a : an) for (auto const & x : axes)
	{
		double v[4]{ m * cos(a), m * sin(a) * x[0], m * sin(a) * x[1], m * sin(a) * x[2] };
		one(v);
		for (auto const & p : planes) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	for (double m : keep) for (int sg = -1; sg <= 1; sg += 2)
	{
		double v[4]{ sg * m, 0, 0, 0 };
		one(v);
		for (auto const & p : planes) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	words(4, { qnan, 0., 1. }, one);
	// planes of every size and shape, which matter to negative numbers only
	for (std::size_t k = 0; k < 6 * unitAxes().size() && k < (th ? 400u : 24u); ++k)
	{
		double const g{ std::vector<double>{ 0.4, 1.9, M_PI, 3.1, 0., 1e-4 }[k % 6] }, m{ k % 4 == 0 ? 1. : k % 4 == 1 ? 2.6e3 : k % 4 == 2 ? 0.1 : 7e20 };
		auto const & x(unitAxes()[k / 6 * 5 % unitAxes().size()]);
		double const s{ g == M_PI ? 0. : m * sin(g) };
		double const v[4]{ m * (g == M_PI ? -1. : cos(g)), s * x[0], s * x[1], s * x[2] };
		sized(3, [&](double const * p) { if (cx.next()) { opposed(cx, v, p); } }, -140, 140, th ? 1 : 5);
		for (auto const & p : unitAxes()) { if (cx.next()) { opposed(cx, v, p.data()); } }
	}
	wholeOnes(4, [&](double const * v) { if (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3] > 1e-20) { one(v); } });
	ladder(4, [&](double const * v) { if (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3] > 1e-20) { one(v); } });
	double const zero[4]{};
	for (auto const & p : planes) { if (cx.next()) { opposed(cx, zero, p.data()); } }
	for (auto const & x : axes) { for (double a : an) { for (double b : an) { if (cx.next()) { halfway(cx, a, b, x.data()); } } } }
}
