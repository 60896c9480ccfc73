// C13 - exponentials of bivectors and spinors.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

void checkB(Ctx & cx, double const * v)
{
	g3::BiVector const b(K<g3::BiVector>::make(v));
	g3::Spinor const r(g3::exp(b));
	double g[4];
	K<g3::Spinor>::get(r, g);
	cx.did();
	cx.outcome(g, 4);
	ld const m{ sqrtl(ld(v[0]) * v[0] + ld(v[1]) * v[1] + ld(v[2]) * v[2]) };
	auto text = [&] { return "exp of " + show(b) + "\n  got " + show(r); };
	// about an axis the size is the component itself: no rounding of it excuses an error
	bool const axis{ (v[0] != 0) + (v[1] != 0) + (v[2] != 0) == 1 };
	ld const large{ axis ? (m < 1 ? m : 1.L) : m };
	ld const slack{ 8 * eps * (1 + large) };
	if (! near(g[0], cosl(m), slack)) { cx.fail(text() + mc::fmt("\n  scalar grade should be %.17Lg", cosl(m))); }
	ld const sc{ m < 1e-9L ? 1.L : sinl(m) / m };
	for (int i = 0; i < 3; ++i)
	{
		ld const w{ sc * v[i] };
		// relative to the component, but for what the rounding of a large angle can change
		ld const tol{ m == 0 ? 0.L : 16 * eps * fabsl(v[i]) / m * large + 1e-150L };
		if (! near(g[i + 1], w, tol)) { cx.fail(text() + mc::fmt("\n  bivector component %d should be %.17Lg", i, w)); }
	}
	// the series, where it is cheap to sum
	if (m < 20)
	{
		M8 const s(ref::exp(toRef(b)));
		M8 const q(toRef(r));
		for (int i = 0; i < 8; ++i) { if (! near(q.c[i], s.c[i], 1e-14L)) { cx.fail(text() + "\n  series " + ref::str(s)); } }
	}
	// unit rotor; exponential of the opposite is the reverse
	M8 const rr(toRef(r * g3::reverse(r)));
	M8 const n(toRef(g3::exp(-b))), rev(toRef(g3::reverse(r)));
	cx.did(4);
	cx.trace();
	for (int i = 0; i < 8; ++i)
	{
		if (! near(rr.c[i], i == 0 ? 1.L : 0.L, 32 * eps)) { cx.fail("exponential is no unit spinor: " + text() + "\n  r*reverse(r) = " + ref::str(rr)); }
		if (! near(n.c[i], rev.c[i], 4 * eps)) { cx.fail("exp(-B) is not reverse(exp(B)): " + text()); }
	}
}
void checkS(Ctx & cx, double const * v)
{
	g3::Spinor const a(K<g3::Spinor>::make(v));
	g3::Spinor const r(g3::exp(a));
	double g[4];
	K<g3::Spinor>::get(r, g);
	cx.did();
	cx.outcome(g, 4);
	ld const m{ sqrtl(ld(v[1]) * v[1] + ld(v[2]) * v[2] + ld(v[3]) * v[3]) };
	ld const e{ expl(v[0]) };
	ld const sc{ m < 1e-9L ? 1.L : sinl(m) / m };
	ld const tol{ e * eps * (32 + 4 * fabsl(v[0]) + 8 * m) + 1e-320L };
	for (int i = 0; i < 4; ++i)
	{
		ld const w{ i == 0 ? e * cosl(m) : e * sc * v[i] };
		ld const t{ i == 0 ? tol : e * eps * fabsl(v[i]) * (32 + 4 * fabsl(v[0]) + 8 * (m < 1 ? 1.L : m)) + 1e-150L * (1 + e) };
		if (! near(g[i], w, t)) { cx.fail("exp of " + show(a) + "\n  got " + show(r) + mc::fmt("\n  component %d should be %.17Lg", i, w)); }
	}
}
//! Steps in one plane add their angles: exp(xB)exp(yB) == exp((x+y)B)
void steps(Ctx & cx, double const * dir, double x, double y, double z)
{
	double u[3], v[3], w[3], s[3];
	for (int i = 0; i < 3; ++i) { u[i] = x * dir[i]; v[i] = y * dir[i]; w[i] = z * dir[i]; s[i] = (x + y + z) * dir[i]; }
	g3::BiVector const a(K<g3::BiVector>::make(u)), b(K<g3::BiVector>::make(v)), c(K<g3::BiVector>::make(w)), all(K<g3::BiVector>::make(s));
	M8 const l(toRef(g3::exp(a) * g3::exp(b) * g3::exp(c))), r(toRef(g3::exp(all)));
	cx.did(6);
	cx.trace();
	ld const t{ 128 * eps * (1 + (fabs(x) + fabs(y) + fabs(z)) * 5) };
	for (int i = 0; i < 8; ++i) { if (! near(l.c[i], r.c[i], t)) { cx.fail(mc::fmt("exp(xB)*exp(yB)*exp(zB) is not exp((x+y+z)B) for x = %g, y = %g, z = %g, B = ", x, y, z) + show(kB, dir)); } }
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	using namespace num;
	history::explore<g3::BiVector>(cx, "exponential", [](auto && x) -> decltype(auto) { return g3::exp(HELD(x)); });
	history::explore<g3::Spinor>(cx, "exponential", [](auto && x) -> decltype(auto) { return g3::exp(HELD(x)); });
	auto oneB = [&](double const * v) { if (cx.next()) { checkB(cx, v); if (cx.sampleNow()) { cx.sample("exp of " + show(kB, v)); } } };
	auto oneS = [&](double const * v) { if (cx.next()) { checkS(cx, v); } };
	std::vector<double> mags(decades(-300, 4));
	for (double const & x : { 1e-8, 1.4e-8, 2e-8, 1e-7, 1e-4, 3e-4, 0.9e-3, 1.1e-3, 0.0099, 0.011, 0.1, 0.5, 1., 2., 3., 3.14, 3.15, 6.28, 6.29, 10., 50., 1000. }) { mags.push_back(x); }
	std::vector<double> const al3{ -1, -0.7, -0.25, 0, 0.25, 0.6, 1 };
	scaled(3, mags, al3, oneB);
	// multiples of an eighth turn about every listed axis
	for (auto const & p : patterns()) for (int k = -64; k <= 64; ++k)
	{
		double v[3];
		double const len{ std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) };
		for (int i = 0; i < 3; ++i) { v[i] = k * .125 * M_PI * p[i] / len; }
		oneB(v);
	}
	for (int i = 0; i < 3; ++i) for (int k = -256; k <= 256; ++k) { double v[3]{}; v[i] = k * .0625 * M_PI; oneB(v); }
	words(3, intAlphabet(3, th ? 1e6 : 1e5), oneB);
	mixed(3, 3, { 1e-200, 1e-20, 1e-9, 3e-8, 1e-5, 1e-3, 0.3, 1., 3., 100. }, oneB);
	// spinors
	std::vector<double> ss{ 0., 1e-20, 1e-9, 1e-4, 0.01, 0.1, 0.5, 1., 1.5, 2., 5., 20., 100., 600. };
	for (std::size_t i = 0; i < ss.size(); ++i) for (int sg = -1; sg <= 1; sg += 2)
	{
		scaled(3, th ? mags : decades(-30, 3), al3, [&](double const * v)
		{
			double const w[4]{ sg * ss[i], v[0], v[1], v[2] };
			oneS(w);
		});
		double const w[4]{ sg * ss[i], 0, 0, 0 };
		oneS(w);
	}
	// growth and decay to the ends of the range of numbers, and beyond the lower
	for (double g : { -1e300, -1e9, -1000., -800., -746., -745.2, -745.1, -745., -740., -720., -709., -708.5, -708.3, -708., -690., 690., 705., 709., 709.5 })
	{
		scaled(3, { 0., 1e-30, 1e-4, 0.5, 1., 3. }, al3, [&](double const * v)
		{
			double const w[4]{ g, v[0], v[1], v[2] };
			oneS(w);
		});
	}
	words(4, { -2, -1, -.5, 0, .3, 1, 3 }, oneS);
	words(4, intAlphabet(4, th ? 1e6 : 1e5), oneS);
	ladder(3, oneB);
	ladder(3, [&](double const * v) { double w[3]; for (int i = 0; i < 3; ++i) { w[i] = M_PI * v[i]; } oneB(w); for (int i = 0; i < 3; ++i) { w[i] *= .5; } oneB(w); });
	ladder(4, oneS);
	// many turns about an axis
	for (int i = 0; i < 3; ++i) for (double x{ 1.1 }; x < 1e15; x *= th ? 1.003 : 1.03) for (double const & y : { x, -x, std::floor(x) * M_PI }) { double v[3]{}; v[i] = y; oneB(v); }
	for (auto const & x : unitAxes()) for (double a : halfTurn(th ? 1440 : 480)) for (double turn : { 0., M_PI, -M_PI, 7 * M_PI, -200 * M_PI })
	{
		double const b{ a + turn };
		double const v[3]{ b * x[0], b * x[1], b * x[2] };
		oneB(v);
		for (double s : { 0., -0.7, 13. })
		{
			double const w[4]{ s, v[0], v[1], v[2] };
			oneS(w);
		}
	}
	// sequences
	std::vector<double> const xs{ 0, 1e-9, 1e-3, 0.1, 0.7, 1.5707963267948966, 3.141592653589793, -0.4, -2.3, 6.5, -1e-6 };
	for (auto const & p : patterns()) { words(3, xs, [&](double const * v) { if (cx.next()) { steps(cx, p.data(), v[0], v[1], v[2]); } }); }
	for (int i = 0; i < 3; ++i) { double d[3]{}; d[i] = 1.; words(3, xs, [&](double const * v) { if (cx.next()) { steps(cx, d, v[0], v[1], v[2]); } }); }
}
