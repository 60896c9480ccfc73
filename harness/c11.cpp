// C11 - approximate comparison.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

bool good(double x) { return x == 0. || (x == x && fabs(x) <= 1.7976931348623157e308 && fabs(x) >= 2.2250738585072014e-308); }
std::vector<std::pair<int, int>> gradesOf(int kind)
{
	// component ranges of the grades
	switch (kind)
	{
		case kV: case kB: return { { 0, 3 } };
		case kSpin: return { { 0, 1 }, { 1, 4 } };
		case kImsp: return { { 0, 3 }, { 3, 4 } };
		case kCplx: return { { 0, 1 }, { 1, 2 } };
		case kDplx: return { { 0, 3 }, { 3, 6 } };
		case kMV: return { { 0, 1 }, { 1, 4 }, { 4, 7 }, { 7, 8 } };
		default: return { { 0, 1 } };
	}
}
enum { no, yes, unsure };

//! Judgement of one grade: -1 tolerance means strict comparison always fails
int grade(double const * t, double const * r, int n, double tol)
{
	ld d2{ 0 }, r2{ 0 }, dmax{ 0 };
	for (int i = 0; i < n; ++i)
	{
		ld const d{ ld(t[i]) - r[i] };
		d2 += d * d;
		r2 += ld(r[i]) * r[i];
		dmax = std::max(dmax, fabsl(d));
	}
	if (! (tol > 0.)) { return no; }
	bool zero{ r2 == 0 };
	ld const m{ zero ? dmax : sqrtl(d2 / r2) };
	if (! zero && r2 < 1e-270L) { return unsure; } // near the change from relative to absolute
	if (r2 > 1e300L || d2 > 1e300L) { return unsure; }
	ld const guard{ zero ? 0.L : 4 * eps + 1e-13L * m };
	if (m == 0) { return yes; }
	if (zero) { return m < tol ? yes : no; }
	if (m + guard < tol) { return yes; }
	if (m - guard > tol) { return no; }
	return unsure;
}

template <class A> void check(Ctx & cx, double const * t, double const * r, double tol, bool useDefault)
{
	A const a(K<A>::make(t)), b(K<A>::make(r));
	bool valid{ true };
	for (int i = 0; i < K<A>::n; ++i) { valid = valid && good(t[i]) && good(r[i]); }
	int want{ yes };
	if (! valid) { want = no; }
	else
	{
		for (auto const & g : gradesOf(K<A>::id))
		{
			int const w{ grade(t + g.first, r + g.first, g.second - g.first, tol) };
			if (w == no) { want = no; break; }
			if (w == unsure) { want = unsure; }
		}
	}
	bool const got{ useDefault ? g3::nearlyEquals(a, b) : g3::nearlyEquals(a, b, tol) };
	cx.did();
	if (useDefault)
	{
		bool const other{ g3::nearlyEquals(a, b, eps) };
		cx.did();
		cx.trace();
		if (got != other) { cx.fail(mc::fmt("without tolerance %d, with tolerance epsilon %d\n  test %s\n  ref  %s", int(got), int(other), show(a).c_str(), show(b).c_str())); }
	}
	// one object as both, at every tolerance
	{
		bool fine{ true };
		for (int i = 0; i < K<A>::n; ++i) { fine = fine && good(r[i]); }
		for (double const & z : { tol, 0., -0., -tol })
		{
			bool const twice{ g3::nearlyEquals(b, b, z) };
			cx.did();
			if (twice != (fine && z > 0.)) { cx.fail(mc::fmt("nearlyEquals of one object with itself is %d, tolerance %.17g: ", int(twice), z) + show(b)); }
		}
	}
	if (want == unsure) { cx.info["not judged: within rounding of the threshold"]++; return; }
	cx.outcome(want * 2 + got);
	if (got != (want == yes))
	{
		cx.fail(mc::fmt("nearlyEquals is %s%s, tolerance %.17g\n  test %s\n  ref  %s", got ? "true" : "false", useDefault ? " (default tolerance)" : "", tol, show(a).c_str(), show(b).c_str()));
	}
}

//! Exactly representable situations at the threshold: strictly smaller only
template <class A> void boundary(Ctx & cx)
{
	int const n{ K<A>::n };
	for (auto const & g : gradesOf(K<A>::id))
	for (int i = g.first; i < g.second; ++i)
	for (int j = g.first; j < g.second; ++j)
	for (int e = -12; e <= 12; e += 4)
	for (int te = -8; te <= 1; ++te)
	for (int sgn = 0; sgn < 4; ++sgn)
	for (int zeroRef = 0; zeroRef < 2; ++zeroRef)
	{
		if (! cx.next()) { continue; }
		double r[8]{}, t[8]{};
		double const tol{ std::ldexp(1., te) };
		double const s{ std::ldexp(sgn & 1 ? 1. : -1., e) };
		// other grades: equal and nonzero
		for (int k = 0; k < n; ++k) { if (k < g.first || k >= g.second) { r[k] = t[k] = 1.5 + k; } }
		if (! zeroRef) { r[i] = t[i] = s; }
		double const d{ (zeroRef ? tol : tol * std::fabs(s)) * (sgn & 2 ? 1. : -1.) };
		t[j] += d;
		A const a(K<A>::make(t)), b(K<A>::make(r));
		bool const at{ g3::nearlyEquals(a, b, tol) };
		bool const above{ g3::nearlyEquals(a, b, tol * (1 + 1. / 1024)) };
		bool const below{ g3::nearlyEquals(a, b, tol * (1 - 1. / 1024)) };
		cx.did(3);
		cx.trace();
		if (at || ! above || below)
		{
			cx.fail(mc::fmt("difference of exactly the tolerance %.17g: nearlyEquals %d, with a larger tolerance %d, with a smaller one %d\n  test %s\n  ref  %s", tol, int(at), int(above), int(below), show(a).c_str(), show(b).c_str()));
		}
	}
}
//! arrays of any length judge like a grade of that many components
template <std::size_t N> void arrays(Ctx & cx)
{
	auto judge = [&](double const * t, double const * r)
	{
		if (! cx.next()) { return; }
		std::array<double, N> a, b;
		bool valid{ true };
		for (std::size_t i = 0; i < N; ++i) { a[i] = t[i]; b[i] = r[i]; valid = valid && good(t[i]) && good(r[i]); }
		for (double const & tol : { eps, 1e-12, 1e-6, 0.125, 1., 0., -1., qnan })
		{
			int const w{ valid ? grade(t, r, N, tol) : int(no) };
			bool const got{ g3::nearlyEquals(a, b, tol) };
			cx.did();
			auto text = [&] { std::string m; for (std::size_t i = 0; i < N; ++i) { m += mc::fmt(" %.17g/%.17g", t[i], r[i]); } return m; };
			if (w != unsure && got != (w == yes)) { cx.fail(mc::fmt("nearlyEquals of arrays of %zu is %d, tolerance %.17g, test/reference", N, int(got), tol) + text()); }
			if (tol == eps && got != g3::nearlyEquals(a, b)) { cx.fail("nearlyEquals of arrays without tolerance differs from that with epsilon, test/reference" + text()); }
		}
	};
	for (auto const & p : patterns()) for (double const & s : { 0., 1., 3e-9, 7e12, 2e130 })
	{
		double t[N], r[N];
		for (std::size_t i = 0; i < N; ++i) { r[i] = p[i] * s; }
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = i; j < N; ++j) for (double const & d : { 0., 1e-17, 8 * eps, -8 * eps, 1e-13, -1e-9, 1e-6, 0.01, 0.15, -1., -2., 20., qnan, inf, 1e-310 })
		{
			for (std::size_t k = 0; k < N; ++k) { t[k] = r[k]; }
			for (std::size_t const & k : { i, j }) { t[k] = d != d || d > 1e9 ? d : s == 0. ? d : d == 1e-310 ? d : r[k] + r[k] * d; }
			judge(t, r);
			judge(r, t);
			judge(t, t);
		}
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	double const sub{ std::numeric_limits<double>::denorm_min() };
	std::vector<double> const tols{ eps, 1e-12, 1e-6, 0.125, 0.5, 1., 10., 0., -1., qnan, 1e-300, 1e300, inf, -inf, 5e-324 };
	std::vector<double> const rel{ 0., 1e-17, 8 * eps, -8 * eps, 1e-13, 3e-12, -1e-9, 1e-6, 3e-6, 0.01, 0.11, 0.15, -0.4, -0.6, -1., -2., 1.2, 20. };
	forKinds(AllKinds{}, [&](auto ty)
	{
		using A = TY(ty);
		int const n{ K<A>::n };
		boundary<A>(cx);
		history::explore2<A, A>(cx, std::string("near equality of ") + K<A>::name(), [](auto && x, auto && y) -> decltype(auto) { return g3::nearlyEquals(HELD(x), HELD(y)); });
		history::explore2<A, A>(cx, std::string("near equality of ") + K<A>::name(), [](auto && x, auto && y) -> decltype(auto) { return g3::nearlyEquals(HELD(x), HELD(y), 0.75); });
		auto all = [&](double const * t, double const * r)
		{
			for (double const & tol : tols) { if (cx.next()) { check<A>(cx, t, r, tol, false); } }
			if (cx.next()) { check<A>(cx, t, r, eps, true); if (cx.sampleNow()) { cx.sample("nearlyEquals " + show(K<A>::id, t) + " / " + show(K<A>::id, r)); } }
		};
		// perturb no more than two (three) components of reference patterns of any scale
		std::vector<std::vector<double>> refs{ std::vector<double>(8, 0.) };
		for (auto const & p : patterns()) for (double const & s : { 1., 1e-100, 3e-9, 7e12, 2e130 })
		{
			refs.push_back(p);
			for (double & x : refs.back()) { x *= s; }
			for (unsigned hole = 1; hole < (1u << n); hole = th ? hole + 1 : hole * 2 + 1)
			{
				refs.push_back(refs[refs.size() - 1]);
				for (int i = 0; i < n; ++i) { if (hole >> i & 1u) { refs.back()[i] = 0.; } }
				if (! th && s != 1.) { break; }
			}
		}
		double const none[8]{};
		for (auto const & r : refs)
		{
			sparse(n, 2, none, rel, [&](double const * d)
			{
				double t[8];
				for (int i = 0; i < n; ++i) { t[i] = r[i] == 0. ? d[i] : r[i] + r[i] * d[i]; }
				all(t, r.data());
			});
			if (! th && r[0] == 0. && n > 3) { continue; }
			// unlike grades: whole grades scaled
			words(int(gradesOf(K<A>::id).size()), { 0., 3e-14, 1e-7, 0.2, -2. }, [&](double const * d)
			{
				double t[8];
				std::size_t g{ 0 };
				for (auto const & gr : gradesOf(K<A>::id)) { for (int i = gr.first; i < gr.second; ++i) { t[i] = r[i] + r[i] * d[g]; } ++g; }
				all(t, r.data());
			});
		}
		// references of every size and near every special place, and pairs of unlike sizes
		auto some = [&](double const * t, double const * r)
		{
			if (! cx.next()) { return; }
			for (double const & tol : { eps, 1e-12, 1e-6, 0.125, 2. }) { check<A>(cx, t, r, tol, false); }
		};
		auto around = [&](double const * r)
		{
			double t[8];
			for (double const & d : { 0., 8 * eps, -3e-9, 0.01, -0.5 })
			{
				for (int i = 0; i < n; ++i) { t[i] = r[i] == 0. ? 0. : r[i] + r[i] * d; }
				some(t, r);
				if (d != 0.) { some(r, t); }
			}
		};
		ladder(n, around, th ? 1 : 2);
		sized(n, around);
		for (auto const & x : unitAxes()) for (auto const & y : unitAxes())
		{
			double r[8];
			for (int i = 0; i < n; ++i) { r[i] = i < 3 ? x[i] : i < 6 ? y[i - 3] : y[i - 6] * 0.5; }
			around(r);
		}
		sizedPairs(n, n, [&](double const * v) { some(v, v + n); });
		nearPairs(n, [&](double const * v) { some(v, v + n); }, -300, 300, th ? 25 : 100);
		// invalid components on either side, also the same on both
		std::vector<double> const odd{ qnan, inf, -inf, sub, 1e308 };
		double w[16];
		for (int i = 0; i < 16; ++i) { w[i] = patterns()[1][i % std::max(n, 1)]; }
		sparse(2 * n, 2, w, odd, [&](double const * v) { all(v, v + n); });
		sparse(2 * n, 2, zeros24, odd, [&](double const * v) { all(v, v + n); });
		// small integers
		std::vector<double> const al(intAlphabet(2 * n, th ? 5e6 : 2e5));
		if (std::pow(double(al.size()), 2 * n) <= (th ? 5e6 : 2e5)) { words(2 * n, al, [&](double const * v) { all(v, v + n); }); }
	});
	// plain value functions
	std::vector<double> const xs{ 0., -0., 1., -1., 1.5, 1. + 8 * eps, 2., 1e-9, -1e-9, 1e-3, 1e100, 1.125, -0.875, qnan, inf, -inf, sub, 1e-310, 3e-200 };
	words(2, xs, [&](double const * v)
	{
		for (double const & tol : tols)
		{
			if (! cx.next()) { continue; }
			cx.did(6);
			double const d{ std::fabs(v[0] - v[1]) };
			bool const ok{ good(v[0]) && good(v[1]) };
			auto bad = [&](char const * f) { cx.fail(mc::fmt("%s(%.17g, %.17g) with tolerance %.17g", f, v[0], v[1], tol)); };
			if (g3::isSmallAbs(v[0], tol) != (std::fabs(v[0]) < tol)) { bad("isSmallAbs"); }
			if (g3::isSmallAbsDiff(v[0], v[1], tol) != (d < tol)) { bad("isSmallAbsDiff"); }
			if (g3::nearlyEqualsAbs(v[0], v[1], tol) != (ok && d < tol)) { bad("nearlyEqualsAbs"); }
			if (g3::nearlyEqualsAbs(v[0], v[1]) != g3::nearlyEqualsAbs(v[0], v[1], eps)) { bad("nearlyEqualsAbs (default)"); }
			// one object as both
			double const & x{ v[0] };
			cx.did(4);
			if (g3::isSmallAbsDiff(x, x, tol) != (x - x < tol)) { bad("(one object twice) isSmallAbsDiff"); }
			if (g3::nearlyEqualsAbs(x, x, tol) != (good(x) && 0. < tol)) { bad("(one object twice) nearlyEqualsAbs"); }
			if (g3::nearlyEqualsRel(x, x, tol) != (good(x) && 0. < tol)) { bad("(one object twice) nearlyEqualsRel"); }
			if (g3::isSmallAbs(x, x) != (std::fabs(x) < x)) { bad("(one object as value and tolerance) isSmallAbs"); }
			if (g3::nearlyEqualsRel(v[0], v[1]) != g3::nearlyEqualsRel(v[0], v[1], eps)) { bad("nearlyEqualsRel (default)"); }
			int const w{ ok ? grade(v, v + 1, 1, tol) : int(no) };
			if (w != unsure && g3::nearlyEqualsRel(v[0], v[1], tol) != (w == yes)) { bad("nearlyEqualsRel"); }
		}
	});
	for (int p = 0; p < 4; ++p)
	{
		if (! cx.next()) { continue; }
		bool const x{ (p & 1) != 0 }, y{ (p & 2) != 0 };
		cx.did();
		if (g3::nearlyEquals(x, y) != (x == y)) { cx.fail(mc::fmt("nearlyEquals(%d, %d) of truth values", int(x), int(y))); }
	}
	arrays<1>(cx);
	arrays<2>(cx);
	arrays<3>(cx);
	arrays<4>(cx);
	arrays<5>(cx);
	arrays<8>(cx);
	// arrays judge like the grade they hold
	words(6, { 0., 1., -2., 1. + 1e-9 }, [&](double const * v)
	{
		for (double const & tol : { eps, 1e-6, 1e-12, 1. })
		{
			if (! cx.next()) { continue; }
			std::array<double, 3> const a{ v[0], v[1], v[2] }, b{ v[3], v[4], v[5] };
			cx.did();
			int const w{ grade(v, v + 3, 3, tol) };
			if (w != unsure && g3::nearlyEquals(a, b, tol) != (w == yes)) { cx.fail(mc::fmt("nearlyEquals of arrays %.17g %.17g %.17g / %.17g %.17g %.17g tolerance %.17g", v[0], v[1], v[2], v[3], v[4], v[5], tol)); }
		}
	});
}
