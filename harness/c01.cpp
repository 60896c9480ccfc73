// C01 - geometric product of every ordered pair of kinds.
#include "num.hpp"

namespace
{
using mc::Ctx;

std::vector<double> const wide
	{ 1., -1., 1./3., -0.1, 3.7e-9, -7.3e8, 1.1e-100, -1.3e100, 1.7e150, -1.9e-150 };
std::vector<double> const wideMore
	{ 1., -1., 2., 1./3., -0.1, 0.7071067811865476, 1e-5, -1e5, 3.7e-9, -7.3e8, 1e-17, 1e16
	, 1.1e-100, -1.3e100, 1.7e150, -1.9e-150, 2.2250738585072014e-308, 1e-300, -1e300, 4.94e-324 };

template <class A, class B>
struct Pair
{
	using R = decltype(std::declval<A const &>() * std::declval<B const &>());
	static constexpr int na{ K<A>::n }, nb{ K<B>::n };

	static std::string what(double const * a, double const * b, double const * got, ref::M8 const & exp)
	{
		return mc::fmt("product %s * %s\n  left  : %s\n  right : %s\n  got   : %s\n  model : %s\n"
			, K<A>::name(), K<B>::name(), show(K<A>::id, a).c_str(), show(K<B>::id, b).c_str()
			, show(K<R>::id, got).c_str(), ref::str(exp).c_str());
	}

	//! exact comparison, small integers
	static void exact(Ctx & cx, double const * a, double const * b)
	{
		R const r( K<A>::make(a) * K<B>::make(b) );
		cx.did();
		double got[8];
		K<R>::get(r, got);
		double exp[8]{ 0, 0, 0, 0, 0, 0, 0, 0 };
		for (int i = 0; i < na; ++i)
		{
			int const p{ K<A>::at(i) };
			for (int j = 0; j < nb; ++j)
			{
				int const q{ K<B>::at(j) };
				exp[ref::tab.to[p][q]] += ref::tab.sg[p][q] * a[i] * b[j];
			}
		}
		bool same{ true };
		for (int i = 0; i < K<R>::n; ++i)
		{
			int const p{ K<R>::at(i) };
			same = same && (got[i] == exp[p]);
			exp[p] = (got[i] == exp[p]) ? 0. : exp[p];
		}
		// nothing of the true product may be lost for lack of a grade
		if (same) { for (int i = 0; i < 8; ++i) { same = same && (exp[i] == 0.); } }
		cx.outcome(got, K<R>::n);
		if (! same)
		{
			cx.fail(what(a, b, got, ref::mul(toRef(K<A>::id, a), toRef(K<B>::id, b))));
		}
	}

	//! comparison within rounding, arbitrary finite values
	static void rounded(Ctx & cx, double const * a, double const * b)
	{
		ref::M8 const ra{ toRef(K<A>::id, a) }, rb{ toRef(K<B>::id, b) };
		ref::M8 const exp{ ref::mul(ra, rb) };
		ref::M8 const sum{ ref::mulAbs(ra, rb) };
		if (ref::maxAbs(sum) > 1e307L) { cx.info["cases outside the stated range (overflow), skipped"]++; return; }
		R const r( K<A>::make(a) * K<B>::make(b) );
		cx.did();
		double got[8];
		K<R>::get(r, got);
		bool same{ true };
		bool has[8]{ };
		for (int i = 0; i < K<R>::n; ++i)
		{
			int const p{ K<R>::at(i) };
			has[p] = true;
			ref::ld const tol{ 16.L * 1.2e-16L * sum.c[p] + (sum.c[p] > 0 ? 1e-307L : 0.L) };
			if (! (fabsl(got[i] - exp.c[p]) <= tol)) { same = false; }
		}
		for (int p = 0; p < 8; ++p) { if (! has[p] && sum.c[p] > 0) { same = false; } }
		cx.outcome(got, K<R>::n);
		if (! same) { cx.fail(what(a, b, got, exp)); }
	}

	//! infinite components: whatever they enter is not finite
	static void infinite(Ctx & cx, double const * a, double const * b)
	{
		R const r( K<A>::make(a) * K<B>::make(b) );
		cx.did();
		double got[8];
		K<R>::get(r, got);
		bool hit[8]{ };
		for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j)
		{
			if ((std::isinf(a[i]) || std::isinf(b[j])) && a[i] != 0. && b[j] != 0.) { hit[ref::tab.to[K<A>::at(i)][K<B>::at(j)]] = true; }
		}
		cx.trace();
		for (int i = 0; i < K<R>::n; ++i)
		{
			if (hit[K<R>::at(i)] && std::isfinite(got[i])) { cx.fail(what(a, b, got, ref::M8()) + mc::fmt("component %d has an infinite term but is finite", i)); }
		}
	}

	static void explorePair(Ctx & cx)
	{
		bool const thorough{ cx.thorough };
		// kind of the result
		if (cx.next())
		{
			int const want{ prodKind(K<A>::id, K<B>::id) };
			if (! K<R>::is || K<R>::id != want)
			{
				cx.fail(mc::fmt("product %s * %s gives kind %s, expected %s", K<A>::name(), K<B>::name(), kindName(K<R>::id), kindName(want)));
			}
			cx.info["ordered pairs of kinds"]++;
		}
		if constexpr (K<R>::is)
		{
		// 1. dense: every assignment of small integers to all components
		int const n{ na + nb };
		double const budget{ thorough ? 4e8 : (n == 16 ? 5e7 : 3e6) };
		words(n, intAlphabet(n, budget), [&](double const * v)
		{
			if (cx.next())
			{
				exact(cx, v, v + na);
				if (cx.sampleNow()) { cx.sample(show(K<A>::id, v) + " * " + show(K<B>::id, v + na)); }
			}
		});
		// 2. few nonzero components, values over the whole working range
		std::vector<double> const & w = thorough ? wideMore : wide;
		sparse(na, na + nb > 12 && ! thorough ? 1 : 2, zeros24, w, [&](double const * a)
		{
			sparse(nb, na + nb > 8 && ! thorough ? 1 : 2, zeros24, w, [&](double const * b)
			{
				if (cx.next()) { rounded(cx, a, b); }
			});
		});
		// 3. generic dense operands, scaled per grade, with sign changes
		double const ga[8]{ 0.31, -1.7, 2.3, 0.9, 1.0/3, -0.77, 1.9, -2.1 };
		double const gb[8]{ -1.3, 0.6, 1.0/7, -2.9, 3.1, 0.41, -0.57, 1.1 };
		std::vector<double> const sc
			( thorough ? std::vector<double>{ 0., 1e-140, 1e-16, 1e-8, 1., 1e3, 1e8, 1e17, 1e140 } : std::vector<double>{ 0., 1e-9, 1., 1e8, 1e140 } );
		unsigned const gr[4]{ 0, 1, 2, 3 };
		(void)gr;
		std::vector<int> gA, gB;
		for (int g = 0; g < 4; ++g)
		{
			if (K<A>::mask >> g & 1u) { gA.push_back(g); }
			if (K<B>::mask >> g & 1u) { gB.push_back(g); }
		}
		std::vector<double> const sc2( (gA.size() + gB.size() > 6) ? std::vector<double>{ 0., 1e-9, 1., 1e8 } : sc );
		words(static_cast<int>(gA.size() + gB.size()), sc2, [&](double const * s)
		{
			for (int flip = -1; flip < na; ++flip)
			{
				if (! cx.next()) { continue; }
				double a[8], b[8];
				for (int i = 0; i < na; ++i)
				{
					std::size_t k{ 0 };
					while (gA[k] != ref::gradeOf(K<A>::at(i))) { ++k; }
					a[i] = s[k] * ga[K<A>::at(i)] * (i == flip ? -1. : 1.);
				}
				for (int i = 0; i < nb; ++i)
				{
					std::size_t k{ 0 };
					while (gB[k] != ref::gradeOf(K<B>::at(i))) { ++k; }
					b[i] = s[gA.size() + k] * gb[K<B>::at(i)];
				}
				rounded(cx, a, b);
			}
		});
		// 3b. two terms of one component that cancel to every depth
		for (int i = 0; i < na; ++i) for (int k = 0; k < i; ++k) for (int j = 0; j < nb; ++j) for (int l = 0; l < nb; ++l)
		{
			int const pi{ K<A>::at(i) }, pk{ K<A>::at(k) }, qj{ K<B>::at(j) }, ql{ K<B>::at(l) };
			if (j == l || ref::tab.to[pi][qj] != ref::tab.to[pk][ql]) { continue; }
			for (int e = 0; e <= 53; ++e) for (int sg = 0; sg < 4; ++sg)
			{
				if (! cx.next()) { continue; }
				double a[8]{}, b[8]{};
				if (sg & 2) { for (int m = 0; m < na; ++m) { a[m] = ga[K<A>::at(m)] * 1e-3; } }
				a[i] = 1.;
				a[k] = 0.75;
				b[j] = 1.5;
				b[l] = -2. * ref::tab.sg[pi][qj] * ref::tab.sg[pk][ql] * (1. + (sg & 1 ? -1. : 1.) * std::ldexp(1., -e));
				rounded(cx, a, b);
			}
		}
		// 3c. operands at every distance from unit ones and from null-divisors
		double const ub[3][8]{ { 0.6, -0.8, 0.28, 0.96, 0.6, 0.36, 0.48, -0.8 }, { 0.5, 0.5, -0.5, 0.5, -0.5, 0.5, 0.5, 0.5 }, { 1., 0., 0., 0., 1., 0., 0., 0. } };
		num::ladder(na, [&](double const * a) { for (auto const & b : ub) { if (cx.next()) { rounded(cx, a, b); } } }, thorough ? 1 : 3);
		num::ladder(nb, [&](double const * b) { for (auto const & a : ub) { if (cx.next()) { rounded(cx, a, b); } } }, thorough ? 1 : 3);
		// 3e. operands of every pair of sizes
		num::sizedPairs(na, nb, [&](double const * v) { if (cx.next()) { rounded(cx, v, v + na); } }, -300, 300, thorough ? 10 : 25);
		if (K<A>::id == K<B>::id || (K<A>::id > kD && na == nb)) { num::nearPairs(na, [&](double const * v) { if (cx.next()) { rounded(cx, v, v + na); } }, -150, 150); }
		// 3d. infinite components
		for (int z = 0; z < 2; ++z)
		{
			double base[16]{ };
			if (! z) { for (int i = 0; i < na; ++i) { base[i] = ga[K<A>::at(i)]; } for (int i = 0; i < nb; ++i) { base[na + i] = gb[K<B>::at(i)]; } }
			sparse(na + nb, 2, base, { num::inf, -num::inf, 1e200, -3. }, [&](double const * v) { if (cx.next()) { infinite(cx, v, v + na); } });
		}
		// 4. related operands: equal, opposite, involuted, proportional
		if (K<A>::id == K<B>::id)
		{
			sparse(na, 2, ga, wideMore, [&](double const * a)
			{
				for (int rel = 0; rel < 7; ++rel)
				{
					if (! cx.next()) { continue; }
					double b[8];
					for (int i = 0; i < na; ++i)
					{
						int const g{ ref::gradeOf(K<A>::at(i)) };
						double const s
							( rel == 0 ? 1. : rel == 1 ? -1. : rel == 2 ? (g & 2 ? -1. : 1.)
							: rel == 3 ? (g & 1 ? -1. : 1.) : rel == 4 ? (g == 1 || g == 2 ? -1. : 1.)
							: rel == 5 ? 2.5 : 1e-7 );
						b[i] = s * a[i];
					}
					rounded(cx, a, b);
				}
			});
		}
		}
	}

	//! both operands one object, result stored over an operand
	static void aliased(Ctx & cx)
	{
		if constexpr (std::is_same<A, B>::value && K<R>::is)
		{
			std::vector<double> const al(intAlphabet(na, 4000.));
			words(na, al, [&](double const * a)
			{
				if (! cx.next()) { return; }
				A const x(K<A>::make(a));
				R const r( x * x );
				cx.did();
				double got[8], back[8];
				K<R>::get(r, got);
				K<A>::get(x, back);
				ref::M8 const e{ ref::mul(toRef(K<A>::id, a), toRef(K<A>::id, a)) };
				bool same{ true };
				for (int i = 0; i < K<R>::n; ++i) { same = same && got[i] == double(e.c[K<R>::at(i)]); }
				for (int i = 0; i < na; ++i) { same = same && back[i] == a[i]; }
				if (! same) { cx.fail("one object as both operands: " + what(a, a, got, e)); }
				cx.trace();
				if constexpr (std::is_same<R, A>::value)
				{
					// a = a * a; a = a * a
					A y(K<A>::make(a));
					y = y * y;
					y = y * y;
					cx.did(2);
					K<A>::get(y, got);
					ref::M8 const e2{ ref::mul(e, e) };
					for (int i = 0; i < na; ++i) { same = same && got[i] == double(e2.c[K<A>::at(i)]); }
					if (! same) { cx.fail("repeated squaring in place: " + what(a, a, got, e2)); }
				}
			});
		}
	}
};

} // namespace

void histories0(Ctx & cx);
void histories1(Ctx & cx);
void explore(Ctx & cx)
{
	histories0(cx);
	histories1(cx);
	forKinds(AllKinds{}, [&](auto ta)
	{
		forKinds(AllKinds{}, [&](auto tb)
		{
			using A = TY(ta);
			using B = TY(tb);
			if constexpr (! (std::is_same<A, double>::value && std::is_same<B, double>::value))
			{
				if constexpr (has_mul<A, B>::value)
				{
					Pair<A, B>::explorePair(cx);
					Pair<A, B>::aliased(cx);
				}
				else if (cx.next())
				{
					cx.fail(mc::fmt("no product %s * %s", K<A>::name(), K<B>::name()));
				}
			}
		});
	});
}
