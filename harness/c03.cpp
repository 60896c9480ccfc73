// C03 - sums and differences.
#include "kinds.hpp"
#include "num.hpp"

namespace
{
using mc::Ctx;

bool same(double x, double y) { return x == y || (x != x && y != y); }

template <class A, class B, bool sub>
struct Pair
{
	static auto eval(A const & a, B const & b)
	{
		if constexpr (sub) { return a - b; } else { return a + b; }
	}
	using R = decltype(eval(std::declval<A const &>(), std::declval<B const &>()));
	static constexpr int na{ K<A>::n }, nb{ K<B>::n };
	static constexpr unsigned want{ K<A>::mask | K<B>::mask };

	static void check(Ctx & cx, double const * a, double const * b)
	{
		R const r(eval(K<A>::make(a), K<B>::make(b)));
		cx.did();
		double got[8];
		K<R>::get(r, got);
		double full[8]{ };
		for (int i = 0; i < K<R>::n; ++i) { full[K<R>::at(i)] = got[i]; }
		double ea[8]{ }, eb[8]{ };
		for (int i = 0; i < na; ++i) { ea[K<A>::at(i)] = a[i]; }
		for (int i = 0; i < nb; ++i) { eb[K<B>::at(i)] = b[i]; }
		bool ok{ true }, negated{ true };
		for (int i = 0; i < 8; ++i)
		{
			double const e{ sub ? ea[i] - eb[i] : ea[i] + eb[i] };
			ok = ok && same(full[i], e);
			negated = negated && same(full[i], -e);
		}
		cx.outcome(got, K<R>::n);
		if (! ok)
		{
			std::string const msg
				{ mc::fmt("%s %c %s\n  left  : %s\n  right : %s\n  got   : %s", K<A>::name(), sub ? '-' : '+', K<B>::name()
					, show(K<A>::id, a).c_str(), show(K<B>::id, b).c_str(), show(K<R>::id, got).c_str()) };
			if (sub && negated && ! std::is_same<A, B>::value)
			{
				cx.knownFinding(std::string(K<A>::name()) + "-minus-" + K<B>::name(), msg + "  (exactly the negative of the difference)");
			}
			else { cx.fail(msg); }
		}
	}

	static void explorePair(Ctx & cx)
	{
		if (cx.next())
		{
			cx.info[sub ? "ordered pairs with a difference" : "ordered pairs with a sum"]++;
			bool fits{ K<R>::is };
			if constexpr (K<R>::is) { fits = K<R>::mask == want && K<R>::id == (std::is_same<A, B>::value ? K<A>::id : kindOfMask(want)); }
			if (! fits) { cx.fail(mc::fmt("%s %c %s gives kind %s", K<A>::name(), sub ? '-' : '+', K<B>::name(), kindName(K<R>::id))); }
		}
		if constexpr (K<R>::is)
		{
			int const n{ na + nb };
			words(n, intAlphabet(n, cx.thorough ? 3e8 : n == 16 ? 5e7 : 2e6), [&](double const * v)
			{
				if (cx.next())
				{
					check(cx, v, v + na);
					if (cx.sampleNow()) { cx.sample(show(K<A>::id, v) + (sub ? " - " : " + ") + show(K<B>::id, v + na)); }
				}
			});
			double const inf{ std::numeric_limits<double>::infinity() };
			double const nan{ std::numeric_limits<double>::quiet_NaN() };
			std::vector<double> const w
				{ 1., -1., 0., -0., 0.1, 1./3, -7.3e8, 1e16, 1., 3e-17, 1.7e150, -1.7e150, 1.7e308, -1.7e308, 4.94e-324, 2.3e-308, inf, -inf, nan };
			double const base[2][16]
				{ { }
				, { 0.3, -0.7, 1.1, 5.9, -2.2, 1e-3, 77.7, -0.1, 0.2, 0.9, -1.3, 3.1, 8.5, -1e4, 0.6, 1.9 } };
			// both operands hold nearly the same component: every cancellation depth
			for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j)
			{
				if (K<A>::at(i) != K<B>::at(j)) { continue; }
				for (double const x : { 1., 0.7, -3.3, 1.9e5, 6e-9, 3e-160, 8e200 }) for (int e = 0; e <= 53; ++e) for (int sg = 0; sg < 4; ++sg)
				{
					if (! cx.next()) { continue; }
					double v[16];
					for (int k = 0; k < n; ++k) { v[k] = base[1][k]; }
					v[i] = x;
					v[na + j] = (sg & 1 ? -x : x) * (1 + (sg & 2 ? -1 : 1) * std::ldexp(1., -e));
					check(cx, v, v + na);
				}
			}
			if (na == nb) { num::nearPairs(na, [&](double const * v) { if (cx.next()) { check(cx, v, v + na); } }); }
			// not-a-number in all choices of components: the others are as ever
			for (unsigned m = 0; m < 1u << n; ++m)
			{
				unsigned const ma{ m & ((1u << na) - 1) }, mb{ m >> na };
				if (n > 10 && ma && mb && ma != mb && ma + 1 != 1u << na && mb + 1 != 1u << nb) { continue; }
				if (! cx.next()) { continue; }
				double v[16];
				for (int k = 0; k < n; ++k) { v[k] = m >> k & 1 ? nan : base[1][k]; }
				check(cx, v, v + na);
			}
			// operands of every pair of sizes
			num::sizedPairs(na, nb, [&](double const * v) { if (cx.next()) { check(cx, v, v + na); } });
			for (int q = 0; q < 2; ++q)
			{
				sparse(n, cx.thorough && n < 9 ? 3 : 2, base[q], w, [&](double const * v)
				{
					if (cx.next()) { check(cx, v, v + na); }
				});
			}
		}
	}
};

//! a - b == a + (-b) == -(b - a), a + b == b + a, (a + b) - b == a, both objects one
template <class A, class B>
void laws(Ctx & cx)
{
	if constexpr (has_add<A, B>::value && has_sub<A, B>::value && has_add<B, A>::value && has_sub<B, A>::value)
	{
		using R = decltype(std::declval<A const &>() + std::declval<B const &>());
		if constexpr (K<R>::is)
		{
		int const n{ K<A>::n + K<B>::n };
		words(n, intAlphabet(n, 3e5), [&](double const * v)
		{
			if (! cx.next()) { return; }
			A const a(K<A>::make(v));
			B const b(K<B>::make(v + K<A>::n));
			auto const s(a + b);
			auto const t(b + a);
			auto const d(a - b);
			auto const e(a + (-b));
			auto const f(-(b - a));
			cx.did(5);
			cx.trace();
			auto eq = [](auto const & x, auto const & y)
			{
				double p[8], q[8];
				using X = std::decay_t<decltype(x)>;
				if constexpr (! std::is_same<X, std::decay_t<decltype(y)>>::value) { return false; }
				else
				{
					K<X>::get(x, p);
					K<X>::get(y, q);
					for (int i = 0; i < K<X>::n; ++i) { if (! (p[i] == q[i])) { return false; } }
					return true;
				}
			};
			std::string const args{ "\n  a = " + show(a) + "\n  b = " + show(b) };
			if (! eq(s, t)) { cx.fail("a + b differs from b + a" + args); }
			bool const signOnly{ eq(d, f) || eq(-d, e) };
			(void)signOnly;
			// pairs listed as findings deliver -(a - b): reported by check()
			if (! eq(d, e) && ! eq(-d, e)) { cx.fail("a - b differs from a + (-b)" + args + "\n  got " + show(d) + " and " + show(e)); }
			if (! eq(d, f) && ! eq(-d, f)) { cx.fail("a - b differs from -(b - a)" + args + "\n  got " + show(d) + " and " + show(f)); }
			if constexpr (has_sub<R, B>::value && std::is_same<R, A>::value)
			{
				auto const back(s - b);
				cx.did();
				if (! eq(back, a) && ! eq(-back, a)) { cx.fail("(a + b) - b differs from a" + args + "\n  got " + show(back)); }
				A x(a);
				x = x + b;
				x = x + b;
				cx.did(2);
				if (! eq(x, s + b)) { cx.fail("accumulating into an operand differs from the sum" + args); }
			}
		});
		}
	}
}

} // namespace

void histories0(Ctx & cx);
void histories1(Ctx & cx);
void explore(Ctx & cx)
{
	histories0(cx);
	histories1(cx);
	forKinds(GaKinds{}, [&](auto ta)
	{
		forKinds(GaKinds{}, [&](auto tb)
		{
			using A = TY(ta);
			using B = TY(tb);
			unsigned const m{ K<A>::mask | K<B>::mask };
			bool const expected{ kindMask(kindOfMask(m)) == m };
			if constexpr (has_add<A, B>::value) { Pair<A, B, false>::explorePair(cx); }
			else if (expected && cx.next()) { cx.fail(mc::fmt("no sum %s + %s", K<A>::name(), K<B>::name())); }
			if constexpr (has_sub<A, B>::value) { Pair<A, B, true>::explorePair(cx); }
			else if (expected && cx.next()) { cx.fail(mc::fmt("no difference %s - %s", K<A>::name(), K<B>::name())); }
			laws<A, B>(cx);
		});
	});
}
