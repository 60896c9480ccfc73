// Object histories: what an operation says of an entity object depends on the
// components it has now, not on what was asked of the object before, nor on the
// values it had. All histories of a small alphabet: use, write one component
// (through the data members), use again; use, assign a grade; use, copy, write
// the copy; use, assign from another object.
#pragma once

#include "num.hpp"

#include <functional>

namespace history
{
inline double * place(double & x, int) { return &x; }
template <class Blade> inline double * place(Blade & x, int i) { return &x.theData[i]; }
inline double * place(g3::Spinor & x, int i) { return i < 1 ? &x.theSca.theData[0] : &x.theBiv.theData[i - 1]; }
inline double * place(g3::ImSpin & x, int i) { return i < 3 ? &x.theVec.theData[i] : &x.theTri.theData[0]; }
inline double * place(g3::ComPlex & x, int i) { return i < 1 ? &x.theSca.theData[0] : &x.theTri.theData[0]; }
inline double * place(g3::DirPlex & x, int i) { return i < 3 ? &x.theVec.theData[i] : &x.theBiv.theData[i - 3]; }
inline double * place(g3::MultiVector & x, int i)
{
	return i < 1 ? &x.theSca.theData[0] : i < 4 ? &x.theVec.theData[i - 1] : i < 7 ? &x.theBiv.theData[i - 4] : &x.theTri.theData[0];
}

struct Seen
{
	std::vector<double> c;
	std::string text;
};
template <class R> inline void see(R const & r, Seen & s)
{
	if constexpr (K<R>::is) { double v[8]; K<R>::get(r, v); s.c.insert(s.c.end(), v, v + K<R>::n); }
	else if constexpr (std::is_same<R, bool>::value) { s.c.push_back(r); }
	else if constexpr (std::is_same<R, std::string>::value) { s.text += r; }
	else if constexpr (std::is_same<R, std::complex<double>>::value) { s.c.push_back(r.real()); s.c.push_back(r.imag()); }
	else { see(r.first, s); see(r.second, s); }
}
inline bool same(Seen const & a, Seen const & b)
{
	if (a.text != b.text || a.c.size() != b.c.size()) { return false; }
	for (std::size_t i = 0; i < a.c.size(); ++i)
	{
		bool const na{ a.c[i] != a.c[i] }, nb{ b.c[i] != b.c[i] };
		if (na != nb || (! na && std::memcmp(&a.c[i], &b.c[i], 8) != 0)) { return false; }
	}
	return true;
}
inline std::string show(Seen const & s)
{
	std::string t{ "(" };
	for (double x : s.c) { t += mc::fmt(" %.17g", x); }
	return t + " )" + s.text;
}

template <class A> inline void exploreSeen(mc::Ctx & cx, char const * what, std::function<void(A const &, Seen &)> const & f)
{
	constexpr int n{ K<A>::n };
	auto const of = [&](A const & x) { Seen s; f(x, s); cx.did(); return s; };
	double const qn{ std::numeric_limits<double>::quiet_NaN() };
	static double const fixedStarts[3][8]
		{ { 0, 0, 0, 0, 0, 0, 0, 0 }, { 3, 0, 4, 0, 0, 12, 0, -1 }, { -1, 0, 0, 0, 0, 0, 0, 0 } };
	std::vector<std::vector<double>> starts;
	for (auto const & s : fixedStarts) { starts.emplace_back(s, s + 8); }
	starts.push_back(num::patterns()[0]);
	starts.push_back(num::patterns()[1]);
	for (std::size_t k = 0; k < starts.size(); ++k)
	{
		double const * const p{ starts[k].data() };
		double const * const q{ starts[(k + 3) % starts.size()].data() };
		auto judge = [&](char const * how, A const & x)
		{
			double now[8];
			K<A>::get(x, now);
			Seen const a(of(x)), b(of(K<A>::make(now)));
			cx.trace();
			if (! same(a, b))
			{
				cx.fail(std::string(what) + " of an object that " + how + "\n  object " + ::show(K<A>::id, now) + " gives " + show(a) + "\n  a new one of the same components gives " + show(b) + "\n  the object was made as " + ::show(K<A>::id, p));
			}
		};
		for (int i = 0; i < n; ++i) for (double const & v : { 0., -2., 1.5, qn, p[i] * 0.5 })
		{
			if (! cx.next()) { continue; }
			{
				A x(K<A>::make(p));
				(void)of(x);
				*place(x, i) = v;
				judge("was used and had a component written", x);
				*place(x, i) = p[i];
				judge("was used, had a component written, was used and had it written back", x);
			}
			{
				A x(K<A>::make(p));
				(void)of(x);
				A y(x);
				*place(y, i) = v;
				judge("is a copy of a used one with a component written", y);
				judge("was used, copied, and its copy written", x);
				x = y;
				judge("was used and assigned", x);
			}
		}
		if (! cx.next()) { continue; }
		A x(K<A>::make(p));
		A const y(K<A>::make(q));
		(void)of(x);
		(void)of(y);
		x = y;
		judge("was used and assigned from a used one", x);
		x = K<A>::make(p);
		judge("was used and assigned from a new one", x);
		x = x;
		judge("was assigned to itself", x);
		// swap and a container of reused places
		A z(K<A>::make(q));
		(void)of(z);
		std::swap(x, z);
		judge("was used and swapped", x);
		judge("was used and swapped", z);
		std::vector<A> many(3, x);
		for (A const & m : many) { (void)of(m); }
		many[1] = z;
		many.erase(many.begin());
		for (A const & m : many) { judge("was used in a container and moved there", m); }
		// the same place, another object
		for (int r = 0; r < 3; ++r)
		{
			double w[8];
			for (int i = 0; i < n; ++i) { w[i] = p[i] + r * (q[i] - p[i]); }
			A const t(K<A>::make(w));
			judge("stands where others stood", t);
		}
		if constexpr (K<A>::id == kSpin || K<A>::id == kCplx || K<A>::id == kMV)
		{
			x = K<A>::make(p);
			(void)of(x);
			x.theSca = g3::Scalar{ 7. };
			judge("was used and had its scalar grade assigned", x);
		}
		if constexpr (K<A>::id == kImsp || K<A>::id == kDplx || K<A>::id == kMV)
		{
			x = K<A>::make(p);
			(void)of(x);
			x.theVec = g3::Vector{ 7., -1., 2. };
			judge("was used and had its vector grade assigned", x);
		}
		if constexpr (K<A>::id == kSpin || K<A>::id == kDplx || K<A>::id == kMV)
		{
			x = K<A>::make(p);
			(void)of(x);
			x.theBiv = g3::BiVector{ 7., -1., 2. };
			judge("was used and had its bivector grade assigned", x);
		}
		if constexpr (K<A>::id == kImsp || K<A>::id == kCplx || K<A>::id == kMV)
		{
			x = K<A>::make(p);
			(void)of(x);
			x.theTri = g3::TriVector{ 7. };
			judge("was used and had its trivector grade assigned", x);
		}
	}
}
//! the operand as the caller holds it
#define HELD(x) std::forward<decltype(x)>(x)

//! operands to be held in all ways
template <class A> inline std::vector<std::vector<double>> holdable()
{
	constexpr int n{ K<A>::n };
	std::vector<std::vector<double>> r;
	words(n, n > 6 ? std::vector<double>{ -2., 1. } : n > 4 ? std::vector<double>{ -2., 0., 1. } : std::vector<double>{ -2., 0., .5, 1. }, [&](double const * v) { r.emplace_back(v, v + n); });
	for (auto const & p : num::patterns()) { r.emplace_back(p.begin(), p.begin() + n); }
	for (double s : { 1e-9, 1e-3, 1e9 }) { r.push_back(r.back()); for (double & x : r.back()) { x *= s; } }
	for (int i = 0; i < n; ++i) { r.push_back(r[r.size() - 1]); r.back()[i] = std::numeric_limits<double>::quiet_NaN(); }
	return r;
}
//! the same for constants, variables and temporaries, and no change of a variable
template <class A, class F> inline void exploreHeld(mc::Ctx & cx, std::string const & what, F const & f)
{
	if constexpr (std::is_invocable<F const &, A &>::value && std::is_invocable<F const &, A>::value)
	{
		for (auto const & v : holdable<A>())
		{
			if (! cx.next()) { continue; }
			A const a(K<A>::make(v.data()));
			Seen want;
			see(f(a), want);
			auto judge = [&](Seen const & got, char const * how) { cx.did(); cx.trace(); if (! same(got, want)) { cx.fail(what + " of " + ::show(a) + " held as " + how + " gives " + show(got) + "\n  not " + show(want)); } };
			A x(a);
			{ Seen s; see(f(x), s); judge(s, "a variable"); }
			double g[8];
			K<A>::get(x, g);
			for (int i = 0; i < K<A>::n; ++i) { if (std::memcmp(&g[i], &v[i], 8) != 0 && g[i] == g[i]) { cx.fail(what + " changes its operand " + ::show(a) + " to " + ::show(x)); } }
			{ Seen s; see(f(K<A>::make(v.data())), s); judge(s, "a temporary"); }
			{ Seen s; see(f(std::move(x)), s); judge(s, "a variable that is moved from"); }
			// what it gives is an object of its own
			A y(a);
			auto && r(f(y));
			y = K<A>::make(num::patterns()[3].data());
			{ Seen s; see(r, s); judge(s, "a variable that is written afterwards"); }
		}
	}
}
//! The operation f of an object of kind A, in all histories
template <class A, class F> inline void explore(mc::Ctx & cx, char const * what, F const & f)
{
	exploreSeen<A>(cx, what, [&](A const & x, Seen & s) { see(f(x), s); });
	exploreHeld<A>(cx, what, f);
}
//! f(x, y) for constants, variables and temporaries
template <class A, class B, class F> inline void exploreHeld2(mc::Ctx & cx, std::string const & what, F const & f)
{
	if constexpr (std::is_invocable<F const &, A &, B &>::value && std::is_invocable<F const &, A, B>::value)
	{
		auto const us(holdable<A>()), vs(holdable<B>());
		for (std::size_t k = 0; k < std::max(us.size(), vs.size()); ++k)
		{
			if (! cx.next()) { continue; }
			double const * const u{ us[k % us.size()].data() };
			double const * const v{ vs[(k * 7 + 3) % vs.size()].data() };
			A const a(K<A>::make(u));
			B const b(K<B>::make(v));
			Seen want;
			see(f(a, b), want);
			A x(a);
			B y(b);
			auto judge = [&](auto const & r, char const * how)
			{
				Seen got;
				see(r, got);
				cx.did();
				cx.trace();
				if (! same(got, want)) { cx.fail(what + " of " + how + " " + ::show(a) + " and " + ::show(b) + "\n  gives " + show(got) + " not " + show(want)); }
				double g[8], h[8];
				K<A>::get(x, g);
				K<B>::get(y, h);
				for (int i = 0; i < K<A>::n; ++i) { if (std::memcmp(&g[i], &u[i], 8) != 0 && g[i] == g[i]) { cx.fail(what + " changes its first operand " + ::show(a) + " to " + ::show(x)); } }
				for (int i = 0; i < K<B>::n; ++i) { if (std::memcmp(&h[i], &v[i], 8) != 0 && h[i] == h[i]) { cx.fail(what + " changes its second operand " + ::show(b) + " to " + ::show(y)); } }
			};
			judge(f(x, b), "a variable and a constant");
			judge(f(a, y), "a constant and a variable");
			judge(f(x, y), "two variables");
			judge(f(A(a), b), "a temporary and a constant");
			judge(f(a, B(b)), "a constant and a temporary");
			judge(f(A(a), y), "a temporary and a variable");
			judge(f(x, B(b)), "a variable and a temporary");
			judge(f(A(a), B(b)), "two temporaries");
		}
	}
}
//! f(x, y) with histories of either operand
template <class A, class B, class F> inline void explore2(mc::Ctx & cx, std::string const & what, F const & f)
{
	for (int k = 0; k < 2; ++k)
	{
		double const * const p{ num::patterns()[k].data() };
		B const b(K<B>::make(p));
		A const a(K<A>::make(p));
		exploreSeen<A>(cx, (what + ", left operand").c_str(), [&](A const & x, Seen & s) { see(f(x, b), s); });
		exploreSeen<B>(cx, (what + ", right operand").c_str(), [&](B const & y, Seen & s) { see(f(a, y), s); });
	}
	exploreHeld2<A, B>(cx, what, f);
}
} // namespace history
