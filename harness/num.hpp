// Shared helpers of the numeric explorers: magnitudes across the double range
// and comparisons with bounds that any order of evaluation satisfies.
#pragma once

#include "kinds.hpp"

#include <array>

namespace num
{
using ref::ld;
using ref::M8;

constexpr double eps{ std::numeric_limits<double>::epsilon() };
double const inf{ std::numeric_limits<double>::infinity() };
double const qnan{ std::numeric_limits<double>::quiet_NaN() };

//! magnitudes 10^lo, ... 10^hi, each with a mantissa that is no power of ten
inline std::vector<double> decades(int lo, int hi, int step = 1)
{
	std::vector<double> r;
	for (int e = lo; e <= hi; e += step)
	{
		double const m{ 1. + .8 * std::fabs(std::sin(1.7 * e)) };
		r.push_back(m * std::pow(10., e));
	}
	return r;
}
inline bool sameBitsD(double x, double y) { return x == y ? std::signbit(x) == std::signbit(y) : (x != x && y != y); }
inline bool near(ld got, ld want, ld tol) { return fabsl(got - want) <= tol; } // false for NaN

//! Components of a generic direction for every kind (no symmetric values)
inline std::vector<std::vector<double>> const & patterns()
{
	static std::vector<std::vector<double>> const p
		{ { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }
		, { 0.6, -0.8, 0.3, 0.7, -0.2, 0.9, -0.4, 0.5, 1.1, 0.2, -0.3, -1.7, 0.4, 0.8, -0.1, 0.35 }
		, { -1.3, 0.1, 2.2, -0.9, 1.6, -0.3, 0.8, -2.7, -0.5, 0.15, 1.2, 0.7, -2.1, 0.9, 0.25, -1.4 }
		, { 0.01, -3.1, 0.002, 0.5, 40., -0.7, 1.9, 0.06, 5.5, -0.03, 0.8, 12., -0.4, 0.09, -6., 0.7 }
		};
	return p;
}

//! All sign/zero choices of n components at every listed scale: words over
//! {0, +s, -s, s/3...} for every scale s
template <class F> void scaled(int n, std::vector<double> const & scales, std::vector<double> const & letters, F const & f)
{
	double w[8];
	for (double const & s : scales)
	{
		words(n, letters, [&](double const * v)
		{
			for (int i = 0; i < n; ++i) { w[i] = s * v[i]; }
			f(static_cast<double const *>(w));
		});
	}
}
//! Whole numbers about the ends of the integer types and of single precision
inline std::vector<double> const & wholes()
{
	static std::vector<double> const w
		{ 127., 200., 255., 32768., 46341., 50000., 65535., 65536., 999983., 16777217., 2147483647., 2147483648., 3037000500., 4294967297., 9007199254740991., 9.3e18, 1.9e19 };
	return w;
}
//! k-th entity of whole numbers of size s
inline void whole(double s, int k, int n, double * w)
{
	for (int i = 0; i < n; ++i)
	{
		double const x{ k % 3 == 0 ? s : k % 3 == 1 ? s - i : i == k / 3 % n ? s : double(i % 3 - 1) };
		w[i] = (k >> (i % 2) & 1) ? -x : x;
	}
}
//! The numbers people write: two or three digits, halves
inline std::vector<double> everyday(bool all)
{
	std::vector<double> r;
	for (int m = 1; m < 1000; ++m) { for (double s : { .01, -1. }) { r.push_back(m * s); } if (all) { for (double s : { 1e-5, -.1, 10., -1e3, 1e6 }) { r.push_back(m * s); } } }
	for (int m = 1; m < 2000; m += 2) { r.push_back(m % 4 == 1 ? -m * .5 : m * .5); }
	if (all) { for (int m = 1; m < 8000; m += 2) { r.push_back(m * .125); } }
	return r;
}
template <class F> void wholeOnes(int n, F const & f)
{
	double w[16];
	for (double const & s : wholes()) for (int k = 0; k < 3 * n + 6; ++k)
	{
		whole(s, k, n, w);
		f(static_cast<double const *>(w));
	}
}
//! Generic entities of every size: all components of one scale
template <class F> void sized(int n, F const & f, int lo = -305, int hi = 305, int step = 1)
{
	double w[16];
	wholeOnes(n, f);
	for (double const & s : decades(lo, hi, step)) for (auto const & p : patterns()) for (int sg = -1; sg < 2; sg += 2)
	{
		for (int i = 0; i < n; ++i) { w[i] = sg * s * p[i]; }
		f(static_cast<double const *>(w));
	}
}
//! Two of them, of every pair of sizes
template <class F> void sizedPairs(int na, int nb, F const & f, int lo = -300, int hi = 300, int step = 25)
{
	double w[16];
	std::vector<double> sizes{ decades(lo, hi, step) };
	for (int e = -18; e <= 18; e += 3) { sizes.push_back(std::pow(10., e) * 1.1); }
	for (double const & s : wholes()) for (double const & t : wholes()) for (int k = 0; k < 14; ++k)
	{
		whole(s, k, na, w);
		whole(t, k / 2 * 3, nb, w + na);
		f(static_cast<double const *>(w));
	}
	for (double const & s : sizes) for (double const & t : sizes) for (int k = 0; k < 16; ++k)
	{
		for (int i = 0; i < na; ++i) { w[i] = s * (k & 4 ? -1 : 1) * patterns()[k & 3][i]; }
		for (int i = 0; i < nb; ++i) { w[na + i] = t * (k & 8 ? -1 : 1) * patterns()[(k + 1) & 3][i]; }
		f(static_cast<double const *>(w));
	}
}
//! Two entities of one kind that hardly differ, but for a sign: of every size, with components of every ratio
template <class F> void nearPairs(int n, F const & f, int lo = -300, int hi = 300, int step = 25)
{
	double w[16];
	std::vector<double> sizes{ decades(lo, hi, step) };
	for (int e = -18; e <= 18; e += 3) { sizes.push_back(std::pow(10., e) * 1.3); }
	for (double const & s : sizes) for (double const & t : { 1., 1e-4, 1e-9, 1e-12 }) for (int k = 0; k < 8; ++k) for (int i = -1; i < n; ++i)
	{
		for (double const & d : { eps, -3e-13, 1e-11, -4e-10 })
		{
			for (int j = 0; j < n; ++j) { w[j] = s * (j % 2 == (k & 1) ? t : 1.) * patterns()[k & 3][j]; w[n + j] = (k & 4 ? -1. : 1.) * w[j] * (i < 0 || i == j ? 1. + d : 1.); }
			f(static_cast<double const *>(w));
		}
	}
}
template <class F> void mixed(int n, int places, std::vector<double> const & mags, F const & f)
{
	std::vector<double> al{ 0. };
	for (double const & m : mags) { al.push_back(m); al.push_back(-m); }
	for (auto const & p : patterns()) { sparse(n, places, p.data(), al, f); }
	sparse(n, places, zeros24, al, f);
}
//! Words at every distance 2^-e from special ones: entities of unit size, and
//! entities in which two components are equal or opposite. Whatever cutoff an
//! implementation puts near such a place, some rungs are on its wrong side.
template <class F> void ladder(int n, F const & f, int step = 1)
{
	std::vector<std::array<double, 8>> base;
	for (int i = 0; i < n; ++i)
	{
		std::array<double, 8> w{};
		w[i] = i % 2 ? -1. : 1.;
		base.push_back(w);
		for (int j = 0; j < i; ++j)
		{
			std::array<double, 8> u{};
			u[i] = 0.6;
			u[j] = (i + j) % 2 ? -0.8 : 0.8;
			base.push_back(u);
		}
	}
	for (int p = 0; p < 2; ++p)
	{
		std::array<double, 8> w{};
		double s{ 0. };
		for (int i = 0; i < n; ++i) { w[i] = patterns()[p ? 2 : 0][i]; s += w[i] * w[i]; }
		for (double & x : w) { x /= std::sqrt(s); }
		base.push_back(w);
	}
	double v[8];
	for (auto const & b : base) for (int i = -1; i < n; ++i) for (int e = 0; e <= 53; e += step) for (int sg = -1; sg < 2; sg += 2)
	{
		double const d{ sg * std::ldexp(1., -e) };
		for (int k = 0; k < n; ++k) { v[k] = i < 0 ? b[k] * (1 + d) : b[k]; }
		if (i >= 0) { v[i] += d; }
		f(static_cast<double const *>(v));
	}
	for (int p = 0; p < 2; ++p) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
	{
		if (i == j) { continue; }
		for (int e = 0; e <= 53; e += step) for (int sg = 0; sg < 4; ++sg)
		{
			for (int k = 0; k < n; ++k) { v[k] = p ? patterns()[2][k] : 0.; }
			v[i] = p ? 1.3 : 1.;
			v[j] = (sg & 1 ? -v[i] : v[i]) * (1 + (sg & 2 ? -1 : 1) * std::ldexp(1., -e));
			f(static_cast<double const *>(v));
		}
	}
}
//! Angles of a half turn: an even grid, and every distance 2^-e from its eighths
inline std::vector<double> halfTurn(int steps, int rung = 1)
{
	std::vector<double> r;
	for (int k = 0; k <= steps; ++k) { r.push_back(M_PI * k / steps); }
	for (int k = 0; k <= 8; ++k) for (int e = 2; e <= 52; e += rung) for (int sg = -1; sg < 2; sg += 2)
	{
		double const a{ M_PI * k / 8 + sg * std::ldexp(1.3, -e) };
		if (a > 0. && a < M_PI) { r.push_back(a); }
	}
	return r;
}
//! Unit directions: all of {-1,0,1}^3, and some generic ones
inline std::vector<std::vector<double>> const & unitAxes()
{
	static std::vector<std::vector<double>> const all = []
	{
		std::vector<std::vector<double>> r{ { .6, .8, 0 }, { 0, .6, -.8 }, { 1/3., 2/3., -2/3. }, { -2/3., 1/3., 2/3. }, { 1, 1e-5, -2e-9 }, { 3e-8, -1, 1e-4 }, { 1e-12, 2e-7, 1 } };
		words(3, { -1, 0, 1 }, [&](double const * v) { if (v[0] || v[1] || v[2]) { r.push_back({ v[0], v[1], v[2] }); } });
		for (auto const & p : patterns()) { r.push_back({ p[0], p[1], p[2] }); r.push_back({ -p[4], p[5], -p[6] }); }
		for (auto & a : r)
		{
			double const len{ std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) };
			for (double & x : a) { x /= len; }
		}
		return r;
	}();
	return all;
}
inline std::vector<double> letters(int n, double budget)
{
	std::vector<std::vector<double>> const as
		{ { -2.5, -1.75, -1, -0.3, 0, 0.3, 1, 1.75, 2.5 }
		, { -1.75, -1, -0.3, 0, 0.3, 1, 1.75 }
		, { -1.75, -1, 0, 0.3, 1 }
		, { -0.6, 0, 1, 1.75 }
		, { -0.6, 0, 1 }
		};
	for (auto const & a : as) { if (std::pow(double(a.size()), n) <= budget) { return a; } }
	return { 0, 0.7 };
}
} // namespace num
