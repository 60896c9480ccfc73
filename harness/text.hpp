// Reference text of entities, by the C library's formatting.
#pragma once

#include "num.hpp"

namespace text
{
inline std::string fix(double x, int lead, int frac)
{
	std::vector<char> buf(700 + lead + frac);
	snprintf(buf.data(), buf.size(), " %*.*f", 1 + lead + 1 + frac, frac, x);
	return buf.data();
}
inline std::string exp10(double x, int d)
{
	std::vector<char> buf(100 + d);
	snprintf(buf.data(), buf.size(), "%*.*e", 7 + d, d, x);
	return buf.data();
}
//! numbers of components of the grades of a kind
inline std::vector<int> const & grades(int kind)
{
	static std::vector<int> const g[kCount]
		{ { 1 }, { 1 }, { 3 }, { 3 }, { 1 }, { 1, 3 }, { 3, 1 }, { 1, 1 }, { 3, 3 }, { 1, 3, 3, 1 } };
	return g[kind];
}
inline std::string fixedRef(int kind, double const * v, int lead, int frac, char const * between)
{
	std::string s;
	int at{ 0 };
	for (int n : grades(kind))
	{
		if (at) { s += between; }
		for (int i = 0; i < n; ++i) { s += fix(v[at++], lead, frac); }
	}
	return s;
}
inline std::string enoteRef(int kind, double const * v, int d)
{
	std::string s;
	int at{ 0 };
	for (int n : grades(kind))
	{
		if (at) { s += "  "; }
		for (int i = 0; i < n; ++i) { s += (i ? " " : "") + exp10(v[at++], d); }
	}
	return s;
}
inline std::vector<double> values()
{
	using namespace num;
	double const sub{ std::numeric_limits<double>::denorm_min() };
	return
		{ 0., -0., 1., -1., 0.5, -0.0000005, 0.0000004999, 0.9999995, 0.99999949, -9.9999995, 2.5, 3.5, 0.125, 1./3, -2./3, 12.345678901234567
		, 99.9999999, -99.9999999, 123.456, 999.9999996, -999.9999996, 1234.5, -12345.678, 1e6, 1e15, 123456789012345680., 1e22, -1e100, 1.7976931348623157e308
		, 1e-5, 1e-6, 4.9e-7, 1e-99, 1e-100, -1e-100, 9.9999999999999999e-100, 1e99, 9.999999999999999e99, 1e100, 2.2250738585072014e-308, sub, qnan, -qnan, inf, -inf };
}
HAS1(fixed, g3::io::fixed(DA));
HAS1(enote, g3::io::enote(DA));
} // namespace text
