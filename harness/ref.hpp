// Reference model: the Clifford algebra Cl(3,0), eight components, built from
// nothing but "basis vectors square to +1 and anticommute". Independent of the
// Engabra sources.
//
// Component order: 1, e1, e2, e3, e23, e31, e12, e123.
#pragma once

#include "mc.hpp"

namespace ref
{

using ld = long double;

struct M8
{
	ld c[8]{ 0, 0, 0, 0, 0, 0, 0, 0 };
};

//! Basis blades as bitmaps over (e1,e2,e3), with orientation relative to the
//! ascending product of basis vectors (e31 = e3e1 = - e1e3).
struct Table
{
	int to[8][8];
	int sg[8][8];
	Table()
	{
		int const bm[8]{ 0, 1, 2, 4, 6, 5, 3, 7 };
		int const ori[8]{ 1, 1, 1, 1, 1, -1, 1, 1 };
		int pos[8];
		for (int i = 0; i < 8; ++i) { pos[bm[i]] = i; }
		for (int i = 0; i < 8; ++i)
		{
			for (int j = 0; j < 8; ++j)
			{
				// number of transpositions to sort the concatenated product
				int a{ bm[i] >> 1 }, swaps{ 0 };
				while (a) { swaps += __builtin_popcount(a & bm[j]); a >>= 1; }
				int const k{ pos[bm[i] ^ bm[j]] };
				to[i][j] = k;
				sg[i][j] = ((swaps & 1) ? -1 : 1) * ori[i] * ori[j] * ori[k];
			}
		}
		selfCheck();
	}
	//! The model itself is checked exhaustively against the axioms
	void selfCheck() const
	{
		auto die = [](char const * w) { fprintf(stderr, "reference model broken: %s\n", w); abort(); };
		auto mul = [&](int i, int j, int & k, int & s) { k = to[i][j]; s = sg[i][j]; };
		int k, s;
		for (int i = 1; i <= 3; ++i)
		{
			mul(i, i, k, s);
			if (k != 0 || s != 1) { die("square"); }
			for (int j = 1; j <= 3; ++j)
			{
				if (i != j && (to[i][j] != to[j][i] || sg[i][j] != -sg[j][i])) { die("anticommute"); }
			}
		}
		mul(2, 3, k, s); if (k != 4 || s != 1) { die("e23"); }
		mul(3, 1, k, s); if (k != 5 || s != 1) { die("e31"); }
		mul(1, 2, k, s); if (k != 6 || s != 1) { die("e12"); }
		mul(6, 3, k, s); if (k != 7 || s != 1) { die("e123"); }
		for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int l = 0; l < 8; ++l)
		{
			int const a{ to[i][j] }, sa{ sg[i][j] };
			int const b{ to[j][l] }, sb{ sg[j][l] };
			if (to[a][l] != to[i][b] || sa * sg[a][l] != sb * sg[i][b]) { die("associativity"); }
		}
		for (int i = 0; i < 8; ++i) { if (to[0][i] != i || sg[0][i] != 1 || to[i][0] != i || sg[i][0] != 1) { die("unit"); } }
	}
};
inline Table const tab;

inline int gradeOf(int i) { return (i == 0) ? 0 : (i < 4) ? 1 : (i < 7) ? 2 : 3; }

inline M8 mul(M8 const & a, M8 const & b)
{
	M8 r;
	for (int i = 0; i < 8; ++i)
	{
		if (a.c[i] == 0) { continue; }
		for (int j = 0; j < 8; ++j)
		{
			r.c[tab.to[i][j]] += tab.sg[i][j] * (a.c[i] * b.c[j]);
		}
	}
	return r;
}
//! Sum of absolute values of the terms of every component of a product
inline M8 mulAbs(M8 const & a, M8 const & b)
{
	M8 r;
	for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j)
	{
		r.c[tab.to[i][j]] += fabsl(a.c[i] * b.c[j]);
	}
	return r;
}
inline M8 add(M8 const & a, M8 const & b) { M8 r; for (int i = 0; i < 8; ++i) { r.c[i] = a.c[i] + b.c[i]; } return r; }
inline M8 sub(M8 const & a, M8 const & b) { M8 r; for (int i = 0; i < 8; ++i) { r.c[i] = a.c[i] - b.c[i]; } return r; }
inline M8 scale(ld s, M8 const & a) { M8 r; for (int i = 0; i < 8; ++i) { r.c[i] = s * a.c[i]; } return r; }
inline M8 bySign(M8 const & a, int s0, int s1, int s2, int s3)
{
	int const s[4]{ s0, s1, s2, s3 };
	M8 r;
	for (int i = 0; i < 8; ++i) { r.c[i] = s[gradeOf(i)] * a.c[i]; }
	return r;
}
inline M8 neg(M8 const & a) { return bySign(a, -1, -1, -1, -1); }
inline M8 reverse(M8 const & a) { return bySign(a, 1, 1, -1, -1); }
inline M8 oddverse(M8 const & a) { return bySign(a, 1, -1, 1, -1); }
inline M8 dirverse(M8 const & a) { return bySign(a, 1, -1, -1, 1); }
inline M8 dual(M8 const & a) { M8 i; i.c[7] = 1; return mul(i, a); }
inline ld magSq(M8 const & a) { ld s{ 0 }; for (int i = 0; i < 8; ++i) { s += a.c[i] * a.c[i]; } return s; }
inline ld mag(M8 const & a) { return sqrtl(magSq(a)); }
inline ld maxAbs(M8 const & a) { ld s{ 0 }; for (int i = 0; i < 8; ++i) { s = std::max(s, fabsl(a.c[i])); } return s; }

//! Exponential by scaling, Taylor series and repeated squaring (generic: uses
//! only the product of the model)
inline M8 exp(M8 const & a)
{
	ld const m{ mag(a) };
	int n{ 0 };
	ld s{ 1 };
	while (m * s > .25L) { s *= .5L; ++n; }
	M8 const x{ scale(s, a) };
	M8 term, sum;
	term.c[0] = 1;
	sum = term;
	for (int k = 1; k < 30; ++k)
	{
		term = scale(1.L / k, mul(term, x));
		sum = add(sum, term);
	}
	for (int i = 0; i < n; ++i) { sum = mul(sum, sum); }
	return sum;
}

inline std::string str(M8 const & a)
{
	static char const * const nm[8]{ "", "e1", "e2", "e3", "e23", "e31", "e12", "e123" };
	std::string s;
	for (int i = 0; i < 8; ++i)
	{
		if (a.c[i] != 0) { s += mc::fmt("%s%.17Lg%s%s", s.empty() ? "" : " + ", a.c[i], i ? "*" : "", nm[i]); }
	}
	return s.empty() ? "0" : s;
}

} // namespace ref
