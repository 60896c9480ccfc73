// Adapters between Engabra entity kinds and plain component arrays.
// Components are read and written through the documented data members only
// (never through the functions under test).
#pragma once

#include "engabra.hpp"

#include "ref.hpp"

namespace g3 = engabra::g3;

// kinds, numbered
enum { kD, kS, kV, kB, kT, kSpin, kImsp, kCplx, kDplx, kMV, kCount };

template <class T> struct K { static constexpr bool is{ false }; static constexpr int id{ -1 }; };

#define KIND(TYPE, ID, NAME, N, MASK, ...) \
	template <> struct K<TYPE> \
	{ \
		static constexpr bool is{ true }; \
		static constexpr int id{ ID }; \
		static constexpr int n{ N }; \
		static constexpr unsigned mask{ MASK }; /* grades present */ \
		static char const * name() { return NAME; } \
		static int at(int i) { static int const p[N] = { __VA_ARGS__ }; return p[i]; } \
		static inline TYPE make(double const * v); \
		static inline void get(TYPE const & x, double * v); \
	}

KIND(double, kD, "double", 1, 1u, 0);
KIND(g3::Scalar, kS, "Scalar", 1, 1u, 0);
KIND(g3::Vector, kV, "Vector", 3, 2u, 1, 2, 3);
KIND(g3::BiVector, kB, "BiVector", 3, 4u, 4, 5, 6);
KIND(g3::TriVector, kT, "TriVector", 1, 8u, 7);
KIND(g3::Spinor, kSpin, "Spinor", 4, 5u, 0, 4, 5, 6);
KIND(g3::ImSpin, kImsp, "ImSpin", 4, 10u, 1, 2, 3, 7);
KIND(g3::ComPlex, kCplx, "ComPlex", 2, 9u, 0, 7);
KIND(g3::DirPlex, kDplx, "DirPlex", 6, 6u, 1, 2, 3, 4, 5, 6);
KIND(g3::MultiVector, kMV, "MultiVector", 8, 15u, 0, 1, 2, 3, 4, 5, 6, 7);

inline double K<double>::make(double const * v) { return v[0]; }
inline void K<double>::get(double const & x, double * v) { v[0] = x; }

namespace detail
{
	template <class Blade, std::size_t N>
	inline Blade blade(double const * v)
	{
		Blade b;
		for (std::size_t i = 0; i < N; ++i) { b.theData[i] = v[i]; }
		return b;
	}
	template <class Blade>
	inline void put(Blade const & b, double * v)
	{
		for (std::size_t i = 0; i < b.theData.size(); ++i) { v[i] = b.theData[i]; }
	}
}
inline g3::Scalar K<g3::Scalar>::make(double const * v) { return detail::blade<g3::Scalar, 1>(v); }
inline g3::Vector K<g3::Vector>::make(double const * v) { return detail::blade<g3::Vector, 3>(v); }
inline g3::BiVector K<g3::BiVector>::make(double const * v) { return detail::blade<g3::BiVector, 3>(v); }
inline g3::TriVector K<g3::TriVector>::make(double const * v) { return detail::blade<g3::TriVector, 1>(v); }
inline void K<g3::Scalar>::get(g3::Scalar const & x, double * v) { detail::put(x, v); }
inline void K<g3::Vector>::get(g3::Vector const & x, double * v) { detail::put(x, v); }
inline void K<g3::BiVector>::get(g3::BiVector const & x, double * v) { detail::put(x, v); }
inline void K<g3::TriVector>::get(g3::TriVector const & x, double * v) { detail::put(x, v); }

#define TWO(TYPE, M1, T1, N1, M2, T2) \
	inline TYPE K<TYPE>::make(double const * v) \
		{ TYPE x; x.M1 = K<T1>::make(v); x.M2 = K<T2>::make(v + N1); return x; } \
	inline void K<TYPE>::get(TYPE const & x, double * v) \
		{ K<T1>::get(x.M1, v); K<T2>::get(x.M2, v + N1); }
TWO(g3::Spinor, theSca, g3::Scalar, 1, theBiv, g3::BiVector)
TWO(g3::ImSpin, theVec, g3::Vector, 3, theTri, g3::TriVector)
TWO(g3::ComPlex, theSca, g3::Scalar, 1, theTri, g3::TriVector)
TWO(g3::DirPlex, theVec, g3::Vector, 3, theBiv, g3::BiVector)
#undef TWO
inline g3::MultiVector K<g3::MultiVector>::make(double const * v)
{
	g3::MultiVector x;
	x.theSca = K<g3::Scalar>::make(v);
	x.theVec = K<g3::Vector>::make(v + 1);
	x.theBiv = K<g3::BiVector>::make(v + 4);
	x.theTri = K<g3::TriVector>::make(v + 7);
	return x;
}
inline void K<g3::MultiVector>::get(g3::MultiVector const & x, double * v)
{
	K<g3::Scalar>::get(x.theSca, v);
	K<g3::Vector>::get(x.theVec, v + 1);
	K<g3::BiVector>::get(x.theBiv, v + 4);
	K<g3::TriVector>::get(x.theTri, v + 7);
}

inline char const * kindName(int id)
{
	static char const * const n[kCount]{ "double", "Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector" };
	return (id >= 0 && id < kCount) ? n[id] : "(other)";
}
inline unsigned kindMask(int id)
{
	static unsigned const m[kCount]{ 1u, 1u, 2u, 4u, 8u, 5u, 10u, 9u, 6u, 15u };
	return m[id];
}
inline int kindSize(int id)
{
	static int const m[kCount]{ 1, 1, 3, 3, 1, 4, 4, 2, 6, 8 };
	return m[id];
}
inline int kindAt(int id, int i)
{
	static int const p[kCount][8]
		{ { 0 }, { 0 }, { 1, 2, 3 }, { 4, 5, 6 }, { 7 }, { 0, 4, 5, 6 }, { 1, 2, 3, 7 }, { 0, 7 }, { 1, 2, 3, 4, 5, 6 }, { 0, 1, 2, 3, 4, 5, 6, 7 } };
	return p[id][i];
}
//! Smallest provided kind whose grades include those of the mask
inline int kindOfMask(unsigned mask)
{
	switch (mask)
	{
		case 1u: return kS;
		case 2u: return kV;
		case 4u: return kB;
		case 8u: return kT;
		case 5u: return kSpin;
		case 10u: return kImsp;
		case 9u: return kCplx;
		case 6u: return kDplx;
		default: return kMV;
	}
}
//! Grades that a product of two grade sets can produce
inline unsigned prodMask(unsigned a, unsigned b)
{
	unsigned r{ 0 };
	for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j)
	{
		if ((a >> ref::gradeOf(i) & 1u) && (b >> ref::gradeOf(j) & 1u))
		{
			r |= 1u << ref::gradeOf(ref::tab.to[i][j]);
		}
	}
	return r;
}
inline int prodKind(int a, int b)
{
	if (a == kD) { return b; }
	if (b == kD) { return a; }
	return kindOfMask(prodMask(kindMask(a), kindMask(b)));
}

template <class T>
inline ref::M8 toRef(T const & x)
{
	double v[8];
	K<T>::get(x, v);
	ref::M8 r;
	for (int i = 0; i < K<T>::n; ++i) { r.c[K<T>::at(i)] = v[i]; }
	return r;
}
inline ref::M8 toRef(int kind, double const * v)
{
	ref::M8 r;
	for (int i = 0; i < kindSize(kind); ++i) { r.c[kindAt(kind, i)] = v[i]; }
	return r;
}

inline std::string show(int kind, double const * v)
{
	std::string s{ kindName(kind) };
	s += "{";
	for (int i = 0; i < kindSize(kind); ++i)
	{
		s += mc::fmt("%s%.17g", i ? ", " : " ", v[i]);
	}
	return s + " }";
}
template <class T>
inline std::string show(T const & x)
{
	double v[8];
	K<T>::get(x, v);
	return show(K<T>::id, v);
}

template <class... Ts> struct List {};
using AllKinds = List
	< double, g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector
	, g3::Spinor, g3::ImSpin, g3::ComPlex, g3::DirPlex, g3::MultiVector >;
using GaKinds = List
	< g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector
	, g3::Spinor, g3::ImSpin, g3::ComPlex, g3::DirPlex, g3::MultiVector >;
using BladeKinds = List
	< g3::Scalar, g3::Vector, g3::BiVector, g3::TriVector >;

template <class T> struct Tag { using type = T; };
template <class... Ts, class F>
inline void forKinds(List<Ts...>, F const & f) { (f(Tag<Ts>{}), ...); }
#define TY(tag) typename std::decay_t<decltype(tag)>::type

// ---- does an expression exist, and what does it give ----
#define HAS1(NAME, EXPR) \
	template <class A, class = void> struct has_##NAME : std::false_type {}; \
	template <class A> struct has_##NAME<A, std::void_t<decltype(EXPR)>> : std::true_type {}
#define HAS2(NAME, EXPR) \
	template <class A, class B, class = void> struct has_##NAME : std::false_type {}; \
	template <class A, class B> struct has_##NAME<A, B, std::void_t<decltype(EXPR)>> : std::true_type {}
#define DA std::declval<A const &>()
#define DB std::declval<B const &>()
HAS2(mul, DA * DB);
HAS2(add, DA + DB);
HAS2(sub, DA - DB);

// ---- enumeration helpers ----

//! All words of length n over an alphabet
template <class F>
inline void words(int n, std::vector<double> const & alpha, F const & f)
{
	double v[24];
	int d[24];
	int const m{ static_cast<int>(alpha.size()) };
	for (int i = 0; i < n; ++i) { d[i] = 0; v[i] = alpha[0]; }
	while (true)
	{
		f(static_cast<double const *>(v));
		int i{ n - 1 };
		while (i >= 0)
		{
			if (++d[i] < m) { v[i] = alpha[d[i]]; break; }
			d[i] = 0;
			v[i] = alpha[0];
			--i;
		}
		if (i < 0) { break; }
	}
}

//! All words of length n equal to base except at no more than k places
template <class F>
inline void sparse(int n, int k, double const * base, std::vector<double> const & alpha, F const & f)
{
	double v[24];
	for (int i = 0; i < n; ++i) { v[i] = base[i]; }
	f(static_cast<double const *>(v));
	if (k < 1) { return; }
	for (int i = 0; i < n; ++i)
	{
		for (double const & x : alpha)
		{
			v[i] = x;
			f(static_cast<double const *>(v));
			if (k > 1)
			{
				for (int j = i + 1; j < n; ++j)
				{
					for (double const & y : alpha)
					{
						v[j] = y;
						f(static_cast<double const *>(v));
						if (k > 2)
						{
							for (int l = j + 1; l < n; ++l)
							{
								for (double const & z : alpha)
								{
									v[l] = z;
									f(static_cast<double const *>(v));
								}
								v[l] = base[l];
							}
						}
					}
					v[j] = base[j];
				}
			}
		}
		v[i] = base[i];
	}
}

//! largest symmetric small-integer alphabet with size^n <= budget
inline std::vector<double> intAlphabet(int n, double budget)
{
	std::vector<std::vector<double>> const as
		{ { -4, -3, -2, -1, 0, 1, 2, 3, 4 }
		, { -3, -2, -1, 0, 1, 2, 3 }
		, { -2, -1, 0, 1, 2 }
		, { -1, 0, 1, 2 }
		, { -1, 0, 1 }
		};
	for (auto const & a : as)
	{
		if (std::pow(double(a.size()), n) <= budget) { return a; }
	}
	return { 0, 1 };
}

static double const zeros24[24]{};
