// Every value-to-value operation of the library as a table of uniformly typed
// functions over plain component arrays, so that explorers can choose the next
// operation at run time.
#pragma once

#include "kinds.hpp"

struct Val
{
	int kind{ -1 };        // kind number, or 20: bool/double list, 21: text
	int n{ 0 };            // doubles in use
	double c[12]{};
	std::string text;
};
enum { kList = 20, kText = 21 };

inline bool sameBits(double x, double y)
{
	if (x != x || y != y) { return x != x && y != y; }
	return std::memcmp(&x, &y, 8) == 0;
}
inline bool sameBits(Val const & a, Val const & b)
{
	if (a.kind != b.kind || a.n != b.n || a.text != b.text) { return false; }
	for (int i = 0; i < a.n; ++i) { if (! sameBits(a.c[i], b.c[i])) { return false; } }
	return true;
}
inline std::string show(Val const & v)
{
	if (v.kind == kText) { return "\"" + v.text + "\""; }
	if (v.kind >= 0 && v.kind < kCount && v.n == kindSize(v.kind)) { return show(v.kind, v.c); }
	std::string s{ v.kind < kCount && v.kind >= 0 ? std::string(kindName(v.kind)) + "+" : "(" };
	for (int i = 0; i < v.n; ++i) { s += mc::fmt(" %.17g", v.c[i]); }
	return s + " )" + (v.text.empty() ? "" : " \"" + v.text + "\"");
}

enum OpClass { cMul, cAdd, cSub, cNeg, cInvol, cDual, cPow, cMag, cDir, cAmp, cInv, cExp, cLog, cCmp, cValid, cText, cConv, cMisc };

struct Op
{
	std::string name;
	int cls;
	int a, b;              // operand kinds; b is -1 for one operand
	bool numeric;          // the result is an entity or a real value
	void (*fn)(double const *, double const *, Val &);
};

namespace optable
{
template <class R>
inline void store(R const & r, Val & v)
{
	if constexpr (K<R>::is)
	{
		v.kind = K<R>::id;
		v.n = K<R>::n;
		K<R>::get(r, v.c);
	}
	else if constexpr (std::is_same<R, bool>::value)
	{
		v.kind = kList;
		v.n = 1;
		v.c[0] = r ? 1. : 0.;
	}
	else if constexpr (std::is_same<R, std::string>::value)
	{
		v.kind = kText;
		v.n = 0;
		v.text = r;
	}
	else
	{
		// pair of magnitude and direction
		v.kind = kList;
		using D = std::decay_t<decltype(r.second)>;
		v.n = 1 + K<D>::n;
		v.c[0] = r.first;
		K<D>::get(r.second, v.c + 1);
	}
}

#if defined OPTABLE_SWITCH
	// either way, chosen at run time
	static bool inPlace{ false };
#	define OPERAND(T, X, P) T X##Made; if (! inPlace) { X##Made = K<T>::make(P); } T const & X(inPlace ? *reinterpret_cast<T const *>(P) : X##Made)
#elif defined OPTABLE_SHARED
	// operands are existing entities, addressed by the pointers
#	define OPERAND(T, X, P) T const & X(*reinterpret_cast<T const *>(P))
#else
#	define OPERAND(T, X, P) T const X(K<T>::make(P))
#endif
#define OP1(NAME, EXPR) \
	template <class A> struct NAME { static void fn(double const * a, double const *, Val & v) \
		{ OPERAND(A, x, a); store(EXPR, v); } }
#define OP2(NAME, EXPR) \
	template <class A, class B> struct NAME { static void fn(double const * a, double const * b, Val & v) \
		{ OPERAND(A, x, a); OPERAND(B, y, b); store(EXPR, v); } }

OP2(Mul, x * y);
OP2(Add, x + y);
OP2(Sub, x - y);
OP1(Neg, -x);
OP1(Reverse, g3::reverse(x));
OP1(Oddverse, g3::oddverse(x));
OP1(Dirverse, g3::dirverse(x));
OP1(Dual, g3::dual(x));
OP1(Sq, g3::sq(x));
OP1(Cube, g3::cube(x));
OP1(MagSq, g3::magSq(x));
OP1(Magnitude, g3::magnitude(x));
OP1(MagDir, g3::pairMagDirFrom(x));
OP1(Direction, g3::direction(x));
OP1(AmpSq, g3::ampSq(x));
OP1(Amplitude, g3::amplitude(x));
OP1(Inverse, g3::inverse<A>(x));
OP1(Exp, g3::exp(x));
OP1(LogG2, g3::logG2(x));
OP1(SqrtG2, g3::sqrtG2(x));
OP2(LogG2Dir, g3::logG2(x, y));
OP2(SqrtG2Dir, g3::sqrtG2(x, y));
OP2(Near, g3::nearlyEquals(x, y));
OP2(NearTol, g3::nearlyEquals(x, y, 0.125));
OP2(Same, (x == y));
OP1(Valid, g3::isValid(x));
OP1(Fixed, g3::io::fixed(x));
OP1(FixedFmt, g3::io::fixed(x, 2u, 3u));
OP1(Enote, g3::io::enote(x));
OP1(EnoteFmt, g3::io::enote(x, 4u));
OP1(FixedLong, g3::io::fixed(x, 40u, 30u));
OP1(EnoteLong, g3::io::enote(x, 40u));
OP1(FixedNone, g3::io::fixed(x, 0u, 0u));
OP1(EnoteNone, g3::io::enote(x, 0u));

template <class A> inline std::string streamed(A const & x)
{
	std::ostringstream o;
	o << x;
	return o.str();
}
OP1(Out, streamed(x));

template <class A> inline A extracted(A const & x)
{
	// written with 17 digits by this harness, read back by the library
	double v[8];
	K<A>::get(x, v);
	std::string s;
	for (int i = 0; i < K<A>::n; ++i) { s += mc::fmt("%.17g ", v[i]); }
	std::istringstream in(s);
	A y;
	in >> y;
	return y;
}
OP1(In, extracted(x));

// text that ends early, or has a word among the numbers; what the grades are
// then, the state of the stream and the rest of the text
template <class A> inline Val failing(A const & x, bool bad)
{
	double v[8];
	K<A>::get(x, v);
	int const n{ K<A>::n };
	std::string s;
	for (int i = 0; i < n; ++i)
	{
		if (bad && i == n / 2) { s += "word "; }
		else if (bad || i + 1 < n) { s += mc::fmt("%.17g ", v[i]); }
	}
	std::istringstream in(s);
	A y;
	in >> y;
	Val r;
	r.kind = kList;
	r.n = n + 1;
	K<A>::get(y, r.c);
	r.c[n] = double(in.rdstate());
	in.clear();
	std::getline(in, r.text);
	return r;
}
inline void store(Val const & r, Val & v) { v = r; }
OP1(InShort, failing(x, false));
OP1(InBad, failing(x, true));
OP2(NearAbs, g3::nearlyEqualsAbs(x, y));
OP2(NearRel, g3::nearlyEqualsRel(x, y));
OP2(NearArray, g3::nearlyEquals(x.theData, y.theData));
OP1(ValidArray, g3::isValid(x.theData));
OP1(FromStd, g3::ComPlex::from(static_cast<std::complex<double> >(x)));
OP1(Promote, g3::MultiVector(x));
#undef OP1
#undef OP2

inline std::vector<Op> build()
{
	std::vector<Op> t;
	auto one = [&](std::string nm, int cls, int a, bool num, void (*fn)(double const *, double const *, Val &))
		{ t.push_back(Op{ nm + "(" + kindName(a) + ")", cls, a, -1, num, fn }); };
	auto two = [&](std::string nm, int cls, int a, int b, bool num, void (*fn)(double const *, double const *, Val &))
		{ t.push_back(Op{ std::string(kindName(a)) + " " + nm + " " + kindName(b), cls, a, b, num, fn }); };
	forKinds(AllKinds{}, [&](auto ta)
	{
		using A = TY(ta);
		int const a{ K<A>::id };
		forKinds(AllKinds{}, [&](auto tb)
		{
			using B = TY(tb);
			int const b{ K<B>::id };
			constexpr bool dd{ std::is_same<A, double>::value && std::is_same<B, double>::value };
			if constexpr (! dd && has_mul<A, B>::value) { two("*", cMul, a, b, true, Mul<A, B>::fn); }
			if constexpr (! dd && has_add<A, B>::value) { two("+", cAdd, a, b, true, Add<A, B>::fn); }
			if constexpr (! dd && has_sub<A, B>::value) { two("-", cSub, a, b, true, Sub<A, B>::fn); }
		});
		constexpr bool isD{ std::is_same<A, double>::value };
		constexpr bool blade{ K<A>::id >= kS && K<A>::id <= kT };
		constexpr bool closed{ isD || K<A>::id == kS || K<A>::id == kSpin || K<A>::id == kCplx || K<A>::id == kMV };
		constexpr bool stream{ ! isD };
		constexpr bool fmtd{ isD || blade || K<A>::id == kSpin || K<A>::id == kImsp || K<A>::id == kMV };
		one("valid", cValid, a, false, Valid<A>::fn);
		two("nearly", cCmp, a, a, false, Near<A, A>::fn);
		two("nearly(1/8)", cCmp, a, a, false, NearTol<A, A>::fn);
		if constexpr (isD)
		{
			two("nearlyAbs", cCmp, a, a, false, NearAbs<A, A>::fn);
			two("nearlyRel", cCmp, a, a, false, NearRel<A, A>::fn);
		}
		if constexpr (blade)
		{
			two("nearly[]", cCmp, a, a, false, NearArray<A, A>::fn);
			one("valid[]", cValid, a, false, ValidArray<A>::fn);
		}
		one("magSq", cMag, a, true, MagSq<A>::fn);
		one("magnitude", cMag, a, true, Magnitude<A>::fn);
		if constexpr (closed)
		{
			one("sq", cPow, a, true, Sq<A>::fn);
			one("cube", cPow, a, true, Cube<A>::fn);
		}
		if constexpr (fmtd)
		{
			one("fixed", cText, a, false, Fixed<A>::fn);
			one("fixed23", cText, a, false, FixedFmt<A>::fn);
			one("enote", cText, a, false, Enote<A>::fn);
			one("enote4", cText, a, false, EnoteFmt<A>::fn);
			one("fixed4030", cText, a, false, FixedLong<A>::fn);
			one("enote40", cText, a, false, EnoteLong<A>::fn);
			one("fixed00", cText, a, false, FixedNone<A>::fn);
			one("enote0", cText, a, false, EnoteNone<A>::fn);
		}
		one("dual", cDual, a, true, Dual<A>::fn);
		one("reverse", cInvol, a, true, Reverse<A>::fn);
		if constexpr (! isD)
		{
			one("oddverse", cInvol, a, true, Oddverse<A>::fn);
			one("dirverse", cInvol, a, true, Dirverse<A>::fn);
			one("neg", cNeg, a, true, Neg<A>::fn);
			one("magdir", cDir, a, true, MagDir<A>::fn);
			one("direction", cDir, a, true, Direction<A>::fn);
			one("ampSq", cAmp, a, true, AmpSq<A>::fn);
			one("amplitude", cAmp, a, true, Amplitude<A>::fn);
			one("<<", cText, a, false, Out<A>::fn);
			one(">>", cText, a, true, In<A>::fn);
			one(">>short", cMisc, a, false, InShort<A>::fn);
			one(">>bad", cMisc, a, false, InBad<A>::fn);
			if constexpr (blade || K<A>::id == kCplx || K<A>::id == kMV) { one("inverse", cInv, a, true, Inverse<A>::fn); }
			if constexpr (K<A>::id != kCplx && K<A>::id != kDplx) { two("==", cCmp, a, a, false, Same<A, A>::fn); }
			if constexpr (K<A>::id != kMV) { one("promote", cConv, a, true, Promote<A>::fn); }
		}
		if constexpr (K<A>::id == kB || K<A>::id == kSpin || K<A>::id == kMV) { one("exp", cExp, a, true, Exp<A>::fn); }
		if constexpr (K<A>::id == kCplx) { one("std::complex", cConv, a, true, FromStd<A>::fn); }
		if constexpr (K<A>::id == kSpin)
		{
			one("logG2", cLog, a, true, LogG2<A>::fn);
			one("sqrtG2", cLog, a, true, SqrtG2<A>::fn);
			two("logG2/plane", cLog, a, kB, true, LogG2Dir<A, g3::BiVector>::fn);
			two("sqrtG2/plane", cLog, a, kB, true, SqrtG2Dir<A, g3::BiVector>::fn);
		}
	});
	return t;
}
} // namespace optable
