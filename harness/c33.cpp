// C33 - what compiles means what it says.
//
// Enumerated: all pairs of types from the ten kinds, all arithmetic types and a
// few foreign ones, under every operator of the language and every conversion.
// Decided: which of them the compiler accepts (no implicit conversion, none of
// the operators that the documentation leaves out), and that each accepted one
// gives what the algebra gives, for all words of operand components and however
// the operands are held (const, lvalue, temporary).
#include "num.hpp"
#include "optable.hpp"

#include <complex>
#include <tuple>

enum Unscoped { uZero, uOne, uThree = 3 };

namespace
{
using mc::Ctx;
using namespace num;

struct AnyThing { template <class T> operator T() const; };

using Arith = List<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double>;
using Foreign = List<std::complex<float>, std::complex<double>, std::array<double, 1>, std::array<double, 2>, std::array<double, 3>, std::array<double, 4>, std::array<double, 8>, std::string, char const *, double *, double const *, void *, std::nullptr_t, std::pair<double, double>, std::tuple<double, double, double>, std::vector<double>, Unscoped>;

template <class T> std::string nameOf()
{
	if constexpr (K<T>::is) { return K<T>::name(); }
	else
	{
		std::string s(__PRETTY_FUNCTION__);
		auto const b(s.find("T = ")), e(s.find_first_of(";]", b));
		return s.substr(b + 4, e - b - 4);
	}
}

// ------------------------------------------------ operators of the language
#define BINARY(N, E) \
	template <class A, class B, class = void> struct N : std::false_type {}; \
	template <class A, class B> struct N<A, B, std::void_t<decltype(E)>> : std::true_type {}
#define X std::declval<A>()
#define Y std::declval<B>()
BINARY(oMul, X * Y); BINARY(oAdd, X + Y); BINARY(oSub, X - Y);
BINARY(oDiv, X / Y); BINARY(oMod, X % Y);
BINARY(oXor, X ^ Y); BINARY(oAnd, X & Y); BINARY(oOr, X | Y); BINARY(oLAnd, X && Y); BINARY(oLOr, X || Y);
BINARY(oShr, X >> Y); BINARY(oShl, X << Y);
BINARY(oLt, X < Y); BINARY(oLe, X <= Y); BINARY(oGt, X > Y); BINARY(oGe, X >= Y);
BINARY(oEq, X == Y);
BINARY(oAddTo, X += Y); BINARY(oSubTo, X -= Y); BINARY(oMulTo, X *= Y); BINARY(oDivTo, X /= Y); BINARY(oModTo, X %= Y);
BINARY(oXorTo, X ^= Y); BINARY(oAndTo, X &= Y); BINARY(oOrTo, X |= Y);
BINARY(oPtr, X->*Y);
#undef Y
#define UNARY(N, E) \
	template <class A, class = void> struct N : std::false_type {}; \
	template <class A> struct N<A, std::void_t<decltype(E)>> : std::true_type {}
UNARY(uInc, ++X); UNARY(uIncP, X++); UNARY(uDec, --X); UNARY(uDecP, X--); UNARY(uNot, ! X); UNARY(uCompl, ~X); UNARY(uDeref, *X); UNARY(uCall, X());
#undef X

template <class From, class To> void conversion(Ctx & cx)
{
	if (! cx.next()) { return; }
	cx.did();
	bool const entities{ K<From>::id > kD || K<To>::id > kD };
	if (! entities) { return; }
	constexpr bool same{ std::is_same<From, To>::value };
	// the one documented cast: scalar-plus-pseudoscalar to the complex numbers
	constexpr bool toComplex{ K<From>::id == kCplx && std::is_same<To, std::complex<double>>::value };
	// (and from there on, where its constructors ask for it)
	constexpr bool further{ K<From>::id == kCplx && std::is_constructible<To, std::complex<double>>::value };
	constexpr bool widens{ K<To>::id == kMV && (K<From>::id > kD || std::is_arithmetic<From>::value || std::is_enum<From>::value) };
	bool const imp[]{ std::is_convertible<From, To>::value, std::is_convertible<From const &, To>::value, std::is_convertible<From &, To>::value };
	bool const exp[]{ std::is_constructible<To, From>::value, std::is_constructible<To, From const &>::value, std::is_constructible<To, From &>::value };
	bool const asg[]{ std::is_assignable<To &, From>::value, std::is_assignable<To &, From const &>::value };
	std::string const what("from " + nameOf<From>() + " to " + nameOf<To>());
	for (bool const b : imp) { if (b && ! same && ! toComplex) { cx.fail("an implicit conversion " + what); } if (! b && (same || toComplex)) { cx.fail("no conversion " + what); } }
	for (bool const b : asg) { if (b && ! same && ! toComplex) { cx.fail("an assignment " + what); } if (! b && same) { cx.fail("no assignment " + what); } }
	for (bool const b : exp)
	{
		if (b && ! same && ! toComplex && ! further && ! widens) { cx.fail("an explicit conversion " + what + ", which cannot keep all components"); }
		if (! b && (same || toComplex || (widens && ! std::is_enum<From>::value))) { cx.fail("no explicit conversion " + what); }
	}
	cx.trace(3);
}
template <class A, class B> void unsupported(Ctx & cx)
{
	if (! cx.next()) { return; }
	cx.did();
	struct { char const * name; bool is; } const ops[]
		{ { "/", oDiv<A &, B &>::value }, { "%", oMod<A &, B &>::value }, { "^", oXor<A &, B &>::value }, { "&", oAnd<A &, B &>::value }, { "|", oOr<A &, B &>::value }
		, { "&&", oLAnd<A &, B &>::value }, { "||", oLOr<A &, B &>::value }, { ">>", oShr<A &, B &>::value }, { "<<", oShl<A &, B &>::value }
		, { "<", oLt<A &, B &>::value }, { "<=", oLe<A &, B &>::value }, { ">", oGt<A &, B &>::value }, { ">=", oGe<A &, B &>::value }
		, { "+=", oAddTo<A &, B &>::value }, { "-=", oSubTo<A &, B &>::value }, { "*=", oMulTo<A &, B &>::value }, { "/=", oDivTo<A &, B &>::value }, { "%=", oModTo<A &, B &>::value }
		, { "^=", oXorTo<A &, B &>::value }, { "&=", oAndTo<A &, B &>::value }, { "|=", oOrTo<A &, B &>::value } };
	for (auto const & o : ops) { if (o.is) { cx.fail("an operator that is left out of the library is accepted: " + nameOf<A>() + " " + o.name + " " + nameOf<B>()); } }
	cx.trace(sizeof ops / sizeof *ops);
}
template <class A> void unaryUnsupported(Ctx & cx)
{
	if (! cx.next()) { return; }
	struct { char const * name; bool is; } const ops[]
		{ { "++", uInc<A &>::value || uIncP<A &>::value }, { "--", uDec<A &>::value || uDecP<A &>::value }, { "!", uNot<A &>::value }, { "~", uCompl<A &>::value }, { "unary *", uDeref<A &>::value }, { "()", uCall<A &>::value } };
	for (auto const & o : ops) { if (o.is) { cx.fail("an operator that is left out of the library is accepted: " + std::string(o.name) + " of " + nameOf<A>()); } }
	if (std::is_constructible<bool, A>::value || std::is_constructible<double, A>::value || std::is_constructible<int, A>::value) { cx.fail(std::string("a conversion of ") + K<A>::name() + " to a number"); }
	cx.did();
	cx.trace(6);
}

// --------------------------------------------------- what is accepted is right

//! exact on the words used; the double operand converted first
template <class R> bool is(R const & r, ref::M8 const & want, int kind)
{
	if constexpr (! K<R>::is) { return false; }
	else
	{
		if (K<R>::id != kind) { return false; }
		ref::M8 const got(toRef(r));
		for (int i = 0; i < 8; ++i) { if (got.c[i] != want.c[i]) { return false; } }
		return true;
	}
}
bool equal(ref::M8 const & a, ref::M8 const & b) { return std::equal(a.c, a.c + 8, b.c); }
//! An arithmetic type meets an entity
template <class T, class A> void mixed(Ctx & cx, T const & t, A const & a)
{
	ref::M8 const ra(toRef(a));
	ref::M8 rt;
	rt.c[0] = double(t);
	ref::M8 prod;
	for (int i = 0; i < 8; ++i) { prod.c[i] = double(t) * double(ra.c[i]); }
	auto where = [&](char const * op) { return nameOf<T>() + mc::fmt(" %.17g ", double(t)) + op + " " + ::show(a); };
	T u(t);
	A w(a);
	cx.did(6);
	cx.trace(6);
	if constexpr (! oMul<T const &, A const &>::value || ! oMul<A const &, T const &>::value) { cx.fail("no product: " + where("*")); }
	else
	{
		if (! is(t * a, prod, K<A>::id) || ! is(u * w, prod, K<A>::id) || ! is(T(t) * A(a), prod, K<A>::id)) { cx.fail("wrong: " + where("*") + "\n  gives " + [&] { Val v; optable::store(t * a, v); return ::show(v); }()); }
		if (! is(a * t, prod, K<A>::id) || ! is(w * u, prod, K<A>::id) || ! is(A(a) * T(t), prod, K<A>::id)) { cx.fail("wrong: " + where("* (the entity first)") + "\n  gives " + [&] { Val v; optable::store(a * t, v); return ::show(v); }()); }
	}
	// sums with bare numbers are not part of the library; if accepted, they are those of the algebra
	int const sumKind{ kindOfMask(kindMask(K<A>::id) | 1u) };
	if constexpr (oAdd<T const &, A const &>::value) { if (! is(t + a, ref::add(rt, ra), sumKind)) { cx.fail("accepted but wrong: " + where("+")); } }
	if constexpr (oAdd<A const &, T const &>::value) { if (! is(a + t, ref::add(ra, rt), sumKind)) { cx.fail("accepted but wrong: " + where("+ (the entity first)")); } }
	if constexpr (oSub<T const &, A const &>::value) { if (! is(t - a, ref::sub(rt, ra), sumKind)) { cx.fail("accepted but wrong: " + where("-")); } }
	if constexpr (oSub<A const &, T const &>::value) { if (! is(a - t, ref::sub(ra, rt), sumKind)) { cx.fail("accepted but wrong: " + where("- (the entity first)")); } }
	if constexpr (oEq<T const &, A const &>::value) { if (bool(t == a) != equal(rt, ra)) { cx.fail("accepted but wrong: " + where("==")); } }
	if constexpr (oEq<A const &, T const &>::value) { if (bool(a == t) != equal(rt, ra)) { cx.fail("accepted but wrong: " + where("== (the entity first)")); } }
	if constexpr (std::is_constructible<g3::MultiVector, T const &>::value)
	{
		if (! is(g3::MultiVector(t), rt, kMV) || ! is(g3::MultiVector{ double(t) }, rt, kMV)) { cx.fail("MultiVector of " + nameOf<T>() + mc::fmt(" %.17g", double(t)) + " is " + ::show(g3::MultiVector(t))); }
	}
}
//! Two entities of any kinds, held in every way
template <class A, class B> void both(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	B const b(K<B>::make(v + K<A>::n));
	A x(a);
	B y(b);
	ref::M8 const ra(toRef(a)), rb(toRef(b));
	auto where = [&](char const * op) { return ::show(a) + " " + op + " " + ::show(b); };
	if constexpr (! oMul<A const &, B const &>::value) { cx.fail("no product: " + where("*")); }
	else
	{
		if (std::is_reference<decltype(a * b)>::value || std::is_reference<decltype(x * y)>::value || std::is_reference<decltype(A(a) * B(b))>::value) { cx.fail("a reference, not an object of its own: " + where("*")); }
		ref::M8 const w(ref::mul(ra, rb));
		int const k{ prodKind(K<A>::id, K<B>::id) };
		if (! is(a * b, w, k) || ! is(x * b, w, k) || ! is(a * y, w, k) || ! is(x * y, w, k) || ! is(A(a) * b, w, k) || ! is(a * B(b), w, k) || ! is(A(a) * B(b), w, k) || ! is(std::move(x) * std::move(y), w, k)) { cx.fail("wrong, held in some way: " + where("*")); }
		cx.did(8);
	}
	int const k{ kindOfMask(kindMask(K<A>::id) | kindMask(K<B>::id)) };
	if constexpr (oAdd<A const &, B const &>::value)
	{
		if (std::is_reference<decltype(a + b)>::value || std::is_reference<decltype(x + y)>::value || std::is_reference<decltype(A(a) + B(b))>::value) { cx.fail("a reference, not an object of its own: " + where("+")); }
		ref::M8 const w(ref::add(ra, rb));
		if (! is(a + b, w, k) || ! is(x + b, w, k) || ! is(a + y, w, k) || ! is(x + y, w, k) || ! is(A(a) + b, w, k) || ! is(a + B(b), w, k) || ! is(A(a) + B(b), w, k)) { cx.fail("wrong, held in some way: " + where("+")); }
		cx.did(7);
	}
	else if (k != kMV) { cx.fail("no sum although a kind holds it: " + where("+")); }
	if constexpr (oSub<A const &, B const &>::value)
	{
		// (six differences of the library are known to be negated: property C03)
		if (std::is_reference<decltype(a - b)>::value || std::is_reference<decltype(x - y)>::value || std::is_reference<decltype(A(a) - B(b))>::value) { cx.fail("a reference, not an object of its own: " + where("-")); }
		auto const d(a - b);
		bool const neg{ is(d, ref::sub(rb, ra), k) };
		ref::M8 const w(neg ? ref::sub(rb, ra) : ref::sub(ra, rb));
		if (! is(d, w, k) || ! is(x - b, w, k) || ! is(a - y, w, k) || ! is(x - y, w, k) || ! is(A(a) - b, w, k) || ! is(a - B(b), w, k) || ! is(A(a) - B(b), w, k)) { cx.fail("wrong, held in some way: " + where("-")); }
		cx.did(7);
	}
	if constexpr (oEq<A const &, B const &>::value)
	{
		bool const w{ equal(ra, rb) };
		if (bool(a == b) != w || bool(x == y) != w || bool(A(a) == B(b)) != w || bool(b == a) != w) { cx.fail("wrong, held in some way: " + where("==")); }
		cx.did(4);
	}
	else if (std::is_same<A, B>::value && K<A>::id != kCplx && K<A>::id != kDplx) { cx.fail("no comparison: " + where("==")); }
	for (int i = 0; i < K<A>::n; ++i) { double g[8]; K<A>::get(a, g); if (! sameBitsD(g[i], v[i])) { cx.fail("an operand changes: " + where("op")); } }
	double sample[8];
	K<A>::get(a, sample);
	cx.outcome(sample, K<A>::n);
	cx.trace(4);
}
//! Functions of one entity, held in every way; and what they give is an object of its own
#define FN(N, E) \
	struct f_##N { static char const * name() { return #N; } template <class T> auto operator()(T && q) const -> decltype(E) { return E; } };
#define Q std::forward<T>(q)
FN(negative, -Q) FN(reverse, g3::reverse(Q)) FN(oddverse, g3::oddverse(Q)) FN(dirverse, g3::dirverse(Q)) FN(dual, g3::dual(Q))
FN(sq, g3::sq(Q)) FN(cube, g3::cube(Q)) FN(magSq, g3::magSq(Q)) FN(magnitude, g3::magnitude(Q)) FN(direction, g3::direction(Q))
FN(pairMagDirFrom, g3::pairMagDirFrom(Q)) FN(ampSq, g3::ampSq(Q)) FN(amplitude, g3::amplitude(Q)) FN(inverse, g3::inverse<std::decay_t<T>>(Q)) FN(exp, g3::exp(Q))
FN(logG2, g3::logG2(Q)) FN(sqrtG2, g3::sqrtG2(Q)) FN(isValid, g3::isValid(Q)) FN(nearlyEquals, g3::nearlyEquals(Q, Q))
FN(fixed, g3::io::fixed(Q)) FN(enote, g3::io::enote(Q)) FN(promote, g3::MultiVector(Q)) FN(copy, std::decay_t<T>(Q))
#undef Q
#undef FN
using Functions = List<f_negative, f_reverse, f_oddverse, f_dirverse, f_dual, f_sq, f_cube, f_magSq, f_magnitude, f_direction, f_pairMagDirFrom, f_ampSq, f_amplitude, f_inverse, f_exp, f_logG2, f_sqrtG2, f_isValid, f_nearlyEquals, f_fixed, f_enote, f_promote, f_copy>;
template <class A> void single(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	forKinds(Functions{}, [&](auto tf)
	{
		using F = TY(tf);
		// (some functions are templates over all types and can only be asked about kinds they are for)
		constexpr int k{ K<A>::id };
		constexpr bool closed{ k == kS || k == kSpin || k == kCplx || k == kMV }, blade{ k >= kS && k <= kT };
		if constexpr ((std::is_same<F, f_sq>::value || std::is_same<F, f_cube>::value) && ! closed) { return; }
		else if constexpr (std::is_same<F, f_inverse>::value && ! (blade || k == kCplx || k == kMV)) { return; }
		else if constexpr ((std::is_same<F, f_fixed>::value || std::is_same<F, f_enote>::value) && (k == kCplx || k == kDplx)) { return; }
		else if constexpr (std::is_same<F, f_exp>::value && ! (k == kB || k == kSpin || k == kMV)) { return; }
		else if constexpr ((std::is_same<F, f_logG2>::value || std::is_same<F, f_sqrtG2>::value) && k != kSpin) { return; }
		else {
		constexpr bool c{ std::is_invocable<F, A const &>::value }, l{ std::is_invocable<F, A &>::value }, r{ std::is_invocable<F, A>::value }, cr{ std::is_invocable<F, A const>::value };
		if (c != l || c != r || c != cr) { cx.fail(std::string(F::name()) + " of " + K<A>::name() + " is accepted for some of constants, variables and temporaries, not for all"); }
		if constexpr (c && l && r && cr)
		{
			using R = std::invoke_result_t<F, A const &>;
			if (std::is_reference<R>::value || std::is_reference<std::invoke_result_t<F, A &>>::value || std::is_reference<std::invoke_result_t<F, A>>::value) { cx.fail(std::string(F::name()) + " of " + K<A>::name() + " gives a reference, not an object of its own"); }
			auto val = [](auto const & x) { Val o; optable::store(x, o); return o; };
			Val const w(val(F{}(a)));
			auto agree = [&](Val const & got, char const * how) { if (! sameBits(got, w)) { cx.fail(std::string(F::name()) + " of a " + how + " differs from that of a constant: " + ::show(a) + "\n  got " + ::show(got) + " not " + ::show(w)); } };
			A x(a), y(a);
			agree(val(F{}(x)), "variable");
			agree(val(F{}(K<A>::make(v))), "temporary");
			agree(val(F{}(std::move(y))), "variable that is moved from");
			agree(val(F{}(static_cast<A const>(a))), "constant temporary");
			double g[8];
			K<A>::get(x, g);
			for (int i = 0; i < K<A>::n; ++i) { if (! sameBitsD(g[i], v[i])) { cx.fail(std::string(F::name()) + " changes its operand " + ::show(a)); } }
			cx.did(5);
			cx.trace(4);
		}
		else { cx.fail(std::string(F::name()) + " of " + K<A>::name() + " does not exist"); }
		}
	});
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	auto everything = [&](auto const & f)
	{
		forKinds(GaKinds{}, f);
		forKinds(Arith{}, f);
		forKinds(Foreign{}, f);
	};
	forKinds(GaKinds{}, [&](auto ta)
	{
		using A = TY(ta);
		everything([&](auto tb)
		{
			using B = TY(tb);
			conversion<A, B>(cx);
			if constexpr (! std::is_same<A, B>::value) { conversion<B, A>(cx); }
			// (a stream is what << and >> are for; a string is none)
			unsupported<A, B>(cx);
			if constexpr (! K<B>::is || std::is_same<B, double>::value) { unsupported<B, A>(cx); }
		});
		unaryUnsupported<A>(cx);
	});
	// bare numbers of every type
	forKinds(GaKinds{}, [&](auto ta)
	{
		using A = TY(ta);
		auto numbers = [&](double const * v)
		{
			A const a(K<A>::make(v));
			forKinds(Arith{}, [&](auto tt)
			{
				using T = TY(tt);
				std::vector<double> xs{ 0, 1 };
				if (! std::is_same<T, bool>::value) { for (double x : { 2., 3., 7., 100. }) { xs.push_back(x); } }
				if (std::is_signed<T>::value) { for (double x : { -1., -2., -5. }) { xs.push_back(x); } }
				if (std::is_floating_point<T>::value) { for (double x : { .5, -.25, 1.0625 }) { xs.push_back(x); } }
				if (sizeof(T) >= 4 && ! std::is_same<T, bool>::value) { xs.push_back(65536.); xs.push_back(16777216.); }
				for (double x : xs)
				{
					if (! cx.next()) { continue; }
					mixed<T, A>(cx, T(x), a);
					if (cx.sampleNow()) { cx.sample(nameOf<T>() + mc::fmt(" %g with ", x) + ::show(a)); }
				}
			});
		};
		words(K<A>::n, intAlphabet(K<A>::n, th ? 5e4 : 2e3), numbers);
		words(K<A>::n, K<A>::n > 4 ? std::vector<double>{ 0.1, -1e9 - 1./3 } : std::vector<double>{ 0.1, 0., -1e9 - 1./3 }, numbers);
	});
	// entities, held in every way
	forKinds(GaKinds{}, [&](auto ta)
	{
		using A = TY(ta);
		words(K<A>::n, intAlphabet(K<A>::n, th ? 3e5 : 7e3), [&](double const * v) { if (cx.next()) { single<A>(cx, v); } });
		for (double s : { 1e-7, 1e9, 0.3 }) { words(K<A>::n, { -s, 0., s / 3 }, [&](double const * v) { if (cx.next()) { single<A>(cx, v); } }); }
	});
	// entities of two kinds
	forKinds(GaKinds{}, [&](auto ta)
	{
		using A = TY(ta);
		forKinds(GaKinds{}, [&](auto tb)
		{
			using B = TY(tb);
			int const n{ K<A>::n + K<B>::n };
			words(n, intAlphabet(n, th ? 1e6 : 7e4), [&](double const * v) { if (cx.next()) { both<A, B>(cx, v); if (cx.sampleNow()) { cx.sample("operators between " + ::show(K<A>::id, v) + " and " + ::show(K<B>::id, v + K<A>::n)); } } });
		});
	});
}
