// C24 - constants: basis entities, identities, angles.
#include "num.hpp"
#include "optable.hpp"

namespace
{
using mc::Ctx;
using namespace num;

// what a static initialiser that runs before every other one sees
struct Early
{
	double v[8]{};
	double p{ 0 };
	Early()
	{
		v[0] = g3::e0.theData[0];
		v[1] = g3::e1.theData[0];
		v[2] = g3::e2.theData[1];
		v[3] = g3::e3.theData[2];
		v[4] = g3::e23.theData[0];
		v[5] = g3::e31.theData[1];
		v[6] = g3::e12.theData[2];
		v[7] = g3::e123.theData[0];
		p = g3::pi;
	}
};
Early const early __attribute__((init_priority(101))) ;

struct State
{
	int kind;
	double c[8];
	bool operator<(State const & o) const
	{
		if (kind != o.kind) { return kind < o.kind; }
		for (int i = 0; i < kindSize(kind); ++i) { if (c[i] != o.c[i]) { return c[i] < o.c[i]; } }
		return false;
	}
};
template <class T> State state(T const & x)
{
	State s{ K<T>::id, {} };
	K<T>::get(x, s.c);
	return s;
}
std::vector<State> basis()
{
	return { state(g3::e0), state(g3::e1), state(g3::e2), state(g3::e3), state(g3::e23), state(g3::e31), state(g3::e12), state(g3::e123) };
}

//! Breadth first: everything the operations reach from the basis constants
void closure(Ctx & cx)
{
	std::vector<State> const gen(basis());
	std::vector<Op> const ops(optable::build());
	std::vector<Op const *> mul, uni;
	for (Op const & o : ops)
	{
		if (o.cls == cMul) { mul.push_back(&o); }
		else if (o.b < 0 && (o.cls == cNeg || o.cls == cInvol || o.cls == cDual || o.name.compare(0, 7, "promote") == 0 || o.cls == cInv)) { uni.push_back(&o); }
	}
	std::map<State, std::string> seen;
	std::vector<State> front;
	auto visit = [&](State const & s, std::string const & how) { if (seen.emplace(s, how).second) { front.push_back(s); } };
	static char const * const nm[8]{ "e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123" };
	for (int i = 0; i < 8; ++i)
	{
		if (! cx.next()) { continue; }
		M8 const m(toRef(gen[i].kind, gen[i].c));
		for (int k = 0; k < 8; ++k) { if (m.c[k] != (k == i ? 1 : 0)) { cx.fail(std::string("basis constant ") + nm[i] + " is " + ref::str(m)); } }
	}
	for (int i = 0; i < 8; ++i) { visit(gen[i], nm[i]); }
	int depth{ 0 };
	while (! front.empty() && depth < 64)
	{
		std::vector<State> const now(front);
		front.clear();
		++depth;
		for (State const & s : now)
		{
			std::string const from{ seen[s] };
			M8 const m(toRef(s.kind, s.c));
			bool const mine{ cx.next() };
			auto judge = [&](Op const & o, State const * a, State const * b, M8 const & want, std::string const & how)
			{
				Val r;
				o.fn(a->c, b ? b->c : nullptr, r);
				if (mine)
				{
					cx.did();
					cx.outcome(r.c, r.n);
				}
				if (r.kind < 0 || r.kind >= kCount) { if (mine) { cx.fail(how + " is no entity"); } return; }
				M8 const got(toRef(r.kind, r.c));
				int ones{ 0 };
				for (int k = 0; k < 8; ++k)
				{
					if (got.c[k] == 1 || got.c[k] == -1) { ++ones; }
					if (got.c[k] != want.c[k])
					{
						if (mine) { cx.fail("with basis entities, " + how + " gives " + ref::str(got) + ", expected " + ref::str(want)); }
						return;
					}
				}
				if (mine && ones != 1) { cx.fail(how + " left the group of signed basis entities: " + ref::str(got)); }
				State t{ r.kind, {} };
				for (int k = 0; k < r.n; ++k) { t.c[k] = r.c[k] + 0.; }
				visit(t, how);
			};
			for (Op const * o : mul)
			{
				for (int g = 0; g < 8; ++g)
				{
					if (o->a == s.kind && o->b == gen[g].kind) { judge(*o, &s, &gen[g], ref::mul(m, toRef(gen[g].kind, gen[g].c)), "(" + from + ")*" + nm[g]); }
					if (o->b == s.kind && o->a == gen[g].kind) { judge(*o, &gen[g], &s, ref::mul(toRef(gen[g].kind, gen[g].c), m), std::string(nm[g]) + "*(" + from + ")"); }
				}
			}
			for (Op const * o : uni)
			{
				if (o->a != s.kind) { continue; }
				std::string const how{ o->name.substr(0, o->name.find('(')) + "(" + from + ")" };
				M8 w;
				if (o->cls == cDual) { w = ref::dual(m); }
				else if (o->cls == cNeg) { w = ref::neg(m); }
				else if (o->cls == cInv) { w = ref::mul(ref::reverse(m), M8{ { 1 } }); }
				else if (how.compare(0, 3, "rev") == 0) { w = ref::reverse(m); }
				else if (how.compare(0, 3, "odd") == 0) { w = ref::oddverse(m); }
				else if (how.compare(0, 3, "dir") == 0) { w = ref::dirverse(m); }
				else { w = m; }
				judge(*o, &s, nullptr, w, how);
			}
			if (mine) { cx.trace(); if (cx.sampleNow()) { cx.sample("reached " + show(s.kind, s.c) + " as " + from); } }
		}
	}
	if (cx.shard == 0)
	{
		cx.info["entities in the closure"] += seen.size();
		cx.info["breadth-first depth"] += depth;
		// every product of the group has both signs of its 8 members
		std::set<int> mv;
		for (auto const & kv : seen) { M8 const m(toRef(kv.first.kind, kv.first.c)); for (int k = 0; k < 8; ++k) { if (m.c[k] != 0) { mv.insert(m.c[k] > 0 ? k : k + 8); } } }
		if (mv.size() != 16u) { if (cx.next()) { cx.fail(mc::fmt("the basis generates %zu signed elements, not 16", mv.size())); } }
	}
}

//! Relations among the constants as documented, with the typed operators
void relations(Ctx & cx)
{
	auto is = [&](bool ok, char const * what) { if (! cx.next()) { return; } cx.did(); cx.trace(); if (! ok) { cx.fail(std::string("documented relation does not hold: ") + what); } };
	auto eq = [&](auto const & a, auto const & b, char const * what) { M8 const x(toRef(a)), y(toRef(b)); bool ok{ true }; for (int i = 0; i < 8; ++i) { ok = ok && x.c[i] == y.c[i]; } is(ok, what); };
	using namespace engabra::g3;
#define EQ(A, B) eq(A, B, #A " == " #B)
	EQ(e0 * e0, e0); EQ(e1 * e1, e0); EQ(e2 * e2, e0); EQ(e3 * e3, e0);
	EQ(e23 * e23, -e0); EQ(e31 * e31, -e0); EQ(e12 * e12, -e0); EQ(e123 * e123, -e0);
	EQ(e2 * e3, e23); EQ(e3 * e1, e31); EQ(e1 * e2, e12); EQ(e3 * e2, -e23); EQ(e1 * e3, -e31); EQ(e2 * e1, -e12);
	EQ((e1 * e2) * e3, e123); EQ((e2 * e3) * e1, e123); EQ((e3 * e1) * e2, e123); EQ(e1 * (e2 * e3), e123);
	EQ((e23 * e31) * e12, e0); EQ((e31 * e12) * e23, e0); EQ((e12 * e23) * e31, e0);
	EQ(dual(e1), e23); EQ(dual(e2), e31); EQ(dual(e3), e12); EQ(dual(e0), e123); EQ(dual(e123), -e0);
	EQ(dual(e23), -e1); EQ(dual(e31), -e2); EQ(dual(e12), -e3);
#undef EQ
	is(early.v[0] == 1 && early.v[1] == 1 && early.v[2] == 1 && early.v[3] == 1 && early.v[4] == 1 && early.v[5] == 1 && early.v[6] == 1 && early.v[7] == 1 && early.p == pi, "the constants have their values during start-up of the program");
	ld const p{ 3.14159265358979323846264338327950288L };
	auto val = [&](double got, ld want, char const * what) { is(got == double(want), what); };
	val(engabra::g3::pi, p, "pi is the double nearest to pi");
	val(piHalf, p / 2, "piHalf is pi/2");
	val(piQtr, p / 4, "piQtr is pi/4");
	val(turnFull, 2 * p, "turnFull is 2 pi");
	val(turnHalf, p, "turnHalf is pi");
	val(turnQtr, p / 2, "turnQtr is pi/2");
	is(engabra::g3::nan != engabra::g3::nan, "nan is not a number");
}

//! zero<>, one<> and null<> against every word of components
template <class A> void identities(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	int const n{ K<A>::n };
	A const z(g3::zero<A>());
	double g[8], zc[8];
	K<A>::get(z, zc);
	for (int i = 0; i < n; ++i) { if (zc[i] != 0) { cx.fail("zero of this kind is " + show(z)); } }
	auto eq = [&](auto const & got, M8 const & want, char const * what)
	{
		M8 const m(toRef(got));
		cx.did();
		cx.trace();
		for (int i = 0; i < 8; ++i) { if (m.c[i] != want.c[i]) { cx.fail(std::string(what) + " at " + show(a) + " gives " + ref::str(m)); } }
	};
	M8 const m(toRef(a)), none;
	eq(a + z, m, "a + zero");
	eq(z + a, m, "zero + a");
	eq(a - z, m, "a - zero");
	eq(z - a, ref::neg(m), "zero - a");
	eq(a * z, none, "a * zero");
	eq(z * a, none, "zero * a");
	eq(a * g3::e0, m, "a * e0");
	eq(g3::e0 * a, m, "e0 * a");
	eq(a * 1., m, "a * 1.");
	eq(1. * a, m, "1. * a");
	eq(a * g3::one<g3::Scalar>(), m, "a * one<Scalar>");
	eq(g3::one<g3::Scalar>() * a, m, "one<Scalar> * a");
	eq(a * g3::one<g3::MultiVector>(), m, "a * one<MultiVector>");
	eq(g3::one<g3::MultiVector>() * a, m, "one<MultiVector> * a");
	if constexpr (std::is_same<A, g3::Scalar>::value || std::is_same<A, g3::Spinor>::value || std::is_same<A, g3::ComPlex>::value || std::is_same<A, g3::MultiVector>::value)
	{
		A const u(g3::one<A>());
		eq(a * u, m, "a * one of the kind");
		eq(u * a, m, "one of the kind * a");
	}
	A const nu(g3::null<A>());
	K<A>::get(nu, g);
	for (int i = 0; i < n; ++i) { if (g[i] == g[i]) { cx.fail("null of this kind is " + show(nu)); } }
	K<A>::get(z, g);
	cx.outcome(v, n);
	if (cx.sampleNow()) { cx.sample("identities at " + show(a)); }
}
//! Usable where the compiler has to know the value
#define FIXED_AT_COMPILE_TIME(NAME, EXPR) \
template <class T, bool B = ((void)(EXPR), true)> constexpr bool NAME(int) { return B; } \
template <class T> constexpr bool NAME(...) { return false; }
FIXED_AT_COMPILE_TIME(fixedZero, g3::zero<T>())
FIXED_AT_COMPILE_TIME(fixedNull, g3::null<T>())
FIXED_AT_COMPILE_TIME(fixedOne, g3::one<T>())
FIXED_AT_COMPILE_TIME(fixedSq, g3::sq(T(3)) + g3::cube(T(-2)) + g3::magSq(T(5)))
FIXED_AT_COMPILE_TIME(fixedAngles, T(g3::pi) + T(g3::piHalf) + T(g3::piQtr) + T(g3::turnFull) + T(g3::turnHalf) + T(g3::turnQtr))
FIXED_AT_COMPILE_TIME(fixedNan, T(g3::nan))
template <class T> struct At
{
	template <class U = T, bool Z = fixedZero<U>(0)> static void zero(double * r) { if constexpr (Z) { constexpr U x{ g3::zero<U>() }; K<U>::get(x, r); } else { K<U>::get(g3::zero<U>(), r); } }
};
void compileTime(Ctx & cx)
{
	auto is = [&](bool ok, std::string const & what) { if (! cx.next()) { return; } cx.did(); if (! ok) { cx.fail(what + " cannot be used in a constant expression"); } };
	auto three = [&](auto t)
	{
		using A = TY(t);
		is(fixedZero<A>(0), std::string("zero<") + K<A>::name() + ">()");
		is(std::is_same<A, g3::ComPlex>::value || fixedNull<A>(0), std::string("null<") + K<A>::name() + ">()");
		if (K<A>::mask & 1u || K<A>::id == kV || K<A>::id == kB || K<A>::id == kT) { is(fixedOne<A>(0), std::string("one<") + K<A>::name() + ">()"); }
		double g[8];
		At<A>::zero(g);
		bool ok{ true };
		for (int i = 0; i < K<A>::n; ++i) { ok = ok && g[i] == 0.; }
		if (cx.next()) { cx.did(); if (! ok) { cx.fail(std::string("zero<") + K<A>::name() + ">() is another value at compile time"); } }
	};
	forKinds(AllKinds{}, [&](auto t) { using A = TY(t); if constexpr (! std::is_same<A, g3::MultiVector>::value) { three(t); } });
	is(fixedSq<double>(0), "sq, cube or magSq of a double");
	is(fixedAngles<double>(0), "an angle constant");
	is(fixedNan<double>(0), "nan");
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	closure(cx);
	relations(cx);
	compileTime(cx);
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		words(n, intAlphabet(n, th ? 5e7 : 4e6), [&](double const * v) { if (cx.next()) { identities<A>(cx, v); } });
		std::vector<double> al{ 0. };
		for (double x : decades(-300, 300, th ? 2 : 10)) { al.push_back(x); al.push_back(-x); }
		sized(n, [&](double const * v) { if (cx.next()) { identities<A>(cx, v); } }, -150, 150);
		for (auto const & p : patterns()) { sparse(n, 2, p.data(), al, [&](double const * v) { if (cx.next()) { identities<A>(cx, v); } }); }
	});
	if (cx.next())
	{
		cx.did(15);
		auto fixedConst = [&](auto const & at, bool whole, bool element, char const * name)
		{
			(void)at;
			if (whole || element) { cx.fail(std::string("the constant ") + name + " can be given another value"); }
		};
#define FIXED(C) fixedConst(g3::C, std::is_assignable<decltype((g3::C)), decltype(g3::C)>::value, std::is_assignable<decltype((g3::C.theData[0])), double>::value, #C)
		FIXED(e0); FIXED(e1); FIXED(e2); FIXED(e3); FIXED(e23); FIXED(e31); FIXED(e12); FIXED(e123);
#undef FIXED
#define FIXED(C) fixedConst(g3::C, std::is_assignable<decltype((g3::C)), double>::value, false, #C)
		FIXED(pi); FIXED(piHalf); FIXED(piQtr); FIXED(turnFull); FIXED(turnHalf); FIXED(turnQtr); FIXED(nan);
#undef FIXED
	}
	if (cx.next())
	{
		cx.did(3);
		// where there is no identity: no vector, no plane, the unit volume
		M8 const none;
		M8 unit;
		unit.c[7] = 1;
		auto eq = [&](M8 const & got, M8 const & want, char const * what) { for (int i = 0; i < 8; ++i) { if (got.c[i] != want.c[i]) { cx.fail(std::string(what) + " is " + ref::str(got)); } } };
		eq(toRef(g3::one<g3::Vector>()), none, "one<Vector>");
		eq(toRef(g3::one<g3::BiVector>()), none, "one<BiVector>");
		eq(toRef(g3::one<g3::TriVector>()), unit, "one<TriVector>");
		if (g3::zero<double>() != 0. || g3::one<double>() != 1. || ! (g3::null<double>() != g3::null<double>())) { cx.fail("zero, one or null of double"); }
	}
}
