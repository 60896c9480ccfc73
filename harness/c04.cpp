// C04 - sign changes of the grades, and duality.
//
// Explored: (1) every operation on every kind over integer words and special
// values, exact; (2) the whole state space that compositions of the operations
// can reach from generic entities (breadth first to the fixed point, so every
// composition of any length is covered); (3) the laws that tie them to the
// geometric product, on all pairs of kinds.
#include "kinds.hpp"
#include "history.hpp"
#include "num.hpp"

#include <deque>

namespace
{
using mc::Ctx;
using ref::M8;

enum { oNeg, oRev, oOdd, oDir, oDual, oCount };
char const * const opName[oCount]{ "-", "reverse", "oddverse", "dirverse", "dual" };
HAS1(neg, -DA);
HAS1(rev, g3::reverse(DA));
HAS1(odd, g3::oddverse(DA));
HAS1(dir, g3::dirverse(DA));
HAS1(dual, g3::dual(DA));

struct St
{
	int kind{ -1 };
	double c[8]{};
	std::string key() const
	{
		std::string k{ char('0' + kind) };
		for (int i = 0; i < kindSize(kind); ++i) { k += mc::fmt(",%a", c[i] + 0.); }
		return k;
	}
};

template <int op, class A> auto apply(A const & a)
{
	if constexpr (op == oNeg) { return -a; }
	else if constexpr (op == oRev) { return g3::reverse(a); }
	else if constexpr (op == oOdd) { return g3::oddverse(a); }
	else if constexpr (op == oDir) { return g3::dirverse(a); }
	else { return g3::dual(a); }
}
template <int op, class A> constexpr bool exists()
{
	return op == oNeg ? has_neg<A>::value : op == oRev ? has_rev<A>::value : op == oOdd ? has_odd<A>::value
		: op == oDir ? has_dir<A>::value : has_dual<A>::value;
}
template <int op, class A> St run(double const * v)
{
	St s;
	auto const r(apply<op>(K<A>::make(v)));
	using R = std::decay_t<decltype(r)>;
	if constexpr (K<R>::is) { s.kind = K<R>::id; K<R>::get(r, s.c); }
	return s;
}
M8 model(int op, M8 const & a)
{
	switch (op)
	{
		case oNeg: return ref::neg(a);
		case oRev: return ref::reverse(a);
		case oOdd: return ref::oddverse(a);
		case oDir: return ref::dirverse(a);
		default: return ref::dual(a);
	}
}
int modelKind(int op, int kind)
{
	if (op != oDual) { return kind; }
	static int const d[kCount]{ kT, kT, kB, kV, kS, kImsp, kSpin, kCplx, kDplx, kMV };
	return d[kind];
}
// the sign of a zero is a sign too (but a product may lose it)
bool same(int op, double x, double y) { return (x == y && (x != 0 || op == oDual || std::signbit(x) == std::signbit(y))) || (x != x && y != y); }

using Fn = St (*)(double const *);
Fn table[oCount][kCount];

void compare(Ctx & cx, int op, int kind, double const * v)
{
	St const got(table[op][kind](v));
	cx.did();
	int const wantKind{ modelKind(op, kind) };
	auto text = [&] { return mc::fmt("%s of %s\n  got: %s", opName[op], show(kind, v).c_str(), got.kind < 0 ? "no entity" : show(got.kind, got.c).c_str()); };
	if (got.kind != wantKind) { cx.fail(text() + "\n  expected kind " + kindName(wantKind)); }
	// component by component (not through the model's products: special values)
	double full[8]{}, in[8]{};
	for (int i = 0; i < kindSize(got.kind); ++i) { full[kindAt(got.kind, i)] = got.c[i]; }
	for (int i = 0; i < kindSize(kind); ++i) { in[kindAt(kind, i)] = v[i]; }
	for (int k = 0; k < kindSize(kind); ++k)
	{
		int const i{ kindAt(kind, k) };
		M8 u;
		u.c[i] = 1;
		M8 const w(model(op, u));
		for (int j = 0; j < 8; ++j)
		{
			if (w.c[j] != 0 && ! same(op, full[j], double(w.c[j]) * in[i])) { cx.fail(text() + mc::fmt("\n  component %d should be %.17g", j, double(w.c[j]) * in[i])); }
		}
	}
	cx.outcome(got.c, kindSize(got.kind));
}

template <class A> void fill()
{
	int const k{ K<A>::id };
	if constexpr (exists<oNeg, A>()) { table[oNeg][k] = run<oNeg, A>; }
	if constexpr (exists<oRev, A>()) { table[oRev][k] = run<oRev, A>; }
	if constexpr (exists<oOdd, A>()) { table[oOdd][k] = run<oOdd, A>; }
	if constexpr (exists<oDir, A>()) { table[oDir][k] = run<oDir, A>; }
	if constexpr (exists<oDual, A>()) { table[oDual][k] = run<oDual, A>; }
}

//! Everything that compositions can reach from one entity
void closure(Ctx & cx, int kind, double const * v)
{
	struct Node { St s; M8 m; std::string how; };
	std::set<std::string> seen;
	std::deque<Node> todo;
	Node n0;
	n0.s.kind = kind;
	std::copy(v, v + kindSize(kind), n0.s.c);
	n0.m = toRef(kind, v);
	n0.how = show(kind, v);
	seen.insert(n0.s.key());
	todo.push_back(n0);
	while (! todo.empty())
	{
		Node const n(todo.front());
		todo.pop_front();
		for (int op = 0; op < oCount; ++op)
		{
			if (! table[op][n.s.kind]) { continue; }
			Node m;
			m.s = table[op][n.s.kind](n.s.c);
			m.m = model(op, n.m);
			m.how = n.how + " | " + opName[op];
			cx.did();
			cx.trace();
			if (m.s.kind != modelKind(op, n.s.kind)) { cx.fail("wrong kind after " + m.how); }
			M8 const got(toRef(m.s.kind, m.s.c));
			for (int i = 0; i < 8; ++i)
			{
				if (got.c[i] != m.m.c[i]) { cx.fail("after " + m.how + "\n  got  " + ref::str(got) + "\n  model " + ref::str(m.m)); }
			}
			if (seen.insert(m.s.key()).second) { todo.push_back(m); }
		}
		if (seen.size() > 1000) { cx.fail("compositions do not close: " + n.how); }
	}
	cx.info["states of composition closures"] += seen.size();
	if (cx.wantSample()) { cx.sample(mc::fmt("all compositions from %s: %d states", show(kind, v).c_str(), int(seen.size()))); }
}

template <class A, class B> void laws(Ctx & cx)
{
	if constexpr (has_mul<A, B>::value && ! (std::is_same<A, double>::value && std::is_same<B, double>::value))
	{
		int const n{ K<A>::n + K<B>::n };
		auto one = [&](double const * v)
		{
			if (! cx.next()) { return; }
			A const a(K<A>::make(v));
			B const b(K<B>::make(v + K<A>::n));
			auto need = [&](auto const & x, auto const & y, char const * law)
			{
				M8 const p(toRef(x)), q(toRef(y));
				cx.did(4);
				cx.trace();
				for (int i = 0; i < 8; ++i)
				{
					if (p.c[i] != q.c[i]) { cx.fail(mc::fmt("%s\n  a = %s\n  b = %s\n  left  %s\n  right %s", law, show(a).c_str(), show(b).c_str(), show(x).c_str(), show(y).c_str())); }
				}
			};
			need(g3::reverse(a * b), g3::reverse(b) * g3::reverse(a), "reverse(a*b) == reverse(b)*reverse(a)");
			need(g3::dual(a * b), g3::dual(a) * b, "dual(a*b) == dual(a)*b");
			need(g3::dual(a * b), a * g3::dual(b), "dual(a*b) == a*dual(b)");
			if constexpr (K<A>::id != kD && K<B>::id != kD)
			{
				need(g3::oddverse(a * b), g3::oddverse(a) * g3::oddverse(b), "oddverse(a*b) == oddverse(a)*oddverse(b)");
				need(g3::dirverse(a * b), g3::dirverse(b) * g3::dirverse(a), "dirverse(a*b) == dirverse(b)*dirverse(a)");
			}
			need(-(a * b), (-a) * b, "-(a*b) == (-a)*b");
		};
		double budget{ cx.thorough ? 2e6 : 6e4 };
		std::vector<double> al(intAlphabet(n, budget));
		if (std::pow(double(al.size()), n) <= budget) { words(n, al, one); }
		else { sparse(n, cx.thorough ? 3 : 2, std::vector<double>{ 1, -2, 3, 2, -1, 4, -3, 1, 2, -5, 1, 3, -2, 4, 1, -1 }.data(), { 0, 1, -1, 2 }, one); }
	}
}
template <class A> void withTri(Ctx & cx)
{
	words(K<A>::n, intAlphabet(K<A>::n, 1e5), [&](double const * v)
	{
		if (! cx.next()) { return; }
		A const a(K<A>::make(v));
		M8 const d(toRef(g3::dual(a))), l(toRef(g3::e123 * a)), r(toRef(a * g3::e123)), dd(toRef(g3::dual(g3::dual(a))));
		M8 const in(toRef(a));
		cx.did(5);
		cx.trace();
		for (int i = 0; i < 8; ++i)
		{
			if (d.c[i] != l.c[i] || d.c[i] != r.c[i]) { cx.fail("dual(a), e123*a and a*e123 differ for a = " + show(a)); }
			if (dd.c[i] != -in.c[i]) { cx.fail("dual(dual(a)) is not -a for a = " + show(a)); }
		}
	});
}
} // namespace

void explore(Ctx & cx)
{
	forKinds(AllKinds{}, [&](auto t) { fill<TY(t)>(); });
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		if constexpr (exists<oNeg, A>()) { history::explore<A>(cx, "negation", [](auto && x) -> decltype(auto) { return -HELD(x); }); }
		if constexpr (exists<oRev, A>()) { history::explore<A>(cx, "reverse", [](auto && x) -> decltype(auto) { return g3::reverse(HELD(x)); }); }
		if constexpr (exists<oOdd, A>()) { history::explore<A>(cx, "oddverse", [](auto && x) -> decltype(auto) { return g3::oddverse(HELD(x)); }); }
		if constexpr (exists<oDir, A>()) { history::explore<A>(cx, "dirverse", [](auto && x) -> decltype(auto) { return g3::dirverse(HELD(x)); }); }
		if constexpr (exists<oDual, A>()) { history::explore<A>(cx, "dual", [](auto && x) -> decltype(auto) { return g3::dual(HELD(x)); }); }
	});
	for (int k = 0; k < kCount; ++k) for (int op = 0; op < oCount; ++op)
	{
		bool const want{ k != kD || op == oRev || op == oDual };
		if (! cx.next()) { continue; }
		if (want && ! table[op][k]) { cx.fail(mc::fmt("no operation %s for %s", opName[op], kindName(k))); }
	}
	double const inf{ std::numeric_limits<double>::infinity() };
	double const nan{ std::numeric_limits<double>::quiet_NaN() };
	std::vector<double> const special
		{ 0., -0., 1., -1., 0.1, -7.25, 1e-17, 1.7e308, -1.7e308, 5e-324, -5e-324, 2.2e-308, inf, -inf, nan };
	double const base[2][8]{ { 1, 2, 3, 4, 5, 6, 7, 8 }, { 0.1, -0.2, 0.3, -0.4, 0.5, -0.6, 0.7, -0.8 } };
	for (int k = 0; k < kCount; ++k)
	{
		for (int op = 0; op < oCount; ++op)
		{
			if (! table[op][k]) { continue; }
			auto one = [&](double const * v) { if (cx.next()) { compare(cx, op, k, v); } };
			words(kindSize(k), intAlphabet(kindSize(k), cx.thorough ? 6e6 : 5e5), one);
			for (auto const & b : base) { sparse(kindSize(k), cx.thorough ? 3 : 2, b, special, one); }
			num::sized(kindSize(k), one);
			num::scaled(kindSize(k), num::decades(-304, 304, cx.thorough ? 4 : 32), { 0, 1, -0.7 }, one);
		}
		for (auto const & b : base) { if (cx.next()) { closure(cx, k, b); } }
		words(kindSize(k), intAlphabet(kindSize(k), 7000), [&](double const * v) { if (cx.next()) { closure(cx, k, v); } });
	}
	forKinds(GaKinds{}, [&](auto ta)
	{
		withTri<TY(ta)>(cx);
		forKinds(GaKinds{}, [&](auto tb) { laws<TY(ta), TY(tb)>(cx); });
	});
}
