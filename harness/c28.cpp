// C28 - a smaller kind is the same algebra as any larger kind that holds it.
//
// For every operation of the table on kinds (A, B) and every pair of kinds
// (A', B') with at least their grades for which the operation exists too, the
// results for embedded operands must be the embedded results.
#include "num.hpp"
#include "optable.hpp"

namespace
{
using mc::Ctx;
using namespace num;

std::string baseName(Op const & o)
{
	if (o.b < 0) { return o.name.substr(0, o.name.find('(' , 1)); }
	std::string s(o.name);
	s = s.substr(std::strlen(kindName(o.a)) + 1);
	return s.substr(0, s.size() - std::strlen(kindName(o.b)) - 1);
}
void embed(int from, double const * v, int to, double * w)
{
	M8 const m(toRef(from, v));
	for (int i = 0; i < kindSize(to); ++i) { w[i] = double(m.c[kindAt(to, i)]); }
}
bool holds(int big, int small) { return (kindMask(small) & ~kindMask(big)) == 0u; }
//! differences that the existing tests fix with the wrong sign (known finding of C03)
bool twisted(Op const & o)
{
	if (o.cls != cSub) { return false; }
	static std::set<std::pair<int, int>> const k{ { kB, kS }, { kB, kV }, { kT, kS }, { kT, kV }, { kSpin, kS }, { kSpin, kB } };
	return k.count({ o.a, o.b }) != 0u;
}
struct Pair { Op const * small; Op const * big; bool exact; };

void judge(Ctx & cx, Pair const & p, double const * v, bool ints)
{
	double const * const a{ v };
	double const * const b{ v + 8 };
	double wa[8]{}, wb[8]{};
	embed(p.small->a, a, p.big->a, wa);
	if (p.small->b >= 0) { embed(p.small->b, b, p.big->b, wb); }
	Val r, s;
	p.small->fn(a, b, r);
	p.big->fn(wa, wb, s);
	cx.did(2);
	if (std::any_of(r.c, r.c + r.n, [](double x) { return x != 0.; })) { cx.trace(); }
	cx.outcome(r.c, r.n);
	auto bad = [&]
	{
		cx.fail(p.small->name + " and " + p.big->name + " disagree\n  for " + show(p.small->a, a) + (p.small->b >= 0 ? ", " + show(p.small->b, b) : std::string())
			+ "\n  the smaller kind gives " + show(r) + "\n  the larger kind gives  " + show(s));
	};
	M8 x, y;
	ld extra{ 0 };
	if (r.kind == kList && r.n == 1) { x.c[0] = r.c[0]; y.c[0] = s.c[0]; }
	else if (r.kind == kList)
	{
		x = toRef(p.small->a, r.c + 1);
		y = toRef(p.big->a, s.c + 1);
		extra = fabsl(r.c[0] - s.c[0]);
		if (! (extra <= 1e-13L * (1 + fabsl(r.c[0])))) { if (! (r.c[0] != r.c[0] && s.c[0] != s.c[0])) { bad(); } }
	}
	else
	{
		if (r.kind < 0 || r.kind >= kCount || s.kind < 0 || s.kind >= kCount) { bad(); }
		x = toRef(r.kind, r.c);
		y = toRef(s.kind, s.c);
	}
	ld const scale{ std::max<ld>(1, std::max(ref::maxAbs(x), ref::maxAbs(y))) };
	ld const tol{ (p.exact && ints) ? 0 : 1e-12L * scale };
	// products and sums: every component is within rounding of its own terms
	M8 own;
	bool const sums{ p.small->cls == cMul || p.small->cls == cAdd || p.small->cls == cSub };
	if (sums)
	{
		M8 const u(toRef(p.small->a, a)), w(toRef(p.small->b, b));
		if (p.small->cls == cMul) { own = ref::mulAbs(u, w); }
		else { for (int i = 0; i < 8; ++i) { own.c[i] = fabsl(u.c[i]) + fabsl(w.c[i]); } }
	}
	for (int i = 0; i < 8; ++i)
	{
		if (x.c[i] != x.c[i] || y.c[i] != y.c[i])
		{
			// invalid results: of the grades both have
			bool nx{ false }, ny{ false };
			for (int k = 0; k < 8; ++k) { nx = nx || x.c[k] != x.c[k]; ny = ny || y.c[k] != y.c[k]; }
			if (nx != ny) { bad(); }
			return;
		}
		if (! near(x.c[i], y.c[i], sums ? std::min(tol, 32 * eps * own.c[i]) : tol)) { bad(); }
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<Op> const ops(optable::build());
	std::vector<Pair> pairs;
	std::map<std::string, std::vector<Op const *>> by;
	for (Op const & o : ops) { if ((o.numeric || o.cls == cCmp || o.cls == cValid) && o.cls != cConv && o.name.compare(0, 2, ">>") != 0) { by[baseName(o)].push_back(&o); } }
	for (auto const & kv : by) for (Op const * s : kv.second) for (Op const * g : kv.second)
	{
		if (s == g || ! holds(g->a, s->a)) { continue; }
		if ((s->b < 0) != (g->b < 0)) { continue; }
		if (s->b >= 0 && ! holds(g->b, s->b)) { continue; }
		if ((s->cls == cLog && s->a != g->a)) { continue; }
		if (twisted(*s) || twisted(*g)) { continue; }
		bool const exact{ s->cls == cMul || s->cls == cAdd || s->cls == cSub || s->cls == cNeg || s->cls == cInvol || s->cls == cDual || s->cls == cPow || s->cls == cCmp || s->cls == cValid };
		pairs.push_back(Pair{ s, g, exact });
	}
	if (cx.shard == 0) { cx.info["pairs of corresponding operations"] += pairs.size(); cx.info["operation names"] += by.size(); }
	for (Pair const & p : pairs)
	{
		int const na{ kindSize(p.small->a) }, nb{ p.small->b >= 0 ? kindSize(p.small->b) : 0 }, n{ na + nb };
		auto go = [&](double const * v, bool ints)
		{
			if (! cx.next()) { return; }
			double w[16]{};
			for (int i = 0; i < na; ++i) { w[i] = v[i]; }
			for (int i = 0; i < nb; ++i) { w[8 + i] = v[na + i]; }
			judge(cx, p, w, ints);
			if (cx.sampleNow()) { cx.sample(p.small->name + " against " + p.big->name + " at " + show(p.small->a, w)); }
		};
		double const budget{ th ? 300000. : 20000. };
		std::vector<double> const al(intAlphabet(n, budget));
		if (std::pow(double(al.size()), n) <= budget) { words(n, al, [&](double const * v) { go(v, true); }); }
		else { for (auto const & q : patterns()) { double b[16]; for (int i = 0; i < n; ++i) { b[i] = std::floor(q[i] * 2 + .5); } sparse(n, 2, b, { -3, -1, 0, 2 }, [&](double const * v) { go(v, true); }); } }
		for (auto const & q : patterns()) { sparse(n, th ? 3 : 2, q.data(), { -37.5, -0.01, 0., 0.7, 3. }, [&](double const * v) { go(v, false); }); }
		// components of very different size
		std::vector<double> far{ 1e-13, -3e-8 };
		if (p.exact) { far.push_back(2e9); far.push_back(-7e15); }
		sparse(n, th ? 3 : 2, patterns()[2].data(), far, [&](double const * v) { go(v, false); });
		far.push_back(1.);
		far.push_back(-0.3);
		sparse(n, 2, zeros24, far, [&](double const * v) { go(v, false); });
		if (p.small->cls != cExp) wholeOnes(na, [&](double const * v) { double w[16]; for (int i = 0; i < na; ++i) { w[i] = v[i]; } for (int j = 0; j < nb; ++j) { w[na + j] = patterns()[2][j]; } go(w, false); });
		ladder(na, [&](double const * v)
		{
			double w[16];
			for (int i = 0; i < n; ++i) { w[i] = i < na ? v[i] : patterns()[1][i]; }
			go(w, false);
		}, th ? 2 : 13);
		sparse(n, 1, patterns()[1].data(), { qnan }, [&](double const * v) { go(v, false); });
		// products and sums of operands of every pair of sizes
		if (nb && (p.small->cls == cMul || p.small->cls == cAdd || p.small->cls == cSub)) { sizedPairs(na, nb, [&](double const * v) { go(v, false); }, -140, 140, 70); if (na == nb) { nearPairs(na, [&](double const * v) { go(v, false); }, -140, 140, 70); } }
		// exponentials far below and far above one
		if (p.small->name.compare(0, 3, "exp") == 0)
		{
			for (auto const & q : patterns()) for (double sz : { 0., 1e-9, 0.4, 1.3 }) for (double g : { -1e9, -800., -746., -745., -720., -690., -100., 100., 690. })
			{
				double v[8];
				for (int i = 0; i < n; ++i) { v[i] = kindAt(p.small->a, i) == 0 ? g : sz * q[i]; }
				go(v, false);
			}
		}
	}
}
