// C10 - null values propagate.
//
// (1) every operation with every nonempty set of NaN components in one operand
//     and every listed valid value in the other gives an invalid result;
// (2) explicit-state search: from the null value of every kind, all states
//     (kind, set of NaN components) that sequences of operations with valid
//     partners reach, to the fixed point; none of them may be valid.
#include "num.hpp"
#include "optable.hpp"

#include <deque>

namespace
{
using mc::Ctx;
using namespace num;

//! entities of a kind used as valid partners
std::vector<std::vector<double>> partners(int kind, bool more)
{
	int const n{ kindSize(kind) };
	std::vector<std::vector<double>> r;
	r.push_back(std::vector<double>(n, 0.));
	for (auto const & p : patterns()) { r.push_back(std::vector<double>(p.begin(), p.begin() + n)); }
	for (int i = 0; i < n; ++i) { r.push_back(std::vector<double>(n, 0.)); r.back()[i] = 1.; r.push_back(r.back()); r.back()[i] = -1e100; if (more) { for (double x : { inf, -inf, 5e-324, -0.5, 1e-160, 1.7e308 }) { r.push_back(r.back()); r.back()[i] = x; } } }
	for (double x : { inf, 1e300, 5e-324, 1e-160 }) { r.push_back(std::vector<double>(n, x)); r.push_back(std::vector<double>(n, 1.)); r.back()[n - 1] = -x; }
	return r;
}
//! the plane given to logG2/sqrtG2 is only a fall-back and may stay unused
int sides(Op const & op) { return op.b >= 0 && op.cls != cLog ? 2 : 1; }
//! A value so large that products with it overflow: the result may then be
//! infinite instead of not-a-number, which is no valid value either
bool huge(int kind, double const * v)
{
	for (int i = 0; i < kindSize(kind); ++i) { if (std::fabs(v[i]) > 1e150) { return true; } }
	return false;
}
bool anyInf(Val const & v)
{
	for (int i = 0; i < v.n; ++i) { if (std::fabs(v.c[i]) == inf) { return true; } }
	return false;
}
bool anyNaN(Val const & v)
{
	for (int i = 0; i < v.n; ++i) { if (v.c[i] != v.c[i]) { return true; } }
	return false;
}
unsigned maskOf(Val const & v)
{
	unsigned m{ 0 };
	for (int i = 0; i < v.n; ++i) { if (v.c[i] != v.c[i]) { m |= 1u << i; } }
	return m;
}
//! a not-a-number of unusual bits
double const payload{ std::nan("0x5a5a5") };
void judge(Ctx & cx, Op const & op, double const * a, double const * b)
{
	Val r;
	op.fn(a, b, r);
	cx.did();
	bool ok{ true };
	if (op.numeric || op.cls == cMisc)
	{
		ok = anyNaN(r) || (anyInf(r) && (huge(op.a, a) || (op.b >= 0 && huge(op.b, b))));
		// a pair of magnitude and direction: both
		if (ok && op.name.compare(0, 6, "magdir") == 0) { ok = r.c[0] != r.c[0] && std::any_of(r.c + 1, r.c + r.n, [](double x) { return x != x; }); }
	}
	else if (op.cls == cValid || op.cls == cCmp) { ok = (r.c[0] == 0.); }
	else if (op.cls == cText) { ok = r.text.find("nan") != std::string::npos; }
	cx.outcome(r.kind * 4096 + maskOf(r));
	if (! ok)
	{
		cx.fail(op.name + " of an invalid operand gives a valid result\n  operand " + show(op.a, a)
			+ (op.b >= 0 ? "\n  operand " + show(op.b, b) : std::string()) + "\n  result  " + show(r));
	}
}
} // namespace

void explore(Ctx & cx)
{
	std::vector<Op> const ops(optable::build());
	for (Op const & op : ops)
	{
		int const na{ kindSize(op.a) };
		int const nb{ op.b >= 0 ? kindSize(op.b) : 0 };
		// all NaN sets in the first operand, and in the second
		for (int side = 0; side < sides(op); ++side)
		{
			int const n{ side ? nb : na };
			auto const other(op.b < 0 ? std::vector<std::vector<double>>(1) : partners(side ? op.a : op.b, cx.thorough));
			auto const mine(partners(side ? op.b : op.a, cx.thorough));
			for (unsigned m = 1; m < (1u << n); ++m)
			{
				for (std::size_t k = 0; k < mine.size(); ++k)
				{
					if (k && m == (1u << n) - 1u) { break; }
					for (auto const & o : other)
					{
						if (! cx.next()) { continue; }
						double v[8], w[8]{};
						for (int i = 0; i < n; ++i) { v[i] = (m >> i & 1u) ? (k % 3 == 1 ? -qnan : k % 3 == 2 && i % 2 ? payload : qnan) : mine[k][i]; }
						std::copy(o.begin(), o.end(), w);
						if (side) { judge(cx, op, w, v); } else { judge(cx, op, v, w); }
						if (cx.sampleNow()) { cx.sample(op.name + " with " + (side ? show(op.b, v) : show(op.a, v))); }
					}
				}
			}
		}
	}
	// one component missing, the others and the other operand of every pair of sizes
	for (Op const & op : ops) for (int side = 0; side < sides(op); ++side)
	{
		int const na{ kindSize(op.a) }, nb{ op.b >= 0 ? kindSize(op.b) : 0 }, n{ side ? nb : na };
		auto one = [&](double const * p)
		{
			for (int k = 0; k < n; ++k)
			{
				if (! cx.next()) { continue; }
				double v[16];
				std::copy(p, p + na + nb, v);
				v[(side ? na : 0) + k] = qnan;
				judge(cx, op, v, v + na);
			}
		};
		if (nb) { sizedPairs(na, nb, one, -300, 300, cx.thorough ? 25 : 100); } else { sized(na, one, -305, 305, cx.thorough ? 1 : 4); }
	}
	// fixed point over (kind, NaN set)
	if (! cx.next()) { return; }
	struct Node { Val v; std::string how; };
	std::map<int, std::set<unsigned>> seen;
	std::deque<Node> todo;
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		Node n;
		optable::store(g3::null<A>(), n.v);
		n.how = std::string("null<") + K<A>::name() + ">()";
		if (seen[n.v.kind].insert(maskOf(n.v)).second) { todo.push_back(n); }
	});
	while (! todo.empty())
	{
		Node const n(todo.front());
		todo.pop_front();
		if (maskOf(n.v) == 0u && ! anyInf(n.v)) { cx.fail("a valid value arises from a null one: " + n.how + "\n  value " + show(n.v)); }
		if (maskOf(n.v) == 0u) { continue; }
		for (Op const & op : ops)
		{
			if (! op.numeric) { continue; }
			for (int side = 0; side < sides(op); ++side)
			{
				if ((side ? op.b : op.a) != n.v.kind) { continue; }
				auto const other(op.b < 0 ? std::vector<std::vector<double>>(1) : partners(side ? op.a : op.b, true));
				for (auto const & o : other)
				{
					double w[8]{};
					std::copy(o.begin(), o.end(), w);
					Node m;
					if (side) { op.fn(w, n.v.c, m.v); } else { op.fn(n.v.c, w, m.v); }
					cx.did();
					cx.trace();
					m.how = n.how + " -> " + op.name;
					if (m.v.kind == kList)
					{
						// magnitude and direction: continue with the direction
						if (! anyNaN(m.v) && ! anyInf(m.v)) { cx.fail("a valid value arises from a null one: " + m.how); }
						continue;
					}
					if (seen[m.v.kind].insert(maskOf(m.v)).second) { todo.push_back(m); }
				}
			}
		}
	}
	for (auto const & kv : seen) { cx.info["reachable states (kind, set of NaN components)"] += kv.second.size(); }
}
