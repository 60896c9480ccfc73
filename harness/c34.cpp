// C34 - neither the choice of axes nor of the unit matters.
//
// Every operation commutes with all 48 ways of naming and orienting the axes
// (the signed permutations of the basis vectors, extended to all grades by the
// product of the model), and with a change of the unit by powers of two. The
// oracle is the operation itself on the other operands: no formula of any
// operation is used.
#include "num.hpp"
#include "optable.hpp"

namespace
{
using mc::Ctx;
using namespace num;

//! What a renaming of axes does to the eight basis elements
struct Frame
{
	int to[8];
	int sg[8];
	int det;
	std::string name;
};
std::vector<Frame> const & frames()
{
	static std::vector<Frame> const all = []
	{
		std::vector<Frame> r;
		int const perms[6][3]{ { 1, 2, 3 }, { 2, 3, 1 }, { 3, 1, 2 }, { 2, 1, 3 }, { 1, 3, 2 }, { 3, 2, 1 } };
		for (auto const & p : perms) for (int s = 0; s < 8; ++s)
		{
			Frame f;
			f.to[0] = 0;
			f.sg[0] = 1;
			for (int i = 0; i < 3; ++i) { f.to[i + 1] = p[i]; f.sg[i + 1] = s >> i & 1 ? -1 : 1; f.name += mc::fmt("%se%d ", f.sg[i + 1] < 0 ? "-" : "", p[i]); }
			// images of products are products of images
			auto prod = [&](int k, int i, int j)
			{
				f.to[k] = ref::tab.to[f.to[i]][f.to[j]];
				f.sg[k] = ref::tab.sg[f.to[i]][f.to[j]] * f.sg[i] * f.sg[j];
			};
			prod(4, 2, 3);
			prod(5, 3, 1);
			prod(6, 1, 2);
			prod(7, 6, 3);
			f.det = f.sg[7];
			r.push_back(f);
		}
		return r;
	}();
	return all;
}
//! The same entity, named in another frame
void renamed(Frame const & f, int kind, double const * v, double * w)
{
	double m[8]{};
	for (int i = 0; i < kindSize(kind); ++i) { int const at{ kindAt(kind, i) }; m[f.to[at]] = f.sg[at] * v[i]; }
	for (int i = 0; i < kindSize(kind); ++i) { w[i] = m[kindAt(kind, i)]; }
}
ld most(double const * v, int n) { ld r{ 0 }; for (int i = 0; i < n; ++i) { if (v[i] == v[i]) { r = std::max(r, fabsl(v[i])); } } return r; }
ld least(double const * v, int n) { ld r{ 1e4000L }; for (int i = 0; i < n; ++i) { if (v[i] != 0.) { r = std::min(r, fabsl(v[i])); } } return r; }

//! What rounding may make of a result: relative to what it is computed from
ld allowance(Op const & op, double const * a, double const * b, Val const & r)
{
	ld const A{ most(a, kindSize(op.a)) }, B{ op.b >= 0 ? most(b, kindSize(op.b)) : 0.L }, R{ most(r.c, r.n) };
	switch (op.cls)
	{
		case cMul: return 64 * eps * A * B;
		case cAdd: case cSub: return 4 * eps * (A + B);
		case cPow: return 512 * eps * (op.name.compare(0, 2, "sq") == 0 ? A * A : A * A * A);
		case cMag: case cDir: return 64 * eps * R;
		case cAmp: return 512 * eps * std::max(R, op.name.compare(0, 5, "ampSq") == 0 ? A * A : A);
		case cInv: return (op.a == kMV || op.a == kCplx ? 1e-9L : 64 * eps) * R;
		case cExp: return (op.a == kMV ? 1e-10L : 1e-12L) * std::max(R, 1.L);
		case cLog: return 1e-11L * std::max(R, 1.L);
		default: return 0;
	}
}
//! Is the place too near to where a branch is chosen, or an inverse lost?
bool delicate(Op const & op, double const * a, double const * b, Val const & r, int det)
{
	int const n{ kindSize(op.a) };
	(void)b;
	if (op.cls == cAmp)
	{
		// roots of negative numbers: the side is a matter of rounding
		return op.name.compare(0, 5, "ampSq") != 0 && ! (fabs(r.c[0]) > 1e-5 * fabs(r.c[1]));
	}
	if (op.cls == cInv && (op.a == kCplx || op.a == kMV))
	{
		return ! (most(a, n) * most(r.c, r.n) < 1e3L) || most(a, n) > 1e50L || most(a, n) < 1e-50L;
	}
	if (op.cls == cExp) { return most(a, n) > 50.L; }
	if (op.cls == cLog)
	{
		double const biv{ std::hypot(a[1], a[2], a[3]) };
		// no plane of its own: what is given, or chosen, decides
		return det < 0 || ! (biv > 1e-4 * fabs(a[0])) || biv < 1e-6 || biv > 1e6;
	}
	return false;
}
bool skipped(Op const & op) { return op.cls == cText || op.cls == cMisc; }

//! frame: operand and result in the other frame
void reframed(Ctx & cx, Op const & op, double const * a, double const * b, Val const & r, Frame const & f)
{
	double a2[8]{}, b2[8]{}, want[12]{};
	renamed(f, op.a, a, a2);
	if (op.b >= 0) { renamed(f, op.b, b, b2); }
	Val s;
	op.fn(a2, b2, s);
	cx.did();
	cx.trace();
	bool ok{ s.kind == r.kind && s.n == r.n };
	bool const truth{ ! op.numeric };
	if (ok && truth) { ok = s.c[0] == r.c[0]; }
	else if (ok)
	{
		int const kind{ r.kind == kList ? op.a : r.kind };
		int const from{ r.kind == kList ? 1 : 0 };
		if (from) { want[0] = r.c[0]; }
		renamed(f, kind, r.c + from, want + from);
		if (op.cls == cDual && f.det < 0) { for (int i = 0; i < r.n; ++i) { want[i] = -want[i]; } }
		ld const tol{ allowance(op, a, b, r) };
		for (int i = 0; i < r.n; ++i)
		{
			bool const nan{ want[i] != want[i] };
			ok = ok && (nan ? s.c[i] != s.c[i] : want[i] == s.c[i] || near(s.c[i], want[i], tol));
		}
		if (from) { ok = ok && (r.c[0] != r.c[0] || near(s.c[0], want[0], 64 * eps * fabsl(want[0]))); }
	}
	if (! ok)
	{
		Val w(r);
		if (! truth) { for (int i = 0; i < r.n; ++i) { w.c[i] = want[i]; } }
		cx.fail(op.name + " depends on how the axes are named (e1, e2, e3 as " + f.name + ")\n  operand " + show(op.a, a) + (op.b >= 0 ? " and " + show(op.b, b) : std::string())
			+ "\n  gives " + show(r) + "\n  in the other frame " + show(op.a, a2) + (op.b >= 0 ? " and " + show(op.b, b2) : std::string()) + "\n  gives " + show(s) + "\n  not   " + show(w));
	}
}
//! by how many units the result grows when the operands are given in others: 99 for none
int degree(Op const & op, int ka, int kb)
{
	auto is = [&](char const * w) { return op.name.compare(0, std::strlen(w), w) == 0; };
	switch (op.cls)
	{
		case cMul: return ka + kb;
		case cAdd: case cSub: return ka == kb ? ka : 99;
		case cNeg: case cInvol: case cDual: case cConv: return ka;
		case cPow: return is("sq") ? 2 * ka : 3 * ka;
		case cMag: return is("magSq") ? 2 * ka : ka;
		case cDir: return is("direction") ? 0 : ka;
		case cAmp: return is("ampSq") ? 2 * ka : ka;
		case cInv: return -ka;
		case cValid: return ka;
		case cCmp: return ka == kb && op.name.find("==") != std::string::npos ? ka : 99;
		default: return 99;
	}
}
void rescaled(Ctx & cx, Op const & op, double const * a, double const * b, Val const & r, int ka, int kb)
{
	int const d{ degree(op, ka, kb) };
	if (d == 99) { return; }
	double a2[8]{}, b2[8]{};
	for (int i = 0; i < kindSize(op.a); ++i) { a2[i] = std::ldexp(a[i], ka); }
	if (op.b >= 0) { for (int i = 0; i < kindSize(op.b); ++i) { b2[i] = std::ldexp(b[i], kb); } }
	Val s;
	op.fn(a2, b2, s);
	cx.did();
	cx.trace();
	bool ok{ s.kind == r.kind && s.n == r.n };
	Val w(r);
	if (ok && ! op.numeric) { ok = s.c[0] == r.c[0]; }
	else if (ok)
	{
		bool const list{ r.kind == kList };
		for (int i = 0; i < r.n; ++i) { w.c[i] = std::ldexp(r.c[i], list && i ? 0 : d); }
		ld const tol{ allowance(op, a2, b2, w) };
		for (int i = 0; i < r.n; ++i)
		{
			bool const nan{ w.c[i] != w.c[i] };
			ok = ok && (nan ? s.c[i] != s.c[i] : w.c[i] == s.c[i] || near(s.c[i], w.c[i], list ? 64 * eps * fabsl(w.c[i]) : tol));
		}
	}
	if (! ok)
	{
		cx.fail(op.name + mc::fmt(" depends on the unit (first operand by 2^%d, second by 2^%d)", ka, kb) + "\n  operand " + show(op.a, a) + (op.b >= 0 ? " and " + show(op.b, b) : std::string())
			+ "\n  gives " + show(r) + "\n  in the other unit " + show(op.a, a2) + (op.b >= 0 ? " and " + show(op.b, b2) : std::string()) + "\n  gives " + show(s) + "\n  not   " + show(w));
	}
}
std::vector<std::vector<double>> operands(int kind, bool one, bool th)
{
	int const n{ kindSize(kind) };
	std::vector<std::vector<double>> r;
	auto add = [&](double const * v) { r.emplace_back(v, v + n); };
	for (auto const & p : patterns()) { add(p.data()); }
	sparse(n, 2, zeros24, one || th ? std::vector<double>{ -2., 1., .5, 3e-5, -4e-3, 7e-8, 60. } : std::vector<double>{ -2., 1. }, add);
	words(n, n > 6 ? (one ? std::vector<double>{ -1., 0., 2. } : std::vector<double>{ -1., 2. }) : n > 4 ? std::vector<double>{ -1., 0., 2. } : one ? std::vector<double>{ -3., -1., 0., .25, 2. } : std::vector<double>{ -1., 0., 2. }, add);
	// two sizes, one of the components missing, nearly equal and opposite ones
	for (double s : one || th ? std::vector<double>{ 1e-3, -1e-6, 1e-9, 2e-12, -1e-15, 4e5, 1e11 } : std::vector<double>{ 1e-3, 1e-9, 4e5 }) for (int i = 0; i < n; ++i) { r.push_back(patterns()[2]); r.back().resize(n); r.back()[i] *= s; }
	for (int i = 0; i < n; ++i) { r.push_back(patterns()[1]); r.back().resize(n); r.back()[i] = qnan; }
	for (int i = 1; i < n; ++i) for (double s : { 1. + 1e-9, -1. + 1e-12 }) { r.push_back(patterns()[2]); r.back().resize(n); r.back()[i] = r.back()[i - 1] * s; }
	return r;
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	// the group acts as it should
	std::set<std::vector<int>> distinct;
	for (Frame const & f : frames())
	{
		std::vector<int> k(f.to, f.to + 8);
		k.insert(k.end(), f.sg, f.sg + 8);
		distinct.insert(k);
		for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j)
		{
			int const k2{ ref::tab.to[i][j] };
			if (f.to[k2] != ref::tab.to[f.to[i]][f.to[j]] || f.sg[k2] * ref::tab.sg[i][j] != f.sg[i] * f.sg[j] * ref::tab.sg[f.to[i]][f.to[j]]) { fprintf(stderr, "frames broken\n"); abort(); }
		}
	}
	if (distinct.size() != 48) { fprintf(stderr, "frames broken\n"); abort(); }
	std::vector<Op> const ops(optable::build());
	std::vector<int> const units{ -200, -70, -40, -20, -9, -4, -1, 1, 3, 10, 27, 52, 100, 200 };
	for (Op const & op : ops)
	{
		if (skipped(op)) { continue; }
		auto const as(operands(op.a, op.b < 0, th));
		auto const bs(op.b < 0 ? std::vector<std::vector<double>>(1, std::vector<double>(8)) : operands(op.b, false, th));
		for (auto const & a : as) for (auto const & b : bs)
		{
			if (! cx.next()) { continue; }
			Val r;
			op.fn(a.data(), b.data(), r);
			cx.did();
			cx.outcome(r.c, r.n);
			if (cx.sampleNow()) { cx.sample(op.name + " of " + show(op.a, a.data()) + " in all frames and units"); }
			// pairs: a quarter of the frames each, by turns; all of them for one operand
			std::size_t const step{ op.b < 0 || th ? 1u : 6u };
			for (std::size_t k = step == 1 ? 0 : (&a - as.data() + 5 * (&b - bs.data())) % step; k < frames().size(); k += step)
			{
				if (! delicate(op, a.data(), b.data(), r, frames()[k].det)) { reframed(cx, op, a.data(), b.data(), r, frames()[k]); }
			}
			if (delicate(op, a.data(), b.data(), r, 1) || op.cls == cExp || op.cls == cLog) { continue; }
			if (op.b < 0)
			{
				for (int k : units)
				{
					ld const hi{ std::max(most(a.data(), kindSize(op.a)), 1.L) * powl(2.L, k) }, lo{ std::min(least(a.data(), kindSize(op.a)), 1.L) * powl(2.L, k) };
					ld const reach{ op.cls == cInv ? (op.a == kMV || op.a == kCplx ? 1e50L : 1e130L) : op.cls == cPow ? 1e95L : op.cls == cMag || op.cls == cDir || op.cls == cAmp ? 1e140L : 1e300L };
					if (hi > reach || lo < 1 / reach) { continue; }
					rescaled(cx, op, a.data(), b.data(), r, k, 0);
				}
			}
			else
			{
				std::size_t const at((&a - as.data() + &b - bs.data()) % units.size());
				for (std::size_t k = 0; k < units.size(); k += th ? 1 : 5)
				{
					int const u{ units[(at + k) % units.size()] }, w{ units[(at + 2 * k + 3) % units.size()] };
					rescaled(cx, op, a.data(), b.data(), r, u, u);
					if (op.cls == cMul) { rescaled(cx, op, a.data(), b.data(), r, u, w); }
				}
			}
		}
	}
}
