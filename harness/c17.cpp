// C17 - rotations and reflections by products.
#include "num.hpp"
#include "history.hpp"

#include <deque>

namespace
{
using mc::Ctx;
using namespace num;
using V = g3::Vector;
using B = g3::BiVector;
using Sp = g3::Spinor;

struct R3 { ld a[9]; };
//! Rotation matrix by angle t about the unit axis u (Rodrigues), right handed
R3 rodrigues(ld const * u, ld t)
{
	ld const c{ cosl(t) }, s{ sinl(t) }, k{ 1 - c };
	return R3{ { c + k * u[0] * u[0], k * u[0] * u[1] - s * u[2], k * u[0] * u[2] + s * u[1]
		, k * u[1] * u[0] + s * u[2], c + k * u[1] * u[1], k * u[1] * u[2] - s * u[0]
		, k * u[2] * u[0] - s * u[1], k * u[2] * u[1] + s * u[0], c + k * u[2] * u[2] } };
}
void apply(R3 const & r, ld const * v, ld * w) { for (int i = 0; i < 3; ++i) { w[i] = r.a[3 * i] * v[0] + r.a[3 * i + 1] * v[1] + r.a[3 * i + 2] * v[2]; } }

//! The rotor for an angle about an axis: exp of half the angle in the plane
//! dual to the axis; turns right handed as reverse(r)*v*r
Sp rotor(double const * u, double t)
{
	double b[3];
	for (int i = 0; i < 3; ++i) { b[i] = .5 * t * u[i]; }
	return g3::exp(K<B>::make(b));
}

struct Step { double u[3]; double t; };

//! A sequence of turns applied step by step, and at once, to an entity
template <class A> void turns(Ctx & cx, std::vector<Step> const & seq, double const * v)
{
	A const a(K<A>::make(v));
	Sp all(g3::one<Sp>());
	M8 want(toRef(a));
	g3::MultiVector cur(g3::MultiVector{ a });
	std::string how;
	for (Step const & s : seq)
	{
		Sp const r(rotor(s.u, s.t));
		all = all * r;
		cur = g3::MultiVector{ g3::reverse(r) * cur * r };
		cx.did(5);
		ld u[3], n{ 0 };
		for (int i = 0; i < 3; ++i) { n += ld(s.u[i]) * s.u[i]; }
		for (int i = 0; i < 3; ++i) { u[i] = s.u[i] / sqrtl(n); }
		R3 const m(rodrigues(u, s.t * sqrtl(n)));
		M8 w(want);
		apply(m, want.c + 1, w.c + 1);
		apply(m, want.c + 4, w.c + 4);
		want = w;
		how += mc::fmt(" [axis %g %g %g angle %g]", s.u[0], s.u[1], s.u[2], s.t);
		cx.trace();
		M8 const got(toRef(cur));
		ld const tol{ 1e-13L * (1 + ref::mag(want)) * seq.size() };
		for (int i = 0; i < 8; ++i) { if (! near(got.c[i], want.c[i], tol)) { cx.fail("turning " + show(a) + " by" + how + "\n  got  " + ref::str(got) + "\n  not  " + ref::str(want)); } }
	}
	M8 const once(toRef(g3::reverse(all) * a * all));
	cx.did(3);
	ld const tol{ 1e-13L * (1 + ref::mag(want)) * (1 + seq.size()) };
	for (int i = 0; i < 8; ++i) { if (! near(once.c[i], want.c[i], tol)) { cx.fail("turning " + show(a) + " by the product of" + how + "\n  got  " + ref::str(once) + "\n  not  " + ref::str(want)); } }
	// lengths are kept; the backward turn restores
	if (! near(g3::magnitude(cur), ref::mag(toRef(a)), tol)) { cx.fail("length changes: " + show(a) + " by" + how); }
	M8 const back(toRef(all * cur * g3::reverse(all)));
	cx.did(4);
	for (int i = 0; i < 8; ++i) { if (! near(back.c[i], toRef(a).c[i], tol * 2)) { cx.fail("the backward turn does not restore " + show(a) + " by" + how); } }
	double o[8];
	K<g3::MultiVector>::get(cur, o);
	cx.outcome(o, 8);
}

//! All products of quarter turns about the axes: a group of 48 spinors, acting
//! as the 24 rotations of the cube
void group(Ctx & cx)
{
	double const h{ std::sqrt(.5) };
	std::vector<Sp> gen;
	for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { double u[3]{}; u[i] = s; gen.push_back(rotor(u, M_PI_2)); }
	auto key = [&](M8 const & m)
	{
		std::string k;
		for (int i = 0; i < 8; ++i)
		{
			ld best{ 9 };
			int at{ 0 };
			ld const al[7]{ 0, .5L, -.5L, h, -h, 1, -1 };
			for (int q = 0; q < 7; ++q) { if (fabsl(m.c[i] - al[q]) < best) { best = fabsl(m.c[i] - al[q]); at = q; } }
			if (best > 1e-12L) { cx.fail("a product of quarter turns has a component outside 0, 1/2, sqrt(1/2), 1: " + ref::str(m)); }
			k += char('0' + at);
		}
		return k;
	};
	std::map<std::string, Sp> seen;
	std::map<std::string, std::string> matrices;
	std::deque<Sp> todo;
	seen[key(toRef(g3::one<Sp>()))] = g3::one<Sp>();
	todo.push_back(g3::one<Sp>());
	while (! todo.empty())
	{
		Sp const s(todo.front());
		todo.pop_front();
		// what it does to the axes
		std::string mat;
		V const ax[3]{ g3::e1, g3::e2, g3::e3 };
		ld m[9];
		for (int i = 0; i < 3; ++i)
		{
			M8 const w(toRef(g3::reverse(s) * ax[i] * s));
			cx.did(3);
			for (int k = 0; k < 3; ++k)
			{
				m[3 * k + i] = roundl(w.c[k + 1]);
				if (fabsl(w.c[k + 1] - m[3 * k + i]) > 1e-12L) { cx.fail("quarter turns do not permute the axes"); }
				mat += mc::fmt("%d,", int(m[3 * k + i]));
			}
			if (fabsl(w.c[7]) > 1e-12L) { cx.fail("a turned vector has a trivector part"); }
		}
		ld const det{ m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]) };
		if (det != 1) { cx.fail("a product of quarter turns is no proper rotation: " + mat); }
		matrices[mat] = key(toRef(s));
		for (Sp const & g : gen)
		{
			Sp const n(s * g);
			cx.did();
			cx.trace();
			std::string const k(key(toRef(n)));
			if (! seen.count(k)) { seen[k] = n; todo.push_back(n); }
		}
		if (seen.size() > 48) { cx.fail("quarter turns generate more than 48 spinors"); }
	}
	if (seen.size() != 48 || matrices.size() != 24) { cx.fail(mc::fmt("quarter turns generate %d spinors and %d rotations, not 48 and 24", int(seen.size()), int(matrices.size()))); }
	cx.info["states of the quarter turn group"] += seen.size();
}

//! v -> -n v n mirrors v in the plane perpendicular to n; two mirrors turn
void mirrors(Ctx & cx, double const * n1, double const * n2, double const * v)
{
	V const a(g3::direction(K<V>::make(n1))), b(g3::direction(K<V>::make(n2))), x(K<V>::make(v));
	M8 const got(toRef(-(a * x * a)));
	M8 const two(toRef(b * a * x * a * b));
	Sp const r(a * b);
	M8 const turn(toRef(g3::reverse(r) * x * r));
	cx.did(12);
	cx.trace();
	ld d[3], n{ 0 }, p{ 0 };
	for (int i = 0; i < 3; ++i) { n += ld(n1[i]) * n1[i]; p += ld(n1[i]) * v[i]; }
	for (int i = 0; i < 3; ++i) { d[i] = v[i] - 2 * p / n * n1[i]; }
	ld const tol{ 1e-14L * (1 + ref::mag(toRef(x))) * 8 };
	for (int i = 0; i < 3; ++i) { if (! near(got.c[i + 1], d[i], tol)) { cx.fail("mirroring " + show(x) + " in the plane perpendicular to " + show(kV, n1) + "\n  got " + ref::str(got)); } }
	if (! near(got.c[7], 0, tol) || ! near(got.c[0], 0, tol)) { cx.fail("a mirrored vector is no vector: " + ref::str(got)); }
	for (int i = 0; i < 8; ++i) { if (! near(two.c[i], turn.c[i], tol)) { cx.fail("two mirrors differ from the turn by the product of their normals: " + show(kV, n1) + " " + show(kV, n2) + " " + show(x)); } }
}
//! the turn from one direction to another by sqrtG2 of their product
void between(Ctx & cx, double const * p, double const * q)
{
	V const a(g3::direction(K<V>::make(p))), b(g3::direction(K<V>::make(q)));
	Sp const ab(a * b);
	if (ab.theSca.theData[0] < -.999) { return; }
	Sp const r(g3::sqrtG2(ab));
	M8 const got(toRef(g3::reverse(r) * a * r)), want(toRef(b));
	cx.did(6);
	cx.trace();
	for (int i = 0; i < 8; ++i) { if (! near(got.c[i], want.c[i], 2e-7L)) { cx.fail("the root of a*b does not turn a to b for\n  a = " + show(a) + "\n  b = " + show(b) + "\n  got " + ref::str(got)); } }
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	if (cx.next()) { group(cx); }
	history::explore2<g3::Spinor, V>(cx, "turned vector", [](g3::Spinor const & s, V const & v) { return s * v * g3::reverse(s); });
	history::explore2<g3::Spinor, g3::BiVector>(cx, "turned bivector", [](g3::Spinor const & s, g3::BiVector const & v) { return s * v * g3::reverse(s); });
	history::explore2<V, V>(cx, "mirrored vector", [](V const & n, V const & v) { return -(n * v * n); });
	std::vector<std::vector<double>> axes;
	for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) { if (x || y || z) { axes.push_back({ x + 0., y + 0., z + 0. }); } }
	axes.push_back({ 0.2, -0.5, 0.9 });
	axes.push_back({ 1e-3, 2., -0.3 });
	for (auto & u : axes) { double const n{ std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) }; for (double & x : u) { x /= n; } }
	std::vector<double> an{ 3e-9, 1e-6, 0.01, 0.3, -1.1, 4.7, M_PI - 2e-8, M_PI + 1e-5 };
	for (int k = -8; k <= 8; ++k) { an.push_back(k * M_PI / 4); }
	if (th) { for (int k = -24; k <= 24; ++k) { an.push_back(k * M_PI / 12 + 1e-4); } }
	std::vector<Step> steps;
	for (auto const & u : axes) for (double t : an) { steps.push_back(Step{ { u[0], u[1], u[2] }, t }); }
	std::vector<std::vector<double>> vs{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -2, 3 }, { 1e5, 3, -1e-4 } };
	for (Step const & s : steps)
	{
		for (auto const & v : vs)
		{
			if (cx.next()) { turns<V>(cx, { s }, v.data()); }
			if (cx.next()) { turns<B>(cx, { s }, v.data()); }
		}
		for (auto const & p : patterns())
		{
			if (cx.next()) { turns<g3::Spinor>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::ImSpin>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::DirPlex>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::ComPlex>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::MultiVector>(cx, { s }, p.data()); }
		}
	}
	// turns close to none, a quarter, a half ... turn
	std::vector<std::size_t> const some{ 4, 12, 15, 22, axes.size() - 2, axes.size() - 1 };
	for (std::size_t ai : some) for (int k = -4; k <= 4; ++k) for (int j = 1; j <= 16; ++j) for (int sg = -1; sg <= 1; sg += 2)
	{
		Step const s{ { axes[ai][0], axes[ai][1], axes[ai][2] }, k * M_PI_2 + sg * std::pow(10., -j) };
		for (auto const & v : vs)
		{
			if (cx.next()) { turns<V>(cx, { s }, v.data()); }
			if (cx.next()) { turns<B>(cx, { s }, v.data()); }
		}
		// bivectors and vectors along and across the axis, too
		if (cx.next()) { turns<V>(cx, { s }, s.u); }
		if (cx.next()) { turns<B>(cx, { s }, s.u); }
		for (auto const & p : patterns())
		{
			if (cx.next()) { turns<g3::Spinor>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::ImSpin>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::DirPlex>(cx, { s }, p.data()); }
			if (cx.next()) { turns<g3::MultiVector>(cx, { s }, p.data()); }
		}
	}
	// entities nearly along and nearly across the axis; normals nearly alike, opposite and perpendicular
	for (std::size_t ai : some) for (int j = 1; j <= 16; ++j) for (int sg = -1; sg <= 1; sg += 2)
	{
		double const * const u{ axes[ai].data() };
		double const w[3]{ -u[1] - u[2] * .5, u[0] + u[2], u[0] * .5 - u[1] };
		double const d{ sg * std::pow(10., -j) };
		double along[3], across[3], against[3];
		for (int i = 0; i < 3; ++i) { along[i] = u[i] + d * w[i]; across[i] = w[i] + d * u[i]; against[i] = -u[i] + d * w[i]; }
		for (double t : an)
		{
			Step const s{ { u[0], u[1], u[2] }, t };
			for (double const * v : { along, across, against })
			{
				if (cx.next()) { turns<V>(cx, { s }, v); }
				if (cx.next()) { turns<B>(cx, { s }, v); }
			}
		}
		for (double const * v : { along, across, against })
		{
			if (cx.next()) { between(cx, u, v); between(cx, v, u); }
			for (auto const & x : vs) { if (cx.next()) { mirrors(cx, u, v, x.data()); } }
			if (cx.next()) { mirrors(cx, u, w, v); mirrors(cx, v, w, u); mirrors(cx, v, v, u); }
		}
	}
	for (Step const & s : steps) for (Step const & t : steps)
	{
		for (std::size_t k = 2; k < (th ? vs.size() : 4u); ++k)
		{
			if (cx.next())
			{
				turns<V>(cx, { s, t }, vs[k].data());
				if (cx.wantSample()) { cx.sample(mc::fmt("turn by %g about %g %g %g, then %g about %g %g %g", s.t, s.u[0], s.u[1], s.u[2], t.t, t.u[0], t.u[1], t.u[2])); }
			}
		}
	}
	// sequences of three and four turns from a small set
	std::vector<Step> few{ { { 1, 0, 0 }, M_PI_2 }, { { 0, 1, 0 }, -M_PI_4 }, { { 0, 0, 1 }, 2.1 }, { { .6, 0, .8 }, -0.4 }, { { 0, -.6, .8 }, M_PI }, { { 1/3., 2/3., 2/3. }, 1e-3 } };
	for (auto const & a : few) for (auto const & b : few) for (auto const & c : few)
	{
		if (cx.next()) { turns<V>(cx, { a, b, c }, vs[3].data()); }
		if (cx.next()) { turns<g3::MultiVector>(cx, { a, b, c }, patterns()[2].data()); }
		for (auto const & d : few) { if (cx.next()) { turns<V>(cx, { a, b, c, d }, vs[3].data()); } }
	}
	for (auto const & p : axes) for (auto const & q : axes)
	{
		for (auto const & v : vs) { if (cx.next()) { mirrors(cx, p.data(), q.data(), v.data()); } }
		if (cx.next()) { between(cx, p.data(), q.data()); }
	}
}
