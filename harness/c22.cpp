// C22 - construction, component access, promotion.
#include "num.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;
using MV = g3::MultiVector;

void same(Ctx & cx, double const * got, double const * want, int n, std::string const & what)
{
	for (int i = 0; i < n; ++i) { if (! sameBitsD(got[i], want[i])) { cx.fail(what + mc::fmt(": component %d is %.17g, not %.17g", i, got[i], want[i])); } }
}

template <class A> void access(Ctx & cx, double const * v)
{
	int const n{ K<A>::n };
	A const a(K<A>::make(v));
	double g[8];
	for (int i = 0; i < n; ++i) { g[i] = a[std::size_t(i)]; }
	cx.did(n);
	cx.outcome(g, n);
	same(cx, g, v, n, "subscript of " + show(a));
	if (K<A>::id != kMV)
	{
		for (std::size_t i : { std::size_t(n), std::size_t(n + 1), std::size_t(n + 2), std::size_t(n + 5), std::size_t(8), std::size_t(9), std::size_t(255), std::size_t(256), std::size_t(65536), (std::size_t(1) << 31), (std::size_t(1) << 32), (std::size_t(1) << 63), ~std::size_t(0), ~std::size_t(0) - 2 })
		{
			if (i < std::size_t(n)) { continue; }
			double const x{ a[i] };
			cx.did();
			if (x == x) { cx.fail(mc::fmt("subscript %zu of ", i) + show(a) + mc::fmt(" is %.17g, not NaN", x)); }
		}
	}
	// promotion to a multivector: the grades it has, exactly, and +0 elsewhere
	if constexpr (K<A>::id != kMV)
	{
		MV const m(a);
		double w[8]{}, p[8];
		for (int i = 0; i < n; ++i) { w[K<A>::at(i)] = v[i]; }
		K<MV>::get(m, p);
		cx.did();
		cx.trace();
		for (int i = 0; i < 8; ++i) { if (! (sameBitsD(p[i], w[i]) || (p[i] == 0. && w[i] == 0.))) { cx.fail("the multivector made from " + show(a) + " is " + show(m)); } }
	}
}
//! Copies are independent values; assignment carries every component
template <class A> void copies(Ctx & cx, double const * v, double const * w)
{
	int const n{ K<A>::n };
	A a(K<A>::make(v));
	A const b(a);
	A c(K<A>::make(w));
	a = c;
	double g[8];
	K<A>::get(a, g);
	same(cx, g, w, n, "assigned " + show(c));
	K<A>::get(b, g);
	same(cx, g, v, n, "copy taken before an assignment");
	c = b;
	K<A>::get(c, g);
	same(cx, g, v, n, "assigned back " + show(b));
	A const & self(c);
	c = self;
	K<A>::get(c, g);
	same(cx, g, v, n, "assigned to itself " + show(b));
	// values taken from temporaries and from entities given up
	auto is = [&](A const & x, double const * want, char const * how) { K<A>::get(x, g); cx.did(); same(cx, g, want, n, std::string(how) + " with " + show(b) + " and " + show(K<A>::id, w)); };
	A d(K<A>::make(w));
	d = K<A>::make(v);
	is(d, v, "assigned a temporary");
	A e(K<A>::make(w));
	A f(std::move(e));
	is(f, w, "made from an entity given up");
	e = K<A>::make(v);
	is(e, v, "assigned a temporary after being given up");
	e = std::move(f);
	is(e, w, "assigned an entity given up");
	f = std::move(d);
	is(f, v, "assigned another entity given up");
	std::swap(e, f);
	is(e, v, "swapped");
	is(f, w, "swapped");
	std::swap(e, e);
	is(e, v, "swapped with itself");
	std::pair<A, A> two{ e, f }, other{ f, e };
	two.swap(other);
	is(two.first, w, "swapped in a pair");
	is(two.second, v, "swapped in a pair");
	other = std::move(two);
	is(other.first, w, "assigned in a pair");
	// in containers, which move what they hold
	std::vector<A> many;
	for (int i = 0; i < 5; ++i) { many.push_back(i % 2 ? f : e); many.shrink_to_fit(); }
	many.insert(many.begin() + 1, A(K<A>::make(w)));
	many.erase(many.begin());
	std::reverse(many.begin(), many.end());
	std::rotate(many.begin(), many.begin() + 1, many.end());
	// v w v w v -> v w w v w v -> w w v w v -> v w v w w -> w v w w v
	double const * const order[5]{ w, v, w, w, v };
	if (many.size() != 5) { cx.fail("a container of entities lost some"); }
	for (std::size_t i = 0; i < many.size() && i < 5; ++i) { is(many[i], order[i], "held in a container"); }
	cx.did(4);
	cx.trace();
}

//! All ways to write components, all histories of writes through subscripts
void writes(Ctx & cx, int depth, std::vector<double> const & al)
{
	int const moves{ 8 * int(al.size()) };
	long total{ 1 };
	for (int i = 0; i < depth; ++i) { total *= moves; }
	for (long h = 0; h < total; ++h)
	{
		if (! cx.next()) { continue; }
		double want[8]{ 1, 2, 3, 4, 5, 6, 7, 8 };
		MV m(K<MV>::make(want));
		long rest{ h };
		std::string how;
		for (int i = 0; i < depth; ++i)
		{
			int const mv{ int(rest % moves) };
			rest /= moves;
			std::size_t const at(mv / al.size());
			want[at] = al[mv % al.size()];
			m[at] = want[at];
			how += mc::fmt(" [%zu]=%g", at, want[at]);
			double g[8], s[8];
			K<MV>::get(m, g);
			MV const & cm(m);
			for (std::size_t k = 0; k < 8; ++k) { s[k] = cm[k]; }
			cx.did(9);
			same(cx, g, want, 8, "after writing" + how);
			same(cx, s, want, 8, "subscripts after writing" + how);
		}
		// reads through the writable subscript, and updates
		for (std::size_t k = 0; k < 8; ++k) { m[k] += 0.5; want[k] += 0.5; }
		double g[8];
		K<MV>::get(m, g);
		same(cx, g, want, 8, "after adding to every component following" + how);
		cx.trace();
	}
}
void makers(Ctx & cx, double const * v)
{
	double g[8];
	auto chk = [&](MV const & m, double const * want, char const * how) { K<MV>::get(m, g); cx.did(); same(cx, g, want, 8, std::string("multivector made from ") + how); };
	g3::Scalar const s{ v[0] };
	g3::Vector const e{ v[1], v[2], v[3] };
	g3::BiVector const b{ v[4], v[5], v[6] };
	g3::TriVector const t{ v[7] };
	chk(MV{ s, e, b, t }, v, "four blades");
	chk(MV{ g3::ComPlex{ s, t }, g3::DirPlex{ e, b } }, v, "a ComPlex and a DirPlex");
	chk(MV{ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] }, v, "eight numbers");
	MV const copy(MV{ s, e, b, t });
	chk(copy, v, "a copy");
	double const d[8]{ v[0] };
	MV const ds(v[0]);
	K<MV>::get(ds, g);
	for (int i = 0; i < 8; ++i) { if (! (sameBitsD(g[i], d[i]) || (g[i] == 0 && d[i] == 0))) { cx.fail(mc::fmt("multivector made from the number %.17g is ", v[0]) + show(ds)); } }
	// composites from blades and from plain numbers
	double h[8];
	g3::Spinor const sp{ s, b }, sp2{ v[0], v[4], v[5], v[6] };
	K<g3::Spinor>::get(sp, g); K<g3::Spinor>::get(sp2, h);
	same(cx, g, h, 4, "Spinor from blades and from numbers");
	double const w1[4]{ v[0], v[4], v[5], v[6] }; same(cx, g, w1, 4, "Spinor");
	g3::ImSpin const is{ e, t }, is2{ v[1], v[2], v[3], v[7] };
	K<g3::ImSpin>::get(is, g); K<g3::ImSpin>::get(is2, h);
	same(cx, g, h, 4, "ImSpin from blades and from numbers");
	double const w2[4]{ v[1], v[2], v[3], v[7] }; same(cx, g, w2, 4, "ImSpin");
	g3::ComPlex const cp{ s, t }, cp2{ v[0], v[7] };
	K<g3::ComPlex>::get(cp, g); K<g3::ComPlex>::get(cp2, h);
	same(cx, g, h, 2, "ComPlex from blades and from numbers");
	double const w3[2]{ v[0], v[7] }; same(cx, g, w3, 2, "ComPlex");
	g3::DirPlex const dp{ e, b }, dp2{ v[1], v[2], v[3], v[4], v[5], v[6] };
	K<g3::DirPlex>::get(dp, g); K<g3::DirPlex>::get(dp2, h);
	same(cx, g, h, 6, "DirPlex from blades and from numbers");
	double const w4[6]{ v[1], v[2], v[3], v[4], v[5], v[6] }; same(cx, g, w4, 6, "DirPlex");
	cx.did(8);
	cx.trace();
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> const odd{ 0., -0., 1., -7.5, qnan, inf, -inf, std::numeric_limits<double>::denorm_min(), 1.7976931348623157e308, 1e-300 };
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		history::explore<A>(cx, "subscripts", [](A const & x)
		{
			std::pair<g3::MultiVector, bool> r;
			r.first.theSca.theData[0] = x[0];
			for (std::size_t i = 0; i < 3; ++i) { r.first.theVec.theData[i] = K<A>::n > int(1 + i) ? x[1 + i] : 0.; r.first.theBiv.theData[i] = K<A>::n > int(4 + i) ? x[4 + i] : 0.; }
			r.first.theTri.theData[0] = K<A>::n > 7 ? x[7] : 0.;
			r.second = true;
			return r;
		});
		if constexpr (K<A>::id != kMV) { history::explore<A>(cx, "promotion", [](auto && x) -> decltype(auto) { return g3::MultiVector(HELD(x)); }); }
		auto one = [&](double const * v) { if (cx.next()) { access<A>(cx, v); if (cx.sampleNow()) { cx.sample("components of " + show(K<A>::id, v)); } } };
		words(n, intAlphabet(n, th ? 1e7 : 1e6), one);
		for (auto const & p : patterns()) { sparse(n, th ? 4 : 3, p.data(), odd, one); }
		sized(n, one);
		sizedPairs(n, n, [&](double const * v) { if (cx.next()) { copies<A>(cx, v, v + n); } }, -300, 300, 100);
		for (auto const & p : patterns()) for (auto const & q : patterns()) { if (cx.next()) { copies<A>(cx, p.data(), q.data()); } }
		sparse(2 * n, 2, patterns()[2].data(), odd, [&](double const * v) { if (cx.next()) { copies<A>(cx, v, v + n); } });
	});
	auto two = [&](double const * v) { if (cx.next()) { makers(cx, v); } };
	words(8, th ? std::vector<double>{ -1, 0, 2, qnan, 5 } : std::vector<double>{ -1, 0, 2, qnan }, two);
	for (auto const & p : patterns()) { sparse(8, 2, p.data(), odd, two); }
	sized(8, two);
	writes(cx, 2, odd);
	writes(cx, th ? 4 : 3, { 0.25, qnan, -3. });
}
