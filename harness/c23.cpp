// C23 - the commuting kind behaves as the complex numbers.
#include "num.hpp"
#include "history.hpp"
#include <complex>

namespace
{
using mc::Ctx;
using namespace num;
using C = g3::ComPlex;
using Z = std::complex<double>;
using ZL = std::complex<long double>;

ZL zl(C const & c) { return ZL(c.theSca.theData[0], c.theTri.theData[0]); }

//! Bounds of the two parts: every part is a sum of products that are rounded
struct Tol { ld re, im; Tol(ld t) : re(t), im(t) {} Tol(ld r, ld i) : re(r), im(i) {} };
void need(Ctx & cx, C const & got, ZL const & want, Tol const & tol, std::string const & what)
{
	cx.did();
	double g[2];
	K<C>::get(got, g);
	cx.outcome(g, 2);
	if (! near(g[0], want.real(), tol.re) || ! near(g[1], want.imag(), tol.im)) { cx.fail(what + mc::fmt("\n  got  %.17g %.17g\n  want %.17Lg %.17Lg", g[0], g[1], want.real(), want.imag())); }
}
Tol terms(ZL const & x, ZL const & y)
{
	ld const k{ 8 * eps };
	return Tol(k * (fabsl(x.real() * y.real()) + fabsl(x.imag() * y.imag())) + 1e-300L, k * (fabsl(x.real() * y.imag()) + fabsl(x.imag() * y.real())) + 1e-300L);
}
ld size(ZL const & z) { return fabsl(z.real()) + fabsl(z.imag()); }

void convert(Ctx & cx, double const * v)
{
	C const c(K<C>::make(v));
	Z const z(c);
	Z const z2 = c;
	C const back(C::from(z));
	C const made(C::from(Z{ v[0], v[1] }));
	double g[2], h[2];
	K<C>::get(back, g);
	K<C>::get(made, h);
	cx.did(4);
	cx.trace();
	for (int i = 0; i < 2; ++i)
	{
		double const a{ i ? z.imag() : z.real() }, b{ i ? z2.imag() : z2.real() };
		if (! sameBitsD(a, v[i]) || ! sameBitsD(b, v[i]) || ! sameBitsD(g[i], v[i]) || ! sameBitsD(h[i], v[i])) { cx.fail(mc::fmt("conversion of %.17g %.17g: to %.17g, and back %.17g, from std::complex %.17g", v[0], v[1], a, g[i], h[i])); }
	}
}
void binary(Ctx & cx, double const * v)
{
	C const a(K<C>::make(v)), b(K<C>::make(v + 2));
	ZL const x(zl(a)), y(zl(b));
	std::string const args{ " of\n  " + show(a) + "\n  " + show(b) };
	need(cx, a * b, x * y, terms(x, y), "product" + args);
	need(cx, a + b, x + y, Tol(2 * eps * (fabsl(x.real()) + fabsl(y.real())), 2 * eps * (fabsl(x.imag()) + fabsl(y.imag()))), "sum" + args);
	need(cx, a - b, x - y, Tol(2 * eps * (fabsl(x.real()) + fabsl(y.real())), 2 * eps * (fabsl(x.imag()) + fabsl(y.imag()))), "difference" + args);
}
void unary(Ctx & cx, double const * v)
{
	C const a(K<C>::make(v));
	ZL const x(zl(a));
	ld const m{ size(x) };
	std::string const arg{ " of " + show(a) };
	need(cx, -a, -x, 0, "negative" + arg);
	need(cx, g3::reverse(a), std::conj(x), 0, "conjugate (reverse)" + arg);
	need(cx, g3::oddverse(a), std::conj(x), 0, "conjugate (oddverse)" + arg);
	need(cx, g3::dirverse(a), x, 0, "dirverse" + arg);
	need(cx, g3::dual(a), ZL(0, 1) * x, 0, "dual (product with i)" + arg);
	need(cx, g3::sq(a), x * x, terms(x, x), "square" + arg);
	need(cx, g3::cube(a), x * x * x, 32 * eps * m * m * m, "cube" + arg);
	need(cx, g3::ampSq(a), x * x, terms(x, x), "squared amplitude" + arg);
	need(cx, 2.5 * a, 2.5L * x, Tol(6 * eps * fabsl(x.real()), 6 * eps * fabsl(x.imag())), "multiple" + arg);
	need(cx, a * 2.5, 2.5L * x, Tol(6 * eps * fabsl(x.real()), 6 * eps * fabsl(x.imag())), "multiple" + arg);
	cx.did(2);
	if (! near(g3::magnitude(a), std::abs(x), 8 * eps * std::abs(x))) { cx.fail("magnitude" + arg); }
	if (! near(g3::magSq(a), std::norm(x), 8 * eps * std::norm(x))) { cx.fail("squared magnitude" + arg); }
	if (m > 0)
	{
		ZL const i(1.L / x);
		need(cx, g3::inverse<C>(a), i, Tol(32 * eps * fabsl(i.real()), 32 * eps * fabsl(i.imag())), "inverse" + arg);
	}
	if (x.real() < 700 && fabsl(x.imag()) < 1e4L && x.real() > -700)
	{
		M8 const e(toRef(g3::exp(g3::MultiVector(a))));
		ZL const w(std::exp(x));
		cx.did();
		cx.trace();
		ld const t{ 64 * eps * (1 + m) * std::abs(w) };
		for (int q = 0; q < 8; ++q) { ld const want{ q == 0 ? w.real() : q == 7 ? w.imag() : 0 }; if (! near(e.c[q], want, t)) { cx.fail("exponential" + arg + "\n  got " + ref::str(e)); } }
	}
}
//! Field laws, exact on small integers
void laws(Ctx & cx, double const * v)
{
	C const a(K<C>::make(v)), b(K<C>::make(v + 2)), c(K<C>::make(v + 4));
	auto eq = [&](C const & p, C const & q, char const * law)
	{
		cx.did(2);
		cx.trace();
		if (zl(p) != zl(q)) { cx.fail(std::string(law) + " fails for\n  " + show(a) + "\n  " + show(b) + "\n  " + show(c)); }
	};
	eq(a * b, b * a, "a*b == b*a");
	eq((a * b) * c, a * (b * c), "(a*b)*c == a*(b*c)");
	eq(a * (b + c), a * b + a * c, "a*(b+c) == a*b + a*c");
	eq((a - b) * c, a * c - b * c, "(a-b)*c == a*c - b*c");
	eq(g3::reverse(a * b), g3::reverse(a) * g3::reverse(b), "conj(a*b) == conj(a)*conj(b)");
	// polynomial evaluation, three steps
	ZL const z(zl(a));
	C const p(((a * a + b) * a + c) * a - b);
	ZL const w(((z * z + zl(b)) * z + zl(c)) * z - zl(b));
	cx.did(7);
	cx.trace();
	if (zl(p) != w) { cx.fail("polynomial ((a*a + b)*a + c)*a - b for\n  " + show(a) + "\n  " + show(b) + "\n  " + show(c)); }
}
//! the commuting kind commutes with every kind
template <class A> void commutes(Ctx & cx)
{
	int const n{ K<A>::n + 2 };
	words(n, intAlphabet(n, 1e5), [&](double const * v)
	{
		if (! cx.next()) { return; }
		C const c(K<C>::make(v));
		A const a(K<A>::make(v + 2));
		M8 const l(toRef(c * a)), r(toRef(a * c));
		cx.did(2);
		cx.trace();
		for (int i = 0; i < 8; ++i) { if (l.c[i] != r.c[i]) { cx.fail("c*a and a*c differ for c = " + show(c) + ", a = " + show(a)); } }
	});
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	double const sub{ std::numeric_limits<double>::denorm_min() };
	history::explore<g3::ComPlex>(cx, "conversion to std::complex", [](auto && x) -> decltype(auto) { return static_cast<std::complex<double> >(HELD(x)); });
	history::explore2<g3::ComPlex, g3::ComPlex>(cx, "complex product", [](auto && x, auto && y) -> decltype(auto) { return HELD(x) * HELD(y); });
	history::explore<g3::ComPlex>(cx, "complex inverse", [](auto && x) -> decltype(auto) { return g3::inverse<g3::ComPlex>(HELD(x)); });
	words(2, { 0., -0., 1., -2.5, qnan, inf, -inf, sub, 1e308, 1e-300, 1/3. }, [&](double const * v) { if (cx.next()) { convert(cx, v); } });
	std::vector<double> al{ 0, 1, -1, 0.3, -2.7, 1e-9, 5e4, 1e-60, -3e60 };
	al.insert(al.end(), { 13., -0.011, 1e17, 4e-30, 2e100 });
	words(4, al, [&](double const * v) { if (cx.next()) { binary(cx, v); if (cx.sampleNow()) { cx.sample("arithmetic of " + show(kCplx, v) + " and " + show(kCplx, v + 2)); } } });
	for (auto const & q : patterns())
	{
		wholeOnes(2, [&](double const * v) { if (cx.next()) { double const w[4]{ v[0], v[1], q[2], q[3] }; binary(cx, w); } });
		ladder(2, [&](double const * v) { if (cx.next()) { double const w[4]{ v[0], v[1], q[2], q[3] }; binary(cx, w); } });
		wholeOnes(2, [&](double const * v) { if (cx.next()) { double const w[4]{ q[0], q[1], v[0], v[1] }; binary(cx, w); } });
		ladder(2, [&](double const * v) { if (cx.next()) { double const w[4]{ q[0], q[1], v[0], v[1] }; binary(cx, w); } });
	}
	nearPairs(2, [&](double const * v) { if (cx.next()) { binary(cx, v); } }, -150, 150);
	sizedPairs(2, 2, [&](double const * v) { if (cx.next()) { binary(cx, v); } }, -150, 150, th ? 1 : 3);
	sized(2, [&](double const * v) { if (cx.next()) { convert(cx, v); } }, -323, 307);
	wholeOnes(4, [&](double const * v) { if (cx.next()) { binary(cx, v); } });
	ladder(4, [&](double const * v) { if (cx.next()) { binary(cx, v); } });
	wholeOnes(2, [&](double const * v) { if (cx.next()) { unary(cx, v); } });
	ladder(2, [&](double const * v) { if (cx.next()) { unary(cx, v); } });
	std::vector<double> un{ 0., 700. / 2, -300., M_PI, -M_PI_2 };
	for (double x : decades(-60, 60)) { un.push_back(x); un.push_back(-x); }
	words(2, un, [&](double const * v) { if (cx.next()) { unary(cx, v); } });
	words(2, { -4, -3, -2, -1, 0, 1, 2, 3, 4 }, [&](double const * v) { if (cx.next()) { unary(cx, v); } });
	words(6, th ? std::vector<double>{ -7, -3, -1, 0, 1, 2, 5 } : std::vector<double>{ -3, -1, 0, 1, 2, 5 }, [&](double const * v) { if (cx.next()) { laws(cx, v); } });
	forKinds(GaKinds{}, [&](auto t) { commutes<TY(t)>(cx); });
}
