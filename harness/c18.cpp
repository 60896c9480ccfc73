// C18 - fixed point text.
#include "text.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v, bool formats)
{
	A const a(K<A>::make(v));
	auto differ = [&](std::string const & got, std::string const & want, std::string const & what)
	{
		cx.did();
		cx.outcome(std::hash<std::string>{}(got));
		if (got != want) { cx.fail(what + " of " + show(a) + "\n  got  \"" + got + "\"\n  want \"" + want + "\""); }
	};
	if constexpr (K<A>::id != kD)
	{
		std::ostringstream o;
		if (&(o << a) != &o) { cx.fail("writing " + show(a) + " does not give the stream that was written to"); }
		differ(o.str(), text::fixedRef(K<A>::id, v, 3, 6, " "), "stream output");
	}
	if constexpr (text::has_fixed<A>::value)
	{
		differ(g3::io::fixed(a), text::fixedRef(K<A>::id, v, 3, 6, "  "), "fixed()");
		differ(g3::io::fixed(a, 5u), text::fixedRef(K<A>::id, v, 5, 6, "  "), "fixed(.,5)");
		if (formats)
		{
			for (unsigned lead = 0; lead <= 7; ++lead) for (unsigned frac = 0; frac <= 18; ++frac)
			{
				differ(g3::io::fixed(a, lead, frac), text::fixedRef(K<A>::id, v, int(lead), int(frac), "  "), mc::fmt("fixed(.,%u,%u)", lead, frac));
			}
			static std::vector<std::pair<unsigned, unsigned>> const more = []
			{
				std::vector<std::pair<unsigned, unsigned>> r;
				for (unsigned w : { 8u, 9u, 12u, 15u, 16u, 17u, 20u, 24u, 30u, 31u, 32u, 33u, 47u, 63u, 64u, 65u, 100u, 127u, 128u, 255u, 256u, 310u, 400u }) { r.push_back({ w, 0u }); r.push_back({ w, 6u }); r.push_back({ w, 40u }); }
				for (unsigned f : { 19u, 20u, 21u, 24u, 29u, 30u, 31u, 32u, 33u, 40u, 63u, 64u, 65u, 100u, 127u, 128u, 255u, 256u, 325u, 400u }) { r.push_back({ 0u, f }); r.push_back({ 3u, f }); }
				return r;
			}();
			for (auto const & m : more)
			{
				differ(g3::io::fixed(a, m.first, m.second), text::fixedRef(K<A>::id, v, int(m.first), int(m.second), "  "), mc::fmt("fixed(.,%u,%u)", m.first, m.second));
			}
		}
	}
}
//! several entities into one stream, in every order: nothing carries over
using Put = void (*)(std::ostream &, double const *);
Put puts_[kCount];
template <class A> void putOne(std::ostream & o, double const * v) { o << K<A>::make(v); }

void chain(Ctx & cx, int a, int b, int c, double const * v)
{
	if (! cx.next()) { return; }
	std::ostringstream o;
	puts_[a](o, v);
	o << "|" << 1.5;
	puts_[b](o, v);
	o << "#";
	puts_[c](o, v);
	o << 7;
	puts_[a](o, v);
	cx.did(4);
	cx.trace();
	std::string const ta(text::fixedRef(a, v, 3, 6, " "));
	std::string const want(ta + "|1.5" + text::fixedRef(b, v, 3, 6, " ") + "#" + text::fixedRef(c, v, 3, 6, " ") + "7" + ta);
	if (o.str() != want) { cx.fail(mc::fmt("%s, 1.5, %s, %s, 7, %s in one stream\n  got  \"", kindName(a), kindName(b), kindName(c), kindName(a)) + o.str() + "\"\n  want \"" + want + "\""); }
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> const al(text::values());
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		if (cx.next())
		{
			bool const want{ K<A>::id != kCplx && K<A>::id != kDplx };
			if (want && ! text::has_fixed<A>::value) { cx.fail(std::string("no fixed() for ") + K<A>::name()); }
		}
		if constexpr (text::has_fixed<A>::value)
		{
			history::explore<A>(cx, "fixed-point text", [](auto && x) -> decltype(auto) { return g3::io::fixed(HELD(x)); });
			history::explore<A>(cx, "fixed-point text with digits", [](auto && x) -> decltype(auto) { return g3::io::fixed(HELD(x), 1u, 9u); });
		}
		if constexpr (K<A>::id != kD) { history::explore<A>(cx, "stream output", [](auto && x) -> decltype(auto) { std::ostringstream o; o << HELD(x); return o.str(); }); }
		auto one = [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); if (cx.sampleNow()) { cx.sample("text of " + show(K<A>::id, v)); } } };
		auto fmts = [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } };
		if (n <= (th ? 4 : 3)) { words(n, al, one); }
		else { sparse(n, 2, patterns()[2].data(), al, one); sparse(n, 2, zeros24, al, one); }
		for (auto const & p : patterns()) { sparse(n, 1, p.data(), al, fmts); }
		if (th) { sparse(n, 2, patterns()[1].data(), al, fmts); }
		sized(n, one, -322, 307, 3);
		sparse(n, 1, patterns()[1].data(), everyday(th), one);
	});
	// values at the edge of a digit, for every number of digits and every size
	std::vector<double> edge;
	for (int e = -20; e <= 20; ++e) for (double m : { 1., 5., 9.5, 9.99, 9.995, 9.9999995, 9.99999999949, 9.999999999999998 })
	{
		edge.push_back(m * std::pow(10., e));
		edge.push_back(-edge.back());
	}
	for (double x : decades(-323, 308)) { edge.push_back(x); edge.push_back(-x); }
	for (int e = 1; e < 64; ++e) { edge.push_back(std::ldexp(1., e)); edge.push_back(-std::ldexp(1., e) + .5); edge.push_back(std::ldexp(1., e) - 1.); }
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		for (int q : { 0, 2 }) { sparse(K<A>::n, 1, patterns()[q].data(), edge, [&](double const * v) { if (cx.next()) { check<A>(cx, v, K<A>::n < 3 || (th && K<A>::n < 5)); } }); }
	});
	forKinds(GaKinds{}, [&](auto t) { using A = TY(t); puts_[K<A>::id] = putOne<A>; });
	for (int a = kS; a < kCount; ++a) for (int b = kS; b < kCount; ++b) for (int c = kS; c < kCount; ++c)
	{
		for (auto const & p : patterns()) { chain(cx, a, b, c, p.data()); }
		double const odd[8]{ -0., inf, 1e22, -qnan, 999.9999996, 1e-7, -inf, qnan };
		chain(cx, a, b, c, odd);
	}
}
