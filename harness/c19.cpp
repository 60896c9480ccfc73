// C19 - scientific text.
#include "text.hpp"
#include "history.hpp"

namespace
{
using mc::Ctx;
using namespace num;

template <class A> void check(Ctx & cx, double const * v, bool formats)
{
	A const a(K<A>::make(v));
	auto differ = [&](std::string const & got, int d, std::string const & what)
	{
		cx.did();
		cx.outcome(std::hash<std::string>{}(got));
		std::string const want(text::enoteRef(K<A>::id, v, d));
		if (got != want) { cx.fail(what + " of " + show(a) + "\n  got  \"" + got + "\"\n  want \"" + want + "\""); }
		// the numbers in the text are the components, to the digits asked for
		char const * s{ got.c_str() };
		if (d >= 16) { cx.trace(); }
		for (int i = 0; i < K<A>::n; ++i)
		{
			char * e{ nullptr };
			double const x{ strtod(s, &e) };
			if (e == s) { cx.fail(what + " of " + show(a) + ": fewer numbers than components\n  got  \"" + got + "\""); }
			s = e;
			bool ok{ x == v[i] || (x != x && v[i] != v[i]) };
			if (! ok && d < 16) { ok = near(x, v[i], (.5000001L * powl(10, -d) + eps) * fabsl(v[i]) + 1e-323L) || (d < 16 && std::isinf(x)); }
			if (! ok) { cx.fail(what + mc::fmt(": component %d of ", i) + show(a) + " is not recovered\n  got  \"" + got + "\""); }
		}
	};
	if constexpr (text::has_enote<A>::value)
	{
		differ(g3::io::enote(a), 15, "enote()");
		differ(g3::io::enote(a, 16u), 16, "enote(.,16)");
		if (formats)
		{
			for (unsigned d = 0; d <= 24; ++d) { differ(g3::io::enote(a, d), int(d), mc::fmt("enote(.,%u)", d)); }
			for (unsigned d : { 25u, 29u, 30u, 31u, 32u, 33u, 40u, 50u, 56u, 57u, 58u, 63u, 64u, 65u, 100u, 127u, 128u, 200u, 255u, 256u, 400u, 1000u })
			{
				differ(g3::io::enote(a, d), int(d), mc::fmt("enote(.,%u)", d));
			}
		}
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> al(text::values());
	for (double x : decades(-307, 307, th ? 1 : 9)) { al.push_back(x); }
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		if (cx.next())
		{
			bool const want{ K<A>::id != kCplx && K<A>::id != kDplx };
			if (want && ! text::has_enote<A>::value) { cx.fail(std::string("no enote() for ") + K<A>::name()); }
		}
		if constexpr (text::has_enote<A>::value)
		{
			history::explore<A>(cx, "scientific text", [](auto && x) -> decltype(auto) { return g3::io::enote(HELD(x)); });
			history::explore<A>(cx, "scientific text with digits", [](auto && x) -> decltype(auto) { return g3::io::enote(HELD(x), 3u); });
			auto one = [&](double const * v) { if (cx.next()) { check<A>(cx, v, false); if (cx.sampleNow()) { cx.sample("text of " + show(K<A>::id, v)); } } };
			auto fmts = [&](double const * v) { if (cx.next()) { check<A>(cx, v, true); } };
			sparse(n, 2, patterns()[2].data(), al, one);
			sparse(n, 2, zeros24, al, one);
			for (auto const & p : patterns()) { sparse(n, 1, p.data(), al, fmts); }
			sized(n, one, -322, 307);
			sparse(n, 1, patterns()[1].data(), everyday(th), one);
			if (n == 1) { words(1, decades(-323, 308), fmts); }
			std::vector<double> edge;
			for (int e = -25; e <= 25; ++e) for (double m : { 1., 5., 9.5, 9.99, 9.995, 9.9999995, 9.9999999999999995, 9.999999999999998 })
			{
				edge.push_back(m * std::pow(10., e));
				edge.push_back(-edge.back());
			}
			for (double x : decades(-323, 308)) { edge.push_back(x); edge.push_back(-x); }
			for (int q : { 0, 2 }) { sparse(n, 1, patterns()[q].data(), edge, n < (th ? 5 : 3) ? std::function<void(double const *)>(fmts) : std::function<void(double const *)>(one)); }
			if (th && n < 8) { sparse(n, 2, patterns()[1].data(), al, fmts); }
		}
	});
}
