// C21 - text and values correspond, whatever state the stream is in.
//
// (1) what is written is read back: exactly for scientific text of 16 and more
//     digits, to the digits shown otherwise, and writing again gives the same
//     text; (2) all combinations of stream settings: text does not depend on
//     them, and the settings are the same afterwards.
#include "text.hpp"

#include <locale>

namespace
{
using mc::Ctx;
using namespace num;

struct Settings { std::ios_base::fmtflags f; int prec; char fill; };
std::vector<Settings> settings(bool th)
{
	using I = std::ios_base;
	std::vector<Settings> r;
	for (auto fl : { I::fmtflags(0), I::fixed, I::scientific, I::fixed | I::scientific })
	for (auto ad : { I::fmtflags(0), I::left, I::right, I::internal })
	for (auto ba : { I::dec, I::hex, I::oct })
	for (auto sp : { I::fmtflags(0), I::showpos }) for (auto up : { I::fmtflags(0), I::uppercase })
	for (auto pt : { I::fmtflags(0), I::showpoint | I::showbase }) for (auto ws : { I::skipws, I::skipws | I::unitbuf | I::boolalpha })
	for (int prec : th ? std::vector<int>{ 0, 1, 2, 6, 15, 20 } : std::vector<int>{ 0, 2, 6, 17 }) for (char fill : { ' ', '*', '0' })
	{
		r.push_back(Settings{ fl | ad | ba | sp | up | pt | ws, prec, fill });
	}
	return r;
}
template <class S> void putSettings(S & s, Settings const & w) { s.flags(w.f); s.precision(w.prec); s.fill(w.fill); }
template <class S> bool kept(S & s, Settings const & w) { return s.flags() == w.f && s.precision() == w.prec && s.fill() == w.fill && s.width() == 0; }

//! settings a stream is given before text of this value goes through it, any of many
Settings const & settingsFor(std::string const & what)
{
	static std::vector<Settings> const all(settings(false));
	return all[std::hash<std::string>{}(what) % all.size()];
}
template <class A> A readBack(Ctx & cx, std::string const & s, bool & failed)
{
	std::istringstream in(s);
	Settings const & w(settingsFor(s));
	putSettings(in, w);
	double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 };
	A a(K<A>::make(junk));
	in >> a;
	failed = in.fail();
	cx.did();
	if (! kept(in, w)) { cx.fail(mc::fmt("reading %s from \"%s\" changes stream settings: flags 0x%x to 0x%x, precision %d to %d", K<A>::name(), s.c_str(), unsigned(w.f), unsigned(in.flags()), w.prec, int(in.precision()))); }
	return a;
}
template <class A> std::string write(Ctx & cx, A const & a)
{
	std::ostringstream o;
	o << a;
	cx.did();
	std::ostringstream p;
	Settings const & w(settingsFor(o.str()));
	putSettings(p, w);
	p << a;
	cx.did();
	if (p.str() != o.str() || ! o.good() || ! p.good()) { cx.fail(mc::fmt("text of %s depends on stream settings (flags 0x%x precision %d fill '%c')\n  got \"%s\"\n  and \"%s\"", show(a).c_str(), unsigned(w.f), w.prec, w.fill, p.str().c_str(), o.str().c_str())); }
	if (! kept(p, w) || ! kept(o, Settings{ std::ios::skipws | std::ios::dec, 6, ' ' })) { cx.fail(mc::fmt("writing %s changes stream settings: flags 0x%x to 0x%x, precision %d to %d, fill '%c' to '%c'", show(a).c_str(), unsigned(w.f), unsigned(p.flags()), w.prec, int(p.precision()), w.fill, p.fill())); }
	return o.str();
}
bool good(double x) { return x == 0. || (x == x && fabs(x) <= 1.7976931348623157e308 && fabs(x) >= 2.2250738585072014e-308); }

template <class A> void round(Ctx & cx, double const * v)
{
	A const a(K<A>::make(v));
	bool valid{ true };
	for (int i = 0; i < K<A>::n; ++i) { valid = valid && good(v[i]); }
	bool failed{ false };
	std::string const s(write(cx, a));
	A const b(readBack<A>(cx, s, failed));
	double g[8];
	K<A>::get(b, g);
	cx.trace();
	cx.outcome(g, K<A>::n);
	if (! valid)
	{
		// never read back as a valid entity, unless the text itself is one
		bool shown{ true };
		for (int i = 0; i < K<A>::n; ++i) { shown = shown && (v[i] == v[i]) && ! std::isinf(v[i]); }
		bool nan{ false };
		for (int i = 0; i < K<A>::n; ++i) { nan = nan || g[i] != g[i]; }
		if (! shown && ! nan) { cx.fail("invalid " + show(a) + " is read back from \"" + s + "\" as " + show(b)); }
		return;
	}
	if (failed) { cx.fail("the stream fails on reading back \"" + s + "\", text of " + show(a)); }
	for (int i = 0; i < K<A>::n; ++i)
	{
		ld const tol{ .5e-6L * (1 + 1e-9L) + 2 * eps * fabsl(v[i]) };
		if (! near(g[i], v[i], tol)) { cx.fail("\"" + s + "\", text of " + show(a) + "\n  is read back as " + show(b)); }
	}
	std::string const s2(write(cx, b));
	if (s2 != s) { cx.fail("text of what was read from \"" + s + "\" is \"" + s2 + "\""); }
	if constexpr (text::has_fixed<A>::value)
	{
		for (unsigned frac : { 0u, 1u, 3u, 9u })
		{
			std::string const f(g3::io::fixed(a, 2u, frac));
			A const c(readBack<A>(cx, f, failed));
			K<A>::get(c, g);
			cx.did();
			cx.trace();
			for (int i = 0; i < K<A>::n; ++i)
			{
				ld const tol{ .5L * powl(10, -int(frac)) * (1 + 1e-9L) + 2 * eps * fabsl(v[i]) };
				if (failed || ! near(g[i], v[i], tol)) { cx.fail("fixed text \"" + f + "\" of " + show(a) + "\n  is read back as " + show(c)); }
			}
		}
	}
	if constexpr (text::has_enote<A>::value)
	{
		for (unsigned d : { 3u, 15u, 16u, 17u, 25u })
		{
			bool edge{ false };
			for (int i = 0; i < K<A>::n; ++i) { edge = edge || (d < 16u && (fabs(v[i]) > 1.79e308 || (v[i] != 0. && fabs(v[i]) < 2.3e-308))); }
			if (edge) { continue; }
			std::string const e(g3::io::enote(a, d));
			A const c(readBack<A>(cx, e, failed));
			K<A>::get(c, g);
			cx.did();
			cx.trace();
			for (int i = 0; i < K<A>::n; ++i)
			{
				bool const ok{ d >= 16u ? sameBitsD(g[i], v[i]) : near(g[i], v[i], (.5000001L * powl(10, -int(d)) + eps) * fabsl(v[i])) };
				if (failed || ! ok) { cx.fail(mc::fmt("scientific text (%u digits) \"", d) + e + "\" of " + show(a) + "\n  is read back as " + show(c)); }
			}
		}
	}
}

//! the standard streams, set in some unusual way, stay so whatever is done elsewhere
struct Bystanders
{
	std::array<std::ios *, 4> const theAll{ &std::cout, &std::cerr, &std::clog, &std::cin };
	std::array<Settings, 4> theWas;
	std::array<std::ios::iostate, 4> theMask;
	Bystanders() { for (int i = 0; i < 4; ++i) { theWas[i] = Settings{ theAll[i]->flags(), int(theAll[i]->precision()), theAll[i]->fill() }; theMask[i] = theAll[i]->exceptions(); } }
	bool kept() const
	{
		bool all{ true };
		for (int i = 0; i < 4; ++i)
		{
			std::ios & s{ *theAll[i] };
			all = all && s.flags() == theWas[i].f && s.precision() == theWas[i].prec && s.fill() == theWas[i].fill && s.exceptions() == theMask[i] && s.width() == 0 && s.rdstate() == std::ios::goodbit;
		}
		return all;
	}
};
template <class A> void neutral(Ctx & cx, Settings const & w, double const * v)
{
	Bystanders const others;
	A const a(K<A>::make(v));
	std::ostringstream o;
	putSettings(o, w);
	o << a;
	auto where = [&] { return mc::fmt("%s, stream flags 0x%x precision %d fill '%c'", show(a).c_str(), unsigned(w.f), w.prec, w.fill); };
	cx.did();
	if (o.str() != text::fixedRef(K<A>::id, v, 3, 6, " ")) { cx.fail("text depends on stream settings: " + where() + "\n  got \"" + o.str() + "\""); }
	if (! kept(o, w)) { cx.fail("writing changes stream settings: " + where()); }
	// plain numbers after the entity look as before it
	std::ostringstream p, q;
	putSettings(p, w);
	putSettings(q, w);
	p << -1.0625 << 42 << true;
	std::string const before(p.str());
	q << a;
	std::string const mid(q.str());
	q << -1.0625 << 42 << true;
	cx.did();
	cx.trace();
	if (q.str() != mid + before) { cx.fail("numbers written after the entity change: " + where() + "\n  got \"" + q.str().substr(mid.size()) + "\", before \"" + before + "\""); }
	// extraction leaves the settings alone, too
	std::istringstream in(o.str());
	putSettings(in, w);
	double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 };
	A b(K<A>::make(junk));
	in >> b;
	cx.did();
	cx.trace();
	if (! kept(in, w)) { cx.fail("reading changes stream settings: " + where()); }
	bool failed;
	A const c(readBack<A>(cx, o.str(), failed));
	double g[8], h[8];
	K<A>::get(b, g);
	K<A>::get(c, h);
	// two streams at once, one in the other's middle, and a stream that throws on failure
	std::ostringstream x, y;
	putSettings(x, w);
	x.exceptions(std::ios::failbit | std::ios::badbit);
	y << 0.5;
	x << 1.5 << a << 2.5;
	y << a;
	if constexpr (text::has_fixed<A>::value) { y << g3::io::fixed(a, 1u, 1u) << g3::io::enote(a, 2u); }
	y << 0.25;
	x << a << 3.5;
	std::ostringstream one, two, three;
	for (auto * o : { &one, &two, &three }) { putSettings(*o, w); }
	one << 1.5;
	two << 2.5;
	three << 3.5;
	std::string const txt(text::fixedRef(K<A>::id, v, 3, 6, " "));
	cx.did();
	cx.trace();
	if (x.str() != one.str() + txt + two.str() + txt + three.str()) { cx.fail("writing to two streams by turns: " + where() + "\n  got \"" + x.str() + "\""); }
	if (y.str().substr(0, 3 + txt.size()) != "0.5" + txt || y.str().substr(y.str().size() - 4) != "0.25") { cx.fail("writing to a second stream by turns: " + where() + "\n  got \"" + y.str() + "\""); }
	if (! kept(x, w) || ! kept(y, Settings{ std::ios::skipws | std::ios::dec, 6, ' ' }) || x.exceptions() != (std::ios::failbit | std::ios::badbit)) { cx.fail("writing to two streams by turns changes their settings: " + where()); }
	if (! others.kept()) { cx.fail("writing or reading changes the settings of a standard stream: " + where()); }
	for (int i = 0; i < K<A>::n; ++i) { if (! sameBitsD(g[i], h[i])) { cx.fail("reading depends on stream settings: " + where() + "\n  got " + show(b) + " not " + show(c)); } }
}
//! reading leaves the settings alone also where blanks are not skipped, and when it fails
template <class A> void readNeutral(Ctx & cx, Settings w)
{
	w.f &= ~std::ios_base::skipws;
	for (int skip = 0; skip < 2; ++skip) for (char const * txt : { "1 2 3 4 5 6 7 8 9", " 1 2 3 4 5 6 7 8", "", "x", "1 2 y 4", "1e999 2 3 4" })
	{
		if (! cx.next()) { continue; }
		if (skip) { w.f |= std::ios_base::skipws; }
		std::istringstream in(txt);
		putSettings(in, w);
		double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 };
		A b(K<A>::make(junk));
		in >> b;
		cx.did();
		if (! kept(in, w)) { cx.fail(mc::fmt("reading %s from \"%s\" changes stream settings: flags 0x%x to 0x%x", K<A>::name(), txt, unsigned(w.f), unsigned(in.flags()))); }
		// a field width that was meant for other text
		if (skip)
		{
			std::istringstream p(txt), q(txt);
			putSettings(p, w);
			p.width(1);
			A c(K<A>::make(junk)), d(K<A>::make(junk));
			p >> c;
			q >> d;
			cx.did(2);
			cx.trace();
			double g[8], h[8];
			K<A>::get(c, g);
			K<A>::get(d, h);
			bool ok{ p.rdstate() == q.rdstate() };
			for (int i = 0; i < K<A>::n; ++i) { ok = ok && sameBitsD(g[i], h[i]); }
			if (! ok) { cx.fail(std::string("a field width set before reads ") + show(c) + " and not " + show(d) + " from \"" + txt + "\""); }
		}
	}
}
//! how numbers look in a place of the world
struct Place { char point, sep; std::string group; };
std::vector<Place> const & places()
{
	static std::vector<Place> const p{ { '.', ',', "" }, { ',', '.', "" }, { ',', '.', "\3" }, { '.', ',', "\3" }, { ',', '\'', "\2\1" }, { '.', '_', "\4" } };
	return p;
}
struct Punct : std::numpunct<char>
{
	Place const p;
	explicit Punct(Place const & q) : p(q) {}
	char do_decimal_point() const override { return p.point; }
	char do_thousands_sep() const override { return p.sep; }
	std::string do_grouping() const override { return p.group; }
};
std::locale localeOf(Place const & p) { return std::locale(std::locale::classic(), new Punct(p)); }
//! text of one number there, from the C library's text of it
std::string there(Place const & p, std::string s, std::size_t width)
{
	std::size_t const b{ s.find_first_not_of(' ') };
	s = b == std::string::npos ? std::string() : s.substr(b);
	std::size_t const sign{ ! s.empty() && (s[0] == '-' || s[0] == '+') ? 1u : 0u };
	std::size_t end{ sign };
	while (end < s.size() && s[end] >= '0' && s[end] <= '9') { ++end; }
	if (end < s.size() && s[end] == '.') { s[end] = p.point; }
	std::size_t g{ 0 }, left{ p.group.empty() ? 0u : std::size_t(p.group[0]) };
	for (std::size_t at = end; left && at > sign + left; )
	{
		at -= left;
		s.insert(at, 1, p.sep);
		if (g + 1 < p.group.size()) { ++g; }
		left = std::size_t(p.group[g]);
	}
	return std::string(s.size() < width ? width - s.size() : 0u, ' ') + s;
}
//! entities in text where numbers are written in another way: on the stream, or everywhere
template <class A> void localised(Ctx & cx, double const * v)
{
	std::size_t const np{ places().size() };
	for (std::size_t everywhere = 0; everywhere < np; ++everywhere) for (std::size_t here = 0; here < np; ++here)
	{
		if (! cx.next()) { continue; }
		A const a(K<A>::make(v));
		std::locale const was(std::locale::global(localeOf(places()[everywhere])));
		struct Restore { std::locale const & w; ~Restore() { std::locale::global(w); } } const restore{ was };
		auto textOf = [&](Place const & p, int lead, int frac, char const * between)
		{
			std::string r;
			int at{ 0 };
			for (int n : text::grades(K<A>::id))
			{
				if (at) { r += between; }
				for (int i = 0; i < n; ++i) { r += " " + there(p, text::fix(v[at++], lead, frac), 2 + lead + frac); }
			}
			return r;
		};
		auto sciOf = [&](Place const & p, int d)
		{
			std::string r;
			int at{ 0 };
			for (int n : text::grades(K<A>::id))
			{
				if (at) { r += "  "; }
				for (int i = 0; i < n; ++i) { r += (i ? " " : "") + there(p, text::exp10(v[at++], d), 7 + d); }
			}
			return r;
		};
		auto where = [&] { return mc::fmt(" (numbers as in place %zu on the stream, %zu everywhere)", here, everywhere); };
		auto back = [&](std::string const & s, std::size_t place, int digits, bool relative)
		{
			std::istringstream in(s + ";");
			if (place < np) { in.imbue(localeOf(places()[place])); }
			double junk[8]{ 7, 7, 7, 7, 7, 7, 7, 7 }, g[8];
			A b(K<A>::make(junk));
			in >> b;
			cx.did();
			cx.trace();
			K<A>::get(b, g);
			bool ok{ ! in.fail() && in.get() == ';' };
			for (int i = 0; i < K<A>::n; ++i)
			{
				ld const u{ .5L * powl(10, -digits) * (1 + 1e-9L) };
				ok = ok && near(g[i], v[i], relative ? (u + eps) * fabsl(v[i]) : u + 2 * eps * fabsl(v[i]));
			}
			if (! ok) { cx.fail("\"" + s + "\", text of " + show(a) + ", is read back as " + show(b) + where()); }
		};
		bool finite{ true };
		for (int i = 0; i < K<A>::n; ++i) { finite = finite && good(v[i]); }
		std::ostringstream o;
		o.imbue(localeOf(places()[here]));
		o << a;
		cx.did();
		if (o.str() != textOf(places()[here], 3, 6, " ")) { cx.fail("text of " + show(a) + where() + "\n  is     \"" + o.str() + "\"\n  and not \"" + textOf(places()[here], 3, 6, " ") + "\""); }
		if (finite) { back(o.str(), here, 6, false); }
		if constexpr (text::has_fixed<A>::value)
		{
			std::string const f(g3::io::fixed(a, 2u, 4u));
			cx.did();
			if (f != textOf(places()[everywhere], 2, 4, "  ")) { cx.fail("fixed text of " + show(a) + where() + "\n  is     \"" + f + "\"\n  and not \"" + textOf(places()[everywhere], 2, 4, "  ") + "\""); }
			if (finite) { back(f, np, 4, false); }
		}
		if constexpr (text::has_enote<A>::value)
		{
			std::string const f(g3::io::enote(a, 16u));
			cx.did();
			if (f != sciOf(places()[everywhere], 16)) { cx.fail("scientific text of " + show(a) + where() + "\n  is     \"" + f + "\"\n  and not \"" + sciOf(places()[everywhere], 16) + "\""); }
			if (finite) { back(f, np, 16, true); }
		}
		cx.outcome(v, K<A>::n);
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	std::vector<double> al(text::values());
	for (double x : decades(-307, 307, th ? 7 : 41)) { al.push_back(x); al.push_back(-x / 3); }
	std::vector<Settings> const st(settings(th));
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		int const n{ K<A>::n };
		auto one = [&](double const * v) { if (cx.next()) { round<A>(cx, v); if (cx.sampleNow()) { cx.sample("round trip of " + show(K<A>::id, v)); } } };
		int const places{ n <= 4 ? 2 : th ? 2 : 1 };
		for (std::size_t q = 0; q < (th ? 4u : 3u); ++q) { sparse(n, places, patterns()[q].data(), al, one); }
		sparse(n, places, zeros24, al, one);
		words(n, intAlphabet(n, 1e4), one);
		sized(n, one, -305, 305, th ? 1 : 2);
		ladder(n, one, th ? 1 : 6);
		double const odd[8]{ -0.00000051, 1e9, qnan, 0.25, -123456.7890123, inf, 3., -0. };
		for (Settings const & s : st)
		{
			if (cx.next()) { neutral<A>(cx, s, patterns()[2].data()); }
			if (cx.next()) { neutral<A>(cx, s, odd); }
			readNeutral<A>(cx, s);
		}
		sparse(n, n <= 4 || th ? 2 : 1, patterns()[0].data(), { 0., -0., 12.5, -123.4567, 1234.5678, -98765.4321, 1234567.891, -1.23456789e12, 1e300, 2.5e-7, -3.75e-100, inf, -inf, qnan }, [&](double const * v) { localised<A>(cx, v); });
	});
}
