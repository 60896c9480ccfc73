// C20 - extraction from streams.
//
// All token sequences within the bound (numbers, words, overflowing and
// subnormal numbers, partial numbers, early ends), all kinds, targets holding
// earlier values; compared with reading the same text number by number.
#include "text.hpp"

namespace
{
using mc::Ctx;
using namespace num;

bool good(double x) { return x == 0. || (x == x && fabs(x) <= 1.7976931348623157e308 && fabs(x) >= 2.2250738585072014e-308); }

double const qnans[8]{ qnan, qnan, qnan, qnan, qnan, qnan, qnan, qnan };
using Get = void (*)(std::istream &, double *);
Get gets_[kCount];
template <class A> void getOne(std::istream & in, double * v)
{
	A a(K<A>::make(v));
	if (&(in >> a) != &in) { in.setstate(std::ios::badbit); a = A(K<A>::make(qnans)); }
	K<A>::get(a, v);
}

struct Want
{
	double v[8];
	int state[8];   // 0: this value, 1: NaN, 2: not judged
	bool fail{ false };
	bool all{ true };      // every component was read and is valid
	std::string rest;
};
//! A source that gives one character at a time, and takes none back
struct Dribble : std::streambuf
{
	std::string const & theText;
	std::size_t theAt{ 0 };
	char theNow{ 0 };
	explicit Dribble(std::string const & text) : theText(text) {}
	int_type underflow() override
	{
		if (theAt == theText.size()) { return traits_type::eof(); }
		theNow = theText[theAt++];
		setg(&theNow, &theNow, &theNow + 1);
		return traits_type::to_int_type(theNow);
	}
};
//! Reads number by number as the interface describes
Want model(std::istream & in, int kind)
{
	Want w;
	int at{ 0 };
	bool shifted{ false };
	for (int n : text::grades(kind))
	{
		bool okay{ true };
		for (int i = 0; i < n; ++i)
		{
			double x{ 0. };
			if (okay)
			{
				in >> x;
				okay = ! in.fail() && good(x);
			}
			w.v[at + i] = x;
		}
		for (int i = 0; i < n; ++i) { w.state[at + i] = okay ? 0 : 1; if (shifted && ! in.fail()) { w.state[at + i] = 2; } }
		if (! okay) { w.all = false; if (! in.fail()) { shifted = true; } }
		at += n;
	}
	w.fail = in.fail();
	return w;
}

void check(Ctx & cx, int kind, std::string const & txt, double const * before)
{
	std::istringstream in(txt), mine(txt);
	double got[8];
	std::copy(before, before + kindSize(kind), got);
	gets_[kind](in, got);
	bool const failed{ in.fail() };
	Want const w(model(mine, kind));
	cx.did();
	cx.outcome(got, kindSize(kind));
	auto text_ = [&] { return std::string("reading ") + kindName(kind) + " from \"" + txt + "\"\n  over " + show(kind, before) + "\n  got  " + show(kind, got); };
	bool anyNaN{ false };
	bool shifted{ false };
	for (int i = 0; i < kindSize(kind); ++i)
	{
		anyNaN = anyNaN || got[i] != got[i];
		if (w.state[i] == 0 && ! sameBitsD(got[i], w.v[i])) { cx.fail(text_() + mc::fmt("\n  component %d should be %.17g", i, w.v[i])); }
		if (w.state[i] == 1 && got[i] == got[i]) { cx.fail(text_() + mc::fmt("\n  component %d should be NaN", i)); }
		shifted = shifted || w.state[i] == 2;
	}
	if (! w.all && ! anyNaN) { cx.fail(text_() + "\n  a failed extraction leaves a valid entity"); }
	if (! shifted && w.all && in.fail() != w.fail) { cx.fail(text_() + mc::fmt("\n  stream failure is %d", int(in.fail()))); }
	if (! w.all && w.fail && ! in.fail()) { cx.fail(text_() + "\n  the stream should have failed"); }
	if (w.all)
	{
		// the next character is the one right behind the last number
		if (! w.fail && ! mine.eof() && in.peek() != mine.peek()) { cx.fail(text_() + mc::fmt("\n  next character is %d, not %d", in.peek(), mine.peek())); }
		std::string a, b;
		in >> a;
		mine >> b;
		if (a != b) { cx.fail(text_() + "\n  next in the stream is \"" + a + "\", not \"" + b + "\""); }
	}
	// the same from a source that cannot go back
	Dribble drops(txt);
	std::istream slow(&drops);
	double v[8];
	std::copy(before, before + kindSize(kind), v);
	gets_[kind](slow, v);
	cx.did();
	cx.trace();
	for (int i = 0; i < kindSize(kind); ++i) { if (! sameBitsD(v[i], got[i])) { cx.fail(text_() + "\n  but from a source that cannot go back " + show(kind, v)); } }
	if (slow.fail() != failed) { cx.fail(text_() + mc::fmt("\n  stream failure is %d, but %d from a source that cannot go back", int(failed), int(slow.fail()))); }
	if (w.all && ! w.fail)
	{
		std::istringstream whole(txt);
		Want const again(model(whole, kind));
		std::string a, b;
		std::getline(slow, a, '\0');
		std::getline(whole, b, '\0');
		if (a != b) { cx.fail(text_() + "\n  from a source that cannot go back what is left is \"" + a + "\", not \"" + b + "\""); }
	}
}
//! Arrays of any length are read like an entity of one grade
template <std::size_t N> void array(Ctx & cx, std::string const & txt, bool skip, std::ios::iostate first)
{
	if (! cx.next()) { return; }
	std::istringstream in(txt), mine(txt);
	if (! skip) { in.unsetf(std::ios::skipws); mine.unsetf(std::ios::skipws); }
	in.clear(first);
	mine.clear(first);
	std::array<double, N> got, want;
	for (std::size_t i = 0; i < N; ++i) { got[i] = want[i] = 1000. + double(i); }
	bool const same{ &(in >> got) == &in };
	bool okay{ true };
	for (std::size_t i = 0; i < N && okay; ++i) { mine >> want[i]; okay = ! mine.fail() && good(want[i]); }
	cx.did();
	cx.trace();
	cx.outcome(got.data(), int(N));
	auto text_ = [&] { std::string s(mc::fmt("reading an array of %zu from \"", N) + txt + (skip ? "\"" : "\" without skipping blanks")); for (double x : got) { s += mc::fmt(" %.17g", x); } return s; };
	if (! same) { cx.fail(text_() + ": the result is not the stream"); }
	for (std::size_t i = 0; i < N; ++i) { if (okay ? ! sameBitsD(got[i], want[i]) : got[i] == got[i]) { cx.fail(text_() + mc::fmt(": component %zu", i)); } }
	if (! okay)
	{
		if (mine.fail() && ! in.fail()) { cx.fail(text_() + ": the stream should have failed"); }
		return;
	}
	if (in.rdstate() != mine.rdstate()) { cx.fail(text_() + mc::fmt(": state of the stream is %d, not %d", int(in.rdstate()), int(mine.rdstate()))); }
	in.clear();
	mine.clear();
	std::string a, b;
	std::getline(in, a, '\0');
	std::getline(mine, b, '\0');
	if (a != b) { cx.fail(text_() + ": what is left is \"" + a + "\", not \"" + b + "\""); }
}
//! several entities from one stream, a failure, and going on after it
void history(Ctx & cx, std::vector<int> const & kinds, int badAt, std::string const & bad)
{
	if (! cx.next()) { return; }
	std::string txt;
	int count{ 0 };
	for (int k : kinds) { for (int i = 0; i < kindSize(k); ++i) { txt += (count == badAt ? bad : mc::fmt("%d.%02d", count + 1, count)) + (count % 3 ? " " : "\n\t "); ++count; } }
	std::istringstream in(txt), mine(txt);
	std::string how;
	bool failed{ false };
	for (std::size_t s = 0; s < kinds.size(); ++s)
	{
		int const k{ kinds[s] };
		double got[8];
		for (int i = 0; i < 8; ++i) { got[i] = 1000. + i; }
		gets_[k](in, got);
		Want const w(model(mine, k));
		cx.did();
		cx.trace();
		how += std::string(" ") + kindName(k);
		for (int i = 0; i < kindSize(k); ++i)
		{
			bool const ok{ w.state[i] == 2 || (w.state[i] == 0 ? sameBitsD(got[i], w.v[i]) : got[i] != got[i]) };
			if (! ok) { cx.fail("reading" + how + " in a row from \"" + txt + "\"\n  the last is " + show(k, got)); }
		}
		if (in.fail() != mine.fail()) { cx.fail("reading" + how + " in a row from \"" + txt + "\": stream failure is " + (in.fail() ? "1" : "0")); }
		if (in.fail() && ! failed)
		{
			// recover: drop what is not a number and read on
			failed = true;
			in.clear();
			mine.clear();
			std::string x, y;
			in >> x;
			mine >> y;
			if (x != y) { cx.fail("after the failure the stream is at \"" + x + "\", not \"" + y + "\""); }
			how += " (recovered)";
		}
	}
}
} // namespace

void explore(Ctx & cx)
{
	bool const th{ cx.thorough };
	forKinds(GaKinds{}, [&](auto t) { using A = TY(t); gets_[K<A>::id] = getOne<A>; });
	std::vector<std::string> const goods{ "1.5", "-2e3", "0", "+7.25", "1e-300", ".5", "-0", "3.", "1e308", "12345678901234567890", "1E5", "007.50", "-.25e+01" };
	std::string const manyZeros(400, '0');
	std::vector<std::string> const odd{ "1" + manyZeros.substr(0, 300), "0." + manyZeros + "1e401", "-" + manyZeros + "4", "1." + manyZeros + "5", "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899",
		"+1e+0005", "-1E-05", "0e0", "-0.0e-0", "2.2250738585072014e-308", "1.7976931348623157e308", "4503599627370497.5", "9007199254740993", "0.1e1", "1e22", "1e23", "123456789012345678901234567890123456789012345678901234567890e-40",
		"1.5.5", "1e5.5", "1d5", "infinity", "NAN(1)", "0x1p3", "+", "+-1", "1e+", "1ee5", "1_000", "1'000", "1f", "(1)", "1;2", "\"1\"", "1" + manyZeros, "0." + manyZeros + "1", "\x01", "\xff", "1.5\xff", "e", "E5", "1e-", "--", "+.", "-.e5", "1.7976931348623159e308", "2.2250738585072011e-308" };
	std::vector<std::string> const bads{ "abc", "nan", "inf", "1e999", "-1e999", "1e-310", "-4e-320", "x1", "1.5x", "1,2", "--3", "e5", "0x10", "1e", ".", "-" };
	double const zero[8]{};
	std::vector<double const *> const before{ patterns()[1].data(), zero };
	// whole sequences for the small kinds
	std::vector<std::string> toks{ "1.5", "-2e3", "0", "abc", "nan", "1e999", "1e-310", "1.5x", "" };
	if (th) { toks = { "1.5", "-2e3", "0", "abc", "nan", "1e999", "1e-310", "1.5x", "", "+7.25", "inf", "--3" }; }
	for (int k = kS; k < kCount; ++k)
	{
		int const n{ kindSize(k) };
		int const len{ std::min(n + 1, th ? 5 : 5) };
		std::vector<int> d(len, 0);
		while (true)
		{
			std::string txt;
			for (int i = 0; i < len; ++i) { txt += (i ? " " : "") + toks[d[i]]; }
			for (int i = len; i < n; ++i) { txt += mc::fmt(" %d.5", i); }
			for (auto b : before) { if (cx.next()) { check(cx, k, txt, b); if (cx.sampleNow()) { cx.sample(std::string("read ") + kindName(k) + " from '" + txt + "'"); } } }
			int i{ len - 1 };
			for (; i >= 0; --i) { if (++d[i] < int(toks.size())) { break; } d[i] = 0; }
			if (i < 0) { break; }
		}
		// up to two unusual tokens anywhere, every length, several separators
		for (char const * sep : { " ", "\n", " \t\r\n  " }) for (char const * lead : { "", " \n" }) for (char const * tail : { "", " ", "\nmore 9" })
		{
			std::vector<std::string> all(goods);
			all.insert(all.end(), bads.begin(), bads.end());
			for (int length = 0; length <= n; ++length)
			for (int i = 0; i < std::max(length, 1); ++i) for (int j = i; j < std::max(length, 1); ++j)
			for (std::size_t x = 0; x < all.size(); ++x) for (std::size_t y = 0; y < (i == j || length == 0 ? 1 : all.size()); ++y)
			{
				if (! cx.next()) { continue; }
				std::string txt(lead);
				for (int q = 0; q < length; ++q) { txt += (q ? sep : "") + (q == i ? all[x] : q == j ? all[y] : mc::fmt("%d.%d", q + 1, q)); }
				txt += tail;
				check(cx, k, txt, before[0]);
			}
		}
	}
	// every odd token in every place, every white space
	for (int k = kS; k < kCount; ++k)
	{
		int const n{ kindSize(k) };
		for (auto const & o : odd) for (int at = 0; at < n; ++at) for (char const * sep : { " ", "\n", "\t", "\v", "\f", "\r", "\r\n", "      \n\n\t", "\n\v\f\r\t " }) for (char const * tail : { "", " ", "x", "\nmore 9", ",5" })
		{
			for (auto b : before)
			{
				if (! cx.next()) { continue; }
				std::string txt(at % 2 ? sep : "");
				for (int q = 0; q < n; ++q) { txt += (q ? sep : "") + (q == at ? o : mc::fmt("%d.%d", q + 1, q)); }
				check(cx, k, txt + tail, b);
			}
		}
	}
	// arrays, streams that do not skip blanks, and streams that failed before
	for (bool skip : { true, false }) for (auto first : { std::ios::goodbit, std::ios::failbit, std::ios::eofbit, std::ios::badbit, std::ios::failbit | std::ios::eofbit })
	{
		std::vector<std::string> some(goods);
		some.insert(some.end(), bads.begin(), bads.end());
		some.push_back("");
		for (auto const & x : some) for (int at = 0; at < 9; ++at) for (char const * sep : { " ", "\n\t ", "+" }) for (int length = 0; length < 10; ++length)
		{
			std::string txt;
			for (int q = 0; q < length; ++q) { txt += (q ? sep : "") + (q == at ? x : mc::fmt("%d.%d", q + 1, q)); }
			array<1>(cx, txt, skip, first);
			array<2>(cx, txt, skip, first);
			array<3>(cx, txt, skip, first);
			array<4>(cx, txt, skip, first);
			array<5>(cx, txt, skip, first);
			array<8>(cx, txt, skip, first);
			if (first != std::ios::goodbit || ! skip)
			{
				for (int k = kS; k < kCount; ++k)
				{
					if (! cx.next()) { continue; }
					std::istringstream in(txt), mine(txt);
					if (! skip) { in.unsetf(std::ios::skipws); mine.unsetf(std::ios::skipws); }
					in.clear(first);
					mine.clear(first);
					double got[8];
					std::copy(before[0], before[0] + kindSize(k), got);
					gets_[k](in, got);
					Want const w(model(mine, k));
					cx.did();
					cx.trace();
					for (int i = 0; i < kindSize(k); ++i)
					{
						if (! (w.state[i] == 2 || (w.state[i] == 0 ? sameBitsD(got[i], w.v[i]) : got[i] != got[i]))) { cx.fail(std::string("reading ") + kindName(k) + " from \"" + txt + mc::fmt("\" in state %d%s gives ", int(first), skip ? "" : " without skipping blanks") + show(k, got)); }
					}
					if (in.fail() != mine.fail()) { cx.fail(std::string("reading ") + kindName(k) + " from \"" + txt + mc::fmt("\" in state %d%s: failure is %d", int(first), skip ? "" : " without skipping blanks", int(in.fail()))); }
				}
			}
		}
	}
	// histories
	for (int a = kS; a < kCount; ++a) for (int b = kS; b < kCount; ++b) for (int c = kS; c < kCount; ++c)
	{
		int const n{ kindSize(a) + kindSize(b) + kindSize(c) };
		for (int at = -1; at < n; ++at) for (char const * bad : { "abc", "1e999", "2e-310", "4.5z" })
		{
			if (at < 0 && bad[0] != 'a') { continue; }
			history(cx, { a, b, c }, at, bad);
		}
	}
}
