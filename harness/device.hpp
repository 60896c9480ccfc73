// Devices of streams that fail, or call back, at a chosen character.
#pragma once

#include <functional>
#include <ios>
#include <streambuf>
#include <string>

namespace device
{
struct Broken {};

enum How { hEof, hThrow, hEofOnce, hThrowOnce, hCount };
inline char const * name(int how)
{
	static char const * const n[hCount]{ "refuses", "throws at", "refuses (once)", "throws at (once)" };
	return n[how];
}

//! takes characters one by one, up to the one at which it fails
struct Sink : std::streambuf
{
	char got[4000];
	long n{ 0 };
	long failAt{ -1 };
	long failSync{ -1 };
	long syncs{ 0 };
	int how{ hEof };
	bool struck{ false };
	std::function<void(long)> hook;

	int_type overflow(int_type c) override
	{
		if (hook) { hook(n); }
		if (failAt >= 0 && n >= failAt)
		{
			struck = true;
			if (how == hEofOnce || how == hThrowOnce) { failAt = -1; }
			if (how == hThrow || how == hThrowOnce) { throw Broken(); }
			return traits_type::eof();
		}
		if (c == traits_type::eof()) { return traits_type::not_eof(c); }
		if (n < long(sizeof got)) { got[n] = char(c); }
		++n;
		return c;
	}
	int sync() override
	{
		if (failSync >= 0 && syncs++ >= failSync) { struck = true; return -1; }
		return 0;
	}
	std::string text() const { return std::string(got, got + std::min<long>(n, sizeof got)); }
	void heal() { failAt = failSync = -1; n = 0; hook = nullptr; }
};

//! gives the characters of a text one by one, up to the one at which it fails
struct Source : std::streambuf
{
	std::string txt;
	long at{ 0 };
	long failAt{ -1 };
	int how{ hEof };
	bool struck{ false };
	std::function<void(long)> hook;
	char one;

	void give(std::string const & s, long k, int h)
	{
		txt = s;
		at = 0;
		failAt = k;
		how = h;
		struck = false;
		setg(nullptr, nullptr, nullptr);
	}
	int_type underflow() override
	{
		if (hook) { hook(at); }
		if (failAt >= 0 && at >= failAt)
		{
			struck = true;
			if (how == hEofOnce || how == hThrowOnce) { failAt = -1; }
			if (how == hThrow || how == hThrowOnce) { throw Broken(); }
			return traits_type::eof();
		}
		if (at >= long(txt.size())) { return traits_type::eof(); }
		one = txt[at++];
		setg(&one, &one, &one + 1);
		return traits_type::to_int_type(one);
	}
};
} // namespace device
