// Compares two result files of c30_eval; prints the number of records, or the
// index of the first record that differs.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <unordered_set>

struct Rec { std::int32_t cls, kind, n, len; std::uint64_t h; double c[9]; };
int main(int, char ** a)
{
	FILE * const f{ fopen(a[1], "rb") };
	FILE * const g{ fopen(a[2], "rb") };
	if (! f || ! g) { return 3; }
	Rec x, y;
	long n{ 0 }, exact{ 0 };
	std::unordered_set<std::uint64_t> seen;
	while (true)
	{
		std::size_t const p{ fread(&x, sizeof x, 1, f) }, q{ fread(&y, sizeof y, 1, g) };
		if (p != q) { printf("differ %ld different numbers of results\n", n); return 1; }
		if (p != 1) { break; }
		bool same{ x.kind == y.kind && x.n == y.n && x.len == y.len && x.h == y.h };
		double scale{ 0 };
		for (int i = 0; i < x.n && i < 9; ++i) { if (std::isfinite(x.c[i])) { scale = std::fmax(scale, std::fabs(x.c[i])); } }
		bool bits{ same };
		for (int i = 0; same && i < x.n && i < 9; ++i)
		{
			double const u{ x.c[i] }, v{ y.c[i] };
			if (u != u || v != v) { if (u == u || v == v) { same = false; } continue; }
			if (u == v) { continue; }
			bits = false;
			if (! (std::fabs(u - v) <= 1e-13 * scale)) { same = false; }
		}
		if (! same) { printf("differ %ld\n", n); return 1; }
		if (bits) { ++exact; }
		if (seen.size() < (1u << 17))
		{
			std::uint64_t k{ x.h ^ std::uint64_t(x.kind) };
			for (int i = 0; i < x.n && i < 9; ++i) { std::uint64_t b; std::memcpy(&b, x.c + i, 8); k = (k ^ b) * 1099511628211ull; k ^= k >> 29; }
			seen.insert(k);
		}
		++n;
	}
	printf("same %ld %ld %zu\n", n, exact, seen.size());
	return 0;
}
