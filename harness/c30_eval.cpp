// Evaluates every operation on an enumerated set of operands and writes the
// results to a file; built once per build configuration (C30).
#define MC_NO_MAIN
#include "num.hpp"
#include "optable.hpp"

using namespace num;

static void enumerate(bool th, std::function<bool(Op const &, double const *)> const & f)
{
	std::vector<Op> const ops(optable::build());
	std::vector<double> const vals{ 0., -1., 2.5, 1e-5, -3e4, qnan, 1e200 };
	for (Op const & op : ops)
	{
		int const n{ kindSize(op.a) + (op.b >= 0 ? kindSize(op.b) : 0) };
		bool go{ true };
		auto one = [&](double const * v) { if (go && ! f(op, v)) { go = false; } };
		if (n <= 3) { words(n, vals, one); }
		for (auto const & p : patterns()) { sparse(n, th ? 3 : 1, p.data(), vals, one); }
		sparse(n, th ? 3 : 2, zeros24, { 1., -2., 0.3 }, one);
		// operands of several sizes, and of every pair of them
		int const na{ kindSize(op.a) }, nb{ op.b >= 0 ? kindSize(op.b) : 0 };
		std::vector<double> const sizes{ 3e-140, 7e-40, 2e-9, 4e-5, 0.03, 20., 6e3, 1.5e9, 8e30, 5e90 };
		for (double const & s : sizes) for (double const & t : nb ? sizes : std::vector<double>{ 1. }) for (int k = 0; k < (nb && ! th ? 2 : 8); ++k)
		{
			double v[16];
			for (int i = 0; i < na; ++i) { v[i] = s * (k & 1 ? -1 : 1) * patterns()[k & 3][i]; }
			for (int i = 0; i < nb; ++i) { v[na + i] = t * (k & 4 ? -1 : 1) * patterns()[(k + 1) & 3][i]; }
			one(v);
		}
		if (! go) { return; }
	}
}
static void apply(Op const & op, double const * v, double * w, Val & r)
{
	int const na{ kindSize(op.a) }, nb{ op.b >= 0 ? kindSize(op.b) : 0 };
	for (int i = 0; i < 16; ++i) { w[i] = 0.; }
	for (int i = 0; i < na; ++i) { w[i] = v[i]; }
	for (int i = 0; i < nb; ++i) { w[8 + i] = v[na + i]; }
	op.fn(w, w + 8, r);
}
// disturb the stack, so that reads of uninitialised memory show
__attribute__((noinline)) static void disturb(unsigned char with)
{
	volatile unsigned char junk[4096];
	for (unsigned i = 0; i < sizeof junk; ++i) { junk[i] = with; }
}

int main(int argc, char ** argv)
{
	bool const th{ argc > 2 && std::string(argv[2]) == "thorough" };
	if (argc > 3)
	{
		// describe one evaluation
		long const want{ atol(argv[3]) };
		long k{ 0 };
		enumerate(th, [&](Op const & op, double const * v)
		{
			if (k++ < want) { return true; }
			double w[16];
			Val r;
			disturb((unsigned char)(want * 37));
			apply(op, v, w, r);
			printf("%s of %s%s gives %s\n", op.name.c_str(), show(op.a, w).c_str(), op.b >= 0 ? (", " + show(op.b, w + 8)).c_str() : "", show(r).c_str());
			return false;
		});
		return 0;
	}
	FILE * const f{ fopen(argv[1], "wb") };
	if (! f) { return 3; }
	long k{ 0 };
	enumerate(th, [&](Op const & op, double const * v)
	{
		double w[16];
		Val r;
		disturb((unsigned char)(k++ * 37));
		apply(op, v, w, r);
		std::uint64_t h{ 1469598103934665603ull };
		for (unsigned char c : r.text) { h = (h ^ c) * 1099511628211ull; }
		double rec[14]{ double(r.kind), double(r.n) };
		for (int i = 0; i < r.n; ++i) { rec[2 + i] = r.c[i]; }
		std::int32_t const head[4]{ op.cls, r.kind, r.n, std::int32_t(r.text.size()) };
		fwrite(head, sizeof head, 1, f);
		fwrite(&h, sizeof h, 1, f);
		fwrite(r.c, sizeof(double), 9, f);
		return true;
	});
	fclose(f);
	return 0;
}
