// C02 - typed expression programs agree with the algebra, however grouped.
#include "optable.hpp"
#include "num.hpp"

namespace
{
using mc::Ctx;

std::vector<Op> const table{ optable::build() };
int mulOf[kCount][kCount], addOf[kCount][kCount], subOf[kCount][kCount];
std::vector<int> unOf[kCount];

void index()
{
	for (auto & r : mulOf) { for (int & x : r) { x = -1; } }
	for (auto & r : addOf) { for (int & x : r) { x = -1; } }
	for (auto & r : subOf) { for (int & x : r) { x = -1; } }
	for (int i = 0; i < static_cast<int>(table.size()); ++i)
	{
		Op const & o = table[i];
		if (o.cls == cMul) { mulOf[o.a][o.b] = i; }
		if (o.cls == cAdd) { addOf[o.a][o.b] = i; }
		// differences with a wrong overall sign are the business of C03
		if (o.cls == cSub)
		{
			bool const listed
				{ (o.a == kB && (o.b == kS || o.b == kV)) || (o.a == kT && (o.b == kS || o.b == kV))
				|| (o.a == kSpin && (o.b == kS || o.b == kB)) };
			if (! listed) { subOf[o.a][o.b] = i; }
		}
		if (o.a != kD && o.b < 0 && (o.cls == cNeg || o.cls == cInvol || o.cls == cDual || o.cls == cPow || o.name.compare(0, 7, "promote") == 0)) { unOf[o.a].push_back(i); }
	}
}

ref::M8 model(Op const & o, ref::M8 const & a, ref::M8 const & b)
{
	switch (o.cls)
	{
		case cMul: return ref::mul(a, b);
		case cAdd: return ref::add(a, b);
		case cSub: return ref::sub(a, b);
		case cNeg: return ref::neg(a);
		case cDual: return ref::dual(a);
		case cPow: return o.name[0] == 's' ? ref::mul(a, a) : ref::mul(ref::mul(a, a), a);
		case cInvol: return o.name[0] == 'r' ? ref::reverse(a) : o.name[0] == 'o' ? ref::oddverse(a) : ref::dirverse(a);
		default: return a;
	}
}

bool equal(Val const & v, ref::M8 const & m)
{
	if (v.kind < 0 || v.kind >= kCount) { return false; }
	double full[8]{ };
	for (int i = 0; i < v.n; ++i) { full[kindAt(v.kind, i)] = v.c[i]; }
	for (int i = 0; i < 8; ++i) { if (! (full[i] == double(m.c[i]))) { return false; } }
	return true;
}

struct St { signed char kind; signed char c[8]; };
std::uint64_t key(int kind, double const * c)
{
	std::uint64_t k{ static_cast<std::uint64_t>(kind) };
	for (int i = 0; i < kindSize(kind); ++i) { k = (k << 7) | static_cast<std::uint64_t>(int(c[i]) + 64); }
	return k;
}

// Part A: the model's state space (a value of some kind with components
// bounded by B) explored to a fixed point; every transition is executed on the
// library from that very state.
void space(Ctx & cx, int bound)
{
	std::vector<Val> gens;
	auto gen = [&](int kind, std::vector<double> c)
		{ Val v; v.kind = kind; v.n = int(c.size()); for (int i = 0; i < v.n; ++i) { v.c[i] = c[i]; } gens.push_back(v); };
	gen(kS, { 1 }); gen(kS, { -1 });
	gen(kV, { 1, 0, 0 }); gen(kV, { 0, 1, 0 }); gen(kV, { 0, 0, 1 });
	gen(kB, { 1, 0, 0 }); gen(kB, { 0, 1, 0 }); gen(kB, { 0, 0, -1 });
	gen(kT, { 1 });
	gen(kSpin, { 1, 0, 1, 0 }); gen(kImsp, { 0, 0, 1, -1 });
	gen(kCplx, { 0, -1 }); gen(kDplx, { 1, 0, 0, 0, 0, 1 });
	gen(kMV, { 1, 0, 0, 0, 0, 0, 1, 0 });
	if (cx.thorough) { gen(kD, { 2 }); gen(kMV, { 0, 1, 0, -1, 0, 0, 0, 1 }); gen(kV, { 1, -1, 0 }); }
	std::unordered_set<std::uint64_t> seen;
	std::vector<St> todo;
	auto push = [&](int kind, double const * c)
	{
		for (int i = 0; i < kindSize(kind); ++i) { if (std::fabs(c[i]) > bound) { return; } }
		if (! seen.insert(key(kind, c)).second) { return; }
		St s;
		s.kind = static_cast<signed char>(kind);
		for (int i = 0; i < kindSize(kind); ++i) { s.c[i] = static_cast<signed char>(c[i]); }
		todo.push_back(s);
	};
	for (Val const & g : gens) { if (g.kind != kD) { push(g.kind, g.c); } }
	std::uint64_t done{ 0 };
	for (std::size_t at = 0; at < todo.size(); ++at)
	{
		St const s{ todo[at] };
		double c[8];
		for (int i = 0; i < kindSize(s.kind); ++i) { c[i] = s.c[i]; }
		ref::M8 const ms{ toRef(s.kind, c) };
		bool const mine{ cx.next() };
		++done;
		auto step = [&](int op, double const * a, double const * b, ref::M8 const & m)
		{
			// successor state according to the model
			Op const & o = table[op];
			int kind{ 0 };
			if (o.cls == cMul) { kind = prodKind(o.a, o.b); }
			else if (o.cls == cAdd || o.cls == cSub) { kind = kindOfMask(kindMask(o.a) | kindMask(o.b)); }
			else if (o.cls == cDual) { kind = prodKind(kT, o.a); }
			else if (o.cls == cConv) { kind = kMV; }
			else { kind = o.a; }
			double nc[8];
			for (int i = 0; i < kindSize(kind); ++i) { nc[i] = double(m.c[kindAt(kind, i)]); }
			push(kind, nc);
			if (mine)
			{
				Val v;
				o.fn(a, b, v);
				cx.did();
				cx.outcome(v.c, v.n);
				if (v.kind != kind || ! equal(v, m))
				{
					cx.fail(mc::fmt("step %s\n  left  : %s\n  right : %s\n  got   : %s\n  model : %s (%s)", o.name.c_str()
						, show(o.a, a).c_str(), o.b >= 0 ? show(o.b, b).c_str() : "-", show(v).c_str(), ref::str(m).c_str(), kindName(kind)));
				}
			}
		};
		for (Val const & g : gens)
		{
			ref::M8 const mg{ toRef(g.kind, g.c) };
			int const sk{ s.kind };
			int const ops[6]{ mulOf[sk][g.kind], mulOf[g.kind][sk], addOf[sk][g.kind], addOf[g.kind][sk], subOf[sk][g.kind], subOf[g.kind][sk] };
			for (int q = 0; q < 6; ++q)
			{
				if (ops[q] < 0) { continue; }
				if (q % 2 == 0) { step(ops[q], c, g.c, model(table[ops[q]], ms, mg)); }
				else { step(ops[q], g.c, c, model(table[ops[q]], mg, ms)); }
			}
		}
		for (int u : unOf[int(s.kind)]) { step(u, c, zeros24, model(table[u], ms, ms)); }
	}
	if (cx.shard == 0) { cx.info["distinct states of the model at the fixed point"] += seen.size(); cx.info["component bound of the state space"] = bound; }
}

// Part B: programs of several operations, each fed with what the library gave
// for the previous one, in every grouping.
void programs(Ctx & cx)
{
	std::vector<Val> vals[kCount];
	double const pool[4][8]
		{ { 1, 2, -1, 3, 2, -2, 1, -3 }, { 0, -1, 2, 0, 3, 1, -1, 2 }, { 2, 0, 0, 1, 0, 1, 0, 0 }, { -1, 3, 1, -2, -1, 0, 2, 1 } };
	int const per{ cx.thorough ? 4 : 3 };
	for (int k = kD; k < kCount; ++k)
	{
		for (int q = 0; q < per; ++q)
		{
			Val v;
			v.kind = k;
			v.n = kindSize(k);
			for (int i = 0; i < v.n; ++i) { v.c[i] = pool[q][kindAt(k, i)]; }
			vals[k].push_back(v);
		}
	}
	auto pick = [](int which, int a, int b) { return which == 0 ? mulOf[a][b] : which == 1 ? addOf[a][b] : subOf[a][b]; };
	auto apply = [&](Ctx & c, int op, Val const & a, Val const & b) { Val v; table[op].fn(a.c, b.c, v); c.did(); return v; };
	for (int ka = 0; ka < kCount; ++ka) for (int kb = 0; kb < kCount; ++kb) for (int kc = 0; kc < kCount; ++kc)
	for (Val const & a : vals[ka]) for (Val const & b : vals[kb]) for (Val const & c : vals[kc])
	{
		if (! cx.next()) { continue; }
		ref::M8 const ma{ toRef(ka, a.c) }, mb{ toRef(kb, b.c) }, m3{ toRef(kc, c.c) };
		auto bad = [&](char const * form, Val const & got, ref::M8 const & want)
		{
			cx.fail(mc::fmt("program %s\n  a = %s\n  b = %s\n  c = %s\n  got   : %s\n  model : %s", form
				, show(a).c_str(), show(b).c_str(), show(c).c_str(), show(got).c_str(), ref::str(want).c_str()));
		};
		static char const * const formL[9]{ "(a*b)*c", "(a*b)+c", "(a*b)-c", "(a+b)*c", "(a+b)+c", "(a+b)-c", "(a-b)*c", "(a-b)+c", "(a-b)-c" };
		static char const * const formR[9]{ "a*(b*c)", "a+(b*c)", "a-(b*c)", "a*(b+c)", "a+(b+c)", "a-(b+c)", "a*(b-c)", "a+(b-c)", "a-(b-c)" };
		auto mod = [](int w, ref::M8 const & x, ref::M8 const & y) { return w == 0 ? ref::mul(x, y) : w == 1 ? ref::add(x, y) : ref::sub(x, y); };
		for (int i = 0; i < 3; ++i)
		{
			int const o1{ pick(i, ka, kb) };
			if (o1 >= 0)
			{
				Val const ab{ apply(cx, o1, a, b) };
				if (ab.kind >= 0 && ab.kind < kCount)
				{
					for (int j = 0; j < 3; ++j)
					{
						int const o2{ pick(j, ab.kind, kc) };
						if (o2 < 0) { continue; }
						Val const r{ apply(cx, o2, ab, c) };
						ref::M8 const m{ mod(j, mod(i, ma, mb), m3) };
						cx.trace();
						cx.outcome(r.c, r.n);
						if (! equal(r, m)) { bad(formL[3 * i + j], r, m); }
						// and on to a fourth factor, both sides
						if (j == 0)
						{
							int const o3{ mulOf[r.kind][ka] }, o4{ mulOf[kb][r.kind] };
							if (o3 >= 0) { Val const s{ apply(cx, o3, r, a) }; cx.trace(); ref::M8 const q{ ref::mul(m, ma) }; if (! equal(s, q)) { bad("((a?b)*c)*a", s, q); } }
							if (o4 >= 0) { Val const s{ apply(cx, o4, b, r) }; cx.trace(); ref::M8 const q{ ref::mul(mb, m) }; if (! equal(s, q)) { bad("b*((a?b)*c)", s, q); } }
						}
					}
				}
			}
			int const o5{ pick(i, kb, kc) };
			if (o5 >= 0)
			{
				Val const bc{ apply(cx, o5, b, c) };
				if (bc.kind >= 0 && bc.kind < kCount)
				{
					for (int j = 0; j < 3; ++j)
					{
						int const o2{ pick(j, ka, bc.kind) };
						if (o2 < 0) { continue; }
						Val const r{ apply(cx, o2, a, bc) };
						ref::M8 const m{ mod(j, ma, mod(i, mb, m3)) };
						cx.trace();
						if (! equal(r, m)) { bad(formR[3 * i + j], r, m); }
						if (cx.sampleNow()) { cx.sample(mc::fmt("%s with a=%s b=%s c=%s -> %s", formR[3 * i + j], show(a).c_str(), show(b).c_str(), show(c).c_str(), show(r).c_str())); }
					}
				}
			}
		}
	}
}

// Part D: products of three in both groupings where the first two, or the
// product of them, come as close as 2^-53 to unit size or to a cancellation.
void near(Ctx & cx)
{
	double const unit[8]{ 0.48, -0.36, 0.64, 0.48, 0.6, -0.8, 0.352, -0.6 };
	double const one_[8]{ 1., 0., 0., 0., 0., 0., 0., 0. };
	double const third[8]{ 1.3, -0.7, 2.1, 0.9, -1.6, 0.4, 1.1, -0.3 };
	for (int ka = kS; ka < kCount; ++ka) for (int kb = kS; kb < kCount; ++kb) for (int kc : { int(kV), int(kMV) })
	{
		int const ab{ mulOf[ka][kb] }, bc{ mulOf[kb][kc] };
		if (ab < 0 || bc < 0) { continue; }
		auto both = [&](double const * a, double const * b)
		{
			if (! cx.next()) { return; }
			Val x, y, l, r;
			table[ab].fn(a, b, x);
			table[bc].fn(b, third, y);
			cx.did(4);
			cx.trace();
			if (x.kind < 0 || x.kind >= kCount || y.kind < 0 || y.kind >= kCount || mulOf[x.kind][kc] < 0 || mulOf[ka][y.kind] < 0) { cx.fail(mc::fmt("no product of three: %s %s %s", kindName(ka), kindName(kb), kindName(kc))); }
			table[mulOf[x.kind][kc]].fn(x.c, third, l);
			table[mulOf[ka][y.kind]].fn(a, y.c, r);
			ref::M8 const ma{ toRef(ka, a) }, mb{ toRef(kb, b) }, mt{ toRef(kc, third) };
			ref::M8 const want{ ref::mul(ref::mul(ma, mb), mt) };
			ref::ld const tol{ 64 * num::eps * ref::mag(ma) * ref::mag(mb) * ref::mag(mt) };
			for (int s = 0; s < 2; ++s)
			{
				Val const & v{ s ? r : l };
				ref::M8 const got{ toRef(v.kind, v.c) };
				for (int i = 0; i < 8; ++i)
				{
					if (! num::near(got.c[i], want.c[i], tol)) { cx.fail(mc::fmt("%s\n  a = %s\n  b = %s\n  c = %s\n  got   : %s\n  model : %s", s ? "a*(b*c)" : "(a*b)*c", show(ka, a).c_str(), show(kb, b).c_str(), show(kc, third).c_str(), show(v).c_str(), ref::str(want).c_str())); }
				}
			}
		};
		int const step{ cx.thorough ? 1 : 4 };
		for (int half = 0; half < 2; ++half)
		{
			double const * fixed_{ half ? one_ : unit };
			num::wholeOnes(kindSize(ka), [&](double const * a) { both(a, fixed_); });
			num::ladder(kindSize(ka), [&](double const * a) { both(a, fixed_); }, step);
			num::wholeOnes(kindSize(kb), [&](double const * b) { both(fixed_, b); });
			num::ladder(kindSize(kb), [&](double const * b) { both(fixed_, b); }, step);
		}
		// each operand with its own conjugates: the product is near a scalar
		if (ka == kb)
		{
			num::ladder(kindSize(ka), [&](double const * a)
			{
				double w[8];
				for (int inv = 0; inv < 4; ++inv)
				{
					for (int i = 0; i < kindSize(ka); ++i)
					{
						int const at{ kindAt(ka, i) }, grade{ at == 0 ? 0 : at < 4 ? 1 : at < 7 ? 2 : 3 };
						bool const flip{ inv == 1 ? grade >= 2 : inv == 2 ? grade % 2 == 1 : inv == 3 ? grade == 1 || grade == 2 : false };
						w[i] = flip ? -a[i] : a[i];
					}
					both(a, w);
				}
			}, step);
		}
	}
}

// Part E: chains of products by factors whose components differ greatly in
// size. Every component of the result lies within the rounding of the terms it
// is made of, so that the small ones must come out as accurately as the large.
void chains(Ctx & cx)
{
	struct Run { Val v; ref::M8 m, err; };
	auto absOf = [](ref::M8 const & a) { ref::M8 r; for (int i = 0; i < 8; ++i) { r.c[i] = fabsl(a.c[i]); } return r; };
	auto step = [&](Run const & l, Run const & r, std::string const & how, Run & out) -> bool
	{
		int const op{ mulOf[l.v.kind][r.v.kind] };
		if (op < 0) { return false; }
		table[op].fn(l.v.c, r.v.c, out.v);
		cx.did();
		out.m = ref::mul(l.m, r.m);
		ref::M8 const al{ absOf(l.m) }, ar{ absOf(r.m) };
		out.err = ref::add(ref::add(ref::mulAbs(al, r.err), ref::mulAbs(l.err, ar)), ref::mulAbs(l.err, r.err));
		ref::M8 const own{ ref::mulAbs(al, ar) };
		ref::ld top{ 0 };
		for (int i = 0; i < 8; ++i) { out.err.c[i] += 16 * num::eps * own.c[i] + 1e-300L; top = std::max(top, own.c[i]); }
		if (! (top < 1e290L)) { return false; }
		if (out.v.kind < 0 || out.v.kind >= kCount) { cx.fail("no product in the chain " + how); }
		double full[8]{ };
		for (int i = 0; i < out.v.n; ++i) { full[kindAt(out.v.kind, i)] = out.v.c[i]; }
		for (int i = 0; i < 8; ++i)
		{
			if (! (fabsl(full[i] - out.m.c[i]) <= out.err.c[i]))
			{
				cx.fail(mc::fmt("%s\n  left  : %s\n  right : %s\n  got   : %s\n  model : %s\n  component %d may be off by %Lg", how.c_str(), show(l.v).c_str(), show(r.v).c_str(), show(out.v).c_str(), ref::str(out.m).c_str(), i, out.err.c[i]));
			}
		}
		return true;
	};
	auto make = [&](int kind, double const * c)
	{
		Run r;
		r.v.kind = kind;
		r.v.n = kindSize(kind);
		for (int i = 0; i < r.v.n; ++i) { r.v.c[i] = c[i]; }
		r.m = toRef(kind, c);
		return r;
	};
	int const squares{ cx.thorough ? 24 : 12 };
	std::vector<double> const sizes{ 1., 1e-7, 1e-15, 3e-17, 1e-30, 1e-60 };
	for (int k = kS; k < kCount; ++k)
	{
		int const n{ kindSize(k) };
		// every assignment of two sizes to the components, signs from a pattern
		for (auto const & p : num::patterns()) for (unsigned set = 0; set < (1u << n); ++set) for (std::size_t z = 1; z < sizes.size(); ++z)
		{
			if (! cx.next()) { continue; }
			double a[8], b[8];
			ref::ld s{ 0 };
			for (int i = 0; i < n; ++i) { a[i] = p[i] * ((set >> i & 1) ? 1. : sizes[z]); s += ref::ld(a[i]) * a[i]; }
			for (int i = 0; i < n; ++i) { a[i] /= double(sqrtl(s)); b[i] = a[i] * (i % 2 ? -1.1 : 0.9); }
			Run x{ make(k, a) }, y{ make(k, b) };
			Run const x0{ x }, y0{ y };
			// squares of squares
			for (int i = 0; i < squares; ++i) { Run q; if (! step(x, x, mc::fmt("square number %d", i + 1), q)) { break; } x = q; }
			// words of the two factors, each times what came before
			Run w{ x0 };
			for (int i = 0; i < (cx.thorough ? 16 : 8); ++i) { Run q; if (! step(i % 3 ? y0 : w, i % 3 ? w : x0, mc::fmt("factor number %d", i + 2), q)) { break; } w = q; }
			// with factors of other kinds
			for (int k2 = kS; k2 < kCount; ++k2)
			{
				double c[8];
				for (int i = 0; i < kindSize(k2); ++i) { c[i] = num::patterns()[1][i] * ((set >> (i % n) & 1) ? sizes[z] : 1.); }
				Run const f{ make(k2, c) };
				Run q, u;
				if (step(x0, f, "a*b", q)) { step(q, y0, "(a*b)*c", u); }
				if (step(f, y0, "b*c", q)) { step(x0, q, "a*(b*c)", u); }
			}
			cx.trace();
		}
	}
}

// Part C: long left-to-right products of basis blades: every word up to a length
void blades(Ctx & cx, int len)
{
	std::vector<Val> g;
	for (int i = 0; i < 8; ++i)
	{
		Val v;
		v.kind = i == 0 ? kS : i < 4 ? kV : i < 7 ? kB : kT;
		v.n = kindSize(v.kind);
		v.c[i == 0 || i == 7 ? 0 : (i - 1) % 3] = 1;
		g.push_back(v);
	}
	std::vector<int> w(len, 0);
	while (true)
	{
		if (cx.next())
		{
			Val v{ g[w[0]] };
			ref::M8 m{ toRef(v.kind, v.c) };
			for (int i = 1; i < len; ++i)
			{
				Val const & b = g[w[i]];
				Val r;
				if (mulOf[v.kind][b.kind] < 0) { cx.fail("missing product"); }
				table[mulOf[v.kind][b.kind]].fn(v.c, b.c, r);
				cx.did();
				m = ref::mul(m, toRef(b.kind, b.c));
				if (! equal(r, m))
				{
					std::string s;
					for (int q = 0; q <= i; ++q) { s += show(g[w[q]]) + (q < i ? " * " : ""); }
					cx.fail("product of basis blades " + s + "\n  got   : " + show(r) + "\n  model : " + ref::str(m));
				}
				v = r;
			}
			cx.trace();
		}
		int i{ len - 1 };
		while (i >= 0 && ++w[i] == 8) { w[i] = 0; --i; }
		if (i < 0) { break; }
	}
}
} // namespace

void explore(Ctx & cx)
{
	index();
	programs(cx);
	near(cx);
	chains(cx);
	blades(cx, cx.thorough ? 7 : 5);
	space(cx, cx.thorough ? 3 : 2);
}
