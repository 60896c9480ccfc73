// The operations of C26, compiled with the compiler's access announcements.
#define MC_NO_MAIN
#define OPTABLE_SHARED
#include "c26.hpp"

#include <atomic>
#include <new>

namespace engabra
{
	extern std::string projectVersion();
	extern std::string sourceIdentity();
}

namespace
{
void version(double const *, double const *, Val & v) { optable::store(engabra::projectVersion(), v); }
void identity(double const *, double const *, Val & v) { optable::store(engabra::sourceIdentity(), v); }
template <class A> void zeroOf(double const *, double const *, Val & v) { optable::store(g3::zero<A>(), v); }
template <class A> void nullOf(double const *, double const *, Val & v) { optable::store(g3::null<A>(), v); }
void basisOf(double const *, double const *, Val & v)
{
	v.kind = kList;
	v.n = 11;
	double const w[11]{ g3::e0[0], g3::e1[0], g3::e2[1], g3::e3[2], g3::e23[0], g3::e31[1], g3::e12[2], g3::e123[0], g3::pi, g3::turnFull, g3::nan };
	for (int i = 0; i < 11; ++i) { v.c[i] = w[i]; }
}

// controls: code whose behaviour under all interleavings is known
double scratch{ 0. };
__attribute__((noinline)) void settle() { asm volatile("" ::: "memory"); }
void ctlScratch(double const * a, double const *, Val & v)
{
	scratch = a[0];
	settle();
	v.kind = kList; v.n = 1;
	v.c[0] = 2. * scratch;
}
bool ready{ false };
double tabled[3];
void ctlLazy(double const *, double const *, Val & v)
{
	if (! ready)
	{
		ready = true;
		settle();
		for (int i = 0; i < 3; ++i) { tabled[i] = i + 1.; }
	}
	v.kind = kList; v.n = 1;
	v.c[0] = tabled[0] + tabled[1] + tabled[2];
}
std::string made() { return std::string(40, 'x'); }
void ctlStatic(double const *, double const *, Val & v)
{
	static std::string const s{ made() };
	optable::store(s, v);
}
pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
double guarded{ 0. };
void ctlMutex(double const * a, double const *, Val & v)
{
	pthread_mutex_lock(&mx);
	guarded = a[0];
	settle();
	v.kind = kList; v.n = 1;
	v.c[0] = 2. * guarded;
	pthread_mutex_unlock(&mx);
}
void ctlLocal(double const * a, double const *, Val & v)
{
	static thread_local double own;
	own = a[0];
	settle();
	v.kind = kList; v.n = 1;
	v.c[0] = 2. * own;
}
// publication through an atomic flag: order matters
template <std::memory_order store, std::memory_order load> struct Publish
{
	static std::atomic<bool> done;
	static std::atomic_flag busy;
	static double table;
	static void call(double const *, double const *, Val & v)
	{
		if (! done.load(load))
		{
			while (busy.test_and_set(std::memory_order_acquire)) {}
			if (! done.load(std::memory_order_relaxed)) { table = 3.; done.store(true, store); }
			busy.clear(std::memory_order_release);
		}
		v.kind = kList; v.n = 1;
		v.c[0] = table;
	}
};
template <std::memory_order s, std::memory_order l> std::atomic<bool> Publish<s, l>::done{ false };
template <std::memory_order s, std::memory_order l> std::atomic_flag Publish<s, l>::busy = ATOMIC_FLAG_INIT;
template <std::memory_order s, std::memory_order l> double Publish<s, l>::table{ 0. };
std::atomic<bool> fenced{ false };
std::atomic_flag fencing = ATOMIC_FLAG_INIT;
double fencedTable{ 0. };
void ctlFence(double const *, double const *, Val & v)
{
	bool const has{ fenced.load(std::memory_order_relaxed) };
	std::atomic_thread_fence(std::memory_order_acquire);
	if (! has)
	{
		while (fencing.test_and_set(std::memory_order_acquire)) {}
		if (! fenced.load(std::memory_order_relaxed))
		{
			fencedTable = 3.;
			std::atomic_thread_fence(std::memory_order_release);
			fenced.store(true, std::memory_order_relaxed);
		}
		fencing.clear(std::memory_order_release);
	}
	v.kind = kList; v.n = 1;
	v.c[0] = fencedTable;
}
// two atomics that belong together: no race, and wrong all the same
std::atomic<double> pairLeft{ 0. }, pairRight{ 0. };
void ctlPair(double const * a, double const *, Val & v)
{
	pairLeft.store(a[0]);
	pairRight.store(a[0]);
	v.kind = kList; v.n = 1;
	v.c[0] = pairLeft.load() + pairRight.load();
}
pthread_mutex_t mxA = PTHREAD_MUTEX_INITIALIZER, mxB = PTHREAD_MUTEX_INITIALIZER;
void ctlOrder(double const * a, double const *, Val & v)
{
	bool const way{ a[0] == num::patterns()[1][0] };
	pthread_mutex_t * const one{ way ? &mxA : &mxB }, * const two{ way ? &mxB : &mxA };
	pthread_mutex_lock(one);
	pthread_mutex_lock(two);
	v.kind = kList; v.n = 1;
	v.c[0] = 1.;
	pthread_mutex_unlock(two);
	pthread_mutex_unlock(one);
}
} // namespace

std::vector<Op> c26Ops()
{
	std::vector<Op> ops(optable::build());
	ops.push_back(Op{ "projectVersion()", cText, -1, -1, false, version });
	ops.push_back(Op{ "sourceIdentity()", cText, -1, -1, false, identity });
	ops.push_back(Op{ "the constants", cConv, -1, -1, false, basisOf });
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		ops.push_back(Op{ std::string("zero<") + K<A>::name() + ">()", cConv, -1, -1, true, zeroOf<A> });
		ops.push_back(Op{ std::string("null<") + K<A>::name() + ">()", cConv, -1, -1, true, nullOf<A> });
	});
	return ops;
}
std::vector<Control> c26Controls()
{
	return
		{ { Op{ "shared scratch variable", 0, kD, -1, true, ctlScratch }, true }
		, { Op{ "hand-made lazy table", 0, kD, -1, true, ctlLazy }, true }
		, { Op{ "function-local static", 0, kD, -1, true, ctlStatic }, false }
		, { Op{ "scratch under a mutex", 0, kD, -1, true, ctlMutex }, false }
		, { Op{ "thread-local scratch", 0, kD, -1, true, ctlLocal }, false }
		, { Op{ "flag released and acquired, under a spin lock", 0, kD, -1, true, Publish<std::memory_order_release, std::memory_order_acquire>::call }, false }
		, { Op{ "flag released, not acquired", 0, kD, -1, true, Publish<std::memory_order_release, std::memory_order_relaxed>::call }, true }
		, { Op{ "flag acquired, not released", 0, kD, -1, true, Publish<std::memory_order_relaxed, std::memory_order_acquire>::call }, true }
		, { Op{ "relaxed flag between fences", 0, kD, -1, true, ctlFence }, false }
		, { Op{ "two atomics that belong together", 0, kD, -1, true, ctlPair }, true }
		, { Op{ "two locks in either order", 0, kD, -1, true, ctlOrder }, true }
		};
}
void c26Make(int kind, double const * from, void * at)
{
	forKinds(AllKinds{}, [&](auto t)
	{
		using A = TY(t);
		static_assert(sizeof(A) <= 512, "entity");
		if (K<A>::id == kind) { new (at) A(K<A>::make(from)); }
	});
}
