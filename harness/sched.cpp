// See sched.hpp. This file is compiled without instrumentation.
#include "sched.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <unordered_map>

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>

namespace
{
using Addr = std::uintptr_t;
enum class Mode { off, recording, exploring };
enum State { ready, blocked, finished };
constexpr int maxT{ 3 };
constexpr int horizon{ 20000 };

struct Block { Addr lo, hi; };
struct Thr
{
	int id{ 0 };
	State state{ ready };
	void const * waitsFor{ nullptr };
	sem_t go;
	pthread_t th;
	Addr lo{ 0 }, hi{ 0 };
	Block blocks[512];
	int nblocks{ 0 };
	int hook{ 0 };
	std::uint64_t clock[maxT]{};
	// memory orders: what a later acquire fence brings in, what the last
	// release fence makes later relaxed stores carry
	std::uint64_t pending[maxT]{}, fence[maxT]{};
	Addr lastSync{ 0 };
	int spins{ 0 };
	std::function<void()> const * body{ nullptr };
};
struct Shadow
{
	int wt{ -1 };
	std::uint64_t wc{ 0 };
	std::uint64_t rc[maxT]{};
};

Mode mode{ Mode::off };
Thr thr[maxT];
int nthr{ 0 };
sem_t controller;
thread_local Thr * me{ nullptr };

sched::Touched * touched{ nullptr };
std::set<Addr> const * watch{ nullptr };
bool calls{ false };
std::vector<int> const * prefix{ nullptr };
sched::Outcome * out{ nullptr };
std::unordered_map<Addr, Shadow> * shadow{ nullptr };
std::map<Addr, std::vector<std::uint64_t>> * syncClock{ nullptr };

struct Hook
{
	Thr * t;
	Hook() : t(me) { if (t) { t->hook++; } }
	~Hook() { if (t) { t->hook--; } }
};
bool active() { return me && me->hook == 0 && mode != Mode::off; }

bool own(Addr a)
{
	if (a >= me->lo && a < me->hi) { return true; }
	for (int i = me->nblocks - 1; i >= 0; --i) { if (a >= me->blocks[i].lo && a < me->blocks[i].hi) { return true; } }
	return false;
}
//! Objects of the C and C++ libraries: their own synchronisation is trusted
struct Range { Addr lo, hi; };
Range libs[256];
int nlibs{ -1 };
int addRange(dl_phdr_info * info, std::size_t, void * first)
{
	bool & isMain(*static_cast<bool *>(first));
	if (isMain) { isMain = false; return 0; }
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		if (info->dlpi_phdr[i].p_type == PT_LOAD && nlibs < 256)
		{
			Addr const a{ info->dlpi_addr + info->dlpi_phdr[i].p_vaddr };
			libs[nlibs++] = Range{ a, a + info->dlpi_phdr[i].p_memsz };
		}
	}
	return 0;
}
bool inLibrary(Addr a)
{
	if (nlibs < 0) { nlibs = 0; bool first{ true }; dl_iterate_phdr(addRange, &first); }
	for (int i = 0; i < nlibs; ++i) { if (a >= libs[i].lo && a < libs[i].hi) { return true; } }
	return false;
}
void trouble(std::string const & s) { if (out->trouble.empty()) { out->trouble = s; } }

void passTo(Thr * t) { sem_post(&t->go); }
void await(Thr * t) { while (sem_wait(&t->go) != 0) {} }

//! The running thread stops here; somebody is chosen to go on
void decide(bool runnable)
{
	Thr * en[maxT];
	int n{ 0 };
	if (runnable) { en[n++] = me; }
	for (int i = 0; i < nthr; ++i) { if (&thr[i] != me && thr[i].state == ready) { en[n++] = &thr[i]; } }
	if (n == 0)
	{
		bool all{ true };
		for (int i = 0; i < nthr; ++i) { all = all && thr[i].state == finished; }
		if (! all) { trouble("deadlock: no thread can go on"); }
		sem_post(&controller);
		if (! all) { while (true) { pause(); } } // the process of this execution is discarded
		return;
	}
	int c{ 0 };
	if (n > 1)
	{
		std::size_t const i{ out->choices.size() };
		if (i >= std::size_t(horizon)) { out->capped = true; }
		else
		{
			if (i < prefix->size()) { c = (*prefix)[i]; if (c >= n) { trouble("diverged: the choice of the prefix does not exist"); c = 0; } }
			out->choices.push_back(c);
			out->points.push_back(sched::Point{ n, runnable });
		}
	}
	if (en[c] == me) { return; }
	Thr * const self{ me };
	bool const stay{ self->state != finished };
	passTo(en[c]);
	if (stay) { await(self); }
}
//! Let the others go first
void yieldToOther()
{
	Thr * other{ nullptr };
	for (int i = 0; i < nthr; ++i) { if (&thr[i] != me && thr[i].state == ready) { other = &thr[i]; } }
	if (other) { Thr * const self{ me }; passTo(other); await(self); }
}
void blockOn(void const * what)
{
	me->state = blocked;
	me->waitsFor = what;
	decide(false);
	me->state = ready;
}
void wake(void const * what)
{
	for (int i = 0; i < nthr; ++i) { if (thr[i].state == blocked && thr[i].waitsFor == what) { thr[i].state = ready; thr[i].waitsFor = nullptr; } }
}
bool acquires(int order) { return order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
bool releases(int order) { return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
void acquireOf(Addr a)
{
	auto const it(syncClock->find(a));
	if (it != syncClock->end()) { for (int i = 0; i < maxT; ++i) { me->clock[i] = std::max(me->clock[i], it->second[i]); } }
}
void releaseOf(Addr a)
{
	auto & c((*syncClock)[a]);
	c.resize(maxT);
	for (int i = 0; i < maxT; ++i) { c[i] = std::max(c[i], me->clock[i]); }
	me->clock[me->id]++;
}

void access(Addr a, std::size_t n, bool write)
{
	if (! active()) { return; }
	Hook h;
	if (own(a)) { return; }
	if (mode == Mode::recording)
	{
		for (std::size_t i = 0; i < n; ++i) { (write ? touched->write : touched->read).insert(a + i); }
		return;
	}
	out->accesses++;
	bool watched{ false };
	for (std::size_t i = 0; i < n && ! watched; ++i) { watched = watch->count(a + i) != 0u; }
	if (! watched) { return; }
	decide(true);
	// happens-before: two accesses without order are a data race
	for (std::size_t i = 0; i < n; ++i)
	{
		Shadow & s((*shadow)[a + i]);
		if (s.wt >= 0 && s.wt != me->id && s.wc > me->clock[s.wt])
		{
			trouble(write ? "data race: two writes to shared memory without order" : "data race: a read and a write of shared memory without order");
		}
		if (write)
		{
			for (int t = 0; t < nthr; ++t) { if (t != me->id && s.rc[t] > me->clock[t]) { trouble("data race: a write and a read of shared memory without order"); } }
			s.wt = me->id;
			s.wc = me->clock[me->id];
		}
		else { s.rc[me->id] = me->clock[me->id]; }
	}
}
//! Before an atomic operation or the like
void syncPoint(Addr a, int order = __ATOMIC_SEQ_CST)
{
	if (! active()) { return; }
	Hook h;
	bool const lib{ inLibrary(a) };
	if (mode == Mode::recording) { if (! own(a) && ! lib) { touched->sync.insert(a); } return; }
	if (own(a)) { return; }
	out->accesses++;
	// a thread that only looks at one place again and again waits for another
	if (me->lastSync == a) { if (++me->spins % 16 == 0) { yieldToOther(); } }
	else { me->lastSync = a; me->spins = 0; }
	if (! lib) { decide(true); }
	if (acquires(order)) { acquireOf(a); return; }
	auto const it(syncClock->find(a));
	if (it != syncClock->end()) { for (int i = 0; i < maxT; ++i) { me->pending[i] = std::max(me->pending[i], it->second[i]); } }
}
//! What an atomic operation that has read acquires
void joined(Addr a, int order)
{
	if (! active() || mode != Mode::exploring || ! acquires(order)) { return; }
	Hook h;
	if (! own(a)) { acquireOf(a); }
}
//! After an atomic store (which begins a new release sequence) or update
void stored(Addr a, int order, bool update)
{
	if (! active() || mode != Mode::exploring) { return; }
	Hook h;
	if (own(a)) { return; }
	auto & c((*syncClock)[a]);
	c.resize(maxT);
	std::uint64_t const * const with{ releases(order) ? me->clock : me->fence };
	for (int i = 0; i < maxT; ++i) { c[i] = update ? std::max(c[i], with[i]) : with[i]; }
	if (releases(order)) { me->clock[me->id]++; }
}
void syncDone(Addr a)
{
	if (! active() || mode != Mode::exploring) { return; }
	Hook h;
	if (! own(a)) { releaseOf(a); }
}

void * threadMain(void * arg)
{
	Thr * const t{ static_cast<Thr *>(arg) };
	pthread_attr_t at;
	void * base;
	std::size_t size;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &base, &size);
	pthread_attr_destroy(&at);
	t->lo = Addr(base);
	t->hi = Addr(base) + size;
	t->nblocks = 0;
	t->hook = 0;
	sem_post(&controller);
	await(t);
	me = t;
	(*t->body)();
	{
		Hook h;
		t->state = finished;
		if (mode == Mode::exploring) { decide(false); }
		else { sem_post(&controller); }
	}
	me = nullptr;
	return nullptr;
}
void start(int i, std::function<void()> const & body)
{
	Thr & t(thr[i]);
	t.id = i;
	t.state = ready;
	t.waitsFor = nullptr;
	t.body = &body;
	for (int k = 0; k < maxT; ++k) { t.clock[k] = t.pending[k] = t.fence[k] = 0; }
	t.lastSync = 0;
	t.spins = 0;
	t.clock[i] = 1;
	sem_init(&t.go, 0, 0);
	if (pthread_create(&t.th, nullptr, threadMain, &t) != 0) { fprintf(stderr, "no thread\n"); abort(); }
	while (sem_wait(&controller) != 0) {}
}
} // namespace

namespace sched
{
Touched record(std::function<void()> const & body)
{
	Touched r;
	touched = &r;
	nthr = 1;
	sem_init(&controller, 0, 0);
	start(0, body);
	mode = Mode::recording;
	passTo(&thr[0]);
	while (sem_wait(&controller) != 0) {}
	pthread_join(thr[0].th, nullptr);
	mode = Mode::off;
	return r;
}

Outcome execute(std::vector<std::function<void()>> const & bodies, std::vector<int> const & pre, std::set<Addr> const & w, bool callsToo)
{
	Outcome r;
	std::unordered_map<Addr, Shadow> sh;
	std::map<Addr, std::vector<std::uint64_t>> sc;
	out = &r;
	prefix = &pre;
	watch = &w;
	calls = callsToo;
	shadow = &sh;
	syncClock = &sc;
	nthr = int(bodies.size());
	sem_init(&controller, 0, 0);
	for (int i = 0; i < nthr; ++i) { start(i, bodies[i]); }
	mode = Mode::exploring;
	// who goes first
	int c{ 0 };
	if (! pre.empty()) { c = pre[0]; }
	if (nthr > 1)
	{
		r.choices.push_back(c);
		r.points.push_back(Point{ nthr, false });
	}
	passTo(&thr[c]);
	while (sem_wait(&controller) != 0) {}
	if (r.trouble.compare(0, 8, "deadlock") == 0) { mode = Mode::off; return r; }
	for (int i = 0; i < nthr; ++i) { pthread_join(thr[i].th, nullptr); }
	mode = Mode::off;
	if (r.choices.size() < pre.size()) { r.trouble = "diverged: the execution ended before its prefix"; }
	return r;
}

void quietly(std::function<void()> const & f)
{
	Hook h;
	f();
}

std::set<Addr> conflicts(Touched const & a, Touched const & b, bool & callsToo)
{
	std::set<Addr> r;
	auto meet = [&](std::set<Addr> const & x, std::set<Addr> const & y) { for (Addr v : x) { if (y.count(v)) { r.insert(v); } } };
	meet(a.write, b.write);
	meet(a.write, b.read);
	meet(a.read, b.write);
	std::size_t const before{ r.size() };
	meet(a.sync, b.sync);
	callsToo = r.size() > before;
	return r;
}
} // namespace sched

// ---- memory of the running operation is its own ----
static void * grab(std::size_t n)
{
	void * const p{ malloc(n ? n : 1) };
	if (! p) { throw std::bad_alloc(); }
	if (me && me->hook == 0 && me->nblocks < 512) { me->blocks[me->nblocks++] = Block{ Addr(p), Addr(p) + n }; }
	return p;
}
static void drop(void * p)
{
	if (me && me->hook == 0 && p)
	{
		for (int i = me->nblocks - 1; i >= 0; --i) { if (me->blocks[i].lo == Addr(p)) { me->blocks[i] = me->blocks[--me->nblocks]; break; } }
	}
	free(p);
}
void * operator new(std::size_t n) { return grab(n); }
void * operator new[](std::size_t n) { return grab(n); }
void operator delete(void * p) noexcept { drop(p); }
void operator delete(void * p, std::size_t) noexcept { drop(p); }
void operator delete[](void * p) noexcept { drop(p); }
void operator delete[](void * p, std::size_t) noexcept { drop(p); }

extern "C"
{
// ---- accesses announced by the compiler ----
void __tsan_init() {}
void __tsan_func_entry(void *)
{
	if (! active() || mode != Mode::exploring || ! calls) { return; }
	Hook h;
	out->accesses++;
	decide(true);
}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void * p) { access(Addr(p), N, false); } \
	void __tsan_write##N(void * p) { access(Addr(p), N, true); } \
	void __tsan_unaligned_read##N(void * p) { access(Addr(p), N, false); } \
	void __tsan_unaligned_write##N(void * p) { access(Addr(p), N, true); } \
	void __tsan_volatile_read##N(void * p) { access(Addr(p), N, false); } \
	void __tsan_volatile_write##N(void * p) { access(Addr(p), N, true); } \
	void __tsan_unaligned_volatile_read##N(void * p) { access(Addr(p), N, false); } \
	void __tsan_unaligned_volatile_write##N(void * p) { access(Addr(p), N, true); } \
	void __tsan_read##N##_pc(void * p, void *) { access(Addr(p), N, false); } \
	void __tsan_write##N##_pc(void * p, void *) { access(Addr(p), N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void * p, unsigned long n) { if (active() && ! own(Addr(p))) { access(Addr(p), n < 256 ? n : 256, false); } }
void __tsan_write_range(void * p, unsigned long n) { if (active() && ! own(Addr(p))) { access(Addr(p), n < 256 ? n : 256, true); } }
void __tsan_vptr_update(void ** p, void *) { access(Addr(p), 8, true); }
void __tsan_vptr_read(void ** p) { access(Addr(p), 8, false); }

#define AT(T, N) \
	T __tsan_atomic##N##_load(T const volatile * p, int o) { syncPoint(Addr(p), o); T const r{ __atomic_load_n(p, __ATOMIC_SEQ_CST) }; return r; } \
	void __tsan_atomic##N##_store(T volatile * p, T v, int o) { syncPoint(Addr(p), __ATOMIC_RELAXED); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); stored(Addr(p), o, false); } \
	T __tsan_atomic##N##_exchange(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	T __tsan_atomic##N##_fetch_add(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	T __tsan_atomic##N##_fetch_sub(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	T __tsan_atomic##N##_fetch_and(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	T __tsan_atomic##N##_fetch_or(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	T __tsan_atomic##N##_fetch_xor(T volatile * p, T v, int o) { syncPoint(Addr(p), o); T const r{ __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST) }; stored(Addr(p), o, true); return r; } \
	int __tsan_atomic##N##_compare_exchange_strong(T volatile * p, T * e, T d, int o, int f) { syncPoint(Addr(p), __ATOMIC_RELAXED); int const r{ __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) }; joined(Addr(p), r ? o : f); if (r) { stored(Addr(p), o, true); } return r; } \
	int __tsan_atomic##N##_compare_exchange_weak(T volatile * p, T * e, T d, int o, int f) { syncPoint(Addr(p), __ATOMIC_RELAXED); int const r{ __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) }; joined(Addr(p), r ? o : f); if (r) { stored(Addr(p), o, true); } return r; } \
	T __tsan_atomic##N##_compare_exchange_val(T volatile * p, T e, T d, int o, int f) { syncPoint(Addr(p), o); (void)f; if (__atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { stored(Addr(p), o, true); } return e; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
#undef AT
void __tsan_atomic_thread_fence(int o)
{
	if (! active() || mode != Mode::exploring) { return; }
	if (acquires(o)) { for (int i = 0; i < maxT; ++i) { me->clock[i] = std::max(me->clock[i], me->pending[i]); } }
	if (releases(o)) { for (int i = 0; i < maxT; ++i) { me->fence[i] = me->clock[i]; } me->clock[me->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation of the C and C++ libraries ----
// initialisation of function-local statics; byte 0: done, byte 1: in progress
int __cxa_guard_acquire(std::int64_t * g)
{
	char volatile * const b{ reinterpret_cast<char volatile *>(g) };
	if (! active())
	{
		if (b[0]) { return 0; }
		b[1] = 1;
		return 1;
	}
	syncPoint(Addr(g));
	while (true)
	{
		if (b[0]) { return 0; }
		if (! b[1] || mode != Mode::exploring) { b[1] = 1; return 1; }
		Hook h;
		blockOn(g);
		acquireOf(Addr(g));
	}
}
void __cxa_guard_release(std::int64_t * g)
{
	char volatile * const b{ reinterpret_cast<char volatile *>(g) };
	b[0] = 1;
	b[1] = 0;
	if (active() && mode == Mode::exploring) { syncDone(Addr(g)); Hook h; wake(g); }
}
void __cxa_guard_abort(std::int64_t * g)
{
	char volatile * const b{ reinterpret_cast<char volatile *>(g) };
	b[1] = 0;
	if (active() && mode == Mode::exploring) { Hook h; wake(g); }
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
	static auto const real(reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock")));
	if (! active() || mode != Mode::exploring) { if (active()) { syncPoint(Addr(m)); } return real(m); }
	syncPoint(Addr(m));
	Hook h;
	while (true)
	{
		int const r{ pthread_mutex_trylock(m) };
		if (r != EBUSY) { acquireOf(Addr(m)); return r; }
		blockOn(m);
	}
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
	static auto const real(reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock")));
	int const r{ real(m) };
	if (active() && mode == Mode::exploring) { syncDone(Addr(m)); Hook h; wake(m); }
	return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
	static auto const real(reinterpret_cast<int (*)(pthread_rwlock_t *)>(dlsym(RTLD_NEXT, "pthread_rwlock_rdlock")));
	if (! active() || mode != Mode::exploring) { if (active()) { syncPoint(Addr(m)); } return real(m); }
	syncPoint(Addr(m));
	Hook h;
	while (true) { int const r{ pthread_rwlock_tryrdlock(m) }; if (r != EBUSY) { acquireOf(Addr(m)); return r; } blockOn(m); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
	static auto const real(reinterpret_cast<int (*)(pthread_rwlock_t *)>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock")));
	if (! active() || mode != Mode::exploring) { if (active()) { syncPoint(Addr(m)); } return real(m); }
	syncPoint(Addr(m));
	Hook h;
	while (true) { int const r{ pthread_rwlock_trywrlock(m) }; if (r != EBUSY) { acquireOf(Addr(m)); return r; } blockOn(m); }
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
	static auto const real(reinterpret_cast<int (*)(pthread_rwlock_t *)>(dlsym(RTLD_NEXT, "pthread_rwlock_unlock")));
	int const r{ real(m) };
	if (active() && mode == Mode::exploring) { syncDone(Addr(m)); Hook h; wake(m); }
	return r;
}
// 0: not run, 1: running, 2: has run
int pthread_once(pthread_once_t * c, void (*f)())
{
	int volatile * const v{ reinterpret_cast<int volatile *>(c) };
	if (active()) { syncPoint(Addr(c)); }
	while (true)
	{
		if (*v == 2) { return 0; }
		if (*v == 0 || ! active() || mode != Mode::exploring)
		{
			*v = 1;
			f();
			*v = 2;
			if (active() && mode == Mode::exploring) { syncDone(Addr(c)); Hook h; wake(c); }
			return 0;
		}
		Hook h;
		blockOn(c);
		acquireOf(Addr(c));
	}
}
int sched_yield()
{
	if (active() && mode == Mode::exploring) { Hook h; yieldToOther(); }
	return 0;
}
} // extern "C"

// memory functions are announced by their calls
extern "C"
{
void * memcpy(void * __restrict d, void const * __restrict s, std::size_t n)
{
	if (active() && n) { access(Addr(s), n < 256 ? n : 256, false); access(Addr(d), n < 256 ? n : 256, true); }
	void * const r{ d };
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	return r;
}
void * memmove(void * d, void const * s, std::size_t n)
{
	if (active() && n) { access(Addr(s), n < 256 ? n : 256, false); access(Addr(d), n < 256 ? n : 256, true); }
	void * const r{ d };
	if (d <= s || static_cast<char *>(d) >= static_cast<char const *>(s) + n)
	{
		asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	}
	else
	{
		char * e{ static_cast<char *>(d) + n - 1 };
		char const * f{ static_cast<char const *>(s) + n - 1 };
		asm volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
	}
	return r;
}
void * memset(void * d, int c, std::size_t n)
{
	if (active() && n) { access(Addr(d), n < 256 ? n : 256, true); }
	void * const r{ d };
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
	return r;
}
} // extern "C"
