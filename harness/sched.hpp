// Controlled scheduler for compiler-instrumented code (own code of /verif).
//
// The code under test is compiled with -fsanitize=thread, which makes the
// compiler announce every memory access, atomic operation and function entry;
// the functions it calls are defined in sched.cpp instead of the TSan runtime.
// Threads are real threads, but only one runs at a time, and at every access
// to memory that is not its own the explorer decides which one goes on.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace sched
{

//! Addresses touched by an operation outside of its own stack, TLS and blocks
struct Touched
{
	std::set<std::uintptr_t> read, write, sync;
};
//! Run the body in a thread of its own and record what it touches
Touched record(std::function<void()> const & body);

struct Point
{
	int enabled;            // threads that could go on
	bool runningEnabled;    // choice 0 is to keep the running thread
};
struct Outcome
{
	std::vector<int> choices;
	std::vector<Point> points;
	std::string trouble;    // deadlock, data race, divergence
	std::uint64_t accesses{ 0 };
	bool capped{ false };
};
//! One execution of the bodies under the given prefix of choices; memory
//! addresses in watch (and synchronisation) are the scheduling points.
Outcome execute
	( std::vector<std::function<void()>> const & bodies
	, std::vector<int> const & prefix
	, std::set<std::uintptr_t> const & watch
	, bool callsToo // also schedule at function entries
	);
//! Run f without scheduling (bookkeeping of the explorer inside of a body)
void quietly(std::function<void()> const & f);
//! Everything watched: the two operations conflict at these addresses
std::set<std::uintptr_t> conflicts(Touched const & a, Touched const & b, bool & callsToo);

} // namespace sched
