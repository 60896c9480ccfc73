// Bounded exhaustive exploration engine (own code of /verif, not of Engabra).
//
// A harness defines  void explore(mc::Ctx & cx)  which enumerates a finite
// space deterministically. Every case is announced with cx.next(), which says
// whether this worker owns the case. Workers are forked processes: each
// explores its share, results are merged by the parent.
//
// A failing case is identified by its index in the enumeration, so that it can
// be replayed:  alone first, and - when it only fails after the cases that ran
// before it - with that history. Nothing that does not fail again is reported.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{

struct Stop {};

inline std::string fmt(char const * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const * f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

struct Ctx
{
	bool thorough{ false };
	std::uint64_t seed{ 1 };
	int shard{ 0 };
	int nshards{ 1 };
	std::uint64_t only{ ~0ull };   // replay: evaluate this case alone
	std::uint64_t upto{ ~0ull };   // replay: this shard's history up to here
	volatile std::uint64_t * progress{ nullptr };

	std::uint64_t idx{ 0 };        // number of cases announced so far
	bool failed{ false };
	std::uint64_t failIdx{ 0 };
	std::string failMsg;

	// counters of this worker
	std::uint64_t states{ 0 };      // distinct inputs/states enumerated
	std::uint64_t transitions{ 0 }; // operations of the library executed
	std::uint64_t traces{ 0 };      // operation sequences compared with the model
	std::map<std::string, std::uint64_t> info; // additive extra counters
	std::map<std::string, std::uint64_t> known;
	std::map<std::string, std::string> knownMsg;
	std::vector<std::string> samples;
	std::unordered_set<std::uint64_t> outcomes;

	//! Announce a case; true if this worker is to evaluate it
	bool next()
	{
		std::uint64_t const me{ idx++ };
		if (only != ~0ull)
		{
			if (me > only) { throw Stop{}; }
			if (me != only) { return false; }
			states += 1;
			*progress = me + 1;
			return true;
		}
		if (upto != ~0ull && me > upto) { throw Stop{}; }
		if (static_cast<int>((me >> 6) % nshards) != shard) { return false; }
		states += 1;
		*progress = me + 1;
		return true;
	}
	void did(std::uint64_t const & n = 1) { transitions += n; }
	void trace(std::uint64_t const & n = 1) { traces += n; }
	void outcome(std::uint64_t h)
	{
		if (outcomes.size() < (1u << 14)) { outcomes.insert(h); }
	}
	void outcome(double const * v, std::size_t const & n)
	{
		if (outcomes.size() < (1u << 14))
		{
			std::uint64_t h{ 1469598103934665603ull };
			for (std::size_t i = 0; i < n; ++i)
			{
				std::uint64_t b;
				std::memcpy(&b, v + i, 8);
				h = (h ^ b) * 1099511628211ull;
				h ^= h >> 29;
			}
			outcomes.insert(h);
		}
	}
	bool wantSample() const { return samples.size() < 3u && shard == 0; }
	//! Is this case to be written out? Three of worker 0, spread over the run
	std::uint64_t nextSample{ 5 };
	bool sampleNow()
	{
		if (! wantSample() || states < nextSample) { return false; }
		nextSample = 20 * states + 40;
		return true;
	}
	void sample(std::string const & s)
	{
		if (samples.size() < 3u) { samples.push_back(s); }
	}

	[[noreturn]] void fail(std::string const & msg)
	{
		failed = true;
		failIdx = idx - 1;
		failMsg = msg;
		throw Stop{};
	}
	void knownFinding(std::string const & key, std::string const & msg)
	{
		if (0u == known[key]++) { knownMsg[key] = msg; }
	}
};

inline std::string jsonEsc(std::string const & s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
		else if (c < 32 || c > 126) { o += fmt("\\u%04x", c); }
		else { o += static_cast<char>(c); }
	}
	return o;
}

// line based record used between worker and parent
inline void dump(Ctx const & c, std::string const & path)
{
	std::ofstream f(path + ".tmp");
	auto enc = [](std::string s)
		{ std::string o; for (char ch : s) { if (ch == '\n') { o += "\\n"; } else { o += ch; } } return o; };
	f << "states " << c.states << "\n";
	f << "transitions " << c.transitions << "\n";
	f << "traces " << c.traces << "\n";
	for (auto const & kv : c.info) { f << "info " << kv.second << " " << kv.first << "\n"; }
	for (auto const & kv : c.known)
	{
		f << "known " << kv.second << " " << kv.first << "\n";
		f << "knownmsg " << kv.first << " " << enc(c.knownMsg.at(kv.first)) << "\n";
	}
	for (auto const & s : c.samples) { f << "sample " << enc(s) << "\n"; }
	for (auto const & h : c.outcomes) { f << "outcome " << h << "\n"; }
	if (c.failed) { f << "fail " << c.failIdx << " " << enc(c.failMsg) << "\n"; }
	f << "done 1\n";
	f.close();
	std::rename((path + ".tmp").c_str(), path.c_str());
}

} // namespace mc

void explore(mc::Ctx & cx);
#ifndef MC_SHARDS
#define MC_SHARDS 8
#endif

namespace mc
{

struct Merged
{
	std::uint64_t states{ 0 }, transitions{ 0 }, traces{ 0 };
	std::map<std::string, std::uint64_t> info, known;
	std::map<std::string, std::string> knownMsg;
	std::vector<std::string> samples;
	std::set<std::uint64_t> outcomes;
	bool failed{ false };
	std::uint64_t failIdx{ ~0ull };
	int failShard{ 0 };
	std::string failMsg;
	bool broken{ false };
	std::string brokenMsg;
};

inline std::string unenc(std::string const & s)
{
	std::string o;
	for (std::size_t i = 0; i < s.size(); ++i)
	{
		if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'n') { o += '\n'; ++i; }
		else { o += s[i]; }
	}
	return o;
}

//! Run the exploration in forked workers and merge what they report
inline Merged run
	( bool thorough, std::uint64_t seed, int nshards, std::vector<int> const & shards
	, std::uint64_t only, std::uint64_t upto, std::string const & dir
	, double hangSeconds
	)
{
	Merged mg;
	auto * prog = static_cast<volatile std::uint64_t *>
		(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<pid_t> pids;
	std::vector<bool> over(shards.size(), false);
	std::vector<std::string> paths;
	for (std::size_t k = 0; k < shards.size(); ++k)
	{
		prog[k] = 0;
		paths.push_back(dir + fmt("/worker%d.txt", shards[k]));
		unlink(paths.back().c_str());
		std::cout.flush();
		fflush(stdout);
		pid_t const p{ fork() };
		if (p == 0)
		{
			Ctx cx;
			cx.thorough = thorough;
			cx.seed = seed;
			cx.shard = shards[k];
			cx.nshards = nshards;
			cx.only = only;
			cx.upto = upto;
			cx.progress = prog + k;
			try { explore(cx); }
			catch (Stop const &) {}
			dump(cx, paths[k]);
			_exit(0);
		}
		pids.push_back(p);
	}
	std::vector<std::uint64_t> last(shards.size(), ~0ull);
	std::vector<double> since(shards.size(), 0.);
	std::size_t left{ shards.size() };
	double now{ 0. };
	while (left)
	{
		usleep(5000);
		now += .005;
		for (std::size_t k = 0; k < shards.size(); ++k)
		{
			if (over[k]) { continue; }
			int st{ 0 };
			pid_t const r{ waitpid(pids[k], &st, WNOHANG) };
			bool died{ false };
			std::string how;
			if (r == pids[k])
			{
				over[k] = true;
				--left;
				if (WIFSIGNALED(st)) { died = true; how = fmt("terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
				else if (WEXITSTATUS(st) != 0) { died = true; how = fmt("exited with status %d", WEXITSTATUS(st)); }
			}
			else
			{
				std::uint64_t const cur{ prog[k] };
				if (cur != last[k]) { last[k] = cur; since[k] = now; }
				else if (now - since[k] > hangSeconds)
				{
					kill(pids[k], SIGKILL);
					waitpid(pids[k], &st, 0);
					over[k] = true;
					--left;
					died = true;
					how = "did not return";
				}
			}
			if (died)
			{
				std::uint64_t const at{ prog[k] };
				if (at == 0) { mg.broken = true; mg.brokenMsg = "worker " + how + " before its first case"; }
				else if (at - 1 < mg.failIdx)
				{
					mg.failed = true;
					mg.failIdx = at - 1;
					mg.failShard = shards[k];
					mg.failMsg = "the code under test " + how + " while evaluating this case";
				}
				continue;
			}
			if (! over[k]) { continue; }
			std::ifstream f(paths[k]);
			std::string line;
			bool done{ false };
			while (std::getline(f, line))
			{
				std::size_t const sp{ line.find(' ') };
				std::string const key{ line.substr(0, sp) };
				std::string const rest{ line.substr(sp + 1) };
				if (key == "states") { mg.states += strtoull(rest.c_str(), nullptr, 10); }
				else if (key == "transitions") { mg.transitions += strtoull(rest.c_str(), nullptr, 10); }
				else if (key == "traces") { mg.traces += strtoull(rest.c_str(), nullptr, 10); }
				else if (key == "outcome") { mg.outcomes.insert(strtoull(rest.c_str(), nullptr, 10)); }
				else if (key == "info")
				{
					std::size_t const q{ rest.find(' ') };
					mg.info[rest.substr(q + 1)] += strtoull(rest.c_str(), nullptr, 10);
				}
				else if (key == "known")
				{
					std::size_t const q{ rest.find(' ') };
					mg.known[rest.substr(q + 1)] += strtoull(rest.c_str(), nullptr, 10);
				}
				else if (key == "knownmsg")
				{
					std::size_t const q{ rest.find(' ') };
					mg.knownMsg.emplace(rest.substr(0, q), unenc(rest.substr(q + 1)));
				}
				else if (key == "sample") { mg.samples.push_back(unenc(rest)); }
				else if (key == "fail")
				{
					std::size_t const q{ rest.find(' ') };
					std::uint64_t const at{ strtoull(rest.c_str(), nullptr, 10) };
					if (at < mg.failIdx)
					{
						mg.failed = true;
						mg.failIdx = at;
						mg.failShard = shards[k];
						mg.failMsg = unenc(rest.substr(q + 1));
					}
				}
				else if (key == "done") { done = true; }
			}
			if (! done) { mg.broken = true; mg.brokenMsg = "worker left no result"; }
		}
	}
	munmap(const_cast<std::uint64_t *>(prog), 4096);
	return mg;
}

inline int mainImpl(int argc, char ** argv)
{
	bool thorough{ false };
	std::uint64_t seed{ 1 }, only{ ~0ull }, upto{ ~0ull };
	int shard{ -1 };
	std::string dir{ "." };
	for (int i = 1; i < argc; ++i)
	{
		std::string const a{ argv[i] };
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") { thorough = (val() == "thorough"); }
		else if (a == "--seed") { seed = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--dir") { dir = val(); }
		else if (a == "--case") { only = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--history") { upto = strtoull(val().c_str(), nullptr, 10); }
		else if (a == "--shard") { shard = atoi(val().c_str()); }
	}
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	int const nsh{ MC_SHARDS };
	std::vector<int> all;
	if (shard >= 0) { all.push_back(shard); }
	else { for (int i = 0; i < nsh; ++i) { all.push_back(i); } }
	if (only != ~0ull || upto != ~0ull)
	{
		// explicit replay
		if (shard < 0) { all.assign(1, 0); }
		Merged const mg{ run(thorough, seed, nsh, all, only, upto, dir, 150.) };
		if (mg.broken) { printf("replay broken: %s\n", mg.brokenMsg.c_str()); return 2; }
		if (mg.failed) { printf("REPRODUCED case %llu\n%s\n", (unsigned long long)mg.failIdx, mg.failMsg.c_str()); return 1; }
		printf("not reproduced\n");
		return 0;
	}
	Merged const mg{ run(thorough, seed, nsh, all, only, upto, dir, 150.) };
	int status{ 0 };
	std::string verdict{ "holds" };
	std::string replayArgs, confirm;
	if (mg.broken && ! mg.failed) { status = 2; verdict = "broken: " + mg.brokenMsg; }
	else if (mg.failed)
	{
		// replay before report: first the case alone, then with its history
		std::vector<int> one(1, mg.failShard);
		Merged const r1{ run(thorough, seed, nsh, one, mg.failIdx, ~0ull, dir, 150.) };
		if (r1.failed)
		{
			status = 1;
			replayArgs = fmt("--shard %d --case %llu", mg.failShard, (unsigned long long)mg.failIdx);
			confirm = "reproduced alone in a fresh process";
		}
		else
		{
			// what depends on leftovers in memory may fail at another case: a few
			// attempts, any of which has to fail on its own again
			for (int attempt = 0; attempt < 4 && status == 0; ++attempt)
			{
				Merged const r2{ run(thorough, seed, nsh, one, ~0ull, mg.failIdx, dir, 150.) };
				if (! r2.failed) { continue; }
				status = 1;
				replayArgs = fmt("--shard %d --history %llu", mg.failShard, (unsigned long long)mg.failIdx);
				confirm = r2.failIdx == mg.failIdx
					? "reproduced in a fresh process with the calls that came before it (it does not fail alone)"
					: fmt("not the same in every process: with the same calls a fresh process fails earlier, at case %llu", (unsigned long long)r2.failIdx);
			}
			if (status == 0) { status = 2; verdict = "diverged: a failing case did not fail again: " + mg.failMsg; }
		}
		if (status == 1) { verdict = "violated"; }
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	double const wall{ double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) };
	std::ofstream f(dir + "/result.json");
	f << "{\"status\": " << status << ", \"verdict\": \"" << jsonEsc(verdict) << "\"";
	f << ", \"states\": " << mg.states << ", \"transitions\": " << mg.transitions << ", \"traces\": " << mg.traces;
	f << ", \"distinct_outcomes\": " << mg.outcomes.size();
	f << ", \"wall\": " << wall;
	f << ", \"info\": {";
	char const * sep{ "" };
	for (auto const & kv : mg.info) { f << sep << "\"" << jsonEsc(kv.first) << "\": " << kv.second; sep = ", "; }
	f << "}, \"known\": {";
	sep = "";
	for (auto const & kv : mg.known)
	{
		f << sep << "\"" << jsonEsc(kv.first) << "\": {\"count\": " << kv.second << ", \"msg\": \"" << jsonEsc(mg.knownMsg.at(kv.first)) << "\"}";
		sep = ", ";
	}
	f << "}, \"samples\": [";
	sep = "";
	for (auto const & s : mg.samples) { f << sep << "\"" << jsonEsc(s) << "\""; sep = ", "; }
	f << "], \"fail_index\": " << (mg.failed ? (long long)mg.failIdx : -1ll);
	f << ", \"message\": \"" << jsonEsc(mg.failMsg) << "\", \"replay_args\": \"" << replayArgs << "\", \"confirm\": \"" << confirm << "\"}\n";
	f.close();
	return status;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char ** argv) { return mc::mainImpl(argc, argv); }
#endif
