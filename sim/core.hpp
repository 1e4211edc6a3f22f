// Core of the deterministic simulator: decision streams, event log, violation
// reporting.  Every choice a run makes goes through one of three recorded
// streams, so a run is a pure function of (streams, code).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

	enum Stream : int { W = 0, S = 1, F = 2, NSTREAM = 3 }; // workload, schedule, fault

	enum Fault : int {
		FAlloc,        // an allocation fails
		FCtor,         // element construction throws
		FCopy,         // element copy construction throws
		FMove,         // element move construction throws
		FCopyAssign,   // element copy assignment throws
		FMoveAssign,   // element move assignment throws
		FOther,        // some other user callback (hash, compare, functor) throws
		FSpurious,     // spurious condition variable wakeup
		FWakeReorder,  // notify wakes a waiter other than the longest waiting one
		FWeakCas,      // weak compare exchange fails spuriously
		FTryLock,      // try_lock fails spuriously
		FLockErr,      // lock reports a system error
		FPreempt,      // running thread preempted inside an operation
		FStall,        // a thread is stalled (not scheduled) for a long stretch
		FStale,        // a relaxed/acquire load returns an older (still visible) store
		FSink,         // output sink fails / short write
		FSource,       // input source fails
		FSyscall,      // system call fails (errno injection)
		FEintr,        // system call interrupted
		FSignal,       // process killed by a signal
		FCrash,        // process exits/crashes at a point
		FRelocate,     // memory relocated to another address
		FClose,        // close / shutdown at an arbitrary point
		FClockJump,    // clock jump
		NFAULT
	};
	extern char const *const fault_names[NFAULT];

	// ---- choices -------------------------------------------------------
	uint32_t choose(Stream s, uint32_t n);                       // uniform in [0,n); 0 is the simplest
	bool chance(Stream s, uint32_t num, uint32_t den);           // true with num/den; false is the simplest
	uint32_t pick(Stream s, std::initializer_list<uint32_t> w);  // index by weight; 0 simplest
	bool replaying();
	uint64_t policy_rnd(Stream s);                               // only in policies; its result must end in record()
	uint32_t record(Stream s, uint32_t n, uint32_t v);           // v is ignored when replaying
	inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + choose(s, hi - lo + 1); }

	// ---- log / stats ---------------------------------------------------
	void log(char const *lit, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
	void logs(char const *lit, std::string const &s);
	bool tracing();
	void note(char const *fmt, ...) __attribute__((format(printf, 1, 2))); // trace only, not hashed
	void fired(Fault f);
	void probe(char const *name);
	void nontrivial();
	void add_steps(uint64_t n);
	void add_simtime(uint64_t ns);
	void add_evals(uint64_t n); // oracle evaluations

	[[noreturn]] void violation(char const *cls, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...)                      \
	do {                                               \
		if (!(cond)) ::sim::violation(cls, __VA_ARGS__); \
	} while (0)

	// ---- harness registration -----------------------------------------
	struct Scenario {
		char const *name;
		uint32_t weight;
		void (*fn)();
	};
	struct Harness {
		char const *name;
		std::vector<Scenario> scenarios;
		uint32_t batch = 128;
		// enabled by the flavour
		void (*before_run)() = nullptr;
		void (*after_run)() = nullptr;
	};
	Harness make_harness(std::string const &prop); // provided by each harness
	bool thorough();

	// hooks the scheduler flavour installs
	extern void (*flavour_before)();
	extern void (*flavour_after)();
	extern bool want_no_aslr;
	void crash_note(char const *s); // async-signal-safe: annotate the slot

	// cheap mixing
	inline uint64_t mix(uint64_t x) {
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
} // namespace sim
