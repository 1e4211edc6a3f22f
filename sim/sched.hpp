// Simulated threads: fibers scheduled by recorded decisions.  The code under test
// is compiled with -fsanitize=thread but linked against this runtime, so every
// memory access, atomic operation and pthread call is a point the simulator owns.
#pragma once
#include "core.hpp"
#include <functional>

namespace sim {
	enum class Quiesce { AllDone, Stuck };

	struct SchedCfg {
		bool spurious = false;        // spurious condvar wakeups
		bool wake_reorder = false;    // notify_one wakes an arbitrary waiter
		bool weak_cas = false;        // weak CAS may fail spuriously
		bool stale = false;           // relaxed/acquire loads may read older visible stores
		bool plain_yield = false;     // plain memory accesses are preemption points too
		bool stalls = false;          // threads get stalled for long stretches
		uint32_t alloc_den = 0;       // 1/alloc_den allocations inside operations fail (0 = never)
		uint32_t lockerr_den = 0;     // 1/den mutex lock calls report EAGAIN/EDEADLK-like errors
		uint32_t trylock_den = 0;     // 1/den try_lock calls fail spuriously
		uint32_t step_budget = 60000; // more scheduling points than this without finishing = livelock
	};
	extern SchedCfg cfg;

	int spawn(char const *name, std::function<void()> fn); // from fiber 0 only
	Quiesce run_all();                                     // from fiber 0 only
	bool fiber_done(int id);
	char const *fiber_blocked_on(int id); // "", "mutex", "cond", "rwlock-rd", "rwlock-wr", "futex", "sleep"
	int self();
	void yield(); // explicit preemption point (element callbacks use it)
	uint64_t stamp(); // global event order, strictly increasing
	size_t live_blocks(); // arena blocks allocated in this run and still live
	bool holds_any_lock();

	void ni_enter(); // out of line: the counter itself must not look like shared data
	void ni_leave();
	// Harness bookkeeping: not instrumented, never yields, allocates outside the arena.
	struct NoInstr {
		NoInstr() { ni_enter(); }
		~NoInstr() { ni_leave(); }
		NoInstr(NoInstr const &) = delete;
	};
	// Marks code of the library (an operation in flight): faults are injected only here.
	extern int in_op_of_current();
	void op_enter();
	void op_leave();
	struct OpScope {
		OpScope() { op_enter(); }
		~OpScope() { op_leave(); }
	};
	// Within element callbacks etc. where allocation failures must not be injected.
	void suspend_faults();
	void resume_faults();
	bool faults_active();

	// standard swarm configuration for a run (drawn from stream W)
	void swarm_cfg(bool allow_stale);
	uint64_t vclock_ns();
} // namespace sim
