// Runtime of the sequential flavours: one thread, faults injected into allocation,
// element operations, callbacks, sinks, sources and system calls.
#include "sched.hpp"
#include <cstdlib>
#include <new>

namespace sim {
	bool want_no_aslr = false;
	SchedCfg cfg;
	namespace {
		int in_op = 0, susp = 0;
		int64_t live = 0;
		bool in_run = false;
		uint64_t st = 0;
		void before() {
			in_op = susp = 0;
			live = 0;
			st = 0;
			cfg = SchedCfg{};
			in_run = true;
		}
		void after() { in_run = false; }
		struct Init {
			Init() {
				flavour_before = before;
				flavour_after = after;
			}
		} init;
		int ni = 0;
	} // namespace
	int self() { return 0; }
	void yield() {}
	uint64_t stamp() { return ++st; }
	size_t live_blocks() { return (size_t) live; }
	bool holds_any_lock() { return false; }
	// in this flavour NoInstr only exempts harness allocations from the ledger
	void ni_enter() { ++ni; }
	void ni_leave() { --ni; }
	int in_op_of_current() { return in_op; }
	void op_enter() { ++in_op; }
	void op_leave() { --in_op; }
	void suspend_faults() { ++susp; }
	void resume_faults() { --susp; }
	bool faults_active() { return in_run && in_op > 0 && susp == 0 && ni == 0; }
	void swarm_cfg(bool) {}
	uint64_t vclock_ns() { return 0; }

	// Every block carries a header so that only blocks of the run itself are counted.
	static constexpr uint64_t MINE = 0x51a10c0de51a10c0ull, OTHER = 0x07e40c0de07e40c0ull;
	static void *do_new(size_t n, size_t al, bool nothrow) {
		bool mine = in_run && ni == 0;
		if (mine && cfg.alloc_den && faults_active()) {
			++ni;
			bool fail = chance(F, 1, cfg.alloc_den);
			if (fail) {
				fired(FAlloc);
				log("allocfail", n);
			}
			--ni;
			if (fail) {
				if (nothrow) return nullptr;
				throw std::bad_alloc();
			}
		}
		if (al < 16) al = 16;
		if (n > (size_t) 1 << 40) {
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		// layout: [pad .. tag(8) offset(8)] [user n]; n bytes end exactly at the end of the malloc block
		size_t hdr = al < 32 ? 16 : al;
		char *raw;
		if (al == 16) raw = (char *) malloc(n + hdr);
		else {
			void *p = nullptr;
			size_t tot = n + hdr;
			if (posix_memalign(&p, al, tot)) p = nullptr;
			raw = (char *) p;
		}
		if (!raw) {
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		char *u = raw + hdr;
		((uint64_t *) u)[-1] = hdr;
		((uint64_t *) u)[-2] = mine ? MINE : OTHER;
		if (mine) ++live;
		return u;
	}
	static void do_delete(void *p) {
		if (!p) return;
		auto *h = (uint64_t *) p;
		uint64_t tag = h[-2], hdr = h[-1];
		if (tag == MINE) --live;
		else if (tag != OTHER) violation("bad-free", "operator delete was given a pointer that operator new did not return");
		h[-2] = 0;
		free((char *) p - hdr);
	}
} // namespace sim

void *operator new(size_t n) { return sim::do_new(n, 16, false); }
void *operator new[](size_t n) { return sim::do_new(n, 16, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return sim::do_new(n, 16, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return sim::do_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a, false); }
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return sim::do_new(n, (size_t) a, true); }
void *operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return sim::do_new(n, (size_t) a, true); }
void operator delete(void *p) noexcept { sim::do_delete(p); }
void operator delete[](void *p) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { sim::do_delete(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { sim::do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, std::align_val_t, std::nothrow_t const &) noexcept { sim::do_delete(p); }
void operator delete[](void *p, std::align_val_t, std::nothrow_t const &) noexcept { sim::do_delete(p); }
