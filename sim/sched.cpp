// See sched.hpp.  Compiled without instrumentation.
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <utility>
#include <vector>

#define RT_API extern "C" __attribute__((visibility("default"), used))

namespace sim {
	bool want_no_aslr = true;
	SchedCfg cfg;
	static int noinstr = 0;
	void ni_enter() { ++noinstr; }
	void ni_leave() { --noinstr; }

	namespace {
		constexpr int MAXF = 16;
		constexpr size_t STACK = 256 * 1024;

		struct VC {
			uint32_t c[MAXF] = {};
			void join(VC const &o) {
				for (int i = 0; i < MAXF; ++i)
					if (o.c[i] > c[i]) c[i] = o.c[i];
			}
		};
		enum State { Unused, Ready, Blocked, Done };
		enum BlockKind { BNone, BMutex, BCond, BRd, BWr, BFutex, BSleep, BOnce };
		char const *const block_names[] = {"", "mutex", "cond", "rwlock-rd", "rwlock-wr", "futex", "sleep", "once"};

		struct EhGlobals {
			void *caught;
			unsigned int uncaught;
		};
		struct Fiber {
			State st = Unused;
			char name[24] = {};
			void *sp = nullptr;
			char *stack = nullptr;
			std::function<void()> fn;
			VC vc, acqPending, relFence;
			uint64_t scFloor = 0;
			EhGlobals eh{};
			int rt = 0, noinstr = 0, in_op = 0, susp = 0;
			BlockKind bk = BNone;
			void *bobj = nullptr;
			uint64_t deadline = 0; // virtual ns, 0 = none
			bool timed_out = false;
			bool woken = false;
			uint64_t last_run = 0;
			uint64_t stalled_until = 0;
			uint32_t prio = 0;
			int nlocks = 0;
		};
		Fiber F_[MAXF];
		int nf = 0;
		int cur = 0;
		bool active = false; // inside a run
		bool scheduling = false; // inside run_all
		int rt = 0;          // inside the runtime
		uint64_t steps = 0, stampctr = 0, vclk = 0, storeseq = 0;
		uint64_t vbase = 1'700'000'000ull * 1'000'000'000ull;

		struct Rt {
			Rt() { ++rt; }
			~Rt() { --rt; }
		};

		// ---- policies ----------------------------------------------------
		enum Pol { PRandom, PPct, PRoundish };
		Pol pol = PRandom;
		uint32_t switch_den = 4;
		std::vector<uint64_t> pct_points;
		uint32_t pct_low = 0;

		// ---- synchronisation objects -------------------------------------
		struct Mutex {
			int owner = -1;
			int rec = 0;
			VC rel;
			uint32_t id = 0;
		};
		struct RW {
			int writer = -1;
			int readers[MAXF] = {};
			int nreaders = 0;
			VC relw, relr;
			uint32_t id = 0;
		};
		struct Cond {
			std::vector<int> waiters;
			uint32_t id = 0;
		};
		struct Once {
			int state = 0; // 0 none 1 running 2 done
			VC rel;
		};
		struct Store {
			uint64_t val;
			int f;
			uint32_t clk;
			uint64_t seq;
			VC rel;
			bool hasrel;
		};
		struct Loc {
			std::vector<Store> st;
			uint32_t seen[MAXF] = {};
			uint8_t streak[MAXF] = {};
			uint8_t size = 0;
			uint32_t id = 0;
		};
		struct Rec {
			uint8_t f, mask, kind; // kind bit0 write, bit1 atomic
			uint32_t clk;
		};
		template<typename V> using Map = std::unordered_map<uintptr_t, V>;
		Map<Mutex> *mutexes;
		Map<RW> *rws;
		Map<Cond> *conds;
		Map<Once> *onces;
		Map<Loc> *locs;
		Map<std::vector<Rec>> *grans;
		Map<std::vector<int>> *futexq;
		uint32_t next_obj = 0;

		// ---- arena -------------------------------------------------------
		constexpr size_t ARENA = 192ull << 20;
		char *arena = nullptr;
		uint8_t *shadow = nullptr;
		size_t apos = 0;
		size_t live = 0;
		struct Hdr {
			uint64_t magic;
			uint64_t size;
		};
		constexpr uint64_t MAGIC = 0x51d5a11ca7ed0001ull, MAGIC_FREED = 0x51d5a11cf4eed002ull;

		bool in_arena(uintptr_t a) { return arena && a >= (uintptr_t) arena && a < (uintptr_t) arena + ARENA; }
		extern "C" char __data_start, _end;
		bool in_globals(uintptr_t a) { return a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end; }

		void arena_init() {
			if (arena) return;
			void *want = (void *) 0x200000000000ull;
			void *p = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) abort();
			arena = (char *) p;
			p = mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) abort();
			shadow = (uint8_t *) p;
		}
		void arena_reset() {
			arena_init();
			memset(shadow, 0, (apos >> 3) + 64);
			apos = 4096;
			live = 0;
		}
		void *arena_alloc(size_t n, size_t al) {
			if (al < 16) al = 16;
			size_t p = apos + 32;
			p = (p + al - 1) & ~(al - 1);
			if (p + n + 64 > ARENA) return nullptr;
			auto *h = (Hdr *) (arena + p - 16);
			h->magic = MAGIC;
			h->size = n;
			size_t g = p >> 3, full = n >> 3;
			memset(shadow + g, 8, full);
			if (n & 7) shadow[g + full] = (uint8_t) (n & 7);
			memset(arena + p, 0xA5, n);
			apos = p + ((n + 7) & ~size_t(7)) + 32;
			++live;
			return arena + p;
		}

		Fiber &C() { return F_[cur]; }
		bool simulating() { return active && rt == 0 && noinstr == 0; }
		uint32_t &clk() { return C().vc.c[cur]; }

		// ---- race detector ------------------------------------------------
		char const *kind_name(int k) {
			static char const *n[] = {"read", "write", "atomic read", "atomic write"};
			return n[k & 3];
		}
		void check_valid(uintptr_t a, size_t n, bool write) {
			if (!in_arena(a)) return;
			size_t off = a - (uintptr_t) arena;
			for (size_t i = off; i < off + n;) {
				uint8_t s = shadow[i >> 3];
				size_t inb = i & 7;
				size_t e = std::min<size_t>(8, inb + (off + n - i));
				if (s == 0xFD) violation("use-after-free", "%s of %zu bytes in freed memory by thread %s", write ? "write" : "read", n, C().name);
				if (e > s) violation("out-of-bounds", "%s of %zu bytes outside any live allocation by thread %s", write ? "write" : "read", n, C().name);
				i += e - inb;
			}
		}
		void race_check(uintptr_t a, size_t n, int kind) {
			uintptr_t end = a + n;
			for (uintptr_t g = a >> 3; (g << 3) < end; ++g) {
				uintptr_t gb = g << 3;
				unsigned lo = a > gb ? (unsigned) (a - gb) : 0, hi = end < gb + 8 ? (unsigned) (end - gb) : 8;
				uint8_t mask = (uint8_t) (((1u << hi) - 1) & ~((1u << lo) - 1));
				auto &v = (*grans)[g];
				bool merged = false;
				for (auto &r : v) {
					if (r.f == cur) {
						if (r.kind == kind && r.mask == mask) {
							r.clk = clk();
							merged = true;
						}
						continue;
					}
					if (!(r.mask & mask)) continue;
					if (!((r.kind | kind) & 1)) continue;
					if ((r.kind & 2) && (kind & 2)) continue;
					if (r.clk > C().vc.c[r.f])
						violation("data-race", "data race: %s of %zu bytes by thread %s is not ordered with an earlier %s by thread %s", kind_name(kind), n, C().name,
						          kind_name(r.kind), F_[r.f].name);
				}
				if (!merged) v.push_back({(uint8_t) cur, mask, (uint8_t) kind, clk()});
			}
		}
		bool own_stack(uintptr_t a) {
			if (cur == 0) return !in_arena(a) && !in_globals(a);
			return a >= (uintptr_t) C().stack && a < (uintptr_t) C().stack + STACK;
		}
	} // namespace

	// ---- switching -------------------------------------------------------
	extern "C" void sim_switch(void **save, void *to);
	asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

	namespace {
		void switch_to(int t) {
			if (t == cur) return;
			int from = cur;
			auto *g = (EhGlobals *) abi::__cxa_get_globals();
			F_[from].eh = *g;
			F_[from].rt = rt;
			F_[from].noinstr = noinstr;
			cur = t;
			*g = F_[t].eh;
			rt = F_[t].rt;
			noinstr = F_[t].noinstr;
			F_[t].last_run = steps;
			sim_switch(&F_[from].sp, F_[t].sp);
		}

		// Nothing is ready: jump to the next deadline. Threads that only poll, so that no operation ends however often the
		// clock is moved, are as stuck as blocked ones.
		uint32_t idle_jumps;
		bool jump_clock() {
			uint64_t best = 0;
			for (int i = 1; i < nf; ++i)
				if (F_[i].st == Blocked && F_[i].deadline && (!best || F_[i].deadline < best)) best = F_[i].deadline;
			if (!best || ++idle_jumps > 40 * (uint32_t) nf) return false;
			if (best > vclk) {
				add_simtime(best - vclk);
				vclk = best;
			}
			return true;
		}
		bool timers_fire() {
			bool any = false;
			for (int i = 1; i < nf; ++i)
				if (F_[i].st == Blocked && F_[i].deadline && F_[i].deadline <= vclk) {
					F_[i].timed_out = true;
					F_[i].deadline = 0;
					F_[i].st = Ready;
					any = true;
					log("timer", (uint64_t) i);
				}
			return any;
		}

		// pick the next fiber among the ready ones; -1 if none
		int pick_next(bool cur_ready, bool prefer_other) {
			int cand[MAXF], n = 0;
			if (cur_ready) cand[n++] = cur;
			for (int k = 1; k <= nf; ++k) {
				int i = (cur + k) % nf;
				if (i == 0 || i == cur) continue;
				if (F_[i].st == Ready) cand[n++] = i;
			}
			if (n == 0) return -1;
			if (n == 1) return cand[0];
			// forced fairness, not a decision: nobody ready waits forever
			for (int i = 0; i < n; ++i)
				if (cand[i] != cur && steps - F_[cand[i]].last_run > 3000) return cand[i];
			uint32_t v = 0;
			bool stalled_only = true;
			for (int i = 0; i < n; ++i)
				if (F_[cand[i]].stalled_until <= steps) stalled_only = false;
			if (!replaying()) {
				auto usable = [&](int i) { return stalled_only || F_[cand[i]].stalled_until <= steps; };
				if (pol == PRandom) {
					bool sw = !cur_ready || !usable(0) || prefer_other || policy_rnd(S) % switch_den == 0;
					if (sw) {
						uint32_t lo = cur_ready && (prefer_other || !usable(0)) ? 1 : 0;
						for (int tries = 0; tries < 8; ++tries) {
							v = lo + (uint32_t) (policy_rnd(S) % (uint32_t) (n - (int) lo));
							if (usable((int) v)) break;
						}
					}
				} else {
					if (!pct_points.empty() && pct_points.back() <= steps && cur_ready) {
						pct_points.pop_back();
						C().prio = pct_low ? --pct_low : 0;
					}
					if (prefer_other && cur_ready) C().prio = pct_low ? --pct_low : 0;
					int b = -1;
					for (int i = 0; i < n; ++i) {
						if (!usable(i)) continue;
						if (b < 0 || F_[cand[i]].prio > F_[cand[b]].prio) b = i;
					}
					v = (uint32_t) std::max(b, 0);
				}
			}
			if (prefer_other && cur_ready) { // default for an explicit yield is "somebody else"
				uint32_t enc = v == 0 ? (uint32_t) n - 1 : v - 1;
				enc = record(S, (uint32_t) n, enc);
				v = enc == (uint32_t) n - 1 ? 0 : enc + 1;
			} else v = record(S, (uint32_t) n, v);
			if (cur_ready && v != 0 && C().in_op) fired(FPreempt);
			return cand[v];
		}

		void maybe_env_faults() {
			if (cfg.spurious && C().in_op) {
				// only condvar waiters can wake spuriously
				int w[MAXF], n = 0;
				for (int i = 1; i < nf; ++i)
					if (F_[i].st == Blocked && F_[i].bk == BCond) w[n++] = i;
				if (n && chance(F, 1, 24)) {
					int i = w[choose(F, (uint32_t) n)];
					auto &q = (*conds)[(uintptr_t) F_[i].bobj].waiters;
					q.erase(std::remove(q.begin(), q.end(), i), q.end());
					F_[i].st = Ready;
					F_[i].deadline = 0;
					fired(FSpurious);
					log("spurious", (uint64_t) i);
				}
			}
			if (cfg.stalls && !C().stalled_until && C().in_op) {
				if (chance(F, 1, 60)) {
					uint32_t len = 50 + 50 * choose(F, 8);
					C().stalled_until = steps + len;
					fired(FStall);
					log("stall", (uint64_t) cur, len);
				}
			}
		}

		void tick() {
			++steps;
			vclk += 50;
			if (steps > cfg.step_budget) {
				char buf[400];
				int o = 0;
				for (int i = 1; i < nf && o < 350; ++i)
					o += snprintf(buf + o, sizeof buf - (size_t) o, " %s=%s%s", F_[i].name, F_[i].st == Ready ? "running" : F_[i].st == Done ? "done" : "blocked:",
					              F_[i].st == Blocked ? block_names[F_[i].bk] : "");
				violation("livelock", "no completion within %u scheduling steps:%s", cfg.step_budget, buf);
			}
		}

		// a preemption point of the running fiber
		void yield_point(bool prefer_other = false) {
			if (!scheduling || cur == 0) return;
			tick();
			timers_fire();
			maybe_env_faults();
			int t = pick_next(true, prefer_other);
			if (t != cur) {
				log("sw", (uint64_t) cur, (uint64_t) t);
				switch_to(t);
			}
		}
		// the running fiber cannot continue
		void block(BlockKind k, void *obj, uint64_t deadline) {
			Fiber &f = C();
			f.bk = k;
			f.bobj = obj;
			f.deadline = deadline;
			f.timed_out = false;
			if (cur == 0) {
				violation("deadlock", "the main thread blocks forever on a %s", block_names[k]);
			}
			f.st = Blocked;
			log("block", (uint64_t) cur, (uint64_t) k);
			tick();
			for (;;) {
				timers_fire();
				int t = pick_next(false, false);
				if (t >= 0) {
					if (t != cur) switch_to(t);
					break;
				}
				// nothing ready: jump to the next deadline, else everything is stuck
				if (jump_clock()) continue;
				switch_to(0); // run_all() returns Stuck; a later run_all() may resume us
				break;
			}
			f.bk = BNone;
			f.bobj = nullptr;
		}
		void wake_all(BlockKind a, BlockKind b, void *obj) {
			for (int i = 1; i < nf; ++i)
				if (F_[i].st == Blocked && F_[i].bobj == obj && (F_[i].bk == a || F_[i].bk == b)) {
					F_[i].st = Ready;
					F_[i].last_run = steps;
				}
		}

		extern "C" void sim_fiber_main() {
			Fiber &f = C();
			rt = 0;
			noinstr = 0;
			try {
				f.fn();
			} catch (std::exception const &e) {
				violation("uncaught", "exception escaped thread %s: %s", f.name, e.what());
			} catch (...) {
				violation("uncaught", "exception escaped thread %s", f.name);
			}
			++rt;
			f.st = Done;
			log("done", (uint64_t) cur);
			for (;;) {
				timers_fire();
				int t = pick_next(false, false);
				if (t >= 0) {
					switch_to(t);
				} else {
					if (jump_clock()) continue;
					switch_to(0);
				}
			}
		}

		void before_run() {
			Rt g;
			if (!mutexes) {
				mutexes = new Map<Mutex>;
				rws = new Map<RW>;
				conds = new Map<Cond>;
				onces = new Map<Once>;
				locs = new Map<Loc>;
				grans = new Map<std::vector<Rec>>;
				futexq = new Map<std::vector<int>>;
			}
			__libc_single_threaded = 0;
			mutexes->clear();
			rws->clear();
			conds->clear();
			onces->clear(); // which run of a process happens to execute a once must not matter
			locs->clear();
			grans->clear();
			futexq->clear();
			next_obj = 0;
			for (int i = 0; i < MAXF; ++i) {
				char *st = F_[i].stack;
				F_[i] = Fiber{};
				F_[i].stack = st;
			}
			nf = 1;
			cur = 0;
			F_[0].st = Ready;
			strcpy(F_[0].name, "main");
			F_[0].vc.c[0] = 1;
			steps = stampctr = vclk = storeseq = 0;
			cfg = SchedCfg{};
			pol = PRandom;
			switch_den = 4;
			pct_points.clear();
			arena_reset();
			active = true;
			scheduling = false;
			noinstr = 0;
		}
		void after_run() {
			Rt g;
			active = false;
			add_steps(steps);
			add_simtime(steps * 50);
		}
		struct Init {
			Init() {
				try { // the unwinder's one-time initialisation happens before any run
					throw 1;
				} catch (int) {
				}
				flavour_before = before_run;
				flavour_after = after_run;
			}
		} init_;
	} // namespace

	int spawn(char const *name, std::function<void()> fn) {
		Rt g;
		if (nf >= MAXF) violation("harness", "too many threads");
		int id = nf++;
		Fiber &f = F_[id];
		if (!f.stack) {
			void *p = mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) abort();
			mprotect(p, 4096, PROT_NONE);
			f.stack = (char *) p + 4096;
		}
		snprintf(f.name, sizeof f.name, "%s", name);
		f.fn = std::move(fn);
		f.vc = F_[0].vc;
		f.vc.c[id] = 1;
		F_[0].vc.c[0]++;
		f.prio = 1000000 + (uint32_t) (policy_rnd(S) % 1000000);
		f.last_run = steps;
		auto *sp = (uint64_t *) (f.stack + STACK - 64);
		*--sp = 0; // fake return address / alignment
		*--sp = (uint64_t) &sim_fiber_main;
		for (int i = 0; i < 6; ++i) *--sp = 0;
		f.sp = sp;
		f.st = Ready;
		return id;
	}

	Quiesce run_all() {
		Rt g;
		scheduling = true;
		idle_jumps = 0;
		for (int i = 1; i < nf; ++i) F_[i].last_run = steps;
		int t = pick_next(false, false);
		if (t < 0) { // maybe only sleepers
			if (jump_clock()) {
				timers_fire();
				t = pick_next(false, false);
			}
		}
		if (t > 0) switch_to(t);
		scheduling = false;
		bool all = true;
		for (int i = 1; i < nf; ++i) {
			if (F_[i].st != Done) all = false;
			F_[0].vc.join(F_[i].vc);
		}
		F_[0].vc.c[0]++;
		log(all ? "alldone" : "stuck");
		return all ? Quiesce::AllDone : Quiesce::Stuck;
	}
	bool fiber_done(int id) { return F_[id].st == Done; }
	char const *fiber_blocked_on(int id) { return F_[id].st == Blocked ? block_names[F_[id].bk] : ""; }
	int self() { return cur; }
	void yield() {
		if (!simulating()) return;
		Rt g;
		yield_point();
	}
	uint64_t stamp() { return ++stampctr; }
	size_t live_blocks() { return live; }
	bool holds_any_lock() { return C().nlocks > 0; }
	void op_enter() { C().in_op++; }
	void op_leave() {
		C().in_op--;
		idle_jumps = 0;
	}
	void suspend_faults() { C().susp++; }
	void resume_faults() { C().susp--; }
	bool faults_active() { return active && C().in_op > 0 && C().susp == 0; }
	uint64_t vclock_ns() { return vclk; }

	void swarm_cfg(bool allow_stale) {
		Rt g;
		cfg.spurious = chance(W, 1, 2);
		cfg.wake_reorder = chance(W, 2, 3);
		cfg.weak_cas = chance(W, 1, 2);
		cfg.plain_yield = chance(W, 1, 5);
		cfg.stalls = chance(W, 1, 5);
		cfg.stale = allow_stale && chance(W, 1, 3);
		uint32_t p = pick(W, {5, 4, 1});
		if (!replaying()) {
			if (p == 1) {
				pol = PPct;
				uint32_t d = 1 + (uint32_t) (policy_rnd(S) % 4);
				uint32_t k = (uint32_t[]) {60, 150, 400, 1000}[policy_rnd(S) % 4];
				for (uint32_t i = 0; i < d; ++i) pct_points.push_back(1 + policy_rnd(S) % k);
				pct_low = 1000;
				std::sort(pct_points.rbegin(), pct_points.rend());
			} else {
				pol = PRandom;
				switch_den = p == 2 ? 60 : (uint32_t[]) {1, 2, 3, 5, 10, 25}[policy_rnd(S) % 6];
			}
		}
		log("cfg", (uint64_t) cfg.spurious | (uint64_t) cfg.wake_reorder << 1 | (uint64_t) cfg.weak_cas << 2 | (uint64_t) cfg.plain_yield << 3 | (uint64_t) cfg.stalls << 4 |
		                   (uint64_t) cfg.stale << 5);
	}

	namespace {
		// ================= memory accesses =================================
		void access(uintptr_t a, size_t n, int kind) {
			if (!active || rt || noinstr) return;
			if (own_stack(a)) return;
			bool ar = in_arena(a);
			if (!ar && !in_globals(a)) return;
			Rt g;
			if (ar) check_valid(a, n, kind & 1);
			if (!(kind & 2) && !locs->empty() && (kind & 1)) {
				for (uintptr_t x = a & ~uintptr_t(7); x < a + n; x += 1)
					if (x >= a) locs->erase(x);
			}
			if (!(kind & 2) && cfg.plain_yield) yield_point();
			race_check(a, n, kind);
			if (!(kind & 2) && scheduling && cur != 0 && !cfg.plain_yield) {
				// plain accesses still count, so that a spinning plain loop ends
				++steps;
				if (steps > cfg.step_budget) tick();
				if ((steps & 1023) == 0) yield_point();
			}
		}

		Loc &loc_of(uintptr_t a, size_t n, uint64_t curval) {
			auto &l = (*locs)[a];
			if (l.st.empty() || l.size != n) {
				l.st.clear();
				memset(l.seen, 0, sizeof l.seen);
				l.size = (uint8_t) n;
				if (!l.id) l.id = ++next_obj;
				l.st.push_back({curval, -1, 0, storeseq, VC{}, false});
			}
			return l;
		}
		bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
		bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
		void sc_point() { C().scFloor = storeseq; }

		void acquire_from(Store const &s, int mo) {
			if (!s.hasrel) return;
			if (is_acq(mo)) C().vc.join(s.rel);
			else C().acqPending.join(s.rel);
		}
		void add_store(Loc &l, uint64_t val, int mo, Store const *prev /*rmw*/) {
			Store s{val, cur, clk(), ++storeseq, VC{}, false};
			if (is_rel(mo)) {
				s.rel = C().vc;
				s.hasrel = true;
			} else {
				s.rel = C().relFence;
				s.hasrel = true;
			}
			if (prev && prev->hasrel) {
				s.rel.join(prev->rel);
				s.hasrel = true;
			}
			if (is_rel(mo)) clk()++;
			if (l.st.size() > 24) { // bounded history: the oldest become invisible
				l.st.erase(l.st.begin());
				for (auto &x : l.seen)
					if (x) --x;
			}
			l.st.push_back(s);
			l.seen[cur] = (uint32_t) l.st.size() - 1;
			l.streak[cur] = 0;
		}
	} // namespace

	// Atomic primitives used by the tsan entry points
	namespace {
		template<typename T> uint64_t bits(T v) {
			uint64_t r = 0;
			memcpy(&r, &v, sizeof(T));
			return r;
		}
		template<typename T> T unbits(uint64_t v) {
			T r;
			memcpy(&r, &v, sizeof(T));
			return r;
		}
		template<typename T> T a_load(T volatile *p, int mo) {
			auto a = (uintptr_t) p;
			if (!active || rt || noinstr) return *p;
			Rt g;
			yield_point();
			if (in_arena(a)) check_valid(a, sizeof(T), false);
			if (!own_stack(a)) race_check(a, sizeof(T), 2);
			if (mo == __ATOMIC_SEQ_CST) sc_point();
			Loc &l = loc_of(a, sizeof(T), bits<T>(*p));
			uint32_t last = (uint32_t) l.st.size() - 1, idx = last;
			if (cfg.stale && mo != __ATOMIC_SEQ_CST && scheduling && last > 0) {
				uint32_t lo = l.seen[cur];
				for (uint32_t i = last; i > lo; --i) {
					auto &s = l.st[i];
					bool hb = s.f < 0 || s.f == cur || s.clk <= C().vc.c[s.f];
					if (hb || s.seq <= C().scFloor) {
						lo = i;
						break;
					}
				}
				if (lo < last && l.streak[cur] < 6 && chance(F, 1, 3)) {
					idx = lo + choose(F, last - lo);
					l.streak[cur]++;
					fired(FStale);
				} else l.streak[cur] = 0;
			}
			l.seen[cur] = std::max(l.seen[cur], idx);
			acquire_from(l.st[idx], mo);
			log("ld", (uint64_t) cur, l.id, l.st[idx].val);
			return unbits<T>(l.st[idx].val);
		}
		template<typename T> void a_store(T volatile *p, T v, int mo) {
			auto a = (uintptr_t) p;
			if (!active || rt || noinstr) {
				*p = v;
				return;
			}
			Rt g;
			yield_point();
			if (in_arena(a)) check_valid(a, sizeof(T), true);
			if (!own_stack(a)) race_check(a, sizeof(T), 3);
			Loc &l = loc_of(a, sizeof(T), bits<T>(*p));
			*p = v;
			add_store(l, bits<T>(v), mo, nullptr);
			if (mo == __ATOMIC_SEQ_CST) sc_point();
			log("st", (uint64_t) cur, l.id, bits<T>(v));
			yield_point();
		}
		template<typename T, typename Fn> T a_rmw(T volatile *p, int mo, Fn fn) {
			auto a = (uintptr_t) p;
			if (!active || rt || noinstr) {
				T o = *p;
				*p = fn(o);
				return o;
			}
			Rt g;
			yield_point();
			if (in_arena(a)) check_valid(a, sizeof(T), true);
			if (!own_stack(a)) race_check(a, sizeof(T), 3);
			Loc &l = loc_of(a, sizeof(T), bits<T>(*p));
			T o = *p;
			T nv = fn(o);
			Store prev = l.st.back();
			acquire_from(prev, mo);
			*p = nv;
			add_store(l, bits<T>(nv), mo, &prev);
			if (mo == __ATOMIC_SEQ_CST) sc_point();
			log("rmw", (uint64_t) cur, l.id, bits<T>(nv));
			yield_point();
			return o;
		}
		template<typename T> bool a_cas(T volatile *p, T *exp, T des, int mo, int fmo, bool weak) {
			auto a = (uintptr_t) p;
			if (!active || rt || noinstr) {
				if (*p == *exp) {
					*p = des;
					return true;
				}
				*exp = *p;
				return false;
			}
			Rt g;
			yield_point();
			if (in_arena(a)) check_valid(a, sizeof(T), true);
			if (!own_stack(a)) race_check(a, sizeof(T), 3);
			Loc &l = loc_of(a, sizeof(T), bits<T>(*p));
			T o = *p;
			bool ok = memcmp((void *) &o, exp, sizeof(T)) == 0;
			if (ok && weak && cfg.weak_cas && scheduling && cur != 0 && chance(F, 1, 6)) {
				fired(FWeakCas);
				ok = false;
			}
			if (ok) {
				Store prev = l.st.back();
				acquire_from(prev, mo);
				*p = des;
				add_store(l, bits<T>(des), mo, &prev);
				if (mo == __ATOMIC_SEQ_CST) sc_point();
			} else {
				acquire_from(l.st.back(), fmo);
				l.seen[cur] = (uint32_t) l.st.size() - 1;
				memcpy(exp, &o, sizeof(T));
				if (fmo == __ATOMIC_SEQ_CST) sc_point();
			}
			log(ok ? "cas" : "casf", (uint64_t) cur, l.id, bits<T>(*(T *) p));
			yield_point();
			return ok;
		}
	} // namespace

	// ================= locks ============================================
	namespace {
		// a lock operation touches the object's memory (so freeing it concurrently is a race)
		void touch(void *p) {
			auto a = (uintptr_t) p;
			if (in_arena(a)) check_valid(a, 8, true);
			if (!own_stack(a)) race_check(a, 8, 3);
		}
		uint32_t id_of(uint32_t &id) {
			if (!id) id = ++next_obj;
			return id;
		}
		uint64_t ts_ns(timespec const *t) { return (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec; }
		uint64_t dl(timespec const *t) {
			uint64_t x = ts_ns(t);
			uint64_t r = x > vbase ? x - vbase : 1;
			return r ? r : 1;
		}
		void take(Mutex &m) {
			m.owner = cur;
			m.rec = 1;
			C().vc.join(m.rel);
			C().nlocks++;
		}
		int m_lock(pthread_mutex_t *pm, uint64_t deadline, bool inject) {
			auto &m = (*mutexes)[(uintptr_t) pm];
			id_of(m.id);
			yield_point();
			touch(pm);
			int kind = pm->__data.__kind & 3;
			if (m.owner == cur && kind == PTHREAD_MUTEX_RECURSIVE_NP) {
				m.rec++;
				return 0;
			}
			if (m.owner == cur && kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
			if (inject && cfg.lockerr_den && faults_active() && chance(F, 1, cfg.lockerr_den)) {
				fired(FLockErr);
				log("lockerr", (uint64_t) cur, m.id);
				return EAGAIN;
			}
			while ((*mutexes)[(uintptr_t) pm].owner != -1) {
				block(BMutex, pm, deadline);
				if (C().timed_out && (*mutexes)[(uintptr_t) pm].owner != -1) return ETIMEDOUT;
			}
			auto &m2 = (*mutexes)[(uintptr_t) pm];
			take(m2);
			log("lock", (uint64_t) cur, m2.id);
			return 0;
		}
		int m_trylock(pthread_mutex_t *pm) {
			auto &m = (*mutexes)[(uintptr_t) pm];
			id_of(m.id);
			yield_point();
			touch(pm);
			auto &m2 = (*mutexes)[(uintptr_t) pm];
			if (m2.owner == cur && (pm->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
				m2.rec++;
				return 0;
			}
			if (m2.owner != -1) return EBUSY;
			if (cfg.trylock_den && faults_active() && chance(F, 1, cfg.trylock_den)) {
				fired(FTryLock);
				return EBUSY;
			}
			take(m2);
			log("trylock", (uint64_t) cur, m2.id);
			return 0;
		}
		int m_unlock(pthread_mutex_t *pm) {
			auto &m = (*mutexes)[(uintptr_t) pm];
			id_of(m.id);
			touch(pm);
			if (m.owner != cur) violation("bad-unlock", "thread %s unlocks a mutex it does not own (owner %d)", C().name, m.owner);
			if (--m.rec == 0) {
				m.owner = -1;
				m.rel.join(C().vc);
				clk()++;
				C().nlocks--;
				log("unlock", (uint64_t) cur, m.id);
				wake_all(BMutex, BMutex, pm);
				yield_point();
			}
			return 0;
		}
		int c_wait(pthread_cond_t *pc, pthread_mutex_t *pm, uint64_t deadline) {
			auto &m = (*mutexes)[(uintptr_t) pm];
			if (m.owner != cur) violation("bad-wait", "thread %s waits on a condition variable without owning the mutex", C().name);
			yield_point();
			touch(pc);
			auto &c = (*conds)[(uintptr_t) pc];
			id_of(c.id);
			c.waiters.push_back(cur);
			log("wait", (uint64_t) cur, c.id);
			auto &m1 = (*mutexes)[(uintptr_t) pm];
			int rec = m1.rec;
			m1.owner = -1;
			m1.rec = 0;
			m1.rel.join(C().vc);
			clk()++;
			C().nlocks--;
			wake_all(BMutex, BMutex, pm);
			block(BCond, pc, deadline);
			bool to = C().timed_out;
			if (to) {
				auto &q = (*conds)[(uintptr_t) pc].waiters;
				q.erase(std::remove(q.begin(), q.end(), cur), q.end());
			}
			while ((*mutexes)[(uintptr_t) pm].owner != -1) block(BMutex, pm, 0);
			auto &m2 = (*mutexes)[(uintptr_t) pm];
			take(m2);
			m2.rec = rec;
			log("woke", (uint64_t) cur, m2.id);
			return to ? ETIMEDOUT : 0;
		}
		void c_notify(pthread_cond_t *pc, bool all) {
			yield_point();
			touch(pc);
			auto &c = (*conds)[(uintptr_t) pc];
			id_of(c.id);
			log(all ? "notify_all" : "notify_one", (uint64_t) cur, c.id, c.waiters.size());
			while (!c.waiters.empty()) {
				size_t k = 0;
				if (!all && cfg.wake_reorder && c.waiters.size() > 1) {
					k = choose(S, (uint32_t) c.waiters.size());
					if (k) fired(FWakeReorder);
				}
				int w = c.waiters[k];
				c.waiters.erase(c.waiters.begin() + (long) k);
				F_[w].st = Ready;
				F_[w].deadline = 0;
				F_[w].last_run = steps;
				if (!all) break;
			}
			yield_point();
		}
		bool rw_can_rd(RW &r) { return r.writer == -1; }
		bool rw_can_wr(RW &r) { return r.writer == -1 && r.nreaders == 0; }
		int rw_lock(pthread_rwlock_t *p, bool wr, bool tr, uint64_t deadline) {
			id_of((*rws)[(uintptr_t) p].id);
			yield_point();
			touch(p);
			{
				auto &r = (*rws)[(uintptr_t) p];
				if (!tr && (r.writer == cur || (wr && r.readers[cur] > 0))) return EDEADLK; // glibc reports this
			}
			if (!tr && cfg.lockerr_den && faults_active() && chance(F, 1, cfg.lockerr_den)) {
				fired(FLockErr);
				// what a real rwlock can report; libstdc++ retries EAGAIN on rdlock itself
				if (wr) return EDEADLK;
				return EDEADLK;
			}
			for (;;) {
				auto &r = (*rws)[(uintptr_t) p];
				bool ok = wr ? rw_can_wr(r) : rw_can_rd(r);
				if (ok && tr && cfg.trylock_den && faults_active() && chance(F, 1, cfg.trylock_den)) {
					fired(FTryLock);
					ok = false;
				}
				if (ok) {
					if (wr) {
						r.writer = cur;
						C().vc.join(r.relw);
						C().vc.join(r.relr);
					} else {
						r.readers[cur]++;
						r.nreaders++;
						C().vc.join(r.relw);
					}
					C().nlocks++;
					log(wr ? "wrlock" : "rdlock", (uint64_t) cur, r.id);
					return 0;
				}
				if (tr) return EBUSY;
				block(wr ? BWr : BRd, p, deadline);
				if (C().timed_out) {
					auto &r2 = (*rws)[(uintptr_t) p];
					if (!(wr ? rw_can_wr(r2) : rw_can_rd(r2))) return ETIMEDOUT;
				}
			}
		}
		int rw_unlock(pthread_rwlock_t *p) {
			touch(p);
			auto &r = (*rws)[(uintptr_t) p];
			id_of(r.id);
			if (r.writer == cur) {
				r.writer = -1;
				r.relw.join(C().vc);
			} else if (r.readers[cur] > 0) {
				r.readers[cur]--;
				r.nreaders--;
				r.relr.join(C().vc);
			} else violation("bad-unlock", "thread %s unlocks a reader/writer lock it does not hold", C().name);
			clk()++;
			C().nlocks--;
			log("rwunlock", (uint64_t) cur, r.id);
			wake_all(BRd, BWr, p);
			yield_point();
			return 0;
		}
		template<typename Fn> Fn real(char const *n) {
			return (Fn) dlsym(RTLD_NEXT, n);
		}
		long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
			long r;
			register long r10 asm("r10") = d;
			register long r8 asm("r8") = e;
			register long r9 asm("r9") = f;
			asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
			if (r < 0 && r > -4096) {
				errno = (int) -r;
				return -1;
			}
			return r;
		}
		bool on() { return simulating(); }
	} // namespace
} // namespace sim

using namespace sim;

#define PASS(ret, name, types, args) \
	static auto fn = real<ret(*) types>(#name); \
	return fn args

RT_API int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
	if (on()) { Rt g; return m_lock(m, 0, true); }
	PASS(int, pthread_mutex_lock, (pthread_mutex_t *), (m));
}
RT_API int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
	if (on()) { Rt g; return m_trylock(m); }
	PASS(int, pthread_mutex_trylock, (pthread_mutex_t *), (m));
}
RT_API int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
	if (on()) { Rt g; return m_unlock(m); }
	PASS(int, pthread_mutex_unlock, (pthread_mutex_t *), (m));
}
RT_API int pthread_mutex_timedlock(pthread_mutex_t *m, timespec const *t) noexcept {
	if (on()) { Rt g; return m_lock(m, dl(t), false); }
	PASS(int, pthread_mutex_timedlock, (pthread_mutex_t *, timespec const *), (m, t));
}
RT_API int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, timespec const *t) noexcept {
	if (on()) { Rt g; return m_lock(m, dl(t), false); }
	PASS(int, pthread_mutex_clocklock, (pthread_mutex_t *, clockid_t, timespec const *), (m, c, t));
}
RT_API int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a) noexcept {
	if (on()) { Rt g; mutexes->erase((uintptr_t) m); }
	PASS(int, pthread_mutex_init, (pthread_mutex_t *, pthread_mutexattr_t const *), (m, a));
}
RT_API int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
	if (on()) {
		Rt g;
		auto it = mutexes->find((uintptr_t) m);
		if (it != mutexes->end()) {
			if (it->second.owner != -1) violation("destroy-locked", "mutex destroyed while locked by thread %d", it->second.owner);
			mutexes->erase(it);
		}
		return 0;
	}
	PASS(int, pthread_mutex_destroy, (pthread_mutex_t *), (m));
}
RT_API int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (on()) { Rt g; return c_wait(c, m, 0); }
	PASS(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *), (c, m));
}
RT_API int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *t) {
	if (on()) { Rt g; return c_wait(c, m, dl(t)); }
	PASS(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, timespec const *), (c, m, t));
}
RT_API int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, timespec const *t) {
	if (on()) { Rt g; return c_wait(c, m, dl(t)); }
	PASS(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, timespec const *), (c, m, k, t));
}
RT_API int pthread_cond_signal(pthread_cond_t *c) noexcept {
	if (on()) { Rt g; c_notify(c, false); return 0; }
	PASS(int, pthread_cond_signal, (pthread_cond_t *), (c));
}
RT_API int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
	if (on()) { Rt g; c_notify(c, true); return 0; }
	PASS(int, pthread_cond_broadcast, (pthread_cond_t *), (c));
}
RT_API int pthread_cond_destroy(pthread_cond_t *c) noexcept {
	if (on()) {
		Rt g;
		auto it = conds->find((uintptr_t) c);
		if (it != conds->end()) {
			if (!it->second.waiters.empty()) violation("destroy-waited", "condition variable destroyed while a thread waits on it");
			conds->erase(it);
		}
		return 0;
	}
	PASS(int, pthread_cond_destroy, (pthread_cond_t *), (c));
}
RT_API int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *a) noexcept {
	if (on()) { Rt g; conds->erase((uintptr_t) c); }
	PASS(int, pthread_cond_init, (pthread_cond_t *, pthread_condattr_t const *), (c, a));
}
RT_API int pthread_rwlock_rdlock(pthread_rwlock_t *p) noexcept {
	if (on()) { Rt g; return rw_lock(p, false, false, 0); }
	PASS(int, pthread_rwlock_rdlock, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_wrlock(pthread_rwlock_t *p) noexcept {
	if (on()) { Rt g; return rw_lock(p, true, false, 0); }
	PASS(int, pthread_rwlock_wrlock, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_tryrdlock(pthread_rwlock_t *p) noexcept {
	if (on()) { Rt g; return rw_lock(p, false, true, 0); }
	PASS(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_trywrlock(pthread_rwlock_t *p) noexcept {
	if (on()) { Rt g; return rw_lock(p, true, true, 0); }
	PASS(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_timedrdlock(pthread_rwlock_t *p, timespec const *t) noexcept {
	if (on()) { Rt g; return rw_lock(p, false, false, dl(t)); }
	PASS(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t *, timespec const *), (p, t));
}
RT_API int pthread_rwlock_timedwrlock(pthread_rwlock_t *p, timespec const *t) noexcept {
	if (on()) { Rt g; return rw_lock(p, true, false, dl(t)); }
	PASS(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t *, timespec const *), (p, t));
}
RT_API int pthread_rwlock_clockrdlock(pthread_rwlock_t *p, clockid_t c, timespec const *t) noexcept {
	if (on()) { Rt g; return rw_lock(p, false, false, dl(t)); }
	PASS(int, pthread_rwlock_clockrdlock, (pthread_rwlock_t *, clockid_t, timespec const *), (p, c, t));
}
RT_API int pthread_rwlock_clockwrlock(pthread_rwlock_t *p, clockid_t c, timespec const *t) noexcept {
	if (on()) { Rt g; return rw_lock(p, true, false, dl(t)); }
	PASS(int, pthread_rwlock_clockwrlock, (pthread_rwlock_t *, clockid_t, timespec const *), (p, c, t));
}
RT_API int pthread_rwlock_unlock(pthread_rwlock_t *p) noexcept {
	if (on()) { Rt g; return rw_unlock(p); }
	PASS(int, pthread_rwlock_unlock, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_destroy(pthread_rwlock_t *p) noexcept {
	if (on()) {
		Rt g;
		auto it = rws->find((uintptr_t) p);
		if (it != rws->end()) {
			if (it->second.writer != -1 || it->second.nreaders) violation("destroy-locked", "reader/writer lock destroyed while held");
			rws->erase(it);
		}
		return 0;
	}
	PASS(int, pthread_rwlock_destroy, (pthread_rwlock_t *), (p));
}
RT_API int pthread_rwlock_init(pthread_rwlock_t *p, pthread_rwlockattr_t const *a) noexcept {
	if (on()) { Rt g; rws->erase((uintptr_t) p); }
	PASS(int, pthread_rwlock_init, (pthread_rwlock_t *, pthread_rwlockattr_t const *), (p, a));
}
RT_API int sched_yield() noexcept {
	if (on()) { Rt g; yield_point(true); return 0; }
	return (int) raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
RT_API int nanosleep(timespec const *t, timespec *rem) {
	if (on() && scheduling && cur != 0) {
		Rt g;
		block(BSleep, nullptr, vclk + ts_ns(t) + 1);
		return 0;
	}
	return (int) raw_syscall(SYS_nanosleep, (long) t, (long) rem, 0, 0, 0, 0);
}
RT_API int clock_nanosleep(clockid_t c, int flags, timespec const *t, timespec *rem) {
	if (on() && scheduling && cur != 0) {
		Rt g;
		block(BSleep, nullptr, (flags & TIMER_ABSTIME) ? dl(t) : vclk + ts_ns(t) + 1);
		return 0;
	}
	return (int) raw_syscall(SYS_clock_nanosleep, c, flags, (long) t, (long) rem, 0, 0);
}
RT_API int clock_gettime(clockid_t c, timespec *t) noexcept {
	if (on()) {
		uint64_t n = vbase + vclk;
		t->tv_sec = (time_t) (n / 1000000000ull);
		t->tv_nsec = (long) (n % 1000000000ull);
		return 0;
	}
	return (int) raw_syscall(SYS_clock_gettime, c, (long) t, 0, 0, 0, 0);
}
RT_API pthread_t pthread_self() noexcept {
	if (on()) return (pthread_t) (0x1000 + cur);
	PASS(pthread_t, pthread_self, (), ());
}
RT_API long syscall(long n, ...) noexcept {
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (long &x : a) x = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_futex && on()) {
		Rt g;
		int op = (int) a[1] & FUTEX_CMD_MASK;
		auto *addr = (uint32_t *) a[0];
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			yield_point();
			if (*addr != (uint32_t) a[2]) {
				errno = EAGAIN;
				return -1;
			}
			uint64_t d = 0;
			if (a[3]) d = op == FUTEX_WAIT ? vclk + ts_ns((timespec *) a[3]) + 1 : dl((timespec *) a[3]);
			block(BFutex, addr, d);
			if (C().timed_out) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			yield_point();
			int n2 = 0, maxn = (int) a[2];
			for (int k = 1; k < nf && n2 < maxn; ++k)
				if (F_[k].st == Blocked && F_[k].bk == BFutex && F_[k].bobj == addr) {
					F_[k].st = Ready;
					F_[k].deadline = 0;
					++n2;
				}
			yield_point();
			return n2;
		}
	}
	return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
// function-local statics and call_once: never hold the real lock across a switch
RT_API int __cxa_guard_acquire(long long *gd) {
	auto *b = (volatile char *) gd;
	if (*b) return 0;
	if (!on()) {
		if (b[1]) abort();
		b[1] = 1;
		return 1;
	}
	Rt g;
	yield_point();
	while (b[1]) block(BOnce, gd, 0);
	if (*b) return 0;
	b[1] = 1;
	return 1;
}
RT_API void __cxa_guard_release(long long *gd) {
	auto *b = (volatile char *) gd;
	b[1] = 0;
	*b = 1;
	if (on()) { Rt g; wake_all(BOnce, BOnce, gd); }
}
RT_API void __cxa_guard_abort(long long *gd) {
	auto *b = (volatile char *) gd;
	b[1] = 0;
	if (on()) { Rt g; wake_all(BOnce, BOnce, gd); }
}
RT_API int pthread_once(pthread_once_t *o, void (*fn)()) {
	if (!on()) {
		if (*o == 2) return 0;
		*o = 1;
		fn();
		*o = 2;
		return 0;
	}
	{
		Rt g;
		yield_point();
		while (*o == 1) block(BOnce, o, 0);
		if (*o == 2) {
			C().vc.join((*onces)[(uintptr_t) o].rel);
			return 0;
		}
		*o = 1;
	}
	try {
		fn();
	} catch (...) {
		Rt g;
		*o = 0;
		wake_all(BOnce, BOnce, o);
		throw;
	}
	Rt g;
	*o = 2;
	(*onces)[(uintptr_t) o].rel = C().vc;
	clk()++;
	wake_all(BOnce, BOnce, o);
	return 0;
}

// ================= allocation ===========================================
static void *do_new(size_t n, size_t al, bool nothrow) {
	if (simulating()) {
		Rt g;
		if (cfg.alloc_den && faults_active() && chance(sim::F, 1, cfg.alloc_den)) {
			fired(FAlloc);
			log("allocfail", n);
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		void *p = arena_alloc(n, al);
		if (!p) {
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		return p;
	}
	void *p = nullptr;
	if (al > 16) {
		if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
	} else p = malloc(n ? n : 1);
	if (!p && !nothrow) throw std::bad_alloc();
	return p;
}
static void do_delete(void *p) {
	if (!p) return;
	auto a = (uintptr_t) p;
	if (!in_arena(a)) {
		if (simulating() && ((own_stack(a) && cur != 0) || in_globals(a))) violation("bad-free", "delete of memory that was not allocated with new");
		free(p);
		return;
	}
	Rt g;
	auto *h = (Hdr *) ((char *) p - 16);
	if (h->magic == MAGIC_FREED) violation("double-free", "double free by thread %s", C().name);
	if (h->magic != MAGIC) violation("bad-free", "free of a pointer that is not the start of an allocation");
	size_t n = h->size;
	if (active && n) race_check(a, n, 1);
	h->magic = MAGIC_FREED;
	size_t off = a - (uintptr_t) arena;
	memset(shadow + (off >> 3), 0xFD, (n + 7) >> 3);
	memset(p, 0xDD, n);
	--live;
}
void *operator new(size_t n) { return do_new(n, 16, false); }
void *operator new[](size_t n) { return do_new(n, 16, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t) a, false); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t) a, false); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { do_delete(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { do_delete(p); }

// ================= instrumentation entry points ==========================
RT_API void __tsan_init() {}
RT_API void __tsan_func_entry(void *) {}
RT_API void __tsan_func_exit() {}
#define ACC(N)                                                                                     \
	RT_API void __tsan_read##N(void *p) { access((uintptr_t) p, N, 0); }                            \
	RT_API void __tsan_write##N(void *p) { access((uintptr_t) p, N, 1); }                           \
	RT_API void __tsan_volatile_read##N(void *p) { access((uintptr_t) p, N, 0); }                   \
	RT_API void __tsan_volatile_write##N(void *p) { access((uintptr_t) p, N, 1); }                  \
	RT_API void __tsan_unaligned_read##N(void *p) { access((uintptr_t) p, N, 0); }                  \
	RT_API void __tsan_unaligned_write##N(void *p) { access((uintptr_t) p, N, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
RT_API void __tsan_read_range(void *p, size_t n) { if (n) access((uintptr_t) p, n, 0); }
RT_API void __tsan_write_range(void *p, size_t n) { if (n) access((uintptr_t) p, n, 1); }
RT_API void __tsan_vptr_update(void **p, void *) { access((uintptr_t) p, 8, 1); }
RT_API void __tsan_vptr_read(void **p) { access((uintptr_t) p, 8, 0); }

#define ATOM(B, T)                                                                                                                             \
	RT_API T __tsan_atomic##B##_load(T const volatile *p, int mo) { return a_load<T>(const_cast<T volatile *>(p), mo); }                        \
	RT_API void __tsan_atomic##B##_store(T volatile *p, T v, int mo) { a_store<T>(p, v, mo); }                                                  \
	RT_API T __tsan_atomic##B##_exchange(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T) { return v; }); }                          \
	RT_API T __tsan_atomic##B##_fetch_add(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) (o + v); }); }             \
	RT_API T __tsan_atomic##B##_fetch_sub(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) (o - v); }); }             \
	RT_API T __tsan_atomic##B##_fetch_and(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) (o & v); }); }             \
	RT_API T __tsan_atomic##B##_fetch_or(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) (o | v); }); }              \
	RT_API T __tsan_atomic##B##_fetch_xor(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) (o ^ v); }); }             \
	RT_API T __tsan_atomic##B##_fetch_nand(T volatile *p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T) ~(o & v); }); }           \
	RT_API int __tsan_atomic##B##_compare_exchange_strong(T volatile *p, T *e, T d, int mo, int fm) { return a_cas<T>(p, e, d, mo, fm, false); } \
	RT_API int __tsan_atomic##B##_compare_exchange_weak(T volatile *p, T *e, T d, int mo, int fm) { return a_cas<T>(p, e, d, mo, fm, true); }   \
	RT_API T __tsan_atomic##B##_compare_exchange_val(T volatile *p, T e, T d, int mo, int fm) {                                                 \
		a_cas<T>(p, &e, d, mo, fm, false);                                                                                                      \
		return e;                                                                                                                               \
	}
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
RT_API void __tsan_atomic_thread_fence(int mo) {
	if (!simulating()) return;
	Rt g;
	yield_point();
	if (is_acq(mo)) {
		C().vc.join(C().acqPending);
	}
	if (is_rel(mo)) {
		C().relFence = C().vc;
		clk()++;
	}
	if (mo == __ATOMIC_SEQ_CST) sc_point();
}
RT_API void __tsan_atomic_signal_fence(int) {}

// memcpy and friends called by the code under test
extern "C" void *__real_memcpy(void *, void const *, size_t);
extern "C" void *__real_memmove(void *, void const *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
RT_API void *__wrap_memcpy(void *d, void const *s, size_t n) {
	if (n && simulating()) {
		access((uintptr_t) s, n, 0);
		access((uintptr_t) d, n, 1);
	}
	return __real_memcpy(d, s, n);
}
RT_API void *__wrap_memmove(void *d, void const *s, size_t n) {
	if (n && simulating()) {
		access((uintptr_t) s, n, 0);
		access((uintptr_t) d, n, 1);
	}
	return __real_memmove(d, s, n);
}
RT_API void *__wrap_memset(void *d, int c, size_t n) {
	if (n && simulating()) access((uintptr_t) d, n, 1);
	return __real_memset(d, c, n);
}
