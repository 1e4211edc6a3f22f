// C10, C11: dice::template_library::mutex / shared_mutex and their guards under simulated threads.
#include "../sim/payload.hpp"
#include <condition_variable>
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <optional>
#include <system_error>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	struct InSection : std::exception {};

	// protected value: every part must change together
	struct Val {
		uint64_t a = 0;
		uint64_t *box;
		uint64_t b = 0;
		Val() : box{new uint64_t(0)} {}
		explicit Val(uint64_t x) : a{x}, box{new uint64_t(x)}, b{x} {}
		Val(Val const &o) : a{o.a}, box{new uint64_t(*o.box)}, b{o.b} {}
		Val(std::initializer_list<ListOf<Val, false>>) { became_list(); }
		Val(Val &&o) noexcept : a{o.a}, box{std::exchange(o.box, nullptr)}, b{o.b} {}
		~Val() { delete box; }
	};

	// a user supplied mutex type, failing as its interface allows
	struct FlakyMutex {
		std::mutex m;
		void lock() {
			if (should_throw(4, FLockErr)) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
			m.lock();
		}
		bool try_lock() {
			if (should_throw(5, FTryLock)) return false;
			return m.try_lock();
		}
		void unlock() noexcept { m.unlock(); }
	};
	struct FlakyShared {
		std::shared_mutex m;
		void lock() {
			if (should_throw(4, FLockErr)) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
			m.lock();
		}
		bool try_lock() {
			if (should_throw(5, FTryLock)) return false;
			return m.try_lock();
		}
		void unlock() noexcept { m.unlock(); }
		void lock_shared() {
			if (should_throw(4, FLockErr)) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
			m.lock_shared();
		}
		bool try_lock_shared() {
			if (should_throw(5, FTryLock)) return false;
			return m.try_lock_shared();
		}
		void unlock_shared() noexcept { m.unlock_shared(); }
	};

	struct Cell {
		int writer = 0;
		int readers = 0;
		int busy = 0, wbusy = 0;         // operations or guards in flight
		uint64_t begins = 0, wbegins = 0; // ever
		uint64_t count = 0;              // value the protected object must have
		void const *addr = nullptr;
	};
	constexpr int MAXM = 3;
	Cell cell[MAXM];
	bool flaky; // lock operations may fail in this run

	enum Op { OLock, OTry, OShared, OTryShared, OMoved, OAssign, OSwap, OThrow, OReassign, OBothShared, NOP };
	char const *const on[] = {"lock", "try_lock", "lock_shared", "try_lock_shared", "lock, move the guard", "lock two, assign the guard", "lock two, swap the guards",
	                          "lock, throw", "lock, reassign the guard", "lock_shared two"};

	// what this thread believes it holds
	struct Held {
		int i = -1;
		bool wr = false;
		Held() = default;
		Held(Held const &) = delete;
		void begin(int k, bool w) { // an attempt starts
			NoInstr n;
			i = k;
			wr = w;
			auto &c = cell[k];
			c.busy++;
			c.begins++;
			if (w) c.wbusy++, c.wbegins++;
			log("attempt", (uint64_t) k, w, (uint64_t) self());
		}
		void got() {
			NoInstr n;
			auto &c = cell[i];
			log("held", (uint64_t) i, wr, (uint64_t) self());
			if (tracing()) note("  [t%d] holds %d %s", self(), i, wr ? "exclusively" : "shared");
			if (c.writer || (wr && c.readers))
				violation("exclusion", "thread t%d holds lock %d %s while t%d holds it exclusively / %d readers hold it", self(), i, wr ? "exclusively" : "shared", c.writer, c.readers);
			if (wr) c.writer = self();
			else c.readers++;
		}
		void letting_go() { // just before the release
			NoInstr n;
			auto &c = cell[i];
			log("release", (uint64_t) i, wr, (uint64_t) self());
			if (wr) c.writer = 0;
			else c.readers--;
		}
		void gone() { // attempt or guard is over
			NoInstr n;
			auto &c = cell[i];
			c.busy--;
			if (wr) c.wbusy--;
			i = -1;
		}
	};

	void write_section(Val &v, int i, Val *addr) {
		if (addr != cell[i].addr) violation("wrong-value", "the guard of lock %d gives access to another object", i);
		uint64_t a = v.a;
		uint64_t want;
		{
			NoInstr n;
			want = cell[i].count;
		}
		if (a != want || *v.box != a || v.b != a)
			violation("lost-update", "lock %d protects %llu/%llu/%llu, the completed critical sections make it %llu", i, (unsigned long long) a, (unsigned long long) *v.box, (unsigned long long) v.b,
			          (unsigned long long) want);
		v.a = a + 1;
		yield();
		*v.box = a + 1;
		yield();
		v.b = a + 1;
		{
			NoInstr n;
			cell[i].count++;
			add_evals(1);
		}
	}
	void read_section(Val const &v, int i, Val const *addr) {
		if (addr != cell[i].addr) violation("wrong-value", "the guard of lock %d gives access to another object", i);
		uint64_t a = v.a;
		yield();
		uint64_t b = *v.box;
		yield();
		uint64_t c = v.b;
		uint64_t want;
		{
			NoInstr n;
			want = cell[i].count;
			add_evals(1);
		}
		if (a != want || b != a || c != a)
			violation("torn-read", "a reader of lock %d saw %llu/%llu/%llu, expected %llu", i, (unsigned long long) a, (unsigned long long) b, (unsigned long long) c, (unsigned long long) want);
	}

	template<typename M, bool SH>
	struct Run {
		M *m[MAXM];
		int nm;

		using G = decltype(std::declval<M &>().lock());

		// runs fn with the exclusive guard; handles a failing lock()
		template<typename Fn> void locked(int i, Fn fn) {
			Held h;
			h.begin(i, true);
			bool have = false;
			try {
				op_enter();
				auto g = m[i]->lock();
				op_leave();
				have = true;
				h.got();
				try {
					fn(g, h);
				} catch (InSection const &) {
					// unwinding must release: rethrow through the guard's scope
					h.letting_go();
					throw;
				}
				if (h.i >= 0) h.letting_go();
			} catch (std::system_error const &e) {
				if (!have) op_leave();
				if (!flaky) violation("spurious-error", "lock() reported an error: %s", e.what());
			} catch (InSection const &) {
			}
			if (h.i >= 0) h.gone();
		}

		void step(int op, int i, int j) {
			{
				NoInstr n;
				log("op", (uint64_t) op, (uint64_t) i, (uint64_t) self());
				if (tracing()) note("  [t%d] %s (%d,%d)", self(), on[op], i, j);
			}
			if (i == j && (op == OAssign || op == OSwap || op == OReassign || op == OBothShared)) op = op == OBothShared ? OShared : OLock;
			if (i > j) std::swap(i, j);
			switch (op) {
				case OLock:
					locked(i, [&](auto &g, Held &) {
						write_section(*g, i, &*g);
						if (g.operator->() != &*g) violation("wrong-value", "-> and * of a guard disagree");
					});
					break;
				case OTry: {
					Held h;
					uint64_t b0;
					int busy0;
					{
						NoInstr n;
						busy0 = cell[i].busy;
						b0 = cell[i].begins;
					}
					h.begin(i, true);
					{
						op_enter();
						auto g = m[i]->try_lock();
						op_leave();
						if (g.has_value()) {
							h.got();
							write_section(**g, i, &**g);
							h.letting_go();
						} else {
							NoInstr n;
							probe("try_lock failed");
							if (!flaky && busy0 == 0 && cell[i].begins == b0 + 1) violation("trylock", "try_lock failed although nobody held lock %d at any time during the call", i);
						}
					}
					h.gone();
					break;
				}
				case OMoved:
					locked(i, [&](auto &g, Held &) {
						auto g2 = std::move(g);
						yield();
						using std::swap;
						swap(g, g2); // with a guard that owns nothing
						write_section(*g, i, &*g);
						swap(g, g2);
						write_section(*g2, i, &*g2);
						std::vector<G> v;
						v.push_back(std::move(g2));
						yield();
						std::optional<G> o{std::move(v.front())};
						v.clear(); // destroys a moved-from guard
						write_section(**o, i, &**o);
						g = std::move(*o); // back into the outermost guard
						o.reset();
						yield();
						write_section(*g, i, &*g);
					});
					break;
				case OAssign: // holds i and j; assigning the guard of j to the guard of i releases i
					locked(i, [&](auto &gi, Held &hi) {
						Held hj;
						hj.begin(j, true);
						bool got = false;
						try {
							auto gj = m[j]->lock();
							got = true;
							hj.got();
							write_section(*gi, i, &*gi);
							hi.letting_go();
							gi = std::move(gj);
							hi.gone();
						} catch (std::system_error const &) {
							if (!flaky) violation("spurious-error", "lock() reported an error");
						}
						if (got) {
							write_section(*gi, j, &*gi);
							// hand the responsibility over: the outer scope drops gi
							hi.i = j;
							hi.wr = true;
							hj.i = -1;
						} else hj.gone();
					});
					break;
				case OReassign:
					locked(i, [&](auto &gi, Held &hi) {
						Held hj;
						hj.begin(j, true);
						bool ok = false;
						try {
							// model: i is given up inside the assignment, after j was acquired
							auto tmp = m[j]->lock();
							hj.got();
							hi.letting_go();
							gi = std::move(tmp);
							yield(); // tmp is moved-from and still in scope: i must already be free
							hi.gone();
							ok = true;
							step(OTry, i, i);
						} catch (std::system_error const &) {
							if (!flaky) violation("spurious-error", "lock() reported an error");
						}
						if (ok) {
							hi.i = j;
							hi.wr = true;
							hj.i = -1;
							write_section(*gi, j, &*gi);
						} else hj.gone();
					});
					break;
				case OSwap:
					locked(i, [&](auto &gi, Held &hi) {
						Held hj;
						hj.begin(j, true);
						bool got = false;
						try {
							auto gj = m[j]->lock();
							got = true;
							hj.got();
							using std::swap;
							swap(gi, gj);
							write_section(*gi, j, &*gi);
							write_section(*gj, i, &*gj);
							hi.letting_go(); // gj now owns lock i and goes first
							bool odd;
							{
								NoInstr n;
								odd = cell[i].begins & 1;
							}
							if (odd) {
								{ auto gone = std::move(gj); }
								swap(gi, gj); // gj owned nothing
								write_section(*gj, j, &*gj);
								swap(gi, gj);
								write_section(*gi, j, &*gi);
							}
						} catch (std::system_error const &) {
							if (!flaky) violation("spurious-error", "lock() reported an error");
						}
						if (got) {
							hi.gone();
							write_section(*gi, j, &*gi);
							hi.i = j;
							hi.wr = true;
							hj.i = -1;
						} else hj.gone();
					});
					break;
				case OThrow:
					locked(i, [&](auto &g, Held &) {
						write_section(*g, i, &*g);
						throw InSection{};
					});
					break;
				default:
					if constexpr (SH) step_shared(op, i, j);
					else step(op == OTryShared ? OTry : OLock, i, j);
			}
		}
		void step_shared(int op, int i, int j) {
			M const &cm = *m[i];
			if (op == OTryShared) {
				Held h;
				uint64_t b0;
				int busy0;
				{
					NoInstr n;
					busy0 = cell[i].wbusy;
					b0 = cell[i].wbegins;
				}
				h.begin(i, false);
				{
					op_enter();
					auto g = cm.try_lock_shared();
					op_leave();
					if (g.has_value()) {
						h.got();
						read_section(**g, i, &**g);
						h.letting_go();
					} else {
						NoInstr n;
						probe("try_lock_shared failed");
						if (!flaky && busy0 == 0 && cell[i].wbegins == b0)
							violation("trylock", "try_lock_shared failed although nobody held or wanted lock %d exclusively during the call", i);
					}
				}
				h.gone();
				return;
			}
			Held h;
			h.begin(i, false);
			bool have = false;
			try {
				op_enter();
				auto g = cm.lock_shared();
				op_leave();
				have = true;
				h.got();
				read_section(*g, i, &*g);
				if (op == OBothShared) {
					Held hj;
					hj.begin(j, false);
					try {
						auto gj = static_cast<M const *>(m[j])->lock_shared();
						hj.got();
						read_section(*gj, j, &*gj);
						using std::swap;
						swap(g, gj);
						read_section(*g, j, &*g);
						read_section(*gj, i, &*gj);
						h.letting_go();
						bool odd;
						{
							NoInstr n;
							odd = cell[i].begins & 1;
						}
						if (odd) {
							{ auto gone = std::move(gj); }
							swap(g, gj); // gj owned nothing
						} else gj = std::move(g); // releases i, keeps j
						h.gone();
						step(OTry, i, i); // the moved-from guard is still in scope: i must already be free
						read_section(*gj, j, &*gj);
						hj.letting_go();
					} catch (std::system_error const &) {
						if (!flaky) violation("spurious-error", "lock_shared() reported an error");
					}
					hj.gone();
				} else {
					auto g2 = std::move(g);
					read_section(*g2, i, &*g2);
					using std::swap;
					swap(g, g2); // with a guard that owns nothing
					read_section(*g, i, &*g);
					swap(g2, g);
					read_section(*g2, i, &*g2);
					h.letting_go();
				}
			} catch (std::system_error const &e) {
				if (!have) op_leave();
				if (!flaky) violation("spurious-error", "lock_shared() reported an error: %s", e.what());
				if (have && h.i >= 0) h.letting_go();
			}
			if (h.i >= 0) h.gone();
		}

		void create(int form) {
			for (int i = 0; i < nm; ++i) {
				uint64_t init = form == 3 ? 0 : 100 * (uint64_t) (i + 1);
				Val v{init};
				if (form == 0) m[i] = new M(std::in_place, init);
				else if (form == 3) m[i] = new M();
				else if (form == 1) m[i] = new M(static_cast<Val const &>(v));
				else m[i] = new M(std::move(v));
				auto g = m[i]->lock();
				NoInstr n;
				cell[i] = Cell{};
				cell[i].count = init;
				cell[i].addr = &*g;
				if (g->a != init || *g->box != init) violation("wrong-value", "the protected value is not the one the mutex was created with");
			}
		}

		void run() {
			bool rendezvous;
			{
				NoInstr n;
				swarm_cfg(false);
				nm = 1 + (int) choose(W, MAXM);
				rendezvous = SH && chance(W, 1, 6);
				if constexpr (std::is_same_v<typename M::mutex_type, FlakyShared>) rendezvous = false;
			}
			create((int) choose(W, 4));
			{
				NoInstr n;
				uint32_t fk = pick(W, {4, 2, 2, 2});
				flaky = false;
				if (fk & 1) cfg.lockerr_den = 3 + choose(W, 6), flaky = true;
				if (fk & 2) cfg.trylock_den = 3 + choose(W, 6), flaky = true;
				if constexpr (requires { typename M::mutex_type; }) {
					using X = typename M::mutex_type;
					if constexpr (std::is_same_v<X, FlakyMutex> || std::is_same_v<X, FlakyShared>) flaky = true;
				}
				if (rendezvous) {
					flaky = false;
					cfg.lockerr_den = 0;
				}
			}
			if constexpr (SH)
				if (rendezvous) {
					meet();
					return;
				}
			{
				NoInstr n;
				uint32_t nt = 2 + choose(W, 3);
				for (uint32_t t = 0; t < nt; ++t) {
					char name[16];
					snprintf(name, sizeof name, "t%u", t);
					struct S3 {
						int op, i, j;
					};
					std::vector<S3> prog;
					uint32_t k = 1 + choose(W, 5);
					for (uint32_t q = 0; q < k; ++q) {
						int op = SH ? (int) pick(W, {3, 2, 4, 3, 1, 1, 1, 1, 1, 2}) : (int) pick(W, {4, 3, 0, 0, 2, 2, 2, 2, 2, 0});
						prog.push_back({op, (int) choose(W, (uint32_t) nm), (int) choose(W, (uint32_t) nm)});
					}
					spawn(name, [this, prog] {
						for (auto &p : prog) step(p.op, p.i, p.j);
					});
				}
			}
			if (run_all() == Quiesce::Stuck) {
				NoInstr n;
				violation("stuck", "threads block forever although every guard was dropped in order (t1 blocked on %s)", fiber_blocked_on(1));
			}
			finish();
		}
		// all readers hold the lock at the same time
		void meet() {
			static std::mutex *bm;
			static std::condition_variable *bc;
			static int arrived, want;
			bm = new std::mutex;
			bc = new std::condition_variable;
			{
				NoInstr n;
				probe("reader rendezvous");
				arrived = 0;
				want = 2 + (int) choose(W, 3);
				bool tr = chance(W, 1, 3);
				for (int t = 0; t < want; ++t)
					spawn("reader", [this, t, tr] {
						auto body = [&](auto &g) {
							read_section(*g, 0, &*g);
							std::unique_lock<std::mutex> l(*bm);
							++arrived;
							bc->notify_all();
							while (arrived < want) bc->wait(l);
						};
						if (tr && t) {
							std::optional<decltype(static_cast<M const *>(m[0])->lock_shared())> g;
							g = static_cast<M const *>(m[0])->try_lock_shared();
							if (!g && !cfg.trylock_den) violation("trylock", "try_lock_shared failed although only readers hold the lock");
							if (!g) g.emplace(static_cast<M const *>(m[0])->lock_shared());
							body(*g);
						} else {
							auto g = static_cast<M const *>(m[0])->lock_shared();
							body(g);
						}
					});
			}
			if (run_all() == Quiesce::Stuck) violation("readers-excluded", "readers wait for each other: shared guards do not coexist");
			delete bc;
			delete bm;
			finish();
		}
		void finish() {
			cfg.lockerr_den = cfg.trylock_den = 0;
			faults_off = true;
			for (int i = 0; i < nm; ++i) {
				suspend_faults();
				auto g = m[i]->try_lock();
				if (!g) violation("not-released", "lock %d is still held after every guard is gone", i);
				if ((**g).a != cell[i].count) violation("lost-update", "lock %d protects %llu, expected %llu", i, (unsigned long long) (**g).a, (unsigned long long) cell[i].count);
				resume_faults();
			}
			for (int i = 0; i < nm; ++i) delete m[i];
			NoInstr n;
			if (live_blocks() != 0) violation("leak", "%zu blocks leaked", live_blocks());
		}
		bool faults_off = false;
	};
	// ---- the value a mutex starts with: moved or copied as given, a failure is the caller's ----
	struct Parts {
		uint64_t tag;
		MoveOnly m;
		uint64_t &ref;
		explicit Parts(uint64_t t, MoveOnly &&mo, uint64_t &r) : tag{t}, m{std::move(mo)}, ref{r} {}
		explicit Parts(uint64_t t, MoveOnly const &, uint64_t const &r) : tag{t}, m{0}, ref{const_cast<uint64_t &>(r)} { violation("wrong-value", "the arguments of the value were not forwarded"); }
	};
	// a mutex type that may be out of resources
	struct LateMutex : std::mutex {
		LateMutex() {
			if (should_throw(ef.ctor, FLockErr)) throw Boom("mutex");
		}
	};
	struct LateShared : std::shared_mutex {
		LateShared() {
			if (should_throw(ef.ctor, FLockErr)) throw Boom("mutex");
		}
	};
	template<template<typename> typename M, typename T> void start() {
		constexpr bool late = !std::is_nothrow_default_constructible_v<typename M<T>::mutex_type>;
		constexpr bool copyable = std::is_copy_constructible_v<T>;
		uint32_t form = choose(W, 5);
		uint64_t id = 1 + choose(W, 1000);
		suspend_faults();
		std::optional<T> src;
		src.emplace(id);
		resume_faults();
		log("form", form, id);
		M<T> *m = nullptr;
		bool moved = false, threw = false;
		try {
			OpScope os;
			switch (form) {
				case 0:
					if constexpr (copyable) {
						m = new M<T>(std::as_const(*src));
						break;
					}
					[[fallthrough]];
				case 1:
					moved = true;
					m = new M<T>(std::move(*src));
					break;
				case 2: m = new M<T>(std::in_place, id); break;
				case 3:
					moved = true;
					m = new M<T>(std::in_place, std::move(*src));
					break;
				default:
					if constexpr (copyable) m = new M<T>(std::in_place, std::as_const(*src));
					else m = new M<T>(std::in_place, id);
			}
		} catch (Boom const &) {
			threw = true;
			probe("creating the value failed");
		}
		suspend_faults();
		add_evals(1);
		if (!threw) {
			{
				auto g = m->lock();
				if (id_of(*g) != id) violation("wrong-value", "the protected value is %llu, the mutex was created with %llu", (unsigned long long) id_of(*g), (unsigned long long) id);
			}
			if (moved && id_of(*src) != 0) violation("wrong-value", "the value given to the mutex was copied, not moved");
		} else moved = late; // the value may have been taken before the mutex failed
		if (!moved && id_of(*src) != id) violation("wrong-value", "the value a mutex was to be made from was changed");
		delete m;
		src.reset();
		if (elem_live != 0) violation("leak", "%lld values still alive", (long long) elem_live);
		{
			struct Def { // default construction may fail
				uint64_t x = 5;
				Def() noexcept(false) {
					if (should_throw(ef.ctor, FCtor)) throw Boom("default ctor");
				}
			};
			M<Def> *d = nullptr;
			resume_faults();
			try {
				OpScope os;
				d = new M<Def>();
			} catch (Boom const &) {
				probe("creating the value failed");
			}
			suspend_faults();
			if (d && d->lock()->x != 5) violation("wrong-value", "the protected value is not the default one");
			delete d;
		}
		{
			uint64_t x = 7;
			M<Parts> *p = new M<Parts>(std::in_place, id, MoveOnly{id + 1}, x); // no faults here
			{
				auto g = p->lock();
				if (g->tag != id || g->m.id() != id + 1 || &g->ref != &x) violation("wrong-value", "the protected value is not made of the arguments given");
			}
			delete p;
		}
		resume_faults();
	}
	template<template<typename> typename M> void started() {
		{
			NoInstr n;
			elem_live = 0;
			swarm_cfg(false);
			cfg.lockerr_den = cfg.trylock_den = 0;
			ef = {};
			uint32_t d = 2 + choose(W, 2), k = choose(W, 8);
			if (k & 1) ef.ctor = d;
			if (k & 2) ef.copy = d;
			if (k & 4) ef.move = d;
		}
		spawn("maker", [] {
			for (int i = 0; i < 3; ++i) switch (choose(W, 6)) {
				case 0: start<M, Plain>(); break;
				case 1: start<M, MoveOnly>(); break;
				case 2: start<M, Thrower>(); break;
				case 3: start<M, MoveThrower>(); break;
				case 4: start<M, CopyThrower>(); break;
				default: start<M, Elem<true, true, true, false>>(); break;
			}
		});
		run_all();
		ef = {};
		NoInstr n;
		if (live_blocks() != 0) violation("leak", "%zu blocks leaked", live_blocks());
	}
	template<typename T> using Mutex = dtl::mutex<T>;
	template<typename T> using MutexLate = dtl::mutex<T, LateMutex>;
	template<typename T> using SharedMutexLate = dtl::shared_mutex<T, LateShared>;
	template<typename T> using SharedMutex = dtl::shared_mutex<T>;

	template<typename M, bool SH> void scenario() {
		Run<M, SH> *r;
		{
			NoInstr n;
			static Run<M, SH> *keep = nullptr;
			delete keep;
			keep = r = new Run<M, SH>;
		}
		// a user's own mutex type must be the one that gets locked
		if constexpr (!std::is_same_v<typename decltype(std::declval<M &>().lock())::mutex_type, typename M::mutex_type>)
			violation("wrong-mutex-type", "lock() of a mutex with its own Mutex type does not return a guard of that type");
		else r->run();
	}
} // namespace

Harness sim::make_harness(std::string const &prop) {
	Harness h;
	h.name = "sync";
	if (prop == "C10")
		h.scenarios = {{"std::mutex", 4, scenario<dtl::mutex<Val>, false>}, {"user mutex type", 2, scenario<dtl::mutex<Val, FlakyMutex>, false>}, {"starting values", 1, started<Mutex>}, {"starting values, failing mutex", 1, started<MutexLate>}};
	else
		h.scenarios = {{"std::shared_mutex", 4, scenario<dtl::shared_mutex<Val>, true>}, {"user shared mutex type", 2, scenario<dtl::shared_mutex<Val, FlakyShared>, true>}, {"starting values", 1, started<SharedMutex>}, {"starting values, failing mutex", 1, started<SharedMutexLate>}};
	return h;
}
