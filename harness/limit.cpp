// C12: dice::template_library::limit_allocator under simulated threads and failing upstream allocators.
#include "../sim/payload.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <array>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	// ---- the upstream allocator: a recording stand-in ------------------
	uint64_t outstanding, peak, limit_bytes;
	struct Blk {
		size_t bytes;
		int arena;
	};
	std::map<void *, Blk> *blocks; // harness memory
	uint32_t up_fail_den;
	bool accounting; // false while the control block itself is created etc.

	void *up_alloc(size_t n, size_t sz, int arena) {
		yield();
		if (should_throw(up_fail_den, FAlloc)) {
			if (chance(F, 1, 3)) throw Boom("upstream"); // upstream may have other reasons than memory
			throw std::bad_alloc{};
		}
		if (n > SIZE_MAX / 2 / sz) throw std::bad_array_new_length{};
		size_t bytes = n * sz;
		{
			NoInstr g;
			log("upstream alloc", bytes, (uint64_t) arena, (uint64_t) self());
			outstanding += bytes;
			add_evals(1);
			if (outstanding > peak) peak = outstanding;
			if (outstanding > limit_bytes)
				violation("limit-exceeded", "the upstream allocator was asked for %llu bytes, %llu are now outstanding with a limit of %llu", (unsigned long long) bytes, (unsigned long long) outstanding,
				          (unsigned long long) limit_bytes);
		}
		suspend_faults();
		void *p = ::operator new(bytes ? bytes : 1);
		resume_faults();
		NoInstr g;
		(*blocks)[p] = {bytes, arena};
		return p;
	}
	void up_free(void *p, size_t n, size_t sz, int arena) {
		yield();
		{
			NoInstr g;
			auto it = blocks->find(p);
			if (it == blocks->end()) violation("bad-free", "a block was returned to the upstream allocator that it did not hand out");
			if (it->second.bytes != n * sz) violation("bad-free", "a block of %zu bytes was returned to the upstream allocator as %zu bytes", it->second.bytes, n * sz);
			if (it->second.arena != arena) violation("bad-free", "a block was returned to another upstream allocator than the one it came from");
			outstanding -= it->second.bytes;
			log("upstream free", it->second.bytes, (uint64_t) arena, (uint64_t) self());
			blocks->erase(it);
		}
		::operator delete(p);
	}

	// stateless
	template<typename T>
	struct Up0 {
		using value_type = T;
		Up0() = default;
		template<typename U> Up0(Up0<U> const &) noexcept {}
		T *allocate(size_t n) { return (T *) up_alloc(n, sizeof(T), 0); }
		void deallocate(T *p, size_t n) { up_free(p, n, sizeof(T), 0); }
		bool operator==(Up0 const &) const noexcept { return true; }
	};
	// stateful, propagates on move and swap
	template<typename T>
	struct Up1 {
		using value_type = T;
		using propagate_on_container_move_assignment = std::true_type;
		using propagate_on_container_copy_assignment = std::true_type;
		using propagate_on_container_swap = std::true_type;
		int id = 1;
		Up1() = default;
		explicit Up1(int i) : id{i} {}
		Up1(std::unique_ptr<int> &&p, int &uses) : id{*p} {
			++uses;
			p.reset();
		}
		Up1(std::unique_ptr<int> const &, int const &) { violation("wrong-upstream", "the arguments of the upstream allocator were not forwarded"); }
		template<typename U> Up1(Up1<U> const &o) noexcept : id{o.id} {}
		T *allocate(size_t n) { return (T *) up_alloc(n, sizeof(T), id); }
		void deallocate(T *p, size_t n) { up_free(p, n, sizeof(T), id); }
		bool operator==(Up1 const &o) const noexcept { return id == o.id; }
	};

	// like Up1, but a default one does not exist
	template<typename T>
	struct Up2 : Up1<T> {
#ifdef FALLBACK
		Up2() = default;
#else
		Up2() = delete;
#endif
		using Up1<T>::Up1;
		template<typename U> Up2(Up2<U> const &o) noexcept : Up1<T>{o} {}
		bool operator==(Up2 const &o) const noexcept { return this->id == o.id; }
	};

	// stateful, stays where it is, and a copied container gets a different one
	template<typename T>
	struct Up3 {
		using value_type = T;
		int id = 1;
		Up3() = default;
		explicit Up3(int i) : id{i} {}
		Up3(std::unique_ptr<int> &&p, int &uses) : id{*p} {
			++uses;
			p.reset();
		}
		Up3(std::unique_ptr<int> const &, int const &) { violation("wrong-upstream", "the arguments of the upstream allocator were not forwarded"); }
		template<typename U> Up3(Up3<U> const &o) noexcept : id{o.id} {}
		T *allocate(size_t n) { return (T *) up_alloc(n, sizeof(T), id); }
		void deallocate(T *p, size_t n) { up_free(p, n, sizeof(T), id); }
		Up3 select_on_container_copy_construction() const { return Up3{id + 10}; }
		bool operator==(Up3 const &o) const noexcept { return id == o.id; }
	};

	struct B24 {
		uint64_t x[3];
	};
	struct B200 {
		uint64_t x[25];
	};

	// reservations an exact ledger could still be carrying (upper bound)
	int64_t bound;          // bytes of live allocations and of attempts in flight
	constexpr int MAXT = 8;
	int64_t winmax[MAXT];
	bool inwin[MAXT];
	void bound_add(int64_t d) {
		bound += d;
		for (int i = 0; i < MAXT; ++i)
			if (inwin[i] && bound > winmax[i]) winmax[i] = bound;
	}

	template<template<typename> typename Up, dtl::limit_allocator_syncness SY>
	struct Run {
		template<typename T> using LA = dtl::limit_allocator<T, Up, SY>;
		static constexpr bool stateful = !std::is_empty_v<Up<char>>;
		LA<char> *root = nullptr;

		template<typename T>
		T *try_alloc(LA<T> &a, size_t n) {
			int64_t bytes = (int64_t) (n * sizeof(T));
			{
				NoInstr g;
				int me = self();
				inwin[me] = true;
				winmax[me] = bound;
				bound_add(0);
				// others see this attempt, this attempt does not see itself
				for (int i = 0; i < MAXT; ++i)
					if (i != me && inwin[i] && bound + bytes > winmax[i]) winmax[i] = bound + bytes;
				bound += bytes;
				winmax[me] = bound;
				log("allocate", (uint64_t) bytes, (uint64_t) me);
				if (tracing()) note("  [t%d] allocate(%lld bytes)", me, (long long) bytes);
			}
			T *p = nullptr;
			try {
				OpScope s;
				p = a.allocate(n);
			} catch (std::exception const &) {
			}
			NoInstr g;
			int me = self();
			inwin[me] = false;
			if (tracing()) note("  [t%d] allocate(%lld bytes) -> %s", me, (long long) bytes, p ? "ok" : "refused");
			log("allocated", (uint64_t) bytes, p != nullptr);
			if (!p) {
				probe("allocation refused");
				if (!up_fail_den && !cfg.stale && winmax[me] <= (int64_t) limit_bytes)
					violation("spurious-refusal", "allocating %lld bytes was refused although at most %lld of %llu bytes were in use or being requested during the call", (long long) bytes,
					          (long long) winmax[me], (unsigned long long) limit_bytes);
				bound_add(-bytes);
			}
			return p;
		}
		template<typename T>
		void free_(LA<T> &a, T *p, size_t n) {
			{
				NoInstr g;
				log("deallocate", n * sizeof(T));
				if (tracing()) note("  [t%d] deallocate(%zu bytes)", self(), n * sizeof(T));
			}
			{
				OpScope s;
				a.deallocate(p, n);
			}
			NoInstr g;
			bound_add(-(int64_t) (n * sizeof(T)));
		}

		void raw_thread(std::vector<std::array<uint32_t, 3>> prog) {
			LA<char> c{*root};
			LA<B24> b{*root};                           // rebound copy
			LA<uint64_t> w{LA<uint64_t>{b}};            // rebound again, then moved
			struct H {
				int k;
				void *p;
				size_t n;
			};
			H held[8];
			int nh = 0;
			auto drop = [&](int i) {
				if (held[i].k == 0) free_(c, (char *) held[i].p, held[i].n);
				else if (held[i].k == 1) free_(b, (B24 *) held[i].p, held[i].n);
				else free_(w, (uint64_t *) held[i].p, held[i].n);
				held[i] = held[--nh];
			};
			for (auto &o : prog) {
				switch (o[0]) {
					case 0:
					case 1:
					case 2: {
						if (nh == 8) drop((int) (o[2] % 8));
						void *p;
						size_t n = o[1];
						if (o[0] == 0) p = try_alloc(c, n);
						else if (o[0] == 1) p = try_alloc(b, n = n / 24 + (n ? 1 : 0));
						else p = try_alloc(w, n = n / 8 + (n ? 1 : 0));
						if (p) {
							held[nh++] = {(int) o[0], p, n};
							if (n) std::memset(p, 0x5a, n * (o[0] == 0 ? 1 : o[0] == 1 ? 24 : 8));
						}
						break;
					}
					case 3:
						if (nh) drop((int) (o[2] % (uint32_t) nh));
						break;
					case 4: { // copies and moves of the allocator share the budget
						LA<char> c2{c};
						LA<char> c3{std::move(c2)};
						if (!(c3 == c) || !(c2 == c3)) violation("moved-from", "a moved-from limit_allocator no longer equals the allocator it was moved to");
						c2 = c3;
						LA<char> c4{c2};
						c2 = std::move(c4);
						if (!(c2 == c)) violation("not-equal", "an assigned limit_allocator does not equal its source");
						if (!(LA<char>{LA<B24>{c2}} == c)) violation("not-equal", "a rebound limit_allocator does not share the budget");
						if constexpr (requires { swap(c2, c3); }) swap(c2, c3);
						size_t n = o[1] % 40;
						char *p = try_alloc(c3, n);
						if (p) free_(c2, p, n); // freed through another copy
						break;
					}
				}
			}
			while (nh) drop(nh - 1);
		}

		template<typename V> static void check_vec(V const &v, std::vector<uint64_t> const &model, char const *what) {
			bool ok = true;
			auto it = v.begin();
			size_t i = 0;
			for (; it != v.end() && i < model.size(); ++it, ++i)
				if (*it != model[i]) ok = false;
			if (it != v.end() || i != model.size() || !ok) violation("content", "%s: the container does not hold what was put in", what);
		}
		// standard containers over the limited allocator
		template<typename C> void container_thread(std::vector<std::array<uint32_t, 3>> prog) {
			using A = typename C::allocator_type;
			C v{A{*root}};
			std::vector<uint64_t> *mv;
			{
				NoInstr n;
				mv = new std::vector<uint64_t>;
			}
			for (auto &o : prog) {
				bool ok = true;
				log("container op", o[0], (uint64_t) self());
				try {
					switch (o[0]) {
						case 0:
						case 1:
						case 2: {
							{
								OpScope s;
								v.push_back(o[1]);
							}
							NoInstr n;
							mv->push_back(o[1]);
							break;
						}
						case 3:
							if (!v.empty()) {
								{
									OpScope s;
									v.pop_back();
								}
								NoInstr n;
								mv->pop_back();
							}
							break;
						case 4: {
							OpScope s;
							C c{v};
							C d{std::move(c)};
							// a moved-from container stays usable
							c.clear();
							c.push_back(7);
							v = std::move(d);
							d.clear();
							d.push_back(8);
							d.push_back(9);
							v.swap(v);
							break;
						}
						case 5: {
							{
								OpScope s;
								v.clear();
								if constexpr (requires { v.shrink_to_fit(); }) v.shrink_to_fit();
							}
							NoInstr n;
							mv->clear();
							break;
						}
					}
				} catch (std::exception const &) {
					ok = false;
					NoInstr n;
					probe("container operation refused");
				}
				(void) ok;
				check_vec(v, *mv, "limited container");
			}
			NoInstr n;
			delete mv;
		}

		void run() {
			bool threads = SY == dtl::limit_allocator_syncness::sync;
			uint32_t mode;
			{
				NoInstr n;
				blocks->clear();
				outstanding = peak = 0;
				bound = 0;
				for (auto &x : inwin) x = false;
				swarm_cfg(true);
				limit_bytes = (uint64_t[]) {64, 100, 160, 256, 0, 1000}[choose(W, 6)];
				mode = pick(W, {5, 2, 1});
				up_fail_den = chance(W, 1, 2) ? 2 + choose(W, 6) : 0;
			}
			if constexpr (stateful) {
				uint32_t f = choose(W, 3);
				if (f == 0) root = new LA<char>(limit_bytes, Up<char>{3});
				else if (f == 1) root = new LA<char>(limit_bytes, std::in_place, 4);
				else if constexpr (std::is_default_constructible_v<Up<char>>) root = new LA<char>(limit_bytes);
				else root = new LA<char>(limit_bytes, std::in_place, 5);
			} else root = new LA<char>(limit_bytes);
			{
				NoInstr n;
				uint32_t nt = threads ? 2 + choose(W, 3) : 1;
				for (uint32_t t = 0; t < nt; ++t) {
					std::vector<std::array<uint32_t, 3>> prog;
					uint32_t k = 2 + choose(W, 7);
					for (uint32_t i = 0; i < k; ++i) {
						uint32_t sz = (uint32_t[]) {8, 16, 30, 64, 100, 128, 0, 1}[choose(W, 8)];
						if (chance(W, 1, 8)) sz = (uint32_t) limit_bytes;
						prog.push_back({mode == 0 ? pick(W, {4, 2, 2, 4, 2}) : pick(W, {4, 1, 1, 2, 2, 1}), sz, choose(W, 8)});
					}
					char nm[8];
					snprintf(nm, sizeof nm, "t%u", t);
					spawn(nm, [this, prog, mode] {
						if (mode == 0) raw_thread(prog);
						else if (mode == 1) container_thread<std::vector<uint64_t, LA<uint64_t>>>(prog);
						else container_thread<std::list<uint64_t, LA<uint64_t>>>(prog);
					});
				}
			}
			if (run_all() == Quiesce::Stuck) violation("stuck", "threads block forever");
			// everything was returned: the whole budget is there again, and not a byte more
			up_fail_den = 0;
			cfg.stale = false;
			cfg.weak_cas = false;
			if (outstanding) violation("leak", "%llu bytes were never returned to the upstream allocator", (unsigned long long) outstanding);
			LA<char> a{*root};
			delete root;
			char *p = nullptr, *q = nullptr;
			try {
				p = a.allocate(limit_bytes);
			} catch (std::exception const &) {
				violation("budget-lost", "after everything was deallocated %llu bytes can no longer be allocated", (unsigned long long) limit_bytes);
			}
			try {
				q = a.allocate(1);
			} catch (std::exception const &) {
			}
			if (q) violation("budget-grew", "one byte more than the limit of %llu can be allocated", (unsigned long long) limit_bytes);
			a.deallocate(p, limit_bytes);
			NoInstr n;
			if (!blocks->empty()) violation("leak", "blocks were not returned upstream");
		}
	};
	// ---- several budgets at once: which budget and which upstream an allocator stands for ----
	template<template<typename> typename Up, dtl::limit_allocator_syncness SY>
	struct Budgets {
		template<typename T> using LA = dtl::limit_allocator<T, Up, SY>;
		static constexpr bool stateful = !std::is_empty_v<Up<char>>;
		using Tr = std::allocator_traits<LA<uint64_t>>;
		struct Who {
			int budget, arena;
			bool operator==(Who const &) const = default;
		};
		static constexpr int NB = 3, NH = 4;
		uint64_t limit[NB], used[NB];
		LA<uint64_t> *h[NH];
		Who who[NH];
		struct B {
			void *p;
			size_t n;
			Who w;
			bool small;
		};
		B held[6];
		int nheld = 0;

		LA<uint64_t> fresh(int b, Who &w) {
			w = {b, 0};
			if constexpr (stateful) {
				uint32_t how = choose(W, 4);
				w.arena = 1 + (int) choose(W, 2) * 2;
				if (how == 0) return LA<uint64_t>(limit[b], Up<uint64_t>{w.arena});
				if (how == 1) {
					Up<uint64_t> u{w.arena};
					return LA<uint64_t>(limit[b], u);
				}
				if (how == 3) {
					int uses = 0;
					auto p = std::make_unique<int>(w.arena);
					LA<uint64_t> a(limit[b], std::in_place, std::move(p), uses);
					if (uses != 1 || p) violation("wrong-upstream", "the arguments of the upstream allocator were not forwarded");
					return a;
				}
				return LA<uint64_t>(limit[b], std::in_place, w.arena);
			} else return LA<uint64_t>(limit[b]);
		}
		template<typename T> void is(LA<T> const &a, Who w, char const *what) {
			add_evals(1);
			if constexpr (stateful)
				if (a.upstream_allocator().id != w.arena) violation("wrong-upstream", "%s: the allocator has upstream %d instead of %d", what, a.upstream_allocator().id, w.arena);
			for (int i = 0; i < NH; ++i)
				if (h[i]) {
					LA<T> o{*h[i]};
					if ((a == o) != (who[i] == w) || (a != o) == (who[i] == w)) violation("wrong-budget", "%s: the allocator compares %s to one with %s budget and upstream", what, a == o ? "equal" : "unequal", who[i] == w ? "the same" : "another");
				}
		}
		// how much is left is exactly what it should be: one byte more is refused
		void left(LA<char> a, Who w, char const *what) {
			size_t n = limit[w.budget] - used[w.budget];
			bool unlimited = limit[w.budget] > SIZE_MAX / 4;
			if (unlimited) n = 1000;
			uint32_t keep = up_fail_den;
			up_fail_den = 0;
			char *p = nullptr;
			try {
				p = a.allocate(unlimited ? SIZE_MAX : n + 1);
			} catch (std::exception const &) {
			}
			if (p) violation("budget-grew", "%s: %zu bytes can be allocated where %zu of %llu should be left", what, n + 1, n, (unsigned long long) limit[w.budget]);
			try {
				p = a.allocate(n);
			} catch (std::exception const &) {
				violation("budget-lost", "%s: the %zu bytes that should be left of %llu can not be allocated", what, n, (unsigned long long) limit[w.budget]);
			}
			if ((*blocks)[p].arena != w.arena) violation("wrong-upstream", "%s: the allocation went to upstream %d instead of %d", what, (*blocks)[p].arena, w.arena);
			a.deallocate(p, n);
			up_fail_den = keep;
		}
		void drop(int i) {
			B b = held[i];
			held[i] = held[--nheld];
			// through any allocator that equals the one it came from
			LA<uint64_t> *a = nullptr;
			uint32_t from = choose(W, NH);
			for (uint32_t k = 0; k < NH; ++k)
				if (who[(from + k) % NH] == b.w) a = h[(from + k) % NH];
			if (!a) { // nobody left: the budget must stay alive through the rest
				held[nheld++] = b;
				return;
			}
			if (b.small) {
				LA<char> c{*a};
				c.deallocate((char *) b.p, b.n);
				used[b.w.budget] -= b.n;
			} else {
				a->deallocate((uint64_t *) b.p, b.n);
				used[b.w.budget] -= 8 * b.n;
			}
		}
		static bool fits(Who w, Who const (&ws)[NH], int except) {
			for (int i = 0; i < NH; ++i)
				if (i != except && ws[i] == w) return true;
			return false;
		}
		// a handle that still has blocks is only given up if an equal one exists
		bool may_change(int i) {
			if (fits(who[i], who, i)) return true;
			for (int k = 0; k < nheld; ++k)
				if (held[k].w == who[i]) return false;
			return true;
		}

		template<typename C> void containers() {
			struct Cont {
				C *c;
				Who w;
				std::vector<uint64_t> m;
			};
			Cont cs[2];
			uint32_t a = choose(W, NH), b = choose(W, NH);
			cs[0] = {new C(*h[a]), who[a], {}};
			cs[1] = {new C(*h[b]), who[b], {}};
			uint32_t keep = up_fail_den;
			up_fail_den = 0;
			uint64_t v = 1;
			auto check = [&](char const *what) {
				for (auto &c : cs) {
					is(LA<uint64_t>{c.c->get_allocator()}, c.w, what);
					auto it = c.c->begin();
					bool ok = c.c->size() == c.m.size();
					for (size_t i = 0; ok && i < c.m.size(); ++i, ++it) ok = *it == c.m[i];
					if (!ok) violation("content", "%s: the container does not hold what was put in", what);
				}
			};
			uint32_t n = 2 + choose(W, 6);
			for (uint32_t k = 0; k < n; ++k) {
				uint32_t i = choose(W, 2), op = choose(W, 6);
				Cont &x = cs[i], &y = cs[1 - i];
				char const *what = "container";
				log("container op", op, i);
				try {
					switch (op) {
						case 0:
						case 1:
							what = "push_back";
							x.c->push_back(v);
							x.m.push_back(v++);
							break;
						case 2:
							what = "copy construction of a container";
							{
								C d{*x.c};
								Who w = x.w;
								if constexpr (requires { Up<char>{}.select_on_container_copy_construction(); }) w.arena += 10;
								is(LA<uint64_t>{d.get_allocator()}, w, what);
							}
							break;
						case 3:
							what = "copy assignment of a container";
							if constexpr (!Tr::propagate_on_container_copy_assignment::value) {
								*x.c = *y.c;
							} else {
								// room for it has to be in the other's budget then
								if (limit[y.w.budget] - used[y.w.budget] < 400) break;
								*x.c = *y.c;
								x.w = y.w;
							}
							x.m = y.m;
							break;
						case 4:
							what = "move assignment of a container";
							if (!Tr::propagate_on_container_move_assignment::value && !(x.w == y.w)) {
								*x.c = std::move(*y.c); // element by element
								x.m = y.m;
								y.c->clear();
								y.m.clear();
							} else {
								*x.c = std::move(*y.c);
								if (Tr::propagate_on_container_move_assignment::value) x.w = y.w;
								x.m = y.m;
								y.c->clear();
								y.m.clear();
							}
							break;
						default:
							what = "swap of containers";
							if (!Tr::propagate_on_container_swap::value && !(x.w == y.w)) break;
							{
								using std::swap;
								swap(*x.c, *y.c);
								if (Tr::propagate_on_container_swap::value) std::swap(x.w, y.w);
								std::swap(x.m, y.m);
							}
							break;
					}
				} catch (std::exception const &) {
					probe("container operation refused");
					// whatever the container holds now (element-wise assignments are not atomic)
					if (op > 2) {
						for (auto &c : cs) {
							c.m.clear();
							for (auto e : *c.c) c.m.push_back(e);
						}
						for (auto &c : cs) {
							bool found = false;
							for (Who w : {cs[0].w, cs[1].w}) {
								LA<uint64_t> p{c.c->get_allocator()};
								for (int q = 0; q < NH; ++q)
									if (who[q] == w && *h[q] == p) {
										c.w = w;
										found = true;
									}
								if (found) break;
							}
							if (!found) violation("wrong-budget", "after a refused assignment the container's allocator is none of those involved");
						}
					}
				}
				check(what);
			}
			delete cs[0].c;
			delete cs[1].c;
			up_fail_den = keep;
		}

		void run() {
			{
				NoInstr n;
				blocks->clear();
				outstanding = peak = 0;
			}
			limit_bytes = 0;
			swarm_cfg(true);
			cfg.stale = cfg.weak_cas = false;
			for (int b = 0; b < NB; ++b) {
				limit[b] = (uint64_t[]) {64, 200, 600, 2000, 0, 2000, SIZE_MAX, SIZE_MAX / 2 + 2}[choose(W, 8)];
				used[b] = 0;
				limit_bytes = limit[b] > SIZE_MAX - limit_bytes ? SIZE_MAX : limit_bytes + limit[b];
			}
			up_fail_den = chance(W, 1, 3) ? 2 + choose(W, 6) : 0;
			for (auto &p : h) p = nullptr;
			{
				LA<uint64_t> *roots[NB];
				Who rw[NB];
				for (int b = 0; b < NB; ++b) {
					roots[b] = new LA<uint64_t>(fresh(b, rw[b]));
				}
				for (int i = 0; i < NH; ++i) {
					uint32_t b = choose(W, NB);
					h[i] = new LA<uint64_t>(*roots[b]);
					who[i] = rw[b];
				}
				for (int b = 0; b < NB; ++b) delete roots[b];
			}
			uint32_t n = 3 + choose(W, 12);
			for (uint32_t k = 0; k < n; ++k) {
				uint32_t op = choose(W, 12);
				int i = (int) choose(W, NH), j = (int) choose(W, NH);
				log("op", op, (uint64_t) i, (uint64_t) j);
				char const *what = "";
				switch (op) {
					case 0:
						what = "copy assignment";
						if (!may_change(i)) break;
						*h[i] = *h[j];
						who[i] = who[j];
						break;
					case 1:
						what = "move assignment";
						if (!may_change(i)) break;
						{
							LA<uint64_t> t{*h[j]};
							*h[i] = std::move(t);
							who[i] = who[j];
							is(t, who[j], "moved-from by assignment");
						}
						break;
					case 2:
						what = "move construction";
						{
							LA<uint64_t> t{std::move(*h[i])};
							is(t, who[i], what);
							left(LA<char>{t}, who[i], what);
						}
						break;
					case 3:
					case 4:
						what = "swap";
						if (op == 3) {
							if constexpr (requires { swap(*h[i], *h[j]); }) swap(*h[i], *h[j]);
							else std::swap(*h[i], *h[j]);
						} else {
							using std::swap;
							swap(*h[i], *h[j]);
						}
						std::swap(who[i], who[j]);
						break;
					case 5:
						what = "rebinding";
						{
							LA<B24> t{*h[i]};
							LA<char> c{LA<B200>{t}};
							is(t, who[i], what);
							left(c, who[i], what);
						}
						break;
					case 6:
						what = "select_on_container_copy_construction";
						{
							LA<uint64_t> t = Tr::select_on_container_copy_construction(*h[i]);
							Who w = who[i];
							if constexpr (requires { Up<char>{}.select_on_container_copy_construction(); }) w.arena += 10;
							is(t, w, what);
							left(LA<char>{t}, w, what);
						}
						break;
					case 7:
					case 8: {
						what = "allocate";
						if (nheld == 6) break;
						bool small = op == 8;
						size_t cnt = (size_t[]) {0, 1, 2, 3, 8, 16, SIZE_MAX / 2 + 1, SIZE_MAX}[pick(W, {4, 4, 4, 4, 4, 4, 1, 1})];
						if (!small && cnt > SIZE_MAX / 8) cnt = SIZE_MAX / 8 + choose(W, 3); // the last two wrap around
						bool huge = cnt > 100;
						uint64_t bytes = huge ? (small ? cnt : SIZE_MAX / 8 * 8) : cnt * (small ? 1 : 8);
						void *p = nullptr;
						try {
							if (small) {
								LA<char> c{*h[i]};
								p = c.allocate(cnt);
							} else p = h[i]->allocate(cnt);
						} catch (std::exception const &) {
						}
						bool room = bytes <= limit[who[i].budget] - used[who[i].budget];
						if (!p) {
							probe("allocation refused");
							if (huge) probe("huge request refused");
							if (room && !huge && !up_fail_den) violation("spurious-refusal", "%llu bytes were refused with %llu of %llu in use", (unsigned long long) bytes, (unsigned long long) used[who[i].budget], (unsigned long long) limit[who[i].budget]);
							break;
						}
						if (!room) violation("limit-exceeded", "%llu bytes were allocated with %llu of %llu in use", (unsigned long long) bytes, (unsigned long long) used[who[i].budget], (unsigned long long) limit[who[i].budget]);
						if (huge) violation("limit-exceeded", "an impossible request was granted");
						used[who[i].budget] += bytes;
						NoInstr g;
						if ((*blocks)[p].arena != who[i].arena) violation("wrong-upstream", "the allocation went to upstream %d instead of %d", (*blocks)[p].arena, who[i].arena);
						held[nheld++] = {p, cnt, who[i], small};
						break;
					}
					case 9:
						what = "deallocate";
						if (nheld) drop((int) choose(W, (uint32_t) nheld));
						break;
					case 10: containers<std::vector<uint64_t, LA<uint64_t>>>(); break;
					default: containers<std::list<uint64_t, LA<uint64_t>>>(); break;
				}
				for (int q = 0; q < NH; ++q) is(*h[q], who[q], what);
				left(LA<char>{*h[i]}, who[i], what);
			}
			while (nheld) {
				int before = nheld;
				drop(0);
				if (nheld == before) violation("harness", "a block has no allocator left");
			}
			for (int q = 0; q < NH; ++q) left(LA<char>{*h[q]}, who[q], "at the end");
			for (auto *p : h) delete p;
			if (outstanding) violation("leak", "%llu bytes were never returned to the upstream allocator", (unsigned long long) outstanding);
		}
	};
	template<template<typename> typename Up, dtl::limit_allocator_syncness SY> void budgets() {
		{
			NoInstr n;
			if (!blocks) blocks = new std::map<void *, Blk>;
		}
		if constexpr (std::is_constructible_v<dtl::limit_allocator<int, Up, SY>, dtl::limit_allocator<char, Up, SY> const &>) {
			Budgets<Up, SY> b;
			b.run();
		}
		NoInstr n;
		if (live_blocks() != 0) violation("leak", "%zu blocks leaked (control block?)", live_blocks());
	}

	template<template<typename> typename Up, dtl::limit_allocator_syncness SY> void scenario() {
		using R = Run<Up, SY>;
		R *r;
		{
			NoInstr n;
			static R *keep = nullptr;
			delete keep;
			keep = r = new R;
			if (!blocks) blocks = new std::map<void *, Blk>;
		}
		if constexpr (!std::is_constructible_v<dtl::limit_allocator<int, Up, SY>, dtl::limit_allocator<char, Up, SY> const &>)
			violation("no-rebind", "a limit_allocator of this syncness can not be rebound to another value type");
		else r->run();
#ifdef FALLBACK
		if constexpr (std::is_same_v<Up<char>, Up2<char>>) violation("unusable", "a container with a limit_allocator whose upstream has no default constructor can not be copied: it does not compile");
#endif
		NoInstr n;
		if (live_blocks() != 0) violation("leak", "%zu blocks leaked (control block?)", live_blocks());
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "limit";
	using enum dtl::limit_allocator_syncness;
	h.scenarios = {{"synchronized, stateless upstream", 4, scenario<Up0, sync>}, {"synchronized, stateful upstream", 3, scenario<Up1, sync>},
	               {"unsynchronized, stateless upstream", 1, scenario<Up0, unsync>}, {"unsynchronized, stateful upstream", 1, scenario<Up1, unsync>},
	               {"upstream without default constructor", 1, scenario<Up2, sync>}, {"upstream that stays, other one for copies", 1, scenario<Up3, sync>},
	               {"several budgets, propagating upstream", 1, budgets<Up1, sync>}, {"several budgets, upstream that stays", 1, budgets<Up3, unsync>},
	               {"several budgets, stateless upstream", 1, budgets<Up0, sync>}};
	return h;
}
