// C13: dice::template_library::pool / pool_allocator over failing system memory.
#include "../sim/payload.hpp"
#include <array>
#include <cstring>
#include <deque>
#include <dice/template-library/pool_allocator.hpp>
#include <list>
#include <map>
#include <string>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	struct Region {
		size_t n;
		uint8_t pat;
		size_t bucket; // index, or npos
	};
	struct Raw {
		std::map<uintptr_t, Region> live; // harness memory
		void fill(void *p, size_t n, uint8_t pat) {
			for (size_t i = 0; i < n; ++i) ((uint8_t *) p)[i] = (uint8_t) (pat + i * 7);
		}
		void verify(void *p, size_t n, uint8_t pat, char const *when) {
			for (size_t i = 0; i < n; ++i)
				if (((uint8_t *) p)[i] != (uint8_t) (pat + i * 7)) violation("content", "byte %zu of a live block of %zu bytes changed (%s)", i, n, when);
		}
		void insert(void *p, size_t n, uint8_t pat, size_t bucket) {
			NoInstr g;
			auto a = (uintptr_t) p;
			add_evals(1);
			if (!p) violation("null", "allocate(%zu) returned null", n);
			size_t al = n == 0 ? 1 : (n & -n);
			if (al > alignof(std::max_align_t)) al = alignof(std::max_align_t);
			if (a % al) violation("misaligned", "a block of %zu bytes is only aligned to %zu bytes, objects of this size may need %zu", n, (size_t) (a & -a), al);
			auto it = live.upper_bound(a);
			if (it != live.end() && it->first < a + (n ? n : 1)) violation("overlap", "a block of %zu bytes overlaps a live block of %zu bytes", n, it->second.n);
			if (it != live.begin()) {
				auto pr = std::prev(it);
				if (pr->first + (pr->second.n ? pr->second.n : 1) > a) violation("overlap", "a block of %zu bytes overlaps a live block of %zu bytes", n, pr->second.n);
			}
			live[a] = {n, pat, bucket};
		}
	};

	template<size_t... B>
	struct PoolRun {
		static constexpr std::array<size_t, sizeof...(B)> bs{B...};
		static size_t bucket_of(size_t n) {
			for (size_t i = 0; i < bs.size(); ++i)
				if (n <= bs[i]) return i;
			return SIZE_MAX;
		}
		static void raw() {
			Raw R;
			size_t free_chunks[sizeof...(B)] = {};
			uint32_t steps = 4 + choose(W, 60);
			bool grow = chance(W, 1, 60); // buckets grow in larger and larger steps
			if (grow) {
				steps = 200 + choose(W, 500);
				probe("long history");
			}
			cfg.alloc_den = (uint32_t[]) {0, 1, 2, 3, 6}[pick(W, {3, 1, 2, 2, 2})];
			uint32_t den = cfg.alloc_den;
			{
				dtl::pool<B...> p;
				size_t base_live = live_blocks();
				for (uint32_t s = 0; s < steps; ++s) {
					uint32_t k = grow ? pick(W, {30, 8, 1}) : pick(W, {6, 4, 1});
					if (k == 2) { // memory pressure comes and goes
						cfg.alloc_den = cfg.alloc_den == 1 ? den : 1;
						log("pressure", cfg.alloc_den);
						continue;
					}
					if (k == 1 && !R.live.empty()) {
						NoInstr *g = new NoInstr;
						auto it = R.live.begin();
						std::advance(it, choose(W, (uint32_t) R.live.size()));
						auto [a, r] = *it;
						R.live.erase(it);
						delete g;
						R.verify((void *) a, r.n, r.pat, "before deallocation");
						log("deallocate", r.n);
						op_enter();
						p.deallocate((void *) a, r.n);
						op_leave();
						if (r.bucket != SIZE_MAX) free_chunks[r.bucket]++;
						continue;
					}
					uint32_t w = pick(W, {5, 3, 2});
					size_t b = bs[choose(W, sizeof...(B))];
					size_t n = w == 0 ? b : w == 1 ? (size_t) 1 + choose(W, (uint32_t) b) : (size_t[]) {bs.back() + 1, bs.back() * 2, 16, 32, 48, 0}[choose(W, 6)];
					void *q = nullptr;
					log("allocate", n);
					bool threw = false;
					op_enter();
					try {
						q = p.allocate(n);
					} catch (std::bad_alloc const &) {
						threw = true;
					}
					op_leave();
					size_t bi = bucket_of(n);
					if (threw) {
						probe("allocation failed");
						if (cfg.alloc_den == 0) violation("spurious-refusal", "allocate(%zu) failed although no memory was refused", n);
						if (bi != SIZE_MAX && free_chunks[bi]) violation("not-reused", "allocate(%zu) failed for lack of memory although %zu freed blocks of that bucket are available", n, free_chunks[bi]);
						// every live block is untouched
						for (auto &[a, r] : R.live) R.verify((void *) a, r.n, r.pat, "after a failed allocation");
						continue;
					}
					R.insert(q, n, (uint8_t) s, bi);
					R.fill(q, n, (uint8_t) s);
					if (bi != SIZE_MAX && free_chunks[bi]) free_chunks[bi]--;
				}
				for (auto &[a, r] : R.live) {
					R.verify((void *) a, r.n, r.pat, "at the end");
					if (r.bucket == SIZE_MAX) p.deallocate((void *) a, r.n); // large blocks are not part of the pool
				}
				(void) base_live;
				NoInstr g;
				R.live.clear();
			}
			if (live_blocks() != 0) violation("leak", "%zu system blocks leaked by a destroyed pool", live_blocks());
		}

		// ---- pool_allocators of several types on one pool ----------------
		template<size_t N> struct Sized {
			char x[N];
		};
		struct Blk {
			void *p;
			size_t n;
			int type, pool;
			uint8_t pat;
		};
		template<typename T> static T *get(dtl::pool_allocator<char, B...> const &a, size_t n) {
			dtl::pool_allocator<T, B...> t{a};
			return t.allocate(n);
		}
		static void handles() {
			Raw R;
			cfg.alloc_den = 0;
			using A = dtl::pool_allocator<char, B...>;
			constexpr int NH = 4;
			static constexpr size_t sizes[6] = {1, 8, 24, 3, 16, 200};
			{
				std::optional<A> h[NH];
				int pl[NH]; // which pool
				int pools = 0;
				std::vector<Blk> held;
				std::map<int, std::map<size_t, size_t>> spare; // pool, bucket: freed chunks
				for (int i = 0; i < NH; ++i) {
					if (i && chance(W, 1, 2)) {
						h[i].emplace(*h[i - 1]);
						pl[i] = pl[i - 1];
					} else {
						h[i].emplace();
						pl[i] = pools++;
					}
				}
				uint32_t den = (uint32_t[]) {0, 1, 2, 3, 6}[pick(W, {3, 1, 2, 2, 2})];
				auto others = [&](int i) {
					for (int k = 0; k < NH; ++k)
						if (k != i && pl[k] == pl[i]) return true;
					return false;
				};
				auto give_back = [&](size_t k) {
					Blk b = held[k];
					int via = -1;
					uint32_t from = choose(W, NH);
					for (uint32_t q = 0; q < NH; ++q)
						if (pl[(from + q) % NH] == b.pool) via = (int) ((from + q) % NH);
					if (via < 0) violation("harness", "a block without a pool");
					{
						NoInstr g;
						held.erase(held.begin() + (long) k);
						R.live.erase((uintptr_t) b.p);
					}
					size_t bytes = b.n * sizes[b.type];
					R.verify(b.p, bytes, b.pat, "before deallocation");
					A &a = *h[via];
					log("deallocate", bytes, (uint64_t) b.pool);
					op_enter();
					switch (b.type) {
						case 0: a.deallocate((char *) b.p, b.n); break;
						case 1: dtl::pool_allocator<uint64_t, B...>{a}.deallocate((uint64_t *) b.p, b.n); break;
						case 2: dtl::pool_allocator<Sized<24>, B...>{a}.deallocate((Sized<24> *) b.p, b.n); break;
						case 3: dtl::pool_allocator<Sized<3>, B...>{a}.deallocate((Sized<3> *) b.p, b.n); break;
						case 4: dtl::pool_allocator<Sized<16>, B...>{a}.deallocate((Sized<16> *) b.p, b.n); break;
						default: dtl::pool_allocator<Sized<200>, B...>{a}.deallocate((Sized<200> *) b.p, b.n); break;
					}
					op_leave();
					NoInstr g;
					if (size_t bi = bucket_of(bytes); bi != SIZE_MAX) ++spare[b.pool][bi];
				};
				auto alike = [&](char const *what) {
					add_evals(1);
					for (int i = 0; i < NH; ++i)
						for (int k = 0; k < NH; ++k) {
							bool same = pl[i] == pl[k];
							if ((*h[i] == *h[k]) != same || (*h[i] != *h[k]) == same || (h[i]->underlying_pool() == h[k]->underlying_pool()) != same)
								violation("not-equal", "after %s two pool_allocators with %s compare %s", what, same ? "one pool" : "distinct pools", *h[i] == *h[k] ? "equal" : "unequal");
							if ((dtl::pool_allocator<uint64_t, B...>{*h[i]} == dtl::pool_allocator<uint64_t, B...>{*h[k]}) != same) violation("not-equal", "after %s rebound pool_allocators disagree with their sources", what);
						}
				};
				uint32_t steps = 6 + choose(W, 50);
				for (uint32_t s = 0; s < steps; ++s) {
					cfg.alloc_den = den;
					uint32_t op = pick(W, {8, 6, 2, 2, 2, 2, 2, 1});
					int i = (int) choose(W, NH), j = (int) choose(W, NH);
					log("op", op, (uint64_t) i, (uint64_t) j);
					switch (op) {
						case 0: {
							int type = (int) choose(W, 6);
							size_t n = (size_t[]) {1, 1, 2, 0, 3, 8}[choose(W, 6)], bytes = n * sizes[type], bi = bucket_of(bytes);
							void *p = nullptr;
							bool threw = false;
							op_enter();
							try {
								switch (type) {
									case 0: p = h[i]->allocate(n); break;
									case 1: p = get<uint64_t>(*h[i], n); break;
									case 2: p = get<Sized<24>>(*h[i], n); break;
									case 3: p = get<Sized<3>>(*h[i], n); break;
									case 4: p = get<Sized<16>>(*h[i], n); break;
									default: p = get<Sized<200>>(*h[i], n); break;
								}
							} catch (std::bad_alloc const &) {
								threw = true;
							}
							op_leave();
							size_t *spp;
							{
								NoInstr g;
								spp = &spare[pl[i]][bi];
							}
							size_t &sp = *spp;
							if (threw) {
								probe("allocation failed");
								if (!den) violation("spurious-refusal", "%zu bytes were refused although no memory was refused", bytes);
								if (bi != SIZE_MAX && sp) violation("not-reused", "%zu bytes were refused for lack of memory although %zu freed blocks of that bucket are available", bytes, sp);
								break;
							}
							R.insert(p, bytes, (uint8_t) s, bi);
							R.fill(p, bytes, (uint8_t) s);
							NoInstr g;
							held.push_back({p, n, type, pl[i], (uint8_t) s});
							if (bi != SIZE_MAX && sp) --sp;
							break;
						}
						case 1:
							if (!held.empty()) give_back(choose(W, (uint32_t) held.size()));
							break;
						case 2: { // assignment; the last allocator of a pool first gives its blocks back
							if (pl[i] == pl[j]) {
								*h[i] = *h[j];
								break;
							}
							if (!others(i))
								for (size_t k = held.size(); k-- > 0;)
									if (held[k].pool == pl[i]) give_back(k);
							if (chance(W, 1, 2)) *h[i] = *h[j];
							else {
								A t{*h[j]};
								*h[i] = std::move(t);
								if (!(t == *h[j]) || !t.underlying_pool()) violation("not-equal", "a moved-from pool_allocator lost its pool");
							}
							pl[i] = pl[j];
							break;
						}
						case 3: {
							using std::swap;
							swap(*h[i], *h[j]);
							std::swap(pl[i], pl[j]);
							break;
						}
						case 4: { // copies and moves, then destruction of the original
							A t{std::move(*h[i])};
							if (!(t == *h[i])) violation("not-equal", "a moved-from pool_allocator does not equal the one it was moved to");
							h[i].reset();
							A c = std::allocator_traits<A>::select_on_container_copy_construction(t);
							if (!(c == t)) violation("not-equal", "a copied container does not allocate from the pool of its source");
							h[i].emplace(dtl::pool_allocator<Sized<24>, B...>{c});
							break;
						}
						case 5: { // made of a pool
							if (!others(i) && pl[i] != pl[j])
								for (size_t k = held.size(); k-- > 0;)
									if (held[k].pool == pl[i]) give_back(k);
							auto keep = h[j]->underlying_pool();
							h[i].reset();
							h[i].emplace(keep);
							pl[i] = pl[j];
							break;
						}
						case 6: { // requests nobody can satisfy
							bool refused = false;
							size_t live = live_blocks();
							try {
								switch (choose(W, 5)) {
									case 0: (void) !get<uint64_t>(*h[i], SIZE_MAX / 8 + 1 + choose(W, 3)); break;
									case 1: (void) !get<Sized<24>>(*h[i], SIZE_MAX / 24 + 1 + choose(W, 3)); break;
									case 2: (void) !get<Sized<3>>(*h[i], SIZE_MAX / 3 + 1 + choose(W, 3)); break;
									case 3: (void) !get<Sized<200>>(*h[i], SIZE_MAX / 200 - choose(W, 2)); break;
									default: (void) !h[i]->allocate(SIZE_MAX - choose(W, 3)); break;
								}
							} catch (std::bad_alloc const &) {
								refused = true;
							}
							if (!refused) violation("overflow", "an allocation larger than the address space was granted");
							if (live != live_blocks()) violation("leak", "a refused request changed the number of system blocks");
							break;
						}
						default:
							den = den == 1 ? 3 : 1;
							break;
					}
					cfg.alloc_den = 0;
					alike(op == 2 ? "assignment" : op == 3 ? "a swap" : op == 4 ? "moving and copying" : "an operation");
					for (auto &b : held) R.verify(b.p, b.n * sizes[b.type], b.pat, "after an operation");
				}
				while (!held.empty()) give_back(held.size() - 1);
				// a freed block serves the next request even now
				cfg.alloc_den = 1;
				for (int i = 0; i < NH; ++i)
					for (size_t bi = 0; bi < bs.size(); ++bi) {
						size_t n;
						{
							NoInstr g;
							n = spare[pl[i]][bi];
						}
						std::vector<void *> got;
						size_t most = n > 20 ? 20 : n;
						for (size_t k = 0; k < most; ++k) {
							try {
								void *p = h[i]->allocate(bs[bi]);
								NoInstr g;
								got.push_back(p);
							} catch (std::bad_alloc const &) {
								violation("not-reused", "%zu bytes were refused for lack of memory although %zu freed blocks of that bucket are available", bs[bi], n - k);
							}
						}
						for (void *p : got) h[i]->deallocate((char *) p, bs[bi]);
						NoInstr g;
						got = {};
					}
				cfg.alloc_den = 0;
				NoInstr g;
				held = {};
				spare.clear();
				R.live.clear();
			}
			if (live_blocks() != 0) violation("leak", "%zu system blocks leaked", live_blocks());
		}

		// ---- standard containers ----------------------------------------
		template<typename T> using PA = dtl::pool_allocator<T, B...>;
		static void same_alloc(auto const &a, auto const &b) {
			if (!(a == b) || a.underlying_pool() != b.underlying_pool()) violation("not-equal", "a copied container does not allocate from the pool of its source");
		}
		static void containers() {
			cfg.alloc_den = (uint32_t[]) {0, 2, 4, 8}[pick(W, {2, 2, 2, 2})];
			using V = std::vector<uint64_t, PA<uint64_t>>;
			using L = std::list<uint64_t, PA<uint64_t>>;
			using M = std::map<uint64_t, uint64_t, std::less<>, PA<std::pair<uint64_t const, uint64_t>>>;
			constexpr int N = 3;
			try {
				std::optional<V> v[N];
				std::optional<L> l[N];
				std::optional<M> m[N];
				std::vector<uint64_t> mv[N], ml[N];
				std::map<uint64_t, uint64_t> mm[N];
				{
					PA<char> shared;
					if (shared == PA<char>{} || PA<char>::is_always_equal::value) violation("not-equal", "two pool_allocators with distinct pools compare equal");
					for (int i = 0; i < N; ++i) {
						bool sh = chance(W, 2, 3);
						v[i].emplace(sh ? PA<uint64_t>{shared} : PA<uint64_t>{});
						l[i].emplace(sh ? PA<uint64_t>{shared} : PA<uint64_t>{});
						m[i].emplace(sh ? PA<std::pair<uint64_t const, uint64_t>>{shared} : PA<std::pair<uint64_t const, uint64_t>>{});
						if (sh && !(v[i]->get_allocator() == PA<uint64_t>{shared})) violation("not-equal", "a rebound pool_allocator does not compare equal to its source");
						if (sh && v[i]->get_allocator().underlying_pool() != shared.underlying_pool()) violation("not-equal", "a rebound pool_allocator uses another pool");
					}
				} // the pool lives on in its users
				uint32_t steps = 3 + choose(W, 30);
				auto check = [&](char const *when) {
					NoInstr g;
					add_evals(1);
					for (int i = 0; i < N; ++i) {
						if (!std::equal(v[i]->begin(), v[i]->end(), mv[i].begin(), mv[i].end())) violation("content", "vector %d differs from the model %s", i, when);
						if (!std::equal(l[i]->begin(), l[i]->end(), ml[i].begin(), ml[i].end())) violation("content", "list %d differs from the model %s", i, when);
						if (!std::equal(m[i]->begin(), m[i]->end(), mm[i].begin(), mm[i].end())) violation("content", "map %d differs from the model %s", i, when);
					}
				};
				for (uint32_t s = 0; s < steps; ++s) {
					int i = (int) choose(W, N), j = (int) choose(W, N);
					uint32_t c = choose(W, 3), k = pick(W, {6, 2, 2, 2, 2, 2, 1});
					log("op", k, c, (uint64_t) (i * 10 + j));
					uint64_t x = 1000 + s;
					bool ok = false;
					op_enter();
					try {
						if (k == 0) {
							if (c == 0) v[i]->push_back(x);
							else if (c == 1) l[i]->push_back(x);
							else m[i]->emplace(x, s);
						} else if (k == 1) {
							if (c == 0 && !v[i]->empty()) v[i]->pop_back();
							else if (c == 1 && !l[i]->empty()) l[i]->pop_front();
							else if (c == 2 && !m[i]->empty()) m[i]->erase(m[i]->begin());
						} else if (k == 2 && i != j) {
							// copy-and-swap: the strong guarantee is the standard library's
							if (c == 0) { V t{*v[j]}; same_alloc(t.get_allocator(), v[j]->get_allocator()); *v[i] = std::move(t); }
							else if (c == 1) { L t{*l[j]}; same_alloc(t.get_allocator(), l[j]->get_allocator()); *l[i] = std::move(t); }
							else { M t{*m[j]}; same_alloc(t.get_allocator(), m[j]->get_allocator()); *m[i] = std::move(t); }
						} else if (k == 3 && i != j) {
							if (c == 0) swap(*v[i], *v[j]);
							else if (c == 1) swap(*l[i], *l[j]);
							else swap(*m[i], *m[j]);
						} else if (k == 4) { // moved-from containers stay usable
							if (c == 0) { V t{std::move(*v[i])}; v[i]->clear(); v[i]->push_back(x); *v[i] = std::move(t); t.clear(); t.push_back(x); }
							else if (c == 1) { L t{std::move(*l[i])}; l[i]->clear(); try { l[i]->push_back(x); } catch (std::bad_alloc const &) {} *l[i] = std::move(t); t.clear(); t.push_back(x); }
							else { M t{std::move(*m[i])}; m[i]->clear(); try { m[i]->emplace(x, x); } catch (std::bad_alloc const &) {} *m[i] = std::move(t); t.clear(); t.emplace(x, x); }
						} else if (k == 5) {
							if (c == 0) { v[i]->clear(); v[i]->shrink_to_fit(); }
							else if (c == 1) l[i]->clear();
							else m[i]->clear();
						} else if (k == 6) { // a request nobody can satisfy is refused, not truncated
							PA<std::array<char, 16>> a{v[i]->get_allocator()};
							bool refused = false;
							try {
								auto *p = a.allocate(SIZE_MAX / 16 + 2);
								a.deallocate(p, 1);
							} catch (std::bad_alloc const &) {
								refused = true;
							}
							if (!refused) violation("overflow", "an allocation larger than the address space was granted");
						}
						ok = true;
					} catch (std::bad_alloc const &) {
						probe("container operation refused");
					}
					op_leave();
					NoInstr g;
					if (k == 4 && !ok) {
						// the move itself cannot fail; a failed push_back of the vector case leaves the content in t, which is gone
						if (c == 0 && v[i]->empty()) mv[i].clear();
					}
					if (ok) {
						if (k == 0) { if (c == 0) mv[i].push_back(x); else if (c == 1) ml[i].push_back(x); else mm[i].emplace(x, s); }
						else if (k == 1) {
							if (c == 0 && !mv[i].empty()) mv[i].pop_back();
							else if (c == 1 && !ml[i].empty()) ml[i].erase(ml[i].begin());
							else if (c == 2 && !mm[i].empty()) mm[i].erase(mm[i].begin());
						} else if (k == 2 && i != j) { if (c == 0) mv[i] = mv[j]; else if (c == 1) ml[i] = ml[j]; else mm[i] = mm[j]; }
						else if (k == 3 && i != j) { if (c == 0) swap(mv[i], mv[j]); else if (c == 1) swap(ml[i], ml[j]); else swap(mm[i], mm[j]); }
						else if (k == 5) { if (c == 0) mv[i].clear(); else if (c == 1) ml[i].clear(); else mm[i].clear(); }
					}
					check(ok ? "after a successful operation" : "after a refused operation");
				}
				NoInstr g;
				for (int i = 0; i < N; ++i) {
					mv[i] = {};
					ml[i] = {};
					mm[i] = {};
				}
			} catch (std::bad_alloc const &) {
				violation("spurious-refusal", "an allocation failed outside of fault injection");
			}
			if (live_blocks() != 0) violation("leak", "%zu system blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "pool";
	h.scenarios = {{"pool<8,16>", 2, PoolRun<8, 16>::raw},          {"pool<4,24,40>", 3, PoolRun<4, 24, 40>::raw}, {"pool<48>", 1, PoolRun<48>::raw},
	               {"pool<1,8,32,64,128>", 1, PoolRun<1, 8, 32, 64, 128>::raw}, {"containers <8,16>", 2, PoolRun<8, 16>::containers}, {"containers <24,40,64>", 2, PoolRun<24, 40, 64>::containers},
	               {"containers <8>", 1, PoolRun<8>::containers},  {"allocators <8,16>", 1, PoolRun<8, 16>::handles}, {"allocators <4,24,40>", 2, PoolRun<4, 24, 40>::handles}};
	return h;
}
