// C15: data structures built from offset pointers keep working when the memory they live in
// moves to another address (as memory mapped files and shared memory do), with a region that
// runs out of space and allocations that fail.
#include "../sim/talloc.hpp"
#include <boost/container/list.hpp>
#include <boost/container/map.hpp>
#include <boost/interprocess/offset_ptr.hpp>
#include <cstring>
#include <dice/template-library/flex_array.hpp>
#include <dice/template-library/limit_allocator.hpp>
#include <dice/template-library/polymorphic_allocator.hpp>
#include <dice/template-library/static_string.hpp>
#include <dice/template-library/variant2.hpp>
#include <map>
#include <optional>
#include <string>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;
namespace bip = boost::interprocess;

namespace {
	struct Hdr {
		size_t size;
		size_t top;
		size_t tag;
	};
	uint32_t fail_den = 0;
	// live blocks of the current run, by offset: offset -> (size, arena)
	struct Live {
		size_t n;
		int arena;
	};
	std::map<size_t, Live> *live_map;
	std::map<size_t, std::vector<size_t>> *free_map; // size -> offsets
	uint64_t refused_space = 0;

	void *reg_alloc(Hdr *h, size_t n, size_t al, int arena) {
		if (h->tag != 0x4ead) violation("stale-pointer", "an allocator refers to memory that is not the current region");
		if (should_throw(fail_den, FAlloc)) throw std::bad_alloc{};
		NoInstr g;
		size_t sz = (n + 15) / 16 * 16;
		if (sz == 0) sz = 16;
		(void) al;
		auto &fl = (*free_map)[sz];
		size_t off;
		if (!fl.empty()) {
			off = fl.back();
			fl.pop_back();
		} else {
			if (n > h->size || h->top + sz > h->size) {
				++refused_space;
				throw std::bad_alloc{};
			}
			off = h->top;
			h->top += sz;
		}
		(*live_map)[off] = {n, arena};
		void *p = (char *) h + off;
		std::memset(p, 0xa5, n);
		log("alloc", n, (uint64_t) arena);
		return p;
	}
	void reg_free(Hdr *h, void *p, size_t n, int arena) {
		NoInstr g;
		if (h->tag != 0x4ead) violation("stale-pointer", "an allocator refers to memory that is not the current region");
		size_t off = (size_t) ((char *) p - (char *) h);
		auto it = live_map->find(off);
		if (it == live_map->end()) violation("bad-free", "a block was deallocated that the region did not hand out, or twice");
		if (it->second.arena != arena) violation("bad-free", "a block of allocator %d was deallocated through allocator %d", it->second.arena, arena);
		if (it->second.n != n) violation("bad-free", "a block of %zu bytes was deallocated as %zu bytes", it->second.n, n);
		live_map->erase(it);
		size_t sz = (n + 15) / 16 * 16;
		if (sz == 0) sz = 16;
		(*free_map)[sz].push_back(off);
		std::memset(p, 0xdd, n);
		log("free", n, (uint64_t) arena);
	}
	Hdr *the_region = nullptr; // default constructed allocators
	template<typename T, int ARENA>
	struct RA {
		using value_type = T;
		template<typename U> struct rebind {
			using other = RA<U, ARENA>;
		};
		bip::offset_ptr<Hdr> h;
		explicit RA(Hdr *x) noexcept : h{x} {}
		RA() noexcept : h{the_region} {}
		RA(RA const &) noexcept = default;
		RA &operator=(RA const &) noexcept = default;
		template<typename U> RA(RA<U, ARENA> const &o) noexcept : h{o.h} {}
		T *allocate(size_t n) { return (T *) reg_alloc(h.get(), n * sizeof(T), alignof(T), ARENA); }
		void deallocate(T *p, size_t n) { reg_free(h.get(), p, n * sizeof(T), ARENA); }
		friend bool operator==(RA const &a, RA const &b) noexcept { return a.h == b.h; }
	};
	template<typename T> using R1 = RA<T, 1>;
	template<typename T> using R2 = RA<T, 2>;
	template<typename T> using O1 = dtl::offset_ptr_stl_allocator<T, R1>;
	template<typename T> using O2 = dtl::offset_ptr_stl_allocator<T, R2>;
	template<typename T> using P1 = dtl::polymorphic_allocator<T, O1>;
	template<typename T> using P2 = dtl::polymorphic_allocator<T, O1, O2>;
	template<typename T> using L1 = dtl::limit_allocator<T, O1, dtl::limit_allocator_syncness::unsync>;

	template<typename T> struct Mk;
	template<typename T> struct Mk<O1<T>> {
		static O1<T> mk(uint32_t w) { return w % 2 ? O1<T>{std::in_place, the_region} : O1<T>{R1<T>{the_region}}; }
	};
	template<typename T> struct Mk<P1<T>> {
		static P1<T> mk(uint32_t w) { return P1<T>{Mk<O1<T>>::mk(w)}; }
	};
	template<typename T> struct Mk<P2<T>> {
		static P2<T> mk(uint32_t w) { return w % 2 ? P2<T>{Mk<O1<T>>::mk(w / 2)} : P2<T>{std::in_place_type<O2<T>>, R2<T>{the_region}}; }
	};
	template<typename T> struct Mk<L1<T>> {
		static L1<T> mk(uint32_t) { return L1<T>{1 << 20, Mk<O1<T>>::mk(0)}; }
	};

	template<template<typename> typename A>
	struct Run {
		using SS = dtl::basic_static_string<char, std::char_traits<char>, A<char>>;
		using V = std::vector<uint64_t, A<uint64_t>>;
		using VS = std::vector<SS, A<SS>>;
		using BL = boost::container::list<uint64_t, A<uint64_t>>;
		using BM = boost::container::map<uint64_t, SS, std::less<uint64_t>, A<std::pair<uint64_t const, SS>>>;
		using FA = dtl::flex_array<uint64_t, dtl::dynamic_extent, 6>;
		using VA = dtl::variant2<SS, uint64_t>;
		static constexpr int N = 2;
		struct Root {
			std::optional<SS> s[N];
			std::optional<V> v[N];
			std::optional<VS> vs;
			std::optional<BL> l;
			std::optional<BM> m;
			FA fa;
			std::optional<VA> va;
		};
		struct Model {
			std::string s[N];
			std::vector<uint64_t> v[N];
			std::vector<std::string> vs;
			std::vector<uint64_t> l;
			std::map<uint64_t, std::string> m;
			std::vector<uint64_t> fa;
			std::string vas;
			uint64_t vau = 0;
			bool va_str = true;
		};
		static constexpr size_t ROOT = 64;

		static std::string text(uint32_t st) {
			NoInstr g;
			static uint32_t const lens[] = {0, 1, 7, 8, 15, 16, 33, 100};
			std::string r(lens[choose(W, 8)], 'x');
			for (size_t i = 0; i < r.size(); ++i) r[i] = (char) ('a' + (st * 7 + i) % 26);
			return r;
		}

		static void run() {
			std::map<size_t, Live> lm;
			std::map<size_t, std::vector<size_t>> fm;
			Model m;
			live_map = &lm;
			free_map = &fm;
			refused_space = 0;
			fail_den = 0;
			size_t size = (size_t[]) {1 << 16, 4096, 2600}[pick(W, {2, 2, 2})];
			void *raw = nullptr;
			{
				NoInstr g;
				posix_memalign(&raw, 64, size);
				std::memset(raw, 0xcd, size);
			}
			auto *h = new (raw) Hdr{size, ROOT + (sizeof(Root) + 63) / 64 * 64, 0x4ead};
			the_region = h;
			Root *r = new ((char *) raw + ROOT) Root;
			auto mk = [&]<typename T>() { return Mk<A<T>>::mk(choose(W, 4)); };
			for (int i = 0; i < N; ++i) {
				r->s[i].emplace(mk.template operator()<char>());
				r->v[i].emplace(mk.template operator()<uint64_t>());
			}
			r->vs.emplace(mk.template operator()<SS>());
			r->l.emplace(mk.template operator()<uint64_t>());
			r->m.emplace(std::less<uint64_t>{}, mk.template operator()<std::pair<uint64_t const, SS>>());
			r->va.emplace(std::in_place_index<1>, 5u);
			m.va_str = false;
			m.vau = 5;
			fail_den = (uint32_t[]) {0, 2, 5, 12}[pick(W, {3, 1, 2, 2})];

			auto check = [&](char const *when) {
				NoInstr g;
				add_evals(1);
				using SV = std::string_view;
				for (int i = 0; i < N; ++i) {
					if (static_cast<SV>(*r->s[i]) != m.s[i]) violation("content", "string %d differs from the model %s", i, when);
					if (!std::equal(r->v[i]->begin(), r->v[i]->end(), m.v[i].begin(), m.v[i].end())) violation("content", "vector %d differs from the model %s", i, when);
				}
				if (r->vs->size() != m.vs.size()) violation("content", "the vector of strings differs from the model %s", when);
				for (size_t i = 0; i < m.vs.size(); ++i)
					if (static_cast<SV>((*r->vs)[i]) != m.vs[i]) violation("content", "a string of a vector differs from the model %s", when);
				if (!std::equal(r->l->begin(), r->l->end(), m.l.begin(), m.l.end()) || !std::equal(r->l->rbegin(), r->l->rend(), m.l.rbegin(), m.l.rend()))
					violation("content", "the list differs from the model %s", when);
				if (r->m->size() != m.m.size()) violation("content", "the map differs from the model %s", when);
				for (auto &[k, t] : m.m) {
					auto it = r->m->find(k);
					if (it == r->m->end() || static_cast<SV>(it->second) != t) violation("content", "key %llu of the map differs from the model %s", (unsigned long long) k, when);
				}
				if (!std::equal(r->fa.begin(), r->fa.end(), m.fa.begin(), m.fa.end())) violation("content", "the flex_array differs from the model %s", when);
				if (m.va_str != (r->va->index() == 0)) violation("content", "the variant2 holds the wrong alternative %s", when);
				if (m.va_str ? static_cast<SV>(get<0>(*r->va)) != m.vas : get<1>(*r->va) != m.vau) violation("content", "the variant2 differs from the model %s", when);
			};
			uint32_t steps = 4 + choose(W, 40);
			for (uint32_t st = 0; st < steps; ++st) {
				uint32_t k = pick(W, {4, 3, 3, 3, 2, 2, 3, 3, 3, 2, 2, 2, 2, 2});
				int i = (int) choose(W, N), j = 1 - i;
				log("op", k, (uint64_t) i);
				if (k == 6) { // the whole region moves
					NoInstr g;
					void *nw = nullptr;
					posix_memalign(&nw, 64, size);
					std::memset(nw, 0xee, size);
					std::memcpy(nw, raw, h->top);
					std::memset(raw, 0xdd, size);
					free(raw);
					raw = nw;
					h = (Hdr *) raw;
					the_region = h;
					r = (Root *) ((char *) raw + ROOT);
					fired(FRelocate);
					nontrivial();
					check("after the region moved");
					continue;
				}
				bool ok = false;
				std::string t = text(st);
				std::string tj = m.s[j];
				bool str = chance(W, 1, 2);
				uint64_t key = choose(W, 6);
				size_t fsz = choose(W, 7);
				std::optional<SS> tmp;
				size_t space0 = refused_space;
				uint64_t nfail = fail_den;
				{
					OpScope o;
					try {
						switch (k) {
						case 0: r->v[i]->push_back(st); break;
						case 1: // a new text; the temporary is built with an equal allocator, which lives outside of the region
							tmp.emplace(std::string_view{t}, mk.template operator()<char>());
							*r->s[i] = std::move(*tmp);
							break;
						case 2: r->vs->emplace_back(std::string_view{t}, mk.template operator()<char>()); break;
						case 3: r->l->push_back(st); break;
						case 4: r->m->try_emplace(key, std::string_view{t}, mk.template operator()<char>()); break;
						case 5: *r->s[i] = *r->s[j]; break;
						case 7: if (!r->v[i]->empty()) r->v[i]->erase(r->v[i]->begin()); break;
						case 8: if (!r->vs->empty()) r->vs->erase(r->vs->begin()); break;
						case 9: if (!r->l->empty()) r->l->pop_front(); break;
						case 10: r->m->erase(key); break;
						case 11: r->fa.resize(fsz); for (auto &x : r->fa) x = st; break;
						case 12:
							if (str) {
								tmp.emplace(std::string_view{t}, mk.template operator()<char>());
								*r->va = std::move(*tmp);
							} else *r->va = (uint64_t) st;
							break;
						case 13: *r->v[i] = V(*r->v[j], r->v[i]->get_allocator()); break;
						}
						ok = true;
					} catch (std::bad_alloc const &) {
						probe("refused");
						if (!nfail && refused_space == space0) violation("spurious-refusal", "an operation failed although no allocation did");
					}
				}
				{
					NoInstr g;
					if (ok) switch (k) {
						case 0: m.v[i].push_back(st); break;
						case 1: m.s[i] = t; break;
						case 2: m.vs.push_back(t); break;
						case 3: m.l.push_back(st); break;
						case 4: m.m.try_emplace(key, t); break;
						case 5: m.s[i] = tj; break;
						case 7: if (!m.v[i].empty()) m.v[i].erase(m.v[i].begin()); break;
						case 8: if (!m.vs.empty()) m.vs.erase(m.vs.begin()); break;
						case 9: if (!m.l.empty()) m.l.erase(m.l.begin()); break;
						case 10: m.m.erase(key); break;
						case 11: m.fa.assign(fsz, st); break;
						case 12:
							m.va_str = str;
							if (str) m.vas = t;
							else m.vau = st;
							break;
						case 13: m.v[i] = m.v[j]; break;
					}
					else if (k == 8) { // moving strings between unequal allocators copies them; only the basic guarantee is left
						m.vs.clear();
						for (auto &x : *r->vs) m.vs.emplace_back(x.begin(), x.end());
					}
				}
				check(ok ? "after an operation" : "after a refused operation");
			}
			// every block lies where the model says, and everything is given back
			fail_den = 0;
			r->~Root();
			NoInstr g;
			if (!lm.empty()) violation("leak", "%zu blocks of the region were never given back", lm.size());
			free(raw);
		}
	};
	// the wrapper itself over a stateful upstream
	template<typename T> using U1 = TA<T, 1, true, true, true>;
	template<typename T> using U2 = TA<T, 2, false, false, false>;
	template<typename T> using U3 = TA<T, 3, false, true, false>;
	template<typename T> using U4 = TA<T, 4, true, false, false, true>;
	template<template<typename> typename U>
	void wrapper() {
		using O = dtl::offset_ptr_stl_allocator<uint64_t, U>;
		using OI = dtl::offset_ptr_stl_allocator<char, U>;
		using TR = std::allocator_traits<O>;
		using UT = std::allocator_traits<U<uint64_t>>;
		ledger_reset();
		ledger().fail_den = (uint32_t[]) {0, 2, 5}[pick(W, {2, 2, 2})];
		if (TR::propagate_on_container_copy_assignment::value != UT::propagate_on_container_copy_assignment::value ||
		    TR::propagate_on_container_move_assignment::value != UT::propagate_on_container_move_assignment::value ||
		    TR::propagate_on_container_swap::value != UT::propagate_on_container_swap::value || TR::is_always_equal::value != UT::is_always_equal::value)
			violation("traits", "the traits differ from those of the upstream allocator");
		constexpr bool EQ = UT::is_always_equal::value;
		auto id_of = [&](int i) { return U<char>::FAMILY * 100 + (EQ ? 0 : i); };
		struct B {
			typename TR::pointer p;
			size_t n;
			int id;
		};
		{
			constexpr int N = 3;
			std::optional<O> h[N];
			int id[N];
			std::vector<B> blks;
			for (int i = 0; i < N; ++i) {
				int k = (int) choose(W, 3);
				id[i] = id_of(k);
				switch (choose(W, 4)) {
				case 0: h[i].emplace(std::in_place, k); break;
				case 1: h[i].emplace(U<uint64_t>{k}); break;
				case 2: { U<uint64_t> u{k}; h[i].emplace(u); break; }
				default: h[i].emplace(OI{std::in_place, k}); break;
				}
			}
			uint32_t steps = 4 + choose(W, 30);
			for (uint32_t st = 0; st < steps; ++st) {
				uint32_t k = pick(W, {5, 3, 2, 2, 2, 2});
				int i = (int) choose(W, N), j = (int) choose(W, N);
				log("wop", k, (uint64_t) i, (uint64_t) j);
				if (k == 0) {
					size_t n = 1 + choose(W, 4);
					OpScope o;
					try {
						auto p = TR::allocate(*h[i], n);
						NoInstr g;
						auto it = ledger().m.find((uintptr_t) std::to_address(p));
						if (it == ledger().m.end() || it->second.arena != id[i] || it->second.bytes != n * 8) violation("routing", "a block does not come from the upstream allocator held");
						blks.push_back({p, n, id[i]});
					} catch (std::bad_alloc const &) {
						if (!ledger().fail_den) violation("spurious-refusal", "allocate failed although upstream did not");
					}
				} else if (k == 1 && !blks.empty()) {
					size_t b = choose(W, (uint32_t) blks.size());
					O a{std::in_place, blks[b].id % 100};
					if (blks[b].id % 100 >= 50) a.upstream_allocator().id = blks[b].id;
					TR::deallocate(a, blks[b].p, blks[b].n);
					NoInstr g;
					blks.erase(blks.begin() + (long) b);
				} else if (k == 2) {
					if (choose(W, 2)) *h[i] = *h[j];
					else *h[i] = O{*h[j]};
					id[i] = id[j];
				} else if (k == 3) {
					using std::swap;
					swap(*h[i], *h[j]);
					std::swap(id[i], id[j]);
				} else if (k == 4) {
					auto t = TR::select_on_container_copy_construction(*h[j]);
					int want = EQ || id[j] % 100 >= 50 ? id[j] : id[j] + 50;
					if (t.upstream_allocator().id != want) violation("routing", "select_on_container_copy_construction does not follow the upstream allocator");
				} else if (k == 5) {
					OI r{*h[j]};
					O back{r};
					if (!(back == *h[j]) || r.upstream_allocator().id != id[j]) violation("equality", "a rebound allocator differs from its source");
				}
				add_evals(1);
				for (int a = 0; a < N; ++a)
					for (int b = 0; b < N; ++b) {
						if (h[a]->upstream_allocator().id != id[a] || std::as_const(*h[a]).upstream_allocator().id != id[a]) violation("routing", "the wrapper holds another upstream allocator than the one it was given");
						if ((*h[a] == *h[b]) != (id[a] == id[b]) || (*h[a] != *h[b]) != (id[a] != id[b])) violation("equality", "wrappers compare differently from their upstream allocators");
					}
			}
			for (auto &b : blks) {
				O a{std::in_place, b.id % 100};
				if (b.id % 100 >= 50) a.upstream_allocator().id = b.id;
				a.deallocate(b.p, b.n);
			}
			NoInstr g;
			blks = {};
		}
		if (!ledger().m.empty()) violation("leak", "blocks were never given back");
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "reloc";
	h.scenarios = {{"offset_ptr_stl_allocator", 3, Run<O1>::run}, {"polymorphic_allocator of 1", 1, Run<P1>::run}, {"polymorphic_allocator of 2", 2, Run<P2>::run}, {"limit_allocator", 1, Run<L1>::run}, {"wrapper 1", 1, wrapper<U1>}, {"wrapper 2", 1, wrapper<U2>}, {"wrapper 3", 1, wrapper<U3>}, {"wrapper 4", 1, wrapper<U4>}};
	return h;
}
