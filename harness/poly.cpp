// C14: dice::template_library::polymorphic_allocator over failing recording allocators.
#include "../sim/talloc.hpp"
#include <dice/template-library/polymorphic_allocator.hpp>
#include <list>
#include <memory>
#include <optional>
#include <unordered_set>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	int64_t tok_live = 0;
	struct Tok { // makes an allocator non-trivial, so lost or doubled lifetimes show
		static constexpr uint64_t LIVE = 0x70c170c170c170c1ull;
		uint64_t c = LIVE;
		void ok() const {
			if (c != LIVE) violation("allocator-lifetime", "an allocator that is not alive was used");
		}
		Tok() noexcept { ++tok_live; }
		Tok(Tok const &o) noexcept { o.ok(); ++tok_live; }
		Tok &operator=(Tok const &o) noexcept { ok(); o.ok(); return *this; }
		~Tok() { ok(); c = 0; --tok_live; }
		friend bool operator==(Tok const &a, Tok const &b) noexcept { a.ok(); b.ok(); return true; }
	};
	// TA with a non-trivial part
	template<typename T, int FAM, bool CA, bool MA, bool SW>
	struct TN : TA<T, FAM, CA, MA, SW, false> {
		using Base = TA<T, FAM, CA, MA, SW, false>;
		template<typename U> struct rebind {
			using other = TN<U, FAM, CA, MA, SW>;
		};
		Tok tok;
		TN() = default;
		explicit TN(int i) noexcept : Base{i} {}
		template<typename U> TN(TN<U, FAM, CA, MA, SW> const &o) noexcept {
			o.tok.ok();
			this->id = o.id;
		}
		TN select_on_container_copy_construction() const {
			TN r;
			r.id = Base::select_on_container_copy_construction().id;
			return r;
		}
		friend bool operator==(TN const &a, TN const &b) noexcept { return a.tok == b.tok && a.id == b.id; }
	};

	template<typename T> using A1 = TA<T, 1, true, true, true>;
	template<typename T> using A2 = TN<T, 2, true, true, true>;
	template<typename T> using A3 = TA<T, 3, true, true, true, true>;
	template<typename T> using N1 = TN<T, 4, false, false, false>;
	template<typename T> using N2 = TA<T, 5, false, false, false>;
	template<typename T> using M1 = TA<T, 6, true, false, false>;
	template<typename T> using M2 = TN<T, 7, false, true, false>;
	template<typename T> using M3 = TA<T, 8, false, false, true>;

	template<typename T> using C1 = TA<T, 10, true, false, false>;
	template<typename T> using C2 = TN<T, 11, true, false, false>;
	template<typename T> using V1 = TN<T, 12, false, true, false>;
	template<typename T> using V2 = TA<T, 13, false, true, false>;
	template<typename T> using S1 = TA<T, 14, false, false, true>;
	template<typename T> using S2 = TN<T, 15, false, false, true>;

	template<typename T> using E1 = TA<T, 16, false, false, false, true>;
	template<typename T> using E2 = TA<T, 17, false, false, false, true>;
	template<typename T> using E3 = TA<T, 18, true, true, true, true>;

	void arena_is(void const *p, int id, char const *what) {
		NoInstr g;
		auto &m = ledger().m;
		auto it = m.upper_bound((uintptr_t) p);
		if (it == m.begin() || std::prev(it)->first + std::prev(it)->second.bytes <= (uintptr_t) p) violation("routing", "%s is not in a block of any alternative", what);
		if (std::prev(it)->second.arena != id) violation("routing", "%s is in a block of allocator %d, the polymorphic_allocator holds %d", what, std::prev(it)->second.arena, id);
		add_evals(1);
	}

	template<template<typename> typename... As>
	struct Poly {
		static constexpr size_t K = sizeof...(As);
		template<typename T> using PA = dtl::polymorphic_allocator<T, As...>;
		using TR = std::allocator_traits<PA<uint64_t>>;
		static constexpr int fams[K] = {As<char>::FAMILY...};
		static constexpr bool all_ca = (As<char>::propagate_on_container_copy_assignment::value && ...), none_ca = !(As<char>::propagate_on_container_copy_assignment::value || ...);
		static constexpr bool all_ma = (As<char>::propagate_on_container_move_assignment::value && ...), none_ma = !(As<char>::propagate_on_container_move_assignment::value || ...);
		static constexpr bool all_sw = (As<char>::propagate_on_container_swap::value && ...), none_sw = !(As<char>::propagate_on_container_swap::value || ...);

		static int norm(int id) { // ids an always-equal alternative can have
			int r = id;
			((id / 100 == As<char>::FAMILY && As<char>::is_always_equal::value ? (void) (r = id / 100 * 100) : (void) 0), ...);
			return r;
		}
		static int some_id() { return norm(fams[choose(W, K)] * 100 + (int) choose(W, 3)); }
		static int copied(int id) { return norm(id % 100 >= 50 ? id : id + 50); }
		template<typename T> static PA<T> make(int id) {
			std::optional<PA<T>> r;
			size_t ix = 0;
			auto one = [&]<template<typename> typename A>(size_t i) {
				if (fams[i] != id / 100) return;
				A<T> a{id % 100};
				r.emplace(std::in_place_type<A<T>>, id % 100);
				if (!(*r == PA<T>{a})) violation("equality", "two polymorphic_allocators holding the same allocator compare unequal");
			};
			((one.template operator()<As>(ix), ++ix), ...);
			return *r;
		}
		template<typename T> static void holds(PA<T> const &a, int id, char const *when) {
			NoInstr g;
			add_evals(1);
			PA<T> const e = make<T>(id);
			bool one = false;
			(([&] {
				 bool want = As<char>::FAMILY == id / 100;
				 if (a.template holds_allocator<As>() != want || a.template holds_allocator<As<T>>() != want) violation("holds", "holds_allocator is wrong about allocator %d %s", id, when);
				 one |= want;
			 }()),
			 ...);
			if (!(a == e) || a != e) violation("holds", "a polymorphic_allocator does not hold allocator %d %s", id, when);
			for (int f : fams)
				for (int k = 0; k < 2; ++k) {
					int o = norm(f * 100 + k);
					if (o != id && a == make<T>(o)) violation("equality", "a polymorphic_allocator holding %d compares equal to one holding %d %s", id, o, when);
				}
		}

		static void begin() {
			ledger_reset();
			tok_live = 0;
			ledger().fail_den = (uint32_t[]) {0, 2, 4, 10}[pick(W, {2, 2, 2, 2})];
			if ((all_ca && !TR::propagate_on_container_copy_assignment::value) || (none_ca && TR::propagate_on_container_copy_assignment::value) ||
			    (all_ma && !TR::propagate_on_container_move_assignment::value) || (none_ma && TR::propagate_on_container_move_assignment::value) ||
			    (all_sw && !TR::propagate_on_container_swap::value) || (none_sw && TR::propagate_on_container_swap::value))
				violation("traits", "the propagation traits contradict those of all alternatives");
			if (K > 1 && TR::is_always_equal::value) violation("traits", "is_always_equal although two alternatives are never equal");
		}
		static void end() {
			NoInstr g;
			if (!ledger().m.empty()) violation("leak", "%zu blocks were never given back", ledger().m.size());
			if (tok_live) violation("allocator-lifetime", "%lld allocator objects alive at the end", (long long) tok_live);
		}

		struct Blk {
			uint64_t *p;
			size_t n;
			int arena;
		};
		static void raw() {
			begin();
			{
				constexpr int N = 4;
				std::optional<PA<uint64_t>> h[N];
				int id[N];
				std::vector<Blk> blks;
				for (int i = 0; i < N; ++i) {
					uint32_t w = choose(W, 4);
					if (w == 0) {
						id[i] = fams[0] * 100;
						h[i].emplace();
					} else if (w == 1) {
						id[i] = some_id();
						h[i].emplace(make<uint64_t>(id[i]));
					} else if (w == 2) {
						id[i] = some_id();
						h[i].emplace(make<char>(id[i])); // rebind
					} else {
						int k = (int) choose(W, 3);
						id[i] = norm(fams[K - 1] * 100 + k);
						h[i].emplace(std::in_place_index<K - 1>, k);
					}
				}
				uint32_t steps = 4 + choose(W, 40);
				for (uint32_t s = 0; s < steps; ++s) {
					uint32_t k = pick(W, {6, 4, 2, 2, 2, 2, 1, 1});
					int i = (int) choose(W, N), j = (int) choose(W, N);
					log("op", k, (uint64_t) i, (uint64_t) j);
					if (k == 0) {
						size_t n = 1 + choose(W, 5), before = ledger().m.size();
						uint64_t *p = nullptr;
						bool threw = false;
						{
							OpScope o;
							try {
								p = TR::allocate(*h[i], n);
							} catch (std::bad_alloc const &) {
								threw = true;
							}
						}
						if (threw) {
							probe("upstream refused");
							if (!ledger().fail_den) violation("spurious-refusal", "allocate failed although the alternative did not");
							if (ledger().m.size() != before) violation("leak", "a failed allocation took a block");
						} else {
							arena_is(p, id[i], "an allocated block");
							if (ledger().m[(uintptr_t) p].bytes != n * 8) violation("routing", "a request for %zu bytes reached the alternative as %zu", n * 8, ledger().m[(uintptr_t) p].bytes);
							NoInstr g;
							blks.push_back({p, n, id[i]});
						}
					} else if (k == 1 && !blks.empty()) {
						size_t b = choose(W, (uint32_t) blks.size());
						Blk x = blks[b];
						{
							NoInstr g;
							blks.erase(blks.begin() + (long) b);
						}
						// through any allocator that compares equal
						int via = -1;
						for (int q = 0; q < N; ++q)
							if (id[q] == x.arena) via = q;
						uint32_t w = choose(W, 3);
						if (via >= 0 && w == 0) TR::deallocate(*h[via], x.p, x.n);
						else if (via >= 0 && w == 1) {
							PA<int> r{*h[via]};
							PA<uint64_t> back{r};
							TR::deallocate(back, x.p, x.n);
						} else {
							auto e = make<uint64_t>(x.arena);
							TR::deallocate(e, x.p, x.n);
						}
					} else if (k == 2) {
						*h[i] = *h[j];
						id[i] = id[j];
					} else if (k == 3) {
						PA<uint64_t> t{*h[j]};
						*h[i] = std::move(t);
						id[i] = id[j];
					} else if (k == 4 && i != j) { // self move is excluded by an assertion of the library
						using std::swap;
						swap(*h[i], *h[j]);
						std::swap(id[i], id[j]);
					} else if (k == 5) {
						PA<int> t{*h[j]};
						holds(t, id[j], "after a rebind");
						if (i != j) {
							h[i].emplace(t);
							id[i] = id[j];
						}
					} else if (k == 6) {
						auto t = TR::select_on_container_copy_construction(*h[j]);
						holds(t, copied(id[j]), "after select_on_container_copy_construction");
						*h[i] = t;
						id[i] = copied(id[j]);
					} else if (k == 7) {
						PA<uint64_t> t{std::move(*h[i])};
						holds(t, id[i], "after a move");
						int nid = some_id();
						*h[i] = make<uint64_t>(nid);
						id[i] = nid;
					}
					for (int q = 0; q < N; ++q) holds(*h[q], id[q], "after an operation");
				}
				for (auto &b : blks) {
					auto e = make<uint64_t>(b.arena);
					e.deallocate(b.p, b.n);
				}
				NoInstr g;
				blks = {};
			}
			end();
		}

		template<typename C> static void put(C &c, uint64_t x) {
			if constexpr (requires { c.push_back(x); }) c.push_back(x);
			else c.insert(x);
		}
		template<typename C> static std::vector<uint64_t> content(C const &c) { return std::vector<uint64_t>(c.begin(), c.end()); }
		template<typename C> struct ByType {
			static constexpr int N = 3;
			std::optional<C> c[N];
			int id[N];
			std::vector<uint64_t> m[N];
			static constexpr bool unordered = requires(C x) { x.bucket_count(); };
			bool matches(C const &x, std::vector<uint64_t> const &y) {
				NoInstr g;
				auto v = content(x);
				auto w = y;
				if (unordered) {
					std::sort(v.begin(), v.end());
					std::sort(w.begin(), w.end());
				}
				return v == w;
			}
			void check(int i, char const *when) {
				NoInstr g;
				holds(PA<uint64_t>{c[i]->get_allocator()}, id[i], when);
				if (!matches(*c[i], m[i])) violation("content", "container %d differs from the model %s", i, when);
				if (!c[i]->empty()) arena_is(&*c[i]->begin(), id[i], "an element");
			}
			void init() {
				for (int i = 0; i < N; ++i) {
					id[i] = some_id();
					c[i].emplace(make<uint64_t>(id[i]));
				}
			}
			void step(uint32_t s) {
				int i = (int) choose(W, N), j = (int) choose(W, N);
				uint32_t k = pick(W, {8, 2, 2, 2, 2, 2, 2, 1, 1});
				log("cop", k, (uint64_t) i, (uint64_t) j);
				uint64_t x = 1000 + s;
				bool ok = false;
				int alt = -1; // other allocator acceptable after a failure
				std::optional<C> t;
				int tid = 0;
				std::vector<uint64_t> tm;
				bool twas = false;
				{
					OpScope o;
					try {
						switch (k) {
						case 0: put(*c[i], x); break;
						case 1: if (!c[i]->empty()) c[i]->erase(c[i]->begin()); break;
						case 2: c[i]->clear(); break;
						case 3: t.emplace(*c[j]); break;
						case 4: if (i != j) { alt = id[j]; *c[i] = *c[j]; } break;
						case 5: if (i != j) *c[i] = std::move(*c[j]); break;
						case 6: if (i != j && (TR::propagate_on_container_swap::value || id[i] == id[j])) { swap(*c[i], *c[j]); } else if (i != j) twas = true; break;
						case 7: t.emplace(*c[j], PA<uint64_t>{c[i]->get_allocator()}); break;
						case 8: t.emplace(std::move(*c[j])); break;
						}
						ok = true;
					} catch (std::bad_alloc const &) {
						probe("container operation refused");
						if (!ledger().fail_den) violation("spurious-refusal", "a container operation failed although no alternative did");
					}
				}
				NoInstr g;
				if (ok) switch (k) {
					case 0: m[i].push_back(x); break;
					case 1: m[i] = content(*c[i]).size() + 1 == m[i].size() && !unordered ? std::vector<uint64_t>(m[i].begin() + 1, m[i].end()) : content(*c[i]); break;
					case 2: m[i].clear(); break;
					case 3: tid = copied(id[j]); tm = m[j]; break;
					case 4: if (i != j) { m[i] = m[j]; if (TR::propagate_on_container_copy_assignment::value) id[i] = id[j]; } break;
					case 5: if (i != j) { m[i] = m[j]; if (TR::propagate_on_container_move_assignment::value) id[i] = id[j]; m[j] = content(*c[j]); } break;
					case 6: if (i != j && !twas) { std::swap(m[i], m[j]); if (TR::propagate_on_container_swap::value) std::swap(id[i], id[j]); } break;
					case 7: tid = id[i]; tm = m[j]; break;
					case 8: tid = id[j]; tm = m[j]; m[j] = content(*c[j]); break;
				}
				else if (k == 4 || k == 5) { // basic guarantee only
					m[i] = content(*c[i]);
					m[j] = content(*c[j]);
					if (TR::propagate_on_container_copy_assignment::value && k == 4 && PA<uint64_t>{c[i]->get_allocator()} == make<uint64_t>(alt)) id[i] = alt;
				}
				for (int q = 0; q < N; ++q) check(q, ok ? "after an operation" : "after a refused operation");
				if (t) {
					holds(PA<uint64_t>{t->get_allocator()}, tid, "in a constructed container");
					if (!matches(*t, tm)) violation("content", "a constructed container differs from its source");
					if (!t->empty()) arena_is(&*t->begin(), tid, "an element of a constructed container");
				}
			}
		};
		static void containers() {
			begin();
			cfg.alloc_den = 0;
			{
				ByType<std::vector<uint64_t, PA<uint64_t>>> v;
				ByType<std::list<uint64_t, PA<uint64_t>>> l;
				ByType<std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<>, PA<uint64_t>>> u;
				suspend_faults();
				v.init();
				l.init();
				u.init();
				resume_faults();
				uint32_t steps = 4 + choose(W, 30);
				for (uint32_t s = 0; s < steps; ++s) switch (choose(W, 3)) {
					case 0: v.step(s); break;
					case 1: l.step(s); break;
					case 2: u.step(s); break;
				}
				NoInstr g;
				for (int i = 0; i < 3; ++i) v.m[i] = l.m[i] = u.m[i] = {};
			}
			end();
		}
	};

	// an alternative with a state of its own that takes any arguments and may refuse them
	template<typename T> struct Picky {
		using value_type = T;
		std::shared_ptr<int> state;
		explicit Picky(std::unique_ptr<int> &&p, int &use) {
			if (should_throw(3, FCtor)) throw Boom("allocator");
			++use;
			state = std::move(p);
		}
		explicit Picky(std::unique_ptr<int> const &, int const &) { violation("holds", "the arguments of an alternative were not forwarded"); }
		template<typename U> Picky(Picky<U> const &o) noexcept : state{o.state} {}
		T *allocate(size_t n) { return std::allocator<T>{}.allocate(n); }
		void deallocate(T *p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
		friend bool operator==(Picky const &a, Picky const &b) noexcept { return a.state == b.state; }
	};
	template<typename T> struct Picky2 : Picky<T> {
		using Picky<T>::Picky;
		template<typename U> struct rebind {
			using other = Picky2<U>;
		};
		template<typename U> Picky2(Picky2<U> const &o) noexcept : Picky<T>{o} {}
	};
	void begin_plain() {
		ledger_reset();
		tok_live = 0;
		ef = {};
		cfg.alloc_den = 0;
	}
	template<size_t I, template<typename> typename... As> void template_args() {
		using PA = dtl::polymorphic_allocator<int, As...>;
		constexpr size_t N = sizeof...(As);
		int use = 0;
		uint32_t how = choose(W, 2);
		auto arg = std::make_unique<int>(5);
		int const *is = arg.get();
		std::optional<PA> a;
		try {
			OpScope o;
			if (how) a.emplace(std::in_place_index<I>, std::move(arg), use);
			else a.emplace(std::in_place_type<std::tuple_element_t<I, std::tuple<As<int>...>>>, std::move(arg), use);
		} catch (Boom const &) {
			probe("alternative refused its arguments");
		}
		add_evals(1);
		log("made", a.has_value(), how, N);
		if (a) {
			if (use != 1 || arg) violation("holds", "the arguments of an alternative were not forwarded");
			size_t k = 0;
			if (((a->template holds_allocator<As>() != (k++ == I)) || ...)) violation("holds", "another alternative than the one asked for was made");
			k = 0;
			if (((a->template holds_allocator<As<int>>() != (k++ == I)) || ...)) violation("holds", "another alternative than the one asked for was made");
			dtl::polymorphic_allocator<char, As...> c{*a};
			PA b{c}, d{b};
			if (!(b == *a) || !(d == *a) || b != *a) violation("holds", "a copy of an allocator holds something else");
			{
				std::vector<int, PA> v{*a};
				for (int i = 0; i < 20; ++i) v.push_back(*is + i);
				std::vector<int, PA> w{std::move(v)};
				if (!(w.get_allocator() == *a) || w[19] != 24) violation("content", "a container lost its content or allocator");
			}
		} else if (use || !arg) violation("holds", "refused arguments were used up");
	}
	// with all alternatives constructed from arguments; none of them has a default constructor
	void arguments() {
		begin_plain();
		{
			template_args<0, Picky, Picky2>();
			template_args<1, Picky, Picky2>();
			template_args<0, Picky>();
		}
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
} // namespace

#define SR(name, ...) {"raw " name, 2, Poly<__VA_ARGS__>::raw}
#define SC(name, ...) SR(name, __VA_ARGS__), {"containers " name, 2, Poly<__VA_ARGS__>::containers}
Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "poly";
	h.scenarios = {SC("1", A1), SR("1 non-trivial", N1), SC("2 all propagate", A1, A2), SR("2 none propagate", N1, N2), SC("2 mixed", M1, M2), SR("1 copy", C1), SR("1 move", V1), SR("1 swap", S1),
	               SR("2 copy", C1, C2), SR("2 move", V1, V2), SR("2 swap", S1, S2), SR("2 always equal first", A3, A1), SR("2 mixed 2", A2, N2), SR("3 all propagate", A1, A2, A3), SC("2 always equal", E1, E2), SC("2 always equal propagate", A3, E3), SR("1 always equal", E1), SC("3 mixed", M3, A2, N1), {"arguments", 1, arguments}};
	return h;
}
