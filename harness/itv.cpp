// C25: dice::template_library::integral_template_variant with alternatives that fail at any point.
#include "../sim/payload.hpp"
#include "visitors.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <dice/template-library/overloaded.hpp>
#include <optional>
#include <variant>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	uint32_t visit_den = 0;
	template<int N, bool TC, bool CC, bool MC>
	struct El : Elem<TC, CC, MC, true, (N < 0 ? -N : N) * 16 % 80> {
		using B = Elem<TC, CC, MC, true, (N < 0 ? -N : N) * 16 % 80>;
		static constexpr int IX = N;
		El() noexcept(!TC) : B(0) {}
		explicit El(uint64_t i) noexcept(!TC) : B(i) {}
		El(uint64_t a, uint64_t b) noexcept(!TC) : B(a + b) {}
		friend auto operator<=>(El const &a, El const &b) noexcept { return a.id() <=> b.id(); }
		friend bool operator==(El const &a, El const &b) noexcept { return a.id() == b.id(); }
	};
	template<int N> using AllThrow = El<N, true, true, true>;
	template<int N> using CopyThrow = El<N, true, true, false>;
	template<int N> using NoThrow = El<N, false, false, false>;
	template<int N> using MoveThrow = El<N, true, false, true>;
	template<int N> using OddThrow = El<N, N % 2 != 0, N % 2 != 0, N % 2 != 0>;
} // namespace
template<int N, bool TC, bool CC, bool MC> struct std::hash<El<N, TC, CC, MC>> {
	size_t operator()(El<N, TC, CC, MC> const &e) const noexcept { return std::hash<uint64_t>{}(e.id()); }
};

namespace {
	template<int FIRST, int LAST, template<int> typename T>
	struct Run {
		using V = dtl::integral_template_variant<FIRST, LAST, T>;
		static constexpr int D = FIRST < LAST ? 1 : -1;
		static constexpr int I0 = FIRST, I1 = FIRST + D, I2 = FIRST + 2 * D;
		struct M {
			int pos = -1; // 0..2, position in the declared order
			uint64_t id = 0;
			friend bool operator==(M const &, M const &) = default;
		};
		static constexpr int ix(int pos) { return FIRST + D * pos; }
		static M read(V const &v) {
			NoInstr g;
			if (v.to_underlying().valueless_by_exception()) return {};
			return {(v.index() - FIRST) * D, v.visit([](auto const &x) { return x.id(); })};
		}
		template<int POS> static void alt(V &v, M const &m, char const *when) {
			constexpr int IX = FIRST + D * POS;
			V const &c = v;
			bool is = m.pos == POS;
			if (c.template holds_alternative<IX>() != is || c.template holds_alternative<T<IX>>() != is) violation("state", "holds_alternative<%d>() is wrong %s", IX, when);
			bool got = false, got2 = false;
			try {
				auto &x = v.template get<IX>();
				static_assert(std::is_same_v<decltype(x), T<IX> &>);
				got = true;
				if (is && x.id() != m.id) violation("state", "get<%d>() has value %llu instead of %llu %s", IX, (unsigned long long) x.id(), (unsigned long long) m.id, when);
			} catch (std::bad_variant_access const &) {}
			try {
				auto const &x = c.template get<IX>();
				got2 = true;
				if (is && x.id() != m.id) violation("state", "get<%d>() const has another value %s", IX, when);
			} catch (std::bad_variant_access const &) {}
			if (got != is || got2 != is) violation("state", "get<%d>() %s %s", IX, is ? "failed" : "of an alternative that is not held succeeded", when);
		}
		static void same(V &v, M const &m, char const *when, bool deep = true) {
			NoInstr g;
			add_evals(1);
			V const &c = v;
			if (m.pos >= 0 && c.index() != ix(m.pos)) violation("state", "index() is %d instead of %d %s", (int) c.index(), ix(m.pos), when);
			if (c.to_underlying().valueless_by_exception() != (m.pos < 0)) violation("state", "the variant is %s %s", m.pos < 0 ? "not valueless" : "valueless", when);
			if (!deep) return;
			alt<0>(v, m, when);
			alt<1>(v, m, when);
			alt<2>(v, m, when);
			try {
				auto [i, id] = c.visit([]<typename X>(X const &x) { return std::pair<int, uint64_t>{X::IX, x.id()}; });
				auto [i2, id2] = v.visit([]<typename X>(X &x) { return std::pair<int, uint64_t>{X::IX, x.id()}; });
				if (m.pos < 0) violation("state", "visiting a valueless variant succeeded %s", when);
				if (i != ix(m.pos) || id != m.id || i2 != i || id2 != id) violation("state", "visit() saw another alternative or value %s", when);
			} catch (std::bad_variant_access const &) {
				if (m.pos >= 0) violation("state", "visit() failed although the variant holds a value %s", when);
			}
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			ef.copy = ef.cassign = d();
			ef.move = ef.massign = d();
			visit_den = d();
			{
				constexpr int N = 3;
				std::optional<V> v[N];
				M m[N];
				suspend_faults();
				for (int i = 0; i < N; ++i) {
					m[i] = {(int) choose(W, 3), 1u + (uint64_t) i};
					if (m[i].pos == 0) v[i].emplace(std::in_place_type<T<I0>>, m[i].id);
					else if (m[i].pos == 1) v[i].emplace(std::in_place_type<T<I1>>, m[i].id);
					else v[i].emplace(std::in_place_type<T<I2>>, m[i].id);
				}
				resume_faults();
				uint32_t steps = 3 + choose(W, 25);
				for (uint32_t st = 0; st < steps; ++st) {
					int i = (int) choose(W, N), j = (int) choose(W, N);
					uint32_t k = pick(W, {4, 3, 3, 4, 4, 5, 2, 2, 1});
					uint32_t w = choose(W, 10);
					log("op", k, (uint64_t) (i * 10 + j), w);
					uint64_t x = 100 + st;
					std::optional<T<I0>> a;
					std::optional<T<I1>> b;
					std::optional<T<I2>> c;
					suspend_faults();
					a.emplace(x);
					b.emplace(x);
					c.emplace(x);
					resume_faults();
					std::optional<V> t;
					M want, old = m[i], src = m[j];
					bool ok = false, threw = false;
					uint64_t assigned = elem_assigned;
					{
						OpScope o;
						try {
							switch (k) {
							case 0:
								want = {(int) (w % 3), x};
								if (w == 0) t.emplace(*a);
								else if (w == 1) t.emplace(*b);
								else if (w == 2) t.emplace(*c);
								else if (w == 3) t.emplace(std::move(*a));
								else if (w == 4) t.emplace(std::move(*b));
								else if (w == 5) t.emplace(std::move(*c));
								else if (w == 6) t.emplace(std::in_place_type<T<I0>>, x);
								else if (w == 7) { t.emplace(std::in_place_type<T<I1>>, x, uint64_t(3)); want.id = x + 3; }
								else if (w == 8) t.emplace(std::in_place_type<T<I2>>, *c);
								else { t.emplace(); want = {0, 0}; }
								break;
							case 1: want = src; t.emplace(std::as_const(*v[j])); break;
							case 2: want = src; t.emplace(std::move(*v[j])); break;
							case 3: want = src; *v[i] = std::as_const(*v[j]); break;
							case 4: if (i != j) { want = src; *v[i] = std::move(*v[j]); } break;
							case 5: {
								want = {(int) (w % 3), x};
								void *r = nullptr, *s = nullptr;
								if (w == 0) r = &v[i]->template emplace<I0>(x);
								else if (w == 1) r = &v[i]->template emplace<I1>(*b);
								else if (w == 2) r = &v[i]->template emplace<I2>(std::move(*c));
								else if (w % 3 == 0) { r = &v[i]->template emplace<I0>(x, uint64_t(4)); want.id = x + 4; }
								else if (w % 3 == 1) { r = &v[i]->template emplace<I1>(); want.id = 0; }
								else r = &v[i]->template emplace<I2>(x);
								v[i]->visit([&](auto &e) { s = &e; });
								if (r != s) violation("state", "emplace returned a reference to something else");
								break;
							}
							case 6: // a visitor that fails or moves the value out
								std::move(*v[i]).visit([&]<typename X>(X &&y) {
									static_assert(!std::is_lvalue_reference_v<X>);
									if (should_throw(visit_den, FOther)) throw Boom("visitor");
									if (w % 2) { std::remove_cvref_t<X> z{std::forward<X>(y)}; (void) z; }
								});
								break;
							case 7: // moving a value out
								if (m[i].pos == 0) { T<I0> z{std::move(*v[i]).template get<I0>()}; (void) z; }
								else if (m[i].pos == 1) { T<I1> z{std::move(*v[i]).template get<I1>()}; (void) z; }
								else if (m[i].pos == 2) { T<I2> z{std::move(*v[i]).template get<I2>()}; (void) z; }
								break;
							case 8: {
								size_t h1 = std::hash<V>{}(*v[i]), h2 = std::hash<V>{}(*v[j]);
								if (m[i] == m[j] && h1 != h2) violation("hash", "equal variants have different hashes");
								break;
							}
							}
							ok = true;
						} catch (Boom const &) {
							threw = true;
							probe("alternative failed");
						} catch (std::bad_variant_access const &) {
							if (!(k == 6 && m[i].pos < 0)) violation("state", "unexpected bad_variant_access");
							probe("visit of a valueless variant");
						}
					}
					NoInstr g;
					if (k == 5 && elem_assigned != assigned) violation("state", "emplace assigned to the old object");
					char const *when = ok ? "after an operation" : "after a failed operation";
					auto moved = [&](int q) {
						M r = read(*v[q]);
						if (r.pos != m[q].pos) violation("state", "moving from a variant changed its alternative");
						if (r.id != m[q].id && r.id != 0) violation("state", "a moved-from variant has another value");
						m[q] = r;
					};
					switch (k) {
					case 0: case 1: case 2:
						if (ok) same(*t, want, "after construction");
						if (k == 2 && ok && m[j].pos >= 0) moved(j);
						break;
					case 3: case 4: case 5:
						if (k == 4 && i == j) break;
						if (ok) {
							if (k == 4 && src.pos >= 0) moved(j);
							m[i] = want;
						} else if (threw) {
							M r = read(*v[i]);
							if (r.pos < 0) {
								if (k != 5 && old.pos == src.pos && old.pos >= 0) violation("state", "a failed assignment of the same alternative lost the value");
								m[i] = r;
								probe("valueless");
							} else if (!(r == old)) violation("state", "a failed operation left another value behind");
						}
						break;
					case 6: case 7:
						if (m[i].pos >= 0) moved(i);
						break;
					}
					for (int q = 0; q < N; ++q) same(*v[q], m[q], when, q == (int) (st % N) || (q == i && st % 2));
					int64_t cnt = 3;
					for (int q = 0; q < N; ++q) cnt += m[q].pos >= 0;
					if (t) cnt += read(*t).pos >= 0;
					if (elem_live != cnt) violation("element-lifetime", "%lld alternatives are alive instead of %lld", (long long) elem_live, (long long) cnt);
					auto key = [](M const &x) { return std::pair<int, uint64_t>{x.pos, x.pos < 0 ? 0 : x.id}; };
					auto o = *v[i] <=> *v[j];
					if ((*v[i] == *v[j]) != (key(m[i]) == key(m[j])) || (o < 0) != (key(m[i]) < key(m[j])) || (o > 0) != (key(m[i]) > key(m[j]))) violation("compare", "comparison of two variants differs from the model");
					if (m[0].pos != m[1].pos) nontrivial();
				}
			}
			if (elem_live) violation("element-lifetime", "%lld alternatives alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};

	// ---- every kind of index, up to its limits, and move-only arguments ----
	template<auto IX> struct Own {
		MoveOnly m;
		explicit Own(MoveOnly &&a) : m{std::move(a)} {}
		explicit Own(MoveOnly const &) : m{0} { violation("state", "the argument of an alternative was not forwarded"); }
		static constexpr auto ix = IX;
	};
	template<std::integral auto FIRST, decltype(FIRST) LAST, template<decltype(FIRST)> typename T> struct Indices {
		using V = dtl::integral_template_variant<FIRST, LAST, T>;
		using I = decltype(FIRST);
		static constexpr size_t N = FIRST < LAST ? (size_t) LAST - (size_t) FIRST : (size_t) FIRST - (size_t) LAST;
		template<size_t K> static constexpr I at() { return FIRST < LAST ? (I) (FIRST + (I) K) : (I) (FIRST - (I) K); }
		template<size_t K> static void one(V &v, uint64_t id) {
			constexpr I ix = at<K>();
			static_assert(std::is_same_v<typename V::template value_type<ix>, T<ix>>);
			suspend_faults();
			MoveOnly a{id}, b{id + 1};
			resume_faults();
			if (choose(W, 2)) v.template emplace<ix>(std::move(a));
			else v = V{std::in_place_type<T<ix>>, std::move(a)};
			if (a.id() != 0) violation("state", "the argument given to an alternative was not moved");
			all(v, K, id);
			V w{T<ix>{std::move(b)}};
			all(w, K, id + 1);
			v = std::move(w);
			all(v, K, id + 1);
			V u{std::move(v)};
			all(u, K, id + 1);
			T<ix> out = std::move(u).template get<ix>();
			if (out.m.id() != id + 1) violation("state", "moving a value out of a variant changed it");
			std::move(u).to_underlying() = std::move(out);
			v = std::move(u);
			all(v, K, id + 1);
		}
		template<size_t K> static void is(V &v, size_t held, uint64_t id) {
			constexpr I ix = at<K>();
			V const &c = v;
			if (c.template holds_alternative<ix>() != (K == held) || c.template holds_alternative<T<ix>>() != (K == held)) violation("state", "holds_alternative is wrong");
			try {
				if (c.template get<ix>().m.id() != id || K != held) violation("state", "get delivered another alternative or value");
			} catch (std::bad_variant_access const &) {
				if (K == held) violation("state", "get failed for the alternative that is held");
			}
		}
		static void all(V &v, size_t held, uint64_t id) {
			add_evals(1);
			[&]<size_t... K>(std::index_sequence<K...>) {
				static constexpr I ixs[] = {at<K>()...};
				if (v.index() != ixs[held]) violation("state", "index() is %lld instead of %lld", (long long) v.index(), (long long) ixs[held]);
				v.visit([&](auto &x) {
					if (x.ix != ixs[held] || x.m.id() != id) violation("state", "visit saw another alternative or value");
				});
				(is<K>(v, held, id), ...);
			}(std::make_index_sequence<N>{});
		}
		static void go() {
			V v{std::in_place_type<T<FIRST>>, MoveOnly{1}};
			for (int q = 0; q < 3; ++q) {
				size_t k = choose(W, (uint32_t) N);
				uint64_t id = 10 + choose(W, 100);
				log("index", k, id);
				[&]<size_t... K>(std::index_sequence<K...>) { ((K == k ? one<K>(v, id) : void()), ...); }(std::make_index_sequence<N>{});
			}
		}
	};
	template<int8_t I> using OwnI8 = Own<I>;
	template<uint8_t I> using OwnU8 = Own<I>;
	template<int64_t I> using OwnI64 = Own<I>;
	template<uint64_t I> using OwnU64 = Own<I>;
	template<char I> using OwnC = Own<I>;
	template<unsigned I> using OwnU = Own<I>;
	// more alternatives than the index type can count
	template<int8_t I> struct Small {
		uint64_t v;
		static constexpr int ix = I;
	};
	template<int8_t FIRST, int8_t LAST> void wide() {
		using V = dtl::integral_template_variant<FIRST, LAST, Small>;
		V v;
		auto held = [&](int ix, uint64_t id) {
			add_evals(1);
			if (v.index() != ix) violation("state", "index() of a wide variant is %d instead of %d", (int) v.index(), ix);
			v.visit([&](auto &x) {
				if (x.ix != ix || x.v != id) violation("state", "visit of a wide variant saw another alternative or value");
			});
		};
		held(FIRST, 0);
		for (int q = 0; q < 3; ++q) {
			// a few alternatives only: each of them is expensive to compile
			constexpr int8_t ixs[] = {FIRST, FIRST < LAST ? FIRST + 1 : FIRST - 1, 0, FIRST < LAST ? LAST - 2 : LAST + 2, FIRST < LAST ? LAST - 1 : LAST + 1};
			uint32_t k = choose(W, 5);
			uint64_t id = 10 + choose(W, 100);
			log("wide", k, id);
			int ix = ixs[k];
			[&]<size_t... K>(std::index_sequence<K...>) {
				((void) (K == k ? (v.template emplace<ixs[K]>(id), true) : false), ...);
			}(std::make_index_sequence<5>{});
			held(ix, id);
		}
	}
	void indices() {
		elem_live = 0;
		ef = {};
		{
			switch (choose(W, 14)) {
			case 12: wide<-65, 65>(); break;
			case 13: wide<66, -64>(); break;
			case 0: Indices<int8_t(-128), int8_t(-125), OwnI8>::go(); break;
			case 1: Indices<int8_t(124), int8_t(127), OwnI8>::go(); break;
			case 2: Indices<int8_t(127), int8_t(125), OwnI8>::go(); break;
			case 3: Indices<int8_t(-126), int8_t(-128), OwnI8>::go(); break;
			case 4: Indices<uint8_t(253), uint8_t(255), OwnU8>::go(); break;
			case 5: Indices<uint8_t(2), uint8_t(0), OwnU8>::go(); break;
			case 6: Indices<INT64_MIN, INT64_MIN + 3, OwnI64>::go(); break;
			case 7: Indices<INT64_MAX, INT64_MAX - 2, OwnI64>::go(); break;
			case 8: Indices<UINT64_MAX - 4, UINT64_MAX, OwnU64>::go(); break;
			case 9: Indices<UINT64_MAX, UINT64_MAX - 1, OwnU64>::go(); break;
			case 10: Indices<'a', 'i', OwnC>::go(); break;
			default: Indices<9u, 0u, OwnU>::go(); break;
			}
		}
		nontrivial();
		if (elem_live) violation("element-lifetime", "%lld alternatives alive at the end", (long long) elem_live);
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}

	// ---- alternatives that stay where they are, visitors with state, every value category ----
	struct Stay {
		using P1 = Pinned<1>;
		using P2 = Pinned<2>;
		using V = dtl::integral_template_variant<1, 3, Pinned>;
		static int held(V const &v) { return v.to_underlying().valueless_by_exception() ? -1 : v.index(); }
		template<int N> static void gets(V &v, int n, void const *addr) {
			V const &c = v;
			auto one = [&](Cat want, auto f) {
				try {
					using X = decltype(f());
					X &&x = f();
					if (n != N) violation("state", "get of an alternative that is not held succeeded");
					if (cat_of<X>() != want) violation("state", "get from a variant of category %d gives category %d", (int) want, (int) cat_of<X>());
					if ((void const *) &x != addr) violation("state", "get gives another object than the one that is held");
					x.check();
				} catch (std::bad_variant_access const &) {
					if (n == N) violation("state", "get of the alternative that is held failed");
				}
			};
			one(LRef, [&]() -> decltype(auto) { return v.template get<N>(); });
			one(CLRef, [&]() -> decltype(auto) { return c.template get<N>(); });
			one(RRef, [&]() -> decltype(auto) { return std::move(v).template get<N>(); });
			one(CRRef, [&]() -> decltype(auto) { return std::move(c).template get<N>(); });
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			uint32_t den = d();
			{
				std::optional<V> v;
				int n = -2;     // -2: no variant, -1: valueless
				uint64_t id = 0;
				uint32_t steps = 3 + choose(W, 20);
				for (uint32_t st = 0; st < steps; ++st) {
					uint32_t k = n == -2 ? 0 : pick(W, {1, 4, 5}), w = choose(W, 16);
					log("op", k, w);
					bool ok = false;
					void *r = nullptr;
					uint64_t x = 100 + st;
					if (k == 0) v.reset(), n = -2;
					int want = (int) (w % 2) + 1;
					if (k == 2) {
						void const *addr = nullptr;
						if (n > 0) v->visit([&]<typename X>(X const &x) { if (x.id != id) violation("state", "the alternative has another value"); addr = &x; });
						visit_forms(*v, n, addr, den, w, []<typename A, typename B>(A &&a, B &&b) -> decltype(auto) { return std::forward<B>(b).visit(std::forward<A>(a)); });
						ok = true;
					} else {
						OpScope o;
						try {
							if (k == 0) {
								if (w % 8 == 0) { v.emplace(); id = 1; want = 1; }
								else if (want == 1) v.emplace(std::in_place_type<P1>, x);
								else v.emplace(std::in_place_type<P2>, x, uint64_t(7));
								if (w % 8) id = want == 1 ? x : x + 7;
							} else {
								switch (w % 6) {
								case 0: r = &v->template emplace<1>(x); id = x; break;
								case 1: r = &v->template emplace<2>(x); id = x; break;
								case 2: r = &v->template emplace<1>(); id = 1; break;
								case 3: r = &v->template emplace<2>(); id = 2; break;
								case 4: r = &v->template emplace<1>(x, uint64_t(5)); id = x + 5; break;
								default: r = &v->template emplace<2>(x, uint64_t(6)); id = x + 6; break;
								}
							}
							ok = true;
						} catch (Boom const &) {
							probe("alternative failed");
						} catch (std::bad_alloc const &) {
							probe("out of memory");
						}
					}
					NoInstr g;
					add_evals(1);
					if (k < 2) {
						if (ok) n = want;
						else if (v) {
							n = held(*v);
							if (n > 0) violation("state", "an alternative that could not be constructed is held");
							probe("valueless");
						}
					}
					if (!v) continue;
					if (held(*v) != n) violation("state", "alternative %d is held instead of %d", held(*v), n);
					void const *addr = nullptr;
					if (n > 0) v->visit([&]<typename X>(X const &x) { if (x.id != id) violation("state", "the alternative has another value"); addr = &x; });
					if (ok && r && r != addr) violation("state", "emplace returned a reference to something else");
					gets<1>(*v, n, addr);
					gets<2>(*v, n, addr);
					if (elem_live != (n > 0)) violation("element-lifetime", "%lld alternatives are alive instead of %d", (long long) elem_live, n > 0);
					if (n > 0) nontrivial();
				}
			}
			if (elem_live) violation("element-lifetime", "%lld alternatives alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "itv";
	h.scenarios = {{"ascending, all throw", 2, Run<0, 3, AllThrow>::run},  {"descending, all throw", 2, Run<2, -1, AllThrow>::run}, {"negative, copies throw", 1, Run<-2, 1, CopyThrow>::run},
	               {"descending, nothing throws", 1, Run<7, 4, NoThrow>::run}, {"moves throw", 1, Run<3, 6, MoveThrow>::run},       {"some throw", 2, Run<4, 1, OddThrow>::run},
	               {"index types", 1, indices}, {"alternatives that stay", 1, Stay::run}};
	return h;
}
