// C18: dice::template_library::variant2 with alternatives that fail at any point.
#include "../sim/payload.hpp"
#include "visitors.hpp"
#include <dice/template-library/variant2.hpp>
#include <optional>
#include <string>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	uint32_t visit_den = 0;
	// counted lifetime, but assignment is trivial
	template<int TAG, bool DTOR_TRIVIAL = false>
	struct Cnt {
		uint64_t v = 0;
		uint64_t canary = 0x11fe;
		Cnt() noexcept { ++elem_live; }
		explicit Cnt(uint64_t i) noexcept : v{i} { ++elem_live; }
		Cnt(Cnt const &o) noexcept : v{o.v} {
			o.live();
			++elem_live;
		}
		Cnt &operator=(Cnt const &) = default;
		~Cnt() {
			live();
			canary = 0;
			--elem_live;
		}
		void live() const {
			if (canary != 0x11fe) violation("element-lifetime", "an alternative that is not alive was used");
		}
		uint64_t id() const {
			live();
			return v;
		}
	};
	// trivially assignable and destructible, but it knows where it lives
	template<int TAG>
	struct Self {
		uint64_t v = 0;
		bool copied = false;
		Self() noexcept = default;
		explicit Self(uint64_t i) noexcept : v{i} {}
		Self(Self const &o) noexcept : v{o.v}, copied{true} {}
		Self &operator=(Self const &) = default;
		uint64_t id() const { return v; }
	};
	template<bool TC, bool CC, bool MC, size_t PAD, bool CA = CC, bool MA = MC>
	struct D : Elem<TC, CC, MC, true, PAD, CA, MA> {
		using B = Elem<TC, CC, MC, true, PAD, CA, MA>;
		D() noexcept(!TC) : B(0) {}
		explicit D(uint64_t i) noexcept(!TC) : B(i) {}
	};
	// can be made of a list, e.g. of one of its own values
	template<bool TC, bool CC, bool MC, size_t PAD>
	struct L : D<TC, CC, MC, PAD> {
		L() noexcept(!TC) {}
		explicit L(uint64_t i) noexcept(!TC) : D<TC, CC, MC, PAD>(i) {}
		L(std::initializer_list<ListOf<L>>) { became_list(); }
	};
	template<typename T> concept HasId = requires(T t) { t.id(); };
	template<HasId T> auto operator<=>(T const &a, T const &b) { return a.id() <=> b.id(); }
	template<HasId T> bool operator==(T const &a, T const &b) { return a.id() == b.id(); }
} // namespace
template<HasId T> struct std::hash<T> {
	size_t operator()(T const &t) const { return std::hash<uint64_t>{}(t.id()); }
};
template<HasId T> struct std::formatter<T> : std::formatter<uint64_t> {
	template<typename C> auto format(T const &t, C &c) const { return std::formatter<uint64_t>::format(t.id(), c); }
};

namespace {
	constexpr size_t NP = std::variant_npos;
	template<typename T> constexpr bool keeps_value = !requires(T t) { t.box; }; // when it is moved from

	template<typename T, typename U>
	struct Run {
		using V = dtl::variant2<T, U>;
		struct M {
			size_t ix = NP;
			uint64_t id = 0;
			friend bool operator==(M const &, M const &) = default;
		};
		static M read(V const &v) {
			NoInstr g;
			M m;
			m.ix = v.index();
			if (m.ix == 0) m.id = id_of(get<0>(v));
			else if (m.ix == 1) m.id = id_of(get<1>(v));
			return m;
		}
		template<typename X> static int64_t counts() { return HasId<X> && !requires(X x) { x.copied; } ? 1 : 0; }
		static int64_t count(M const &m) { return m.ix == 0 ? counts<T>() : m.ix == 1 ? counts<U>() : 0; }

		static void same(V &v, M const &m, char const *when, bool deep = true) {
			NoInstr g;
			if (std::variant_size_v<V> != 2 || !std::is_same_v<std::variant_alternative_t<0, V>, T> || !std::is_same_v<std::variant_alternative_t<1, V const>, U const>) violation("state", "std::variant_size or std::variant_alternative is wrong");
			add_evals(1);
			V const &c = v;
			M r = read(v);
			if (r.ix != m.ix) violation("state", "the variant holds alternative %d instead of %d %s", (int) r.ix, (int) m.ix, when);
			if (m.ix != NP && r.id != m.id) violation("state", "the variant holds value %llu instead of %llu %s", (unsigned long long) r.id, (unsigned long long) m.id, when);
			if (v.valueless_by_exception() != (m.ix == NP)) violation("state", "valueless_by_exception() is wrong %s", when);
			if (holds_alternative<T>(c) != (m.ix == 0) || holds_alternative<U>(c) != (m.ix == 1) || holds_alternative<char *>(c)) violation("state", "holds_alternative() is wrong %s", when);
			if ((get_if<0>(&v) != nullptr) != (m.ix == 0) || (get_if<U>(&c) != nullptr) != (m.ix == 1) || (get_if<T>(&v) != nullptr) != (m.ix == 0) || (get_if<1>(&c) != nullptr) != (m.ix == 1))
				violation("state", "get_if() is wrong %s", when);
			if (!deep) return;
			int thrown = 0;
			if (m.ix != 0) {
				try { (void) get<0>(v); } catch (std::bad_variant_access const &) { ++thrown; }
				try { (void) get<T>(c); } catch (std::bad_variant_access const &) { ++thrown; }
			} else thrown += 2;
			if (m.ix != 1) {
				try { (void) get<1>(c); } catch (std::bad_variant_access const &) { ++thrown; }
				try { (void) get<U>(v); } catch (std::bad_variant_access const &) { ++thrown; }
			} else thrown += 2;
			if (thrown != 4) violation("state", "get() of an alternative that is not held succeeded %s", when);
			try {
				auto [i, id] = visit([]<typename X>(X const &x) { return std::pair<size_t, uint64_t>{std::is_same_v<X, T> ? 0 : 1, id_of(x)}; }, c);
				if (m.ix == NP) violation("state", "visiting a valueless variant succeeded %s", when);
				if (i != m.ix || id != m.id) violation("state", "visit() saw another alternative or value %s", when);
			} catch (std::bad_variant_access const &) {
				if (m.ix != NP) violation("state", "visit() failed although the variant holds a value %s", when);
			}
			auto f = std::format("{}", c);
			auto want = m.ix == NP ? std::string("variant(valueless by exception)") : "variant(" + std::to_string(m.id) + ")";
			if (f != want) violation("state", "the variant formats as '%s' instead of '%s' %s", f.c_str(), want.c_str(), when);
		}

		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			ef.copy = ef.cassign = d();
			ef.move = ef.massign = d();
			visit_den = d();
			{
				constexpr int N = 3;
				std::optional<V> v[N];
				M m[N];
				suspend_faults();
				for (int i = 0; i < N; ++i) {
					m[i] = {choose(W, 2), 1u + (uint64_t) i};
					if (m[i].ix == 0) v[i].emplace(std::in_place_type<T>, m[i].id);
					else v[i].emplace(std::in_place_index<1>, m[i].id);
				}
				resume_faults();
				uint32_t steps = 3 + choose(W, 30);
				for (uint32_t st = 0; st < steps; ++st) {
					int i = (int) choose(W, N), j = (int) choose(W, N);
					uint32_t k = pick(W, {3, 3, 3, 3, 4, 4, 4, 2, 2, 2, 2});
					uint32_t w = choose(W, k == 0 || k == 6 ? 12 : 8);
					log("op", k, (uint64_t) (i * 10 + j), w);
					uint64_t x = 100 + st;
					std::optional<T> tv;
					std::optional<U> uv;
					suspend_faults();
					tv.emplace(x);
					uv.emplace(x);
					resume_faults();
					bool ok = false, threw = false;
					uint64_t assigned = elem_assigned;
					std::optional<V> t;
					M old = m[i], src = m[j];
					size_t newix = NP; // alternative the operation aims at
					bool emplaced = false, mtv = false, muv = false;
					{
						OpScope o;
						try {
							switch (k) {
							case 0: // construction from values
								if (w == 0) t.emplace();
								else if (w == 1) t.emplace(*tv);
								else if (w == 2) t.emplace(std::move(*tv));
								else if (w == 3) t.emplace(*uv);
								else if (w == 4) t.emplace(std::move(*uv));
								else if (w == 5) t.emplace(std::in_place_type<U>, x);
								else if (w == 6) t.emplace(std::in_place_index<0>, x);
								else if (w == 7) t.emplace(std::in_place_index<1>, *uv);
								else if (w == 8) t.emplace(std::in_place_type<T>, std::move(*tv));
								else if (w == 9) t.emplace(std::in_place_type<U>, std::move(*uv));
								else if (w == 10) t.emplace(std::in_place_index<0>, std::move(*tv));
								else t.emplace(std::in_place_index<1>, std::move(*uv));
								mtv = w == 2 || w == 8 || w == 10;
								muv = w == 4 || w == 9 || w == 11;
								break;
							case 1: t.emplace(*v[j]); break;
							case 2: t.emplace(std::move(*v[j])); break;
							case 3: newix = src.ix; *v[i] = *v[j]; break;
							case 4: if (i != j) { newix = src.ix; *v[i] = std::move(*v[j]); } break;
							case 5: // assignment of values
								newix = w % 2;
								if (w % 4 == 0) *v[i] = *tv;
								else if (w % 4 == 1) *v[i] = *uv;
								else if (w % 4 == 2) *v[i] = std::move(*tv);
								else *v[i] = std::move(*uv);
								mtv = w % 4 == 2;
								muv = w % 4 == 3;
								break;
							case 6: {
								emplaced = true;
								newix = w % 2;
								if (w == 0) { T &r = v[i]->template emplace<T>(x); if (&r != &get<0>(*v[i])) violation("state", "emplace returned a reference to something else"); }
								else if (w == 1) { U &r = v[i]->template emplace<1>(x); if (&r != &get<1>(*v[i])) violation("state", "emplace returned a reference to something else"); }
								else if (w == 2) v[i]->template emplace<0>(*tv);
								else if (w == 3) v[i]->template emplace<U>(*uv);
								else if (w == 4) v[i]->template emplace<T>(std::move(*tv));
								else if (w == 5) v[i]->template emplace<1>(std::move(*uv));
								else if (w == 6) v[i]->template emplace<0>(x);
								else if (w == 7) v[i]->template emplace<U>(x);
								else if (w == 8) v[i]->template emplace<0>(std::move(*tv));
								else if (w == 9) v[i]->template emplace<U>(std::move(*uv));
								else if (w == 10) v[i]->template emplace<T>(*tv);
								else v[i]->template emplace<1>(*uv);
								mtv = w == 4 || w == 8;
								muv = w == 5 || w == 9;
								break;
							}
							case 7: if (i != j) swap(*v[i], *v[j]); break;
							case 8: // a visitor that fails or moves the value out
								visit([&]<typename X>(X &&y) {
									if (should_throw(visit_den, FOther)) throw Boom("visitor");
									if (w % 2) { std::remove_cvref_t<X> z(std::forward<X>(y)); (void) z; }
								}, std::move(*v[i]));
								break;
							case 9: { // moving a value out through get
								if (m[i].ix == 0) { T z(get<0>(std::move(*v[i]))); (void) z; }
								else if (m[i].ix == 1) { U z(get<U>(std::move(*v[i]))); (void) z; }
								break;
							}
							case 10: { // hashing and comparing never fails
								size_t a = std::hash<V>{}(*v[i]), b = std::hash<V>{}(*v[j]);
								if (m[i] == m[j] && a != b) violation("hash", "equal variants have different hashes");
								if (m[i].ix == m[j].ix && m[i].ix != NP && m[i].id != m[j].id && a == b) violation("hash", "the hash ignores the value");
								break;
							}
							}
							ok = true;
						} catch (Boom const &) {
							threw = true;
							probe("alternative failed");
						} catch (std::bad_variant_access const &) {
							if (!(k == 8 && m[i].ix == NP)) violation("state", "unexpected bad_variant_access");
							probe("visit of a valueless variant");
						}
					}
					NoInstr g;
					if (ok && (id_of(*tv) != (mtv && !keeps_value<T> ? 0 : x) || id_of(*uv) != (muv && !keeps_value<U> ? 0 : (uint64_t) (decltype(id_of(*uv))) x)))
						violation("state", "a value given as %s", mtv || muv ? "an rvalue was not moved" : "an lvalue was moved from");
					if (k == 6 && elem_assigned != assigned) violation("state", "emplace assigned to the old object");
					char const *when = ok ? "after an operation" : "after a failed operation";
					auto moved = [&](M &x, V &vv, bool surely) {
						// only the value may have changed
						M r = read(vv);
						if (surely && x.id != 0 && r.id != 0 && !(x.ix == 0 ? keeps_value<T> : keeps_value<U>)) violation("state", "a variant was copied instead of moved");
						if (r.ix != x.ix) violation("state", "moving from a variant changed its alternative");
						if (r.id != x.id && r.id != 0) violation("state", "a moved-from variant has another value");
						x = r;
					};
					switch (k) {
					case 0:
						if (ok) same(*t, w == 0 ? M{0, 0} : M{(size_t) (w == 3 || w == 4 || w == 5 || w == 7 || w == 9 || w == 11), x}, "after construction");
						break;
					case 1:
						if (ok) same(*t, src, "after copy construction");
						break;
					case 2:
						if (ok) {
							same(*t, src, "after move construction");
							moved(m[j], *v[j], src.ix != NP);
						}
						break;
					case 3: case 4: case 5: case 6:
						if (k == 4 && i == j) break;
						if (ok) {
							m[i] = k >= 5 ? M{newix, x} : src;
							if (k == 4 && src.ix != NP) moved(m[j], *v[j], true);
						} else if (threw) {
							M r = read(*v[i]);
							bool changes = old.ix != newix || emplaced;
							if (r.ix == NP) {
								if (!changes) violation("state", "a failed assignment of the same alternative lost the value");
								m[i] = r;
								probe("valueless");
							} else if (!(r == old)) violation("state", "a failed operation left another value behind");
						}
						break;
					case 7:
						if (i == j) break;
						if (ok) std::swap(m[i], m[j]);
						else {
							m[i] = read(*v[i]);
							m[j] = read(*v[j]);
						}
						break;
					case 8: case 9:
						if (m[i].ix != NP) moved(m[i], *v[i], ok && (k == 9 || w % 2));
						break;
					}
					for (int q = 0; q < N; ++q) same(*v[q], m[q], when, q == (int) (st % N) || (q == i && st % 2));
					int64_t want = counts<T>() + counts<U>();
					for (int q = 0; q < N; ++q) want += count(m[q]);
					if (t) want += count(read(*t));
					if (elem_live != want) violation("element-lifetime", "%lld alternatives are alive instead of %lld", (long long) elem_live, (long long) want);
					// comparisons
					auto rank = [](M const &a) { return a.ix == NP ? 0 : 1 + (int) a.ix; };
					bool eq = m[i].ix == m[j].ix && (m[i].ix == NP || m[i].id == m[j].id);
					int lt = rank(m[i]) != rank(m[j]) ? (rank(m[i]) < rank(m[j]) ? -1 : 1) : m[i].ix == NP ? 0 : m[i].id < m[j].id ? -1 : m[i].id > m[j].id;
					auto o = *v[i] <=> *v[j];
					if ((*v[i] == *v[j]) != eq || (*v[i] != *v[j]) == eq || (o < 0) != (lt < 0) || (o > 0) != (lt > 0)) violation("compare", "comparison of two variants differs from the model");
				}
			}
			if (elem_live) violation("element-lifetime", "%lld alternatives alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
	using A1 = D<true, true, true, 0>;
	using A2 = D<true, true, true, 8>;
	using C1 = D<true, true, false, 16>;
	using P1 = D<false, false, false, 24>;
	using X1 = D<true, false, true, 32>; // only moving fails
	using K1 = D<true, true, true, 40, false, false>;
	using K2 = D<true, true, true, 48, false, false>; // construction fails, assignment does not
	using G1 = D<true, false, false, 56, true, true>;
	using G2 = D<false, false, false, 64, true, true>;  // and the other way round
	using Q1 = D<true, true, false, 72, false, true>;
	using Q2 = D<true, false, true, 80, true, false>;
	using L1 = L<true, true, true, 88>;
	using L2 = L<false, false, false, 96>;

	// ---- alternatives that stay where they are, visitors with state, every value category ----
	struct Stay {
		using P1 = Pinned<1>;
		using P2 = Pinned<2>;
		using V = dtl::variant2<P1, P2>;
		static int held(V const &v) { return v.valueless_by_exception() ? -1 : (int) v.index() + 1; }
		template<int N> static void gets(V &v, int n, void const *addr) {
			V const &c = v;
			auto one = [&](Cat want, auto f) {
				try {
					using X = decltype(f());
					X &&x = f();
					if (n != N) violation("state", "get of an alternative that is not held succeeded");
					if (cat_of<X>() != want) violation("state", "get from a variant of category %d gives category %d", (int) want, (int) cat_of<X>());
					if ((void const *) &x != addr) violation("state", "get gives another object than the one that is held");
					x.check();
				} catch (std::bad_variant_access const &) {
					if (n == N) violation("state", "get of the alternative that is held failed");
				}
			};
			one(LRef, [&]() -> decltype(auto) { return get<N - 1>(v); });
			one(CLRef, [&]() -> decltype(auto) { return get<N - 1>(c); });
			one(RRef, [&]() -> decltype(auto) { return get<N - 1>(std::move(v)); });
			one(CRRef, [&]() -> decltype(auto) { return get<N - 1>(std::move(c)); });
			one(LRef, [&]() -> decltype(auto) { return get<Pinned<N>>(v); });
			one(CLRef, [&]() -> decltype(auto) { return get<Pinned<N>>(c); });
			one(RRef, [&]() -> decltype(auto) { return get<Pinned<N>>(std::move(v)); });
			one(CRRef, [&]() -> decltype(auto) { return get<Pinned<N>>(std::move(c)); });
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			uint32_t den = d();
			{
				std::optional<V> v;
				int n = -2;     // -2: no variant, -1: valueless
				uint64_t id = 0;
				uint32_t steps = 3 + choose(W, 20);
				for (uint32_t st = 0; st < steps; ++st) {
					uint32_t k = n == -2 ? 0 : pick(W, {1, 4, 5}), w = choose(W, 16);
					log("op", k, w);
					bool ok = false;
					void *r = nullptr;
					uint64_t x = 100 + st;
					if (k == 0) v.reset(), n = -2;
					int want = (int) (w % 2) + 1;
					if (k == 2) {
						void const *addr = nullptr;
						if (n > 0) visit([&]<typename X>(X const &x) { if (x.id != id) violation("state", "the alternative has another value"); addr = &x; }, *v);
						visit_forms(*v, n, addr, den, w, []<typename A, typename B>(A &&a, B &&b) -> decltype(auto) { return visit(std::forward<A>(a), std::forward<B>(b)); });
						ok = true;
					} else {
						OpScope o;
						try {
							if (k == 0) {
								if (w % 8 == 0) { v.emplace(); id = 1; want = 1; }
								else if (want == 1) v.emplace(std::in_place_type<P1>, x);
								else v.emplace(std::in_place_index<1>, x, uint64_t(7));
								if (w % 8) id = want == 1 ? x : x + 7;
							} else {
								switch (w % 6) {
								case 0: r = &v->template emplace<0>(x); id = x; break;
								case 1: r = &v->template emplace<1>(x); id = x; break;
								case 2: r = &v->template emplace<P1>(); id = 1; break;
								case 3: r = &v->template emplace<P2>(); id = 2; break;
								case 4: r = &v->template emplace<0>(x, uint64_t(5)); id = x + 5; break;
								default: r = &v->template emplace<P2>(x, uint64_t(6)); id = x + 6; break;
								}
							}
							ok = true;
						} catch (Boom const &) {
							probe("alternative failed");
						} catch (std::bad_alloc const &) {
							probe("out of memory");
						}
					}
					NoInstr g;
					add_evals(1);
					if (k < 2) {
						if (ok) n = want;
						else if (v) {
							n = held(*v);
							if (n > 0) violation("state", "an alternative that could not be constructed is held");
							probe("valueless");
						}
					}
					if (!v) continue;
					if (held(*v) != n) violation("state", "alternative %d is held instead of %d", held(*v), n);
					void const *addr = nullptr;
					if (n > 0) visit([&]<typename X>(X const &x) { if (x.id != id) violation("state", "the alternative has another value"); addr = &x; }, *v);
					if (ok && r && r != addr) violation("state", "emplace returned a reference to something else");
					gets<1>(*v, n, addr);
					gets<2>(*v, n, addr);
					if (elem_live != (n > 0)) violation("element-lifetime", "%lld alternatives are alive instead of %d", (long long) elem_live, n > 0);
					if (n > 0) nontrivial();
				}
			}
			if (elem_live) violation("element-lifetime", "%lld alternatives alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "variant2";
	h.scenarios = {{"throwing both", 3, Run<A1, A2>::run},       {"integral and throwing", 2, Run<uint64_t, A2>::run}, {"throwing copies and plain", 2, Run<C1, P1>::run},
	               {"throwing and integral", 1, Run<A1, uint32_t>::run}, {"only moves throw", 1, Run<X1, A1>::run}, {"only moves of the first throw", 1, Run<X1, P1>::run}, {"only moves of the second throw", 1, Run<P1, X1>::run},     {"trivial assignment", 2, Run<Cnt<1>, Cnt<2>>::run},
	               {"trivial assignment and integral", 1, Run<Cnt<1>, uint64_t>::run}, {"construction throws, assignment does not", 1, Run<K1, K2>::run}, {"assignment throws, construction does not", 1, Run<G1, G2>::run},
	               {"construction or assignment throws", 1, Run<Q1, K2>::run}, {"construction or assignment throws 2", 1, Run<Q1, Q2>::run}, {"list constructible", 1, Run<L1, L2>::run}, {"list constructible 2", 1, Run<L2, Q2>::run}, {"trivial", 1, Run<uint64_t, uint32_t>::run}, {"alternatives that stay", 1, Stay::run}};
	return h;
}
