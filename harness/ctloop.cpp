// C27: compile-time loops, switches, overload sets, bound functions and tuples, with callbacks and elements that
// fail at any point.
#include "../sim/payload.hpp"
#include <dice/template-library/for.hpp>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/variant2.hpp>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace ctl {
	// ---- callbacks ------------------------------------------------------------------------------------------
	std::vector<int64_t> seen;
	uint32_t cb_den;
	int64_t failed_at;
	void called(int64_t v) {
		{
			NoInstr g;
			seen.push_back(v);
		}
		if (should_throw(cb_den, FOther)) {
			failed_at = (int64_t) seen.size();
			throw Boom("callback");
		}
	}
	template<typename T> struct Id;
	template<> struct Id<uint8_t> { static constexpr int v = 1; };
	template<> struct Id<double> { static constexpr int v = 2; };
	template<> struct Id<char> { static constexpr int v = 3; };
	template<> struct Id<void *> { static constexpr int v = 4; };
	// usable once as an rvalue, moved-from callbacks are noticed
	struct Cb {
		std::unique_ptr<int> alive;
		Cb() : alive{std::make_unique<int>(1)} {}
		Cb(Cb &&) = default;
		void check() const {
			if (!alive) violation("callback", "a moved-from callback was called");
		}
		template<typename T> void operator()() {
			check();
			called(Id<T>::v);
		}
		template<typename T, T v> void operator()(std::integral_constant<T, v>) {
			check();
			called((int64_t) v);
		}
	};

	struct Tok { // an argument that is gone after it was moved from
		uint64_t v;
		explicit Tok(uint64_t x) : v{x} {}
		Tok(Tok &&o) noexcept : v{std::exchange(o.v, 0)} {}
		Tok(Tok const &) = default;
	};
	template<int N, bool TC, bool CC, bool MC> struct El : Elem<TC, CC, MC> {
		using B = Elem<TC, CC, MC>;
		static constexpr int IX = N;
		El() noexcept(!TC) : B(0) {}
		explicit El(uint64_t i) noexcept(!TC) : B(i) {}
		El(uint64_t a, uint64_t b) noexcept(!TC) : B(a + b) {}
		El(Tok a, Tok b) noexcept(!TC) : B(a.v + b.v) {}
		El(std::initializer_list<ListOf<El, false>>) : B(0) { became_list(); }
		friend auto operator<=>(El const &a, El const &b) noexcept { return a.id() <=> b.id(); }
		friend bool operator==(El const &a, El const &b) noexcept { return a.id() == b.id(); }
	};
	template<int N> using AllThrow = El<N, true, true, true>;
	template<int N> using CopyThrow = El<N, true, true, false>;
	template<int N> using NoThrow = El<N, false, false, false>;
	template<int N> using OddThrow = El<N, N % 2 != 0, N % 2 != 0, N % 2 != 0>;
} // namespace ctl
using namespace ctl;

namespace {
	void expect(std::vector<int64_t> want, bool threw, char const *what) {
		NoInstr g;
		add_evals(1);
		log(what, seen.size(), (uint64_t) (seen.empty() ? 0 : seen.back()), threw);
		if (threw) {
			if ((size_t) failed_at > want.size()) violation("callback", "%s called its callback too often", what);
			want.resize((size_t) failed_at);
		} else if (failed_at) violation("callback", "%s swallowed the exception of a callback", what);
		if (seen != want) violation("callback", "%s made %zu calls, %zu are right, or their order or arguments differ", what, seen.size(), want.size());
		probe(what);
	}
	template<typename F> bool guarded(F f) {
		seen.clear();
		failed_at = 0;
		try {
			OpScope op;
			f();
			return false;
		} catch (Boom const &) { return true; }
	}
	template<typename F> void with_cb(F f) { // as lvalue or rvalue
		Cb cb;
		if (choose(W, 2)) f(cb);
		else f(std::move(cb));
	}
	template<auto A, decltype(A) B> std::vector<int64_t> seq() {
		std::vector<int64_t> v;
		if (A < B)
			for (auto i = (int64_t) A; i < (int64_t) B; ++i) v.push_back(i);
		else
			for (auto i = (int64_t) A; i > (int64_t) B; --i) v.push_back(i);
		return v;
	}
	template<int8_t I> struct Cell {
		uint64_t v = (uint64_t) (I + 1000);
	};
	template<int8_t A, int8_t B> void wide_tuple(uint64_t id) {
		dtl::integral_template_tuple<A, B, Cell> t;
		constexpr int step = A < B ? 1 : -1, n = A < B ? B - A : A - B;
		add_evals(1);
		int at = A, calls = 0;
		bool ok = true;
		t.visit([&](auto const &c) {
			ok &= c.v == (uint64_t) (at + 1000);
			at += step;
			++calls;
		});
		if (!ok || calls != n) violation("callback", "visiting a tuple of %d elements visited %d, or others", n, calls);
		constexpr int8_t last = (int8_t) (B - step);
		t.template get<last>().v = id;
		if (t.template get<last>().v != id || t.template get<A>().v != (uint64_t) (A + 1000) || t.template get<(int8_t) 0>().v != 1000) violation("value", "an element of a wide tuple is not at its index");
	}
	template<auto A, decltype(A) B> void loop() {
		bool t = guarded([] { with_cb([]<typename C>(C &&c) { dtl::for_range<A, B>(std::forward<C>(c)); }); });
		expect(seq<A, B>(), t, "for_range");
	}
	int sink;
	struct OneShot { // rvalue-only callback
		bool used = false;
		template<typename T, T v> int &operator()(std::integral_constant<T, v>) && {
			if (used) violation("callback", "a switch called its callback twice");
			used = true;
			called((int64_t) v);
			return sink;
		}
		int &operator()() && {
			if (used) violation("callback", "a switch called its callback twice");
			used = true;
			called(-1000);
			return sink;
		}
	};
	template<auto A, decltype(A) B> void sw() {
		constexpr int64_t lo = std::min<int64_t>(A, B), hi = std::max<int64_t>(A, B);
		int64_t c = lo - 2 + (int64_t) choose(W, (uint32_t) (hi - lo + 4));
		if (std::is_unsigned_v<decltype(A)> && c < 0) c = 0;
		bool in = c >= lo && c < hi;
		uint32_t form = choose(W, in ? 4 : 2);
		int *r = nullptr;
		bool t = guarded([&] {
			using C = decltype(A);
			auto lam = [&](auto i) -> int & { called((int64_t) decltype(i)::value); return sink; };
			auto def = [&]() -> int & { called(-1000); return sink; };
			if (form == 0) r = &dtl::switch_cases<A, B>((C) c, OneShot{}, OneShot{});
			else if (form == 1) r = &dtl::switch_cases<A, B>((C) c, lam, def);
			else if (form == 2) r = &dtl::switch_cases<A, B>((C) c, OneShot{});
			else r = &dtl::switch_cases<A, B>((C) c, lam);
		});
		expect({in ? c : -1000}, t, "switch_cases");
		if (!t && r != &sink) violation("callback", "switch_cases returned another reference");
	}
	// functions that can only be called with a value of the range, of the type of the range, and return it
	template<auto A, decltype(A) B> void sw_exact() {
		using C = decltype(A);
		constexpr int64_t lo = std::min<int64_t>(A, B), hi = std::max<int64_t>(A, B);
#ifdef FALLBACK
		violation("unusable", "switch_cases or for_range with a function for exactly the values of the range does not compile");
#else
		int64_t c = lo + (int64_t) choose(W, (uint32_t) (hi - lo) + 1);
		uint32_t form = choose(W, c < hi ? 3 : 2);
		C r{};
		auto f = [&]<C x>(std::integral_constant<C, x>) -> C {
			static_assert((int64_t) x >= lo && (int64_t) x < hi);
			called((int64_t) x);
			return x;
		};
		auto deduced = [&]<C x>(std::integral_constant<C, x>) {
			static_assert((int64_t) x >= lo && (int64_t) x < hi);
			called((int64_t) x);
			return x;
		};
		bool t = guarded([&] {
			if (form == 0) r = dtl::switch_cases<A, B>((C) c, f, [&] { called(-1000); return C{}; });
			else if (form == 1) r = dtl::switch_cases<A, B>((C) c, deduced, [&] { called(-1000); return C{}; });
			else if constexpr (A == 0) r = dtl::switch_cases<B>((C) c, deduced);
			else r = dtl::switch_cases<A, B>((C) c, deduced);
		});
		expect({c < hi ? c : -1000}, t, "switch_cases");
		if (!t && (int64_t) r != (c < hi ? c : 0)) violation("callback", "switch_cases returned another value");
		t = guarded([] {
			dtl::for_range<A, B>([]<C x>(std::integral_constant<C, x>) {
				called((int64_t) x);
			});
		});
		expect(seq<A, B>(), t, "for_range");
#endif
	}
	void sw_last() {
		int64_t c = choose(W, 8);
		bool t = guarded([&] { dtl::switch_cases<5u>((unsigned) c, [&](auto i) { called((int64_t) decltype(i)::value); }, [] { called(-1000); }); });
		expect({c < 5 ? c : -1000}, t, "switch_cases");
		bool b = choose(W, 2);
		t = guarded([&] { dtl::switch_bool(b, [&](auto i) { called((int64_t) decltype(i)::value); }); });
		expect({b}, t, "switch_bool");
	}
	// more cases than fit into a byte
	template<auto A, decltype(A) B> void sw_wide() {
		constexpr int64_t lo = std::min<int64_t>(A, B), hi = std::max<int64_t>(A, B);
		int64_t c = lo + (int64_t) choose(W, (uint32_t) (hi - lo));
		switch (choose(W, 6)) {
		case 0: c = lo; break;
		case 1: c = hi - 1; break;
		case 2: c = hi; break;
		case 3: c = lo - 1; break;
		case 4: c = choose(W, 2) ? hi + 256 : lo - 256; break;
		default: break;
		}
		if (std::is_unsigned_v<decltype(A)> && c < 0) c = 0;
		bool in = c >= lo && c < hi;
		bool t = guarded([&] {
			dtl::switch_cases<A, B>((decltype(A)) c, [](auto i) { called((int64_t) decltype(i)::value); }, [] { called(-100000); });
		});
		expect({in ? c : -100000}, t, "switch_cases");
	}
	struct Kept { // as an rvalue it gives its state away
		std::unique_ptr<int> p = std::make_unique<int>(5);
		void go(int64_t v) {
			if (!p) violation("callback", "a loop called a callback it had already called as rvalue");
			called(v);
		}
		template<typename T, T v> void operator()(std::integral_constant<T, v>) & { go((int64_t) v); }
		template<typename T, T v> void operator()(std::integral_constant<T, v>) && {
			go((int64_t) v);
			p.reset();
		}
		template<typename T> void operator()() & { go(Id<T>::v); }
		template<typename T> void operator()() && {
			go(Id<T>::v);
			p.reset();
		}
	};
	struct Half { // calls of an lvalue can fail, those of an rvalue can not
		bool *rv;
		template<typename T, T v> void operator()(std::integral_constant<T, v>) & { called((int64_t) v); }
		template<typename T, T v> void operator()(std::integral_constant<T, v>) && noexcept {
			NoInstr g;
			*rv = true;
			seen.push_back((int64_t) v);
		}
	};
	void kept() {
		bool t, rv = false;
		switch (choose(W, 5)) {
		case 0:
			t = guarded([] { dtl::for_values<4, 1, 9>(Kept{}); });
			expect({4, 1, 9}, t, "for_values");
			break;
		case 1:
			t = guarded([] { dtl::for_range<6, 2>(Kept{}); });
			expect({6, 5, 4, 3}, t, "for_range");
			break;
		case 2:
			t = guarded([] { dtl::for_types<char, uint8_t, char>(Kept{}); });
			expect({3, 1, 3}, t, "for_types");
			break;
		case 3: // the calls are those of an lvalue, so an exception reaches the caller
			t = guarded([&] { dtl::for_values<4, 1, 9>(Half{&rv}); });
			if (!rv) expect({4, 1, 9}, t, "for_values with calls that can fail");
			break;
		case 4: {
			bool b = choose(W, 2);
			int *r = nullptr;
			t = guarded([&] { r = &dtl::switch_bool(b, OneShot{}); });
			expect({b}, t, "switch_bool");
			if (!t && r != &sink) violation("callback", "switch_bool returned another reference");
			break;
		}
		}
	}
	void loops() {
		cb_den = (uint32_t[]) {0, 3, 8}[choose(W, 3)];
		sink = 0;
		uint32_t n = 1 + choose(W, 6);
		for (uint32_t i = 0; i < n; ++i) {
			bool t;
			switch (choose(W, 30)) {
			case 0:
				t = guarded([] { with_cb([]<typename C>(C &&c) { dtl::for_types<uint8_t, double, char, uint8_t, void *>(std::forward<C>(c)); }); });
				expect({1, 2, 3, 1, 4}, t, "for_types");
				break;
			case 1:
				t = guarded([] { with_cb([]<typename C>(C &&c) { dtl::for_values<3, 'a', -7l, true, 3>(std::forward<C>(c)); }); });
				expect({3, 'a', -7, 1, 3}, t, "for_values");
				break;
			case 2:
				t = guarded([] { with_cb([]<typename C>(C &&c) { dtl::for_types<>(std::forward<C>(c)); dtl::for_values<>(std::forward<C>(c)); }); });
				expect({}, t, "an empty loop");
				break;
			case 3: loop<0, 5>(); break;
			case 4: loop<3, -4>(); break;
			case 5: loop<2, 2>(); break;
			case 6: loop<(uint8_t) 250, (uint8_t) 255>(); break;
			case 7: loop<(int8_t) -126, (int8_t) -128>(); break;
			case 8: loop<7ul, 2ul>(); break;
			case 27: loop<(int8_t) -66, (int8_t) 64>(); break;
			case 28: loop<(int8_t) 70, (int8_t) -62>(); break;
			case 29: { // more elements than the index type can count
				uint64_t id = 1 + choose(W, 1000);
				log("wide tuple", id);
				wide_tuple<64, -65>(id);
				break;
			}
			case 9: sw<0, 5>(); break;
			case 10: sw<4, -3>(); break;
			case 11: sw<3u, 4u>(); break;
			case 12: sw<(uint8_t) 2, (uint8_t) 9>(); break;
			case 13: sw<-5l, -1l>(); break;
			case 14: sw_last(); break;
			case 21: sw_wide<-3, 290>(); break;
			case 22: sw_wide<200, 150>(); break;
			case 23: sw_wide<(unsigned short) 65000, (unsigned short) 65300>(); break;
			case 24: case 25: case 26: kept(); break;
			case 16: sw_exact<0, 3>(); break;
			case 17: sw_exact<(uint8_t) 0, (uint8_t) 4>(); break;
			case 18: sw_exact<(int8_t) 3, (int8_t) -3>(); break;
			case 19: sw_exact<0, -3>(); break;
			case 20: sw_exact<(short) 2, (short) 5>(); break;
			case 15: { // loops in loops
				t = guarded([] {
					dtl::for_range<0, 3>([](auto a) {
						dtl::for_values<1, 2>([a](auto b) { called(decltype(a)::value * 10 + decltype(b)::value); });
					});
				});
				expect({1, 2, 11, 12, 21, 22}, t, "nested loops");
				break;
			}
			}
		}
	}

	// ---- overload sets and bound functions ---------------------------------------------------------------------
	using TH = Elem<true, true, false>;
	uint64_t bound(TH const &a, TH b, TH &&c) {
		called((int64_t) (a.id() + b.id() * 100 + c.id() * 10000));
		TH d{std::move(c)};
		return d.id();
	}
	struct Obj {
		int64_t k = 7;
		void two(TH const &a, uint64_t b) { called((int64_t) (a.id() * 10 + b) + k); }
		auto task(TH &a) { return DICE_MEMFN(two, a); }
		auto task2() { return DICE_MEMFN(two); }
	};
	uint64_t quiet(TH const &a, uint64_t b) noexcept { return a.id() * 10 + b; }
	void functions() {
		cb_den = (uint32_t[]) {0, 3, 8}[choose(W, 3)];
		elem_live = 0;
		ef = {};
		auto d = [] { return (uint32_t[]) {0, 3, 10}[choose(W, 3)]; };
		ef.copy = d();
		ef.ctor = d();
		uint32_t n = 1 + choose(W, 4);
		for (uint32_t i = 0; i < n; ++i) {
			try {
				OpScope op;
				seen.clear();
				failed_at = 0;
				switch (choose(W, 4)) {
				case 0: { // every call of an lvalue sees the bound arguments as they were given
					TH a{1}, b{2};
					auto f = dtl::bind_front<bound>(a, std::move(b));
					static_assert(!noexcept(f(TH{3})));
					if (b.id() != 0) violation("callback", "bind_front copied an argument it was to move");
					TH c{3}, c2{4}, c3{5};
					if (a.id() != 1) violation("callback", "bind_front changed its argument");
					uint64_t r = f(std::move(c));
					auto const &cf = f;
					r = r * 10 + cf(std::move(c2));
					auto g = f;
					r = r * 10 + std::move(f)(std::move(c3));
					TH c4{6};
					r = r * 10 + g(std::move(c4));
					NoInstr q;
					add_evals(1);
					if (r != 3456 || seen != std::vector<int64_t>{30201, 40201, 50201, 60201}) violation("callback", "a bound function saw other arguments");
					probe("bind_front");
					break;
				}
				case 1: {
					auto f = dtl::bind_front<quiet>(TH{4});
					static_assert(noexcept(f(1u)));
					if (f(2u) != 42) violation("callback", "a bound function saw other arguments");
					auto g = dtl::bind_front<&Obj::two>(Obj{}, TH{2});
					g(3u);
					if (seen.back() != 30) violation("callback", "a bound member function saw other arguments");
					break;
				}
				case 2: { // overloaded and match pick the visitor of the alternative
					uint64_t x = 10 + choose(W, 5);
					auto chk = [&](auto v, int64_t want) {
						seen.clear();
						int64_t r = dtl::match(
						    v, [](TH const &e) { called((int64_t) e.id()); return (int64_t) e.id(); }, [](uint32_t e) { called(-(int64_t) e); return -(int64_t) e; });
						NoInstr q;
						add_evals(1);
						if (r != want || seen != std::vector<int64_t>{want}) violation("callback", "match called another visitor");
					};
					if (choose(W, 2)) chk(std::variant<TH, uint32_t>{std::in_place_index<0>, x}, (int64_t) x);
					else chk(std::variant<TH, uint32_t>{(uint32_t) x}, -(int64_t) x);
					if (choose(W, 2)) chk(dtl::variant2<TH, uint32_t>{std::in_place_type<TH>, x}, (int64_t) x);
					else chk(dtl::variant2<TH, uint32_t>{(uint32_t) x}, -(int64_t) x);
					{ // the visitor gets the alternative itself
						dtl::variant2<TH, uint32_t> v{(uint32_t) x};
						std::variant<TH, uint32_t> v2{(uint32_t) x};
						int before = (int) seen.size();
						auto at = [](auto &&e) -> void const * { return &e; };
						if (dtl::match(v, at) != &get<1>(v) || dtl::match(std::as_const(v), at) != &get<1>(v) || dtl::match(v2, at) != &std::get<1>(v2) || dtl::match(std::move(v2), at) != &std::get<1>(v2) || (int) seen.size() != before)
							violation("callback", "match visited another object");
						bool rv = dtl::match(std::move(v), []<typename E>(E &&) { return std::is_rvalue_reference_v<E &&>; });
						if (!rv) violation("callback", "match visited an rvalue as lvalue");
					}
					probe("match");
					break;
				}
				case 3: {
					Obj o;
					TH a{3};
					o.task(a)(5u);
					o.task2()(a, 6u);
					NoInstr q;
					add_evals(1);
					if (seen != std::vector<int64_t>{42, 43}) violation("callback", "a member function saw other arguments");
					probe("memfn");
					break;
				}
				}
				if (failed_at) violation("callback", "the exception of a callback was swallowed");
			} catch (Boom const &) { probe("function failed"); }
			if (elem_live) violation("element-lifetime", "%lld arguments alive after a call", (long long) elem_live);
		}
		{
			NoInstr g;
			seen = {};
		}
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}

	template<typename TUP> struct Access; // size, element access by position
	template<typename... Ts> struct Access<dtl::standard_layout_tuple<Ts...>> {
		static constexpr size_t N = sizeof...(Ts);
		template<size_t I, typename T> static decltype(auto) at(T &&t) { return std::forward<T>(t).template get<I>(); }
		template<size_t I, size_t C, typename T> static decltype(auto) sub(T &&t) { return std::forward<T>(t).template subtuple<I, C>(); }
		template<typename T, typename F> static decltype(auto) each(T &&t, F &&f) { return dtl::tuple_for_each(std::forward<T>(t), std::forward<F>(f)); }
	};
	template<int A, int B, template<int> typename T> struct Access<dtl::integral_template_tuple<A, B, T>> {
		static constexpr int D = A < B ? 1 : -1;
		static constexpr size_t N = (size_t) ((B - A) * D);
		template<size_t I, typename X> static decltype(auto) at(X &&t) { return std::forward<X>(t).template get<A + D * (int) I>(); }
		template<size_t I, size_t C, typename X> static decltype(auto) sub(X &&t) { return std::forward<X>(t).template subtuple<A + D * (int) I, A + D * (int) (I + C)>(); }
		template<typename X, typename F> static decltype(auto) each(X &&t, F &&f) { return std::forward<X>(t).visit(std::forward<F>(f)); }
	};

	// ---- callbacks and arguments that can only be moved, callbacks of which only some can fail ---------------
	struct Once : Cb { // move-only, counts
		template<typename E> auto operator()(E &&e) -> decltype(e.v()) {
			check();
			called((int64_t) e.v());
			return e.v();
		}
		using Cb::operator();
	};
	struct Only { // can only be moved
		std::unique_ptr<uint64_t> p;
		Only() = default;
		explicit Only(uint64_t x) : p{std::make_unique<uint64_t>(x)} {}
		uint64_t v() const { return p ? *p : 0; }
		bool operator==(Only const &o) const noexcept { return v() == o.v(); }
	};
	template<int N> struct OnlyN : Only {
		using Only::Only;
		OnlyN(Only &&o) : Only{std::move(o)} {}
	};
	template<typename T> constexpr bool fails = std::is_same_v<T, double> || std::is_same_v<T, std::integral_constant<int, 3>>;
	struct Some { // only one of the calls can fail
		template<typename T> void operator()() const noexcept(!fails<T>) { go<T>(Id<T>::v); }
		template<typename T, T v> void operator()(std::integral_constant<T, v>) const noexcept(!fails<std::integral_constant<T, v>>) { go<std::integral_constant<T, v>>((int64_t) v); }
		template<typename T> static void go(int64_t v) {
			if constexpr (fails<T>) called(v);
			else {
				NoInstr g;
				seen.push_back(v);
			}
		}
	};
	template<typename TUP> void tuple_args(char const *what, size_t n) {
		add_evals(1);
		size_t tn = n;
		if constexpr (requires { std::tuple_size<TUP>::value; }) tn = std::tuple_size_v<TUP>;
		if (TUP::size() != n || tn != n) violation("tuple", "%s of %zu elements says it has %zu", what, n, TUP::size());
		int64_t base = 10 + choose(W, 3);
		uint32_t how = choose(W, 2);
		Only a{(uint64_t) base}, b{(uint64_t) base + 1}, c{(uint64_t) base + 2};
		auto t = how ? TUP{dtl::individual_construct, std::move(a), std::move(b), std::move(c)} : TUP(std::move(a), std::move(b), std::move(c));
		if (a.p || b.p || c.p) violation("tuple", "an argument to be moved was not moved");
		TUP u{std::move(t)};
		auto const want = std::vector<int64_t>{base, base + 1, base + 2};
		auto f = [] {
			return [c = Cb{}](auto &&e) mutable {
				c.check();
				called((int64_t) e.v());
				return e.v();
			};
		};
		bool threw = guarded([&] {
			uint64_t last = 0;
			if constexpr (requires { u.visit(f()); }) last = u.visit(f());
			else last = dtl::tuple_for_each(u, f());
			if (last != (uint64_t) base + 2) violation("tuple", "visiting returned the result of another call");
		});
		expect(want, threw, what);
		cb_den = 0;
		if constexpr (requires { std::tuple_size<TUP>::value; }) {
		auto acc = [](uint64_t k) { return std::make_unique<uint64_t>(k); };
		auto sum = dtl::tuple_fold(std::as_const(u), acc(1), [c = Cb{}](std::unique_ptr<uint64_t> p, auto const &e) {
			c.check();
			*p = *p * 100 + e.v();
			return p;
		});
		uint64_t b1 = (uint64_t) base;
		if (!sum || *sum != ((100 + b1) * 100 + b1 + 1) * 100 + b1 + 2) violation("tuple", "folding %s gives another result", what);
		}
	}
	struct TypeFold {
		Cb c;
		template<typename X> std::unique_ptr<uint64_t> operator()(std::unique_ptr<uint64_t> p) {
			c.check();
			*p = *p * 10 + Id<X>::v;
			return p;
		}
	};
	void forwarding() {
		elem_live = 0;
		ef = {};
		uint32_t n = 1 + choose(W, 5);
		for (uint32_t i = 0; i < n; ++i) {
			cb_den = (uint32_t[]) {0, 2, 5}[choose(W, 3)];
			switch (choose(W, 7)) {
			case 0: {
				Some f;
				bool t;
				if (choose(W, 2)) t = guarded([&] { dtl::for_types<uint8_t, double, char, double>(f); });
				else t = guarded([&] { dtl::for_types<uint8_t, double, char, double>(Some{}); });
				expect({1, 2, 3, 2}, t, "for_types with some failing calls");
				if (!noexcept(dtl::for_types<uint8_t, char>(f))) violation("callback", "for_types of calls that can not fail is not noexcept");
				break;
			}
			case 1: {
				Some f;
				bool t;
				if (choose(W, 2)) t = guarded([&] { dtl::for_values<1, 3, 2, 3>(f); });
				else t = guarded([&] { dtl::for_values<1, 3, 2, 3>(Some{}); });
				expect({1, 3, 2, 3}, t, "for_values with some failing calls");
				if (!noexcept(dtl::for_values<1, 2>(f))) violation("callback", "for_values of calls that can not fail is not noexcept");
				break;
			}
			case 2: tuple_args<dtl::standard_layout_tuple<OnlyN<0>, OnlyN<1>, OnlyN<2>>>("a tuple", 3); break;
			case 3: tuple_args<dtl::integral_template_tuple<4, 7, OnlyN>>("a tuple", 3); break;
			case 4: { // by type
				using T = dtl::standard_layout_tuple<Only, uint32_t, OnlyN<1>>;
				static_assert(dtl::standard_layout_tuple<>::size() == 0);
				T t{Only{1}, 2u, Only{3}};
				if (t.get<Only>().v() != 1 || std::as_const(t).get<uint32_t>() != 2 || t.get<OnlyN<1>>().v() != 3) violation("tuple", "get<type>() gives another element");
				static_assert(std::is_same_v<decltype(std::move(t).get<Only>()), Only &&> && std::is_same_v<decltype(std::as_const(t).get<Only>()), Only const &>);
				OnlyN<1> out{std::move(t).get<OnlyN<1>>()};
				if (out.v() != 3 || t.get<2>().v() != 0 || t.get<0>().v() != 1) violation("tuple", "moving an element out of a tuple moved another one");
				static_assert(std::is_rvalue_reference_v<decltype(std::move(t).template subtuple<1, 1>())>);
				if (&t.template subtuple<1, 1>().template get<0>() != &t.template get<1>()) violation("tuple", "a subtuple starts at another element");
				add_evals(1);
				break;
			}
			case 5: { // folds and loops over types
				using T = std::tuple<uint8_t, char, void *>;
				auto r = dtl::tuple_type_fold<T>(std::make_unique<uint64_t>(9), TypeFold{});
				if (!r || *r != 9134) violation("tuple", "tuple_type_fold gives another result");
				bool t = guarded([] { dtl::tuple_type_for_each<T>(Cb{}); });
				expect({1, 3, 4}, t, "tuple_type_for_each");
				break;
			}
			case 6: { // visitors and variants that can only be moved
				using V = std::variant<Only, uint32_t>;
				uint64_t got = 0;
				bool t = guarded([&] {
					got = dtl::match(V{std::in_place_index<0>, 5u}, [c = Cb{}](Only &&o) {
						c.check();
						Only x{std::move(o)};
						called((int64_t) x.v());
						return x.v(); }, [c = Cb{}](uint32_t) { c.check(); return uint64_t{1}; });
				});
				expect({5}, t, "match of a moved variant");
				if (!t && got != 5) violation("callback", "match returned something else");
				break;
			}
			}
		}
		{
			NoInstr g;
			seen = {};
		}
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}

	// ---- tuples -------------------------------------------------------------------------------------------
	template<typename TUP> struct Tup {
		using A = Access<TUP>;
		static constexpr size_t N = A::N;
		using M = std::array<uint64_t, N>;
		template<typename F> static void each_ix(F f) {
			[&]<size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<size_t, I>{}), ...); }(std::make_index_sequence<N>{});
		}
		static M read(TUP &t) {
			NoInstr g;
			M m;
			each_ix([&](auto i) { m[i] = A::template at<i>(t).id(); });
			return m;
		}
		static void same(TUP &t, M const &m, char const *when) {
			NoInstr g;
			add_evals(1);
			TUP const &c = t;
			each_ix([&](auto i) {
				static_assert(std::is_lvalue_reference_v<decltype(A::template at<i>(t))> && std::is_rvalue_reference_v<decltype(A::template at<i>(std::move(t)))>);
				uint64_t x = A::template at<i>(t).id();
				if (x != m[i]) violation("tuple", "element %zu is %llu instead of %llu %s", (size_t) i, (unsigned long long) x, (unsigned long long) m[i], when);
				if (&A::template at<i>(c) != &A::template at<i>(t)) violation("tuple", "get<%zu>() of a const tuple is another element", (size_t) i);
				auto &&mv = A::template at<i>(std::move(t));
				if (&mv != &A::template at<i>(t)) violation("tuple", "get<%zu>() of an rvalue is another element", (size_t) i);
			});
			each_ix([&](auto i) { // every sub range refers to the same elements
				constexpr size_t C = (N - i + 1) / 2;
				auto &s = A::template sub<i, C>(t);
				auto const &sc = A::template sub<i, C>(c);
				using S = Access<std::remove_cvref_t<decltype(s)>>;
				static_assert(S::N == C);
				[&]<size_t... J>(std::index_sequence<J...>) {
					bool ok = ((static_cast<void const *>(&S::template at<J>(s)) == &A::template at<i + J>(t) && static_cast<void const *>(&S::template at<J>(sc)) == &A::template at<i + J>(t)) && ...);
					if (!ok) violation("tuple", "a subtuple has other elements");
				}(std::make_index_sequence<C>{});
			});
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 3, 6, 20}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			ef.copy = ef.cassign = d();
			ef.move = ef.massign = d();
			cb_den = d();
			{
				constexpr int K = 3;
				std::optional<TUP> v[K];
				M m[K]{};
				uint32_t steps = 3 + choose(W, 20);
				for (uint32_t st = 0; st < steps; ++st) {
					int i = (int) choose(W, K), j = (int) choose(W, K);
					uint32_t k = pick(W, {4, 3, 4, 3, 3, 3, 3, 2, 2}), w = choose(W, 4);
					uint64_t x = 100 + 10 * st;
					log("op", k, (uint64_t) (i * 10 + j), w);
					bool ok = false;
					auto gone = [&](std::optional<TUP> &t) { // rebuild into a new place
						suspend_faults();
						t.reset();
						resume_faults();
					};
					bool from = v[j].has_value();
					M mi = m[i], mj = m[j], target = mj;
					if ((k == 1 || k == 2 || k == 3 || k == 4) && (!from || i == j)) continue;
					if (k >= 3 && !v[i]) continue;
					try {
						OpScope op;
						switch (k) {
						case 0: // construction
							gone(v[i]);
							if (w == 0) {
								[&]<size_t... I>(std::index_sequence<I...>) { v[i].emplace((x + I)...); }(std::make_index_sequence<N>{});
								each_ix([&](auto q) { target[q] = x + q; });
							} else if (w == 1) {
								Tok a{x}, b{3};
								if (x % 20) v[i].emplace(dtl::uniform_construct, a, Tok{3});
								else v[i].emplace(dtl::uniform_construct, std::move(a), b);
								if (b.v != 3 || (x % 20 && a.v != x)) violation("tuple", "an argument passed by reference was moved from");
								target.fill(x + 3);
							} else if (w == 2) {
								v[i].emplace();
								target.fill(0);
							} else {
								[&]<size_t... I>(std::index_sequence<I...>) { v[i].emplace(dtl::individual_construct, std::remove_cvref_t<decltype(A::template at<I>(std::declval<TUP &>()))>(x + I)...); }(std::make_index_sequence<N>{});
								each_ix([&](auto q) { target[q] = x + q; });
							}
							break;
						case 1: // copy
							gone(v[i]);
							if (w == 0) v[i].emplace(std::as_const(*v[j]));
							else if (w < 3) {
#ifdef FALLBACK
								if constexpr (N == 1) violation("unusable", "a non-const standard_layout_tuple of one element can not be copied: it does not compile");
								else
#endif
									if (w == 1) v[i].emplace(*v[j]);
									else {
										TUP t{*v[j]};
										v[i] = std::move(t);
									}
							} else {
								auto f = [t = TUP(std::as_const(*v[j]))]() mutable { return std::move(t); };
								v[i] = f();
							}
							break;
						case 2:
							gone(v[i]);
							v[i].emplace(std::move(*v[j]));
							break;
						case 3: *v[i] = *v[j]; break;
						case 4: *v[i] = std::move(*v[j]); break;
						case 5: // a visitor writes, and may fail between elements
							{
								size_t n = 0;
								target = mi;
								auto vis = [&](auto &e) -> uint64_t {
									if (should_throw(cb_den, FOther)) throw Boom("visitor");
									suspend_faults();
									std::remove_cvref_t<decltype(e)> y(x + n);
									uint64_t *box = std::exchange(e.box, nullptr);
									std::swap(e.box, y.box);
									delete box;
									resume_faults();
									target[n] = x + n;
									++n;
									return x + n;
								};
								uint64_t r = A::each(*v[i], vis);
								if (r != x + N || n != N) violation("tuple", "visiting a tuple called the visitor %zu times or returned another result", n);
								probe("visited");
							}
							break;
						case 6: // const visits, folds
							{
								std::vector<uint64_t> got;
								A::each(std::as_const(*v[i]), [&]<typename E>(E &&e) {
									NoInstr g;
									if (!std::is_const_v<std::remove_reference_t<E>>) violation("tuple", "a visitor of a const tuple can change its elements");
									got.push_back(e.id());
									if (should_throw(cb_den, FOther)) throw Boom("visitor");
								});
								NoInstr g;
								if (got != std::vector<uint64_t>(mi.begin(), mi.end())) violation("tuple", "a visitor saw other elements");
								if constexpr (requires { std::tuple_size<TUP>::value; }) {
									uint64_t const zero = 0;
									auto step = [](uint64_t acc, auto const &e) { return acc * 1000 + e.id(); };
									auto tstep = []<typename E>(uint64_t acc) { return acc * 10 + (uint64_t) E::IX; };
									uint64_t f = w == 0 ? dtl::tuple_fold(*v[i], zero, step) : dtl::tuple_fold(*v[i], uint64_t{0}, step);
									uint64_t tf = w == 0 ? dtl::tuple_type_fold<TUP>(zero, tstep) : dtl::tuple_type_fold<TUP>(uint64_t{0}, tstep);
#ifndef FALLBACK
									uint64_t start = 0;
									if (w == 1) {
										f = dtl::tuple_fold(*v[i], start, step);
										tf = dtl::tuple_type_fold<TUP>(start, tstep);
									}
									if (start != 0) violation("tuple", "a fold changed its initial value");
#endif
									uint64_t wf = 0;
									for (auto q : mi) wf = wf * 1000 + q;
									if (f != wf) violation("tuple", "tuple_fold gave another result");
									uint64_t wt = 0;
									each_ix([&](auto q) { wt = wt * 10 + (uint64_t) std::tuple_element_t<q, TUP>::IX; });
									if (tf != wt) violation("tuple", "tuple_type_fold gave another result");
								}
								got = {};
							}
							break;
						case 7: // compare
							if (!from) break;
							{
								auto c = *v[i] <=> *v[j];
								auto wc = mi <=> mj;
								add_evals(1);
								if (c != wc || (*v[i] == *v[j]) != (mi == mj)) violation("tuple", "comparison of two tuples differs from the one of their elements");
							}
							break;
						case 8:
							if (!from || i == j) break;
							std::swap(*v[i], *v[j]);
							break;
						}
						ok = true;
					} catch (Boom const &) { probe("tuple operation failed"); }
					auto partly = [&](int q, M const &a, M const &b, char const *what) { // every element is one of two
						if (!v[q]) return;
						M r = read(*v[q]);
						each_ix([&](auto e) {
							if (r[e] != a[e] && r[e] != b[e] && r[e] != 0) violation("tuple", "element %zu has a value of its own after %s", (size_t) e, what);
						});
						m[q] = r;
					};
					switch (k) {
					case 0: case 1:
						if (ok) m[i] = target;
						else if (v[i]) violation("tuple", "a failed construction left a tuple");
						break;
					case 2: case 4:
						if (ok) {
							m[i] = mj;
							M r = read(*v[j]);
							each_ix([&](auto e) {
								if (r[e] != 0) violation("tuple", "element %zu was not moved", (size_t) e);
							});
							m[j] = r;
						} else {
							partly(i, mi, mj, "a failed move");
							partly(j, mj, mj, "a failed move");
						}
						break;
					case 3:
						if (ok) m[i] = mj;
						else partly(i, mi, mj, "a failed copy");
						break;
					case 5: m[i] = target; break;
					case 8:
						if (!from || i == j) break;
						if (ok) std::swap(m[i], m[j]);
						else {
							partly(i, mi, mj, "a failed swap");
							partly(j, mi, mj, "a failed swap");
						}
						break;
					}
					int64_t want = 0;
					for (int q = 0; q < K; ++q)
						if (v[q]) {
							same(*v[q], m[q], ok ? "after an operation" : "after a failed operation");
							want += (int64_t) N;
						}
					if (elem_live != want) violation("element-lifetime", "%lld elements alive instead of %lld", (long long) elem_live, (long long) want);
				}
			}
			if (elem_live) violation("element-lifetime", "%lld elements alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "ctloop";
	h.scenarios = {
	    {"loops and switches", 3, loops},
	    {"functions", 2, functions},
	    {"forwarding", 1, forwarding},
	    {"tuple", 2, Tup<dtl::standard_layout_tuple<AllThrow<1>, CopyThrow<2>, NoThrow<3>, AllThrow<4>>>::run},
	    {"tuple of two", 1, Tup<dtl::standard_layout_tuple<AllThrow<5>, AllThrow<6>>>::run},
	    {"tuple of one", 1, Tup<dtl::standard_layout_tuple<AllThrow<7>>>::run},
	    {"ascending", 2, Tup<dtl::integral_template_tuple<2, 5, AllThrow>>::run},
	    {"descending", 1, Tup<dtl::integral_template_tuple<2, -2, OddThrow>>::run},
	};
	return h;
}
