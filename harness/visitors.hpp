// Shared by variant2 and itv: alternatives that can neither be copied nor moved, and visitors with state of their own,
// called in every value category and failing where the fault stream says.
#ifndef VERIF_VISITORS_HPP
#define VERIF_VISITORS_HPP
#include "../sim/payload.hpp"
#include <variant>

namespace sim {
	template<int N> struct Pinned {
		Pinned const *self = this;
		uint64_t id;
		uint64_t *box;
		Pinned() noexcept(false) : Pinned(uint64_t(N)) {}
		explicit Pinned(uint64_t i) noexcept(false) : id(i), box(make(i)) { ++elem_live; }
		Pinned(uint64_t a, uint64_t b) noexcept(false) : Pinned(a + b) {}
		Pinned(Pinned const &) = delete;
		Pinned &operator=(Pinned const &) = delete;
		~Pinned() {
			check();
			--elem_live;
			delete box;
		}
		static uint64_t *make(uint64_t i) {
			if (should_throw(ef.ctor, FCtor)) throw Boom("ctor");
			return new uint64_t(i);
		}
		void check() const {
			if (self != this || *box != id) violation("state", "an alternative that can not be moved is somewhere else");
		}
		static constexpr int n = N;
	};
	enum Cat { LRef, CLRef, RRef, CRRef };
	template<typename X> constexpr Cat cat_of() {
		if constexpr (std::is_lvalue_reference_v<X>) return std::is_const_v<std::remove_reference_t<X>> ? CLRef : LRef;
		else return std::is_const_v<std::remove_reference_t<X>> ? CRRef : RRef;
	}
	struct Visitor {
		uint32_t den;
		mutable int calls = 0, n = -1;
		mutable Cat me{}, arg{};
		mutable void const *addr = nullptr;
		mutable int result = 0;
		explicit Visitor(uint32_t d) : den(d) {}
		Visitor(Visitor const &) = delete;
		Visitor &operator=(Visitor const &) = delete;
		template<typename X> int &see(Cat c, X &&x) const {
			++calls;
			me = c;
			arg = cat_of<X &&>();
			addr = &x;
			n = std::remove_cvref_t<X>::n;
			x.check();
			if (should_throw(den, FOther)) throw Boom("visitor");
			return result;
		}
		template<typename X> int &operator()(X &&x) & { return see(LRef, std::forward<X>(x)); }
		template<typename X> int &operator()(X &&x) const & { return see(CLRef, std::forward<X>(x)); }
		template<typename X> int &operator()(X &&x) && { return see(RRef, std::forward<X>(x)); }
		template<typename X> int &operator()(X &&x) const && { return see(CRRef, std::forward<X>(x)); }
	};
	// how: 4 categories of the visitor times 4 of the variant; call(visitor, variant) visits
	template<typename V, typename Call> void visit_forms(V &v, int n, void const *addr, uint32_t den, uint32_t how, Call call) {
		Visitor s{den};
		int *r = nullptr;
		bool threw = false, bad = false;
		auto const w = [&](auto &&vis) {
			static_assert(std::is_same_v<int &, decltype(call(std::forward<decltype(vis)>(vis), v))>);
			switch (how / 4) {
			case 0: r = &call(std::forward<decltype(vis)>(vis), v); break;
			case 1: r = &call(std::forward<decltype(vis)>(vis), std::as_const(v)); break;
			case 2: r = &call(std::forward<decltype(vis)>(vis), std::move(v)); break;
			default: r = &call(std::forward<decltype(vis)>(vis), std::move(std::as_const(v))); break;
			}
		};
		{
			OpScope o;
			try {
				switch (how % 4) {
				case 0: w(s); break;
				case 1: w(std::as_const(s)); break;
				case 2: w(std::move(s)); break;
				default: w(std::move(std::as_const(s))); break;
				}
			} catch (Boom const &) {
				threw = true;
				probe("visitor failed");
			} catch (std::bad_variant_access const &) {
				bad = true;
				probe("visit of a valueless variant");
			}
		}
		NoInstr g;
		add_evals(1);
		if (bad != (n < 0)) violation("visit", "visiting %s", bad ? "failed although an alternative is held" : "a valueless variant did not fail");
		if (bad) {
			if (s.calls) violation("visit", "a visitor was called for a valueless variant");
			return;
		}
		if (s.calls != 1) violation("visit", "the visitor was called %d times, as seen by the caller", s.calls);
		if (s.n != n || s.addr != addr) violation("visit", "the visitor got another object than the one that is held");
		if (s.me != (Cat) (how % 4)) violation("visit", "a visitor of category %u was called as category %d", how % 4, (int) s.me);
		if (s.arg != (Cat) (how / 4)) violation("visit", "the alternative of a variant of category %u was passed as category %d", how / 4, (int) s.arg);
		if (!threw && r != &s.result) violation("visit", "the result of the visitor was not passed on");
	}
} // namespace sim
#endif
