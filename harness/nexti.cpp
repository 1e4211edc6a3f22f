// C24: next_to_iter, next_back_to_reverse_iter, next_to_range, next_to_view over sources that fail at any point,
// and the range() generator over every integer type and its limits.
#include "../sim/payload.hpp"
#include <algorithm>
#include <chrono>
#include <dice/template-library/next_to_range.hpp>
#include <dice/template-library/ranges.hpp>
#include <limits>
#include <memory>
#include <optional>
#include <ranges>
#include <type_traits>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	uint32_t src_den, srccopy_den;
	int64_t src_live;
	using U64 = uint64_t;
	template<typename T> T mk(uint64_t id) { return T(id); }

	// a rust-style iterator over the ids base+lo .. base+hi-1; fails before it changes anything, keeps answering
	// nullopt after its end
	template<typename T, bool COPY, bool NTH, bool BACK, bool SIZED>
	struct Src {
		using value_type = T;
		uint64_t base = 0, lo = 0, hi = 0;
		std::unique_ptr<uint64_t> box; // reads of a dead or moved-from source are memory errors
		static std::unique_ptr<uint64_t> mkbox() {
			suspend_faults();
			auto r = std::make_unique<uint64_t>(7u);
			resume_faults();
			return r;
		}
		Src() : box{mkbox()} { ++src_live; }
		Src(uint64_t b, uint64_t n) : base{b}, hi{n} {
			fail(srccopy_den, FCtor);
			box = mkbox();
			++src_live;
		}
		Src(Src &&o) noexcept : base{o.base}, lo{o.lo}, hi{o.hi}, box{std::move(o.box)} { ++src_live; }
		Src(Src const &o) requires COPY : base{o.base}, lo{o.lo}, hi{o.hi} {
			o.alive();
			fail(srccopy_den, FCopy);
			box = mkbox();
			++src_live;
		}
		Src &operator=(Src &&o) noexcept {
			o.alive();
			base = o.base, lo = o.lo, hi = o.hi, box = std::move(o.box);
			return *this;
		}
		Src &operator=(Src const &o) requires COPY {
			o.alive();
			fail(srccopy_den, FCopyAssign);
			base = o.base, lo = o.lo, hi = o.hi;
			if (!box) box = mkbox();
			return *this;
		}
		~Src() { --src_live; }
		void alive() const {
			if (!box || *box != 7u) violation("source", "a moved-from source was used");
		}
		static void fail(uint32_t den, Fault f) {
			if (should_throw(den, f)) throw Boom("source");
		}
		T make(uint64_t k) const {
			suspend_faults();
			T t = mk<T>(base + k);
			resume_faults();
			return t;
		}
		std::optional<T> next() {
			alive();
			fail(src_den, FSource);
			if (lo >= hi) return std::nullopt;
			return make(lo++);
		}
		std::optional<T> nth(size_t off) requires NTH {
			alive();
			fail(src_den, FSource);
			if (off >= hi - lo) {
				lo = hi;
				return std::nullopt;
			}
			lo += off;
			return make(lo++);
		}
		std::optional<T> next_back() requires BACK {
			alive();
			fail(src_den, FSource);
			if (lo >= hi) return std::nullopt;
			return make(--hi);
		}
		std::optional<T> nth_back(size_t off) requires (BACK && NTH) {
			alive();
			fail(src_den, FSource);
			if (off >= hi - lo) {
				hi = lo;
				return std::nullopt;
			}
			hi -= off;
			return make(--hi);
		}
		size_t remaining() const noexcept requires SIZED {
			alive();
			return hi - lo;
		}
	};

	// model of one iterator: the ids it still visits, and what its current element was overwritten with
	struct M {
		uint64_t base = 0, lo = 0, hi = 0; // lo (or hi-1) is the current one
		bool rev = false, moved = false;
		uint64_t over = 0;
		bool end() const { return lo >= hi; }
		uint64_t cur() const { return over ? over : base + (rev ? hi - 1 : lo); }
		void skip(uint64_t k) {
			if (!k) return;
			over = 0;
			k = std::min(k, hi - lo);
			if (rev) hi -= k;
			else lo += k;
		}
		uint64_t left() const { return hi - lo; }
	};

	template<typename It>
	struct Slot {
		std::optional<It> it;
		M m;
	};

	template<typename It, typename SRC> constexpr bool can_copy = std::is_copy_constructible_v<SRC> && std::is_copy_constructible_v<typename SRC::value_type>;

	template<typename It> void check(It &it, M const &m, char const *when) {
		NoInstr g;
		add_evals(1);
		It const &c = it;
		bool e = it == std::default_sentinel;
		if (e != (std::default_sentinel == c) || e == (c != std::default_sentinel)) violation("iterator", "comparisons with the sentinel disagree %s", when);
		if (e != m.end()) violation("iterator", "the iterator is %s %s, %llu elements are left", e ? "at the end" : "not at the end", when, (unsigned long long) m.left());
		if (e) return;
		uint64_t a = id_of(*c), b = id_of(*it);
		if (a != m.cur() || b != a) violation("iterator", "the iterator is at element %lld instead of %lld %s", (long long) a - 1000, (long long) m.cur() - 1000, when);
		if (std::addressof(*it) != it.operator->() || std::addressof(*c) != c.operator->()) violation("iterator", "operator-> is another element %s", when);
	}

	// one operation on an iterator; returns false if it failed
	template<typename SRC, bool REV, typename It> void step(Slot<It> *v, int n, uint32_t st) {
		int i = (int) choose(W, (uint32_t) n), j = (int) choose(W, (uint32_t) n);
		Slot<It> &s = v[i];
		uint32_t k = pick(W, {6, 3, 4, 3, 5, 3, 3, 2, 2, 2, 2});
		uint64_t off = choose(W, 6);
		log("iterator op", k, (uint64_t) (i * 10 + j), off);
		if (!s.it || s.m.moved) {
			if (k != 5 && k != 6) return;
		}
		try {
			OpScope op;
			switch (k) {
			case 0:
				if (s.m.end()) break;
				if (&++*s.it != &*s.it) violation("iterator", "++ returns another iterator");
				s.m.skip(1);
				break;
			case 1:
				if (s.m.end()) break;
				if constexpr (can_copy<It, SRC>) {
					auto old = (*s.it)++;
					static_assert(std::is_same_v<decltype(old), It>);
					M mo = s.m;
					s.m.skip(1);
					check(old, mo, "in the result of it++");
					if (choose(W, 2)) { // the copy must be usable on its own
						++old;
						mo.skip(1);
						check(old, mo, "after advancing the result of it++");
					}
				} else {
					(void) (*s.it)++;
					s.m.skip(1);
				}
				break;
			case 2:
				if constexpr (requires { *s.it += off; }) {
					if (&(*s.it += off) != &*s.it) violation("iterator", "+= returns another iterator");
					s.m.skip(off);
				}
				break;
			case 3:
				if constexpr (can_copy<It, SRC> && requires { *s.it + off; }) {
					auto r = std::as_const(*s.it) + off;
					M mr = s.m;
					mr.skip(off);
					check(r, mr, "in the result of it + n");
				}
				break;
			case 4: {
				auto const &p = s.it->peek();
				NoInstr g;
				add_evals(1);
				bool has = s.m.left() > 1;
				uint64_t want = REV ? s.m.base + s.m.hi - 2 : s.m.base + s.m.lo + 1;
				if (p.has_value() != has) violation("iterator", "peek() %s, %llu elements are left after the current one", has ? "gave nothing" : "gave an element", (unsigned long long) (s.m.end() ? 0 : s.m.left() - 1));
				if (has && id_of(*p) != want) violation("iterator", "peek() gave %lld instead of %lld", (long long) id_of(*p) - 1000, (long long) want - 1000);
				probe("peeked");
				break;
			}
			case 5: // a copy, in each of the ways the language has
				if (i == j || !v[j].it || v[j].m.moved) break;
				if constexpr (can_copy<It, SRC>) {
					if (off == 0 && s.it && std::is_copy_assignable_v<SRC>) {
						s.m.moved = true; // a failing assignment leaves it unspecified
						*s.it = *v[j].it;
					}
					else if (off == 1) {
						auto t = *v[j].it;
						s.it.emplace(std::move(t));
					} else if (off == 2) s.it.emplace(*v[j].it);
					else if (off == 3) {
						It t{*v[j].it};
						s.it.emplace(std::move(t));
					} else if (off == 4) {
						auto f = [it = *v[j].it] { return it; };
						s.it.emplace(f());
					} else {
						It it = *v[j].it;
						auto f = [it] { return it; };
						s.it.emplace(f());
					}
					s.m = v[j].m;
					probe("iterator copied");
				}
				break;
			case 6: // move
				if (i == j || !v[j].it || v[j].m.moved) break;
				if (s.it && off % 2) *s.it = std::move(*v[j].it);
				else s.it.emplace(std::move(*v[j].it));
				s.m = v[j].m;
				v[j].m.moved = true;
				if (off > 2) v[j].it.reset();
				break;
			case 7: // write through the iterator
				if (s.m.end()) break;
				{
					uint64_t x = 5000 + st;
					suspend_faults();
					auto t = mk<typename It::value_type>(x);
					resume_faults();
					**s.it = std::move(t);
					s.m.over = x;
				}
				break;
			case 8: // to the end
				for (; *s.it != std::default_sentinel; ++*s.it, s.m.skip(1)) check(*s.it, s.m, "in a loop");
				break;
			case 9:
				if (i == j || !v[j].it || v[j].m.moved) break;
				std::swap(*s.it, *v[j].it);
				std::swap(s.m, v[j].m);
				break;
			case 10:
				if constexpr (requires { s.it->remaining(); }) { // the base iterator stays accessible
					NoInstr g;
					size_t r = s.it->remaining(), l = s.m.end() ? 0 : s.m.left() - 1;
					if (r != l && r + 1 != l) violation("iterator", "remaining() is %zu with %zu elements behind the current one", r, l);
				}
				break;
			}
		} catch (Boom const &) { probe("iterator operation failed"); }
		// whatever happened, every iterator is where the model says; a failed operation changed nothing
		for (int q = 0; q < n; ++q)
			if (v[q].it && !v[q].m.moved) check(*v[q].it, v[q].m, "after an operation");
	}

	template<typename SRC, bool VIEW>
	struct Run {
		using T = typename SRC::value_type;
		static constexpr bool COPY = std::is_copy_constructible_v<SRC>;
		static constexpr bool BACK = requires(SRC s) { s.next_back(); };
		static constexpr bool NTH = requires(SRC s) { s.nth(0); };
		static constexpr bool SIZED = requires(SRC s) { s.remaining(); };
		template<typename R> static M model(uint64_t base, uint64_t n, uint64_t dropped, bool rev) { return {base, dropped, n, rev, false, 0}; }
		template<typename R> static std::vector<uint64_t> walk(R &&r) {
			std::vector<uint64_t> out;
			for (auto &&x : r) {
				NoInstr g;
				out.push_back(id_of(x));
				if (out.size() > 60) violation("range", "the range has more elements than its source");
			}
			return out;
		}
		static void same(std::vector<uint64_t> const &got, std::vector<uint64_t> const &want, char const *what) {
			add_evals(1);
			if (got != want) violation("range", "%s gave %zu elements, first difference at %zu of %zu", what, got.size(), (size_t) (std::ranges::mismatch(got, want).in1 - got.begin()), want.size());
		}
		using It = dtl::next_to_iter<SRC>;
		static void run() {
			elem_live = 0;
			src_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			src_den = d();
			srccopy_den = d();
			ef.copy = ef.cassign = d();
			auto rvt = [] {
				if constexpr (BACK) return dtl::next_back_to_reverse_iter<SRC>{};
				else return It{};
			};
			using Rev = decltype(rvt());
			using R = typename decltype([] {
				if constexpr (VIEW) return std::type_identity<dtl::next_to_view<SRC>>{};
				else return std::type_identity<dtl::next_to_range<SRC>>{};
			}())::type;
			static_assert(std::input_iterator<It> && std::ranges::input_range<R> && std::ranges::view<R> == VIEW);
			static_assert(std::ranges::sized_range<R> == (COPY && SIZED));
			{
				constexpr int N = 3;
				Slot<It> f[N];
				Slot<Rev> b[N];
				uint64_t n = choose(W, 7), base = 1000, dropped = 0;
				suspend_faults();
				R r{base, n};
				resume_faults();
				auto fwd = [&] {
					std::vector<uint64_t> l;
					for (uint64_t k = dropped; k < n; ++k) l.push_back(base + k);
					return l;
				};
				auto size = [&] {
					if constexpr (COPY && SIZED) {
						NoInstr g;
						R const &c = r;
						if (c.size() != n - dropped || c.empty() != (n == dropped) || (bool) c != (n != dropped) || std::ranges::size(c) != n - dropped) violation("range", "size(), empty() or bool differ from the %llu elements of the range", (unsigned long long) (n - dropped));
					}
				};
				if (choose(W, 8) == 0) try { // an iterator over nothing
					OpScope op;
					f[0].it.emplace();
					if constexpr (BACK) b[0].it.emplace();
				} catch (Boom const &) {}
				uint32_t steps = 3 + choose(W, 25);
				for (uint32_t st = 0; st < steps; ++st) {
					uint32_t k = pick(W, {10, 4, 5, 3, 3, 3, 2, 2, 2, 2});
					log("op", k, n, dropped);
					int i = (int) choose(W, N);
					switch (k) {
					case 0: step<SRC, false>(f, N, st); break;
					case 1:
						if constexpr (BACK) step<SRC, true>(b, N, st);
						break;
					case 2: // an iterator of its own from the start
						try {
							OpScope op;
							if (choose(W, 2)) f[i].it.emplace(std::as_const(r).begin());
							else f[i].it.emplace(r.cbegin());
							f[i].m = model<R>(base, n, dropped, false);
						} catch (Boom const &) { if (!f[i].it) f[i].m = {}; }
						break;
					case 3:
						if constexpr (BACK) try {
							OpScope op;
							if (choose(W, 2)) b[i].it.emplace(std::as_const(r).rbegin());
							else b[i].it.emplace(r.crbegin());
							b[i].m = model<R>(base, n, dropped, true);
						} catch (Boom const &) { if (!b[i].it) b[i].m = {}; }
						break;
					case 4:
						try {
							OpScope op;
							auto l = walk(std::as_const(r));
							NoInstr g;
							same(l, fwd(), "iterating the range");
						} catch (Boom const &) {}
						break;
					case 5:
						if constexpr (BACK) try {
							OpScope op;
							auto l = walk(r.reversed());
							NoInstr g;
							auto w = fwd();
							std::ranges::reverse(w);
							same(l, w, "iterating reversed()");
						} catch (Boom const &) {}
						break;
					case 6: // single elements
						if constexpr (VIEW) try {
							if (n == dropped) break;
							OpScope op;
							uint64_t x = 0;
							{
								T t = r.front();
								NoInstr g;
								x = id_of(t);
								if (x != base + dropped) violation("range", "front() is another element");
							}
							if constexpr (BACK) {
								T t = r.back();
								NoInstr g;
								if (id_of(t) != base + n - 1) violation("range", "back() is another element");
							}
							if constexpr (NTH) {
								uint64_t o = choose(W, (uint32_t) (n - dropped));
								T t = r[o];
								NoInstr g;
								if (id_of(t) != base + dropped + o) violation("range", "[%llu] is another element", (unsigned long long) o);
							}
						} catch (Boom const &) {}
						break;
					case 7: // drop elements off the start
						if constexpr (VIEW && NTH) {
							uint64_t o = choose(W, 4);
							try {
								OpScope op;
								if (&r.advance(o) != &r) violation("range", "advance() returns another view");
								dropped = std::min(n, dropped + o);
								probe("view advanced");
							} catch (Boom const &) {}
						}
						break;
					case 8: // copies and moves of the range
						if constexpr (COPY) {
							try {
								OpScope op;
								R c{r};
								R c2{std::move(c)};
								auto l = walk(c2);
								if constexpr (VIEW && NTH) c2.advance(2);
								R c3 = c2;
								c3 = r;
								auto l2 = walk(c3);
								NoInstr g;
								same(l, fwd(), "iterating a copy of the range");
								same(l2, fwd(), "iterating an assigned range");
								l = l2 = {};
							} catch (Boom const &) {}
						} else {
							try {
								OpScope op;
								R c{r};
								R c2{std::move(c)};
								auto l = walk(c2);
								NoInstr g;
								same(l, fwd(), "iterating a copy of the range");
								l = {};
							} catch (Boom const &) {}
						}
						break;
					case 9: // as part of a pipeline
						try {
							OpScope op;
							uint64_t lim = choose(W, 5);
							std::vector<uint64_t> l;
							if constexpr (VIEW) l = walk(r | std::views::take(lim));
							else l = walk(std::views::take(std::views::all(r), (std::ptrdiff_t) lim));
							NoInstr g;
							auto w = fwd();
							w.resize(std::min<size_t>(w.size(), lim));
							same(l, w, "a pipeline");
							l = {};
						} catch (Boom const &) {}
						break;
					}
					size();
				}
				probe(VIEW ? "view" : "range");
			}
			if (elem_live) violation("element-lifetime", "%lld elements alive at the end", (long long) elem_live);
			if (src_live) violation("element-lifetime", "%lld sources alive at the end", (long long) src_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};

	// ---- range() ------------------------------------------------------------------------------------------
	using I128 = __int128;
	template<typename T> std::string str(T t) { return std::to_string((long long) t); }

	template<typename T, typename S>
	struct Gen {
		static constexpr I128 LO = (I128) std::numeric_limits<T>::min(), HI = (I128) std::numeric_limits<T>::max();
		static constexpr I128 SLO = (I128) std::numeric_limits<S>::min(), SHI = (I128) std::numeric_limits<S>::max();
		static I128 value() { // near an interesting point
			I128 pts[] = {0, LO, HI, LO / 2, HI / 2, (I128) std::numeric_limits<int32_t>::max(), -128, 127, 255};
			I128 v = pts[choose(W, 9)] + (int) choose(W, 41) - 20;
			return v < LO ? LO : v > HI ? HI : v;
		}
		static void run() {
			I128 start, stop, step;
			uint32_t kind = pick(W, {4, 2, 2, 1});
			if (kind == 0) { // a few elements, close to or far from the limits
				start = value();
				uint32_t n = choose(W, 12);
				I128 sp[] = {1, 2, 3, 7, 100, SHI, SHI / 2, (HI - LO) / 3, (HI - LO) / 7 + 1};
				step = sp[choose(W, 9)];
				if (step < 1) step = 1;
				if (step > SHI) step = SHI;
				if (SLO < 0 && choose(W, 2)) step = choose(W, 8) == 0 ? SLO : -step;
				stop = start + step * (I128) n;
				I128 slack = (I128) choose(W, 3) * (step < 0 ? 1 : -1) * std::min<I128>((step < 0 ? -step : step) - 1, 50);
				stop += slack;
				if (stop < LO) stop = LO;
				if (stop > HI) stop = HI;
			} else {
				start = value();
				stop = value();
				step = kind == 3 ? (I128) choose(W, 3) - 1 : std::max<I128>(1, (stop > start ? stop - start : start - stop) / (1 + (I128) choose(W, 20)));
				if (step > SHI) step = SHI;
				if (SLO < 0 && choose(W, 2)) step = -step;
				if (step < SLO) step = SLO;
			}
			logs("range", std::to_string((long long) start) + "," + std::to_string((long long) stop) + "," + std::to_string((long long) step));
			if (step == 0) {
				add_evals(1);
				try {
					(void) dtl::range<T, S>((T) start, (T) stop, (S) step);
					violation("range()", "a range with step zero was made");
				} catch (std::invalid_argument const &) { probe("zero step"); }
				return;
			}
			// the elements by definition
			I128 cnt = step > 0 ? (stop > start ? (stop - start + step - 1) / step : 0) : (stop < start ? (start - stop - step - 1) / -step : 0);
			if (cnt > (I128) std::numeric_limits<size_t>::max()) return;
			auto at = [&](I128 k) { return start + step * k; };
			I128 lo = 0, hi = cnt; // what is left of the view
			auto v = dtl::range<T, S>((T) start, (T) stop, (S) step);
			if (step == 1 && choose(W, 3) == 0 && std::is_same_v<T, S>) {
				if constexpr (std::is_same_v<T, S>) {
					if (start == 0 && choose(W, 2)) v = dtl::range<T>((T) stop);
					else v = dtl::range<T>((T) start, (T) stop);
				}
			}
			using V = decltype(v);
			auto it_ok = [&](auto const &it, I128 pos, bool rev, char const *what) {
				add_evals(1);
				bool e = it == std::default_sentinel, we = rev ? pos < lo : pos >= hi;
				if (e != we) violation("range()", "range(%lld,%lld,%lld): %s is %s", (long long) start, (long long) stop, (long long) step, what, e ? "at its end too early" : "not at its end");
				if (!e && (I128) *it != at(pos)) violation("range()", "range(%lld,%lld,%lld): %s is %lld instead of %lld", (long long) start, (long long) stop, (long long) step, what, (long long) *it, (long long) at(pos));
			};
			uint32_t steps = 1 + choose(W, 10);
			for (uint32_t st = 0; st < steps; ++st) {
				V const &c = v;
				I128 left = hi - lo;
				add_evals(1);
				if ((I128) c.size() != left || c.empty() != (left == 0) || (bool) c != (left != 0)) violation("range()", "range(%lld,%lld,%lld): size is %llu instead of %llu", (long long) start, (long long) stop, (long long) step, (unsigned long long) c.size(), (unsigned long long) left);
				uint32_t k = choose(W, 6);
				auto pick_off = [&]() -> I128 {
					I128 o = choose(W, 3) ? (I128) choose(W, 5) : left - 2 + (I128) choose(W, 5);
					return o < 0 ? 0 : o > (I128) std::numeric_limits<size_t>::max() ? (I128) std::numeric_limits<size_t>::max() : o;
				};
				log("range op", k, (uint64_t) left);
				switch (k) {
				case 0: // forward, by ++, += and peek
				case 1: {
					I128 pos = k == 0 ? lo : hi - 1;
					auto walk = [&](auto it, bool rev) {
						it_ok(it, pos, rev, rev ? "a reverse iterator" : "an iterator");
						for (int q = 0; q < 20 && it != std::default_sentinel; ++q) {
							uint32_t how = pick(W, {4, 2, 1});
							if (how == 2) {
								auto const &p = it.peek();
								I128 np = rev ? pos - 1 : pos + 1;
								bool has = rev ? np >= lo : np < hi;
								if (p.has_value() != has || (has && (I128) *p != at(np))) violation("range()", "range(%lld,%lld,%lld): peek() gave another element", (long long) start, (long long) stop, (long long) step);
								continue;
							}
							I128 o = 1;
							if (how == 1) {
								o = pick_off();
								it += (size_t) o;
							} else ++it;
							pos += rev ? -o : o;
							it_ok(it, pos, rev, rev ? "a reverse iterator" : "an iterator");
						}
						if (it == std::default_sentinel && it.peek().has_value()) violation("range()", "range(%lld,%lld,%lld): peek() at the end gave an element", (long long) start, (long long) stop, (long long) step);
					};
					if (k == 0) walk(c.begin(), false);
					else walk(c.rbegin(), true);
					break;
				}
				case 2:
					if (!left) break;
					if ((I128) c.front() != at(lo)) violation("range()", "range(%lld,%lld,%lld): front() is %lld", (long long) start, (long long) stop, (long long) step, (long long) c.front());
					if ((I128) c.back() != at(hi - 1)) violation("range()", "range(%lld,%lld,%lld): back() is %lld instead of %lld", (long long) start, (long long) stop, (long long) step, (long long) c.back(), (long long) at(hi - 1));
					break;
				case 3: {
					if (!left) break;
					I128 o = std::min<I128>(pick_off(), left - 1);
					if ((I128) c[(size_t) o] != at(lo + o)) violation("range()", "range(%lld,%lld,%lld): [%llu] is %lld", (long long) start, (long long) stop, (long long) step, (unsigned long long) o, (long long) c[(size_t) o]);
					break;
				}
				case 4: {
					I128 o = pick_off();
					v.advance((size_t) o);
					lo = o > left ? hi : lo + o;
					probe("range advanced");
					break;
				}
				case 5: {
					V d = v;
					v = d;
					if (left < 30) {
						I128 p = lo;
						for (T x : d | std::views::filter([](T) { return true; })) {
							if (p >= hi || (I128) x != at(p)) violation("range()", "range(%lld,%lld,%lld): a loop gave %lld", (long long) start, (long long) stop, (long long) step, (long long) x);
							++p;
						}
						if (p != hi) violation("range()", "range(%lld,%lld,%lld): a loop ended early", (long long) start, (long long) stop, (long long) step);
						p = hi - 1;
						for (T x : d.reversed()) {
							if (p < lo || (I128) x != at(p)) violation("range()", "range(%lld,%lld,%lld): a loop over reversed() gave %lld", (long long) start, (long long) stop, (long long) step, (long long) x);
							--p;
						}
						if (p != lo - 1) violation("range()", "range(%lld,%lld,%lld): a loop over reversed() ended early", (long long) start, (long long) stop, (long long) step);
					}
					break;
				}
				}
			}
			probe("range()");
		}
	};
	void gen_time() {
		using D = std::chrono::seconds;
		int64_t start = (int64_t) choose(W, 40) - 20, stop = (int64_t) choose(W, 40) - 20, step = (int64_t) choose(W, 13) - 6;
		if (!step) step = 1;
		auto v = dtl::range(D{start}, D{stop}, D{step});
		int64_t x = start;
		auto more = [&] { return step > 0 ? x < stop : x > stop; };
		uint32_t n = 0;
		for (D t : v) {
			if (!more() || t.count() != x) violation("range()", "a range of durations gave another value");
			x += step;
			if (++n > 60) violation("range()", "a range of durations does not end");
		}
		add_evals(1);
		if (more()) violation("range()", "a range of durations ended early");
	}
	using TH = Elem<true, true, false>;
	template<uint32_t K> void gen_all() {
		switch (choose(W, 14)) {
		case 0: Gen<int, int>::run(); break;
		case 1: Gen<uint8_t, uint8_t>::run(); break;
		case 2: Gen<int8_t, int8_t>::run(); break;
		case 3: Gen<uint16_t, int>::run(); break;
		case 4: Gen<int64_t, int64_t>::run(); break;
		case 5: Gen<uint64_t, uint64_t>::run(); break;
		case 6: Gen<uint64_t, int>::run(); break;
		case 7: Gen<unsigned, int>::run(); break;
		case 8: Gen<uint64_t, int64_t>::run(); break;
		case 9: Gen<unsigned, unsigned>::run(); break;
		case 10: Gen<int16_t, int16_t>::run(); break;
		case 11: Gen<int64_t, int>::run(); break;
		case 12: Gen<uint8_t, int>::run(); break;
		case 13: gen_time(); break;
		}
	}
	// sources that are made of arguments which can only be moved or must be referred to
	template<bool COPY> struct Fed {
		using value_type = uint64_t;
		std::shared_ptr<std::vector<uint64_t>> v;
		size_t a = 0, b;
		bool moved;
		Fed(std::shared_ptr<std::vector<uint64_t>> x, uint64_t &count) : v{std::move(x)}, b{v->size()}, moved{true} {
			if (should_throw(4, FCtor)) throw Boom("source");
			++count;
		}
		Fed(std::unique_ptr<std::vector<uint64_t>> &&x, uint64_t &count) requires COPY : Fed{std::shared_ptr<std::vector<uint64_t>>{std::move(x)}, count} {}
		Fed(Fed const &) requires COPY = default;
		Fed(Fed &&) = default;
		Fed &operator=(Fed const &) requires COPY = default;
		Fed &operator=(Fed &&) = default;
		std::optional<uint64_t> next() {
			if (a == b) return std::nullopt;
			return (*v)[a++];
		}
		std::optional<uint64_t> next_back() {
			if (a == b) return std::nullopt;
			return (*v)[--b];
		}
		size_t remaining() const { return b - a; }
	};
	template<typename R> void walk(R const &r, uint64_t n) {
		uint64_t k = 0;
		for (auto it = r.begin(); it != r.end(); ++it)
			if (*it != 10 + k++) violation("element", "a source made of arguments gives other elements");
		if (k != n) violation("element", "a source made of arguments gives %llu elements instead of %llu", (unsigned long long) k, (unsigned long long) n);
		for (auto it = r.rbegin(); it != r.rend(); ++it)
			if (*it != 10 + --k) violation("element", "a source made of arguments gives other elements");
		add_evals(2);
	}
	void made_of_arguments() {
		uint64_t n = choose(W, 4), uses = 0;
		{
			auto p = std::make_unique<std::vector<uint64_t>>();
			for (uint64_t i = 0; i < n; ++i) p->push_back(10 + i);
			try {
				switch (choose(W, 4)) {
				case 0: {
					dtl::next_to_view<Fed<true>> v{std::move(p), uses};
					if (p || uses != 1) violation("element", "the arguments of a source were not forwarded");
					walk(v, n);
					if (v.size() != n) violation("element", "the size of a view is wrong");
					break;
				}
				case 1: {
					dtl::next_to_range<Fed<true>> v{std::move(p), uses};
					if (p || uses != 1) violation("element", "the arguments of a source were not forwarded");
					walk(v, n);
					break;
				}
				case 2: { // every iterator is a new source
					std::shared_ptr<std::vector<uint64_t>> q{std::move(p)};
					dtl::next_to_range<Fed<false>> v{std::move(q), std::ref(uses)};
					if (q) violation("element", "the arguments of a source were not forwarded");
					walk(v, n);
					walk(v, n);
					break;
				}
				case 3: {
					dtl::next_to_iter<Fed<true>> it{std::move(p), uses};
					if (p || uses != 1) violation("element", "the arguments of a source were not forwarded");
					if ((it == std::default_sentinel) != (n == 0) || (n && *it != 10)) violation("element", "an iterator made of arguments gives other elements");
					break;
				}
				}
			} catch (Boom const &) { probe("source refused its arguments"); }
		}
		log("uses", uses);
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "nexti";
	h.scenarios = {
	    {"view of elements", 3, Run<Src<TH, true, true, true, true>, true>::run},
	    {"view of integers", 1, Run<Src<U64, true, true, true, true>, true>::run},
	    {"range of elements", 3, Run<Src<TH, true, true, true, true>, false>::run},
	    {"range of a move-only source", 2, Run<Src<TH, false, true, true, true>, false>::run},
	    {"move-only source and elements", 1, Run<Src<MoveOnly, false, true, true, false>, false>::run},
	    {"forward only view", 1, Run<Src<TH, true, false, false, false>, true>::run},
	    {"bidirectional view without nth", 1, Run<Src<TH, true, false, true, true>, true>::run},
	    {"forward only range of a move-only source", 1, Run<Src<Plain, false, false, false, false>, false>::run},
	    {"range()", 6, gen_all<0>},
	    {"sources made of arguments", 1, made_of_arguments},
	};
	return h;
}
