// C26: range algorithms and adaptors, opt_min/opt_max over sources, predicates, comparators, projections, hashes,
// element copies and allocations that fail at any point; single-pass sources forget an element when they advance.
#include "../sim/payload.hpp"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <algorithm>
#include <compare>
#include <dice/template-library/next_to_range.hpp>
#include <dice/template-library/opt_minmax.hpp>
#include <dice/template-library/ranges.hpp>
#include <memory>
#include <optional>
#include <ranges>
#include <set>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace ralgo {
	uint32_t src_den, fn_den;
	bool threw;
	void fail(uint32_t den, Fault f, char const *w) {
		if (should_throw(den, f)) {
			threw = true;
			throw Boom(w);
		}
	}
	uint64_t mod = 8; // how many different keys there are
	uint64_t key(uint64_t id) { return id % mod; }
	using EB = Elem<false, true, false>;
	struct CopyFails : EB { // notes that its copy failed
		explicit CopyFails(uint64_t id) : EB(id) {}
		CopyFails(CopyFails const &o) try : EB(o) {
		} catch (Boom const &) { threw = true; }
		CopyFails(CopyFails &&) noexcept = default;
		CopyFails &operator=(CopyFails const &o) {
			try {
				EB::operator=(o);
			} catch (Boom const &) {
				threw = true;
				throw;
			}
			return *this;
		}
		CopyFails &operator=(CopyFails &&) noexcept = default;
	};
	// equality, order and hash see the key only
	struct E : CopyFails {
		using CopyFails::CopyFails;
		friend bool operator==(E const &a, E const &b) {
			fail(fn_den, FOther, "compare");
			return key(a.id()) == key(b.id());
		}
		friend std::strong_ordering operator<=>(E const &a, E const &b) {
			fail(fn_den, FOther, "compare");
			return key(a.id()) <=> key(b.id());
		}
	};
	struct L : CopyFails { // can only be ordered
		using CopyFails::CopyFails;
		friend bool operator<(L const &a, L const &b) {
			fail(fn_den, FOther, "compare");
			return key(a.id()) < key(b.id());
		}
	};
} // namespace ralgo
template<> struct std::hash<ralgo::E> {
	size_t operator()(ralgo::E const &e) const {
		ralgo::fail(ralgo::fn_den, sim::FOther, "hash");
		return ralgo::key(e.id()) * 0x9e3779b9u;
	}
};
using namespace ralgo;

namespace {
	// what has been read from one source
	template<typename T> struct Feed {
		std::vector<uint64_t> ids;
		size_t pos = 0;
		std::unique_ptr<T> cur; // freed when the source advances: later use is a memory error
		void load() {
			NoInstr n;
			cur.reset();
			if (pos < ids.size()) {
				suspend_faults();
				cur = std::make_unique<T>(ids[pos]);
				resume_faults();
			}
		}
	};
	template<typename T, bool COPY> struct SpIt {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		Feed<T> *f = nullptr;
		SpIt() = default;
		explicit SpIt(Feed<T> *f_) : f{f_} {}
		SpIt(SpIt const &) requires COPY = default;
		SpIt &operator=(SpIt const &) requires COPY = default;
		SpIt(SpIt &&) = default;
		SpIt &operator=(SpIt &&) = default;
		T const &operator*() const {
			if (!f->cur) violation("source", "an element after the end of the range was read");
			fail(src_den, FSource, "source");
			return *f->cur;
		}
		SpIt &operator++() {
			if (!f->cur) violation("source", "the range was advanced past its end");
			fail(src_den, FSource, "source");
			++f->pos;
			f->load();
			return *this;
		}
		void operator++(int) { ++*this; }
		bool operator==(std::default_sentinel_t) const {
			fail(src_den, FSource, "source");
			return !f->cur;
		}
	};
	template<typename T> struct NxtSrc { // rust-style source, every copy is independent
		using value_type = T;
		std::vector<uint64_t> const *ids = nullptr;
		size_t pos = 0;
		std::optional<T> next() {
			fail(src_den, FSource, "source");
			if (pos >= ids->size()) return std::nullopt;
			suspend_faults();
			T t(ids->at(pos++));
			resume_faults();
			return t;
		}
	};
	template<typename T, bool COPY> struct SinglePass {
		static constexpr bool watermark = true, forward = false;
		Feed<T> f;
		explicit SinglePass(std::vector<uint64_t> ids) {
			f.ids = std::move(ids);
			f.load();
		}
		auto range() { return std::ranges::subrange(SpIt<T, COPY>(&f), std::default_sentinel); }
	};
	template<typename T> struct Next {
		static constexpr bool watermark = false, forward = false;
		std::vector<uint64_t> ids;
		explicit Next(std::vector<uint64_t> i) : ids(std::move(i)) {}
		auto range() { return dtl::next_to_view<NxtSrc<T>>{&ids, 0u}; }
	};
	template<typename T> struct Forward {
		static constexpr bool watermark = false, forward = true;
		std::vector<T> v;
		explicit Forward(std::vector<uint64_t> const &ids) {
			suspend_faults();
			for (auto i : ids) v.emplace_back(i);
			resume_faults();
		}
		std::vector<T> const &range() { return v; }
	};

	std::vector<uint64_t> gen(uint32_t keys, bool sortish) {
		std::vector<uint64_t> ids;
		uint32_t n = choose(W, 8), k = 0;
		if (mod > 8 && chance(W, 1, 2)) { // a long one
			n = 60 + choose(W, 250);
			keys = 1000;
		}
		for (uint32_t i = 0; i < n; ++i) {
			k = sortish && !chance(W, 1, 6) ? k + choose(W, 2) + (i > 0) : choose(W, keys);
			ids.push_back(k % mod + mod * (i + 1));
		}
		return ids;
	}

	size_t calls;
	// runs a call form of an algorithm; false: it failed
	template<typename SRC, typename Fn> bool go(SRC &, char const *name, Fn fn) {
		threw = false;
		calls = 0;
		try {
			{
				OpScope op;
				fn();
			}
			if (threw) violation("exception", "%s returned although a callback, source or element copy failed", name);
			return true;
		} catch (Boom const &) {
			probe("failed");
			return false;
		} catch (std::bad_alloc const &) {
			probe("no memory");
			return false;
		}
	}
	std::vector<uint64_t> const *again; // a source of its own, for a closure that is used twice
	template<typename SRC, typename Algo, typename... A> auto call(uint32_t form, SRC &s, Algo const &algo, A... a) {
		if (form == 0) return algo(s.range(), a...);
		if (form == 1) {
			auto &&r = s.range();
			return algo(std::ranges::begin(r), std::ranges::end(r), a...);
		}
		if (again) {
			SRC other(*again);
			auto const closure = algo(a...);
			auto const first = other.range() | closure;
			calls = 0;
			auto const second = s.range() | closure;
			if (first != second) violation("result", "a closure gave another result when it was used again");
			return second;
		}
		return s.range() | algo(a...);
	}
	template<typename SRC> void read_only(SRC &s, size_t decided, char const *name) {
		if constexpr (SRC::watermark)
			if (s.f.pos > decided) violation("source", "%s went on to element %zu although the first %zu decide the result", name, s.f.pos, decided + 1);
	}

	template<typename T, typename SRC, bool HASH, bool PIPE_DEFAULT>
	struct Run {
		static constexpr bool EQ = requires(T const &a) { a == a; };
		static void bools() {
			uint32_t k = choose(W, EQ ? 8 : 5);
			auto ids = gen(2 + choose(W, 5), k == 4 || k == 6);
			SRC s(ids);
			uint32_t form = choose(W, 3);
			again = chance(W, 1, 3) ? &ids : nullptr;
			uint64_t t = choose(W, 6);
			bool got = false, want = false;
			size_t dec = ids.size();
			auto first = [&](auto f) {
				for (size_t i = 0; i < ids.size(); ++i)
					if (f(i)) {
						dec = i;
						return true;
					}
				return false;
			};
			auto pred = [t](auto const &e) {
				++calls;
				fail(fn_den, FOther, "predicate");
				return key(e.id()) >= t;
			};
			auto eq = [](auto const &a, auto const &b) {
				fail(fn_den, FOther, "predicate");
				return key(a.id()) / 2 == key(b.id()) / 2;
			};
			auto lt = [](auto a, auto b) {
				fail(fn_den, FOther, "comparator");
				return a > b;
			};
			auto proj = [](auto const &e) {
				fail(fn_den, FOther, "projection");
				return key(e.id());
			};
			char const *name = "";
			bool ok = false, custom = choose(W, 2);
			log("algo", k, form, ids.size());
			switch (k) {
			case 0:
				ok = go(s, name = "all_of", [&] { got = call(form, s, dtl::all_of, pred); });
				want = !first([&](size_t i) { return key(ids[i]) < t; });
				break;
			case 1:
				ok = go(s, name = "any_of", [&] { got = call(form, s, dtl::any_of, pred); });
				want = first([&](size_t i) { return key(ids[i]) >= t; });
				break;
			case 2:
				ok = go(s, name = "none_of", [&] { got = call(form, s, dtl::none_of, pred); });
				want = !first([&](size_t i) { return key(ids[i]) >= t; });
				break;
			case 3:
				ok = go(s, name = "all_equal", [&] { got = call(form, s, dtl::all_equal, eq); });
				want = !first([&](size_t i) { return key(ids[i]) / 2 != key(ids[0]) / 2; });
				break;
			case 4: // sorted, by a comparator and a projection
				ok = go(s, name = "is_sorted_unique", [&] { got = call(form, s, dtl::is_sorted_unique, lt, [&](auto const &e) { return 100000 - proj(e); }); });
				want = !first([&](size_t i) { return i && key(ids[i]) <= key(ids[i - 1]); });
				break;
			case 5:
				if constexpr (EQ) {
					ok = go(s, name = "all_equal", [&] { got = call(form, s, dtl::all_equal); });
					want = !first([&](size_t i) { return key(ids[i]) != key(ids[0]); });
				}
				break;
			case 6:
				if constexpr (EQ) {
					ok = go(s, name = "is_sorted_unique", [&] { got = call(form, s, dtl::is_sorted_unique); });
					want = !first([&](size_t i) { return i && key(ids[i]) <= key(ids[i - 1]); });
				}
				break;
			case 7:
				if constexpr (SRC::forward) {
					ok = go(s, name = "empty", [&] {
						if (form == 0) got = dtl::empty(s.range());
						else if (form == 1) got = dtl::empty(s.range().begin(), s.range().end());
						else got = s.range() | dtl::empty;
						bool ne = form == 0 ? dtl::non_empty(s.range()) : form == 1 ? dtl::non_empty(s.range().begin(), s.range().end()) : (s.range() | dtl::non_empty);
						if (got == ne) violation("result", "empty and non_empty agree");
					});
					want = ids.empty();
				}
				break;
			}
			(void) custom;
			if (ok) {
				add_evals(1);
				if (got != want) violation("result", "%s returned %d instead of %d", name, got, want);
				if (k < 7) read_only(s, dec, name);
				if (k < 3 && calls > std::min(dec + 1, ids.size())) violation("result", "%s called its predicate more than once for an element", name);
				probe(name);
			}
		}
		static void distinct() {
			auto ids = gen(7, choose(W, 2));
			SRC s(ids);
			uint32_t form = choose(W, 3);
			again = chance(W, 1, 3) ? &ids : nullptr;
			bool got = false, want = true;
			size_t dec = ids.size();
			bool custom = HASH && choose(W, 2);
			uint64_t fine = 1 + choose(W, 3); // the predicate tells more elements apart than their own comparison
			auto same = [fine](uint64_t a, uint64_t b) { return key(a) == key(b) && a / mod % fine == b / mod % fine; };
			auto eq = [same](auto const &a, auto const &b) {
				fail(fn_den, FOther, "predicate");
				return same(a.id(), b.id());
			};
			bool ok = go(s, "all_distinct", [&] {
				if constexpr (HASH) {
					if (custom) {
						got = call(form, s, dtl::all_distinct, eq);
						return;
					}
				}
				got = call(form, s, dtl::all_distinct);
			});
			for (size_t i = 0; i < ids.size() && want; ++i)
				for (size_t j = 0; j < i; ++j)
					if (custom ? same(ids[i], ids[j]) : key(ids[i]) == key(ids[j])) {
						want = false;
						dec = i;
					}
			if (!ok) return;
			add_evals(1);
			if (got != want) violation("result", "all_distinct returned %d instead of %d", got, want);
			read_only(s, dec, "all_distinct");
			probe("all_distinct");
		}
		static void views() {
			auto ids = gen(5, false);
			SRC s(ids);
			uint32_t form = choose(W, 2), k = choose(W, EQ ? 2 : 1);
			uint64_t lim = choose(W, 2) ? 100 : choose(W, 4);
			std::vector<uint64_t> got, want;
			uint64_t rem = 8000 + choose(W, 5);
			auto walk = [&](auto &&r) {
				if (lim == 0) return;
				for (auto it = std::ranges::begin(r); it != std::ranges::end(r); ++it) {
					NoInstr g;
					got.push_back((*it).id());
					if (got.size() > 400) violation("result", "the view does not end");
					if (got.size() == lim) break;
				}
			};
			bool ok;
			if (k == 0) {
				ok = go(s, "unique", [&] {
					if (form == 0) walk(dtl::unique(s.range()));
					else walk(s.range() | dtl::unique);
				});
				for (size_t i = 0; i < ids.size(); ++i)
					if (std::ranges::none_of(ids.begin(), ids.begin() + (std::ptrdiff_t) i, [&](uint64_t x) { return key(x) == key(ids[i]); })) want.push_back(ids[i]);
			} else {
				std::optional<T> v;
				suspend_faults();
				v.emplace(rem);
				resume_faults();
				uint64_t bound = choose(W, 6);
				uint32_t how = choose(W, 4);
				ok = go(s, "remove_element", [&] {
					if constexpr (EQ) {
						auto by = [bound](T const &a, uint64_t const &b) {
							fail(fn_den, FOther, "predicate");
							return (key(a.id()) + bound) % mod < b;
						};
						if (how == 0) walk(s.range() | dtl::remove_element(*v));
						else if (how == 1) walk(s.range() | dtl::remove_element(uint64_t(4), by));
						else if (how == 2) {
							SRC other(ids);
							auto const closure = dtl::remove_element(*v);
							for (auto const &e : other.range() | closure) (void) e.id();
							walk(s.range() | closure);
						} else {
							auto const closure = dtl::remove_element(uint64_t(4), by);
							SRC other(ids);
							for (auto const &e : other.range() | closure) (void) e.id();
							walk(s.range() | closure);
						}
					}
				});
				for (auto i : ids)
					if (how % 2 ? (key(i) + bound) % mod >= 4 : key(i) != key(rem)) want.push_back(i);
			}
			if (!ok) return;
			if (want.size() > lim) want.resize(lim);
			add_evals(1);
			if (got != want) violation("result", "%s gave %zu elements, the first difference is at %zu of %zu", k ? "remove_element" : "unique", got.size(), (size_t) (std::ranges::mismatch(got, want).in1 - got.begin()), want.size());
			probe(k ? "remove_element" : "unique");
		}
		static void lex() {
			auto ids = gen(4, true), ids2 = ids;
			if (choose(W, 3)) ids2 = gen(4, true);
			else if (choose(W, 2) && !ids2.empty()) ids2.pop_back();
			else if (!ids2.empty()) ids2[choose(W, (uint32_t) ids2.size())] += choose(W, 2);
			SRC a(ids), b(ids2);
			uint32_t form = choose(W, 2);
			bool partial = choose(W, 2) || !EQ;
			auto proj = [](auto const &e) {
				fail(fn_den, FOther, "projection");
				return key(e.id()) + 1;
			};
			auto proj2 = [](auto const &e) {
				fail(fn_den, FOther, "projection");
				return key(e.id());
			};
			auto po = [](uint64_t x, uint64_t y) -> std::partial_ordering { // x is one more
				fail(fn_den, FOther, "comparator");
				--x;
				if ((x == 5) != (y == 5)) return std::partial_ordering::unordered;
				return x <=> y;
			};
			std::partial_ordering got = std::partial_ordering::equivalent, want = got;
			bool ok = go(a, "lexicographical_compare_three_way", [&] {
				auto &&x = a.range();
				auto &&y = b.range();
				namespace rg = std::ranges;
				if (partial) {
					if (form == 0) got = dtl::lexicographical_compare_three_way(x, y, po, proj, proj2);
					else got = dtl::lexicographical_compare_three_way(rg::begin(x), rg::end(x), rg::begin(y), rg::end(y), po, proj, proj2);
				} else {
					if constexpr (EQ) {
						if (form == 0) got = dtl::lexicographical_compare_three_way(x, y);
						else got = dtl::lexicographical_compare_three_way(rg::begin(x), rg::end(x), rg::begin(y), rg::end(y));
					}
				}
			});
			if (!ok) return;
			size_t i = 0;
			for (; i < ids.size() && i < ids2.size(); ++i) {
				uint64_t x = key(ids[i]), y = key(ids2[i]);
				want = partial && (x == 5) != (y == 5) ? std::partial_ordering::unordered : std::partial_ordering(x <=> y);
				if (want != 0) break;
			}
			if (want == 0) want = i < ids.size() ? std::partial_ordering::greater : i < ids2.size() ? std::partial_ordering::less : want;
			add_evals(1);
			if (got != want) violation("result", "lexicographical_compare_three_way returned another ordering");
			read_only(a, i, "lexicographical_compare_three_way");
			read_only(b, i, "lexicographical_compare_three_way");
			probe("lexicographical_compare_three_way");
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 3, 10, 30}[pick(W, {3, 2, 2, 2})]; };
			src_den = d();
			fn_den = d();
			ef.copy = ef.cassign = d();
			cfg.alloc_den = d();
			uint32_t steps = 1 + choose(W, 8);
			for (uint32_t i = 0; i < steps; ++i) {
				mod = chance(W, 1, 12) ? 1000 : 8;
				switch (pick(W, {5, 2, 3, 3})) {
				case 0: bools(); break;
				case 1: distinct(); break;
				case 2: views(); break;
				case 3: lex(); break;
				}
				if (elem_live) violation("element-lifetime", "%lld elements alive after an algorithm", (long long) elem_live);
				if (live_blocks()) violation("leak", "%zu blocks leaked by an algorithm", live_blocks());
			}
		}
	};

	// ---- opt_min, opt_max, opt_minmax -----------------------------------------------------------------------
	template<typename T, template<typename> typename SRCT, bool OPT>
	struct Opt {
		using V = std::conditional_t<OPT, std::optional<T>, T>;
		struct VV : V { // an element made from an id: nullopt for key 7
			using V::V;
		};
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 3, 10, 30}[pick(W, {3, 2, 2, 2})]; };
			src_den = d();
			fn_den = d();
			ef.copy = ef.cassign = d();
			uint32_t steps = 1 + choose(W, 6);
			mod = 8;
			for (uint32_t st = 0; st < steps; ++st) {
				auto ids = gen(8, false);
				uint32_t k = choose(W, 3), form = choose(W, OPT ? 5 : 4);
				bool custom = choose(W, 2), plain = !custom && choose(W, 2);
				std::optional<uint64_t> lo, hi; // extreme keys
				auto ord = [&](uint64_t id) { return custom ? 7 - key(id) : key(id); };
				auto none = [&](uint64_t id) { return OPT && key(id) == 7; };
				if (form >= 3) ids.resize(std::min<size_t>(ids.size(), form == 3 ? 2 : 2 + choose(W, 2)));
				while (form >= 3 && ids.size() < 2) ids.push_back(8 * 20 + choose(W, 8));
				for (auto i : ids) {
					if (none(i)) continue;
					lo = lo ? std::min(*lo, ord(i)) : ord(i);
					hi = hi ? std::max(*hi, ord(i)) : ord(i);
				}
				log("opt", k, form, ids.size());
				auto cmp = [custom](T const &a, T const &b) {
					fail(fn_den, FOther, "comparator");
					return custom ? key(a.id()) > key(b.id()) : key(a.id()) < key(b.id());
				};
				std::optional<uint64_t> rlo, rhi;
				bool have = false;
				threw = false;
				auto one = [&](auto const &r, std::optional<uint64_t> &to) {
					NoInstr g;
					have = r.has_value();
					if (r) to = r->id();
				};
				auto two = [&](auto const &r) {
					NoInstr g;
					have = r.has_value();
					if (r) rlo = r->min.id(), rhi = r->max.id();
				};
				auto mk = [&](uint64_t id) {
					std::optional<T> o;
					suspend_faults();
					if (!none(id)) o.emplace(id);
					resume_faults();
					return o;
				};
				try {
					OpScope op;
					if (form < 3) {
						auto body = [&](auto &&src) {
							if (plain) {
								if (k == 0) one(form == 0 ? dtl::opt_min_element(src()) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_min_element(std::ranges::begin(r), std::ranges::end(r)); }() : (src() | dtl::opt_min_element()), rlo);
								else if (k == 1) one(form == 0 ? dtl::opt_max_element(src()) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_max_element(std::ranges::begin(r), std::ranges::end(r)); }() : (src() | dtl::opt_max_element()), rhi);
								else two(form == 0 ? dtl::opt_minmax_element(src()) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_minmax_element(std::ranges::begin(r), std::ranges::end(r)); }() : (src() | dtl::opt_minmax_element()));
								return;
							}
							if (k == 0) one(form == 0 ? dtl::opt_min_element(src(), cmp) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_min_element(std::ranges::begin(r), std::ranges::end(r), cmp); }() : (src() | dtl::opt_min_element(cmp)), rlo);
							else if (k == 1) one(form == 0 ? dtl::opt_max_element(src(), cmp) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_max_element(std::ranges::begin(r), std::ranges::end(r), cmp); }() : (src() | dtl::opt_max_element(cmp)), rhi);
							else two(form == 0 ? dtl::opt_minmax_element(src(), cmp) : form == 1 ? [&] { auto &&r = src(); return dtl::opt_minmax_element(std::ranges::begin(r), std::ranges::end(r), cmp); }() : (src() | dtl::opt_minmax_element(cmp)));
						};
						if constexpr (OPT) {
							SRCT<T> s(ids);
							body([&] { return s.range() | std::views::transform([&](T const &e) -> std::optional<T> { return none(e.id()) ? std::optional<T>{} : std::optional<T>{e}; }); });
						} else {
							SRCT<T> s(ids);
							body([&]() -> decltype(auto) { return s.range(); });
						}
					} else if (form == 3 || !OPT) {
						auto a = mk(ids[0]), b = mk(ids[1]);
						if (plain && k == 0) one(dtl::opt_min(a, b), rlo);
						else if (plain && k == 1) one(dtl::opt_max(a, b), rhi);
						else if (plain) two(dtl::opt_minmax(a, b));
						else if (k == 0) one(dtl::opt_min(a, b, cmp), rlo);
						else if (k == 1) one(dtl::opt_max(a, b, cmp), rhi);
						else two(dtl::opt_minmax(a, b, cmp));
					} else {
						auto a = mk(ids[0]), b = mk(ids[1]), c = mk(ids.size() > 2 ? ids[2] : ids[0]);
						if (plain && k == 0) one(dtl::opt_min({a, b, c}), rlo);
						else if (plain && k == 1) one(dtl::opt_max({a, b, c}), rhi);
						else if (plain) two(dtl::opt_minmax({a, b, c}));
						else if (k == 0) one(dtl::opt_min({a, b, c}, cmp), rlo);
						else if (k == 1) one(dtl::opt_max({a, b, c}, cmp), rhi);
						else two(dtl::opt_minmax({a, b, c}, cmp));
					}
				} catch (Boom const &) {
					probe("failed");
					if (elem_live) violation("element-lifetime", "%lld elements alive after a failed opt_min/opt_max", (long long) elem_live);
					continue;
				}
				add_evals(1);
				if (threw) violation("exception", "opt_min/opt_max returned although a callback, source or copy failed");
				if (have != lo.has_value()) violation("result", "opt_min/opt_max gave %s", have ? "a value from nothing" : "nothing although there are values");
				for (auto [r, w] : {std::pair{rlo, lo}, std::pair{rhi, hi}}) {
					if (!r) continue;
					if (std::ranges::find(ids, *r) == ids.end() || none(*r)) violation("result", "opt_min/opt_max gave a value that is not in the range");
					if (ord(*r) != *w) violation("result", "opt_min/opt_max did not give the %s", r == rlo ? "minimum" : "maximum");
				}
				if (have && (k != 1) != rlo.has_value()) violation("result", "no minimum");
				if (elem_live) violation("element-lifetime", "%lld elements alive after opt_min/opt_max", (long long) elem_live);
				probe(k == 0 ? "opt_min" : k == 1 ? "opt_max" : "opt_minmax");
			}
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
	template<typename T> using SP = SinglePass<T, false>;

	// all_equal over a zipped range whose reference is a tuple of references into the iterators
	void zipped_once();
	void zipped() {
		elem_live = 0;
		ef = {};
		auto d = [] { return (uint32_t[]) {0, 0, 10, 30}[pick(W, {3, 2, 2, 2})]; };
		src_den = d();
		fn_den = d();
		zipped_once();
		if (elem_live) violation("element-lifetime", "%lld elements alive after an algorithm", (long long) elem_live);
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
	void zipped_once() {
		mod = 8;
		auto ids = gen(2, false), ids2 = gen(2, false);
		Next<E> a(ids), b(ids2);
		bool got = false, want = true;
		bool ok = go(a, "all_equal", [&] {
			got = std::views::zip(a.range(), b.range()) | dtl::all_equal([](auto const &x, auto const &y) {
				      fail(fn_den, FOther, "predicate");
				      return std::get<0>(x) == std::get<0>(y) && std::get<1>(x) == std::get<1>(y);
			      });
		});
		for (size_t i = 0; i < ids.size() && i < ids2.size(); ++i) want = want && key(ids[i]) == key(ids[0]) && key(ids2[i]) == key(ids2[0]);
		if (ok) {
			add_evals(1);
			if (got != want) violation("result", "all_equal of zipped ranges returned %d instead of %d", got, want);
			probe("zipped");
		}
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "ralgo";
	h.scenarios = {
	    {"single pass, move-only iterator", 3, Run<E, SinglePass<E, false>, true, true>::run},
	    {"single pass, shared iterator", 3, Run<E, SinglePass<E, true>, true, true>::run},
	    {"single pass, ordered only", 2, Run<L, SinglePass<L, true>, false, false>::run},
	    {"next_to_view", 2, Run<E, Next<E>, true, true>::run},
	    {"forward", 2, Run<E, Forward<E>, true, true>::run},
	    {"forward, ordered only", 1, Run<L, Forward<L>, false, false>::run},
	    {"opt_minmax of single pass optionals", 2, Opt<E, SP, true>::run},
	    {"opt_minmax of single pass values", 1, Opt<E, SP, false>::run},
	    {"opt_minmax of a next_to_view", 1, Opt<E, Next, true>::run},
	    {"opt_minmax of values", 1, Opt<E, Forward, false>::run},
	    {"zipped", 1, zipped},
	};
	return h;
}
