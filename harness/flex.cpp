// C17: dice::template_library::flex_array in all modes with failing elements, sources and memory.
#include "../sim/payload.hpp"
#include <dice/template-library/flex_array.hpp>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	// default constructible elements
	struct Plain0 : Elem<false, false, false> {
		Plain0() noexcept : Elem(0) {}
		explicit Plain0(uint64_t i) noexcept : Elem(i) {}
	};
	struct Thr0 : Elem<true, true, true> {
		Thr0() : Elem(0) {}
		explicit Thr0(uint64_t i) : Elem(i) {}
	};
	struct Copy0 : Elem<true, true, false> {
		Copy0() : Elem(0) {}
		explicit Copy0(uint64_t i) : Elem(i) {}
	};
	template<typename T> requires requires(T t) { t.id(); }
	auto operator<=>(T const &a, T const &b) { return a.id() <=> b.id(); }
	template<typename T> requires requires(T t) { t.id(); }
	bool operator==(T const &a, T const &b) { return a.id() == b.id(); }

	uint32_t src_den = 0;
	// single pass source that can fail
	template<typename T>
	struct Src {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		T const *p = nullptr;
		size_t *consumed = nullptr;
		T const &operator*() const {
			if (should_throw(src_den, FSource)) throw Boom("source");
			return *p;
		}
		Src &operator++() {
			++p;
			++*consumed;
			return *this;
		}
		Src operator++(int) {
			Src t = *this;
			++*this;
			return t;
		}
	};
	template<typename T> struct End {
		T const *e;
		friend bool operator==(Src<T> const &a, End const &b) { return a.p == b.e; }
	};
	// forward only
	template<typename T>
	struct Fwd {
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		T const *p = nullptr;
		T const &operator*() const {
			if (should_throw(src_den, FSource)) throw Boom("source");
			return *p;
		}
		Fwd &operator++() {
			++p;
			return *this;
		}
		Fwd operator++(int) {
			Fwd t = *this;
			++p;
			return t;
		}
		friend bool operator==(Fwd const &, Fwd const &) = default;
	};

	constexpr size_t DYN = dtl::dynamic_extent;
	template<typename T>
	struct Run {
		using ST = dtl::flex_array<T, 3>;
		using LI = dtl::flex_array<T, DYN, 5>;
		using DY = dtl::flex_array<T, DYN>;
		using SB = dtl::flex_array<T, 4, DYN>; // over the stand-in for ankerl::svector
		static_assert(SB::mode == dtl::flex_array_mode::sbo_dynamic_size);

		template<typename FA> static std::vector<uint64_t> ids(FA const &a) {
			NoInstr g;
			std::vector<uint64_t> r;
			for (auto const &x : a) r.push_back(id_of(x));
			return r;
		}
		template<typename FA> static void same(FA &a, std::vector<uint64_t> const &m, char const *what, char const *when) {
			NoInstr g;
			add_evals(1);
			FA const &c = a;
			if (a.size() != m.size() || a.empty() != m.empty()) violation("content", "%s has size %zu instead of %zu %s", what, a.size(), m.size(), when);
			std::span<T const> sp = c;
			std::span<T> spm = a;
			if (sp.size() != m.size() || spm.size() != m.size()) violation("content", "the span of %s has another size %s", what, when);
			for (size_t i = 0; i < m.size(); ++i)
				if (id_of(c[i]) != m[i] || id_of(sp[i]) != m[i] || id_of(*std::next(a.begin(), (long) i)) != m[i] || id_of(*std::next(c.rbegin(), (long) (m.size() - 1 - i))) != m[i] || id_of(c.data()[i]) != m[i])
					violation("content", "element %zu of %s differs from the model %s", i, what, when);
			if ((size_t) (c.end() - c.begin()) != m.size() || (size_t) (a.rend() - a.rbegin()) != m.size() || (size_t) (a.end() - a.begin()) != m.size() || (size_t) (c.rend() - c.rbegin()) != m.size() || c.cend() != c.end() || c.cbegin() != c.begin() || a.begin() != a.data() || c.crbegin() != c.rbegin() || c.crend() != c.rend()) violation("content", "iterating %s visits another number of elements %s", what, when);
			if (FA::has_max_extent && a.size() > FA::max_size()) violation("capacity", "%s exceeds its maximum size %s", what, when);
		}
		static std::vector<T> source(std::vector<uint64_t> &m, size_t n, uint32_t st) {
			suspend_faults();
			NoInstr g;
			std::vector<T> v;
			v.reserve(n);
			for (size_t i = 0; i < n; ++i) {
				m.push_back(st * 10 + i + 1);
				v.emplace_back(st * 10 + i + 1);
			}
			resume_faults();
			return v;
		}
		template<typename FA> static FA from_list(std::vector<T> const &v) {
			switch (v.size()) {
			case 0: return FA(std::initializer_list<T>{});
			case 1: return FA{v[0]};
			case 2: return FA{v[0], v[1]};
			case 3: return FA{v[0], v[1], v[2]};
			case 4: return FA{v[0], v[1], v[2], v[3]};
			case 5: return FA{v[0], v[1], v[2], v[3], v[4]};
			default: return FA{v[0], v[1], v[2], v[3], v[4], v[5]};
			}
		}

		template<typename FA> struct Bank {
			static constexpr int N = 2;
			char const *what;
			std::optional<FA> a[N];
			std::vector<uint64_t> m[N];
			static constexpr bool is_static = !FA::has_dynamic_extent;

			void init() {
				if constexpr (!is_static) {
					suspend_faults();
					FA none;
					resume_faults();
					same(none, {}, what, "when default constructed");
				}
				for (int i = 0; i < N; ++i) {
					auto v = source(m[i], 3, 100u + (uint32_t) i);
					a[i].emplace(v.begin(), v.end());
				}
			}
			void check(char const *when) {
				for (int i = 0; i < N; ++i) same(*a[i], m[i], what, when);
				NoInstr g;
				for (int i = 0; i < N; ++i)
					for (int j = 0; j < N; ++j) {
						if ((*a[i] == *a[j]) != (m[i] == m[j]) || (*a[i] != *a[j]) != (m[i] != m[j])) violation("compare", "equality of two %s differs from the model", what);
						auto o = *a[i] <=> *a[j];
						auto mo = m[i] <=> m[j];
						if ((o < 0) != (mo < 0) || (o > 0) != (mo > 0) || (*a[i] < *a[j]) != (m[i] < m[j]) || (*a[i] >= *a[j]) != (m[i] >= m[j])) violation("compare", "ordering of two %s differs from the model", what);
					}
			}
			// returns whether the operation completed
			void step(uint32_t st, auto &others) {
				uint32_t k = pick(W, {4, 3, 3, 3, 2, 2, 3, 3, 2, 3});
				int i = (int) choose(W, N), j = 1 - i;
				size_t n = choose(W, 7);
				log("op", k, (uint64_t) i, n);
				std::optional<FA> t;
				std::vector<uint64_t> want;
				bool ok = false, len_err = false, want_len_err = false, arg_err = false;
				std::vector<T> v;
				bool from_source = k == 0 || k == 1;
				bool want_prefix_only = false;
				if (from_source) v = source(want, n, st);
				uint32_t kind = choose(W, 4);
				size_t consumed = 0;
				size_t oi = choose(W, 2);
				if (k == 2 || k == 3) want = m[j];
				if (k == 9) {
					want = !is_static ? others.st.m[oi] : kind < 2 ? others.dy.m[oi] : kind == 2 ? others.li.m[oi] : others.sb.m[oi];
					want_len_err = is_static && want.size() != 3;
				}
				{
					OpScope o;
					try {
						switch (k) {
						case 0: // initializer_list
							want_len_err = is_static ? n != FA::extent : FA::has_max_extent && n > FA::max_extent;
							t.emplace(from_list<FA>(v));
							break;
						case 1: // a range
							want_len_err = FA::has_max_extent && n > FA::max_extent;
							if (is_static) want_prefix_only = true;
							if (kind == 0) t.emplace(v.begin(), v.end());
							else if (kind == 1) t.emplace(Fwd<T>{v.data()}, Fwd<T>{v.data() + v.size()});
							else if (kind == 2) t.emplace(Src<T>{v.data(), &consumed}, End<T>{v.data() + v.size()});
							else t.emplace(v.data(), v.data() + v.size());
							break;
						case 2: t.emplace(*a[j]); break;
						case 3: t.emplace(std::move(*a[j])); break;
						case 4: *a[i] = *a[j]; break;
						case 5: *a[i] = std::move(*a[j]); break;
						case 6: swap(*a[i], *a[j]); break;
						case 7:
							if constexpr (!is_static) {
								if constexpr (requires { a[i]->resize(n); }) a[i]->resize(n);
							}
							break;
						case 8:
							if (!a[i]->empty()) {
								suspend_faults();
								T x(st + 5000);
								resume_faults();
								(*a[i])[n % a[i]->size()] = x;
							}
							break;
						case 9: // conversion between extents
							if constexpr (is_static) {
								if (kind < 2) { t.emplace(*others.dy.a[oi]); }
								else if (kind == 2) { t.emplace(*others.li.a[oi]); }
								else { t.emplace(*others.sb.a[oi]); }
							} else {
								t.emplace(FA(*others.st.a[oi]));
							}
							break;
						}
						ok = true;
					} catch (Boom const &) {
						probe("element or source failed");
					} catch (std::bad_alloc const &) {
						probe("allocation refused");
						if (!cfg.alloc_den) violation("spurious-refusal", "an allocation failed although no memory was refused");
					} catch (std::length_error const &) {
						len_err = true;
					} catch (std::invalid_argument const &) {
						arg_err = true;
					}
				}
				NoInstr g;
				if (len_err && !want_len_err) violation("bounds", "%s refused a valid size", what);
				if (ok && want_len_err) violation("bounds", "%s accepted %zu elements", what, want.size());
				if (arg_err && !(k == 7 && FA::has_max_extent && n > FA::max_extent)) violation("bounds", "resize of %s to a valid size was refused", what);
				if (ok && k == 7 && FA::has_max_extent && !is_static && n > FA::max_extent) violation("bounds", "resize of %s beyond its maximum was accepted", what);
				auto same_after = [&](int q, std::vector<uint64_t> const &x) { same(*a[q], x, what, ok ? "after an operation" : "after a failed operation"); };
				if (t) {
					if (want_prefix_only) {
						auto got = ids(*t);
						if (!std::equal(want.begin(), want.end(), got.begin())) violation("content", "%s built from a range differs from it", what);
					} else same(*t, want, what, "after construction");
					if (chance(W, 1, 2) && !want_prefix_only && !(k == 3)) {
						// keep it
						suspend_faults();
						a[i].reset();
						a[i].emplace(std::move(*t));
						m[i] = want;
						resume_faults();
					}
				}
				switch (k) {
				case 3: m[j] = ids(*a[j]); break; // moved from
				case 4: if (ok) m[i] = m[j]; else m[i] = ids(*a[i]); break;
				case 5: if (ok) m[i] = m[j]; else m[i] = ids(*a[i]); m[j] = ids(*a[j]); break;
				case 6: if (ok) std::swap(m[i], m[j]); else { m[i] = ids(*a[i]); m[j] = ids(*a[j]); } break;
				case 7:
					if constexpr (!is_static) {
						if (ok) {
							auto now = ids(*a[i]);
							if (now.size() != n) violation("content", "resize(%zu) of %s made it %zu long", n, what, now.size());
							for (size_t x = 0; x < std::min(n, m[i].size()); ++x)
								if (now[x] != m[i][x]) violation("content", "resize of %s changed a kept element", what);
							m[i] = now;
						} else if (FA::mode == dtl::flex_array_mode::sbo_dynamic_size) m[i] = ids(*a[i]); // the stand-in gives the basic guarantee only
					}
					break;
				case 8: if (ok && !a[i]->empty()) m[i][n % m[i].size()] = st + 5000; else m[i] = ids(*a[i]); break;
				}
				(void) same_after;
				check(ok ? "after an operation" : "after a failed operation");
			}
		};
		struct All {
			Bank<ST> st{"a static flex_array"};
			Bank<LI> li{"a limited flex_array"};
			Bank<DY> dy{"a dynamic flex_array"};
			Bank<SB> sb{"a small buffer flex_array"};
		};
		static void run() {
			elem_live = 0;
			ef = {};
			src_den = 0;
			cfg.alloc_den = (uint32_t[]) {0, 2, 5}[pick(W, {3, 1, 2})];
			auto d = [] { return (uint32_t[]) {0, 3, 8, 20}[pick(W, {3, 1, 2, 2})]; };
			ef.ctor = d();
			ef.copy = ef.cassign = d();
			ef.move = ef.massign = d();
			src_den = d();
			{
				All x;
				x.st.init();
				x.li.init();
				x.dy.init();
				x.sb.init();
				uint32_t steps = 3 + choose(W, 30);
				for (uint32_t s = 0; s < steps; ++s) switch (choose(W, 4)) {
					case 0: x.st.step(s, x); break;
					case 1: x.li.step(s, x); break;
					case 2: x.dy.step(s, x); break;
					case 3: x.sb.step(s, x); break;
				}
				NoInstr g;
				for (int i = 0; i < 2; ++i) x.st.m[i] = x.li.m[i] = x.dy.m[i] = x.sb.m[i] = {};
			}
			if constexpr (!std::is_integral_v<T>)
				if (elem_live) violation("element-lifetime", "%lld elements alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "flex";
	h.scenarios = {{"uint64_t", 1, Run<uint64_t>::run}, {"plain elements", 1, Run<Plain0>::run}, {"throwing elements", 3, Run<Thr0>::run}, {"throwing copies", 2, Run<Copy0>::run}};
	return h;
}
