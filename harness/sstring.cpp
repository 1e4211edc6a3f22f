// C16: dice::template_library::basic_static_string with failing, stateful allocators.
#include "../sim/talloc.hpp"
#include <compare>
#include <dice/template-library/static_string.hpp>
#include <optional>
#include <sstream>
#include <string>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	// text whose order and equality ignore the case of ASCII letters
	struct Folded : std::char_traits<char> {
		static char f(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
		static bool eq(char a, char b) { return f(a) == f(b); }
		static bool lt(char a, char b) { return f(a) < f(b); }
		static int compare(char const *a, char const *b, size_t n) {
			for (size_t i = 0; i < n; ++i)
				if (!eq(a[i], b[i])) return lt(a[i], b[i]) ? -1 : 1;
			return 0;
		}
		static char const *find(char const *a, size_t n, char const &c) {
			for (size_t i = 0; i < n; ++i)
				if (eq(a[i], c)) return a + i;
			return nullptr;
		}
	};
	// a sink that takes only so many characters, then refuses
	template<typename Char, typename Traits>
	struct Sink : std::basic_streambuf<Char, Traits> {
		std::basic_string<Char, Traits> got;
		size_t left;
		explicit Sink(size_t n) : left{n} {}
		typename Traits::int_type overflow(typename Traits::int_type c) override {
			if (!left || Traits::eq_int_type(c, Traits::eof())) return Traits::eof();
			--left;
			got.push_back(Traits::to_char_type(c));
			return c;
		}
	};
	template<typename Char, template<typename> typename Al, typename Traits = std::char_traits<Char>>
	struct Str {
		using A = Al<Char>;
		using SS = dtl::basic_static_string<Char, Traits, A>;
		using STD = std::basic_string<Char, Traits>;
		using V = std::basic_string_view<Char, Traits>;
		using TR = std::allocator_traits<A>;
		static constexpr int FAM = A::FAMILY;
		static constexpr bool EQ = TR::is_always_equal::value;
		static A mk(int i) { return A{i}; }

		static STD text() {
			NoInstr g;
			uint32_t n = pick(W, {2, 2, 3, 2, 1});
			size_t len = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 + choose(W, 14) : n == 3 ? 16 + choose(W, 60) : 200;
			STD s;
			for (size_t i = 0; i < len; ++i) {
				uint32_t c = pick(W, {6, 2, 1, 1});
				// every byte of a wide character matters; embedded zero characters are content
				s.push_back(c == 0 ? (Char) ((std::is_same_v<Traits, Folded> && chance(W, 1, 2) ? 'A' : 'a') + choose(W, 3)) : c == 1 ? (Char) (0x11223344u * (1 + choose(W, 3))) : c == 2 ? Char{} : (Char) (0xfedcba98u));
			}
			return s;
		}
		static void arena(SS const &s, int id, char const *when) {
			if (s.empty()) return;
			auto it = ledger().m.find((uintptr_t) std::to_address(s.data()));
			if (it == ledger().m.end()) violation("routing", "the text is not in a block of the allocator %s", when);
			if (it->second.arena != id) violation("routing", "the text lives in a block of allocator %d instead of %d %s", it->second.arena, id, when);
			if (it->second.bytes != s.size() * sizeof(Char)) violation("routing", "a text of %zu bytes lives in a block of %zu bytes", s.size() * sizeof(Char), it->second.bytes);
		}
		static void equals(SS &s, STD const &m, char const *when) {
			NoInstr g;
			add_evals(1);
			SS const &c = s;
			if (s.size() != m.size() || s.empty() != m.empty()) violation("content", "size() is %zu instead of %zu %s", s.size(), m.size(), when);
			if (static_cast<V>(c) != V{m}) violation("content", "the view differs from the model %s", when);
			if (!std::equal(c.begin(), c.end(), m.begin(), m.end()) || !std::equal(s.rbegin(), s.rend(), m.rbegin(), m.rend()) || !std::equal(c.crbegin(), c.crend(), m.rbegin(), m.rend()))
				violation("content", "iteration differs from the model %s", when);
			if (!m.empty()) {
				size_t i = m.size() / 2;
				if (c[i] != m[i] || s[i] != m[i] || c.front() != m.front() || s.front() != m.front() || c.back() != m.back() || s.back() != m.back() || std::to_address(c.data())[i] != m[i])
					violation("content", "element access differs from the model %s", when);
			}
		}
		// the same text printed from a std::basic_string to an equal stream has to give the same result
		static void print(SS const &x, SS const &y, STD const &mx, STD const &my) {
			using OS = std::basic_ostream<Char, Traits>;
			size_t room = chance(W, 1, 3) ? choose(W, 120) : 1u << 20;
			uint32_t width = choose(W, 3) ? 0 : choose(W, 90), adjust = choose(W, 4), throws = choose(W, 4) == 0, bad = choose(W, 12) == 0;
			if (room < 120) probe("full-sink");
			auto one = [&](auto const &p, auto const &q, Sink<Char, Traits> &sink) {
				OS os{&sink};
				os.fill(Char('*'));
				if (adjust == 1) os.setf(std::ios_base::left, std::ios_base::adjustfield);
				if (adjust == 2) os.setf(std::ios_base::right, std::ios_base::adjustfield);
				if (adjust == 3) os.setf(std::ios_base::internal, std::ios_base::adjustfield);
				if (bad) os.setstate(std::ios_base::failbit);
				bool threw = false;
				try {
					if (throws) os.exceptions(std::ios_base::badbit);
					os.width(width);
					os << p;
					auto w = os.width();
					os << Char('|') << q;
					return std::tuple{(int) os.rdstate(), (int) w, threw};
				} catch (std::ios_base::failure const &) { threw = true; }
				return std::tuple{(int) os.rdstate(), (int) os.width(), threw};
			};
			Sink<Char, Traits> s1{room}, s2{room};
			auto r1 = one(x, y, s1);
			auto r2 = one(mx, my, s2);
			if (!std::equal(s1.got.begin(), s1.got.end(), s2.got.begin(), s2.got.end())) violation("content", "stream output differs from the model (width %u)", width);
			if (r1 != r2) violation("content", "the stream's state after output differs from the model: state %d instead of %d, width %d instead of %d, exception %d instead of %d", std::get<0>(r1), std::get<0>(r2), std::get<1>(r1), std::get<1>(r2), std::get<2>(r1), std::get<2>(r2));
		}
		static int sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

		static void run() {
			ledger_reset();
			ledger().fail_den = (uint32_t[]) {0, 1, 2, 4, 10}[pick(W, {3, 1, 2, 2, 2})];
			{
				constexpr int N = 4;
				std::optional<SS> s[N];
				STD m[N];
				int id[N];
				suspend_faults();
				for (int i = 0; i < N; ++i) {
					id[i] = FAM * 100 + (EQ ? 0 : (int) choose(W, 3));
					m[i] = text();
					if (m[i].empty() && chance(W, 1, 2)) s[i].emplace(mk(id[i] % 100));
					else s[i].emplace(V{m[i]}, mk(id[i] % 100));
				}
				resume_faults();
				uint32_t steps = 3 + choose(W, 30);
				for (uint32_t st = 0; st < steps; ++st) {
					int i = (int) choose(W, N), j = (int) choose(W, N);
					uint32_t k = pick(W, {4, 3, 4, 4, 3, 3, 2, 2, 2});
					log("op", k, (uint64_t) i, (uint64_t) j);
					STD tx;
					bool ok = false;
					std::optional<SS> t;
					uint64_t blocks = ledger().m.size();
					if (k == 0) tx = text();
					{
						OpScope o;
						try {
							switch (k) {
							case 0: // a new text replaces the old one
								t.emplace(V{tx}, mk(id[i] % 100));
								break;
							case 1: t.emplace(*s[j]); break;
							case 2: *s[i] = *s[j]; break;
							case 3: if (i != j) *s[i] = std::move(*s[j]); break;
							case 4: if (i != j) swap(*s[i], *s[j]); break;
							case 5: t.emplace(std::move(*s[j])); break;
							case 6: if (!s[i]->empty()) (*s[i])[choose(W, (uint32_t) s[i]->size())] = (Char) (0x61626364u + st); break;
							case 7: { // assignment from a temporary made of a part of the own text
								V v = *s[i];
								SS part{v.substr(v.size() / 2), mk(id[i] % 100)};
								*s[i] = std::move(part);
								break;
							}
							case 8: if (!s[i]->empty()) { s[i]->front() = (Char) (0x51525354u + st); s[i]->back() = (Char) (0x41424344u + st); *std::prev(s[i]->end()) = s[i]->back(); } break;
							}
							ok = true;
						} catch (std::bad_alloc const &) {
							probe("refused");
							if (!ledger().fail_den) violation("spurious-refusal", "an operation failed although the allocator did not");
						}
					}
					NoInstr g;
					if (ok) switch (k) {
						case 0:
							equals(*t, tx, "after construction");
							arena(*t, id[i], "after construction");
							break;
						case 1: {
							int want = EQ ? id[j] : id[j] % 100 >= 50 ? id[j] : id[j] + 50;
							equals(*t, m[j], "after copy construction");
							arena(*t, want, "after copy construction");
							break;
						}
						case 2:
							m[i] = m[j];
							if (TR::propagate_on_container_copy_assignment::value) id[i] = id[j];
							break;
						case 3:
							if (i != j) {
								if (TR::propagate_on_container_move_assignment::value) std::swap(id[i], id[j]);
								m[i] = m[j];
								m[j] = STD(s[j]->begin(), s[j]->end());
							}
							break;
						case 4:
							if (i != j) {
								std::swap(m[i], m[j]);
								std::swap(id[i], id[j]);
							}
							break;
						case 5:
							equals(*t, m[j], "after move construction");
							arena(*t, id[j], "after move construction");
							m[j] = STD(s[j]->begin(), s[j]->end());
							break;
						case 7:
							m[i] = m[i].substr(m[i].size() / 2);
							break;
						default: m[i] = k == 6 || k == 8 ? STD(s[i]->begin(), s[i]->end()) : m[i];
					}
					else if (k == 3) m[j] = STD(s[j]->begin(), s[j]->end());
					else if (ledger().m.size() != blocks) violation("leak", "a refused operation changed the number of blocks held");
					char const *when = ok ? "after an operation" : "after a refused operation";
					for (int q = 0; q < N; ++q) {
						equals(*s[q], m[q], when);
						// which allocator an empty target of a move keeps is not observable
						arena(*s[q], id[q], when);
					}
					int a = i, b = j;
					SS const &x = *s[a], &y = *s[b];
					if ((x == y) != (m[a] == m[b]) || (x != y) != (m[a] != m[b]) || (x < y) != (m[a] < m[b]) || (x >= y) != (m[a] >= m[b]) || sgn(x <=> y) != sgn(m[a] <=> m[b]))
						violation("compare", "comparison differs from the model");
					V vb{m[b]};
					if ((x == vb) != (m[a] == m[b]) || sgn(x <=> vb) != sgn(m[a] <=> m[b])) violation("compare", "comparison with a view differs from the model");
					if ((vb == x) != (m[a] == m[b]) || (vb != x) != (m[a] != m[b]) || sgn(vb <=> x) != sgn(m[b] <=> m[a]) || (vb < x) != (m[b] < m[a]) || (x > vb) != (m[a] > m[b]) || (x <= vb) != (m[a] <= m[b]))
						violation("compare", "comparison of a view with a text differs from the model");
					if constexpr (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>) {
						print(x, y, m[a], m[b]);
					}
				}
				NoInstr g;
				for (int i = 0; i < N; ++i) m[i] = {};
				if (chance(W, 1, 2))
					for (int i = 0; i < N; ++i) s[i].reset();
			}
			if (!ledger().m.empty()) violation("leak", "%zu blocks were never given back", ledger().m.size());
		}
	};
	template<typename T> using P3 = TA<T, 1, true, true, true>;
	template<typename T> using P0 = TA<T, 2, false, false, true>;
	template<typename T> using PC = TA<T, 3, true, false, true>;
	template<typename T> using PM = TA<T, 4, false, true, true>;
	template<typename T> using PE = TA<T, 5, false, false, false, true>;
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "sstring";
	h.scenarios = {{"char all propagate", 2, Str<char, P3>::run},  {"char none propagate", 2, Str<char, P0>::run}, {"char copy propagates", 2, Str<char, PC>::run},
	               {"char move propagates", 1, Str<char, PM>::run}, {"char always equal", 1, Str<char, PE>::run},  {"char16_t", 1, Str<char16_t, P0>::run},
	               {"wchar_t", 1, Str<wchar_t, PC>::run},           {"char32_t", 1, Str<char32_t, PM>::run},
	               {"char8_t", 1, Str<char8_t, P3>::run},           {"case ignored", 2, Str<char, P0, Folded>::run}};
	return h;
}
