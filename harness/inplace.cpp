// C19: dice::template_library::inplace_polymorphic with derived types that fail at any point.
#include "../sim/payload.hpp"
#include <dice/template-library/inplace_polymorphic.hpp>
#include <optional>
#include <variant>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	// family 1: everything may fail
	template<bool NC, bool NM>
	struct BaseT {
		virtual ~BaseT() = default;
		virtual int which() const = 0;
		virtual uint64_t id() const = 0;
		virtual void set(uint64_t) = 0;
		virtual void copy_to(BaseT *dst) const noexcept(NC) = 0;
		virtual void move_to(BaseT *dst) noexcept(NM) = 0;
	};
	template<int N, bool TC, bool CC, bool MC, typename B, size_t PAD = 0, size_t AL = 8>
	struct alignas(AL) Der : B {
		Elem<TC, CC, MC> e;
		char pad[PAD + 1];
		Der() noexcept(!TC) : e(uint64_t(1000 + N)) { fill(); }
		explicit Der(uint64_t i) noexcept(!TC) : e(i) { fill(); }
		Der(uint64_t a, uint64_t b) noexcept(!TC) : e(a + b) { fill(); }
		Der(std::initializer_list<ListOf<Der>>) : e(0) { became_list(); }
		explicit Der(MoveOnly &&m) noexcept(!TC) : e(m.id()) {
			MoveOnly taken{std::move(m)};
			fill();
		}
		explicit Der(MoveOnly const &) : e(0) { violation("state", "an argument was not forwarded"); }
		Der(Der const &o) noexcept(!CC) : B(), e(o.e) { fill(); }
		Der(Der &&o) noexcept(!MC) : B(), e(std::move(o.e)) { fill(); }
		void fill() {
			if ((uintptr_t) this % AL) violation("alignment", "an object of alignment %zu was created at %p", AL, (void *) this);
			for (auto &c : pad) c = (char) (N + 17);
		}
		int which() const override {
			for (auto &c : pad)
				if (c != (char) (N + 17)) violation("state", "the object was overwritten");
			return N;
		}
		uint64_t id() const override { return e.id(); }
		void set(uint64_t i) override {
			suspend_faults();
			delete e.box;
			e.box = new uint64_t(i);
			resume_faults();
		}
		void copy_to(B *dst) const noexcept(!CC) override { new (dst) Der(*this); }
		void move_to(B *dst) noexcept(!MC) override { new (dst) Der(std::move(*this)); }
	};
	using B1 = BaseT<false, false>;
	struct Family1 {
		using Base = B1;
		using T0 = Der<0, true, true, true, Base>;
		using T1 = Der<1, true, true, true, Base, 100>;
		using T2 = Der<2, false, true, false, Base, 30, 64>;
		static constexpr bool counted = true;
	};
	using B2 = BaseT<false, true>;
	struct Family2 { // moves do not fail
		using Base = B2;
		using T0 = Der<0, false, true, false, Base, 50>;
		using T1 = Der<1, true, true, false, Base, 9>;
		using T2 = Der<2, true, true, false, Base, 200, 32>;
		static constexpr bool counted = true;
	};
	using B3 = BaseT<true, true>;
	struct Family3 { // nothing but construction fails
		using Base = B3;
		using T0 = Der<0, false, false, false, Base>;
		using T1 = Der<1, true, false, false, Base, 77>;
		using T2 = Der<2, true, false, false, Base, 5>;
		static constexpr bool counted = true;
	};
	// trivially destructible, no virtual destructor
	template<bool NX>
	struct BaseV {
		virtual int which() const = 0;
		virtual uint64_t id() const = 0;
		virtual void set(uint64_t) = 0;
		virtual void copy_to(BaseV *dst) const noexcept(NX) = 0;
		virtual void move_to(BaseV *dst) noexcept(NX) = 0;
	};
	template<int N, bool THR, typename B, size_t PAD = 0, size_t AL = 8>
	struct alignas(AL) Triv : B {
		uint64_t v;
		char pad[PAD + 1];
		Triv() noexcept(!THR) : Triv(uint64_t(1000 + N)) {}
		explicit Triv(uint64_t i) noexcept(!THR) : v(i) {
			if constexpr (THR)
				if (should_throw(ef.ctor, FCtor)) throw Boom("ctor");
			for (auto &c : pad) c = (char) (N + 17);
		}
		Triv(uint64_t a, uint64_t b) noexcept(!THR) : Triv(a + b) {}
		Triv(Triv const &o) noexcept(!THR) : B() {
			if constexpr (THR)
				if (should_throw(ef.copy, FCopy)) throw Boom("copy");
			v = o.v;
			for (auto &c : pad) c = (char) (N + 17);
		}
		Triv(Triv &&o) noexcept(!THR) : B() {
			if constexpr (THR)
				if (should_throw(ef.move, FMove)) throw Boom("move");
			v = std::exchange(o.v, 0);
			for (auto &c : pad) c = (char) (N + 17);
		}
		int which() const override {
			for (auto &c : pad)
				if (c != (char) (N + 17)) violation("state", "the object was overwritten");
			return N;
		}
		uint64_t id() const override { return v; }
		void set(uint64_t i) override { v = i; }
		void copy_to(B *dst) const noexcept(!THR) override { new (dst) Triv(*this); }
		void move_to(B *dst) noexcept(!THR) override { new (dst) Triv(std::move(*this)); }
	};
	using B4 = BaseV<false>;
	struct Family4 {
		using Base = B4;
		using T0 = Triv<0, true, Base>;
		using T1 = Triv<1, true, Base, 60>;
		using T2 = Triv<2, true, Base, 3, 32>;
		static constexpr bool counted = false;
	};
	using B5 = BaseV<true>;
	struct Family5 {
		using Base = B5;
		using T0 = Triv<0, false, Base, 33>;
		using T1 = Triv<1, false, Base>;
		using T2 = Triv<2, false, Base, 3, 16>;
		static constexpr bool counted = false;
	};
	// move only: no copy_to, so the whole thing must still be usable
	struct B6 {
		virtual ~B6() = default;
		virtual int which() const = 0;
		virtual uint64_t id() const = 0;
		virtual void set(uint64_t) = 0;
		virtual void move_to(B6 *dst) = 0;
	};
	template<int N, bool MC, size_t PAD>
	struct Mo : B6 {
		Elem<true, true, MC, false> e;
		char pad[PAD + 1];
		Mo() : Mo(uint64_t(1000 + N)) {}
		explicit Mo(uint64_t i) : e(i) { fill(); }
		explicit Mo(MoveOnly &&m) : e(m.id()) { MoveOnly taken{std::move(m)}; fill(); }
		void fill() {
			for (auto &c : pad) c = (char) (N + 17);
		}
		Mo(uint64_t a, uint64_t b) : Mo(a + b) {}
		Mo(Mo &&o) noexcept(!MC) : B6(), e(std::move(o.e)) { fill(); }
		int which() const override {
			for (auto &c : pad)
				if (c != (char) (N + 17)) violation("state", "the object was overwritten");
			return N;
		}
		uint64_t id() const override { return e.id(); }
		void set(uint64_t i) override {
			suspend_faults();
			delete e.box;
			e.box = new uint64_t(i);
			resume_faults();
		}
		void move_to(B6 *dst) override { new (dst) Mo(std::move(*this)); }
	};
	struct Family6 {
		using Base = B6;
		using T0 = Mo<0, true, 79>;
		using T1 = Mo<1, false, 0>;
		using T2 = Mo<2, true, 8>;
		static constexpr bool counted = true;
	};

	template<typename Fm>
	struct Run {
		using B = typename Fm::Base;
		using T0 = typename Fm::T0;
		using T1 = typename Fm::T1;
		using T2 = typename Fm::T2;
		using V = dtl::inplace_polymorphic<B, T0, T1, T2>;
		static constexpr bool copyable = requires(B const &b, B *d) { b.copy_to(d); };
		struct M {
			int w = -1;
			uint64_t id = 0;
			friend bool operator==(M const &, M const &) = default;
		};
		static M read(V &v) {
			if (v.valueless_by_exception()) return {};
			return {v.get().which(), v.get().id()};
		}
		static int64_t n(M const &m) { return Fm::counted && m.w >= 0; }
		static void same(V &v, M const &m, char const *when) {
			NoInstr g;
			add_evals(1);
			V const &c = v;
			if (v.valueless_by_exception() != (m.w < 0)) violation("state", "valueless_by_exception() is %d but the model says %d %s", v.valueless_by_exception(), m.w < 0, when);
			if (m.w < 0) {
				int t = 0;
				try { (void) v.get(); } catch (std::bad_variant_access const &) { ++t; }
				try { (void) c.get(); } catch (std::bad_variant_access const &) { ++t; }
				try { (void) *v; } catch (std::bad_variant_access const &) { ++t; }
				try { (void) *c; } catch (std::bad_variant_access const &) { ++t; }
				try { (void) v->id(); } catch (std::bad_variant_access const &) { ++t; }
				try { (void) c->id(); } catch (std::bad_variant_access const &) { ++t; }
				if (t != 6) violation("state", "access to a valueless object succeeded %s", when);
				return;
			}
			for (int k = 0; k < 6; ++k) {
				B const &b = k == 0 ? v.get() : k == 1 ? c.get() : k == 2 ? *v : k == 3 ? *c : k == 4 ? *v.operator->() : *c.operator->();
				if (b.which() != m.w) violation("state", "the object is of type %d instead of %d %s", b.which(), m.w, when);
				if (b.id() != m.id) violation("state", "the object has value %llu instead of %llu %s", (unsigned long long) b.id(), (unsigned long long) m.id, when);
				if ((char const *) &b < (char const *) &v || (char const *) (&b + 1) > (char const *) (&v + 1)) violation("state", "the object does not live inside the container");
				bool ty = m.w == 0 ? dynamic_cast<T0 const *>(&b) != nullptr : m.w == 1 ? dynamic_cast<T1 const *>(&b) != nullptr : dynamic_cast<T2 const *>(&b) != nullptr;
				if (!ty) violation("state", "the dynamic type is wrong %s", when);
			}
		}
		static void run() {
			elem_live = 0;
			ef = {};
			auto d = [] { return (uint32_t[]) {0, 2, 4, 12}[pick(W, {3, 2, 2, 2})]; };
			ef.ctor = d();
			ef.copy = d();
			ef.move = d();
			{
				constexpr int N = 3;
				std::optional<V> v[N];
				M m[N];
				suspend_faults();
				for (int i = 0; i < N; ++i) {
					v[i].emplace();
					m[i] = {0, 1000};
				}
				resume_faults();
				uint32_t steps = 3 + choose(W, 25);
				for (uint32_t st = 0; st < steps; ++st) {
					int i = (int) choose(W, N), j = (int) choose(W, N);
					uint32_t k = pick(W, {2, 2, 2, 4, 4, 5, 2, 2});
					uint32_t w = choose(W, 10);
					log("op", k, (uint64_t) (i * 10 + j), w);
					uint64_t x = 2000 + st;
					std::optional<V> t;
					M want;
					bool ok = false;
					constexpr bool args = std::is_constructible_v<T1, MoveOnly>;
					std::optional<MoveOnly> arg;
					if (args && w == 9) {
						suspend_faults();
						arg.emplace(x);
						resume_faults();
					}
					{
						OpScope o;
						try {
							switch (k) {
							case 0:
								if constexpr (args)
									if (w == 9) {
										want = {1, x};
										t.emplace(std::in_place_type<T1>, std::move(*arg));
										break;
									}
								if (w == 0) { t.emplace(); want = {0, 1000}; }
								else if (w < 3) { t.emplace(std::in_place_type<T0>, x); want = {0, x}; }
								else if (w < 5) { t.emplace(std::in_place_type<T1>, x, uint64_t(5)); want = {1, x + 5}; }
								else if (w < 7) { t.emplace(std::in_place_type<T2>); want = {2, 1002}; }
								else { t.emplace(std::in_place_type<T1>); want = {1, 1001}; }
								break;
							case 1:
								if constexpr (copyable) { want = m[j]; t.emplace(std::as_const(*v[j])); }
								break;
							case 2: want = m[j]; t.emplace(std::move(*v[j])); break;
							case 3:
								if constexpr (copyable) { want = m[j]; *v[i] = std::as_const(*v[j]); }
								break;
							case 4: if (i != j) { want = m[j]; *v[i] = std::move(*v[j]); } break;
							case 5:
								if constexpr (args)
									if (w == 9) {
										want = {1, x};
										v[i]->template emplace<T1>(std::move(*arg));
										break;
									}
								if (w < 2) { want = {0, x}; v[i]->template emplace<T0>(x); }
								else if (w < 3) { want = {0, 1000}; v[i]->template emplace<T0>(); }
								else if (w < 5) { want = {1, x + 7}; v[i]->template emplace<T1>(x, uint64_t(7)); }
								else if (w < 7) { want = {2, x}; v[i]->template emplace<T2>(x); }
								else if (w < 8) { want = {2, 1002}; v[i]->template emplace<T2>(); }
								else { want = {1, 1001}; v[i]->template emplace<T1>(); }
								break;
							case 6: // change the value in place
								if (m[i].w >= 0) {
									v[i]->get().set(x);
									m[i].id = x;
								}
								break;
							case 7: // swap: three moves, any of which may fail
								if (i != j) {
									std::swap(*v[i], *v[j]);
								}
								break;
							}
							ok = true;
						} catch (Boom const &) {
							probe("derived type failed");
						}
					}
					if (arg) {
						if (ok && (k == 0 || k == 5) && arg->id() != 0) violation("state", "an argument was not forwarded");
						arg.reset();
					}
					NoInstr g;
					char const *when = ok ? "after an operation" : "after a failed operation";
					auto moved = [&](int q) {
						// the value may have been moved out, but the object is still there
						M r = read(*v[q]);
						if (r.w != m[q].w) violation("state", "moving from an object changed its type");
						if (r.id != m[q].id && r.id != 0) violation("state", "a moved-from object has another value");
						m[q] = r;
					};
					switch (k) {
					case 0: case 1: case 2:
						if (k == 1 && !copyable) break;
						if (ok) same(*t, want, "after construction");
						if (k == 2) {
							if (!ok && !(read(*v[j]) == m[j])) violation("state", "a failed move construction changed the source");
							if (ok && m[j].w >= 0) moved(j);
						}
						break;
					case 3: case 4:
						if (k == 3 && !copyable) break;
						if (i == j) break;
						if (k == 4 && ok && m[j].w >= 0) moved(j);
						m[i] = ok ? want : M{};
						break;
					case 5:
						m[i] = ok ? want : M{};
						if (!ok) probe("valueless after emplace");
						break;
					case 7:
						if (i == j) break;
						if (ok) std::swap(m[i], m[j]);
						else { // one of them may have lost its value
							M a = read(*v[i]), b = read(*v[j]);
							auto fine = [&](M const &r) { return r.w < 0 || r.id == 0 || r == m[i] || r == m[j]; };
							if (!fine(a) || !fine(b)) violation("state", "a failed swap invented a value");
							m[i] = a;
							m[j] = b;
						}
						break;
					}
					for (int q = 0; q < N; ++q) {
						same(*v[q], m[q], when);
						if (m[q].w < 0) probe("valueless object");
					}
					int64_t cnt = t ? n(read(*t)) : 0;
					for (int q = 0; q < N; ++q) cnt += n(m[q]);
					if (elem_live != cnt) violation("element-lifetime", "%lld objects are alive instead of %lld %s", (long long) elem_live, (long long) cnt, when);
					if (m[0].w != m[1].w) nontrivial();
				}
			}
			if (elem_live) violation("element-lifetime", "%lld objects alive at the end", (long long) elem_live);
			if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
		}
	};
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "inplace";
	h.scenarios = {{"all fail", 3, Run<Family1>::run},  {"copies fail", 2, Run<Family2>::run},  {"construction fails", 1, Run<Family3>::run},
	               {"trivial, failing", 2, Run<Family4>::run}, {"trivial", 1, Run<Family5>::run}, {"move only", 1, Run<Family6>::run}};
	return h;
}
