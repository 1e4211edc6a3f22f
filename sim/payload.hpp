// Element types for the scheduler flavour: content lives in plain heap memory, so
// unsynchronised publication is a data race and lifetime errors are memory errors.
#pragma once
#include <initializer_list>
#include "sched.hpp"
#include <exception>
#include <utility>

namespace sim {
	struct Boom : std::exception { // never allocates
		char const *w;
		explicit Boom(char const *w_) noexcept : w(w_) {}
		char const *what() const noexcept override { return w; }
	};
	struct ElemFaults {
		uint32_t ctor = 0, copy = 0, move = 0, cassign = 0, massign = 0; // 1/n, 0 = never
	};
	inline ElemFaults ef;
	inline int64_t elem_live = 0;
	inline uint64_t elem_assigned = 0; // assignments of elements
	inline bool elem_yields = true;

	inline bool should_throw(uint32_t den, Fault f) {
		if (!den || !faults_active()) return false;
		NoInstr n;
		if (!chance(F, 1, den)) return false;
		fired(f);
		return true;
	}

	// TC: the value ctor may throw, CC: copy may throw, MC: move may throw, CA, MA: as CC, MC for assignments
	template<size_t N> struct Pad { char pad[N]; };
	template<> struct Pad<0> {};
	template<bool TC, bool CC, bool MC, bool COPY = true, size_t PAD = 0, bool CA = CC, bool MA = MC>
	struct Elem : Pad<PAD> {
		uint64_t *box;
		uint64_t canary;
		static constexpr uint64_t LIVE = 0x11fe11fe11fe11feull, DEAD = 0xdeaddeaddeaddeadull;

		static void cnt(int d) {
			NoInstr n;
			elem_live += d;
		}
		static void assigned() {
			NoInstr n;
			++elem_assigned;
		}
		static void y() {
			if (elem_yields) yield();
		}
		explicit Elem(uint64_t id) noexcept(!TC) : Pad<PAD>{} {
			y();
			if constexpr (TC)
				if (should_throw(ef.ctor, FCtor)) throw Boom("ctor");
			{
				// content is library-independent: no allocation failures injected here
				suspend_faults();
				box = new uint64_t(id);
				resume_faults();
			}
			canary = LIVE;
			cnt(1);
		}
		Elem(Elem const &o) noexcept(!CC) requires COPY : Pad<PAD>{} {
			y();
			o.live();
			if constexpr (CC)
				if (should_throw(ef.copy, FCopy)) throw Boom("copy");
			suspend_faults();
			box = o.box ? new uint64_t(*o.box) : nullptr;
			resume_faults();
			canary = LIVE;
			cnt(1);
		}
		Elem(Elem &&o) noexcept(!MC) : Pad<PAD>{} {
			y();
			o.live();
			if constexpr (MC)
				if (should_throw(ef.move, FMove)) throw Boom("move");
			box = std::exchange(o.box, nullptr);
			canary = LIVE;
			cnt(1);
		}
		Elem &operator=(Elem const &o) noexcept(!CA) requires COPY {
			live();
			o.live();
			y();
			if constexpr (CA)
				if (should_throw(ef.cassign, FCopyAssign)) throw Boom("copy assign");
			assigned();
			if (this == &o) return *this;
			suspend_faults();
			uint64_t *nb = o.box ? new uint64_t(*o.box) : nullptr;
			resume_faults();
			delete box;
			box = nb;
			return *this;
		}
		Elem &operator=(Elem &&o) noexcept(!MA) {
			live();
			o.live();
			y();
			if constexpr (MA)
				if (should_throw(ef.massign, FMoveAssign)) throw Boom("move assign");
			assigned();
			if (this == &o) return *this;
			delete box;
			box = std::exchange(o.box, nullptr);
			return *this;
		}
		~Elem() {
			live();
			y();
			delete box;
			canary = DEAD;
			cnt(-1);
		}
		void live() const {
			if (canary != LIVE) violation("element-lifetime", "an element that is not alive was used");
		}
		// 0: moved-from
		uint64_t id() const {
			live();
			return box ? *box : 0;
		}
	};
	// construction from another element fails, assignment and swapping do not
	struct OddThrower : Elem<true, true, true, true, 0, false, false> {
		using Elem::Elem;
		friend void swap(OddThrower &a, OddThrower &b) noexcept {
			a.live();
			b.live();
			std::swap(a.box, b.box);
		}
	};
	// T(std::initializer_list<ListOf<T>>) makes T a type like a JSON value: T{t} is a list with one entry, T(t) a copy
	template<typename T, bool IDS = true> struct ListOf {
		ListOf(T const &) noexcept {}
		ListOf(uint64_t) noexcept requires IDS {}
	};
	[[noreturn]] inline void became_list() { violation("state", "a list with the given value in it was made in place of a copy of the value"); }
	template<typename T> uint64_t id_of(T const &t) {
		if constexpr (requires { t.id(); }) return t.id();
		else return (uint64_t) t;
	}
	using Plain = Elem<false, false, false>;
	using MoveOnly = Elem<false, false, false, false>;
	using Thrower = Elem<true, true, true>;
	using BigThrower = Elem<true, true, true, true, 300>; // one element per deque node: allocations inside operations
	using MoveThrower = Elem<true, false, true>; // copies never throw, moves do
	using CopyThrower = Elem<true, true, false>;
} // namespace sim
