// A recording stand-in for a user supplied allocator: knows every block it handed out,
// to whom it belongs, and fails on demand.
#pragma once
#include "payload.hpp"
#include <cstring>
#include <map>
#include <new>

namespace sim {
	struct BlockInfo {
		size_t bytes;
		size_t align;
		int arena;
	};
	struct LedgerT {
		std::map<uintptr_t, BlockInfo> m;
		uint64_t allocs = 0, frees = 0;
		uint32_t fail_den = 0;
		uint64_t fail_at = 0; // fail exactly the n-th allocation (1-based), 0 = off
	};
	inline LedgerT &ledger() {
		NoInstr n;
		static LedgerT *l = new LedgerT;
		return *l;
	}
	inline void ledger_reset() {
		NoInstr n;
		auto &l = ledger();
		l.m.clear();
		l.allocs = l.frees = 0;
		l.fail_den = 0;
		l.fail_at = 0;
	}
	inline void *t_alloc(size_t n, size_t sz, size_t al, int arena) {
		auto &l = ledger();
		++l.allocs;
		bool f = false;
		if (faults_active() && l.fail_at && l.allocs == l.fail_at) {
			fired(FAlloc);
			f = true;
		}
		if (f || should_throw(l.fail_den, FAlloc)) throw std::bad_alloc{};
		if (n > ((size_t) 1 << 40) / sz) throw std::bad_array_new_length{};
		suspend_faults();
		void *p;
		{
			NoInstr g;
			p = ::operator new(n * sz, std::align_val_t{al < 16 ? 16 : al});
			std::memset(p, 0xa5, n * sz);
			l.m[(uintptr_t) p] = {n * sz, al, arena};
			log("alloc", n * sz, (uint64_t) arena);
		}
		resume_faults();
		return p;
	}
	inline void t_free(void *p, size_t n, size_t sz, size_t al, int arena) {
		auto &l = ledger();
		++l.frees;
		NoInstr g;
		auto it = l.m.find((uintptr_t) p);
		if (it == l.m.end()) violation("bad-free", "a block was deallocated that this allocator did not hand out, or twice");
		if (it->second.arena != arena) violation("bad-free", "a block allocated by allocator %d was deallocated through allocator %d", it->second.arena, arena);
		if (it->second.bytes != n * sz) violation("bad-free", "a block of %zu bytes was deallocated as %zu bytes", it->second.bytes, n * sz);
		l.m.erase(it);
		log("free", n * sz, (uint64_t) arena);
		std::memset(p, 0xdd, n * sz);
		::operator delete(p, std::align_val_t{al < 16 ? 16 : al});
	}

	// POCCA / POCMA / POCS / ALWAYS_EQUAL as template flags; FAM distinguishes families
	template<typename T, int FAM, bool CA, bool MA, bool SW, bool EQ = false>
	struct TA {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<CA>;
		using propagate_on_container_move_assignment = std::bool_constant<MA>;
		using propagate_on_container_swap = std::bool_constant<SW>;
		using is_always_equal = std::bool_constant<EQ>;
		template<typename U> struct rebind {
			using other = TA<U, FAM, CA, MA, SW, EQ>;
		};
		static constexpr int FAMILY = FAM;
		int id = FAM * 100;
		TA() = default;
		explicit TA(int i) noexcept : id{EQ ? FAM * 100 : FAM * 100 + i} {}
		template<typename U> TA(TA<U, FAM, CA, MA, SW, EQ> const &o) noexcept : id{o.id} {}
		T *allocate(size_t n) { return (T *) t_alloc(n, sizeof(T), alignof(T), id); }
		void deallocate(T *p, size_t n) { t_free(p, n, sizeof(T), alignof(T), id); }
		// copies of a container live in a sibling allocator
		TA select_on_container_copy_construction() const {
			TA r;
			r.id = EQ ? id : id + 50 > FAM * 100 + 99 ? id : id + 50;
			return r;
		}
		friend bool operator==(TA const &a, TA const &b) noexcept { return a.id == b.id; }
	};
} // namespace sim
