// Linearizability checker (Wing & Gong search with memoisation) over recorded
// histories stamped with the simulator's global event order.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {
	struct HOp {
		int fiber = 0;
		int kind = 0;
		int64_t arg = 0;
		int64_t ret = 0;
		uint64_t inv = 0;
		uint64_t resp = UINT64_MAX; // pending
	};

	// Model: copyable; bool apply(HOp const &, bool pending); void key(std::string &) const
	template<typename Model>
	struct Lin {
		std::vector<HOp> const &ops;
		std::unordered_set<std::string> memo;
		uint64_t visited = 0;
		uint64_t limit = 400000;
		bool gave_up = false;
		// completed operations in order of invocation, and those that never returned
		std::vector<HOp const *> done, open;

		explicit Lin(std::vector<HOp> const &o) : ops(o) {
			for (auto &x : ops) (x.resp != UINT64_MAX ? done : open).push_back(&x);
			std::stable_sort(done.begin(), done.end(), [](HOp const *a, HOp const *b) { return a->inv < b->inv; });
		}
		// everything before lo has taken effect, of the 64 from lo on those in w, of the open ones those in p
		bool rec(size_t lo, uint64_t w, uint64_t p, Model const &m) {
			while (w & 1) {
				w >>= 1;
				++lo;
			}
			if (lo == done.size()) return true;
			if (++visited > limit) {
				gave_up = true;
				return true; // undecided is never an alarm
			}
			std::string k;
			m.key(k);
			k.append((char const *) &lo, 8);
			k.append((char const *) &w, 8);
			k.append((char const *) &p, 8);
			if (!memo.insert(std::move(k)).second) return false;
			uint64_t minresp = UINT64_MAX;
			size_t hi = lo;
			for (; hi < done.size() && done[hi]->inv < minresp; ++hi) {
				if (hi - lo >= 64) { // more overlap than this is not decided
					gave_up = true;
					return true;
				}
				if (!(w >> (hi - lo) & 1) && done[hi]->resp < minresp) minresp = done[hi]->resp;
			}
			for (size_t i = lo; i < hi; ++i) {
				if ((w >> (i - lo) & 1) || done[i]->inv > minresp) continue;
				Model c = m;
				if (c.apply(*done[i], false))
					if (rec(lo, w | 1ull << (i - lo), p, c)) return true;
			}
			for (size_t i = 0; i < open.size(); ++i) {
				if ((p >> i & 1) || open[i]->inv > minresp) continue;
				Model c = m;
				if (c.apply(*open[i], true))
					if (rec(lo, w, p | 1ull << i, c)) return true;
			}
			return false;
		}
		bool check(Model const &m) {
			if (open.size() > 63) {
				gave_up = true;
				return true;
			}
			return rec(0, 0, 0, m);
		}
	};
} // namespace sim
