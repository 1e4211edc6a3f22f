// C23: formatted output. operator<< for formattable types, fmt_join and DICE_DBG over sinks, formatters and
// sources that fail at any point.
#include "../sim/payload.hpp"
#include <array>
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/fmt_join.hpp>
#include <dice/template-library/format_to_ostream.hpp>
#include <dice/template-library/variant2.hpp>
#include <iostream>
#include <list>
#include <optional>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace outh {
	// the text of a value in wide characters differs from the one in narrow ones
	template<typename C> std::basic_string<C> text(uint64_t id, uint32_t len, bool up) {
		std::basic_string<C> s;
		for (uint32_t i = 0; i < len; ++i) s.push_back(sizeof(C) > 1 && i % 5 == 0 ? C(0x263a) : i % 13 == 12 ? C(0) : (C) ((up ? 'A' : 'a') + (int) ((id * 7 + i) % 26)));
		return s;
	}
	struct Txt {
		uint64_t id = 0;
		uint32_t len = 0;
		int style = 0;
		uint32_t fail_at = ~0u; // the formatter throws after that many characters
	};
	struct Own : Txt { // has an operator<< of its own as well
		template<typename C> friend std::basic_ostream<C> &operator<<(std::basic_ostream<C> &s, Own const &) { return s.put(C('!')); }
	};
	struct Unique : Txt { // can only be moved
		Unique(Txt t) : Txt{t} {}
		Unique(Unique &&o) noexcept : Txt{o} { o.id = 0; }
		Unique &operator=(Unique &&) = delete;
	};
	bool thrown_by_formatter;
	template<typename C> struct Fmt {
		bool up = false;
		constexpr auto parse(auto &ctx) {
			auto it = ctx.begin();
			if (it != ctx.end() && *it == C('u')) {
				up = true;
				++it;
			}
			if (it != ctx.end() && *it != C('}')) throw std::format_error("bad spec");
			return it;
		}
		auto format(Txt const &t, auto &ctx) const {
			std::basic_string<C> s;
			{
				NoInstr g;
				s = text<C>(t.id, t.len, up);
			}
			auto out = ctx.out();
			uint32_t n = std::min(t.fail_at, t.len);
			if (t.style == 0)
				for (uint32_t i = 0; i < n; ++i) *out++ = s[i];
			else if (t.style == 1) out = std::ranges::copy(s.begin(), s.begin() + n, out).out;
			else {
				std::formatter<std::basic_string_view<C>, C> f;
				ctx.advance_to(out);
				out = f.format(std::basic_string_view<C>{s.data(), n}, ctx);
			}
			{
				NoInstr g;
				s = {};
			}
			if (t.fail_at <= t.len) {
				fired(FOther);
				thrown_by_formatter = true;
				throw Boom("formatter");
			}
			return out;
		}
	};
	// a single pass source that fails on demand
	bool src_fired;
	uint32_t src_den;
	void src_may_throw() {
		if (should_throw(src_den, FSource)) {
			src_fired = true;
			throw Boom("source");
		}
	}
	struct Src {
		std::vector<Txt> const *v;
		mutable size_t pos = 0;
		struct It {
			using value_type = Txt;
			using difference_type = std::ptrdiff_t;
			Src const *s;
			Txt operator*() const {
				if (s->pos >= s->v->size()) violation("source", "an element after the end of the range was read");
				src_may_throw();
				return (*s->v)[s->pos];
			}
			It &operator++() {
				if (s->pos >= s->v->size()) violation("source", "the range was advanced past its end");
				src_may_throw();
				++s->pos;
				return *this;
			}
			void operator++(int) { ++*this; }
			bool operator==(std::default_sentinel_t) const {
				src_may_throw();
				return s->pos >= s->v->size();
			}
		};
		It begin() const { return {this}; }
		std::default_sentinel_t end() const { return {}; }
	};
} // namespace outh
template<typename C> struct std::formatter<outh::Txt, C> : outh::Fmt<C> {};
template<typename C> struct std::formatter<outh::Own, C> : outh::Fmt<C> {};
template<typename C> struct std::formatter<outh::Unique, C> : outh::Fmt<C> {};

using namespace outh;
namespace {
	template<typename C> std::basic_string<C> widen(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
	template<typename C> std::string narrow(std::basic_string<C> const &s) { return std::string(s.begin(), s.end()); }

	template<typename C>
	struct Sink : std::basic_streambuf<C> {
		using tr = std::char_traits<C>;
		std::basic_string<C> done;
		size_t cap = ~size_t(0); // characters that can be written
		bool throws = false, failed = false;
		bool sync_fails = false;
		uint32_t syncs = 0;
		C area[64];
		size_t area_n = 0;
		Sink<C> *watch = nullptr; // sink of the tied stream
		size_t watched = ~size_t(0);
		void init(size_t n) {
			area_n = n;
			if (n) this->setp(area, area + n);
		}
		void fail() {
			NoInstr g;
			fired(FSink);
			log("sink fails", done.size());
			failed = true;
			if (throws) throw Boom("sink");
		}
		bool drain() {
			NoInstr g;
			if (watch && watched == ~size_t(0)) watched = watch->done.size();
			size_t n = (size_t) (this->pptr() - this->pbase()), w = std::min(n, cap - std::min(cap, done.size()));
			done.append(this->pbase(), w);
			std::copy(this->pbase() + w, this->pbase() + n, area);
			if (area_n) {
				this->setp(area, area + area_n);
				this->pbump((int) (n - w));
			}
			return w == n;
		}
		typename tr::int_type overflow(typename tr::int_type c) override {
			if (area_n) {
				if (!drain()) {
					fail();
					return tr::eof();
				}
				if (!tr::eq_int_type(c, tr::eof())) {
					*this->pptr() = tr::to_char_type(c);
					this->pbump(1);
				}
				return tr::not_eof(c);
			}
			{
				NoInstr g;
				if (watch && watched == ~size_t(0)) watched = watch->done.size();
			}
			if (done.size() >= cap) {
				fail();
				return tr::eof();
			}
			NoInstr g;
			done.push_back(tr::to_char_type(c));
			return c;
		}
		int sync() override {
			++syncs;
			if (sync_fails || !drain()) {
				fail();
				return -1;
			}
			return 0;
		}
		std::basic_string<C> accepted() const { return done + std::basic_string<C>(this->pbase(), this->pptr()); }
	};

	Txt gen_txt(uint64_t &id, bool may_fail) {
		Txt t;
		t.id = id++;
		t.len = (uint32_t[]) {0, 1, 3, 7, 20, 40, 300, 700}[pick(W, {1, 2, 3, 3, 2, 2, 1, 1})];
		t.style = (int) choose(W, 3);
		if (may_fail && chance(F, 1, 3)) t.fail_at = choose(F, t.len + 1);
		return t;
	}
	template<typename C> void prefix(std::basic_string<C> const &got, std::basic_string<C> const &want, char const *what) {
		if (got.size() > want.size() || want.compare(0, got.size(), got)) violation("content", "%s wrote something else than the text of the value: '%s' (%zu) instead of '%s' (%zu)", what, narrow(got).substr(0, 120).c_str(), got.size(), narrow(want).substr(0, 120).c_str(), want.size());
	}

	// ---- operator<< ----------------------------------------------------------
	template<typename C, typename T>
	void stream_one(T const &v, std::basic_string<C> const &want, char const *what, bool value_fails) {
		Sink<C> sink, tsink;
		std::basic_string<C> start, pending;
		std::optional<std::basic_ostream<C>> os, tied;
		uint32_t init = 0;
		bool thrown = false, boom = false, iosfail = false, alloc = false, uses_unit = false;
		std::ios_base::iostate mask{}, before{};
		{
			NoInstr g;
			add_evals(1);
			sink.init(choose(W, 3) == 0 ? 0 : (size_t[]) {1, 8, 64}[choose(W, 3)]);
			os.emplace(&sink);
			start = widen<C>(choose(W, 2) ? "ab" : "");
			*os << start;
			init = pick(W, {8, 1, 1, 1});
			mask = (std::ios_base::iostate[]) {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit}[pick(W, {3, 1, 1, 1})];
			uses_unit = chance(W, 1, 4);
			if (chance(W, 1, 3)) {
				tsink.init(64);
				tied.emplace(&tsink);
				pending = widen<C>("pending");
				*tied << pending;
				os->tie(&*tied);
				sink.watch = &tsink;
			}
			if (chance(F, 1, 2)) {
				sink.cap = choose(F, (uint32_t) (start.size() + want.size()) + 2);
				// what a failing sync does together with unitbuf and exceptions is up to the standard library
				if (!uses_unit) sink.throws = chance(F, 1, 3);
				else if (mask != std::ios_base::goodbit) sink.cap = ~size_t(0);
			}
			if (uses_unit) os->setf(std::ios_base::unitbuf);
			os->exceptions(mask);
			try {
				if (init == 1) os->setstate(std::ios_base::failbit);
				if (init == 2) os->setstate(std::ios_base::badbit);
				if (init == 3) os->setstate(std::ios_base::eofbit);
			} catch (std::ios_base::failure const &) {}
			before = os->rdstate();
			sink.failed = false;
			thrown_by_formatter = src_fired = false;
			log("stream", want.size(), init, sink.cap);
		}
		std::basic_ostream<C> *ret = nullptr;
		{
			OpScope o;
			try {
				ret = &(*os << v);
			} catch (Boom const &) {
				thrown = boom = true;
			} catch (std::ios_base::failure const &) {
				thrown = iosfail = true;
			} catch (std::bad_alloc const &) {
				thrown = alloc = true;
			}
		}
		NoInstr g;
		auto after = os->rdstate();
		auto all = sink.accepted();
		if (all.size() < start.size() || all.compare(0, start.size(), start)) violation("content", "%s lost text written before", what);
		auto got = all.substr(start.size());
		prefix(got, want, what);
		if (ret && ret != &*os) violation("state", "%s does not return the stream", what);
		if (alloc && !cfg.alloc_den) violation("spurious-error", "%s reports an allocation failure although no memory was refused", what);
		if (init != 0) {
			probe("stream that had failed before");
			if (!got.empty()) violation("failed-stream", "%s writes to a stream that has failed before", what);
			if ((before & ~after) != 0) violation("failed-stream", "%s cleared an error of the stream", what);
		} else if (sink.failed) {
			probe("sink failed");
			if (!thrown && !os->bad()) violation("lost-output", "the sink failed after %zu of %zu characters, but %s reports success", got.size(), want.size(), what);
			if ((mask & std::ios_base::badbit) && !thrown) violation("lost-output", "%s does not throw although exceptions are enabled for a failing sink", what);
		} else if (thrown_by_formatter || src_fired) {
			probe("formatter failed");
			if (!boom && !os->bad()) violation("lost-exception", "the exception of a formatter or source did not reach the caller of %s", what);
			if (!boom && !thrown) violation("lost-exception", "the exception of a formatter or source did not reach the caller of %s", what);
		} else if (alloc) {
			probe("allocation refused");
		} else {
			if (value_fails && want.empty()) {}
			if (thrown) violation("spurious-error", "%s throws although nothing failed", what);
			if (after != before) violation("spurious-error", "%s changed the state of the stream although nothing failed", what);
			if (got != want) violation("lost-output", "%s wrote %zu of %zu characters and reports success", what, got.size(), want.size());
			if (uses_unit && sink.done.size() != all.size()) violation("unflushed", "%s does not flush a stream that flushes after every output", what);
			if (sink.watch && sink.watched != ~size_t(0) && sink.watched != pending.size()) violation("tie", "%s writes before the stream tied to it was flushed", what);
			if (sink.watch && tsink.done.size() != pending.size()) violation("tie", "%s does not flush the stream tied to it", what);
			nontrivial();
		}
		(void) iosfail;
		os.reset();
		tied.reset();
		start = pending = got = all = {};
	}
	template<typename C> void op_stream(uint64_t &id) {
		switch (pick(W, {5, 2, 2, 1})) {
		case 0: {
			Txt t = gen_txt(id, true);
			stream_one<C>(t, text<C>(t.id, std::min(t.len, t.fail_at), false), "operator<<", t.fail_at <= t.len);
			break;
		}
		case 1: {
			Own t{gen_txt(id, false)};
			stream_one<C>(t, widen<C>("!"), "the operator<< of a type of its own", false);
			break;
		}
		case 2:
			if constexpr (std::is_same_v<C, char>) {
				Txt t = gen_txt(id, true);
				bool n = chance(W, 1, 2);
				dtl::variant2<Txt, int> v{5};
				if (n) v = t;
				if (!n) t.fail_at = ~0u;
				std::string want;
				{
					NoInstr g;
					want = n ? "variant(" + text<C>(t.id, std::min(t.len, t.fail_at), false) + (t.fail_at <= t.len ? "" : ")") : std::string("variant(5)");
				}
				stream_one<C>(v, want, "operator<< of a variant2", n && t.fail_at <= t.len);
				NoInstr g;
				want = {};
			}
			break;
		case 3: {
			std::vector<Txt> x;
			std::basic_string<C> want;
			{
				NoInstr g;
				for (uint32_t i = choose(W, 4); i > 0; --i) x.push_back(gen_txt(id, i == 1));
				bool stop = false;
				for (size_t i = 0; i < x.size() && !stop; ++i) {
					if (i) want += C(',');
					want += text<C>(x[i].id, std::min(x[i].len, x[i].fail_at), false);
					stop = x[i].fail_at <= x[i].len;
				}
			}
			stream_one<C>(dtl::fmt_join(x, C(',')), want, "operator<< of a fmt_join", false);
			NoInstr g;
			x = {};
			want = {};
			break;
		}
		}
	}

	// ---- fmt_join --------------------------------------------------------------
	template<typename C> struct Lit;
	template<> struct Lit<char> {
		static constexpr char const *plain = "{}", *up = "{:u}";
		static constexpr auto join2(auto const &r) { return dtl::fmt_join(r, ", "); }
	};
	template<> struct Lit<wchar_t> {
		static constexpr wchar_t const *plain = L"{}", *up = L"{:u}";
		static constexpr auto join2(auto const &r) { return dtl::fmt_join(r, L", "); }
	};
	template<typename C, typename J>
	void joined(J const &j, std::basic_string<C> const &want, bool up, char const *what) {
		std::basic_string<C> got;
		bool boom = false, alloc = false, part = false;
		size_t limit = ~size_t(0), total = 0;
		uint32_t how = choose(W, 3);
		{
			NoInstr g;
			add_evals(1);
			thrown_by_formatter = src_fired = false;
			if (how == 2) limit = choose(W, (uint32_t) want.size() + 3);
			log("join", want.size(), how, limit);
		}
		{
			OpScope o;
			try {
				using ctx = std::conditional_t<std::is_same_v<C, char>, std::format_context, std::wformat_context>;
				std::basic_string_view<C> f = up ? Lit<C>::up : Lit<C>::plain;
				if (how == 0) {
					auto s = std::vformat(f, std::make_format_args<ctx>(j));
					NoInstr g;
					got = s;
				} else if (how == 1) {
					std::basic_string<C> s;
					std::vformat_to(std::back_inserter(s), f, std::make_format_args<ctx>(j));
					NoInstr g;
					got = s;
				} else {
					std::vector<C> buf(limit + 1, C('#'));
					auto r = [&] {
						if constexpr (std::is_same_v<C, char>) return up ? std::format_to_n(buf.data(), (ptrdiff_t) limit, "{:u}", j) : std::format_to_n(buf.data(), (ptrdiff_t) limit, "{}", j);
						else return up ? std::format_to_n(buf.data(), (ptrdiff_t) limit, L"{:u}", j) : std::format_to_n(buf.data(), (ptrdiff_t) limit, L"{}", j);
					}();
					NoInstr g;
					part = true;
					total = (size_t) r.size;
					got.assign(buf.data(), (size_t) (r.out - buf.data()));
					if (buf.back() != C('#')) violation("content", "%s wrote behind the end of the buffer", what);
				}
			} catch (Boom const &) {
				boom = true;
			} catch (std::bad_alloc const &) {
				alloc = true;
			}
		}
		NoInstr g;
		bool expect = thrown_by_formatter || src_fired;
		if (expect != boom && !alloc) violation(boom ? "spurious-error" : "lost-exception", "%s: the exception of an element or of the source %s", what, boom ? "came from nowhere" : "did not reach the caller");
		if (alloc && !cfg.alloc_den) violation("spurious-error", "%s reports an allocation failure although no memory was refused", what);
		if (!boom && !alloc) {
			if (part && total != want.size()) violation("content", "%s has %zu characters instead of %zu", what, total, want.size());
			if (got != (part ? want.substr(0, limit) : want)) violation("content", "%s differs from the joined texts of the elements: '%s' instead of '%s'", what, narrow(got).substr(0, 60).c_str(), narrow(want).substr(0, 60).c_str());
			nontrivial();
		} else probe("join failed");
		got = {};
	}
	template<typename C, typename Sep> void join_with(uint64_t &id, std::basic_string<C> const &sep_text, Sep const &sep) {
		std::vector<Txt> x;
		std::vector<int> n;
		std::basic_string<C> want, wantn, want2;
		bool up = chance(W, 1, 3);
		uint32_t kind = choose(W, 11);
		bool fails = chance(F, 1, 3);
		uint32_t drop = choose(W, 3);
		{
			NoInstr g;
			uint32_t cnt = choose(W, 5);
			for (uint32_t i = 0; i < cnt; ++i) x.push_back(gen_txt(id, fails && i + 1 == cnt));
			size_t first = kind == 5 ? std::min<size_t>(drop, x.size()) : 0;
			for (size_t i = first; i < x.size(); ++i) {
				if (i > first) want += sep_text;
				want += text<C>(x[i].id, x[i].len, up);
			}
			log("join_with", kind, x.size(), sep_text.size());
		}
		src_den = 0;
		switch (kind) {
		case 0: joined<C>(dtl::fmt_join(x, sep), want, up, "fmt_join of a vector"); break;
		case 1: joined<C>(dtl::fmt_join(std::as_const(x), sep), want, up, "fmt_join of a const vector"); break;
		case 2: {
			suspend_faults();
			std::vector<Txt> y{x};
			resume_faults();
			if (chance(W, 1, 2)) {
				joined<C>(dtl::fmt_join(std::move(y), sep), want, up, "fmt_join of a temporary vector");
				break;
			}
			// kept for later: what it was made of is gone by then
			suspend_faults();
			auto j = [&] {
				auto temporary = std::move(y);
				auto sep2 = sep;
				return dtl::fmt_join(std::move(temporary), std::move(sep2));
			}();
			resume_faults();
			joined<C>(j, want, up, "a kept fmt_join of a temporary vector");
			joined<C>(j, want, up, "a kept fmt_join of a temporary vector, again");
			break;
		}
		case 3: {
			std::list<Txt> l(x.begin(), x.end());
			joined<C>(dtl::fmt_join(l, sep), want, up, "fmt_join of a list");
			break;
		}
		case 4: joined<C>(dtl::fmt_join(std::span<Txt const>{x}, sep), want, up, "fmt_join of a span"); break;
		case 5: joined<C>(dtl::fmt_join(x | std::views::drop(drop), sep), want, up, "fmt_join of a view"); break;
		case 6: joined<C>(dtl::fmt_join(x | std::views::transform([](Txt const &t) { return t; }), sep), want, up, "fmt_join of a transformed view"); break;
		case 7: {
			src_den = fails ? 4 : 0;
			Src s{&x};
			joined<C>(dtl::fmt_join(s, sep), want, up, "fmt_join of a single pass range");
			break;
		}
		case 8: {
			src_den = fails ? 4 : 0;
			Src s{&x};
			joined<C>(dtl::fmt_join(std::ranges::subrange(s.begin(), s.end()), sep), want, up, "fmt_join of a single pass subrange");
			break;
		}
		case 9: {
			suspend_faults();
			x.resize(3);
			resume_faults();
			{
				NoInstr g;
				want = text<C>(x[0].id, x[0].len, up) + sep_text + text<C>(x[1].id, x[1].len, up) + sep_text + text<C>(x[2].id, x[2].len, up);
			}
			if (chance(W, 1, 2)) {
				joined<C>(dtl::fmt_join({x[0], x[1], x[2]}, sep), want, up, "fmt_join of an initializer list");
				break;
			}
			suspend_faults();
			auto j = dtl::fmt_join({x[0], x[1], x[2]}, sep);
			resume_faults();
			joined<C>(j, want, up, "a kept fmt_join of an initializer list");
			break;
		}
		case 10: { // joins of joins
			std::vector<std::vector<Txt>> vv;
			{
				NoInstr g;
				vv = {x, {}, x};
				want2 = want + widen<C>(", ") + widen<C>(", ") + want;
			}
			{
				auto inner = vv | std::views::transform([&](std::vector<Txt> const &y) { return dtl::fmt_join(y, sep); });
				joined<C>(Lit<C>::join2(inner), want2, up, "a nested fmt_join");
			}
			NoInstr g;
			vv = {};
			break;
		}
		}
		src_den = 0;
		NoInstr g;
		want = wantn = want2 = {};
		x = {};
	}
	template<typename C> void op_join(uint64_t &id) {
		std::basic_string<C> s;
		{
			NoInstr g;
			s = std::array<std::basic_string<C>, 4>{widen<C>(", "), widen<C>(""), widen<C>(std::string_view("a\0b", 3)), widen<C>(std::string(40, '-'))}[choose(W, 4)];
		}
		switch (choose(W, 4)) {
		case 0: join_with<C>(id, std::basic_string<C>(1, C('|')), C('|')); break;
#ifndef FALLBACK
		case 1: join_with<C>(id, s, s); break;
		case 2: join_with<C>(id, s, std::basic_string_view<C>{s}); break;
#else
		case 1: violation("unusable", "fmt_join with a string as separator does not compile");
#endif
		default: {
			static C const zero[] = {C(':'), C(':'), C(0)};
			join_with<C>(id, widen<C>("::"), +zero);
			break;
		}
		}
		NoInstr g;
		s = {};
	}

	// ---- DICE_DBG --------------------------------------------------------------
	int evals;
	bool expr_throws;
	Txt &lref(Txt &t) {
		++evals;
		if (expr_throws) throw Boom("expression");
		return t;
	}
	Unique make_unique_txt(Txt const &t) {
		++evals;
		if (expr_throws) throw Boom("expression");
		return Unique{t};
	}
	void op_dbg(uint64_t &id) {
		Sink<char> sink;
		std::streambuf *old;
		std::string want;
		Txt t;
		std::ios_base::iostate before;
		{
			NoInstr g;
			add_evals(1);
			t = gen_txt(id, true);
			sink.init((size_t[]) {0, 1, 8, 64}[choose(W, 4)]);
			if (chance(F, 1, 3)) sink.cap = choose(F, t.len + 60);
			old = std::cerr.rdbuf(&sink);
			std::cerr.clear();
			before = std::cerr.rdstate();
			evals = 0;
			expr_throws = chance(F, 1, 6);
			thrown_by_formatter = false;
		}
		uint32_t form = choose(W, 5);
		int want_evals = 1, line = 0;
		bool boom = false, alloc = false, right = true;
		char const *expr = "";
		log("dbg", form, t.len, sink.cap);
		{
			OpScope o;
			try {
				switch (form) {
				case 0: {
					expr = "lref(t)";
					line = __LINE__; decltype(auto) r = DICE_DBG(lref(t));
					static_assert(std::is_same_v<decltype(r), Txt &>);
					right = &r == &t;
					break;
				}
				case 1: {
					expr = "std::as_const(lref(t))";
					line = __LINE__; auto &r = DICE_DBG(std::as_const(lref(t)));
					static_assert(std::is_same_v<decltype(r), Txt const &>);
					right = &r == &t;
					break;
				}
				case 2: {
					expr = "make_unique_txt(t)";
					line = __LINE__; Unique r = DICE_DBG(make_unique_txt(t));
					right = r.id == t.id;
					break;
				}
				case 3: {
					expr = "std::move(lref(t))";
					line = __LINE__; Txt r = DICE_DBG(std::move(lref(t)));
					right = r.id == t.id;
					break;
				}
				case 4: {
					expr = "std::as_const(DICE_DBG(lref(t)))";
					line = __LINE__; auto &r = DICE_DBG(std::as_const(DICE_DBG(lref(t))));
					right = &r == &t;
					break;
				}
				}
			} catch (Boom const &) {
				boom = true;
			} catch (std::bad_alloc const &) {
				alloc = true;
			}
		}
		NoInstr g;
		std::cerr.rdbuf(old);
		std::cerr.clear();
		(void) before;
		auto all = sink.accepted();
		std::string val = text<char>(t.id, t.len, false);
		auto mk = [&](char const *e) {
			char b[32];
			snprintf(b, sizeof b, "[out.cpp:%d] ", line);
			return std::string(b) + e + " = " + val + "\n";
		};
		if (form == 4) want = mk("lref(t)");
		want += mk(expr);
		if (evals != want_evals) violation("evaluated", "the expression of DICE_DBG was evaluated %d times", evals);
		bool expect = expr_throws || thrown_by_formatter;
		if (alloc && !cfg.alloc_den) violation("spurious-error", "DICE_DBG reports an allocation failure although no memory was refused");
		if (!alloc && boom != expect) violation(boom ? "spurious-error" : "lost-exception", "the exception of the expression or formatter of DICE_DBG %s", boom ? "came from nowhere" : "did not reach the caller");
		if (expr_throws && !all.empty()) violation("content", "DICE_DBG printed a value although the expression failed");
		if (!right) violation("value", "DICE_DBG does not return the value of its expression");
		if (!boom && !alloc) {
			if (form != 4 || !sink.failed) prefix(all, want, "DICE_DBG");
			if (!sink.failed && all != want) violation("content", "DICE_DBG printed '%s' instead of '%s'", all.substr(0, 80).c_str(), want.substr(0, 80).c_str());
			if (sink.failed) probe("DICE_DBG with failing std::cerr");
			nontrivial();
		}
		all = want = val = {};
	}

	template<int WHAT> void run() {
		uint64_t id = 1;
		cfg.alloc_den = (uint32_t[]) {0, 4, 12}[pick(W, {4, 1, 1})];
		uint32_t steps = 2 + choose(W, 10);
		for (uint32_t i = 0; i < steps; ++i) {
			if constexpr (WHAT == 0) op_stream<char>(id);
			else if constexpr (WHAT == 1) op_stream<wchar_t>(id);
			else if constexpr (WHAT == 2) op_join<char>(id);
			else if constexpr (WHAT == 3) op_join<wchar_t>(id);
			else op_dbg(id);
		}
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "out";
	h.scenarios = {{"operator<<", 3, run<0>}, {"operator<< of wide streams", 2, run<1>}, {"fmt_join", 3, run<2>}, {"fmt_join of wide texts", 1, run<3>}, {"DICE_DBG", 2, run<4>}};
	return h;
}
