// C20: scope guards. A random program of nested scopes, guards, throws, returns and handlers is executed
// with real guards and, independently, by a model that only knows the rules.
#include "../sim/payload.hpp"
#include <dice/template-library/defer.hpp>
#include <memory>
#include <optional>
#include <vector>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	enum Kind { Event, Guard, Scope, Try, Throw, Return, Set };
	enum Pol { Always, OnFail, OnSuccess };
	enum How { Macro, Rvalue, Lvalue, Direct, NKINDS };
	struct Node {
		Kind k;
		Pol pol = Always;
		How how = Macro;
		int id = 0;
		bool rethrow = false, ctor_fails = false;
		std::vector<Node> body;    // of a guard, scope, try block
		std::vector<Node> handler; // of a try block
	};
	using Prog = std::vector<Node>;
	struct ProgError {
		int id;
	};
	int next_id, budget;
	// may_throw: an exception may leave this sequence
	Prog gen(int depth, bool may_throw) {
		Prog p;
		uint32_t n = 1 + choose(W, 8);
		for (uint32_t i = 0; i < n && budget > 0; ++i) {
			--budget;
			Node x{};
			uint32_t d = depth > 0 ? 1 : 0;
			x.k = (Kind) pick(W, {3, 8, 3 * d, 4 * d, may_throw ? 2u : 0u, 1, 2});
			x.id = next_id++;
			switch (x.k) {
			case Guard:
				x.pol = (Pol) choose(W, 3);
				x.how = (How) choose(W, 4);
				// a guard may throw only if it runs on success, and may not be created by failing code if nothing may leave
				x.ctor_fails = may_throw && (x.how == Lvalue || x.how == Rvalue) && chance(W, 1, 8);
				if (depth > 0 && chance(W, 1, 2)) x.body = gen(depth - 1, x.pol == OnSuccess && may_throw);
				break;
			case Scope: x.body = gen(depth - 1, may_throw); break;
			case Try:
				x.body = gen(depth - 1, true);
				x.rethrow = may_throw && chance(W, 1, 4);
				x.handler = gen(depth - 1, may_throw);
				break;
			default: break;
			}
			p.push_back(std::move(x));
		}
		return p;
	}
	// exceptions in flight, one inside the unwinding of the other
	Prog gen_deep(int levels) {
		auto guard = [](Prog body) {
			Node x{Guard};
			x.pol = (Pol) choose(W, 3);
			x.how = (How) choose(W, 4);
			x.id = next_id++;
			x.body = std::move(body);
			return x;
		};
		Prog body;
		if (chance(W, 1, 2)) body.push_back(guard({}));
		if (levels > 0) {
			body.push_back(guard(gen_deep(levels - 1)));
			if (chance(W, 3, 4)) body.back().pol = chance(W, 1, 2) ? OnFail : Always; // runs while its scope fails
		}
		if (chance(W, 1, 2)) body.push_back(guard({}));
		if (chance(W, 5, 6)) body.push_back({Throw, Always, Macro, next_id++});
		Node t{Try};
		t.id = next_id++;
		t.body = std::move(body);
		if (chance(W, 1, 2)) t.handler.push_back(guard({}));
		if (levels > 1 && chance(W, 1, 4)) t.handler.push_back(guard(gen_deep(levels - 2)));
		Prog p;
		if (chance(W, 1, 3)) p.push_back(guard({}));
		p.push_back(std::move(t));
		return p;
	}
	std::vector<int> *out;
	void say(int e) {
		NoInstr g;
		log("e", (uint64_t) e);
		out->push_back(e);
	}

	// ---- model ----------------------------------------------------------
	enum Out { Normal, Returned, Thrown };
	struct Mo {
		Out o = Normal;
		int id = 0;
	};
	Mo model(Prog const &p) {
		int local = 0;
		std::vector<Node const *> guards;
		Mo r;
		for (auto const &x : p) {
			switch (x.k) {
			case Event: say(x.id); break;
			case Set: local = x.id; break;
			case Guard:
				if (x.ctor_fails) r = {Thrown, -x.id - 1};
				else guards.push_back(&x);
				break;
			case Scope: r = model(x.body); break;
			case Try:
				r = model(x.body);
				if (r.o == Thrown) {
					Mo old = r;
					say(100000 + old.id);
					r = model(x.handler);
					if (r.o != Thrown && x.rethrow) r = old; // the handler is a function, too
				}
				break;
			case Throw: r = {Thrown, x.id}; break;
			case Return: r = {Returned, 0}; break;
			}
			if (x.k == Scope && r.o == Returned) r = {}; // a scope is a function: returning ends only that
			if (x.k == Try && r.o == Returned) r = {};
			if (r.o != Normal) break;
		}
		while (!guards.empty()) {
			Node const *g = guards.back();
			guards.pop_back();
			bool run = g->pol == Always || (g->pol == OnFail) == (r.o == Thrown);
			if (!run) continue;
			say(1000 + g->id);
			say(1000000 + local);
			Mo b = model(g->body);
			if (b.o == Thrown) r = b;
		}
		return r;
	}

	// ---- real ----------------------------------------------------------
	void exec(Prog const &p);
	bool ctor_fails_now = false;
	// function object with counted lifetime whose copy and move may fail
	int copies = 0;
	struct Fn : Elem<false, true, true> {
		Node const *n;
		int *local;
		Fn(Node const *a, int *l) : Elem(7), n(a), local(l) {}
		Fn(Fn const &o) : Elem((gate(), o)), n(o.n), local(o.local) { ++copies; }
		Fn(Fn &&o) : Elem((gate(), std::move(o))), n(o.n), local(o.local) {}
		static void gate() {
			if (ctor_fails_now) {
				fired(FCopy);
				throw ProgError{-1};
			}
		}
		void operator()() {
			live();
			if (!box) violation("guard", "a guard's function ran after it was moved away");
			say(1000 + n->id);
			say(1000000 + *local);
			exec(n->body);
		}
	};
	void rest(Prog const &p, size_t i, int &local);
	void exec(Prog const &p) {
		int local = 0;
		rest(p, 0, local);
	}
	template<typename Make>
	void guarded(Prog const &p, size_t i, int &local, Make make) {
		using G = decltype(make(std::declval<Fn>()));
		Node const &x = p[i];
		std::optional<Fn> fn;
		fn.emplace(&x, &local);
		ctor_fails_now = x.ctor_fails;
		int id = x.id;
		std::optional<bool> built;
		struct Fix {
			~Fix() { ctor_fails_now = false; }
		} fix;
		auto go = [&](G const &) {
			ctor_fails_now = false;
			built = true;
			rest(p, i + 1, local);
		};
		try {
			if (x.how == Lvalue) {
				G g = make(*fn);
				go(g);
			} else {
				int before = copies;
				G g = make(std::move(*fn));
				if (fn->box || copies != before) violation("guard", "a function given as an rvalue was copied instead of moved");
				go(g);
			}
		} catch (ProgError const &e) {
			if (!built && e.id == -1) throw ProgError{-id - 1};
			throw;
		}
	}
	// the rest of a scope from statement i: a guard lives until the end of its scope
	void rest(Prog const &p, size_t i, int &local) {
		for (; i < p.size(); ++i) {
			Node const &x = p[i];
			switch (x.k) {
			case Event: say(x.id); break;
			case Set: local = x.id; break;
			case Scope: exec(x.body); break;
			case Throw: throw ProgError{x.id};
			case Return: return;
			case Try:
				try {
					exec(x.body);
				} catch (ProgError const &e) {
					say(100000 + e.id);
					exec(x.handler);
					if (x.rethrow) throw;
				}
				break;
			case Guard: {
				auto body = [&] {
					say(1000 + x.id);
					say(1000000 + local);
					exec(x.body);
				};
				if (x.how == Macro) {
					if (x.pol == Always) {
						DICE_DEFER {
							say(1000 + x.id);
							say(1000000 + local);
							exec(x.body);
						};
						rest(p, i + 1, local);
					} else if (x.pol == OnFail) {
						DICE_DEFER_TO_FAIL {
							say(1000 + x.id);
							say(1000000 + local);
							exec(x.body);
						};
						rest(p, i + 1, local);
					} else {
						DICE_DEFER_TO_SUCCESS {
							say(1000 + x.id);
							say(1000000 + local);
							exec(x.body);
						};
						rest(p, i + 1, local);
					}
				} else if (x.how == Direct) {
					if (x.pol == Always) {
						dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, decltype(body)> g{body}, none;
						rest(p, i + 1, local);
					} else if (x.pol == OnFail) {
						dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, decltype(body)> none, g{std::move(body)};
						rest(p, i + 1, local);
					} else {
						dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, decltype(body)> g{body}, none;
						rest(p, i + 1, local);
					}
				} else {
					if (x.pol == Always) guarded(p, i, local, []<typename F>(F &&f) { return dtl::make_scope_exit_guard(std::forward<F>(f)); });
					else if (x.pol == OnFail) guarded(p, i, local, []<typename F>(F &&f) { return dtl::make_scope_fail_guard(std::forward<F>(f)); });
					else guarded(p, i, local, []<typename F>(F &&f) { return dtl::make_scope_success_guard(std::forward<F>(f)); });
				}
				return; // the rest ran inside
			}
			}
		}
	}
	bool has(Prog const &p, auto f) {
		for (auto const &x : p)
			if (f(x) || has(x.body, f) || has(x.handler, f)) return true;
		return false;
	}

	template<bool DEEP> void run() {
		elem_live = 0;
		ef = {};
		next_id = 1;
		budget = 6 + (int) choose(W, 30);
		{
			Prog p;
			{
				NoInstr g;
				p = DEEP ? gen_deep(1 + (int) choose(W, 5)) : gen(3, true);
			}
			std::vector<int> want, got;
			out = &want;
			Mo m;
			{
				NoInstr g;
				m = model(p);
			}
			out = &got;
			Mo r;
			{
				OpScope o;
				try {
					exec(p);
				} catch (ProgError const &e) {
					r = {Thrown, e.id};
				}
			}
			NoInstr g;
			add_evals(1);
			if (m.o == Returned) m = {};
			if (std::uncaught_exceptions() != 0) violation("guard", "exceptions are left in flight");
			for (size_t i = 0; i < want.size() || i < got.size(); ++i)
				if (i >= want.size() || i >= got.size() || want[i] != got[i])
					violation("guard", "step %zu: the program did %d where %d was due (1000+n: guard n runs, 100000+n: exception n caught)", i, i < got.size() ? got[i] : -1, i < want.size() ? want[i] : -1);
			if (r.o != m.o || r.id != m.id) violation("guard", "the program ended with exception %d instead of %d", r.id, m.id);
			if (m.o == Thrown) probe("program failed");
			for (int e : got)
				if (e >= 100000 && e < 900000) {
					probe("exception handled");
					break;
				}
			if (got.size() > 4) nontrivial();
		}
		if (elem_live) violation("element-lifetime", "%lld guard functions alive at the end", (long long) elem_live);
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
} // namespace

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "defer";
	h.scenarios = {{"random program", 3, run<false>}, {"exceptions inside unwinding", 2, run<true>}};
	return h;
}
