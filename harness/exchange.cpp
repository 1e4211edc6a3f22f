// C07..C09 (and the exchange part of C06): dice::template_library::exchange_channel under simulated threads.
#include "../sim/lin.hpp"
#include "../sim/payload.hpp"
#include <dice/template-library/exchange_channel.hpp>
#include <deque>
#include <map>
#include <memory>

using namespace sim;
namespace dtl = dice::template_library;

namespace {
	enum Kind { KPush, KPop, KTryPop, KClose, KClosed, KThrewPush, KThrewPop, KDrop };
	char const *const kn[] = {"push", "pop", "try_pop", "close", "closed", "push(threw)", "pop(threw)", "drop"};

	struct Prop {
		bool cap = false, close = false, progress = false, faults = false, race = false;
		std::string id;
	} P;

	struct Model {
		int64_t v = 0; // 0 = empty
		bool closed = false;
		bool apply(HOp const &o, bool pending) {
			switch (o.kind) {
				case KPush:
					if (pending || o.ret) {
						if (closed) return false;
						v = o.arg;
						return true;
					}
					return closed;
				case KPop:
				case KTryPop:
					if (pending) {
						if (!v) return false;
						v = 0;
						return true;
					}
					if (o.ret) {
						if (v != o.ret) return false;
						v = 0;
						return true;
					}
					if (o.kind == KPop) return closed && !v;
					return cfg.stale || !v;
				case KDrop: // only with throwing moves: a failed push may have dropped the element it was replacing
					v = 0;
					return true;
				case KClose:
					closed = true;
					return true;
				case KClosed:
					return (o.ret != 0) == closed || (cfg.stale && !o.ret);
				default: // threw: no effect
					return true;
			}
		}
		void key(std::string &k) const {
			k.assign((char const *) &v, 8);
			k.push_back(closed ? 'c' : 'o');
		}
	};

	std::vector<HOp> *H; // heap, harness memory
	size_t begin_op(int kind, int64_t arg) {
		NoInstr n;
		HOp o;
		o.fiber = self();
		o.kind = kind;
		o.arg = arg;
		o.inv = stamp();
		H->push_back(o);
		log("inv", (uint64_t) kind, (uint64_t) arg, (uint64_t) self());
		if (tracing()) note("  [t%d] %s(%lld) begins", self(), kn[kind], (long long) arg);
		return H->size() - 1;
	}
	void end_op(size_t i, int64_t ret, int kind = -1) {
		NoInstr n;
		auto &o = (*H)[i];
		if (kind >= 0) o.kind = kind;
		o.ret = ret;
		o.resp = stamp();
		log("ret", (uint64_t) o.kind, (uint64_t) ret, (uint64_t) self());
		if (tracing()) note("  [t%d] %s(%lld) -> %lld", self(), kn[o.kind], (long long) o.arg, (long long) ret);
	}

	template<typename T>
	struct Run {
		using Ch = dtl::exchange_channel<T>;
		static constexpr bool copyable = std::is_copy_constructible_v<T>;
		Ch *ch = nullptr;
		int64_t next_id = 1;
		bool drained = true;
		uint64_t *note = nullptr;
		uint32_t shape = 0; // 0 the usual, 1 a long history, 2 a crowd
		int waiting = 0;

		T make(int64_t id) {
			suspend_faults();
			T t{(uint64_t) id};
			resume_faults();
			return t;
		}
		void push(int form) {
			int64_t id;
			{
				NoInstr n;
				id = next_id++;
			}
			T val = make(id);
			size_t h = begin_op(KPush, id);
			bool r = false, threw = false;
			try {
				OpScope s;
				if (form == 0) r = ch->push(std::move(val));
				else if (form == 1) r = ch->emplace((uint64_t) id);
				else if (form == 3) r = ch->emplace(std::move(val));
				else {
					if constexpr (copyable) {
						T const &cv = val;
						r = ch->push(cv);
					} else r = ch->push(std::move(val));
				}
			} catch (Boom const &) {
				threw = true;
			} catch (std::bad_alloc const &) {
				threw = true;
			}
			end_op(h, r, threw ? KThrewPush : -1);
			// a refused element stays with its owner, a copied one too
			if (!threw && (!r || (form == 2 && copyable)) && id_of(val) != (uint64_t) id)
				violation("argument", r ? "push changed the element it was to copy" : "a push that reported failure took its argument away");
			if (!threw && !r) read_note();
			suspend_faults(); // val's destruction
			resume_faults();
		}
		template<typename Opt> int64_t take(Opt const &o) {
			if (!o.has_value()) return 0;
			int64_t id = (int64_t) id_of(*o);
			if (id == 0) violation("moved-from", "pop delivered a moved-from element");
			return id;
		}
		void pop(bool tr) {
			size_t h = begin_op(tr ? KTryPop : KPop, 0);
			try {
				std::optional<T> o;
				{
					OpScope s;
					// constructed in place: the result object is the one pop() builds
					auto r = tr ? ch->try_pop() : ch->pop();
					op_leave();
					int64_t id = take(r);
					op_enter();
					end_op(h, id);
					if (!tr && id == 0) read_note();
				}
			} catch (Boom const &) {
				end_op(h, 0, KThrewPop);
			} catch (std::bad_alloc const &) {
				end_op(h, 0, KThrewPop);
			}
		}
		// A second, private channel: iterators of both are copied, moved and swapped while the shared channel is iterated.
		struct Side {
			std::unique_ptr<Ch> ch;
			std::deque<int64_t> left;
		};
		void side_fill(Side &sd, uint32_t n) {
			suspend_faults();
			sd.ch = std::make_unique<Ch>();
			for (uint32_t i = 0; i < n; ++i) {
				int64_t id;
				{
					NoInstr g;
					id = 1000000 + next_side++;
					sd.left.push_back(id);
				}
				sd.ch->push(make(id));
			}
			sd.ch->close();
			resume_faults();
		}
		int64_t next_side = 0;
		void same_side(Side &sd, bool end, int64_t id) {
			NoInstr g;
			int64_t want = sd.left.empty() ? 0 : sd.left.front();
			if ((end ? 0 : id) != want) violation("iterator", "an iterator of another channel is at element %lld instead of %lld", (long long) (end ? 0 : id), (long long) want);
		}
		using It = typename Ch::iterator;
		struct Begin { // builds the iterator in place
			Ch *c;
			operator It() const { return c->begin(); }
		};
		void iterate(uint32_t maxn, uint64_t plan) {
			// one pop per advance; the iterator hands out what it popped
			Side sd;
			{
				NoInstr g;
				sd.left.clear();
			}
			bool with_side = plan & 1;
			size_t h = ~(size_t) 0;
			int in = 0;
			auto enter = [&] { op_enter(); ++in; };
			auto leave = [&] { op_leave(); --in; };
			try {
				if (with_side) side_fill(sd, 1);
				h = begin_op(KPop, 0);
				enter();
				std::optional<It> a, b; // a: shared channel, b: private channel
				a.emplace(Begin{ch});
				leave();
				if (with_side) {
					suspend_faults();
					b.emplace(Begin{sd.ch.get()});
					resume_faults();
				}
				for (uint32_t i = 0;; ++i) {
					bool end = *a == ch->end();
					int64_t cur = end ? 0 : (int64_t) id_of(**a);
					if (h != ~(size_t) 0) end_op(h, cur);
					h = ~(size_t) 0;
					if (!end && cur == 0) violation("moved-from", "the iterator delivered a moved-from element");
					if (!end && (std::to_address(a->operator->()) != &**a || &*std::as_const(*a) != &**a)) violation("iterator", "* and -> of an iterator disagree");
					if (with_side) same_side(sd, *b == sd.ch->end(), *b == sd.ch->end() ? 0 : (int64_t) id_of(**b));
					uint32_t w = (uint32_t) (plan >> (3 + 3 * (i % 18))) & 7;
					if (with_side) switch (w) {
						case 0: case 1: { // swap by moving
							enter();
							It t{std::move(*a)};
							*a = std::move(*b);
							*b = std::move(t);
							leave();
							a.swap(b);
							probe("iterators of two channels swapped");
							break;
						}
						case 2: // copy, the copy is dropped
							if constexpr (copyable) {
								enter();
								It t{*a};
								leave();
								if ((t == ch->end()) != end || (!end && (int64_t) id_of(*t) != cur)) violation("iterator", "a copy of an iterator is at another element");
							}
							break;
						case 3: // the iterator of the other channel is overwritten by a copy of this one, and used from now on
							if constexpr (copyable) {
								enter();
								It t{*b};
								*b = std::as_const(*a);
								*a = std::as_const(t);
								leave();
								a.swap(b);
								probe("iterators of two channels assigned");
							}
							break;
						case 4: // advance the private one
							if (*b != sd.ch->end()) {
								{
									NoInstr g;
									sd.left.pop_front();
								}
								suspend_faults();
								++*b;
								resume_faults();
							}
							break;
						case 5: // the element is taken out of the iterator
							if (!end) {
								enter();
								T x{std::move(**a)};
								leave();
								if ((int64_t) id_of(x) != cur) violation("iterator", "moving an element out of an iterator changed it");
							}
							break;
						case 6:
							if constexpr (copyable) {
								enter();
								It const &self = *a;
								*a = self;
								leave();
							}
							break;
						default: break;
						}
					if (!end && w != 5) {
						if ((*a == ch->end()) || (int64_t) id_of(**a) != cur) violation("iterator", "copying or moving iterators changed the element of one");
					}
					if (end || i + 1 >= maxn) break;
					h = begin_op(KPop, 0);
					enter();
					if (i & 1) (*a)++;
					else ++*a;
					leave();
				}
			} catch (Boom const &) {
				if (in) op_leave();
				if (h != ~(size_t) 0) end_op(h, 0, KThrewPop);
			} catch (std::bad_alloc const &) {
				if (in) op_leave();
				if (h != ~(size_t) 0) end_op(h, 0, KThrewPop);
			}
			suspend_faults();
			sd.ch.reset();
			resume_faults();
			NoInstr g;
			sd.left = {};
		}

		void check_quiescent() {
			// nobody can move: is every blocked operation legitimately blocked?
			NoInstr n;
			if (!P.progress && !P.faults) return;
			bool closed = false;
			std::vector<HOp> all = *H;
			for (auto &o : all)
				if (o.resp != UINT64_MAX && o.kind == KClose) closed = true;
			bool popper = false;
			int who = 0;
			for (auto &o : all) {
				if (o.resp != UINT64_MAX) continue;
				if (o.kind != KPop) violation("stuck", "%s by thread t%d never returns: every thread is blocked", kn[o.kind], o.fiber);
				if (closed) violation("stuck", "pop by thread t%d is still blocked after close()", o.fiber);
				popper = true;
				who = o.fiber;
			}
			waiting = popper ? who : 0;
		}

		void run() {
			bool with_faults = P.faults;
			{
				NoInstr n;
				elem_live = 0;
				ef = {};
				H->clear();
				waiting = 0;
				swarm_cfg(P.race);
				if (P.race && chance(W, 1, 2)) cfg.stale = true;
				if (with_faults) {
					uint32_t k = pick(W, {3, 3, 2, 2});
					uint32_t d = 2 + choose(W, 5);
					if (k == 0 || k == 3) ef.ctor = ef.copy = d;
					if (k == 1 || k == 3) ef.move = d;
					if (k == 2 || k == 3) cfg.alloc_den = std::is_nothrow_move_constructible_v<T> || std::is_nothrow_copy_constructible_v<T> ? 0 : d; // with nothrow elements the operations are declared noexcept
					ef.massign = ef.move;
				}
				shape = pick(W, {300, 1, 8});
				if (shape == 1) probe("long history");
			}
			note = new uint64_t(0);
			ch = new Ch;
			{
				NoInstr n;
				uint32_t prod = 1 + pick(W, {3, 4, 2}), cons = 1 + pick(W, {3, 4, 2});
				if (shape == 2) prod = 1 + choose(W, 5), cons = 1 + choose(W, 5);
				uint32_t mix = pick(W, {4, 3, 2, 2}); // 0 blocking only, 1 mixed, 2 mostly try, 3 iterators
				uint32_t closer = pick(W, {3, 3, 1});
				if (closer != 1) drop_note();
				
				for (uint32_t p = 0; p < prod; ++p) {
					char nm[24];
					snprintf(nm, sizeof nm, "producer%u", p);
					std::vector<int> ops;
					uint32_t k = shape == 1 ? 20 + choose(W, 80) : 1 + choose(W, 4);
					for (uint32_t i = 0; i < k; ++i) ops.push_back((int) choose(W, 4));
					bool q = chance(W, 1, 4); // also asks closed()
					spawn(nm, [this, ops, q] {
						for (int f : ops) {
							push(f);
							if (q) ask();
						}
					});
				}
				for (uint32_t c = 0; c < cons; ++c) {
					char nm[24];
					snprintf(nm, sizeof nm, "consumer%u", c);
					uint32_t k = shape == 1 ? 20 + choose(W, 80) : 1 + choose(W, 5);
					std::vector<int> ops; // 0 pop 1 try_pop 2 iterate
					for (uint32_t i = 0; i < k; ++i) {
						bool tr = mix == 0 ? false : mix == 1 ? chance(W, 1, 3) : mix == 2 ? chance(W, 3, 4) : false;
						ops.push_back(tr ? 1 : 0);
					}
					bool iter = mix == 3;
					uint64_t plan = 0;
					if (iter && chance(W, 1, 2)) plan = 1 | (uint64_t) choose(W, 1u << 30) << 1 | (uint64_t) choose(W, 1u << 30) << 31;
					bool q = chance(W, 1, 4);
					spawn(nm, [this, ops, iter, k, q, plan] {
						if (iter) {
							iterate(k, plan);
							return;
						}
						for (int t : ops) {
							pop(t == 1);
							if (q) ask();
						}
					});
				}
				for (uint32_t c = 0; c < closer; ++c) {
					uint32_t delay = choose(W, shape == 1 ? 2000 : 8);
					spawn(c ? "closer1" : "closer0", [this, delay] {
						for (uint32_t i = 0; i < delay * 3; ++i) yield();
						if (note) *note = 4711;
						close();
						ask();
					});
				}
			}
			Quiesce q = run_all();
			if (q == Quiesce::Stuck) {
				check_quiescent();
				if (waiting && (P.progress || P.faults)) {
					// a blocked pop() is legitimate only while there is nothing to take
					bool ey = elem_yields;
					elem_yields = false;
					ElemFaults save = ef;
					ef = {};
					size_t h = begin_op(KTryPop, 0);
					auto r = ch->try_pop();
					int64_t id = take(r);
					end_op(h, id);
					if (id) violation("lost-wakeup", "pop by thread t%d is blocked although element %lld is available and no thread is able to run", waiting, (long long) id);
					elem_yields = ey;
					ef = save;
				}
				{
					NoInstr n;
					probe("quiescent with blocked threads");
					spawn("rescuer", [this] { close(); });
				}
				q = run_all();
				if (q == Quiesce::Stuck) {
					if (P.progress || P.close || P.faults) check_after_close();
					return; // not this property's concern; memory is abandoned
				}
			}
			// drain what is left
			elem_yields = false;
			ef = {};
			cfg.alloc_den = 0;
			{
				NoInstr n;
				drained = !chance(W, 1, 6);
			}
			for (int i = 0; drained && i < 1000; ++i) {
				size_t h = begin_op(KTryPop, 0);
				auto r = ch->try_pop();
				int64_t id = take(r);
				end_op(h, id);
				if (!id) break;
			}
			elem_yields = true;
			delete ch;
			delete note;
			NoInstr n;
			judge();
			if (elem_live != 0) violation("leak", "%lld elements still alive after the channel was destroyed", (long long) elem_live);
			if (live_blocks() != 0) violation("leak", "%zu blocks still allocated after the channel was destroyed", live_blocks());
		}
		void check_after_close() {
			NoInstr n;
			for (auto &o : *H)
				if (o.resp == UINT64_MAX) violation("stuck", "%s by thread t%d is still blocked after close()", kn[o.kind], o.fiber);
			violation("stuck", "threads remain blocked after close()");
		}
		void drop_note() {
			delete note;
			note = nullptr;
		}
		void ask() {
			size_t h = begin_op(KClosed, 0);
			bool c = ch->closed();
			end_op(h, c);
			if (c) read_note();
		}
		// what the closing thread wrote before close() is visible to whoever learns of it
		void read_note() {
			if (note && *note != 4711) violation("visibility", "what was written before close() is not visible to a thread that found the channel closed");
		}
		void close() {
			size_t h = begin_op(KClose, 0);
			fired(FClose);
			{
				OpScope s;
				ch->close();
			}
			end_op(h, 1);
		}

		void judge() {
			add_evals(1);
			// nothing invented, nothing delivered twice
			std::map<int64_t, int> state; // 1 accepted, 2 delivered
			for (auto &o : *H)
				if (o.resp != UINT64_MAX && o.kind == KPush && o.ret) state[o.arg] = 1;
			for (auto &o : *H)
				if ((o.kind == KPop || o.kind == KTryPop) && o.ret) {
					int &s = state[o.ret];
					if (s == 0) violation("invented", "element %lld was delivered but its push did not report success", (long long) o.ret);
					if (s == 2) violation("duplicate", "element %lld was delivered twice", (long long) o.ret);
					s = 2;
				}
			// the last accepted element is never dropped
			uint64_t last_inv = 0;
			int64_t last = 0;
			for (auto &o : *H)
				if (o.kind == KPush && o.ret && o.inv > last_inv) {
					bool alone = true; // every other accepted push finished before it began
					for (auto &q : *H)
						if (&q != &o && q.kind == KPush && q.ret && q.resp > o.inv) alone = false;
					if (alone) {
						last_inv = o.inv;
						last = o.arg;
					}
				}
			if constexpr (!std::is_nothrow_move_constructible_v<T>) {
				std::vector<HOp> extra;
				for (auto &o : *H)
					if (o.kind == KThrewPush) {
						HOp d = o;
						d.kind = KDrop;
						d.resp = UINT64_MAX;
						extra.push_back(d);
						last = 0;
					}
				H->insert(H->end(), extra.begin(), extra.end());
			}
			if (last && drained && state[last] != 2) violation("lost", "element %lld was pushed last and never replaced, but was not delivered although the channel was drained", (long long) last);
			if (P.race && cfg.stale) return;
			Model m;
			Lin<Model> L(*H);
			bool ok = L.check(m);
			if (L.gave_up) probe("linearizability undecided");
			else probe("linearizability decided");
			if (!ok) {
				std::string s;
				for (auto &o : *H) {
					char b[80];
					snprintf(b, sizeof b, " t%d:%s(%lld)=%lld@%llu-%llu", o.fiber, kn[o.kind], (long long) o.arg, (long long) o.ret, (unsigned long long) o.inv, (unsigned long long) o.resp);
					s += b;
				}
				violation("not-linearizable", "no sequential order of the latest-value model explains the history:%s", s.substr(0, 1000).c_str());
			}
		}
	};

	template<typename T> void scenario() {
		H = nullptr;
		{
			NoInstr n;
			static std::vector<HOp> store;
			H = &store;
		}
		static Run<T> *r = nullptr;
		{
			NoInstr n;
			delete r;
			r = new Run<T>;
		}
		r->run();
	}
} // namespace

Harness sim::make_harness(std::string const &prop) {
	P.id = prop;
	Harness h;
	h.name = "exchange";
	if (prop == "C08") P.progress = P.close = true;
	if (prop == "C09") P.faults = true;
	if (prop == "C06") P.race = true;
	// construction of an element may fail; moves are nonthrowing in part of the scenarios
	if (prop == "C09") h.scenarios = {{"copy-throwing elements", 3, scenario<CopyThrower>}, {"throwing elements", 3, scenario<Thrower>}, {"move-throwing elements", 1, scenario<MoveThrower>},
		               {"throwing move-only elements", 1, scenario<Elem<true, true, true, false>>}, {"elements with throwing construction only", 1, scenario<OddThrower>}};
	else h.scenarios = {{"heap-backed elements", 4, scenario<Plain>}, {"integers", 3, scenario<uint64_t>}, {"move-only elements", 2, scenario<MoveOnly>}};
	return h;
}
