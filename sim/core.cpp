// Driver: forks one child per batch of runs, collects violations, gates them by
// replaying in fresh processes, minimises them and writes replay files.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace sim {
	char const *const fault_names[NFAULT] = {
	        "alloc_failure", "ctor_throw", "copy_throw", "move_throw", "copy_assign_throw", "move_assign_throw",
	        "callback_throw", "spurious_wakeup", "wake_reorder", "weak_cas_failure", "trylock_failure", "lock_error",
	        "preempt_in_op", "thread_stall", "stale_load", "sink_failure", "source_failure", "syscall_error",
	        "eintr", "signal_death", "crash", "relocation", "close_at_any_point", "clock_jump"};

	void (*flavour_before)() = nullptr;
	void (*flavour_after)() = nullptr;
	extern bool want_no_aslr;

	namespace {
		constexpr size_t CAP[NSTREAM] = {1u << 16, 1u << 20, 1u << 18};
		constexpr size_t CAPTOT = (1u << 16) + (1u << 20) + (1u << 18);
		constexpr int NPROBE = 96;
		struct Probe {
			char name[48];
			uint64_t n;
		};
		struct Slot {
			int active;
			uint64_t run_idx;
			int viol; // 1 = recorded violation
			char cls[96];
			char msg[1500];
			uint64_t loghash;
			uint64_t run_started; // counter
			uint64_t runs_done;
			uint64_t steps, simtime, evals;
			uint64_t faults[NFAULT];
			Probe probes[NPROBE];
			uint32_t len[NSTREAM];
			uint32_t data[CAPTOT];
			uint32_t *stream(int s) { return data + (s == 0 ? 0 : s == 1 ? CAP[0] : CAP[0] + CAP[1]); }
		};

		using Streams = std::vector<uint32_t>[NSTREAM];
		struct Str3 {
			std::vector<uint32_t> v[NSTREAM];
			bool operator==(Str3 const &o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
		};

		Slot *slot = nullptr; // this process's slot
		bool g_replay = false;
		Str3 const *g_in = nullptr;
		size_t g_pos[NSTREAM];
		uint64_t g_rng[NSTREAM];
		uint64_t g_hash;
		bool g_trace = false;
		char g_tb[1 << 16]; // static: tracing must not allocate
		size_t g_tn = 0;
		int g_tracefd = -1;
		bool g_nontrivial = false;
		bool g_thorough = false;
		uint64_t *g_hashes = nullptr; // shared: per run log hash (0 = not run, low bit = nontrivial)

		Harness g_h;
		std::string g_prop;
		uint64_t g_seed = 1;
		uint64_t g_runs = 1000;

		uint64_t fnv(char const *s) {
			uint64_t h = 1469598103934665603ull;
			for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
			return h;
		}
		uint64_t next(uint64_t &st) {
			st += 0x9e3779b97f4a7c15ull;
			uint64_t x = st;
			x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
			x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
			return x ^ (x >> 31);
		}
		double now() {
			timespec ts;
			// the driver's own clock: the simulator interposes the libc function
			asm volatile("syscall" : : "a"(228), "D"(1), "S"(&ts) : "rcx", "r11", "memory");
			return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec;
		}
		void safecpy(char *d, size_t n, char const *s) {
			size_t i = 0;
			for (; i + 1 < n && s[i]; ++i) d[i] = s[i];
			d[i] = 0;
		}
		void flush_trace() {
			size_t off = 0;
			while (g_tracefd >= 0 && off < g_tn) {
				ssize_t r = ::write(g_tracefd, g_tb + off, g_tn - off);
				if (r <= 0) break;
				off += (size_t) r;
			}
			g_tn = 0;
		}
		void tput(char const *p, size_t n) {
			if (g_tn + n > sizeof g_tb) flush_trace();
			memcpy(g_tb + g_tn, p, n);
			g_tn += n;
		}
		[[noreturn]] void finish_violation(char const *cls) {
			safecpy(slot->cls, sizeof slot->cls, cls);
			slot->loghash = g_hash;
			slot->viol = 1;
			flush_trace();
			_exit(42);
		}
	} // namespace

	bool replaying() { return g_replay; }
	bool thorough() { return g_thorough; }
	bool tracing() { return g_trace; }

	uint64_t policy_rnd(Stream s) { return next(g_rng[s]); }

	uint32_t record(Stream s, uint32_t n, uint32_t v) {
		if (n == 0) n = 1;
		if (g_replay) {
			auto const &in = g_in->v[s];
			v = g_pos[s] < in.size() ? in[g_pos[s]++] : 0;
		}
		if (v >= n) v %= n;
		if (slot->len[s] < CAP[s]) slot->stream(s)[slot->len[s]++] = v;
		return v;
	}
	uint32_t choose(Stream s, uint32_t n) {
		if (n <= 1) return 0;
		return record(s, n, (uint32_t) (next(g_rng[s]) % n));
	}
	bool chance(Stream s, uint32_t num, uint32_t den) {
		if (num == 0) return false;
		return record(s, 2, next(g_rng[s]) % den < num) != 0;
	}
	uint32_t pick(Stream s, std::initializer_list<uint32_t> w) {
		uint64_t tot = 0;
		for (auto x : w) tot += x;
		uint64_t r = next(g_rng[s]) % (tot ? tot : 1);
		uint32_t i = 0;
		for (auto x : w) {
			if (r < x) break;
			r -= x;
			++i;
		}
		return record(s, (uint32_t) w.size(), i);
	}

	void log(char const *lit, uint64_t a, uint64_t b, uint64_t c) {
		g_hash = mix(g_hash ^ fnv(lit));
		g_hash = mix(g_hash + a * 3 + b * 0x10001 + c * 0x9e3779b1ull);
		if (g_trace) {
			char buf[256];
			int n = snprintf(buf, sizeof buf, "%s %lld %lld %lld\n", lit, (long long) a, (long long) b, (long long) c);
			tput(buf, (size_t) std::min(n, 255));
		}
	}
	void logs(char const *lit, std::string const &s) { log(lit, fnv(s.c_str()), s.size()); if (g_trace) note("  %s = \"%s\"", lit, s.c_str()); }
	void note(char const *fmt, ...) {
		if (!g_trace) return;
		char buf[512];
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
		va_end(ap);
		n = std::min(n, (int) sizeof buf - 2);
		buf[n] = '\n';
		tput(buf, (size_t) n + 1);
	}
	void fired(Fault f) {
		slot->faults[f]++;
		g_nontrivial = true;
		if (g_trace) note("    * fault %s", fault_names[f]);
	}
	void probe(char const *name) {
		for (auto &p : slot->probes) {
			if (p.name[0] == 0) safecpy(p.name, sizeof p.name, name);
			if (strncmp(p.name, name, sizeof p.name - 1) == 0) {
				p.n++;
				return;
			}
		}
	}
	void nontrivial() { g_nontrivial = true; }
	void add_steps(uint64_t n) { slot->steps += n; }
	void add_simtime(uint64_t n) { slot->simtime += n; }
	void add_evals(uint64_t n) { slot->evals += n; }
	void crash_note(char const *s) { safecpy(slot->msg, sizeof slot->msg, s); }

	void violation(char const *cls, char const *fmt, ...) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
		va_end(ap);
		if (g_trace) note("!! VIOLATION %s: %s", cls, slot->msg);
		finish_violation(cls);
	}

	namespace {
		void on_signal(int sig) {
			// stay async-signal-safe: the parent reads stderr for assertion texts
			char const *c = sig == SIGPROF ? "hang" : sig == SIGABRT ? "abort"
			                : sig == SIGSEGV ? "segv"
			                : sig == SIGBUS  ? "segv"
			                : sig == SIGFPE  ? "fpe"
			                                 : "signal";
			if (slot->msg[0] == 0) safecpy(slot->msg, sizeof slot->msg, c);
			if (g_trace) flush_trace();
			finish_violation(c);
		}
		[[noreturn]] void on_terminate() {
			char const *what = "no active exception";
			if (auto p = std::current_exception()) {
				try {
					std::rethrow_exception(p);
				} catch (std::exception const &e) {
					what = e.what();
				} catch (...) {
					what = "non-std exception";
				}
			}
			violation("terminate", "std::terminate called: %s", what);
		}

		void child_setup(int errfd) {
			if (errfd >= 0) {
				::dup2(errfd, 2);
			}
			static char altstack[1 << 16];
			stack_t ss{};
			ss.ss_sp = altstack;
			ss.ss_size = sizeof altstack;
			sigaltstack(&ss, nullptr);
			struct sigaction sa {};
			sa.sa_handler = on_signal;
			sa.sa_flags = SA_ONSTACK;
			sigemptyset(&sa.sa_mask);
			for (int s : {SIGABRT, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
#ifndef __SANITIZE_ADDRESS__
			for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, nullptr);
#endif
			std::set_terminate(on_terminate);
		}
		void arm() {
			itimerval it{};
			it.it_value.tv_sec = 10;
			setitimer(ITIMER_PROF, &it, nullptr);
		}

		void one_run(uint64_t idx) {
			for (int s = 0; s < NSTREAM; ++s) {
				slot->len[s] = 0;
				g_pos[s] = 0;
				g_rng[s] = mix(mix(g_seed) ^ mix(fnv(g_prop.c_str()) + fnv(g_h.name)) ^ mix(idx * 4 + (uint64_t) s + 77));
			}
			g_hash = 0x1234;
			g_nontrivial = false;
			slot->run_idx = idx;
			slot->msg[0] = 0;
			slot->run_started++;
			arm();
			uint32_t tot = 0;
			for (auto &s : g_h.scenarios) tot += s.weight;
			uint64_t r = policy_rnd(W) % tot;
			uint32_t k = 0;
			for (; k < g_h.scenarios.size(); ++k) {
				if (r < g_h.scenarios[k].weight) break;
				r -= g_h.scenarios[k].weight;
			}
			k = record(W, (uint32_t) g_h.scenarios.size(), k);
			log("scenario", k);
			if (tracing()) note("scenario %s", g_h.scenarios[k].name);
			if (flavour_before) flavour_before();
			g_h.scenarios[k].fn();
			if (flavour_after) flavour_after();
			slot->runs_done++;
			slot->loghash = g_hash;
			if (g_hashes && !g_replay && idx < g_runs) g_hashes[idx] = (g_hash & ~1ull) | (g_nontrivial ? 1 : 0) | (g_hash < 2 ? 2 : 0);
		}

		struct Result {
			bool viol = false;
			std::string cls, msg;
			uint64_t run = 0;
			uint64_t loghash = 0;
			Str3 str;
			uint64_t runs_done = 0;
		};

		std::string read_tail(int fd) {
			off_t n = lseek(fd, 0, SEEK_END);
			off_t from = n > 12000 ? n - 12000 : 0;
			std::string s((size_t) (n - from), 0);
			ssize_t r = pread(fd, s.data(), s.size(), from);
			s.resize(r > 0 ? (size_t) r : 0);
			return s;
		}

		// classify how a child ended
		void classify(Slot *sl, int status, int errfd, Result &res) {
			res.run = sl->run_idx;
			res.loghash = sl->loghash;
			for (int s = 0; s < NSTREAM; ++s) res.str.v[s].assign(sl->stream(s), sl->stream(s) + sl->len[s]);
			res.runs_done = sl->runs_done;
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
			res.viol = true;
			std::string err = read_tail(errfd);
			res.msg = sl->msg;
			if (sl->viol) res.cls = sl->cls;
			else if (WIFEXITED(status)) res.cls = "exit" + std::to_string(WEXITSTATUS(status));
			else res.cls = "killed" + std::to_string(WTERMSIG(status));
			auto grab = [&](char const *key) -> std::string {
				auto p = err.find(key);
				if (p == std::string::npos) return {};
				auto e = err.find('\n', p);
				return err.substr(p, e == std::string::npos ? std::string::npos : e - p);
			};
			std::string l;
			if (res.cls == "abort" || res.cls.starts_with("exit") || res.cls.starts_with("killed") || res.cls == "segv") {
				if (!(l = grab("ERROR: AddressSanitizer:")).empty()) {
					std::string k = l.substr(24);
					while (!k.empty() && k[0] == ' ') k.erase(0, 1);
					auto sp = k.find_first_of(" :");
					res.cls = "asan:" + k.substr(0, sp);
					// addresses differ from run to run
					res.msg = "AddressSanitizer: " + k.substr(0, k.find(" on address"));
				} else if (!(l = grab("runtime error:")).empty()) {
					res.cls = "ubsan";
					res.msg = l;
				} else if (!(l = grab("Assertion")).empty()) {
					res.cls = "assert";
					res.msg = l;
				} else if (!err.empty()) {
					res.msg += " stderr: " + err.substr(0, 300);
				}
			}
		}

		int mk_memfd() {
			int fd = memfd_create("simerr", MFD_CLOEXEC);
			if (fd < 0) {
				char t[] = "/tmp/simerrXXXXXX";
				fd = mkstemp(t);
				unlink(t);
			}
			return fd;
		}
		Slot *mk_slot() {
			void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) {
				perror("mmap");
				exit(2);
			}
			return (Slot *) p;
		}

		constexpr double wall_limit = 60; // a run takes milliseconds; only one that blocks for real gets here
		constexpr char const *stuck = "run made no progress for 60 s of wall time";
		int wait_child(pid_t pid, Slot *sl) {
			int st = 0;
			double t0 = now();
			bool killed = false;
			for (unsigned us = 20;; us = std::min(us * 2, 2000u)) {
				pid_t p = waitpid(pid, &st, WNOHANG);
				if (p == pid) return st;
				if (p < 0 && errno != EINTR) return st;
				if (!killed && now() - t0 > wall_limit) {
					sl->viol = 1;
					safecpy(sl->cls, sizeof sl->cls, "hang");
					safecpy(sl->msg, sizeof sl->msg, stuck);
					kill(pid, SIGKILL);
					killed = true;
				}
				usleep(us);
			}
		}
		// Runs one execution in a fresh child from given streams.
		Slot *aux_slot = nullptr;
		Result run_streams(Str3 const &in, int tracefd = -1) {
			if (!aux_slot) aux_slot = mk_slot();
			memset((void *) aux_slot, 0, offsetof(Slot, data));
			int errfd = mk_memfd();
			fflush(nullptr);
			pid_t pid = fork();
			if (pid == 0) {
				slot = aux_slot;
				child_setup(errfd);
				g_replay = true;
				g_in = &in;
				if (tracefd >= 0) {
					g_trace = true;
					g_tracefd = tracefd;
				}
				one_run(0);
				flush_trace();
				_exit(0);
			}
			int st = wait_child(pid, aux_slot);
			Result r;
			classify(aux_slot, st, errfd, r);
			close(errfd);
			return r;
		}
		// Runs [from, idx] by seed in a fresh child (used when a violation needs its batch prefix).
		Result run_prefix(uint64_t from, uint64_t to, int tracefd = -1) {
			if (!aux_slot) aux_slot = mk_slot();
			memset((void *) aux_slot, 0, offsetof(Slot, data));
			int errfd = mk_memfd();
			fflush(nullptr);
			pid_t pid = fork();
			if (pid == 0) {
				slot = aux_slot;
				child_setup(errfd);
				for (uint64_t i = from; i <= to; ++i) {
					if (i == to && tracefd >= 0) {
						g_trace = true;
						g_tracefd = tracefd;
						}
					one_run(i);
				}
				flush_trace();
				_exit(0);
			}
			int st = wait_child(pid, aux_slot);
			Result r;
			classify(aux_slot, st, errfd, r);
			close(errfd);
			return r;
		}

		struct Known {
			std::string line, cls, contains, what;
			uint64_t hits = 0;
		};
		std::vector<Known> knowns;
		void load_known(std::string const &path) {
			FILE *f = fopen(path.c_str(), "r");
			if (!f) return;
			char buf[4096];
			while (fgets(buf, sizeof buf, f)) {
				std::string l = buf;
				while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
				// known: property=<id> class=<cls> contains=<text> :: what fails
				if (!l.starts_with("known: property=" + g_prop + " ")) continue;
				auto field = [&](std::string const &k) {
					auto p = l.find(" " + k + "=\"");
					if (p == std::string::npos) return std::string{};
					p += k.size() + 3;
					return l.substr(p, l.find('"', p) - p);
				};
				Known kn;
				kn.line = l;
				kn.cls = field("class");
				kn.contains = field("contains");
				auto p = l.find(":: ");
				kn.what = p == std::string::npos ? l : l.substr(p + 3);
				knowns.push_back(kn);
			}
			fclose(f);
		}
		Known *match_known(Result const &r) {
			for (auto &k : knowns)
				if (k.cls == r.cls && !k.contains.empty() && r.msg.find(k.contains) != std::string::npos) return &k;
			return nullptr;
		}

		// ---- minimiser -------------------------------------------------
		Result minimise(Result best, int max_cand, double max_s) {
			double t0 = now();
			int cand = 0;
			auto budget = [&] { return cand < max_cand && now() - t0 < max_s; };
			auto attempt = [&](Str3 const &c) {
				++cand;
				Result r = run_streams(c);
				if (!r.viol || r.cls != best.cls) return false;
				// the recorded streams are the canonical form
				size_t a = 0, b = 0;
				for (int s = 0; s < NSTREAM; ++s) {
					a += c.v[s].size();
					b += best.str.v[s].size();
				}
				Str3 keep = c; // values actually needed
				for (int s = 0; s < NSTREAM; ++s) {
					if (keep.v[s].size() > r.str.v[s].size()) keep.v[s].resize(r.str.v[s].size());
					while (!keep.v[s].empty() && keep.v[s].back() == 0) keep.v[s].pop_back();
				}
				r.str = keep;
				best = r;
				return true;
			};
			for (int s = 0; s < NSTREAM; ++s)
				while (!best.str.v[s].empty() && best.str.v[s].back() == 0) best.str.v[s].pop_back();
			bool progress = true;
			int round = 0;
			while (progress && budget() && round++ < 6) {
				progress = false;
				for (int s : {(int) W, (int) F, (int) S}) {
					// truncate
					for (size_t keepn : {size_t(0), best.str.v[s].size() / 4, best.str.v[s].size() / 2, best.str.v[s].size() * 3 / 4}) {
						if (!budget() || keepn >= best.str.v[s].size()) break;
						Str3 c = best.str;
						c.v[s].resize(keepn);
						if (attempt(c)) { progress = true; break; }
					}
					// zero and delete chunks
					for (int mode = 0; mode < 2; ++mode) {
						for (size_t ch = std::max<size_t>(1, best.str.v[s].size() / 2); ch >= 1 && budget(); ch /= 2) {
							for (size_t i = 0; i < best.str.v[s].size() && budget();) {
								auto &v = best.str.v[s];
								size_t e = std::min(v.size(), i + ch);
								Str3 c = best.str;
								bool changed = false;
								if (mode == 0) {
									for (size_t j = i; j < e; ++j)
										if (c.v[s][j]) { c.v[s][j] = 0; changed = true; }
								} else {
									c.v[s].erase(c.v[s].begin() + (long) i, c.v[s].begin() + (long) e);
									changed = true;
								}
								if (changed && attempt(c)) {
									progress = true;
									if (mode == 0) i = e;
								} else i = e;
							}
							if (ch == 1) break;
						}
					}
					// reduce single values
					for (size_t i = 0; i < best.str.v[s].size() && budget(); ++i) {
						uint32_t v = best.str.v[s][i];
						for (uint32_t nv : {v / 2, v - 1}) {
							if (v == 0 || nv >= v || nv == 0) continue;
							Str3 c = best.str;
							c.v[s][i] = nv;
							if (attempt(c)) { progress = true; break; }
						}
					}
				}
			}
			fprintf(stderr, "minimiser: %d candidates, %.1fs\n", cand, now() - t0);
			return best;
		}

		std::string slurp_fd(int fd, size_t maxn) {
			off_t n = lseek(fd, 0, SEEK_END);
			std::string s((size_t) n, 0);
			ssize_t r = pread(fd, s.data(), s.size(), 0);
			s.resize(r > 0 ? (size_t) r : 0);
			if (s.size() > maxn) s = s.substr(0, maxn / 2) + "\n... (" + std::to_string(s.size() - maxn) + " bytes cut) ...\n" + s.substr(s.size() - maxn / 2);
			return s;
		}

		std::string rle(std::vector<uint32_t> const &v) {
			std::string o;
			for (size_t i = 0; i < v.size();) {
				size_t j = i;
				while (j < v.size() && v[j] == v[i]) ++j;
				o += std::to_string(v[i]);
				if (j - i > 1) o += "x" + std::to_string(j - i);
				o += ' ';
				i = j;
			}
			return o;
		}
		std::vector<uint32_t> unrle(char const *p) {
			std::vector<uint32_t> v;
			while (*p) {
				while (*p == ' ') ++p;
				if (*p < '0' || *p > '9') break;
				char *e;
				uint32_t val = (uint32_t) strtoul(p, &e, 10);
				size_t n = 1;
				if (*e == 'x') n = strtoul(e + 1, &e, 10);
				v.insert(v.end(), n, val);
				p = e;
			}
			return v;
		}

		bool write_replay(std::string const &path, Result const &r, bool prefix, uint64_t from, std::string const &trace) {
			FILE *f = fopen(path.c_str(), "w");
			if (!f) return false;
			fprintf(f, "sim-replay 1\nproperty %s\nharness %s\nseed %llu\nrun %llu\nclass %s\nmessage %s\nloghash %016llx\n", g_prop.c_str(), g_h.name,
			        (unsigned long long) g_seed, (unsigned long long) r.run, r.cls.c_str(), [&] { static std::string m; m = r.msg; for (auto &c : m) if (c == '\n') c = ' '; return m.c_str(); }(),
			        (unsigned long long) r.loghash);
			fprintf(f, "kind %s\n", prefix ? "prefix" : "streams");
			if (prefix) fprintf(f, "from %llu\n", (unsigned long long) from);
			static char const *nm[] = {"W", "S", "F"};
			for (int s = 0; s < NSTREAM; ++s) fprintf(f, "%s %s\n", nm[s], rle(r.str.v[s]).c_str());
			fprintf(f, "trace\n%s\n", trace.c_str());
			fclose(f);
			return true;
		}

		std::string json_escape(std::string const &s) {
			std::string o;
			for (unsigned char c : s) {
				if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
				else if (c == '\n') o += "\\n";
				else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
				else o += (char) c;
			}
			return o;
		}
	} // namespace

	static int cmd_replay(char const *path) {
		FILE *f = fopen(path, "r");
		if (!f) {
			perror(path);
			return 2;
		}
		static char buf[1 << 24];
		Str3 st;
		std::string cls, kind = "streams";
		uint64_t run = 0, from = 0, lh = 0;
		while (fgets(buf, sizeof buf, f)) {
			size_t n = strlen(buf);
			if (n && buf[n - 1] == '\n') buf[n - 1] = 0;
			auto is = [&](char const *k) { return strncmp(buf, k, strlen(k)) == 0 && buf[strlen(k)] == ' '; };
			if (is("property")) g_prop = buf + 9;
			else if (is("seed")) g_seed = strtoull(buf + 5, nullptr, 10);
			else if (is("run")) run = strtoull(buf + 4, nullptr, 10);
			else if (is("from")) from = strtoull(buf + 5, nullptr, 10);
			else if (is("class")) cls = buf + 6;
			else if (is("kind")) kind = buf + 5;
			else if (is("loghash")) lh = strtoull(buf + 8, nullptr, 16);
			else if (is("W")) st.v[0] = unrle(buf + 2);
			else if (is("S")) st.v[1] = unrle(buf + 2);
			else if (is("F")) st.v[2] = unrle(buf + 2);
			else if (strcmp(buf, "trace") == 0) break;
		}
		fclose(f);
		g_h = make_harness(g_prop);
		int tfd = mk_memfd();
		Result r = kind == "prefix" ? run_prefix(from, run, tfd) : run_streams(st, tfd);
		printf("%s", slurp_fd(tfd, 40000).c_str());
		if (!r.viol) {
			printf("replay: no violation (recorded class %s)\n", cls.c_str());
			return 3;
		}
		printf("replay: class=%s message=%s loghash=%016llx %s\n", r.cls.c_str(), r.msg.c_str(), (unsigned long long) r.loghash,
		       r.cls == cls && r.loghash == lh ? "EXACT" : r.cls == cls ? "SAME-CLASS" : "DIFFERENT");
		return r.cls == cls && r.loghash == lh ? 1 : 4;
	}

	static int cmd_run(std::string const &out, std::string const &replaydir, int workers, uint64_t det_sample) {
		double t0 = now();
		g_h = make_harness(g_prop);
		g_hashes = (uint64_t *) mmap(nullptr, (g_runs + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		struct Worker {
			Slot *sl;
			int errfd;
			pid_t pid = 0;
			uint64_t from = 0, to = 0;
			uint64_t last_started = 0;
			double last_t = 0;
		};
		std::vector<Worker> ws((size_t) workers);
		for (auto &w : ws) {
			w.sl = mk_slot();
			w.errfd = mk_memfd();
		}
		uint64_t tot_runs = 0, steps = 0, simtime = 0, evals = 0, faults[NFAULT] = {};
		std::map<std::string, uint64_t> probes;
		std::vector<std::pair<uint64_t, uint64_t>> todo; // [from,to) stack
		for (uint64_t b = 0; b < g_runs; b += g_h.batch) todo.emplace_back(b, std::min<uint64_t>(g_runs, b + g_h.batch));
		std::reverse(todo.begin(), todo.end());
		bool have = false;
		Result best;
		uint64_t best_from = 0;
		int running = 0;
		auto launch = [&](Worker &w, uint64_t from, uint64_t to) {
			memset((void *) w.sl, 0, offsetof(Slot, data));
			if (ftruncate(w.errfd, 0)) {}
			lseek(w.errfd, 0, SEEK_SET);
			w.from = from;
			w.to = to;
			w.last_started = 0;
			w.last_t = now();
			fflush(nullptr);
			w.pid = fork();
			if (w.pid < 0) {
				perror("fork");
				exit(2);
			}
			if (w.pid == 0) {
				slot = w.sl;
				child_setup(w.errfd);
				for (uint64_t i = from; i < to; ++i) one_run(i);
				_exit(0);
			}
			++running;
		};
		std::set<uint64_t> known_runs;
		for (;;) {
			for (auto &w : ws) {
				if (w.pid || todo.empty()) continue;
				auto [a, b] = todo.back();
				if (have && a > best.run) {
					todo.clear();
					continue;
				}
				todo.pop_back();
				launch(w, a, b);
			}
			if (!running) break;
			int st;
			pid_t p = waitpid(-1, &st, WNOHANG);
			if (p == 0) {
				usleep(500);
				for (auto &w : ws)
					if (w.pid) {
						if (w.sl->run_started != w.last_started) {
							w.last_started = w.sl->run_started;
							w.last_t = now();
						} else if (now() - w.last_t > wall_limit) {
							w.sl->viol = 1;
							safecpy(w.sl->cls, sizeof w.sl->cls, "hang");
							safecpy(w.sl->msg, sizeof w.sl->msg, stuck);
							kill(w.pid, SIGKILL);
						}
					}
				continue;
			}
			if (p < 0) {
				if (errno == EINTR) continue;
				break;
			}
			for (auto &w : ws) {
				if (w.pid != p) continue;
				w.pid = 0;
				--running;
				Result r;
				classify(w.sl, st, w.errfd, r);
				tot_runs += w.sl->runs_done + (r.viol ? 1 : 0);
				steps += w.sl->steps;
				simtime += w.sl->simtime;
				evals += w.sl->evals;
				for (int i = 0; i < NFAULT; ++i) faults[i] += w.sl->faults[i];
				for (auto &pr : w.sl->probes)
					if (pr.name[0]) probes[pr.name] += pr.n;
				if (r.viol) {
					if (Known *k = match_known(r)) {
						k->hits++;
						if (r.run + 1 < w.to) todo.emplace_back(r.run + 1, w.to);
					} else if (!have || r.run < best.run) {
						have = true;
						best = r;
						best_from = w.from;
					}
				}
			}
		}
		double t_search = now() - t0;
		// determinism self test on a sample, in fresh processes and different batch positions
		uint64_t det_checked = 0, det_bad = 0, det_bad_run = 0;
		if (!have && knowns.empty()) {
			uint64_t stride = det_sample ? std::max<uint64_t>(1, g_runs / det_sample) : 0;
			if (stride) {
				// several runs per fresh process, at another batch alignment
				std::vector<uint64_t> idxs;
				for (uint64_t i = 0; i < g_runs; i += stride) idxs.push_back(i);
				size_t per = 8;
				uint64_t *h2 = (uint64_t *) mmap(nullptr, (idxs.size() + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				int act = 0;
				for (size_t i = 0; i < idxs.size(); i += per) {
					fflush(nullptr);
					if (act >= std::max(1, workers / 2)) {
						wait(nullptr);
						--act;
					}
					pid_t pid = fork();
					if (pid == 0) {
						slot = mk_slot();
						child_setup(mk_memfd());
						g_hashes = nullptr;
						for (size_t j = i; j < std::min(idxs.size(), i + per); ++j) {
							one_run(idxs[j]);
							h2[j] = (slot->loghash & ~1ull) | (g_nontrivial ? 1 : 0) | (slot->loghash < 2 ? 2 : 0);
						}
						_exit(0);
					}
					++act;
				}
				while (act-- > 0) wait(nullptr);
				for (size_t j = 0; j < idxs.size(); ++j) {
					++det_checked;
					if (h2[j] != g_hashes[idxs[j]]) {
						if (!det_bad) det_bad_run = idxs[j];
						++det_bad;
					}
				}
			}
		}
		std::string replay_path;
		int rc = 0;
		std::string gate = "none";
		if (have) {
			// gate 1: the single run reproduces from its streams, twice, identically
			Result a = run_streams(best.str), b = run_streams(best.str);
			bool prefix = false;
			uint64_t orig_run = best.run;
			Result fin;
			if (a.viol && b.viol && a.cls == b.cls && a.loghash == b.loghash) {
				gate = "streams";
				a.str = best.str;
				std::string c0 = a.cls;
				fin = minimise(a, thorough() ? 6000 : 2500, thorough() ? 120 : 40);
				Result v1 = run_streams(fin.str), v2 = run_streams(fin.str);
				if (!(v1.viol && v2.viol && v1.cls == v2.cls && v1.loghash == v2.loghash && v1.cls == c0)) {
					fin = a;
					v1 = a;
				}
				fin.loghash = v1.loghash;
				fin.cls = v1.cls;
				fin.msg = v1.msg;
			} else {
				a = run_prefix(best_from, best.run);
				b = run_prefix(best_from, best.run);
				if (a.viol && b.viol && a.cls == b.cls && a.run == b.run) {
					gate = "prefix";
					prefix = true;
					fin = a;
				} else {
					fprintf(stderr, "ERROR: violation class=%s msg=%s run=%llu did not reproduce (a: %d %s %s, b: %d %s)\n", best.cls.c_str(), best.msg.c_str(),
					        (unsigned long long) best.run, a.viol, a.cls.c_str(), a.msg.c_str(), b.viol, b.cls.c_str());
					return 2;
				}
			}
			if (!prefix) fin.run = orig_run;
			int tfd = mk_memfd();
			if (prefix) run_prefix(best_from, fin.run, tfd);
			else run_streams(fin.str, tfd);
			std::string trace = slurp_fd(tfd, 30000);
			replay_path = replaydir + "/" + g_prop + "-" + g_h.name + "-" + std::to_string(g_seed) + ".replay";
			if (!write_replay(replay_path, fin, prefix, best_from, trace)) {
				perror(replay_path.c_str());
				return 2;
			}
			printf("violation: class=%s message=%s\n", fin.cls.c_str(), fin.msg.c_str());
			printf("minimised trace:\n%s\n", trace.substr(0, 6000).c_str());
			best = fin;
			rc = 1;
		}
		// distinct runs
		std::set<uint64_t> ds;
		uint64_t nontriv = 0;
		for (uint64_t i = 0; i < g_runs; ++i)
			if (g_hashes[i]) {
				if (g_hashes[i] & 1) {
					++nontriv;
					ds.insert(g_hashes[i]);
				}
			}
		// sample traces
		std::vector<std::string> samples;
		if (!have) {
			int want = 2;
			for (uint64_t i = 0; i < std::min<uint64_t>(g_runs, 4000) && want; ++i)
				if (g_hashes[i] & 1) {
					int tfd = mk_memfd();
					run_prefix(i, i, tfd);
					samples.push_back("run " + std::to_string(i) + ": " + slurp_fd(tfd, 2400));
					close(tfd);
					--want;
				}
		} else samples.push_back("violation: " + best.cls + ": " + best.msg);
		double wall = now() - t0;
		FILE *f = fopen(out.c_str(), "w");
		if (!f) {
			perror(out.c_str());
			return 2;
		}
		fprintf(f, "{\"harness\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"simtime_ns\":%llu,\"oracle_evals\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,", g_h.name,
		        (unsigned long long) tot_runs, (unsigned long long) steps, (unsigned long long) simtime, (unsigned long long) evals, (unsigned long long) nontriv,
		        (unsigned long long) ds.size());
		fprintf(f, "\"wall_s\":%.3f,\"search_s\":%.3f,\"runs_per_hour\":%.0f,\"workers\":%d,\"det_checked\":%llu,\"det_mismatch\":%llu,", wall, t_search,
		        t_search > 0 ? (double) tot_runs / t_search * 3600 : 0.0, workers, (unsigned long long) det_checked, (unsigned long long) det_bad);
		fprintf(f, "\"faults\":{");
		bool first = true;
		for (int i = 0; i < NFAULT; ++i)
			if (faults[i]) {
				fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long) faults[i]);
				first = false;
			}
		fprintf(f, "},\"probes\":{");
		first = true;
		for (auto &[k, v] : probes) {
			fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(k).c_str(), (unsigned long long) v);
			first = false;
		}
		fprintf(f, "},\"known\":[");
		first = true;
		for (auto &k : knowns)
			if (k.hits) {
				fprintf(f, "%s{\"what\":\"%s\",\"hits\":%llu}", first ? "" : ",", json_escape(k.what).c_str(), (unsigned long long) k.hits);
				first = false;
			}
		fprintf(f, "],\"samples\":[");
		first = true;
		for (auto &s : samples) {
			fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
			first = false;
		}
		fprintf(f, "],\"violation\":%s", have ? "{" : "null");
		if (have) fprintf(f, "\"class\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",\"gate\":\"%s\"}", json_escape(best.cls).c_str(), json_escape(best.msg).c_str(), json_escape(replay_path).c_str(), gate.c_str());
		fprintf(f, "}\n");
		fclose(f);
		for (auto &k : knowns)
			if (k.hits) printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), k.what.c_str());
		if (det_bad) {
			fprintf(stderr, "ERROR: determinism self test: %llu of %llu runs differ, first run %llu\n", (unsigned long long) det_bad, (unsigned long long) det_checked,
			        (unsigned long long) det_bad_run);
			// tolerate nothing: a check that cannot replay is an error
			return 2;
		}
		return rc;
	}

	static int sim_main(int argc, char **argv) {
		std::string out = "/dev/null", rdir = ".", known;
		int workers = 8;
		uint64_t det = 64;
		std::string cmd = argc > 1 ? argv[1] : "";
		if (cmd == "replay" && argc > 2) return cmd_replay(argv[2]);
		uint64_t one = 0;
		for (int i = 2; i + 1 < argc; i += 2) {
			std::string k = argv[i];
			char const *v = argv[i + 1];
			if (k == "--prop") g_prop = v;
			else if (k == "--seed") g_seed = strtoull(v, nullptr, 10);
			else if (k == "--runs") g_runs = strtoull(v, nullptr, 10);
			else if (k == "--run") one = strtoull(v, nullptr, 10);
			else if (k == "--out") out = v;
			else if (k == "--replaydir") rdir = v;
			else if (k == "--known") known = v;
			else if (k == "--workers") workers = atoi(v);
			else if (k == "--det") det = strtoull(v, nullptr, 10);
			else if (k == "--tier") g_thorough = std::string(v) == "thorough";
			else {
				fprintf(stderr, "unknown option %s\n", k.c_str());
				return 2;
			}
		}
		if (cmd == "run") {
			if (!known.empty()) load_known(known);
			return cmd_run(out, rdir, workers, det);
		}
		if (cmd == "trace") {
			g_h = make_harness(g_prop);
			Result r = run_prefix(one, one, 1);
			if (r.viol) printf("class=%s msg=%s\n", r.cls.c_str(), r.msg.c_str());
			return r.viol ? 1 : 0;
		}
		fprintf(stderr, "usage: %s run --prop P --seed N --runs K --out F --replaydir D --known F | replay FILE | trace --prop P --run I\n", argv[0]);
		return 2;
	}
} // namespace sim

int main(int argc, char **argv) {
	if (sim::want_no_aslr) {
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
			setenv("SIM_NOASLR_TRIED", "1", 1);
			if (personality((unsigned long) p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
		}
	}
	return sim::sim_main(argc, argv);
}
