// C21/C22: DICE_SANDBOX. Sub processes are real, what happens in them and to the system calls around them is scripted:
// the plan of a run (how each piece of sandboxed code ends, which system calls fail, what is written where) is drawn
// up front, so both sides of every fork follow the same script.
#include "../sim/payload.hpp"
#include <dice/template-library/sandbox.hpp>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <iostream>
#include <memory>
#include <optional>
#include <streambuf>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// what DICE_SANDBOX applies to the code, if it is still called that
namespace dice {
	struct SandBox {
		static constexpr bool fallback = true;
	};
}
namespace dice::template_library::detail_sandbox::verif {
	using Box = SandBox;
}
namespace {
	template<typename F, typename B = dice::template_library::detail_sandbox::verif::Box> auto in_box(F &&f) {
		if constexpr (requires { B::fallback; }) return DICE_SANDBOX { f(); };
		else return B{} + std::move(f);
	}
}

extern "C" pid_t __real_waitpid(pid_t, int *, int);
extern "C" pid_t __real_wait4(pid_t, int *, int, rusage *);
extern "C" int __real_waitid(idtype_t, id_t, siginfo_t *, int);
using namespace sim;
namespace dtl = dice::template_library;
using Res = dtl::SubProcessResult;

namespace {
	enum End { ReturnVoid, ReturnInt, ThrowStd, ThrowInt, ThrowDeep, Abort, Raise, RealSegv, RealIll, RealFpe, UserExit, StopCont, NENDS };
	enum { COUT, CERR, FIL, LOG, WOUT, WERR, WLOG, NCH };
	struct Act {
		int kind; // 0 write, 1 flush, 2 nested sandbox, 3 change memory
		int ch = 0;
		int arg = 0;
	};
	struct Plan {
		int id = 0;
		End end = ReturnVoid;
		int code = 0, sig = 0;
		int fork_errno = 0, wait_errno = 0, eintr = 0;
		bool chld_ignored = false, core = false;
		int flush_fail = 0; // 1 flushing before the fork fails, 2 flushing at the end of the code fails
		bool sink_throws = false;
		std::vector<Act> acts;
		std::vector<Plan> sub;
	};
	// memory all processes share
	struct Shared {
		volatile int viol;
		char cls[64], msg[300];
		int runs_of[64];   // how often the code of plan i ran
		pid_t ran_in[64];  // and where
		int forks_of[64], reaped;
		int escaped;
		int exit_handlers;
		size_t len[NCH];
		char text[NCH][8192];
		int pos_fail[2];
	};
	Shared *sh;
	pid_t top;
	bool active = false;
	Plan const *cur = nullptr; // sandbox call in progress
	bool flush_fails_now = false, sink_throws_now = false;
	int eintr_left = 0;

	void bad(char const *cls, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
	void bad(char const *cls, char const *fmt, ...) {
		if (!sh->viol) {
			va_list ap;
			va_start(ap, fmt);
			vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
			va_end(ap);
			snprintf(sh->cls, sizeof sh->cls, "%s", cls);
			sh->viol = 1;
		}
		if (getpid() != top) _exit(77);
		violation(sh->cls, "%s", sh->msg);
	}
	void append(int ch, char const *p, size_t n) {
		if (sh->len[ch] + n > sizeof sh->text[ch]) return;
		memcpy(sh->text[ch] + sh->len[ch], p, n);
		sh->len[ch] += n;
	}
	// a buffering sink like the one of a real stream, every process has its own buffer
	struct Buf : std::streambuf {
		int ch;
		std::string pend;
		explicit Buf(int c) : ch(c) {}
		int_type overflow(int_type c) override {
			if (c != traits_type::eof()) pend.push_back((char) c);
			return c;
		}
		std::streamsize xsputn(char const *s, std::streamsize n) override {
			pend.append(s, (size_t) n);
			return n;
		}
		int sync() override {
			if (flush_fails_now && ch == COUT) {
				flush_fails_now = false;
				pend.clear();
				fired(FSink);
				if (sink_throws_now) throw Boom("sink");
				return -1;
			}
			append(ch, pend.data(), pend.size());
			pend.clear();
			return 0;
		}
	};
	struct WBuf : std::wstreambuf {
		int ch;
		std::string pend;
		explicit WBuf(int c) : ch(c) {}
		int_type overflow(int_type c) override {
			if (c != traits_type::eof()) pend.push_back((char) c);
			return c;
		}
		std::streamsize xsputn(wchar_t const *s, std::streamsize n) override {
			for (std::streamsize i = 0; i < n; ++i) pend.push_back((char) s[i]);
			return n;
		}
		int sync() override {
			append(ch, pend.data(), pend.size());
			pend.clear();
			return 0;
		}
	};
	ssize_t cookie_write(void *, char const *p, size_t n) {
		append(FIL, p, n);
		return (ssize_t) n;
	}
	FILE *file;

	// expected state
	struct World {
		std::string pend[NCH];
		std::string out[NCH];
		void flush(int c) {
			out[c] += pend[c];
			pend[c].clear();
		}
		// which of them are flushed before one of them fails with an exception is not specified
		void flush_others() {
			for (int c = 0; c < NCH; ++c)
				if (c != COUT) flush(c);
		}
	};
	struct Outcome {
		bool threw = false;
		int err = 0; // 0: any
		bool sink_error = false;
		Res res = Res::ExitSuccess;
	};

	int next_id;
	std::string word(int id, int k) { return "<" + std::to_string(id) + ":" + std::to_string(k) + ">"; }
	Plan gen(int depth) {
		Plan p;
		p.id = next_id++;
		static int const sigs[] = {SIGINT, SIGILL, SIGABRT, SIGFPE, SIGSEGV, SIGTERM, SIGKILL, SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE, SIGALRM, SIGBUS, SIGSYS, SIGTRAP, SIGXCPU, SIGVTALRM, SIGIO, 34, 37, 64,
		                           SIGCHLD, SIGURG, SIGWINCH, SIGCONT};
		p.end = (End) pick(W, {3, 4, 2, 1, 1, 2, 6, 1, 1, 1, 1, 1});
		static int const codes[] = {0, 1, 42, 127, 128, 139, 255, -1, 257};
		p.code = codes[choose(W, 9)];
		p.sig = sigs[choose(W, sizeof sigs / sizeof *sigs)];
		if (chance(F, 1, 10)) p.fork_errno = choose(F, 2) ? ENOMEM : EAGAIN;
		p.core = chance(F, 1, 2);
		if (chance(F, 1, 4)) p.eintr = (int[]) {1, 2, 7, 60}[choose(F, 4)];
		if (chance(F, 1, 14)) p.wait_errno = choose(F, 2) ? ECHILD : EINVAL;
		else if (chance(F, 1, 14)) p.chld_ignored = true;
		if (chance(F, 1, 8)) {
			p.flush_fail = 1 + (int) choose(F, 2);
			p.sink_throws = choose(F, 2);
		}
		uint32_t n = choose(W, 6);
		for (uint32_t i = 0; i < n; ++i) {
			Act a{};
			a.kind = (int) pick(W, {5, 2, depth > 0 && next_id < 12 ? 2u : 0u, 1});
			a.ch = (int) pick(W, {3, 3, 3, 1, 2, 1, 1});
			if (a.kind == 2) {
				a.arg = (int) p.sub.size();
				p.sub.push_back(gen(depth - 1));
			} else a.arg = (int) i;
			p.acts.push_back(a);
		}
		return p;
	}
	void show(Plan const &p, int d) {
		note("%*splan %d end %d code %d sig %d fork_errno %d wait_errno %d eintr %d chld_ignored %d flush_fail %d throws %d", d * 2, "", p.id, p.end, p.code, p.sig, p.fork_errno, p.wait_errno, p.eintr, p.chld_ignored, p.flush_fail,
		     p.sink_throws);
		for (auto const &a : p.acts) {
			note("%*s  %s %s", d * 2, "", a.kind == 0 ? "write to" : a.kind == 1 ? "flush" : a.kind == 2 ? "sandbox" : "change memory", a.kind < 2 ? (char const *[]) {"cout", "cerr", "file", "clog", "wcout", "wcerr", "wclog"}[a.ch] : "");
			if (a.kind == 2) show(p.sub[(size_t) a.arg], d + 1);
		}
	}
	bool ignored_by_default(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }

	// model: the code of a plan runs in its own world (fork copies the pending text)
	Outcome model_call(World &w, Plan const &p, int *ran, bool exceptions_on);
	// returns the raw way the process ended
	struct Ended {
		bool signalled;
		int v;
	};
	Ended model_code(World &w, Plan const &p, int *ran) {
		bool eon = p.sink_throws;
		for (auto const &a : p.acts) {
			if (a.kind == 0) w.pend[a.ch] += word(p.id, a.arg);
			else if (a.kind == 1) w.flush(a.ch);
			else if (a.kind == 2) (void) model_call(w, p.sub[(size_t) a.arg], ran, eon);
		}
		Ended e{};
		switch (p.end) {
		case ReturnVoid: case StopCont: break;
		case ReturnInt: e.v = p.code & 0xff; break;
		case ThrowStd: case ThrowInt: case ThrowDeep: case Abort: return {true, SIGABRT};
		case Raise:
			if (!ignored_by_default(p.sig)) return {true, p.sig};
			break;
		case RealSegv: return {true, SIGSEGV};
		case RealIll: return {true, SIGILL};
		case RealFpe: return {true, SIGFPE};
		case UserExit: return {false, p.code & 0xff};
		case NENDS: break;
		}
		// normal end: everything is flushed
		if (p.flush_fail == 2) {
			if (p.sink_throws) w.flush_others();
			w.pend[COUT].clear();
			if (p.sink_throws) return {true, SIGABRT};
		}
		for (int c = 0; c < NCH; ++c) w.flush(c);
		return e;
	}
	Outcome model_call(World &w, Plan const &p, int *ran, bool) {
		Outcome o;
		if (p.flush_fail == 1) {
			if (p.sink_throws) w.flush_others();
			w.pend[COUT].clear();
			if (p.sink_throws) {
				o.threw = o.sink_error = true;
				return o;
			}
		}
		for (int c = 0; c < NCH; ++c) w.flush(c);
		if (p.fork_errno) {
			o.threw = true;
			o.err = p.fork_errno;
			return o;
		}
		World child = w;
		ran[p.id]++;
		Ended e = model_code(child, p, ran);
		for (int c = 0; c < NCH; ++c) w.out[c] = child.out[c]; // what reached the outside stays
		if (p.wait_errno || p.chld_ignored) {
			o.threw = true;
			o.err = p.wait_errno ? p.wait_errno : ECHILD;
			return o;
		}
		o.res = e.signalled ? (Res) e.v : e.v ? Res::ExitFailure : Res::ExitSuccess;
		return o;
	}

	// ---- the real thing ---------------------------------------------------
	void write_to(int ch, std::string const &s) {
		NoInstr g;
		std::wstring ws(s.begin(), s.end());
		switch (ch) {
		case COUT: std::cout << s; break;
		case CERR: std::cerr << s; break;
		case LOG: std::clog << s; break;
		case WOUT: std::wcout << ws; break;
		case WERR: std::wcerr << ws; break;
		case WLOG: std::wclog << ws; break;
		default: fwrite(s.data(), 1, s.size(), file);
		}
	}
	void flush_ch(int ch) {
		NoInstr g;
		switch (ch) {
		case COUT: std::cout.flush(); break;
		case CERR: std::cerr.flush(); break;
		case LOG: std::clog.flush(); break;
		case WOUT: std::wcout.flush(); break;
		case WERR: std::wcerr.flush(); break;
		case WLOG: std::wclog.flush(); break;
		default: fflush(file);
		}
	}
	void flush_others() {
		for (int c = 0; c < NCH; ++c)
			if (c != COUT) flush_ch(c);
	}
	int memory_word = 0;
	volatile int zero = 0;
	struct Canary { // its destructor must run in the process that created it only
		pid_t owner = getpid();
		~Canary() {
			if (getpid() != owner) bad("isolation", "the destructor of an object of the parent ran in the sub process");
		}
	};
	Outcome call(Plan const &p);
	struct Func { // the sandboxed code
		Plan const *p;
		static void go(Plan const &p) {
			alarm(20); // only a hang gets this far
			flush_fails_now = false;
			std::cout.exceptions(std::ios_base::goodbit);
			std::cout.clear();
			if (getpid() == top) bad("isolation", "the sandboxed code ran in the calling process");
			sh->runs_of[p.id]++;
			sh->ran_in[p.id] = getpid();
			int mine = memory_word = p.id * 1000;
			for (auto const &a : p.acts) {
				if (a.kind == 0) write_to(a.ch, word(p.id, a.arg));
				else if (a.kind == 1) flush_ch(a.ch);
				else if (a.kind == 2) {
					(void) call(p.sub[(size_t) a.arg]);
					if (memory_word != mine) bad("isolation", "memory changed by a nested sandbox is visible outside of it");
				} else mine = ++memory_word;
			}
			cur = nullptr;
			switch (p.end) {
			case ThrowStd: throw std::runtime_error{"sandboxed"};
			case ThrowInt: throw 42;
			case ThrowDeep:
				try {
					throw Boom("first");
				} catch (...) {
					throw;
				}
			case Abort: abort();
			case Raise:
				fired(FSignal);
				raise(p.sig);
				break;
			case RealSegv: {
				void *m = mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				*(volatile int *) m = 1;
				break;
			}
			case RealIll: asm volatile("ud2"); break;
			case RealFpe: {
				volatile int x = 1;
				asm volatile("idivl %0" : : "r"(0), "a"((int) x), "d"(0) : "cc");
				break;
			}
			case UserExit: _exit(p.code);
			case StopCont: raise(SIGSTOP); break;
			default: break;
			}
			if (p.flush_fail == 2) {
				if (p.sink_throws) flush_others();
				flush_fails_now = true;
				sink_throws_now = p.sink_throws;
				if (p.sink_throws) std::cout.exceptions(std::ios_base::badbit);
			}
		}
	};
	// state of the calling process that a sandbox call must not touch
	struct Self {
		struct sigaction sa[65];
		sigset_t mask;
		static Self now() {
			Self s;
			memset((void *) &s, 0, sizeof s);
			for (int i = 1; i < 65; ++i) (void) sigaction(i, nullptr, &s.sa[i]);
			sigprocmask(SIG_SETMASK, nullptr, &s.mask);
			return s;
		}
		void same_as(Self const &o) const {
			for (int i = 1; i < 65; ++i)
				if (sa[i].sa_handler != o.sa[i].sa_handler || sa[i].sa_flags != o.sa[i].sa_flags) bad("isolation", "the caller's handler of signal %d changed", i);
			for (int i = 1; i < 65; ++i)
				if (sigismember(&mask, i) != sigismember(&o.mask, i)) bad("isolation", "the caller's signal mask changed for signal %d", i);
		}
	};
	bool has_children() {
		siginfo_t si{};
		return __real_waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0;
	}
	Outcome call(Plan const &p) {
		Plan const *outer = cur;
		pid_t me = getpid();
		Outcome o;
		Self before = Self::now();
		bool kids = has_children();
		struct sigaction old_chld;
		if (p.chld_ignored) {
			struct sigaction ig {};
			ig.sa_handler = SIG_IGN;
			sigaction(SIGCHLD, &ig, &old_chld);
			before = Self::now();
		}
		int mem = memory_word;
		cur = &p;
		eintr_left = p.eintr;
		if (p.flush_fail == 1) {
			if (p.sink_throws) flush_others();
			flush_fails_now = true;
			sink_throws_now = p.sink_throws;
			if (p.sink_throws) std::cout.exceptions(std::ios_base::badbit);
		}
		{
			OpScope os;
			try {
				Canary c;
				Plan const *pp = &p;
				if (p.end == ReturnInt) {
					o.res = DICE_SANDBOX->int {
						Func::go(*pp);
						return pp->code;
					};
				} else if (p.id % 2) {
					o.res = DICE_SANDBOX { Func::go(*pp); };
				} else {
					// move-only code
					auto owned = std::make_unique<int>(5);
					auto f = [pp, owned = std::move(owned)]() {
						if (*owned != 5) bad("isolation", "state of the sandboxed code was lost");
						Func::go(*pp);
					};
					o.res = in_box(std::move(f));
				}
			} catch (std::system_error const &e) {
				if (dynamic_cast<std::ios_base::failure const *>(&e)) o.sink_error = true;
				o.threw = true;
				o.err = e.code().value();
			} catch (Boom const &) {
				o.threw = o.sink_error = true;
			} catch (...) {
				o.threw = true;
				o.err = -1;
			}
		}
		cur = nullptr;
		if (getpid() != me) {
			sh->escaped = 1;
			bad("isolation", "the sub process left the sandbox and continued as a second caller");
		}
		flush_fails_now = false;
		std::cout.exceptions(std::ios_base::goodbit);
		std::cout.clear();
		Self::now().same_as(before);
		if (p.chld_ignored) sigaction(SIGCHLD, &old_chld, nullptr);
		if (memory_word != mem) bad("isolation", "memory changed by the sandboxed code is visible to the caller");
		if (has_children() != kids) bad("isolation", kids ? "a child process that belongs to the caller was reaped" : "a sub process was left behind");
		cur = outer;
		return o;
	}
	void compare(Outcome const &o, Outcome const &m) {
		if (o.threw != m.threw) bad("result", o.threw ? "the call failed with error %d" : "the call reported a result although a system call failed with error %d", o.threw ? o.err : m.err);
		if (o.threw) {
			if (o.sink_error != m.sink_error || (!m.sink_error && o.err != m.err)) bad("result", "the call failed with error %d instead of %d", o.err, m.err);
		} else if (o.res != m.res) bad("result", "the result is %d instead of %d", (int) o.res, (int) m.res);
	}

	void leave_trace(int) {
		if (getpid() != top) _exit(3); // a handler of the caller that survived into the sub process
	}
	void at_exit_handler() {
		if (sh && getpid() != top) sh->exit_handlers++;
	}
	[[noreturn]] void on_term() { abort(); }

	void run() {
		if (!sh) {
			sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			atexit(at_exit_handler);
			at_quick_exit(at_exit_handler);
			rlimit rl{0, 0};
			setrlimit(RLIMIT_CORE, &rl);
		}
		memset((void *) sh, 0, sizeof *sh);
		top = getpid();
		elem_live = 0;
		next_id = 0;
		std::vector<Plan> plans;
		std::vector<Act> between;
		{
			NoInstr g;
			uint32_t n = 1 + choose(W, 3);
			for (uint32_t i = 0; i < n; ++i) {
				plans.push_back(gen(2));
				if (tracing()) show(plans.back(), 0);
				uint32_t m = choose(W, 4);
				for (uint32_t k = 0; k < m; ++k) between.push_back({(int) choose(W, 3) / 2, (int) pick(W, {3, 3, 3, 1, 2, 1, 1}), (int) (i * 10 + k)});
				between.push_back({9});
			}
		}
		// the caller's own signal setup
		struct sigaction saved[65];
		for (int i = 1; i < 65; ++i) sigaction(i, nullptr, &saved[i]);
		sigset_t saved_mask;
		sigprocmask(SIG_SETMASK, nullptr, &saved_mask);
		uint32_t setup = choose(W, 4);
		if (setup) {
			sigset_t block;
			sigemptyset(&block);
			for (int s = 1; s < 65; ++s) {
				if (s == SIGKILL || s == SIGSTOP || s == SIGPROF || s == SIGCHLD || s == SIGCONT) continue;
				uint32_t how = pick(W, {4, 1, 1, 1});
				if (how == 1 || how == 2) {
					struct sigaction sa {};
					if (how == 1) sa.sa_handler = leave_trace;
					else sa.sa_handler = SIG_IGN;
					sigaction(s, &sa, nullptr);
				} else if (how == 3) sigaddset(&block, s);
			}
			sigprocmask(SIG_BLOCK, &block, nullptr);
		}
		// a child process of the caller that has nothing to do with the sandbox
		pid_t other = 0;
		if (chance(W, 1, 3)) {
			active = false;
			other = fork();
			if (other == 0) _exit(9);
			siginfo_t si{};
			__real_waitid(P_PID, (id_t) other, &si, WEXITED | WNOWAIT);
		}
		Buf bc{COUT}, be{CERR}, bl{LOG};
		WBuf wo{WOUT}, we{WERR}, wl{WLOG};
		auto *oc = std::cout.rdbuf(&bc);
		auto *oe = std::cerr.rdbuf(&be);
		auto *ol = std::clog.rdbuf(&bl);
		auto *owo = std::wcout.rdbuf(&wo);
		auto *owe = std::wcerr.rdbuf(&we);
		auto *owl = std::wclog.rdbuf(&wl);
		std::cerr << std::nounitbuf;
		std::wcerr << std::nounitbuf;
		auto *tied = std::cerr.tie(nullptr);
		auto *wtied = std::wcerr.tie(nullptr);
		cookie_io_functions_t io{};
		io.write = cookie_write;
		{
			NoInstr g;
			file = fopencookie(nullptr, "w", io);
			setvbuf(file, nullptr, _IOFBF, 4096);
		}
		auto old_term = std::set_terminate(on_term);
		active = true;
		{
			World w;
			int ran[64] = {};
			memory_word = 77;
			size_t q = 0;
			for (auto &p : plans) {
				for (; between[q].kind != 9; ++q) {
					auto &a = between[q];
					log("write", (uint64_t) a.kind, (uint64_t) a.ch, (uint64_t) a.arg);
					if (a.kind == 0) {
						write_to(a.ch, word(900, a.arg));
						NoInstr g;
						w.pend[a.ch] += word(900, a.arg);
					} else {
						flush_ch(a.ch);
						NoInstr g;
						w.flush(a.ch);
					}
				}
				++q;
				log("sandbox", (uint64_t) p.end, (uint64_t) p.acts.size(), (uint64_t) p.sig);
				add_steps(1);
				add_evals(1);
				Outcome m;
				{
					NoInstr g;
					m = model_call(w, p, ran, false);
				}
				Outcome o = call(p);
				if (sh->viol) violation(sh->cls, "%s", sh->msg);
				compare(o, m);
				if (m.threw) probe(m.sink_error ? "output could not be flushed" : "system call failed");
				else if (m.res == Res::ExitSuccess) probe("success");
				else if (m.res == Res::ExitFailure) probe("failure");
				else probe("signal");
				for (int i = 0; i < 64; ++i)
					if (sh->runs_of[i] != ran[i]) violation("result", "the code of call %d ran %d times instead of %d times", i, sh->runs_of[i], ran[i]);
				for (int c = 0; c < NCH; ++c) {
					NoInstr g;
					if (w.out[c] != std::string(sh->text[c], sh->len[c])) {
						std::string got(sh->text[c], sh->len[c]);
						violation("output", "stream %d: output is '%s' instead of '%s'", c, got.substr(0, 100).c_str(), w.out[c].substr(0, 100).c_str());
					}
				}
				if (sh->exit_handlers) violation("isolation", "exit handlers of the caller ran in the sub process");
				if (p.sub.size() > 0) probe("nested");
			}
			NoInstr g;
			for (int c = 0; c < NCH; ++c) {
				flush_ch(c);
				w.flush(c);
				if (w.out[c] != std::string(sh->text[c], sh->len[c])) violation("output", "stream %d: text of the caller was lost or repeated", c);
			}
			if (memory_word != 77) violation("isolation", "memory changed by the sandboxed code is visible to the caller");
		}
		active = false;
		std::set_terminate(old_term);
		{
			NoInstr g;
			fclose(file);
		}
		std::cout.rdbuf(oc);
		std::cerr.rdbuf(oe);
		std::clog.rdbuf(ol);
		std::wcout.rdbuf(owo);
		std::wcerr.rdbuf(owe);
		std::wclog.rdbuf(owl);
		std::cerr << std::unitbuf;
		std::wcerr << std::unitbuf;
		std::cerr.tie(tied);
		std::wcerr.tie(wtied);
		if (other) {
			int st = 0;
			if (waitpid(other, &st, 0) != other || !WIFEXITED(st) || WEXITSTATUS(st) != 9) violation("isolation", "a child process that belongs to the caller was reaped");
			probe("unrelated child");
		}
		for (int i = 1; i < 65; ++i) sigaction(i, &saved[i], nullptr);
		sigprocmask(SIG_SETMASK, &saved_mask, nullptr);
		nontrivial();
		if (live_blocks()) violation("leak", "%zu blocks leaked", live_blocks());
	}
} // namespace

// ---- system call stand-ins ------------------------------------------------
extern "C" pid_t __real_fork();
extern "C" pid_t __wrap_fork() {
	if (!active || !cur) return __real_fork();
	sh->forks_of[cur->id]++;
	if (cur->fork_errno) {
		fired(FSyscall);
		errno = cur->fork_errno;
		return -1;
	}
	pid_t r = __real_fork();
	return r;
}
namespace {
	bool wait_fails() { // of the calls that would have waited
		if (eintr_left > 0) {
			--eintr_left;
			fired(FEintr);
			errno = EINTR;
			return true;
		}
		return false;
	}
	bool wait_failed() {
		if (!cur->wait_errno) return false;
		fired(FSyscall);
		errno = cur->wait_errno;
		return true;
	}
	bool dumps(int s) { // a machine that writes core files
		for (int c : {SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV, SIGXCPU, SIGSYS})
			if (s == c) return cur->core;
		return false;
	}
} // namespace
extern "C" pid_t __wrap_wait4(pid_t pid, int *stp, int opt, rusage *ru) {
	if (!active || !cur) return __real_wait4(pid, stp, opt, ru);
	if (wait_fails()) return -1;
	int buf, *st = stp ? stp : &buf;
	for (;;) {
		pid_t r = __real_wait4(pid, st, opt | WUNTRACED, ru);
		if (r > 0 && WIFSTOPPED(*st)) { // somebody else continues the stopped process
			fired(FStall);
			kill(r, SIGCONT);
			if (opt & WUNTRACED) return r;
			continue;
		}
		if (r == 0) return 0;
		if (wait_failed()) return -1;
		if (r > 0 && WIFSIGNALED(*st) && dumps(WTERMSIG(*st))) *st |= 0x80;
		return r;
	}
}
extern "C" pid_t __wrap_waitpid(pid_t pid, int *st, int opt) {
	return active && cur ? __wrap_wait4(pid, st, opt, nullptr) : __real_waitpid(pid, st, opt);
}
extern "C" pid_t __wrap_wait(int *st) { return __wrap_wait4(-1, st, 0, nullptr); }
extern "C" pid_t __wrap_wait3(int *st, int opt, rusage *ru) { return __wrap_wait4(-1, st, opt, ru); }
extern "C" int __wrap_waitid(idtype_t type, id_t id, siginfo_t *si, int opt) {
	if (!active || !cur) return __real_waitid(type, id, si, opt);
	if (wait_fails()) return -1;
	for (;;) {
		si->si_pid = 0;
		int r = __real_waitid(type, id, si, opt | WSTOPPED);
		if (r == 0 && si->si_pid && (si->si_code == CLD_STOPPED || si->si_code == CLD_TRAPPED)) {
			fired(FStall);
			kill(si->si_pid, SIGCONT);
			if (opt & WSTOPPED) return r;
			continue;
		}
		if (r == 0 && !si->si_pid) return 0;
		if (wait_failed()) return -1;
		if (r == 0 && si->si_code == CLD_KILLED && dumps(si->si_status)) si->si_code = CLD_DUMPED;
		return r;
	}
}

Harness sim::make_harness(std::string const &) {
	Harness h;
	h.name = "sandbox";
	h.batch = 64;
	h.scenarios = {{"sandboxes", 1, run}};
	return h;
}
