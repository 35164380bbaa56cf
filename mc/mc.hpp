// Bounded-exhaustive exploration of the real library.
//
// A check is a list of spaces.  A space is a function that runs ONE execution and asks
// Run::choose(n) for every decision in it: which input, which operation next, how the
// environment answers a read or a write, where a fault hits.  The explorer re-executes the
// function for every decision sequence, in depth-first order, until there are none left.
// There is no sampling anywhere: either a space is completed or the evidence says it is not.
//
// Work is split over forked workers by subtree.  Each worker keeps the decision sequence of
// the execution it is in inside shared memory, so a crash, a sanitizer report or a hang is
// attributed to that execution; it is then replayed alone before it is reported.
#pragma once
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=77:quarantine_size_mb=8:detect_stack_use_after_return=0:"
		"malloc_context_size=6:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=1:handle_sigfpe=1:print_legend=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
#endif

namespace mc {

inline uint64_t hash(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
	h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
	return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 0) { return hash(s.data(), s.size(), 0xcbf29ce484222325ull ^ h * 0x9e3779b97f4a7c15ull); }

inline std::string vfmt(const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(0, 0, f, a2); va_end(a2);
	std::string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap);
	s.resize(n);
	return s;
}
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

// Printable, unambiguous form of arbitrary bytes.
inline std::string esc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '\\') o += "\\\\";
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) o += fmt("\\x%02x", c);
		else o += c;
	}
	return o;
}
inline std::string q(const std::string &s) { return "\"" + esc(s) + "\""; }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Violation { std::string key, msg; };
struct Skip {};            // thrown by a body: these decisions describe nothing
struct NotMine {};         // the part of the space belongs to another worker

enum { MAXC = 8192, MSG = 6000 };

struct Slot {            // per worker, shared memory
	volatile int space;
	volatile int running;  // inside a body
	volatile int nchoices;
	volatile double t_start;
	unsigned short c[MAXC], n[MAXC];
	char desc[MSG];
	volatile uint64_t execs, steps, nstates_overflow;
	volatile int finished, capped;
};

struct VRec {
	int space, nchoices;
	unsigned short c[MAXC], n[MAXC];
	char key[1024], msg[MSG], desc[MSG];
};

struct Shared {
	volatile int stop;
	volatile int nviol;
	VRec viol[16];
	volatile uint64_t known[256];
	Slot slot[64];
};

class Run {
public:
	bool thorough = false;
	int budget = 0;           // deviations left, see dev()
	std::string text;         // readable account of this execution
	uint64_t steps = 0;
	bool replaying = false;

	int choose(int n) {
		if (n <= 1) return 0;
		if (pos >= MAXC || n > 65535) throw std::logic_error("mc: too many choices");
		int v;
		if (pos < (int)prefix_c.size()) {
			v = prefix_c[pos];
			if (n != prefix_n[pos])
				throw Violation{"nondeterministic", fmt("decision %d offered %d alternatives, earlier %d, for the same prefix: the code under test does not behave deterministically", pos, n, prefix_n[pos])};
		} else {
			prefix_c.push_back(0); prefix_n.push_back(n); v = 0;
		}
		if (slot) { slot->c[pos] = v; slot->n[pos] = n; slot->nchoices = pos + 1; }
		++pos;
		if (gate && pos == gate_depth) gate();
		return v;
	}
	bool flip() { return choose(2) != 0; }
	template <class C> const typename C::value_type &pick(const C &c) { return c[choose((int)c.size())]; }
	// A choice whose alternatives other than 0 each use up one unit of the deviation budget.
	int dev(int n) {
		if (budget <= 0) return 0;
		int c = choose(n);
		if (c) --budget;
		return c;
	}
	void note(const char *f, ...) {
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		if (text.size() < 5000) { if (!text.empty()) text += "; "; text += s; }
		if (slot) { size_t n = std::min<size_t>(text.size(), MSG - 1); memcpy(slot->desc, text.data(), n); slot->desc[n] = 0; }
	}
	[[noreturn]] void fail(const std::string &key, const char *f, ...) {
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		throw Violation{key, s};
	}
	void check(bool ok, const std::string &key, const char *f, ...) {
		if (ok) return;
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		throw Violation{key, s};
	}
	// Has this sequence of decisions not been executed before?  Observations that change nothing
	// need not be repeated when it has: execution is deterministic.
	bool fresh() const { return replaying || pos >= base; }
	int base = 0;
	// Record a state of the model / of the observed system.
	void state(uint64_t h) { ++steps; if (states.size() < states.capacity()) states.push_back(h); else { flush_states(); states.push_back(h); } }
	void state(const std::string &s) { state(hash(s)); }
	void step(int n = 1) { steps += n; }
	void outcome(const std::string &s) { outs.push_back(hash(s)); }
	void outcome_hash(uint64_t h) { outs.push_back(h); }

	// internal
	std::vector<unsigned short> prefix_c, prefix_n;
	int pos = 0;
	Slot *slot = 0;
	std::function<void()> gate;
	int gate_depth = 0;
	std::vector<uint64_t> states, outs;
	std::vector<uint64_t> *all_states = 0, *all_outs = 0;
	void flush_states() { if (all_states) all_states->insert(all_states->end(), states.begin(), states.end()); states.clear(); }
	bool advance() {        // odometer
		while (!prefix_c.empty()) {
			if (prefix_c.back() + 1 < prefix_n.back()) { ++prefix_c.back(); return true; }
			prefix_c.pop_back(); prefix_n.pop_back();
		}
		return false;
	}
};

typedef std::function<void(Run &)> Body;

struct Space {
	std::string name;
	std::string bounds;     // what is enumerated, in words
	Body body;
	int shard_depth = 1;
	bool leaks = false;     // every execution must give back the memory it took
	double limit = 25;      // seconds one execution may take before it counts as a hang
};

struct Check {
	const char *prop;
	const char *level;      // model_checking | fault_enumeration | exploration
	std::string rule;
	std::vector<std::string> assumptions;
	std::vector<Space> spaces;
};

// ------------------------------------------------------------------------------------------

inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}

struct Engine {
	Check chk;
	Shared *sh = 0;
	std::vector<unsigned char *> claims;
	enum { CLAIMS = 1 << 22 };
	std::string tmp, prop;
	std::set<std::string> known;          // keys
	std::vector<std::string> known_list;
	std::map<std::string, std::string> known_text;
	bool thorough = false;
	int W = 8;
	double deadline = 0, t0 = 0;
	std::string only;

	size_t heap() {
#if defined(__SANITIZE_ADDRESS__)
		return __sanitizer_get_current_allocated_bytes();
#else
		return 0;
#endif
	}

	// One execution.  Returns true if it violated.
	bool exec(Run &r, Space &sp, Violation &out) {
		r.pos = 0; r.text.clear(); r.steps = 0; r.budget = 0; r.base = (int)r.prefix_c.size();
		r.states.clear(); r.outs.clear();
		bool bad = false;
		size_t h0 = sp.leaks ? heap() : 0;
		try { sp.body(r); }
		catch (Skip &) { return false; }
		catch (Violation &v) { out = v; bad = true; }
		catch (std::exception &e) { out.key = "unexpected-exception"; out.msg = std::string("exception escaped: ") + e.what(); bad = true; }
		if (!bad && sp.leaks) {
			// Some growth may be caches filling up; growth on every repetition is a leak.
			size_t h1 = heap();
			int tries = 0;
			while (h1 > h0 && tries < 4) {
				++tries;
				h0 = heap();
				r.pos = 0; r.states.clear(); r.outs.clear();
				try { sp.body(r); } catch (Violation &v) { out = v; return true; }
				h1 = heap();
			}
			if (h1 > h0) {
				out.key = "leak"; bad = true;
				out.msg = fmt("every repetition of this execution leaves %zu more bytes allocated", h1 - h0);
			}
		}
		return bad;
	}

	void record(Run &r, int si, const Violation &v) {
		int i = __sync_fetch_and_add(&sh->nviol, 1);
		if (i >= 16) { return; }
		VRec &R = sh->viol[i];
		R.space = si;
		// Executions may end before consuming the whole prefix.
		R.nchoices = std::min<int>(r.pos, MAXC);
		for (int k = 0; k < R.nchoices; ++k) { R.c[k] = r.prefix_c[k]; R.n[k] = r.prefix_n[k]; }
		snprintf(R.key, sizeof R.key, "%s", v.key.c_str());
		snprintf(R.msg, sizeof R.msg, "%s", v.msg.c_str());
		snprintf(R.desc, sizeof R.desc, "%s", r.text.c_str());
	}

	int known_index(const std::string &key) {
		for (size_t i = 0; i < known_list.size(); ++i) if (known_list[i] == key) return (int)i;
		return -1;
	}

	void worker(int w) {
		Slot &s = sh->slot[w];
		std::vector<uint64_t> A, O;
		size_t compact = 1 << 20;
		std::ofstream samples;
		if (w == 0) samples.open(tmp + "/samples", std::ios::app);
		for (size_t si = 0; si < chk.spaces.size() && !sh->stop; ++si) {
			Space &sp = chk.spaces[si];
			if (!only.empty() && sp.name != only) continue;
			Run r;
			r.thorough = thorough;
			r.slot = &s;
			r.states.reserve(1 << 16);
			r.all_states = &A;
			s.space = (int)si;
			uint64_t ordinal = 0;
			std::vector<unsigned short> owned;
			bool have_owned = false;
			uint64_t execs = 0, steps = 0;
			int gd = sp.shard_depth;
			r.gate_depth = gd;
			r.gate = [&] {
				if (have_owned && (int)owned.size() == gd && std::equal(owned.begin(), owned.end(), r.prefix_c.begin())) return;
				uint64_t o = ordinal++;
				owned.assign(r.prefix_c.begin(), r.prefix_c.begin() + gd);
				have_owned = true;
				bool mine;
				if (o < CLAIMS) mine = __sync_bool_compare_and_swap(&claims[si][o], 0, 1);
				else mine = (int)(o % W) == w;
				if (!mine) { have_owned = false; throw NotMine(); }
			};
			for (;;) {
				if (sh->stop) break;
				if (deadline && now() > deadline) { s.capped = 1; break; }
				s.t_start = now(); s.nchoices = 0; s.desc[0] = 0;
				s.running = 1;
				Violation v;
				bool skipped = false, bad = false;
				try { bad = exec(r, sp, v); } catch (NotMine &) { skipped = true; }
				s.running = 0;
				if (skipped) { r.prefix_c.resize(gd); r.prefix_n.resize(gd); }
				else {
					r.prefix_c.resize(r.pos); r.prefix_n.resize(r.pos);
					bool count = r.pos >= gd || w == 0;
					if (bad) {
						int k = known_index(v.key);
						if (k >= 0) { if (count && k < 256) __sync_fetch_and_add(&sh->known[k], 1); }
						else if (count) { record(r, (int)si, v); sh->stop = 1; break; }
					}
					if (count) {
						++execs; steps += r.steps;
						s.execs++; s.steps += r.steps;
						A.insert(A.end(), r.states.begin(), r.states.end());
						O.insert(O.end(), r.outs.begin(), r.outs.end());
						if (A.size() > compact) { uniq(A); compact = std::max<size_t>(1 << 20, A.size() * 2); }
						if (O.size() > (1 << 20)) uniq(O);
						if (w == 0 && (execs == 1 || execs == 1000) && !r.text.empty())
							samples << sp.name << ": " << r.text.substr(0, 400) << "\n" << std::flush;
					}
				}
				if (!r.advance()) break;
			}
			spc(w, si, execs, steps);
			if (s.capped) break;
		}
		uniq(A); uniq(O);
		dump(fmt("%s/st.%d.%d", tmp.c_str(), w, (int)getpid()), A);
		dump(fmt("%s/ou.%d.%d", tmp.c_str(), w, (int)getpid()), O);
		s.finished = 1;
	}
	void spc(int w, size_t si, uint64_t e, uint64_t st) {
		std::ofstream f(fmt("%s/spc.%d.%d", tmp.c_str(), w, (int)getpid()), std::ios::app);
		f << si << " " << e << " " << st << "\n";
	}
	static void uniq(std::vector<uint64_t> &v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
	static void dump(const std::string &p, const std::vector<uint64_t> &v) {
		FILE *f = fopen(p.c_str(), "wb"); if (!f) return;
		fwrite(v.data(), 8, v.size(), f); fclose(f);
	}

	// Run one execution alone.  0 ok, 1 violation (filled), 2 crash, 3 hang
	int solo(int si, const std::vector<unsigned short> &c, const std::vector<unsigned short> &n, Violation &v, std::string &desc, double limit, const std::string &errfile) {
		int pfd[2];
		if (pipe(pfd)) return 2;
		fflush(0);
		pid_t pid = fork();
		if (pid == 0) {
			close(pfd[0]);
			redirect(errfile);
			Run r; r.thorough = thorough; r.replaying = true;
			r.states.reserve(1 << 16);
			r.prefix_c = c; r.prefix_n = n;
			static Slot dummy; r.slot = &dummy;
			Violation vv; bool bad = exec(r, chk.spaces[si], vv);
			std::string o = (bad ? "V" : "O") + vv.key + "\x01" + vv.msg + "\x01" + r.text;
			size_t off = 0;
			while (off < o.size()) { ssize_t k = write(pfd[1], o.data() + off, o.size() - off); if (k <= 0) break; off += k; }
			_exit(0);
		}
		close(pfd[1]);
		fcntl(pfd[0], F_SETFL, O_NONBLOCK);
		std::string got; double t = now(); int st = 0; bool hang = false;
		for (;;) {
			char b[4096]; ssize_t k;
			while ((k = read(pfd[0], b, sizeof b)) > 0) got.append(b, k);
			if (waitpid(pid, &st, WNOHANG) == pid) break;
			if (now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
			usleep(5000);
		}
		char b[4096]; ssize_t k;
		while ((k = read(pfd[0], b, sizeof b)) > 0) got.append(b, k);
		close(pfd[0]);
		if (hang) return 3;
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || got.empty()) return 2;
		size_t p1 = got.find('\x01'), p2 = got.find('\x01', p1 + 1);
		v.key = got.substr(1, p1 - 1); v.msg = got.substr(p1 + 1, p2 - p1 - 1); desc = got.substr(p2 + 1);
		return got[0] == 'V' ? 1 : 0;
	}
	static void redirect(const std::string &f) {
		int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
		int nul = open("/dev/null", O_RDONLY); if (nul >= 0) { dup2(nul, 0); close(nul); }
	}
	static std::string slurp(const std::string &p, size_t max = 20000) {
		std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
		return s.size() > max ? s.substr(0, max) : s;
	}

	std::string write_replay(const std::string &dir, int si, const std::vector<unsigned short> &c, const std::vector<unsigned short> &n, const Violation &v, const std::string &desc, const std::string &extra) {
		mkdir(dir.c_str(), 0755);
		std::string p = fmt("%s/%s-%s-%08x.json", dir.c_str(), prop.c_str(), chk.spaces[si].name.c_str(), (unsigned)hash(c.data(), c.size() * 2));
		std::ofstream f(p);
		f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"space\": " << jstr(chk.spaces[si].name) << ",\n \"choices\": [";
		for (size_t i = 0; i < c.size(); ++i) f << (i ? "," : "") << c[i];
		f << "],\n \"alternatives\": [";
		for (size_t i = 0; i < n.size(); ++i) f << (i ? "," : "") << n[i];
		f << "],\n \"key\": " << jstr(v.key) << ",\n \"message\": " << jstr(v.msg) << ",\n \"execution\": " << jstr(desc)
		  << ",\n \"log\": " << jstr(extra) << ",\n \"replay_with\": " << jstr("python3 /verif/run.py " + prop + " --replay " + p) << "\n}\n";
		return p;
	}

	// First "    #n ... in function" frames of a sanitizer report that are in the library.
	static std::string crash_sig(const std::string &log) {
		std::string kind = "crash";
		size_t p = log.find("SUMMARY: ");
		std::string sum = p == std::string::npos ? "" : log.substr(p + 9, log.find('\n', p) - p - 9);
		if (sum.empty()) {
			p = log.find("runtime error: ");
			if (p != std::string::npos) sum = log.substr(p, log.find('\n', p) - p);
			else if ((p = log.find("Assertion")) != std::string::npos) sum = log.substr(p, log.find('\n', p) - p);
			else if ((p = log.find("terminate called")) != std::string::npos) sum = log.substr(p, 200);
		}
		return sum.empty() ? kind : sum;
	}

	int main(int argc, char **argv) {
		t0 = now();
		std::string evidence, replay, outdir = "/tmp", tier = "quick", knownf;
		double cap = 0;
		if (const char *e = getenv("MC_WORKERS")) W = atoi(e);
		else W = std::max(1L, std::min(16L, sysconf(_SC_NPROCESSORS_ONLN)));
		int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--tier") tier = argv[++i];
			else if (a == "--evidence") evidence = argv[++i];
			else if (a == "--replay") replay = argv[++i];
			else if (a == "--out") outdir = argv[++i];
			else if (a == "--known") knownf = argv[++i];
			else if (a == "--cap") cap = atof(argv[++i]);
			else if (a == "--only") only = argv[++i];
			else if (a == "--tmp") tmp = argv[++i];
		}
		prop = chk.prop;
		thorough = tier == "thorough";
		if (!cap) cap = thorough ? 14400 : 600;
		deadline = t0 + cap;
		rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		// stacks: the same everywhere
		if (!knownf.empty()) {
			std::ifstream f(knownf); std::string l;
			while (std::getline(f, l)) {
				// known: property=P01 key=<key> :: text
				std::string pre = "known: property=" + prop + " key=";
				if (l.compare(0, pre.size(), pre) == 0) {
					size_t p = l.find(" :: ");
					std::string k = l.substr(pre.size(), p == std::string::npos ? std::string::npos : p - pre.size());
					known_list.push_back(k);
					known_text[k] = p == std::string::npos ? k : l.substr(p + 4);
				}
			}
		}
		if (tmp.empty()) tmp = "/tmp";
		std::ofstream(tmp + "/started");
		if (!replay.empty()) return do_replay(replay);

		sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		for (size_t i = 0; i < chk.spaces.size(); ++i)
			claims.push_back((unsigned char *)mmap(0, CLAIMS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		std::vector<pid_t> pid(W);
		auto spawn = [&](int w) {
			fflush(0);
			pid_t p = fork();
			if (p == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				redirect(fmt("%s/err.%d", tmp.c_str(), w));
				worker(w);
				fflush(0);
				_exit(0);
			}
			pid[w] = p;
		};
		for (int w = 0; w < W; ++w) spawn(w);
		int live = W;
		std::vector<std::string> outlines;
		bool internal_error = false;
		auto stop_all = [&] { sh->stop = 1; };
		std::vector<std::string> replays;
		auto report = [&](int si, std::vector<unsigned short> c, std::vector<unsigned short> n, Violation v, std::string desc, std::string log) {
			std::string p = write_replay(outdir, si, c, n, v, desc, log);
			replays.push_back(p);
			printf("violation in space %s\n  key: %s\n  %s\n  execution: %s\n", chk.spaces[si].name.c_str(), esc(v.key).c_str(), esc(v.msg).substr(0, 1500).c_str(), esc(desc).substr(0, 1500).c_str());
		};
		double stopped = 0;
		while (live > 0) {
			if (sh->stop && !stopped) stopped = now();
			for (int w = 0; w < W; ++w) {
				if (pid[w] <= 0) continue;
				int st;
				// an outcome is known: do not wait for workers that are stuck
				if (!replays.empty() || (stopped && now() - stopped > 5 && (sh->nviol || internal_error))) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; --live; continue; }
				Slot &s = sh->slot[w];
				bool dead = waitpid(pid[w], &st, WNOHANG) == pid[w];
				bool hang = false;
				if (!dead && s.running && now() - s.t_start > chk.spaces[s.space].limit) {
					double ts = s.t_start;
					usleep(1000);
					if (s.running && s.t_start == ts) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = hang = true; }
				}
				if (!dead) continue;
				pid[w] = 0; --live;
				if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				// died inside an execution
				int si = s.space;
				std::vector<unsigned short> c(s.c, s.c + s.nchoices), n(s.n, s.n + s.nchoices);
				std::string err = slurp(fmt("%s/err.%d", tmp.c_str(), w));
				if (!s.running) { printf("check error: worker %d died outside an execution (status %d)\n%s\n", w, st, err.c_str()); internal_error = true; stop_all(); continue; }
				Violation v; std::string desc = s.desc;
				std::string ef = fmt("%s/solo.%d", tmp.c_str(), w);
				int r = solo(si, c, n, v, desc, 2 * chk.spaces[si].limit, ef);
				if (r == 0 && hang) { printf("note: an execution exceeded its time limit under load but completes alone\n"); internal_error = true; stop_all(); continue; }
				if (r == 3) { v.key = "hang"; v.msg = "the execution does not terminate (ran alone with a longer limit)"; report(si, c, n, v, desc.empty() ? s.desc : desc, ""); stop_all(); continue; }
				if (r == 2) { std::string log = slurp(ef); v.key = "crash"; v.msg = crash_sig(log); report(si, c, n, v, s.desc, log); stop_all(); continue; }
				if (r == 1) { report(si, c, n, v, desc, ""); stop_all(); continue; }
				// crashed in the sweep, not alone: depends on what ran before it in the same process
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("check error: worker killed (memory?)\n"); internal_error = true; stop_all(); continue; }
				v.key = "crash-with-history"; v.msg = crash_sig(err) + " (needs the executions before it in the same process)";
				report(si, c, n, v, s.desc, err); stop_all();
			}
			usleep(20000);
		}
		// confirm soft violations by replay
		int nv = std::min((int)sh->nviol, 16);
		for (int i = 0; i < nv; ++i) {
			VRec &R = sh->viol[i];
			std::vector<unsigned short> c(R.c, R.c + R.nchoices), n(R.n, R.n + R.nchoices);
			Violation v; std::string desc;
			std::string ef = fmt("%s/solo.v%d", tmp.c_str(), i);
			int r = solo(R.space, c, n, v, desc, 2 * chk.spaces[R.space].limit, ef);
			if (r == 0) {
				v.key = R.key; v.msg = std::string(R.msg) + " (needs the executions before it in the same process)"; desc = R.desc;
			} else if (r == 2) { v.key = "crash"; v.msg = std::string(R.msg) + " / " + crash_sig(slurp(ef)); desc = R.desc; }
			else if (r == 3) { v.key = "hang"; v.msg = R.msg; desc = R.desc; }
			report(R.space, c, n, v, desc, r == 2 ? slurp(ef) : "");
			if (i == 2) break;
		}
		// merge
		std::vector<uint64_t> A, O;
		std::vector<uint64_t> se(chk.spaces.size()), ss(chk.spaces.size());
		uint64_t execs = 0, steps = 0; bool capped = false;
		collect("st.", A); collect("ou.", O);
		for (auto &f : files("spc.")) {
			std::ifstream in(f); size_t si; uint64_t e, st;
			while (in >> si >> e >> st) { se[si] += e; ss[si] += st; }
		}
		for (int w = 0; w < W; ++w) { execs += sh->slot[w].execs; steps += sh->slot[w].steps; capped |= sh->slot[w].capped != 0; }
		uniq(A); uniq(O);
		bool exhaustive = !capped && !sh->stop && only.empty();
		double wall = now() - t0;
		std::vector<std::string> samples;
		{ std::ifstream f(tmp + "/samples"); std::string l; while (std::getline(f, l)) samples.push_back(l); }
		for (size_t i = 0; i < known_list.size(); ++i) {
			if (sh->known[i]) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known_text[known_list[i]].c_str());
			else if (exhaustive) printf("note: listed finding not observed any more: %s\n", known_list[i].c_str());
		}
		printf("%s %s: executions=%llu states=%zu steps=%llu outcomes=%zu exhaustive=%d wall=%.1fs\n", prop.c_str(), tier.c_str(),
			(unsigned long long)execs, A.size(), (unsigned long long)steps, O.size(), exhaustive, wall);
		for (size_t i = 0; i < se.size(); ++i)
			printf("  %-28s executions=%llu steps=%llu\n", chk.spaces[i].name.c_str(), (unsigned long long)se[i], (unsigned long long)ss[i]);
		if (!evidence.empty()) {
			std::ofstream f(evidence);
			f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << chk.level << "\",\n \"coverage\": {\n";
			if (!strcmp(chk.level, "model_checking"))
				f << "  \"states\": " << A.size() << ",\n  \"transitions\": " << steps << ",\n  \"traces_validated_against_impl\": " << execs << ",\n";
			else
				f << "  \"evaluations\": " << execs << ",\n  \"distinct_nontrivial\": " << A.size() << ",\n";
			f << "  \"distinct_outcomes\": " << O.size() << ",\n  \"rule\": " << jstr(chk.rule) << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"spaces\": [";
			for (size_t i = 0; i < se.size(); ++i)
				f << (i ? "," : "") << "\n   {\"name\": " << jstr(chk.spaces[i].name) << ", \"bounds\": " << jstr(chk.spaces[i].bounds) << ", \"executions\": " << se[i] << ", \"steps\": " << ss[i] << "}";
			f << "\n  ],\n  \"samples\": [";
			for (size_t i = 0; i < samples.size() && i < 40; ++i) f << (i ? "," : "") << "\n   " << jstr(samples[i]);
			f << "\n  ]\n },\n \"assumptions\": [";
			for (size_t i = 0; i < chk.assumptions.size(); ++i) f << (i ? "," : "") << "\n  " << jstr(chk.assumptions[i]);
			f << "\n ],\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": " << replays.size() << "\n}\n";
		}
		if (!replays.empty()) {
			for (auto &p : replays) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), p.c_str());
			return 1;
		}
		if (internal_error) return 2;
		return 0;
	}

	std::vector<std::string> files(const std::string &pre) {
		std::vector<std::string> out;
		FILE *p = popen(("ls " + tmp).c_str(), "r"); char b[512];
		while (p && fgets(b, sizeof b, p)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.compare(0, pre.size(), pre) == 0) out.push_back(tmp + "/" + s); }
		if (p) pclose(p);
		return out;
	}
	void collect(const std::string &pre, std::vector<uint64_t> &v) {
		for (auto &f : files(pre)) {
			FILE *in = fopen(f.c_str(), "rb"); if (!in) continue;
			uint64_t b[4096]; size_t k;
			while ((k = fread(b, 8, 4096, in)) > 0) v.insert(v.end(), b, b + k);
			fclose(in);
		}
	}

	int do_replay(const std::string &f) {
		std::string s = slurp(f, 10 << 20);
		auto arr = [&](const char *k) {
			std::vector<unsigned short> v; size_t p = s.find(std::string("\"") + k + "\": ["); if (p == std::string::npos) return v;
			p = s.find('[', p) + 1;
			while (s[p] != ']') { v.push_back(atoi(s.c_str() + p)); p = s.find_first_of(",]", p); if (s[p] == ',') ++p; }
			return v;
		};
		auto str = [&](const char *k) { size_t p = s.find(std::string("\"") + k + "\": \""); if (p == std::string::npos) return std::string(); p = s.find('"', s.find(':', p)) + 1; return s.substr(p, s.find('"', p) - p); };
		thorough = str("tier") == "thorough";
		std::string sn = str("space");
		for (size_t i = 0; i < chk.spaces.size(); ++i) if (chk.spaces[i].name == sn) {
			Violation v; std::string desc, ef = tmp + "/replay.err";
			int r = solo((int)i, arr("choices"), arr("alternatives"), v, desc, 120, ef);
			printf("replay: %s\n  key: %s\n  %s\n  execution: %s\n%s\n", r == 0 ? "held" : r == 1 ? "violated" : r == 2 ? "crashed" : "hangs", esc(v.key).c_str(), esc(v.msg).c_str(), esc(desc).c_str(), slurp(ef).c_str());
			return r == 0 ? 0 : 1;
		}
		if (sn == "preparation") { printf("replay: held\n"); return 0; }
		printf("no such space\n");
		return 2;
	}
};

// What the library's exit does; by default it counts as a crash.
inline void (*exit_hook)(int) = 0;
inline int run(int argc, char **argv, const Check &c) { static Engine e; e.chk = c; return e.main(argc, argv); }

} // namespace mc

[[noreturn]] void mc_exit(int code) {
	if (mc::exit_hook) mc::exit_hook(code);
	fprintf(stderr, "the library called exit(%d)\n", code);
	abort();
}
