// Runner of the property-based testing engine: forked workers, crash and hang
// detection, out-of-process shrinking, replay; or a libFuzzer entry point.
#include "pbt.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
namespace {

std::vector<Facet>& facets() {
	static std::vector<Facet> f;
	return f;
}

std::uint64_t mix(std::uint64_t& s) {
	s += 0x9e3779b97f4a7c15ull;
	auto z = s;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

std::uint64_t hashStr(const char* s) {
	std::uint64_t h = 1469598103934665603ull;
	for(; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
	return h;
}

} // anon namespace

bool addFacet(const char* name, unsigned long count, Fn fn) {
	facets().push_back({name, count, fn});
	return true;
}

std::uint64_t Ctx::draw(std::uint64_t bound) {
	std::uint64_t v = 0;
	if(mode == 0) {
		auto r = mix(rng);
		v = bound == ~0ull ? r :
			static_cast<std::uint64_t>((static_cast<unsigned __int128>(r) * (bound + 1)) >> 64);
	} else if(mode == 1) {
		if(pos < replayLen) v = std::min(replay[pos], bound);
		++pos;
	} else {
		unsigned n = 1;
		while(n < 8 && (bound >> (8 * n))) ++n;
		for(unsigned i = 0; i < n && pos < bytesLen; ++i)
			v |= static_cast<std::uint64_t>(bytes[pos++]) << (8 * i);
		if(bound != ~0ull) v %= (bound + 1);
	}
	hash = (hash ^ (v + 0x9e37)) * 1099511628211ull;
	if(rec) {
		auto n = *recLen;
		if(n < recCap) {
			rec[n] = v;
			*recLen = n + 1;
		}
	}
	return v;
}

std::string join(const Arg* args, std::size_t n) {
	std::ostringstream os;
	os.precision(17);
	for(std::size_t i = 0; i < n; ++i) args[i].print(os, args[i].p);
	return os.str();
}

void Ctx::fail(const char* file, int line, const std::string& msg) {
	if(failedFlag) return;
	failedFlag = true;
	auto f = std::strrchr(file, '/');
	message = str(f ? f + 1 : file, ":", line, ": ", msg);
}

void Ctx::addNote(const std::string& s) {
	auto off = notes.size();
	notes += s;
	if(!sink || off + 1 >= sinkCap) return;
	auto n = std::min(s.size(), sinkCap - off - 1);
	std::memcpy(sink + off, s.data(), n);
	sink[off + n] = 0;
}

void Ctx::label(const char* l) {
	for(auto x : labels) if(x == l) return;
	labels.push_back(l);
}

namespace {

// Runs one case in this process.
void runCase(const Facet& f, Ctx& c) {
	try {
		f.fn(c);
	} catch(const Abort&) {
	} catch(const std::exception& e) {
		c.fail("exception", 0, str("uncaught std::exception: ", e.what()));
	} catch(...) {
		c.fail("exception", 0, "uncaught exception of other type");
	}
}

#ifdef PBT_FUZZER

} // anon namespace
} // namespace pbt

extern "C" int LLVMFuzzerTestOneInput(const unsigned char* data, std::size_t size) {
	using namespace pbt;
	if(size < 1) return 0;
	static int fixed = [] {
		auto e = std::getenv("PBT_FACET");
		return e ? std::atoi(e) : -1;
	}();
	auto& fs = facets();
	auto idx = fixed >= 0 ? static_cast<std::size_t>(fixed) : data[0] % fs.size();
	Ctx c;
	c.mode = 2;
	c.bytes = data + 1;
	c.bytesLen = size - 1;
	runCase(fs[idx], c);
	if(c.failed()) {
		std::fprintf(stderr, "PBT-FAIL facet=%s %s\n", fs[idx].name, c.message.c_str());
		std::abort();
	}
	return 0;
}

#else // PBT_FUZZER

constexpr std::size_t recCap = 1 << 16;

struct Shared { // one per worker (or candidate)
	volatile std::uint64_t facet;
	volatile std::uint64_t index;
	volatile std::uint64_t cases;
	volatile std::uint64_t inCase;
	volatile std::uint64_t failed; // 1: soft failure
	volatile std::uint64_t len;
	volatile std::uint64_t nontrivial;
	std::uint64_t rec[recCap];
	char msg[4096];
	char notes[1 << 16];
};

Shared* newShared() {
	auto p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
	return static_cast<Shared*>(p);
}

struct Options {
	std::uint64_t seed {1};
	unsigned workers {8};
	double scale {1.0};
	std::string out, replayDir {"."}, property {"?"}, replay, fuzzInput, facet;
	int fuzzFacet {-1};
	double hang {10.0}; // cpu seconds for a single case
	bool listFacets {};
};

double g_hang = 10.0;

void onHang(int) { _exit(77); }

void armTimer(double sec) {
	itimerval t {};
	t.it_value.tv_sec = static_cast<long>(sec);
	t.it_value.tv_usec = static_cast<long>((sec - static_cast<long>(sec)) * 1e6);
	setitimer(ITIMER_PROF, &t, nullptr);
}

double now() {
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

long rssMb(pid_t pid) {
	char path[64];
	std::snprintf(path, sizeof(path), "/proc/%d/statm", pid);
	auto f = std::fopen(path, "r");
	if(!f) return 0;
	long a = 0, b = 0;
	if(std::fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
	std::fclose(f);
	return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

constexpr long memLimitMb = 2500;

struct Stats {
	std::uint64_t evals {};
	std::unordered_set<std::uint64_t> distinct;
	std::uint64_t nontrivial {};
	std::map<std::string, std::uint64_t> labels;
	std::vector<std::vector<std::uint64_t>> samples; // choices of sample cases
};

std::uint64_t caseSeed(const Options& o, const Facet& f, std::uint64_t idx) {
	std::uint64_t s = o.seed * 0x9e3779b97f4a7c15ull ^ hashStr(f.name);
	s = mix(s);
	s ^= idx * 0xd1342543de82ef95ull;
	return mix(s);
}

void silence() { // the code under test prints diagnostics
	auto fd = open("/dev/null", O_WRONLY);
	dup2(fd, 1);
	dup2(fd, 2);
	close(fd);
}

// In a worker: run cases w, w + n, w + 2n ... of all facets. Returns at the first failure.
// If only >= 0, runs only that facet and stops after index lastIdx.
int workerLoop(const Options& o, unsigned w, unsigned n, Shared* sh, std::vector<Stats>& stats,
		int only = -1, std::uint64_t lastIdx = ~0ull) {
	signal(SIGPROF, onHang);
	auto& fs = facets();
	for(std::size_t fi = 0; fi < fs.size(); ++fi) {
		if(!o.facet.empty() && o.facet != fs[fi].name) continue;
		if(only >= 0 && static_cast<int>(fi) > only) break;
		auto count = static_cast<std::uint64_t>(fs[fi].count * o.scale);
		auto& st = stats[fi];
		for(std::uint64_t i = w; i < count; i += n) {
			if(only == static_cast<int>(fi) && i > lastIdx) break;
			sh->facet = fi;
			sh->index = i;
			sh->len = 0;
			sh->inCase = 1;
			Ctx c;
			c.rng = caseSeed(o, fs[fi], i);
			c.rec = sh->rec;
			c.recLen = &sh->len;
			c.recCap = recCap;
			armTimer(g_hang);
			runCase(fs[fi], c);
			sh->inCase = 0;
			sh->cases = sh->cases + 1;
			++st.evals;
			if(c.failed()) {
				std::snprintf(sh->msg, sizeof(sh->msg), "%s", c.message.c_str());
				sh->failed = 1;
				return 42;
			}
			if(c.nontrivialFlag) {
				++st.nontrivial;
				if(st.distinct.insert(c.hash).second && st.samples.size() < 2 && w == 0 && sh->len < 4000)
					st.samples.emplace_back(sh->rec, sh->rec + sh->len);
			}
			for(auto l : c.labels) ++st.labels[l];
		}
	}
	armTimer(0);
	return 0;
}

struct Outcome {
	bool bad {};
	std::string what;
	std::string notes;
	std::vector<std::uint64_t> used;
	bool hang {};
};

// Watches a child until it ends; kills it if it uses too much memory.
std::string waitChild(pid_t pid, bool& bad, bool& hang, const Shared* sh) {
	int status = 0;
	unsigned delay = 200;
	for(;;) {
		auto r = waitpid(pid, &status, WNOHANG);
		if(r == pid) break;
		if(rssMb(pid) > memLimitMb) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			bad = true;
			return "memory limit exceeded in a single case";
		}
		usleep(delay);
		if(delay < 10000) delay *= 2;
	}
	if(WIFEXITED(status)) {
		auto code = WEXITSTATUS(status);
		if(code == 0) { bad = false; return {}; }
		bad = true;
		if(code == 42) return const_cast<const char*>(sh->msg);
		if(code == 77) { hang = true; return str("case did not terminate (cpu limit)"); }
		return str("crash: process exited with code ", code, " (sanitizer report or abort)");
	}
	bad = true;
	return str("crash: killed by signal ", WTERMSIG(status));
}

Outcome runIsolated(const Facet& f, const std::vector<std::uint64_t>& ch, bool verbose,
		const char* errFile = nullptr) {
	static Shared* sh = newShared();
	sh->len = 0;
	sh->failed = 0;
	sh->msg[0] = sh->notes[0] = 0;
	std::cout.flush();
	auto pid = fork();
	if(pid < 0) { std::perror("fork"); std::exit(3); }
	if(pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		silence();
		if(errFile) {
			auto fd = open(errFile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 2);
		}
		signal(SIGPROF, onHang);
		armTimer(g_hang);
		Ctx c;
		c.mode = 1;
		c.replay = ch.data();
		c.replayLen = ch.size();
		c.rec = sh->rec;
		c.recLen = &sh->len;
		c.recCap = recCap;
		c.verbose = verbose;
		c.sink = sh->notes;
		c.sinkCap = sizeof(sh->notes);
		runCase(f, c);
		if(c.failed()) {
			std::snprintf(sh->msg, sizeof(sh->msg), "%s", c.message.c_str());
			_exit(42);
		}
		_exit(0);
	}
	Outcome o;
	o.what = waitChild(pid, o.bad, o.hang, sh);
	o.notes = sh->notes;
	o.used.assign(sh->rec, sh->rec + sh->len);
	return o;
}

bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
	if(a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

void trim(std::vector<std::uint64_t>& v) {
	while(!v.empty() && v.back() == 0) v.pop_back();
}

std::vector<std::uint64_t> shrink(const Facet& f, std::vector<std::uint64_t> best, bool hang) {
	auto saved = g_hang;
	if(hang) g_hang = std::min(g_hang, 1.0);
	auto start = now();
	unsigned evals = 0;
	const unsigned maxEvals = hang ? 25 : 3000;
	trim(best);
	auto budget = [&] { return evals < maxEvals && now() - start < 40.0; };
	auto attempt = [&](std::vector<std::uint64_t> cand) {
		trim(cand);
		if(!budget() || !simpler(cand, best)) return false;
		++evals;
		auto o = runIsolated(f, cand, false);
		if(!o.bad) return false;
		best = std::move(cand);
		return true;
	};
	bool changed = true;
	while(changed && budget()) {
		changed = false;
		// truncate
		for(std::size_t k = best.size() / 2; k > 0 && budget(); k /= 2) {
			while(best.size() >= k && budget()) {
				auto cand = best;
				cand.resize(cand.size() - k);
				if(!attempt(cand)) break;
				changed = true;
			}
		}
		// delete blocks
		for(std::size_t k : {16, 8, 5, 4, 3, 2, 1}) {
			for(std::size_t i = best.size(); i-- > 0 && budget(); ) {
				if(i + k > best.size()) continue;
				auto cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + k);
				if(attempt(cand)) { changed = true; continue; }
				// lists with a length in front: decrement something before the block
				if(i > 0 && best[i - 1] > 0 && k <= 5) {
					cand = best;
					cand.erase(cand.begin() + i, cand.begin() + i + k);
					--cand[i - 1];
					if(attempt(cand)) changed = true;
				}
			}
		}
		// zero blocks
		for(std::size_t k : {8, 4, 2}) {
			for(std::size_t i = 0; i + k <= best.size() && budget(); i += k) {
				auto cand = best;
				std::fill(cand.begin() + i, cand.begin() + i + k, 0);
				if(cand != best && attempt(cand)) changed = true;
			}
		}
		// minimize single choices
		for(std::size_t i = 0; i < best.size() && budget(); ++i) {
			if(best[i] == 0) continue;
			auto cand = best;
			cand[i] = 0;
			if(attempt(cand)) { changed = true; continue; }
			if(i >= best.size()) break;
			std::uint64_t lo = 0, hi = best[i]; // lo passes, hi fails
			while(hi - lo > 1 && budget()) {
				auto mid = lo + (hi - lo) / 2;
				cand = best;
				cand[i] = mid;
				if(attempt(cand)) { hi = mid; changed = true; if(i >= best.size()) break; }
				else lo = mid;
			}
		}
	}
	g_hang = saved;
	return best;
}

std::string jsonStr(const std::string& s) {
	std::string r = "\"";
	for(unsigned char ch : s) {
		if(ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if(ch == '\n') r += "\\n";
		else if(ch < 0x20 || ch >= 0x7f) {
			char b[8];
			std::snprintf(b, sizeof(b), "\\u%04x", ch);
			r += b;
		} else r += ch;
	}
	return r + "\"";
}

std::string commented(const std::string& s) {
	std::string r;
	std::istringstream is(s);
	std::string line;
	while(std::getline(is, line)) r += "# " + line + "\n";
	return r;
}

std::string readFile(const std::string& p, std::size_t max = 6000) {
	std::ifstream f(p);
	std::stringstream ss;
	ss << f.rdbuf();
	auto s = ss.str();
	if(s.size() > max) s.resize(max);
	return s;
}

// Re-runs everything worker w did up to the failing case, in a fresh process.
bool replayRange(const Options& o, unsigned w, unsigned n, int facet, std::uint64_t idx,
		std::string& what) {
	auto sh = newShared();
	auto pid = fork();
	if(pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		silence();
		std::vector<Stats> st(facets().size());
		auto r = workerLoop(o, w, n, sh, st, facet, idx);
		_exit(r);
	}
	bool bad = false, hang = false;
	what = waitChild(pid, bad, hang, sh);
	munmap(sh, sizeof(Shared));
	return bad;
}

// Handles a failing case: shrink, confirm by replaying, write the replay file.
// Returns the exit code.
int report(const Options& o, std::size_t fi, std::vector<std::uint64_t> ch, const std::string& what,
		bool isHang, long worker = -1, unsigned nworkers = 0, std::uint64_t idx = 0) {
	auto& f = facets()[fi];
	std::cout << "failing case in facet " << f.name << ": " << what << "\n" << std::flush;

	unsigned bad = 0;
	for(int i = 0; i < 3; ++i) bad += runIsolated(f, ch, false).bad;

	auto path = o.replayDir + "/" + o.property + "-" + f.name + "-seed" + std::to_string(o.seed) + ".replay";
	if(bad == 3) {
		auto small = shrink(f, ch, isHang);
		auto errFile = path + ".stderr";
		auto fin = runIsolated(f, small, true, errFile.c_str());
		unsigned again = 0;
		for(int i = 0; i < 3; ++i) again += runIsolated(f, small, false).bad;
		if(!fin.bad || again != 3) {
			small = ch;
			fin = runIsolated(f, small, true, errFile.c_str());
		}
		std::ofstream out(path);
		out << "facet " << f.name << "\n" << "choices";
		for(auto x : small) out << " " << x;
		out << "\n# property " << o.property << ", found with VERIF_SEED=" << o.seed << "\n";
		out << "# replay: python3 run_check.py " << o.property << " replay " << path << "\n";
		out << "# failure:\n" << commented(fin.what) << "# case:\n" << commented(fin.notes);
		auto err = readFile(errFile);
		if(!err.empty()) out << "# stderr:\n" << commented(err);
		unlink(errFile.c_str());
		out.close();
		std::cout << "minimal case: " << fin.notes << "\n" << "failure: " << fin.what << "\n";
		std::cout << err << "\n";
		std::cout << "VIOLATION property=" << o.property << " replay=" << path << "\n" << std::flush;
		return 1;
	}

	if(worker >= 0) { // depends on what ran before in the process
		std::string w;
		unsigned again = 0;
		for(int i = 0; i < 3; ++i) again += replayRange(o, worker, nworkers, fi, idx, w);
		if(again + bad > 0) {
			std::ofstream out(path);
			out << "facet " << f.name << "\n" << "range seed " << o.seed << " worker " << worker
				<< " of " << nworkers << " last " << idx << " scale " << o.scale << "\n";
			out << "# the failure depends on the cases executed before in the same process\n"
				<< "# failure:\n" << commented(what) << "# on replay:\n" << commented(w);
			out.close();
			std::cout << "failure depends on earlier cases in the same process\n";
			std::cout << "VIOLATION property=" << o.property << " replay=" << path << "\n" << std::flush;
			return 1;
		}
	}
	std::cout << "could not reproduce the failure (" << bad << "/3)\n" << std::flush;
	return 3;
}

int run(const Options& o) {
	auto& fs = facets();
	auto n = o.workers;
	std::vector<Shared*> sh(n);
	std::vector<pid_t> pids(n);
	std::vector<int> done(n, 0);
	for(auto& s : sh) s = newShared();
	auto start = now();
	std::cout.flush();
	for(unsigned w = 0; w < n; ++w) {
		pids[w] = fork();
		if(pids[w] < 0) { std::perror("fork"); return 3; }
		if(pids[w] == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			silence();
			std::vector<Stats> stats(fs.size());
			auto r = workerLoop(o, w, n, sh[w], stats);
			if(r == 0) {
				std::ofstream out(o.out + ".w" + std::to_string(w), std::ios::binary);
				for(std::size_t i = 0; i < fs.size(); ++i) {
					auto& s = stats[i];
					out << s.evals << " " << s.nontrivial << " " << s.labels.size() << " "
						<< s.distinct.size() << " " << s.samples.size() << "\n";
					for(auto& [k, v] : s.labels) out << v << " " << k << "\n";
					for(auto h : s.distinct) out << h << " ";
					out << "\n";
					for(auto& smp : s.samples) {
						out << smp.size();
						for(auto x : smp) out << " " << x;
						out << "\n";
					}
				}
			}
			_exit(r);
		}
	}

	long failing = -1;
	bool failHang = false;
	std::string failWhat;
	unsigned running = n;
	while(running) {
		for(unsigned w = 0; w < n; ++w) {
			if(done[w]) continue;
			int status = 0;
			auto r = waitpid(pids[w], &status, WNOHANG);
			bool mem = false;
			if(r == 0 && rssMb(pids[w]) > memLimitMb) {
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &status, 0);
				mem = true;
				r = pids[w];
			}
			if(r != pids[w]) continue;
			done[w] = 1;
			--running;
			std::string what;
			bool hang = false;
			if(WIFEXITED(status)) {
				auto code = WEXITSTATUS(status);
				if(code == 0) continue;
				if(code == 42) what = sh[w]->msg;
				else if(code == 77) { what = "case did not terminate (cpu limit)"; hang = true; }
				else what = str("crash: process exited with code ", code, " (sanitizer report or abort)");
			} else {
				what = mem ? "memory limit exceeded" : str("crash: killed by signal ", WTERMSIG(status));
			}
			// deterministic choice: the lowest (facet, index)
			if(failing < 0 || std::make_pair(sh[w]->facet + 0, sh[w]->index + 0) <
					std::make_pair(sh[failing]->facet + 0, sh[failing]->index + 0)) {
				failing = w;
				failWhat = what;
				failHang = hang;
			}
		}
		if(failing >= 0) break;
		usleep(5000);
	}
	if(failing >= 0) {
		for(unsigned w = 0; w < n; ++w)
			if(!done[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
		auto s = sh[failing];
		std::vector<std::uint64_t> ch(s->rec, s->rec + s->len);
		auto fi = s->facet;
		auto rc = report(o, fi, ch, failWhat, failHang, failing, n, s->index);
		std::ofstream out(o.out);
		std::uint64_t total = 0;
		for(auto x : sh) total += x->cases;
		out << "{\"failed\": true, \"evaluations\": " << total << ", \"facet\": "
			<< jsonStr(fs[fi].name) << ", \"what\": " << jsonStr(failWhat) << "}\n";
		return rc;
	}

	// merge
	std::ofstream out(o.out);
	out << "{\"failed\": false, \"wall\": " << (now() - start) << ", \"facets\": [";
	std::vector<std::ifstream> in(n);
	for(unsigned w = 0; w < n; ++w) in[w].open(o.out + ".w" + std::to_string(w), std::ios::binary);
	bool first = true;
	for(std::size_t i = 0; i < fs.size(); ++i) {
		Stats t;
		for(unsigned w = 0; w < n; ++w) {
			std::uint64_t ev = 0, nt = 0, nl = 0, nd = 0, ns = 0;
			in[w] >> ev >> nt >> nl >> nd >> ns;
			if(!in[w]) { std::cout << "lost worker result\n"; return 3; }
			t.evals += ev;
			t.nontrivial += nt;
			for(std::uint64_t k = 0; k < nl; ++k) {
				std::uint64_t v;
				std::string l;
				in[w] >> v;
				in[w].get();
				std::getline(in[w], l);
				t.labels[l] += v;
			}
			for(std::uint64_t k = 0; k < nd; ++k) {
				std::uint64_t h;
				in[w] >> h;
				t.distinct.insert(h);
			}
			for(std::uint64_t k = 0; k < ns; ++k) {
				std::size_t len;
				in[w] >> len;
				std::vector<std::uint64_t> v(len);
				for(auto& x : v) in[w] >> x;
				t.samples.push_back(std::move(v));
			}
		}
		if(!o.facet.empty() && o.facet != fs[i].name) continue;
		if(!first) out << ",";
		first = false;
		out << "\n {\"name\": " << jsonStr(fs[i].name) << ", \"evaluations\": " << t.evals
			<< ", \"nontrivial\": " << t.nontrivial << ", \"distinct\": " << t.distinct.size()
			<< ", \"labels\": {";
		bool fl = true;
		for(auto& [k, v] : t.labels) {
			out << (fl ? "" : ", ") << jsonStr(k) << ": " << v;
			fl = false;
		}
		out << "}, \"samples\": [";
		for(std::size_t k = 0; k < t.samples.size(); ++k) {
			auto oc = runIsolated(fs[i], t.samples[k], true);
			out << (k ? ", " : "") << jsonStr(oc.notes.substr(0, 1500));
		}
		out << "]}";
	}
	out << "]}\n";
	for(unsigned w = 0; w < n; ++w) unlink((o.out + ".w" + std::to_string(w)).c_str());
	return 0;
}

int replayFile(Options o) {
	std::ifstream in(o.replay);
	if(!in) { std::cout << "cannot read " << o.replay << "\n"; return 3; }
	std::string line, facet;
	std::vector<std::uint64_t> ch;
	bool range = false;
	unsigned worker = 0, nw = 1;
	std::uint64_t last = 0;
	while(std::getline(in, line)) {
		std::istringstream ls(line);
		std::string k;
		ls >> k;
		if(k == "facet") ls >> facet;
		else if(k == "choices") { std::uint64_t x; while(ls >> x) ch.push_back(x); }
		else if(k == "range") {
			std::string s;
			range = true;
			ls >> s >> o.seed >> s >> worker >> s >> nw >> s >> last >> s >> o.scale;
		}
	}
	auto& fs = facets();
	for(std::size_t i = 0; i < fs.size(); ++i) {
		if(facet != fs[i].name) continue;
		if(range) {
			std::string what;
			auto bad = replayRange(o, worker, nw, i, last, what);
			std::cout << (bad ? "FAILS: " + what : std::string("passes")) << "\n";
			return bad ? 1 : 0;
		}
		auto err = o.out + ".stderr";
		auto r = runIsolated(fs[i], ch, true, err.c_str());
		std::cout << "case:\n" << r.notes << "\n";
		if(r.bad) std::cout << "FAILS: " << r.what << "\n" << readFile(err) << "\n";
		else std::cout << "passes\n";
		unlink(err.c_str());
		return r.bad ? 1 : 0;
	}
	std::cout << "unknown facet " << facet << "\n";
	return 3;
}

int fuzzFile(const Options& o) { // bytes found by the fuzzer -> choices -> shrink, replay
	std::ifstream in(o.fuzzInput, std::ios::binary);
	std::stringstream ss;
	ss << in.rdbuf();
	auto data = ss.str();
	if(data.empty()) return 3;
	auto& fs = facets();
	auto fi = o.fuzzFacet >= 0 ? o.fuzzFacet : static_cast<unsigned char>(data[0]) % fs.size();
	auto sh = newShared();
	auto pid = fork();
	if(pid == 0) {
		silence();
		signal(SIGPROF, onHang);
		armTimer(g_hang);
		Ctx c;
		c.mode = 2;
		c.bytes = reinterpret_cast<const unsigned char*>(data.data()) + 1;
		c.bytesLen = data.size() - 1;
		c.rec = sh->rec;
		c.recLen = &sh->len;
		c.recCap = recCap;
		runCase(fs[fi], c);
		if(c.failed()) std::snprintf(sh->msg, sizeof(sh->msg), "%s", c.message.c_str());
		_exit(c.failed() ? 42 : 0);
	}
	bool bad = false, hang = false;
	auto what = waitChild(pid, bad, hang, sh);
	if(!bad) { std::cout << "fuzz input passes in the runner\n"; return 0; }
	std::vector<std::uint64_t> ch(sh->rec, sh->rec + sh->len);
	return report(o, fi, ch, what, hang);
}

#endif // PBT_FUZZER

#ifndef PBT_FUZZER
} // anon namespace
} // namespace pbt

int main(int argc, char** argv) {
	using namespace pbt;
	Options o;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
		else if(a == "--workers") o.workers = std::max(1, std::atoi(val().c_str()));
		else if(a == "--scale") o.scale = std::atof(val().c_str());
		else if(a == "--out") o.out = val();
		else if(a == "--replaydir") o.replayDir = val();
		else if(a == "--property") o.property = val();
		else if(a == "--replay") o.replay = val();
		else if(a == "--fuzz-input") o.fuzzInput = val();
		else if(a == "--fuzz-facet") o.fuzzFacet = std::atoi(val().c_str());
		else if(a == "--facet") o.facet = val();
		else if(a == "--hang") o.hang = std::atof(val().c_str());
		else if(a == "--list") o.listFacets = true;
		else { std::cout << "unknown argument " << a << "\n"; return 3; }
	}
	g_hang = o.hang;
	if(o.listFacets) {
		for(auto& f : facets()) std::cout << f.name << " " << f.count << "\n";
		return 0;
	}
	if(!o.replay.empty()) return replayFile(o);
	if(!o.fuzzInput.empty()) return fuzzFile(o);
	return run(o);
}
#endif
