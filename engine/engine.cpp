#include "pbt.hpp"

#include <chrono>
#include <exception>
#include <fstream>
#include <memory>
#include <typeinfo>
#include <unordered_set>

#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));
#endif

#ifdef PBT_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)());
#endif

extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options()
{
	return "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:symbolize=0:"
		   "allocator_may_return_null=0:detect_odr_violation=0";
}

extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
	return "halt_on_error=1:print_stacktrace=0:symbolize=0";
}

extern "C" __attribute__((used, visibility("default"))) const char* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=66:symbolize=0:report_signal_unsafe=0:die_after_fork=0";
}

namespace pbt {

struct gen::shared_rec {
	volatile uint64_t cases;
	volatile uint64_t num_choices;
	volatile uint64_t stop;
	char msg[4096];
	uint64_t choices[gen::max_choices];
};

std::vector<property>& registry()
{
	static std::vector<property> r;
	return r;
}

std::string quote(std::string_view s)
{
	std::string ret = "\"";
	char b[8];
	for (char c : s) {
		auto u = uint8_t(c);
		if (c == '"' || c == '\\') {
			ret += '\\';
			ret += c;
		} else if (u >= 0x20 && u < 0x7f) {
			ret += c;
		} else {
			snprintf(b, sizeof(b), "\\x%02x", u);
			ret += b;
		}
		if (ret.size() > 2000) {
			ret += "...";
			break;
		}
	}
	return ret + "\"";
}

namespace {
uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

uint64_t rotl(uint64_t x, int k)
{
	return (x << k) | (x >> (64 - k));
}

uint64_t next(uint64_t* s)
{
	const uint64_t result = rotl(s[1] * 5, 7) * 9;
	const uint64_t t = s[1] << 17;
	s[2] ^= s[0];
	s[3] ^= s[1];
	s[1] ^= s[2];
	s[0] ^= s[3];
	s[2] ^= t;
	s[3] = rotl(s[3], 45);
	return result;
}
} // namespace

void gen::seed(uint64_t s)
{
	for (auto& r : this->rng) {
		r = splitmix(s);
	}
}

void gen::reset()
{
	this->pos = 0;
	this->hash = 0xcbf29ce484222325ull;
	this->is_nontrivial = false;
	this->labels.clear();
	this->failed.clear();
	this->transcript.clear();
	if (this->rec) {
		this->rec->num_choices = 0;
	}
}

uint64_t gen::choice(uint64_t max)
{
	uint64_t v = 0;
	if (max != 0) {
		switch (this->m) {
			case mode::random:
				{
					auto r = next(this->rng);
					v = max == ~uint64_t(0) ? r : uint64_t((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
				}
				break;
			case mode::replay:
				if (this->pos < this->replay_size) {
					v = this->replay_data[this->pos];
				}
				if (v > max) {
					v = max;
				}
				break;
			case mode::bytes:
				{
					unsigned n = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffull ? 4 : 8;
					for (unsigned i = 0; i != n; ++i) {
						v <<= 8;
						if (this->byte_size != 0) {
							v |= *this->byte_data;
							++this->byte_data;
							--this->byte_size;
						}
					}
					if (max != ~uint64_t(0)) {
						v %= (max + 1);
					}
				}
				break;
		}
	}
	if (this->pos >= max_choices - 1) {
		v = 0;
	} else {
		if (this->rec) {
			this->rec->choices[this->pos] = v;
			this->rec->num_choices = this->pos + 1;
		}
		if (this->max_log) {
			this->max_log->push_back(max);
		}
		++this->pos;
	}
	this->hash = (this->hash ^ v) * 0x100000001b3ull;
	this->hash ^= this->hash >> 29;
	return v;
}

namespace {

// returns name of run property
const char* run_case(gen& g)
{
	const auto& reg = registry();
	unsigned sum = 0;
	for (const auto& p : reg) {
		sum += p.weight;
	}
	auto v = unsigned(g.choice(sum - 1));
	for (const auto& p : reg) {
		if (v < p.weight) {
			g.say([&] {
				return std::string("sub-property: ") + p.name;
			});
			try {
				p.run(g);
			} catch (const failure& f) {
				if (g.failed.empty()) {
					g.failed = f.msg;
				}
			} catch (const std::exception& e) {
				int status = 0;
				char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
				if (g.failed.empty()) {
					g.failed = std::string("unexpected exception: ") + (n ? n : "?") + ": " + e.what();
				}
				free(n);
			} catch (...) {
				if (g.failed.empty()) {
					g.failed = "unexpected exception of unknown type";
				}
			}
			if (!g.failed.empty()) {
				g.failed = std::string("[") + p.name + "] " + g.failed;
			}
			return p.name;
		}
		v -= p.weight;
	}
	return "";
}

struct options {
	std::string cmd;
	std::string file;
	uint64_t seed = 1;
	unsigned workers = 1;
	uint64_t cases = 1000;
	double time = 60;
	double shrink_time = 20;
	std::string out;
	std::string replay_out;
	std::string work = ".";
	std::string extra;
	std::string only;
};

double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Sanitised process wide limits of children which run code under test.
void child_setup(const std::string& log)
{
	int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
	fd = open("/dev/null", O_RDWR);
	if (fd >= 0) {
		dup2(fd, 1);
		dup2(fd, 0);
		close(fd);
	}
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
#if !defined(PBT_ASAN) && !defined(PBT_TSAN)
	rl.rlim_cur = rl.rlim_max = rlim_t(6) << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
}

void set_msg(gen::shared_rec* rec, const std::string& m)
{
	auto n = std::min(m.size(), sizeof(rec->msg) - 1);
	memcpy(rec->msg, m.data(), n);
	rec->msg[n] = 0;
}

constexpr int exit_failed = 77;

struct stats {
	uint64_t evaluations = 0;
	uint64_t nontrivial = 0;
	std::map<std::string, uint64_t> per_prop;
	std::map<std::string, uint64_t> per_prop_nontrivial;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	std::unordered_set<uint64_t> hashes;

	void add(const char* name, const gen& g)
	{
		++this->evaluations;
		++this->per_prop[name];
		for (const auto& l : g.labels) {
			++this->labels[l];
		}
		if (g.is_nontrivial) {
			++this->nontrivial;
			++this->per_prop_nontrivial[name];
			if (this->hashes.size() < 4000000) {
				this->hashes.insert(g.hash);
			}
		}
	}

	void write(const std::string& base)
	{
		std::ofstream f(base + ".stats");
		f << "E " << this->evaluations << "\n";
		f << "N " << this->nontrivial << "\n";
		for (const auto& p : this->per_prop) {
			f << "P " << p.second << " " << p.first << "\n";
		}
		for (const auto& p : this->per_prop_nontrivial) {
			f << "Q " << p.second << " " << p.first << "\n";
		}
		for (const auto& p : this->labels) {
			f << "L " << p.second << " " << p.first << "\n";
		}
		for (auto s : this->samples) {
			for (auto& c : s) {
				if (c == '\n') {
					c = '\x01';
				}
			}
			f << "S 0 " << s << "\n";
		}
		std::ofstream h(base + ".hash", std::ios::binary);
		for (auto v : this->hashes) {
			h.write(reinterpret_cast<const char*>(&v), sizeof(v));
		}
	}

	void read(const std::string& base)
	{
		std::ifstream f(base + ".stats");
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream ss(line);
			char k = 0;
			uint64_t n = 0;
			ss >> k >> n;
			ss.get();
			std::string rest;
			std::getline(ss, rest);
			switch (k) {
				case 'E':
					this->evaluations += n;
					break;
				case 'N':
					this->nontrivial += n;
					break;
				case 'P':
					this->per_prop[rest] += n;
					break;
				case 'Q':
					this->per_prop_nontrivial[rest] += n;
					break;
				case 'L':
					this->labels[rest] += n;
					break;
				case 'S':
					for (auto& c : rest) {
						if (c == '\x01') {
							c = '\n';
						}
					}
					this->samples.push_back(rest);
					break;
			}
		}
		std::ifstream h(base + ".hash", std::ios::binary);
		uint64_t v;
		while (h.read(reinterpret_cast<char*>(&v), sizeof(v))) {
			this->hashes.insert(v);
		}
	}
};

// sample: run the recorded case again, verbose
void maybe_sample(stats& st, const gen& g, const char* name)
{
	auto& n = st.per_prop_nontrivial[name];
	if (!g.is_nontrivial || (n != 2 && n != 40) || st.samples.size() > 40) {
		return;
	}
	std::vector<uint64_t> c(g.rec->choices, g.rec->choices + g.rec->num_choices);
	gen v;
	v.m = gen::mode::replay;
	v.replay_data = c.data();
	v.replay_size = c.size();
	v.verbose = true;
	v.reset();
	run_case(v);
	st.samples.push_back(v.transcript);
}

gen::shared_rec* map_rec()
{
	void* p = mmap(nullptr, sizeof(gen::shared_rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return static_cast<gen::shared_rec*>(p);
}

uint64_t mix(uint64_t a, uint64_t b, uint64_t c)
{
	uint64_t s = a * 0x9e3779b97f4a7c15ull + 0x1234567;
	s = splitmix(s) ^ (b * 0xff51afd7ed558ccdull);
	s = splitmix(s) ^ (c * 0xc4ceb9fe1a85ec53ull);
	return splitmix(s);
}

[[noreturn]] void random_worker(const options& o, unsigned w, gen::shared_rec* rec, double deadline, uint64_t from, uint64_t to, bool quiet)
{
	stats st;
	gen g;
	g.rec = rec;
	g.m = gen::mode::random;
	for (uint64_t i = from; i != to; ++i) {
		if ((i & 63) == 0 && (rec->stop || (deadline != 0 && now() > deadline))) {
			break;
		}
		g.reset();
		g.seed(mix(o.seed, w, i));
		auto name = run_case(g);
		if (!g.failed.empty()) {
			set_msg(rec, g.failed);
			_exit(exit_failed);
		}
		rec->cases = i + 1;
		st.add(name, g);
		if (w == 0 && !quiet) {
			maybe_sample(st, g, name);
		}
	}
	if (!quiet) {
		st.write(o.work + "/w" + std::to_string(w));
	}
	_exit(0);
}

#ifdef PBT_FUZZ
gen* fuzz_gen;
stats* fuzz_stats;
std::string fuzz_base;
bool fuzz_sample;

int fuzz_one(const uint8_t* data, size_t size)
{
	gen& g = *fuzz_gen;
	g.byte_data = data;
	g.byte_size = size;
	g.m = gen::mode::bytes;
	g.reset();
	auto name = run_case(g);
	if (!g.failed.empty()) {
		set_msg(g.rec, g.failed);
		_exit(exit_failed);
	}
	g.rec->cases = g.rec->cases + 1;
	fuzz_stats->add(name, g);
	if (fuzz_sample) {
		maybe_sample(*fuzz_stats, g, name);
	}
	return 0;
}

void fuzz_exit()
{
	fuzz_stats->write(fuzz_base);
}

[[noreturn]] void fuzz_worker(const options& o, unsigned w, gen::shared_rec* rec, double deadline)
{
	auto dir = o.work + "/corpus" + std::to_string(w);
	mkdir(dir.c_str(), 0755);
	static gen g;
	static stats st;
	g.rec = rec;
	fuzz_gen = &g;
	fuzz_stats = &st;
	fuzz_base = o.work + "/w" + std::to_string(w);
	fuzz_sample = w == 0;

	// initial corpus: random cases encoded to bytes, every second worker starts with empty corpus
	if (w % 2 == 0) {
		for (unsigned i = 0; i != 200; ++i) {
			g.m = gen::mode::random;
			std::vector<uint64_t> maxes;
			g.reset();
			g.max_log = &maxes;
			g.seed(mix(o.seed ^ 0x5eed, w, i));
			run_case(g);
			g.max_log = nullptr;
			if (!g.failed.empty()) {
				set_msg(rec, g.failed);
				_exit(exit_failed);
			}
			std::string b;
			for (size_t k = 0; k != maxes.size(); ++k) {
				auto max = maxes[k];
				if (max == 0) {
					continue;
				}
				unsigned n = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffull ? 4 : 8;
				for (unsigned j = n; j != 0; --j) {
					b.push_back(char(uint8_t(rec->choices[k] >> ((j - 1) * 8))));
				}
			}
			if (b.size() <= 4096) {
				std::ofstream f(dir + "/seed" + std::to_string(i), std::ios::binary);
				f.write(b.data(), std::streamsize(b.size()));
			}
		}
	}
	atexit(&fuzz_exit);
	std::vector<std::string> args = {
		"fuzz",
		"-runs=" + std::to_string(o.cases),
		"-seed=" + std::to_string(uint32_t(mix(o.seed, w, 77)) | 1u),
		"-max_len=4096",
		"-timeout=0",
		"-rss_limit_mb=0",
		"-malloc_limit_mb=0",
		"-detect_leaks=0",
		"-print_final_stats=1",
		"-use_value_profile=" + std::to_string(w & 1),
		"-artifact_prefix=" + dir + "/",
		"-max_total_time=" + std::to_string(std::max(1, int(deadline - now()))),
		dir
	};
	std::vector<char*> argv;
	for (auto& a : args) {
		argv.push_back(&a[0]);
	}
	argv.push_back(nullptr);
	int argc = int(args.size());
	char** av = argv.data();
	LLVMFuzzerRunDriver(&argc, &av, &fuzz_one);
	exit(0);
}
#endif

// -1 = still running
double cpu_time(pid_t pid)
{
	clockid_t id;
	if (clock_getcpuclockid(pid, &id) != 0) {
		return 0;
	}
	struct timespec ts;
	if (clock_gettime(id, &ts) != 0) {
		return 0;
	}
	return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

uint64_t rss_mb(pid_t pid)
{
	char b[64];
	snprintf(b, sizeof(b), "/proc/%d/statm", int(pid));
	FILE* f = fopen(b, "r");
	if (!f) {
		return 0;
	}
	unsigned long total = 0, res = 0;
	if (fscanf(f, "%lu %lu", &total, &res) != 2) {
		res = 0;
	}
	fclose(f);
	return uint64_t(res) * 4096 >> 20;
}

#ifndef PBT_HANG_CPU
#	define PBT_HANG_CPU 20
#endif
#ifndef PBT_HANG_WALL
#	define PBT_HANG_WALL 120
#endif

struct watch {
	pid_t pid = -1;
	gen::shared_rec* rec = nullptr;
	uint64_t last_cases = ~uint64_t(0);
	double last_cpu = 0;
	double last_wall = 0;
	std::string killed; // reason

	// returns true when ended, status holds wait status
	bool poll(int& status, double hang_cpu, double hang_wall)
	{
		auto r = waitpid(this->pid, &status, WNOHANG);
		if (r == this->pid) {
			return true;
		}
		auto cpu = cpu_time(this->pid);
		auto wall = now();
		auto c = this->rec->cases;
		if (c != this->last_cases) {
			this->last_cases = c;
			this->last_cpu = cpu;
			this->last_wall = wall;
		} else if (cpu - this->last_cpu > hang_cpu || wall - this->last_wall > hang_wall) {
			this->killed = "case does not terminate";
			kill(this->pid, SIGKILL);
			waitpid(this->pid, &status, 0);
			return true;
		}
		if (rss_mb(this->pid) > 4000) {
			this->killed = "case exhausts memory";
			kill(this->pid, SIGKILL);
			waitpid(this->pid, &status, 0);
			return true;
		}
		return false;
	}
};

std::string read_head(const std::string& path, size_t n)
{
	std::ifstream f(path, std::ios::binary);
	std::string s;
	s.resize(n);
	f.read(&s[0], std::streamsize(n));
	s.resize(size_t(f.gcount()));
	return s;
}

// picks most telling line of stderr of died worker
std::string crash_summary(const std::string& log)
{
	auto s = read_head(log, 200000);
	std::istringstream ss(s);
	std::string line;
	std::string ret;
	while (std::getline(ss, line)) {
		if (line.find("runtime error:") != std::string::npos || line.find("ERROR: AddressSanitizer") != std::string::npos ||
			line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("terminate called") != std::string::npos ||
			line.find("what():") != std::string::npos || line.find("ssertion") != std::string::npos ||
			line.find("SUMMARY") != std::string::npos)
		{
			if (ret.size() < 800) {
				ret += line + "; ";
			}
		}
	}
	return ret;
}

std::string describe(int status, const watch& w, const std::string& log)
{
	if (!w.killed.empty()) {
		return w.killed;
	}
	if (WIFEXITED(status) && WEXITSTATUS(status) == exit_failed) {
		return w.rec->msg;
	}
	std::string s = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status))
										: "exit status " + std::to_string(WEXITSTATUS(status));
	return "process died (" + s + "): " + crash_summary(log);
}

// runs one case in a child, returns true if it fails
struct replay_result {
	bool failed = false;
	std::string msg;
	std::vector<uint64_t> choices;
};

replay_result try_case_once(const options& o, const std::vector<uint64_t>& choices, double hang_cpu)
{
	static gen::shared_rec* rec = map_rec();
	rec->cases = 0;
	rec->num_choices = 0;
	rec->stop = 0;
	rec->msg[0] = 0;
	auto log = o.work + "/try.log";
	auto pid = fork();
	if (pid == 0) {
		child_setup(log);
		gen g;
		g.rec = rec;
		g.m = gen::mode::replay;
		g.replay_data = choices.data();
		g.replay_size = choices.size();
		g.reset();
		run_case(g);
		if (!g.failed.empty()) {
			set_msg(rec, g.failed);
			_exit(exit_failed);
		}
		_exit(0);
	}
	watch w;
	w.pid = pid;
	w.rec = rec;
	int status = 0;
	useconds_t delay = 300;
	while (!w.poll(status, hang_cpu, PBT_HANG_WALL)) {
		usleep(delay);
		delay = std::min<useconds_t>(delay * 2, 20000);
	}
	replay_result ret;
	ret.failed = !(w.killed.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 0);
	if (ret.failed) {
		ret.msg = describe(status, w, log);
	}
	ret.choices.assign(rec->choices, rec->choices + rec->num_choices);
	while (!ret.choices.empty() && ret.choices.back() == 0) {
		ret.choices.pop_back();
	}
	return ret;
}

// How many times a case is run until it fails, for checks whose cases depend on thread schedules. A failure is a fact,
// a pass is not.
#ifndef PBT_REPEAT
#	define PBT_REPEAT 1
#endif

replay_result try_case(const options& o, const std::vector<uint64_t>& choices, double hang_cpu)
{
	replay_result r;
	for (unsigned i = 0; i != PBT_REPEAT; ++i) {
		r = try_case_once(o, choices, hang_cpu);
		if (r.failed) {
			break;
		}
	}
	return r;
}

bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
	if (a.size() != b.size()) {
		return a.size() < b.size();
	}
	return a < b;
}

std::vector<uint64_t> shrink(const options& o, std::vector<uint64_t> best, std::string& msg, unsigned& tries, double hang_cpu)
{
	auto end = now() + o.shrink_time;
	auto attempt = [&](const std::vector<uint64_t>& c) {
		if (now() > end || tries > 6000) {
			return false;
		}
		++tries;
		auto r = try_case(o, c, hang_cpu);
		if (r.failed && smaller(r.choices, best)) {
			best = r.choices;
			msg = r.msg;
			return true;
		}
		return false;
	};
	bool improved = true;
	while (improved && now() < end) {
		improved = false;
		// delete chunks
		for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
			if (k > best.size()) {
				continue;
			}
			for (size_t i = best.size(); i >= k;) {
				if (i > best.size()) {
					i = best.size();
					if (i < k) {
						break;
					}
				}
				auto c = best;
				c.erase(c.begin() + ptrdiff_t(i - k), c.begin() + ptrdiff_t(i));
				if (attempt(c)) {
					improved = true;
					i = std::min(i, best.size());
				} else {
					--i;
				}
				if (now() > end) {
					break;
				}
			}
		}
		// lower a length-like value and delete what followed it
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			if (best[i] == 0) {
				continue;
			}
			for (size_t k : {1, 2, 3, 4}) {
				if (i + k >= best.size() || best[i] == 0) {
					break;
				}
				auto c = best;
				--c[i];
				c.erase(c.begin() + ptrdiff_t(i + 1), c.begin() + ptrdiff_t(i + 1 + k));
				if (attempt(c)) {
					improved = true;
				}
			}
		}
		// lower values
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			if (best[i] == 0) {
				continue;
			}
			auto c = best;
			c[i] = 0;
			if (attempt(c)) {
				improved = true;
				continue;
			}
			uint64_t lo = 0;
			while (i < best.size() && best[i] - lo > 1 && now() < end) {
				auto mid = lo + (best[i] - lo) / 2;
				c = best;
				c[i] = mid;
				if (attempt(c)) {
					improved = true;
				} else {
					lo = mid;
				}
			}
		}
	}
	return best;
}

std::string render(const options& o, const std::vector<uint64_t>& choices)
{
	// the rendering is made in a child because the case may crash
	auto path = o.work + "/render.txt";
	unlink(path.c_str());
	auto pid = fork();
	if (pid == 0) {
		child_setup(o.work + "/render.log");
		alarm(30);
		gen g;
		g.m = gen::mode::replay;
		g.replay_data = choices.data();
		g.replay_size = choices.size();
		g.verbose = true;
		g.reset();
		// write the transcript out also when process dies
		static gen* pg = &g;
		static std::string* pp = new std::string(path);
		auto dump = +[]() {
			int fd = open(pp->c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd >= 0) {
				auto r = write(fd, pg->transcript.data(), pg->transcript.size());
				(void)r;
				close(fd);
			}
		};
		static decltype(dump) pd = dump;
		signal(SIGABRT, +[](int) {
			pd();
			_exit(1);
		});
		signal(SIGALRM, +[](int) {
			pd();
			_exit(1);
		});
		atexit(+[]() {
			pd();
		});
#ifdef PBT_ASAN
		// asan exits through _exit, so hook into its death
		__sanitizer_set_death_callback(+[]() {
			pd();
		});
#endif
		run_case(g);
		dump();
		_exit(0);
	}
	int status;
	waitpid(pid, &status, 0);
	return read_head(path, 8000);
}

std::string json_str(const std::string& s)
{
	std::string r = "\"";
	char b[8];
	for (char c : s) {
		auto u = uint8_t(c);
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (u < 0x20 || u >= 0x7f) {
			snprintf(b, sizeof(b), "\\u%04x", u);
			r += b;
		} else {
			r += c;
		}
	}
	return r + "\"";
}

template <class M>
std::string json_map(const M& m)
{
	std::string r = "{";
	bool first = true;
	for (const auto& p : m) {
		if (!first) {
			r += ", ";
		}
		first = false;
		r += json_str(p.first) + ": " + std::to_string(p.second);
	}
	return r + "}";
}

bool confirm(const options& o, const std::vector<uint64_t>& choices, replay_result& last, double hang_cpu)
{
	for (unsigned i = 0; i != 3; ++i) {
		last = try_case(o, choices, hang_cpu);
		if (!last.failed) {
			return false;
		}
	}
	return true;
}

int campaign(const options& o)
{
	auto start = now();
	auto deadline = start + o.time;
	std::vector<watch> ws(o.workers);
	std::vector<bool> done(o.workers, false);
	for (unsigned i = 0; i != o.workers; ++i) {
		ws[i].rec = map_rec();
		auto pid = fork();
		if (pid == 0) {
			child_setup(o.work + "/w" + std::to_string(i) + ".log");
#ifdef PBT_FUZZ
			if (o.cmd == "fuzz") {
				fuzz_worker(o, i, ws[i].rec, deadline);
			}
#endif
			random_worker(o, i, ws[i].rec, deadline, 0, o.cases, false);
		}
		ws[i].pid = pid;
		ws[i].last_wall = now();
	}

	std::string fail_msg;
	std::vector<uint64_t> fail_choices;
	std::string fail_kind;
	std::string notes;
	uint64_t fail_from = 0, fail_to = 0;
	unsigned fail_worker = 0;
	unsigned tries = 0;
	unsigned running = o.workers;
	while (running != 0) {
		usleep(20000);
		for (unsigned i = 0; i != o.workers; ++i) {
			if (done[i]) {
				continue;
			}
			int status = 0;
			if (!ws[i].poll(status, PBT_HANG_CPU, PBT_HANG_WALL)) {
				continue;
			}
			done[i] = true;
			--running;
			if (ws[i].killed.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
				continue;
			}
			auto msg = describe(status, ws[i], o.work + "/w" + std::to_string(i) + ".log");
			fprintf(stderr, "worker %u: %s\n", i, msg.c_str());
			std::vector<uint64_t> c(ws[i].rec->choices, ws[i].rec->choices + ws[i].rec->num_choices);
			if (!fail_kind.empty()) {
				continue;
			}
			double hang = ws[i].killed.empty() ? PBT_HANG_CPU : PBT_HANG_CPU / 2;
			replay_result last;
			if (confirm(o, c, last, hang)) {
				// stop the others
				for (unsigned k = 0; k != o.workers; ++k) {
					if (!done[k]) {
						ws[k].rec->stop = 1;
						if (o.cmd == "fuzz") {
							kill(ws[k].pid, SIGKILL);
						}
					}
				}
				fail_kind = "choices";
				fail_msg = last.msg;
				fail_choices = shrink(o, last.choices, fail_msg, tries, ws[i].killed.empty() ? hang : 3);
				if (!confirm(o, fail_choices, last, hang)) {
					fail_choices = c;
				}
			} else if (o.cmd != "fuzz") {
				// state carried over from earlier cases of this worker? Replay whole history of the worker twice.
				auto upto = ws[i].rec->cases + 1;
				bool ok = true;
				for (unsigned k = 0; ok && k != 2; ++k) {
					auto rec = map_rec();
					auto pid = fork();
					if (pid == 0) {
						child_setup(o.work + "/hist.log");
						random_worker(o, i, rec, 0, 0, upto, true);
					}
					watch w;
					w.pid = pid;
					w.rec = rec;
					int st = 0;
					while (!w.poll(st, PBT_HANG_CPU, PBT_HANG_WALL)) {
						usleep(5000);
					}
					ok = !(w.killed.empty() && WIFEXITED(st) && WEXITSTATUS(st) == 0) && rec->cases + 1 == upto;
					munmap(rec, sizeof(*rec));
				}
				if (ok) {
					fail_kind = "history";
					fail_msg = msg;
					fail_worker = i;
					fail_from = 0;
					fail_to = upto;
				} else if (PBT_REPEAT > 1 && WIFEXITED(status) && WEXITSTATUS(status) == exit_failed) {
					// the oracle saw a violation under a schedule which does not come again
					fail_kind = "choices";
					fail_msg = msg;
					fail_choices = c;
				} else {
					notes += "not reproduced: " + msg + "; ";
				}
			} else {
				notes += "not reproduced: " + msg + "; ";
			}
		}
	}

	stats st;
	for (unsigned i = 0; i != o.workers; ++i) {
		auto base = o.work + "/w" + std::to_string(i);
		auto before = st.evaluations;
		st.read(base);
		if (st.evaluations == before) {
			st.evaluations += ws[i].rec->cases; // worker died
		}
	}

	if (!fail_kind.empty()) {
		std::ofstream f(o.replay_out);
		auto one_line = fail_msg;
		for (auto& c : one_line) {
			if (c == '\n') {
				c = ' ';
			}
		}
		f << "# " << one_line << "\n";
		if (fail_kind == "choices") {
			std::istringstream ss(render(o, fail_choices));
			std::string line;
			while (std::getline(ss, line)) {
				f << "#   " << line << "\n";
			}
			f << "choices";
			for (auto c : fail_choices) {
				f << " " << c;
			}
			f << "\n";
		} else {
			f << "history " << o.seed << " " << fail_worker << " " << fail_from << " " << fail_to << "\n";
		}
	}

	std::ofstream f(o.out);
	f << "{\n";
	f << "\"evaluations\": " << st.evaluations << ",\n";
	f << "\"nontrivial\": " << st.nontrivial << ",\n";
	f << "\"distinct_nontrivial\": " << st.hashes.size() << ",\n";
	f << "\"per_sub_property\": " << json_map(st.per_prop) << ",\n";
	f << "\"per_sub_property_nontrivial\": " << json_map(st.per_prop_nontrivial) << ",\n";
	f << "\"labels\": " << json_map(st.labels) << ",\n";
	f << "\"rule\": " << json_str(rule) << ",\n";
	f << "\"samples\": [";
	for (size_t i = 0; i != st.samples.size(); ++i) {
		f << (i ? ",\n" : "\n") << json_str(st.samples[i]);
	}
	f << "],\n";
	f << "\"failed\": " << (fail_kind.empty() ? "false" : "true") << ",\n";
	f << "\"message\": " << json_str(fail_msg) << ",\n";
	f << "\"notes\": " << json_str(notes) << ",\n";
	f << "\"shrink_tries\": " << tries << ",\n";
	f << "\"wall_s\": " << (now() - start) << "\n";
	f << "}\n";
	return fail_kind.empty() ? 0 : 1;
}

int replay(const options& o)
{
	std::ifstream f(o.file);
	std::string line;
	while (std::getline(f, line)) {
		std::istringstream ss(line);
		std::string k;
		ss >> k;
		if (k == "choices") {
			std::vector<uint64_t> c;
			uint64_t v;
			while (ss >> v) {
				c.push_back(v);
			}
			printf("%s", render(o, c).c_str());
			auto r = try_case(o, c, PBT_HANG_CPU);
			printf("%s%s\n", r.failed ? "FAILED: " : "passed", r.msg.c_str());
			return r.failed ? 1 : 0;
		} else if (k == "history") {
			options oo = o;
			unsigned w = 0;
			uint64_t from = 0, to = 0;
			ss >> oo.seed >> w >> from >> to;
			auto rec = map_rec();
			auto pid = fork();
			if (pid == 0) {
				child_setup(o.work + "/hist.log");
				random_worker(oo, w, rec, 0, from, to, true);
			}
			watch wt;
			wt.pid = pid;
			wt.rec = rec;
			int st = 0;
			while (!wt.poll(st, PBT_HANG_CPU, PBT_HANG_WALL)) {
				usleep(5000);
			}
			bool failed = !(wt.killed.empty() && WIFEXITED(st) && WEXITSTATUS(st) == 0);
			printf("%s %s\n", failed ? "FAILED: " : "passed", failed ? describe(st, wt, o.work + "/hist.log").c_str() : "");
			return failed ? 1 : 0;
		}
	}
	fprintf(stderr, "no case in %s\n", o.file.c_str());
	return 2;
}

} // namespace
} // namespace pbt

int main(int argc, char** argv)
{
	pbt::options o;
	if (argc < 2) {
		fprintf(stderr, "usage: %s run|fuzz|replay ...\n", argv[0]);
		return 2;
	}
	o.cmd = argv[1];
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string k = argv[i];
		std::string v = argv[i + 1];
		if (k == "--seed") {
			o.seed = strtoull(v.c_str(), nullptr, 10);
		} else if (k == "--workers") {
			o.workers = unsigned(atoi(v.c_str()));
		} else if (k == "--cases") {
			o.cases = strtoull(v.c_str(), nullptr, 10);
		} else if (k == "--time") {
			o.time = atof(v.c_str());
		} else if (k == "--shrink-time") {
			o.shrink_time = atof(v.c_str());
		} else if (k == "--out") {
			o.out = v;
		} else if (k == "--replay-out") {
			o.replay_out = v;
		} else if (k == "--work") {
			o.work = v;
		} else if (k == "--file") {
			o.file = v;
		} else if (k == "--only") {
			o.only = v;
		}
	}
	if (!o.only.empty()) {
		auto& r = pbt::registry();
		r.erase(
			std::remove_if(r.begin(), r.end(), [&](const auto& p) { return std::string(p.name) != o.only; }),
			r.end()
		);
	}
	if (o.cmd == "replay") {
		return pbt::replay(o);
	}
	return pbt::campaign(o);
}
