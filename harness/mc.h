// mc.h - a small stateless model checker: exhaustive depth-first enumeration of every
// choice sequence of a "body" that drives the real code and compares it with a reference model.
//
//  * Ctx::choose(n, what)  - a choice point with n alternatives; every alternative is explored
//  * Ctx::shard()          - below this point the tree is dealt out to the worker processes
//  * Ctx::step()           - one operation executed on the implementation and compared (a transition)
//  * Ctx::state(h)         - records the (hashed) state reached
//  * Ctx::fail / REQUIRE   - the property is violated on this execution
//  * Ctx::skip()           - combination outside of the alphabet (not an execution)
#pragma once
#include <cassert>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <algorithm>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace mc
{
struct Fail
{
	std::string msg;
};
struct Skip
{
};
struct OtherShard
{
};
inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}
inline uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s)
	{
		h ^= c;
		h *= 1099511628211ull;
	}
	return h;
}
struct Status
{
	int suite, depth;
	int choice[1024], alts[1024];
	uint64_t executions, transitions, skipped;
	char desc[1 << 16];
};
struct Ctx
{
	std::vector<int> prefix;
	std::vector<std::pair<int, int>> path;
	bool thorough = false;
	bool verbose = false;
	bool replay = false;
	int shard_i = 0, shard_n = 1;
	bool sharded = false;
	uint64_t branches = 1; // product of the number of alternatives so far
	uint64_t transitions = 0, executions = 0, skipped = 0;
	std::unordered_set<uint64_t> states;
	std::string description;
	Status *status = nullptr; // shared with the parent process, survives a crash of the worker
	uint64_t suite_tag = 0;
	void write_desc()
	{
		if (!status)
			return;
		size_t n = std::min(description.size(), sizeof(status->desc) - 1);
		memcpy(status->desc, description.data(), n);
		status->desc[n] = 0;
	}
	std::string suite_name;
	int choose(int n, const char *what = "")
	{
		if (n <= 0)
			throw Skip{};
		if (!sharded && branches >= 256)
			shard();
		branches *= n;
		int v = 0;
		if (path.size() < prefix.size())
			v = prefix[path.size()];
		if (v >= n)
			throw std::logic_error("replayed choice out of range");
		if (status && path.size() < 1024)
		{
			status->choice[path.size()] = v;
			status->alts[path.size()] = n;
			status->depth = path.size() + 1;
		}
		path.push_back({v, n});
		if (verbose)
			fprintf(stderr, "  choose %s: %d of %d\n", what, v, n);
		return v;
	}
	template <class T>
	const T &pick(const std::vector<T> &v, const char *what = "")
	{
		return v[choose((int)v.size(), what)];
	}
	bool flip(const char *what = "") { return choose(2, what) == 1; }
	void shard()
	{
		if (sharded)
			return;
		sharded = true;
		if (replay || shard_n == 1)
			return;
		uint64_t h = suite_tag; // depends on the choices only: every worker computes the same deal
		for (auto &p : path)
			h = mix(h, p.first);
		if (int(mix(h, 77) % shard_n) != shard_i)
			throw OtherShard{};
	}
	void step() { ++transitions; }
	void state(uint64_t h) { states.insert(mix(h, suite_tag)); }
	void state(const std::string &s) { state(hash_str(s)); }
	// describe: canonical, human readable description of the case; written before the risky part
	// (a case that was not dealt out yet is dealt out here: no case is run twice)
	void describe(const std::string &s)
	{
		shard();
		description = s;
		write_desc();
		if (verbose)
			fprintf(stderr, "  case: %s\n", s.c_str());
	}
	void describe_more(const std::string &s) { describe(description + s); }
	[[noreturn]] void fail(const std::string &m) { throw Fail{m}; }
	[[noreturn]] void skip() { throw Skip{}; }
	std::string path_str() const
	{
		std::string s;
		for (auto &p : path)
		{
			if (!s.empty())
				s += ",";
			s += std::to_string(p.first);
		}
		return s;
	}
};
template <class... A>
std::string cat(const A &...a)
{
	std::ostringstream o;
	o.precision(15);
	((o << a), ...);
	return o.str();
}
template <class T>
std::string vstr(const T &v)
{
	std::ostringstream o;
	o << "[";
	bool f = true;
	for (auto &&x : v)
	{
		if (!f)
			o << ",";
		f = false;
		o << x;
	}
	o << "]";
	return o.str();
}
struct Suite
{
	std::string name;
	std::function<void(Ctx &)> body;
	bool quick = true; // runs in the quick tier
};
inline std::vector<Suite> &suites()
{
	static std::vector<Suite> s;
	return s;
}
struct Reg
{
	Reg(const char *n, std::function<void(Ctx &)> f, bool quick = true) { suites().push_back({n, f, quick}); }
};
inline std::string json_escape(const std::string &s)
{
	std::string o;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += c;
		}
		else if (c == '\n')
			o += "\\n";
		else if (c < 32)
			o += ' ';
		else
			o += c;
	}
	return o;
}
inline double cpu_now()
{
	timespec t;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline double wall_now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline void arm(int seconds)
{
	itimerval it{};
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &it, nullptr);
}
inline std::vector<int> parse_path(const std::string &s)
{
	std::vector<int> r;
	std::stringstream ss(s);
	std::string t;
	while (std::getline(ss, t, ','))
		if (!t.empty())
			r.push_back(atoi(t.c_str()));
	return r;
}
inline bool run_one(Ctx &c, const Suite &s, std::string &msg, int limit)
{
	bool failed = false;
	c.path.clear();
	c.description.clear();
	c.sharded = false;
	c.branches = 1;
	c.suite_name = s.name;
	c.suite_tag = hash_str(s.name);
	if (c.status)
		c.status->depth = 0, c.status->desc[0] = 0;
	arm(limit);
	try
	{
		s.body(c);
		++c.executions;
	}
	catch (Skip &)
	{
		++c.skipped;
	}
	catch (OtherShard &)
	{
	}
	catch (Fail &f)
	{
		++c.executions;
		failed = true;
		msg = f.msg;
	}
	catch (std::exception &e)
	{
		++c.executions;
		failed = true;
		msg = std::string("unexpected exception: ") + e.what();
		auto p = msg.find("Exception raised from");
		if (p != std::string::npos)
			msg.resize(p);
		if (msg.size() > 600)
			msg.resize(600);
	}
	arm(0);
	return !failed;
}
inline bool advance(Ctx &c)
{
	while (!c.path.empty() && c.path.back().first + 1 >= c.path.back().second)
		c.path.pop_back();
	if (c.path.empty())
		return false;
	c.path.back().first++;
	c.prefix.clear();
	for (auto &p : c.path)
		c.prefix.push_back(p.first);
	return true;
}
inline void emit_fail(FILE *fo, const std::string &suite, const std::string &path, const std::string &desc,
                      const std::string &msg)
{
	fprintf(fo, "{\"kind\":\"fail\",\"suite\":\"%s\",\"path\":\"%s\",\"desc\":\"%s\",\"msg\":\"%s\"}\n", suite.c_str(),
	        path.c_str(), json_escape(desc).c_str(), json_escape(msg).c_str());
	fflush(fo);
}
// explores the suites from (first suite, prefix) on; runs in a forked worker
inline void explore(Ctx &c, size_t first, std::vector<std::pair<int, int>> resume, bool resuming, const std::string &only,
                    const std::string &out, double deadline, int limit)
{
	FILE *fo = fopen(out.c_str(), "a");
	FILE *fs = fopen((out + ".states").c_str(), "ab");
	for (size_t si = first; si < suites().size(); ++si)
	{
		auto &s = suites()[si];
		if ((!only.empty() && s.name != only) || (!c.thorough && !s.quick))
			continue;
		c.status->suite = si;
		c.prefix.clear();
		c.path.clear();
		c.states.clear();
		if (!resuming)
			c.status->executions = c.status->transitions = c.status->skipped = 0;
		c.executions = c.status->executions;
		c.transitions = c.status->transitions;
		c.skipped = c.status->skipped;
		int nfail = 0;
		double t0 = cpu_now();
		bool complete = true, go = true;
		std::string sample, last_sample;
		if (resuming)
		{
			c.path = resume;
			resuming = false;
			go = advance(c);
		}
		while (go)
		{
			std::string msg;
			bool ok = run_one(c, s, msg, limit);
			c.status->executions = c.executions;
			c.status->transitions = c.transitions;
			c.status->skipped = c.skipped;
			if (sample.empty() && !c.description.empty())
				sample = s.name + ": " + c.description;
			if (!ok)
			{
				++nfail;
				if (nfail <= 500)
					emit_fail(fo, s.name, c.path_str(), c.description, msg);
				if (nfail > 20000)
				{
					complete = false;
					break;
				}
			}
			else if (!c.description.empty())
				last_sample = s.name + ": " + c.description;
			if (wall_now() > deadline)
			{
				complete = false;
				break;
			}
			go = advance(c);
		}
		for (auto h : c.states)
			fwrite(&h, 8, 1, fs);
		fprintf(fo,
		        "{\"kind\":\"suite\",\"suite\":\"%s\",\"executions\":%llu,\"skipped\":%llu,\"transitions\":%llu,\"fails\":%d,"
		        "\"complete\":%s,\"cpu\":%.3f,\"samples\":[\"%s\",\"%s\"]}\n",
		        s.name.c_str(), (unsigned long long)c.executions, (unsigned long long)c.skipped,
		        (unsigned long long)c.transitions, nfail, complete ? "true" : "false", cpu_now() - t0,
		        json_escape(sample).c_str(), json_escape(last_sample).c_str());
		fflush(fo);
		fflush(fs);
	}
	fprintf(fo, "{\"kind\":\"end\"}\n");
	fclose(fo);
	fclose(fs);
}
inline int main_(int argc, char **argv)
{
	std::string only, replay, out = "/dev/stdout";
	bool have_replay = false;
	int limit = 20, max_crashes = 40, max_hangs = 3;
	double deadline = 1e18;
	Ctx c;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--suite")
			only = next();
		else if (a == "--replay")
		{
			replay = next();
			have_replay = true;
		}
		else if (a == "--out")
			out = next();
		else if (a == "--shard")
		{
			auto v = next();
			sscanf(v.c_str(), "%d/%d", &c.shard_i, &c.shard_n);
		}
		else if (a == "--thorough")
			c.thorough = true;
		else if (a == "--deadline")
			deadline = wall_now() + atof(next().c_str());
		else if (a == "--limit")
			limit = atoi(next().c_str());
		else if (a == "--list")
		{
			for (auto &s : suites())
				printf("%s%s\n", s.name.c_str(), s.quick ? "" : " (thorough)");
			return 0;
		}
	}
	rlimit rl{0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (have_replay)
	{
		for (auto &s : suites())
			if (s.name == only)
			{
				c.prefix = parse_path(replay);
				c.replay = true;
				c.verbose = getenv("MC_VERBOSE") != nullptr;
				std::string msg;
				bool ok = run_one(c, s, msg, limit);
				printf("REPLAY suite=%s path=%s\n  case: %s\n  %s\n", s.name.c_str(), replay.c_str(), c.description.c_str(),
				       ok ? "holds" : ("VIOLATED: " + msg).c_str());
				fflush(stdout);
				_exit(ok ? 0 : 1);
			}
		fprintf(stderr, "no such suite\n");
		return 3;
	}
	c.status = (Status *)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	size_t first = 0;
	std::vector<std::pair<int, int>> resume;
	bool resuming = false;
	for (int crashes = 0; crashes < max_crashes; ++crashes)
	{
		fflush(stdout);
		pid_t p = fork();
		if (p == 0)
		{
			explore(c, first, resume, resuming, only, out, deadline, limit);
			_exit(0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
			return 0;
		// the worker died: the property is violated on the case it was executing
		Status &s = *c.status;
		resume.clear();
		std::string path;
		for (int k = 0; k < s.depth; ++k)
		{
			resume.push_back({s.choice[k], s.alts[k]});
			path += (k ? "," : "") + std::to_string(s.choice[k]);
		}
		std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? cat("did not terminate within ", limit, " s of CPU time")
		                                                            : cat("crashed: ", strsignal(WTERMSIG(st))))
		                                  : cat("exited with status ", WEXITSTATUS(st));
		FILE *fo = fopen(out.c_str(), "a");
		emit_fail(fo, suites()[s.suite].name, path, s.desc, why);
		fclose(fo);
		s.executions++;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF && --max_hangs == 0)
			return 0; // reported as incomplete too
		first = s.suite;
		resuming = true;
	}
	return 0; // too many crashes: no "end" record, the driver reports the run as incomplete
}
} // namespace mc
#define MC_SUITE(name)                                                                                                 \
	static void name(mc::Ctx &c);                                                                                      \
	static mc::Reg reg_##name(#name, name);                                                                            \
	static void name([[maybe_unused]] mc::Ctx &c)
#define MC_THOROUGH_SUITE(name)                                                                                        \
	static void name(mc::Ctx &c);                                                                                      \
	static mc::Reg reg_##name(#name, name, false);                                                                     \
	static void name([[maybe_unused]] mc::Ctx &c)
#define REQUIRE(cond, ...)                                                                                             \
	do                                                                                                                 \
	{                                                                                                                  \
		if (!(cond))                                                                                                   \
			c.fail(mc::cat(#cond, " does not hold ", ##__VA_ARGS__));                                                  \
	} while (0)
