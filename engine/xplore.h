// Explorer of sequential code which can't be instrumented together with its libraries (OpenSSL). The driver is re-executed
// for every sequence of choices, depth-first, by several processes which divide the tree by the first choices. It has
// the command line and the output of the main engine.
#pragma once
#include <map>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

struct XSkip {};

struct XShared
{
	// The current path of each process, to report a crash.
	uint8_t path[8][4096];
	uint32_t len[8];
	char msg[8][1024];
	uint32_t stop;
};

struct Explorer
{
	std::vector<uint8_t> path, width;
	size_t pos = 0;
	int worker = 0, jobs = 1, splitDepth = 5, budget = 0;
	bool replaying = false, owned = false, trace = false;
	uint64_t execs = 0, transitions = 0, maxChoices = 0, maxWidth = 0;
	std::map<std::string, uint64_t> outcomes;
	std::map<std::string, int> params;
	XShared* sh = nullptr;
	const char* scenario = "";

	bool mine(uint64_t h) const { return (h >> 7) % jobs == (uint64_t)worker; }
	uint64_t hash(size_t n) const
	{
		uint64_t h = 14695981039346656037ull;
		for (size_t i = 0; i < n; ++i) { h = (h ^ (path[i] + 1)) * 1099511628211ull; h ^= h >> 29; }
		return h;
	}
	int choose(int n)
	{
		if (n <= 1)
			return 0;
		++transitions;
		if (pos == path.size())
		{
			if (replaying) { path.push_back(0); width.push_back(n); }
			else { path.push_back(0); width.push_back(n); }
		}
		if (width[pos] != n)
		{
			if (width[pos] == 0) width[pos] = n;
			else fail("not deterministic driver: %d options instead of %d at choice %zu", n, width[pos], pos);
		}
		int r = path[pos++];
		if (sh)
		{
			if (pos <= sizeof(sh->path[0])) sh->path[worker][pos - 1] = r;
			sh->len[worker] = pos;
		}
		if (trace) printf("  choice %zu: %d of %d\n", pos - 1, r, n);
		if (!replaying && !owned && pos == (size_t)splitDepth)
		{
			if (!mine(hash(pos))) throw XSkip();
			owned = true;
		}
		return r;
	}
	bool deviate() { if (budget <= 0) return false; if (choose(2) == 0) return false; --budget; return true; }
	int param(const char* name, int def) const { auto i = params.find(name); return i == params.end() ? def : i->second; }
	void outcome(const std::string& s) { ++outcomes[s]; }
	[[noreturn]] void fail(const char* f, ...)
	{
		va_list ap;
		va_start(ap, f);
		char b[1000];
		vsnprintf(b, sizeof(b), f, ap);
		va_end(ap);
		if (sh) strcpy(sh->msg[worker], b);
		if (trace) printf("FAILED: %s\n", b);
		fflush(stdout);
		_exit(77);
	}
};

extern Explorer X;
struct XScenario { const char* name; void (*run)(); };
extern XScenario theXScenarios[];

#define REQ(c, ...) do { if (!(c)) X.fail(__VA_ARGS__); } while (0)

#ifdef XPLORE_MAIN
Explorer X;

static double xnow()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string xesc(const std::string& s)
{
	std::string r;
	for (char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32) r += ' ';
		else r += c;
	}
	return r;
}

int main(int argc, char** argv)
{
	std::string out, replayOut, replay, scen;
	double limit = 60;
	int jobs = 8, D = 0;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&]() { return std::string(argv[++i]); };
		if (a == "--scenario") scen = next();
		else if (a == "--out") out = next();
		else if (a == "--replay-out") replayOut = next();
		else if (a == "--replay") replay = next();
		else if (a == "--time") limit = atof(next().c_str());
		else if (a == "--jobs") jobs = atoi(next().c_str());
		else if (a == "--D") D = atoi(next().c_str());
		else if (a == "--P") next();
		else if (a.find('=') != std::string::npos) X.params[a.substr(0, a.find('='))] = atoi(a.c_str() + a.find('=') + 1);
	}
	XScenario* s = theXScenarios;
	while (s->name && scen != s->name)
		++s;
	if (!s->name) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
	X.scenario = s->name;
	if (!replay.empty())
	{
		FILE* f = fopen(replay.c_str(), "r");
		if (!f) return 3;
		char line[70000];
		while (fgets(line, sizeof(line), f))
			if (strncmp(line, "path:", 5) == 0)
				for (char* t = strtok(line + 5, " \n"); t; t = strtok(nullptr, " \n")) { X.path.push_back(atoi(t)); X.width.push_back(0); }
			else if (strncmp(line, "params:", 7) == 0)
				for (char* t = strtok(line + 7, " \n"); t; t = strtok(nullptr, " \n"))
					if (char* e = strchr(t, '=')) X.params[std::string(t, e - t)] = atoi(e + 1);
		fclose(f);
		X.replaying = X.trace = true;
		X.budget = X.param("D", D);
		s->run();
		printf("passed\n");
		return 0;
	}
	if (jobs > 8) jobs = 8;
	double t0 = xnow();
	XShared* sh = (XShared*)mmap(nullptr, sizeof(XShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int fds[8], pids[8];
	for (int w = 0; w < jobs; ++w)
	{
		int p[2];
		if (pipe(p) != 0) return 3;
		int pid = fork();
		if (pid < 0) return 3;
		if (pid == 0)
		{
			close(p[0]);
			X.sh = sh;
			X.worker = w;
			X.jobs = jobs;
			bool capped = false;
			while (true)
			{
				X.pos = 0;
				X.owned = jobs == 1;
				X.budget = D;
				sh->len[w] = 0;
				bool counted = true;
				try { s->run(); }
				catch (XSkip&) { counted = false; }
				if (counted && !X.owned && !X.mine(X.hash(X.pos))) counted = false;
				if (counted)
				{
					++X.execs;
					if (X.pos > X.maxChoices) X.maxChoices = X.pos;
				}
				X.path.resize(X.pos);
				X.width.resize(X.pos);
				for (uint8_t x : X.width) if (x > X.maxWidth) X.maxWidth = x;
				while (!X.path.empty() && X.path.back() + 1 >= X.width.back()) { X.path.pop_back(); X.width.pop_back(); }
				if (X.path.empty())
					break;
				++X.path.back();
				if (sh->stop || ((X.execs & 15) == 0 && xnow() - t0 > limit)) { capped = true; break; }
			}
			std::string r = std::to_string(X.execs) + " " + std::to_string(X.transitions) + " " + std::to_string(X.maxChoices) + " " +
				std::to_string(X.maxWidth) + " " + std::to_string((int)capped) + "\n";
			for (auto& o : X.outcomes) r += std::to_string(o.second) + " " + o.first + "\n";
			size_t off = 0;
			while (off < r.size())
			{
				ssize_t k = write(p[1], r.data() + off, r.size() - off);
				if (k <= 0) break;
				off += k;
			}
			_exit(0);
		}
		close(p[1]);
		fds[w] = p[0];
		pids[w] = pid;
	}
	uint64_t execs = 0, trans = 0, maxC = 0, maxW = 0;
	bool capped = false;
	int rc = 0;
	std::string message, path;
	std::map<std::string, uint64_t> oc;
	// Wait for the first end of any kind, a violation stops the others.
	std::vector<std::string> outs(jobs);
	std::vector<bool> ended(jobs, false);
	// The outputs are read one by one: they are small unless a worker is finished.
	for (int left = jobs; left > 0;)
	{
		fd_set rs;
		FD_ZERO(&rs);
		int mx = 0;
		for (int w = 0; w < jobs; ++w) if (!ended[w]) { FD_SET(fds[w], &rs); if (fds[w] > mx) mx = fds[w]; }
		if (select(mx + 1, &rs, nullptr, nullptr, nullptr) < 0) return 3;
		for (int w = 0; w < jobs; ++w)
		{
			if (ended[w] || !FD_ISSET(fds[w], &rs)) continue;
			char b[65536];
			ssize_t k = read(fds[w], b, sizeof(b));
			if (k > 0) { outs[w].append(b, k); continue; }
			ended[w] = true;
			--left;
			int st = 0;
			waitpid(pids[w], &st, 0);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
				continue;
			sh->stop = 1;
			if (rc == 0)
			{
				rc = 1;
				if (sh->msg[w][0]) message = sh->msg[w];
				else if (WIFSIGNALED(st)) message = "crash, signal " + std::to_string(WTERMSIG(st)) + " (a failed assertion or a memory error)";
				else message = "abnormal end, exit code " + std::to_string(WEXITSTATUS(st)) + " (a memory error)";
				for (uint32_t i = 0; i < sh->len[w] && i < sizeof(sh->path[0]); ++i) path += " " + std::to_string(sh->path[w][i]);
			}
		}
	}
	for (int w = 0; w < jobs; ++w)
	{
		uint64_t e = 0, t = 0, c = 0, wd = 0;
		int cp = 0;
		size_t p = outs[w].find('\n');
		if (p == std::string::npos) { capped = true; continue; }
		sscanf(outs[w].c_str(), "%lu %lu %lu %lu %d", &e, &t, &c, &wd, &cp);
		execs += e;
		trans += t;
		if (c > maxC) maxC = c;
		if (wd > maxW) maxW = wd;
		capped = capped || cp;
		for (++p; p < outs[w].size();)
		{
			size_t q = outs[w].find('\n', p);
			std::string l = outs[w].substr(p, q - p);
			size_t sp = l.find(' ');
			oc[l.substr(sp + 1)] += strtoull(l.c_str(), nullptr, 10);
			p = q + 1;
		}
	}
	FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
	fprintf(f, "{\"scenario\": \"%s\", \"rc\": %d, \"message\": \"%s\", \"bound_P\": 0, \"completed_P\": %d, \"capped\": %s, \"executions\": %lu, "
		"\"transitions\": %lu, \"states\": 0, \"choice_points\": %lu, \"max_choices\": %lu, \"max_steps\": %lu, \"threads\": 1, \"distinct_outcomes\": %zu, "
		"\"wall\": %.2f, \"known\": [], \"outcomes\": [", s->name, rc, xesc(message).c_str(), capped ? -1 : 0, capped ? "true" : "false", execs, trans,
		trans, maxW, maxC, oc.size(), xnow() - t0);
	int k = 0;
	for (auto& o : oc)
		if (k++ < 64) fprintf(f, "%s[\"%s\", %lu]", k > 1 ? ", " : "", xesc(o.first).c_str(), o.second);
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	if (rc == 1 && !replayOut.empty())
	{
		FILE* r = fopen(replayOut.c_str(), "w");
		fprintf(r, "scenario: %s\nmessage: %s\nparams: D=%d", s->name, message.c_str(), D);
		for (auto& p : X.params) fprintf(r, " %s=%d", p.first.c_str(), p.second);
		fprintf(r, "\npath:%s\n", path.c_str());
		fclose(r);
	}
	return rc;
}
#endif
