// Driver: seeded search, minimisation, replay.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef BUILD_KIND
#define BUILD_KIND "dbg"
#endif

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string slurp(const std::string &f)
{
	std::string s;
	FILE *h = fopen(f.c_str(), "r");
	if (!h)
		return s;
	char b[65536];
	size_t k;
	while ((k = fread(b, 1, sizeof b, h)) > 0)
		s.append(b, k);
	fclose(h);
	return s;
}
static bool spit(const std::string &f, const std::string &s)
{
	FILE *h = fopen(f.c_str(), "w");
	if (!h)
		return false;
	bool ok = fwrite(s.data(), 1, s.size(), h) == s.size();
	return fclose(h) == 0 && ok;
}
static uint64_t run_seed(uint64_t seed, long idx, const std::string &prop)
{
	uint64_t h = seed;
	for (char c : prop)
		h = mix64(h, c);
	return mix64(h, idx) >> 1;
}
// what the clients did, without the numbers: kinds, objects, points (in order of appearance), faults
static uint64_t shape(const Plan &p)
{
	uint64_t h = 7;
	std::map<int, int> ids;
	for (auto &o : p.ops) {
		h = mix64(h, o.k * 16 + o.inst);
		if (o.k == 'S' || o.k == 'O') {
			if (!ids.count(o.a)) {
				int n = (int)ids.size();
				ids[o.a] = n;
			}
			h = mix64(h, ids[o.a] * 8 + o.tag);
		}
	}
	for (auto &f : p.faults) {
		for (char c : f.kind)
			h = mix64(h, c);
		h = mix64(h, f.opid * 1000003ull + f.nth);
	}
	for (auto &s : p.sw)
		h = mix64(h, s.edges * 8 + s.to);
	return h;
}

// ---------------------------------------------------------------- minimisation
struct Mini {
	std::string cls;
	double until;
	int tries = 0;
	Plan best;
	bool ok(const Plan &q)
	{
		if (now() > until || tries > 3000)
			return false;
		tries++;
		Verdict v = check(q);
		return !v.error && v.viol && v.cls == cls;
	}
	bool attempt(const Plan &q)
	{
		if (!ok(q))
			return false;
		best = q;
		return true;
	}
	template <class T> void ddmin(std::vector<T> Plan::*f)
	{
		size_t chunk = std::max<size_t>(1, (best.*f).size() / 2);
		while (!(best.*f).empty()) {
			bool any = false;
			for (size_t i = 0; i < (best.*f).size() && now() < until;) {
				Plan q = best;
				size_t n = std::min(chunk, (q.*f).size() - i);
				(q.*f).erase((q.*f).begin() + i, (q.*f).begin() + i + n);
				if (attempt(q))
					any = true;
				else
					i += n;
			}
			if (chunk == 1 && !any)
				break;
			if (chunk > 1)
				chunk = (chunk + 1) / 2;
			if (now() > until)
				break;
		}
	}
	void go()
	{
		for (int round = 0; round < 3 && now() < until; round++) {
			std::string before = best.text();
			ddmin(&Plan::ops);
			ddmin(&Plan::faults);
			ddmin(&Plan::sw);
			for (size_t i = 0; i < best.ops.size(); i++)
				if (best.ops[i].k == 'S') {
					for (int k = 0; k < 6; k++)
						if (best.ops[i].e[k] != 0) {
							Plan q = best;
							q.ops[i].e[k] = 0;
							attempt(q);
						}
					for (int k = 0; k < 6; k++)
						if (best.ops[i].e[k] != 0 && std::isfinite(best.ops[i].e[k])) {
							Plan q = best;
							q.ops[i].e[k] = strtod(fmt("%.1e", q.ops[i].e[k]).c_str(), nullptr);
							if (q.ops[i].e[k] != best.ops[i].e[k])
								attempt(q);
						}
				}
			for (size_t i = 0; i < best.faults.size(); i++) {
				Plan q = best;
				q.faults[i].len = 1;
				if (best.faults[i].len != 1)
					attempt(q);
			}
			std::vector<std::string> kn;
			for (auto &k : best.knob)
				kn.push_back(k.first);
			for (auto &k : kn)
				if (best.knob[k] != 0) {
					Plan q = best;
					q.knob[k] = 0;
					attempt(q);
				}
			for (size_t c = 0; c < best.cfgs.size(); c++) {
				for (int k = 0; k < best.cfgs[c].dim; k++)
					while (best.cfgs[c].n[k] > 2 && now() < until) {
						Plan q = best;
						q.cfgs[c].n[k]--;
						if (!attempt(q))
							break;
					}
				for (int k = 0; k < 5; k++) {
					double w = k < 3 ? 1.0 : strtod(fmt("%.1e", best.cfgs[c].mp[k]).c_str(), nullptr);
					if (best.cfgs[c].mp[k] != w) {
						Plan q = best;
						q.cfgs[c].mp[k] = w;
						attempt(q);
					}
				}
				for (int k = 0; k < 20; k++) {
					double w = k % 10 > 3 ? 0.0 : strtod(fmt("%.1e", best.cfgs[c].par[k]).c_str(), nullptr);
					if (best.cfgs[c].par[k] != w) {
						Plan q = best;
						q.cfgs[c].par[k] = w;
						attempt(q);
					}
				}
			}
			if (best.text() == before)
				break;
		}
	}
};

// ---------------------------------------------------------------- replay
static int do_replay(const char *file, bool quiet)
{
	std::string s = slurp(file);
	Plan p;
	if (!Plan::parse(s, p)) {
		fprintf(stderr, "cannot read %s\n", file);
		return 2;
	}
	Verdict v = check(p);
	if (v.error) {
		fprintf(stderr, "%s: %s\n", v.abandoned ? "abandoned" : "error", v.msg.c_str());
		return v.abandoned ? 5 : 2;
	}
	size_t at = s.find("# hash ");
	if (at != std::string::npos && v.viol) {
		uint64_t h = strtoull(s.c_str() + at + 7, nullptr, 16);
		printf("trace hash %016llx, recorded %016llx: %s\n", (unsigned long long)v.hash, (unsigned long long)h, h == v.hash ? "identical execution" : "DIFFERENT EXECUTION");
	}
	if (!v.viol) {
		printf("no violation of %s\n", p.prop.c_str());
		return 0;
	}
	printf("%s: %s\n", v.cls.c_str(), v.msg.c_str());
	if (!quiet)
		printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file);
	return 1;
}

// ---------------------------------------------------------------- search
struct Board {
	volatile long next;
	volatile long first_viol; // lowest index of a violating run
	volatile long stop;
	volatile long abandoned;
	unsigned char cov[1 << 16];
};
extern unsigned char *g_cov;

static int do_run(const std::string &prop, uint64_t seed, long runs, double wall, int jobs, const std::string &dir, const std::string &self, long from, double minwall)
{
	double t0 = now();
	mkdir(dir.c_str(), 0755);
	Board *b = (Board *)mmap(0, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	b->next = from;
	b->first_viol = -1;
	b->stop = 0;
	b->abandoned = 0;
	g_cov = b->cov;
	std::vector<pid_t> pids;
	for (int j = 0; j < jobs; j++) {
		pid_t c = fork();
		if (c == 0) {
			std::string out;
			std::map<std::string, long> stat;
			std::map<std::string, double> mx;
			double slow = 0;
			uint64_t slowseed = 0;
			int rc = 0;
			for (;;) {
				if (b->stop || now() - t0 > wall)
					break;
				long i = __sync_fetch_and_add(&b->next, 1);
				if (i >= from + runs)
					break;
				uint64_t rs = run_seed(seed, i, prop);
				double a = now();
				Plan p = generate(prop, rs);
				Verdict v = check(p);
				stat["runs"]++;
				for (auto &s : v.stat)
					stat[s.first] += s.second;
				for (auto &m : v.mx)
					if (!(m.second <= mx[m.first])) {
						mx[m.first] = m.second;
						mx["@" + m.first] = (double)rs;
					}
				if (!v.error && i % 40 == 3) { // the same seed is the same execution
					Plan p2 = generate(prop, rs);
					Verdict v2 = check(p2);
					stat["determinism_checks"]++;
					if (v2.abandoned)
						v = v2;
					else if (p2.text() != p.text() || v2.hash != v.hash || v2.viol != v.viol) {
						v.error = true;
						v.msg = "two executions of one seed differ";
					}
				}
				double el = now() - a;
				if (el > slow) {
					slow = el;
					slowseed = rs;
				}
				long work = 0;
				for (auto &s : v.stat)
					if (s.first == "comparisons" || s.first.compare(0, 9, "reference") == 0 || s.first == "snapshots" || s.first == "oom_runs" || s.first == "solves" || s.first == "linear_answers" ||
					    s.first == "full_answers" || s.first == "full_with_history")
						work += s.second;
				if (prop == "C01" || prop == "C13")
					work = v.stat["operations"];
				out += fmt("run %ld %llu %llx %llx %d\n", i, (unsigned long long)rs, (unsigned long long)v.hash, (unsigned long long)shape(p), work > 0 && !v.abandoned);
				if (v.error && v.abandoned) {
					stat["abandoned"]++;
					if (__sync_fetch_and_add(&b->abandoned, 1) == 0)
						spit(dir + "/abandoned.plan", p.text());
					continue;
				}
				if (v.error) {
					spit(dir + "/error.plan", p.text());
					out += fmt("error %ld %llu %s\n", i, (unsigned long long)rs, v.msg.c_str());
					b->stop = 1;
					rc = 3;
					break;
				}
				if (v.viol) {
					spit(dir + fmt("/viol.%ld", i), p.text());
					out += fmt("viol %ld %llu %s %s\n", i, (unsigned long long)rs, v.cls.c_str(), v.msg.c_str());
					b->stop = 1;
					break;
				}
			}
			for (auto &s : stat)
				out += fmt("stat %s %ld\n", s.first.c_str(), s.second);
			for (auto &m : mx)
				out += fmt("mx %s %.17g\n", m.first.c_str(), m.second);
			out += fmt("slow %.3f %llu\n", slow, (unsigned long long)slowseed);
			if (!spit(dir + fmt("/worker.%d", j), out))
				_exit(4);
			_exit(rc);
		}
		if (c < 0)
			return 2;
		pids.push_back(c);
	}
	bool err = false;
	for (pid_t c : pids) {
		int st;
		waitpid(c, &st, 0);
		if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) {
			fprintf(stderr, "worker ended abnormally (status %d)\n", st);
			err = true;
		}
	}
	// merge
	std::map<std::string, long> stat;
	std::map<std::string, double> mx;
	std::set<std::string> traces, shapes;
	std::string runs_list, sample;
	double slow = 0;
	std::string slowseed;
	long viol = -1, nontriv = 0, nruns = 0;
	std::string errs;
	std::set<std::string> nt;
	for (int j = 0; j < jobs; j++) {
		std::string s = slurp(dir + fmt("/worker.%d", j));
		size_t i = 0;
		while (i < s.size()) {
			size_t e = s.find('\n', i);
			std::string l = s.substr(i, e - i);
			i = e + 1;
			char k[128], h[64], sh[64];
			long n;
			int w;
			unsigned long long rs;
			double d;
			if (sscanf(l.c_str(), "run %ld %llu %63s %63s %d", &n, &rs, h, sh, &w) == 5) {
				nruns++;
				traces.insert(h);
				shapes.insert(sh);
				if (w) {
					nontriv++;
					nt.insert(h);
				}
				if (runs_list.size() < 400)
					runs_list += fmt("%s%llu", runs_list.empty() ? "" : ",", rs);
			} else if (sscanf(l.c_str(), "stat %127s %ld", k, &n) == 2)
				stat[k] += n;
			else if (sscanf(l.c_str(), "mx %127s %lf", k, &d) == 2) {
				if (k[0] != '@')
					mx[k] = std::max(mx[k], d);
			} else if (sscanf(l.c_str(), "slow %lf %127s", &d, k) == 2) {
				if (d > slow) {
					slow = d;
					slowseed = k;
				}
			} else if (l.compare(0, 5, "error") == 0)
				errs += l + "\n";
			else if (sscanf(l.c_str(), "viol %ld", &n) == 1) {
				fprintf(stderr, "%s\n", l.c_str());
				if (viol < 0 || n < viol)
					viol = n;
			}
		}
	}
	double searched = now() - t0;
	long cov = 0;
	for (unsigned char c : b->cov)
		cov += c != 0;
	int rc = 0;
	std::string vmsg, vfile;
	if (!errs.empty() || err) {
		fprintf(stderr, "%s", errs.c_str());
		rc = 2;
	}
	long mtries = 0;
	if (viol >= 0) {
		Plan p;
		Plan::parse(slurp(dir + fmt("/viol.%ld", viol)), p);
		Verdict v = check(p);
		if (!v.viol || v.error) {
			fprintf(stderr, "run %ld does not repeat: %s\n", viol, v.msg.c_str());
			rc = 2;
		} else {
			Mini m;
			m.cls = v.cls;
			m.until = now() + minwall;
			m.best = p;
			m.go();
			mtries = m.tries;
			Verdict f = check(m.best);
			if (!f.viol || f.error) {
				m.best = p;
				f = v;
			}
			std::string t = m.best.text();
			t += fmt("# build %s\n# class %s\n# hash %016llx\n", BUILD_KIND, f.cls.c_str(), (unsigned long long)f.hash);
			std::string msg = f.msg;
			for (char &ch : msg)
				if (ch == '\n')
					ch = ' ';
			t += "# " + msg + "\n";
			vfile = dir + "/replay.plan";
			spit(vfile, t);
			// a fresh process must see the same thing
			pid_t c = fork();
			if (c == 0) {
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 1);
				execl(self.c_str(), self.c_str(), "replayq", vfile.c_str(), (char *)0);
				_exit(9);
			}
			int st = 0;
			waitpid(c, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
				fprintf(stderr, "the violation of run %ld (%s) is not reproduced by a fresh process\n", viol, f.cls.c_str());
				rc = 2;
			} else {
				rc = 1;
				vmsg = f.cls + ": " + f.msg;
				fprintf(stderr, "%s\n", vmsg.c_str());
			}
		}
	}
	// sample plan
	Plan sp = generate(prop, run_seed(seed, from, prop));
	std::string js = "{\n";
	auto esc = [](const std::string &s) {
		std::string o;
		for (char c : s)
			if (c == '"' || c == '\\')
				o += std::string("\\") + c;
			else if (c == '\n')
				o += "\\n";
			else if ((unsigned char)c < 32 || (unsigned char)c > 126)
				o += '?';
			else
				o += c;
		return o;
	};
	js += fmt("\"property\":\"%s\",\"seed\":%llu,\"build\":\"%s\",\"runs\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"distinct_traces\":%zu,\"distinct_shapes\":%zu,\n", prop.c_str(),
	          (unsigned long long)seed, BUILD_KIND, nruns, nontriv, nt.size(), traces.size(), shapes.size());
	js += fmt("\"search_s\":%.2f,\"wall_s\":%.2f,\"blocks_reached\":%ld,\"slowest_run_s\":%.2f,\"slowest_seed\":\"%s\",\"minimise_tries\":%ld,\n", searched, now() - t0, cov, slow, slowseed.c_str(), mtries);
	js += fmt("\"rc\":%d,\"violation\":\"%s\",\"replay\":\"%s\",\"run_seeds\":[%s],\n\"stat\":{", rc, esc(vmsg).c_str(), esc(vfile).c_str(), runs_list.c_str());
	bool first = true;
	for (auto &s : stat) {
		js += fmt("%s\"%s\":%ld", first ? "" : ",", s.first.c_str(), s.second);
		first = false;
	}
	js += "},\n\"max\":{";
	first = true;
	for (auto &s : mx) {
		js += fmt("%s\"%s\":%s", first ? "" : ",", s.first.c_str(), std::isfinite(s.second) ? fmt("%.4g", s.second).c_str() : "1e999");
		first = false;
	}
	js += "},\n\"sample\":\"" + esc(sp.text()) + "\"\n}\n";
	spit(dir + "/summary.json", js);
	return rc;
}

int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	if ((mode == "replay" || mode == "replayq") && argc > 2)
		return do_replay(argv[2], mode == "replayq");
	if (mode == "gen" && argc > 3) {
		printf("%s", generate(argv[2], strtoull(argv[3], nullptr, 10)).text().c_str());
		return 0;
	}
	if (mode == "hash" && argc > 3) { // print the verdict of one seed
		Plan p = generate(argv[2], strtoull(argv[3], nullptr, 10));
		Verdict v = check(p);
		printf("%016llx viol=%d error=%d %s %s\n", (unsigned long long)v.hash, v.viol, v.error, v.cls.c_str(), v.msg.c_str());
		for (auto &s : v.stat)
			printf("  %s %ld\n", s.first.c_str(), s.second);
		for (auto &s : v.mx)
			printf("  max %s %g\n", s.first.c_str(), s.second);
		return v.viol;
	}
	if (mode == "run" && argc > 7) {
		char self[4096];
		ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
		if (k <= 0)
			return 2;
		self[k] = 0;
		return do_run(argv[2], strtoull(argv[3], nullptr, 10), atol(argv[4]), atof(argv[5]), atoi(argv[6]), argv[7], self, argc > 8 ? atol(argv[8]) : 0, argc > 9 ? atof(argv[9]) : 60);
	}
	fprintf(stderr, "usage: sim run PROP SEED RUNS WALL JOBS DIR [FROM] [MINIMISE_S] | replay FILE | gen PROP SEED | hash PROP SEED\n");
	return 2;
}
