// Shared declarations of the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <map>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	long range(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); } // inclusive
	double uni(double a, double b) { return a + (b - a) * u01(); }
	bool chance(double p) { return u01() < p; }
	double logu(double a, double b);
	double gauss();
	template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
uint64_t mix64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plan
struct Config {
	int dim = 3, n[3] = {3, 3, 3}, type = 0;
	double mp[5] = {1, 1, 1, 0.3, 0};
	int mt[2] = {0, 0};
	double par[20] = {0};
	int nvoi() const { return dim == 2 ? 3 : 6; }
	int nelem() const { return dim == 2 ? (n[0] - 1) * (n[1] - 1) : (n[0] - 1) * (n[1] - 1) * (n[2] - 1); }
	int nn() const { return dim == 2 ? n[0] * n[1] : n[0] * n[1] * n[2]; }
	double vol() const { return dim == 2 ? mp[0] * mp[1] : mp[0] * mp[1] * mp[2]; }
};

// op kinds: N construct(cfg a)  S set strain(gp a)  H homogenise  U update  O output(gp a, step b)
//           I write history files  Q query an id that is not registered (a)  D destroy
struct Op {
	int id = 0; // stable under minimisation
	char k = 'H';
	int inst = 0;
	int a = 0, b = 0;
	double e[6] = {0, 0, 0, 0, 0, 0};
	int tag = 0; // property specific: 1 = rejected trial, 2 = invalid trial, ...
};

// fault kinds: open, eio, enospc, short, eintr, close, crash (io events); alloc (allocation events)
struct Fault {
	std::string kind;
	int opid = 0;
	long nth = 0, len = 1;
	double arg = 0;
};
struct Switch {
	long edges = 1;
	int to = 0;
};

struct Plan {
	std::string prop;
	uint64_t seed = 0;
	std::vector<Config> cfgs;
	std::vector<Op> ops;
	std::vector<Fault> faults;
	std::vector<Switch> sw;
	std::map<std::string, double> knob;
	double kn(const std::string &n, double d = 0) const
	{
		auto i = knob.find(n);
		return i == knob.end() ? d : i->second;
	}
	std::string text() const;
	static bool parse(const std::string &s, Plan &p);
};

// ---------------------------------------------------------------- execution
enum { OUT_OK = 0, OUT_SIGNAL = 1, OUT_CRASHED = 2, OUT_BUDGET = 3, OUT_HEAP = 4, OUT_HARNESS = 5, OUT_TIMEOUT = 6 };

struct Env {
	int dirt = 0;          // memory content mode
	uint64_t dseed = 1;    // and its salt
	int shift = 0;         // placement of the arena
	long clock = 1000;     // what clocks start from
	int api = 0;           // 0 object, 1 procedural
	bool guard = false;    // page-guarded heap, exact-size argument arrays
	bool threads = false;  // one thread per instance, plan.sw decides
	bool iofaults = false, allocfaults = false, retry = false;
	bool carefree = false; // vary don't-care inputs too
	uint64_t sparse = 0;   // 0: everything is read after every call; otherwise reads are rare, partial, repeated and in any order
	bool hostcheck = false; // what belongs to the host process is compared before and after each call
	uint64_t host = 0;     // and set up in some way (0: as the process started)
	bool scribble = false; // the caller's arrays are overwritten after each call (they are always released)
	bool longrun = false;  // bounded by edges only
	bool hard = false;     // the budget is a bound that a correct library cannot exceed
	bool keepfs = false;   // start from Env::fs instead of an empty file system
	std::map<std::string, std::string> fs;
	uint64_t budget = 3000000000ull; // edges per op
};

struct GpRec {
	int id;
	double s[6], c[36];
	int flag;
	int has = 7;      // what was asked for: 1 stress, 2 tangent, 4 flag
	int unstable = 0; // asked again at once, the answer was another one
};
struct FileDelta {
	std::string name;
	char mode; // a append, w new or rewritten, x removed
	std::string data;
};
struct OpRec {
	int opid = -1;
	char k = 0;
	int inst = 0;
	int status = 0; // 0 ok, 1 bad_alloc, 2 other exception; +10 when repeated successfully after an exception
	std::vector<GpRec> gps;
	std::vector<FileDelta> files;
	long live_bytes = 0, live_blocks = 0, fds = 0;
	long ioc[3] = {0, 0, 0}; // open, write, close events in this op
	long al = 0, fired = 0;  // allocations in this op, faults fired in it
	long rd = 0;             // bytes read from files
	std::string host;        // what of the host process the call changed
	uint64_t edges = 0;
};
struct Trace {
	int outcome = OUT_OK, sig = 0;
	std::string note;
	int curop = -1;
	std::vector<OpRec> ops;
	std::map<std::string, std::string> files;
	std::map<std::string, long> stat;
	uint64_t edges = 0, hash = 0, switches = 0;
	const OpRec *find(int opid) const
	{
		for (auto &o : ops)
			if (o.opid == opid)
				return &o;
		return nullptr;
	}
};
Trace run_exec(const Plan &p, const Env &e);

// ---------------------------------------------------------------- SUT access (sut.cpp)
size_t sut_sizeof();
void sut_new(void *mem, int api, int dim, int *size, int type, double *mp, int *mt, double *par);
void sut_del(void *mem, int api);
void sut_set(void *m, int api, int gp, double *e);
void sut_hom(void *m, int api);
void sut_upd(void *m, int api);
void sut_out(void *m, int api, int t, int gp);
void sut_info(void *m, int api);
void sut_stress(void *m, int api, int gp, double *s);
void sut_ctan(void *m, int api, int gp, double *c);
void sut_flag(void *m, int api, int gp, int *f);

// ---------------------------------------------------------------- seams (seams.cpp)
struct Shared { // visible to the parent even if the child dies
	volatile int curop;
	volatile uint64_t edges;
};
struct Verdict {
	bool viol = false;
	bool error = false;
	bool abandoned = false; // too slow to be decided here; not an alarm, not a pass
	std::string cls, msg;
	uint64_t hash = 0;
	std::map<std::string, long> stat;
	std::map<std::string, double> mx; // largest deviations seen, for calibration
	void fail(const std::string &c, const std::string &m)
	{
		if (!viol) {
			viol = true;
			cls = c;
			msg = m;
		}
	}
};
Plan generate(const std::string &prop, uint64_t seed);
Verdict check(const Plan &p);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
