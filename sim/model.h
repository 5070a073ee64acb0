// The caller-visible history model (who has which strain, trial and committed state) around the reference solver,
// and readers for the files the library writes.
#pragma once
#include "ref.h"
#include <memory>
#include <set>

struct GpM {
	int id = 0;
	double eps[6] = {0, 0, 0, 0, 0, 0};  // last imposed
	double heps[6] = {0, 0, 0, 0, 0, 0}; // last homogenised
	bool homog = false;    // homogenised at least once
	bool fresh = false;    // homogenised with the current strain, nothing committed since
	bool valid = false;    // the last homogenised trial can be compared
	bool tainted = false;  // committed something that cannot be compared
	bool shortcut = false; // last homogenisation answered linearly
	int yielded = 0;       // 0 never, 1 yes, 2 too close to tell
	std::shared_ptr<RefSol> sol;
	std::vector<double> committed;
	std::vector<double> trial; // what an update would commit
	bool has_trial = false;
};

struct InstM {
	std::shared_ptr<Ref> ref;
	std::vector<GpM> gps;
	double cl[36]; // elastic tangent
	GpM *find(int id)
	{
		for (auto &g : gps)
			if (g.id == id)
				return &g;
		return nullptr;
	}
};

class Model {
public:
	explicit Model(const Plan &p) : plan(p) {}
	void step(const Op &op);
	InstM &inst(int i) { return insts[i]; }
	bool alive(int i) { return insts.count(i) && insts[i].ref; }
	bool tangent = true;

private:
	const Plan &plan;
	std::map<int, InstM> insts;
	std::map<int, std::shared_ptr<Ref>> refs;
	std::map<int, std::vector<double>> lins;
};

bool usable(const double *e, int nv, const Config &c); // a strain for which the reference is meaningful

struct ConvRec {
	int flag;
	double inv;
	std::vector<double> its, err;
};
struct EscRec {
	std::vector<double> e, s, c;
};
struct Info {
	bool ok = false;
	std::string why;
	std::vector<ConvRec> conv;
	std::vector<EscRec> esc;
	std::vector<std::vector<double>> vars;
};
std::string data_lines(const std::string &s);                 // without comments and blank lines
Info parse_info(const OpRec &r, const Config &c, size_t ngp); // the three records one call appended

struct Vtu {
	bool ok = false;
	std::string why;
	long np = 0, nc = 0;
	std::map<std::string, std::vector<double>> a;
};
Vtu parse_vtu(const std::string &s);

// contents of all files after each operation
struct FsView {
	std::map<std::string, std::string> f;
	void apply(const OpRec &r)
	{
		for (auto &d : r.files) {
			if (d.mode == 'x')
				f.erase(d.name);
			else if (d.mode == 'a')
				f[d.name] += d.data;
			else
				f[d.name] = d.data;
		}
	}
};
