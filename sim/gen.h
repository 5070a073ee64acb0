#pragma once
#include "model.h"

struct CfgOpt {
	int dim = 0;          // 0 either
	double plastic = 0.6; // chance that a 3D configuration can yield
	int size = 1;         // 0 tiny, 1 mixed, 2 larger
	int inv = 0;          // 0 no threshold, 1 sometimes, 2 always interesting
};
Config gen_cfg(Rng &r, const CfgOpt &o);

struct HistOpt {
	int ngp = 2, steps = 4;
	double p_set = 0.8;      // chance that a point gets a new strain in a step
	double p_reject = 0.0;   // chance of a rejected trial before the accepted one (repeated)
	double p_update = 0.8, p_out = 0.1, p_info = 0.3, p_query = 0.05;
	double p_odd = 0.1;      // repeated calls, sets without homogenise, double updates
	double p_poison = 0.0;   // invalid trials, discarded again
	bool late = true;        // register points at different times
	bool info_each = false;  // record after every homogenisation
	int idbase = 0;          // distinct identifiers per instance
	bool destroy = false;
	double amp = 1;          // typical strain, in units of the yield strain
};
double strain_unit(const Config &c);
void gen_strain(Rng &r, const Config &c, double unit, double amp, const double *prev, double *e);
void gen_history(Rng &r, Plan &p, int inst, int cfg, const HistOpt &o);
void poison(Rng &r, const Config &c, double *e);
int next_id(const Plan &p);
// occasionally many points (1) or a long history (2), on grids that can afford it
int scale_mode(Rng &r, CfgOpt &o, double p);
void apply_scale(Rng &r, int mode, const Config &c, HistOpt &h);
void big_cfg(Rng &r, Config &c);
