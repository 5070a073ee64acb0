// An independent reference model: the same boundary-value problem, written from the textbook
// (dense matrices, analytic tangents, tensor algebra), sharing no code with the system under test.
#pragma once
#include "sim.h"

struct RefSol {
	bool ok = false;        // Newton reached (nearly) machine precision
	int its = 0;            // corrections until the residual was below 1e-5, from a uniform start
	double res0 = 0, res = 0;
	bool yield = false;     // some integration point is on the yield surface
	double fmax = -1e300;   // how far the most loaded integration point is beyond yielding, in strain
	double kink = 1e300;    // smallest distance, in strain, of an integration point from yielding
	double amp = 1;         // largest local strain rate per unit macroscopic strain rate
	double cond = 1;        // smallest pivot over largest
	double s[6], c[36];
	std::vector<double> u, cstrain, cstress; // per node and dim; per cell and component
	std::vector<double> state;               // what an update would commit: (cell, point, 7)
};

class Ref {
public:
	explicit Ref(const Config &c);
	Config cfg;
	int nv, np, npe, dof; // components, integration points per cell, nodes per cell, dofs
	std::vector<int> phase;
	RefSol solve(const double *eps, const std::vector<double> &old, bool tangent = true) const;
	std::vector<double> zero() const { return std::vector<double>((size_t)cfg.nelem() * 56, 0.0); }
	void linear(double *c) const; // elastic tangent
	double inv1(const double *s) const { return cfg.dim == 2 ? s[0] + s[1] : s[0] + s[1] + s[2]; }
	double margin() const { return phase_margin; } // how close a cell centre is to the interface
	bool any_plastic() const;

private:
	double phase_margin = 1e300;
	double h[3];
	std::vector<std::vector<double>> B; // per integration point: nv x (npe*dim)
	std::vector<std::vector<int>> conn;
	std::vector<int> eq; // dof -> equation or -1
	int neq = 0;
	bool material(int ph, const double *eps, const double *old, double *sig, double *C, double *nw, double *f) const;
	void affine(const double *eps, std::vector<double> &u) const;
};
