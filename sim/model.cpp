#include "model.h"
#include <cmath>
#include <cstdlib>
#include <sstream>

bool usable(const double *e, int nv, const Config &c)
{
	(void)c;
	for (int i = 0; i < nv; i++)
		if (!std::isfinite(e[i]) || std::fabs(e[i]) > 0.2)
			return false;
	return true;
}

void Model::step(const Op &op)
{
	if (op.k == 'N') {
		InstM &I = insts[op.inst];
		I.gps.clear();
		auto &r = refs[op.a];
		if (!r) {
			r = std::make_shared<Ref>(plan.cfgs[op.a]);
			std::vector<double> l(36);
			r->linear(l.data());
			lins[op.a] = l;
		}
		I.ref = r;
		for (int i = 0; i < 36; i++)
			I.cl[i] = lins[op.a][i];
		return;
	}
	if (!alive(op.inst))
		return;
	InstM &I = insts[op.inst];
	const Config &c = I.ref->cfg;
	int nv = c.nvoi();
	switch (op.k) {
	case 'D': I.ref = nullptr; I.gps.clear(); break;
	case 'S': {
		GpM *g = I.find(op.a);
		if (!g) {
			I.gps.emplace_back();
			g = &I.gps.back();
			g->id = op.a;
			g->committed = I.ref->zero();
			g->trial = I.ref->zero();
		}
		for (int i = 0; i < nv; i++)
			if (g->eps[i] != op.e[i])
				g->fresh = false;
		for (int i = 0; i < nv; i++)
			g->eps[i] = op.e[i];
		break;
	}
	case 'H':
		for (auto &g : I.gps) {
			bool same = g.homog && g.fresh && g.sol;
			for (int i = 0; same && i < nv; i++)
				same = g.heps[i] == g.eps[i];
			g.homog = true;
			if (same)
				continue;
			g.fresh = true;
			for (int i = 0; i < nv; i++)
				g.heps[i] = g.eps[i];
			g.valid = !g.tainted && usable(g.eps, nv, c);
			g.shortcut = false;
			g.sol = nullptr;
			if (!g.valid) {
				// an unusable trial may or may not count as yielding
				if (I.ref->any_plastic() && g.yielded == 0)
					g.yielded = 2;
				g.has_trial = true;
				g.trial.clear();
				continue;
			}
			double sl[6];
			for (int i = 0; i < nv; i++) {
				sl[i] = 0;
				for (int j = 0; j < nv; j++)
					sl[i] += I.cl[i * nv + j] * g.eps[j];
			}
			double inv = std::fabs(I.ref->inv1(sl)), tol = c.mp[4], sc = 0;
			for (int i = 0; i < nv; i++)
				for (int j = 0; j < nv; j++)
					sc += std::fabs(I.cl[i * nv + j] * g.eps[j]);
			bool near_ = std::fabs(inv - tol) < 1e-3 * sc + 1e-12 && tol > 0;
			if (near_ && g.yielded != 1) {
				g.valid = false;
				if (I.ref->any_plastic() && g.yielded == 0)
					g.yielded = 2;
				g.has_trial = true;
				g.trial.clear();
				continue;
			}
			if (inv < tol && g.yielded == 2) { // cannot tell
				g.valid = false;
				g.has_trial = true;
				g.trial.clear();
				continue;
			}
			if (inv < tol && g.yielded == 0) {
				g.shortcut = true;
				auto s = std::make_shared<RefSol>();
				s->ok = true;
				s->its = 0;
				for (int i = 0; i < 6; i++)
					s->s[i] = i < nv ? sl[i] : 0;
				for (int i = 0; i < 36; i++)
					s->c[i] = I.cl[i];
				g.sol = s;
				continue; // nothing to commit
			}
			g.sol = std::make_shared<RefSol>(I.ref->solve(g.eps, g.committed, tangent));
			g.has_trial = true;
			if (!g.sol->ok) {
				g.valid = false;
				g.trial.clear();
				if (g.yielded == 0)
					g.yielded = 2;
				continue;
			}
			g.trial = g.sol->state;
			double tolf = 1e-8 + 1e-6 * std::fabs(g.sol->fmax);
			if (g.sol->fmax > tolf)
				g.yielded = 1;
			else if (g.sol->fmax > -tolf && g.yielded == 0)
				g.yielded = 2;
		}
		break;
	case 'U':
		for (auto &g : I.gps)
			if (g.has_trial) {
				if (g.trial.empty()) {
					if (I.ref->any_plastic())
						g.tainted = true;
				} else if (g.committed != g.trial) {
					g.committed = g.trial;
					g.fresh = false;
				}
			}
		break;
	}
}

std::string data_lines(const std::string &s)
{
	std::string out;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find('\n', i);
		bool nl = j != std::string::npos;
		if (!nl)
			j = s.size();
		std::string l = s.substr(i, j - i);
		size_t k = l.find_first_not_of(" \t\r");
		if (k != std::string::npos && l[k] != '#')
			out += l + (nl ? "\n" : "");
		i = j + 1;
	}
	return out;
}

static bool numbers(const std::string &s, std::vector<double> &v)
{
	const char *p = s.c_str();
	for (;;) {
		while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')
			p++;
		if (!*p)
			return true;
		char *e;
		double d = strtod(p, &e);
		if (e == p || (*e && *e != ' ' && *e != '\t' && *e != '\n' && *e != '\r'))
			return false;
		v.push_back(d);
		p = e;
	}
}

static bool records(const std::string &data, size_t ngp, std::vector<std::vector<double>> &out, std::string &why, const char *name)
{
	std::string d = data_lines(data);
	if (ngp == 0)
		return true;
	if (d.empty() || d.back() != '\n') {
		why = fmt("%s: the record is missing or unfinished", name);
		return false;
	}
	d.pop_back();
	if (d.find('\n') != std::string::npos) {
		why = fmt("%s: more than one line was added", name);
		return false;
	}
	size_t i = 0;
	while (true) {
		size_t j = d.find('|', i);
		std::vector<double> v;
		if (!numbers(d.substr(i, j == std::string::npos ? j : j - i), v)) {
			why = fmt("%s: not a number in the record", name);
			return false;
		}
		if (j == std::string::npos) {
			if (!v.empty())
				out.push_back(v);
			break;
		}
		out.push_back(v);
		i = j + 1;
	}
	if (out.size() != ngp) {
		why = fmt("%s: %zu entries for %zu points", name, out.size(), ngp);
		return false;
	}
	return true;
}

Info parse_info(const OpRec &r, const Config &c, size_t ngp)
{
	Info I;
	const char *nm[3] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"};
	std::vector<std::vector<double>> v[3];
	for (int f = 0; f < 3; f++) {
		const FileDelta *d = nullptr;
		for (auto &x : r.files)
			if (x.name == nm[f])
				d = &x;
		if (!d) {
			I.why = fmt("%s: nothing was added", nm[f]);
			return I;
		}
		if (!records(d->data, ngp, v[f], I.why, nm[f]))
			return I;
	}
	size_t nv = c.nvoi();
	for (auto &x : v[0]) {
		if (x.size() != 2 + 2 * (1 + nv)) {
			I.why = fmt("%s: %zu values per point", nm[0], x.size());
			return I;
		}
		ConvRec k;
		k.flag = (int)x[0];
		k.inv = x[1];
		for (size_t i = 0; i <= nv; i++) {
			k.its.push_back(x[2 + 2 * i]);
			k.err.push_back(x[3 + 2 * i]);
		}
		I.conv.push_back(k);
	}
	for (auto &x : v[1]) {
		if (x.size() != 48) {
			I.why = fmt("%s: %zu values per point", nm[1], x.size());
			return I;
		}
		EscRec k;
		k.e.assign(x.begin(), x.begin() + 6);
		k.s.assign(x.begin() + 6, x.begin() + 12);
		k.c.assign(x.begin() + 12, x.end());
		I.esc.push_back(k);
	}
	for (auto &x : v[2]) {
		if (x.size() != (size_t)c.nelem() * 56) {
			I.why = fmt("%s: %zu values per point", nm[2], x.size());
			return I;
		}
		I.vars.push_back(x);
	}
	I.ok = true;
	return I;
}

Vtu parse_vtu(const std::string &s)
{
	Vtu v;
	size_t p = s.find("NumberOfPoints=\"");
	if (p == std::string::npos) {
		v.why = "no piece";
		return v;
	}
	v.np = atol(s.c_str() + p + 16);
	p = s.find("NumberOfCells=\"");
	if (p == std::string::npos) {
		v.why = "no piece";
		return v;
	}
	v.nc = atol(s.c_str() + p + 15);
	p = 0;
	while ((p = s.find("<DataArray", p)) != std::string::npos) {
		size_t e = s.find('>', p), q = s.find("</DataArray>", p);
		if (e == std::string::npos || q == std::string::npos) {
			v.why = "unfinished array";
			return v;
		}
		std::string tag = s.substr(p, e - p);
		size_t n = tag.find("Name=\"");
		if (n == std::string::npos) {
			v.why = "array without name";
			return v;
		}
		std::string name = tag.substr(n + 6, tag.find('"', n + 6) - n - 6);
		std::vector<double> d;
		if (!numbers(s.substr(e + 1, q - e - 1), d)) {
			v.why = "array " + name + " is not numeric";
			return v;
		}
		if (v.a.count(name)) {
			v.why = "array " + name + " twice";
			return v;
		}
		v.a[name] = d;
		p = q;
	}
	size_t end = s.find("</VTKFile>");
	if (end == std::string::npos) {
		v.why = "unfinished file";
		return v;
	}
	v.ok = true;
	return v;
}
