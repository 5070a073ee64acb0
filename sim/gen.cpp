#include "gen.h"
#include <algorithm>
#include <climits>
#include <cmath>

int next_id(const Plan &p)
{
	int m = 0;
	for (auto &o : p.ops)
		m = std::max(m, o.id);
	return m + 1;
}

Config gen_cfg(Rng &r, const CfgOpt &o)
{
	Config c;
	c.dim = o.dim ? o.dim : (r.chance(0.3) ? 2 : 3);
	int kind = (int)r.range(0, 99);
	int lo = 2, hi = 3;
	if (c.dim == 3) {
		if (o.size == 0 || kind < 25)
			lo = 2, hi = 3;
		else if (kind < 70)
			lo = 3, hi = 4;
		else if (kind < 92)
			lo = 3, hi = 5;
		else
			lo = 2, hi = 4;
	} else {
		if (o.size == 0 || kind < 25)
			lo = 2, hi = 4;
		else if (kind < 80)
			lo = 3, hi = 7;
		else
			lo = 2, hi = 10;
	}
	for (int i = 0; i < 3; i++)
		c.n[i] = (int)r.range(lo, hi);
	if (o.size > 0 && r.chance(o.size > 1 ? 0.25 : 0.05)) // one long direction
		c.n[r.range(0, c.dim - 1)] = (int)r.range(5, c.dim == 3 ? 8 : 16);
	if (o.size > 1 && r.chance(0.15))
		for (int i = 0; i < 3; i++)
			c.n[i] = (int)r.range(c.dim == 3 ? 5 : 8, c.dim == 3 ? 6 : 13);
	if (c.dim == 2)
		c.n[2] = (int)r.range(1, 5); // not used
	bool unit = r.chance(0.2);
	for (int i = 0; i < 3; i++)
		c.mp[i] = unit ? 1.0 : r.logu(0.5, 2.0);
	c.type = (int)r.range(0, 1);
	double lmin = std::min(c.mp[0], std::min(c.mp[1], c.dim == 3 ? c.mp[2] : 1e9));
	for (int tries = 0; tries < 20; tries++) {
		if (c.type == 0)
			c.mp[3] = r.chance(0.1) ? r.uni(0, 2) * lmin : r.uni(0.15, 0.6) * lmin;
		else
			c.mp[3] = r.chance(0.1) ? r.uni(-0.1, 1.2) * c.mp[1] : r.uni(0.1, 0.9) * c.mp[1];
		if (Ref(c).margin() > 1e-6)
			break;
		c.mp[3] = 10; // everything inside, unless a later try does better
	}
	double E = r.logu(3e6, 1e8);
	bool pl = r.chance(o.plastic);
	for (int m = 0; m < 2; m++) {
		double *p = c.par + m * 10;
		p[0] = m == 0 ? E : E * r.logu(0.2, 5);
		p[0] = std::max(p[0], 2e6);
		p[1] = r.chance(0.1) ? 0 : r.uni(0.05, 0.42);
		p[2] = p[0] * r.logu(2e-4, 3e-3);
		p[3] = r.chance(0.35) ? 0 : p[0] * r.logu(1e-3, 0.4);
		for (int i = 4; i < 10; i++)
			p[i] = r.uni(-1, 1);
		c.mt[m] = pl ? 1 : (r.chance(0.7) ? 0 : 2);
	}
	if (pl && r.chance(0.5))
		c.mt[r.range(0, 1)] = r.chance(0.8) ? 0 : 2; // only one phase yields
	if (c.dim == 3 && c.nn() > 40) // solves at the limit load take all 40 times 2000 iterations
		for (int m = 0; m < 2; m++)
			if (c.par[m * 10 + 3] == 0 && !r.chance(0.05))
				c.par[m * 10 + 3] = c.par[m * 10] * r.logu(1e-2, 0.4);
	c.mp[4] = 0;
	if (o.inv == 2 || (o.inv == 1 && r.chance(0.3))) {
		int k = (int)r.range(0, 9);
		double typ = E * strain_unit(c);
		if (k < 6)
			c.mp[4] = typ * r.logu(0.2, 5);
		else if (k < 7)
			c.mp[4] = 1e30;
		else if (k < 8)
			c.mp[4] = typ * 1e-6;
		else if (k < 9)
			c.mp[4] = 0;
		else
			c.mp[4] = -typ;
	} else if (r.chance(0.1))
		c.mp[4] = -1;
	return c;
}

int scale_mode(Rng &r, CfgOpt &o, double p)
{
	if (!r.chance(p))
		return 0;
	o.size = 0;
	return r.chance(0.5) ? 1 : 2;
}
void apply_scale(Rng &r, int mode, const Config &c, HistOpt &h)
{
	bool dear = c.dim == 3 && c.nn() >= 27, tiny = c.nn() <= (c.dim == 3 ? 8 : 9);
	if (mode == 1) { // many points
		h.ngp = tiny && r.chance(0.35) ? (int)r.range(200, 520) : dear ? (int)r.range(8, 24) : r.chance(0.3) ? (int)r.range(60, 140) : (int)r.range(12, 60);
		h.steps = (int)r.range(1, h.ngp > 50 ? 2 : 3);
		h.p_reject = std::min(h.p_reject, 0.1);
		h.p_out = std::min(h.p_out, 0.2);
	} else if (mode == 2) { // long
		h.ngp = (int)r.range(1, 2);
		h.steps = dear ? (int)r.range(10, 24) : tiny && r.chance(0.35) ? (int)r.range(100, 300) : (int)r.range(15, 60);
	}
}
void big_cfg(Rng &r, Config &c)
{
	for (int i = 0; i < c.dim; i++)
		c.n[i] = c.dim == 3 ? (int)r.range(5, 8) : (int)r.range(9, 22);
	for (int tries = 0; tries < 20 && Ref(c).margin() <= 1e-6; tries++)
		c.mp[3] = r.uni(0.15, 0.6) * c.mp[1];
	for (int m = 0; m < 2; m++)
		c.par[m * 10 + 3] = std::max(c.par[m * 10 + 3], c.par[m * 10] * 0.02);
}

double strain_unit(const Config &c)
{
	double u = 1e300;
	for (int m = 0; m < 2; m++)
		if (c.mt[m] == 1 && c.dim == 3)
			u = std::min(u, c.par[m * 10 + 2] / c.par[m * 10]);
	return u < 1e299 ? u : 1e-3;
}

void gen_strain(Rng &r, const Config &c, double unit, double amp, const double *prev, double *e)
{
	int nv = c.nvoi();
	double a = unit * amp * r.logu(0.15, 4);
	double d[6] = {0, 0, 0, 0, 0, 0};
	switch (r.range(0, 9)) {
	case 0:
	case 1:
	case 2: d[r.range(0, nv - 1)] = r.chance(0.5) ? 1 : -1; break;
	case 3: // volumetric
		for (int i = 0; i < c.dim; i++)
			d[i] = 1;
		if (r.chance(0.5))
			for (int i = 0; i < c.dim; i++)
				d[i] = -d[i];
		break;
	case 4: // pure shear
		for (int i = c.dim; i < nv; i++)
			d[i] = r.uni(-1, 1);
		break;
	default:
		for (int i = 0; i < nv; i++)
			d[i] = r.uni(-1, 1);
	}
	for (int i = 0; i < 6; i++)
		e[i] = i < nv ? a * d[i] : 0;
	int how = (int)r.range(0, 11);
	if (how < 5) // continue from the previous one
		for (int i = 0; i < nv; i++)
			e[i] += prev[i];
	else if (how == 5) // scaled
		for (int i = 0; i < nv; i++)
			e[i] = prev[i] * r.uni(-1.5, 1.5);
	else if (how == 6)
		for (int i = 0; i < nv; i++)
			e[i] = prev[i];
	else if (how == 7 && r.chance(0.5))
		for (int i = 0; i < nv; i++)
			e[i] = 0;
	// keep within a few yield strains, where the problem is well posed
	double n = 0;
	for (int i = 0; i < nv; i++)
		n = std::max(n, std::fabs(e[i]));
	double lim = 12 * unit;
	if (n > lim)
		for (int i = 0; i < nv; i++)
			e[i] *= lim / n;
}

void poison(Rng &r, const Config &c, double *e)
{
	int nv = c.nvoi();
	static const double big[] = {1e300, -1e300, 1e160, 1e154, 1e100, 1e30, 1e20, 1e8, 30, 1e-310};
	int k = (int)r.range(0, 9);
	double v;
	if (k < 3)
		v = NAN;
	else if (k < 5)
		v = r.chance(0.5) ? INFINITY : -INFINITY;
	else
		v = big[r.range(0, 9)];
	if (c.dim == 3 && c.nn() > 30 && std::isfinite(v) && v > 1 && v < 1e150 && !r.chance(0.03))
		v = 1e200;
	if (r.chance(0.6))
		e[r.range(0, nv - 1)] = v;
	else
		for (int i = 0; i < nv; i++)
			e[i] = r.chance(0.7) ? v : e[i];
	if (r.chance(0.1))
		e[r.range(0, nv - 1)] = NAN;
}

void gen_history(Rng &r, Plan &p, int inst, int cfg, const HistOpt &o)
{
	const Config &c = p.cfgs[cfg];
	int nv = c.nvoi();
	double unit = strain_unit(c);
	int id = next_id(p);
	auto add = [&](char k, int a, int b, const double *e, int tag) {
		Op op;
		op.id = id++;
		op.k = k;
		op.inst = inst;
		op.a = a;
		op.b = b;
		op.tag = tag;
		if (e)
			for (int i = 0; i < 6; i++)
				op.e[i] = i < nv ? e[i] : 0;
		p.ops.push_back(op);
	};
	add('N', cfg, 0, nullptr, 0);
	std::vector<int> ids;
	static const int odd[] = {0, -1, INT_MAX, INT_MIN, 1000000, 7, 255, 256, -77};
	while ((int)ids.size() < o.ngp) {
		int v = r.chance(0.15) && !o.idbase ? odd[r.range(0, 8)] : (int)(o.idbase + r.range(0, o.ngp * 3));
		if (!o.idbase && !ids.empty() && r.chance(0.2)) { // close relatives of another one
			unsigned w = (unsigned)r.pick(ids);
			int how = (int)r.range(0, 3);
			v = (int)(how == 0 ? 0u - w : how == 1 ? w + 1 : w ^ (1u << (r.chance(0.6) ? r.range(0, 3) * 8 + 7 : r.range(0, 31))));
		}
		if (std::find(ids.begin(), ids.end(), v) == ids.end())
			ids.push_back(v);
	}
	std::vector<std::vector<double>> cur(o.ngp, std::vector<double>(6, 0.0));
	std::vector<bool> reg(o.ngp, false);
	int tstep = (int)r.range(0, 3);
	auto side = [&](double f) { // calls that only observe
		if (r.chance(o.p_query * f)) {
			int q = (int)r.range(-5, 5) * 1000003 + 17;
			if (std::find(ids.begin(), ids.end(), q) == ids.end())
				add('Q', q, 0, nullptr, 0);
		}
		if (r.chance(o.p_out * f)) {
			int g = (int)r.range(0, o.ngp - 1);
			if (r.chance(0.05))
				add('O', ids[g] ^ 0x2000000, tstep, nullptr, 0);
			else
				add('O', ids[g], r.chance(0.05) ? -tstep : tstep, nullptr, 0);
		}
		if (!o.info_each && r.chance(o.p_info * f))
			add('I', 0, 0, nullptr, 0);
	};
	if (r.chance(o.p_odd))
		add("HUI"[r.range(0, 2)], 0, 0, nullptr, 0); // nothing registered yet
	for (int s = 0; s < o.steps; s++) {
		tstep += r.chance(0.1) ? 0 : 1;
		std::vector<int> moved;
		for (int g = 0; g < o.ngp; g++) {
			if (!reg[g] && o.late && s + 1 < o.steps && !r.chance(0.6))
				continue;
			if (!reg[g] || r.chance(o.p_set))
				moved.push_back(g);
		}
		for (size_t i = moved.size(); i > 1; i--)
			std::swap(moved[i - 1], moved[r.next() % i]);
		// invalid trials, then rejected ones
		if (r.chance(o.p_poison)) {
			for (int g : moved)
				if (reg[g] || r.chance(0.5)) {
					double e[6];
					gen_strain(r, c, unit, o.amp, cur[g].data(), e);
					if (r.chance(0.6))
						poison(r, c, e);
					add('S', ids[g], 0, e, reg[g] ? 2 : 3);
					reg[g] = true;
				}
			add('H', 0, 0, nullptr, 2);
			if (r.chance(0.2))
				add('H', 0, 0, nullptr, 2);
		}
		while (r.chance(o.p_reject)) {
			for (int g : moved)
				if (reg[g]) {
					double e[6];
					gen_strain(r, c, unit, o.amp * 2, cur[g].data(), e);
					add('S', ids[g], 0, e, 1);
				}
			add('H', 0, 0, nullptr, 1);
			if (o.info_each)
				add('I', 0, 0, nullptr, 1);
			else if (r.chance(0.3))
				side(0.5);
		}
		for (int g : moved) {
			double e[6];
			gen_strain(r, c, unit, o.amp, cur[g].data(), e);
			if (o.ngp > 1 && r.chance(0.12)) { // the strain of another point, whose history is another one
				int z = (int)r.range(0, o.ngp - 1);
				if (reg[z])
					for (int i = 0; i < nv; i++)
						e[i] = cur[z][i];
			}
			add('S', ids[g], 0, e, 0);
			reg[g] = true;
			for (int i = 0; i < 6; i++)
				cur[g][i] = e[i];
			if (r.chance(o.p_odd)) { // set twice, the second counts
				double f[6];
				gen_strain(r, c, unit, o.amp, cur[g].data(), f);
				add('S', ids[g], 0, f, 0);
				for (int i = 0; i < 6; i++)
					cur[g][i] = f[i];
			}
		}
		side(0.3);
		add('H', 0, 0, nullptr, 0);
		if (r.chance(o.p_odd))
			add('H', 0, 0, nullptr, 0);
		if (o.info_each)
			add('I', 0, 0, nullptr, 0);
		side(1);
		if (r.chance(o.p_update)) {
			add('U', 0, 0, nullptr, 0);
			if (r.chance(o.p_odd))
				add('U', 0, 0, nullptr, 0);
			side(0.7);
			if (r.chance(o.p_odd)) { // same strain again
				add('H', 0, 0, nullptr, 0);
				if (o.info_each)
					add('I', 0, 0, nullptr, 0);
			}
		}
		if (r.chance(o.p_odd * 0.5) && !moved.empty()) { // imposed, but not homogenised before the update
			int g = r.pick(moved);
			double e[6];
			gen_strain(r, c, unit, o.amp, cur[g].data(), e);
			add('S', ids[g], 0, e, 0);
			add('U', 0, 0, nullptr, 0);
			for (int i = 0; i < 6; i++)
				cur[g][i] = e[i];
		}
	}
	if (o.destroy)
		add('D', 0, 0, nullptr, 0);
}
