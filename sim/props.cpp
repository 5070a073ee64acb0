#include <sstream>
// What each property generates and how it is judged.
#include "gen.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>

static const uint64_t SENTINEL = 0x7ff4deadbeef0001ull;

// ---------------------------------------------------------------- running
// no correct call makes more edges than this
static double work_bound(const Plan &p)
{
	double m = 0;
	for (size_t k = 0; k < p.cfgs.size(); k++) {
		const Config &c = p.cfgs[k];
		double nv = c.nvoi(), nrow = (double)c.nn() * c.dim, nnz = c.dim == 2 ? 18 : 81;
		std::set<int> ids;
		for (auto &o : p.ops)
			if (o.k == 'S')
				ids.insert(o.a);
		m = std::max(m, (ids.size() + 1) * (1 + nv) * 42 * (2002 * nrow * (nnz * 2 + 40) + c.nelem() * 8 * 100000.0));
	}
	return m;
}
static bool over(const Trace &t)
{
	return t.outcome == OUT_BUDGET && t.note.find("work bound") != std::string::npos;
}
static Trace run(const Plan &p, const Env &e, Verdict &v)
{
	Trace t = run_exec(p, e);
	if (over(t) && !e.hard && work_bound(p) <= 2e10 && !e.threads) {
		Env f = e;
		f.hard = f.longrun = true;
		f.budget = (uint64_t)work_bound(p);
		t = run_exec(p, f);
	} else if (over(t) && !e.hard)
		t.outcome = OUT_TIMEOUT;
	v.stat["executions"]++;
	v.stat["operations"] += t.ops.size();
	v.stat["edges"] += t.edges;
	v.stat["switches"] += t.switches;
	for (auto &s : t.stat)
		v.stat[s.first] += s.second;
	v.hash = mix64(v.hash, t.hash);
	if (t.outcome == OUT_HARNESS || t.outcome == OUT_TIMEOUT) {
		v.error = true;
		v.abandoned = t.outcome == OUT_TIMEOUT;
		v.msg = "harness: " + t.note;
	}
	return t;
}
static bool died(const Trace &t, Verdict &v, const char *what)
{
	if (v.error)
		return true;
	if (t.outcome == OUT_OK) {
		for (auto &o : t.ops)
			if (o.status == 1 || o.status == 2) {
				v.fail("exception", fmt("%s: operation %d (%c) threw", what, o.opid, o.k));
				return true;
			}
		return false;
	}
	static const char *nm[] = {"ok", "signal", "crash", "work-bound", "heap", "harness", "timeout"};
	v.fail(std::string("died-") + nm[t.outcome], fmt("%s: %s (operation %d)", what, t.note.c_str(), t.curop));
	return true;
}
static Plan without(const Plan &p, std::function<bool(const Op &)> drop)
{
	Plan q = p;
	q.ops.clear();
	for (auto &o : p.ops)
		if (!drop(o))
			q.ops.push_back(o);
	return q;
}
static bool same_bits(const GpRec &a, const GpRec &b)
{
	return !memcmp(a.s, b.s, sizeof a.s) && !memcmp(a.c, b.c, sizeof a.c) && a.flag == b.flag && a.id == b.id;
}
static const GpRec *gp_of(const OpRec &o, int id)
{
	for (auto &g : o.gps)
		if (g.id == id)
			return &g;
	return nullptr;
}
static std::string show(const double *x, int n)
{
	std::string s;
	for (int i = 0; i < n; i++)
		s += fmt("%s%.9g", i ? " " : "", x[i]);
	return s;
}
// everything both runs returned is the same, operation by operation
static bool same_numbers(const Trace &a, const Trace &b, Verdict &v, const char *cls, const char *what)
{
	size_t n = std::min(a.ops.size(), b.ops.size());
	for (size_t i = 0; i < n; i++) {
		const OpRec &x = a.ops[i], &y = b.ops[i];
		if (x.status % 10 != y.status % 10 && x.status < 10 && y.status < 10) {
			v.fail(cls, fmt("%s: operation %d (%c) ended differently", what, x.opid, x.k));
			return false;
		}
		if (x.gps.size() != y.gps.size()) {
			v.fail(cls, fmt("%s: operation %d: different points", what, x.opid));
			return false;
		}
		for (size_t g = 0; g < x.gps.size(); g++)
			if (!same_bits(x.gps[g], y.gps[g])) {
				bool st = memcmp(x.gps[g].s, y.gps[g].s, sizeof x.gps[g].s), fl = x.gps[g].flag != y.gps[g].flag;
				v.fail(cls, fmt("%s: after operation %d (%c), point %d: %s differs: stress [%s] flag %d, expected [%s] flag %d", what, x.opid, x.k, x.gps[g].id,
				                st ? "stress" : fl ? "flag" : "tangent", show(y.gps[g].s, 6).c_str(), y.gps[g].flag, show(x.gps[g].s, 6).c_str(), x.gps[g].flag));
				return false;
			}
	}
	if (a.ops.size() != b.ops.size()) {
		v.fail(cls, fmt("%s: different number of operations", what));
		return false;
	}
	return true;
}

// ---------------------------------------------------------------- tolerances
static double hmin(const Config &c)
{
	double h = 1e300;
	for (int i = 0; i < c.dim; i++)
		h = std::min(h, c.mp[i] / (c.n[i] - 1));
	return h;
}
static double emax(const Config &c) { return std::max(c.par[0], c.par[10]); }
static double vmax(const double *e, int n)
{
	double m = 0;
	for (int i = 0; i < n; i++)
		m = std::max(m, std::fabs(e[i]));
	return m;
}
// residual forces below 1e-5 are not resolved by the library: stresses are exact up to this
static double stress_floor(const Config &c) { return 1e-5 * 3 / pow(hmin(c), c.dim - 1); }
static double tol_stress(const Config &c, const double *eps)
{
	double f = c.vol() > 0 ? stress_floor(c) : 0;
	return 2e-6 * emax(c) * vmax(eps, c.nvoi()) + f;
}
static double tol_ctan(const Config &c) { return 6e-4 * emax(c) + stress_floor(c) / 1e-8 * 0.1; }

static double diff(const double *a, const double *b, int n)
{
	double m = 0;
	for (int i = 0; i < n; i++) {
		double d = std::fabs(a[i] - b[i]);
		if (!(d == d))
			return INFINITY;
		m = std::max(m, d);
	}
	return m;
}
static void note(Verdict &v, const char *k, double x)
{
	double &m = v.mx[k];
	if (x > m)
		m = x;
}
// the tangent is a finite difference: it is only defined away from the onset of yielding
static bool ctan_defined(const GpM &g)
{
	if (g.shortcut)
		return true;
	if (!g.sol || !g.sol->ok)
		return false;
	return g.sol->kink > 1e-8 * g.sol->amp * 20 + 1e-9 && g.sol->amp < 200 && g.sol->cond > 1e-7;
}
static bool comparable(const GpM &g) { return g.valid && !g.tainted && g.sol && g.sol->ok && g.sol->its <= 12; }

// Two runs of the library should agree about a point up to the solver tolerance. Differences beyond it are judged
// with the reference: they count unless the trial is one where the solver legitimately does not converge.
struct Judge {
	const Plan &p;
	Verdict &v;
	Model m;
	size_t at = 0;
	Judge(const Plan &pl, Verdict &ve) : p(pl), v(ve), m(pl) {}
	// state of the model right after operation opid
	GpM *state(int opid, int inst, int gp)
	{
		while (at < p.ops.size()) {
			m.step(p.ops[at]);
			if (p.ops[at++].id == opid)
				break;
		}
		return m.alive(inst) ? m.inst(inst).find(gp) : nullptr;
	}
};
static bool agree(const Config &c, const double *eps, const GpRec &a, const GpRec &b, bool flags)
{
	int nv = c.nvoi();
	if (same_bits(a, b))
		return true;
	if (flags && a.flag != b.flag)
		return false;
	if (!(diff(a.s, b.s, nv) <= tol_stress(c, eps) + 1e-6 * vmax(a.s, nv)))
		return false;
	return diff(a.c, b.c, nv * nv) <= tol_ctan(c);
}

// ================================================================ C01
static void gen_c01(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.15) ? 2 : 1;
	int sm = scale_mode(r, co, 0.03);
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.1) ? 8 : 3);
	h.steps = (int)r.range(1, 5);
	h.p_reject = 0.3;
	h.p_out = 0.25;
	h.p_info = 0.4;
	h.p_odd = 0.25;
	h.p_poison = r.chance(0.1) && !sm ? 0.3 : 0;
	h.amp = r.chance(0.3) ? 0.3 : 1.5;
	apply_scale(r, sm, p.cfgs[0], h);
	gen_history(r, p, 0, 0, h);
	if (r.chance(0.2)) { // a second object re-using the memory of the first
		Op d;
		d.id = next_id(p);
		d.k = 'D';
		p.ops.push_back(d);
		if (r.chance(0.5))
			p.cfgs.push_back(gen_cfg(r, co));
		h.steps = 2;
		gen_history(r, p, 0, (int)p.cfgs.size() - 1, h);
	}
	p.knob["variants"] = r.range(2, 3);
	for (int i = 0; i < 3; i++) {
		p.knob[fmt("dirt%d", i)] = r.range(1, 8);
		p.knob[fmt("dseed%d", i)] = r.range(1, 1000000);
		p.knob[fmt("shift%d", i)] = r.range(0, 50);
		p.knob[fmt("clock%d", i)] = r.range(1, 2000000000);
		p.knob[fmt("care%d", i)] = r.range(0, 1);
	}
	p.knob["api"] = r.chance(0.3);
}
static bool same_files(const Trace &a, const Trace &b, Verdict &v, const char *cls, const char *what)
{
	for (size_t i = 0; i < a.ops.size() && i < b.ops.size(); i++) {
		const auto &x = a.ops[i].files, &y = b.ops[i].files;
		bool eq = x.size() == y.size();
		std::string nm = eq ? "" : "set of files";
		for (size_t k = 0; eq && k < x.size(); k++)
			if (x[k].name != y[k].name || x[k].mode != y[k].mode || x[k].data != y[k].data) {
				eq = false;
				nm = x[k].name;
			}
		if (!eq) {
			v.fail(cls, fmt("%s: operation %d (%c) wrote different files: %s", what, a.ops[i].opid, a.ops[i].k, nm.c_str()));
			return false;
		}
	}
	if (a.files != b.files) {
		v.fail(cls, fmt("%s: files differ at the end", what));
		return false;
	}
	return true;
}
static void check_c01(const Plan &p, Verdict &v)
{
	Env e0;
	e0.api = (int)p.kn("api");
	Trace t0 = run(p, e0, v);
	if (died(t0, v, "zeroed memory"))
		return;
	int n = (int)p.kn("variants", 2);
	for (int i = 0; i < n; i++) {
		Env e;
		e.api = e0.api;
		e.dirt = (int)p.kn(fmt("dirt%d", i), 1);
		e.dseed = (uint64_t)p.kn(fmt("dseed%d", i), 1);
		e.shift = (int)p.kn(fmt("shift%d", i));
		e.clock = (long)p.kn(fmt("clock%d", i), 5);
		e.carefree = p.kn(fmt("care%d", i)) > 0;
		v.stat[fmt("fault.dirt%d", e.dirt)]++;
		Trace t = run(p, e, v);
		std::string w = fmt("memory content mode %d", e.dirt);
		if (died(t, v, w.c_str()))
			return;
		if (!same_numbers(t0, t, v, "numbers-differ", w.c_str()) || !same_files(t0, t, v, "files-differ", w.c_str()))
			return;
	}
}

// ================================================================ C02
static void gen_c02(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.plastic = 0.75;
	bool many = r.chance(0.12);
	co.size = many ? 0 : 1;
	p.cfgs.push_back(gen_cfg(r, co));
	const Config &c = p.cfgs[0];
	HistOpt h;
	h.ngp = many ? (r.chance(0.15) && c.nn() < 27 ? (int)r.range(65, 140) : (int)r.range(10, 40)) : (int)r.range(2, 5);
	h.steps = many ? (int)r.range(1, 3) : (int)r.range(2, 6);
	h.p_set = r.uni(0.3, 1);
	h.p_reject = 0.2;
	h.p_update = r.uni(0.4, 1);
	h.p_out = 0.15;
	h.p_info = 0.1;
	h.amp = r.chance(0.3) ? 0.4 : 1.5;
	gen_history(r, p, 0, 0, h);
	// some of the points are hostile: nothing they do may reach the others
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S' && std::find(ids.begin(), ids.end(), o.a) == ids.end())
			ids.push_back(o.a);
	if (r.chance(0.5) && ids.size() > 1) {
		int h1 = r.pick(ids);
		bool small = c.nn() <= 27;
		for (auto &o : p.ops)
			if (o.k == 'S' && o.a == h1) {
				o.tag = 4;
				if (r.chance(0.6)) {
					if (small || c.dim == 2)
						poison(r, c, o.e);
					else
						o.e[r.range(0, c.nvoi() - 1)] = NAN;
				}
			}
	}
}
static bool hostile(const Plan &p, int id)
{
	for (auto &o : p.ops)
		if (o.k == 'S' && o.a == id && o.tag == 4)
			return true;
	return false;
}
static void check_c02(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	const Config &c = p.cfgs[0];
	Env e;
	Trace all = run(p, e, v);
	if (died(all, v, "all points"))
		return;
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S' && std::find(ids.begin(), ids.end(), o.a) == ids.end())
			ids.push_back(o.a);
	size_t limit = 6;
	Rng pick(p.seed + 99);
	while (ids.size() > limit)
		ids.erase(ids.begin() + pick.range(0, (long)ids.size() - 1));
	for (int id : ids) {
		if (hostile(p, id))
			continue;
		Plan q = without(p, [&](const Op &o) { return (o.k == 'S' || o.k == 'O') && o.a != id; });
		Trace solo = run(q, e, v);
		if (died(solo, v, "one point"))
			return;
		double eps[6] = {0, 0, 0, 0, 0, 0};
		const OpRec *last = nullptr;
		std::map<int, const OpRec *> by;
		for (auto &o : solo.ops)
			by[o.opid] = &o;
		std::unique_ptr<Judge> j;
		for (size_t i = 0; i < all.ops.size(); i++) {
			const OpRec &o = all.ops[i];
			const Op &op = p.ops[i];
			if (by.count(o.opid))
				last = by[o.opid];
			if (op.k == 'S' && op.a == id)
				memcpy(eps, op.e, sizeof eps);
			if (op.k == 'Q')
				continue;
			const GpRec *a = gp_of(o, id), *b = last ? gp_of(*last, id) : nullptr;
			if (!a)
				continue;
			if (!b)
				continue;
			v.stat["comparisons"]++;
			if (agree(c, eps, *b, *a, true))
				continue;
			if (!j)
				j.reset(new Judge(q, v));
			GpM *g = j->state(last->opid, 0, id);
			v.stat["judged"]++;
			if (!g || (g->homog && !comparable(*g)))
				continue;
			bool stress_bad = !(diff(a->s, b->s, c.nvoi()) <= tol_stress(c, eps));
			bool flag_bad = a->flag != b->flag && g->yielded != 2;
			if (!stress_bad && !flag_bad && !ctan_defined(*g) && g->homog)
				continue;
			v.fail("interference", fmt("point %d after operation %d (%c): with others stress [%s] flag %d, alone [%s] flag %d", id, o.opid, o.k, show(a->s, c.nvoi()).c_str(),
			                           a->flag, show(b->s, c.nvoi()).c_str(), b->flag));
			return;
		}
	}
}

// ================================================================ reference comparison, shared by several properties
struct RefOpt {
	bool stress = true, ctan = true, vars = false, flag = false;
	const char *cls = "reference";
};
// Walk the history with the model and compare what the library returned after every homogenisation.
static void against_reference(const Plan &p, const Trace &t, Verdict &v, const RefOpt &ro)
{
	Model m(p);
	m.tangent = ro.ctan;
	std::map<int, std::map<int, bool>> stuck; // points whose last solve did not converge
	std::map<int, std::set<int>> taint;
	for (size_t i = 0; i < p.ops.size() && i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (o.status % 10 == 5)
			continue;
		m.step(op);
		if (!m.alive(op.inst))
			continue;
		InstM &I = m.inst(op.inst);
		const Config &c = I.ref->cfg;
		int nv = c.nvoi();
		if (op.k == 'N')
			taint[op.inst].clear(), stuck[op.inst].clear();
		if (op.k == 'H') {
			// the record that follows tells which solves converged
			const Info *inf = nullptr;
			static Info hold;
			if (i + 1 < t.ops.size() && p.ops[i + 1].k == 'I' && p.ops[i + 1].inst == op.inst) {
				hold = parse_info(t.ops[i + 1], c, I.gps.size());
				if (hold.ok)
					inf = &hold;
			}
			for (size_t g = 0; g < I.gps.size(); g++) {
				GpM &G = I.gps[g];
				bool conv = comparable(G);
				bool cconv = conv;
				if (inf) {
					const ConvRec &k = inf->conv[g];
					conv = G.valid && !G.tainted && G.sol && G.sol->ok && k.its[0] < 40 && k.err[0] < 1e-4;
					cconv = conv;
					for (int q = 1; q <= nv; q++)
						if (!(k.its[q] < 40 && k.err[q] < 1e-4))
							cconv = false;
				}
				stuck[op.inst][G.id] = !conv;
				if (!conv || taint[op.inst].count(G.id)) {
					v.stat["skipped"]++;
					continue;
				}
				const GpRec *a = gp_of(o, G.id);
				if (!a)
					continue;
				v.stat["reference_comparisons"]++;
				if (G.shortcut)
					v.stat["reference_shortcuts"]++;
				else if (G.sol->yield)
					v.stat["reference_plastic"]++;
				double ts = tol_stress(c, G.eps) + 2e-6 * emax(c) * vmax(G.committed.data(), (int)G.committed.size());
				if (G.shortcut)
					ts += 1e-3 * emax(c) * vmax(G.eps, nv);
				double d = diff(a->s, G.sol->s, nv);
				note(v, G.shortcut ? "stress_shortcut/tol" : "stress/tol", d / (ts + 1e-300));
				if (ro.stress && !(d <= ts)) {
					v.fail(std::string(ro.cls) + "-stress", fmt("point %d after operation %d (H): stress [%s], reference [%s], strain [%s], tolerance %.3g", G.id, o.opid,
					                              show(a->s, nv).c_str(), show(G.sol->s, nv).c_str(), show(G.eps, nv).c_str(), ts));
					return;
				}
				if (ro.ctan && cconv && ctan_defined(G)) {
					double tc = tol_ctan(c);
					if (!I.ref->any_plastic()) // nothing but rounding of the finite difference
						tc = 2e-5 * emax(c) + stress_floor(c) / 1e-8 * 0.1;
					double dc = diff(a->c, G.sol->c, nv * nv);
					note(v, G.shortcut ? "ctan_shortcut/tol" : G.sol->yield ? "ctan_plastic/tol" : "ctan_elastic/tol", dc / tc);
					v.stat["reference_tangents"]++;
					if (!(dc <= tc)) {
						v.fail(std::string(ro.cls) + "-tangent", fmt("point %d after operation %d (H): tangent [%s], reference [%s], tolerance %.3g", G.id, o.opid,
						                               show(a->c, nv * nv).c_str(), show(G.sol->c, nv * nv).c_str(), tc));
						return;
					}
				}
				if (ro.flag && G.yielded != 2 && a->flag != G.yielded) {
					v.fail(std::string(ro.cls) + "-flag", fmt("point %d after operation %d (H): flag %d, reference %d", G.id, o.opid, a->flag, G.yielded));
					return;
				}
			}
		}
		if (op.k == 'U')
			for (auto &G : I.gps)
				if (stuck[op.inst][G.id] && I.ref->any_plastic())
					taint[op.inst].insert(G.id);
		if (op.k == 'I' && ro.vars) {
			Info inf = parse_info(o, c, I.gps.size());
			if (!inf.ok)
				continue;
			for (size_t g = 0; g < I.gps.size(); g++) {
				GpM &G = I.gps[g];
				if (G.tainted || taint[op.inst].count(G.id))
					continue;
				double mxv = vmax(G.committed.data(), (int)G.committed.size());
				double d = diff(inf.vars[g].data(), G.committed.data(), (int)G.committed.size());
				double tv = 3e-6 * mxv + 2e-8 * strain_unit(c) + 3 * stress_floor(c) / emax(c);
				note(v, "vars/tol", d / tv);
				v.stat["reference_states"]++;
				if (!(d <= tv)) {
					size_t w = 0;
					for (size_t q = 0; q < G.committed.size(); q++)
						if (!(std::fabs(inf.vars[g][q] - G.committed[q]) < d))
							w = q;
					v.fail(std::string(ro.cls) + "-history", fmt("point %d at operation %d: committed variable %zu (cell %zu point %zu) is %.9g, reference %.9g", G.id, o.opid, w % 7,
					                               w / 56, w / 7 % 8, inf.vars[g][w], G.committed[w]));
					return;
				}
			}
		}
	}
}

// Where both phases are equally stiff, the mean stress of any trial, converged or not, is the elastic one of its strain less the mean plastic
// strain that goes with it: what an update commits has to be that of the trial whose stress was reported.
static void equally_stiff(Config &c)
{
	c.par[10] = c.par[0];
	c.par[11] = c.par[1];
}
static bool commits_what_was_reported(const Plan &p, const Trace &t, Verdict &v)
{
	struct S {
		double e[6] = {0}, h[6] = {0}, s[6] = {0}, ce[6] = {0}, cs[6] = {0};
		bool trial = false, com = false;
		double top = 0; // largest strain it has seen: what later differences are rounded to
	};
	std::map<int, S> pts;
	std::vector<int> ids;
	const Config *c = nullptr;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (o.status)
			continue;
		if (op.inst != 0)
			return true;
		if (op.k == 'N') {
			c = &p.cfgs[op.a];
			pts.clear(), ids.clear();
			if (c->dim != 3 || c->par[0] != c->par[10] || c->par[1] != c->par[11])
				c = nullptr;
		}
		if (!c)
			continue;
		if (op.k == 'S') {
			if (!pts.count(op.a))
				ids.push_back(op.a);
			memcpy(pts[op.a].e, op.e, sizeof op.e);
		} else if (op.k == 'H') {
			for (auto &g : pts) {
				const GpRec *r = gp_of(o, g.first);
				g.second.trial = r != nullptr;
				if (!r)
					continue;
				memcpy(g.second.h, g.second.e, sizeof op.e);
				for (int k = 0; k < 6; k++) {
					g.second.s[k] = r->s[k];
					if (g.second.top == g.second.top && !(std::fabs(g.second.e[k]) <= g.second.top))
						g.second.top = std::fabs(g.second.e[k]);
					double se = std::fabs(r->s[k]) / c->par[0];
					if (g.second.top == g.second.top && !(se <= g.second.top))
						g.second.top = se;
				}
			}
		} else if (op.k == 'U') {
			for (auto &g : pts) {
				g.second.com = g.second.trial;
				memcpy(g.second.ce, g.second.h, sizeof op.e);
				memcpy(g.second.cs, g.second.s, sizeof op.e);
			}
		} else if (op.k == 'I') {
			Info in = parse_info(o, *c, ids.size());
			if (!in.ok)
				continue;
			double E = c->par[0], nu = c->par[1], mu = E / (2 * (1 + nu)), la = E * nu / ((1 + nu) * (1 - 2 * nu));
			for (size_t g = 0; g < ids.size(); g++) {
				S &q = pts[ids[g]];
				for (double y : in.vars[g])
					if (q.top == q.top && !(std::fabs(y) <= q.top))
						q.top = std::fabs(y);
				if (!q.com)
					continue;
				double m[6] = {0, 0, 0, 0, 0, 0}, big = 0, ee = 0;
				const std::vector<double> &x = in.vars[g];
				bool fin = true;
				for (size_t b = 0; b + 7 <= x.size(); b += 7)
					for (int k = 0; k < 6; k++) {
						m[k] += x[b + k] / (x.size() / 7);
						big = std::max(big, std::fabs(x[b + k]));
						fin &= std::isfinite(x[b + k]);
					}
				for (int k = 0; k < 6; k++) {
					fin &= std::isfinite(q.ce[k]) && std::isfinite(q.cs[k]) && std::fabs(q.ce[k]) < 1e100;
					ee = std::max(ee, std::fabs(q.ce[k]));
				}
				if (!fin || !(q.top <= 1e100))
					continue;
				v.stat["elastic_laws"]++;
				double tr = q.ce[0] + q.ce[1] + q.ce[2], tol = (la + 2 * mu) * (4e-6 * ee + 8e-6 * big + 1e-11 * q.top + 1e-12) + 1e-7;
				for (int k = 0; k < 6; k++) {
					double w = k < 3 ? la * tr + 2 * mu * (q.ce[k] - m[k]) : mu * (q.ce[k] - 2 * m[k]);
					note(v, "elastic-law", std::fabs(w - q.cs[k]) / tol);
					if (!(std::fabs(w - q.cs[k]) <= tol)) {
						v.fail("not-the-reported-trial", fmt("operation %d, point %d: stress %d of the last homogenised trial was %g, with the committed plastic strain it would be %g", op.id, ids[g], k, q.cs[k], w));
						return false;
					}
				}
			}
		}
	}
	return true;
}

// ================================================================ C03
static void gen_c03(Rng &r, Plan &p)
{
	CfgOpt co;
	co.dim = r.chance(0.95) ? 3 : 2;
	co.plastic = 0.97;
	co.size = r.chance(0.1) ? 2 : 1;
	bool lng = r.chance(0.15);
	if (lng)
		co.size = 0;
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = lng ? (int)r.range(15, 40) : (int)r.range(3, 8);
	h.p_reject = r.uni(0.2, 0.6);
	h.p_update = r.uni(0.5, 1);
	h.p_odd = 0.2;
	h.p_out = 0.05;
	h.p_info = 0.6;
	h.amp = r.uni(0.5, 2.5);
	if (lng && r.chance(0.35))
		apply_scale(r, r.chance(0.3) ? 2 : 1, p.cfgs[0], h);
	bool stiff = r.chance(0.2);
	if (stiff)
		equally_stiff(p.cfgs[0]);
	gen_history(r, p, 0, 0, h);
	if (stiff && p.cfgs[0].nn() <= 27 && r.chance(0.7)) // far beyond what can be brought below the tolerance
		for (auto &o : p.ops)
			if (o.k == 'S' && r.chance(0.25)) {
				double f = r.logu(10, 1e7);
				for (int i = 0; i < 6; i++)
					o.e[i] *= f;
			}
	p.knob["dirt"] = r.range(0, 8);
}
static std::vector<double> file_numbers(const OpRec &o, const char *name)
{
	std::vector<double> v;
	for (auto &f : o.files)
		if (f.name == name) {
			std::string s = data_lines(f.data);
			for (char &ch : s)
				if (ch == '|')
					ch = ' ';
			const char *q = s.c_str();
			char *e;
			for (;;) {
				double d = strtod(q, &e);
				if (e == q)
					break;
				v.push_back(d);
				q = e;
			}
		}
	return v;
}
static void check_c03(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	const Config &c = p.cfgs[0];
	int nv = c.nvoi();
	Env e;
	e.dirt = (int)p.kn("dirt");
	Trace t = run(p, e, v);
	if (died(t, v, "history"))
		return;
	// 1. the record of committed variables moves at updates only
	std::vector<double> prev;
	bool may = true;
	size_t nreg = 0, last = 0;
	std::set<int> reg;
	std::map<int, std::vector<double>> cur;   // imposed
	std::map<int, GpRec> held;                // result of the committed trial
	std::map<int, std::vector<double>> heps;  // strain of the last homogenisation
	std::map<int, bool> moved;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (o.status == 5)
			continue;
		if (op.k == 'N')
			reg.clear(), may = true, prev.clear();
		if (op.k == 'S')
			reg.insert(op.a);
		nreg = reg.size();
		if (op.k == 'U' || nreg != last)
			may = true;
		last = nreg;
		if (op.k == 'I') {
			std::vector<double> now = file_numbers(o, "micropp_int_vars_n.dat");
			v.stat["comparisons"]++;
			if (!may && now != prev) {
				v.fail("moved-without-update", fmt("committed variables recorded at operation %d differ from the previous record although no update was made", o.opid));
				return;
			}
			prev = now;
			may = false;
		}
	}
	if (!commits_what_was_reported(p, t, v))
		return;
	// 2. updating twice is updating once: any U whose predecessor (ignoring observers) is a U can be dropped
	// 3. rejected trials leave no trace
	{
		bool lastU = false;
		Plan q = p;
		q.ops.clear();
		bool any = false;
		for (auto &o : p.ops) {
			if (o.tag == 1 && (o.k == 'S' || o.k == 'H' || o.k == 'I')) {
				any = true;
				continue;
			}
			if (o.k == 'U' && lastU) {
				any = true;
				continue;
			}
			if (o.k == 'U')
				lastU = true;
			else if (o.k == 'H' || o.k == 'S' || o.k == 'N' || o.k == 'D')
				lastU = false;
			q.ops.push_back(o);
		}
		if (any) {
			Trace w = run(q, e, v);
			if (died(w, v, "history without the discarded trials"))
				return;
			std::map<int, const OpRec *> by;
			for (auto &o : w.ops)
				by[o.opid] = &o;
			std::unique_ptr<Judge> j;
			std::map<int, std::vector<double>> eps;
			for (size_t i = 0; i < t.ops.size(); i++) {
				const Op &op = p.ops[i];
				if (op.k == 'S')
					eps[op.a].assign(op.e, op.e + 6);
				if (op.k != 'H' || op.tag == 1 || !by.count(op.id))
					continue;
				for (auto &a : t.ops[i].gps) {
					const GpRec *b = gp_of(*by[op.id], a.id);
					if (!b)
						continue;
					v.stat["comparisons"]++;
					if (agree(c, eps[a.id].data(), *b, a, false) && !(b->flag && !a.flag))
						continue;
					if (!j)
						j.reset(new Judge(q, v));
					GpM *g = j->state(op.id, op.inst, a.id);
					v.stat["judged"]++;
					if (!g || !comparable(*g) || c.mp[4] > 0)
						continue;
					bool sb = !(diff(a.s, b->s, nv) <= tol_stress(c, eps[a.id].data()));
					if (!sb && !ctan_defined(*g))
						continue;
					v.fail("trace-of-a-rejected-trial", fmt("point %d after operation %d: stress [%s] with discarded trials, [%s] without", a.id, op.id, show(a.s, nv).c_str(), show(b->s, nv).c_str()));
					return;
				}
			}
		}
	}
	// 4. stresses and committed variables are those of the reference history
	RefOpt ro;
	ro.ctan = false;
	ro.vars = true;
	ro.cls = "history";
	against_reference(p, t, v, ro);
}

// ================================================================ C04
static void gen_c04(Rng &r, Plan &p)
{
	int n = (int)r.range(2, r.chance(0.2) ? 4 : 2);
	bool same = r.chance(0.3);
	std::vector<Plan> parts;
	for (int i = 0; i < n; i++) {
		CfgOpt co;
		co.inv = 1;
		co.size = r.chance(0.5) ? 0 : 1;
		if (i > 0 && same)
			p.cfgs.push_back(p.cfgs[0]);
		else
			p.cfgs.push_back(gen_cfg(r, co));
		Plan q;
		q.cfgs = p.cfgs;
		HistOpt h;
		h.ngp = (int)r.range(1, 2);
		h.steps = (int)r.range(1, 3);
		h.p_reject = 0.1;
		h.p_out = 0.35;
		h.p_info = 0.1;
		h.idbase = 100 * (i + 1);
		h.amp = r.uni(0.3, 2);
		h.destroy = r.chance(0.5);
		gen_history(r, q, i, i, h);
		parts.push_back(q);
	}
	// interleave whole calls
	std::vector<size_t> at(n, 0);
	int id = 1;
	for (;;) {
		std::vector<int> left;
		for (int i = 0; i < n; i++)
			if (at[i] < parts[i].ops.size())
				left.push_back(i);
		if (left.empty())
			break;
		int i = r.pick(left);
		Op o = parts[i].ops[at[i]++];
		o.id = id++;
		p.ops.push_back(o);
	}
	// and decide where, inside calls, control passes to another thread
	Env e;
	e.threads = true;
	Trace t = run_exec(p, e);
	uint64_t total = t.edges > 10 ? t.edges : 10;
	int k = (int)r.range(3, r.chance(0.3) ? 400 : 60);
	int style = (int)r.range(0, 2);
	for (int i = 0; i < k; i++) {
		Switch s;
		double mean = (double)total / k;
		if (style == 0)
			s.edges = (long)r.logu(1, mean * 4 + 2);
		else if (style == 1)
			s.edges = (long)(-log(r.u01() + 1e-12) * mean) + 1;
		else
			s.edges = r.chance(0.5) ? r.range(1, 200) : (long)(r.u01() * 2 * mean) + 1;
		s.to = (int)r.range(0, n - 1);
		p.sw.push_back(s);
	}
}
static void check_c04(const Plan &p, Verdict &v)
{
	int n = 0;
	for (auto &o : p.ops)
		n = std::max(n, o.inst + 1);
	std::vector<Trace> solo(n);
	Env e;
	for (int i = 0; i < n; i++) {
		Plan q = without(p, [&](const Op &o) { return o.inst != i; });
		if (q.ops.empty())
			continue;
		solo[i] = run(q, e, v);
		if (died(solo[i], v, "one object"))
			return;
	}
	uint64_t sum = 0;
	for (auto &t : solo)
		sum += t.edges;
	for (int mode = 0; mode < 2; mode++) {
		Env f;
		f.hard = true;
		f.budget = 2 * sum + 400000000;
		f.threads = mode == 1;
		f.dirt = mode;
		if (f.threads && n < 2)
			break;
		Trace t = run(p, f, v);
		const char *w = mode ? "calls interleaved inside" : "calls interleaved";
		if (died(t, v, w))
			return;
		if (mode)
			v.stat["thread_schedules"]++;
		for (auto &o : t.ops) {
			const OpRec *b = solo[o.inst].find(o.opid);
			if (!b)
				continue;
			if (b->gps.size() != o.gps.size()) {
				v.fail("interference", fmt("%s: object %d, operation %d: different points", w, o.inst, o.opid));
				return;
			}
			for (size_t g = 0; g < o.gps.size(); g++) {
				v.stat["comparisons"]++;
				if (!same_bits(o.gps[g], b->gps[g])) {
					v.fail("interference", fmt("%s: object %d after operation %d (%c), point %d: stress [%s] flag %d, alone [%s] flag %d", w, o.inst, o.opid, o.k, o.gps[g].id,
					                           show(o.gps[g].s, 6).c_str(), o.gps[g].flag, show(b->gps[g].s, 6).c_str(), b->gps[g].flag));
					return;
				}
			}
		}
		for (int i = 0; i < n; i++)
			for (auto &f2 : solo[i].files)
				if (f2.first.size() > 4 && f2.first.substr(f2.first.size() - 4) == ".vtu") {
					auto it = t.files.find(f2.first);
					v.stat["comparisons"]++;
					if (it == t.files.end() || it->second != f2.second) {
						v.fail("interference-snapshot", fmt("%s: object %d: %s differs from the one written when alone", w, i, f2.first.c_str()));
						return;
					}
				}
	}
}

// ================================================================ C05
static void io_faults(Rng &r, Plan &p, int n, const std::vector<std::string> &kinds)
{
	Env e;
	Plan q = p;
	q.faults.clear();
	Trace t = run_exec(q, e);
	std::vector<const OpRec *> c;
	for (auto &o : t.ops)
		if (o.ioc[0] + o.ioc[1] + o.ioc[2] > 0)
			c.push_back(&o);
	if (c.empty())
		return;
	for (int i = 0; i < n; i++) {
		const OpRec *o = r.pick(c);
		Fault f;
		f.kind = r.pick(kinds);
		f.opid = o->opid;
		int ty = f.kind == "open" || f.kind == "crasho" ? 0 : f.kind == "close" || f.kind == "crashc" ? 2 : 1;
		if (!o->ioc[ty])
			continue;
		f.nth = r.range(0, o->ioc[ty] - 1);
		f.len = r.chance(0.45) ? 1 : r.chance(0.6) ? r.range(2, 8) : r.chance(0.5) ? r.range(10, 400) : 1000000000; // the last is: from now on
		if (f.kind == "short" || f.kind == "eintr") // these end: a kernel that never makes progress is not a failure one can meet
			f.len = std::min<int64_t>(f.len, 400);
		f.arg = r.u01();
		p.faults.push_back(f);
	}
}
static void gen_c05(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.6) ? 0 : 1;
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.1) ? 12 : 3);
	h.steps = (int)r.range(2, 6);
	h.p_reject = 0.15;
	h.p_out = 0.6;
	h.p_info = 0.7;
	h.amp = r.uni(0.3, 2);
	h.destroy = r.chance(0.3);
	gen_history(r, p, 0, 0, h);
	bool benign = r.chance(0.25);
	std::vector<std::string> k = {"open", "eio", "enospc", "short", "eintr", "close"}, use;
	if (benign)
		use = {"short", "eintr"};
	else
		for (auto &x : k)
			if (r.chance(0.6))
				use.push_back(x);
	if (use.empty())
		use = k;
	io_faults(r, p, (int)r.range(1, 6), use);
	p.knob["api"] = r.chance(0.3);
}
static bool is_vtu(const std::string &n) { return n.size() > 4 && n.compare(n.size() - 4, 4, ".vtu") == 0; }
static void check_c05(const Plan &p, Verdict &v)
{
	Env e;
	e.api = (int)p.kn("api");
	Trace t0 = run(p, e, v);
	if (died(t0, v, "healthy files"))
		return;
	Env f = e;
	f.iofaults = true;
	f.dirt = 1;
	f.hard = true;
	f.budget = 2 * t0.edges + 400000000;
	Trace t = run(p, f, v);
	if (died(t, v, "failing files"))
		return;
	if (!same_numbers(t0, t, v, "computation-affected", "failing files"))
		return;
	bool hard = false;
	for (auto &x : p.faults)
		if (x.kind != "short" && x.kind != "eintr")
			hard = true;
	if (!hard && t.files != t0.files) {
		for (auto &x : t0.files)
			if (!t.files.count(x.first) || t.files[x.first] != x.second) {
				v.fail("benign-fault-visible", fmt("%s is not complete although writes were only short or interrupted", x.first.c_str()));
				return;
			}
		v.fail("benign-fault-visible", "an extra file appeared");
		return;
	}
	FsView a, b;
	for (size_t i = 0; i < t.ops.size(); i++) {
		a.apply(t0.ops[i]);
		b.apply(t.ops[i]);
		if (t.ops[i].fired)
			continue;
		for (auto &d : t0.ops[i].files) {
			v.stat["comparisons"]++;
			if (is_vtu(d.name) || d.mode != 'a') {
				if (b.f[d.name] != a.f[d.name]) {
					v.fail("later-output-lost", fmt("operation %d (%c) met no failure but %s is not what it should be", t.ops[i].opid, t.ops[i].k, d.name.c_str()));
					return;
				}
				continue;
			}
			std::string got;
			for (auto &x : t.ops[i].files)
				if (x.name == d.name)
					got = x.data;
			if (data_lines(got) != data_lines(d.data)) {
				v.fail("later-output-lost", fmt("operation %d (%c) met no failure but added %zu bytes to %s instead of %zu", t.ops[i].opid, t.ops[i].k, got.size(), d.name.c_str(), d.data.size()));
				return;
			}
		}
	}
}

// ================================================================ C06
static void gen_c06(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.6) ? 0 : 1;
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	bool many = r.chance(0.1);
	h.ngp = many ? (int)r.range(8, 30) : (int)r.range(1, 4);
	h.steps = many ? 2 : (int)r.range(1, 6);
	h.p_reject = 0.2;
	h.p_out = 0.15;
	h.p_info = 0.8;
	h.p_odd = 0.2;
	h.amp = r.uni(0.3, 2);
	h.destroy = r.chance(0.3);
	gen_history(r, p, 0, 0, h);
	io_faults(r, p, (int)r.range(2, 5), {"crash", "crash", "crash", "crasho", "crashc"});
	p.knob["api"] = r.chance(0.3);
	// what an earlier run left behind
	p.knob["stale"] = r.chance(0.4) ? r.range(1, 1000) : 0;
}
static const char *HIST[3] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"};
static bool near6(double a, double b)
{
	if (a == b || (std::isnan(a) && std::isnan(b)))
		return true;
	return std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b));
}
static void check_c06(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	Env e;
	e.api = (int)p.kn("api");
	int stale = (int)p.kn("stale");
	if (stale) {
		e.keepfs = true;
		Rng r(stale);
		for (int f = 0; f < 3; f++) {
			std::string s = "# gp_id : 9 \n";
			int n = (int)r.range(1, 50);
			for (int i = 0; i < n; i++)
				s += " 1  9.990000e-01  9.990000e-01  | ";
			if (r.chance(0.5))
				s += "\n";
			if (r.chance(0.8))
				e.fs[HIST[f]] = s;
		}
		if (r.chance(0.5))
			e.fs["micropp_materials.dat"] = "  9.990000e+06 2.500000e-01 1.000000e+04 0.000000e+00\n 1 2 3 4\n 5 6 7 8\n";
	}
	Trace t0 = run(p, e, v);
	if (died(t0, v, "history files"))
		return;
	FsView fs;
	fs.f = e.fs;
	std::vector<std::map<std::string, std::string>> after; // contents after each operation
	std::vector<int> ids;
	std::map<int, std::vector<double>> eps;
	bool started = false;
	int lines = 0;
	const Config *c = nullptr;
	for (size_t i = 0; i < t0.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t0.ops[i];
		fs.apply(o);
		after.push_back(fs.f);
		if (o.status == 5)
			continue;
		if (op.k == 'N') {
			c = &p.cfgs[op.a];
			ids.clear();
			eps.clear();
			lines = 0;
			started = false;
			for (auto n : HIST)
				if (fs.f.count(n) && !fs.f[n].empty()) {
					v.fail("not-fresh", fmt("%s still holds %zu bytes of an earlier run after construction", n, fs.f[n].size()));
					return;
				}
			std::istringstream is(fs.f["micropp_materials.dat"]);
			std::string l;
			int nl = 0;
			bool good = true;
			while (std::getline(is, l)) {
				double x[5];
				good &= nl < 2 && sscanf(l.c_str(), "%lf %lf %lf %lf %lf", x, x + 1, x + 2, x + 3, x + 4) == 4;
				for (int k = 0; good && k < 4; k++)
					good &= near6(x[k], c->par[nl * 10 + k]);
				nl++;
			}
			v.stat["comparisons"]++;
			if (!good || nl != 2) {
				v.fail("materials", fmt("operation %d (N): micropp_materials.dat does not hold the two materials: %s", o.opid, fs.f["micropp_materials.dat"].substr(0, 200).c_str()));
				return;
			}
		}
		if (op.k == 'S') {
			if (std::find(ids.begin(), ids.end(), op.a) == ids.end())
				ids.push_back(op.a);
			eps[op.a].assign(op.e, op.e + 6);
		}
		if (op.k != 'I') {
			for (auto &d : o.files)
				for (auto n : HIST)
					if (op.k != 'N' && (d.name == n || d.name == "micropp_materials.dat")) {
						v.fail("unrequested-record", fmt("operation %d (%c) changed %s", o.opid, o.k, d.name.c_str()));
						return;
					}
			continue;
		}
		if (!c)
			continue;
		for (auto &d : o.files)
			if (d.mode != 'a' && !(d.mode == 'w' && !started && d.name.substr(0, 8) == "micropp_")) {
				v.fail("record-lost", fmt("operation %d (I) rewrote %s", o.opid, d.name.c_str()));
				return;
			}
		if (!started) {
			std::string h = "# gp_id :";
			for (int id : ids)
				h += fmt(" %d", id);
			for (int f = 0; f < 2; f++) {
				const std::string &s = fs.f[HIST[f]];
				if (s.compare(0, 1, "#") != 0 || s.compare(0, h.size(), h) != 0) {
					v.fail("header", fmt("%s does not start with the list of points: %s", HIST[f], s.substr(0, 60).c_str()));
					return;
				}
			}
			started = true;
		} else
			for (auto &d : o.files)
				if (d.data.find('#') != std::string::npos) {
					v.fail("header", fmt("%s has a second header", d.name.c_str()));
					return;
				}
		lines++;
		if (ids.empty())
			continue;
		Info inf = parse_info(o, *c, ids.size());
		if (!inf.ok) {
			v.fail("record", fmt("operation %d (I): %s", o.opid, inf.why.c_str()));
			return;
		}
		int nv = c->nvoi();
		for (size_t g = 0; g < ids.size(); g++) {
			const GpRec *a = gp_of(o, ids[g]);
			if (!a)
				continue;
			v.stat["comparisons"]++;
			std::string bad;
			if (inf.conv[g].flag != a->flag)
				bad = fmt("flag %d, query says %d", inf.conv[g].flag, a->flag);
			for (int k = 0; k < nv; k++) {
				if (!near6(inf.esc[g].e[k], eps[ids[g]][k]))
					bad = fmt("strain %d is %.9g, imposed %.9g", k, inf.esc[g].e[k], eps[ids[g]][k]);
				if (!near6(inf.esc[g].s[k], a->s[k]))
					bad = fmt("stress %d is %.9g, query says %.9g", k, inf.esc[g].s[k], a->s[k]);
			}
			for (int k = 0; k < nv * nv; k++)
				if (!near6(inf.esc[g].c[k], a->c[k]))
					bad = fmt("tangent %d is %.9g, query says %.9g", k, inf.esc[g].c[k], a->c[k]);
			if (!a->flag)
				for (double x : inf.vars[g])
					if (x != 0) {
						bad = "internal variables of a point that never yielded";
						break;
					}
			if (!bad.empty()) {
				v.fail("record", fmt("operation %d (I), point %d: %s", o.opid, ids[g], bad.c_str()));
				return;
			}
		}
	}
	// the variables recorded are the committed ones
	{
		RefOpt ro;
		ro.stress = ro.ctan = false;
		ro.vars = true;
		ro.cls = "record";
		against_reference(p, t0, v, ro);
		if (v.viol)
			return;
	}
	// crashes
	for (auto &ft : p.faults) {
		Plan q = p;
		q.faults.assign(1, ft);
		Env f = e;
		f.iofaults = true;
		Trace t = run(q, f, v);
		if (v.error)
			return;
		if (t.outcome == OUT_OK)
			continue; // the point was not reached
		if (t.outcome != OUT_CRASHED) {
			died(t, v, "crash run");
			return;
		}
		v.stat["crashes"]++;
		size_t k = 0;
		while (k < p.ops.size() && p.ops[k].id != t.curop)
			k++;
		if (k == p.ops.size())
			continue;
		std::map<std::string, std::string> before = k ? after[k - 1] : e.fs, &full = after[k];
		for (auto n : HIST) {
			std::string got = t.files.count(n) ? t.files[n] : "";
			if (p.ops[k].k == 'N') { // either still the old one or already empty
				if (!got.empty() && got != before[n]) {
					v.fail("crash-construct", fmt("%s holds neither its old content nor nothing after a crash during construction", n));
					return;
				}
				continue;
			}
			const std::string &b = before[n], &a = full[n];
			if (got.compare(0, b.size(), b) != 0 || got.size() < b.size()) {
				v.fail("crash-loses-records", fmt("%s: %zu bytes were recorded before operation %d, %zu survive the crash (%s)", n, b.size(), p.ops[k].id, got.size(), t.note.c_str()));
				return;
			}
			if (a.compare(0, got.size(), got) != 0) {
				v.fail("crash-garbage", fmt("%s: after the crash it does not end with a beginning of the record being written (%s)", n, t.note.c_str()));
				return;
			}
		}
		// the files of a restarted run are those of a first run
		Env g = e;
		g.keepfs = true;
		g.fs = t.files;
		Trace w = run(p, g, v);
		if (died(w, v, "restarted run"))
			return;
		v.stat["restarts"]++;
		for (auto n : HIST) {
			std::string x = t0.files.count(n) ? t0.files[n] : "", y = w.files.count(n) ? w.files[n] : "";
			if (x != y) {
				v.fail("restart", fmt("%s of a restarted run differs from that of a first run", n));
				return;
			}
		}
	}
}

// ================================================================ C07
static void gen_c07(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 0;
	co.plastic = 0.75;
	co.size = r.chance(0.2) ? 2 : 1;
	int sm = scale_mode(r, co, 0.04);
	p.cfgs.push_back(gen_cfg(r, co));
	bool big = !sm && r.chance(0.02);
	if (big)
		big_cfg(r, p.cfgs[0]);
	if (r.chance(0.1))
		p.cfgs[0].mp[4] = 1e30;
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = (int)r.range(1, 5);
	h.p_reject = 0.2;
	h.p_out = 0.8;
	h.p_info = 0.1;
	h.p_odd = 0.15;
	h.amp = r.uni(0.4, 2.2);
	apply_scale(r, sm, p.cfgs[0], h);
	if (big)
		h.ngp = 1, h.steps = (int)r.range(1, 2);
	gen_history(r, p, 0, 0, h);
	for (auto &o : p.ops)
		if (o.k == 'O' && r.chance(0.25)) // any number may name a step
			switch (r.range(0, 4)) {
			case 0: o.b = (int)r.range(100, 1000); break;
			case 1: o.b = (int)r.range(32000, 70000); break;
			case 2: o.b = (int)r.range(99990, 2147483647); break;
			case 3: o.b = 0; break;
			default: o.b = -(int)r.range(1, 2147483647);
			}
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.2);
}
static bool close_arr(const std::vector<double> &a, const double *b, size_t n, double tol, double rel, double *worst)
{
	if (a.size() != n)
		return false;
	*worst = 0;
	for (size_t i = 0; i < n; i++) {
		double t = tol + rel * std::fabs(b[i]);
		double d = std::fabs(a[i] - b[i]);
		if (!(d <= t))
			return false;
		*worst = std::max(*worst, d / t);
	}
	return true;
}
static void check_c07(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "with snapshots"))
		return;
	Plan q = without(p, [](const Op &o) { return o.k == 'O'; });
	Trace w = run(q, e, v);
	if (died(w, v, "without snapshots"))
		return;
	{
		Trace a = t;
		a.ops.clear();
		for (auto &o : t.ops)
			if (o.k != 'O')
				a.ops.push_back(o);
		if (!same_numbers(w, a, v, "not-an-observer", "snapshots taken"))
			return;
		for (size_t i = 0; i < a.ops.size(); i++) {
			auto &x = a.ops[i].files, &y = w.ops[i].files;
			bool eq = x.size() == y.size();
			for (size_t k = 0; eq && k < x.size(); k++)
				eq = x[k].name == y[k].name && x[k].data == y[k].data;
			if (!eq) {
				v.fail("not-an-observer", fmt("operation %d (%c) writes other records when snapshots were taken before", a.ops[i].opid, a.ops[i].k));
				return;
			}
		}
		// an output call must not change what queries return either
		const OpRec *prev = nullptr;
		for (auto &o : t.ops) {
			if (o.k == 'O' && prev)
				for (auto &g : o.gps) {
					const GpRec *b = gp_of(*prev, g.id);
					if (b && !same_bits(*b, g)) {
						v.fail("not-an-observer", fmt("operation %d (O) changed what is reported for point %d", o.opid, g.id));
						return;
					}
				}
			if (o.k != 'Q')
				prev = &o;
		}
	}
	Model m(p);
	m.tangent = false;
	FsView fs;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		fs.apply(o);
		if (o.status == 5)
			continue;
		m.step(op);
		if (op.k != 'O')
			continue;
		InstM &I = m.inst(op.inst);
		const Config &c = I.ref->cfg;
		GpM *g = I.find(op.a);
		std::string name = fmt("micropp_%d_%d.vtu", op.a, op.b);
		for (auto &d : o.files)
			if (!g || d.name != name) {
				v.fail("other-file", fmt("operation %d (O) touched %s", o.opid, d.name.c_str()));
				return;
			}
		if (!g)
			continue;
		if (!fs.f.count(name)) {
			v.fail("no-file", fmt("operation %d (O) wrote no %s", o.opid, name.c_str()));
			return;
		}
		Vtu x = parse_vtu(fs.f[name]);
		if (!x.ok) {
			v.fail("malformed", fmt("%s: %s", name.c_str(), x.why.c_str()));
			return;
		}
		v.stat["snapshots"]++;
		int d = c.dim, nv = c.nvoi(), nn = c.nn(), ne = c.nelem(), npe = I.ref->npe;
		if (x.np != nn || x.nc != ne) {
			v.fail("grid", fmt("%s: %ld points and %ld cells", name.c_str(), x.np, x.nc));
			return;
		}
		double ww;
		std::vector<double> pos, con, off, typ, ph;
		int n[3] = {c.n[0], c.n[1], d == 3 ? c.n[2] : 1};
		for (int k = 0; k < n[2]; k++)
			for (int jj = 0; jj < n[1]; jj++)
				for (int ii = 0; ii < n[0]; ii++) {
					pos.push_back(ii * c.mp[0] / (n[0] - 1));
					pos.push_back(jj * c.mp[1] / (n[1] - 1));
					pos.push_back(d == 3 ? k * c.mp[2] / (n[2] - 1) : 0);
				}
		static const int SX[8] = {0, 1, 1, 0, 0, 1, 1, 0}, SY[8] = {0, 0, 1, 1, 0, 0, 1, 1}, SZ[8] = {0, 0, 0, 0, 1, 1, 1, 1};
		for (int k = 0; k < (d == 3 ? n[2] - 1 : 1); k++)
			for (int jj = 0; jj < n[1] - 1; jj++)
				for (int ii = 0; ii < n[0] - 1; ii++)
					for (int a = 0; a < npe; a++)
						con.push_back(((k + (d == 3 ? SZ[a] : 0)) * n[1] + jj + SY[a]) * n[0] + ii + SX[a]);
		for (int k = 0; k < ne; k++) {
			off.push_back((k + 1) * npe);
			typ.push_back(d == 2 ? 9 : 12);
			ph.push_back(I.ref->phase[k]);
		}
		auto need = [&](const char *nm, const std::vector<double> &want, double tol, double rel) {
			if (!x.a.count(nm)) {
				v.fail("array-missing", fmt("%s has no array %s", name.c_str(), nm));
				return false;
			}
			if (!close_arr(x.a[nm], want.data(), want.size(), tol, rel, &ww)) {
				const std::vector<double> &got = x.a[nm];
				size_t bad = 0;
				for (size_t z = 0; z < got.size() && z < want.size(); z++)
					if (!(std::fabs(got[z] - want[z]) <= tol + rel * std::fabs(want[z]))) {
						bad = z;
						break;
					}
				v.fail(fmt("array-%s", nm), fmt("%s (operation %d): array %s has %zu values, expected %zu; at %zu: %.9g, expected %.9g (tolerance %.3g)", name.c_str(), o.opid, nm, got.size(),
				                             want.size(), bad, bad < got.size() ? got[bad] : NAN, bad < want.size() ? want[bad] : NAN, tol));
				return false;
			}
			note(v, nm, ww);
			return true;
		};
		if (!need("Position", pos, 1e-9, 1e-5) || !need("connectivity", con, 0, 0) || !need("offsets", off, 0, 0) || !need("types", typ, 0, 0) || !need("elem_type", ph, 0, 0))
			return;
		if (g->tainted || !usable(g->eps, nv, c))
			continue;
		// averages and boundary hold whatever the solver did
		double em = vmax(g->eps, nv);
		if (!x.a.count("strain") || x.a["strain"].size() != (size_t)ne * nv || !x.a.count("stress") || x.a["stress"].size() != (size_t)ne * nv ||
		    !x.a.count("displ") || x.a["displ"].size() != (size_t)nn * 3) {
			v.fail("array-missing", fmt("%s: strain, stress or displ missing or of the wrong size", name.c_str()));
			return;
		}
		double sm = vmax(x.a["strain"].data(), ne * nv), tm = vmax(x.a["stress"].data(), ne * nv);
		for (int k = 0; k < nv; k++) {
			double av = 0;
			for (int z = 0; z < ne; z++)
				av += x.a["strain"][z * nv + k] / ne;
			if (!(std::fabs(av - g->eps[k]) <= 1e-5 * (em + sm) + 1e-11 * strain_unit(c))) {
				v.fail("average-strain", fmt("%s: cell strains average to %.9g, imposed %.9g (component %d)", name.c_str(), av, g->eps[k], k));
				return;
			}
		}
		RefSol s = I.ref->solve(g->eps, g->committed, false);
		if (!s.ok || s.its > 12)
			continue;
		v.stat["snapshot_fields"]++;
		em += vmax(g->committed.data(), (int)g->committed.size());
		double um = 0, lm = std::max(c.mp[0], std::max(c.mp[1], d == 3 ? c.mp[2] : 0));
		std::vector<double> du, pl, ha;
		for (int k = 0; k < nn; k++)
			for (int z = 0; z < 3; z++)
				du.push_back(z < d ? s.u[k * d + z] : 0);
		um = vmax(du.data(), (int)du.size());
		for (int k = 0; k < ne; k++) {
			double a = 0, b = 0;
			if (d == 3)
				for (int z = 0; z < 8; z++) {
					const double *y = &g->committed[(k * 8 + z) * 7];
					a += sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2] + 2 * (y[3] * y[3] + y[4] * y[4] + y[5] * y[5])) / 8;
					b += y[6] / 8;
				}
			pl.push_back(a);
			ha.push_back(b);
		}
		bool well = s.cond > 1e-5;
		double fl = stress_floor(c);
		if (well && !need("displ", du, 2e-5 * (um + em * lm) + fl * lm / emax(c) * 10, 2e-5))
			return;
		if (well && !need("strain", s.cstrain, 5e-5 * em + fl / emax(c) * 10, 2e-5))
			return;
		if (!need("stress", s.cstress, 5e-5 * emax(c) * em + fl * 10, 2e-5))
			return;
		double pm = vmax(pl.data(), ne), u = strain_unit(c);
		if (!need("plasticity", pl, 5e-4 * pm + 1e-6 * u, 2e-5) || !need("hardening", ha, 5e-4 * pm + 1e-6 * u, 2e-5))
			return;
		// and the snapshot agrees with what was homogenised, when that is the same problem
		const GpRec *a = gp_of(o, op.a);
		if (a && g->homog && g->fresh && comparable(*g)) {
			double ts = 3e-5 * emax(c) * em + 1e-5 * tm + fl * 10 + (g->shortcut ? 2e-3 * emax(c) * em : 0);
			bool lin = g->shortcut && s.yield; // the shortcut does not see yielding: documented limitation of the threshold
			for (int k = 0; k < nv && !lin; k++) {
				double av = 0;
				for (int z = 0; z < ne; z++)
					av += x.a["stress"][z * nv + k] / ne;
				if (!(std::fabs(av - a->s[k]) <= ts)) {
					v.fail("average-stress", fmt("%s: cell stresses average to %.9g, reported stress %.9g (component %d)", name.c_str(), av, a->s[k], k));
					return;
				}
			}
			v.stat["snapshot_vs_query"]++;
		}
	}
}

// ================================================================ C08
static void gen_c08(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.plastic = 0.8;
	co.size = 0;
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = (int)r.range(1, 4);
	h.p_reject = 0.2;
	h.p_out = 0.15;
	h.p_info = 0.2;
	h.amp = r.uni(0.8, 2.5);
	gen_history(r, p, 0, 0, h);
	Env e;
	Trace t = run_exec(p, e);
	std::vector<const OpRec *> c;
	for (auto &o : t.ops)
		if (o.al > 0)
			c.push_back(&o);
	if (c.empty())
		return;
	int n = (int)r.range(3, 8);
	for (int i = 0; i < n; i++) {
		const OpRec *o = r.pick(c);
		Fault f;
		f.kind = "alloc";
		f.opid = o->opid;
		// the allocations of a linear solve repeat; the rare ones are at the ends
		int how = (int)r.range(0, 3);
		f.nth = how == 0 ? r.range(0, std::min(o->al - 1, 20L)) : how == 1 ? o->al - 1 - r.range(0, std::min(o->al - 1, 10L)) : r.range(0, o->al - 1);
		f.len = r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 6) : 1000000;
		p.faults.push_back(f);
	}
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.2);
}
static void check_c08(const Plan &p, Verdict &v)
{
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t0 = run(p, e, v);
	if (died(t0, v, "sufficient memory"))
		return;
	// each failure on its own
	for (auto &ft : p.faults) {
		Plan q = p;
		q.faults.assign(1, ft);
		Env f = e;
		f.allocfaults = true;
		f.retry = true;
		f.hard = true;
		f.budget = 2 * t0.edges + 400000000;
		Trace t = run(q, f, v);
		if (v.error)
			return;
		v.stat["oom_runs"]++;
		if (t.outcome == OUT_SIGNAL) {
			v.stat["oom_stopped"]++;
			v.stat["fault.alloc"]++; // the counters of a stopped process are lost
			continue;
		}
		std::string w = fmt("allocation %ld of operation %d failing %ld times", ft.nth, ft.opid, ft.len);
		if (t.outcome != OUT_OK) {
			v.fail(t.outcome == OUT_HEAP ? "oom-heap" : "oom-hang", fmt("%s: %s", w.c_str(), t.note.c_str()));
			return;
		}
		for (auto &o : t.ops) {
			if (o.status >= 10)
				v.stat["oom_reported"]++;
			if (o.status == 1 || o.status == 2) {
				v.fail("oom-not-recovered", fmt("%s: operation %d fails again although memory is available", w.c_str(), o.opid));
				return;
			}
		}
		v.stat["oom_survived"]++;
		if (!same_numbers(t0, t, v, "oom-wrong-answer", w.c_str()))
			return;
	}
}

// ================================================================ C09
static void gen_c09(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.3) ? 2 : r.chance(0.5) ? 0 : 1;
	int rounds = (int)r.range(1, 3);
	p.knob["api"] = r.chance(0.35);
	p.knob["guard"] = r.chance(0.75);
	if (r.chance(0.03)) { // solves that do not converge, on the smallest grid that has something to solve for
		p.knob["dirt"] = r.range(0, 8);
		Config c = gen_cfg(r, co);
		while (c.dim != 2 && !r.chance(0.1))
			c = gen_cfg(r, co);
		c.n[0] = c.n[1] = c.n[2] = 3;
		c.mp[4] = 0;
		p.cfgs.push_back(c);
		HistOpt h;
		h.ngp = 1;
		h.steps = 2;
		h.p_reject = h.p_poison = h.p_out = h.p_odd = 0;
		h.destroy = true;
		gen_history(r, p, 0, 0, h);
		int seen = 0, bad = (int)r.range(1, 2);
		for (auto &o : p.ops)
			if (o.k == 'S' && ++seen == bad)
				o.e[r.range(0, p.cfgs[0].dim == 3 ? 5 : 2)] = r.chance(0.7) ? NAN : 1e300;
		return;
	}
	int sm = scale_mode(r, co, 0.04);
	if (sm)
		rounds = 1;
	for (int k = 0; k < rounds; k++) {
		if (k == 0 || r.chance(0.6))
			p.cfgs.push_back(gen_cfg(r, co));
		HistOpt h;
		h.ngp = (int)r.range(1, r.chance(0.1) ? 10 : 3);
		h.steps = (int)r.range(1, r.chance(0.2) ? 12 : 4);
		h.p_reject = 0.2;
		h.p_out = 0.35;
		h.p_info = 0.35;
		h.p_odd = 0.3;
		h.p_poison = p.cfgs.back().nn() <= 12 ? 0.1 : 0;
		h.amp = r.uni(0.3, 2);
		if (p.cfgs.back().dim == 3 && p.cfgs.back().nn() > 80) { // these cost most of a check
			h.ngp = std::min(h.ngp, 2);
			h.steps = std::min(h.steps, 2);
			h.amp = r.uni(0.2, 0.8);
		}
		h.destroy = true;
		apply_scale(r, sm, p.cfgs.back(), h);
		gen_history(r, p, 0, (int)p.cfgs.size() - 1, h);
	}
	if (r.chance(0.5))
		io_faults(r, p, (int)r.range(1, 5), {"open", "eio", "enospc", "short", "eintr", "close"});
	p.knob["dirt"] = r.range(0, 8);
}
static void check_c09(const Plan &p, Verdict &v)
{
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	e.guard = p.kn("guard") > 0;
	e.iofaults = true;
	Trace t = run(p, e, v);
	if (died(t, v, "memory"))
		return;
	std::map<std::string, long> base; // live bytes by situation
	std::map<std::string, int> seen;
	std::map<int, long> fresh;
	long prev = 0;
	std::set<int> reg;
	int cfg = -1;
	size_t nf = 0;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const OpRec &o = t.ops[i];
		const Op &op = p.ops[i];
		v.stat["comparisons"]++;
		if (o.fds != 0) {
			v.fail("file-left-open", fmt("%ld files are still open after operation %d (%c)", o.fds, o.opid, o.k));
			return;
		}
		if (o.status == 5)
			continue;
		if (op.k == 'D') {
			if (!e.api && (o.live_bytes != 0 || o.live_blocks != 0)) {
				v.fail("leak", fmt("%ld bytes in %ld blocks are left after destruction (operation %d)", o.live_bytes, o.live_blocks, o.opid));
				return;
			}
			reg.clear();
			seen.clear();
			prev = o.live_bytes;
			continue;
		}
		if (op.k == 'N') {
			cfg = op.a;
			reg.clear();
			seen.clear();
			if (fresh.count(cfg) && o.live_bytes > fresh[cfg]) {
				v.fail("leak-reconstruct", fmt("constructing the same micro-structure again leaves %ld bytes allocated, the first time it was %ld (operation %d)", o.live_bytes, fresh[cfg], o.opid));
				return;
			}
			if (!fresh.count(cfg))
				fresh[cfg] = o.live_bytes;
			prev = o.live_bytes;
			nf = 0;
			continue;
		}
		bool isnew = false;
		if (op.k == 'S')
			isnew = reg.insert(op.a).second;
		size_t flags = 0;
		for (auto &g : o.gps)
			flags += g.flag != 0;
		if (op.k == 'Q')
			flags = nf;
		if (!isnew && flags == nf) {
			int n = ++seen[std::string(1, op.k)];
			if (n > 2 && o.live_bytes > prev) {
				v.fail("growth", fmt("operation %d (%c, the %dth of its kind) leaves %ld more bytes allocated", o.opid, o.k, n, o.live_bytes - prev));
				return;
			}
		}
		nf = flags;
		prev = o.live_bytes;
	}
	(void)base;
}

// ================================================================ C10
static void gen_c10(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.plastic = 0.75;
	co.size = r.chance(0.3) ? 2 : 1;
	bool lng = r.chance(0.1);
	if (lng)
		co.size = 0;
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = lng ? (int)r.range(15, 40) : (int)r.range(1, 6);
	h.p_reject = 0.3;
	h.p_out = 0.05;
	h.info_each = true;
	h.p_odd = 0.1;
	h.amp = r.chance(0.2) ? 0.2 : r.uni(0.5, 2.5);
	if (lng && r.chance(0.3))
		apply_scale(r, 1, p.cfgs[0], h);
	if (!lng && r.chance(0.02)) {
		big_cfg(r, p.cfgs[0]);
		h.ngp = 1;
		h.steps = (int)r.range(1, 3);
	}
	gen_history(r, p, 0, 0, h);
	if (r.chance(0.3))
		io_faults(r, p, (int)r.range(1, 3), {"short", "eintr", "open"});
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.2);
}
static void check_c10(const Plan &p, Verdict &v)
{
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	e.iofaults = true;
	Trace t = run(p, e, v);
	if (died(t, v, "history"))
		return;
	RefOpt ro;
	against_reference(p, t, v, ro);
}

// ================================================================ C11
static void gen_c11(Rng &r, Plan &p)
{
	CfgOpt co;
	co.plastic = 0.7;
	co.size = 0;
	if (r.chance(0.3))
		co.size = 1;
	int sm = scale_mode(r, co, 0.03);
	p.cfgs.push_back(gen_cfg(r, co));
	const Config &c = p.cfgs[0];
	if (c.dim == 3 && c.nn() >= 27)
		sm = 0;
	if (c.dim == 2 || (c.mt[0] != 1 && c.mt[1] != 1))
		if (r.chance(0.4))
			p.cfgs[0].mp[4] = emax(c) * 1e-3 * r.logu(0.3, 3);
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = (int)r.range(2, 5);
	h.p_poison = 0.7;
	h.p_reject = 0.1;
	h.p_out = 0.1;
	h.p_info = 0.15;
	h.amp = r.uni(0.4, 2);
	apply_scale(r, sm, c, h);
	if (sm == 2)
		h.p_poison = 0.3;
	gen_history(r, p, 0, 0, h);
	if (c.dim == 3 && c.nn() > 12) // keep the expensive extremes to the small grids
		for (auto &o : p.ops)
			if (o.k == 'S')
				for (int i = 0; i < 6; i++)
					if (std::isfinite(o.e[i]) && std::fabs(o.e[i]) > 1 && std::fabs(o.e[i]) < 1e150 && !r.chance(0.02))
						o.e[i] = o.e[i] > 0 ? 1e200 : -1e300;
	// one point may commit its invalid trials
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S' && std::find(ids.begin(), ids.end(), o.a) == ids.end())
			ids.push_back(o.a);
	if (ids.size() > 1 && r.chance(0.3)) {
		int h1 = r.pick(ids);
		for (auto &o : p.ops)
			if (o.k == 'S' && o.a == h1) {
				o.tag = 4;
				if (r.chance(0.5))
					o.e[r.range(0, c.nvoi() - 1)] = r.chance(0.5) ? NAN : INFINITY;
			}
	}
}
static void check_c11(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	const Config &c = p.cfgs[0];
	int nv = c.nvoi();
	Env e;
	Trace t = run(p, e, v);
	if (died(t, v, "with invalid trials"))
		return;
	Plan q = without(p, [](const Op &o) { return o.tag >= 2; });
	Trace w = run(q, e, v);
	if (died(w, v, "without invalid trials"))
		return;
	for (auto &o : p.ops)
		if (o.tag >= 2 && o.k == 'S')
			v.stat["fault.invalid_strain"]++;
	std::map<int, std::vector<double>> eps;
	std::unique_ptr<Judge> j;
	std::map<int, const OpRec *> by;
	for (auto &o : w.ops)
		by[o.opid] = &o;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		if (op.k == 'S')
			eps[op.a].assign(op.e, op.e + 6);
		if (op.k != 'H' || op.tag || !by.count(op.id))
			continue;
		for (auto &a : t.ops[i].gps) {
			if (hostile(p, a.id))
				continue;
			const GpRec *b = gp_of(*by[op.id], a.id);
			if (!b)
				continue;
			v.stat["comparisons"]++;
			if (agree(c, eps[a.id].data(), *b, a, false) && a.flag >= b->flag)
				continue;
			if (!j)
				j.reset(new Judge(q, v));
			GpM *g = j->state(op.id, op.inst, a.id);
			v.stat["judged"]++;
			if (!g || !comparable(*g))
				continue;
			bool sb = !(diff(a.s, b->s, nv) <= tol_stress(c, eps[a.id].data()) + (c.mp[4] > 0 ? 1e-3 * emax(c) * vmax(eps[a.id].data(), nv) : 0));
			bool fb = b->flag > a.flag && g->yielded == 1;
			if (!sb && !fb && (c.mp[4] > 0 || !ctan_defined(*g)))
				continue;
			v.fail("invalid-trial-survives", fmt("point %d after operation %d: stress [%s] flag %d after an invalid trial, [%s] flag %d without it", a.id, op.id, show(a.s, nv).c_str(), a.flag,
			                                     show(b->s, nv).c_str(), b->flag));
			return;
		}
	}
}

// ================================================================ C12
static void gen_c12(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.plastic = 0.65;
	bool bad = r.chance(0.25);
	co.size = bad ? 0 : r.chance(0.3) ? 2 : 1;
	if (bad && r.chance(0.6))
		co.dim = 2;
	p.cfgs.push_back(gen_cfg(r, co));
	const Config &c = p.cfgs[0];
	HistOpt h;
	h.ngp = (int)r.range(1, 3);
	h.steps = (int)r.range(1, 5);
	h.p_reject = 0.2;
	h.p_poison = bad ? 0.5 : 0;
	h.p_out = 0.35;
	h.info_each = true;
	h.amp = r.uni(0.2, 2);
	gen_history(r, p, 0, 0, h);
	if (bad) {
		// record after the invalid trials too
		Plan q = p;
		q.ops.clear();
		int id = next_id(p);
		for (auto &o : p.ops) {
			q.ops.push_back(o);
			if (o.k == 'H' && o.tag == 2) {
				Op x;
				x.id = id++;
				x.k = 'I';
				x.inst = o.inst;
				q.ops.push_back(x);
			}
		}
		p = q;
		if (c.dim == 3 && c.nn() > 12)
			for (auto &o : p.ops)
				if (o.k == 'S')
					for (int i = 0; i < 6; i++)
						if (std::isfinite(o.e[i]) && std::fabs(o.e[i]) > 1 && std::fabs(o.e[i]) < 1e150 && !r.chance(0.05))
							o.e[i] = 1e200;
	}
	p.knob["dirt"] = r.range(0, 8);
}
static void check_c12(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	Env e;
	e.dirt = (int)p.kn("dirt");
	{
		double b = work_bound(p);
		e.hard = b <= 6e10;
		e.budget = (uint64_t)std::min(b, 6e10);
		e.longrun = true;
	}
	Trace t = run(p, e, v);
	if (died(t, v, "bounded work"))
		return;
	Model m(p);
	m.tangent = false;
	std::map<int, double> errs; // recorded right after the homogenisation
	std::map<int, std::vector<double>> pert; // residuals that a perturbation of an unstrained cell leaves, by object
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (o.status == 5)
			continue;
		m.step(op);
		if (op.k == 'H' || op.k == 'U' || op.k == 'S' || op.k == 'N')
			errs.clear();
		if (op.k == 'N')
			pert.erase(op.inst);
		if (op.k == 'O' && errs.count(op.a) && i > 0) {
			// the snapshot solves the same problem again and shows the forces that were left
			std::string name = fmt("micropp_%d_%d.vtu", op.a, op.b);
			for (auto &d : o.files)
				if (d.name == name && d.mode != 'x') {
					Vtu x = parse_vtu(d.data);
					if (!x.ok || !x.a.count("b"))
						continue;
					double nb = 0, er = errs[op.a];
					for (double y : x.a["b"])
						nb += y * y;
					nb = sqrt(nb);
					v.stat["residuals_seen"]++;
					if (std::isfinite(nb) && std::isfinite(er)) {
						note(v, "residual", std::fabs(nb - er) / (1e-2 * std::max(nb, er) + 1e-9));
						if (!(std::fabs(nb - er) <= 1e-2 * std::max(nb, er) + 1e-9)) {
							v.fail("residual-untrue", fmt("point %d: recorded residual %.6g, the forces left have norm %.6g (operation %d)", op.a, er, nb, o.opid));
							return;
						}
					}
				}
		}
		if (op.k != 'I' || !m.alive(op.inst))
			continue;
		InstM &I = m.inst(op.inst);
		const Config &c = I.ref->cfg;
		int nv = c.nvoi();
		Info inf = parse_info(o, c, I.gps.size());
		if (!inf.ok)
			continue; // the form of the record is another property
		if (i > 0 && p.ops[i - 1].k == 'H')
			for (size_t g = 0; g < I.gps.size(); g++)
				if (!I.gps[g].shortcut && c.mp[4] <= 0 && usable(I.gps[g].eps, nv, c))
					errs[I.gps[g].id] = inf.conv[g].err[0];
		for (size_t g = 0; g < I.gps.size(); g++) {
			GpM &G = I.gps[g];
			const ConvRec &k = inf.conv[g];
			if (!G.homog)
				continue;
			for (int q = 0; q <= nv; q++) {
				double its = k.its[q], err = k.err[q];
				std::string w = fmt("point %d, solve %d, recorded at operation %d: %g corrections, residual %.6g", G.id, q, o.opid, its, err);
				v.stat["solves"]++;
				if (!(its >= 0 && its <= 40) || its != floor(its)) {
					v.fail("iteration-bound", w);
					return;
				}
				if (std::isfinite(err) && err < 0) {
					v.fail("residual-negative", w);
					return;
				}
				if (std::isfinite(err) && !(err < 1.0000005e-5) && its != 40) {
					v.fail("stopped-early", w);
					return;
				}
				if (!std::isfinite(err) && G.valid && G.sol && G.sol->ok && !G.tainted) {
					v.fail("residual-not-finite", w);
					return;
				}
			}
			if (!G.shortcut && k.its[0] < 40 && k.err[0] > 1e-12) {
				// each solve leaves a residual of its own
				bool copies = true;
				for (int q = 1; q <= nv; q++)
					copies &= k.its[q] >= 1 && k.its[q] < 40 && k.err[q] == k.err[0];
				if (copies) {
					v.fail("residual-copied", fmt("point %d recorded at operation %d: residual %.6g in each of %d solves", G.id, o.opid, k.err[0], nv + 1));
					return;
				}
			}
			if (!G.valid || G.tainted || !G.sol || !G.sol->ok)
				continue;
			if (!G.shortcut && G.sol->its <= 10 && I.ref->any_plastic() && G.sol->kink > 1e-6)
				for (int q = 1; q <= nv; q++) {
					note(v, "perturbed-its", k.its[q]);
					if (k.its[q] > 4) {
						v.fail("perturbed-corrections", fmt("point %d recorded at operation %d: %g corrections in perturbed solve %d, which starts next to its solution", G.id, o.opid, k.its[q], q));
						return;
					}
				}
			if (!G.shortcut && G.sol->its <= 10 && !I.ref->any_plastic()) {
				// elastic: one correction if and only if the uniform strain is not yet the solution
				bool unknown = std::fabs(G.sol->res0 - 1e-5) < 3e-6 || (G.sol->res0 > 1e-6 && G.sol->res0 < 1e-4);
				double want = G.sol->res0 > 1e-5 ? 1 : 0;
				v.stat["elastic_solves"]++;
				if (!unknown && k.its[0] != want) {
					v.fail("elastic-corrections", fmt("point %d recorded at operation %d: %g corrections for an elastic composite, residual at the start %.3g", G.id, o.opid, k.its[0], G.sol->res0));
					return;
				}
				if (!pert.count(op.inst))
					for (int q = 0; q < nv; q++) {
						double e1[6] = {0, 0, 0, 0, 0, 0};
						e1[q] = 1e-8;
						pert[op.inst].push_back(I.ref->solve(e1, I.ref->zero(), false).res0);
					}
				for (int q = 1; q <= nv; q++)
					if (k.its[q] == 0 && pert[op.inst][q - 1] > 1e-4) {
						v.fail("elastic-corrections", fmt("point %d recorded at operation %d: no correction in perturbed solve %d", G.id, o.opid, q));
						return;
					}
				for (int q = 1; q <= nv; q++)
					if (k.its[q] > 1) {
						v.fail("elastic-corrections", fmt("point %d recorded at operation %d: %g corrections in perturbed solve %d", G.id, o.opid, k.its[q], q));
						return;
					}
			} else if (!G.shortcut && G.sol->its <= 10) {
				v.stat["plastic_solves"]++;
				// points on the yield surface (a committed strain repeated) have no unique tangent
				bool smooth = G.sol->kink > 1e-6;
				if (smooth)
					note(v, "its-over-reference", k.its[0] - G.sol->its);
				else
					note(v, "its-over-reference-on-the-yield-surface", k.its[0] - G.sol->its);
				note(v, "its-under-reference", G.sol->its - k.its[0]);
				if ((smooth && k.its[0] > G.sol->its + 4) || k.its[0] < G.sol->its - 2 || (k.its[0] == 0) != (G.sol->its == 0)) {
					bool unknown = G.sol->res0 > 1e-6 && G.sol->res0 < 1e-4;
					if (!unknown) {
						v.fail("plastic-corrections", fmt("point %d recorded at operation %d: %g corrections, Newton's method needs %d", G.id, o.opid, k.its[0], G.sol->its));
						return;
					}
				}
			} else if (G.shortcut) {
				v.stat["shortcut_solves"]++;
				for (int q = 0; q <= nv; q++)
					if (k.its[q] != 0) {
						v.fail("shortcut-corrections", fmt("point %d recorded at operation %d: %g corrections although answered linearly", G.id, o.opid, k.its[q]));
						return;
					}
			}
		}
	}
}

// ================================================================ C13
static void gen_c13(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.5) ? 0 : 1;
	int rounds = (int)r.range(1, r.chance(0.1) ? 6 : 3);
	int sm = scale_mode(r, co, 0.04);
	if (sm)
		rounds = (int)r.range(1, 2);
	for (int k = 0; k < rounds; k++) {
		if (k == 0 || r.chance(0.7))
			p.cfgs.push_back(gen_cfg(r, co));
		HistOpt h;
		h.ngp = (int)r.range(1, 3);
		h.steps = (int)r.range(1, 4);
		h.p_reject = 0.2;
		h.p_out = 0.3;
		h.p_info = 0.4;
		h.p_odd = 0.2;
		h.p_query = 0.3;
		h.destroy = k + 1 < rounds; // the procedural interface has no destructor: this call does nothing there
		h.amp = r.uni(0.3, 2);
		apply_scale(r, sm, p.cfgs.back(), h);
		gen_history(r, p, 0, r.chance(0.5) ? (int)p.cfgs.size() - 1 : (int)r.range(0, (long)p.cfgs.size() - 1), h);
	}
	// ask a fresh micro-structure for the points of the old one
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S')
			ids.push_back(o.a);
	Plan q = p;
	q.ops.clear();
	int id = next_id(p);
	for (auto &o : p.ops) {
		q.ops.push_back(o);
		if (o.k == 'N' && !ids.empty())
			for (int i = 0; i < 2; i++) {
				Op x;
				x.id = id++;
				x.k = r.chance(0.7) ? 'Q' : 'O';
				x.a = r.pick(ids);
				x.b = 99;
				q.ops.push_back(x);
			}
	}
	p = q;
	p.knob["dirt"] = r.range(0, 8);
}
static void check_c13(const Plan &p, Verdict &v)
{
	Env a, b;
	a.dirt = (int)p.kn("dirt");
	b.dirt = a.dirt;
	b.api = 1;
	Trace x = run(p, a, v);
	if (died(x, v, "object"))
		return;
	Trace y = run(p, b, v);
	if (died(y, v, "procedural interface"))
		return;
	if (!same_numbers(x, y, v, "procedural-differs", "procedural interface"))
		return;
	if (!same_files(x, y, v, "procedural-files", "procedural interface"))
		return;
	// a re-constructed micro-structure behaves like the first of its process
	size_t last = 0;
	for (size_t i = 0; i < p.ops.size(); i++)
		if (p.ops[i].k == 'N')
			last = i;
	if (last > 0) {
		Plan q = p;
		q.ops.assign(p.ops.begin() + last, p.ops.end());
		Trace z = run(q, b, v);
		if (died(z, v, "procedural interface, last part alone"))
			return;
		Trace tail = y;
		tail.ops.assign(y.ops.begin() + last, y.ops.end());
		v.stat["reconstructions"]++;
		if (!same_numbers(z, tail, v, "reconstruct-not-fresh", "after re-construction"))
			return;
		for (auto n : HIST)
			if (y.files.count(n) != z.files.count(n) || (y.files.count(n) && y.files[n] != z.files[n])) {
				v.fail("reconstruct-not-fresh", fmt("%s after re-construction is not that of a fresh micro-structure", n));
				return;
			}
	}
	// queries for unknown points leave the caller's arrays alone and report no flag
	std::set<int> reg;
	for (size_t i = 0; i < p.ops.size(); i++) {
		if (p.ops[i].k == 'N')
			reg.clear();
		if (p.ops[i].k == 'S')
			reg.insert(p.ops[i].a);
		if (p.ops[i].k == 'Q' && !reg.count(p.ops[i].a))
			for (auto &g : y.ops[i].gps)
				if (g.flag != 0 || memcmp(&g.s[0], &SENTINEL, 8) || memcmp(&g.c[0], &SENTINEL, 8)) {
					v.fail("unknown-point", fmt("operation %d: point %d is not registered but something is reported for it", p.ops[i].id, g.id));
					return;
				}
	}
}

// ================================================================ C14
static void gen_c14(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 2;
	co.plastic = 0.7;
	co.size = r.chance(0.4) ? 0 : 1;
	int sm = scale_mode(r, co, 0.04);
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, 4);
	h.steps = (int)r.range(3, 10);
	h.p_reject = 0.2;
	h.p_out = 0.05;
	h.p_update = r.uni(0.3, 1);
	h.info_each = true;
	h.p_odd = 0.1;
	h.amp = r.uni(0.2, 2);
	apply_scale(r, sm, p.cfgs[0], h);
	gen_history(r, p, 0, 0, h);
	for (auto &o : p.ops)
		if (o.k == 'S' && r.chance(0.04)) { // nothing at all, or next to nothing
			double f = r.chance(0.6) ? 0 : r.logu(1e-12, 1e-3);
			for (int i = 0; i < 6; i++)
				o.e[i] *= f;
		}
	const Config &c = p.cfgs[0];
	if (c.mp[4] > 0 && r.chance(0.5)) { // just below or just above the threshold, in tension and in compression
		Ref ref(c);
		double cl[36], s[6];
		int nv = c.nvoi();
		ref.linear(cl);
		for (auto &o : p.ops) {
			if (o.k != 'S' || !r.chance(0.35))
				continue;
			for (int x = 0; x < nv; x++) {
				s[x] = 0;
				for (int y = 0; y < nv; y++)
					s[x] += cl[x * nv + y] * o.e[y];
			}
			double inv = ref.inv1(s);
			double f = c.mp[4] / inv * (1 + r.logu(1e-6, 0.1) * (r.chance(0.5) ? 1 : -1)) * (r.chance(0.5) ? 1 : -1);
			if (std::isfinite(f) && std::fabs(f) < 1e3)
				for (int y = 0; y < nv; y++)
					o.e[y] *= f;
		}
	}
	p.knob["dirt"] = r.range(0, 8);
}
static void check_c14(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	const Config &c = p.cfgs[0];
	int nv = c.nvoi();
	Env e;
	e.dirt = (int)p.kn("dirt");
	// the linear response, as the library has it: everything is below an infinite threshold
	double cl[36];
	{
		Plan q;
		q.prop = p.prop;
		q.cfgs.push_back(c);
		q.cfgs[0].mp[4] = 1e300;
		Op o;
		o.id = 1;
		o.k = 'N';
		q.ops.push_back(o);
		o.id = 2;
		o.k = 'S';
		o.a = 5;
		o.e[0] = 1e-6;
		q.ops.push_back(o);
		o.id = 3;
		o.k = 'H';
		q.ops.push_back(o);
		Trace t = run(q, e, v);
		if (died(t, v, "infinite threshold"))
			return;
		const GpRec *g = gp_of(t.ops.back(), 5);
		if (!g) {
			v.fail("no-result", "no result for a single point");
			return;
		}
		memcpy(cl, g->c, sizeof cl);
		double rl[36];
		Ref ref(c);
		ref.linear(rl);
		double d = diff(cl, rl, nv * nv);
		note(v, "linear-tangent/E", d / emax(c));
		if (!(d <= 2e-5 * emax(c) + stress_floor(c) / 1e-8 * 0.1)) {
			v.fail("linear-tangent", fmt("the precomputed tangent [%s] is not that of the composite [%s]", show(cl, nv * nv).c_str(), show(rl, nv * nv).c_str()));
			return;
		}
	}
	Trace t = run(p, e, v);
	if (died(t, v, "history"))
		return;
	Model m(p);
	m.tangent = false;
	std::map<int, int> flag; // as the library says
	std::map<int, double> lastinv;
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (o.status == 5)
			continue;
		std::map<int, int> before = flag;
		m.step(op);
		if (!m.alive(op.inst))
			continue;
		InstM &I = m.inst(op.inst);
		if (op.k != 'Q')
			for (auto &g : o.gps) {
				if (flag.count(g.id) && flag[g.id] && !g.flag) {
					v.fail("flag-cleared", fmt("the flag of point %d is no longer set after operation %d (%c)", g.id, o.opid, o.k));
					return;
				}
				if (op.k != 'H' && flag.count(g.id) && flag[g.id] != g.flag) {
					v.fail("flag-set", fmt("operation %d (%c) changed the flag of point %d", o.opid, o.k, g.id));
					return;
				}
				flag[g.id] = g.flag;
			}
		if (op.k != 'H')
			continue;
		Info inf;
		if (i + 1 < t.ops.size() && p.ops[i + 1].k == 'I')
			inf = parse_info(t.ops[i + 1], c, I.gps.size());
		for (size_t k = 0; k < I.gps.size(); k++) {
			GpM &G = I.gps[k];
			const GpRec *a = gp_of(o, G.id);
			if (!a || !usable(G.eps, nv, c))
				continue;
			double s[6], mag = 0;
			for (int x = 0; x < nv; x++) {
				s[x] = 0;
				for (int y = 0; y < nv; y++) {
					s[x] += cl[x * nv + y] * G.eps[y];
					mag = std::max(mag, std::fabs(cl[x * nv + y] * G.eps[y]));
				}
			}
			double inv = std::fabs(c.dim == 2 ? s[0] + s[1] : s[0] + s[1] + s[2]);
			bool clear = std::fabs(inv - c.mp[4]) > 1e-12 * mag || mag == 0;
			bool hist = before.count(G.id) && before[G.id]; // plastic history when the call was made
			bool want = !hist && inv < c.mp[4];
			std::string w = fmt("point %d after operation %d: invariant %.9g, threshold %.9g, flag before %d", G.id, o.opid, inv, c.mp[4], (int)hist);
			if (inf.ok) {
				note(v, "invariant", std::fabs(inf.conv[k].inv - inv) / (inv + 1e-6 * mag + 1e-300));
				if (!(std::fabs(inf.conv[k].inv - inv) <= 1e-5 * inv + 1e-9 * mag + 1e-300)) {
					v.fail("recorded-invariant", fmt("%s, recorded invariant %.9g", w.c_str(), inf.conv[k].inv));
					return;
				}
			}
			if (!clear) {
				v.stat["on_threshold"]++;
				continue;
			}
			v.stat[want ? "linear_answers" : hist ? "full_with_history" : "full_answers"]++;
			double ds = diff(a->s, s, nv), dc = diff(a->c, cl, nv * nv);
			bool lin = ds <= 1e-11 * mag && dc == 0;
			if (want) {
				if (!lin) {
					v.fail("shortcut-not-taken", fmt("%s: stress [%s], linear stress [%s]", w.c_str(), show(a->s, nv).c_str(), show(s, nv).c_str()));
					return;
				}
				if (a->flag) {
					v.fail("shortcut-flag", w + ": answered linearly but flagged");
					return;
				}
				if (inf.ok)
					for (int q = 0; q <= nv; q++)
						if (inf.conv[k].its[q] != 0 || inf.conv[k].err[q] != 0) {
							v.fail("shortcut-record", fmt("%s: answered linearly but %g corrections are recorded", w.c_str(), inf.conv[k].its[q]));
							return;
						}
			} else if (inf.ok && dc == 0 && c.n[0] > 2 && c.n[1] > 2 && (c.dim == 2 || c.n[2] > 2)) {
				// perturbing the boundary of a cell with inner nodes always calls for a correction
				bool none = true;
				for (int q = 0; q <= nv; q++)
					if (inf.conv[k].its[q] != 0 || inf.conv[k].err[q] != 0)
						none = false;
				if (none) {
					v.fail("shortcut-taken", w + ": answered linearly");
					return;
				}
			}
			if (!want && comparable(G) && !G.shortcut) {
				// the full solution, also when it is small
				double d = diff(a->s, G.sol->s, nv), ts = tol_stress(c, G.eps);
				// (committed histories with plastic strains of unit size set the scale when the strain itself is small)
				ts += 2e-6 * emax(c) * vmax(G.committed.data(), (int)G.committed.size());
				note(v, "full-stress/tol", d / ts);
				if (!(d <= ts)) {
					v.fail("full-solution", fmt("%s: stress [%s], full solution [%s]", w.c_str(), show(a->s, nv).c_str(), show(G.sol->s, nv).c_str()));
					return;
				}
				if (G.yielded != 2 && a->flag != G.yielded) {
					v.fail("flag-wrong", fmt("%s: flag %d, reference %d", w.c_str(), a->flag, G.yielded));
					return;
				}
				if (dc == 0 && G.sol->yield && vmax(G.eps, nv) > 0) {
					double dr = diff(G.sol->s, s, nv);
					if (dr > 10 * ts) {
						v.fail("shortcut-taken", w + ": the linear tangent is reported for a yielding point");
						return;
					}
				}
			}
		}
	}
	// for an elastic composite the threshold makes no difference beyond the solver tolerance
	if (c.dim == 2 || (c.mt[0] != 1 && c.mt[1] != 1)) {
		Plan q = p;
		q.cfgs[0].mp[4] = c.mp[4] > 0 ? 0 : 1e300;
		Trace w = run(q, e, v);
		if (died(w, v, "other threshold"))
			return;
		std::map<int, std::vector<double>> eps;
		for (size_t i = 0; i < t.ops.size(); i++) {
			if (p.ops[i].k == 'S')
				eps[p.ops[i].a].assign(p.ops[i].e, p.ops[i].e + 6);
			if (p.ops[i].k != 'H')
				continue;
			for (auto &a : t.ops[i].gps) {
				const GpRec *b = gp_of(w.ops[i], a.id);
				if (!b)
					continue;
				v.stat["elastic_pairs"]++;
				double ts = tol_stress(c, eps[a.id].data()) + 1e-3 * emax(c) * vmax(eps[a.id].data(), nv);
				if (!(diff(a.s, b->s, nv) <= ts)) {
					v.fail("elastic-threshold", fmt("point %d after operation %d: stress [%s] or [%s] depending on the threshold", a.id, p.ops[i].id, show(a.s, nv).c_str(), show(b->s, nv).c_str()));
					return;
				}
			}
		}
	}
}

// ================================================================ C17
// what two runs returned for one point at one moment is the same, as far as both were asked
struct Pair {
	const Plan &p;
	Verdict &v;
	std::unique_ptr<Judge> j;
	bool exact = true;
	Pair(const Plan &pl, Verdict &ve) : p(pl), v(ve) {}
	// a: expected, b: seen; eps: strain of the last homogenisation; opid: that homogenisation, in p
	bool same(const Config &c, const double *eps, const GpRec &a, GpRec b, int opid, int inst)
	{
		int nv = c.nvoi(), has = a.has & b.has;
		bool st = has & 1 && memcmp(a.s, b.s, sizeof a.s), ct = has & 2 && memcmp(a.c, b.c, sizeof a.c), fl = has & 4 && a.flag != b.flag;
		v.stat["comparisons"]++;
		if (!st && !ct && !fl)
			return true;
		exact = false;
		bool sb = st && !(diff(a.s, b.s, nv) <= tol_stress(c, eps) + 1e-6 * vmax(a.s, nv));
		bool cb = ct && !(diff(a.c, b.c, nv * nv) <= tol_ctan(c));
		if (!sb && !cb && !fl)
			return true;
		if (!j)
			j.reset(new Judge(p, v));
		GpM *g = j->state(opid, inst, a.id);
		v.stat["judged"]++;
		if (!g || !comparable(*g))
			return true;
		if (!sb && !fl && !ctan_defined(*g))
			return true;
		return false;
	}
};
static bool same_asked(const GpRec &a, const GpRec &b)
{
	int has = a.has & b.has;
	return !(has & 1 && memcmp(a.s, b.s, sizeof a.s)) && !(has & 2 && memcmp(a.c, b.c, sizeof a.c)) && !(has & 4 && a.flag != b.flag);
}
static void gen_c17(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.5) ? 0 : 1;
	int sm = scale_mode(r, co, 0.03);
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.1) ? 8 : 4);
	h.steps = (int)r.range(2, 6);
	h.p_reject = 0.2;
	h.p_out = 0.15;
	h.p_info = 0.4;
	h.p_query = 0.4;
	h.p_odd = 0.25;
	h.amp = r.uni(0.3, 2);
	apply_scale(r, sm, p.cfgs[0], h);
	gen_history(r, p, 0, 0, h);
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S')
			ids.push_back(o.a);
	Plan q = p;
	q.ops.clear();
	int id = next_id(p);
	for (auto &o : p.ops) {
		q.ops.push_back(o);
		if (o.k == 'D')
			continue;
		while (r.chance(0.2)) {
			Op x;
			x.id = id++;
			x.k = r.chance(0.35) ? 'I' : r.chance(0.8) ? 'Q' : 'O';
			x.b = 50;
			if (x.k != 'I')
				x.a = r.chance(0.7) && !ids.empty() ? r.pick(ids) : (int)r.range(-99, 99) * 7919;
			q.ops.push_back(x);
		}
		if (o.k == 'H' && r.chance(0.15)) {
			Op x;
			x.id = id++;
			x.k = 'H';
			q.ops.push_back(x);
		}
	}
	p = q;
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.3);
	p.knob["sparse"] = r.range(1, 1000000000);
	p.knob["drop"] = r.range(1, 1000000000);
}
static void check_c17(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	const Config *c = &p.cfgs[0];
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "observed history"))
		return;
	std::map<int, GpRec> prev;
	std::map<int, std::vector<double>> eps, heps;
	std::set<int> repeats;
	std::map<int, int> hom; // operation -> the homogenisation whose results it sees
	std::map<int, std::map<int, std::vector<double>>> at;
	bool fresh = true;
	int lastH = -1;
	{
		Pair pr(p, v);
		for (size_t i = 0; i < t.ops.size(); i++) {
			const Op &op = p.ops[i];
			const OpRec &o = t.ops[i];
			if (o.status == 5)
				continue;
			if (op.k == 'N') {
				if (op.a < (int)p.cfgs.size())
					c = &p.cfgs[op.a];
				prev.clear(), eps.clear(), heps.clear();
				lastH = -1;
			}
			if (op.k == 'N' || op.k == 'D' || op.k == 'U' || op.k == 'S')
				fresh = true;
			if (op.k == 'S')
				eps[op.a].assign(op.e, op.e + 6);
			bool rep = op.k == 'H' && !fresh;
			if (op.k == 'H') {
				if (rep)
					repeats.insert(op.id);
				else
					lastH = op.id, heps = eps;
				fresh = false;
			}
			hom[op.id] = lastH;
			at[op.id] = heps;
			int nv = c->nvoi();
			if (op.k == 'Q') {
				for (auto &g : o.gps) {
					v.stat["comparisons"]++;
					if (prev.count(g.id)) {
						if (!same_asked(prev[g.id], g)) {
							v.fail("read-differs", fmt("point %d: read at operation %d, the answer is not the one given before", g.id, op.id));
							return;
						}
					} else if (!eps.count(g.id) && (g.flag != 0 || memcmp(&g.s[0], &SENTINEL, 8) || memcmp(&g.c[0], &SENTINEL, 8))) {
						v.fail("unknown-point", fmt("operation %d: point %d is not registered but something is reported for it", op.id, g.id));
						return;
					}
				}
				continue;
			}
			for (auto &g : o.gps) {
				auto it = prev.find(g.id);
				if (op.k != 'H' && it != prev.end()) {
					v.stat["comparisons"]++;
					if (!same_asked(it->second, g)) {
						v.fail("changed-by-an-observer", fmt("point %d: operation %d (%c) changed what is returned: stress [%s] flag %d, before [%s] flag %d", g.id, op.id, op.k,
						                                     show(g.s, nv).c_str(), g.flag, show(it->second.s, nv).c_str(), it->second.flag));
						return;
					}
				}
				if (op.k != 'H' && it == prev.end()) {
					v.stat["comparisons"]++;
					bool z = g.flag == 0;
					for (int k = 0; k < nv; k++)
						z &= g.s[k] == 0;
					for (int k = 0; k < nv * nv; k++)
						z &= g.c[k] == 0;
					if (!z) {
						v.fail("not-yet-homogenised", fmt("point %d after operation %d (%c) was never homogenised but reports [%s] flag %d", g.id, op.id, op.k, show(g.s, nv).c_str(), g.flag));
						return;
					}
				}
				if (rep && it != prev.end()) {
					v.stat["repeats"]++;
					if (!pr.same(*c, heps[g.id].data(), it->second, g, lastH, op.inst)) {
						v.fail("repeat-differs", fmt("point %d: homogenising again (operation %d) gives [%s] flag %d, before [%s] flag %d", g.id, op.id, show(g.s, nv).c_str(), g.flag,
						                             show(it->second.s, nv).c_str(), it->second.flag));
						return;
					}
				}
				prev[g.id] = g;
			}
		}
	}
	// the same history, hardly looked at
	uint64_t dr = (uint64_t)p.kn("drop", 1);
	Plan q = without(p, [&](const Op &o) {
		return (o.k == 'I' || o.k == 'O' || o.k == 'Q' || repeats.count(o.id)) && mix64(dr, o.id) % 3 != 0;
	});
	Env s = e;
	s.sparse = (uint64_t)p.kn("sparse", 1);
	Trace w = run(q, s, v);
	if (died(w, v, "the same history, hardly observed"))
		return;
	Pair pr(p, v);
	for (size_t i = 0; i < w.ops.size(); i++) {
		const Op &op = q.ops[i];
		const OpRec &o = w.ops[i];
		if (o.status == 5 || op.k == 'Q')
			continue;
		if (op.k == 'N' && op.a < (int)p.cfgs.size())
			c = &p.cfgs[op.a];
		const OpRec *full = t.find(op.id);
		if (!full)
			continue;
		for (auto &g : o.gps) {
			if (g.unstable) {
				v.fail("read-differs", fmt("point %d after operation %d: two reads in a row differ", g.id, op.id));
				return;
			}
			const GpRec *a = gp_of(*full, g.id);
			if (!a)
				continue;
			auto &x = at[op.id][g.id];
			if (x.empty())
				x.assign(6, 0.0);
			v.stat["sparse_reads"]++;
			if (!pr.same(*c, x.data(), *a, g, hom[op.id], op.inst)) {
				v.fail("observed", fmt("point %d after operation %d (%c): [%s] flag %d when hardly observed, [%s] flag %d when observed (asked for %d)", g.id, op.id, op.k,
				                       show(g.s, c->nvoi()).c_str(), g.flag, show(a->s, c->nvoi()).c_str(), a->flag, g.has));
				return;
			}
		}
		if (pr.exact && (op.k == 'I' || op.k == 'O'))
			for (auto &f : o.files)
				for (auto &f2 : full->files)
					if (f.name == f2.name) {
						v.stat["records"]++;
						if (data_lines(f.data) != data_lines(f2.data)) {
							v.fail("observed-record", fmt("operation %d (%c) wrote another %s because of reads and records before it", op.id, op.k, f.name.c_str()));
							return;
						}
					}
	}
}

// ================================================================ C18
static void gen_c18(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.5) ? 0 : 1;
	int sm = scale_mode(r, co, 0.03);
	p.cfgs.push_back(gen_cfg(r, co));
	const Config &c = p.cfgs[0];
	int nv = c.nvoi();
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.1) ? 10 : 4);
	h.steps = (int)r.range(2, 6);
	h.p_set = r.uni(0.3, 0.9);
	h.p_reject = 0.2;
	h.p_odd = 0.2;
	h.p_info = 0.15;
	h.p_out = 0.05;
	h.amp = r.uni(0.3, 2);
	apply_scale(r, sm, c, h);
	gen_history(r, p, 0, 0, h);
	int id = next_id(p);
	double unit = strain_unit(c);
	Plan q = p;
	q.ops.clear();
	size_t lo = 1; // first place after the last homogenisation
	for (auto &o : p.ops) {
		if (o.k == 'S')
			while (r.chance(0.45)) {
				Op x = o;
				x.id = id++;
				x.tag = 5;
				switch (r.range(0, 6)) {
				case 0:
				case 1: gen_strain(r, c, unit, h.amp, o.e, x.e); break;
				case 2: poison(r, c, x.e); break;
				case 3:
					for (int i = 0; i < 6; i++)
						x.e[i] = 0;
					break;
				case 4: { // nearly the right one
					double f = 1 + r.logu(1e-5, 1e-2) * (r.chance(0.5) ? 1 : -1);
					for (int i = 0; i < nv; i++)
						x.e[i] *= f;
					break;
				}
				case 5: // one component only
					x.e[r.range(0, nv - 1)] *= r.uni(-2, 2);
					break;
				default:
					for (int i = 0; i < nv; i++)
						x.e[i] = -x.e[i];
				}
				q.ops.insert(q.ops.begin() + r.range((long)std::min(lo, q.ops.size()), (long)q.ops.size()), x);
			}
		if (o.k == 'S' && r.chance(0.1)) { // a small change of the strain before
			for (int k = (int)q.ops.size() - 1; k >= 0; k--)
				if (q.ops[k].k == 'S' && q.ops[k].a == o.a && q.ops[k].tag != 5) {
					Op x = q.ops[k];
					x.id = o.id;
					double f = 1 + r.logu(1e-4, 1e-1) * (r.chance(0.5) ? 1 : -1);
					for (int i = 0; i < nv; i++)
						x.e[i] *= f;
					q.ops.push_back(x);
					break;
				}
			if (q.ops.back().id != o.id)
				q.ops.push_back(o);
		} else
			q.ops.push_back(o);
		if (o.k == 'H')
			lo = q.ops.size();
	}
	if (!sm && r.chance(0.3)) { // and at the end something that is no strain: it is imposed all the same
		std::vector<Op> set;
		for (auto &o : q.ops)
			if (o.k == 'S' && o.tag != 5)
				set.push_back(o);
		if (!set.empty()) {
			Op x = set[r.next() % set.size()];
			x.id = id++;
			x.e[r.range(0, nv - 1)] = r.chance(0.7) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY;
			q.ops.push_back(x);
			Op y;
			y.id = id++;
			y.k = 'H';
			q.ops.push_back(y);
		}
	}
	p = q;
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.3);
	p.knob["shuffle"] = r.range(1, 1000000000);
	p.knob["guard"] = r.chance(0.2);
}
static void check_c18(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "history"))
		return;
	{ // no finite stress for a strain that is not finite
		std::map<int, const double *> cur;
		for (size_t i = 0; i < t.ops.size(); i++) {
			const Op &op = p.ops[i];
			if (t.ops[i].status == 5)
				continue;
			if (op.k == 'N' || op.k == 'D')
				cur.clear();
			if (op.k == 'S')
				cur[op.a] = op.e;
			if (op.k != 'H')
				continue;
			int nv = p.cfgs[0].nvoi();
			for (auto &g : t.ops[i].gps) {
				if (!cur.count(g.id))
					continue;
				bool fe = true, fs = true;
				for (int k = 0; k < nv; k++)
					fe = fe && std::isfinite(cur[g.id][k]), fs = fs && std::isfinite(g.s[k]);
				if (fe)
					continue;
				v.stat["not_finite"]++;
				if (fs) {
					v.fail("strain-not-imposed", fmt("point %d after operation %d: strain [%s] but stress [%s]", g.id, op.id, show(cur[g.id], nv).c_str(), show(g.s, nv).c_str()));
					return;
				}
			}
		}
	}
	// superseded: set again before it was ever homogenised or shown
	std::set<int> gone;
	{
		std::map<int, int> last;
		for (auto &o : p.ops) {
			if (o.k == 'S') {
				if (last.count(o.a))
					gone.insert(last[o.a]);
				last[o.a] = o.id;
			} else if (o.k == 'H' || o.k == 'N' || o.k == 'D')
				last.clear();
		}
	}
	Rng r((uint64_t)p.kn("shuffle", 1));
	Plan q1 = without(p, [&](const Op &o) { return gone.count(o.id) > 0; });
	Plan q2 = p; // everything is said again before each homogenisation
	q2.ops.clear();
	{
		std::map<int, Op> cur;
		int id = next_id(p);
		for (auto &o : p.ops) {
			if (o.k == 'N' || o.k == 'D')
				cur.clear();
			if (o.k == 'S')
				cur[o.a] = o;
			if (o.k == 'H') {
				std::vector<Op> s;
				for (auto &x : cur)
					if (r.chance(0.8))
						s.push_back(x.second);
				for (size_t i = s.size(); i > 1; i--)
					std::swap(s[i - 1], s[r.next() % i]);
				for (auto &x : s) {
					x.id = id++;
					q2.ops.push_back(x);
				}
			}
			q2.ops.push_back(o);
		}
	}
	Plan q3 = q1; // set in another order
	for (size_t i = 0; i < q3.ops.size();) {
		size_t k = i;
		while (k < q3.ops.size() && q3.ops[k].k == 'S')
			k++;
		if (k > i + 1) // no point twice: all but the last were removed, unless a plan was cut
			std::reverse(q3.ops.begin() + i, q3.ops.begin() + k);
		i = std::max(k, i + 1);
	}
	{
		std::set<int> in;
		bool twice = false;
		for (auto &o : q3.ops) {
			if (o.k == 'S')
				twice |= !in.insert(o.a).second;
			else if (o.k == 'H' || o.k == 'N' || o.k == 'D')
				in.clear();
		}
		if (twice)
			q3.ops.clear();
	}
	struct {
		const Plan *q;
		const char *cls, *what;
		bool scribble, guard;
	} tw[] = {{&q1, "superseded-strain", "without the strains that were replaced before they were used", false, false},
	          {&q2, "kept-strain", "with every strain imposed again, and the caller's arrays re-used", true, p.kn("guard") > 0},
	          {&q3, "order-of-setting", "with the points set in another order", false, false}};
	for (auto &w : tw) {
		if (w.q->ops.empty())
			continue;
		Env f = e;
		f.scribble = w.scribble;
		f.guard = w.guard;
		Trace u = run(*w.q, f, v);
		if (died(u, v, w.what))
			return;
		std::map<int, const OpRec *> by;
		for (auto &o : u.ops)
			by[o.opid] = &o;
		Pair pr(p, v);
		std::map<int, std::vector<double>> eps;
		const Config *c = &p.cfgs[0];
		for (size_t i = 0; i < t.ops.size(); i++) {
			const Op &op = p.ops[i];
			if (t.ops[i].status == 5)
				continue;
			if (op.k == 'N' && op.a < (int)p.cfgs.size())
				c = &p.cfgs[op.a];
			if (op.k == 'S')
				eps[op.a].assign(op.e, op.e + 6);
			if (op.k != 'H' || !by.count(op.id))
				continue;
			for (auto &g : t.ops[i].gps) {
				const GpRec *b = gp_of(*by[op.id], g.id);
				if (!b)
					continue;
				if (!pr.same(*c, eps[g.id].data(), g, *b, op.id, op.inst)) {
					v.fail(w.cls, fmt("point %d after operation %d: stress [%s] flag %d, %s [%s] flag %d", g.id, op.id, show(g.s, c->nvoi()).c_str(), g.flag, w.what, show(b->s, c->nvoi()).c_str(), b->flag));
					return;
				}
			}
		}
	}
	RefOpt ro;
	ro.ctan = false;
	ro.cls = "imposed";
	against_reference(p, t, v, ro);
}

// ================================================================ C19
// Some history, then the same calls again and again. Op::b of a repeated call is the number of the round, Op::tag 100 + its place in the round.
static void gen_c19(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.7) ? 0 : 1;
	p.cfgs.push_back(gen_cfg(r, co));
	const Config &c = p.cfgs[0];
	bool dear = c.dim == 3 && c.nn() >= 27;
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.15) ? 12 : 4);
	h.steps = (int)r.range(1, 3);
	h.p_reject = 0.2;
	h.p_out = 0.2;
	h.p_info = 0.3;
	h.p_odd = 0.2;
	h.amp = r.uni(0.3, 1.5);
	gen_history(r, p, 0, 0, h);
	std::map<int, Op> cur;
	std::vector<int> ids;
	for (auto &o : p.ops)
		if (o.k == 'S') {
			if (!cur.count(o.a))
				ids.push_back(o.a);
			cur[o.a] = o;
		}
	int id = next_id(p);
	int rounds = dear ? (int)r.range(4, 10) : r.chance(0.2) ? (int)r.range(40, 120) : (int)r.range(6, 30);
	// the round: several settings with their homogenisation, and observers
	std::vector<Op> body;
	int nh = (int)r.range(1, 2);
	bool cheap = r.chance(0.15); // nothing is solved, so there can be many of them
	if (cheap) {
		nh = 0;
		rounds = (int)r.range(100, 400);
		h.ngp = 1;
	}
	if (!cheap && r.chance(0.2)) { // the whole life of a micro-structure, again and again
		Op x;
		x.k = 'D';
		body.push_back(x);
		x.k = 'N';
		x.a = 0;
		body.push_back(x);
	}
	bool el = c.dim == 2 || (c.mt[0] != 1 && c.mt[1] != 1), upd = el && r.chance(0.7);
	for (int k = 0; k < nh; k++) {
		for (int g : ids)
			if (r.chance(0.6)) {
				Op x = cur[g];
				if (r.chance(0.7))
					gen_strain(r, c, strain_unit(c), h.amp, x.e, x.e);
				x.k = 'S';
				body.push_back(x);
				if (r.chance(0.1))
					body.push_back(x);
			}
		Op x;
		x.k = 'H';
		body.push_back(x);
		if (upd) {
			x.k = 'U';
			body.push_back(x);
		}
	}
	for (int k = (int)r.range(cheap ? 1 : 0, 3); k > 0; k--) {
		Op x;
		x.k = cheap ? "UUIS"[r.range(0, 3)] : "IIOQ"[r.range(0, 3)];
		if (x.k == 'S') {
			if (ids.empty())
				continue;
			x = cur[r.pick(ids)];
			body.push_back(x);
			continue;
		}
		x.a = x.k == 'O' && !ids.empty() ? r.pick(ids) : 424242;
		body.insert(body.begin() + r.range(!body.empty() && body[0].k == 'D' ? 2 : 0, (long)body.size()), x);
	}
	for (int m = 0; m < rounds; m++)
		for (size_t j = 0; j < body.size(); j++) {
			Op x = body[j];
			x.id = id++;
			x.tag = 100 + (int)j;
			x.b = x.k == 'O' ? (int)p.seed % 7 : 0;
			p.ops.push_back(x);
		}
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.3);
}
static void check_c19(const Plan &p, Verdict &v)
{
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "repeated steps"))
		return;
	// compare every call of a round with the same call of the first two complete rounds in a row
	// rounds that were cut by the minimiser are left out: a round counts when its sequence of places is the full one
	std::vector<std::vector<size_t>> rounds;
	std::set<int> places;
	for (size_t i = 0; i < t.ops.size(); i++) {
		int k = p.ops[i].tag - 100;
		if (k < 0)
			continue;
		places.insert(k);
		if (rounds.empty() || p.ops[rounds.back().back()].tag - 100 >= k)
			rounds.emplace_back();
		rounds.back().push_back(i);
	}
	auto work = [&](const OpRec &o) {
		std::vector<double> w = {(double)o.edges, (double)o.al, (double)(o.ioc[0] + o.ioc[2]), (double)o.ioc[1], (double)o.rd};
		double b = 0;
		for (auto &f : o.files)
			b += f.data.size();
		w.push_back(b);
		return w;
	};
	static const char *nm[] = {"basic blocks executed", "allocations", "opens and closes", "writes", "bytes read", "bytes written"};
	static const double slack[] = {200, 8, 4, 4, 256, 64};
	std::map<int, std::vector<double>> base;
	int seen = 0;
	for (auto &q : rounds) {
		if (q.size() != places.size())
			continue;
		for (size_t i : q) {
			if (t.ops[i].status == 5)
				continue;
			std::vector<double> w = work(t.ops[i]);
			int k = p.ops[i].tag;
			if (seen < 2) {
				auto &b = base[k];
				b.resize(w.size(), 0.0);
				for (size_t j = 0; j < w.size(); j++)
					b[j] = std::max(b[j], w[j]);
				continue;
			}
			v.stat["comparisons"]++;
			for (size_t j = 0; j < w.size(); j++) {
				note(v, fmt("cost%zu", j).c_str(), base[k][j] > 0 ? w[j] / base[k][j] : 0);
				if (w[j] > 1.25 * base[k][j] + slack[j]) {
					v.fail("cost-grows", fmt("operation %d (%c), the same call as %d rounds before: %.0f %s, then %.0f", p.ops[i].id, p.ops[i].k, seen - 1, w[j], nm[j], base[k][j]));
					return;
				}
			}
		}
		seen++;
		v.stat["rounds"]++;
	}
}

// ================================================================ C20
static void gen_c20(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.size = r.chance(0.6) ? 0 : 1;
	int sm = scale_mode(r, co, 0.03);
	p.cfgs.push_back(gen_cfg(r, co));
	HistOpt h;
	h.ngp = (int)r.range(1, r.chance(0.1) ? 8 : 3);
	h.steps = (int)r.range(1, 4);
	h.p_reject = 0.2;
	h.p_out = 0.35;
	h.p_info = 0.5;
	h.p_query = 0.2;
	h.p_odd = 0.2;
	h.p_poison = r.chance(0.2) && !sm ? 0.3 : 0;
	h.amp = r.chance(0.3) ? 0.3 : 1.5;
	h.idbase = r.chance(0.3) ? (int)r.range(900, 20000) : 0;
	apply_scale(r, sm, p.cfgs[0], h);
	gen_history(r, p, 0, 0, h);
	if (r.chance(0.3)) {
		Op d;
		d.id = next_id(p);
		d.k = 'D';
		p.ops.push_back(d);
		if (r.chance(0.5))
			p.cfgs.push_back(gen_cfg(r, co));
		if (r.chance(0.6)) {
			h.steps = 2;
			gen_history(r, p, 0, (int)p.cfgs.size() - 1, h);
		}
	}
	for (auto &o : p.ops)
		if (o.k == 'O' && r.chance(0.3))
			o.b = (int)r.range(900, 3000000);
	if (r.chance(0.3))
		io_faults(r, p, (int)r.range(1, 4), {"open", "eio", "enospc", "short", "eintr", "close"});
	p.knob["host"] = r.range(1, 1000000000);
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.35);
}
static bool host_kept(const Trace &t, Verdict &v, const char *what)
{
	for (auto &o : t.ops) {
		v.stat["comparisons"]++;
		if (!o.host.empty()) {
			v.fail("host-changed", fmt("%s: operation %d (%c) changed something of the process that called it: %s", what, o.opid, o.k, o.host.c_str()));
			return false;
		}
	}
	return true;
}
static void check_c20(const Plan &p, Verdict &v)
{
	Env e;
	e.hostcheck = true;
	e.iofaults = !p.faults.empty();
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "plain host") || !host_kept(t, v, "plain host"))
		return;
	if (!p.kn("host"))
		return;
	e.host = (uint64_t)p.kn("host");
	v.stat["fault.host"]++;
	Trace u = run(p, e, v);
	if (died(u, v, "host with settings of its own") || !host_kept(u, v, "host with settings of its own"))
		return;
	if (same_numbers(t, u, v, "host-shows", "host with settings of its own"))
		same_files(t, u, v, "host-shows-in-files", "host with settings of its own");
}

// ================================================================ C21
static void gen_c21(Rng &r, Plan &p)
{
	CfgOpt co;
	co.inv = 1;
	co.dim = r.chance(0.07) ? 2 : 3;
	co.plastic = 0.93;
	co.size = r.chance(0.3) ? 0 : 1;
	int sm = scale_mode(r, co, 0.06);
	p.cfgs.push_back(gen_cfg(r, co));
	Config &c = p.cfgs[0];
	if (r.chance(0.3))
		equally_stiff(c);
	bool wild = !sm && c.nn() <= 27 && r.chance(0.4), big = !wild && !sm && r.chance(0.02);
	if (big)
		big_cfg(r, c);
	HistOpt h;
	h.ngp = big ? 1 : (int)r.range(1, r.chance(0.15) ? 6 : 3);
	h.steps = big ? 2 : (int)r.range(2, 6);
	h.p_reject = 0.25;
	h.p_out = 0.1;
	h.p_info = 0.1;
	h.p_odd = 0.2;
	h.p_poison = wild && r.chance(0.5) ? 0.3 : 0;
	h.amp = wild ? r.logu(1, 50) : r.uni(0.5, 3);
	apply_scale(r, sm, c, h);
	gen_history(r, p, 0, 0, h);
	if (wild) // far beyond what converges, and committed
		for (auto &o : p.ops)
			if (o.k == 'S' && r.chance(0.2)) {
				double f = r.logu(2, 1e6);
				for (int i = 0; i < 6; i++)
					o.e[i] *= f;
			} else if (o.k == 'S' && r.chance(0.03))
				poison(r, c, o.e);
	Plan q = p;
	q.ops.clear();
	int id = next_id(p);
	auto rec = [&](double pr) {
		if (!r.chance(pr))
			return;
		Op x;
		x.id = id++;
		x.k = 'I';
		q.ops.push_back(x);
	};
	for (auto &o : p.ops) {
		if (o.k == 'U')
			rec(0.4);
		q.ops.push_back(o);
		if (o.k == 'U')
			rec(0.9);
		if (o.k == 'H')
			rec(0.15);
	}
	rec(1);
	p = q;
	p.knob["dirt"] = r.range(0, 8);
	p.knob["api"] = r.chance(0.2);
}
static void check_c21(const Plan &p, Verdict &v)
{
	if (p.cfgs.empty())
		return;
	Env e;
	e.dirt = (int)p.kn("dirt");
	e.api = (int)p.kn("api");
	Trace t = run(p, e, v);
	if (died(t, v, "history") || !commits_what_was_reported(p, t, v))
		return;
	const Config *c = nullptr;
	std::vector<int> ids, phase;
	std::map<int, std::vector<double>> last; // recorded variables
	std::set<int> lost;                      // committed something that is not finite
	int steps = 0;                           // committed trials since the last record
	bool pending = false;                    // homogenised since the last update
	const double q23 = sqrt(2.0 / 3);
	for (size_t i = 0; i < t.ops.size(); i++) {
		const Op &op = p.ops[i];
		const OpRec &o = t.ops[i];
		if (op.k == 'N' && op.a < (int)p.cfgs.size()) {
			c = &p.cfgs[op.a];
			phase = Ref(*c).phase;
			ids.clear(), last.clear(), lost.clear();
			steps = 0;
			pending = false;
		}
		if (!c || o.status == 5)
			continue;
		if (op.k == 'S' && std::find(ids.begin(), ids.end(), op.a) == ids.end())
			ids.push_back(op.a);
		if (op.k == 'H')
			pending = true;
		if (op.k == 'U' && pending) {
			steps++;
			pending = false;
		}
		if (op.k != 'I')
			continue;
		Info in = parse_info(o, *c, ids.size());
		if (!in.ok) {
			v.fail("record", fmt("operation %d: %s", op.id, in.why.c_str()));
			return;
		}
		for (size_t g = 0; g < ids.size(); g++) {
			const std::vector<double> &x = in.vars[g];
			bool had = last.count(ids[g]);
			std::vector<double> &y = last[ids[g]];
			if (!had)
				y.assign(x.size(), 0.0);
			v.stat["comparisons"]++;
			bool was_lost = lost.count(ids[g]);
			for (size_t b = 0; b + 7 <= x.size(); b += 7) {
				size_t el = b / 56;
				bool can = c->dim == 3 && c->mt[phase[el] ? 1 : 0] == 1;
				double m = 0, a = 0, tr = x[b] + x[b + 1] + x[b + 2], n = 0, d = 0;
				bool fin = true;
				for (int k = 0; k < 7; k++) {
					fin &= std::isfinite(x[b + k]);
					m = std::max(m, std::max(std::fabs(x[b + k]), std::fabs(y[b + k])));
					a = std::max(a, std::fabs(x[b + k]));
				}
				auto where = [&]() { return fmt("operation %d, point %d, cell %zu, integration point %zu", op.id, ids[g], el, b / 7 % 8); };
				if (a != 0 || !fin) {
					if (!can) {
						v.fail("elastic-cell", where() + ": plastic variables in a cell whose material cannot yield");
						return;
					}
					if (in.conv[g].flag == 0) {
						v.fail("flag", where() + ": plastic variables of a point that is reported as never having yielded");
						return;
					}
				}
				if (!fin)
					lost.insert(ids[g]);
				if (!fin || was_lost || !can)
					continue;
				v.stat["integration_points"]++;
				for (int k = 0; k < 6; k++) {
					double w = k < 3 ? 1 : 2;
					n += w * x[b + k] * x[b + k];
					d += w * (x[b + k] - y[b + k]) * (x[b + k] - y[b + k]);
				}
				n = q23 * sqrt(n);
				d = q23 * sqrt(d);
				if (!std::isfinite(n) || !std::isfinite(d))
					continue;
				double al = x[b + 6], da = al - y[b + 6], tol = 4e-5 * m + 1e-300;
				if (a > 0)
					v.stat["yielded_points"]++;
				if (m > 0) {
					note(v, "trace", std::fabs(tr) / tol);
					note(v, "decrease", -da / tol);
					note(v, "path", (d - da) / tol);
					if (steps <= 1)
						note(v, "step", std::fabs(da - d) / tol);
				}
				if (std::fabs(tr) > tol)
					v.fail("volume", where() + fmt(": plastic strain %g %g %g changes the volume", x[b], x[b + 1], x[b + 2]));
				else if (al < -tol || n - al > tol)
					v.fail("hardening", where() + fmt(": accumulated plastic strain %g is less than the plastic strain %g reached", al, n));
				else if (da < -tol)
					v.fail("hardening", where() + fmt(": accumulated plastic strain fell from %g to %g", y[b + 6], al));
				else if (steps == 0 && had && (d > tol || std::fabs(da) > tol))
					v.fail("no-update", where() + ": committed variables changed without an update");
				else if (d - da > tol)
					v.fail("path", where() + fmt(": plastic strain moved by %g, accumulated plastic strain by %g", d, da));
				else if (steps == 1 && had && da - d > tol)
					v.fail("path", where() + fmt(": in one update the plastic strain moved by %g but the accumulated plastic strain by %g", d, da));
				if (v.viol)
					return;
			}
			y = x;
		}
		steps = 0;
	}
}

// ================================================================
Plan generate(const std::string &prop, uint64_t seed)
{
	Plan p;
	p.prop = prop;
	p.seed = seed;
	Rng r(mix64(seed, 0x5eed));
	typedef void (*gen_t)(Rng &, Plan &);
	static const std::map<std::string, gen_t> g = {{"C01", gen_c01}, {"C02", gen_c02}, {"C03", gen_c03}, {"C04", gen_c04}, {"C05", gen_c05}, {"C06", gen_c06}, {"C07", gen_c07},
	                                               {"C08", gen_c08}, {"C09", gen_c09}, {"C10", gen_c10}, {"C11", gen_c11}, {"C12", gen_c12}, {"C13", gen_c13}, {"C14", gen_c14}, {"C17", gen_c17}, {"C18", gen_c18}, {"C19", gen_c19}, {"C20", gen_c20}, {"C21", gen_c21}};
	auto it = g.find(prop);
	if (it != g.end())
		it->second(r, p);
	return p;
}
Verdict check(const Plan &p)
{
	Verdict v;
	typedef void (*chk_t)(const Plan &, Verdict &);
	static const std::map<std::string, chk_t> c = {{"C01", check_c01}, {"C02", check_c02}, {"C03", check_c03}, {"C04", check_c04}, {"C05", check_c05}, {"C06", check_c06}, {"C07", check_c07},
	                                               {"C08", check_c08}, {"C09", check_c09}, {"C10", check_c10}, {"C11", check_c11}, {"C12", check_c12}, {"C13", check_c13}, {"C14", check_c14}, {"C17", check_c17}, {"C18", check_c18}, {"C19", check_c19}, {"C20", check_c20}, {"C21", check_c21}};
	auto it = c.find(p.prop);
	if (it == c.end()) {
		v.error = true;
		v.msg = "unknown property " + p.prop;
		return v;
	}
	it->second(p, v);
	return v;
}
