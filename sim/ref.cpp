#include "ref.h"
#include <algorithm>
#include <cmath>

static const int VI[6] = {0, 1, 2, 0, 0, 1}, VJ[6] = {0, 1, 2, 1, 2, 2};

Ref::Ref(const Config &c) : cfg(c)
{
	int d = c.dim;
	nv = c.nvoi();
	np = npe = 1 << d;
	int n[3] = {c.n[0], c.n[1], d == 3 ? c.n[2] : 1};
	for (int i = 0; i < d; i++)
		h[i] = c.mp[i] / (c.n[i] - 1);
	dof = n[0] * n[1] * n[2] * d;
	// corner signs, counter-clockwise in the plane
	static const int SX[8] = {-1, 1, 1, -1, -1, 1, 1, -1}, SY[8] = {-1, -1, 1, 1, -1, -1, 1, 1}, SZ[8] = {-1, -1, -1, -1, 1, 1, 1, 1};
	const double g = 1 / std::sqrt(3.0);
	for (int q = 0; q < np; q++) {
		double x[3] = {SX[q] * g, SY[q] * g, SZ[q] * g};
		std::vector<double> b((size_t)nv * npe * d, 0.0);
		for (int a = 0; a < npe; a++) {
			int sg[3] = {SX[a], SY[a], SZ[a]};
			double gr[3];
			for (int i = 0; i < d; i++) {
				gr[i] = sg[i] / 2.0;
				for (int j = 0; j < d; j++)
					if (j != i)
						gr[i] *= (1 + sg[j] * x[j]) / 2;
				gr[i] *= 2 / h[i];
			}
			for (int v = 0; v < nv; v++) {
				int i = VI[v], j = VJ[v];
				if (d == 2 && v == 2) {
					i = 0;
					j = 1;
				}
				if (i == j)
					b[v * npe * d + a * d + i] = gr[i];
				else {
					b[v * npe * d + a * d + i] = gr[j];
					b[v * npe * d + a * d + j] = gr[i];
				}
			}
		}
		B.push_back(b);
	}
	int ne[3] = {n[0] - 1, n[1] - 1, d == 3 ? n[2] - 1 : 1};
	for (int k = 0; k < ne[2]; k++)
		for (int j = 0; j < ne[1]; j++)
			for (int i = 0; i < ne[0]; i++) {
				std::vector<int> cn;
				for (int a = 0; a < npe; a++) {
					int ii = i + (SX[a] > 0), jj = j + (SY[a] > 0), kk = d == 3 ? k + (SZ[a] > 0) : 0;
					cn.push_back((kk * n[1] + jj) * n[0] + ii);
				}
				conn.push_back(cn);
				double ctr[3] = {(i + 0.5) * h[0], (j + 0.5) * h[1], d == 3 ? (k + 0.5) * h[2] : 0};
				double val, lim;
				if (c.type == 0) {
					val = 0;
					for (int t = 0; t < d; t++)
						val += (ctr[t] - c.mp[t] / 2) * (ctr[t] - c.mp[t] / 2);
					lim = c.mp[3] * c.mp[3];
				} else {
					val = ctr[1];
					lim = c.mp[3];
				}
				phase.push_back(val < lim);
				phase_margin = std::min(phase_margin, std::fabs(val - lim));
			}
	eq.assign(dof, -1);
	for (int k = 0; k < n[2]; k++)
		for (int j = 0; j < n[1]; j++)
			for (int i = 0; i < n[0]; i++) {
				bool bd = i == 0 || j == 0 || i == n[0] - 1 || j == n[1] - 1 || (d == 3 && (k == 0 || k == n[2] - 1));
				if (!bd)
					for (int t = 0; t < d; t++)
						eq[((k * n[1] + j) * n[0] + i) * d + t] = neq++;
			}
}

bool Ref::any_plastic() const
{
	if (cfg.dim == 2)
		return false;
	for (int p : phase)
		if (cfg.mt[p] == 1)
			return true;
	return false;
}

// Stress, tangent and new history of one integration point; f: how far beyond (or short of) yielding, in strain.
bool Ref::material(int ph, const double *eps, const double *old, double *sig, double *C, double *nw, double *f) const
{
	double E = cfg.par[ph * 10], nu = cfg.par[ph * 10 + 1], Sy = cfg.par[ph * 10 + 2], Ka = cfg.par[ph * 10 + 3];
	double G = E / 2 / (1 + nu), K = E / 3 / (1 - 2 * nu);
	double lam = K - 2 * G / 3;
	*f = -1e300;
	for (int i = 0; i < nv * nv; i++)
		C[i] = 0;
	if (cfg.dim == 2) {
		C[0] = C[4] = lam + 2 * G;
		C[1] = C[3] = lam;
		C[8] = G;
		for (int i = 0; i < 3; i++)
			sig[i] = C[i * 3] * eps[0] + C[i * 3 + 1] * eps[1] + C[i * 3 + 2] * eps[2];
		return false;
	}
	for (int i = 0; i < 7; i++)
		nw[i] = old[i];
	// as symmetric tensors
	double e[3][3], p[3][3], s[3][3];
	for (int v = 0; v < 6; v++) {
		int i = VI[v], j = VJ[v];
		e[i][j] = e[j][i] = v < 3 ? eps[v] : eps[v] / 2;
		p[i][j] = p[j][i] = old[v];
	}
	double tr = e[0][0] + e[1][1] + e[2][2], trp = p[0][0] + p[1][1] + p[2][2];
	double ns = 0;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			s[i][j] = 2 * G * (e[i][j] - p[i][j] - (i == j ? (tr - trp) / 3 : 0));
			ns += s[i][j] * s[i][j];
		}
	ns = std::sqrt(ns);
	double theta = 1, nn = 0;
	bool y = false;
	if (cfg.mt[ph] == 1) {
		double R = std::sqrt(2.0 / 3) * (Sy + Ka * old[6]);
		*f = (ns - R) / (2 * G);
		if (ns > R) {
			y = true;
			theta = R / ns;
			nn = theta;
			double dl = (ns - R) / (2 * G);
			for (int v = 0; v < 6; v++)
				nw[v] = old[v] + dl * s[VI[v]][VJ[v]] / ns;
			nw[6] = old[6] + std::sqrt(2.0 / 3) * dl;
		}
	}
	for (int v = 0; v < 6; v++)
		sig[v] = theta * s[VI[v]][VJ[v]] + (v < 3 ? K * tr : 0);
	for (int v = 0; v < 6; v++)
		for (int w = 0; w < 6; w++) {
			double c = 0;
			if (v < 3 && w < 3)
				c += K - theta * 2 * G / 3;
			if (v == w)
				c += theta * (v < 3 ? 2 * G : G);
			if (nn > 0)
				c -= nn * 2 * G * s[VI[v]][VJ[v]] * s[VI[w]][VJ[w]] / (ns * ns);
			C[v * 6 + w] = c;
		}
	return y;
}

void Ref::affine(const double *eps, std::vector<double> &u) const
{
	int d = cfg.dim, n[3] = {cfg.n[0], cfg.n[1], d == 3 ? cfg.n[2] : 1};
	double F[3][3] = {{0}};
	if (d == 2) {
		F[0][0] = eps[0];
		F[1][1] = eps[1];
		F[0][1] = F[1][0] = eps[2] / 2;
	} else
		for (int v = 0; v < 6; v++)
			F[VI[v]][VJ[v]] = F[VJ[v]][VI[v]] = v < 3 ? eps[v] : eps[v] / 2;
	u.assign(dof, 0.0);
	for (int k = 0; k < n[2]; k++)
		for (int j = 0; j < n[1]; j++)
			for (int i = 0; i < n[0]; i++) {
				double x[3] = {i * h[0], j * h[1], d == 3 ? k * h[2] : 0};
				for (int t = 0; t < d; t++) {
					double v = 0;
					for (int w = 0; w < d; w++)
						v += F[t][w] * x[w];
					u[((k * n[1] + j) * n[0] + i) * d + t] = v;
				}
			}
}

// LU with partial pivoting, in place
static double lu(std::vector<double> &A, std::vector<int> &piv, int n)
{
	double mn = 1e300, mx = 0;
	piv.resize(n);
	for (int c = 0; c < n; c++) {
		int p = c;
		for (int r = c + 1; r < n; r++)
			if (std::fabs(A[r * n + c]) > std::fabs(A[p * n + c]))
				p = r;
		piv[c] = p;
		if (p != c)
			for (int k = 0; k < n; k++)
				std::swap(A[p * n + k], A[c * n + k]);
		double d = A[c * n + c];
		mn = std::min(mn, std::fabs(d));
		mx = std::max(mx, std::fabs(d));
		if (d == 0 || !std::isfinite(d))
			return 0;
		for (int r = c + 1; r < n; r++) {
			double f = A[r * n + c];
			if (f == 0)
				continue;
			f /= d;
			A[r * n + c] = f;
			double *ar = &A[r * n], *ac = &A[c * n];
			for (int k = c + 1; k < n; k++)
				ar[k] -= f * ac[k];
		}
	}
	return mx > 0 ? mn / mx : 1;
}
static void lusolve(const std::vector<double> &A, const std::vector<int> &piv, int n, double *b)
{
	for (int c = 0; c < n; c++) {
		std::swap(b[c], b[piv[c]]);
	}
	for (int r = 0; r < n; r++)
		for (int k = 0; k < r; k++)
			b[r] -= A[r * n + k] * b[k];
	for (int r = n - 1; r >= 0; r--) {
		for (int k = r + 1; k < n; k++)
			b[r] -= A[r * n + k] * b[k];
		b[r] /= A[r * n + r];
	}
}

RefSol Ref::solve(const double *eps, const std::vector<double> &old, bool tangent) const
{
	RefSol R;
	int d = cfg.dim, nd = npe * d, ne = cfg.nelem();
	double w = 1;
	for (int i = 0; i < d; i++)
		w *= h[i];
	w /= np;
	std::vector<double> u;
	affine(eps, u);
	R.state = old;
	R.its = -1;
	std::vector<double> K, rhs, Cs((size_t)ne * np * nv * nv), best;
	std::vector<int> piv;
	double fscale = 0, last = 1e300;
	bool lin = !any_plastic();
	int stall = 0;
	for (int it = 0; it < 60; it++) {
		K.assign((size_t)neq * neq, 0.0);
		rhs.assign(neq, 0.0);
		R.yield = false;
		R.kink = 1e300;
		R.fmax = -1e300;
		R.cstrain.assign((size_t)ne * nv, 0.0);
		R.cstress.assign((size_t)ne * nv, 0.0);
		for (int v = 0; v < 6; v++)
			R.s[v] = 0;
		fscale = 0;
		for (int e = 0; e < ne; e++) {
			std::vector<double> Ke((size_t)nd * nd, 0.0);
			for (int q = 0; q < np; q++) {
				const std::vector<double> &b = B[q];
				double ep[6], sg[6], nw[7], f, *C = &Cs[((size_t)e * np + q) * nv * nv];
				static const double z7[7] = {0, 0, 0, 0, 0, 0, 0};
				for (int v = 0; v < nv; v++) {
					ep[v] = 0;
					for (int a = 0; a < npe; a++)
						for (int t = 0; t < d; t++)
							ep[v] += b[v * nd + a * d + t] * u[conn[e][a] * d + t];
				}
				const double *o = d == 3 ? &old[((size_t)e * 8 + q) * 7] : z7;
				bool y = material(phase[e], ep, o, sg, C, nw, &f);
				R.yield |= y;
				R.fmax = std::max(R.fmax, f);
				if (f > -1e299)
					R.kink = std::min(R.kink, std::fabs(f));
				if (d == 3)
					for (int i = 0; i < 7; i++)
						R.state[((size_t)e * 8 + q) * 7 + i] = nw[i];
				for (int v = 0; v < nv; v++) {
					R.s[v] += sg[v] * w;
					R.cstrain[e * nv + v] += ep[v] / np;
					R.cstress[e * nv + v] += sg[v] / np;
				}
				double CB[6 * 24];
				for (int v = 0; v < nv; v++)
					for (int j = 0; j < nd; j++) {
						double x = 0;
						for (int t = 0; t < nv; t++)
							x += C[v * nv + t] * b[t * nd + j];
						CB[v * nd + j] = x * w;
					}
				for (int i = 0; i < nd; i++) {
					double fi = 0;
					for (int v = 0; v < nv; v++) {
						fi += b[v * nd + i] * sg[v] * w;
						double bv = b[v * nd + i];
						if (bv != 0)
							for (int j = 0; j < nd; j++)
								Ke[i * nd + j] += bv * CB[v * nd + j];
					}
					fscale = std::max(fscale, std::fabs(fi));
					int I = eq[conn[e][i / d] * d + i % d];
					if (I >= 0)
						rhs[I] -= fi;
				}
			}
			for (int i = 0; i < nd; i++) {
				int I = eq[conn[e][i / d] * d + i % d];
				if (I < 0)
					continue;
				for (int j = 0; j < nd; j++) {
					int J = eq[conn[e][j / d] * d + j % d];
					if (J >= 0)
						K[(size_t)I * neq + J] += Ke[i * nd + j];
				}
			}
		}
		double vol = w * np * ne;
		for (int v = 0; v < nv; v++)
			R.s[v] /= vol;
		double r = 0;
		for (double x : rhs)
			r += x * x;
		r = std::sqrt(r);
		if (it == 0)
			R.res0 = r;
		R.res = r;
		if (R.its < 0 && r < 1e-5)
			R.its = it;
		bool tight = r <= 1e-12 * fscale * std::sqrt((double)neq + 1);
		bool floor_ = r < 1e-5 && r > last * 0.5 && r <= 1e-10 * fscale * std::sqrt((double)neq + 1);
		if (!std::isfinite(r))
			break;
		if (tight || floor_ || neq == 0 || (r < 1e-5 && it > 0 && lin)) {
			R.ok = true;
			R.cond = neq ? lu(K, piv, neq) : 1;
			if (neq && R.cond == 0)
				R.ok = false;
			break;
		}
		if (r > last * 0.9) {
			if (++stall > 25)
				break;
		}
		last = r;
		R.cond = lu(K, piv, neq);
		if (R.cond == 0)
			break;
		lusolve(K, piv, neq, rhs.data());
		for (int i = 0; i < dof; i++)
			if (eq[i] >= 0)
				u[i] += rhs[eq[i]];
	}
	R.u = u;
	if (R.its < 0)
		R.its = 1000;
	for (int i = 0; i < 36; i++)
		R.c[i] = 0;
	if (!R.ok || !tangent)
		return R;
	// tangent: one linear problem per component, boundary driven by a unit strain
	double vol = w * np * ne;
	R.amp = 1;
	for (int m = 0; m < nv; m++) {
		double unit[6] = {0, 0, 0, 0, 0, 0};
		unit[m] = 1;
		std::vector<double> du;
		affine(unit, du);
		for (int pass = 0; pass < (neq ? 2 : 1); pass++) {
			std::vector<double> f(neq, 0.0);
			double sg[6] = {0, 0, 0, 0, 0, 0};
			for (int e = 0; e < ne; e++)
				for (int q = 0; q < np; q++) {
					const std::vector<double> &b = B[q];
					const double *C = &Cs[((size_t)e * np + q) * nv * nv];
					double ep[6], ss[6], en = 0;
					for (int v = 0; v < nv; v++) {
						ep[v] = 0;
						for (int a = 0; a < npe; a++)
							for (int t = 0; t < d; t++)
								ep[v] += b[v * nd + a * d + t] * du[conn[e][a] * d + t];
						en += ep[v] * ep[v];
					}
					if (pass == 1)
						R.amp = std::max(R.amp, std::sqrt(en));
					for (int v = 0; v < nv; v++) {
						ss[v] = 0;
						for (int t = 0; t < nv; t++)
							ss[v] += C[v * nv + t] * ep[t];
						sg[v] += ss[v] * w / vol;
					}
					for (int i = 0; i < nd; i++) {
						int I = eq[conn[e][i / d] * d + i % d];
						if (I < 0)
							continue;
						double x = 0;
						for (int v = 0; v < nv; v++)
							x += b[v * nd + i] * ss[v] * w;
						f[I] -= x;
					}
				}
			if (pass == 1 || !neq) {
				for (int v = 0; v < nv; v++)
					R.c[v * nv + m] = sg[v];
			} else {
				lusolve(K, piv, neq, f.data());
				for (int i = 0; i < dof; i++)
					if (eq[i] >= 0)
						du[i] += f[eq[i]];
			}
		}
	}
	return R;
}

void Ref::linear(double *c) const
{
	Config el = cfg;
	el.mt[0] = el.mt[1] = 0;
	Ref r(el);
	double e[6] = {0, 0, 0, 0, 0, 0};
	e[0] = 1e-6;
	RefSol s = r.solve(e, r.zero());
	for (int i = 0; i < 36; i++)
		c[i] = s.c[i];
}
