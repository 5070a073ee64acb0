From 5824871592a55b7ecedb21a2da0fcb6a59ade28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 01/11] fix: read the linearity threshold from the caller's
 parameters

inv_tol was initialised from the member micro_params[4] before that array
was filled, so the linear/non-linear switch used indeterminate memory.
---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 79905df266e7dc0f112c4a3b2662c65a2db04522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 02/11] fix: count Newton iterations instead of advancing the
 counter pointer

*its++ moved the pointer: the loop bound was compared against unrelated
stack memory and the reported iteration count was always 0.
---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From f5aca404b3c4998264de79d3dbe72b2242ee91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 03/11] fix: start from zero displacements and internal
 variables

calc_ctan_lin() ran on uninitialised u and vars_old, and vars_new of
non-plastic elements reached micropp_int_vars_n.dat without ever being set.
---
 src/micro.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..d557a2e 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -67,6 +67,11 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
 
+	for (int i = 0; i < nn * dim; i++)
+		u[i] = 0.0;
+	for (int i = 0; i < num_int_vars; i++)
+		vars_old[i] = vars_new[i] = 0.0;
+
 	int nParams;
 	if (micro_type == 0) {
 		// mat 1 = matrix
-- 
2.43.0


From 67d04207dde957a75013e58baa2cc4d918ef38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 04/11] fix: initialise every field of a new Gauss point

Stresses, tangents and Newton counters of a point were indeterminate until
homogenize(), and in 2D the unused components were written to the .dat files.
---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..f40e3ee 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = {};
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From 3d605aed8e5a743810bfa0303934ea8be4bf7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 05/11] fix: divide 3D averages by the cell volume

The averages were divided by lx * ly in 3D too, so stresses and tangents were
wrong by a factor lz whenever lz != 1.
---
 src/assembly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..ebdae5c 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -784,7 +784,7 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= (dim == 2 ? lx * ly : lx * ly * lz);
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -840,7 +840,7 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= (dim == 2 ? lx * ly : lx * ly * lz);
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 93dd5764837db8ab6aed193fddbcaa29120d1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 06/11] fix: an element is non-linear when any of its
 integration points yields

Only the last integration point decided, so plastic flow elsewhere in the
element was not recorded and its history was lost.
---
 src/assembly.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index ebdae5c..a74fde9 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -701,7 +701,9 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double (&be)[3 * 8])
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
+	bool non_linear_gp;
 
+	*non_linear = false;
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
@@ -711,7 +713,9 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From 8b2e8826bb392a0b1beaa747aa0ca4cbe36e7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 07/11] fix: an elastic trial replaces the trial state of a
 discarded plastic one

After a plastic trial that the caller rejected, an elastic trial left
int_vars_k untouched and update_vars() committed the rejected plastic flow.
---
 src/homogenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index f40e3ee..5e2fd4c 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -177,9 +177,10 @@ void micropp_t::homogenize()
 					for (int i = 0; i < num_int_vars; ++i)
 						gp.int_vars_n[i] = 0.0;
 				}
+			}
+			if (gp.int_vars_n != NULL)
 				for (int i = 0; i < num_int_vars; ++i)
 					gp.int_vars_k[i] = vars_new[i];
-			}
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From ba3009ae3ac43d03197659dd0dddadd7c758f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 08/11] fix: subtract committed plastic shear in the same
 measure as the strain

The plastic strain is stored in tensor components while the total shear
strain is the engineering one, so half of the committed plastic shear was
forgotten and repeating a committed strain gave another stress.
---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index a74fde9..7d9261e 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1026,7 +1026,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From ca68943177bd1cc7262843637ed7a32e5500aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:18 +0000
Subject: [PATCH 09/11] fix: release the previous micro-structure when
 constructing a new one

---
 src/wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..3c97a3c 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,8 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
+		micro = NULL;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0


From 8d9772b29a281adb2eae75775be51e419e63a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 10/11] fix: start the solution of every Gauss point from its
 own uniform strain

The interior displacements left by whatever was solved before were the
starting point, so one point could keep another from converging, and a single
trial with a NaN or overflowing strain made every later result NaN.
---
 include/micro.hpp  |  1 +
 src/assembly.cpp   | 23 +++++++++++++++++++++++
 src/homogenize.cpp |  1 +
 src/output.cpp     |  1 +
 4 files changed, 26 insertions(+)

diff --git a/include/micro.hpp b/include/micro.hpp
index 06970f1..60ba1db 100644
--- a/include/micro.hpp
+++ b/include/micro.hpp
@@ -114,6 +114,7 @@ class micropp_t {
 		void update_vars();
 		void get_nl_flag(int gp_id, int *nl_flag);
 
+		void init_displ(const double *eps);
 		void set_displ(double *eps);
 		double assembly_rhs(bool *nl_flag);
 
diff --git a/src/assembly.cpp b/src/assembly.cpp
index 7d9261e..c3d4f53 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -26,6 +26,29 @@
 
 using namespace std;
 
+void micropp_t::init_displ(const double *eps)
+{
+	// uniform strain on every node: a starting point that owes nothing to earlier solutions
+	for (int k = 0; k < nz; k++) {
+		for (int j = 0; j < ny; j++) {
+			for (int i = 0; i < nx; i++) {
+				int n = nod_index(i, j, k);
+				double xcoor = i * dx;
+				double ycoor = j * dy;
+				if (dim == 2) {
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[2] * ycoor;
+					u[n * dim + 1] = 0.5 * eps[2] * xcoor + eps[1] * ycoor;
+				} else if (dim == 3) {
+					double zcoor = k * dz;
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[3] * ycoor + 0.5 * eps[4] * zcoor;
+					u[n * dim + 1] = 0.5 * eps[3] * xcoor + eps[1] * ycoor + 0.5 * eps[5] * zcoor;
+					u[n * dim + 2] = 0.5 * eps[4] * xcoor + 0.5 * eps[5] * ycoor + eps[2] * zcoor;
+				}
+			}
+		}
+	}
+}
+
 void micropp_t::set_displ(double *eps)
 {
 
diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 5e2fd4c..2787081 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -166,6 +166,7 @@ void micropp_t::homogenize()
 			int nr_its;
 			bool nl_flag;
 			double nr_err;
+			init_displ(gp.macro_strain);
 			set_displ(gp.macro_strain);
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
diff --git a/src/output.cpp b/src/output.cpp
index 992b82b..a0a8fc6 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -40,6 +40,7 @@ void micropp_t::output(int time_step, int gp_id)
 			int nr_its;
 			bool nl_flag;
 			double nr_err;
+			init_displ(gp.macro_strain);
 			set_displ((double *)gp.macro_strain);
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 
-- 
2.43.0


From 7542d6034ce796f0d645ebe124b13ecf4822fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:20 +0000
Subject: [PATCH 11/11] fix: write files in the classic locale whatever the
 host's

---
 src/micro.cpp  | 1 +
 src/output.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/micro.cpp b/src/micro.cpp
index d557a2e..96aa146 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -89,6 +89,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 		micro_params[i] = _micro_params[i];
 
 	ofstream file;
+	file.imbue(locale::classic());
 	file.open("micropp_materials.dat");
 	file << scientific;
 	for (int i = 0; i < numMaterials; i++) {
diff --git a/src/output.cpp b/src/output.cpp
index a0a8fc6..0b7e9cf 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -53,10 +53,12 @@ void micropp_t::output(int time_step, int gp_id)
 void micropp_t::write_vtu(int time_step, int gp_id)
 {
 	std::stringstream fname_vtu_s;
+	fname_vtu_s.imbue(std::locale::classic());
 	fname_vtu_s << "micropp_" << gp_id << "_" << time_step << ".vtu";
 	std::string fname_vtu = fname_vtu_s.str();
 
 	ofstream file;
+	file.imbue(locale::classic());
 	file.open(fname_vtu);
 	file << "<?xml version=\"1.0\"?>" << endl
 	     <<
@@ -225,6 +227,7 @@ void micropp_t::write_vtu(int time_step, int gp_id)
 void micropp_t::write_info_files()
 {
 	ofstream file;
+	file.imbue(locale::classic());
 	if (output_files_header == false) {
 		output_files_header = true;
 
-- 
2.43.0

