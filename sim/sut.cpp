// The only file that sees the headers of the system under test.
#include <cstdlib>
#include <cstdio>
#include <new>
#include "micro.hpp"
#include "sim.h"

extern "C" {
void micropp_construct_(int *dim, int size[3], int *micro_type, double *micro_params, int *mat_types, double *params);
void micropp_output_(int *tstep, int *gp_id);
void micropp_get_non_linear_flag_(int *gp_id, int *non_linear);
void micropp_set_macro_strain_(int *gp_id, double *macro_strain);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *gp_id, double *macro_stress);
void micropp_get_macro_ctan_(int *gp_id, double *macro_ctan);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

#define M ((micropp_t *)m)
size_t sut_sizeof() { return sizeof(micropp_t); }
void sut_new(void *mem, int api, int dim, int *size, int type, double *mp, int *mt, double *par)
{
	if (api)
		micropp_construct_(&dim, size, &type, mp, mt, par);
	else
		new (mem) micropp_t(dim, size, type, mp, mt, par);
}
void sut_del(void *m, int api)
{
	if (!api)
		M->~micropp_t();
}
void sut_set(void *m, int api, int gp, double *e)
{
	if (api)
		micropp_set_macro_strain_(&gp, e);
	else
		M->set_macro_strain(gp, e);
}
void sut_hom(void *m, int api)
{
	if (api)
		micropp_homogenize_();
	else
		M->homogenize();
}
void sut_upd(void *m, int api)
{
	if (api)
		micropp_update_internal_variables_();
	else
		M->update_vars();
}
void sut_out(void *m, int api, int t, int gp)
{
	if (api)
		micropp_output_(&t, &gp);
	else
		M->output(t, gp);
}
void sut_info(void *m, int api)
{
	if (api)
		micropp_write_convergence_file_();
	else
		M->write_info_files();
}
void sut_stress(void *m, int api, int gp, double *s)
{
	if (api)
		micropp_get_macro_stress_(&gp, s);
	else
		M->get_macro_stress(gp, s);
}
void sut_ctan(void *m, int api, int gp, double *c)
{
	if (api)
		micropp_get_macro_ctan_(&gp, c);
	else
		M->get_macro_ctan(gp, c);
}
void sut_flag(void *m, int api, int gp, int *f)
{
	if (api)
		micropp_get_non_linear_flag_(&gp, f);
	else
		M->get_nl_flag(gp, f);
}
