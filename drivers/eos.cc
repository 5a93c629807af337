// equations of state
#include <cfloat>
#include "vf_out.h"
#include "default_physics.h"
#include "eos.h"
#include "vf_body.h"
#define X extern "C"
X int vf_kind(int i) { const int v[] = {param::eos_polytropic, param::eos_ideal, param::eos_wd, param::eos_ppt, param::eos_no_eos}; return v[i]; }
X void vf_select(int t, double g, double g2, double thr) {
  param::_eos_type = (param::eos_type_keyword)t; param::_poly_gamma = g; param::_poly_gamma2 = g2; param::_ppt_density_thr = thr;
  eos::select();
}
X void vf_init(body * b) { eos::init(*b); }
X void vf_P(body * b) { eos::compute_pressure(*b); }
X void vf_c(body * b) { eos::compute_soundspeed(*b); }
X void vf_u(body * b) { eos::compute_internal_energy(*b); }
