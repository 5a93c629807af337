// a driver's main loop
#include <cfloat>
#include <iostream>
#include "vf_out.h"
#include <mpi.h>
#include VF_DRIVER
#include "vf_body.h"
#define X extern "C"
X void vf_run(const char * f) { flecsi::execution::mpi_init_task(f); }
X void vf_fill(std::vector<body> * v, const body * b, int n) { v->clear(); for(int i = 0; i < n; ++i) v->push_back(b[i]); }
X body * vf_data(std::vector<body> * v) { return v->data(); }
X int vf_count(std::vector<body> * v) { return v->size(); }
X std::vector<body> * vf_entities(body_system<double, gdimension> * s) { return &s->getLocalbodies(); }
X std::vector<body> * vf_ents(tree_topology_t * t) { return &t->entities(); }
X unsigned long vf_vec_size() { return sizeof(std::vector<body *>); }
X void vf_list(std::vector<body *> * v, body * a, body * b) { new(v) std::vector<body *>(); v->push_back(a); v->push_back(b); }
X long vf_iter() { return physics::iteration; }
X double vf_time() { return physics::totaltime; }
X double vf_dt() { return physics::dt; }
X void vf_config(bool evolve, bool thermo, bool cullen, bool adaptive, bool relax, int passes, int h, bool fmm, int last, double dt, double t, double gamma, double repulsion) {
  using namespace param;
  _evolve_internal_energy = evolve; _thermokinetic_formulation = thermo; _sph_viscosity = cullen ? visc_cullen : visc_constant; _adaptive_timestep = adaptive;
  _relaxation_steps = relax ? 2 : 0; _relaxation_gamma = gamma; _relaxation_repulsion_gamma = repulsion; _pressure_updates_number = passes; _sph_variable_h = h == 1; _sph_update_uniform_h = h == 2; _enable_fmm = fmm;
  _initial_iteration = 0; _final_iteration = last; _final_time = 0; _initial_dt = dt; _initial_time = t;
  _wvt_convergence_check = false; _wvt_cool_down = 1;
  _out_screen_every = 0; _out_scalar_every = 0; _out_diagnostic_every = 0; _out_h5data_every = 1; _out_screen_dt = 0; _out_scalar_dt = 0; _out_h5data_dt = 0;
}
X void vf_setclock(double t, double dt) { physics::totaltime = t; physics::dt = dt; }
X void vf_outputs(int every, double dt, double final, int last, bool check, int screen, int scalar) {
  using namespace param;
  _out_screen_every = screen; _out_scalar_every = scalar; _out_diagnostic_every = every; _out_h5data_every = every;
  _out_screen_dt = dt; _out_scalar_dt = dt; _out_h5data_dt = dt; _final_time = final; _final_iteration = last; _wvt_convergence_check = check;
}
typedef std::remove_pointer<decltype(((body_system<double, gdimension> *)0)->tree()->root_node())>::type vf_node;
X unsigned long vf_node_size() { return sizeof(vf_node); }
X void vf_node_at(vf_node * c, const double * x) { new(c) node(key_type(1)); point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]; c->set_coordinates(p); }
X void vf_times(double s, double c, double h, int se, int ce, int he, int de, int it0, double t0, double dt0, int last, double final, bool adaptive, bool check, int cool) {
  using namespace param;
  _out_screen_dt = s; _out_scalar_dt = c; _out_h5data_dt = h;
  _out_screen_every = se; _out_scalar_every = ce; _out_h5data_every = he; _out_diagnostic_every = de;
  _initial_iteration = it0; _initial_time = t0; _initial_dt = dt0; _final_iteration = last; _final_time = final;
  _adaptive_timestep = adaptive; _wvt_convergence_check = check; _wvt_cool_down = cool;
}
X void vf_converged() {
#ifdef VF_WVT
  wvt_basic::wvt_converged = true;
#endif
}
