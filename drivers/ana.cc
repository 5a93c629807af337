// global sums and statistics, domain range
#include <cfloat>
#include <iostream>
#include "vf_out.h"
#include <mpi.h>
#include "default_physics.h"
#include "bodies_system.h"
#include "analysis.h"
#include "diagnostic.h"
#include "vf_body.h"
#define X extern "C"
X double vfm_phi(const double *);
static double ePhi(const point_t & p) { double x[gdimension]; for(size_t i = 0; i < gdimension; ++i) x[i] = p[i]; return vfm_phi(x); }
X void vf_ext() { external_force::vec_potentials.push_back(ePhi); }
X void vf_therm(bool b, bool f) { param::_thermokinetic_formulation = b; param::_enable_fmm = f; }
#define NB std::vector<body> v(b, b + n)
#define PT(p) for(size_t i = 0; i < gdimension; ++i) o[i] = p[i]
X void vf_mass(body * b, int n, double * o) { NB; analysis::compute_total_mass(v); *o = analysis::total_mass; }
X void vf_momentum(body * b, int n, double * o) { NB; analysis::compute_total_momentum(v); PT(analysis::linear_momentum); }
X void vf_energy(body * b, int n, double * o) { NB; analysis::compute_total_energy(v); *o = analysis::total_energy; }
X void vf_kinetic(body * b, int n, double * o) { NB; analysis::compute_total_kinetic_energy(v); *o = analysis::total_kinetic_energy; }
X void vf_internal(body * b, int n, double * o) { NB; analysis::compute_total_internal_energy(v); *o = analysis::total_internal_energy; }
X void vf_gravity(body * b, int n, double * o) { NB; analysis::compute_total_gravitational_energy(v); *o = analysis::total_gravitational_energy; }
X void vf_angmom(body * b, int n, double * o) { NB; analysis::compute_total_ang_mom(v); PT(analysis::total_ang_mom); }
X void vf_neighbors(body * b, int n, long t, unsigned long * o) { NB; diagnostic::compute_neighbors_stats(v, t); o[0] = diagnostic::N_min; o[1] = diagnostic::N_max; o[2] = diagnostic::N_average; }
X void vf_hstats(body * b, int n, long t, double * o) { NB; diagnostic::compute_smoothinglength_stats(v, t); o[0] = diagnostic::h_min; o[1] = diagnostic::h_max; o[2] = diagnostic::h_average; }
X void vf_vstats(body * b, int n, long t, double * o) { NB; diagnostic::compute_velocity_stats(v, t); o[0] = diagnostic::V_min; o[1] = diagnostic::V_max; o[2] = diagnostic::V_average; }
X void vf_range(body * b, int n, double * o) {
  NB; std::array<point_t, 2> r; alignas(16) static char buf[sizeof(body_system<double, gdimension>)];
  ((body_system<double, gdimension> *)buf)->mpi_compute_range(v, r);
  PT(r[0]); o += gdimension; PT(r[1]);
}
typedef body_system<double, gdimension> bsys;
X bsys * vf_new() { return new bsys; }
X void vf_set(bsys * s, body * b, int n) { s->getLocalbodies() = std::vector<body>(b, b + n); }
X double vf_hmax(bsys * s) { return s->getSmoothinglength(); }
X void vf_scalar(bsys * s, int rank) { analysis::scalar_output(*s, rank); }
X void vf_diag(bsys * s, int rank) { diagnostic::output(*s, rank); }
X void vf_every(long it, double t, double dt, int every, bool fmm, bool ie) {
  physics::iteration = it; physics::totaltime = t; physics::dt = dt;
  param::_out_scalar_every = every; param::_out_scalar_dt = 0; param::_out_diagnostic_every = every;
  param::_enable_fmm = fmm; param::_evolve_internal_energy = ie;
}
X unsigned long vf_node_size() { return sizeof(node); }
typedef std::remove_pointer<decltype(((bsys *)0)->tree()->root_node())>::type vf_node;
X void vf_node_at(vf_node * c, const double * x) { new(c) node(key_type(1)); point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i]; c->set_coordinates(p); }
X double vf_diag_get(int i) { using namespace diagnostic; const double v[] = {min_dist, average_dist_in_h, (double)N_ghosts}; return v[i]; }
X void vf_total(bsys * s, long n) { /* number of particles of all ranks */ *(long *)s = n; }
X long vf_gettotal(bsys * s) { return s->getNBodies(); }
X void vfm_visit(void *);
static void visit(body & b) { vfm_visit(&b); }
X void vf_all(bsys * s) { s->apply_all(visit); }
X void * vf_first(bsys * s) { return s->getLocalbodies().data(); }
// when output is due
X void vf_when(long it, double t, int se, int ce, int he, int de, double sd, double cd, double hd, double ts, double tc, double th) {
  using namespace param;
  physics::iteration = it; physics::totaltime = t;
  _out_screen_every = se; _out_scalar_every = ce; _out_h5data_every = he; _out_diagnostic_every = de;
  _out_screen_dt = sd; _out_scalar_dt = cd; _out_h5data_dt = hd;
  physics::t_screen_output = ts; physics::t_scalar_output = tc; physics::t_h5data_output = th;
}
X void vf_screen(int rank) { analysis::screen_output(rank); }
X void vf_h5(bsys * s, int rank) { analysis::h5data_output(*s, rank); }
X void vf_stop(int last, double final) { param::_final_iteration = last; param::_final_time = final; }
X bool vf_stopped() { return physics::termination_criteria(); }
X void vf_initial(long it, double t, double dt) { param::_initial_iteration = it; param::_initial_time = t; param::_initial_dt = dt; analysis::set_initial_time_iteration(); }
X void vf_next(bool adaptive, double dt, double next) { param::_adaptive_timestep = adaptive; physics::dt = dt; physics::totaltime_next = next; physics::advance_time(); }
X double vf_clock_t() { return physics::totaltime; }
X double vf_clock_dt() { return physics::dt; }
X long vf_clock_it() { return physics::iteration; }
X double vf_due(int k) { return k == 0 ? physics::t_screen_output : k == 1 ? physics::t_scalar_output : physics::t_h5data_output; }
