// particle interactions, integration, tree-node aggregates and gravity
#include <cfloat>
#include <iostream>
#include <mpi.h>
#include "default_physics.h"
#include "vf_body.h"
#define X extern "C"
// smoothing kernel and equation of state stand for any: values come from the analysis
X double vfm_W(double r2, double h);
X double vfm_F(double r2, double h);
X double vfm_P(const double *, int);
static double vW(const double & r, const double & h) { return vfm_W(r * r, h); }
static point_t vG(const point_t & p, const double & h) {
  double r2 = 0;
  for(size_t i = 0; i < gdimension; ++i) r2 += p[i] * p[i];
  double f = vfm_F(r2, h);
  point_t g;
  for(size_t i = 0; i < gdimension; ++i) g[i] = p[i] * f;
  return g;
}
X void vf_kernel() { kernels::sph_kernel_function = vW; kernels::sph_kernel_gradient = vG; }
X double vfm_eosP(double, double, double, double);
X double vfm_eosC(double, double, double, double);
static void eP(body & b) { b.setPressure(vfm_eosP(b.getDensity(), b.getInternalenergy(), b.getAdiabatic(), b.getElectronfraction())); }
static void eC(body & b) { b.setSoundspeed(vfm_eosC(b.getDensity(), b.getInternalenergy(), b.getAdiabatic(), b.getElectronfraction())); }
X void vf_eos() { eos::compute_pressure = eP; eos::compute_soundspeed = eC; }
X double vfm_phi(const double *);
X void vfm_acc(const double *, double *);
static double ePhi(const point_t & p) { double x[gdimension]; for(size_t i = 0; i < gdimension; ++i) x[i] = p[i]; return vfm_phi(x); }
static point_t eAcc(const body & b) { double x[gdimension], a[gdimension]; point_t p = b.coordinates(), r; for(size_t i = 0; i < gdimension; ++i) x[i] = p[i]; vfm_acc(x, a); for(size_t i = 0; i < gdimension; ++i) r[i] = a[i]; return r; }
X void vf_ext() { external_force::vec_potentials.push_back(ePhi); external_force::vec_accelerations.push_back(eAcc); }
X void vf_visc(int k) { param::_sph_viscosity = (param::sph_viscosity_keyword)k; viscosity::select(); }
X int vf_visc_constant() { return param::visc_constant; }
X int vf_visc_cullen() { return param::visc_cullen; }
X void vf_dt(double d) { physics::dt = d; }
X void vf_iter(long i) { physics::iteration = i; }
X void vf_therm(bool a, bool b) { param::_evolve_internal_energy = a; param::_thermokinetic_formulation = b; }
#define NB std::vector<body *> v(nb, nb + n)
X void vf_density(body * a, body ** nb, int n) { NB; physics::compute_density(*a, v); }
X void vf_accel(body * a, body ** nb, int n) { NB; physics::compute_acceleration(*a, v); }
X void vf_dudt(body * a, body ** nb, int n) { NB; physics::compute_dudt(*a, v); }
X void vf_dedt(body * a, body ** nb, int n) { NB; physics::compute_dedt(*a, v); }
X void vf_signal(body * a, body ** nb, int n) { NB; physics::compute_signalspeed(*a, v); }
X void vf_divv(body * a, body ** nb, int n) { NB; physics::compute_divv(*a, v); }
X void vf_repulse(body * a, body ** nb, int n) { NB; physics::add_short_range_repulsion(*a, v); }
X void vf_dps(body * a, body ** nb, int n) { NB; physics::compute_density_pressure_soundspeed(*a, v); }
X void vf_alpha(body * a, body ** nb, int n) { NB; viscosity::compute_alpha(*a, v); }
X double vf_mu(double h, const double * v, const double * p) {
  point_t a, b;
  for(size_t i = 0; i < gdimension; ++i) { a[i] = v[i]; b[i] = p[i]; }
  return viscosity::mu(h, a, b);
}
X double vf_Pi(double al, double rho, double c, double mu) { return viscosity::sph_artificial_viscosity(al, rho, c, mu); }
X double vf_av(double rho, double c, double mu) { return viscosity::artificial_viscosity(rho, c, mu); }
X void vf_alpha0(body * a) { viscosity::initialize_alpha(*a); }
X void vf_etot(body * a) { physics::set_total_energy(*a); }
X void vf_eint(body * a) { physics::recover_internal_energy(*a); }
X void vf_half(body * a) { physics::recompute_pressure_soundspeed(*a); }
X void vf_halft(body * a) { physics::recompute_pressure_soundspeed_thermokinetic(*a); }
X void vf_dragv(body * a) { physics::add_drag_acceleration(*a); }
X void vf_drage(body * a) { physics::add_drag_dedt(*a); }
X void vf_dragu(body * a) { physics::add_drag_dudt(*a); }
X void vf_cdt(body * a) { physics::compute_dt(*a); }
X void vf_kickv(body * a) { integration::leapfrog_kick_v(*a); }
X void vf_kicku(body * a) { integration::leapfrog_kick_u(*a); }
X void vf_kicke(body * a) { integration::leapfrog_kick_e(*a); }
X void vf_drift(body * a) { integration::leapfrog_drift(*a); }
X void vf_save(body * a) { integration::save_velocityhalf(*a); }
X void vf_dadt(body * a) { integration::dadt_integration(*a); }
#define BODIES std::vector<body> v(b, b + n)
#define BACK for(int i = 0; i < n; ++i) b[i] = v[i]
X void vf_adaptive(body * b, int n) { BODIES; physics::set_adaptive_timestep(v); BACK; }
X void vf_h(body * b, int n) { BODIES; physics::compute_smoothinglength(v); BACK; }
X void vf_hav(body * b, int n, long tot) { BODIES; physics::compute_average_smoothinglength(v, tot); BACK; }
X double vf_get_dt() { return physics::dt; }
X double vf_get_time() { return physics::totaltime; }
X long vf_get_iter() { return physics::iteration; }
X void vf_clock(double t, double next) { physics::totaltime = t; physics::totaltime_next = next; }
X void vf_advance(int ad) { param::_adaptive_timestep = ad; physics::advance_time(); }
X bool vf_done() { return physics::termination_criteria(); }
X double vf_eta() { return param::sph_eta; }
X double vf_width() { return kernels::kernel_width; }
X void vf_outs(double s, double c, double h, double ts, double tc, double th, double saved) {
  param::_out_screen_dt = s; param::_out_scalar_dt = c; param::_out_h5data_dt = h;
  physics::t_screen_output = ts; physics::t_scalar_output = tc; physics::t_h5data_output = th; physics::dt_saved = saved;
}
X void vf_cofm(node * c, body ** e, int n, node ** k, int j) { std::vector<body *> v(e, e + n); std::vector<node *> w(k, k + j); physics::compute_cofm(c, v, w); }
X unsigned long vf_node_size() { return sizeof(node); }
// s: centre, lower and upper corner, mass, radius, margin
X void vf_node_put(node * c, const double * s, unsigned long sub) {
  new(c) node(key_type(1));
  point_t p, lo, hi;
  for(size_t i = 0; i < gdimension; ++i) { p[i] = s[i]; lo[i] = s[gdimension + i]; hi[i] = s[2 * gdimension + i]; }
  s += 3 * gdimension;
  c->set_coordinates(p); c->set_bmin(lo); c->set_bmax(hi);
  c->set_mass(s[0]); c->set_radius(s[1]); c->set_lap(s[2]);
  c->set_sub_entities(sub);
}
X unsigned long vf_node_get(node * c, double * o) {
  for(size_t i = 0; i < gdimension; ++i) { o[i] = c->coordinates()[i]; o[gdimension + i] = c->bmin()[i]; o[2 * gdimension + i] = c->bmax()[i]; }
  o += 3 * gdimension;
  o[0] = c->mass(); o[1] = c->radius(); o[2] = c->lap();
  return c->sub_entities();
}
X double vf_beta() { return param::relaxation_beta; }
X double vf_gamma() { return param::relaxation_gamma; }
X double vf_cfl() { return param::timestep_cfl_factor; }
X double vf_valpha() { return param::sph_viscosity_alpha; }
X double vf_due_s() { return physics::t_screen_output; }
X double vf_due_c() { return physics::t_scalar_output; }
X double vf_due_h() { return physics::t_h5data_output; }
